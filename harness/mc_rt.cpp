// Runtime: controlled scheduler, vector-clock race detector, model of mutexes, condition variables, joins and statics.
// Compiled without instrumentation.
#include "mc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace mc {
Options opt;
enum { MAXT = 16 };
typedef uint32_t u32;
typedef uint64_t u64;
struct VC {
	u32 c[MAXT];
	void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
enum Op { NONE, LOCK, COND, JOIN, GUARD, WRLOCK, RDLOCK, FINISHED };
struct Thread {
	int id;
	int go;              // futex
	Op op;
	void* obj;
	void* mtx;           // for COND
	bool signaled, timed, timedout, yielded, started, detached;
	u64 waitseq;
	VC vc, relv, acqv;
	void* (*start)(void*);
	void* arg;
	void* ret;
	pthread_t real;
	bool has_real;
};
static Thread th[MAXT];
static int nth = 1;
static int cur = 0;
static bool g_active = false, g_explore = true;
static Result* res;
static Dev devs[MAXDEVS];
static int ndevs, nextdev;
static u32 consecutive;
static u64 waitseq;
static thread_local int my_id = 0;
static thread_local bool my_done = false;

bool active() { return g_active; }

static u64 mixh(u64 h, u64 v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }

void violation(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(res->msg, sizeof res->msg, fmt, ap);
	va_end(ap);
	res->status = 2;
	_exit(99);
}
void outcome(u64 h) { res->outcome = mixh(res->outcome, h); }

// ---------------------------------------------------------------- choices
static unsigned pick_choice(unsigned n)
{
	if (n <= 1 || !g_explore) return 0;
	u32 i = res->npoints;
	if (i >= MAXPOINTS) violation("internal: too many choice points");
	res->alts[i] = (uint8_t)n;
	res->hash[i] = (u32)(res->trace >> 16);
	res->npoints = i + 1;
	if (nextdev < ndevs && devs[nextdev].point == i) {
		u32 c = devs[nextdev++].choice;
		if (c >= n) violation("internal: divergence while replaying (choice %u of %u at point %u)", c, n, i);
		return c;
	}
	return 0;
}
unsigned choose(unsigned n)
{
	if (!g_active) return 0;
	res->trace = mixh(res->trace, 0xC400 + n);
	return pick_choice(n);
}

// ---------------------------------------------------------------- tables
template<class V> struct Table {      // address -> V, open addressing, never shrinks
	enum { N = 1 << 14 };
	struct E { void* k; V v; };
	E* e;
	u32 n;
	V& get(void* k)
	{
		if (!e) e = (E*)mmap(nullptr, sizeof(E) * N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		u32 h = (u32)(((u64)k * 0x9E3779B97F4A7C15ull) >> 50);
		while (e[h].k && e[h].k != k) h = (h + 1) & (N - 1);
		if (!e[h].k) { if (++n > N / 2) violation("internal: table full"); e[h].k = k; }
		return e[h].v;
	}
};
struct Mutex { int owner; int readers; u32 count; VC vc, rvc; };  // owner: 0 free, else id + 1
struct Sync { VC vc; };
static Table<Mutex> mutexes;
static Table<Sync> syncs;
static Table<int> guards;   // 0 unknown, 1 in progress, 2 done

// ---------------------------------------------------------------- scheduler
static void fwait(int* p)
{
	while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	__atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void fwake(int* p)
{
	__atomic_store_n(p, 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static bool can_run(Thread& t)
{
	switch (t.op) {
		case NONE: return true;
		case LOCK: case WRLOCK: { Mutex& m = mutexes.get(t.obj); return m.owner == 0 && m.readers == 0; }
		case RDLOCK: return mutexes.get(t.obj).owner == 0;
		case COND: { if (!t.signaled) return false; Mutex& m = mutexes.get(t.mtx); return m.owner == 0; }
		case JOIN: return th[(long)t.obj].op == FINISHED;
		case GUARD: return guards.get(t.obj) != 1;
		case FINISHED: return false;
	}
	return false;
}
static const char* opname(Op o) { static const char* n[] = { "ready", "lock", "condition", "join", "static", "wrlock", "rdlock", "finished" }; return n[o]; }

// picks the thread that runs next
static int pick()
{
	for (;;) {
		int list[2 * MAXT], n = 0;
		if (can_run(th[cur]) && !th[cur].yielded) list[n++] = cur;
		for (int k = 1; k < nth; ++k) {
			int t = (cur + k) % nth;
			if (can_run(th[t]) && !th[t].yielded) list[n++] = t;
		}
		if (n == 0) {
			bool any = false;
			for (int i = 0; i < nth; ++i) if (th[i].yielded && can_run(th[i])) any = true;
			if (any) { for (int i = 0; i < nth; ++i) th[i].yielded = false; continue; }
			for (int i = 0; i < nth && !any; ++i) if (th[i].op == COND && th[i].timed && !th[i].signaled) { th[i].signaled = th[i].timedout = true; any = true; }
			if (any) continue;
			char s[600]; int p = 0;
			for (int i = 0; i < nth; ++i) p += snprintf(s + p, sizeof s - (size_t)p, " thread %d: %s;", i, opname(th[i].op));
			violation("deadlock:%s", s);
		}
		int nreal = n;
		if (opt.spurious && g_explore)
			for (int i = 0; i < nth; ++i) if (th[i].op == COND && !th[i].signaled) list[n++] = i;
		int k = (int)pick_choice((unsigned)n);
		if (k >= nreal) { th[list[k]].signaled = true; th[list[k]].timedout = th[list[k]].timed; ++res->spurious; res->trace = mixh(res->trace, 0x5900u + (unsigned)list[k]); continue; }
		return list[k];
	}
}
static void dispatch()
{
	int n = pick();
	for (int i = 0; i < nth; ++i) if (i != n) th[i].yielded = false;
	int me = my_id;
	if (n != cur) { ++res->switches; consecutive = 0; } else ++consecutive;
	cur = n;
	if (n != me) {
		fwake(&th[n].go);
		if (th[me].op != FINISHED) fwait(&th[me].go);
	}
}
static void* base_addr;
static u64 rel(const void* p) { return (u64)p; }
static void point(Op op, void* obj, unsigned kind)
{
	if (!g_active || my_done) return;
	if (!g_explore && op == NONE && kind != 3 && ++consecutive < 1000) return;
	Thread& t = th[my_id];
	t.op = op;
	t.obj = obj;
	if (++res->nsteps > opt.step_limit) {
		char s[600]; int p = 0;
		for (int i = 0; i < nth; ++i) p += snprintf(s + p, sizeof s - (size_t)p, " thread %d: %s;", i, opname(th[i].op));
		violation("no progress after %u steps (livelock):%s", opt.step_limit, s);
	}
	res->trace = mixh(res->trace, (u64)my_id << 8 | kind);
	if (consecutive > 400) { t.yielded = true; consecutive = 0; }
	dispatch();
	t.op = NONE;
}

void explore(bool on) { if (g_active) { g_explore = on; consecutive = 0; } }
void settle()
{
	for (int k = 0; k < 1000; ++k) {
		bool any = false;
		for (int i = 0; i < nth; ++i) if (i != my_id && can_run(th[i])) any = true;
		if (!any) return;
		th[my_id].yielded = true;
		point(NONE, nullptr, 3);
	}
}

// ---------------------------------------------------------------- happens-before
static inline void tick(Thread& t) { ++t.vc.c[t.id]; }

struct Cell { u32 w, r, wpc, rpc; };   // epochs: thread << 24 | clock ; r with the top bit: index of a read vector
struct Page { u64 no; Cell* cells; };
enum { NPAGES = 1 << 16, PB = 9, PS = 1 << PB, PM = PS - 1 };   // shadow pages of 512 bytes
static Page* pages;
struct Freed { u64 a, e; u32 pc; };
enum { MAXFREED = 1 << 16 };
static Freed* freed; static u32 nfreed;   // freed ranges without shadow: marked when their shadow is made
static Cell* cellpool; static size_t cellused, cellcap;
static u32 (*readvecs)[MAXT]; static u32 nreadvecs;
static const u32 FREED = 0x7FFFFFFF;

static inline u32 page_slot(u64 no)
{
	u32 h = (u32)(no + (no >> 20) * 0x9E37) & (NPAGES - 1);
	while (pages[h].no && pages[h].no != no) h = (h + 1) & (NPAGES - 1);
	return h;
}
static Cell* page_of(u64 no)
{
	u32 h = page_slot(no);
	if (__builtin_expect(!pages[h].no, 0)) {
		if (cellused + PS > cellcap || cellused / PS > NPAGES / 2) violation("internal: shadow full");
		pages[h].no = no;
		Cell* c = pages[h].cells = cellpool + cellused;
		cellused += PS;
		u64 a = no << PB, e = a + PS;
		for (u32 i = 0; i < nfreed; ++i)
			if (freed[i].a < e && freed[i].e > a)
				for (u64 x = freed[i].a > a ? freed[i].a : a; x < e && x < freed[i].e; ++x) { c[x & PM].w = FREED; c[x & PM].wpc = freed[i].pc; }
	}
	return pages[h].cells;
}
static const char* where(u32 pc)
{
	static char b[4][32]; static int k;
	char* r = b[k++ & 3];
	snprintf(r, 32, "+0x%x", pc);
	return r;
}
static void race(const char* a, const char* b, int t1, int t2, u32 pc1, u32 pc2, const void* p)
{
	(void)p;
	violation("data race: %s by thread %d [%s] and %s by thread %d [%s]", a, t1, where(pc1), b, t2, where(pc2));
}
static inline void access(const void* ptr, size_t n, bool w, void* pcv)
{
	if (!g_active || my_done || !n) return;
	u32 pc = (u32)((u64)pcv - (u64)base_addr);
	Thread& t = th[my_id];
	u32 me = (u32)t.id << 24 | t.vc.c[t.id];
	++res->accesses;
	u64 a = (u64)ptr, e = a + n;
	while (a < e) {
		Cell* c = page_of(a >> PB);
		u64 lim = (a | PM) + 1;
		if (lim > e) lim = e;
		for (; a < lim; ++a) {
			Cell& x = c[a & PM];
			if (x.w == FREED) violation("access to freed memory by thread %d [%s], freed at [%s]", t.id, where(pc), where(x.wpc));
			if (x.w == me) { if (w) continue; }
			else if (x.w && (x.w & 0xFFFFFF) > t.vc.c[x.w >> 24]) race("write", w ? "write" : "read", (int)(x.w >> 24), t.id, x.wpc, pc, (void*)a);
			if (!w) {
				if (x.r == me) continue;
				if (x.r & 0x80000000u) { readvecs[x.r & 0x7FFFFFFF][t.id] = t.vc.c[t.id]; x.rpc = pc; }
				else if (!x.r || (x.r & 0xFFFFFF) <= t.vc.c[x.r >> 24]) { x.r = me; x.rpc = pc; }
				else {
					u32 v = nreadvecs++;
					if (v >= 1u << 20) violation("internal: too many shared cells");
					readvecs[v][x.r >> 24] = x.r & 0xFFFFFF;
					readvecs[v][t.id] = t.vc.c[t.id];
					x.r = 0x80000000u | v;
				}
			}
			else {
				if (x.r & 0x80000000u) {
					u32* v = readvecs[x.r & 0x7FFFFFFF];
					for (int i = 0; i < nth; ++i) if (v[i] > t.vc.c[i]) race("read", "write", i, t.id, x.rpc, pc, (void*)a);
				}
				else if (x.r && (x.r & 0xFFFFFF) > t.vc.c[x.r >> 24]) race("read", "write", (int)(x.r >> 24), t.id, x.rpc, pc, (void*)a);
				x.w = me; x.r = 0; x.wpc = pc;
			}
		}
	}
}
static void forget(const void* ptr, size_t n)
{
	u64 a = (u64)ptr, e = a + n;
	while (a < e) {
		u64 lim = (a | PM) + 1;
		if (lim > e) lim = e;
		u32 h = page_slot(a >> PB);
		if (pages[h].no) memset(&pages[h].cells[a & PM], 0, sizeof(Cell) * (lim - a));
		a = lim;
	}
}
void acc_read(const void* p, size_t n) { access(p, n, false, __builtin_return_address(0)); }
void acc_write(void* p, size_t n) { access(p, n, true, __builtin_return_address(0)); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool rels(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void sync_load(void* a, int mo)
{
	Thread& t = th[my_id];
	Sync& s = syncs.get(a);
	if (acq(mo)) t.vc.join(s.vc); else t.acqv.join(s.vc);
}
static void sync_store(void* a, int mo)
{
	Thread& t = th[my_id];
	Sync& s = syncs.get(a);
	if (rels(mo)) { s.vc = t.vc; tick(t); } else s.vc = t.relv;
}
static void sync_rmw(void* a, int mo)
{
	Thread& t = th[my_id];
	Sync& s = syncs.get(a);
	if (acq(mo)) t.vc.join(s.vc); else t.acqv.join(s.vc);
	if (rels(mo)) { s.vc.join(t.vc); tick(t); } else s.vc.join(t.relv);
}

// ---------------------------------------------------------------- memory: a bump arena in the child, never reused
static char *arena, *arena_p, *arena_e;
struct Hdr { size_t size; u32 magic, freed; };
static bool in_arena(void* p) { return (char*)p >= arena && (char*)p < arena_e; }
static void* a_alloc(size_t n, size_t al)
{
	u64 p = ((u64)arena_p + sizeof(Hdr) + al - 1) & ~(u64)(al - 1);
	if ((char*)p + n + 64 > arena_e) return nullptr;
	Hdr* h = (Hdr*)p - 1;
	h->size = n; h->magic = 0xA11C; h->freed = 0;
	arena_p = (char*)p + n;
	return (void*)p;
}
static void a_free(void* p, void* pc)
{
	Hdr* h = (Hdr*)p - 1;
	if (h->magic != 0xA11C) violation("free of an invalid pointer");
	if (h->freed) violation("double free by thread %d", my_id);
	h->freed = 1;
	if (my_done || !g_active) return;
	u32 pcr = (u32)((u64)pc - (u64)base_addr);
	u64 a = (u64)p, e = a + h->size;
	while (a < e) {
		u64 lim = (a | PM) + 1;
		if (lim > e) lim = e;
		u32 s = page_slot(a >> PB);
		if (pages[s].no) {
			access((void*)a, lim - a, true, pc);
			for (u64 x = a; x < lim; ++x) { pages[s].cells[x & PM].w = FREED; pages[s].cells[x & PM].wpc = pcr; }
		}
		else if (nfreed && freed[nfreed - 1].e == a && freed[nfreed - 1].pc == pcr) freed[nfreed - 1].e = lim;
		else if (nfreed < MAXFREED) freed[nfreed++] = { a, lim, pcr };
		else violation("internal: too many freed ranges");
		a = lim;
	}
}

// ---------------------------------------------------------------- life cycle
static pthread_key_t end_key;
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);

static void thread_end(void*)
{
	if (!g_active) return;
	Thread& t = th[my_id];
	my_done = true;
	t.op = FINISHED;
	tick(t);
	res->trace = mixh(res->trace, (u64)my_id << 8 | 0xEE);
	dispatch();
}
static void* trampoline(void* p)
{
	Thread& t = *(Thread*)p;
	my_id = t.id;
	pthread_setspecific(end_key, &t);
	fwait(&t.go);
	pthread_attr_t at;
	if (pthread_getattr_np(pthread_self(), &at) == 0) {
		void* s; size_t n;
		pthread_attr_getstack(&at, &s, &n);
		char* here = (char*)__builtin_frame_address(0);
		(void)here;
		forget(s, n);
		pthread_attr_destroy(&at);
	}
	t.op = NONE;
	t.ret = t.start(t.arg);
	return t.ret;
}
static void start_os_thread(Thread& t)
{
	if (real_create(&t.real, nullptr, trampoline, &t) != 0) violation("internal: pthread_create failed");
	t.has_real = true;
}
static void finish()
{
	if (!g_active) return;
	g_active = false;
	res->nthreads = (u32)nth;
	if (nextdev != ndevs) { snprintf(res->msg, sizeof res->msg, "internal: divergence while replaying (deviation not reached)"); res->status = 2; _exit(99); }
	res->status = 1;
	_exit(0);
}
__attribute__((constructor(101))) static void init_rt()
{
	atexit(finish);
	real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
	real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
	pthread_key_create(&end_key, thread_end);
	size_t A = (size_t)1 << 30;
	arena = arena_p = (char*)mmap(nullptr, A, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	arena_e = arena + A;
	cellcap = (size_t)1 << 26;
	cellpool = (Cell*)mmap(nullptr, cellcap * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	pages = (Page*)mmap(nullptr, sizeof(Page) * NPAGES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	freed = (Freed*)mmap(nullptr, sizeof(Freed) * MAXFREED, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	readvecs = (u32(*)[MAXT])mmap(nullptr, sizeof(u32) * MAXT << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) -> int { base_addr = (void*)i->dlpi_addr; return 1; }, nullptr);
}

Result& execute(void (*body)(), const Dev* d, int n)
{
	for (int attempt = 0;; ++attempt) {
		memset((void*)res, 0, offsetof(Result, alts));
		ndevs = n;
		for (int i = 0; i < n; ++i) devs[i] = d[i];
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			alarm(opt.timeout * (attempt ? 4u : 1u));
			for (int i = 0; i < MAXT; ++i) { th[i].id = i; th[i].vc.c[i] = 1; }
			th[0].started = true;
			nextdev = 0;
			g_explore = opt.explore_start;
			g_active = true;
			for (int i = 1; i < nth; ++i) {
				th[i].vc.join(th[0].vc);
				th[i].vc.c[i] = 1;
				start_os_thread(th[i]);
			}
			tick(th[0]);
			body();
			exit(0);
		}
		if (pid < 0) { usleep(20000); continue; }
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && attempt == 0) continue;   // once more with a longer limit
		if (res->status == 0) {
			res->status = 2;
			if (WIFSIGNALED(st)) snprintf(res->msg, sizeof res->msg, WTERMSIG(st) == SIGALRM ? "execution does not terminate" : "crash (signal %d)", WTERMSIG(st));
			else snprintf(res->msg, sizeof res->msg, "process ended with code %d", WEXITSTATUS(st));
		}
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && attempt < 3) continue;
		return *res;
	}
}
}
using namespace mc;

// ---------------------------------------------------------------- interposed libc / pthread
extern "C" {
void* malloc(size_t n) { return g_active ? a_alloc(n, 16) : __libc_malloc(n); }
void free(void* p)
{
	if (!p) return;
	if (in_arena(p)) a_free(p, __builtin_return_address(0));
	else if (!g_active) __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) return nullptr;
	return g_active ? a_alloc(n, 16) : __libc_calloc(a, b);
}
void* realloc(void* p, size_t n)
{
	if (!g_active && !in_arena(p)) return __libc_realloc(p, n);
	void* r = malloc(n);
	if (p && r) {
		size_t o = in_arena(p) ? ((Hdr*)p - 1)->size : n;
		memcpy(r, p, o < n ? o : n);
		free(p);
	}
	return r;
}
void* memalign(size_t al, size_t n) { return g_active ? a_alloc(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { void* r = memalign(al, n); if (!r) return ENOMEM; *p = r; return 0; }

int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*start)(void*), void* arg)
{
	if (nth >= MAXT) return EAGAIN;
	if (g_active) point(NONE, nullptr, 1);
	Thread& t = th[nth];
	t.id = nth;
	t.start = start;
	t.arg = arg;
	t.op = NONE;
	*out = (pthread_t)(0x1000 + nth);
	if (g_active) {
		Thread& me = th[my_id];
		t.vc.join(me.vc);
		t.vc.c[t.id] = 1;
		tick(me);
		start_os_thread(t);
	}
	++nth;
	return 0;
}
int pthread_join(pthread_t h, void** ret)
{
	long i = (long)h - 0x1000;
	if (i <= 0 || i >= nth) return ESRCH;
	if (!g_active) return 0;
	point(JOIN, (void*)i, 2);
	th[my_id].vc.join(th[i].vc);
	if (th[i].has_real) { real_join(th[i].real, nullptr); th[i].has_real = false; }
	if (ret) *ret = th[i].ret;
	return 0;
}
int pthread_detach(pthread_t) { return 0; }
int sched_yield()
{
	if (!g_active || my_done) return 0;
	++res->yields;
	th[my_id].yielded = true;
	point(NONE, nullptr, 3);
	return 0;
}
static void m_acquire(Mutex& m) { Thread& t = th[my_id]; m.owner = t.id + 1; m.count = 1; t.vc.join(m.vc); t.vc.join(m.rvc); }
int pthread_mutex_lock(pthread_mutex_t* p)
{
	if (!g_active || my_done) return 0;
	Mutex& m = mutexes.get(p);
	if (m.owner == my_id + 1 && (p->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m.count; return 0; }
	point(LOCK, p, 4);
	m_acquire(m);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* p)
{
	if (!g_active || my_done) return 0;
	point(NONE, nullptr, 5);
	Mutex& m = mutexes.get(p);
	if (m.owner || m.readers) return EBUSY;
	m_acquire(m);
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* p)
{
	if (!g_active || my_done) return 0;
	Mutex& m = mutexes.get(p);
	if (m.owner != my_id + 1) violation("thread %d unlocks a mutex it does not own", my_id);
	if (--m.count) return 0;
	m.owner = 0;
	m.vc.join(th[my_id].vc);
	tick(th[my_id]);
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* p)
{
	if (!g_active || my_done) return 0;
	point(WRLOCK, p, 6);
	m_acquire(mutexes.get(p));
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* p)
{
	if (!g_active || my_done) return 0;
	point(RDLOCK, p, 7);
	Mutex& m = mutexes.get(p);
	++m.readers;
	th[my_id].vc.join(m.vc);
	return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* p)
{
	if (!g_active || my_done) return 0;
	point(NONE, nullptr, 8);
	Mutex& m = mutexes.get(p);
	if (m.owner || m.readers) return EBUSY;
	m_acquire(m);
	return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p)
{
	if (!g_active || my_done) return 0;
	point(NONE, nullptr, 9);
	Mutex& m = mutexes.get(p);
	if (m.owner) return EBUSY;
	++m.readers;
	th[my_id].vc.join(m.vc);
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* p)
{
	if (!g_active || my_done) return 0;
	Mutex& m = mutexes.get(p);
	if (m.owner == my_id + 1) { m.owner = 0; m.vc.join(th[my_id].vc); }
	else if (m.readers > 0) { --m.readers; m.rvc.join(th[my_id].vc); }
	else violation("thread %d unlocks a rwlock it does not own", my_id);
	tick(th[my_id]);
	return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* p, bool timed)
{
	if (!g_active || my_done) return 0;
	Thread& t = th[my_id];
	Mutex& m = mutexes.get(p);
	if (m.owner != my_id + 1) violation("thread %d waits on a condition without the mutex", my_id);
	m.owner = 0;
	m.vc.join(t.vc);
	tick(t);
	t.mtx = p;
	t.signaled = false;
	t.timed = timed;
	t.timedout = false;
	t.waitseq = ++waitseq;
	++res->waits;
	point(COND, c, 10);
	m_acquire(m);
	return t.timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* p) { return cond_wait(c, p, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* p, const struct timespec*) { return cond_wait(c, p, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* p, clockid_t, const struct timespec*) { return cond_wait(c, p, true); }
int pthread_cond_signal(pthread_cond_t* c)
{
	if (!g_active || my_done) return 0;
	point(NONE, nullptr, 11);
	int list[MAXT], n = 0;
	for (int i = 0; i < nth; ++i) if (th[i].op == COND && th[i].obj == c && !th[i].signaled) list[n++] = i;
	for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (th[list[j]].waitseq < th[list[i]].waitseq) { int x = list[i]; list[i] = list[j]; list[j] = x; }
	if (n) th[list[pick_choice((unsigned)n)]].signaled = true;
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!g_active || my_done) return 0;
	point(NONE, nullptr, 12);
	for (int i = 0; i < nth; ++i) if (th[i].op == COND && th[i].obj == c) th[i].signaled = true;
	return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
	if (!g_active || my_done) return 0;
	for (int i = 0; i < nth; ++i) if (th[i].op == COND && th[i].obj == c && !th[i].signaled) violation("a condition variable is destroyed while thread %d waits on it", i);
	return 0;
}
int pthread_once(pthread_once_t* o, void (*f)())
{
	int& g = guards.get(o);
	if (!g_active || my_done) { if (g != 2) { g = 2; f(); } return 0; }
	point(GUARD, o, 13);
	if (g == 2) { th[my_id].vc.join(syncs.get(o).vc); return 0; }
	g = 1;
	f();
	guards.get(o) = 2;
	syncs.get(o).vc.join(th[my_id].vc);
	tick(th[my_id]);
	return 0;
}
int __cxa_guard_acquire(char* g)
{
	if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) { if (g_active && !my_done) th[my_id].vc.join(syncs.get(g).vc); return 0; }
	if (!g_active || my_done) { guards.get(g) = 1; return 1; }
	point(GUARD, g, 14);
	if (*g) { th[my_id].vc.join(syncs.get(g).vc); return 0; }
	guards.get(g) = 1;
	return 1;
}
void __cxa_guard_release(char* g)
{
	guards.get(g) = 2;
	__atomic_store_n(g, 1, __ATOMIC_RELEASE);
	if (!g_active || my_done) return;
	syncs.get(g).vc.join(th[my_id].vc);
	tick(th[my_id]);
}
void __cxa_guard_abort(char* g) { guards.get(g) = 0; }

// ---------------------------------------------------------------- ThreadSanitizer's interface
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
	void __tsan_read##n(void* p) { access(p, n, false, RA); } \
	void __tsan_write##n(void* p) { access(p, n, true, RA); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, RA); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true, RA); } \
	void __tsan_read_write##n(void* p) { access(p, n, true, RA); } \
	void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, false, RA); }
void __tsan_vptr_update(void** p, void* n) { if (*p != n) access(p, 8, true, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, RA); return memset(d, c, n); }

// volatile: 8 bytes behaves like an atomic pointer (acquire loads, release stores, as on x86), smaller ones like relaxed atomics
static void vol(void* p, bool w, int size)
{
	if (!g_active || my_done) return;
	point(NONE, nullptr, w ? 21 : 20);
	int mo = size == 8 ? (w ? __ATOMIC_RELEASE : __ATOMIC_ACQUIRE) : __ATOMIC_RELAXED;
	if (w) sync_store(p, mo); else sync_load(p, mo);
}
#define VOL(n) \
	void __tsan_volatile_read##n(void* p) { vol(p, false, n); } \
	void __tsan_volatile_write##n(void* p) { vol(p, true, n); } \
	void __tsan_unaligned_volatile_read##n(void* p) { vol(p, false, n); } \
	void __tsan_unaligned_volatile_write##n(void* p) { vol(p, true, n); }
VOL(1) VOL(2) VOL(4) VOL(8) VOL(16)

static inline bool pre(void* a, unsigned kind)
{
	if (!g_active || my_done) return false;
	(void)a;
	point(NONE, nullptr, kind);
	return true;
}
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int mo) \
	{ \
		if (g_active && !my_done && guards.get((void*)a) == 2) { th[my_id].vc.join(syncs.get((void*)a).vc); return *a; } \
		bool on = pre((void*)a, 30); \
		T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
		if (on) { sync_load((void*)a, mo); res->trace = mixh(res->trace, (u64)r); } \
		return r; \
	} \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) \
	{ \
		bool on = pre((void*)a, 31); \
		__atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
		if (on) sync_store((void*)a, mo); \
	} \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) \
	{ \
		bool on = pre((void*)a, 32); \
		T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
		if (on) sync_rmw((void*)a, mo); \
		return r; \
	} \
	T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { bool on = pre((void*)a, 33); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); if (on) sync_rmw((void*)a, mo); return r; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { bool on = pre((void*)a, 34); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); if (on) sync_rmw((void*)a, mo); return r; } \
	T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { bool on = pre((void*)a, 35); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); if (on) sync_rmw((void*)a, mo); return r; } \
	T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { bool on = pre((void*)a, 36); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); if (on) sync_rmw((void*)a, mo); return r; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { bool on = pre((void*)a, 37); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); if (on) sync_rmw((void*)a, mo); return r; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { bool on = pre((void*)a, 38); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); if (on) sync_rmw((void*)a, mo); return r; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
	{ \
		bool on = pre((void*)a, 39); \
		bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		if (on) { if (ok) sync_rmw((void*)a, mo); else sync_load((void*)a, fmo); res->trace = mixh(res->trace, ok); } \
		return ok; \
	} \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
	if (!g_active || my_done) return;
	point(NONE, nullptr, 40);
	Thread& t = th[my_id];
	if (acq(mo)) t.vc.join(t.acqv);
	if (mo == __ATOMIC_SEQ_CST) { Sync& s = syncs.get((void*)&base_addr); t.vc.join(s.vc); s.vc.join(t.vc); }
	if (rels(mo)) { t.relv = t.vc; tick(t); }
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- uninstrumented code that touches shared buffers
size_t __real_ZSTD_compressCCtx(void*, void*, size_t, const void*, size_t, int);
size_t __real_ZSTD_decompress(void*, size_t, const void*, size_t);
unsigned __real_ZSTD_isError(size_t);
size_t __wrap_ZSTD_compressCCtx(void* c, void* d, size_t dn, const void* s, size_t sn, int l)
{
	access(s, sn, false, RA);
	access(c, 1, true, RA);
	size_t r = __real_ZSTD_compressCCtx(c, d, dn, s, sn, l);
	access(d, r <= dn ? r : dn, true, RA);
	return r;
}
size_t __wrap_ZSTD_decompress(void* d, size_t dn, const void* s, size_t sn)
{
	access(s, sn, false, RA);
	size_t r = __real_ZSTD_decompress(d, dn, s, sn);
	access(d, r <= dn ? r : dn, true, RA);
	return r;
}
}
// ---------------------------------------------------------------- the clock
static uint64_t clock_now;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	static int (*real)(clockid_t, struct timespec*);
	if (!g_active || !opt.clock_step) {
		if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "clock_gettime");
		return real(id, ts);
	}
	clock_now += opt.clock_step;
	ts->tv_sec = (time_t)(1000 + clock_now / 1000000000u);
	ts->tv_nsec = (long)(clock_now % 1000000000u);
	return 0;
}
// pool size: twice this
#include <thread>
unsigned std::thread::hardware_concurrency() noexcept { return 1; }
