// Interposed allocator: canaries, tracking of the blocks allocated inside a window, and injected failures.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <atomic>
#include <unistd.h>
#include <dlfcn.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
}

namespace vmal {
struct Hdr { uint64_t magic; uint64_t size; void* base; uint64_t tracked; };
static const uint64_t MAGIC = 0xA110CA7EDB10C5ull, FREED = 0xF7EEDF7EEDF7EEDull, TAIL = 0xC0FFEE5AFE7A11ull;

static std::atomic<bool> window{ false };     // count, fail and track
static std::atomic<long> counter{ 0 };
static std::atomic<long> live_tracked{ 0 };
static long fail1 = -1, fail2 = -1, fail_from = -1;  // indices that fail
static std::atomic<long> failures{ 0 };
static std::atomic<long long> freed_bytes{ 0 };
static std::atomic<const char*> broken{ nullptr };

// The C runtime aborts when it cannot register the destructor of a thread_local object: that allocation never fails here.
static uintptr_t rt_begin = 0, rt_end = 0;
__attribute__((constructor(102))) static void find_runtime()
{
	rt_begin = (uintptr_t)dlsym(RTLD_DEFAULT, "__cxa_thread_atexit_impl");
	rt_end = rt_begin ? rt_begin + 600 : 0;
}
static thread_local bool from_runtime __attribute__((tls_model("initial-exec"))) = false;

inline void report(const char* m)
{
	broken = m;
	(void)!write(2, "vmalloc: ", 9);
	(void)!write(2, m, strlen(m));
	(void)!write(2, "\n", 1);
}
inline void* alloc(size_t n, size_t align)
{
	bool tracked = window.load(std::memory_order_relaxed) && !from_runtime;
	if (tracked) {
		long i = counter.fetch_add(1);
		if (i == fail1 || i == fail2 || (fail_from >= 0 && i >= fail_from)) {
			failures.fetch_add(1);
			errno = ENOMEM;
			return nullptr;
		}
	}
	if (n > ((size_t)1 << 40)) { errno = ENOMEM; return nullptr; }
	if (align < 16) align = 16;
	size_t front = (sizeof(Hdr) + align - 1) / align * align;
	char* b = (char*)(align == 16 ? __libc_malloc(front + n + 8) : __libc_memalign(align, front + n + 8));
	if (!b) return nullptr;
	char* p = b + front;
	Hdr* h = (Hdr*)p - 1;
	h->magic = MAGIC; h->size = n; h->base = b; h->tracked = tracked;
	memcpy(p + n, &TAIL, 8);
	if (tracked) { live_tracked.fetch_add(1); memset(p, 0xBE, n); }
	return p;
}
inline void dealloc(void* p)
{
	if (!p) return;
	Hdr* h = (Hdr*)p - 1;
	if (h->magic != MAGIC) { report(h->magic == FREED ? "block freed twice" : "free of an unknown block"); return; }
	if (memcmp((char*)p + h->size, &TAIL, 8)) report("write beyond the end of a block");
	if (h->tracked) live_tracked.fetch_sub(1);
	freed_bytes.fetch_add((long long)h->size);
	h->magic = FREED;
	if (h->tracked) memset(p, 0xDF, h->size);
	__libc_free(h->base);
}
}

extern "C" {
void* malloc(size_t n) { return vmal::alloc(n, 16); }
void free(void* p) { vmal::dealloc(p); }
void* calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	uintptr_t ra = (uintptr_t)__builtin_return_address(0);
	vmal::from_runtime = ra >= vmal::rt_begin && ra < vmal::rt_end;
	void* p = vmal::alloc(n, 16);
	vmal::from_runtime = false;
	if (p) memset(p, 0, n);
	return p;
}
void* realloc(void* p, size_t n)
{
	if (!p) return vmal::alloc(n, 16);
	if (n == 0) { vmal::dealloc(p); return nullptr; }
	void* q = vmal::alloc(n, 16);
	if (!q) return nullptr;
	size_t o = ((vmal::Hdr*)p - 1)->size;
	memcpy(q, p, o < n ? o : n);
	vmal::dealloc(p);
	return q;
}
void* memalign(size_t a, size_t n) { return vmal::alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return vmal::alloc(n, a); }
int posix_memalign(void** r, size_t a, size_t n)
{
	void* p = vmal::alloc(n, a);
	if (!p) return ENOMEM;
	*r = p;
	return 0;
}
size_t malloc_usable_size(void* p) { return p ? ((vmal::Hdr*)p - 1)->size : 0; }
}
