// C07: every allocation of every scenario fails in turn (alone, in pairs, and from some point on).
#include "vmalloc.hpp"
#include "gen.hpp"
#include "stenos/stenos.h"
#include <thread>
#include <spawn.h>
#include <sys/wait.h>

// a pool of two workers whatever the machine
unsigned std::thread::hardware_concurrency() noexcept { return 1; }
extern char** environ;

struct Scenario { size_t bpp, bytes; int kind, level, threads; long shift; uint64_t ns; };
static const Scenario scenarios[] = {
	{ 4, 1000, gen::SMOOTH, 0, 1, -1, 0 },
	{ 4, 20, gen::TEXT, 1, 1, -1, 0 },
	{ 4, 3000, gen::PLANES, 1, 1, -1, 0 },
	{ 4, 3000, gen::PLANES, 2, 1, -1, 0 },
	{ 4, 3000, gen::RANDOM, 2, 1, -1, 0 },
	{ 1, 3000, gen::TEXT, 3, 1, -1, 0 },
	{ 8, 20000, gen::WALK, 5, 1, -1, 0 },
	{ 2, 9000, gen::SMOOTH, 9, 1, -1, 0 },
	{ 8, 20000, gen::SMOOTH, 9, 1, -1, 0 },
	{ 300, 160000, gen::PLANES, 2, 1, -1, 0 },
	{ 2, 2100, gen::PLANES, 2, 1, 0, 0 },
	{ 4, 3000, gen::PLANES, 1, 1, -1, 1000000000ull },
	{ 4, 0, gen::ZERO, 1, 1, -1, 0 },
	// several threads
	{ 2, 2100, gen::PLANES, 1, 3, 0, 0 },
	{ 2, 2100, gen::PLANES, 2, 3, 0, 0 },
	{ 2, 2600, gen::RANDOM, 2, 2, 0, 0 },
	{ 4, 9000, gen::SMOOTH, 4, 3, 1, 0 },
	{ 4, 9000, gen::ZERO, 0, 3, 0, 0 },
	{ 1, 3000, gen::TEXT, 2, 4, 1, 0 },
	{ 4, 300000, gen::WALK, 4, 3, -1, 0 },
	{ 4, 300000, gen::WALK, 2, 2, -1, 2000000000ull },
};
static const int NS = sizeof scenarios / sizeof scenarios[0];

static std::vector<uint8_t> in, out, back, frame;
static std::string problem;
static bool error_seen;

static void bad(const char* fmt, long long v) { char b[200]; snprintf(b, sizeof b, fmt, v); if (problem.empty()) problem = b; }

struct Window { Window() { vmal::window = true; } ~Window() { vmal::window = false; } };

// phase 0: create + compress; 1: decompress; the failures are injected in the given phase only
// hist 1: the context was used before with another superblock size and two threads
static void body(const Scenario& s, int phase, int hist, long f1, long f2, long from)
{
	size_t cap = stenos_bound(s.bytes) + 4 * (s.bytes / (256 * s.bpp) + 2);
	out.assign(cap + 8, 0xE1);
	back.assign(s.bytes + 8, 0xE2);
	vmal::failures = 0;
	auto arm = [&](bool on) {
		vmal::counter = 0;
		vmal::fail1 = on ? f1 : -1; vmal::fail2 = on ? f2 : -1; vmal::fail_from = on ? from : -1;
	};
	auto setup = [&](stenos_context* c) {
		stenos_set_level(c, s.level);
		stenos_set_threads(c, s.threads);
		if (s.shift >= 0) stenos_set_block_size(c, (size_t)s.shift);
		stenos_set_max_nanoseconds(c, s.ns);
	};
	auto check_frame = [&](size_t r, const char* when) {
		for (int i = 0; i < 8; ++i) if (out[cap + i] != 0xE1) bad("write beyond the destination", 0);
		if (r > cap) { bad("returned a size beyond the destination: %lld", (long long)r); return; }
		std::vector<uint8_t> b2(s.bytes + 1);
		size_t q = stenos_decompress(out.data(), s.bpp, r, b2.data(), s.bytes);
		if (q != s.bytes || memcmp(b2.data(), in.data(), s.bytes)) bad(when[0] == 'f' ? "the frame made while allocations failed does not decompress to the input (%lld)" : "the frame made once memory is available does not decompress to the input (%lld)", (long long)q);
	};
	stenos_context* c = nullptr;
	size_t r;
	{
		Window w;
		arm(phase == 0);
		c = stenos_make_context();
	}
	if (!c) {
		error_seen = true;
		Window w;
		arm(false);
		c = stenos_make_context();
	}
	if (!c) { bad("no context although memory is available", 0); return; }
	if (hist) {
		Window w;
		long saved = vmal::counter, a1 = vmal::fail1, a2 = vmal::fail2, a3 = vmal::fail_from;
		arm(false);
		stenos_set_block_size(c, 2);
		stenos_set_level(c, 2);
		stenos_set_threads(c, s.threads > 1 ? 2 : 1);
		std::vector<uint8_t> h(6000, 3), ho(8000), hb(6000);
		for (size_t i = 0; i < h.size(); ++i) h[i] = (uint8_t)(i * i >> 5);
		size_t q = stenos_compress_generic(c, h.data(), 3, h.size(), ho.data(), ho.size());
		if (stenos_has_error(q) || stenos_decompress_generic(c, ho.data(), 3, q, hb.data(), hb.size()) != h.size()) bad("first use fails", 0);
		stenos_reset_context(c);
		vmal::counter = saved; vmal::fail1 = a1; vmal::fail2 = a2; vmal::fail_from = a3;
	}
	setup(c);
	long cnt = vmal::counter;
	{
		Window w;
		r = stenos_compress_generic(c, in.data(), s.bpp, s.bytes, out.data(), cap);
	}
	cnt = vmal::counter;
	if (stenos_has_error(r)) error_seen = true;
	else check_frame(r, "failing");
	if (phase == 0) {
		Window w;
		arm(false);
		out.assign(cap + 8, 0xE1);
		r = stenos_compress_generic(c, in.data(), s.bpp, s.bytes, out.data(), cap);
	}
	if (stenos_has_error(r)) bad("compression fails with %lld although memory is available again", (long long)r);
	else check_frame(r, "later");
	if (phase == 1 && problem.empty()) {
		size_t q;
		{
			Window w;
			arm(true);
			q = stenos_decompress_generic(c, out.data(), s.bpp, r, back.data(), s.bytes);
			cnt = vmal::counter;
			arm(false);
		}
		if (stenos_has_error(q)) error_seen = true;
		else if (q != s.bytes || memcmp(back.data(), in.data(), s.bytes)) bad("decompression with failing allocations returned %lld and wrong data", (long long)q);
		for (int i = 0; i < 8; ++i) if (back[s.bytes + i] != 0xE2) bad("write beyond the decompression destination", 0);
		Window w;
		q = stenos_decompress_generic(c, out.data(), s.bpp, r, back.data(), s.bytes);
		if (q != s.bytes || memcmp(back.data(), in.data(), s.bytes)) bad("decompression returns %lld although memory is available again", (long long)q);
	}
	{
		// the context is still usable for something else, then is destroyed
		Window w;
		arm(false);
		uint8_t small[64];
		stenos_set_max_nanoseconds(c, 0);
		size_t q = stenos_compress_generic(c, in.data(), 1, 20, small, sizeof small);
		if (stenos_has_error(q)) bad("another compression fails with %lld", (long long)q);
		stenos_destroy_context(c);
	}
	vmal::counter = cnt;
}

static void prepare(const Scenario& s)
{
	in.resize(std::max<size_t>(s.bytes, 64));
	gen::fill(in.data(), in.size(), s.bpp, s.kind, 7);
}

// --- multithreaded scenarios: one process per execution, so that every thread-local state is new
static int g_fd = -1;
static void last_exit()
{
	if (g_fd < 0) return;
	long v = vmal::live_tracked.load();
	// 0 means that everything allocated inside the library calls was freed by the end of the process
	if (v != 0) vmal::report("memory allocated by the library calls is never freed");
	if (vmal::broken.load()) _exit(43);
}
static int child(int si, int phase, int hist, long f1, long f2, long from, int fd)
{
	const Scenario& s = scenarios[si];
	prepare(s);
	body(s, phase, hist, f1, f2, from);
	long cnt[3] = { vmal::counter.load(), vmal::failures.load(), error_seen };
	(void)!write(fd, cnt, sizeof cnt);
	if (!problem.empty()) { fprintf(stderr, "%s\n", problem.c_str()); return 42; }
	return 0;
}
static long spawn_one(const char* self, int si, int phase, int hist, long f1, long f2, long from)
{
	int fds[2];
	if (pipe(fds)) _exit(2);
	char a[8][32] = {};
	snprintf(a[0], 32, "%d", si); snprintf(a[1], 32, "%d", phase); snprintf(a[2], 32, "%ld", f1); snprintf(a[3], 32, "%ld", f2); snprintf(a[4], 32, "%ld", from); snprintf(a[5], 32, "%d", fds[1]); snprintf(a[6], 32, "%d", hist);
	char* argv[] = { (char*)self, (char*)"child", a[0], a[1], a[2], a[3], a[4], a[5], a[6], nullptr };
	pid_t pid;
	if (posix_spawn(&pid, self, nullptr, nullptr, argv, environ)) _exit(2);
	close(fds[1]);
	long cnt[3] = { 0, 0, 0 };
	long got = 0;
	char* p = (char*)cnt;
	for (;;) { long k = read(fds[0], p + got, sizeof cnt - got); if (k <= 0) break; got += k; if (got == (long)sizeof cnt) break; }
	close(fds[0]);
	int st = 0;
	// a stuck child is killed after 40 s
	for (int ms = 0;; ms += 2) {
		pid_t w = waitpid(pid, &st, WNOHANG);
		if (w == pid) break;
		if (ms > 40000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); H.fail("phase=%d failing=%ld,%ld from=%ld: hangs", phase, f1, f2, from); return -1; }
		usleep(2000);
	}
	H.stats["evaluations"]++;
	if (cnt[2]) H.stats["errors_returned"]++;
	if (cnt[1]) { a[5][0] = 0; memset(a[5], 0, 32); H.distinct.insert(vh::hash_bytes(a, sizeof a)); }
	if (st != 0) { H.fail("phase=%d failing=%ld,%ld from=%ld: %s %d", phase, f1, f2, from, WIFSIGNALED(st) ? "killed by signal" : WEXITSTATUS(st) == 42 ? "wrong result, exit" : "heap damaged or leaked, exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); return -1; }
	return cnt[0];
}
__attribute__((constructor(101))) static void early() { atexit(last_exit); }

// --- single-threaded scenarios: a new thread per execution
static long thread_one(int si, int phase, int hist, long f1, long f2, long from)
{
	problem.clear();
	error_seen = false;
	long before = vmal::live_tracked;
	std::thread t([&] { body(scenarios[si], phase, hist, f1, f2, from); });
	t.join();
	H.stats["evaluations"]++;
	H.cur->counter = H.cur->counter + 1;
	if (error_seen) H.stats["errors_returned"]++;
	if (vmal::failures) { char k[80]; snprintf(k, sizeof k, "%d %d %d %ld %ld %ld", si, phase, hist, f1, f2, from); H.distinct.insert(vh::hash_bytes(k, strlen(k))); }
	if (problem.empty() && vmal::live_tracked != before) { problem = "memory leak: " + std::to_string(vmal::live_tracked - before) + " blocks"; }
	if (problem.empty() && vmal::broken) problem = vmal::broken.load();
	if (!problem.empty()) { H.fail("phase=%d failing=%ld,%ld from=%ld: %s", phase, f1, f2, from, problem.c_str()); vmal::broken = nullptr; return -1; }
	return vmal::counter;
}

int main(int argc, char** argv)
{
	if (argc == 9 && !strcmp(argv[1], "child")) {
		g_fd = atoi(argv[7]);
		return child(atoi(argv[2]), atoi(argv[3]), atoi(argv[8]), atol(argv[4]), atol(argv[5]), atol(argv[6]), g_fd);
	}
	H.init(argc, argv);
	for (int si = 0; si < NS; ++si) {
		const Scenario& s = scenarios[si];
		bool mt = s.threads > 1;
		for (int hist = 0; hist < 2; ++hist)
		for (int phase = 0; phase < 2; ++phase) {
		auto one = [&](int phase, long f1, long f2, long from) { H.cur->counter = H.cur->counter + 1; return mt ? spawn_one("/proc/self/exe", si, phase, hist, f1, f2, from) : thread_one(si, phase, hist, f1, f2, from); };
			// cases are blocks of failing indices, so that the shards share them
			const long BLOCK = 4;
			long n = -1;
			for (long base = 0; base < 120; base += BLOCK) {
				if (!H.begin("scenario=%d history=%d phase=%d first=%ld", si, hist, phase, base)) continue;
				if (n < 0) {
					prepare(s);
					n = one(phase, -1, -1, -1);
					if (n < 0) break;
					H.stats["max_allocations"] = std::max<uint64_t>(H.stats["max_allocations"], (uint64_t)n);
				}
				if (base >= n + 6) continue; // a failure can lead to more allocations: go a little further
				for (long k = base; k < base + BLOCK; ++k) {
					long m = one(phase, k, -1, -1);
					if (m < 0) break;
					one(phase, -1, -1, k);
					// pairs
					long maxj = mt ? m + 1 : m + 2;
					for (long j = k + 1; j < maxj; ++j)
						if (one(phase, k, j, -1) < 0) break;
					// one failure, then everything fails from some later point
					for (long j = k + 2; j < maxj; ++j)
						if (one(phase, k, -1, j) < 0) break;
				}
			}
		}
	}
	H.stats["scenarios"] = H.shard == 0 ? NS : 0;
	int r = H.finish();
	_exit(r);
}
