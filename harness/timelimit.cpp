// C05: the clock is the environment. Every reading of the monotonic clock is answered by the explorer: executions are
// enumerated by deviations from a constant-speed clock (0, then 1, then 2 ... readings that jump).
#include "gen.hpp"
#include "stenos/stenos.h"

#include <mutex>
static std::mutex mtx;
static bool virt = false;
static uint64_t vnow;              // virtual nanoseconds
static uint64_t base_step;         // default advance per reading
static std::vector<std::pair<int, uint64_t>> devs; // (reading index, advance)
static int reads;                  // readings after the first (tick)
static uint64_t limit_ns, start_ns;
static const uint8_t* cur_dst; static size_t cur_hdr, cur_cap;
static long over_at;               // superblock being compressed when a reading first exceeded the limit (-1: never)

static long completed()
{
	size_t p = cur_hdr; long n = 0;
	while (p + 4 <= cur_cap && cur_dst[p] >= 1 && cur_dst[p] <= 6) {
		p += 4 + (cur_dst[p + 1] | cur_dst[p + 2] << 8 | cur_dst[p + 3] << 16);
		++n;
	}
	return n;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	if (!virt || id != CLOCK_MONOTONIC) return (int)syscall(SYS_clock_gettime, id, ts);
	std::lock_guard<std::mutex> lock(mtx);
	uint64_t step = base_step;
	for (auto& d : devs) if (d.first == reads) step = d.second;
	if (reads >= 0) vnow += step; else start_ns = vnow;
	++reads;
	if (over_at < 0 && vnow - start_ns > limit_ns) over_at = completed();
	ts->tv_sec = (time_t)(vnow / 1000000000ull);
	ts->tv_nsec = (long)(vnow % 1000000000ull);
	return 0;
}

static std::vector<uint8_t> in, out, back;
static stenos_context* dctx;

struct Cfg { size_t bpp, bytes; int kind; uint64_t limit; int level; int threads; };
static int cur_threads = 1;

// one execution; returns the number of clock readings
static int execute(const Cfg& c, uint64_t step, const std::vector<std::pair<int, uint64_t>>& d)
{
	size_t bound = stenos_bound(c.bytes);
	out.assign(bound + 16, 0xF7);
	stenos_context* ctx = stenos_make_context();
	stenos_set_level(ctx, c.level);
	stenos_set_max_nanoseconds(ctx, c.limit);
	stenos_set_threads(ctx, c.threads);
	base_step = step; devs = d; reads = -1; vnow = 5000000001999999990ull; limit_ns = c.limit; over_at = -1;
	cur_dst = out.data(); cur_hdr = 12; cur_cap = bound;
	// the header size depends on the first byte, which is written before the first superblock
	virt = true;
	size_t r = stenos_compress_generic(ctx, in.data(), c.bpp, c.bytes, out.data(), bound);
	virt = false;
	int n = reads;
	stenos_destroy_context(ctx);
	H.stats["executions"]++;
	std::string ds;
	for (auto& x : d) ds += " " + std::to_string(x.first) + ":" + std::to_string(x.second);
	if (stenos_has_error(r) || r > bound) { H.fail("step=%llu deviations%s: compression into the bound returned %lld", (unsigned long long)step, ds.c_str(), (long long)r); return n; }
	for (int i = 0; i < 16; ++i) if (out[bound + i] != 0xF7) { H.fail("write beyond the destination"); return n; }
	back.assign(c.bytes + 1, 0);
	size_t q = stenos_decompress_generic(dctx, out.data(), c.bpp, r, back.data(), c.bytes);
	if (q != c.bytes || memcmp(back.data(), in.data(), c.bytes)) { H.fail("step=%llu deviations%s: does not decompress to the input (%lld)", (unsigned long long)step, ds.c_str(), (long long)q); return n; }
	// superblocks
	size_t p = out[0] == 255 ? 12 : 8; long sb = 0; uint64_t sig = c.bpp;
	while (p + 4 <= r) {
		unsigned code = out[p];
		sig = sig * 31 + code;
		if (over_at >= 0 && sb > over_at + c.threads - 1 && code != 6) {
			H.fail("step=%llu deviations%s: the limit was exceeded in superblock %ld but superblock %ld is stored with code %u", (unsigned long long)step, ds.c_str(), over_at, sb, code);
			return n;
		}
		H.stats["superblock_code_" + std::to_string(code)]++;
		p += 4 + (out[p + 1] | out[p + 2] << 8 | out[p + 3] << 16);
		++sb;
	}
	if (over_at >= 0) H.stats["executions_over_limit"]++;
	H.distinct.insert(sig * 131 + (over_at + 2));
	return n;
}

static void explore(const Cfg& c, uint64_t step, std::vector<std::pair<int, uint64_t>> d, int bound, const std::vector<uint64_t>& alphabet, int maxreads)
{
	int n = execute(c, step, d);
	if (bound == 0) return;
	int first = d.empty() ? 0 : d.back().first + 1;
	int stride = (n - first) > maxreads ? (n - first + maxreads - 1) / maxreads : 1;
	if (stride > 1) H.stats["strided"]++;
	for (int i = first; i < n; i += stride)
		for (uint64_t a : alphabet) {
			if (a == step) continue;
			auto e = d;
			e.emplace_back(i, a);
			if (H.out_of_time()) return;
			H.cur->counter = H.cur->counter + 1;
			explore(c, step, e, bound - 1, alphabet, maxreads);
		}
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	dctx = stenos_make_context();
	const bool T = H.thorough;
	auto go = [&](Cfg c, int dev, int maxreads) {
		for (uint64_t div : { 0ull, 4000ull, 200ull, 20ull, 3ull, 1ull }) {
			uint64_t step = div ? c.limit / div : 0;
			if (!H.begin("bpp=%zu bytes=%zu kind=%s limit=%llu level=%d threads=%d step=limit/%llu deviations<=%d", c.bpp, c.bytes, gen::names[c.kind], (unsigned long long)c.limit, c.level, c.threads, (unsigned long long)div, dev)) continue;
			in.resize(c.bytes + 1);
			gen::fill(in.data(), c.bytes, c.bpp, c.kind, 5);
			std::vector<uint64_t> al = { 0, c.limit / 64, c.limit / 3, c.limit, c.limit + 1, c.limit * 9 + 1000000000ull };
			explore(c, step, {}, dev, al, maxreads);
		}
	};
	// one superblock
	for (size_t bpp : { 1, 4, 100 })
		for (size_t bytes : { (size_t)0, (size_t)1, (size_t)127, (size_t)128, 256 * bpp, 256 * bpp * 4 + 33 })
			for (int kind : { (int)gen::PLANES, (int)gen::RANDOM, (int)gen::SMOOTH, (int)gen::TEXT })
				for (uint64_t limit : { 1ull, 100ull, 2000ull, 100000ull, 10000000ull, 100000000000ull }) {
					if (bytes > 20000 && limit > 10000000ull && !T) continue;
					go({ bpp, bytes, kind, limit, 1, 1 }, T ? 3 : bytes > 8000 ? 1 : 2, T ? 60 : 20);
				}
	// several superblocks: few clock readings per superblock with big elements
	for (size_t bpp : { 512, 128, 16, 1 })
		for (int kind : { (int)gen::PLANES, (int)gen::RANDOM, (int)gen::SMOOTH, (int)gen::ZERO, (int)gen::WALK, (int)gen::RAMP, (int)gen::MIXED })
			for (uint64_t limit : { 1ull, 30000ull, 300000ull, 3000000ull, 100000000ull }) {
				if (limit == 100000000ull && !T && (bpp != 512 || kind > gen::SMOOTH)) continue;
				size_t sb = 131072;
				bool few = bpp == 512 && limit < 3000000ull;
				go({ bpp, sb * 4 + 77, kind, limit, bpp == 16 ? 0 : 1, 1 }, T ? 2 : few ? 2 : 1, T ? 40 : bpp == 512 ? 24 : 14);
				if (limit < 100000000ull) go({ bpp, sb * 4 + 77, kind, limit, 1, 2 }, 1, T ? 40 : 8);
				if (T) go({ bpp, sb * 9, kind, limit, 1, 1 }, 1, 60);
				if (T) go({ bpp, sb * 9, kind, limit, 1, 4 }, 1, 60);
			}
	return H.finish();
}
