// C02: multithreaded compression and decompression; C11: several threads with contexts of their own.
// Every schedule up to a number of deviations from the default one.
#include "mc_explore.hpp"
#include "stenos/stenos.h"
#include "stenos/cvector.hpp"
#include <thread>

static std::vector<uint8_t> input(size_t n, int kind, uint32_t seed = 12345)
{
	std::vector<uint8_t> v(n);
	uint32_t x = seed;
	for (size_t i = 0; i < n; ++i) {
		x = x * 1103515245u + 12345u;
		switch (kind) {
			case 0: v[i] = (uint8_t)(7 + seed); break;
			case 1: v[i] = (uint8_t)(i / 40 + seed); break;
			case 2: v[i] = (uint8_t)(x >> 16); break;
			default: v[i] = (uint8_t)(i % 4 ? (i / 4 + seed) >> ((i % 4 - 1) * 3) : x >> 28); break;
		}
	}
	return v;
}
// shift: -1 default superblock size, else custom superblock of (256 * bpp) << shift bytes
struct P { size_t bpp, bytes; int kind, level, threads, shift; uint64_t ns; };
static size_t superblock(const P& p) { return p.shift < 0 ? 131072 : (p.bpp * 256) << p.shift; }
static size_t capacity(const P& p) { return stenos_bound(p.bytes) + (p.shift < 0 ? 0 : 12 + 4 * (p.bytes / superblock(p) + 1)); }
struct Ctx {
	stenos_context* c;
	Ctx() : c(stenos_make_context()) { if (!c) mc::violation("no context"); }
	~Ctx() { stenos_destroy_context(c); }
};
static void setup(stenos_context* c, const P& p, int threads)
{
	size_t e = stenos_set_level(c, p.level);
	if (!stenos_has_error(e) && p.shift >= 0) e = stenos_set_block_size(c, (size_t)p.shift);
	if (!stenos_has_error(e)) e = stenos_set_threads(c, threads);
	if (!stenos_has_error(e) && p.ns) e = stenos_set_max_nanoseconds(c, p.ns);
	if (stenos_has_error(e)) mc::violation("parameters refused");
}
static size_t do_compress(stenos_context* c, const P& p, const std::vector<uint8_t>& in, std::vector<uint8_t>& out, size_t dst)
{
	out.assign(dst + 8, 0xEE);
	size_t r = stenos_compress_generic(c, in.data(), p.bpp, in.size(), out.data(), dst);
	for (size_t i = 0; i < 8; ++i) if (out[dst + i] != 0xEE) mc::violation("compression wrote beyond the destination");
	return r;
}
static void ok_compress(stenos_context* c, const P& p, const std::vector<uint8_t>& in, std::vector<uint8_t>& out)
{
	size_t cap = capacity(p), r = do_compress(c, p, in, out, cap);
	if (stenos_has_error(r)) mc::violation("compression with %d threads failed (%d)", p.threads, (int)r);
	if (r > cap) mc::violation("compression returned more than the destination size");
	out.resize(r);
	mc::outcome(vh::hash_bytes(out.data(), r));
}
static size_t do_decompress(stenos_context* c, const P& p, const std::vector<uint8_t>& frame, std::vector<uint8_t>& back, size_t dst)
{
	back.assign(dst + 8, 0xEE);
	size_t r = stenos_decompress_generic(c, frame.data(), p.bpp, frame.size(), back.data(), dst);
	for (size_t i = 0; i < 8; ++i) if (back[dst + i] != 0xEE) mc::violation("decompression wrote beyond the destination");
	return r;
}
static void ok_decompress(stenos_context* c, const P& p, const std::vector<uint8_t>& in, const std::vector<uint8_t>& frame)
{
	std::vector<uint8_t> back;
	size_t d = do_decompress(c, p, frame, back, in.size());
	if (stenos_has_error(d)) mc::violation("decompression with %d threads failed (%d)", p.threads, (int)d);
	if (d != in.size()) mc::violation("decompression with %d threads returned %zu bytes instead of %zu", p.threads, d, in.size());
	if (memcmp(back.data(), in.data(), in.size()) != 0) mc::violation("decompression with %d threads gives other bytes", p.threads);
}
static std::vector<uint8_t> reference_frame(P p, const std::vector<uint8_t>& in)
{
	std::vector<uint8_t> f;
	p.threads = 1;
	p.ns = 0;
	Ctx c;
	setup(c.c, p, 1);
	size_t cap = capacity(p), r = do_compress(c.c, p, in, f, cap);
	if (stenos_has_error(r)) mc::violation("compression failed");
	f.resize(r);
	return f;
}
static void check_frame(const P& p, const std::vector<uint8_t>& in, const std::vector<uint8_t>& frame)
{
	Ctx c;
	P q = p;
	q.threads = 1;
	setup(c.c, q, 1);
	ok_decompress(c.c, q, in, frame);
}

// ---- C02. The explored window is one call (the pool threads are asleep before), unless `whole`.
struct Window {
	bool on;
	explicit Window(bool o = true) : on(o) { if (on) { mc::settle(); mc::explore(true); } }
	~Window() { if (on) mc::explore(false); }
};
static void comp(const P& p)
{
	std::vector<uint8_t> in = input(p.bytes, p.kind), out;
	{
		Ctx c;
		setup(c.c, p, p.threads);
		Window w;
		ok_compress(c.c, p, in, out);
	}
	check_frame(p, in, out);
}
static void dec(const P& p)
{
	std::vector<uint8_t> in = input(p.bytes, p.kind), f = reference_frame(p, in);
	Ctx c;
	setup(c.c, p, p.threads);
	Window w;
	ok_decompress(c.c, p, in, f);
}
// one context used for several calls
static void reuse(const P& p, const P& q)
{
	std::vector<uint8_t> in = input(p.bytes, p.kind), in2 = input(q.bytes, q.kind, 77), out, out2;
	{
		Ctx c;
		setup(c.c, p, p.threads);
		Window w;
		ok_compress(c.c, p, in, out);
		ok_decompress(c.c, p, in, out);
		setup(c.c, q, q.threads);
		ok_compress(c.c, q, in2, out2);
	}
	check_frame(p, in, out);
	check_frame(q, in2, out2);
}
static void too_small(const P& p, size_t less)
{
	std::vector<uint8_t> in = input(p.bytes, p.kind), f = reference_frame(p, in), out;
	Ctx c;
	setup(c.c, p, p.threads);
	size_t r;
	{
		Window w;
		r = do_compress(c.c, p, in, out, f.size() - less);
	}
	// another frame may be shorter, but it must be right
	if (!stenos_has_error(r)) {
		if (r > f.size() - less) mc::violation("compression returned more than the destination size");
		out.resize(r);
		check_frame(p, in, out);
	}
	ok_compress(c.c, p, in, out);
	check_frame(p, in, out);
}
// change: 0 truncated by `arg` bytes, 1 block type of superblock `arg` made invalid, 2 destination smaller by arg bytes, 3 a wrong size in superblock arg
static void bad_frame(const P& p, int change, size_t arg)
{
	std::vector<uint8_t> in = input(p.bytes, p.kind), f = reference_frame(p, in), good = f, back;
	size_t dst = in.size();
	if (change == 0) f.resize(f.size() - arg);
	else if (change == 2) dst -= arg;
	else {
		size_t pos = p.shift < 0 ? 8 : 12;
		if (f[0] != 255) pos = 8;
		for (size_t k = 0; k < arg; ++k) pos += 4 + (f[pos + 1] | f[pos + 2] << 8 | f[pos + 3] << 16);
		if (change == 1) f[pos] = 99;
		else f[pos + 1] ^= 1;
	}
	Ctx c;
	setup(c.c, p, p.threads);
	size_t r;
	{
		Window w;
		r = do_decompress(c.c, p, f, back, dst);
	}
	if (!stenos_has_error(r)) {
		if (change != 3) mc::violation("an invalid frame was decompressed");
		if (r > dst) mc::violation("decompression returned more than the destination size");
	}
	ok_decompress(c.c, p, in, good);
}
// everything is explored, from the start of the pool threads to the end of the process
static void whole(const P& p)
{
	mc::explore(true);
	std::vector<uint8_t> in = input(p.bytes, p.kind), out;
	Ctx c;
	setup(c.c, p, p.threads);
	ok_compress(c.c, p, in, out);
	ok_decompress(c.c, p, in, out);
}
static void nothing() { mc::explore(true); }

// ---- C11
typedef std::function<void()> Job;
static Job job_round(P p, uint32_t seed) { return [=]() {
	std::vector<uint8_t> in = input(p.bytes, p.kind, seed), out;
	Ctx c;
	setup(c.c, p, p.threads);
	ok_compress(c.c, p, in, out);
	ok_decompress(c.c, p, in, out);
}; }
static Job job_comp(P p, uint32_t seed) { return [=]() {
	std::vector<uint8_t> in = input(p.bytes, p.kind, seed), out;
	{
		Ctx c;
		setup(c.c, p, p.threads);
		ok_compress(c.c, p, in, out);
	}
	check_frame(p, in, out);
}; }
static Job job_simple(P p, uint32_t seed) { return [=]() {
	std::vector<uint8_t> in = input(p.bytes, p.kind, seed), out(stenos_bound(p.bytes)), back(p.bytes);
	size_t r = stenos_compress(in.data(), p.bpp, in.size(), out.data(), out.size(), p.level);
	if (stenos_has_error(r)) mc::violation("stenos_compress failed");
	size_t d = stenos_decompress(out.data(), p.bpp, r, back.data(), back.size());
	if (d != p.bytes || back != in) mc::violation("stenos_decompress gives other bytes");
}; }
static Job job_bad(P p, uint32_t seed) { return [=]() {
	std::vector<uint8_t> in = input(p.bytes, p.kind, seed), f = reference_frame(p, in), back;
	f[12] = 99;
	Ctx c;
	setup(c.c, p, p.threads);
	if (!stenos_has_error(do_decompress(c.c, p, f, back, in.size()))) mc::violation("an invalid frame was decompressed");
}; }
static Job job_small(P p, uint32_t seed) { return [=]() {
	std::vector<uint8_t> in = input(p.bytes, p.kind, seed), out;
	Ctx c;
	setup(c.c, p, p.threads);
	if (!stenos_has_error(do_compress(c.c, p, in, out, 40))) mc::violation("a destination of 40 bytes was accepted");
}; }
static Job job_cvector(size_t n, uint32_t seed) { return [=]() {
	stenos::cvector<uint16_t> v;
	for (size_t i = 0; i < n; ++i) v.push_back((uint16_t)(i + seed));
	v.shrink_to_fit();
	v[3] = 9;
	for (size_t i = 0; i < n; i += 255) if ((uint16_t)v[i] != (uint16_t)(i == 3 ? 9 : i + seed)) mc::violation("wrong element");
	std::vector<uint8_t> out(stenos_bound(n * 2) + 64);
	size_t r = v.serialize(out.data(), out.size());
	if (stenos_has_error(r)) mc::violation("serialize failed");
	stenos::cvector<uint16_t> w;
	if (w.deserialize(out.data(), r) != n) mc::violation("deserialize failed");
	for (size_t i = 0; i < n; i += 200) if ((uint16_t)w[i] != (uint16_t)(i == 3 ? 9 : i + seed)) mc::violation("wrong element after deserialize");
}; }
static void jobs(std::vector<Job> js, bool explore_creation = false)
{
	mc::settle();
	if (explore_creation) mc::explore(true);
	std::vector<std::thread> ths;
	mc::explore(true);
	for (size_t k = 0; k + 1 < js.size(); ++k) ths.emplace_back(js[k]);
	js.back()();
	for (auto& t : ths) t.join();
	mc::explore(false);
}
#define SC(name, q, t, ...) s.push_back({ name, []() { __VA_ARGS__; }, q, t })
static std::vector<Scenario> scenarios()
{
	std::vector<Scenario> s;
	// bpp, bytes, kind, level, threads, shift, ns
	SC("mt-comp-copy-3", 2, 3, comp({ 4, 1024 * 3 - 20, 2, 0, 2, 0, 0 }));
	SC("mt-comp-copy-default", 2, 3, comp({ 2, 131072 + 500, 2, 0, 2, -1, 0 }));
	SC("mt-comp-random-2", 2, 3, comp({ 4, 2048, 2, 1, 2, 0, 0 }));
	SC("mt-comp-level1-2", 2, 3, comp({ 4, 2048, 3, 1, 2, 0, 0 }));
	SC("mt-comp-level1-3", 2, 3, comp({ 4, 1024 * 3 - 8, 3, 1, 2, 0, 0 }));
	SC("mt-comp-level2-4on3", 1, 3, comp({ 4, 1024 * 4, 3, 2, 3, 0, 0 }));
	SC("mt-comp-more-threads", 2, 3, comp({ 4, 1024 * 3, 3, 2, 8, 0, 0 }));
	SC("mt-comp-bytes", 2, 3, comp({ 1, 256 * 5 + 3, 1, 1, 3, 0, 0 }));
	SC("mt-comp-17", 1, 2, comp({ 2, 512 * 17, 3, 2, 17, 0, 0 }));
	SC("mt-comp-40", 1, 2, comp({ 1, 256 * 40, 2, 1, 33, 0, 0 }));
	SC("mt-dec-17", 1, 2, dec({ 2, 512 * 17, 3, 2, 17, 0, 0 }));
	SC("mt-dec-40", 1, 2, dec({ 1, 256 * 40, 2, 1, 33, 0, 0 }));
	SC("mt-comp-level3", 2, 3, comp({ 2, 512 * 3, 3, 3, 2, 0, 0 }));
	SC("mt-comp-level5", 2, 3, comp({ 8, 2048 * 2, 3, 5, 2, 0, 0 }));
	SC("mt-comp-odd-type", 2, 3, comp({ 3, 768 * 2 + 100, 3, 2, 2, 0, 0 }));
	SC("mt-comp-timed", 2, 3, mc::opt.clock_step = 1000; comp({ 4, 1024 * 3, 3, 0, 2, 0, 1000000 }));
	SC("mt-comp-timed-late", 2, 3, mc::opt.clock_step = 200000; comp({ 4, 1024 * 3, 3, 0, 2, 0, 1000000 }));
	SC("mt-dec-copy-2", 2, 3, dec({ 4, 2048, 2, 0, 2, 0, 0 }));
	SC("mt-dec-level1-3", 2, 3, dec({ 4, 1024 * 3 - 8, 3, 1, 2, 0, 0 }));
	SC("mt-dec-level3", 2, 3, dec({ 2, 512 * 3, 3, 3, 2, 0, 0 }));
	SC("mt-dec-more-threads", 2, 3, dec({ 4, 1024 * 3, 3, 2, 8, 0, 0 }));
	SC("mt-dec-bytes", 2, 3, dec({ 1, 256 * 5 + 3, 1, 1, 3, 0, 0 }));
	SC("mt-reuse", 1, 2, reuse({ 4, 1024 * 3, 3, 1, 2, 0, 0 }, { 4, 2048 * 3, 2, 2, 3, 1, 0 }));
	SC("mt-small-copy", 2, 3, too_small({ 4, 1024 * 2, 2, 0, 2, 0, 0 }, 500));
	SC("mt-small-last", 2, 3, too_small({ 4, 1024 * 2, 3, 1, 2, 0, 0 }, 5));
	SC("mt-small-first", 2, 3, too_small({ 4, 1024 * 3, 2, 1, 2, 0, 0 }, 2500));
	SC("mt-truncated", 2, 3, bad_frame({ 4, 1024 * 3, 3, 1, 2, 0, 0 }, 0, 5));
	SC("mt-bad-first", 2, 3, bad_frame({ 4, 1024 * 3, 3, 1, 2, 0, 0 }, 1, 0));
	SC("mt-bad-second", 2, 3, bad_frame({ 4, 1024 * 3, 3, 3, 2, 0, 0 }, 1, 1));
	SC("mt-bad-last", 2, 3, bad_frame({ 4, 1024 * 3, 3, 1, 2, 0, 0 }, 1, 2));
	SC("mt-bad-size", 2, 3, bad_frame({ 4, 1024 * 3, 3, 3, 2, 0, 0 }, 3, 1));
	SC("mt-bad-destination", 2, 3, bad_frame({ 4, 1024 * 3, 3, 1, 2, 0, 0 }, 2, 1));
	SC("mt-whole", 2, 3, whole({ 1, 512, 0, 1, 2, 0, 0 }));
	SC("mt-pool", 3, 5, nothing());
	SC("two-simple", 2, 3, jobs({ job_simple({ 4, 1500, 3, 1, 1, 0, 0 }, 1), job_simple({ 4, 1500, 3, 2, 1, 0, 0 }, 2) }));
	SC("two-simple-zstd", 2, 3, jobs({ job_simple({ 2, 1500, 3, 4, 1, 0, 0 }, 1), job_simple({ 2, 1500, 3, 9, 1, 0, 0 }, 2) }));
	SC("two-simple-copy", 2, 3, jobs({ job_simple({ 2, 1500, 3, 0, 1, 0, 0 }, 1), job_simple({ 1, 1500, 2, 1, 1, 0, 0 }, 2) }));
	SC("two-comp", 2, 3, jobs({ job_comp({ 4, 2048, 3, 1, 2, 0, 0 }, 1), job_comp({ 4, 2048, 3, 1, 2, 0, 0 }, 2) }));
	SC("two-copy", 2, 3, jobs({ job_comp({ 4, 2048, 2, 0, 2, 0, 0 }, 1), job_comp({ 4, 2048, 2, 0, 2, 0, 0 }, 2) }));
	SC("two-round", 1, 3, jobs({ job_round({ 4, 2048, 3, 1, 2, 0, 0 }, 1), job_round({ 1, 256 * 3, 0, 3, 3, 0, 0 }, 2) }));
	SC("two-mixed", 2, 3, jobs({ job_round({ 4, 2048, 3, 3, 1, 0, 0 }, 1), job_round({ 1, 256 * 3, 1, 1, 3, 0, 0 }, 2) }));
	SC("two-timed", 2, 3, mc::opt.clock_step = 1000; jobs({ job_comp({ 4, 2048, 3, 0, 2, 0, 1000000 }, 1), job_comp({ 4, 2048, 3, 0, 1, 0, 1000000 }, 2) }));
	SC("two-bad", 2, 3, jobs({ job_bad({ 4, 2048, 3, 1, 2, 0, 0 }, 1), job_round({ 1, 512, 0, 1, 2, 0, 0 }, 2) }));
	SC("two-small", 2, 3, jobs({ job_small({ 4, 2048, 3, 1, 2, 0, 0 }, 1), job_comp({ 1, 512, 0, 0, 2, 0, 0 }, 2) }));
	SC("two-cvector", 1, 2, jobs({ job_cvector(520, 1), job_cvector(520, 2) }));
	SC("two-cvector-context", 1, 2, jobs({ job_cvector(520, 1), job_round({ 1, 512, 0, 1, 2, 0, 0 }, 2) }));
	SC("three-comp", 1, 2, jobs({ job_comp({ 1, 512, 0, 1, 2, 0, 0 }, 1), job_comp({ 1, 512, 1, 1, 2, 0, 0 }, 2), job_simple({ 1, 512, 1, 1, 1, 0, 0 }, 3) }));
	return s;
}
int main(int argc, char** argv)
{
	H.init(argc, argv);
	mc::opt.explore_start = false;
	mc_explore(scenarios());
	return H.finish();
}
