// C06: every short history of a context; each operation is compared with the same operation on a fresh context that was given
// the parameters a reference model says are in force.
#include "gen.hpp"
#include "stenos/stenos.h"
#include <tuple>

static bool virt = true;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	// constant clock: time-limited compression becomes deterministic
	if (!virt || id != CLOCK_MONOTONIC) return (int)syscall(SYS_clock_gettime, id, ts);
	ts->tv_sec = 1000; ts->tv_nsec = 5;
	return 0;
}

struct Params {
	int level = 1, threads = 1;
	size_t shift = STENOS_NO_BLOCK_SHIFT;
	uint64_t ns = 0;
	bool operator<(const Params& o) const { return std::tie(level, threads, shift, ns) < std::tie(o.level, o.threads, o.shift, o.ns); }
};
static stenos_context* fresh(const Params& p)
{
	stenos_context* c = stenos_make_context();
	if (p.level != 1) stenos_set_level(c, p.level);
	if (p.threads != 1) stenos_set_threads(c, p.threads);
	if (p.shift != STENOS_NO_BLOCK_SHIFT) stenos_set_block_size(c, p.shift);
	if (p.ns) stenos_set_max_nanoseconds(c, p.ns);
	return c;
}

struct Input { size_t bpp, bytes; int kind; size_t dst; const char* name; };  // dst 0: bound
static const Input inputs[] = {
	{ 1, 100, gen::TEXT, 0, "tiny" },
	{ 4, 1024, gen::SMOOTH, 0, "block" },
	{ 4, 5000, gen::PLANES, 0, "blocks" },
	{ 2, 5001, gen::RANDOM, 0, "random2" },
	{ 4, 133000, gen::RAMP, 0, "superblocks" },
	{ 300, 180100, gen::ZERO, 0, "bigelem" },
	{ 4, 0, gen::ZERO, 0, "empty" },
	{ 4, 5000, gen::RANDOM, 600, "smalldst" },
	{ 2, 5001, gen::RANDOM, 10, "dst10" },
	{ 0, 5000, gen::RANDOM, 0, "bpp0" },
	{ 65535, 5000, gen::RANDOM, 0, "bppmax" },
	{ 1, 400000, gen::LOW, 0, "superblocks1" },
};
static std::vector<std::vector<uint8_t>> data;

struct DFrame { std::vector<uint8_t> f; size_t bpp, dst; std::vector<uint8_t> expect; bool error; const char* name; };
static std::vector<DFrame> frames;

struct Op { int type; long arg; const char* name; };
enum { LEVEL, THREADS, BLOCK, NANO, RESET, COMP, DECOMP };
static std::vector<Op> setters, acts, acts_small, setters_small;

struct Result { bool err; size_t code; uint8_t hdr[12]; size_t size; uint64_t frame; };
static std::map<std::tuple<Params, int, long>, Result> memo;
static std::vector<uint8_t> out, back;

static Result run_op(stenos_context* c, const Op& op, bool verify)
{
	Result r;
	memset(&r, 0, sizeof r);
	if (op.type == COMP) {
		const Input& in = inputs[op.arg];
		size_t cap = in.dst ? in.dst : stenos_bound(in.bytes) + 4 * (in.bytes / 256 + 1);
		out.resize(cap);
		memset(out.data(), 0, std::min<size_t>(12, cap));
		size_t s = stenos_compress_generic(c, data[op.arg].data(), in.bpp, in.bytes, out.data(), cap);
		r.err = stenos_has_error(s);
		if (r.err) r.code = s;
		else {
			memcpy(r.hdr, out.data(), std::min<size_t>(12, s));
			if (r.hdr[0] != 255) memset(r.hdr + 8, 0, 4);
			r.size = s;
			r.frame = vh::hash_bytes(out.data(), s);
			if (s > cap) { H.fail("%s: size %zu exceeds the destination", op.name, s); return r; }
			if (verify) {
				back.assign(in.bytes + 1, 0x3C);
				size_t q = stenos_decompress(out.data(), in.bpp, s, back.data(), in.bytes);
				if (q != in.bytes || memcmp(back.data(), data[op.arg].data(), in.bytes)) H.fail("%s: the frame does not decompress to the input (%lld)", op.name, (long long)q);
			}
		}
	}
	else {
		DFrame& f = frames[op.arg];
		back.assign(f.dst + 1, 0x3C);
		size_t s = stenos_decompress_generic(c, f.f.data(), f.bpp, f.f.size(), back.data(), f.dst);
		r.err = stenos_has_error(s);
		if (r.err) r.code = s;
		else if (s != f.expect.size() || memcmp(back.data(), f.expect.data(), s)) { if (verify) H.fail("%s: wrong decompressed data", op.name); }
		if (verify && !f.error && r.err) H.fail("%s: decompression of a valid frame failed (%lld)", op.name, (long long)s);
	}
	return r;
}

static void apply(stenos_context* c, Params& p, const Op& op)
{
	switch (op.type) {
		case LEVEL: stenos_set_level(c, (int)op.arg); p.level = op.arg < 0 ? 0 : op.arg > 9 ? 9 : (int)op.arg; break;
		case THREADS: stenos_set_threads(c, (int)op.arg); p.threads = op.arg < 1 ? 1 : (int)op.arg; break;
		case BLOCK: {
			size_t r = stenos_set_block_size(c, (size_t)op.arg);
			bool bad = op.arg >= 16;
			if ((stenos_has_error(r) != 0) != bad) H.fail("stenos_set_block_size(%ld) returned %lld", op.arg, (long long)r);
			if (!bad) p.shift = (size_t)op.arg;
			break;
		}
		case NANO: stenos_set_max_nanoseconds(c, (uint64_t)op.arg); p.ns = (uint64_t)op.arg; break;
		case RESET: stenos_reset_context(c); p = Params(); break;
		default: {
			auto key = std::make_tuple(p, op.type, op.arg);
			auto it = memo.find(key);
			if (it == memo.end()) {
				stenos_context* f = fresh(p);
				Result r = run_op(f, op, false);
				stenos_destroy_context(f);
				it = memo.emplace(key, r).first;
			}
			Result r = run_op(c, op, true);
			const Result& e = it->second;
			if (r.err != e.err) H.fail("%s: %s on the reused context, %s on a fresh one", op.name, r.err ? "fails" : "succeeds", e.err ? "fails" : "succeeds");
			else if (r.err && r.code != e.code) H.fail("%s: error %lld on the reused context, %lld on a fresh one", op.name, (long long)r.code, (long long)e.code);
			else if (!r.err && memcmp(r.hdr, e.hdr, 12)) H.fail("%s: other frame header than with a fresh context", op.name);
			else if (!r.err && op.type == COMP && (p.ns == 0 || p.threads == 1) && (r.size != e.size || r.frame != e.frame)) H.fail("%s: another frame (%zu bytes) than with a fresh context (%zu bytes)", op.name, r.size, e.size);
			H.stats[r.err ? "operations_failing" : "operations_ok"]++;
			H.distinct.insert(vh::mix(vh::mix(vh::mix(vh::mix(p.level * 16 + p.threads) + p.shift) + p.ns) + stenos_memory_footprint(c)) + op.type * 64 + op.arg);
		}
	}
	H.stats["transitions"]++;
}

static void history(const std::vector<const Op*>& h)
{
	std::string s;
	for (auto* o : h) { s += s.empty() ? "" : ";"; s += o->name; }
	if (!H.begin("%s", s.c_str())) return;
	stenos_context* c = stenos_make_context();
	Params p;
	size_t v = H.violations.size();
	for (auto* o : h) {
		apply(c, p, *o);
		if (H.violations.size() != v) break;
	}
	stenos_destroy_context(c);
	H.stats["histories"]++;
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	for (auto& in : inputs) {
		data.emplace_back(in.bytes + 1);
		gen::fill(data.back().data(), in.bytes, in.bpp && in.bpp < 65535 ? in.bpp : 1, in.kind, 3);
	}
	auto mk = [&](int i, Params p, const char* name) {
		stenos_context* c = fresh(p);
		DFrame f;
		f.f.resize(stenos_bound(inputs[i].bytes) + 1000);
		size_t r = stenos_compress_generic(c, data[i].data(), inputs[i].bpp, inputs[i].bytes, f.f.data(), f.f.size());
		stenos_destroy_context(c);
		if (stenos_has_error(r)) { fprintf(stderr, "cannot make frame %s\n", name); _exit(2); }
		f.f.resize(r);
		f.bpp = inputs[i].bpp; f.dst = inputs[i].bytes; f.error = false; f.name = name;
		f.expect.assign(data[i].begin(), data[i].begin() + inputs[i].bytes);
		frames.push_back(f);
	};
	Params pd, p5, pz, pc;
	p5.level = 5; pc.level = 2; pc.shift = 0; pz.level = 2; pz.shift = 1;
	mk(4, pd, "superblocks");
	mk(2, pc, "blocks-custom");
	mk(3, pz, "random-custom");
	mk(5, p5, "bigelem-l5");
	{ DFrame f = frames[1]; f.f[f.f.size() - 1300 > 20 ? 20 : 20] ^= 0xFF; f.f[12] = 9; f.error = true; f.name = "corrupt"; frames.push_back(f); }
	{ DFrame f = frames[0]; f.dst -= 1; f.error = true; f.name = "dst-1"; frames.push_back(f); }
	{ DFrame f = frames[1]; f.f.resize(f.f.size() - 30); f.error = true; f.name = "truncated"; frames.push_back(f); }
	{ DFrame f = frames[1]; f.bpp = 0; f.error = true; f.name = "bpp0"; frames.push_back(f); }

	static std::vector<std::string> names;
	names.reserve(100);
	auto nm = [&](const std::string& s) { names.push_back(s); return names.back().c_str(); };
	for (long l : { 0, 1, 2, 5, -3, 12 }) setters.push_back({ LEVEL, l, nm("level(" + std::to_string(l) + ")") });
	for (long t : { 1, 2, 3, 0 }) setters.push_back({ THREADS, t, nm("threads(" + std::to_string(t) + ")") });
	for (long b : { 0, 1, 3, -1, 16, 14 }) setters.push_back({ BLOCK, b, nm("block(" + std::to_string(b) + ")") });
	for (long n : { 0L, 1L, 1000000L, 1000000000000L }) setters.push_back({ NANO, n, nm("nano(" + std::to_string(n) + ")") });
	setters.push_back({ RESET, 0, "reset" });
	for (long i = 0; i < (long)(sizeof inputs / sizeof inputs[0]); ++i) acts.push_back({ COMP, i, nm(std::string("compress(") + inputs[i].name + ")") });
	for (long i = 0; i < (long)frames.size(); ++i) acts.push_back({ DECOMP, i, nm(std::string("decompress(") + frames[i].name + ")") });

	const bool asan = H.args == "asan" && !H.thorough; // reduced: two rounds only
	// one and two rounds of (optional setter, operation), everything
	for (size_t s1 = 0; s1 <= setters.size(); ++s1)
		for (auto& a1 : acts) {
			std::vector<const Op*> h;
			if (s1) h.push_back(&setters[s1 - 1]);
			h.push_back(&a1);
			history(h);
			for (size_t s2 = 0; s2 <= setters.size(); ++s2)
				for (auto& a2 : acts) {
					if (asan && (s1 == 4 || s1 == 6 || s2 == 4 || s2 == 6)) continue;
					if (!H.thorough && s1 == 6 && (s2 + a2.arg) % 4) continue; // level 9 is slow
					std::vector<const Op*> h2 = h;
					if (s2) h2.push_back(&setters[s2 - 1]);
					h2.push_back(&a2);
					history(h2);
				}
		}
	if (asan) { virt = false; return H.finish(); }
	// all pairs and triples of setters, then an operation
	for (auto& s1 : setters)
		for (auto& s2 : setters)
			for (auto& a : acts) {
				if (s1.arg == 12 && s2.type != LEVEL && s2.type != RESET && !H.thorough) continue;
				if (s2.arg == 12 && !H.thorough) continue;
				history({ &s1, &s2, &a });
				if (a.type == COMP && (a.arg == 2 || a.arg == 3)) for (auto& s3 : setters) if (s3.arg != 12) history({ &s1, &s2, &s3, &a });
			}
	// three rounds over a reduced alphabet (four in the thorough tier)
	auto pick = [](std::vector<Op>& from, std::initializer_list<const char*> l) {
		std::vector<Op*> r;
		for (auto* n : l) for (auto& o : from) if (!strcmp(o.name, n)) r.push_back(&o);
		return r;
	};
	auto S = pick(setters, { "level(0)", "level(2)", "threads(2)", "block(0)", "block(-1)", "nano(1000000)", "reset" });
	auto A = pick(acts, { "compress(block)", "compress(blocks)", "compress(smalldst)", "compress(bpp0)", "decompress(blocks-custom)", "decompress(random-custom)", "decompress(corrupt)" });
	std::vector<std::vector<const Op*>> rounds;
	for (size_t s = 0; s <= S.size(); ++s)
		for (auto* a : A) {
			std::vector<const Op*> r;
			if (s) r.push_back(S[s - 1]);
			r.push_back(a);
			rounds.push_back(r);
		}
	auto cat = [](std::vector<const Op*> a, const std::vector<const Op*>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
	for (auto& r1 : rounds)
		for (auto& r2 : rounds)
			for (auto& r3 : rounds) {
				auto h = cat(cat(r1, r2), r3);
				history(h);
				if (H.thorough)
					for (size_t k = 0; k < rounds.size(); k += 3) history(cat(h, rounds[k]));
			}
	virt = false;
	return H.finish();
}
