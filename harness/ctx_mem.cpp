// C23: after every short history of a context, stenos_memory_footprint() is what stenos_destroy_context() gives back, and that is
// bounded by the superblock size and the number of threads, however many operations there were. Failing allocations included.
#include "vmalloc.hpp"
#include "gen.hpp"
#include "stenos/stenos.h"
#include <thread>

// a pool of two workers whatever the machine
unsigned std::thread::hardware_concurrency() noexcept { return 1; }

struct Input { size_t bpp, bytes; int kind; size_t dst; const char* name; };  // dst 0: bound
static const Input inputs[] = {
	{ 1, 100, gen::TEXT, 0, "tiny" },
	{ 4, 5000, gen::PLANES, 0, "blocks" },
	{ 2, 5001, gen::RANDOM, 0, "random2" },
	{ 4, 533000, gen::RAMP, 0, "superblocks" },
	{ 300, 180100, gen::PLANES, 0, "bigelem" },
	{ 4, 0, gen::ZERO, 0, "empty" },
	{ 4, 5000, gen::RANDOM, 600, "smalldst" },
	{ 0, 5000, gen::RANDOM, 0, "bpp0" },
	{ 3, 20000, gen::SMOOTH, 0, "three" },
};
static std::vector<std::vector<uint8_t>> data;
struct DFrame { std::vector<uint8_t> f; size_t bpp, bytes; const char* name; };
static std::vector<DFrame> frames;

struct Op { int type; long arg; const char* name; };
enum { LEVEL, THREADS, BLOCK, NANO, RESET, COMP, DECOMP };
static std::vector<Op> setters, acts;
static std::vector<uint8_t> out, back;

static void history(const std::vector<const Op*>& h, long fail_from)
{
	std::string s;
	for (auto* o : h) { s += s.empty() ? "" : ";"; s += o->name; }
	if (!H.begin("%s fail=%ld", s.c_str(), fail_from)) return;
	stenos_context* c = stenos_make_context();
	size_t f0 = stenos_memory_footprint(c);
	if (f0 > 4096) H.fail("a new context reports %zu bytes", f0);
	int threads = 1, maxthreads = 1;
	size_t maxsb = 0, maxbytes = 0;
	size_t code = 0;
	for (size_t k = 0; k < h.size(); ++k) {
		const Op& op = *h[k];
		size_t r = 0;
		switch (op.type) {
			case LEVEL: stenos_set_level(c, (int)op.arg); break;
			case THREADS: stenos_set_threads(c, (int)op.arg); threads = (int)op.arg; break;
			case BLOCK: stenos_set_block_size(c, (size_t)op.arg); break;
			case NANO: stenos_set_max_nanoseconds(c, (uint64_t)op.arg); break;
			case RESET: stenos_reset_context(c); threads = 1; break;
			case COMP: {
				const Input& in = inputs[op.arg];
				size_t cap = in.dst ? in.dst : stenos_bound(in.bytes) + 4 * (in.bytes / 256 + 1);
				out.resize(cap);
				if (k + 1 == h.size()) { vmal::counter = 0; vmal::fail_from = fail_from; }
				vmal::window = true;
				r = stenos_compress_generic(c, data[op.arg].data(), in.bpp, in.bytes, out.data(), cap);
				vmal::window = false; vmal::fail_from = -1;
				maxbytes = std::max(maxbytes, in.bytes);
				stenos_info info;
				if (!stenos_has_error(r) && !stenos_has_error(stenos_get_info(out.data(), in.bpp, r, &info))) maxsb = std::max(maxsb, info.superblock_size);
				else if (in.bpp) maxsb = std::max(maxsb, std::max<size_t>(131072 << 4, in.bpp * 256 << 3)); // failed: unknown
				maxthreads = std::max(maxthreads, threads);
				break;
			}
			default: {
				DFrame& f = frames[op.arg];
				back.resize(f.bytes + 1);
				if (k + 1 == h.size()) { vmal::counter = 0; vmal::fail_from = fail_from; }
				vmal::window = true;
				r = stenos_decompress_generic(c, f.f.data(), f.bpp, f.f.size(), back.data(), f.bytes);
				vmal::window = false; vmal::fail_from = -1;
				stenos_info info;
				if (!stenos_has_error(stenos_get_info(f.f.data(), f.bpp, f.f.size(), &info))) maxsb = std::max(maxsb, info.superblock_size);
				maxthreads = std::max(maxthreads, threads);
			}
		}
		code = code * 3 + (stenos_has_error(r) ? 1 : 0);
		H.stats["transitions"]++;
	}
	size_t f = stenos_memory_footprint(c);
	long long before = vmal::freed_bytes;
	stenos_destroy_context(c);
	long long held = vmal::freed_bytes - before;
	long long slack = 64ll * 3 * maxthreads + 64;
	if ((long long)f > held + slack || held > (long long)f + slack) H.fail("stenos_memory_footprint reports %zu bytes, stenos_destroy_context frees %lld", f, held);
	long long limit = 3ll * maxthreads * ((long long)maxsb + 256) + 4096;
	if (held > limit) H.fail("the context holds %lld bytes (superblocks of at most %zu bytes, %d threads)", held, maxsb, maxthreads);
	if (vmal::broken.load()) { H.fail("%s", vmal::broken.load()); vmal::broken = nullptr; }
	H.distinct.insert(vh::mix(vh::mix(vh::mix((uint64_t)held) + f) + code));
	H.stats["histories"]++;
	if (held > 4096) H.stats["contexts_holding_buffers"]++;
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	for (auto& in : inputs) {
		data.emplace_back(in.bytes + 1);
		gen::fill(data.back().data(), in.bytes, in.bpp ? in.bpp : 1, in.kind, 3);
	}
	auto mk = [&](int i, int level, long shift, const char* name) {
		stenos_context* c = stenos_make_context();
		stenos_set_level(c, level);
		if (shift >= 0) stenos_set_block_size(c, (size_t)shift);
		DFrame f;
		f.f.resize(stenos_bound(inputs[i].bytes) + 1000);
		size_t r = stenos_compress_generic(c, data[i].data(), inputs[i].bpp, inputs[i].bytes, f.f.data(), f.f.size());
		stenos_destroy_context(c);
		if (stenos_has_error(r)) { fprintf(stderr, "cannot make frame %s\n", name); _exit(2); }
		f.f.resize(r);
		f.bpp = inputs[i].bpp; f.bytes = inputs[i].bytes; f.name = name;
		frames.push_back(f);
	};
	mk(3, 1, -1, "superblocks");
	mk(1, 2, 0, "blocks-custom");
	mk(2, 2, 1, "random-custom");
	mk(4, 5, -1, "bigelem-l5");
	mk(8, 9, 3, "three-l9");
	{ DFrame f = frames[1]; f.f[12] = 9; f.name = "corrupt"; frames.push_back(f); }
	{ DFrame f = frames[0]; f.bytes -= 1; f.name = "dst-1"; frames.push_back(f); }

	static std::vector<std::string> names;
	names.reserve(100);
	auto nm = [&](const std::string& s) { names.push_back(s); return names.back().c_str(); };
	for (long l : { 0, 1, 2, 5 }) setters.push_back({ LEVEL, l, nm("level(" + std::to_string(l) + ")") });
	for (long t : { 1, 2, 3, 40 }) setters.push_back({ THREADS, t, nm("threads(" + std::to_string(t) + ")") });
	for (long b : { 0, 1, 3, -1 }) setters.push_back({ BLOCK, b, nm("block(" + std::to_string(b) + ")") });
	for (long n : { 0L, 1L, 1000000000000L }) setters.push_back({ NANO, n, nm("nano(" + std::to_string(n) + ")") });
	setters.push_back({ RESET, 0, "reset" });
	for (long i = 0; i < (long)(sizeof inputs / sizeof inputs[0]); ++i) acts.push_back({ COMP, i, nm(std::string("compress(") + inputs[i].name + ")") });
	for (long i = 0; i < (long)frames.size(); ++i) acts.push_back({ DECOMP, i, nm(std::string("decompress(") + frames[i].name + ")") });

	{ // start the pool and the thread-local state of zstd outside of the measures
		stenos_context* c = stenos_make_context();
		stenos_set_threads(c, 3); stenos_set_level(c, 2); stenos_set_block_size(c, 0);
		for (int k = 0; k < 4; ++k) {
			out.resize(stenos_bound(5001) + 100);
			stenos_compress_generic(c, data[2].data(), 2, 5001, out.data(), out.size());
		}
		stenos_destroy_context(c);
	}
	static const Op none{ -1, 0, "" };
	auto run = [&](std::vector<const Op*> h, bool inject = true) {
		std::vector<const Op*> r;
		for (auto* o : h) if (o != &none) r.push_back(o);
		if (r.empty()) return;
		history(r, -1);
		int t = r.back()->type;
		if (inject && (t == COMP || t == DECOMP)) for (long k = 0; k < (H.thorough ? 8 : 3); ++k) history(r, k);
	};
	auto with = [&](std::vector<const Op*> S) { S.push_back(&none); return S; };
	std::vector<const Op*> S, A;
	for (auto& s : setters) S.push_back(&s);
	for (auto& a : acts) A.push_back(&a);
	std::vector<const Op*> SM; // for two rounds
	for (const char* n : { "level(2)", "level(5)", "threads(3)", "threads(40)", "block(0)", "block(3)", "nano(1)", "reset" }) for (auto* s : S) if (!strcmp(s->name, n)) SM.push_back(s);
	run({ });
	for (auto* s1 : with(S)) {
		run({ s1 });
		for (auto* s2 : with(S))
			for (auto* a1 : A) {
				run({ s1, s2, a1 });
				for (auto* s3 : with(S)) run({ s1, s2, a1, s3 });
			}
		if (!H.thorough && s1 != &none && std::find(SM.begin(), SM.end(), s1) == SM.end()) continue;
		for (auto* a1 : A)
			for (auto* s2 : with(H.thorough ? S : SM))
				for (auto* a2 : A) run({ s1, a1, s2, a2 }, s2 == &none || H.thorough);
	}
	// three and more rounds over a reduced alphabet
	std::vector<const Op*> S2, A2;
	for (const char* n : { "threads(3)", "level(2)", "block(0)", "reset" }) for (auto* s : S) if (!strcmp(s->name, n)) S2.push_back(s);
	for (const char* n : { "compress(blocks)", "compress(bpp0)", "compress(random2)", "decompress(random-custom)" }) for (auto* a : A) if (!strcmp(a->name, n)) A2.push_back(a);
	for (auto* s1 : with(S2)) for (auto* a1 : A2) for (auto* s2 : with(S2)) for (auto* a2 : A2) for (auto* s3 : with(S2)) for (auto* a3 : A2) {
		run({ s1, a1, s2, a2, s3, a3 }, H.thorough);
		if (H.thorough) for (auto* s4 : with(S2)) for (auto* a4 : A2) run({ s1, a1, s2, a2, s3, a3, s4, a4 });
	}
	// the same operation many times
	for (auto* s1 : with(S)) for (auto* a1 : A) { std::vector<const Op*> h{ s1 }; for (int k = 0; k < 12; ++k) h.push_back(a1); run(h); }
	return H.finish();
}
