// C08 / C15 / C19 / C20: every sequence of operations up to a depth on cvector and std::vector.
#include "cv_ops.hpp"
#include <thread>
unsigned std::thread::hardware_concurrency() noexcept { return 1; }
using namespace cv;

// blocks of 4 bytes: the ints owned by std::unique_ptr<int>
static long live_ints = 0;
#ifndef __SANITIZE_ADDRESS__
void* operator new(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (n == 4) ++live_ints;
	return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t n) noexcept { if (p && n == 4) --live_ints; free(p); }
#endif

static bool c15 = false, c19 = false, c20 = false;
static size_t max_chunks_rest = 0;

template<class CV>
struct Runner {
	using S = State<CV>;
	using T = typename CV::value_type;
	static const Table<S>& table() { static Table<S> t; return t; }

	static long alive_expected(S& s)
	{
		long e = 0;
		for (auto v : s.ma) e += v != Tr<T>::moved;
		for (auto v : s.mb) e += v != Tr<T>::moved;
		return e;
	}
	// temporary buffers of the codec context, from level 2 on
	static constexpr long ctx_buffers = sizeof(T) == 33 ? 4 * (33 * CV::block_size + 64) : 0;
	// the memory the containers report is the memory they got from the allocator (and a small codec context each)
	static void memory(S& s, const char* op, long bytes0)
	{
		size_t fa = s.a.memory_footprint(), fb = s.b.memory_footprint();
		long have = live_bytes - bytes0, most = have + (4096 + ctx_buffers) * ((fa != 0) + (fb != 0));
		s.check((long)(fa + fb) >= have && (long)(fa + fb) <= most, "after %s: memory_footprint() gives %zu+%zu bytes, the containers hold %ld", op, fa, fb, have);
		for (CV* c : { &s.a, &s.b }) {
			double f = (double)c->memory_footprint(), w = f ? (double)(c->size() * sizeof(T)) / f : 0, g = c->current_compression_ratio();
			s.check(g <= w * 1.0001 && g >= w * 0.9999, "after %s: current_compression_ratio() is %g instead of %g", op, g, w);
		}
	}
	// after shrink_to_fit: full chunks / their compressed size, found in the serialized bytes
	static void ratio(S& s, CV& c, const char* op)
	{
		c.shrink_to_fit();
		std::vector<char> buf(c.size() * sizeof(T) + c.size() / 8 + 4096);
		size_t r = c.serialize(buf.data(), buf.size()), full = c.size() / CV::block_size, p = 8, sum = 0;
		if (r == 0 || stenos_has_error(r)) { s.check(false, "after %s: serialize fails", op); return; }
		if ((uint8_t)buf[0] == 255) p = 12;
		for (size_t i = 0; i < full && p + 4 <= r; ++i) {
			const uint8_t* q = (const uint8_t*)buf.data() + p;
			size_t n = 4 + (q[1] | q[2] << 8 | q[3] << 16);
			sum += n; p += n;
		}
		double w = full ? (double)(full * CV::block_size * sizeof(T)) / (double)sum : 0, g = c.compression_ratio();
		s.check(g <= w * 1.0001 && g >= w * 0.9999, "after %s and shrink_to_fit: compression_ratio() is %g instead of %g", op, g, w);
		H.stats["ratios"]++;
	}
	static void sequence(const char* type, const Start& st, const std::vector<const Op<S>*>& seq)
	{
		std::string names;
		for (auto o : seq) { if (!names.empty()) names += ","; names += o->name; }
		if (!H.begin("%s %s %s", type, start_name(st).c_str(), names.c_str())) return;
		long blocks0 = live_blocks, bytes0 = live_bytes, ints0 = live_ints;
		reset_tokens();
		alloc_error = nullptr;
		std::string err;
		uint64_t sig = vh::hash_bytes(type, strlen(type));
		big_min = sizeof(T) * CV::block_size;
		{
			S s;
			build(s, st);
			auto chunks = [&] { return (s.ma.size() + CV::block_size - 1) / CV::block_size + (s.mb.size() + CV::block_size - 1) / CV::block_size; };
			size_t most_chunks = chunks();
			for (size_t i = 0; i < seq.size() && s.err.empty(); ++i) {
				if (!seq[i]->ok(s)) { H.stats["not_applicable"]++; break; }
				seq[i]->run(s);
				H.stats["transitions"]++;
				s.check(s.a.size() == s.ma.size() && s.b.size() == s.mb.size(), "after %s: sizes %zu,%zu instead of %zu,%zu", seq[i]->name.c_str(), s.a.size(), s.b.size(), s.ma.size(), s.mb.size());
				if (c15 && Tr<T>::owns && std::is_same<T, Tok>::value + std::is_same<T, MTok>::value)
					s.check(live_tokens == alive_expected(s), "after %s: %ld elements are alive instead of %ld", seq[i]->name.c_str(), live_tokens, alive_expected(s));
				if (c19) {
					// no reference is held here
					size_t nb = chunks();
					long bound = 8;
					most_chunks = std::max(most_chunks, nb); // the list of chunks keeps its capacity
					if ((size_t)big_blocks > max_chunks_rest) max_chunks_rest = big_blocks;
					s.check(big_blocks <= bound, "after %s: %ld decompressed chunks are kept (%zu chunks of data)", seq[i]->name.c_str(), big_blocks, nb);
					long small = live_bytes - bytes0 - big_blocks * (long)big_min, most = (long)(nb * big_min / 2 + most_chunks * 128 + 8192);
					H.stats["max_permille_of_bound"] = std::max<uint64_t>(H.stats["max_permille_of_bound"], (uint64_t)(small * 1000 / most));
					s.check(small <= most, "after %s: %ld bytes besides the decompressed chunks for %zu chunks of compressible data", seq[i]->name.c_str(), small, nb);
					if (seq[i]->name == "shrink" && s.mb.empty()) s.check(big_blocks <= 1, "%ld decompressed chunks are kept after shrink_to_fit", big_blocks);
				}
				if (c20) memory(s, seq[i]->name.c_str(), bytes0);
				if (token_error) s.check(false, "after %s: %s", seq[i]->name.c_str(), token_error);
				if (alloc_error) s.check(false, "after %s: %s", seq[i]->name.c_str(), alloc_error);
			}
			if (c20 && s.err.empty()) {
				const char* op = seq.empty() ? "nothing" : seq.back()->name.c_str();
				ratio(s, s.a, op);
				memory(s, "shrink_to_fit", bytes0);
				ratio(s, s.b, op);
				memory(s, "shrink_to_fit", bytes0);
			}
			if (s.err.empty()) s.cmp_all();
			if (token_error) s.check(false, "%s", token_error);
			err = s.err;
			sig = vh::hash_bytes(s.ma.data(), s.ma.size() * 8, sig);
			sig = vh::hash_bytes(s.mb.data(), s.mb.size() * 8, sig) * 31 + (uint64_t)live_bytes;
		}
		if (err.empty() && token_error) err = token_error;
		if (err.empty() && alloc_error) err = alloc_error;
		if (err.empty() && live_blocks != blocks0) err = "memory blocks are still allocated after the destruction of the containers: " + std::to_string(live_blocks - blocks0);
		if (err.empty() && live_ints != ints0) err = "objects owned by elements are still alive after the destruction of the containers: " + std::to_string(live_ints - ints0);
		if (err.empty() && live_tokens != 0) err = "elements are still alive after the destruction of the containers: " + std::to_string(live_tokens);
		if (!err.empty()) { H.fail("%s", err.c_str()); live_blocks = 0; blocks->clear(); big_blocks = 0; }
		H.distinct.insert(sig);
	}
	// core: only operations of the core alphabet
	static void all(const char* type, const std::vector<Start>& starts, int depth, bool core, int from = 1)
	{
		const auto& t = table();
		std::vector<const Op<S>*> alpha;
		for (auto& o : t.ops) if (!core || o.cls == 0) alpha.push_back(&o);
		for (auto& st : starts)
			for (int d = from; d <= depth; ++d) {
				std::vector<size_t> ix(d, 0);
				for (;;) {
					std::vector<const Op<S>*> seq;
					for (auto i : ix) seq.push_back(alpha[i]);
					sequence(type, st, seq);
					int p = d - 1;
					while (p >= 0 && ++ix[p] == alpha.size()) ix[p--] = 0;
					if (p < 0) break;
				}
			}
		H.stats["max_alphabet"] = std::max<uint64_t>(H.stats["max_alphabet"], alpha.size());
	}
};

int main(int argc, char** argv)
{
	H.init(argc, argv);
	std::vector<Start> S(std::begin(STARTS), std::end(STARTS));
	std::vector<Start> few = { S[3], S[5], S[8], S[9] };
	std::vector<Start> big = { { 17 * 256 + 3, 0, 0 }, { 40 * 256, 0, 2 }, { 40 * 256 + 100, 2, 1 } };
	using namespace stenos;
	bool q = !H.thorough, san = H.args == "asan";
	c15 = H.args == "c15";
	c19 = H.args == "c19";
	c20 = H.args == "c20";
	std::vector<Start> fewq = q ? few : S;
	(void)san; (void)fewq;
#if PART == 0
	using I = Runner<cvector<int32_t, 0, 1, Alloc<int32_t>>>;
	if (c20) {
		I::all("i32", S, 2, false);
		I::all("i32", big, q ? 1 : 2, false);
		I::all("i32", q ? few : S, 3, true, 3);
	}
	else if (san) {
		I::all("i32", S, 1, false);
		I::all("i32", fewq, 2, q, 2);
	}
	else {
		I::all("i32", S, 2, false);
		I::all("i32", big, 1, false);
		I::all("i32", S, 3, true, 3);
		I::all("i32", q ? std::vector<Start>{ S[8] } : S, 4, true, 4);
		if (!q) {
			I::all("i32", big, 2, false, 2);
			I::all("i32", few, 3, false, 3);
			I::all("i32", { S[8] }, 5, true, 5);
		}
	}
#elif PART == 1
	if (!san) Runner<cvector<uint8_t, 0, 1, Alloc<uint8_t>>>::all("u8", fewq, 2, false);
	Runner<cvector<P12, 0, 1, Alloc<P12>>>::all("p12", fewq, q && san ? 1 : 2, false);
#elif PART == 2
	using L = Runner<cvector<int64_t, 0, 0, Alloc<int64_t>>>;
	if (c19) {
		using M = Runner<cvector<int64_t, 0, 1, Alloc<int64_t>>>;
		M::all("i64", big, q ? 1 : 2, false);
		M::all("i64", big, 2, true, 2);
		// many chunks: a number of decompressed chunks that grows with the container shows here
		std::vector<Start> huge = { { 300 * 256, 0, 2 }, { 300 * 256 + 5, 0, 3 }, { 1200 * 256 + 100, 2, 1 } };
		M::all("i64", huge, 1, false);
		if (!q) M::all("i64", { huge[0] }, 2, true, 2);
		if (!q) M::all("i64", big, 3, true, 3);
		H.stats["max_chunks"] = max_chunks_rest;
		H.stats["max_peak_chunks"] = max_big;
	}
	else {
		if (c20) {
			L::all("i64l0", S, q ? 1 : 2, false);
			Runner<cvector<P33, 1, 2, Alloc<P33>>>::all("p33", S, q ? 1 : 2, false);
			return H.finish();
		}
		if (!san) L::all("i64l0", fewq, 2, false);
		Runner<cvector<P33, 1, 2, Alloc<P33>>>::all("p33", fewq, q && san ? 1 : 2, false);
	}
#elif PART == 3
	using K = Runner<cvector<Tok, 0, 1, Alloc<Tok>>>;
	if (san) K::all("tok", S, q ? 1 : 2, false);
	else if (!c15) K::all("tok", fewq, 2, false);
	else {
		K::all("tok", S, 2, false);
		K::all("tok", big, q ? 1 : 2, false);
		K::all("tok", q ? few : S, 3, true, 3);
		if (!q) K::all("tok", { S[8] }, 4, true, 4);
		if (!q) K::all("tok", { S[8] }, 3, false, 3);
	}
#else
	using K = Runner<cvector<MTok, 0, 1, Alloc<MTok>>>;
	using U = Runner<cvector<std::unique_ptr<int>, 0, 1, Alloc<std::unique_ptr<int>>>>;
	if (c20) {
		K::all("mtok", S, q ? 1 : 2, false);
		U::all("uptr", S, q ? 1 : 2, false);
	}
	else if (!c15) {
		K::all("mtok", fewq, q && san ? 1 : 2, false);
		U::all("uptr", fewq, q && san ? 1 : 2, false);
	}
	else {
		K::all("mtok", S, 2, false);
		K::all("mtok", big, q ? 1 : 2, false);
		K::all("mtok", q ? few : S, 3, true, 3);
		if (!q) K::all("mtok", { S[8] }, 4, true, 4);
		U::all("uptr", fewq, 2, false);
	}
#endif
	return H.finish();
}
