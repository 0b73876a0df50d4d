// C17: invalid data given to cvector::deserialize.
#include "cv_ops.hpp"
#include "guard.hpp"
#include "stenos/stenos.h"
#include <thread>
#include <csetjmp>
#include <csignal>
unsigned std::thread::hardware_concurrency() noexcept { return 1; }
using namespace cv;

static sigjmp_buf abort_jump;
static volatile sig_atomic_t abort_armed = 0;
static void on_abort(int)
{
	if (abort_armed) { abort_armed = 0; siglongjmp(abort_jump, 1); }
	signal(SIGABRT, SIG_DFL);
	raise(SIGABRT);
}
static guard::Buf F(400000);

struct ShortBuf : std::stringbuf {                       // a stream whose reads fail after some bytes although it can be positioned
	size_t limit;
	ShortBuf(const std::string& s, size_t l) : std::stringbuf(s), limit(l) {}
	std::streamsize xsgetn(char* p, std::streamsize n) override
	{
		std::streamsize k = std::min<std::streamsize>(n, (std::streamsize)limit);
		limit -= (size_t)k;
		return std::stringbuf::xsgetn(p, k);
	}
};

template<class CV>
struct Bad {
	using S = State<CV>;
	using T = typename CV::value_type;
	using X = Tr<T>;
	struct Base { std::vector<uint8_t> f; std::vector<int64_t> m; std::string name; std::vector<size_t> blk; };
	std::vector<Base> bases;
	std::string type;

	static size_t csize(const std::vector<uint8_t>& f, size_t p) { return 4 + (f[p + 1] | f[p + 2] << 8 | (size_t)f[p + 3] << 16); }
	static int64_t content(int kind, size_t i)
	{
		switch (kind) {
			case 0: return (int64_t)i * 3 + 1;
			case 1: return 77;
			case 2: return (int64_t)(vh::mix(i) & 0x7fffffff);
			case 3: return (int64_t)(i % 16);
			default: return (int64_t)((i / 16) * 5);
		}
	}
	void add(size_t n, int kind)
	{
		CV c;
		Base b;
		for (size_t i = 0; i < n; ++i) { int64_t v = X::norm(content(kind, i)); c.push_back(X::make(v)); b.m.push_back(v); }
		b.f.resize(n * sizeof(T) + 8 * (n / CV::block_size + 1) + 64);
		size_t r = c.serialize(b.f.data(), b.f.size());
		if (stenos_has_error(r)) { fprintf(stderr, "serialize failed\n"); _exit(5); }
		b.f.resize(r);
		for (size_t p = 12; p + 4 <= r; p += csize(b.f, p)) b.blk.push_back(p);
		b.name = type + "-" + std::to_string(n) + "-" + std::to_string(kind);
		bases.push_back(b);
	}
	static void prefill(CV& c, int how)
	{
		if (how == 1) for (size_t i = 0; i < 5; ++i) c.push_back(X::make(5));
		if (how == 2) { for (size_t i = 0; i < CV::block_size * 3 + 9; ++i) c.push_back(X::make((int64_t)i)); c[0] = X::make(4); c[CV::block_size] = X::make(6); }
		if (how == 3) { for (size_t i = 0; i < CV::block_size * 2; ++i) c.push_back(X::make((int64_t)i)); CV d(std::move(c)); }
	}
	// deserializes the bytes and uses the container afterwards; false after a failure
	bool try1(const uint8_t* f, size_t n, const Base& good, int how, bool stream, int after, size_t short_at = SIZE_MAX)
	{
		long blocks0 = live_blocks;
		alloc_error = nullptr;
		std::string err;
		auto feed = [&](CV& c) -> size_t {
			if (stream) {
				ShortBuf sb(std::string((const char*)f, n), short_at);
				std::istream is(&sb);
				return c.deserialize(is);
			}
			uint8_t* p = F.make(n);
			if (n) memcpy(p, f, n);
			size_t r = c.deserialize(p, n);
			if (!F.front_ok() || (n && memcmp(p, f, n))) err = "the bytes given were modified";
			return r;
		};
		H.stats["calls"]++;
		uint64_t announced = 0;
		if (n >= 8) for (int i = 7; i >= 1; --i) announced = announced << 8 | f[i];
		{
			S s;
			CV& c = s.a;
			prefill(c, how);
			size_t r = feed(c);
			bool ok = !stenos_has_error(r);
			H.stats["accepted"] += ok;
			if (ok) s.check(r == c.size() && r * sizeof(T) == announced, "deserialize returned %zu; size() is %zu and %llu bytes are announced", r, c.size(), (unsigned long long)announced);
			s.check(c.size() * sizeof(T) <= announced, "size() is %zu, %llu bytes are announced", c.size(), (unsigned long long)announced);
			s.check(c.size() <= n / 4 * CV::block_size + CV::block_size, "size() is %zu after %zu bytes", c.size(), n);
			size_t n0 = c.size();
			if (after & 1) {                             // elements added to what is there
				for (size_t i = 0; i < CV::block_size + 7; ++i) c.push_back(X::make((int64_t)i));
				s.check(c.size() == n0 + CV::block_size + 7, "size() is wrong after push_back");
				for (size_t i = 0; i < CV::block_size + 7 && s.err.empty(); ++i)
					s.check(X::val(c[n0 + i].get()) == X::norm((int64_t)i), "element %zu added after deserialize is %lld", i, (long long)X::val(c[n0 + i].get()));
			}
			if (after & 2) {
				c.clear();
				s.check(c.size() == 0 && c.empty(), "clear() leaves %zu elements", c.size());
				s.ma.clear();
				for (size_t i = 0; i < CV::block_size * 2 + 3; ++i) { int64_t v = s.fresh(); c.push_back(X::make(v)); s.ma.push_back(v); }
				c[1] = X::make(9); s.ma[1] = X::norm(9);
				s.cmp_all();
			}
			if (after & 4) {
				size_t d;
				if (stream) { std::istringstream is(std::string((const char*)good.f.data(), good.f.size())); d = c.deserialize(is); }
				else d = c.deserialize(good.f.data(), good.f.size());
				s.check(d == good.m.size(), "valid data: deserialize returned %zu instead of %zu", d, good.m.size());
				s.ma = good.m;
				s.cmp_all();
			}
			if (err.empty()) err = s.err;
		}
		if (err.empty() && alloc_error) err = alloc_error;
		if (err.empty() && live_blocks != blocks0) err = "memory is leaked: " + std::to_string(live_blocks - blocks0) + " blocks";
		if (err.empty() && (after & 8)) {
			// every element that remains is read; ending the program with abort() is the known finding
			std::unordered_map<void*, size_t> before = *blocks;
			static S* sp; static size_t i; static uint64_t sum;
			sp = new S;
			prefill(sp->a, how);
			feed(sp->a);
			const CV& k = sp->a;
			sum = 0;
			if (sigsetjmp(abort_jump, 1) == 0) {
				abort_armed = 1;
				for (i = 0; i < k.size(); i += (i % CV::block_size == 0 || k.size() - i < 3) ? 1 : CV::block_size - 1) { const T t = k[i]; sum += (uint8_t)X::val(t); }
				abort_armed = 0;
				delete sp;
				if (live_blocks != blocks0) err = "memory is leaked after reading: " + std::to_string(live_blocks - blocks0) + " blocks";
			}
			else {
				H.stats["aborts"]++;
				H.known["corrupted-block-abort"] = "reading an element of a chunk whose compressed bytes are corrupted ends the program (deserialize accepts full blocks without decoding them)";
				for (auto& b : *blocks) if (!before.count(b.first)) { --live_blocks; live_bytes -= b.second; free(b.first); }
				*blocks = before;
				big_blocks = 0;
			}
		}
		if (!err.empty()) { H.fail("%s (%s of %zu bytes, container %d, after %d)", err.c_str(), stream ? "stream" : "buffer", n, how, after); live_blocks = 0; blocks->clear(); return false; }
		return true;
	}
	// the common set of uses of one byte string
	bool use(const std::vector<uint8_t>& f, const Base& g, uint64_t salt, bool full)
	{
		H.distinct.insert(vh::hash_bytes(f.data(), f.size()));
		if (full) {
			for (int how = 0; how < 4; ++how) for (bool st : { false, true }) if (!try1(f.data(), f.size(), g, how, st, how == 3 ? 4 : how == 1 ? 8 + 4 : 7)) return false;
			return true;
		}
		int how = (int)(salt % 4);
		return try1(f.data(), f.size(), g, how, false, salt % 3 == 0 ? 7 : salt % 3 == 1 ? 12 : 1) && try1(f.data(), f.size(), g, (how + 1) % 4, true, salt % 3 == 0 ? 12 : 6);
	}
	bool main_type = false;                                  // all values
	bool thin = false;                                       // fewer values (slow builds and element types)
	void run(const char* ty, const std::vector<std::pair<size_t, int>>& sizes, bool deep)
	{
		type = ty;
		big_min = SIZE_MAX;
		for (auto& p : sizes) add(p.first, p.second);
		size_t nb = bases.size();
		for (size_t bi = 0; bi < nb; ++bi) {
			const Base& b = bases[bi];
			const Base& g = bases[(bi + 1) % nb];
			size_t n = b.f.size();
			std::vector<uint8_t> m;
			if (H.begin("whole %s", b.name.c_str())) {
				use(b.f, g, 0, true);
				for (size_t extra : { 1, 4, 100 }) { m = b.f; m.resize(n + extra, 1); use(m, g, 0, true); }
			}
			for (size_t t0 = 0; t0 < n; t0 += 32) {
				if (!H.begin("trunc %s %zu..", b.name.c_str(), t0)) continue;
				for (size_t t = t0; t < std::min(n, t0 + 32); ++t) {
					m.assign(b.f.begin(), b.f.begin() + t);
					if (!use(m, g, t, t < 40 || n < 300)) break;
					if (!try1(b.f.data(), n, g, (int)(t % 3), true, 7, t)) break;     // a stream that breaks although its size is right
				}
			}
			for (size_t pos = 0; pos < n; ++pos) {
				size_t dist = pos;
				for (size_t p : b.blk) if (pos >= p) dist = std::min(dist, pos - p);
				bool head = pos < 12 || dist < 6;
				if (!head && !deep && n > 900 && pos % 7) continue;
				if (!H.begin("byte %s pos=%zu", b.name.c_str(), pos)) continue;
				std::set<int> vals;
				if (head || (deep && dist < 60)) for (int v = 0; v < 256; ++v) vals.insert(v);
				else for (int x : { 1, 2, 8, 16, 128, 255 }) vals.insert(b.f[pos] ^ x);
				vals.insert(0); vals.insert(255); vals.insert((uint8_t)(b.f[pos] + 1));
				m = b.f;
				for (int v : vals) {
					if (thin && dist >= 4 && pos >= 12 && (v + (int)pos) % 4) continue;
					m[pos] = (uint8_t)v;
					if (!use(m, g, pos + (size_t)v, head && (v < 8 || v > 250 || v == b.f[pos] + 1))) break;
				}
			}
			// blocks removed, repeated, exchanged, and taken from another frame
			if (H.begin("blocks %s", b.name.c_str())) {
				auto block = [&](size_t i) { return std::vector<uint8_t>(b.f.begin() + b.blk[i], b.f.begin() + b.blk[i] + csize(b.f, b.blk[i])); };
				for (size_t i = 0; i < b.blk.size(); ++i) {
					m.assign(b.f.begin(), b.f.begin() + b.blk[i]);
					std::vector<uint8_t> tail(b.f.begin() + b.blk[i] + csize(b.f, b.blk[i]), b.f.end()), x = m;
					x.insert(x.end(), tail.begin(), tail.end());
					use(x, g, i, true);
					for (size_t j = 0; j < b.blk.size(); ++j) {
						x = m;
						auto o = block(j);
						x.insert(x.end(), o.begin(), o.end());
						x.insert(x.end(), tail.begin(), tail.end());
						use(x, g, i, true);
					}
					for (auto& o : bases) if (o.blk.size()) {
						x = m;
						x.insert(x.end(), o.f.begin() + o.blk.back(), o.f.end());
						x.insert(x.end(), tail.begin(), tail.end());
						use(x, g, i, true);
					}
				}
			}
			// announced sizes
			std::set<uint64_t> sz;
			for (uint64_t e : { (uint64_t)0, (uint64_t)1, (uint64_t)255, (uint64_t)256, (uint64_t)257, (uint64_t)511, (uint64_t)512, (uint64_t)1024, (uint64_t)1 << 20, (uint64_t)1 << 40 })
				for (long d : { -1L, 0L, 1L }) for (uint64_t u : { e * sizeof(T) + d, b.m.size() * sizeof(T) + d * (int64_t)e, b.m.size() * sizeof(T) + d * (int64_t)(e * sizeof(T)) }) sz.insert(u & (((uint64_t)1 << 56) - 1));
			for (uint64_t u : sz) {
				if (!H.begin("size %s %llu", b.name.c_str(), (unsigned long long)u)) continue;
				for (uint32_t sb : { (uint32_t)0, (uint32_t)(CV::block_size * sizeof(T)), (uint32_t)(256 * sizeof(T)), (uint32_t)(512 * sizeof(T)), (uint32_t)0xFFFFFFFF, (uint32_t)1 }) {
					m = b.f;
					for (int i = 0; i < 7; ++i) m[1 + i] = (uint8_t)(u >> (8 * i));
					for (int i = 0; i < 4; ++i) m[8 + i] = (uint8_t)(sb >> (8 * i));
					if (!use(m, g, u, sb == CV::block_size * sizeof(T))) break;
				}
			}
			// pairs: block code x announced size of the block
			for (size_t bl = 0; bl < b.blk.size(); ++bl)
				for (int code = 0; code < 9; ++code) {
					if (!H.begin("csize %s block=%zu code=%d", b.name.c_str(), bl, code)) continue;
					size_t p = b.blk[bl], cs = csize(b.f, p) - 4;
					std::set<size_t> v;
					for (size_t c0 : { (size_t)0, (size_t)1, (size_t)2, (size_t)5, cs, cs + 4, n - p - 4, (size_t)(CV::block_size * sizeof(T)), (size_t)0xFFFF, (size_t)0xFFFFFF })
						for (long d : { -4L, -1L, 0L, 1L }) v.insert((c0 + (size_t)d) & 0xFFFFFF);
					for (size_t x : v) {
						m = b.f;
						m[p] = (uint8_t)code;
						m[p + 1] = (uint8_t)x; m[p + 2] = (uint8_t)(x >> 8); m[p + 3] = (uint8_t)(x >> 16);
						if (!use(m, g, x + (size_t)code + bl, deep || (main_type && (x + (size_t)code) % 4 == 0))) break;
					}
				}
		}
		// short inputs
		for (int a = 0; a < 256; ++a) {
			if (!H.begin("short %s %d", ty, a)) continue;
			std::vector<uint8_t> m;
			use(m, bases[0], 0, a == 0);
			m = { (uint8_t)a };
			use(m, bases[0], 0, true);
			for (int c = 0; c < 256; c += deep ? 1 : 5) { m = { (uint8_t)a, (uint8_t)c }; if (!use(m, bases[0], (size_t)c, false)) break; }
			for (size_t len = 3; len < 40; ++len) for (int pat : { 0, 1, 255 }) {
				m.assign(len, (uint8_t)pat);
				m[0] = (uint8_t)a;
				if (!use(m, bases[0], len, false)) break;
			}
			// a right header for the container, any body
			for (int c = 0; c < 256; c += deep ? 1 : H.args == "asan" ? 51 : main_type ? 5 : 17) for (size_t len : { (size_t)13, (size_t)16, (size_t)17, (size_t)18, (size_t)40 }) for (size_t el : { (size_t)1, CV::block_size - 1, (size_t)CV::block_size, (size_t)CV::block_size + 1 }) {
				m.assign(len, 0);
				m[0] = 255;
				uint64_t u = el * sizeof(T);
				for (int i = 0; i < 7; ++i) m[1 + i] = (uint8_t)(u >> (8 * i));
				uint32_t sb = CV::block_size * sizeof(T);
				for (int i = 0; i < 4; ++i) m[8 + i] = (uint8_t)(sb >> (8 * i));
				m[12] = (uint8_t)(a % 8);
				if (len > 13) { m[13] = (uint8_t)(len - 16 + (a / 8) % 4 - 1); }
				if (len > 16) { m[16] = (uint8_t)c; for (size_t i = 17; i < len; ++i) m[i] = (uint8_t)(a / 32 * 37); }
				if (!use(m, bases[0], (size_t)c, false)) break;
			}
		}
		// frames of the codec itself, with other superblock sizes and element sizes
		for (size_t n : { (size_t)0, (size_t)1, (size_t)255, (size_t)256, (size_t)700 })
			for (int level : { 0, 1, 4 }) for (int shift : { -1, 0, 1, 4, 300 }) for (int dt : { 0, 1 }) {
				if (!H.begin("codec %s n=%zu level=%d shift=%d type+%d", ty, n, level, shift, dt)) continue;
				std::vector<T> v(n);
				std::vector<int64_t> mm;
				for (size_t i = 0; i < n; ++i) { mm.push_back(X::norm(content(0, i))); v[i] = X::make(mm.back()); }
				std::vector<uint8_t> out(n * sizeof(T) * 2 + 1000);
				stenos_context* c = stenos_make_context();
				stenos_set_level(c, level);
				if (shift == 300) stenos_set_block_size(c, CV::block_size * sizeof(T));
				else if (shift >= 0) stenos_set_block_size(c, (size_t)shift);
				size_t r = stenos_compress_generic(c, v.data(), sizeof(T) + (size_t)dt, n * sizeof(T), out.data(), out.size());
				stenos_destroy_context(c);
				if (stenos_has_error(r)) continue;
				out.resize(r);
				use(out, bases[0], 0, true);
			}
	}
};

int main(int argc, char** argv)
{
	H.init(argc, argv);
	struct sigaction sa = {};
	sa.sa_handler = on_abort;
	sa.sa_flags = SA_NODEFER;
	sigaction(SIGABRT, &sa, nullptr);
	if (!freopen("/dev/null", "w", stdout)) return 5;        // STENOS_ABORT prints
	using namespace stenos;
	bool deep = H.thorough, san = H.args == "asan";
	using L = std::vector<std::pair<size_t, int>>;
	L q = { { 0, 0 }, { 1, 0 }, { 255, 0 }, { 256, 3 }, { 257, 1 }, { 700, 2 }, { 1100, 4 } };
	L few = { { 257, 1 }, { 512, 2 } };
	if (san) q = { { 0, 0 }, { 1, 0 }, { 256, 3 }, { 700, 4 } };
	if (deep) { q.push_back({ 512, 2 }); q.push_back({ 3000, 0 }); few = q; }
	(void)few;
#if PART == 0
	Bad<cvector<int32_t, 0, 1, Alloc<int32_t>>> i32; i32.main_type = true; i32.run("i32", q, deep);
#elif PART == 1
	Bad<cvector<uint8_t, 0, 1, Alloc<uint8_t>>>().run("u8", q, deep);
	Bad<cvector<P12, 0, 1, Alloc<P12>>>().run("p12", few, deep);
#else
	Bad<cvector<int64_t, 0, 4, Alloc<int64_t>>>().run("i64l4", few, deep);
	Bad<cvector<P33, 1, 2, Alloc<P33>>> p33; p33.thin = !deep; p33.run("p33", L{ few[0], { 1100, 4 } }, deep);
#endif
	return H.finish();
}
