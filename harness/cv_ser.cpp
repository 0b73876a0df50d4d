// C09: serialization of the containers reached by sequences of operations.
#include "cv_ops.hpp"
#include "guard.hpp"
#include <thread>
#include <streambuf>
unsigned std::thread::hardware_concurrency() noexcept { return 1; }
using namespace cv;

struct LimitedBuf : std::streambuf {                     // accepts a number of bytes, then fails
	std::string data;
	size_t limit;
	explicit LimitedBuf(size_t l) : limit(l) {}
	int_type overflow(int_type c) override { if (data.size() >= limit) return traits_type::eof(); data.push_back((char)c); return c; }
	std::streamsize xsputn(const char* p, std::streamsize n) override
	{
		size_t k = std::min<size_t>((size_t)n, limit - std::min(limit, data.size()));
		data.append(p, k);
		return (std::streamsize)k;
	}
	pos_type seekoff(off_type, std::ios_base::seekdir, std::ios_base::openmode) override { return pos_type((off_type)data.size()); }
};

struct PipeBuf : std::streambuf {                        // no positions; gives a few bytes at a time, up to a limit
	std::string data;
	size_t given = 0, step, limit;
	PipeBuf(size_t st, size_t l = (size_t)-1) : step(st), limit(l) {}
	int_type overflow(int_type c) override { data.push_back((char)c); return c; }
	int_type underflow() override
	{
		size_t e = std::min(data.size(), limit);
		if (given >= e) return traits_type::eof();
		size_t k = std::min(step, e - given);
		setg(&data[given], &data[given], &data[given] + k);
		given += k;
		return traits_type::to_int_type(*gptr());
	}
};

template<class CV>
struct Runner {
	using S = State<CV>;
	using T = typename CV::value_type;
	using X = Tr<T>;
	using O = const Op<S>*;
	static const Table<S>& table() { static Table<S> t; return t; }

	static void verify_decoded(S& s, const std::vector<T>& v, const char* how)
	{
		for (size_t i = 0; i < v.size() && s.err.empty(); ++i) s.check(X::val(v[i]) == s.ma[i], "%s: element %zu is %lld instead of %lld", how, i, (long long)X::val(v[i]), (long long)s.ma[i]);
	}
	static void use(S& s, CV& c, const std::vector<int64_t>& m0, const char* name)    // the container behaves normally
	{
		std::vector<int64_t> m = m0;
		s.cmp(c, m, name);
		if (!s.err.empty()) return;
		for (int i = 0; i < 3; ++i) { int64_t v = s.fresh(); c.push_back(X::make(v)); m.push_back(v); }
		for (size_t i = 0; i < m.size(); i += 200) { int64_t v = s.fresh(); c[i] = X::make(v); m[i] = v; }
		c.pop_back(); m.pop_back();
		s.cmp(c, m, name);
		// the last chunk is filled exactly, then the other chunks are used so that it is compressed
		while (m.size() % 256) { int64_t v = s.fresh(); c.push_back(X::make(v)); m.push_back(v); }
		for (int k = 0; k < 2; ++k)
			for (size_t i = 0; i < m.size(); i += 256) { const CV& cc = c; s.check(X::val(cc[i].get()) == m[i], "%s: element %zu after filling the last chunk", name, i); if (k) { int64_t v = s.fresh(); c[i] = X::make(v); m[i] = v; } }
		s.cmp(c, m, name);
		c.resize(m.size() / 2 + 1); m.resize(m.size() / 2 + 1);
		s.cmp(c, m, name);
	}
	static void check_state(S& s, int depth)
	{
		size_t n = s.n(), max = n * sizeof(T) + 5 * (n / CV::block_size + 1) + 64;
		std::vector<char> buf(max, (char)0x5c);
		size_t r = s.a.serialize(buf.data(), max);
		s.check(!stenos_has_error(r), "serialize failed (%zu bytes available)", max);
		if (!s.err.empty()) return;
		for (size_t i = r; i < max; ++i) if (buf[i] != 0x5c) { s.check(false, "serialize returned %zu but wrote at %zu", r, i); break; }
		s.cmp(s.a, s.ma, "a after serialize");
		s.check(stenos_bound(n * sizeof(T)) + 64 + 4 * (n / CV::block_size + 1) >= r, "serialized size %zu", r);
		// with stenos_decompress
		{
			std::vector<T> out(n + 1);
			size_t d = stenos_decompress(buf.data(), sizeof(T), r, out.data(), n * sizeof(T));
			s.check(d == n * sizeof(T), "stenos_decompress returned %zu instead of %zu", d, n * sizeof(T));
			out.resize(n);
			verify_decoded(s, out, "stenos_decompress");
		}
		// buffer, into a new container and into the other one
		{
			CV c;
			size_t d = c.deserialize(buf.data(), r);
			s.check(d == n, "deserialize returned %zu instead of %zu", d, n);
			use(s, c, s.ma, "the container deserialized from a buffer");
			d = c.deserialize(buf.data(), r);
			s.check(d == n, "deserialize into a used container returned %zu instead of %zu", d, n);
			s.cmp(c, s.ma, "the container deserialized again");
			// and serialized again
			if (s.err.empty()) {
				std::vector<char> b2(max);
				size_t r2 = c.serialize(b2.data(), max);
				std::vector<T> out(n + 1);
				size_t d2 = stenos_has_error(r2) ? r2 : stenos_decompress(b2.data(), sizeof(T), r2, out.data(), n * sizeof(T));
				s.check(d2 == n * sizeof(T), "serialized again: %zu", d2);
				out.resize(n);
				verify_decoded(s, out, "serialized again");
			}
		}
		// streams: two containers one after the other, after other bytes
		{
			std::stringstream ss;
			ss << "abcde";
			size_t r1 = s.a.serialize(ss), r2 = s.b.serialize(ss);
			ss << "fgh";
			s.check(!stenos_has_error(r1) && !stenos_has_error(r2) && r1 == r && ss.str().size() == 8 + r1 + r2, "stream serialize returned %zu,%zu (buffer: %zu, stream: %zu)", r1, r2, r, ss.str().size());
			s.cmp_all();
			if (!s.err.empty()) return;
			char t[6] = "";
			ss.read(t, 5);
			CV c, d;
			size_t d1 = c.deserialize(ss), d2 = d.deserialize(ss);
			s.check(d1 == n && d2 == s.mb.size(), "stream deserialize returned %zu,%zu instead of %zu,%zu", d1, d2, n, s.mb.size());
			use(s, c, s.ma, "the container deserialized from a stream");
			s.cmp(d, s.mb, "the second container of the stream");
			memset(t, 0, 6);
			ss.read(t, 3);
			s.check(!strcmp(t, "fgh"), "deserialize left the stream at the wrong position");
		}
		// streams without positions
		for (size_t step : { (size_t)1, (size_t)3, (size_t)100000 }) {
			if (step != 1 + 2 * (n & 1) && step != 100000 && depth > 1 && !H.thorough) continue;
			PipeBuf pb(step);
			std::iostream ss(&pb);
			size_t r1 = s.a.serialize(ss), r2 = s.b.serialize(ss);
			ss << "xyz";
			s.check(r1 == r && pb.data.size() == r1 + r2 + 3, "serialize to a stream without positions returned %zu,%zu (buffer: %zu, stream: %zu)", r1, r2, r, pb.data.size());
			if (!s.err.empty()) return;
			CV c, d;
			size_t d1 = c.deserialize(ss), d2 = d.deserialize(ss);
			s.check(d1 == n && d2 == s.mb.size(), "deserialize from a stream without positions returned %zu,%zu instead of %zu,%zu", d1, d2, n, s.mb.size());
			s.cmp(c, s.ma, "the container deserialized from a stream without positions");
			s.cmp(d, s.mb, "the second container of a stream without positions");
			char t[6] = "";
			ss.read(t, 3);
			s.check(!strcmp(t, "xyz"), "deserialize left the stream without positions at the wrong place");
		}
		// streams that report the end of the data, or a failure, with an exception
		for (size_t k : { (size_t)0, (size_t)5, (size_t)14, (size_t)20, r / 2, r - 1 }) {
			if (k >= r || !s.err.empty()) continue;
			{
				PipeBuf pb(7, k);
				pb.data.assign(buf.data(), r);
				std::istream is(&pb);
				is.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
				CV c;
				bool refused = false;
				try { size_t q = c.deserialize(is); refused = stenos_has_error(q); }
				catch (const std::ios_base::failure&) { refused = true; }
				s.check(refused, "deserialize accepts %zu bytes of %zu", k, r);
				std::vector<int64_t> m;
				bool pre = c.size() <= n;
				for (size_t i = 0; pre && i < c.size(); ++i) m.push_back(s.ma[i]);
				s.check(pre, "a refused stream leaves %zu elements of %zu", c.size(), n);
				use(s, c, m, "the container after an exception of the stream");
			}
			{
				LimitedBuf lb(k);
				std::ostream os(&lb);
				os.exceptions(std::ios::failbit | std::ios::badbit);
				bool refused = false;
				try { size_t q = s.a.serialize(os); refused = stenos_has_error(q); }
				catch (const std::ios_base::failure&) { refused = true; }
				s.check(refused, "serialize to a stream that throws after %zu bytes of %zu", k, r);
			}
			H.stats["throwing_streams"] += 2;
		}
		s.cmp_all();
		if (!s.err.empty()) return;
		// destination sizes
		std::vector<size_t> ks;
		if (depth == 1 || H.thorough) for (size_t k = 0; k < r; k += k < 40 || r < 600 ? 1 : std::max<size_t>(1, r / 97)) ks.push_back(k);
		else ks = { 0, 3, 11, 12, r / 2 };
		{
			size_t p = 12;
			while (p + 4 <= r) {
				size_t cs = ((uint8_t)buf[p + 1] | (uint8_t)buf[p + 2] << 8 | (uint8_t)buf[p + 3] << 16) + 4;
				for (long o : { -1L, 0L, 1L, 3L, 4L, 5L }) { long k = (long)p + o; if (k >= 0 && k < (long)r) ks.push_back((size_t)k); }
				p += cs;
			}
			s.check(p == r, "the chain of blocks ends at %zu of %zu", p, r);
			ks.push_back(r ? r - 1 : 0);
		}
		for (size_t k : ks) {
			if (!s.err.empty()) return;
			if (k >= r) continue;
			memset(buf.data() + k, 0x5c, std::min<size_t>(max - k, 600));
			size_t e = s.a.serialize(buf.data(), k);
			s.check(stenos_has_error(e), "serialize into %zu bytes of %zu returned %zu", k, r, e);
			for (size_t i = k; i < std::min(max, k + 600); ++i) if (buf[i] != 0x5c) { s.check(false, "serialize into %zu bytes wrote at %zu", k, i); break; }
			LimitedBuf lb(k);
			std::ostream os(&lb);
			e = s.a.serialize(os);
			s.check(stenos_has_error(e), "serialize into a stream that fails after %zu bytes of %zu returned %zu", k, r, e);
			H.stats["small_destinations"] += 2;
		}
		size_t e = s.a.serialize(buf.data(), r);
		s.check(e == r, "serialize into exactly %zu bytes returned %zu", r, e);
		s.cmp_all();
	}
	static void sequence(const char* type, const Start& st, const std::vector<O>& seq)
	{
		std::string names;
		for (auto o : seq) { if (!names.empty()) names += ","; names += o->name; }
		if (!H.begin("%s %s %s", type, start_name(st).c_str(), names.c_str())) return;
		long blocks0 = live_blocks;
		alloc_error = nullptr;
		std::string err;
		uint64_t sig = vh::hash_bytes(type, strlen(type));
		big_min = sizeof(T) * CV::block_size;
		{
			S s;
			build(s, st);
			bool ok = true;
			for (auto o : seq) { if (!o->ok(s)) { H.stats["not_applicable"]++; ok = false; break; } o->run(s); H.stats["transitions"]++; }
			if (ok && s.err.empty()) {
				check_state(s, (int)seq.size());
				// while a reference is held, and after modifications through it
				if (s.err.empty() && s.n()) {
					auto ref = s.a[s.n() / 2];
					int64_t v = s.fresh();
					ref = X::make(v);
					s.ma[s.n() / 2] = v;
					check_state(s, 2);
					v = s.fresh();
					ref = X::make(v);
					s.ma[s.n() / 2] = v;
					check_state(s, 2);
				}
			}
			err = s.err;
			sig = vh::hash_bytes(s.ma.data(), s.ma.size() * 8, sig) * 31 + (uint64_t)live_bytes;
		}
		if (err.empty() && alloc_error) err = alloc_error;
		if (err.empty() && live_blocks != blocks0) err = "memory blocks are still allocated after the destruction of the containers: " + std::to_string(live_blocks - blocks0);
		if (!err.empty()) { H.fail("%s", err.c_str()); live_blocks = 0; blocks->clear(); big_blocks = 0; }
		H.distinct.insert(sig);
	}
	static void all(const char* type, const std::vector<Start>& starts, int depth, bool core)
	{
		const auto& t = table();
		std::vector<O> alpha;
		for (auto& o : t.ops) if (!core || o.cls == 0) alpha.push_back(&o);
		for (auto& st : starts) {
			if (depth == 1) sequence(type, st, {});
			std::vector<size_t> ix(depth, 0);
			for (;;) {
				std::vector<O> seq;
				for (auto i : ix) seq.push_back(alpha[i]);
				sequence(type, st, seq);
				int p = depth - 1;
				while (p >= 0 && ++ix[p] == alpha.size()) ix[p--] = 0;
				if (p < 0) break;
			}
		}
	}
};

int main(int argc, char** argv)
{
	H.init(argc, argv);
	std::vector<Start> S(std::begin(STARTS), std::end(STARTS));
	std::vector<Start> few = { S[3], S[5], S[8], S[9] }, fewq = H.thorough ? S : few;
	std::vector<Start> big = { { 17 * 256 + 3, 0, 0 }, { 40 * 256, 0, 2 }, { 40 * 256 + 100, 2, 1 } };
	using namespace stenos;
	bool q = !H.thorough, san = H.args == "asan";
#if PART == 0
	using K = Runner<cvector<int32_t, 0, 1, Alloc<int32_t>>>;
	K::all("i32", S, 1, q && san);
	if (!san) K::all("i32", big, 1, q);
	if (!san || !q) K::all("i32", q ? few : S, 2, true);
	if (!san && !q) K::all("i32", few, 2, false);
	if (!san && !q) K::all("i32", few, 3, true);
#elif PART == 1
	Runner<cvector<uint8_t, 0, 1, Alloc<uint8_t>>>::all("u8", S, 1, q && san);
	Runner<cvector<P12, 0, 1, Alloc<P12>>>::all("p12", S, 1, q && san);
	if (!san) Runner<cvector<P12, 0, 1, Alloc<P12>>>::all("p12", q ? few : S, 2, true);
	if (!san && !q) Runner<cvector<uint8_t, 0, 1, Alloc<uint8_t>>>::all("u8", few, 2, false);
#else
	Runner<cvector<int64_t, 0, 0, Alloc<int64_t>>>::all("i64l0", S, 1, q && san);
	Runner<cvector<P33, 1, 2, Alloc<P33>>>::all("p33", S, 1, q && san);
	if (!san) Runner<cvector<P33, 1, 2, Alloc<P33>>>::all("p33", q ? few : S, 2, true);
	if (!san && !q) Runner<cvector<int64_t, 0, 0, Alloc<int64_t>>>::all("i64l0", few, 2, false);
#endif
	return H.finish();
}
