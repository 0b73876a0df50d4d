// C26: reading binary objects of a stream with stenos::istreambuf_iterator, and filling cvectors from single-pass iterators.
#include "common.hpp"
#include "stenos/cvector.hpp"
#include <sstream>
#include <iterator>
#include <numeric>
#include <memory>

struct B3 { unsigned char b[3]; bool operator==(const B3& o) const { return !memcmp(b, o.b, 3); } };
struct B20 { unsigned char b[20]; bool operator==(const B20& o) const { return !memcmp(b, o.b, 20); } };

static std::string bytes(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(vh::mix(i + 11) >> 13 & 0x3F); return s; }
template<class T> static std::vector<T> objects(const std::string& s)
{
	std::vector<T> v(s.size() / sizeof(T));
	memcpy((void*)v.data(), s.data(), v.size() * sizeof(T));
	return v;
}

template<class T>
static void sequences(const char* type)
{
	typedef stenos::istreambuf_iterator<T> It;
	enum { DEREF, PRE, POST, CMP, COPY, ASSIGN, NOPS };
	static const char* names[] = { "deref", "++it", "it++", "compare", "copy", "assign" };
	const int len = H.thorough ? 8 : 6;
	for (size_t nobj = 0; nobj < 4; ++nobj)
		for (size_t extra = 0; extra < sizeof(T); extra += sizeof(T) > 4 ? sizeof(T) - 2 : 1) {
			if (!H.begin("%s sequences objects=%zu extra=%zu", type, nobj, extra)) continue;
			const std::string data = bytes(nobj * sizeof(T) + extra);
			const std::vector<T> want = objects<T>(data);
			long n = 1;
			for (int i = 0; i < len; ++i) n *= NOPS;
			bool stop = false;
			for (long q = 0; q < n && !stop; ++q) {
				std::istringstream in(data);
				std::unique_ptr<It> it(new It(in));
				const It end;
				size_t pos = 0;
				long x = q;
				std::string trace;
				const char* err = nullptr;
				for (int i = 0; i < len && !err; ++i, x /= NOPS) {
					int op = (int)(x % NOPS);
					if (op <= POST && pos >= want.size()) break; // dereferencing or incrementing at the end is undefined
					trace += std::string(names[op]) + " ";
					switch (op) {
						case DEREF: if (!(**it == want[pos])) err = "wrong value"; break;
						case PRE: if (&++*it != it.get()) err = "++ returns something else"; ++pos; break;
						case POST: if (!(*(*it)++ == want[pos])) err = "wrong value of it++"; ++pos; break;
						case CMP:
							if ((*it == end) != (pos >= want.size()) || (*it != end) != (pos < want.size()) || (end == *it) != (pos >= want.size()) || !(*it == *it)) err = "wrong comparison with the end";
							break;
						case COPY: { std::unique_ptr<It> c(new It(*it)); it = std::move(c); break; }
						case ASSIGN: { std::unique_ptr<It> c(new It()); if (i & 1) c.reset(new It(in)); *c = *it; it = std::move(c); It& self = *it; *it = self; break; }
					}
				}
				if (!err) {
					for (; *it != end && pos < want.size(); ++*it, ++pos) if (!(**it == want[pos])) { err = "wrong value at the end"; break; }
					if (!err && (pos != want.size() || *it != end)) err = "wrong number of objects";
				}
				H.stats["transitions"] += len;
				H.distinct.insert(vh::mix(vh::mix(vh::mix(sizeof(T)) + nobj * 100 + extra) + pos) + vh::hash_bytes((const uint8_t*)trace.data(), trace.size()));
				if (err) { H.fail("%s after %s", err, trace.c_str()); stop = true; }
			}
		}
}

template<class T>
static void ranges(const char* type)
{
	typedef stenos::istreambuf_iterator<T> It;
	typedef stenos::cvector<T> CV;
	for (size_t nobj : { (size_t)0, (size_t)1, (size_t)2, (size_t)255, (size_t)256, (size_t)257, (size_t)512, (size_t)1000 })
		for (size_t extra = 0; extra < sizeof(T); extra += sizeof(T) > 4 ? sizeof(T) - 2 : 1)
			for (size_t before : { (size_t)0, (size_t)1, (size_t)256, (size_t)300, (size_t)700 }) {
				if (!H.begin("%s ranges objects=%zu extra=%zu before=%zu", type, nobj, extra, before)) continue;
				const std::string data = bytes(nobj * sizeof(T) + extra);
				const std::vector<T> want = objects<T>(data), old = objects<T>(bytes(before * sizeof(T)));
				auto same = [&](const CV& c, const std::vector<T>& w, const char* what) {
					if (c.size() != w.size()) { H.fail("%s: %zu elements instead of %zu", what, c.size(), w.size()); return; }
					for (size_t i = 0; i < w.size(); ++i) if (!((T)c[i] == w[i])) { H.fail("%s: wrong element %zu", what, i); return; }
				};
				{ std::istringstream in(data); std::vector<T> v((It(in)), It()); if (v.size() != want.size() || !std::equal(v.begin(), v.end(), want.begin())) H.fail("std::vector from a stream"); }
				{ std::istringstream in(data); std::vector<T> v; std::copy(It(in), It(), std::back_inserter(v)); if (v.size() != want.size() || !std::equal(v.begin(), v.end(), want.begin())) H.fail("std::copy from a stream"); }
				{ std::istringstream in(data); size_t n = (size_t)std::distance(It(in), It()); if (n != want.size()) H.fail("std::distance is %zu instead of %zu", n, want.size()); }
				{ std::istringstream in(data); CV c((It(in)), It()); same(c, want, "constructor"); }
				{ std::istringstream in(data); CV c(old.begin(), old.end()); if (before) c.shrink_to_fit(); c.assign(It(in), It()); same(c, want, "assign"); }
				for (size_t at : { (size_t)0, before / 2, before }) {
					std::istringstream in(data);
					CV c(old.begin(), old.end());
					std::vector<T> w(old);
					auto r = c.insert(c.begin() + (std::ptrdiff_t)at, It(in), It());
					w.insert(w.begin() + (std::ptrdiff_t)at, want.begin(), want.end());
					if ((size_t)(r - c.begin()) != at) H.fail("insert returns position %zu instead of %zu", (size_t)(r - c.begin()), at);
					same(c, w, "insert");
					H.stats["transitions"]++;
				}
				H.stats["transitions"] += 5;
			}
}

// single-pass iterators of the standard library
static void text()
{
	for (size_t n : { (size_t)0, (size_t)1, (size_t)255, (size_t)256, (size_t)257, (size_t)600 })
		for (size_t before : { (size_t)0, (size_t)3, (size_t)256, (size_t)600 }) {
			if (!H.begin("istream_iterator n=%zu before=%zu", n, before)) continue;
			std::ostringstream os;
			std::vector<int> want, old(before);
			for (size_t i = 0; i < n; ++i) { want.push_back((int)(i * i)); os << i * i << ' '; }
			std::iota(old.begin(), old.end(), 5);
			typedef std::istream_iterator<int> It;
			auto same = [&](const stenos::cvector<int>& c, const std::vector<int>& w, const char* what) {
				bool ok = c.size() == w.size();
				for (size_t i = 0; ok && i < w.size(); ++i) ok = (int)c[i] == w[i];
				if (!ok) H.fail("%s from istream_iterator (%zu elements)", what, c.size());
			};
			{ std::istringstream in(os.str()); stenos::cvector<int> c((It(in)), It()); same(c, want, "constructor"); }
			{ std::istringstream in(os.str()); stenos::cvector<int> c(old.begin(), old.end()); c.assign(It(in), It()); same(c, want, "assign"); }
			for (size_t at : { (size_t)0, before / 2, before }) {
				std::istringstream in(os.str());
				stenos::cvector<int> c(old.begin(), old.end());
				std::vector<int> w(old);
				auto r = c.insert(c.begin() + (std::ptrdiff_t)at, It(in), It());
				w.insert(w.begin() + (std::ptrdiff_t)at, want.begin(), want.end());
				if ((size_t)(r - c.begin()) != at) H.fail("insert from istream_iterator returns another position");
				same(c, w, "insert");
			}
			H.stats["transitions"] += 5;
		}
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	sequences<char>("char");
	sequences<int16_t>("int16");
	sequences<B3>("3 bytes");
	sequences<int32_t>("int32");
	sequences<B20>("20 bytes");
	ranges<char>("char");
	ranges<int32_t>("int32");
	ranges<B3>("3 bytes");
	ranges<B20>("20 bytes");
	text();
	return H.finish();
}
