// C08, C09: containers of more than 2^31 and 2^32 elements (chunks of 65536 elements of one byte), compared with a sparse model.
#include "common.hpp"
#include "stenos/cvector.hpp"
#include <map>
#include <sstream>

template<class T, unsigned B>
struct Big {
	typedef stenos::cvector<T, B, 1> V;
	V v;
	size_t n = 0;
	std::map<size_t, T> m; // elements other than 7
	bool ok = true;

	T want(size_t i) const { auto it = m.find(i); return it == m.end() ? (T)7 : it->second; }
	void put(size_t i, T x) { if (x == (T)7) m.erase(i); else m[i] = x; }
	void tick() { H.cur->counter = H.cur->counter + 1; H.stats["transitions"]++; }
	bool bad(const char* what, size_t i, long long got) { if (ok) H.fail("%s at %zu of %zu: %lld", what, i, n, got); ok = false; return false; }
	// inserts or removes elements of the model at i
	void shift(size_t i, long by)
	{
		std::map<size_t, T> r;
		for (auto& e : m) {
			if (e.first < i) r.insert(e);
			else if (by >= 0 || e.first >= i + (size_t)-by) r[e.first + (size_t)by] = e.second;
		}
		m.swap(r);
		n += (size_t)by;
	}
	std::vector<size_t> places() const
	{
		std::set<size_t> s;
		for (size_t p : { (size_t)0, (size_t)1 << 16, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 65536, n })
			for (long d : { -65536L, -257L, -256L, -2L, -1L, 0L, 1L, 255L, 1000L }) {
				size_t q = p + (size_t)d;
				if (q < n) s.insert(q);
			}
		for (auto& e : m) { s.insert(e.first); if (e.first) s.insert(e.first - 1); if (e.first + 1 < n) s.insert(e.first + 1); }
		return std::vector<size_t>(s.begin(), s.end());
	}
	bool check(const char* what)
	{
		tick();
		if (!ok) return false;
		if (v.size() != n) return bad(what, 0, (long long)v.size());
		const V& c = v;
		typedef typename V::difference_type D;
		if (v.end() - v.begin() != (D)n || c.cend() - c.cbegin() != (D)n) return bad("distance", 0, (long long)(v.end() - v.begin()));
		for (size_t i : places()) {
			T w = want(i);
			if ((T)c[i] != w) return bad(what, i, (long long)(T)c[i]);
			if ((T)v[i] != w) return bad(what, i, (long long)(T)v[i]);
			if ((T)v.at(i) != w) return bad("at", i, 0);
			auto it = v.begin() + (D)i;
			if ((T)*it != w || (T)v.begin()[(D)i] != w || it - v.begin() != (D)i || v.end() - it != (D)(n - i)) return bad("iterator", i, (long long)(T)*it);
			auto jt = c.end() - (D)(n - i);
			if ((T)*jt != w || jt != it || !(jt < c.end()) || jt > it) return bad("const iterator", i, (long long)(T)*jt);
			++it;
			if (it - v.begin() != (D)(i + 1) || (i + 1 < n && (T)*it != want(i + 1))) return bad("next iterator", i, 0);
		}
		if (n && ((T)v.front() != want(0) || (T)v.back() != want(n - 1))) return bad("front or back", 0, 0);
		return true;
	}
	void grow(size_t to, bool value)
	{
		if (value) v.resize(to, (T)7);
		else { v.resize(to); }
		n = to;
	}
	void set_all() // an own value at each place
	{
		T k = 1;
		for (size_t i : places()) { T x = (T)(k++ % 100 + 10); v[i] = x; put(i, x); }
	}
	bool range(size_t a, size_t b)
	{
		tick();
		size_t i = a;
		bool good = true;
		size_t r = v.const_for_each(a, b, [&](const T& x) { if (x != want(i)) good = false; ++i; });
		if (!good || r != b - a || i != b) return bad("const_for_each", a, (long long)r);
		i = b;
		r = v.const_for_each_backward(a, b, [&](const T& x) { --i; if (x != want(i)) good = false; });
		if (!good || r != b - a || i != a) return bad("const_for_each_backward", a, (long long)r);
		i = a;
		size_t stop = a + (b - a) / 2;
		r = v.for_each(a, b, [&](T& x) { if (i == stop) return false; x = (T)(x + 1); ++i; return true; });
		if (r != stop - a) return bad("for_each", a, (long long)r);
		for (i = a; i < stop; ++i) put(i, (T)(want(i) + 1));
		i = b;
		r = v.for_each_backward(a, b, [&](T& x) { if (i == stop + 1) return false; --i; x = (T)(x + 3); return true; });
		if (r != b - stop - 1) return bad("for_each_backward", a, (long long)r);
		for (i = stop + 1; i < b; ++i) put(i, (T)(want(i) + 3));
		return true;
	}
};

template<class T, unsigned B>
static void operations(const char* name, size_t n)
{
	if (!H.begin("big %s %zu", name, n)) return;
	Big<T, B> b;
	b.grow(n, true);
	if (!b.check("resize")) return;
	b.set_all();
	if (!b.check("write")) return;
	for (size_t c : { (size_t)1 << 31, (size_t)1 << 32, n - 200 })
		if (c + 200 <= n && !b.range(c - 100, c + 100)) return;
	if (!b.check("for_each")) return;
	for (int i = 0; i < 3; ++i) { b.v.push_back((T)(50 + i)); b.put(b.n++, (T)(50 + i)); }
	if (!b.check("push_back")) return;
	for (size_t back : { (size_t)1, (size_t)5, (size_t)300 }) {
		size_t p = b.n - back;
		auto it = b.v.insert(b.v.begin() + (ptrdiff_t)p, (T)33);
		b.shift(p, 1); b.put(p, (T)33);
		if (it - b.v.begin() != (ptrdiff_t)p) { b.bad("position after insert", p, it - b.v.begin()); return; }
		if (!b.check("insert")) return;
		T some[40];
		for (int i = 0; i < 40; ++i) some[i] = (T)(i + 60);
		auto jt = b.v.insert(b.v.begin() + (ptrdiff_t)p, some, some + 40);
		b.shift(p, 40);
		for (int i = 0; i < 40; ++i) b.put(p + i, some[i]);
		if (jt - b.v.begin() != (ptrdiff_t)p || !b.check("insert range")) { b.bad("position after insert", p, jt - b.v.begin()); return; }
		auto kt = b.v.erase(b.v.begin() + (ptrdiff_t)p + 3, b.v.begin() + (ptrdiff_t)p + 20);
		b.shift(p + 3, -17);
		if (kt - b.v.begin() != (ptrdiff_t)p + 3 || !b.check("erase range")) { b.bad("position after erase", p, kt - b.v.begin()); return; }
		b.v.erase(b.v.begin() + (ptrdiff_t)p);
		b.shift(p, -1);
		if (!b.check("erase")) return;
	}
	b.v.pop_back(); b.shift(b.n - 1, -1);
	if (!b.check("pop_back")) return;
	b.v.shrink_to_fit();
	if (!b.check("shrink_to_fit")) return;
	{
		stenos::cvector<T, B, 1> o(std::move(b.v));
		if (o.size() != b.n || b.v.size()) { b.bad("move", 0, (long long)o.size()); return; }
		b.v.swap(o);
		if (!b.check("swap")) return;
	}
	for (size_t to : { ((size_t)1 << 32) + 3, ((size_t)1 << 32) - 70000, ((size_t)1 << 31) + 1, ((size_t)1 << 31) - 1, (size_t)100000 }) {
		if (to > b.n) continue;
		b.v.resize(to);
		b.m.erase(b.m.lower_bound(to), b.m.end());
		b.n = to;
		if (!b.check("resize to a smaller size")) return;
	}
	b.v.resize(n); // the new elements are zero
	size_t old = b.n;
	b.n = n;
	for (size_t i : b.places()) if (i >= old) b.put(i, 0);
	if (b.v.size() != n) { b.bad("size", 0, (long long)b.v.size()); return; }
	for (size_t i : { old, old + 1, n / 2, n - 2, n - 1 })
		if ((T)b.v[i] != (T)0) { b.bad("resize", i, (long long)(T)b.v[i]); return; }
	H.distinct.insert(vh::mix(n));
}

template<class T, unsigned B>
static void serial(const char* name, size_t n)
{
	if (!H.begin("big serial %s %zu", name, n)) return;
	Big<T, B> b, c, d;
	b.grow(n, true);
	b.set_all();
	std::vector<char> buf((n * sizeof(T) >> 16) * 1024 + (1 << 20));
	size_t r = b.v.serialize(buf.data(), buf.size());
	b.tick();
	if (stenos_has_error(r)) { b.bad("serialize", 0, (long long)r); return; }
	stenos_info info;
	if (stenos_has_error(stenos_get_info(buf.data(), sizeof(T), r, &info)) || info.decompressed_size != n * sizeof(T)) { b.bad("stenos_get_info", 0, (long long)info.decompressed_size); return; }
	size_t q = c.v.deserialize(buf.data(), r);
	c.n = b.n; c.m = b.m;
	if (q != n) { c.bad("deserialize", 0, (long long)q); return; }
	if (!c.check("deserialize")) return;
	std::stringstream ss;
	size_t s = b.v.serialize(ss);
	if (s != r || ss.str() != std::string(buf.data(), r)) { b.bad("serialize to a stream", 0, (long long)s); return; }
	q = d.v.deserialize(ss);
	d.n = b.n; d.m = b.m;
	if (q != n) { d.bad("deserialize from a stream", 0, (long long)q); return; }
	if (!d.check("deserialize from a stream")) return;
	H.distinct.insert(vh::mix(n + 1));
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	const size_t G2 = (size_t)1 << 31, G4 = (size_t)1 << 32;
	if (H.args == "ser") {
		serial<uint8_t, 8>("u8", G4 + 66000);
		serial<uint8_t, 8>("u8", G4);
		serial<uint16_t, 7>("u16", G2 + 777);
		serial<uint32_t, 6>("u32", G2 / 2 + 3);
	}
	else {
		operations<uint8_t, 8>("u8", G4 + 131072);
		operations<uint8_t, 8>("u8", G4 + 70001);
		operations<uint8_t, 8>("u8", G4 + 500);
		operations<uint16_t, 7>("u16", G2 + 777);
		operations<uint32_t, 6>("u32", G2 + 33000);
		if (H.thorough) {
			operations<uint8_t, 3>("u8-small-chunks", G4 + 70001);
			operations<uint64_t, 2>("u64", G2 + 1000);
		}
	}
	return H.finish();
}
