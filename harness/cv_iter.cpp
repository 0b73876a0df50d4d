// C27: iterators, reverse iterators and references of a cvector follow the rules of random access iterators and values, against std::vector.
#include "common.hpp"
#include "stenos/cvector.hpp"
#include <memory>
#include <string>

// ordered by its last member, 12 bytes, with a copy assignment of its own
struct Rec {
	int32_t a = 0, b = 0, key = 0;
	Rec() = default;
	explicit Rec(int64_t v) : a((int32_t)-v), b(7), key((int32_t)v) {}
	Rec(const Rec&) = default;
	Rec& operator=(const Rec& o) { a = o.a; b = o.b; key = o.key; return *this; }
	bool operator==(const Rec& o) const { return key == o.key && a == o.a && b == o.b; }
	bool operator!=(const Rec& o) const { return !(*this == o); }
	bool operator<(const Rec& o) const { return key < o.key; }
	bool operator>(const Rec& o) const { return key > o.key; }
	bool operator<=(const Rec& o) const { return key <= o.key; }
	bool operator>=(const Rec& o) const { return key >= o.key; }
};
namespace stenos { template<> struct is_relocatable<Rec> : std::true_type {}; }

template<class T> struct Mk { static T make(int64_t v) { return (T)v; } };

static const char* kinds[] = { "iterator", "const_iterator", "reverse_iterator", "const_reverse_iterator" };
static const ptrdiff_t D[] = { 1, 2, 255, 256, 257 };
enum { ND = 5 };
enum Op { INC, DEC, PINC, PDEC, READ, ARROW, WRITE, COPY_AB, COPY_BA, TEMP, SELF, CONV, FAR, ASSIGN, SWAPV, VALUE, SWAPI, MOVED, STEPS };
static const char* opn[] = { "++a", "--a", "a++", "a--", "*a", "a->", "*a=x", "a=b", "b=a", "copy", "a=a", "convert", "far", "*a=*b", "swap(*a,*b)", "value", "swap(a,b)", "a=move(b)" };
static const char* stepn[] = { "a+=", "a-=", "a=a+", "a=a-", "a[]", "b+=", "b-=", "a[]=x" };
enum { NSTEPS = 8, NOPS = STEPS + NSTEPS * ND };
static std::string name(int op)
{
	if (op < STEPS) return opn[op];
	return stepn[(op - STEPS) / ND] + std::to_string((long long)D[(op - STEPS) % ND]);
}

template<class CV, int K> struct Sel;
template<class CV> struct Sel<CV, 0> { typedef typename CV::iterator It; typedef typename std::vector<typename CV::value_type>::iterator Ref; typedef CV C; static It b(CV& c) { return c.begin(); } static It e(CV& c) { return c.end(); } };
template<class CV> struct Sel<CV, 1> { typedef typename CV::const_iterator It; static It b(CV& c) { return c.cbegin(); } static It e(CV& c) { return c.cend(); } };
template<class CV> struct Sel<CV, 2> { typedef typename CV::reverse_iterator It; static It b(CV& c) { return c.rbegin(); } static It e(CV& c) { return c.rend(); } };
template<class CV> struct Sel<CV, 3> { typedef typename CV::const_reverse_iterator It; static It b(CV& c) { return c.crbegin(); } static It e(CV& c) { return c.crend(); } };

template<class CV, int K> struct World {
	typedef typename CV::value_type T;
	typedef Sel<CV, K> S;
	typedef typename S::It It;
	enum { mut = K == 0 || K == 2, rev = K >= 2 };
	CV& c;
	std::vector<T>& m;
	ptrdiff_t n;
	It a, b;
	ptrdiff_t pa, pb;
	int64_t fresh;
	std::string err;

	World(CV& cv, std::vector<T>& mo, ptrdiff_t i, ptrdiff_t j) : c(cv), m(mo), n((ptrdiff_t)mo.size()), a(S::b(cv) + i), b(S::e(cv) - ((ptrdiff_t)mo.size() - j)), pa(i), pb(j), fresh(5000) {}

	T& at(ptrdiff_t p) { return m[(size_t)(rev ? n - 1 - p : p)]; }
	void bad(const char* w) { if (err.empty()) err = w; }
	bool in(ptrdiff_t p) const { return p >= 0 && p < n; }
	bool to(ptrdiff_t p) const { return p >= 0 && p <= n; }

	bool enabled(int op) const
	{
		if (op >= STEPS) {
			ptrdiff_t d = D[(op - STEPS) % ND];
			switch ((op - STEPS) / ND) {
				case 0: case 2: return to(pa + d);
				case 1: case 3: return to(pa - d);
				case 4: return in(pa + d) || in(pa - d);
				case 5: return to(pb + d);
				case 6: return to(pb - d);
				case 7: return mut && in(pa + d);
			}
		}
		switch (op) {
			case INC: case PINC: case READ: case ARROW: case VALUE: return in(pa);
			case WRITE: return mut && in(pa);
			case DEC: case PDEC: return pa > 0;
			case ASSIGN: case SWAPV: return mut && in(pa) && in(pb);
			case CONV: return true;
		}
		return true;
	}
	// operations that modify elements, only for mutable iterators
	template<class I> void write(I& it, ptrdiff_t p, std::true_type) 
	{
		const T x = Mk<T>::make(++fresh);
		typedef typename It::value_type V;
		switch (fresh % 4) {
			case 0: *it = x; break;
			case 1: *it = T(x); break;
			case 2: { const V v(x); *it = v; break; }
			case 3: *it = V(x); break;
		}
		at(p) = x;
	}
	template<class I> void write(I&, ptrdiff_t, std::false_type) {}
	void write_at(ptrdiff_t d, std::true_type) { T x = Mk<T>::make(++fresh); if (fresh & 1) a[d] = x; else a[d] = T(x); at(pa + d) = x; }
	void write_at(ptrdiff_t, std::false_type) {}
	void assign(std::true_type) { *a = *b; at(pa) = at(pb); }
	void assign(std::false_type) {}
	void swapv(std::true_type) { swap(*a, *b); std::swap(at(pa), at(pb)); }
	void swapv(std::false_type) {}
	void conv(std::integral_constant<int, 0>)
	{
		typename CV::const_iterator ca = a, cb(b);
		if (!(ca == a) || !(a == ca) || ca - b != pa - pb || (ca < b) != (pa < pb) || (b <= ca) != (pb <= pa)) bad("comparison of iterator and const_iterator");
		if (in(pa) && !((*ca).get() == at(pa))) bad("value of the const_iterator made from an iterator");
		ca = b;
		if (ca != cb) bad("const_iterator assigned from an iterator");
	}
	void conv(std::integral_constant<int, 1>) {}
	void conv(std::integral_constant<int, 2>)
	{
		typename CV::const_reverse_iterator ca = a;
		if (ca.base() - c.cbegin() != n - pa) bad("base of a converted reverse iterator");
		if (in(pa) && !((*ca).get() == at(pa))) bad("value of the const_reverse_iterator made from a reverse_iterator");
		based();
	}
	void conv(std::integral_constant<int, 3>) { based(); }
	void based()
	{
		if (a.base() - c.begin() != n - pa) bad("base of a reverse iterator");
		It r(a.base());
		if (r != a) bad("reverse iterator made from base");
	}

	void run(int op)
	{
		typedef std::integral_constant<bool, mut> Mut;
		if (op >= STEPS) {
			ptrdiff_t d = D[(op - STEPS) % ND];
			switch ((op - STEPS) / ND) {
				case 0: if (&(a += d) != &a) bad("+= returns something else"); pa += d; break;
				case 1: if (&(a -= d) != &a) bad("-= returns something else"); pa -= d; break;
				case 2: { It r = a + d; if (r - a != d || a - r != -d || d + a != r) bad("distance to a + d"); a = r; pa += d; break; }
				case 3: { It r = a - d; if (a - r != d) bad("distance to a - d"); a = r; pa -= d; break; }
				case 4:
					if (in(pa + d) && !(a[d].get() == at(pa + d))) bad("a[d]");
					if (in(pa - d) && !(a[-d].get() == at(pa - d))) bad("a[-d]");
					break;
				case 5: b += d; pb += d; break;
				case 6: b -= d; pb -= d; break;
				case 7: write_at(d, Mut()); break;
			}
			return;
		}
		switch (op) {
			case INC: if (&++a != &a) bad("++ returns something else"); ++pa; break;
			case DEC: if (&--a != &a) bad("-- returns something else"); --pa; break;
			case PINC: { It r = a++; if (!((*r).get() == at(pa)) || a - r != 1) bad("a++"); ++pa; break; }
			case PDEC: { It r = a--; if (r - a != 1 || (pa < n && !((*r).get() == at(pa)))) bad("a--"); --pa; break; }
			case READ: if (!((*a).get() == at(pa))) bad("*a"); break;
			case ARROW: if (!(*a.operator->() == at(pa))) bad("a->"); break;
			case WRITE: write(a, pa, Mut()); break;
			case COPY_AB: a = b; pa = pb; break;
			case COPY_BA: b = a; pb = pa; break;
			case TEMP: { It r(a); if (r != a || (in(pa) && !((*r).get() == at(pa)))) bad("copy"); It z; z = a; if (z != a || (in(pa) && !((*z).get() == at(pa)))) bad("assignment to a singular iterator"); break; }
			case SELF: { It& s = a; a = s; if (in(pa) && !((*a).get() == at(pa))) bad("self assignment"); break; }
			case CONV: conv(std::integral_constant<int, K>()); break;
			case FAR: for (size_t i = 0; i < m.size(); i += 256) if (!(static_cast<const CV&>(c)[i].get() == m[i])) bad("another chunk"); break;
			case ASSIGN: assign(Mut()); break;
			case SWAPV: swapv(Mut()); break;
			case VALUE: { typename It::value_type x = *a; if (!(x.get() == at(pa)) || !(x == *a)) bad("value_type from *a"); T t = *a; if (!(t == at(pa))) bad("T from *a"); break; }
			case SWAPI: std::swap(a, b); std::swap(pa, pb); break;
			case MOVED: a = It(std::move(b)); b = a; pa = pb; break;
		}
	}
	void compare()
	{
		if (a - b != pa - pb || b - a != pb - pa || (a == b) != (pa == pb) || (a != b) != (pa != pb) || (a < b) != (pa < pb) || (a > b) != (pa > pb) || (a <= b) != (pa <= pb) || (a >= b) != (pa >= pb) ||
		    (b == a) != (pa == pb) || (b < a) != (pb < pa) || (b >= a) != (pb >= pa))
			bad("comparison of the iterators");
		if (a - S::b(c) != pa || S::e(c) - a != n - pa || b - S::b(c) != pb || (a == S::e(c)) != (pa == n)) bad("position of an iterator");
	}
	// values and references; the iterators keep what they hold (copies are dereferenced)
	void values()
	{
		It x(a), y(b);
		if (in(pa) && !((*x).get() == at(pa))) bad("value of a");
		if (in(pb) && !((*y).get() == at(pb))) bad("value of b");
		if (!in(pa) || !in(pb)) return;
		const T &u = at(pa), &v = at(pb);
		if ((*x == *y) != (u == v) || (*x != *y) != (u != v) || (*x < *y) != (u < v) || (*x > *y) != (u > v) || (*x <= *y) != (u <= v) || (*x >= *y) != (u >= v)) bad("comparison of references");
		typename It::value_type w(*y);
		if ((*x == w) != (u == v) || (w < *x) != (v < u) || (*x <= w) != (u <= v) || (w >= *x) != (v >= u) || (w != *x) != (u != v) || (*x > w) != (u > v)) bad("comparison of a reference and a value");
	}
};

template<class CV, int K>
static void explore(const char* type, size_t n, bool shrunk)
{
	typedef typename CV::value_type T;
	std::vector<ptrdiff_t> starts;
	for (ptrdiff_t p : { (ptrdiff_t)0, (ptrdiff_t)1, (ptrdiff_t)255, (ptrdiff_t)256, (ptrdiff_t)257, (ptrdiff_t)n / 2, (ptrdiff_t)n - 1, (ptrdiff_t)n })
		if (p >= 0 && p <= (ptrdiff_t)n && std::find(starts.begin(), starts.end(), p) == starts.end()) starts.push_back(p);
	const ptrdiff_t N = (ptrdiff_t)n;
	for (ptrdiff_t i : starts)
		for (ptrdiff_t j : starts) {
			bool deep = (H.thorough && H.args != "short") || (shrunk && ((i == N / 2 && j == N) || (i == 255 && j == 0)));
			for (int o1 = 0; o1 < NOPS; ++o1) {
				if (!H.begin("%s %s n=%zu shrunk=%d a=%td b=%td first=%s", type, kinds[K], n, (int)shrunk, i, j, name(o1).c_str())) continue;
				CV c;
				std::vector<T> m;
				for (size_t k = 0; k < n; ++k) { T x = Mk<T>::make((int64_t)(k * 7 % 1000)); c.push_back(x); m.push_back(x); }
				if (shrunk) c.shrink_to_fit();
				{ World<CV, K> w(c, m, i, j); if (!w.enabled(o1)) continue; }
				const int l = H.args == "short" ? (H.thorough && deep ? 3 : 2) : deep ? 4 : 3;
				long total = 1;
				for (int k = 1; k < l; ++k) total *= NOPS;
				bool stop = false;
				int64_t fresh = 5000;
				for (long q = 0; q < total && !stop; ++q) {
					int ops[8];
					ops[0] = o1;
					long x = q;
					for (int k = l - 1; k > 0; --k, x /= NOPS) ops[k] = (int)(x % NOPS);
					World<CV, K> w(c, m, i, j);
					w.fresh = fresh;
					w.compare();
					int k = 0;
					for (; k < l && w.err.empty(); ++k) {
						if (!w.enabled(ops[k])) break;
						w.run(ops[k]);
						w.compare();
					}
					if (k < l && w.err.empty()) { // skip the sequences with the same prefix
						long skip = 1;
						for (int z = k + 1; z < l; ++z) skip *= NOPS;
						q = (q / skip + 1) * skip - 1;
						fresh = w.fresh;
						continue;
					}
					w.values();
					fresh = w.fresh;
					H.stats["sequences"]++;
					H.stats["transitions"] += k;
					if (H.distinct.size() < 200000) H.distinct.insert(vh::mix(vh::mix(vh::mix((uint64_t)w.pa * 1000003 + (uint64_t)w.pb) + K * 16 + n * 64) + (uint64_t)ops[k - 1] * 64 + (k > 1 ? (uint64_t)ops[k - 2] * 4096 : 0)));
					if (!w.err.empty()) {
						std::string t;
						for (int z = 0; z < k; ++z) t += " " + name(ops[z]);
						H.fail("%s after%s", w.err.c_str(), t.c_str());
						stop = true;
					}
				}
				for (size_t k = 0; k < n && !stop; ++k)
					if (!(static_cast<const CV&>(c)[k].get() == m[k])) { H.fail("element %zu differs afterwards", k); stop = true; }
				// the iterators are gone: nothing keeps a chunk decompressed any more
				if (!stop) {
					CV d;
					for (size_t k = 0; k < n; ++k) d.push_back(m[k]);
					c.shrink_to_fit(); d.shrink_to_fit();
					if (c.memory_footprint() > d.memory_footprint() + 256 * sizeof(T) + 512) H.fail("the container holds %zu bytes instead of %zu after the last iterator is gone", c.memory_footprint(), d.memory_footprint());
				}
			}
		}
}

template<class CV>
static void all(const char* type, std::initializer_list<size_t> sizes)
{
	for (size_t n : sizes)
		for (int shrunk = 0; shrunk < 2; ++shrunk) {
			explore<CV, 0>(type, n, shrunk);
			explore<CV, 1>(type, n, shrunk);
			explore<CV, 2>(type, n, shrunk);
			explore<CV, 3>(type, n, shrunk);
		}
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	all<stenos::cvector<int32_t, 0, 1>>("int32", { 0, 1, 256, 300, 770 });
	all<stenos::cvector<Rec, 0, 1>>("record", { 257, 600 });
	return H.finish();
}
