// C10, C18: concurrent reads, and concurrent for_each calls, on one cvector under every schedule (bounded)
#include "mc_explore.hpp"
#include "stenos/cvector.hpp"
#include <thread>
#include <atomic>
#include <memory>

template<class T> struct Val;
template<> struct Val<uint16_t> { static uint16_t make(size_t i) { return (uint16_t)(i * 3 + 1); } static size_t key(const uint16_t& v) { return v; } };
struct Big { uint32_t a, b, c; bool operator==(const Big& o) const { return a == o.a && b == o.b && c == o.c; } };
template<> struct Val<Big> { static Big make(size_t i) { return { (uint32_t)i, (uint32_t)(i * 7), ~(uint32_t)i }; } };

enum Start { COMPRESSED, FRESH, DIRTY, TAIL };
static const size_t B = 256;

template<class T> static void fill(stenos::cvector<T>& v, size_t n, Start st)
{
	for (size_t i = 0; i < n; ++i) v.push_back(Val<T>::make(i));
	if (st == COMPRESSED || st == DIRTY || st == TAIL) v.shrink_to_fit();
	if (st == DIRTY) // two decompressed and modified chunks
		for (size_t c = 0; c < 2 && c * B < n; ++c) v[c * B + 5] = Val<T>::make(c * B + 5);
}
template<class T> static void expect(const T& x, size_t i, const char* what)
{
	if (!(x == Val<T>::make(i))) mc::violation("%s: element %zu has a wrong value", what, i);
}
template<class V> using ET = typename std::remove_const<V>::type::value_type;

// ---- reading operations
template<class V> static void op_at(V& v, size_t i) { ET<V> x = v[i]; expect(x, i, "operator[]"); }
template<class V> static void op_at2(V& v, size_t i, size_t j) { op_at(v, i); op_at(v, j); }
template<class V> static void op_hold(V& v, size_t i, size_t j)
{
	auto r = v[i];
	const ET<V>* p = &r.get();
	expect(*p, i, "reference");
	{ ET<V> y = v[j]; expect(y, j, "operator[] with a live reference"); }
	expect(*p, i, "address of a live reference");
	if (&r.get() != p) mc::violation("the address of a live reference changed");
}
template<class V> static void op_iter(V& v, size_t i, size_t n)
{
	auto it = v.begin() + (ptrdiff_t)i;
	for (size_t k = 0; k < n; ++k, ++it) { ET<V> x = *it; expect(x, i + k, "iterator"); }
}
template<class V> static void op_iter_hold(V& v, size_t i, size_t j)
{
	auto it = v.cbegin() + (ptrdiff_t)i;
	const ET<V>* p = &(*it).get();
	op_at(v, j);
	expect(*p, i, "dereferenced iterator");
	expect((*it).get(), i, "iterator dereferenced again");
}
template<class V> static void op_foreach(V& v, size_t a, size_t b)
{
	size_t i = a;
	size_t r = v.const_for_each(a, b, [&](const ET<V>& x) { expect(x, i, "const_for_each"); ++i; });
	if (r != b - a || i != b) mc::violation("const_for_each visited %zu elements", r);
}
template<class V> static void op_foreach_back(V& v, size_t a, size_t b)
{
	size_t i = b;
	size_t r = v.const_for_each_backward(a, b, [&](const ET<V>& x) { --i; expect(x, i, "const_for_each_backward"); });
	if (r != b - a || i != a) mc::violation("const_for_each_backward visited %zu elements", r);
}
template<class V> static void op_ends(V& v) { ET<V> f = v.front(); expect(f, 0, "front"); ET<V> b = v.back(); expect(b, v.size() - 1, "back"); }
template<class V> static void op_stop(V& v, size_t a, size_t b, size_t stop)
{
	size_t i = a;
	size_t r = v.const_for_each(a, b, [&](const ET<V>& x) { expect(x, i, "const_for_each"); return ++i != stop; });
	(void)r;
}
template<class V> static void op_copy(V& v)
{
	typename std::remove_const<V>::type c(v);
	if (c.size() != v.size()) mc::violation("copy has another size");
	size_t i = 0;
	c.const_for_each(0, c.size(), [&](const ET<V>& x) { expect(x, i, "copy"); ++i; });
}

template<class T> static void readers(size_t n, Start st, bool constant, std::vector<std::function<void(stenos::cvector<T>&, const stenos::cvector<T>&)>> ops)
{
	(void)constant;
	stenos::cvector<T> v;
	fill(v, n, st);
	mc::settle();
	mc::explore(true);
	{
		const stenos::cvector<T>& cv = v;
		std::vector<std::thread> ths;
		for (size_t k = 0; k + 1 < ops.size(); ++k) ths.emplace_back([&, k]() { ops[k](v, cv); });
		ops.back()(v, cv);
		for (auto& t : ths) t.join();
	}
	mc::explore(false);
	if (v.size() != n) mc::violation("the size changed");
	size_t i = 0;
	v.const_for_each(0, n, [&](const T& x) { expect(x, i, "content afterwards"); ++i; });
	for (size_t k = 0; k < n; k += 97) { v[k] = Val<T>::make(k); }
	v.shrink_to_fit();
	v.push_back(Val<T>::make(n));
	i = 0;
	v.const_for_each(0, n + 1, [&](const T& x) { expect(x, i, "content after more modifications"); ++i; });
}

// ---- for_each: the order of the functor calls on an element is kept in its value
struct Marks {
	std::unique_ptr<std::atomic<uint32_t>[]> m;
	explicit Marks(size_t n) : m(new std::atomic<uint32_t>[n]) { for (size_t i = 0; i < n; ++i) m[i].store(0, std::memory_order_relaxed); }
};
static bool probed(size_t i) { return i % B == 0 || i % B == B - 1; }
struct Call { size_t a, b; bool backward, constant; size_t stop; };  // stop: number of elements processed before returning false, 0 = none
typedef stenos::cvector<uint32_t> V32;
static uint32_t val0(size_t i) { return (uint32_t)i << 12; }

static void run_call(V32& v, Marks& mk, const Call& c, uint32_t tag)
{
	size_t done = 0, i = c.backward ? c.b : c.a;
	auto next = [&]() { return c.backward ? --i : i++; };
	size_t r;
	if (c.constant) {
		const V32& cv = v;
		auto f = [&](const uint32_t& x) {
			size_t k = next();
			if ((x >> 12) != k) mc::violation("const functor got the value of another element (%u for %zu)", x >> 12, k);
			if (probed(k)) {
				uint32_t o = mk.m[k].fetch_add(0x100, std::memory_order_relaxed);
				if (o & 0xFF) mc::violation("a const functor runs while a mutable functor runs on element %zu", k);
				uint32_t y = x;
				mk.m[k].fetch_sub(0x100, std::memory_order_relaxed);
				if (y != x) mc::violation("the element %zu changed under a const functor", k);
			}
			return ++done != c.stop;
		};
		r = c.backward ? cv.for_each_backward(c.a, c.b, f) : cv.for_each(c.a, c.b, f);
	}
	else {
		auto f = [&](uint32_t& x) {
			size_t k = next();
			if ((x >> 12) != k) mc::violation("functor got the value of another element (%u for %zu)", x >> 12, k);
			uint32_t y = x;
			if (probed(k)) {
				uint32_t o = mk.m[k].fetch_add(1, std::memory_order_relaxed);
				if (o) mc::violation("two functors run on element %zu at the same time", k);
				mk.m[k].fetch_sub(1, std::memory_order_relaxed);
			}
			x = (y & ~0xFFFu) | ((y << 3 | tag) & 0xFFF);
			return ++done != c.stop;
		};
		r = c.backward ? v.for_each_backward(c.a, c.b, f) : v.for_each(c.a, c.b, f);
	}
	size_t want = c.stop && c.stop <= c.b - c.a ? c.stop - 1 : c.b - c.a;
	if (r != want) mc::violation("for_each returned %zu instead of %zu", r, want);
}
static void foreachers(size_t n, Start st, std::vector<std::vector<Call>> calls)
{
	V32 v;
	for (size_t i = 0; i < n; ++i) v.push_back(val0(i));
	if (st != FRESH) v.shrink_to_fit();
	if (st == DIRTY) for (size_t c = 0; c < 2 && c * B < n; ++c) v[c * B + 5] = val0(c * B + 5);
	Marks mk(n);
	mc::settle();
	mc::explore(true);
	{
		std::vector<std::thread> ths;
		for (size_t k = 0; k + 1 < calls.size(); ++k) ths.emplace_back([&, k]() { for (auto& c : calls[k]) run_call(v, mk, c, (uint32_t)k + 1); });
		for (auto& c : calls.back()) run_call(v, mk, c, (uint32_t)calls.size());
		for (auto& t : ths) t.join();
	}
	mc::explore(false);
	if (v.size() != n) mc::violation("the size changed");
	uint64_t h = 0;
	size_t i = 0;
	v.const_for_each(0, n, [&](const uint32_t& x) {
		if ((x >> 12) != i) mc::violation("element %zu lost its value", i);
		// the tags must be a permutation of the calls that cover the element; the calls of one thread are all alike
		int cnt[5] = { 0 }, seen[5] = { 0 };
		for (size_t k = 0; k < calls.size(); ++k)
			for (auto& c : calls[k]) {
				if (c.constant || i < c.a || i >= c.b) continue;
				size_t pos = c.backward ? c.b - 1 - i : i - c.a;
				if (c.stop && pos >= c.stop) continue;
				++cnt[k + 1];
			}
		uint32_t y = x & 0xFFF;
		while (y) { uint32_t t = y & 7; if (t > 4 || !t) mc::violation("element %zu has an impossible value", i); ++seen[t]; y >>= 3; }
		for (int t = 1; t < 5; ++t) if (seen[t] != cnt[t]) mc::violation("element %zu: %d modifications of thread %d instead of %d", i, seen[t], t, cnt[t]);
		if (probed(i)) h = h * 1099511628211ull + (x & 0xFFF);
		++i;
	});
	mc::outcome(h);
}

typedef stenos::cvector<uint16_t> V16;
typedef const V16& C16;
#define R(...) [](V16& v, C16 c) { (void)v; (void)c; __VA_ARGS__; }
#define RB(...) [](stenos::cvector<Big>& v, const stenos::cvector<Big>& c) { (void)v; (void)c; __VA_ARGS__; }
static std::vector<Scenario> scenarios()
{
	std::vector<Scenario> s;
	auto rd = [&](const char* n, size_t size, Start st, int q, int t, std::vector<std::function<void(V16&, C16)>> ops) { s.push_back({ std::string("read-") + n, [=]() { readers<uint16_t>(size, st, true, ops); }, q, t }); };
	auto fe = [&](const char* n, size_t size, Start st, int q, int t, std::vector<std::vector<Call>> calls) { s.push_back({ std::string("foreach-") + n, [=]() { foreachers(size, st, calls); }, q, t }); };
	const size_t N = 3 * B + 10;
	rd("same-chunk", N, COMPRESSED, 2, 3, { R(op_at(c, 5)), R(op_at(c, 6)) });
	rd("evict", N, COMPRESSED, 2, 3, { R(op_at2(c, 5, B + 5)), R(op_at2(c, 2 * B + 1, 5)) });
	rd("evict-dirty", N, DIRTY, 2, 3, { R(op_at2(c, 2 * B + 5, 5)), R(op_at2(c, B + 1, 2 * B + 1)) });
	rd("hold-const", N, DIRTY, 2, 3, { R(op_hold(c, 5, 2 * B)), R(op_at2(c, B + 5, 2 * B)) });
	rd("hold-hold", N, COMPRESSED, 2, 3, { R(op_hold(c, 5, B + 1)), R(op_hold(c, B + 2, 2 * B)) });
	rd("hold-mutable", N, DIRTY, 2, 3, { R(op_hold(v, 5, 2 * B)), R(op_hold(v, B + 3, 5)) });
	rd("iterators", N, COMPRESSED, 2, 3, { R(op_iter(c, B - 1, 2)), R(op_iter_hold(v, B - 1, 2 * B)) });
	rd("iterators-mutable", N, DIRTY, 2, 3, { R(op_iter(v, 2 * B - 1, 2)), R(op_iter(v, B - 1, 2)) });
	rd("for-each", N, COMPRESSED, 2, 3, { R(op_foreach(c, 0, N)), R(op_at2(c, B, 2 * B)) });
	rd("for-each-backward", N, DIRTY, 2, 3, { R(op_foreach_back(c, 0, 2 * B + 1)), R(op_foreach(c, B - 1, 2 * B + 2)) });
	rd("ends", N, COMPRESSED, 2, 3, { R(op_ends(c)), R(op_ends(v)) });
	rd("stop", N, COMPRESSED, 2, 3, { R(op_stop(c, 0, N, B)), R(op_foreach_back(c, 0, B + 3)) });
	rd("copy", 2 * B + 3, DIRTY, 1, 2, { R(op_copy(c)), R(op_at2(c, 5, B + 5)) });
	rd("three", N, COMPRESSED, 1, 2, { R(op_at2(c, 5, B)), R(op_at2(c, B, 2 * B)), R(op_at2(c, 2 * B, 5)) });
	rd("three-hold", N, DIRTY, 1, 2, { R(op_hold(c, 5, 2 * B)), R(op_at(c, B)), R(op_foreach(c, B - 1, B + 1)) });
	s.push_back({ "read-big", []() { readers<Big>(3 * B, DIRTY, true, { RB(op_hold(c, 5, 2 * B)), RB(op_at2(c, 2 * B + 1, B)) }); }, 2, 2 });
	fe("all", 2 * B + 2, COMPRESSED, 2, 3, { { { 0, 2 * B + 2, false, false, 0 } }, { { 0, 2 * B + 2, false, false, 0 } } });
	fe("opposite", 2 * B + 2, DIRTY, 2, 3, { { { 0, 2 * B + 2, false, false, 0 } }, { { 0, 2 * B + 2, true, false, 0 } } });
	fe("overlap", 3 * B, DIRTY, 2, 3, { { { B - 1, 2 * B + 1, false, false, 0 } }, { { 1, B + 1, true, false, 0 } } });
	fe("const", 2 * B + 2, COMPRESSED, 2, 3, { { { 0, 2 * B + 2, false, false, 0 } }, { { 0, 2 * B + 2, false, true, 0 } } });
	fe("const-backward", 2 * B + 2, DIRTY, 2, 3, { { { B - 1, 2 * B + 2, true, false, 0 } }, { { 0, 2 * B + 2, true, true, 0 } } });
	fe("stop", 2 * B + 2, COMPRESSED, 2, 3, { { { 0, 2 * B + 2, false, false, B + 1 } }, { { B - 1, 2 * B + 2, true, false, 2 } } });
	fe("twice", 2 * B, DIRTY, 1, 2, { { { 0, B, false, false, 0 }, { B, 2 * B, false, false, 0 } }, { { B - 1, B + 1, false, false, 0 }, { 0, 1, true, false, 0 } } });
	fe("evict", 4 * B, DIRTY, 1, 2, { { { 0, 2 * B, false, false, 0 } }, { { 2 * B, 4 * B, false, false, 0 } } });
	fe("three", 2 * B, COMPRESSED, 1, 2, { { { 0, B + 1, false, false, 0 } }, { { B - 1, 2 * B, true, false, 0 } }, { { 0, 2 * B, false, true, 0 } } });
	fe("three-mutable", 2 * B, DIRTY, 1, 2, { { { 0, 2 * B, false, false, 0 } }, { { 0, 2 * B, true, false, 0 } }, { { B - 1, B + 1, false, false, 0 } } });
	return s;
}
int main(int argc, char** argv)
{
	H.init(argc, argv);
	// the thread pool plays no part here: it sleeps before the explored part starts
	mc::opt.explore_start = mc::opt.spurious = false;
	mc_explore(scenarios());
	return H.finish();
}
