// Operations of cvector mirrored on std::vector, element types that own resources, a counting and failing allocator.
#pragma once
#include "common.hpp"
#include "stenos/cvector.hpp"
#include <climits>
#include <functional>
#include <list>
#include <memory>
#include <numeric>
#include <sstream>
#include <unordered_map>

namespace cv {

// ---------------------------------------------------------------- failure injection
struct Injected {};                                   // thrown by elements
static long fail_alloc = -1, fail_elem = -1;          // index of the operation that fails, -1: none
static long alloc_seen = 0, elem_seen = 0;
static long fail_from = LONG_MAX;                     // every allocation from this one on fails
static bool armed = false;
static long failed = 0;                               // failures injected
inline void arm(long a, long e, long from = LONG_MAX) { fail_alloc = a; fail_elem = e; fail_from = from; alloc_seen = elem_seen = failed = 0; armed = true; }
inline void disarm() { armed = false; fail_alloc = fail_elem = -1; fail_from = LONG_MAX; }
inline void elem_point()
{
	if (armed && elem_seen++ == fail_elem) { ++failed; throw Injected(); }
}

// ---------------------------------------------------------------- allocator
static std::unordered_map<void*, size_t>* blocks = new std::unordered_map<void*, size_t>();
static long live_blocks = 0, live_bytes = 0, big_blocks = 0, max_big = 0;
static size_t big_min = SIZE_MAX;                     // size from which a block is counted as a decompressed chunk
static const char* alloc_error = nullptr;

template<class T>
struct Alloc {
	using value_type = T;
	int id = 0;
	Alloc() = default;
	explicit Alloc(int i) : id(i) {}
	template<class U> Alloc(const Alloc<U>& o) : id(o.id) {}
	T* allocate(size_t n)
	{
		if (armed) {
			long k = alloc_seen++;
			if (k == fail_alloc || k >= fail_from) { ++failed; throw std::bad_alloc(); }
		}
		size_t b = n * sizeof(T);
		void* p = malloc(b + 16);
		if (!p) throw std::bad_alloc();
		memset(p, 0xB7, b + 16);
		(*blocks)[p] = b;
		++live_blocks; live_bytes += b;
		if (b >= big_min) { ++big_blocks; max_big = std::max(max_big, big_blocks); }
		return (T*)p;
	}
	void deallocate(T* p, size_t n)
	{
		if (!p) { if (n) alloc_error = "deallocate(nullptr, n)"; return; }
		size_t b = n * sizeof(T);
		auto it = blocks->find((void*)p);
		if (it == blocks->end()) { alloc_error = "deallocation of an unknown or already freed block"; return; }
		if (it->second != b) alloc_error = "deallocation with another size than the allocation";
		for (int i = 0; i < 16; ++i) if (((uint8_t*)p)[it->second + i] != 0xB7) alloc_error = "write beyond the end of a block";
		--live_blocks; live_bytes -= it->second;
		if (it->second >= big_min) --big_blocks;
		memset((void*)p, 0xD1, it->second);
		blocks->erase(it);
		free((void*)p);
	}
	template<class U> bool operator==(const Alloc<U>& o) const { return id == o.id; }
	template<class U> bool operator!=(const Alloc<U>& o) const { return id != o.id; }
};

// ---------------------------------------------------------------- element types
// Owns a token: every live element with a value holds exactly one; elements travel by memcpy inside cvector.
static std::vector<uint8_t> tokens;                   // 1 = live
static std::vector<uint32_t> free_tokens;
static long live_tokens = 0;
static const char* token_error = nullptr;
inline uint32_t new_token()
{
	uint32_t t;
	if (!free_tokens.empty() && free_tokens.size() > 4096) { t = free_tokens.front(); free_tokens.erase(free_tokens.begin(), free_tokens.begin() + 1); }
	else { if (tokens.empty()) tokens.push_back(0); t = (uint32_t)tokens.size(); tokens.push_back(0); }
	tokens[t] = 1;
	++live_tokens;
	return t;
}
inline void end_token(uint32_t t)
{
	if (!t) return;
	if (t >= tokens.size() || tokens[t] != 1) { token_error = "an element was destroyed twice (or a destroyed element was used)"; return; }
	tokens[t] = 2;
	--live_tokens;
}
inline void use_token(uint32_t t)
{
	if (t && (t >= tokens.size() || tokens[t] != 1)) token_error = "a destroyed element was used";
}
inline void reset_tokens() { tokens.assign(1, 0); free_tokens.clear(); live_tokens = 0; token_error = nullptr; }

struct Tok {
	uint32_t tok; int32_t v;
	Tok() { elem_point(); tok = new_token(); v = 0; }
	explicit Tok(int64_t x) : v((int32_t)x) { tok = new_token(); }
	Tok(const Tok& o) { if (this == &o) token_error = "an element is constructed from itself"; use_token(o.tok); elem_point(); v = o.v; tok = o.tok ? new_token() : 0; }
	Tok(Tok&& o) noexcept { if (this == &o) token_error = "an element is constructed from itself"; use_token(o.tok); v = o.v; tok = o.tok; o.tok = 0; o.v = -1; }
	Tok& operator=(const Tok& o)
	{
		use_token(o.tok); use_token(tok);
		elem_point();
		if (this != &o) { end_token(tok); v = o.v; tok = o.tok ? new_token() : 0; }
		return *this;
	}
	Tok& operator=(Tok&& o) noexcept
	{
		use_token(o.tok); use_token(tok);
		if (this != &o) { end_token(tok); v = o.v; tok = o.tok; o.tok = 0; o.v = -1; }
		return *this;
	}
	~Tok() { end_token(tok); tok = 0; }
	bool operator<(const Tok& o) const { return v < o.v; }
	bool operator==(const Tok& o) const { return v == o.v; }
	bool operator!=(const Tok& o) const { return v != o.v; }
};
struct MTok {                                          // move only
	uint32_t tok; int32_t v;
	MTok() { elem_point(); tok = new_token(); v = 0; }
	explicit MTok(int64_t x) : v((int32_t)x) { tok = new_token(); }
	MTok(const MTok&) = delete;
	MTok(MTok&& o) noexcept { if (this == &o) token_error = "an element is constructed from itself"; use_token(o.tok); v = o.v; tok = o.tok; o.tok = 0; o.v = -1; }
	MTok& operator=(const MTok&) = delete;
	MTok& operator=(MTok&& o) noexcept
	{
		use_token(o.tok); use_token(tok);
		if (this != &o) { end_token(tok); v = o.v; tok = o.tok; o.tok = 0; o.v = -1; }
		return *this;
	}
	~MTok() { end_token(tok); tok = 0; }
	bool operator<(const MTok& o) const { return v < o.v; }
	bool operator==(const MTok& o) const { return v == o.v; }
	bool operator!=(const MTok& o) const { return v != o.v; }
};
struct P12 {
	int32_t a, b, c;
	bool operator<(const P12& o) const { return a < o.a; }
	bool operator==(const P12& o) const { return a == o.a && b == o.b && c == o.c; }
	bool operator!=(const P12& o) const { return !(*this == o); }
};
struct P33 {
	char t[33];
	bool operator<(const P33& o) const { int32_t x, y; memcpy(&x, t, 4); memcpy(&y, o.t, 4); return x < y; }
	bool operator==(const P33& o) const { return memcmp(t, o.t, 33) == 0; }
	bool operator!=(const P33& o) const { return !(*this == o); }
};

template<class T> struct Tr {                          // integers
	static const bool copy = true, owns = false;
	static int64_t norm(int64_t v) { return (int64_t)(T)v; }
	static T make(int64_t v) { return (T)v; }
	static int64_t val(const T& t) { return (int64_t)t; }
	static const int64_t moved = INT64_MIN;            // INT64_MIN: a move leaves the value
};
template<> struct Tr<Tok> {
	static const bool copy = true, owns = true;
	static int64_t norm(int64_t v) { return (int32_t)v; }
	static Tok make(int64_t v) { return Tok(v); }
	static int64_t val(const Tok& t) { use_token(t.tok); return t.v; }
	static const int64_t moved = -1;
};
template<> struct Tr<MTok> {
	static const bool copy = false, owns = true;
	static int64_t norm(int64_t v) { return (int32_t)v; }
	static MTok make(int64_t v) { return MTok(v); }
	static int64_t val(const MTok& t) { use_token(t.tok); return t.v; }
	static const int64_t moved = -1;
};
template<> struct Tr<std::unique_ptr<int>> {
	static const bool copy = false, owns = true;
	static int64_t norm(int64_t v) { return (int32_t)v; }
	static std::unique_ptr<int> make(int64_t v) { return std::unique_ptr<int>(new int((int)v)); }
	static int64_t val(const std::unique_ptr<int>& t) { return t ? *t : 0; }
	static const int64_t moved = 0;
};
template<> struct Tr<P12> {
	static const bool copy = true, owns = false;
	static int64_t norm(int64_t v) { return (int32_t)v; }
	static P12 make(int64_t v) { return P12{ (int32_t)v, (int32_t)(v ? v * 3 : 0), (int32_t)(v ? v / 5 : 0) }; }
	static int64_t val(const P12& t) { return t.b == (int32_t)(t.a ? (int64_t)t.a * 3 : 0) && t.c == t.a / 5 ? t.a : INT64_MIN + 1; }
	static const int64_t moved = INT64_MIN;
};
template<> struct Tr<P33> {
	static const bool copy = true, owns = false;
	static int64_t norm(int64_t v) { return (int32_t)v; }
	static P33 make(int64_t v)
	{
		P33 p;
		int32_t x = (int32_t)v;
		for (int i = 0; i < 8; ++i) memcpy(p.t + i * 4, &x, 4);
		p.t[32] = (char)x;
		return p;
	}
	static int64_t val(const P33& t)
	{
		int32_t x;
		memcpy(&x, t.t, 4);
		P33 q = make(x);
		return memcmp(&t, &q, 33) == 0 ? x : INT64_MIN + 1;
	}
	static const int64_t moved = INT64_MIN;
};
}
namespace stenos {
template<> struct is_relocatable<cv::Tok> : std::true_type {};
template<> struct is_relocatable<cv::MTok> : std::true_type {};
}
namespace cv {

template<class CV> void sort_cv(CV& c, std::false_type) { std::sort(c.begin(), c.end()); }
template<class CV> void sort_cv(CV& c, std::true_type)   // pointers: the order must not depend on addresses
{
	using T = typename CV::value_type;
	std::sort(c.begin(), c.end(), [](const T& x, const T& y) { return Tr<T>::val(x) < Tr<T>::val(y); });
}
template<class CV> void sort_cv(CV& c) { sort_cv(c, std::is_same<typename CV::value_type, std::unique_ptr<int>>()); }
// ---------------------------------------------------------------- the pair (containers, models)
template<class CV_>
struct State {
	using CV = CV_;
	using T = typename CV::value_type;
	using X = Tr<T>;
	CV a, b;
	std::vector<int64_t> ma, mb;
	int64_t ctr = 1000;
	std::string err;
	explicit State() {}
	size_t n() const { return ma.size(); }
	int64_t fresh() { return X::norm(ctr += 7); }
	void check(bool c, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
	{
		if (c || !err.empty()) return;
		va_list ap;
		va_start(ap, fmt);
		char tmp[500];
		vsnprintf(tmp, sizeof tmp, fmt, ap);
		va_end(ap);
		err = tmp;
	}
	static int64_t val(const T& t) { return X::val(t); }
	void cmp(CV& c, const std::vector<int64_t>& m, const char* name)
	{
		check(c.size() == m.size(), "size of %s is %zu instead of %zu", name, c.size(), m.size());
		if (c.size() != m.size()) return;
		check(c.empty() == m.empty(), "empty() of %s is wrong", name);
		const CV& k = c;
		size_t i = 0;
		if (m.size()) {
			k.for_each(0, m.size(), [&](const T& t) {
				if (X::val(t) != m[i]) { check(false, "%s[%zu] is %lld instead of %lld", name, i, (long long)X::val(t), (long long)m[i]); return false; }
				++i;
				return true;
			});
			check(i == m.size(), "for_each stopped at %zu of %zu", i, m.size());
		}
	}
	void cmp_all() { cmp(a, ma, "a"); cmp(b, mb, "b"); }
};

template<class S>
struct Op {
	std::string name;
	std::function<bool(S&)> ok;
	std::function<void(S&)> run;
	std::function<size_t(S&)> keep;                     // leading elements of a that a failure must leave unaltered; null: all, with the size
	int cls;                                            // 0: core alphabet, 1: the rest
};

template<class S>
struct Table {
	using CV = typename S::CV;
	using T = typename S::T;
	using X = typename S::X;
	using V = std::vector<int64_t>;
	std::vector<Op<S>> ops;
	using Keep = std::function<size_t(S&)>;

	void add(const std::string& n, int cls, std::function<bool(S&)> ok, std::function<void(S&)> run, Keep keep = nullptr) { ops.push_back({ n, ok, run, keep, cls }); }
	static bool any(S&) { return true; }
	static bool some(S& s) { return s.n() > 0; }
	static bool many(S& s) { return s.n() > 2; }
	static size_t all_old(S& s) { return s.n(); }
	static size_t none(S&) { return 0; }
	static size_t P(S& s, int k)                         // positions: 0 first, 1 middle, 2 last, 3 end, 4 last of first chunk, 5 first of second chunk
	{
		size_t n = s.n();
		switch (k) {
			case 0: return 0;
			case 1: return n / 2;
			case 2: return n ? n - 1 : 0;
			case 3: return n;
			case 4: return n > 255 ? 255 : 0;
			default: return n > 256 ? 256 : n / 3;
		}
	}
	static std::vector<T> src(S& s, size_t len, V& m)
	{
		std::vector<T> r;
		r.reserve(len);
		for (size_t i = 0; i < len; ++i) { int64_t v = s.fresh(); m.push_back(v); r.push_back(X::make(v)); }
		return r;
	}
	static void resize_model(V& m, size_t n, int64_t v) { m.resize(n, v); }

	template<bool C> struct tag {};
	template<bool C> struct stag {};
	void ser_ops(stag<false>) {}
	void ser_ops(stag<true>)
	{
		add("serialize", 1, any, [](S& s) {
			std::vector<char> buf(s.n() * sizeof(T) + 4 * (s.n() / CV::block_size + 1) + 64);
			size_t r = s.a.serialize(buf.data(), buf.size());
			s.check(!stenos_has_error(r) && r <= buf.size(), "serialize failed");
			if (s.err.empty()) { CV c; size_t n = c.deserialize(buf.data(), r); s.check(n == s.n(), "deserialize returned %zu", n); s.cmp(c, s.ma, "the deserialized container"); }
		});
		add("reload", 0, any, [](S& s) {
			std::stringstream ss;
			size_t r = s.a.serialize(ss);
			s.check(!stenos_has_error(r), "serialize failed");
			if (!s.err.empty()) return;
			size_t n = s.a.deserialize(ss);
			s.check(n == s.n(), "deserialize returned %zu", n);
		}, none);
		add("load_into_b", 1, any, [](S& s) {
			std::vector<char> buf(s.n() * sizeof(T) + 4 * (s.n() / CV::block_size + 1) + 64);
			size_t r = s.a.serialize(buf.data(), buf.size());
			s.check(!stenos_has_error(r), "serialize failed");
			if (!s.err.empty()) return;
			size_t n = s.b.deserialize(buf.data(), r);
			s.check(n == s.n(), "deserialize returned %zu", n);
			s.mb = s.ma;
		}, all_old);
	}
	void copy_ops(tag<false>) {}
	void copy_ops(tag<true>)
	{
		add("push_lvalue", 1, any, [](S& s) { int64_t v = s.fresh(); T t = X::make(v); s.a.push_back(t); s.ma.push_back(v); });
		for (int k : { 0, 2 })
			add("push_own_element" + std::to_string(k), 1, some, [k](S& s) { s.a.push_back(s.a[P(s, k)]); s.ma.push_back(s.ma[P(s, k)]); });
		add("emplace_own_element", 1, some, [](S& s) { s.a.emplace_back(s.a[0].get()); s.ma.push_back(s.ma[0]); });
		add("insert_own_element", 1, some, [](S& s) { s.a.insert(s.a.begin() + P(s, 1), s.a[0].get()); s.ma.insert(s.ma.begin() + P(s, 1), (int64_t)s.ma[0]); }, [](S& s) { return P(s, 1); });
		add("insert_own_count", 1, some, [](S& s) { s.a.insert(s.a.begin() + P(s, 1), (size_t)3, s.a[0].get()); s.ma.insert(s.ma.begin() + P(s, 1), (size_t)3, (int64_t)s.ma[0]); }, [](S& s) { return P(s, 1); });
		add("resize_own_element", 1, some, [](S& s) { s.a.resize(s.n() + 300, s.a[P(s, 2)].get()); s.ma.resize(s.n() + 300, (int64_t)s.ma.back()); }, all_old);
		for (int k = 0; k < 4; ++k) {
			static const char* nm[] = { "resize256v", "resize1030v", "resize+1v", "resize+300v" };
			add(nm[k], k == 1 ? 0 : 1, any, [k](S& s) {
				size_t t = k == 0 ? 256 : k == 1 ? 1030 : k == 2 ? s.n() + 1 : s.n() + 300;
				int64_t v = s.fresh(); s.a.resize(t, X::make(v)); resize_model(s.ma, t, v);
			}, [k](S& s) { size_t t = k == 0 ? 256 : k == 1 ? 1030 : s.n(); return std::min(t, s.n()); });
		}
		for (int p : { 0, 1, 3, 4 })
			add("insert_lvalue@" + std::to_string(p), 1, any, [p](S& s) {
				size_t i = P(s, p); int64_t v = s.fresh(); T t = X::make(v);
				auto it = s.a.insert(s.a.begin() + i, t);
				s.ma.insert(s.ma.begin() + i, v);
				s.check((size_t)it.abspos == i, "insert returned the wrong position");
			}, [p](S& s) { return P(s, p); });
		for (int p : { 0, 1, 3, 5 }) for (size_t len : { (size_t)1, (size_t)3, (size_t)256, (size_t)300 })
			add("insert_range@" + std::to_string(p) + "x" + std::to_string(len), p == 1 && len == 300 ? 0 : 1, any, [p, len](S& s) {
				size_t i = P(s, p); V m; auto v = src(s, len, m);
				auto it = s.a.insert(s.a.begin() + i, v.begin(), v.end());
				s.ma.insert(s.ma.begin() + i, m.begin(), m.end());
				s.check((size_t)it.abspos == i, "insert returned the wrong position");
			}, [p](S& s) { return P(s, p); });
		for (int p : { 0, 1, 3 }) for (size_t len : { (size_t)0, (size_t)2, (size_t)300 })
			add("insert_list@" + std::to_string(p) + "x" + std::to_string(len), 1, any, [p, len](S& s) {
				size_t i = P(s, p); V m; auto v = src(s, len, m); std::list<T> l(v.begin(), v.end());
				auto it = s.a.insert(s.a.begin() + i, l.begin(), l.end());
				s.ma.insert(s.ma.begin() + i, m.begin(), m.end());
				s.check((size_t)it.abspos == i, "insert returned the wrong position");
			}, [p](S& s) { return P(s, p); });
		add("insert_il", 1, any, [](S& s) {
			size_t i = P(s, 1); int64_t x = s.fresh(), y = s.fresh();
			s.a.insert(s.a.begin() + i, { X::make(x), X::make(y) });
			s.ma.insert(s.ma.begin() + i, { x, y });
		}, [](S& s) { return P(s, 1); });
		add("insert_count_it", 1, any, [](S& s) {
			size_t i = P(s, 1); int64_t x = s.fresh();
			s.a.insert(s.a.begin() + i, (size_t)260, X::make(x));
			s.ma.insert(s.ma.begin() + i, (size_t)260, x);
		}, [](S& s) { return P(s, 1); });
		add("insert_count_pos", 1, any, [](S& s) {
			size_t i = P(s, 5); int64_t x = s.fresh();
			s.a.insert(i, (size_t)3, X::make(x));
			s.ma.insert(s.ma.begin() + i, (size_t)3, x);
		}, [](S& s) { return P(s, 5); });
		add("copy_ctor", 1, any, [](S& s) {
			CV c(s.a); s.cmp(c, s.ma, "the copy");
			if (s.n()) { V m = s.ma; m[0] = s.fresh(); c[0] = X::make(m[0]); s.cmp(c, m, "the modified copy"); }
		});
		add("copy_to_b", 0, any, [](S& s) { s.b = s.a; s.mb = s.ma; });
		add("copy_from_b", 0, any, [](S& s) { s.a = s.b; s.ma = s.mb; });
		add("copy_to_new", 1, any, [](S& s) { CV c; c = s.a; s.cmp(c, s.ma, "the copy"); });
		add("self_assign", 1, any, [](S& s) { CV& r = s.a; s.a = r; });
		for (size_t len : { (size_t)0, (size_t)3, (size_t)256, (size_t)600 })
			add("assign_range" + std::to_string(len), len == 600 ? 0 : 1, any, [len](S& s) { V m; auto v = src(s, len, m); s.a.assign(v.begin(), v.end()); s.ma = m; }, none);
		for (size_t len : { (size_t)0, (size_t)5, (size_t)300 })
			add("assign_list" + std::to_string(len), 1, any, [len](S& s) { V m; auto v = src(s, len, m); std::list<T> l(v.begin(), v.end()); s.a.assign(l.begin(), l.end()); s.ma = m; }, none);
		for (size_t len : { (size_t)0, (size_t)5, (size_t)513 })
			add("assign_count" + std::to_string(len), 1, any, [len](S& s) { int64_t v = s.fresh(); s.a.assign(len, X::make(v)); s.ma.assign(len, v); }, none);
		add("assign_il", 1, any, [](S& s) { int64_t x = s.fresh(), y = s.fresh(); s.a.assign({ X::make(x), X::make(y) }); s.ma = { x, y }; }, none);
		add("range_ctor", 1, any, [](S& s) { V m; auto v = src(s, 517, m); CV c(v.begin(), v.end()); s.cmp(c, m, "the new container"); });
		add("list_ctor", 1, any, [](S& s) { V m; auto v = src(s, 300, m); std::list<T> l(v.begin(), v.end()); CV c(l.begin(), l.end()); s.cmp(c, m, "the new container"); });
		add("count_ctor", 1, any, [](S& s) { int64_t v = s.fresh(); CV c((size_t)600, X::make(v)); s.cmp(c, V(600, v), "the new container"); });
		add("il_ctor", 1, any, [](S& s) { int64_t x = s.fresh(), y = s.fresh(); CV c({ X::make(x), X::make(y) }); s.cmp(c, V{ x, y }, "the new container"); });
		add("ref_copy", 0, some, [](S& s) { s.a[0] = s.a[P(s, 2)]; s.ma[0] = s.ma[P(s, 2)]; });
		add("ref_copy_const", 1, some, [](S& s) { const CV& k = s.a; s.a[P(s, 1)] = k[0]; s.ma[P(s, 1)] = s.ma[0]; });
		add("ref_copy_cross", 1, [](S& s) { return s.n() && s.mb.size(); }, [](S& s) { const CV& k = s.b; s.a[P(s, 1)] = k[s.mb.size() - 1]; s.ma[P(s, 1)] = s.mb.back(); });
		add("fill", 1, any, [](S& s) { int64_t v = s.fresh(); T t = X::make(v); std::fill(s.a.begin() + P(s, 1), s.a.end(), t); std::fill(s.ma.begin() + P(s, 1), s.ma.end(), v); }, [](S& s) { return P(s, 1); });
		add("copy_into", 1, many, [](S& s) { V m; auto v = src(s, s.n() / 2, m); std::copy(v.begin(), v.end(), s.a.begin() + 1); std::copy(m.begin(), m.end(), s.ma.begin() + 1); }, [](S&) { return (size_t)1; });
		add("copy_within", 1, many, [](S& s) { std::copy(s.a.begin() + P(s, 1), s.a.end(), s.a.begin()); std::copy(s.ma.begin() + P(s, 1), s.ma.end(), s.ma.begin()); }, none);
		add("copy_out", 1, any, [](S& s) {
			std::vector<T> v; for (auto it = s.a.cbegin(); it != s.a.cend(); ++it) v.push_back((*it).get());
			for (size_t i = 0; i < v.size(); ++i) s.check(X::val(v[i]) == s.ma[i], "copied element %zu is wrong", i);
			s.check(v.size() == s.n(), "number of copied elements");
		});
		add("find", 1, some, [](S& s) {
			int64_t x = s.ma[P(s, 1)]; T t = X::make(x);
			size_t i = std::find_if(s.a.begin(), s.a.end(), [&](const T& u) { return u == t; }) - s.a.begin();
			s.check(i == (size_t)(std::find(s.ma.begin(), s.ma.end(), x) - s.ma.begin()), "find returned %zu", i);
		});
		add("stable_sort", 1, any, [](S& s) { std::stable_sort(s.a.begin(), s.a.end()); std::stable_sort(s.ma.begin(), s.ma.end()); }, none);
		add("unique", 1, any, [](S& s) {
			auto e = std::unique(s.a.begin(), s.a.end()); s.a.erase(e, s.a.end());
			s.ma.erase(std::unique(s.ma.begin(), s.ma.end()), s.ma.end());
		}, none);
		add("lower_bound", 1, any, [](S& s) {
			std::sort(s.a.begin(), s.a.end()); std::sort(s.ma.begin(), s.ma.end());
			if (!s.n()) return;
			int64_t x = s.ma[P(s, 1)]; T t = X::make(x);
			size_t i = std::lower_bound(s.a.begin(), s.a.end(), t, [](const T& x, const T& y) { return x < y; }) - s.a.begin();
			s.check(i == (size_t)(std::lower_bound(s.ma.begin(), s.ma.end(), x) - s.ma.begin()), "lower_bound returned %zu", i);
		}, none);
	}

	Table()
	{
		add("push", 0, any, [](S& s) { int64_t v = s.fresh(); s.a.push_back(X::make(v)); s.ma.push_back(v); });
		add("emplace_back", 1, any, [](S& s) { int64_t v = s.fresh(); auto r = s.a.emplace_back(X::make(v)); s.check(X::val(r.get()) == v, "reference returned by emplace_back"); s.ma.push_back(v); });
		add("push300", 0, any, [](S& s) { for (int i = 0; i < 300; ++i) { int64_t v = s.fresh(); s.a.push_back(X::make(v)); s.ma.push_back(v); } }, all_old);
		add("push_random", 1, any, [](S& s) { for (int i = 0; i < 300; ++i) { int64_t v = X::norm((int64_t)vh::mix(s.ctr++) >> 33); s.a.push_back(X::make(v)); s.ma.push_back(v); } }, all_old);
		add("pop", 0, some, [](S& s) { s.a.pop_back(); s.ma.pop_back(); });
		add("pop300", 1, [](S& s) { return s.n() >= 300; }, [](S& s) { for (int i = 0; i < 300; ++i) { s.a.pop_back(); s.ma.pop_back(); } }, none);
		for (int k = 0; k < 10; ++k) {
			static const char* nm[] = { "resize0", "resize1", "resize255", "resize256", "resize257", "resize1030", "resize-1", "resize-256", "resize+1", "resize+300" };
			auto tgt = [k](S& s) -> size_t {
				size_t n = s.n();
				static const size_t f[] = { 0, 1, 255, 256, 257, 1030 };
				if (k < 6) return f[k];
				return k == 6 ? n - 1 : k == 7 ? n - 256 : k == 8 ? n + 1 : n + 300;
			};
			add(nm[k], k == 3 || k == 5 || k == 7 ? 0 : 1, [k](S& s) { return k == 6 ? s.n() > 0 : k == 7 ? s.n() >= 256 : true; },
			    [tgt](S& s) { size_t t = tgt(s); s.a.resize(t); resize_model(s.ma, t, 0); }, [tgt](S& s) { return std::min(tgt(s), s.n()); });
		}
		for (int p : { 0, 1, 3, 4 })
			add("insert@" + std::to_string(p), p < 2 ? 0 : 1, any, [p](S& s) {
				size_t i = P(s, p); int64_t v = s.fresh();
				auto it = p & 1 ? s.a.insert(s.a.begin() + i, X::make(v)) : s.a.emplace(s.a.cbegin() + i, X::make(v));
				s.ma.insert(s.ma.begin() + i, v);
				s.check((size_t)it.abspos == i, "insert returned the wrong position");
			}, [p](S& s) { return P(s, p); });
		for (int p : { 0, 1, 2, 4 })
			add("erase@" + std::to_string(p), p < 2 ? 0 : 1, some, [p](S& s) {
				size_t i = P(s, p);
				auto it = s.a.erase(s.a.cbegin() + i);
				s.ma.erase(s.ma.begin() + i);
				s.check((size_t)it.abspos == i, "erase returned the wrong position");
			}, [p](S& s) { return P(s, p); });
		for (int k = 0; k < 5; ++k) {
			static const char* nm[] = { "erase_all", "erase_chunk0", "erase_tail", "erase_nothing", "erase_inner" };
			auto rg = [k](S& s) -> std::pair<size_t, size_t> {
				size_t n = s.n();
				switch (k) {
					case 0: return { 0, n };
					case 1: return { 0, std::min<size_t>(256, n) };
					case 2: return { n > 257 ? n - 257 : 0, n };
					case 3: return { n / 2, n / 2 };
					default: return { 1, n - 1 };
				}
			};
			add(nm[k], k == 1 ? 0 : 1, [k](S& s) { return k < 4 ? s.n() > 0 : s.n() > 2; }, [rg](S& s) {
				auto r = rg(s);
				auto it = s.a.erase(s.a.cbegin() + r.first, s.a.cbegin() + r.second);
				s.ma.erase(s.ma.begin() + r.first, s.ma.begin() + r.second);
				s.check((size_t)it.abspos == r.first, "erase returned the wrong position");
			}, [rg](S& s) { return rg(s).first; });
		}
		add("clear", 0, any, [](S& s) { s.a.clear(); s.ma.clear(); });
		add("shrink", 0, any, [](S& s) { s.a.shrink_to_fit(); });
		add("swap", 0, any, [](S& s) { s.a.swap(s.b); s.ma.swap(s.mb); });
		add("move_ctor", 1, any, [](S& s) { CV c(std::move(s.a)); s.cmp(c, s.ma, "the moved container"); s.check(s.a.size() == 0, "the source of a move is not empty"); s.a = std::move(c); }, none);
		add("move_assign", 0, any, [](S& s) { s.b = std::move(s.a); s.mb = s.ma; s.a.clear(); s.ma.clear(); }, none);
		add("move_to_temp", 1, any, [](S& s) { CV c; c = std::move(s.a); s.cmp(c, s.ma, "the moved container"); s.a.clear(); s.ma.clear(); }, none);
		add("count_ctor_default", 1, any, [](S& s) { CV c((size_t)600); s.cmp(c, V(600, 0), "the new container"); });
		for (int p : { 0, 1, 2 })
			add("set@" + std::to_string(p), p == 1 ? 0 : 1, some, [p](S& s) { size_t i = P(s, p); int64_t v = s.fresh(); s.a[i] = X::make(v); s.ma[i] = v; });
		add("at_set", 1, some, [](S& s) { size_t i = P(s, 5); if (i >= s.n()) i = 0; int64_t v = s.fresh(); s.a.at(i) = X::make(v); s.ma[i] = v; });
		add("front_back_set", 1, some, [](S& s) { int64_t v = s.fresh(), w = s.fresh(); s.a.front() = X::make(v); s.ma.front() = v; s.a.back() = X::make(w); s.ma.back() = w; }, none);
		add("iter_set", 1, some, [](S& s) { size_t i = P(s, 1); int64_t v = s.fresh(); *(s.a.begin() + i) = X::make(v); s.ma[i] = v; });
		add("iter_index_set", 1, some, [](S& s) { size_t i = P(s, 2); int64_t v = s.fresh(); s.a.begin()[i] = X::make(v); s.ma[i] = v; });
		add("set_each_chunk", 0, some, [](S& s) { for (size_t i = 0; i < s.n(); i += 256) { int64_t v = s.fresh(); s.a[i] = X::make(v); s.ma[i] = v; } }, none);
		add("read_each_chunk", 0, some, [](S& s) { for (size_t i = s.n(); i-- > 0;) { i = i / 256 * 256; s.check(X::val(s.a[i].get()) == s.ma[i], "a[%zu] is wrong", i); } });
		add("read_at", 1, any, [](S& s) {
			const CV& k = s.a;
			if (s.n()) {
				size_t i = P(s, 1);
				s.check(X::val(k.at(i).get()) == s.ma[i] && X::val(s.a.at(i).get()) == s.ma[i], "at(%zu) is wrong", i);
				s.check(X::val(k.front().get()) == s.ma.front() && X::val(k.back().get()) == s.ma.back() && X::val(s.a.back().get()) == s.ma.back() && X::val(s.a.front().get()) == s.ma.front(), "front() or back() is wrong");
			}
			int t = 0;
			try { s.a.at(s.n()); } catch (const std::out_of_range&) { ++t; }
			try { k.at(s.n() + 1); } catch (const std::out_of_range&) { ++t; }
			s.check(t == 2, "at() beyond the end did not throw");
		});
		add("iterate", 1, any, [](S& s) {
			size_t i = 0;
			for (auto& r : s.a) { s.check(X::val(r.get()) == s.ma[i], "iteration at %zu", i); ++i; }
			s.check(i == s.n(), "iteration length");
			const CV& k = s.a;
			auto it = k.end();
			while (i > 0) { --it; --i; if (!(i % 37)) s.check(X::val((*it).get()) == s.ma[i], "backward iteration at %zu", i); }
			s.check(it == k.begin() && k.end() - k.begin() == (std::ptrdiff_t)s.n(), "iterator arithmetic");
			for (size_t st : { (size_t)1, (size_t)100, (size_t)255, (size_t)256, (size_t)300 }) {
				auto j = s.a.begin();
				size_t p = 0;
				for (; p < s.n(); p += st, j += st) s.check(X::val((*j).get()) == s.ma[p] && X::val(*j.operator->()) == s.ma[p], "stride %zu at %zu", st, p), (void)0;
				while (p >= st) { p -= st; j -= st; if (p < s.n()) s.check(X::val((*j).get()) == s.ma[p], "stride -%zu at %zu", st, p); }
			}
		});
		add("reverse_iterate", 1, any, [](S& s) {
			size_t i = s.n();
			const CV& k = s.a;
			for (auto it = k.rbegin(); it != k.rend(); ++it) { --i; if (i % 41 == 0 || i % 256 > 253) s.check(X::val((*it).get()) == s.ma[i] && X::val(*it.operator->()) == s.ma[i], "reverse iteration at %zu", i); }
			s.check(i == 0, "reverse iteration length");
			i = s.n();
			for (auto it = s.a.crbegin(); it != s.a.crend(); ++it) { --i; if (i % 256 < 2) s.check(X::val((*it).get()) == s.ma[i], "const reverse iteration at %zu", i); }
			if (s.n()) {
				auto it = s.a.rbegin() + P(s, 1);
				s.check(X::val(it[0].get()) == s.ma[s.n() - 1 - P(s, 1)] && (size_t)(s.a.rend() - it) == s.n() - P(s, 1) && it.base() - s.a.begin() == (std::ptrdiff_t)(s.n() - P(s, 1)), "reverse iterator arithmetic");
			}
		});
		add("reverse_set", 1, some, [](S& s) {
			size_t j = 0, n = s.n();
			for (auto it = s.a.rbegin(); it < s.a.rend(); it += 100, j += 100) { int64_t v = s.fresh(); *it = X::make(v); s.ma[n - 1 - j] = v; }
		}, none);
		add("reverse_sort", 1, any, [](S& s) {
			auto lt = [](const T& x, const T& y) { return X::val(x) < X::val(y); };
			std::sort(s.a.rbegin(), s.a.rend(), lt); std::sort(s.ma.rbegin(), s.ma.rend());
		}, none);
		add("ref_move", 1, many, [](S& s) {
			auto r = s.a[P(s, 2)];
			s.a[0] = std::move(r);
			s.ma[0] = s.ma[P(s, 2)];
			if (X::moved != INT64_MIN) s.ma[P(s, 2)] = X::moved;
		}, none);
		add("ref_swap", 0, many, [](S& s) { swap(s.a[0], s.a[P(s, 2)]); std::swap(s.ma[0], s.ma[P(s, 2)]); });
		add("ref_swap_near", 1, many, [](S& s) { swap(s.a[0], s.a[1]); std::swap(s.ma[0], s.ma[1]); });
		add("ref_swap_cross", 1, [](S& s) { return s.n() && s.mb.size(); }, [](S& s) {
			size_t j = s.mb.size() - 1;
			auto x = s.a[P(s, 1)]; auto y = s.b[j];
			x.swap(y);
			std::swap(s.ma[P(s, 1)], s.mb[j]);
		});
		add("iter_swap", 1, many, [](S& s) { std::iter_swap(s.a.begin() + P(s, 1), s.a.begin()); std::swap(s.ma[P(s, 1)], s.ma[0]); });
		add("sort", 0, any, [](S& s) { sort_cv(s.a); std::sort(s.ma.begin(), s.ma.end()); }, none);
		add("reverse", 0, any, [](S& s) { std::reverse(s.a.begin(), s.a.end()); std::reverse(s.ma.begin(), s.ma.end()); }, none);
		add("rotate", 1, many, [](S& s) { std::rotate(s.a.begin(), s.a.begin() + P(s, 1), s.a.end()); std::rotate(s.ma.begin(), s.ma.begin() + P(s, 1), s.ma.end()); }, none);
		add("remove_if", 1, any, [](S& s) {
			auto e = std::remove_if(s.a.begin(), s.a.end(), [](const T& t) { return X::val(t) % 3 == 0; });
			s.a.erase(e, s.a.end());
			s.ma.erase(std::remove_if(s.ma.begin(), s.ma.end(), [](int64_t v) { return v % 3 == 0; }), s.ma.end());
		}, none);
		add("move_out", 1, any, [](S& s) {
			std::vector<T> v;
			for (auto it = s.a.begin(); it != s.a.end(); ++it) v.push_back((*it).move());
			for (size_t i = 0; i < v.size(); ++i) s.check(X::val(v[i]) == s.ma[i], "moved element %zu is wrong", i);
			if (X::moved != INT64_MIN) for (auto& m : s.ma) m = X::moved;
		}, none);
		add("move_range_in", 1, many, [](S& s) {
			V m; auto v = src(s, s.n() / 2, m);
			std::move(v.begin(), v.end(), s.a.begin() + 1);
			std::copy(m.begin(), m.end(), s.ma.begin() + 1);
		}, [](S&) { return (size_t)1; });
		// for_each variants: mutable forward/backward, const forward/backward; ranges; stopping points
		for (int back = 0; back < 2; ++back) for (int rgk = 0; rgk < 4; ++rgk) for (int stopk = 0; stopk < 4; ++stopk) {
			auto rg = [rgk](S& s) -> std::pair<size_t, size_t> {
				size_t n = s.n();
				switch (rgk) {
					case 0: return { 0, n };
					case 1: return { n / 3, n - n / 4 };
					case 2: return { n > 256 ? 256 : 0, n > 512 ? 512 : n };
					default: return { n / 2, n / 2 };
				}
			};
			auto stop = [rg, stopk](S& s) -> size_t {             // number of elements accepted before the functor returns false
				auto r = rg(s);
				size_t len = r.second - r.first;
				return stopk == 0 ? SIZE_MAX : stopk == 1 ? 0 : stopk == 2 ? std::min<size_t>(256, len) : len ? len - 1 : 0;
			};
			add(std::string(back ? "for_each_backward" : "for_each") + "_r" + std::to_string(rgk) + "s" + std::to_string(stopk), rgk < 2 && stopk % 2 == 0 ? 0 : 1, any, [=](S& s) {
				auto r = rg(s); size_t st = stop(s), len = r.second - r.first, done = 0;
				auto f = [&](T& t) {
					elem_point();
					size_t i = back ? r.second - 1 - done : r.first + done;
					s.check(i < s.n() && X::val(t) == s.ma[i], "for_each visits the wrong element at step %zu", done);
					if (done == st) return false;
					int64_t v = s.fresh();
					t = X::make(v);
					if (i < s.n()) s.ma[i] = v;
					++done;
					return true;
				};
				size_t got = back ? s.a.for_each_backward(r.first, r.second, f) : s.a.for_each(r.first, r.second, f);
				size_t want = std::min(st, len);
				s.check(got == want && done == want, "for_each returned %zu after %zu calls instead of %zu", got, done, want);
			});
			add(std::string(back ? "const_for_each_backward" : "const_for_each") + "_r" + std::to_string(rgk) + "s" + std::to_string(stopk), 1, any, [=](S& s) {
				auto r = rg(s); size_t st = stop(s), len = r.second - r.first, done = 0;
				auto f = [&](const T& t) {
					elem_point();
					size_t i = back ? r.second - 1 - done : r.first + done;
					s.check(i < s.n() && X::val(t) == s.ma[i], "const for_each visits the wrong element at step %zu", done);
					if (done == st) return false;
					++done;
					return true;
				};
				const CV& k = s.a;
				size_t got = back ? (stopk & 1 ? k.for_each_backward(r.first, r.second, f) : k.const_for_each_backward(r.first, r.second, f))
						  : (stopk & 1 ? k.for_each(r.first, r.second, f) : k.const_for_each(r.first, r.second, f));
				size_t want = std::min(st, len);
				s.check(got == want && done == want, "const for_each returned %zu after %zu calls instead of %zu", got, done, want);
			});
		}
		add("for_each_void", 1, any, [](S& s) {
			size_t k = 0;
			size_t r = s.a.for_each(0, s.n(), [&](T& t) { int64_t v = s.fresh(); t = X::make(v); s.ma[k++] = v; });
			s.check(r == s.n() && k == s.n(), "for_each with a void functor returned %zu", r);
		}, none);
		copy_ops(tag<X::copy>());
		ser_ops(stag<!X::owns>());
	}
	const Op<S>* find(const std::string& n) const { for (auto& o : ops) if (o.name == n) return &o; return nullptr; }
};

// ---------------------------------------------------------------- start states
struct Start { size_t n; int content; int prep; };       // content: 0 ramp, 1 random, 2 constant; prep: 0 none, 1 shrink_to_fit, 2 every chunk modified, 3 every chunk read
template<class S>
void build(S& s, const Start& st)
{
	using X = typename S::X;
	using T = typename S::T;
	for (size_t i = 0; i < st.n; ++i) {
		int64_t v = X::norm(st.content == 0 ? (int64_t)i / 3 : st.content == 1 ? (int64_t)(vh::mix(i) >> 36) : 42);
		s.a.push_back(X::make(v));
		s.ma.push_back(v);
	}
	for (size_t i = 0; i < 270; ++i) { int64_t v = X::norm(5000 + (int64_t)i); s.b.push_back(X::make(v)); s.mb.push_back(v); }
	if (st.prep == 1) s.a.shrink_to_fit();
	if (st.prep == 2)
		for (size_t i = 0; i < st.n; i += 256) { int64_t v = s.fresh(); s.a[i] = X::make(v); s.ma[i] = v; }
	if (st.prep == 3) {
		const typename S::CV& k = s.a;
		for (size_t i = 0; i < st.n; i += 256) s.check(X::val((const T&)k[i].get()) == s.ma[i], "a[%zu] is wrong", i);
	}
}
inline std::string start_name(const Start& s) { return "n" + std::to_string(s.n) + "c" + std::to_string(s.content) + "p" + std::to_string(s.prep); }
static const Start STARTS[] = { { 0, 0, 0 }, { 1, 0, 0 }, { 255, 0, 0 }, { 256, 0, 0 }, { 256, 1, 1 }, { 257, 1, 0 }, { 512, 0, 1 }, { 512, 2, 0 }, { 700, 0, 2 }, { 700, 1, 1 }, { 1024, 0, 2 }, { 1100, 2, 3 } };
}
