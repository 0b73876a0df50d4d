// C25: cvectors with stateful allocators of every combination of propagation traits; the same operations on std::vector give the contents
// and the allocators that are expected, and every block must go back to an allocator equal to the one it came from.
#include "common.hpp"
#include "stenos/cvector.hpp"
#include <memory>
#include <unordered_map>
#include <sstream>

struct Reg { std::unordered_map<void*, std::pair<int, size_t>> live; std::string err; };
static Reg R;
static void reg_fail(const char* f, int a, int b) { char t[200]; snprintf(t, sizeof t, f, a, b); if (R.err.empty()) R.err = t; }

// bits of K: 1 copy assignment propagates, 2 move assignment, 4 swap, 8 select_on_container_copy_construction gives a copy (otherwise allocator 9)
template<class T, int K>
struct Al {
	typedef T value_type;
	typedef std::integral_constant<bool, (K & 1) != 0> propagate_on_container_copy_assignment;
	typedef std::integral_constant<bool, (K & 2) != 0> propagate_on_container_move_assignment;
	typedef std::integral_constant<bool, (K & 4) != 0> propagate_on_container_swap;
	typedef std::false_type is_always_equal;
	template<class U> struct rebind { typedef Al<U, K> other; };
	int id;
	explicit Al(int i = 0) noexcept : id(i) {}
	template<class U> Al(const Al<U, K>& o) noexcept : id(o.id) {}
	Al select_on_container_copy_construction() const { return K & 8 ? *this : Al(9); }
	T* allocate(size_t n)
	{
		T* p = (T*)malloc(n * sizeof(T) + 1);
		R.live[p] = std::make_pair(id, n * sizeof(T));
		return p;
	}
	void deallocate(T* p, size_t n) noexcept
	{
		if (!p) return;
		auto it = R.live.find(p);
		if (it == R.live.end()) { reg_fail("allocator %d frees a block that is not allocated", id, 0); return; }
		if (it->second.first != id) reg_fail("a block of allocator %d is freed by allocator %d", it->second.first, id);
		if (it->second.second != n * sizeof(T)) reg_fail("a block of %d bytes is freed with a size of %d", (int)it->second.second, (int)(n * sizeof(T)));
		R.live.erase(it);
		free(p);
	}
	template<class U> bool operator==(const Al<U, K>& o) const noexcept { return id == o.id; }
	template<class U> bool operator!=(const Al<U, K>& o) const noexcept { return id != o.id; }
};

template<class T> struct Val;
template<> struct Val<int64_t> {
	static int64_t make(int64_t v) { return v; }
	static int64_t val(int64_t v) { return v; }
};
template<> struct Val<std::unique_ptr<int>> {
	static std::unique_ptr<int> make(int64_t v) { return std::unique_ptr<int>(new int((int)v)); }
	static int64_t val(const std::unique_ptr<int>& v) { return v ? *v : -1; }
};

template<class T, int K>
struct World {
	typedef Al<T, K> A;
	typedef stenos::cvector<T, 0, 1, A> CV;
	typedef std::vector<int64_t, Al<int64_t, K>> M;
	typedef Val<T> X;
	alignas(CV) char mem[3][sizeof(CV)];
	alignas(M) char mmem[3][sizeof(M)];
	int64_t ctr = 1000;
	std::string err;
	CV& c(int i) { return *(CV*)mem[i]; }
	M& m(int i) { return *(M*)mmem[i]; }
	void fill(int i, size_t n, bool incompressible)
	{
		for (size_t k = 0; k < n; ++k) {
			int64_t v = incompressible ? (int64_t)(vh::mix((uint64_t)ctr) >> 33) : ctr;
			++ctr;
			c(i).push_back(X::make(v)); m(i).push_back(v);
		}
	}
	World(int start)
	{
		static const int ids[3] = { 1, 2, 1 };
		static const size_t n[4][3] = { { 300, 520, 5 }, { 0, 600, 256 }, { 513, 0, 0 }, { 1000, 40, 700 } };
		for (int i = 0; i < 3; ++i) {
			if (start == 2 && i == 1) new (mem[i]) CV(A(ids[i]));  // a container with its data but no element
			else new (mem[i]) CV(A(ids[i]));
			new (mmem[i]) M(Al<int64_t, K>(ids[i]));
			fill(i, n[start][i], start == 3);
		}
		if (start == 2) { c(0).shrink_to_fit(); }
	}
	void check(const char* op, int step)
	{
		if (!err.empty()) return;
		char t[300]; t[0] = 0;
		for (int i = 0; i < 3 && !t[0]; ++i) {
			const CV& k = c(i);
			if (k.size() != m(i).size()) snprintf(t, sizeof t, "container %d has %zu elements instead of %zu", i, k.size(), m(i).size());
			else if (k.get_allocator().id != m(i).get_allocator().id) snprintf(t, sizeof t, "container %d has allocator %d instead of %d", i, k.get_allocator().id, m(i).get_allocator().id);
			else {
				size_t q = 0;
				k.const_for_each(0, k.size(), [&](const T& v) { if (X::val(v) != m(i)[q]) { snprintf(t, sizeof t, "container %d, element %zu is %lld instead of %lld", i, q, (long long)X::val(v), (long long)m(i)[q]); return false; } ++q; return true; });
			}
		}
		if (!t[0] && !R.err.empty()) snprintf(t, sizeof t, "%s", R.err.c_str());
		if (t[0]) err = std::string(t) + " after " + op + " (step " + std::to_string(step) + ")";
	}
	void finish(const std::string& seq)
	{
		for (int i = 0; i < 3; ++i) { c(i).~CV(); m(i).~M(); }
		if (err.empty() && !R.err.empty()) err = R.err + " at the end";
		if (err.empty() && !R.live.empty()) err = std::to_string(R.live.size()) + " blocks are never freed";
		if (!err.empty()) H.fail("%s: %s", seq.c_str(), err.c_str());
		R.err.clear();
		for (auto& b : R.live) free(b.first);
		R.live.clear();
	}

	// operations; false: not applicable
	struct Copy {
		static bool run(World& w, int op, int i, int j, std::true_type)
		{
			switch (op) {
				case 0: w.c(i) = w.c(j); w.m(i) = w.m(j); return true;
				case 1: w.c(i).~CV(); new (w.mem[i]) CV(w.c(j)); w.m(i).~M(); new (w.mmem[i]) M(w.m(j)); return true;
				default: w.c(i).~CV(); new (w.mem[i]) CV(w.c(j), A(3)); w.m(i).~M(); new (w.mmem[i]) M(w.m(j), Al<int64_t, K>(3)); return true;
			}
		}
		static bool run(World&, int, int, int, std::false_type) { return false; }
		static bool own(World& w, int op, int i, std::true_type)
		{
			if (op == 6) { w.c(i).insert(w.c(i).begin() + w.c(i).size() / 2, (size_t)300, (T)w.ctr); w.m(i).insert(w.m(i).begin() + w.m(i).size() / 2, (size_t)300, w.ctr++); return true; }
			std::stringstream ss;
			w.c(i).serialize(ss);
			w.c((i + 1) % 3).deserialize(ss);
			w.m((i + 1) % 3).assign(w.m(i).begin(), w.m(i).end());
			return true;
		}
		static bool own(World&, int, int, std::false_type) { return false; }
	};
	bool pair_op(int op, int i, int j)
	{
		if (i == j) return false;
		typedef std::is_copy_constructible<T> C;
		switch (op) {
			case 0: case 1: case 2: return Copy::run(*this, op, i, j, C());
			case 3: c(i) = std::move(c(j)); m(i) = std::move(m(j)); c(j).clear(); m(j).clear(); return true;
			case 4: // swapping containers whose allocators neither propagate nor are equal is undefined
				if (!(K & 4) && c(i).get_allocator().id != c(j).get_allocator().id) return false;
				c(i).swap(c(j)); m(i).swap(m(j)); return true;
			case 5: c(i).~CV(); new (mem[i]) CV(std::move(c(j))); m(i).~M(); new (mmem[i]) M(std::move(m(j))); c(j).clear(); m(j).clear(); return true;
			case 6: case 7: {
				int id = op == 6 ? 1 : 3;
				c(i).~CV(); new (mem[i]) CV(std::move(c(j)), A(id)); m(i).~M(); new (mmem[i]) M(std::move(m(j)), Al<int64_t, K>(id)); c(j).clear(); m(j).clear(); return true;
			}
		}
		return false;
	}
	bool own_op(int op, int i)
	{
		switch (op) {
			case 0: fill(i, 1, false); return true;
			case 1: fill(i, 300, true); return true;
			case 2: c(i).clear(); m(i).clear(); return true;
			case 3: c(i).shrink_to_fit(); return true;
			case 4: { size_t n = c(i).size() > 300 ? c(i).size() - 257 : c(i).size() + 257; size_t o = c(i).size(); if (n > o && !std::is_same<T, int64_t>::value) return false; c(i).resize(n); m(i).resize(n, 0); return true; }
			case 5: if (!c(i).size()) return false; c(i).erase(c(i).begin()); m(i).erase(m(i).begin()); return true;
			default: return Copy::own(*this, op, i, std::is_copy_constructible<T>());
		}
	}
	static const int NPAIR = 8 * 9, NOWN = 8 * 3, NOPS = NPAIR + NOWN;
	static const char* name(int o)
	{
		static char t[60];
		static const char* p[] = { "copy-assign", "copy-construct", "copy-construct-with-allocator-3", "move-assign", "swap", "move-construct", "move-construct-with-allocator-1", "move-construct-with-allocator-3" };
		static const char* q[] = { "push", "push300", "clear", "shrink", "resize", "erase", "insert300", "serialize-to-next" };
		if (o < NPAIR) snprintf(t, sizeof t, "%s(%d,%d)", p[o / 9], o % 9 / 3, o % 3);
		else snprintf(t, sizeof t, "%s(%d)", q[(o - NPAIR) / 3], (o - NPAIR) % 3);
		return t;
	}
	bool apply(int o, int step)
	{
		bool r = o < NPAIR ? pair_op(o / 9, o % 9 / 3, o % 3) : own_op((o - NPAIR) / 3, (o - NPAIR) % 3);
		if (r) check(name(o), step);
		return r;
	}
};

// the operations that are used for the longest sequences
static bool core(int o)
{
	if (o >= 72) return (o - 72) / 3 == 1;
	int i = o % 9 / 3, j = o % 3;
	return (o / 9 == 0 || o / 9 == 3 || o / 9 == 4 || o / 9 == 5 || o / 9 == 7) && i != j && i + j != 2;
}

template<class T, int K>
static void explore(const char* type)
{
	typedef World<T, K> W;
	auto seq = [&](int start, const std::vector<int>& ops) {
		W w(start);
		std::string s = "start " + std::to_string(start);
		bool ok = true;
		for (size_t k = 0; k < ops.size() && ok && w.err.empty(); ++k) {
			s += "; "; s += W::name(ops[k]);
			ok = w.apply(ops[k], (int)k);
			if (ok) H.stats["transitions"]++;
		}
		uint64_t h = (uint64_t)K;
		for (int i = 0; i < 3; ++i) h = vh::mix(vh::mix(h + (uint64_t)w.m(i).get_allocator().id) + w.m(i).size());
		if (ok) H.distinct.insert(h);
		w.finish(s);
		H.stats["sequences"]++;
		H.cur->counter = H.cur->counter + 1;
		return ok;
	};
	for (int start = 0; start < 4; ++start)
		for (int a = 0; a < W::NOPS; ++a) {
			if (!H.begin("%s traits=%d start=%d first=%s", type, K, start, W::name(a))) continue;
			size_t v = H.violations.size();
			if (!seq(start, { a })) continue;
			for (int b = 0; b < W::NOPS && H.violations.size() == v; ++b) {
				if (!seq(start, { a, b })) continue;
				if (!(H.thorough || (core(b) && (start == 0 || core(a))))) continue;
				for (int d = 0; d < W::NOPS && H.violations.size() == v; ++d) if (H.thorough ? true : core(d)) seq(start, { a, b, d });
			}
		}
}
template<class T, int K> struct All { static void run(const char* n) { All<T, K - 1>::run(n); explore<T, K>(n); } };
template<class T> struct All<T, -1> { static void run(const char*) {} };

int main(int argc, char** argv)
{
	H.init(argc, argv);
#ifndef MOVE_ONLY
	All<int64_t, 15>::run("int64");
#else
	All<std::unique_ptr<int>, 15>::run("unique_ptr");
#endif
	return H.finish();
}
