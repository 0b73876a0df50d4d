// C16: references and iterators held while other elements are accessed, modified, evicted.
// Every sequence of operations up to a depth; after every operation each live handle has the same address and the value of the model.
#include "cv_ops.hpp"
using namespace cv;

struct ROp { int code; int a; long b; const char* name; };
enum { HOLD_REF, HOLD_CREF, HOLD_IT, HOLD_CIT, HOLD_COPY, DROP, READ, WRITE, HWRITE, HWRITE_L, HWRITE_V, VALUE, HASSIGN, HMOVE, HSWAP, ASSIGN_FROM, ASSIGN_TO, SWAP_WITH, ADVANCE, TAKE,
       ALL_CONST, EACH, PUSH, SHRINK, SERIALIZE, REVERSE, ITSWAP, FIND };
// positions: a container number * 100000 + index; a negative index counts from the end
static const ROp OPS[] = {
	{ HOLD_REF, 0, 5, "ref(5)" }, { HOLD_REF, 0, 255, "ref(255)" }, { HOLD_REF, 0, 600, "ref(600)" }, { HOLD_REF, 0, -1, "ref(last)" }, { HOLD_REF, 1, 258, "ref(B258)" }, { HOLD_REF, 1, 7, "ref(B7)" },
	{ HOLD_CREF, 0, 5, "cref(5)" }, { HOLD_CREF, 0, 300, "cref(300)" },
	{ HOLD_IT, 0, 255, "it(255)" }, { HOLD_IT, 0, 600, "it(600)" }, { HOLD_IT, 0, -2, "it(last-1)" },
	{ HOLD_CIT, 0, 256, "cit(256)" }, { HOLD_CIT, 0, 5, "cit(5)" },
	{ HOLD_COPY, 0, 0, "copy(h0)" },
	{ DROP, 0, 0, "drop(h0)" }, { DROP, 1, 0, "drop(h1)" }, { DROP, 2, 0, "drop(h2)" },
	{ READ, 0, 6, "read(6)" }, { READ, 0, 300, "read(300)" }, { READ, 0, 700, "read(700)" }, { READ, 0, -3, "read(last-2)" }, { READ, 1, 20, "read(B20)" },
	{ WRITE, 0, 5, "write(5)" }, { WRITE, 0, 300, "write(300)" }, { WRITE, 0, 601, "write(601)" }, { WRITE, 0, -1, "write(last)" }, { WRITE, 1, 7, "write(B7)" },
	{ HWRITE, 0, 0, "h0=x" }, { HWRITE, 1, 0, "h1=x" }, { HWRITE_L, 0, 0, "h0=const x" }, { HWRITE_V, 0, 0, "h0=value(v[9])" }, { VALUE, 0, 0, "value t(h0), v[11]=move(t)" },
	{ HASSIGN, 0, 1, "h0=h1" }, { HASSIGN, 1, 0, "h1=h0" }, { HMOVE, 0, 1, "h0=move(h1)" }, { HMOVE, 1, 0, "h1=move(h0)" }, { HSWAP, 0, 1, "swap(h0,h1)" },
	{ ASSIGN_FROM, 0, 8, "h0=v[8]" }, { ASSIGN_FROM, 0, 610, "h0=v[610]" }, { ASSIGN_FROM, 0, 100009, "h0=B[9]" }, { ASSIGN_TO, 0, 310, "v[310]=h0" }, { ASSIGN_TO, 0, 100259, "B[259]=h0" },
	{ SWAP_WITH, 0, 320, "swap(h0,v[320])" }, { SWAP_WITH, 0, 100010, "swap(h0,B[10])" },
	{ ADVANCE, 0, 1, "++h0" }, { ADVANCE, 0, 256, "h0+=256" }, { ADVANCE, 0, -1, "--h0" }, { TAKE, 0, 0, "T x(move(h0))" },
	{ ALL_CONST, 0, 0, "const_for_each" }, { EACH, 0, 0, "for_each" }, { PUSH, 0, 0, "push_back" }, { SHRINK, 0, 0, "shrink_to_fit" }, { SERIALIZE, 0, 0, "serialize" },
	{ REVERSE, 250, 262, "reverse(250,262)" }, { REVERSE, 508, 604, "reverse(508,604)" }, { ITSWAP, 5, 601, "iter_swap(5,601)" }, { FIND, 0, 0, "find" },
};
static const int NOPS = sizeof OPS / sizeof *OPS;
struct RStart { size_t n; int state; };   // state: 0 as pushed, 1 compressed, 2 two chunks modified

template<class CV> struct Sim {
	using T = typename CV::value_type;
	using X = Tr<T>;
	using R = typename std::decay<decltype(std::declval<CV&>()[0])>::type;
	using C = typename std::decay<decltype(std::declval<const CV&>()[0])>::type;
	using It = typename CV::iterator;
	using CIt = typename CV::const_iterator;
	struct Handle {
		int kind = -1, c = 0;
		size_t i = 0;
		const T* addr = nullptr;
		std::unique_ptr<R> r;
		std::unique_ptr<C> k;
		std::unique_ptr<It> it;
		std::unique_ptr<CIt> cit;
		const T* at() const
		{
			switch (kind) {
				case HOLD_REF: return &r->get();
				case HOLD_CREF: return &k->get();
				case HOLD_IT: return &(**it).get();
				default: return &(**cit).get();
			}
		}
	};
	CV v[2];
	std::vector<int64_t> m[2];
	Handle h[3];
	int64_t ctr = 5000;
	std::string err;
	bool fail(const char* what, size_t i) { if (err.empty()) { char b[200]; snprintf(b, sizeof b, "%s (element %zu)", what, i); err = b; } return false; }
	int64_t fresh() { return X::norm(ctr += 11); }

	explicit Sim(const RStart& s)
	{
		build(v[0], m[0], s.n, 1);
		build(v[1], m[1], 256 + 5, 7);
		if (s.state) { v[0].shrink_to_fit(); v[1].shrink_to_fit(); }
		if (s.state == 2) {
			for (size_t i : { (size_t)3, (size_t)303 }) { m[0][i] = fresh(); v[0][i] = X::make(m[0][i]); }
		}
	}
	static void build(CV& c, std::vector<int64_t>& mm, size_t n, int64_t k)
	{
		for (size_t i = 0; i < n; ++i) { mm.push_back(X::norm((int64_t)i * k + 1)); c.push_back(X::make(mm.back())); }
	}
	bool writable(int s) const { return h[s].kind == HOLD_REF || h[s].kind == HOLD_IT; }
	R ref(int s) { return h[s].kind == HOLD_REF ? R(*h[s].r) : R(**h[s].it); }
	int64_t& val(int s) { return m[h[s].c][h[s].i]; }
	void setaddr(Handle& x) { x.addr = x.at(); }
	// whether a chunk of the container has a live handle
	bool held(int c, size_t chunk) const { for (auto& x : h) if (x.kind >= 0 && x.c == c && x.i / 256 == chunk) return true; return false; }
	int free_slot() const { for (int s = 0; s < 3; ++s) if (h[s].kind < 0) return s; return -1; }
	bool pos(long b, int& c, size_t& i) const
	{
		c = b >= 100000;
		if (c) b -= 100000;
		i = b < 0 ? m[c].size() - (size_t)-b : (size_t)b;
		return i < m[c].size();
	}
	template<class Q> static void copy_assign(Q& a, Q& b, std::true_type) { a = b; }
	template<class Q> static void copy_assign(Q& a, Q& b, std::false_type) { a = std::move(b); }
	template<class Q, class E> static void assign_c(Q& a, const E& b, std::true_type) { a = b; }
	template<class Q, class E> static void assign_c(Q&, const E&, std::false_type) {}
	static void write_value(CV& c, R d, std::true_type) { const typename It::value_type x(*(c.begin() + 9)); d = x; }
	static void write_value(CV&, R, std::false_type) {}
	// std::move(reference) moves the element; a temporary reference only moves values that cannot be copied
	void moved(int64_t& x) { if (X::moved != INT64_MIN) x = X::moved; }

	// false when the operation does not apply
	bool step(const ROp& o)
	{
		typedef std::integral_constant<bool, X::copy> copyable;
		int c = 0;
		size_t i = 0;
		switch (o.code) {
			case HOLD_REF: case HOLD_CREF: case HOLD_IT: case HOLD_CIT: {
				int s = free_slot();
				if (s < 0) return false;
				c = o.a;
				i = o.b < 0 ? m[c].size() - (size_t)-o.b : (size_t)o.b;
				Handle& x = h[s];
				const CV& cc = v[c];
				if (o.code == HOLD_REF) x.r.reset(new R(v[c][i]));
				else if (o.code == HOLD_CREF) x.k.reset(new C(cc[i]));
				else if (o.code == HOLD_IT) x.it.reset(new It(v[c].begin() + (ptrdiff_t)i));
				else x.cit.reset(new CIt(cc.begin() + (ptrdiff_t)i));
				x.kind = o.code; x.c = c; x.i = i;
				setaddr(x);
				break;
			}
			case HOLD_COPY: {
				int s = free_slot();
				if (s < 1 || h[0].kind < 0) return false;
				Handle &x = h[s], &y = h[0];
				if (y.kind == HOLD_REF) x.r.reset(new R(*y.r));
				else if (y.kind == HOLD_CREF) x.k.reset(new C(*y.k));
				else if (y.kind == HOLD_IT) x.it.reset(new It(*y.it));
				else x.cit.reset(new CIt(*y.cit));
				x.kind = y.kind; x.c = y.c; x.i = y.i;
				setaddr(x);
				if (x.addr != y.addr) return fail("a copy of a reference refers to another address", x.i), true;
				break;
			}
			case DROP: {
				Handle& x = h[o.a];
				if (x.kind < 0) return false;
				x.r.reset(); x.k.reset(); x.it.reset(); x.cit.reset();
				x.kind = -1;
				break;
			}
			case READ:
				i = o.b < 0 ? m[o.a].size() - (size_t)-o.b : (size_t)o.b;
				if (X::val(v[o.a][i].get()) != m[o.a][i]) fail("wrong value read", i);
				break;
			case WRITE:
				i = o.b < 0 ? m[o.a].size() - (size_t)-o.b : (size_t)o.b;
				m[o.a][i] = fresh();
				v[o.a][i] = X::make(m[o.a][i]);
				break;
			case HWRITE:
				if (!writable(o.a)) return false;
				val(o.a) = fresh();
				if (h[o.a].kind == HOLD_REF) *h[o.a].r = X::make(val(o.a));
				else **h[o.a].it = X::make(val(o.a));
				break;
			case HWRITE_L:
				if (!X::copy || !writable(o.a)) return false;
				val(o.a) = fresh();
				{ const T x = X::make(val(o.a)); R d = ref(o.a); assign_c(d, x, copyable()); }
				break;
			case HWRITE_V: {
				// through the value type of the iterators, like the standard algorithms
				if (!X::copy || !writable(o.a)) return false;
				val(o.a) = m[0][9];
				write_value(v[0], ref(o.a), copyable());
				break;
			}
			case VALUE: {
				if (!writable(0) || (h[0].c == 0 && h[0].i == 11)) return false;
				int64_t t = val(0);
				moved(val(0));
				R d = ref(0);
				typename It::value_type x(std::move(d));
				It it = v[0].begin() + 11;
				m[0][11] = t;
				*it = std::move(x);
				break;
			}
			case HASSIGN: {
				if (!X::copy || !writable(o.a) || h[o.b].kind < 0) return false;
				val(o.a) = val((int)o.b);
				R d = ref(o.a);
				if (h[o.b].kind == HOLD_CREF) assign_c(d, *h[o.b].k, copyable());
				else if (h[o.b].kind == HOLD_CIT) assign_c(d, **h[o.b].cit, copyable());
				else { R e = ref((int)o.b); copy_assign(d, e, copyable()); }
				break;
			}
			case HMOVE: {
				if (!writable(o.a) || !writable((int)o.b)) return false;
				bool same = h[o.a].c == h[o.b].c && h[o.a].i == h[o.b].i;
				if (same && X::owns) return false;   // self-move
				int64_t t = val((int)o.b);
				moved(val((int)o.b));
				val(o.a) = t;
				R d = ref(o.a), e = ref((int)o.b);
				d = std::move(e);
				break;
			}
			case HSWAP: {
				if (!writable(o.a) || !writable((int)o.b)) return false;
				if (h[o.a].c == h[o.b].c && h[o.a].i == h[o.b].i && X::owns) return false;
				std::swap(val(o.a), val((int)o.b));
				R d = ref(o.a), e = ref((int)o.b);
				swap(d, e);
				break;
			}
			case ASSIGN_FROM: {
				if (!writable(0) || !pos(o.b, c, i) || (!X::copy && h[0].c == c && h[0].i == i)) return false;
				int64_t t = m[c][i];
				if (!X::copy) moved(m[c][i]);
				val(0) = t;
				R d = ref(0);
				d = v[c][i];
				break;
			}
			case ASSIGN_TO: {
				if (!writable(0) || !pos(o.b, c, i) || (X::owns && h[0].c == c && h[0].i == i)) return false;
				int64_t t = val(0);
				moved(val(0));
				m[c][i] = t;
				R d = ref(0);
				v[c][i] = std::move(d);
				break;
			}
			case SWAP_WITH: {
				if (!writable(0) || !pos(o.b, c, i) || (h[0].c == c && h[0].i == i && X::owns)) return false;
				std::swap(val(0), m[c][i]);
				R d = ref(0), e = v[c][i];
				swap(d, e);
				break;
			}
			case ADVANCE: {
				Handle& x = h[0];
				if (x.kind != HOLD_IT && x.kind != HOLD_CIT) return false;
				if ((long)x.i + o.b < 0 || (long)x.i + o.b >= (long)m[x.c].size()) return false;
				if (x.kind == HOLD_IT) { if (o.b == 1) ++*x.it; else if (o.b == -1) --*x.it; else *x.it += o.b; }
				else { if (o.b == 1) ++*x.cit; else if (o.b == -1) --*x.cit; else *x.cit += o.b; }
				x.i += (size_t)o.b;
				setaddr(x);
				break;
			}
			case TAKE: {
				if (!writable(0)) return false;
				int64_t t = val(0);
				moved(val(0));
				R d = ref(0);
				T x(std::move(d));
				if (X::val(x) != t) fail("wrong value taken from a reference", h[0].i);
				break;
			}
			case ALL_CONST: {
				const CV& cc = v[0];
				size_t k = 0;
				bool ok = true;
				cc.for_each(0, cc.size(), [&](const T& x) { ok &= X::val(x) == m[0][k]; ++k; });
				if (!ok || k != m[0].size()) fail("const_for_each gives other values", k);
				break;
			}
			case EACH: {
				// the chunks without handles: for_each waits for the references
				bool any = false;
				for (size_t ch = 0; ch * 256 < m[0].size(); ++ch) {
					if (held(0, ch)) continue;
					any = true;
					size_t k = ch * 256, e = std::min(k + 256, m[0].size());
					v[0].for_each(k, e, [&](T& x) { if (X::val(x) != m[0][k]) fail("for_each gives another value", k); m[0][k] = X::norm(m[0][k] + 3); x = X::make(m[0][k]); ++k; });
				}
				if (!any) return false;
				break;
			}
			case PUSH:
				m[0].push_back(fresh());
				v[0].push_back(X::make(m[0].back()));
				break;
			case SHRINK: v[0].shrink_to_fit(); break;
			case SERIALIZE: {
				if (X::owns) return false;
				std::vector<char> out(stenos_bound(m[0].size() * sizeof(T)) + 64);
				size_t r = v[0].serialize(out.data(), out.size());
				if (stenos_has_error(r)) { fail("serialize failed", 0); break; }
				CV w;
				if (w.deserialize(out.data(), r) != m[0].size()) { fail("deserialize failed", 0); break; }
				for (size_t k = 0; k < m[0].size(); ++k) if (X::val(w[k].get()) != m[0][k]) { fail("serialized another value", k); break; }
				break;
			}
			case REVERSE:
				std::reverse(v[0].begin() + o.a, v[0].begin() + o.b);
				std::reverse(m[0].begin() + o.a, m[0].begin() + o.b);
				break;
			case ITSWAP:
				std::iter_swap(v[0].begin() + o.a, v[0].begin() + o.b);
				std::swap(m[0][(size_t)o.a], m[0][(size_t)o.b]);
				break;
			case FIND: {
				int64_t t = m[0].back();
				const CV& cc = v[0];
				size_t k = (size_t)(std::find_if(cc.begin(), cc.end(), [&](const T& x) { return X::val(x) == t; }) - cc.begin());
				if (k != (size_t)(std::find(m[0].begin(), m[0].end(), t) - m[0].begin())) fail("find gives another position", k);
				break;
			}
		}
		for (auto& x : h) {
			if (x.kind < 0 || !err.empty()) continue;
			if (X::val(*x.addr) != m[x.c][x.i]) fail("the address of a live reference holds another value", x.i);
			const T* a = x.at();
			if (a != x.addr) fail("the address of a live reference changed", x.i);
		}
		if (v[0].size() != m[0].size() || v[1].size() != m[1].size()) fail("wrong size", 0);
		return true;
	}
	uint64_t state() const
	{
		uint64_t x = vh::hash_bytes(m[0].data(), m[0].size() * 8, vh::hash_bytes(m[1].data(), m[1].size() * 8));
		for (auto& y : h) x = vh::mix(x ^ (uint64_t)(y.kind + 2) * 1000003u ^ (uint64_t)y.i << 20 ^ (uint64_t)y.c << 50);
		return x;
	}
	void end()
	{
		const CV& cc = v[0];
		for (int pass = 0; pass < 2 && err.empty(); ++pass) {
			for (int c = 0; c < 2; ++c) {
				const CV& w = v[c];
				size_t k = 0;
				w.for_each(0, w.size(), [&](const T& x) { if (X::val(x) != m[c][k]) { fail(pass ? "wrong value at the end, after shrink_to_fit" : "wrong value at the end", k); return false; } ++k; return true; });
			}
			for (auto& x : h) { x.r.reset(); x.k.reset(); x.it.reset(); x.cit.reset(); x.kind = -1; }
			if (!pass) v[0].shrink_to_fit();
		}
		(void)cc;
	}
};

template<class CV> static void run_all(const char* type, const std::vector<RStart>& starts, int depth, bool reduced)
{
	std::vector<int> alpha;
	for (int k = 0; k < NOPS; ++k) {
		static const char* omitted[] = { "ref(B7)", "cref(300)", "it(last-1)", "cit(5)", "drop(h0)", "drop(h1)", "drop(h2)", "read(last-2)", "read(B20)", "write(300)", "h1=x", "h1=h0", "h1=move(h0)", "h0=v[610]",
						 "h0=value(v[9])", "h0+=256", "--h0", "find", "reverse(508,604)" };
		bool skip = false;
		for (auto n : omitted) skip |= strcmp(n, OPS[k].name) == 0;
		if (reduced && skip) continue;
		alpha.push_back(k);
	}
	H.stats["max_alphabet"] = std::max<uint64_t>(H.stats["max_alphabet"], alpha.size());
	for (auto& st : starts) {
		std::vector<size_t> ix((size_t)depth, 0);
		for (;;) {
			// the first operation takes a handle
			if (OPS[alpha[ix[0]]].code > HOLD_CIT) break;
			std::string d = std::string(type) + "/" + std::to_string(st.n) + "." + std::to_string(st.state) + ":";
			for (auto i : ix) d += std::string(" ") + OPS[alpha[i]].name;
			if (H.begin("%s", d.c_str())) {
				reset_tokens();
				alloc_error = nullptr;
				long blocks0 = live_blocks;
				std::string err;
				bool applied = true;
				{
					Sim<CV> s(st);
					for (auto i : ix) {
						if (!s.step(OPS[alpha[i]])) { applied = false; break; }
						++H.stats["transitions"];
						if (!s.err.empty()) break;
						if (H.distinct.size() < 2000000) H.distinct.insert(s.state());
					}
					if (applied) ++H.stats["sequences"];
					if (s.err.empty()) s.end();
					err = s.err;
				}
				if (err.empty() && token_error) err = token_error;
				if (err.empty() && alloc_error) err = alloc_error;
				if (err.empty() && live_tokens) err = "elements were leaked";
				if (err.empty() && live_blocks != blocks0) err = "memory was leaked";
				if (!err.empty()) H.fail("%s", err.c_str());
			}
			if (H.capped) return;
			int p = depth - 1;
			while (p >= 0 && ++ix[(size_t)p] == alpha.size()) ix[(size_t)p--] = 0;
			if (p < 0) break;
		}
	}
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	using namespace stenos;
	const size_t F = 4 * 256 - 1;   // one element free in the back chunk
	const RStart comp = { F, 1 }, dirty = { F, 2 }, fresh = { F, 0 };
	bool q = !H.thorough, san = H.args == "asan";
	using I = cvector<int32_t, 0, 1, Alloc<int32_t>>;
	using K = cvector<Tok, 0, 1, Alloc<Tok>>;
	using M = cvector<MTok, 0, 1, Alloc<MTok>>;
	using U = cvector<std::unique_ptr<int>, 0, 1, Alloc<std::unique_ptr<int>>>;
	if (san) {
		run_all<I>("i32", { comp, dirty, fresh }, q ? 2 : 3, false);
		run_all<K>("tok", { dirty }, q ? 2 : 3, false);
		return H.finish();
	}
	run_all<I>("i32", { comp, dirty, fresh }, 3, false);
	run_all<K>("tok", { dirty }, q ? 2 : 3, false);
	run_all<M>("mtok", { dirty }, q ? 2 : 3, false);
	run_all<U>("uptr", { comp }, q ? 2 : 3, false);
	run_all<K>("tok", { comp }, 3, true);
	run_all<M>("mtok", { comp }, 3, true);
	run_all<I>("i32", { dirty }, 4, false);
	if (!q) {
		run_all<I>("i32", { comp, fresh }, 4, false);
		run_all<K>("tok", { comp, dirty }, 4, true);
		run_all<M>("mtok", { comp, dirty }, 4, true);
		run_all<I>("i32", { dirty, comp }, 5, true);
	}
	return H.finish();
}
