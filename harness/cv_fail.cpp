// C14: every allocation of the container and every element construction or copy fails in turn.
#include "cv_ops.hpp"
#include <thread>
unsigned std::thread::hardware_concurrency() noexcept { return 1; }
using namespace cv;

template<class CV>
struct Runner {
	using S = State<CV>;
	using T = typename CV::value_type;
	using X = Tr<T>;
	using O = const Op<S>*;
	static const Table<S>& table() { static Table<S> t; return t; }
	static void tokens_ok(S& s, const char* when)
	{
		if (token_error) s.check(false, "%s: %s", when, token_error);
		if (alloc_error) s.check(false, "%s: %s", when, alloc_error);
	}
	// every element can be read; the model takes their values
	static void resync(S& s, CV& c, std::vector<int64_t>& m, const char* name)
	{
		std::vector<int64_t> v;
		const CV& k = c;
		k.for_each(0, c.size(), [&](const T& t) { v.push_back(X::val(t)); });
		s.check(v.size() == c.size(), "%s has %zu elements but size() is %zu", name, v.size(), c.size());
		m = v;
	}
	// mode: 0 the k-th allocation fails, 1 all from the k-th, 2 the k-th element operation. Returns whether a failure was injected.
	static bool one(const char* type, const Start& st, const std::vector<O>& pre, O op, int mode, long k, long& seen, int then = 0)
	{
		seen = -1;
		std::string names;
		for (auto o : pre) names += o->name + ",";
		if (!H.begin("%s %s %s%s %s%ld%s", type, start_name(st).c_str(), names.c_str(), op->name.c_str(), mode == 0 ? "a" : mode == 1 ? "A" : "e", k, then == 0 ? "" : then == 1 ? " then pop" : then == 2 ? " then shrink" : " then clear")) return true;
		long blocks0 = live_blocks;
		reset_tokens();
		alloc_error = nullptr;
		std::string err;
		bool hit = false;
		uint64_t sig = vh::hash_bytes(op->name.data(), op->name.size()) + mode;
		{
			std::unique_ptr<S> sp(new S);
			S& s = *sp;
			build(s, st);
			bool ok = true;
			for (auto o : pre) { if (!o->ok(s)) { ok = false; break; } o->run(s); }
			if (!ok || !op->ok(s)) { H.stats["not_applicable"]++; return false; }
			std::vector<int64_t> before = s.ma;
			size_t keep = op->keep ? op->keep(s) : 0;
			bool thrown = false;
			arm(mode == 0 ? k : -1, mode == 2 ? k : -1, mode == 1 ? k : LONG_MAX);
			try { op->run(s); }
			catch (const std::bad_alloc&) { thrown = true; disarm(); s.check(mode < 2, "a failed element operation gave std::bad_alloc"); }
			catch (const Injected&) { thrown = true; disarm(); s.check(mode == 2, "a failed allocation gave another exception"); }
			hit = failed > 0;
			seen = mode == 2 ? elem_seen : alloc_seen;
			disarm();
			if (hit && !thrown) H.stats["absorbed"]++;
			if (!thrown && s.err.empty()) s.cmp_all();       // no exception: the operation is complete
			H.stats["failures"] += hit;
			if (thrown) {
				tokens_ok(s, "after the failure");
				if (!op->keep) {
					s.cmp_all();                             // nothing changed (steps done before the failure excepted)
				}
				else {
					resync(s, s.a, s.ma, "a");
					s.check(s.ma.size() >= keep, "%zu elements remain, the first %zu should be unaltered", s.ma.size(), keep);
					for (size_t i = 0; i < keep && i < s.ma.size() && s.err.empty(); ++i)
						s.check(s.ma[i] == before[i], "a[%zu] is %lld instead of %lld after the failure", i, (long long)s.ma[i], (long long)before[i]);
					resync(s, s.b, s.mb, "b");
				}
				tokens_ok(s, "when read after the failure");
				if (!then && s.err.empty() && op->ok(s)) { op->run(s); s.cmp_all(); tokens_ok(s, "after the second attempt"); }
				// instead of a second attempt: elements removed and appended again around the place of the failure, and old chunks read in between
				static const std::vector<O> firsts[4] = { {},
					{ table().find("pop"), table().find("push"), table().find("push"), table().find("read_each_chunk"), table().find("set_each_chunk"), table().find("pop"), table().find("pop"), table().find("pop"), table().find("read_each_chunk"), table().find("push") },
					{ table().find("shrink"), table().find("push"), table().find("read_each_chunk"), table().find("pop300"), table().find("set_each_chunk"), table().find("copy_to_b") },
					{ table().find("swap"), table().find("read_each_chunk"), table().find("swap"), table().find("pop"), table().find("clear"), table().find("push") } };
				for (auto o : firsts[then]) {
					if (!o) continue; // not for this type
					if (!s.err.empty() || !o->ok(s)) continue;
					o->run(s);
					s.cmp_all();
					tokens_ok(s, o->name.c_str());
				}
				static const O after[] = { table().find("push300"), table().find("set_each_chunk"), table().find("read_each_chunk"), table().find("insert@1"), table().find("erase@1"),
					table().find("shrink"), table().find("pop"), table().find("for_each_r0s0"), table().find("resize1030"), table().find("resize257") };
				for (auto o : after) {
					if (!s.err.empty() || !o->ok(s)) continue;
					o->run(s);
					tokens_ok(s, o->name.c_str());
				}
				if (s.err.empty()) s.cmp_all();
			}
			err = s.err;
			for (auto& c : err) if (c == '\n') c = ' ';
			sig = vh::hash_bytes(s.ma.data(), s.ma.size() * 8, sig);
			arm(-1, -1, 0);
			sp.reset();                                      // destruction when no memory can be allocated
			disarm();
		}
		if (err.empty() && token_error) err = token_error;
		if (err.empty() && alloc_error) err = alloc_error;
		if (err.empty() && live_blocks != blocks0) err = "memory blocks are still allocated after the destruction of the containers: " + std::to_string(live_blocks - blocks0);
		if (err.empty() && live_tokens != 0) err = "elements are still alive after the destruction of the containers: " + std::to_string(live_tokens);
		if (!err.empty()) { H.fail("%s", err.c_str()); live_blocks = 0; blocks->clear(); big_blocks = 0; }
		H.distinct.insert(sig);
		return hit;
	}
	static void points(const char* type, const Start& st, const std::vector<O>& pre, O op, int mode, long dense, long thens = 0)
	{
		// the number of points is found by running without failure (in every shard: the enumeration must be the same)
		static std::map<std::string, std::pair<long, long>> memo;
		long n = 0;
		{
			reset_tokens(); alloc_error = nullptr;
			S s; build(s, st);
			for (auto o : pre) { if (!o->ok(s)) return; o->run(s); }
			if (!op->ok(s)) return;
			arm(-1, -1);
			op->run(s);
			n = mode == 2 ? elem_seen : alloc_seen;
			disarm();
		}
		for (long k = 0; k < n; ++k) {
			if (k >= dense && k < n - 8) { long step = 1 + k / dense * 37; long nk = std::min(k + step, n - 8); H.stats["strided"] += nk - k - 1; long seen; one(type, st, pre, op, mode, k, seen); k = nk - 1; continue; }
			long seen;
			one(type, st, pre, op, mode, k, seen);
			if (k < thens || (thens && k >= n - 2)) for (int then = 1; then < 4; ++then) one(type, st, pre, op, mode, k, seen, then);
		}
	}
	static void all(const char* type, const std::vector<Start>& starts, int depth, bool core, bool elems, long dense)
	{
		const auto& t = table();
		std::vector<O> alpha, prelude;
		for (auto& o : t.ops) { if (!core || o.cls == 0) alpha.push_back(&o); if (o.cls == 0) prelude.push_back(&o); }
		for (auto& st : starts) {
			std::vector<std::vector<O>> pres(1);
			if (depth > 1) { pres.clear(); for (auto o : prelude) pres.push_back({ o }); }
			for (auto& pre : pres) for (auto op : alpha) {
				const long thens = depth == 1 && st.n <= 1100 ? H.thorough ? 100 : 12 : 0;
				points(type, st, pre, op, 0, LONG_MAX / 2, thens);
				points(type, st, pre, op, 1, LONG_MAX / 2);
				if (elems) points(type, st, pre, op, 2, dense, thens);
			}
		}
	}
};

int main(int argc, char** argv)
{
	H.init(argc, argv);
	std::vector<Start> S(std::begin(STARTS), std::end(STARTS));
	std::vector<Start> few = { S[3], S[5], S[8], S[9] };
	std::vector<Start> big = { { 17 * 256 + 3, 0, 0 }, { 40 * 256, 0, 2 } };
	using namespace stenos;
	bool q = !H.thorough;
	(void)q;
#if PART == 0
	using K = Runner<cvector<int32_t, 0, 1, Alloc<int32_t>>>;
	K::all("i32", S, 1, false, true, q ? 300 : 20000);
	K::all("i32", big, 1, q, false, 0);
	K::all("i32", q ? std::vector<Start>{ S[8] } : S, 2, q, false, 0);
#elif PART == 1
	using K = Runner<cvector<Tok, 0, 1, Alloc<Tok>>>;
	K::all("tok", S, 1, false, true, q ? 300 : 20000);
	K::all("tok", q ? std::vector<Start>{ S[8] } : S, 2, true, true, q ? 40 : 300);
#else
	using K = Runner<cvector<MTok, 0, 1, Alloc<MTok>>>;
	K::all("mtok", S, 1, false, true, q ? 300 : 20000);
	K::all("mtok", q ? std::vector<Start>{ S[8] } : S, 2, true, true, q ? 40 : 300);
#endif
	return H.finish();
}
