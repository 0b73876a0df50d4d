// Enumeration of all schedules up to a number of deviations from the default one.
#pragma once
#include "common.hpp"
#include "mc.hpp"
#include <functional>
#include <sched.h>

struct Scenario { std::string name; std::function<void()> body; int quick, thorough; };
static const Scenario* mc_current;
static void mc_body() { mc_current->body(); }

static std::string mc_symbols(const std::string& msg)
{
	std::string r;
	for (size_t i = 0; i < msg.size();) {
		if (msg.compare(i, 4, "[+0x") == 0) {
			size_t e = msg.find(']', i);
			std::string a = msg.substr(i + 2, e - i - 2);
			char cmd[300], line[400] = "?", fn[400] = "?";
			snprintf(cmd, sizeof cmd, "addr2line -Cfse /proc/%d/exe %s 2>/dev/null", (int)getpid(), a.c_str());
			if (FILE* f = popen(cmd, "r")) {
				if (!fgets(fn, sizeof fn, f)) strcpy(fn, "?");
				if (!fgets(line, sizeof line, f)) strcpy(line, "?");
				pclose(f);
			}
			fn[strcspn(fn, "\n(")] = 0; line[strcspn(line, "\n")] = 0;
			r += std::string("[") + std::string(fn).substr(0, 120) + " " + line + "]";
			i = e + 1;
		}
		else r += msg[i++];
	}
	return r;
}

struct Explorer {
	const Scenario* sc;
	std::vector<mc::Dev> devs;
	uint64_t counter = 0;
	int level = 0;
	bool stop = false;

	std::string desc() const
	{
		std::string d = sc->name + ":";
		for (size_t i = 0; i < devs.size(); ++i) { char b[40]; snprintf(b, sizeof b, "%s%u.%u", i ? "," : "", devs[i].point, devs[i].choice); d += b; }
		return d;
	}
	mc::Result& run(bool count)
	{
		strncpy(H.cur->desc, desc().c_str(), sizeof H.cur->desc - 1);
		H.cur->counter = H.cur->counter + 1;
		mc::Result& r = mc::execute(mc_body, devs.data(), (int)devs.size());
		if (r.status == 2) {
			std::string m = (const char*)r.msg;
			if (m.compare(0, 9, "internal:") == 0) { ++H.stats["internal_errors"]; fprintf(stderr, "[%s] %s\n", desc().c_str(), m.c_str()); H.capped = true; stop = true; return r; }
			// the same schedule must fail again, with the same message
			mc::Result& r2 = mc::execute(mc_body, devs.data(), (int)devs.size());
			if (r2.status == 2 && m == (const char*)r2.msg) {
				H.fail("%s (schedule with %d deviations, %u scheduling points)", mc_symbols(m).c_str(), (int)devs.size(), r2.nsteps);
				stop = true;
			}
			else ++H.stats["not_reproduced"];
			return r2;
		}
		if (count) {
			++H.executed;
			++H.stats["schedules"];
			++H.stats["schedules_" + std::to_string(devs.size()) + "_deviations"];
			H.stats["scheduling_points"] += r.nsteps;
			H.stats["context_switches"] += r.switches;
			H.stats["accesses_checked"] += r.accesses;
			H.stats["spurious_wakeups"] += r.spurious;
			if (r.nsteps > H.stats["max_scheduling_points"]) H.stats["max_scheduling_points"] = r.nsteps;
			if (r.nthreads > H.stats["max_threads"]) H.stats["max_threads"] = r.nthreads;
			H.distinct.insert(r.trace);
			outcomes.insert(r.outcome);
			if ((H.executed & (H.executed - 1)) == 0 && H.samples.size() < 24) H.samples.push_back(desc());
		}
		return r;
	}
	std::set<uint64_t> outcomes;
	// visits the nodes with exactly `level` deviations below the current one
	void visit(int left)
	{
		if (stop || H.capped) return;
		if (H.now() - H.t0 > H.cap) { H.capped = true; return; }
		if (left == 0) { if (level >= 2 || mine()) run(true); return; }
		mc::Result& r = run(false);
		if (stop || r.status != 1) return;
		uint32_t first = devs.empty() ? 0 : devs.back().point + 1, n = r.npoints;
		std::vector<uint8_t> alts(r.alts + std::min(first, n), r.alts + n);
		for (uint32_t i = first; i < n; ++i)
			for (uint32_t a = 1; a < alts[i - first]; ++a) {
				// the nodes with one deviation are distributed over the shards, those with two from three deviations on
				if (devs.size() + 1 == (size_t)(level >= 3 ? 2 : 1) && level >= 2 && !mine()) continue;
				devs.push_back({ i, a });
				visit(left - 1);
				devs.pop_back();
				if (stop || H.capped) return;
			}
	}
	bool mine() { return (int)(counter++ % (uint64_t)H.nshards) == H.shard; }
};

static void mc_explore(const std::vector<Scenario>& scs)
{
	if (!H.has_only && H.nshards > 1) {
		// hand-overs between the threads of an execution are much faster on one core
		cpu_set_t all, one;
		CPU_ZERO(&one);
		if (sched_getaffinity(0, sizeof all, &all) == 0) {
			int n = CPU_COUNT(&all), k = H.shard % (n ? n : 1);
			for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && k-- == 0) CPU_SET(i, &one);
			sched_setaffinity(0, sizeof one, &one);
		}
	}
	if (H.has_only) {
		size_t c = H.only.find(':');
		for (auto& s : scs) {
			if (H.only.substr(0, c) != s.name) continue;
			Explorer e;
			e.sc = mc_current = &s;
			const char* p = H.only.c_str() + c + 1;
			while (*p) { unsigned a, b; int k; if (sscanf(p, "%u.%u%n", &a, &b, &k) != 2) break; e.devs.push_back({ a, b }); p += k; if (*p == ',') ++p; }
			e.run(true);
		}
		return;
	}
	// all scenarios with no deviation, then all with one, ...
	std::vector<Explorer> es;
	int top = 0;
	for (auto& s : scs) {
		size_t a = 0;
		bool take = H.args.empty();
		while (!take && a < H.args.size()) { size_t e = std::min(H.args.find(',', a), H.args.size()); take = s.name.compare(0, e - a, H.args, a, e - a) == 0; a = e + 1; }
		if (!take) continue;
		Explorer e;
		e.sc = &s;
		es.push_back(e);
		top = std::max(top, H.thorough ? s.thorough : s.quick);
	}
	uint64_t offset = 0;
	for (int level = 0; level <= top; ++level)
		for (auto& e : es) {
			if (level > (H.thorough ? e.sc->thorough : e.sc->quick) || e.stop || H.capped) continue;
			mc_current = e.sc;
			double t = H.now();
			uint64_t before = H.executed;
			e.level = level;
			e.counter = offset;
			e.visit(level);
			offset = e.counter;
			if (!H.capped && !e.stop) H.stats["max_deviations_" + e.sc->name] = (uint64_t)level;
			H.stats["max_outcomes_" + e.sc->name] = e.outcomes.size();
			if (getenv("MC_VERBOSE")) fprintf(stderr, "%s: %d deviations, %llu schedules, %.1f s, %zu outcomes\n", e.sc->name.c_str(), level, (unsigned long long)(H.executed - before), H.now() - t, e.outcomes.size());
		}
	H.index = H.executed;
}
