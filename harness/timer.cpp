// C24: the timer, for every pair of clock readings of a set and every short sequence of operations on several timers.
#include "common.hpp"
#include "stenos/stenos.h"
#include "stenos/timer.hpp"
#include "vmalloc.hpp"
#include <sys/syscall.h>
#include <thread>

static bool virt = false;
static uint64_t mono, wall;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	if (!virt) return (int)syscall(SYS_clock_gettime, id, ts);
	uint64_t v = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME ? mono : wall;
	wall = wall * 6364136223846793005ull + 1442695040888963407ull; // the time of day may be set at any moment
	wall &= (1ull << 60) - 1;
	ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull);
	return 0;
}

struct Virt { Virt() { virt = true; } ~Virt() { virt = false; } };

int main(int argc, char** argv)
{
	H.init(argc, argv);
	// every pair of readings
	std::vector<uint64_t> secs = { 0, 1, 2, 3, 4, 5, 8, 9, 10, 59, 60, 1000, 999999, 1000000, (1u << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, 9000000000ull };
	std::vector<uint64_t> nanos = { 0, 1, 2, 999, 1000, 999999, 1000000, 499999999, 500000000, 500000001, 999000000, 999999998, 999999999 };
	if (H.thorough) for (uint64_t k = 7; k < 1000000000; k = k * 5 / 3) nanos.push_back(k);
	std::vector<uint64_t> times;
	for (auto s : secs) for (auto n : nanos) times.push_back(s * 1000000000ull + n);
	std::sort(times.begin(), times.end());
	for (int api = 0; api < 2; ++api)
		for (uint64_t a : times) {
			if (!H.begin("pairs api=%d start=%llu", api, (unsigned long long)a)) continue;
			stenos_timer* t = api ? nullptr : stenos_make_timer();
			stenos::timer cpp;
			if (!api && !t) { H.fail("stenos_make_timer failed"); continue; }
			for (uint64_t b : times) {
				if (b < a) continue;
				uint64_t r;
				{
					Virt v;
					mono = a; wall = 77;
					if (api) cpp.tick(); else stenos_tick(t);
					mono = b;
					r = api ? cpp.tock() : stenos_tock(t);
				}
				H.stats["pairs"]++;
				H.distinct.insert(vh::mix(a) + b);
				if (r != b - a) { H.fail("tick at %llu ns, tock at %llu ns: %llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)r); break; }
			}
			stenos_destroy_timer(t);
		}
	// every sequence of operations on two timers while the clock advances
	static const uint64_t adv[] = { 0, 1, 600000000ull, 1000000000ull, 5400000001ull };
	const int nops = 4, len = H.thorough ? 7 : 5, total = nops * 5;
	long n = 1;
	for (int i = 0; i < len; ++i) n *= total;
	const long group = 20 * 20 * 20;
	for (long g = 0; g < n; g += group) {
		if (!H.begin("sequences from %ld", g)) continue;
		stenos_timer* t[2] = { stenos_make_timer(), stenos_make_timer() };
		if (!t[0] || !t[1]) { H.fail("stenos_make_timer failed"); continue; }
		bool stop = false;
		for (long q = g; q < g + group && q < n && !stop; ++q) {
			Virt v;
			uint64_t start[2]; wall = (uint64_t)q; mono = 12345678901ull;
			for (int k = 0; k < 2; ++k) { stenos_tick(t[k]); start[k] = mono; mono += 999999999; }
			long x = q;
			for (int i = 0; i < len; ++i, x /= total) {
				int op = (int)(x % nops), w = op & 1;
				mono += adv[(x / nops) % 5];
				if (op < 2) { stenos_tick(t[w]); start[w] = mono; }
				else {
					uint64_t r = stenos_tock(t[w]);
					if (r != mono - start[w]) { virt = false; H.fail("sequence %ld, operation %d: tock returned %llu instead of %llu", q, i, (unsigned long long)r, (unsigned long long)(mono - start[w])); stop = true; break; }
				}
			}
			H.stats["transitions"] += len;
		}
		stenos_destroy_timer(t[0]); stenos_destroy_timer(t[1]);
	}
	// memory: failing allocation, NULL, no leak
	if (H.begin("memory")) {
		stenos_destroy_timer(nullptr);
		long live = vmal::live_tracked;
		for (long k = -1; k < 4; ++k) {
			vmal::counter = 0; vmal::fail1 = k; vmal::failures = 0;
			vmal::window = true;
			stenos_timer* t = stenos_make_timer();
			vmal::window = false; vmal::fail1 = -1;
			if (!t && !vmal::failures.load()) H.fail("stenos_make_timer returned NULL without a failure");
			if (t && vmal::failures.load()) H.fail("stenos_make_timer succeeds although its allocation failed");
			if (t) { stenos_tick(t); stenos_tock(t); }
			stenos_destroy_timer(t);
		}
		if (vmal::live_tracked != live) H.fail("%ld blocks leaked", vmal::live_tracked - live);
		if (vmal::broken.load()) H.fail("%s", vmal::broken.load());
	}
	return H.finish();
}
