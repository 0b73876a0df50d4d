// C22: arrays of a known regularity become as small as they should, with every level, superblock size, number of threads; level 0 copies.
#include "gen.hpp"
#include "stenos/stenos.h"
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>

// the time limit is never reached: the clock stands still (args "timed": it advances by 1 microsecond per reading, the limit is an hour)
static bool virt = true;
static long ticks = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	if (!virt || id != CLOCK_MONOTONIC) return (int)syscall(SYS_clock_gettime, id, ts);
	++ticks;
	ts->tv_sec = 1000; ts->tv_nsec = (ticks % 1000000) * 1000;
	return 0;
}

static std::vector<uint8_t> src, dst, back;
static std::map<std::string, uint64_t> worst;

static void one(const char* family, const std::string& what, size_t bpp, double limit1, bool all, double limit2 = 0) // limits at level 1 (and with a time limit), above
{
	size_t N = src.size();
	for (int level = 0; level <= 9; ++level)
		for (long shift : { -1L, 0L, 1L, 4L })
			for (int threads : { 1, 2, 4 })
				for (int timed = 0; timed < 2; ++timed) {
					size_t blk = 256 * bpp;
					if (threads > 1 && (N < 50000 || (shift >= 0 && (blk << shift) * 2 > N) || level == 4 || level > 6)) continue;
					if (timed && (level != 1 || shift == 0 || shift == 4)) continue;
					if (shift >= 0 && !all && level % 3 == 2) continue;
					if (!H.thorough && level >= 6 && N > 160000 && threads == 1) continue;
					if (!H.begin("%s bpp=%zu n=%zu %s level=%d shift=%ld threads=%d%s", family, bpp, N / bpp, what.c_str(), level, shift, threads, timed ? " timed" : "")) continue;
					size_t sb = shift < 0 ? 1 + N / 60000 : 1 + N / (blk << shift);
					dst.resize(stenos_bound(N) + 12 + sb * 8 + N / 1000);
					// contexts are used again, for all kinds of input; a new one at times
					static stenos_context* kept[2];
					stenos_context*& c = kept[timed];
					if (!c) {
						c = stenos_make_context();
						if (timed) stenos_set_max_nanoseconds(c, 3600ull * 1000000000);
					}
					stenos_set_level(c, level);
					stenos_set_threads(c, threads);
					stenos_set_block_size(c, (size_t)shift);
					size_t r = stenos_compress_generic(c, src.data(), bpp, N, dst.data(), dst.size());
					if (++ticks % 16 == 0) { stenos_destroy_context(c); c = nullptr; }
					if (stenos_has_error(r)) { H.fail("compression failed (%lld)", (long long)r); continue; }
					stenos_info info;
					if (stenos_has_error(stenos_get_info(dst.data(), bpp, r, &info))) { H.fail("no information on the frame"); continue; }
					size_t nsb = (N + info.superblock_size - 1) / info.superblock_size;
					if (level == 0 && !timed) {
						if (r > N + 12 + 4 * nsb) { H.fail("level 0: %zu bytes for %zu", r, N); continue; }
						size_t p = dst[0] == 255 ? 12 : 8, o = 0;
						for (size_t i = 0; i < nsb; ++i) {
							size_t n = std::min(info.superblock_size, N - o);
							p += 4;
							if (p + n > r || memcmp(&dst[p], &src[o], n)) { H.fail("level 0: superblock %zu is not stored as it is", i); break; }
							p += n; o += n;
						}
						H.stats["copies"]++;
						continue;
					}
					double limit = level == 1 || limit2 == 0 ? limit1 : limit2;
					if (limit > 1) continue;
					double most = limit * (double)N + 64 + 16. * (double)nsb;
					if ((double)r > most) H.fail("%zu bytes become %zu, more than %.0f", N, r, most);
					H.stats["frames"]++;
					uint64_t& m = H.stats[std::string("max_permille_") + family];
					m = std::max<uint64_t>(m, (uint64_t)(1000 * (double)r / most));
					H.distinct.insert(vh::hash_bytes(dst.data(), std::min<size_t>(r, 200), r));
				}
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	vh::Rng r(5);
	char det[64];
	std::vector<size_t> bpps = { 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 32, 33, 64, 100, 300 };
	if (H.thorough) { for (size_t b = 1; b <= 70; ++b) bpps.push_back(b); for (size_t b : { 128, 255, 256, 257, 1000, 4096 }) bpps.push_back(b); }
	for (size_t bpp : bpps)
		for (size_t n : { 256, 511, 1000, 5003, 30000 }) {
			if (n * bpp > (H.thorough ? 1200000 : 310000)) continue;
			bool all = n <= 1000 || H.thorough;
			src.resize(n * bpp);
			for (int v : { 0, 1, 7, 255 }) {
				if (v && v != 7 && !all) continue;
				for (size_t i = 0; i < src.size(); ++i) src[i] = v == 7 ? (uint8_t)(i % bpp * 37 + 3) : (uint8_t)v;
				one("equal", "value " + std::to_string(v), bpp, 0.1, all);
			}
			auto ramp = [&](long st) {
				for (size_t i = 0; i < n; ++i) gen::put(src.data(), src.size(), bpp, i, (uint64_t)(1000 + (long)i * st));
				one("ramp", "step " + std::to_string(st), bpp, 0.2, all);
			};
			if (n == 256 && (bpp == 2 || bpp == 4 || bpp == 8)) for (long st = -256; st <= 256; st += H.thorough ? 1 : 3) ramp(st);
			for (long st : { 1L, 3L, 100L, 193L, 255L, 256L, -1L, -200L, -256L }) if (all || st == 3 || st == 193) ramp(st);
			for (int k = 0; k < 5; ++k)
				for (int c : { 0, 100, -1 }) {
					if (!all && c != 100) continue;
					int base = c < 0 ? 256 - (1 << k) : c;
					for (auto& x : src) x = (uint8_t)(base + (r.byte() & ((1 << k) - 1)));
					snprintf(det, sizeof det, "k %d base %d", k, base);
					one("range", det, bpp, (k + 1) / 8., all, k < 4 ? (k + 1.5) / 8. : 2);
				}
			if (bpp <= 17)
				for (size_t t = 1; t < bpp; t += t < 3 || all ? 1 : 5) {
					for (int low = 0; low < 2; ++low) {
						for (size_t i = 0; i < src.size(); ++i) src[i] = (low ? i % bpp < t : i % bpp >= bpp - t) ? r.byte() : 9;
						snprintf(det, sizeof det, "%zu %s bytes", t, low ? "low" : "high");
						one("planes", det, bpp, (double)t / (double)bpp + 0.15, false);
					}
				}
			for (size_t L : { 32, 33, 47, 100 }) {
				if (L % 2 && !all) continue;
				std::vector<uint8_t> e(bpp);
				for (size_t i = 0; i < n; ++i) {
					if (i % L == 0) for (auto& x : e) x = r.byte();
					memcpy(&src[i * bpp], e.data(), bpp);
				}
				one("runs", "of " + std::to_string(L), bpp, 0.5, all);
			}
		}
	virt = false;
	return H.finish();
}
