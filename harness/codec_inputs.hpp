// Input families shared by the round trip (C01) and portability (C12) harnesses. The including file defines
// roundtrip(in, bytes, bpp, level), src and REDUCED (a smaller domain).
#pragma once
#include "gen.hpp"
#include <functional>
static std::vector<uint8_t> src;
static void roundtrip(const uint8_t* in, size_t bytes, size_t bpp, int level);
static bool REDUCED = false;

// --- section A: lengths x element sizes x kinds x levels
static void one(size_t bpp, size_t bytes, int kind, int level)
{
	if (!H.begin("A bpp=%zu bytes=%zu kind=%s level=%d", bpp, bytes, gen::names[kind], level)) return;
	src.resize(bytes + 1);
	gen::fill(src.data(), bytes, bpp, kind, bytes % 7);
	roundtrip(src.data(), bytes, bpp, level);
}

static size_t superblock(size_t bpp, int level, bool big)
{
	size_t b = bpp * 256;
	size_t s = b > 131072 ? b : 131072 / b * b;
	if (big && level) s <<= (level - 1) / 2;
	return s;
}

static void section_lengths()
{
	// A1: every length around every structural boundary, small sizes
	std::vector<size_t> bpps;
	for (size_t b = 1; b <= (H.thorough ? 72u : 20u); ++b) bpps.push_back(b);
	for (size_t b : { 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 160, 255, 256, 257 }) bpps.push_back(b);
	if (!H.thorough) bpps.resize(bpps.size());
	for (size_t bpp : bpps) {
		std::set<size_t> lens;
		size_t blk = 256 * bpp;
		for (size_t l = 0; l <= 40; ++l) lens.insert(l);
		for (size_t l : { 64, 100, 126, 127, 128, 129, 130, 200 }) lens.insert(l);
		for (size_t k = 1; k <= 4; ++k)
			for (long d : { -(long)(17 * bpp), -(long)(16 * bpp), -(long)bpp - 1, -(long)bpp, -1L, 0L, 1L, (long)bpp - 1, (long)bpp, (long)bpp + 1, (long)(15 * bpp), (long)(16 * bpp), (long)(16 * bpp) + 1, (long)(17 * bpp), (long)(128 * bpp) }) {
				long v = (long)(k * blk) + d;
				if (v > 0) lens.insert((size_t)v);
			}
		for (int level : { 1, 2 })
			for (int kind = 0; kind < gen::NKINDS; ++kind)
				for (size_t l : lens) {
					if (l > 70000) continue;
					if (REDUCED && (l > 3 * blk || l < 15 || (bpp > 9 && bpp % 8) || (kind != gen::PLANES && kind != gen::WALK && kind != gen::RANDOM && kind != gen::MIXED))) continue;
					one(bpp, l, kind, level);
				}
	}
	// every length up to a few blocks for some element sizes (also covers the byte delta and shuffle remainders)
	if (!REDUCED || H.thorough)
	for (size_t bpp : { 1, 2, 3, 4, 8, 12, 16 })
		for (int kind : { gen::SMOOTH, gen::PLANES, gen::MIXED })
			for (size_t l = 0; l <= (H.thorough && !REDUCED ? 256 * bpp * 4 : 256 * bpp * 2 + 40); l += 1) one(bpp, l, kind, bpp == 1 || (l & 1) ? 2 : 1);
	// A2: all levels, medium sizes
	for (size_t bpp : { 1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32, 100 })
		for (int level = 0; level <= 9; ++level)
			for (int kind = 0; kind < gen::NKINDS; ++kind) {
				size_t blk = 256 * bpp;
				std::set<size_t> lens = { 127, 128, 1000, blk, blk + bpp, 3 * blk + 5, 2049, 4096, 10 * blk + 100 * bpp };
				if (REDUCED && (level == 0 || level == 6 || level == 7 || kind % 3 == 0)) continue;
				for (size_t l : lens) if (!REDUCED || l == blk || l == 3 * blk + 5 || l > 9 * blk) one(bpp, l, kind, level);
			}
	// A3: every element size (boundaries of the accepted range included)
	{
		size_t step = H.thorough ? 1 : 7;
		for (size_t bpp = 1; bpp <= 1100; bpp += (bpp < 300 ? 1 : REDUCED ? 97 : step))
			for (int kind : { gen::PLANES, gen::RUNS })
				for (size_t l : { bpp * 256, bpp * 256 + bpp * 31 + 1 }) one(bpp, l, kind, 1 + (int)(bpp % 3));
		for (size_t bpp : { 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 8191, 16384, 32767, 32768, 65533, 65534 })
			for (int kind : { gen::PLANES, gen::ZERO, gen::RAMP })
				for (int level : { 0, 1, 2, 9 })
					for (size_t l : { bpp * 256 - 1, bpp * 256, bpp * 300 }) {
						if (REDUCED && (bpp > 5000 || level == 0 || kind != gen::PLANES)) continue;
						if (level == 9 && kind != gen::PLANES) continue;
						one(bpp, l, kind, level);
					}
	}
	// A4: superblock boundaries at all levels
	for (int level = 0; level <= (REDUCED ? 4 : 9); ++level)
		for (size_t bpp : { 1, 3, 4, 8, 24 }) {
			size_t sb = superblock(bpp, level, true), sb0 = superblock(bpp, level, false);
			std::set<size_t> lens = { sb0 - 1, sb0, sb0 + 1, 2 * sb };
			if (level <= 5 || H.thorough) for (size_t l : { sb - 1, sb, sb + 1, sb + 130, 2 * sb - 1, 2 * sb + bpp * 257, 3 * sb }) lens.insert(l);
			for (size_t l : lens)
				for (int kind : { gen::SMOOTH, gen::MIXED, gen::TEXT, gen::RANDOM }) {
					if (level >= 6 && !H.thorough && kind != gen::SMOOTH && kind != gen::MIXED) continue;
					if (level >= 8 && !H.thorough && (bpp == 3 || bpp == 8)) continue;
					one(bpp, l, kind, level);
				}
		}
}

// --- section B: exhaustive enumeration of 16-byte row patterns of a byte plane, packed 16 rows x k planes per block
typedef void (*RowFn)(uint8_t* row, uint64_t id);
static void row_mask(uint8_t* row, unsigned mask, int fn)
{
	// bit i of the mask: row[i] differs from row[i-1]
	uint8_t v = 40;
	vh::Rng r(fn * 7919 + 3);
	for (int i = 0; i < 16; ++i) {
		if (mask >> i & 1) {
			switch (fn) {
				case 0: v = (uint8_t)(v + 1); break;
				case 1: v = (uint8_t)(v + 97); break;
				case 2: v = (uint8_t)(v ^ 1); break;
				default: v = (uint8_t)(v + 1 + r.below(250)); break;
			}
		}
		row[i] = v;
	}
}
static void row_dmask(uint8_t* row, unsigned mask, int fn)
{
	// same on the deltas
	uint8_t d[16];
	row_mask(d, mask, fn);
	uint8_t v = (uint8_t)(13 * fn);
	for (int i = 0; i < 16; ++i) { v = (uint8_t)(v + d[i]); row[i] = v; }
}
// block with one plane made of rows(base..base+15); the other planes of a given kind
static void blocks(const char* name, size_t bpp, int plane_mode, int level, uint64_t nrows, const std::function<void(uint8_t*, uint64_t)>& rowfn, uint64_t rows_per_case)
{
	for (uint64_t first = 0; first < nrows; first += rows_per_case) {
		if (!H.begin("B %s bpp=%zu planes=%d level=%d rows=%llu..%llu", name, bpp, plane_mode, level, (unsigned long long)first, (unsigned long long)(first + rows_per_case))) continue;
		uint64_t last = std::min(nrows, first + rows_per_case);
		size_t nblocks = (size_t)((last - first + 15) / 16);
		src.assign(nblocks * 256 * bpp, 0);
		vh::Rng r(first + 1);
		for (size_t b = 0; b < nblocks; ++b)
			for (int row = 0; row < 16; ++row) {
				uint8_t v[16];
				uint64_t id = first + b * 16 + row;
				if (id >= nrows) id = nrows - 1;
				rowfn(v, id);
				for (int i = 0; i < 16; ++i) {
					size_t e = b * 256 + row * 16 + i;
					for (size_t pl = 0; pl < bpp; ++pl) {
						uint8_t x;
						if (pl == bpp / 2) x = v[i];
						else if (plane_mode == 0) x = 0;
						else if (plane_mode == 1) x = r.byte();
						else x = (uint8_t)(v[i] ^ (pl * 3));
						src[e * bpp + pl] = x;
					}
				}
			}
		roundtrip(src.data(), src.size(), bpp, level);
		H.stats["rows"] += last - first;
	}
}

static void section_rows()
{
	for (int fn = 0; fn < 4; ++fn) {
		char nm[32];
		if (REDUCED && !H.thorough && (fn == 1 || fn == 2)) continue;
		snprintf(nm, sizeof nm, "rle%d", fn);
		for (int pm = 0; pm < 3; ++pm) blocks(nm, pm == 0 ? 2 : pm == 1 ? 3 : 4, pm, 1, 65536, [fn](uint8_t* row, uint64_t id) { row_mask(row, (unsigned)id, fn); }, 1024);
		snprintf(nm, sizeof nm, "drle%d", fn);
		for (int pm = 0; pm < 3; ++pm) blocks(nm, pm == 0 ? 2 : pm == 1 ? 3 : 8, pm, 1, 65536, [fn](uint8_t* row, uint64_t id) { row_dmask(row, (unsigned)id, fn); }, 1024);
	}
	// value ranges: min base x width x direct/delta x extreme position
	static const uint8_t bases[] = { 0, 1, 2, 15, 16, 63, 64, 100, 127, 128, 129, 192, 200, 240, 254, 255 };
	uint64_t n = 16ull * 256 * 2 * 17;
	auto range = [](uint8_t* row, uint64_t id) {
		unsigned base = bases[id % 16], width = (unsigned)(id / 16 % 256), delta = (unsigned)(id / 4096 % 2), pos = (unsigned)(id / 8192);
		vh::Rng r(id);
		uint8_t v = (uint8_t)base;
		for (unsigned i = 0; i < 16; ++i) {
			uint8_t x = (uint8_t)(base + (width ? r.below(width + 1) : 0));
			if (pos < 16) x = (uint8_t)(i == pos ? base + width : base + (width ? r.below(width) : 0));
			if (delta) row[i] = v = (uint8_t)(v + x);
			else row[i] = x;
		}
	};
	blocks("range", 2, 0, 1, n, range, 1024);
	blocks("range", 4, 1, 1, n, range, 1024);
	blocks("range", 3, 2, 2, n, range, 1024);
	// all pairs of row classes at all row positions, and classes across consecutive planes
	auto cls = [](uint8_t* row, unsigned c, unsigned salt) {
		vh::Rng r(c * 977 + salt);
		uint8_t v = (uint8_t)(salt * 31);
		for (int i = 0; i < 16; ++i) switch (c) {
			case 0: row[i] = 9; break;
			case 1: case 2: case 3: case 4: case 5: case 6: case 7: row[i] = (uint8_t)(50 + r.below(1u << c)); break;
			case 8: row[i] = r.byte(); break;
			case 9: row[i] = v = (uint8_t)(v + 3); break;
			case 10: case 11: case 12: case 13: row[i] = v = (uint8_t)(v + 5 + r.below(1u << (c - 9))); break;
			case 14: row[i] = (uint8_t)((i / 5) * 77 + salt); break;
			case 15: row[i] = v = (uint8_t)(v + (i / 6) * 57 + 1); break;
		}
	};
	for (int level : { 1, 3 })
		for (size_t bpp : { 2, 4 })
			for (unsigned a = 0; a < 16; ++a)
				for (unsigned b = 0; b < 16; ++b) {
					if (!H.begin("B pairs bpp=%zu level=%d a=%u b=%u", bpp, level, a, b)) continue;
					src.assign(16 * 256 * bpp, 0);
					for (unsigned blk = 0; blk < 16; ++blk)
						for (unsigned row = 0; row < 16; ++row)
							for (size_t pl = 0; pl < bpp; ++pl) {
								uint8_t v[16];
								unsigned c = row == blk ? b : a;
								if (pl & 1) c = (c + (unsigned)pl + blk) & 15;
								cls(v, c, row + blk);
								for (int i = 0; i < 16; ++i) src[((size_t)blk * 256 + row * 16 + i) * bpp + pl] = v[i];
							}
					roundtrip(src.data(), src.size(), bpp, level);
				}
}

// --- section P: partial last blocks: every number of remaining elements and bytes x row classes
static void section_partial()
{
	for (size_t bpp : { 1, 2, 3, 4, 6, 8, 16 })
		for (size_t elems = 0; elems < 256; ++elems)
			for (size_t extra = 0; extra < bpp; extra += (bpp > 4 ? 3 : 1))
				for (int full = 0; full <= 1; ++full) {
					if (REDUCED && !H.thorough && (extra || (elems & 1) != (size_t)full)) continue;
					if (!H.begin("P bpp=%zu elems=%zu extra=%zu full=%d", bpp, elems, extra, full)) continue;
					size_t bytes = (elems + (full ? 256 : 0)) * bpp + extra;
					for (int kind : { gen::PLANES, gen::RANDOM, gen::ZERO, gen::RUNS }) {
						src.resize(bytes + 1);
						gen::fill(src.data(), bytes, bpp, kind, elems);
						roundtrip(src.data(), bytes, bpp, bpp == 1 ? 2 : 1);
						H.stats["partial"]++;
					}
				}
}

// --- section L: repetitions at every distance (match finder), periods, repeated and almost repeated blocks
// --- section F: a few units repeated at a given distance (in match finder units) inside one block, the rest cycles through 7 random units:
// every distance class, up to the longest one a block can hold
static void section_far()
{
	for (size_t bpp : { 4, 8, 12, 16, 20, 24, 28, 32, 64, 100, 124, 128, 132, 252, 256, 260, 500, 504, 508, 512, 516, 520, 1016, 1020, 1024, 1028, 2040, 2044, 2048, 4092 }) {
		if (REDUCED && !H.thorough && bpp != 4 && bpp != 16 && bpp != 128 && bpp != 508 && bpp != 512 && bpp != 1020 && bpp != 1024) continue;
		size_t unit = bpp % 8 ? 4 : 8, count = 256 * bpp / unit, K = 16;
		std::set<size_t> ds = { 1, 2, 16, 126, 127, 128, 129, 255, 256, 1000, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536, count / 2, count - K };
		for (size_t d : ds) {
			if (d + K > count) continue;
			if (!H.begin("F bpp=%zu distance=%zu", bpp, d)) continue;
			src.resize(count * unit);
			vh::Rng r(bpp * 31 + d);
			std::vector<uint8_t> cyc(7 * unit), key(K * unit);
			for (auto& c : cyc) c = r.byte();
			for (auto& c : key) c = r.byte();
			// some constant planes, so that the block coder leaves room for trying the match finder
			for (size_t i = unit - 1; i < cyc.size(); i += unit) cyc[i] = 0;
			for (size_t i = unit - 1; i < key.size(); i += unit) key[i] = 0;
			for (size_t a : { (size_t)0, count - K - d }) {
				for (size_t i = 0; i < count; ++i) memcpy(&src[i * unit], &cyc[i % 7 * unit], unit);
				memcpy(&src[a * unit], key.data(), key.size());
				for (size_t i = 0; i < K; ++i) memcpy(&src[(a + d + i) * unit], &src[(a + i) * unit], unit);
				roundtrip(src.data(), src.size(), bpp, 1);
				roundtrip(src.data(), src.size(), bpp, 2);
				H.stats["far_distances"]++;
			}
		}
	}
}

static void section_repeat()
{
	for (size_t bpp : { 4, 8, 12 })
		for (int level : { 1, 2, 4 })
			for (size_t period = 1; period <= (H.thorough ? 300u : REDUCED ? 40u : 140u); ++period) {
				if (!H.begin("L bpp=%zu level=%d period=%zu", bpp, level, period)) continue;
				size_t n = 256 * 5 + 17;
				src.resize(n * bpp);
				vh::Rng r(period);
				std::vector<uint8_t> pat(period * bpp);
				for (auto& c : pat) c = r.byte();
				for (size_t i = 0; i < src.size(); ++i) src[i] = pat[i % pat.size()];
				roundtrip(src.data(), src.size(), bpp, level);
				// with perturbations
				for (size_t k = 0; k < src.size(); k += 61 * bpp + period) src[k] ^= 0x55;
				roundtrip(src.data(), src.size(), bpp, level);
				roundtrip(src.data(), src.size() - 13 * bpp - 1, bpp, level);
			}
	// byte periods not multiple of the element size, in incompressible planes: literal/match lengths at all small values
	for (size_t bpp : { 4, 8, 16, 64, 128, 512 })
		for (size_t lit = 0; lit <= 40; ++lit)
			for (size_t mlen : { 4, 5, 8, 12, 16, 18, 19, 20, 32, 64, 270, 300 }) {
				if (REDUCED && !H.thorough && (lit % 3 || bpp >= 64)) continue;
				if (!H.begin("L2 bpp=%zu lit=%zu match=%zu", bpp, lit, mlen)) continue;
				size_t n = 256 * (bpp >= 64 ? 2 : 4);
				src.resize(n * bpp);
				vh::Rng r(lit * 1000 + mlen);
				size_t i = 0;
				while (i < src.size()) {
					for (size_t k = 0; k < lit + 1 && i < src.size(); ++k) src[i++] = r.byte();
					if (i > 64) {
						size_t from = i - 1 - r.below((unsigned)std::min<size_t>(i - 1, 3000));
						for (size_t k = 0; k < mlen && i < src.size(); ++k) { src[i] = src[from + k]; ++i; }
					}
				}
				roundtrip(src.data(), src.size(), bpp, 1);
				roundtrip(src.data(), src.size(), bpp, 2);
			}
}

