// C03: every destination size; source and destination end at inaccessible pages.
#include "gen.hpp"
#include "guard.hpp"
#include "stenos/stenos.h"

static guard::Buf SRC(600000), DST(700000), BACK(600000), FRAME(700000);
static std::vector<uint8_t> ref, frame, tmp;

struct Cfg { size_t bpp, bytes; int kind, level, threads; size_t shift; };

static stenos_context* make(const Cfg& c)
{
	stenos_context* ctx = stenos_make_context();
	stenos_set_level(ctx, c.level);
	stenos_set_threads(ctx, c.threads);
	if (c.shift != STENOS_NO_BLOCK_SHIFT) stenos_set_block_size(ctx, c.shift);
	return ctx;
}

// sizes of interest below and above n
static std::vector<size_t> sizes(size_t max, const std::vector<size_t>& around, size_t dense, size_t step)
{
	std::set<size_t> s;
	for (size_t i = 0; i <= std::min(dense, max); ++i) s.insert(i);
	for (size_t a : around)
		for (long d = -24; d <= 24; ++d) if ((long)a + d >= 0 && (size_t)((long)a + d) <= max) s.insert((size_t)((long)a + d));
	for (size_t i = 0; i <= max; i += step) s.insert(i);
	s.insert(max);
	return std::vector<size_t>(s.begin(), s.end());
}

static void compress_case(const Cfg& c, size_t dense, size_t step)
{
	if (!H.begin("C bpp=%zu bytes=%zu kind=%s level=%d threads=%d shift=%ld", c.bpp, c.bytes, gen::names[c.kind], c.level, c.threads, (long)c.shift)) return;
	uint8_t* s = SRC.make(c.bytes);
	gen::fill(s, c.bytes, c.bpp, c.kind, c.bytes % 11);
	ref.assign(s, s + c.bytes);
	SRC.readonly(true);
	stenos_context* ctx = make(c);
	stenos_context* dctx = stenos_make_context();
	size_t bound = stenos_bound(c.bytes) + (c.shift != STENOS_NO_BLOCK_SHIFT ? 4 * (c.bytes / (256 * c.bpp) + 1) : 0);
	tmp.resize(bound);
	size_t full = stenos_compress_generic(ctx, s, c.bpp, c.bytes, tmp.data(), bound);
	if (stenos_has_error(full)) { H.fail("compression into the bound failed: %lld", (long long)full); SRC.readonly(false); stenos_destroy_context(ctx); stenos_destroy_context(dctx); return; }
	frame.assign(tmp.begin(), tmp.begin() + full);
	// --- compression into every destination size
	size_t nok = 0, nerr = 0;
	for (size_t d : sizes(bound, { full, full / 2, bound, c.bytes }, dense, step)) {
		uint8_t* o = DST.make(d);
		memset(o, 0xEE, d);
		size_t r = stenos_compress_generic(ctx, s, c.bpp, c.bytes, o, d);
		if (!DST.front_ok()) { H.fail("dst_size=%zu: write before the destination", d); break; }
		if (stenos_has_error(r)) {
			++nerr;
			if (d >= bound) { H.fail("dst_size=%zu >= bound %zu: error %lld", d, bound, (long long)r); break; }
			continue;
		}
		++nok;
		if (r > d) { H.fail("dst_size=%zu: returned size %zu", d, r); break; }
		// the frame must be complete and exact
		uint8_t* f = FRAME.make(r);
		memcpy(f, o, r);
		uint8_t* b = BACK.make(c.bytes);
		memset(b, 0x77, c.bytes);
		size_t q = stenos_decompress_generic(dctx, f, c.bpp, r, b, c.bytes);
		if (q != c.bytes || memcmp(b, ref.data(), c.bytes) != 0) { H.fail("dst_size=%zu: success (%zu bytes) but the frame does not decompress to the input (%lld)", d, r, (long long)q); break; }
	}
	SRC.readonly(false);
	if (memcmp(s, ref.data(), c.bytes) != 0) H.fail("the source was modified");
	H.stats["compress_ok"] += nok;
	H.stats["compress_too_small"] += nerr;
	// --- decompression into every destination size
	uint8_t* f = FRAME.make(full);
	memcpy(f, frame.data(), full);
	FRAME.readonly(true);
	stenos_set_threads(dctx, c.threads);
	for (size_t d : sizes(c.bytes + 70, { c.bytes, c.bytes / 2, 256 * c.bpp }, dense / 2, step)) {
		uint8_t* b = BACK.make(d);
		memset(b, 0x77, d);
		size_t q = stenos_decompress_generic(dctx, f, c.bpp, full, b, d);
		if (!BACK.front_ok()) { H.fail("decompression dst_size=%zu: write before the destination", d); break; }
		if (d < c.bytes) {
			if (!stenos_has_error(q)) { H.fail("decompression dst_size=%zu < %zu: returned %zu", d, c.bytes, q); break; }
			H.stats["decompress_too_small"]++;
		}
		else {
			if (q != c.bytes || memcmp(b, ref.data(), c.bytes) != 0) { H.fail("decompression dst_size=%zu: returned %lld for %zu bytes", d, (long long)q, c.bytes); break; }
			H.stats["decompress_ok"]++;
		}
	}
	FRAME.readonly(false);
	if (memcmp(f, frame.data(), full) != 0) H.fail("the frame was modified");
	stenos_destroy_context(ctx);
	stenos_destroy_context(dctx);
	H.distinct.insert(vh::hash_bytes(frame.data(), std::min<size_t>(full, 64), c.bytes * 31 + c.bpp));
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	const bool T = H.thorough;
	// small inputs: every destination size
	for (size_t bpp : { 1, 2, 3, 4, 8, 12, 16, 33 })
		for (int level : { 1, 2, 0, 3, 9 })
			for (int kind = 0; kind < gen::NKINDS; ++kind) {
				size_t blk = 256 * bpp;
				std::set<size_t> lens = { 0, 1, 5, 127, 128, 300, blk - 1, blk, blk + 1, blk + 17 * bpp + 1, 2 * blk, 3 * blk + 130 };
				for (size_t l : lens) {
					if (level >= 3 && (kind % 3 != level % 3 || l > 5000)) continue;
					if (l > 9000 && (kind & 1)) continue;
					bool all = l <= (T ? 4000u : 900u);
					compress_case({ bpp, l, kind, level, 1, STENOS_NO_BLOCK_SHIFT }, all ? 100000 : 80, T ? 7 : 1 + l / 60);
				}
			}
	// custom superblocks, several superblocks, several threads
	for (size_t bpp : { 1, 2, 4, 7 })
		for (int level : { 0, 1, 2 })
			for (int kind : { (int)gen::PLANES, (int)gen::RANDOM, (int)gen::SMOOTH, (int)gen::MIXED, (int)gen::ZERO })
				for (size_t shift : { 0, 1 })
					for (int threads : { 1, 2, 3 }) {
						size_t blk = 256 * bpp << shift;
						for (size_t l : { 2 * blk, 2 * blk + 130, 4 * blk + 1, 5 * blk })
							compress_case({ bpp, l, kind, level, threads, shift }, T ? 4000 : threads == 1 ? 80 : 30, T ? 11 : threads == 1 ? 1 + l / 100 : 1 + l / 40);
					}
	// several default superblocks
	for (size_t bpp : { 1, 4, 24 })
		for (int level : { 0, 1, 2, 4 })
			for (int kind : { (int)gen::PLANES, (int)gen::RANDOM, (int)gen::MIXED, (int)gen::TEXT })
				for (int threads : { 1, 3 })
					for (size_t l : { (size_t)131072, (size_t)131072 + 77, (size_t)300000 })
						compress_case({ bpp, l, kind, level, threads, STENOS_NO_BLOCK_SHIFT }, 14, T ? 3001 : l / 3);
	// big elements
	for (size_t bpp : { 300, 1024 })
		for (int level : { 1, 2 })
			for (int kind : { (int)gen::PLANES, (int)gen::RANDOM, (int)gen::RUNS })
				for (size_t l : { 256 * bpp, 256 * bpp + bpp * 16 + 3 })
					compress_case({ bpp, l, kind, level, 1, STENOS_NO_BLOCK_SHIFT }, 20, l / 20);
	return H.finish();
}
