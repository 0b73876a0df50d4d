// C13: stenos_get_info on every prefix of every enumerated frame and on every header.
#include "gen.hpp"
#include "guard.hpp"
#include "stenos/stenos.h"

static guard::Buf P(8192);
static std::vector<uint8_t> in, out;

// get_info on exactly n readable bytes
static size_t info(const uint8_t* f, size_t n, size_t bpp, stenos_info* inf)
{
	uint8_t* p = P.make(n);
	if (n) memcpy(p, f, n);
	inf->decompressed_size = 0x5A5A5A5A5A5A; inf->superblock_size = 0x3C3C3C3C3C;
	return stenos_get_info(p, bpp, n, inf);
}

static void frame_case(size_t bpp, size_t bytes, int kind, int level, size_t shift, int threads, uint64_t ns)
{
	if (!H.begin("frame bpp=%zu bytes=%zu kind=%s level=%d shift=%ld threads=%d ns=%llu", bpp, bytes, gen::names[kind], level, (long)shift, threads, (unsigned long long)ns)) return;
	in.resize(bytes + 1);
	gen::fill(in.data(), bytes, bpp, kind, 3);
	size_t bound = stenos_bound(bytes) + 4 * (bytes / (256 * bpp) + 1);
	out.resize(bound);
	stenos_context* ctx = stenos_make_context();
	stenos_set_level(ctx, level);
	stenos_set_threads(ctx, threads);
	if (shift != STENOS_NO_BLOCK_SHIFT) stenos_set_block_size(ctx, shift);
	if (ns) stenos_set_max_nanoseconds(ctx, ns);
	size_t r = stenos_compress_generic(ctx, in.data(), bpp, bytes, out.data(), bound);
	stenos_destroy_context(ctx);
	if (stenos_has_error(r)) {
		H.stats["compression_refused"]++;
		if (shift == STENOS_NO_BLOCK_SHIFT) H.fail("compression failed %lld", (long long)r);
		return;
	}
	stenos_info full;
	size_t hs = stenos_get_info(out.data(), bpp, r, &full);
	if (stenos_has_error(hs)) { H.fail("error %lld for a complete frame", (long long)hs); return; }
	if (full.decompressed_size != bytes) { H.fail("decompressed_size %zu instead of %zu", full.decompressed_size, bytes); return; }
	if (hs > r) { H.fail("header of %zu bytes in a frame of %zu bytes", hs, r); return; }
	size_t sb = full.superblock_size;
	if (sb == 0 || sb % (256 * bpp)) { H.fail("superblock size %zu", sb); return; }
	if (shift != STENOS_NO_BLOCK_SHIFT && !ns && sb != (256 * bpp) << shift) { H.fail("superblock size %zu with a block shift of %zu", sb, shift); return; }
	// the chain that starts right after the header must hold exactly ceil(bytes / superblock size) superblocks and end with the frame
	size_t p = hs, count = 0, want = bytes ? (bytes + sb - 1) / sb : 0;
	while (p < r) {
		if (p + 4 > r) { H.fail("superblock chain does not end with the frame"); return; }
		size_t cs = out[p + 1] | out[p + 2] << 8 | out[p + 3] << 16;
		if (out[p] == 6) {
			size_t d = count + 1 == want ? bytes - count * sb : sb;
			if (cs != d) { H.fail("stored superblock %zu holds %zu bytes, superblock size is %zu", count, cs, sb); return; }
			H.stats["stored_superblocks"]++;
		}
		p += 4 + cs;
		++count;
	}
	if (p != r || count != want) { H.fail("%zu superblocks in the frame, %zu bytes / superblock size %zu", count, bytes, sb); return; }
	// every prefix
	for (size_t n = 0; n <= std::min<size_t>(r, 40); ++n) {
		stenos_info i;
		size_t x = info(out.data(), n, bpp, &i);
		if (n < hs) {
			if (!stenos_has_error(x)) { H.fail("prefix of %zu bytes (header is %zu): returned %zu", n, hs, x); return; }
		}
		else if (x != hs || i.decompressed_size != bytes || i.superblock_size != sb) { H.fail("prefix of %zu bytes: returned %lld, size %zu, superblock %zu", n, (long long)x, i.decompressed_size, i.superblock_size); return; }
		H.stats["prefixes"]++;
	}
	stenos_info i;
	for (size_t bad : { (size_t)0, (size_t)65535, (size_t)65536, (size_t)1 << 32, (size_t)-1 })
		if (!stenos_has_error(info(out.data(), std::min<size_t>(r, 40), bad, &i))) { H.fail("element size %zu accepted", bad); return; }
	H.distinct.insert(vh::hash_bytes(out.data(), hs, bpp));
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	const size_t NO = STENOS_NO_BLOCK_SHIFT;
	for (size_t bpp : { 1, 2, 3, 4, 8, 12, 100, 511, 512, 513, 1024, 4096 })
		for (int level = 0; level <= 9; ++level)
			for (size_t l : { (size_t)0, (size_t)1, (size_t)127, (size_t)128, 256 * bpp, 256 * bpp + 1, (size_t)131072, (size_t)131071, (size_t)131073, (size_t)262144 + 5, (size_t)600000 })
				for (int kind : { (int)gen::PLANES, (int)gen::RANDOM }) {
					if (level >= 6 && (l > 300000 || bpp == 3 || bpp == 12) && !H.thorough) continue;
					frame_case(bpp, l, kind, level, NO, 1, 0);
				}
	for (size_t bpp : { 1, 2, 4, 7, 16, 255, 256, 257 })
		for (size_t shift = 0; shift <= 15; ++shift)
			for (int level : { 0, 1, 2 })
				for (size_t l : { (size_t)0, (size_t)50, 256 * bpp, (256 * bpp) << (shift < 9 ? shift : 2), ((256 * bpp) << (shift < 7 ? shift : 2)) * 2 + 3 }) {
					if (l > 700000) continue;
					for (int threads : { 1, 3 }) frame_case(bpp, l, gen::RANDOM, level, shift, threads, 0);
				}
	for (size_t bpp : { 1, 4, 100, 1000 })
		for (uint64_t ns : { 1ull, 1000000000000ull })
			for (int threads : { 1, 2 })
				for (size_t l : { (size_t)0, (size_t)1000, (size_t)131072, (size_t)400000, (size_t)9000000 }) frame_case(bpp, l, gen::RANDOM, 1, NO, threads, ns);
	for (int level = 0; level <= 9; ++level)
		for (size_t bpp : { 1, 3, 8 })
			for (size_t l : { (size_t)3000000, (size_t)2097152 }) {
				if (level > 5 && !H.thorough) continue;
				frame_case(bpp, l, gen::ZERO, level, NO, 1, 0);
				frame_case(bpp, l, gen::SPARSE, level, NO, 1, 0);
			}
	frame_case(65534, 65534 * 256, gen::ZERO, 1, NO, 1, 0);
	frame_case(65534, 65534 * 257, gen::ZERO, 9, NO, 1, 0);
	// every first byte x prefix length x element size x announced sizes
	for (size_t bpp : { (size_t)1, (size_t)2, (size_t)511, (size_t)512, (size_t)513, (size_t)65534, (size_t)0, (size_t)65535, (size_t)-1 })
		for (unsigned first = 0; first < 256; first += 16) {
			if (!H.begin("headers bpp=%zu first=%u..", bpp, first)) continue;
			bool ok = true;
			for (unsigned a = first; ok && a < first + 16; ++a)
				for (size_t n = 0; ok && n <= 16; ++n)
					for (int pat = 0; ok && pat < 20; ++pat) {
						uint8_t f[16];
						vh::Rng r(pat);
						for (int k = 0; k < 16; ++k) f[k] = pat == 0 ? 0 : pat == 1 ? 255 : r.byte();
						f[0] = (uint8_t)a;
						stenos_info i;
						size_t x = info(f, n, bpp, &i);
						bool valid_shift = a <= 4 || a == 255, valid_bpp = bpp > 0 && bpp < 65535;
						size_t hs = a == 255 ? 12 : 8;
						H.stats["headers"]++;
						if (!valid_shift || !valid_bpp || n < hs) {
							if (!stenos_has_error(x)) { H.fail("first byte %u, %zu bytes, element size %zu: accepted (%zu)", a, n, bpp, x); ok = false; }
						}
						else if (!stenos_has_error(x)) {
							uint64_t sz = 0, sbs = 0;
							for (int k = 0; k < 7; ++k) sz |= (uint64_t)f[1 + k] << (8 * k);
							for (int k = 0; k < 4; ++k) sbs |= (uint64_t)f[8 + k] << (8 * k);
							if (x != hs || i.decompressed_size != sz || (a == 255 && i.superblock_size != sbs)) { H.fail("first byte %u: returned %zu size %zu superblock %zu", a, x, i.decompressed_size, i.superblock_size); ok = false; }
						}
					}
		}
	return H.finish();
}
