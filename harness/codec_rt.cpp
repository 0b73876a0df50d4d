// C01: exhaustive enumeration of input families x element sizes x lengths x levels, round trip through the public API.
#include "codec_inputs.hpp"
#include "stenos/stenos.h"

static std::vector<uint8_t> dst, back;

// walk the superblock chain of a frame and count the superblock kinds seen
static void classify(const uint8_t* f, size_t size, size_t bytes)
{
	if (size < 8 || bytes == 0) { H.stats["frames_empty"]++; return; }
	size_t p = 8;
	if (f[0] == 255) p = 12;
	uint64_t sig = f[0];
	int n = 0;
	while (p + 4 <= size && n < 8) {
		unsigned code = f[p], cs = f[p + 1] | f[p + 2] << 8 | f[p + 3] << 16;
		char b[32];
		snprintf(b, sizeof b, "superblock_code_%u", code);
		H.stats[b]++;
		sig = sig * 31 + code;
		if (code == 1 && cs > 1) sig = sig * 257 + f[p + 4] + 7 * (cs > 5 ? f[p + 5] : 0);
		p += 4 + cs;
		++n;
	}
	H.distinct.insert(sig * 1000003 + (bytes % 4099));
}

static void roundtrip(const uint8_t* in, size_t bytes, size_t bpp, int level)
{
	size_t bound = stenos_bound(bytes);
	dst.resize(bound + 64);
	memset(dst.data() + bound, 0xA5, 64);
	size_t r = stenos_compress(in, bpp, bytes, dst.data(), bound, level);
	if (stenos_has_error(r)) { H.fail("compression into stenos_bound() bytes failed: %lld", (long long)r); return; }
	if (r > bound) { H.fail("compressed size %zu exceeds the bound %zu", r, bound); return; }
	for (int i = 0; i < 64; ++i)
		if (dst[bound + i] != 0xA5) { H.fail("write beyond the destination"); return; }
	classify(dst.data(), r, bytes);
	back.resize(bytes + 64);
	memset(back.data(), 0xEE, bytes + 64);
	size_t d = stenos_decompress(dst.data(), bpp, r, back.data(), bytes);
	if (d != bytes) { H.fail("decompression returned %lld instead of %zu", (long long)d, bytes); return; }
	if (memcmp(back.data(), in, bytes) != 0) {
		size_t i = 0;
		while (back[i] == in[i]) ++i;
		H.fail("decompressed byte %zu differs: %u instead of %u", i, back[i], in[i]);
		return;
	}
	for (int i = 0; i < 64; ++i)
		if (back[bytes + i] != 0xEE) { H.fail("write beyond the decompression destination"); return; }
	H.stats["bytes"] += bytes;
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	section_rows();
	section_partial();
	section_repeat();
	section_far();
	section_lengths();
	return H.finish();
}
