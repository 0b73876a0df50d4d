// C01, C13: inputs around 2^31 and 2^32 bytes. The middle of source and destination is a small file mapped many times,
// head and tail are memory of their own.
#include "common.hpp"
#include "stenos/stenos.h"

static const size_t EDGE = 32u << 20, PERIOD = 513 * 4096;

struct Virtual {
	uint8_t* p = nullptr;
	uint8_t* mid = nullptr; // the file
	size_t len = 0, nmid = 0;
	explicit Virtual(size_t bytes)
	{
		nmid = bytes > 2 * EDGE + PERIOD ? (bytes - 2 * EDGE) / PERIOD : 0;
		len = ((bytes + 4095) & ~(size_t)4095) + 4096;
		p = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == (uint8_t*)MAP_FAILED) abort();
		int fd = memfd_create("mid", 0);
		if (fd < 0 || ftruncate(fd, PERIOD)) abort();
		mid = (uint8_t*)mmap(nullptr, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (mid == (uint8_t*)MAP_FAILED) abort();
		for (size_t i = 0; i < nmid; ++i)
			if (mmap(p + EDGE + i * PERIOD, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
		close(fd);
		mprotect(p + len - 4096, 4096, PROT_NONE);
	}
	~Virtual() { munmap(p, len); munmap(mid, PERIOD); }
	size_t tail() const { return EDGE + nmid * PERIOD; }
};

static uint8_t content(size_t i) { uint64_t k = i / 4; return (uint8_t)(i % 4 == 0 ? k ^ k >> 9 : i % 4 == 1 ? k >> 13 : i % 4 == 2 ? k >> 21 : k >> 29); }

static void one(size_t bytes, size_t bpp, int level, int tc, int td)
{
	if (!H.begin("huge bytes=%zu bpp=%zu level=%d threads=%d,%d", bytes, bpp, level, tc, td)) return;
	Virtual in(bytes), out(bytes);
	for (size_t i = 0; i < EDGE && i < bytes; ++i) in.p[i] = content(i);
	for (size_t i = 0; in.nmid && i < PERIOD; ++i) in.mid[i] = content(EDGE + i);
	for (size_t i = in.tail(); i < bytes; ++i) in.p[i] = content(i);
	H.cur->counter = H.cur->counter + 1;
	size_t bound = stenos_bound(bytes);
	if (stenos_has_error(bound) || bound < bytes) { H.fail("stenos_bound(%zu) is %zu", bytes, bound); return; }
	uint8_t* dst = (uint8_t*)mmap(nullptr, bound + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (dst == (uint8_t*)MAP_FAILED) abort();
	stenos_context* c = stenos_make_context();
	stenos_set_level(c, level);
	stenos_set_threads(c, tc);
	size_t r = stenos_compress_generic(c, in.p, bpp, bytes, dst, bound);
	H.cur->counter = H.cur->counter + 1;
	do {
		if (stenos_has_error(r)) { H.fail("compression fails: %lld", (long long)r); break; }
		if (r > bound) { H.fail("%zu bytes, more than the bound %zu", r, bound); break; }
		stenos_info info;
		size_t h = stenos_get_info(dst, bpp, r, &info);
		if (stenos_has_error(h) || info.decompressed_size != bytes) { H.fail("stenos_get_info gives %llu bytes instead of %zu", (unsigned long long)info.decompressed_size, bytes); break; }
		stenos_context* d = stenos_make_context();
		stenos_set_threads(d, td);
		size_t bad = 0;
		for (size_t cap : { bytes - 1, bytes & 0xffffffffu, bytes & 0x7fffffffu, (size_t)0 })
			if (cap < bytes && !stenos_has_error(stenos_decompress_generic(d, dst, bpp, r, out.p, cap))) { H.fail("decompression into %zu bytes succeeds", cap); bad = 1; }
		H.cur->counter = H.cur->counter + 1;
		memset(out.p, 0x77, EDGE < bytes ? EDGE : bytes);
		for (size_t i = out.tail(); i < bytes; ++i) out.p[i] = 0x77;
		size_t q = stenos_decompress_generic(d, dst, bpp, r, out.p, bytes);
		H.cur->counter = H.cur->counter + 1;
		stenos_destroy_context(d);
		if (bad) break;
		if (q != bytes) { H.fail("decompression returns %lld", (long long)q); break; }
		if (memcmp(in.p, out.p, EDGE < bytes ? EDGE : bytes)) { H.fail("the first %zu bytes differ", EDGE); break; }
		if (memcmp(in.p + in.tail(), out.p + in.tail(), bytes - in.tail())) { H.fail("the last %zu bytes differ", bytes - in.tail()); break; }
		if (in.nmid && memcmp(in.mid, out.mid, PERIOD)) { H.fail("the middle differs"); break; }
		H.stats["huge_frames"]++;
		H.distinct.insert(vh::mix(r) ^ bytes);
	} while (0);
	stenos_destroy_context(c);
	munmap(dst, bound + 4096);
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	const size_t G2 = (size_t)1 << 31, G4 = (size_t)1 << 32;
	one(G4 + 1, 1, 0, 8, 1);
	one(G4 + 77, 4, 1, 8, 8);
	if (H.args == "info") return H.finish();
	std::vector<size_t> sizes = { G2 + 1, G4 - 1, G4 };
	if (H.thorough) for (size_t s : { G2 - 1, G2, G4 + 1, G4 + G2 + 5, 2 * G4 + 3 }) sizes.push_back(s);
	for (size_t s : sizes) one(s, 4, 1, s == G4 - 1 ? 1 : 8, s == G4 ? 1 : 4);
	one(G4 + 40, 8, 2, 8, 8);
	one(G4 + 4097, 65534, 1, 8, 8);
	if (H.thorough)
		for (int level : { 3, 5, 9 })
			for (size_t bpp : { 1, 3, 4 }) one(G4 + 131072 + 5, bpp, level, 8, 8);
	return H.finish();
}
