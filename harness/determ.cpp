// C21: the frame depends on the input and the parameters only. Every input is compressed again with other memory contents (heap, stack,
// destination, bytes around the source), other alignments, other numbers of threads and contexts that have another history.
#include "codec_inputs.hpp"
#include "stenos/stenos.h"
#include <cerrno>

// heap blocks are filled with g_fill
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_memalign(size_t, size_t);
static volatile int g_fill = 0;
extern "C" void* malloc(size_t n)
{
	void* p = __libc_malloc(n);
	if (p) memset(p, g_fill, n);
	return p;
}
extern "C" int posix_memalign(void** r, size_t a, size_t n)
{
	void* p = __libc_memalign(a, n);
	if (!p) return ENOMEM;
	memset(p, g_fill, n);
	*r = p;
	return 0;
}
extern "C" void* aligned_alloc(size_t a, size_t n)
{
	void* p = nullptr;
	return posix_memalign(&p, a, n) ? nullptr : p;
}
extern "C" void* memalign(size_t a, size_t n) { return aligned_alloc(a, n); }

__attribute__((noinline)) static void dirty_stack(int v)
{
	// small numbers: they would pass for positions, lengths and counters
	volatile uint16_t b[100000];
	for (size_t i = 0; i < 100000; ++i) b[i] = v ? (uint16_t)((i * 7 + (unsigned)v) & (v & 1 ? 0xFF : 0x3F)) : 0;
	asm volatile("" : : "r"(b) : "memory");
}

struct Variant { const char* name; int fill; size_t src_off, dst_off; int around; int ctx; int threads; }; // ctx: 0 none (or a new one), 1 used one
static const Variant variants[] = {
	{ "reference", 0, 0, 0, 0, 0, 1 },
	{ "other memory contents and alignment", 0xA5, 1, 3, 0xFF, 0, 1 },
	{ "a used context", 0x3C, 5, 0, 0x11, 1, 1 },
	{ "3 threads", 0xFF, 0, 1, 0x80, 0, 3 },
	{ "a used context with 2 threads", 0x01, 8, 7, 0x7F, 1, 2 },
	{ "5 threads", 0x99, 3, 2, 0x00, 0, 5 },
};
static stenos_context* used[6];
static std::vector<uint8_t> sbuf, dbuf, firsts[2]; // frames made with one thread, with several

static void same(const uint8_t* in, size_t bytes, size_t bpp, int level, size_t shift)
{
	size_t cap = stenos_bound(bytes) + (shift == STENOS_NO_BLOCK_SHIFT ? 0 : 16 + 4 * (bytes / ((bpp * 256) << shift) + 1));
	bool threads = bytes > 40000;
	for (size_t k = 0; k < sizeof variants / sizeof variants[0]; ++k) {
		const Variant& v = variants[k];
		if (v.threads > 1 && !threads) continue;
		sbuf.assign(bytes + 300, (uint8_t)v.around);
		uint8_t* s = sbuf.data() + 64 + v.src_off;
		if (bytes) memcpy(s, in, bytes);
		dbuf.assign(cap + 64, (uint8_t)v.around);
		uint8_t* d = dbuf.data() + v.dst_off;
		g_fill = v.fill;
		size_t r;
		bool plain = k == 0 || (k == 1 && shift == STENOS_NO_BLOCK_SHIFT);
		if (plain && shift == STENOS_NO_BLOCK_SHIFT) {
			dirty_stack(v.fill);
			r = stenos_compress(s, bpp, bytes, d, cap, level);
		}
		else {
			stenos_context* c = v.ctx ? used[k] : stenos_make_context();
			stenos_set_level(c, level);
			stenos_set_threads(c, v.threads);
			stenos_set_block_size(c, shift);
			dirty_stack(v.fill);
			r = stenos_compress_generic(c, s, bpp, bytes, d, cap);
			if (!v.ctx) stenos_destroy_context(c);
		}
		g_fill = 0;
		H.stats["compressions"]++;
		if (stenos_has_error(r)) { H.fail("%s: compression failed (%lld)", v.name, (long long)r); return; }
		std::vector<uint8_t>& first = firsts[v.threads > 1];
		if (k == 0 || k == 3) { first.assign(d, d + r); continue; }
		if (r != first.size()) { H.fail("%s: the frame has %zu bytes instead of %zu", v.name, r, first.size()); return; }
		if (memcmp(d, first.data(), r)) {
			size_t i = 0;
			while (d[i] == first[i]) ++i;
			H.fail("%s: byte %zu of %zu of the frame is %u instead of %u", v.name, i, r, d[i], first[i]);
			return;
		}
	}
	H.distinct.insert(vh::hash_bytes(firsts[0].data(), std::min<size_t>(firsts[0].size(), 256), firsts[0].size()));
}

static void roundtrip(const uint8_t* in, size_t bytes, size_t bpp, int level) { same(in, bytes, bpp, level, STENOS_NO_BLOCK_SHIFT); }

static void section_shifts()
{
	for (size_t shift : { 0, 1, 3, 6 })
		for (size_t bpp : { 1, 2, 4, 7, 8, 40 })
			for (int kind = 0; kind < gen::NKINDS; ++kind)
				for (int level : { 0, 1, 2, 3, 6, 9 }) {
					if (level == 9 && !H.thorough && kind % 4) continue;
					size_t sb = (bpp * 256) << shift;
					for (size_t bytes : { sb - 1, sb, sb * 3 + bpp * 17 + 1, std::min<size_t>(sb * 40, 150000) }) {
						if (bytes > 300000) continue;
						if (!H.begin("S shift=%zu bpp=%zu bytes=%zu kind=%s level=%d", shift, bpp, bytes, gen::names[kind], level)) continue;
						src.resize(bytes);
						gen::fill(src.data(), bytes, bpp, kind, shift + 1);
						same(src.data(), bytes, bpp, level, shift);
					}
				}
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	REDUCED = true;
	for (auto& c : used) c = stenos_make_context();
	section_rows();
	section_partial();
	section_repeat();
	section_far();
	section_shifts();
	section_lengths();
	for (auto& c : used) stenos_destroy_context(c);
	return H.finish();
}
