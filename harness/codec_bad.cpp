// C04: every truncation, every single-byte change and structured malformed frames, decoded between inaccessible pages.
#include "gen.hpp"
#include "guard.hpp"
#include "stenos/stenos.h"
#include <zstd.h>

static guard::Buf F(200000), D(300000);
static stenos_context* ctx1;
static stenos_context* ctx3;
static uint64_t g_calls, g_accepted;

// decodes a frame given with exact bounds; returns false after a failure report
static bool decode(const uint8_t* frame, size_t n, size_t bpp, size_t dst_size, stenos_context* c = nullptr)
{
	uint8_t* f = F.make(n);
	if (n) memcpy(f, frame, n);
	uint8_t* d = D.make(dst_size);
	size_t r = stenos_decompress_generic(c ? c : ctx1, f, bpp, n, d, dst_size);
	++g_calls;
	if (!D.front_ok()) { H.fail("write before the destination (frame of %zu bytes, dst_size=%zu, bpp=%zu)", n, dst_size, bpp); return false; }
	if (!stenos_has_error(r)) {
		++g_accepted;
		if (r > dst_size) { H.fail("returned size %zu for dst_size=%zu", r, dst_size); return false; }
	}
	if (!F.front_ok() || (n && memcmp(f, frame, n) != 0)) { H.fail("the frame was modified"); return false; }
	return true;
}

struct Base {
	std::vector<uint8_t> f;
	size_t bpp, bytes;
	std::string name;
	std::vector<size_t> sb;  // superblock offsets
};
static std::vector<Base> bases;

static void add_base(size_t bpp, size_t bytes, int kind, int level, size_t shift, std::set<uint64_t>& seen)
{
	std::vector<uint8_t> in(bytes + 1), out(bytes * 2 + 1000);
	gen::fill(in.data(), bytes, bpp, kind, bytes % 5);
	stenos_context* c = stenos_make_context();
	stenos_set_level(c, level);
	if (shift != STENOS_NO_BLOCK_SHIFT) stenos_set_block_size(c, shift);
	size_t r = stenos_compress_generic(c, in.data(), bpp, bytes, out.data(), out.size());
	stenos_destroy_context(c);
	if (stenos_has_error(r)) return;
	out.resize(r);
	Base b;
	b.f = out; b.bpp = bpp; b.bytes = bytes;
	char nm[100];
	snprintf(nm, sizeof nm, "bpp%zu-%zu-%s-l%d-s%ld", bpp, bytes, gen::names[kind], level, (long)shift);
	b.name = nm;
	size_t p = out[0] == 255 ? 12 : 8;
	uint64_t sig = bpp * 7 + (bytes % (256 * bpp) ? 1 : 0);
	while (p + 4 <= r) {
		b.sb.push_back(p);
		sig = sig * 17 + out[p];
		// block kinds: first body byte
		if (out[p] == 1 && p + 4 < r) sig = sig * 263 + out[p + 4];
		if (out[p] == 1 && p + 5 < r && bpp > 1) sig = sig * 263 + (out[p + 5] & 0xF);
		p += 4 + (out[p + 1] | out[p + 2] << 8 | out[p + 3] << 16);
	}
	if (!seen.insert(sig).second) return;
	bases.push_back(b);
}

static void build_bases()
{
	std::set<uint64_t> seen;
	for (size_t bpp : { 1, 2, 3, 4, 8, 16 })
		for (int kind = 0; kind < gen::NKINDS; ++kind)
			for (int level : { 1, 2, 0, 4, 9 }) {
				size_t blk = 256 * bpp;
				for (size_t bytes : { (size_t)20, (size_t)130, blk, blk + 16 * bpp + 1, blk + 3 })
					if (bytes < 5000) add_base(bpp, bytes, kind, level, STENOS_NO_BLOCK_SHIFT, seen);
				if (level <= 2 && bpp <= 8) {
					add_base(bpp, 2 * blk + 30, kind, level, 0, seen);
					add_base(bpp, 3 * blk, kind, level, 0, seen);
				}
			}
	// transposed zstd needs slow and high levels with more elements
	for (size_t bpp : { 2, 4, 8 })
		for (int kind : { (int)gen::WALK, (int)gen::SMOOTH, (int)gen::RAMP, (int)gen::RUNS, (int)gen::PLANES })
			for (int level : { 3, 5, 9 }) add_base(bpp, 256 * bpp * 4, kind, level, STENOS_NO_BLOCK_SHIFT, seen);
}

static void mutate_base(const Base& b, bool deep)
{
	std::vector<uint8_t> m;
	const size_t n = b.f.size();
	H.distinct.insert(vh::hash_bytes(b.f.data(), n));
	// all truncations, exact and larger destinations
	for (size_t t0 = 0; t0 < n; t0 += 256) {
		if (!H.begin("trunc %s %zu..", b.name.c_str(), t0)) continue;
		for (size_t t = t0; t < std::min(n, t0 + 256); ++t)
			if (!decode(b.f.data(), t, b.bpp, b.bytes) || !decode(b.f.data(), t, b.bpp, b.bytes + 40, ctx3)) break;
	}
	// destination sizes and element sizes
	if (H.begin("bpp %s", b.name.c_str()))
		for (size_t bpp = 0; bpp <= 40; ++bpp)
			for (size_t d : { b.bytes, b.bytes + 1, b.bytes + 1000 })
				if (!decode(b.f.data(), n, bpp, d)) break;
	for (size_t bpp : { (size_t)255, (size_t)256, (size_t)4096, (size_t)65534, (size_t)65535, (size_t)65536, (size_t)1 << 40, (size_t)-1 }) {
		if (!H.begin("hugebpp %s %zu", b.name.c_str(), bpp)) continue;
		decode(b.f.data(), n, bpp, b.bytes);
		decode(b.f.data(), n, bpp, b.bytes, ctx3);
	}
	// every value of every byte near the structures, selected values elsewhere
	for (size_t pos = 0; pos < n; ++pos) {
		bool near = pos < 12;
		size_t dist = 1000000;
		for (size_t s : b.sb) if (pos >= s) dist = std::min(dist, pos - s);
		if (dist < (deep ? 400u : 40u)) near = true;
		if (!near && !H.thorough && n > 1500 && pos % 5) continue;
		if (!H.begin("byte %s pos=%zu", b.name.c_str(), pos)) continue;
		m = b.f;
		std::vector<uint8_t> vals;
		if (near) for (int v = 0; v < 256; ++v) vals.push_back((uint8_t)v);
		else for (uint8_t x : { 1, 2, 4, 8, 16, 32, 64, 128, 255, 0x0F, 0xF0 }) vals.push_back(m[pos] ^ x);
		vals.push_back(0); vals.push_back(255); vals.push_back((uint8_t)(b.f[pos] + 1)); vals.push_back((uint8_t)(b.f[pos] - 1));
		for (uint8_t v : vals) {
			m[pos] = v;
			if (!decode(m.data(), n, b.bpp, b.bytes)) break;
			if (pos < 12 || (v & 31) == 5) {
				if (!decode(m.data(), n, b.bpp, b.bytes + 333, ctx3)) break;
				// the size field may now announce less: also with a shorter frame
				if (!decode(m.data(), n - 1, b.bpp, b.bytes)) break;
			}
		}
	}
	// pairs in the header of each superblock (code, csize) and of the frame
	if (H.begin("hdrpairs %s", b.name.c_str())) {
		bool ok = true;
		for (size_t s : b.sb)
			for (int code = 0; ok && code < 9; ++code)
				for (int cs = 0; ok && cs < 300; ++cs) {
					m = b.f;
					m[s] = (uint8_t)code;
					size_t c = m[s + 1] | m[s + 2] << 8 | m[s + 3] << 16;
					size_t v = cs < 100 ? (size_t)cs : cs < 200 ? c + 50 - (cs - 100) : (size_t)1 << (cs % 24);
					m[s + 1] = (uint8_t)v; m[s + 2] = (uint8_t)(v >> 8); m[s + 3] = (uint8_t)(v >> 16);
					ok = decode(m.data(), n, b.bpp, b.bytes) && (cs % 7 || decode(m.data(), n, b.bpp, b.bytes, ctx3));
				}
	}
	if (H.begin("sizes %s", b.name.c_str())) {
		bool ok = true;
		// announced size and superblock size
		for (size_t sz = 0; ok && sz < 4 * 256 * b.bpp + 600; sz += (sz < 40 ? 1 : b.bpp > 4 ? 13 : 3))
			for (size_t sbs : { (size_t)0, (size_t)1, (size_t)2, b.bpp, 255 * b.bpp, 256 * b.bpp, 256 * b.bpp + 1, 512 * b.bpp, (size_t)0xFFFFFF, (size_t)0x1000000, (size_t)0xFFFFFFFF }) {
				m.assign(12, 0);
				m[0] = 255;
				for (int i = 0; i < 7; ++i) m[1 + i] = (uint8_t)(sz >> (8 * i));
				for (int i = 0; i < 4; ++i) m[8 + i] = (uint8_t)(sbs >> (8 * i));
				m.insert(m.end(), b.f.begin() + (b.f[0] == 255 ? 12 : 8), b.f.end());
				if (!(ok = decode(m.data(), m.size(), b.bpp, sz))) break;
				if (sz % 7 == 0 && !(ok = decode(m.data(), m.size(), b.bpp, sz, ctx3))) break;
			}
	}
	// the same block stream, changed, inside a valid zstd superblock
	if (b.sb.size() && b.f[b.sb[0]] == 1) {
		size_t s = b.sb[0], cs = b.f[s + 1] | b.f[s + 2] << 8 | b.f[s + 3] << 16;
		std::vector<uint8_t> body(b.f.begin() + s + 4, b.f.begin() + s + 4 + cs), z;
		for (size_t pos = 0; pos <= cs; ++pos) {
			if (!H.thorough && !deep && pos > 60 && pos % 7) continue;
			if (!H.begin("inzstd %s pos=%zu", b.name.c_str(), pos)) continue;
			bool ok = true;
			for (int k = 0; ok && k < (pos < 24 && deep ? 257 : 14); ++k) {
				std::vector<uint8_t> mb = body;
				if (pos == cs) { mb.resize(cs + k, (uint8_t)(k * 37)); }
				else if (k == 0) mb.resize(pos);
				else if (pos < 24 && deep) mb[pos] = (uint8_t)(k - 1);
				else mb[pos] ^= k <= 8 ? (uint8_t)(1 << (k - 1)) : (uint8_t)(k == 9 ? 0xFF : k == 10 ? 0x0F : k == 11 ? 0xF0 : k == 12 ? 0x7F : 0x55);
				z.resize(ZSTD_compressBound(mb.size()));
				z.resize(ZSTD_compress(z.data(), z.size(), mb.data(), mb.size(), 1));
				m.assign(b.f.begin(), b.f.begin() + s);
				m.push_back(5);
				m.push_back((uint8_t)z.size()); m.push_back((uint8_t)(z.size() >> 8)); m.push_back((uint8_t)(z.size() >> 16));
				m.insert(m.end(), z.begin(), z.end());
				m.insert(m.end(), b.f.begin() + s + 4 + cs, b.f.end());
				ok = decode(m.data(), m.size(), b.bpp, b.bytes);
			}
		}
	}
}

// superblocks with short bodies, exhaustively
static void synthetic()
{
	std::vector<uint8_t> m;
	auto frame = [&](size_t size, int code, size_t cs) {
		m.assign(8, 0);
		for (int i = 0; i < 7; ++i) m[1 + i] = (uint8_t)(size >> (8 * i));
		m.push_back((uint8_t)code);
		m.push_back((uint8_t)cs); m.push_back((uint8_t)(cs >> 8)); m.push_back((uint8_t)(cs >> 16));
	};
	// every frame of 0..2 bytes, every first byte of a short frame
	if (H.begin("tiny")) {
		uint8_t t[16];
		bool ok = decode(t, 0, 1, 10) && decode(t, 0, 4, 0);
		for (int a = 0; ok && a < 256; ++a)
			for (int b = 0; ok && b < 256; ++b) {
				memset(t, 0, sizeof t);
				t[0] = (uint8_t)a; t[1] = (uint8_t)b;
				for (size_t n : { 1, 2, 8, 9, 11, 12, 13, 15, 16 }) if (!(ok = decode(t, n, 2, 600))) break;
			}
	}
	for (int code = 0; code <= 7; ++code)
		for (size_t bpp : { 1, 2, 3, 4, 8 })
			for (size_t size : { (size_t)1, (size_t)16 * bpp, (size_t)17 * bpp + 1, 256 * bpp - 1, 256 * bpp, 256 * bpp + 1, 512 * bpp })
				for (size_t cs = 0; cs <= 3; ++cs)
					for (unsigned hi = 0; hi < (cs >= 2 ? 16u : 1u); ++hi) {
						if (code != 1 && cs > 2) continue;
						if (!H.begin("short code=%d bpp=%zu size=%zu cs=%zu hi=%u", code, bpp, size, cs, hi)) continue;
						frame(size, code, cs);
						m.resize(12 + cs);
						unsigned total = cs == 0 ? 1 : cs == 1 ? 256 : cs == 2 ? 4096 : 4096 * 3;
						for (unsigned v = 0; v < total; ++v) {
							if (cs == 1) m[12] = (uint8_t)v;
							else if (cs >= 2) { m[12] = (uint8_t)(hi * 16 + (v & 15)); m[13] = (uint8_t)(v >> 4); if (cs == 3) { m[13] = (uint8_t)(v >> 4 & 255); m[14] = (uint8_t)((v >> 12) * 0x7F + 1); } }
							if (!decode(m.data(), m.size(), bpp, size)) break;
						}
					}
	// block bodies: every pair of first bytes x fill x body size
	for (size_t bpp : { 1, 2, 3, 4 })
		for (size_t cs : { (size_t)5, (size_t)9, (size_t)10, (size_t)18, (size_t)33, 128 * bpp, 256 * bpp - 1, 256 * bpp, 256 * bpp + 1, 256 * bpp + 20 })
			for (int fillv = 0; fillv < (H.thorough ? 9 : 6); ++fillv)
				for (int wrap = 0; wrap < 2; ++wrap)
					for (unsigned a0 = 0; a0 < 256; a0 += 16) {
						if (!H.begin("blockbody bpp=%zu cs=%zu fill=%d zstd=%d first=%u", bpp, cs, fillv, wrap, a0)) continue;
						std::vector<uint8_t> body(cs);
						static const uint8_t fills[] = { 0, 0xFF, 0x11, 0x88, 0x77, 0, 0xF1, 0x5A, 0xDD };
						vh::Rng r(fillv);
						for (auto& x : body) x = fillv == 5 ? r.byte() : fills[fillv];
						bool ok = true;
						for (unsigned a = a0; ok && a < a0 + 16; ++a)
							for (unsigned b = 0; ok && b < 256; ++b) {
								if (wrap && b % 5) continue;
								body[0] = (uint8_t)a; body[1] = (uint8_t)b;
								for (size_t size : { 256 * bpp, 300 * bpp + 1 }) {
									if (wrap) {
										std::vector<uint8_t> z(ZSTD_compressBound(cs));
										z.resize(ZSTD_compress(z.data(), z.size(), body.data(), cs, 1));
										frame(size, 5, z.size());
										m.insert(m.end(), z.begin(), z.end());
									}
									else {
										frame(size, 1, cs);
										m.insert(m.end(), body.begin(), body.end());
									}
									if (!(ok = decode(m.data(), m.size(), bpp, size))) break;
								}
							}
					}
	// zstd superblocks whose content has another size
	for (size_t bpp : { 1, 2, 4, 7 })
		for (int code = 2; code <= 5; ++code) {
			if (!H.begin("zstdsize bpp=%zu code=%d", bpp, code)) continue;
			bool ok = true;
			for (size_t content = 0; ok && content < 131072 + 3000; content = content < 3000 ? content + 1 : content * 2 - 1)
				for (size_t size : { (size_t)1, (size_t)127, 256 * bpp, 256 * bpp + 7, 2000 * bpp }) {
					std::vector<uint8_t> c(content), z(ZSTD_compressBound(content));
					for (size_t i = 0; i < content; ++i) c[i] = (uint8_t)(i * i >> 3);
					z.resize(ZSTD_compress(z.data(), z.size(), c.data(), content, 1));
					frame(size, code, z.size());
					m.insert(m.end(), z.begin(), z.end());
					if (m.size() > 150000) continue;
					if (!(ok = decode(m.data(), m.size(), bpp, size))) break;
				}
		}
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	ctx1 = stenos_make_context();
	ctx3 = stenos_make_context();
	stenos_set_threads(ctx3, 3);
	build_bases();
	size_t i = 0;
	for (auto& b : bases) mutate_base(b, H.thorough || i++ % 4 == 0);
	synthetic();
	H.stats["base_frames"] = H.shard == 0 ? bases.size() : 0;
	H.stats["decodes"] = g_calls;
	H.stats["accepted"] = g_accepted;
	for (auto& b : bases)
		if (H.shard == 0) for (size_t s : b.sb) H.stats["base_superblock_code_" + std::to_string(b.f[s])]++;
	return H.finish();
}
