// Deterministic input families for the codec harnesses.
#pragma once
#include "common.hpp"

namespace gen {
enum { ZERO, RAMP, RANDOM, LOW, PLANES, RUNS, TEXT, SMOOTH, SPARSE, PERIOD3, HALVES, WALK, MIXED, ALT, NKINDS };
static const char* const names[NKINDS] = { "zero", "ramp", "random", "low", "planes", "runs", "text", "smooth", "sparse", "period3", "halves", "walk", "mixed", "alt" };

inline void put(uint8_t* p, size_t bytes, size_t bpp, size_t i, uint64_t v)
{
	size_t off = i * bpp;
	for (size_t b = 0; b < bpp && off + b < bytes; ++b) p[off + b] = (uint8_t)(b < 8 ? v >> (8 * b) : 0);
}

inline void fill(uint8_t* p, size_t bytes, size_t bpp, int kind, uint64_t seed, size_t first = 0)
{
	vh::Rng r(seed * 131 + kind);
	size_t n = (bytes + bpp - 1) / bpp;
	switch (kind) {
		case ZERO: memset(p, 0, bytes); break;
		case RAMP:
			for (size_t i = 0; i < n; ++i) put(p, bytes, bpp, i, first + i + seed);
			break;
		case RANDOM:
			for (size_t i = 0; i < bytes; ++i) p[i] = r.byte();
			break;
		case LOW:
			for (size_t i = 0; i < bytes; ++i) p[i] = (uint8_t)(100 + (r.byte() & 3));
			break;
		case PLANES: {
			std::vector<uint8_t> walk(bpp, 0);
			for (size_t i = 0; i < n; ++i)
				for (size_t b = 0; b < bpp && i * bpp + b < bytes; ++b) {
					uint8_t v = 0;
					switch (b % 9) {
						case 0: v = r.byte(); break;
						case 1: v = 7; break;
						case 2: v = (uint8_t)(i * 3); break;
						case 3: v = (uint8_t)(250 + (r.byte() & 7)); break;
						case 4: v = (uint8_t)((i / 5) * 37); break;
						case 5: v = walk[b] = (uint8_t)(walk[b] + (r.byte() & 3)); break;
						case 6: v = (r.byte() == 0) ? r.byte() : 0; break;
						case 7: v = (i & 1) ? 255 : 0; break;
						case 8: v = ((i / 16) & 1) ? r.byte() : (uint8_t)i; break;
					}
					p[i * bpp + b] = v;
				}
			break;
		}
		case RUNS: {
			size_t i = 0;
			while (i < n) {
				size_t len = 1 + r.below(40);
				uint64_t v = r.next() & 0xFFFFFF;
				for (; len && i < n; --len, ++i) put(p, bytes, bpp, i, v);
			}
			break;
		}
		case TEXT: {
			static const char* w[] = { "the ", "compress", "ion ", "of ", "binary ", "data, ", "stenos ", "0123456789 ", "\n", "zstd", "and so on; " };
			size_t i = 0;
			while (i < bytes) {
				const char* s = w[r.below(11)];
				for (; *s && i < bytes; ++s, ++i) p[i] = (uint8_t)*s;
			}
			break;
		}
		case SMOOTH: {
			int64_t v = 1000000, d = 17;
			for (size_t i = 0; i < n; ++i) {
				d += (int64_t)r.below(5) - 2;
				v += d;
				put(p, bytes, bpp, i, (uint64_t)v);
			}
			break;
		}
		case SPARSE:
			memset(p, 0, bytes);
			for (size_t i = 0; i < n; ++i)
				if (r.below(29) == 0) put(p, bytes, bpp, i, r.next());
			break;
		case PERIOD3: {
			uint64_t v[3] = { r.next(), r.next(), r.next() };
			for (size_t i = 0; i < n; ++i) put(p, bytes, bpp, i, v[i % 3]);
			break;
		}
		case HALVES:
			memset(p, 0x5A, bytes);
			for (size_t i = 0; i < n; ++i)
				if ((i / 256) & 1)
					for (size_t b = 0; b < bpp && i * bpp + b < bytes; ++b) p[i * bpp + b] = r.byte();
			break;
		case WALK: {
			std::vector<uint8_t> w(bpp, 0);
			for (size_t i = 0; i < n; ++i)
				for (size_t b = 0; b < bpp && i * bpp + b < bytes; ++b) {
					w[b] = (uint8_t)(w[b] + r.below(1 + (unsigned)(b % 7) * 9) - (unsigned)(b % 7) * 4);
					p[i * bpp + b] = w[b];
				}
			break;
		}
		case MIXED: {
			// a different family in each 256-element block
			size_t bs = 256 * bpp;
			for (size_t off = 0, k = 0; off < bytes; off += bs, ++k) {
				int sub = (int)((k * 5 + seed) % MIXED);
				fill(p + off, std::min(bs, bytes - off), bpp, sub, seed + k);
			}
			break;
		}
		case ALT:
			for (size_t i = 0; i < n; ++i) put(p, bytes, bpp, i, (i & 1) ? ~0ull : 0);
			break;
	}
}
}
