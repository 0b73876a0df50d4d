From 395a403be4a1a11b87f22d50cea6c72c9db775f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 01/47] fix: decompress frames whose size is a multiple of the
 superblock size

The last superblock was given a size of 0 when the input size was an exact
multiple of the superblock size, and decompression always failed.
---
 stenos/internal/stenos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 524d348..28acb51 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1128,7 +1128,7 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 
 			uint8_t code = *src++;
 			unsigned csize = stenos::read_uint32_3(src);
-			unsigned dsize = (i == super_block_count - 1) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
+			unsigned dsize = (i == super_block_count - 1 && super_block_remaining) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
 			src += 3;
 			if STENOS_UNLIKELY (src + csize > end_src || dst + dsize > end_dst)
 				return STENOS_ERROR_INVALID_INPUT;
@@ -1170,7 +1170,7 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 
 			uint8_t code = *src++;
 			unsigned csize = stenos::read_uint32_3(src);
-			unsigned dsize = (chunks - (size_t)i - 1 == 0) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
+			unsigned dsize = (chunks - (size_t)i - 1 == 0 && super_block_remaining) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
 			src += 3;
 			if STENOS_UNLIKELY (src + csize > end_src || dst + dsize > end_dst)
 				return STENOS_ERROR_INVALID_INPUT;
-- 
2.43.0


From 01f457157b142d1218710c37a7fb2a6a2eafbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 02/47] fix: write the superblock size in the frame header
 whenever the shift says so

Time limited compression uses a shift of 255 without writing the superblock
size that the decoder expects, making the frame undecodable. With a custom block
size and a shift of 4, the size was written but not expected.
---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 28acb51..f424638 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -865,7 +865,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	stenos::write_uint64_7(dst, bytes);
 	dst += 7;
 
-	if (opts->custom_blocksize_shift != STENOS_NO_BLOCK_SHIFT) {
+	if (opts->shift == 255) {
 		// Write custom superblock size
 		if STENOS_UNLIKELY (dst + 4 > dst_end)
 			return STENOS_ERROR_DST_OVERFLOW;
-- 
2.43.0


From 04f22286486472c064c13d8a24c4ce40aab4e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 03/47] fix: stenos_reset_context() resets the custom block
 size

---
 stenos/internal/stenos.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index f424638..863bd2c 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -245,9 +245,7 @@ void stenos_destroy_context(stenos_context* ctx)
 void stenos_reset_context(stenos_context* ctx)
 {
 	if (ctx) {
-		ctx->level = 1;
-		ctx->threads = 1;
-		ctx->t.nanoseconds = 0;
+		ctx->reset_parameters();
 	}
 }
 
-- 
2.43.0


From 2fa6502c67cb4a4280d66b54850909d7bf3203da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 04/47] fix: compress big elements at high levels

The superblock size got over its maximum for big element sizes and high levels,
and the compression failed with STENOS_ERROR_INVALID_PARAMETER.
---
 stenos/internal/stenos.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 863bd2c..2d92737 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -112,6 +112,14 @@ struct stenos_context_s
 		return (t.total_bytes - t.processed_bytes.load(std::memory_order_relaxed)) / remaining;
 	}
 
+	static int valid_shift(size_t size, int shift) noexcept
+	{
+		// Reduce the shift for big element sizes in order to stay below the maximum superblock size
+		while (shift && (size << (size_t)shift) >= STENOS_MAX_BLOCK_BYTES)
+			--shift;
+		return shift;
+	}
+
 	size_t prepare(size_t bytesoftype, size_t bytes) noexcept
 	{
 		// Prepare the compresson of given number of bytes
@@ -138,7 +146,7 @@ struct stenos_context_s
 				// Default strategy for level 9
 				new_superblock_size = stenos::super_block_size(block_size);
 				if (bytes > new_superblock_size) {
-					shift = (9 - 1) / 2;
+					shift = valid_shift(new_superblock_size, (9 - 1) / 2);
 					new_superblock_size = new_superblock_size << (size_t)shift;
 				}
 			}
@@ -158,7 +166,7 @@ struct stenos_context_s
 				// Compute superblock size
 				new_superblock_size = stenos::super_block_size(block_size);
 				if (bytes > new_superblock_size) {
-					shift = level ? (level - 1) / 2 : 0;
+					shift = valid_shift(new_superblock_size, level ? (level - 1) / 2 : 0);
 					new_superblock_size = new_superblock_size << (size_t)shift;
 				}
 			}
-- 
2.43.0


From d52177c5065c8311856d106d167ccbc2dfdeb9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 05/47] fix: reserve the whole partial block buffer

The buffer used for the last partial block of 256 elements holds 256 * bytesoftype
bytes but only 256 were reserved, writing beyond the allocation for elements of
19 bytes or more.
---
 stenos/internal/block_compress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 7e0f42a..41df1f0 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -319,15 +319,15 @@ namespace stenos
 				buffer = align_buffer(buffer);
 				this->arrays = reinterpret_cast<vector256*>(buffer);
 				this->partial_buffer = static_cast<char*>(buffer) + 256 * bytesoftype;
-				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype + 256);
-				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype);
+				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 2 * 256 * bytesoftype);
+				this->firsts = (static_cast<char*>(buffer) + 2 * 256 * bytesoftype + sizeof(PackBits) * bytesoftype);
 			}
 		};
 
 		// Size of internal compression buffer for given bytesoftype
 		static STENOS_ALWAYS_INLINE size_t compression_buffer_size(size_t bytesoftype) noexcept
 		{
-			return 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
+			return 2 * 256 * bytesoftype + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
 		}
 
 		// Bit scan reverse on 2 * 16 bytes
-- 
2.43.0


From 8a67dccb790af536552f0a07b5ac40a3585c2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 06/47] fix: do not read one byte beyond the input in RLE
 decoding

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 41df1f0..bde8c75 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1955,7 +1955,7 @@ namespace stenos
 			uint8_t has_first;
 			if STENOS_UNLIKELY (remaining < 16) {
 				has_first = (mask & 1);
-				memcpy(&buff, src - (mask & 1), remaining + 1);
+				memcpy(&buff, src - (mask & 1), remaining + (mask & 1));
 			}
 			else {
 				has_first = (mask & 1);
-- 
2.43.0


From 8b8fbd2e9f1a6afc626019c8715a2032346619af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 07/47] fix: check the input size when decoding copied blocks

---
 stenos/internal/block_compress.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index bde8c75..be55e96 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1822,6 +1822,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
@@ -2117,6 +2119,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
-- 
2.43.0


From adbb5289f77bef8748ac8869cadcdef717e0d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 08/47] fix: check input end and offsets when decoding LZ
 blocks

---
 stenos/internal/lz_compress.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/lz_compress.h b/stenos/internal/lz_compress.h
index fcdb889..65140b6 100644
--- a/stenos/internal/lz_compress.h
+++ b/stenos/internal/lz_compress.h
@@ -255,13 +255,16 @@ namespace stenos
 			for (uint8_t j = 0; j < 8; ++j) {
 				if ((anchor >> j) & 1) {
 					// Copy Bytes from offset in dst
+					if STENOS_UNLIKELY (in >= end)
+						return nullptr;
 					uint16_t offset = *in & 127U;
 					if (*in++ > 127U) {
 						if STENOS_UNLIKELY (in == end)
 							return nullptr;
 						offset |= ((*in++) << 7U);
 					}
-					STENOS_ASSERT_DEBUG(dst - offset * Bytes >= _dst, "");
+					if STENOS_UNLIKELY (offset == 0 || (size_t)(dst - _dst) < (size_t)offset * Bytes)
+						return nullptr;
 					dst = inline_memcpy<Bytes>(dst, dst - offset * Bytes);
 				}
 				else {
-- 
2.43.0


From 2f319d5b0d36a1a8eac30761263c60e63da08812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 09/47] fix: check for errors and input end in the scalar block
 decoder

---
 stenos/internal/block_compress.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index be55e96..a0bb528 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1684,7 +1684,11 @@ namespace stenos
 			uint32_t lines2 = lines & (~1u);
 			for (uint32_t i = 0; i < lines2; i += 2) {
 				src = decode_line(headers[i], src, end, dst, i, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 				src = decode_line(headers[i + 1], src, end, dst, i + 1, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 			}
 			if (lines != lines2) {
 				src = decode_line(headers[lines2], src, end, dst, lines2, inner_stride, outer_stride, mins);
@@ -1728,6 +1732,9 @@ namespace stenos
 							      const uint8_t* STENOS_RESTRICT end,
 							      uint32_t lines = 16) noexcept
 		{
+			if STENOS_UNLIKELY ((size_t)(end - src) < lines / 2 + (lines & 1))
+				return nullptr;
+
 			// read compressed mins
 			vector16 headers, mins;
 			auto lines2 = lines & (~1u);
-- 
2.43.0


From 810950c9251a3132abd305dd2e265c2d017b7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 10/47] fix: reject superblocks that do not produce the
 expected size

A damaged frame could be reported as successfully decompressed while part of the
output was never written.
---
 stenos/internal/stenos.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 2d92737..4bc4ec0 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -694,13 +694,13 @@ namespace stenos
 			case STENOS_FRAME_HEADER_BLOCK: {
 				// Direct block compression
 				auto r = block_decompress_generic(src, csize, bytesoftype, dsize, dst);
-				if STENOS_UNLIKELY (has_error(r))
+				if STENOS_UNLIKELY (has_error(r) || r != csize || r == 0)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_ZSTD: {
 				// Direct zstd compression
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_ZSTD: {
@@ -736,11 +736,12 @@ namespace stenos
 					return STENOS_ERROR_ALLOC;
 				// zstd decompression
 				auto r = ZSTD_decompress(buffer->bytes, ctx->superblock_size, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r == 0)
 					return STENOS_ERROR_INVALID_INPUT;
 				// block decompression
-				r = block_decompress_generic(buffer->bytes, r, bytesoftype, dsize, dst);
-				if STENOS_UNLIKELY (has_error(r))
+				size_t block_bytes = r;
+				r = block_decompress_generic(buffer->bytes, block_bytes, bytesoftype, dsize, dst);
+				if STENOS_UNLIKELY (has_error(r) || r != block_bytes)
 					return STENOS_ERROR_INVALID_INPUT;
 
 			} break;
-- 
2.43.0


From b8d02b48f22b9d9d9076f29730f0c06e8af3f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 11/47] fix: check bytesoftype in stenos_get_info()

A null bytesoftype caused a division by zero.
---
 stenos/internal/stenos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 4bc4ec0..c645c41 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1027,6 +1027,9 @@ size_t stenos_get_info(const void* _src, size_t bytesoftype, size_t bytes, steno
 {
 	// Retrieve information on a compressed frame
 
+	if STENOS_UNLIKELY (bytesoftype == 0 || bytesoftype >= STENOS_MAX_BYTESOFTYPE)
+		return STENOS_ERROR_INVALID_BYTESOFTYPE;
+
 	const uint8_t* src = (const uint8_t*)_src;
 	const uint8_t* end_src = src + bytes;
 
-- 
2.43.0


From 3f6d5be6b16d157cf17c82a267dd279297828dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 12/47] fix: reject invalid superblock sizes in
 stenos_decompress()

A null superblock size in the frame header caused a division by zero.
---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index c645c41..09ecf5a 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1111,6 +1111,8 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			return STENOS_ERROR_SRC_OVERFLOW;
 		superblock_size = stenos::read_LE_32(src);
 		src += 4;
+		if STENOS_UNLIKELY (superblock_size == 0 || superblock_size >= STENOS_MAX_BLOCK_BYTES)
+			return STENOS_ERROR_INVALID_INPUT;
 	}
 	else
 		// Default superblock size
-- 
2.43.0


From a79ef3aa80494b9acc65f60a111b70a1962cf320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 13/47] fix: handle task allocation failures

The pool constructed tasks at an invalid address when the allocation failed, and
compression/decompression returned while the tasks already pushed were still
using its local variables.
---
 stenos/internal/stenos.cpp  | 13 ++++++++++---
 stenos/internal/tiny_pool.h |  4 +++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 09ecf5a..367605b 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -967,8 +967,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 							    opts->t.processed_bytes.fetch_add(in_size);
 					    }
 				    }
-			    }))
+			    })) {
+				// Wait for the tasks already pushed: they use local variables
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
@@ -1005,8 +1008,10 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 					    }
-				    }))
+				    })) {
+					stenos::pool->wait();
 					return STENOS_ERROR_ALLOC;
+				}
 			}
 			stenos::pool->wait();
 
@@ -1198,8 +1203,10 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			if (!stenos::pool->push([&, i]() {
 				    Block& bl = blocks[(size_t)i];
 				    bl.ret = stenos::decompress_generic_superblock(opts, bl.code, bl.src, bytesoftype, bl.csize, bl.dst, bl.dsize, opts->thread_buffers[(size_t)i]);
-			    }))
+			    })) {
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 5768792..e43ddc5 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -86,7 +86,7 @@ namespace stenos
 				TaskBuffer* res = (TaskBuffer*)malloc(s + sizeof(TaskBuffer));
 				if (res)
 					new (res) TaskBuffer{ nullptr, s };
-				return res->data();
+				return res ? res->data() : nullptr;
 			}
 
 			void deallocate(void* p) noexcept
@@ -179,6 +179,8 @@ namespace stenos
 			{
 				try {
 					Task<U>* t = (Task<U>*)allocate_task(sizeof(Task<U>));
+					if (!t)
+						return nullptr;
 					return new (t) Task<U>(std::forward<U>(u));
 				}
 				catch (...) {
-- 
2.43.0


From 080d028d1f1da98eb0c7c491c510c23335a77bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 14/47] fix: handle allocation failures in contexts and block
 buffers

---
 stenos/internal/block_compress.h |  2 +-
 stenos/internal/stenos.cpp       | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index a0bb528..e9907b3 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -939,7 +939,7 @@ namespace stenos
 			if (buf.buffer)
 				stenos::aligned_free(buf.buffer);
 			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = size;
+			buf.size = buf.buffer ? size : 0;
 		}
 		return buf.buffer;
 	}
diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 367605b..b10aa8f 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -197,9 +197,11 @@ struct stenos_context_s
 		// Ensure that we have the requested number of buffers
 		try {
 			if (thread_buffers.size() < (size_t)size) {
-				thread_buffers.resize((size_t)size, nullptr);
-				tmp_buffers1.resize((size_t)size, nullptr);
+				// Reverse order: the other functions rely on
+				// thread_buffers <= tmp_buffers1 <= tmp_buffers2
 				tmp_buffers2.resize((size_t)size, nullptr);
+				tmp_buffers1.resize((size_t)size, nullptr);
+				thread_buffers.resize((size_t)size, nullptr);
 			}
 		}
 		catch (...) {
@@ -239,6 +241,8 @@ struct stenos_context_s
 stenos_context* stenos_make_context()
 {
 	stenos_context* ctx = (stenos_context*)malloc(sizeof(stenos_context_s));
+	if STENOS_UNLIKELY (!ctx)
+		return nullptr;
 	return new (ctx) stenos_context_s();
 }
 
@@ -1168,7 +1172,13 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Multithread decompression
 
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count);
-	std::vector<Block> blocks((size_t)threads);
+	std::vector<Block> blocks;
+	try {
+		blocks.resize((size_t)threads);
+	}
+	catch (...) {
+		return STENOS_ERROR_ALLOC;
+	}
 	if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
 		return STENOS_ERROR_ALLOC;
 
-- 
2.43.0


From 7dbdf547ae3ae22be9a99b9610d15a5423d8cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 15/47] fix: data race on the multithreaded compression error
 code

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index b10aa8f..937afd2 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -921,7 +921,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 
 	const bool raw_memcpy = !opts->t.nanoseconds && opts->level == 0;	     // Check for direct memcpy (level 0)
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count); // Compute number of threads
-	size_t res_code = 0;
+	std::atomic<size_t> res_code{ 0 };
 
 	if (!raw_memcpy) {
 		if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
-- 
2.43.0


From fa75203967c9e40d09a61ee6ec650feb1b634866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 16/47] fix: use after free when several threads push tasks at
 the same time

Two threads using multithreaded compression concurrently could both extract task
buffers from the lock free list, one reading the next pointer of a buffer already
freed or reused by the other.
---
 stenos/internal/tiny_pool.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index e43ddc5..84a519c 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -61,10 +61,15 @@ namespace stenos
 					free(b);
 			}
 
+			std::mutex pop_mutex;
+
 			TaskBuffer* pop() noexcept
 			{
-				// Extract a buffer from the list
-				auto f = first.load(std::memory_order_relaxed);
+				// Extract a buffer from the list.
+				// Only one thread at a time can extract buffers, otherwise
+				// f->next might be read after f has been freed or reused.
+				std::lock_guard<std::mutex> lock(pop_mutex);
+				auto f = first.load(std::memory_order_acquire);
 				while (f && !first.compare_exchange_strong(f, f->next))
 					;
 				return f;
-- 
2.43.0


From 4cc88ac1ec5115e7e3e02331b82eb4737289b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 17/47] fix: lost wakeup when several threads wait for the pool

The waiting flag was shared between all waiters: the first one to return reset it
and the other ones were never notified.
---
 stenos/internal/tiny_pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 84a519c..90f26e5 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -239,7 +239,7 @@ namespace stenos
 		detail::TaskList list;
 		std::vector<std::thread> threads;
 		bool finish = false;
-		bool waiting = false;
+		unsigned waiting = 0; // number of threads inside wait()
 		unsigned processing = 0;
 
 		void do_work() noexcept
@@ -291,9 +291,9 @@ namespace stenos
 		void wait() noexcept
 		{
 			std::unique_lock<std::mutex> lock(mutex);
-			waiting = true;
+			++waiting;
 			wait_condition.wait(lock, [this] { return (this->processing == 0) && this->list.empty(); });
-			waiting = false;
+			--waiting;
 		}
 
 		template<class U>
-- 
2.43.0


From d8a01e60547ebdba6ca2005ddc15e1401ae0eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 18/47] fix: data race on the pool finish flag

---
 stenos/internal/tiny_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 90f26e5..ec82bad 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -244,7 +244,8 @@ namespace stenos
 
 		void do_work() noexcept
 		{
-			while (!finish) {
+			for (;;) {
+				// finish is only read with the mutex locked
 				std::unique_lock<std::mutex> lock(mutex);
 				--processing;
 
-- 
2.43.0


From eb91d57b86aeac7a122a426f1e8b85bde258ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 19/47] fix: start a thread when the hardware concurrency is
 unknown

With std::thread::hardware_concurrency() returning 0, the pool had no thread and
multithreaded compression waited forever.
---
 stenos/internal/tiny_pool.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index ec82bad..2a74881 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -268,13 +268,12 @@ namespace stenos
 	public:
 		// Constructor, only function that might throw
 		tiny_pool(unsigned nthreads)
-		  : threads(nthreads)
-		  , processing(nthreads)
+		  : threads(nthreads ? nthreads : 1)
+		  , processing(nthreads ? nthreads : 1)
 		{
-			if (nthreads == 0) {
-				processing = 1;
-				threads.resize(1);
-			}
+			// std::thread::hardware_concurrency() might return 0
+			if (nthreads == 0)
+				nthreads = 1;
 			for (unsigned i = 0; i < nthreads; ++i)
 				threads[i] = std::thread([this]() { this->do_work(); });
 		}
-- 
2.43.0


From 57b44b46c0941ef7976134743e1ce81074638b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 20/47] fix: cvector destroys its compression context

---
 stenos/cvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a910398..86977ff 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1455,7 +1455,11 @@ namespace stenos
 				stenos_set_level(d_ctx, level);
 			}
 
-			~CompressedVectorInternal() noexcept { clear(); }
+			~CompressedVectorInternal() noexcept
+			{
+				clear();
+				stenos_destroy_context(d_ctx);
+			}
 
 			/// @brief Deallocate compressed memory for given bucket
 			void dealloc_bucket(size_t index) noexcept
-- 
2.43.0


From 28a82bddafda27dc97a7840707abad07e39a7892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 21/47] fix: cvector copy assignment to a default constructed
 cvector

---
 stenos/cvector.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 86977ff..43f8515 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2604,7 +2604,7 @@ namespace stenos
 			if (this != std::addressof(other)) {
 
 				if STENOS_CONSTEXPR (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
+					if (d_data && get_allocator() != other.get_allocator()) {
 						destroy_internal(d_data);
 						d_data = nullptr;
 					}
@@ -2616,19 +2616,15 @@ namespace stenos
 				else {
 					internal_type* tmp = make_internal(get_allocator());
 					try {
-						try {
-							other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
-						}
-						catch (...) {
-							destroy_internal(tmp);
-							throw;
-						}
-						destroy_internal(d_data);
-						d_data = tmp;
+						other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
 					}
 					catch (...) {
 						destroy_internal(tmp);
+						throw;
 					}
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = tmp;
 				}
 			}
 			return *this;
-- 
2.43.0


From 0bbd54f31e771dc6284b42f94dc428550e52be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 22/47] fix: keep values modified by an interrupted
 cvector::for_each()

---
 stenos/cvector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 43f8515..0b0e79c 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2303,6 +2303,8 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// mark as dirty first: the functor might stop the iteration or throw
+					cur->mark_dirty(this);
 					remaining -= to_process;
 					size_t en = pos + to_process;
 					for (size_t p = pos; p != en; ++p, ++res)
@@ -2310,7 +2312,6 @@ namespace stenos
 							return res;
 					pos = 0;
 					++bindex;
-					cur->mark_dirty(this);
 				}
 				return res;
 			}
@@ -2367,12 +2368,13 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// mark as dirty first: the functor might stop the iteration or throw
+					cur->mark_dirty(this);
 					difference_type low = bindex == first_bucket ? first_index : 0;
 					difference_type high = bindex == last_bucket ? last_index : static_cast<difference_type>(block_size - 1);
 					for (difference_type i = high; i >= low; --i, ++res)
 						if (!eval_functor(std::forward<Functor>(fun), cur->at((unsigned)i)))
 							return res;
-					cur->mark_dirty(this);
 				}
 
 				return res;
-- 
2.43.0


From 5e34a3428ecd93fee2fd9b3bfb0b628ff6eac8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 23/47] fix: assign and swap references of different cvectors

---
 stenos/cvector.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 0b0e79c..c69f440 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -828,6 +828,12 @@ namespace stenos
 				return decompressed;
 			}
 
+			STENOS_ALWAYS_INLINE auto exclude_bucket(const ConstRefWrapper& other) const noexcept -> size_t
+			{
+				// Bucket that must not be evicted when decompressing this one, only makes sense within the same container
+				return other.c == c ? other.bucket : static_cast<size_t>(-1);
+			}
+
 			STENOS_ALWAYS_INLINE bool move_inside_block(std::ptrdiff_t val)
 			{
 				// Increment position within a block, returns true if we stay on the block
@@ -939,8 +945,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto operator=(const base_type& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_if_needed(this->exclude_bucket(other));
+					auto raw_other = other.decompress_if_needed(other.exclude_bucket(*this));
 					raw_this->mark_dirty();
 					raw_this->at(this->bpos) = raw_other->at(other.bpos);
 				}
@@ -949,8 +955,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_if_needed(this->exclude_bucket(other));
+					auto raw_other = other.decompress_if_needed(other.exclude_bucket(*this));
 					if (!std::is_trivially_move_assignable<T>::value)
 						raw_other->mark_dirty();
 					raw_this->mark_dirty();
@@ -981,8 +987,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void swap(RefWrapper& other)
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_if_needed(this->exclude_bucket(other));
+					auto raw_other = other.decompress_if_needed(other.exclude_bucket(*this));
 					raw_this->mark_dirty();
 					raw_other->mark_dirty();
 					std::swap(raw_this->at(this->bpos), raw_other->at(other.bpos));
-- 
2.43.0


From 1da646d7aa3771464d5d1a756d7dba2c8c464e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 24/47] fix: cvector::serialize() writes the last block when it
 is compressed or modified

---
 stenos/cvector.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index c69f440..29c3230 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3059,16 +3059,17 @@ namespace stenos
 					// check if last bucket is empty
 					auto* buffer = &d_data->d_buckets.back();
 					auto* raw = buffer->load_decompressed();
-					if (!raw || raw->size == 0)
+					if (raw && raw->size == 0)
 						goto end;
 
-					// check if last bucket is full and compressed
-					if (raw->size == block_size && raw->buffer) {
-						size_t csize = stenos_private_block_csize(raw->buffer);
+					// check if last bucket is full and compressed, and its compressed buffer up to date
+					if (!raw || (raw->size == block_size && raw->buffer && !raw->dirty)) {
+						const char* last = buffer->data.find_compressed();
+						size_t csize = stenos_private_block_csize(last);
 						if STENOS_UNLIKELY (dst + csize > dst_end)
 							return STENOS_ERROR_DST_OVERFLOW;
 
-						memcpy(dst, raw->buffer, csize);
+						memcpy(dst, last, csize);
 						dst += csize;
 						goto end;
 					}
@@ -3270,12 +3271,13 @@ namespace stenos
 				// check if last bucket is empty
 				auto* buffer = &d_data->d_buckets.back();
 				auto* raw = buffer->data.raw();
-				if (!raw || raw->size == 0)
+				if (raw && raw->size == 0)
 					goto end;
 
-				// check if last bucket is full and compressed
-				if (raw->size == block_size && raw->buffer) {
-					oss.write((char*)raw->buffer, stenos_private_block_csize(raw->buffer));
+				// check if last bucket is full and compressed, and its compressed buffer up to date
+				if (!raw || (raw->size == block_size && raw->buffer && !raw->dirty)) {
+					const char* last = buffer->data.find_compressed();
+					oss.write(last, stenos_private_block_csize(last));
 					if STENOS_UNLIKELY (!oss)
 						return STENOS_ERROR_DST_OVERFLOW;
 					goto end;
-- 
2.43.0


From d585710152e446e60445621f09710ee3304e0c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 25/47] fix: unused cvector decompression contexts do not
 belong to a bucket

---
 stenos/cvector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 29c3230..e35879b 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -702,7 +702,7 @@ namespace stenos
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
 			res->size = 0;
 			res->dirty = 0;
-			res->block_index = 0;
+			res->block_index = RawBuffer<T, block_size>::invalid_index;
 			res->buffer = nullptr;
 			res->left = res->right = nullptr;
 			return res;
@@ -1853,16 +1853,16 @@ namespace stenos
 				if (d_buckets.empty() || d_buckets.back().data.compressed()) {
 					// no buckets or the back buffer is compressed, create a new one
 					RawType* raw = make_or_find_free_context();
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
+					raw->mark_dirty();
 					raw->block_index = d_buckets.size() - 1;
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
 					RawType* raw = compress_bucket(d_buckets.size() - 1);
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
+					raw->mark_dirty();
 					raw->block_index = d_buckets.size() - 1;
 				}
 			}
-- 
2.43.0


From 3e5f5228413235f17c4662fe77073841b3921450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 26/47] fix: cvector keeps its values when a compressed block
 cannot be allocated

---
 stenos/cvector.hpp | 79 ++++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 44 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e35879b..18eb8a4 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1619,13 +1619,23 @@ namespace stenos
 					// If the context is dirty, compress it
 					if (raw->dirty) {
 						// Find the corresponding PackBuffer, excluding front and back buckets
-						size_t index = raw->block_index;
-						STENOS_ASSERT_DEBUG(index != RawType::invalid_index, "raw block must belong to an existing bucket");
+						STENOS_ASSERT_DEBUG(raw->block_index != RawType::invalid_index, "raw block must belong to an existing bucket");
 						// Compress
 						size_t r = compress(raw->storage);
 						if (r != stenos_private_block_csize(raw->buffer)) {
-							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = this->allocate_buffer_for_compression((unsigned)r, &d_buckets[index], index, raw);
+							// Free old buffer, alloc new one, update compressed size
+							char* buff = nullptr;
+							try {
+								buff = this->allocate_buffer_for_compression((unsigned)r);
+							}
+							catch (...) {
+								// Keep this context as well as the remaining ones
+								new_contexts.push_back(raw);
+								while (it != d_contexts.end())
+									new_contexts.push_back(*it++);
+								d_contexts.assign(std::move(new_contexts));
+								throw;
+							}
 
 							if (raw->buffer)
 								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
@@ -1681,42 +1691,8 @@ namespace stenos
 					return d_buckets[raw->block_index].ref_count.unlock();
 			}
 
-			/// @brief Allocate and return buffer of given size.
-			/// In case of exception, decompress and destroy values, deallocate previous buffer, remove bucket, remove decompression context and rethrow.
-			auto allocate_buffer_for_compression(unsigned size, BucketType* bucket, size_t bucket_index, RawType* context) -> char*
-			{
-				char* buff = nullptr;
-				try {
-					buff = RebindAlloc<char>(*this).allocate(size); //(char*)malloc(r);
-				}
-				catch (...) {
-					// unlock bucket
-					unlock(context);
-					// deallocate
-					if (bucket->data) {
-						// first destroy values
-						char* buffer = bucket->data.find_compressed();
-						if (!std::is_trivially_destructible<T>::value) {
-							context->size = block_size;
-							this->decompress(bucket, context->storage);
-							context->clear_values();
-						}
-						RebindAlloc<char>(*this).deallocate(buffer, stenos_private_block_csize(buffer));
-					}
-					// remove context
-					erase_context(context);
-					// remove bucket
-					d_buckets.erase(d_buckets.begin() + static_cast<difference_type>(bucket_index));
-
-					// update indexes
-					for (size_t i = bucket_index; i < d_buckets.size(); ++i)
-						if (auto raw = d_buckets[i].load_decompressed())
-							raw->block_index = i;
-
-					throw;
-				}
-				return buff;
-			}
+			/// @brief Allocate and return buffer of given size, might throw.
+			auto allocate_buffer_for_compression(unsigned size) -> char* { return RebindAlloc<char>(*this).allocate(size); }
 
 			/// @brief Returns a decompression context either by creating a new one, or by reusing an existing one
 			auto make_or_find_free_context(RawType* exclude = nullptr) -> RawType*
@@ -1771,7 +1747,6 @@ namespace stenos
 
 				RawType* found_raw = *found;
 				BucketType* found_bucket = (*found)->block_index == RawType::invalid_index ? nullptr : &d_buckets[(*found)->block_index];
-				size_t saved_index = (*found)->block_index;
 
 				// Compress context if dirty
 				if (found_raw->dirty) {
@@ -1782,7 +1757,15 @@ namespace stenos
 
 					if (r != stenos_private_block_csize(found_raw->buffer)) {
 						// Free old memory, alloc new one
-						char* buff = allocate_buffer_for_compression((unsigned)r, found_bucket, saved_index, found_raw);
+						char* buff = nullptr;
+						try {
+							buff = allocate_buffer_for_compression((unsigned)r);
+						}
+						catch (...) {
+							// The bucket keeps its decompressed values
+							unlock(found_raw);
+							throw;
+						}
 						if (found_raw->buffer)
 							RebindAlloc<char>(*this).deallocate(found_raw->buffer, stenos_private_block_csize(found_raw->buffer));
 						found_raw->buffer = buff;
@@ -1792,7 +1775,14 @@ namespace stenos
 
 					// Use this opportunity to free another context if possible
 					if (!start && d_contexts.size() > d_buckets.size() / 16) {
-						RawType* raw = find_free_context(exclude, &found);
+						RawType* raw = nullptr;
+						try {
+							raw = find_free_context(exclude, &found);
+						}
+						catch (...) {
+							unlock(found_raw);
+							throw;
+						}
 						if (raw)
 							erase_context(raw);
 					}
@@ -1835,7 +1825,8 @@ namespace stenos
 				// Compress
 				size_t r = compress(decompressed->storage);
 				if (r != stenos_private_block_csize(decompressed->buffer)) {
-					char* buff = allocate_buffer_for_compression((unsigned)r, bucket, index, decompressed);
+					// might throw, fine as the bucket keeps its decompressed values
+					char* buff = allocate_buffer_for_compression((unsigned)r);
 					if (decompressed->buffer)
 						RebindAlloc<char>(*this).deallocate(decompressed->buffer, stenos_private_block_csize(decompressed->buffer));
 					decompressed->buffer = buff;
-- 
2.43.0


From 06a2ba9b125e02ca9f9356f33a128f4ce4493215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 27/47] fix: compression_ratio() and insert(pos, count, value)
 compile

---
 stenos/cvector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 18eb8a4..e7e42e6 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1583,8 +1583,7 @@ namespace stenos
 				decompressed_size *= block_size * sizeof(T);
 				size_t compress_size = 0;
 				for (size_t i = 0; i < d_buckets.size(); ++i)
-					if (d_buckets[i].buffer)
-						compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
+					compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
 				return (compress_size && decompressed_size) ? decompressed_size / static_cast<float>(compress_size) : 0.f;
 			}
 
@@ -2784,7 +2783,7 @@ namespace stenos
 
 		/// @brief Inserts count copies of the value before pos
 		/// Basic exception guarantee.
-		void insert(size_type pos, size_type count, const T& value) { insert(pos, cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
+		void insert(size_type pos, size_type count, const T& value) { insert(begin() + static_cast<difference_type>(pos), cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
 
 		/// @brief Inserts count copies of the value before pos
 		/// @return Iterator pointing to the first element inserted, or it if count==0
-- 
2.43.0


From 053e9b0a82eb25536e3562e8666ae26145da9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 28/47] fix: finish with memcpy when the compression time is
 already exceeded

---
 stenos/internal/stenos.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 937afd2..e09b61e 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -107,8 +107,12 @@ struct stenos_context_s
 
 	STENOS_ALWAYS_INLINE double requested_speed() noexcept
 	{
-		// Compute the requested speed in B/s for the remaining bytes
-		auto remaining = (t.nanoseconds - t.timer.tock()) * 1e-9;
+		// Compute the requested speed in B/s for the remaining bytes.
+		// Returns a negative value if there is no remaining time.
+		auto elapsed = t.timer.tock();
+		if STENOS_UNLIKELY (elapsed >= t.nanoseconds)
+			return -1;
+		auto remaining = (t.nanoseconds - elapsed) * 1e-9;
 		return (t.total_bytes - t.processed_bytes.load(std::memory_order_relaxed)) / remaining;
 	}
 
@@ -483,6 +487,11 @@ namespace stenos
 				// Compute requested speed in bytes/second.
 				// Uses remaining bytes and time.
 				target_speed = ctx->requested_speed();
+				if STENOS_UNLIKELY (target_speed < 0) {
+					// No more time: finish with memcpy
+					ctx->t.finish_memcpy.store(true);
+					goto MEMCPY;
+				}
 
 				// Adjust level used to guess lz compression ratio.
 				if (target_speed < 10000000)
-- 
2.43.0


From 5d05d5468ee6a72c106e91f00fc4068ccc46798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 29/47] fix: store mask of the SSE2 unshuffle for 12 bytes
 elements

---
 stenos/internal/shuffle-sse2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/shuffle-sse2.cpp b/stenos/internal/shuffle-sse2.cpp
index 9644f40..1e965a7 100644
--- a/stenos/internal/shuffle-sse2.cpp
+++ b/stenos/internal/shuffle-sse2.cpp
@@ -378,7 +378,8 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 	int j;
 	__m128i xmm1[16], xmm2[16];
 
-	__m128i mask = setr_epi8(0x0, 0x0, 0x0, 0x0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff);
+	// the last store must only write the 12 bytes of the element
+	__m128i mask = setr_epi8(0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x0, 0x0, 0x0, 0x0);
 
 	for (i = 0; i < vectorizable_elements; i += sizeof(__m128i)) {
 		/* Load 16 elements (256 bytes) into 16 XMM registers. */
-- 
2.43.0


From 4c1175edd1fb2d0943d2a42ed1be61a6c512774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 30/47] fix: pass elements by reference to cvector::for_each()
 functors returning a value

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e7e42e6..733d3bc 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -409,7 +409,7 @@ namespace stenos
 		struct ResultOf
 		{
 			template<class F, class... Args>
-			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args... args)
+			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args&&... args)
 			{
 				return std::forward<F>(f)(std::forward<Args>(args)...);
 			}
-- 
2.43.0


From 86251ac3aa3a15fef1c011df133ee3a4b052afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 31/47] fix: cvector::iterator::operator->() compiles

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 733d3bc..905995b 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1241,7 +1241,7 @@ namespace stenos
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const_pointer { return base_type::operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> typename base_type::const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
 				base_type::operator++();
-- 
2.43.0


From 572820b5c7ba9c6f5f2b0bf27f354f2a95719a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 32/47] fix: elements of a cvector can be copied to other
 elements

---
 stenos/cvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 905995b..82fe1af 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -952,6 +952,7 @@ namespace stenos
 				}
 				return *this;
 			}
+			STENOS_ALWAYS_INLINE auto operator=(const RefWrapper& other) -> RefWrapper& { return *this = static_cast<const base_type&>(other); }
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-- 
2.43.0


From a3422b8e5fcfd459fc66ee0e275c426ac80fea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 33/47] fix: assigning an element of a cvector to another one
 does not move it

---
 stenos/cvector.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 82fe1af..1f00d4e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -884,12 +884,14 @@ namespace stenos
 		struct ConversionWrapper
 		{
 			using type = T&&;
+			static constexpr bool is_move = true;
 			static STENOS_ALWAYS_INLINE T&& move(Wrapper& w) { return std::move(w.move()); }
 		};
 		template<class Wrapper, class T>
 		struct ConversionWrapper<Wrapper, T, false>
 		{
 			using type = const T&;
+			static constexpr bool is_move = false;
 			static STENOS_ALWAYS_INLINE const T& move(Wrapper& w) { return w.get(); }
 		};
 
@@ -958,10 +960,11 @@ namespace stenos
 				if STENOS_LIKELY (std::addressof(other) != this) {
 					auto raw_this = this->decompress_if_needed(this->exclude_bucket(other));
 					auto raw_other = other.decompress_if_needed(other.exclude_bucket(*this));
-					if (!std::is_trivially_move_assignable<T>::value)
+					if (conv::is_move)
 						raw_other->mark_dirty();
 					raw_this->mark_dirty();
-					raw_this->at(this->bpos) = std::move(raw_other->at(other.bpos));
+					// Temporary references are what v[i] and *it return: only move from them if the value type is not copyable
+					raw_this->at(this->bpos) = static_cast<conv_type>(raw_other->at(other.bpos));
 				}
 				return *this;
 			}
@@ -1006,7 +1009,7 @@ namespace stenos
 		template<class T>
 		template<class C>
 		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v) noexcept
-		  : value(std::move(v.move()))
+		  : value(ConversionWrapper<RefWrapper<C>, T>::move(v))
 		{
 		}
 
@@ -1021,7 +1024,7 @@ namespace stenos
 		template<class C>
 		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v) noexcept
 		{
-			value = std::move(v.move());
+			value = ConversionWrapper<RefWrapper<C>, T>::move(v);
 			return *this;
 		}
 
-- 
2.43.0


From 6aa26b08e6ad7d252fdaf70a96aa46c7d80c82a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 34/47] fix: functions of cvector that decompress elements are
 not noexcept

---
 stenos/cvector.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 1f00d4e..5682e12 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -77,7 +77,7 @@ namespace std
 	///////////////////////////
 
 	/* template<class Compress>
-	typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other) noexcept;
+	typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other);
 	*/
 	// template<class Compress>
 	// typename Compress::value_type move(stenos::detail::RefWrapper<Compress>&& other) noexcept;
@@ -770,7 +770,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper(RefWrapper<C>&& v) noexcept;
+			ValueWrapper(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE ValueWrapper& operator=(const T& v)
 			{
@@ -795,7 +795,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper& operator=(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper& operator=(RefWrapper<C>&& v) noexcept;
+			ValueWrapper& operator=(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE const T& get() const { return value; }
 			STENOS_ALWAYS_INLINE operator T&() noexcept { return value; }
@@ -920,7 +920,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE RefWrapper(const RefWrapper& other) noexcept = default;
 
-			STENOS_ALWAYS_INLINE auto move() noexcept -> T&&
+			STENOS_ALWAYS_INLINE auto move() -> T&&
 			{
 				auto raw = this->decompress_if_needed();
 				if (!std::is_trivially_move_assignable<T>::value)
@@ -1008,7 +1008,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v)
 		  : value(ConversionWrapper<RefWrapper<C>, T>::move(v))
 		{
 		}
@@ -1022,7 +1022,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v)
 		{
 			value = ConversionWrapper<RefWrapper<C>, T>::move(v);
 			return *this;
@@ -1031,13 +1031,13 @@ namespace stenos
 		// Overload swap function for RefWrapper
 
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b)
 		{
 			using wrapper = RefWrapper<Compressed>;
 			const_cast<wrapper&>(a).swap(const_cast<wrapper&>(b));
 		}
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b)
 		{
 			(a).swap((b));
 		}
@@ -1176,7 +1176,7 @@ namespace stenos
 					new (as_ref()) const_ref_type(c()->cat(static_cast<size_t>(abspos)));
 				return *as_ref();
 			}
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const T* { return &((operator*()).get()); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const T* { return &((operator*()).get()); }
 			STENOS_ALWAYS_INLINE auto operator+=(difference_type diff) noexcept -> CompressedConstIter&
 			{
 				this->abspos += diff;
@@ -1245,7 +1245,7 @@ namespace stenos
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> typename base_type::const_pointer { return base_type::operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> typename base_type::const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
 				base_type::operator++();
@@ -3224,7 +3224,7 @@ namespace std
 	///////////////////////////
 
 	template<class Compress>
-	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other) noexcept
+	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other)
 	{
 		return stenos_detail::MoveObject<typename Compress::value_type>::apply(other.move());
 	}
-- 
2.43.0


From a29adc2c37228f6b7a46325e19e8f3dce2c0024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 35/47] fix: cvector constructors release the container when an
 exception is thrown

---
 stenos/cvector.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5682e12..0217890 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2504,8 +2504,7 @@ namespace stenos
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		cvector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2513,8 +2512,7 @@ namespace stenos
 		/// @param count new cvector size
 		/// @param alloc allocator object
 		explicit cvector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count);
 		}
@@ -2533,8 +2531,14 @@ namespace stenos
 		{
 			if (other.size()) {
 				d_data = make_internal(alloc);
-				// calling push_back is faster than resize + copy
-				other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				try {
+					// calling push_back is faster than resize + copy
+					other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				}
+				catch (...) {
+					destroy_internal(d_data);
+					throw;
+				}
 			}
 		}
 		/// @brief Move constructor. Constructs the container with the contents of other using move semantics. Allocator is obtained by move-construction from the allocator belonging to other.
@@ -2550,8 +2554,7 @@ namespace stenos
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		cvector(cvector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_data, other.d_data);
@@ -2568,8 +2571,7 @@ namespace stenos
 		/// @param alloc allocator object
 		template<class Iter, detail::IfIsInputIterator<Iter> = true>
 		cvector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From c1e04fb63c0deee998c5bc25a4861e89cda4813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 36/47] fix: cvector::resize() destroys the elements of a chunk
 when a construction throws

---
 stenos/cvector.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 0217890..5b3f37e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2057,16 +2057,15 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							// Generic way to compress one value repeated
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i));
-							// compress
-							r = compress(raw.storage);
-
 							char* buff = nullptr;
 							try {
+								// Generic way to compress one value repeated
+								// construct, might throw, see below
+								for (raw.size = 0; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size));
+								// compress
+								r = compress(raw.storage);
+
 								// might throw, see below
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
@@ -2112,15 +2111,14 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i), val);
-							// compress
-							r = compress(raw.storage);
-
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (raw.size = 0; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size), val);
+								// compress
+								r = compress(raw.storage);
+
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
 								memcpy(buff, compression_buffer(), r);
-- 
2.43.0


From 5ae1f597dbd140a9d72e5e75f3e8c92684f18812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 37/47] fix: cvector::insert(pos, count, value) with a value of
 the container does not hang

---
 stenos/cvector.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5b3f37e..eb87f8a 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2204,12 +2204,9 @@ namespace stenos
 
 						std::move_backward(iterator(this, 0) + off, iterator(this, 0) + static_cast<difference_type>(size() - len), iterator(this, size()));
 
-						// std::copy(first, last, iterator(this, 0) + off);
-						// use for_each instead of std::copy
-						for_each(static_cast<size_t>(off), static_cast<size_t>(off) + len, [&first](T& v) {
-							v = *first;
-							++first;
-						});
+						// Do not use for_each() as it would never lock the buckets of
+						// referenced elements, like in v.insert(pos, count, v[i])
+						std::copy(first, last, iterator(this, 0) + off);
 					}
 					catch (...) {
 						for (; oldsize < size();)
-- 
2.43.0


From 818f14f4fd44b19eb9466455d5fcddf09cd2fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 38/47] fix: chunks of a cvector that are referenced are not
 evicted by push_back(), shrink_to_fit() and serialize()

---
 stenos/cvector.hpp | 49 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index eb87f8a..9cd585a 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1610,6 +1610,11 @@ namespace stenos
 						new_contexts.push_back(raw);
 						continue;
 					}
+					else if (raw->block_index != RawType::invalid_index && d_buckets[raw->block_index].ref_count.value() != 0) {
+						// Mandatory: keep the decompression context of a referenced bucket
+						new_contexts.push_back(raw);
+						continue;
+					}
 					else if (new_contexts.size() < max_buffers && !raw->dirty) {
 						// Reuse a non dirty decompression context
 						new_contexts.push_back(raw);
@@ -1667,13 +1672,10 @@ namespace stenos
 				d_contexts.assign(std::move(new_contexts));
 
 				// Remove empty contexts
-				while (d_contexts.size() > 1) {
-					for (auto it = d_contexts.begin(); it != d_contexts.end(); ++it) {
-						if ((*it)->size == 0) {
-							erase_context(*it);
-							break;
-						}
-					}
+				for (auto it = d_contexts.begin(); it != d_contexts.end() && d_contexts.size() > 1;) {
+					RawType* raw = *it++;
+					if (raw->size == 0)
+						erase_context(raw);
 				}
 
 				// Shrink bucket vector
@@ -1819,8 +1821,8 @@ namespace stenos
 				return found_raw;
 			}
 
-			/// @brief Compress bucket using its own context
-			auto compress_bucket(size_t index) -> RawType*
+			/// @brief Update the compressed buffer of a bucket from its decompressed values
+			auto update_compressed(size_t index) -> RawType*
 			{
 				BucketType* bucket = &d_buckets[index];
 				RawType* decompressed = bucket->load_decompressed();
@@ -1835,8 +1837,14 @@ namespace stenos
 					decompressed->buffer = buff;
 				}
 				memcpy(decompressed->buffer, compression_buffer(), r);
+				return decompressed;
+			}
 
-				bucket->data.set(decompressed->buffer, Compressed);
+			/// @brief Compress bucket using its own context
+			auto compress_bucket(size_t index) -> RawType*
+			{
+				RawType* decompressed = update_compressed(index);
+				d_buckets[index].data.set(decompressed->buffer, Compressed);
 				decompressed->reset();
 				return decompressed;
 			}
@@ -1853,7 +1861,12 @@ namespace stenos
 					raw->block_index = d_buckets.size() - 1;
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
-					RawType* raw = compress_bucket(d_buckets.size() - 1);
+					RawType* raw = nullptr;
+					{
+						// Do not reuse the context of a referenced bucket
+						std::unique_lock<SharedSpinner> lock(d_buckets.back().ref_count, std::try_to_lock);
+						raw = lock ? compress_bucket(d_buckets.size() - 1) : make_or_find_free_context();
+					}
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->mark_dirty();
@@ -2447,11 +2460,17 @@ namespace stenos
 			auto* bucket = &d_data->d_buckets[pos];
 			auto* buf = bucket->data.find_compressed();
 			if (!buf || (bucket->load_decompressed() && bucket->load_decompressed()->dirty)) {
-				// compress bucket
-				auto* raw = d_data->compress_bucket(pos);
+				std::unique_lock<detail::SharedSpinner> lock(bucket->ref_count, std::try_to_lock);
+				if (lock) {
+					// compress bucket
+					auto* raw = d_data->compress_bucket(pos);
 
-				// erase decompression context if this is not the last one
-				d_data->erase_context(raw);
+					// erase decompression context if this is not the last one
+					d_data->erase_context(raw);
+				}
+				else
+					// referenced bucket: keep its decompressed values
+					d_data->update_compressed(pos);
 			}
 			buf = bucket->data.find_compressed();
 			return { buf, stenos_private_block_csize(buf) };
-- 
2.43.0


From bc719007df8d41ce3b499a31deed6bb5f34e6901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 39/47] fix: reverse iterators of cvector do not return
 references to destroyed objects

---
 stenos/cvector.hpp | 78 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 76 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 9cd585a..ff5d8c1 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1293,6 +1293,80 @@ namespace stenos
 			STENOS_ALWAYS_INLINE ref_type operator[](difference_type diff) const noexcept { return const_cast<Compressed*>(this->c())->at(this->abspos + diff); }
 		};
 
+		/// @brief reverse iterator type for cvector.
+		/// std::reverse_iterator dereferences a temporary iterator, while cvector iterators own the reference they return.
+		template<class Iter>
+		class CompressedReverseIter
+		{
+			Iter it; // iterator on the designated element, just before base()
+
+		public:
+			using iterator_type = Iter;
+			using value_type = typename Iter::value_type;
+			using reference = decltype(*std::declval<const Iter&>());
+			using pointer = decltype(std::declval<const Iter&>().operator->());
+			using difference_type = typename Iter::difference_type;
+			using iterator_category = std::random_access_iterator_tag;
+
+			CompressedReverseIter() = default;
+			explicit CompressedReverseIter(const Iter& base)
+			  : it(base - 1)
+			{
+			}
+			template<class U, typename std::enable_if<std::is_convertible<U, Iter>::value && !std::is_same<U, Iter>::value, bool>::type = true>
+			CompressedReverseIter(const CompressedReverseIter<U>& other)
+			  : it(other.base() - 1)
+			{
+			}
+
+			Iter base() const { return it + 1; }
+			reference operator*() const { return *it; }
+			pointer operator->() const { return it.operator->(); }
+			auto operator[](difference_type diff) const -> decltype(it[diff]) { return it[-diff]; }
+
+			CompressedReverseIter& operator++()
+			{
+				--it;
+				return *this;
+			}
+			CompressedReverseIter operator++(int)
+			{
+				CompressedReverseIter tmp = *this;
+				--it;
+				return tmp;
+			}
+			CompressedReverseIter& operator--()
+			{
+				++it;
+				return *this;
+			}
+			CompressedReverseIter operator--(int)
+			{
+				CompressedReverseIter tmp = *this;
+				++it;
+				return tmp;
+			}
+			CompressedReverseIter& operator+=(difference_type diff)
+			{
+				it -= diff;
+				return *this;
+			}
+			CompressedReverseIter& operator-=(difference_type diff)
+			{
+				it += diff;
+				return *this;
+			}
+			CompressedReverseIter operator+(difference_type diff) const { return CompressedReverseIter(base() - diff); }
+			CompressedReverseIter operator-(difference_type diff) const { return CompressedReverseIter(base() + diff); }
+			difference_type operator-(const CompressedReverseIter& other) const { return other.it - it; }
+			bool operator==(const CompressedReverseIter& other) const { return it == other.it; }
+			bool operator!=(const CompressedReverseIter& other) const { return it != other.it; }
+			bool operator<(const CompressedReverseIter& other) const { return it > other.it; }
+			bool operator>(const CompressedReverseIter& other) const { return it < other.it; }
+			bool operator<=(const CompressedReverseIter& other) const { return it >= other.it; }
+			bool operator>=(const CompressedReverseIter& other) const { return it <= other.it; }
+		};
+
 		template<class C>
 		STENOS_ALWAYS_INLINE auto operator-(const CompressedConstIter<C>& a, const CompressedConstIter<C>& b) noexcept -> typename CompressedConstIter<C>::difference_type
 		{
@@ -2489,8 +2563,8 @@ namespace stenos
 		using allocator_type = Allocator;
 		using iterator = typename internal_type::iterator;
 		using const_iterator = typename internal_type::const_iterator;
-		using reverse_iterator = std::reverse_iterator<iterator>;
-		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
+		using reverse_iterator = detail::CompressedReverseIter<iterator>;
+		using const_reverse_iterator = detail::CompressedReverseIter<const_iterator>;
 		using lock_type = detail::SharedSpinner;
 
 		// Value type returned by at() and operator[]
-- 
2.43.0


From 91d42450072c0803603ba87e4fede165733fe9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 40/47] fix: cvalue_iterator functions that copy the value are
 not noexcept

---
 stenos/cvector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index ff5d8c1..71a6997 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -231,11 +231,11 @@ namespace stenos
 		using pointer = typename alloc_traits::const_pointer;
 		using reference = const value_type&;
 
-		explicit cvalue_iterator(size_type _pos) noexcept
+		explicit cvalue_iterator(size_type _pos)
 		  : pos(_pos)
 		{
 		}
-		cvalue_iterator(size_type _pos, const T& _value) noexcept
+		cvalue_iterator(size_type _pos, const T& _value)
 		  : pos(_pos)
 		  , value(_value)
 		{
@@ -248,7 +248,7 @@ namespace stenos
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -260,7 +260,7 @@ namespace stenos
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -285,13 +285,13 @@ namespace stenos
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From 5c07aebe1d982eab4797245e9195f7545cd491fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 41/47] fix: assigning a copied iterator value to a reference
 compiles

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 71a6997..735998f 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -980,7 +980,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE auto operator=(const ValueWrapper<T>& other) -> RefWrapper&
 			{
-				set(other.value);
+				set(other.get());
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator=(ValueWrapper<T>&& other) -> RefWrapper&
-- 
2.43.0


From b0db2706652ce1817c2324d97b048cada4eecb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:25 +0000
Subject: [PATCH 42/47] fix: a context stored everything after time-limited
 compression had run out of time, even when the limit was removed or the
 context reset

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index e09b61e..d87e168 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -187,9 +187,9 @@ struct stenos_context_s
 		}
 
 		// Initialize the time constraint
+		t.finish_memcpy.store(false);
 		if (t.nanoseconds) {
 			t.total_bytes = bytes;
-			t.finish_memcpy.store(false);
 			t.processed_bytes.store(0);
 			t.timer.tick();
 		}
-- 
2.43.0


From 82033bef32c5a9d52f017234092d5dab95ae09a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 43/47] fix: frames of level 1 depended on what was left on the
 stack (table of the LZ encoder not initialised)

---
 stenos/internal/block_compress.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index e9907b3..2fff956 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1145,6 +1145,7 @@ namespace stenos
 		uint32_t offset = 0;
 		uint32_t target = 0;
 		size_t full_size = 0;
+		uint16_t lz_table[256] = { 0 };
 
 		//__m128i input[16];
 		__m128i transpose[16];
@@ -1208,13 +1209,11 @@ namespace stenos
 
 			// Test LZ compression for level 2
 			if (level == 2 && bytesoftype % 4 == 0 && full_size * 3 > block_size) {
-				uint16_t buffer[256];
-
 				// To avoid dst overflow, we need at least 8 * bytesoftype + 1 bytes above full_size
 				if STENOS_UNLIKELY (dst_end > dst + (full_size + bytesoftype * 8u + 2u)) { // add one byte for __STENOS_BLOCK_LZ
 					auto* out = anchor;
 					*out++ = __STENOS_BLOCK_LZ;
-					out = lz_compress_generic((uint8_t*)src, out, bytesoftype, full_size, buffer);
+					out = lz_compress_generic((uint8_t*)src, out, bytesoftype, full_size, lz_table);
 					if (out) {
 						dst = out;
 						goto handle_marker;
-- 
2.43.0


From 2ce9244648770852a9d66cfc81e5cc718b1c7a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:52 +0000
Subject: [PATCH 44/47] fix: move assignment of cvector mixed up allocators
 (memory of one container freed by the allocator of the other)

---
 stenos/cvector.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 735998f..015356b 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2682,9 +2682,27 @@ namespace stenos
 		/// @brief Move assignment operator.
 		/// @param other another container to use as data source
 		/// @return reference to this
-		auto operator=(cvector&& other) noexcept(noexcept(std::declval<cvector&>().swap(std::declval<cvector&>()))) -> cvector&
+		auto operator=(cvector&& other) noexcept(std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || detail::is_always_equal<Allocator>::value) -> cvector&
 		{
-			this->swap(other);
+			if (this != std::addressof(other)) {
+
+				if (get_allocator() == other.get_allocator()) {
+					std::swap(d_data, other.d_data);
+					move_allocator(get_allocator(), other.get_allocator());
+				}
+				else if STENOS_CONSTEXPR (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value) {
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = other.d_data;
+					other.d_data = nullptr;
+					move_allocator(get_allocator(), other.get_allocator());
+				}
+				else {
+					// The memory cannot change its allocator: move the elements
+					cvector tmp(std::move(other), get_allocator());
+					std::swap(d_data, tmp.d_data);
+				}
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 6b1186720c9e6f2491b2b67fee9bf67464a795b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 45/47] fix: stenos::istreambuf_iterator could not be copied or
 moved, and ++ before the first access did not advance

---
 stenos/cvector.hpp | 58 ++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 015356b..661a0e1 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3551,22 +3551,31 @@ namespace stenos
 		{
 		}
 
-		istreambuf_iterator(istreambuf_iterator&& other) noexcept
-		  : d_in(&other.d_in)
-		  , d_has_value(other.d_has_value)
+		istreambuf_iterator(const istreambuf_iterator& other)
+		  : d_in(other.d_in)
+		  , d_has_value(false)
 		{
-			if (d_has_value)
-				new (d_value) T(std::move(*other.value()));
-			other.d_in = nullptr;
+			if (other.d_has_value) {
+				new (d_value) T(*other.value());
+				d_has_value = true;
+			}
 		}
 
-		~istreambuf_iterator() noexcept
+		istreambuf_iterator& operator=(const istreambuf_iterator& other)
 		{
-			if STENOS_CONSTEXPR (!std::is_trivially_destructible<T>::value) {
-				if (d_has_value)
-					value()->~T();
+			if (this != &other) {
+				reset_value();
+				d_in = other.d_in;
+				if (other.d_has_value) {
+					new (d_value) T(*other.value());
+					d_has_value = true;
+				}
 			}
+			return *this;
 		}
+
+		~istreambuf_iterator() noexcept { reset_value(); }
+
 		T operator*() const
 		{
 			if (!d_has_value)
@@ -3583,6 +3592,15 @@ namespace stenos
 			return *this;
 		}
 
+		istreambuf_iterator operator++(int)
+		{
+			if (!d_has_value)
+				read();
+			istreambuf_iterator tmp(*this);
+			increment();
+			return tmp;
+		}
+
 		bool equal(const istreambuf_iterator& right) const
 		{
 			if (!d_has_value && d_in)
@@ -3601,16 +3619,16 @@ namespace stenos
 		void increment()
 		{
 			// skip to next input element
-			if (d_in) {
-				if (d_has_value) {
-					d_has_value = false;
-					value()->~T();
-				}
-				if (d_in->read(d_value, sizeof(d_value))) {
-					d_has_value = true;
-					return;
-				}
-				d_in = nullptr;
+			if (!d_has_value)
+				read();
+			reset_value();
+		}
+
+		void reset_value() noexcept
+		{
+			if (d_has_value) {
+				d_has_value = false;
+				value()->~T();
 			}
 		}
 
-- 
2.43.0


From 4841134778debbe50b1001df75451085e75050fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:09 +0000
Subject: [PATCH 46/47] fix: cvector could not be deserialized from streams
 without positions, lost memory when a stream throws, and serialize returned 0
 for them

---
 stenos/cvector.hpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 661a0e1..4d07bfa 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3354,7 +3354,6 @@ namespace stenos
 	size_t cvector<T, BlockSize, Level, Alloc>::serialize(Ostream& oss)
 	{
 		uint8_t header[12];
-		size_t pos = oss.tellp();
 		size_t r = stenos_private_create_compression_header(size() * sizeof(T), block_bytes, header, 12);
 		if STENOS_UNLIKELY (stenos_has_error(r))
 			return r;
@@ -3363,6 +3362,9 @@ namespace stenos
 		if STENOS_UNLIKELY (!oss)
 			return STENOS_ERROR_DST_OVERFLOW;
 
+		// count the bytes: not all streams support tellp()
+		size_t written = r;
+
 		if (!d_data || size() == 0)
 			goto end;
 
@@ -3382,6 +3384,7 @@ namespace stenos
 					oss.write(last, stenos_private_block_csize(last));
 					if STENOS_UNLIKELY (!oss)
 						return STENOS_ERROR_DST_OVERFLOW;
+					written += stenos_private_block_csize(last);
 					goto end;
 				}
 
@@ -3392,6 +3395,7 @@ namespace stenos
 				oss.write((char*)d_data->compression_buffer(), r);
 				if STENOS_UNLIKELY (!oss)
 					return STENOS_ERROR_DST_OVERFLOW;
+				written += r;
 				goto end;
 			}
 
@@ -3402,10 +3406,11 @@ namespace stenos
 			oss.write((char*)buf.first, buf.second);
 			if STENOS_UNLIKELY (!oss)
 				return STENOS_ERROR_DST_OVERFLOW;
+			written += buf.second;
 		}
 
 	end:
-		return (size_t)oss.tellp() - pos;
+		return written;
 	}
 
 	template<class T, unsigned BlockSize, int Level, class Alloc>
@@ -3455,16 +3460,17 @@ namespace stenos
 			if STENOS_UNLIKELY (stenos_has_error(bsize))
 				return bsize;
 
-			iss.seekg(-4, std::ios::cur);
 			// might throw, fine
 			char* data = al.allocate(bsize);
-			iss.read(data, bsize);
-			if STENOS_UNLIKELY (!iss) {
-				al.deallocate(data, bsize);
-				return STENOS_ERROR_SRC_OVERFLOW;
-			}
-
+			// do not seek back: not all streams support it
+			memcpy(data, bheader, 4);
 			try {
+				// might throw depending on the stream exception mask
+				iss.read(data + 4, bsize - 4);
+				if STENOS_UNLIKELY (!iss) {
+					al.deallocate(data, bsize);
+					return STENOS_ERROR_SRC_OVERFLOW;
+				}
 				d_data->d_buckets.push_back(bucket_type());
 			}
 			catch (...) {
@@ -3488,9 +3494,9 @@ namespace stenos
 			if STENOS_UNLIKELY (stenos_has_error(bsize))
 				return bsize;
 
-			iss.seekg(-4, std::ios::cur);
 			std::vector<char> buffer(bsize);
-			iss.read(buffer.data(), bsize);
+			memcpy(buffer.data(), bheader, 4);
+			iss.read(buffer.data() + 4, bsize - 4);
 			if STENOS_UNLIKELY (!iss)
 				return STENOS_ERROR_SRC_OVERFLOW;
 
-- 
2.43.0


From ba331d82770906b7402da0f91859e6aef85b6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:28 +0000
Subject: [PATCH 47/47] fix: n + iterator did not compile for the iterators of
 cvector

---
 stenos/cvector.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 4d07bfa..7a754fd 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1367,6 +1367,22 @@ namespace stenos
 			bool operator>=(const CompressedReverseIter& other) const { return it <= other.it; }
 		};
 
+		template<class C>
+		STENOS_ALWAYS_INLINE auto operator+(typename CompressedConstIter<C>::difference_type diff, const CompressedConstIter<C>& it) noexcept -> CompressedConstIter<C>
+		{
+			return it + diff;
+		}
+		template<class C>
+		STENOS_ALWAYS_INLINE auto operator+(typename CompressedIter<C>::difference_type diff, const CompressedIter<C>& it) noexcept -> CompressedIter<C>
+		{
+			return it + diff;
+		}
+		template<class Iter>
+		auto operator+(typename CompressedReverseIter<Iter>::difference_type diff, const CompressedReverseIter<Iter>& it) -> CompressedReverseIter<Iter>
+		{
+			return it + diff;
+		}
+
 		template<class C>
 		STENOS_ALWAYS_INLINE auto operator-(const CompressedConstIter<C>& a, const CompressedConstIter<C>& b) noexcept -> typename CompressedConstIter<C>::difference_type
 		{
-- 
2.43.0

