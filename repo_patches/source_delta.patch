From c927da787ec6673298d7a1cd4da05692405e8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 1/9] fix: decoder: make an invalid third character of a group
 a permanent error

---
 lib/arch/generic/dec_tail.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index e64f724..0c8adef 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -55,6 +55,7 @@
 				}
 			}
 			// If we get here, there was an error:
+			st.eof = BASE64_EOF;
 			break;
 		}
 		*o++ = st.carry | (q >> 2);
-- 
2.43.0


From 364589472e0f99eb394f310abca4eda5d9c4445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 2/9] fix: encode_init: redo the codec choice for
 BASE64_FORCE_AVX512 too

---
 lib/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lib.c b/lib/lib.c
index 053931a..72c4949 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -18,7 +18,7 @@ void
 base64_stream_encode_init (struct base64_state *state, int flags)
 {
 	// If any of the codec flags are set, redo choice:
-	if (codec.enc == NULL || flags & 0xFF) {
+	if (codec.enc == NULL || flags & 0xFFFF) {
 		codec_choose(&codec, flags);
 	}
 	state->eof = 0;
-- 
2.43.0


From 1984895076c336057ec23d1a27ed79b303290967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 3/9] fix: decoder stub: set the output length to zero

---
 lib/codecs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/codecs.h b/lib/codecs.h
index f6af0e7..e5bb9d1 100644
--- a/lib/codecs.h
+++ b/lib/codecs.h
@@ -40,7 +40,8 @@ base64_dec_stub BASE64_DEC_PARAMS
 	(void) src;
 	(void) srclen;
 	(void) out;
-	(void) outlen;
+
+	*outlen = 0;
 
 	return -1;
 }
-- 
2.43.0


From e65b15552591077a436b6e972e72fd6db47cccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 4/9] fix: base64 -i: keep padding characters, skip double
 quotes

---
 bin/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index 02dcd1e..34f983d 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -376,7 +376,7 @@ find_garbage (const char *p, const size_t avail)
 		['z'] = 1,
 		['0'] = 1, ['1'] = 1, ['2'] = 1, ['3'] = 1, ['4'] = 1,
 		['5'] = 1, ['6'] = 1, ['7'] = 1, ['8'] = 1, ['9'] = 1,
-		['+'] = 1, ['/'] = 1, ['"'] = 1,
+		['+'] = 1, ['/'] = 1, ['='] = 1,
 	};
 
 	for (size_t len = 0; len < avail; len++) {
-- 
2.43.0


From 43f6e45c0eb95ca5338dc38ee6af2d629ccb57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 5/9] fix: openmp: compute the output offsets without
 overflowing

---
 lib/lib_openmp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 6b87c52..12e20e9 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -53,7 +53,7 @@ base64_encode_openmp
 		for (i = 0; i < num_threads; i++)
 		{
 			// Feed each part of the string to the stream reader:
-			base64_stream_encode(&state, src + i * len, len, out + i * len * 4 / 3, &s);
+			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3 * 4), &s);
 			sum += s;
 		}
 	}
@@ -63,10 +63,10 @@ base64_encode_openmp
 	state = initial_state;
 
 	// Encode the remaining bytes:
-	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * len * 4 / 3, &s);
+	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * (len / 3 * 4), &s);
 
 	// Finalize the stream by writing trailer if any:
-	base64_stream_encode_final(&state, out + num_threads * len * 4 / 3 + s, &t);
+	base64_stream_encode_final(&state, out + num_threads * (len / 3 * 4) + s, &t);
 
 	// Final output length is stream length plus tail:
 	sum += s + t;
@@ -116,7 +116,7 @@ base64_decode_openmp
 			int this_result;
 
 			// Feed each part of the string to the stream reader:
-			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4 * 3), &s);
 			sum += s;
 			result += this_result;
 		}
@@ -137,7 +137,7 @@ base64_decode_openmp
 	// So far so good, now decode whatever remains in the buffer. Reuse the
 	// initial state, since we are at a 4-byte boundary:
 	state = initial_state;
-	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * len * 3 / 4, &s);
+	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4 * 3), &s);
 	sum += s;
 	*outlen = sum;
 
-- 
2.43.0


From 0997dc74ec25b3b6f8f8183847cd070c59738a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 6/9] fix: openmp: reject text that continues after padding at
 the end of a part

---
 lib/lib_openmp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 12e20e9..dc7f000 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -117,6 +117,12 @@ base64_decode_openmp
 
 			// Feed each part of the string to the stream reader:
 			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4 * 3), &s);
+
+			// Padding ends the text, so a part that contains it
+			// must not be followed by other parts:
+			if (this_result == 1 && state.eof && (i + 1 < num_threads || last_len > 0)) {
+				this_result = 0;
+			}
 			sum += s;
 			result += this_result;
 		}
-- 
2.43.0


From 2b27c4d5e686ff9e8544afd6d9d63ae1e1373ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 7/9] fix: openmp: set the output length when decoding fails

---
 lib/lib_openmp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index dc7f000..1fa4244 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -131,12 +131,16 @@ base64_decode_openmp
 	// If `result' equals `-num_threads', then all threads returned -1,
 	// indicating that the requested codec is not available:
 	if (result == -num_threads) {
+		*outlen = 0;
 		return -1;
 	}
 
 	// If `result' does not equal `num_threads', then at least one of the
-	// threads hit a decode error:
+	// threads hit a decode error. Decode the text from the start to get the
+	// output up to that error, and its length:
 	if (result != num_threads) {
+		state = initial_state;
+		base64_stream_decode(&state, src, srclen, out, outlen);
 		return 0;
 	}
 
-- 
2.43.0


From 9229c5c5756fdbb7b1a253b963cf557b0e0cf3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 8/9] fix: neon64: declare the round counter as modified by the
 assembly

---
 lib/arch/neon64/enc_loop_asm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/arch/neon64/enc_loop_asm.c b/lib/arch/neon64/enc_loop_asm.c
index 182e9cd..c8bd5b7 100644
--- a/lib/arch/neon64/enc_loop_asm.c
+++ b/lib/arch/neon64/enc_loop_asm.c
@@ -145,6 +145,7 @@ enc_loop_neon64 (const uint8_t **s, size_t *slen, uint8_t **o, size_t *olen)
 
 		// Outputs (modified).
 		: [loops] "+r"  (loops),
+		  [rounds] "+r" (rounds),
 		  [src]   "+r"  (*s),
 		  [dst]   "+r"  (*o),
 		  [t0]    "=&w" (tmp0),
@@ -153,8 +154,7 @@ enc_loop_neon64 (const uint8_t **s, size_t *slen, uint8_t **o, size_t *olen)
 		  [t3]    "=&w" (tmp3)
 
 		// Inputs (not modified).
-		: [rounds] "r" (rounds),
-		  [tbl]    "r" (base64_table_enc_6bit),
+		: [tbl]    "r" (base64_table_enc_6bit),
 		  [n63]    "w" (vdupq_n_u8(63))
 
 		// Clobbers.
-- 
2.43.0


From 227091852aee3578e731c53c159958cac838b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 9/9] fix: emulated writev reports data already written when a
 later write fails

A caller that retries after EINTR would send that data again.
---
 bin/base64.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index 34f983d..c316c07 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -110,12 +110,12 @@ writev (const int fd, const struct iovec *iov, int iovcnt)
 
 	while (iovcnt-- > 0) {
 
-		// Write the vector; propagate errors back to the caller. Note
-		// that this loses information about how much vectors have been
-		// successfully written, but that also seems to be the case
-		// with the real function. The API is somewhat flawed.
+		// Write the vector. If that fails after some data was already
+		// written, report the partial write like the real function
+		// does: a caller that retries must not send that data again,
+		// and a lasting error comes back in the next call.
 		if ((r = write(fd, iov->iov_base, iov->iov_len)) < 0) {
-			return r;
+			return (nwrite > 0) ? nwrite : r;
 		}
 
 		// Update the total write count.
-- 
2.43.0

