/* Which codec do the API calls use?  lib.c and codec_choose.c are the real files; the codecs are
 * recorders, and (x86) the cpuid and xgetbv instructions are replaced by calls to the functions here. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include "libbase64.h"

#ifndef HV
#define HV 0
#endif
enum { AVX2, NEON32, NEON64, PLAIN, SSSE3, SSE41, SSE42, AVX, AVX512, NC };
static const char *NAME[NC] = { "avx2", "neon32", "neon64", "plain", "ssse3", "sse41", "sse42", "avx", "avx512" };

static uint32_t f_max, f1_ecx, f7_ebx, f7_ecx, noise;
static uint64_t f_xcr;
static const char *bad;
static int used[2];
static unsigned long calls;

static uint32_t rnd(void) { static uint32_t x = 88172645; x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x; }

void fake_cpuid(uint32_t *r) /* eax ebx ecx edx */
{
	uint32_t l = r[0], s = r[2];
	r[0] = r[1] = r[2] = r[3] = noise;
	if (l == 0) { r[0] = f_max; r[1] = 0x756e6547; r[2] = 0x6c65746e; r[3] = 0x49656e69; }
	else if (l == 0x80000000u) r[0] = l;
	else if (l > f_max) r[0] = r[1] = r[2] = r[3] = rnd();
	else if (l == 1) r[2] = f1_ecx;
	else if (l == 7 && s == 0) { r[0] = 0; r[1] = f7_ebx; r[2] = f7_ecx; }
	else if (l == 7) r[0] = r[1] = r[2] = r[3] = rnd();
}
uint64_t fake_xgetbv(uint32_t i)
{
	if (f_max < 1 || !(f1_ecx & 1u << 27)) bad = "xgetbv without OSXSAVE";
	return i == 0 ? f_xcr : ((uint64_t)rnd() << 32 | rnd());
}

#define D(id, x) \
	void base64_stream_encode_##x(struct base64_state *s, const char *p, size_t n, char *o, size_t *l) { used[0] |= 1 << id; *l = 0; } \
	int base64_stream_decode_##x(struct base64_state *s, const char *p, size_t n, char *o, size_t *l) { used[1] |= 1 << id; *l = 0; return 1; }
D(AVX2, avx2) D(NEON32, neon32) D(NEON64, neon64) D(PLAIN, plain) D(SSSE3, ssse3) D(SSE41, sse41) D(SSE42, sse42) D(AVX, avx) D(AVX512, avx512)

static int best(void)
{
#ifdef X86
	int os = f_max >= 1 && (f1_ecx >> 27 & 1) && (f_xcr & 6) == 6, os512 = os && (f_xcr & 0xE0) == 0xE0;
	if (HV >> AVX512 & 1 && f_max >= 7 && os512 && (f7_ebx >> 31) && (f7_ecx & 2)) return AVX512;
	if (HV >> AVX2 & 1 && f_max >= 7 && os && (f7_ebx >> 5 & 1)) return AVX2;
	if (HV >> AVX & 1 && f_max >= 1 && os && (f1_ecx >> 28 & 1)) return AVX;
	if (HV >> SSE42 & 1 && f_max >= 1 && (f1_ecx >> 20 & 1)) return SSE42;
	if (HV >> SSE41 & 1 && f_max >= 1 && (f1_ecx >> 19 & 1)) return SSE41;
	if (HV >> SSSE3 & 1 && f_max >= 1 && (f1_ecx >> 9 & 1)) return SSSE3;
	return PLAIN;
#else
	return DEFCODEC;
#endif
}

extern char __start_b64data[] __attribute__((weak)), __stop_b64data[] __attribute__((weak));
static char *snap; static size_t snapn;
static void reset(void) { if (snapn) memcpy(__start_b64data, snap, snapn); }

static int fails;
static char cur[256];
static void fail(const char *what)
{
	char m[400] = "";
	if (fails++ > 20) return;
	printf("FAIL C08 %s # %s\n", cur, what);
	fflush(stdout);
}
static void died(int s) { char b[400]; int n = snprintf(b, sizeof b, "FAIL C08 %s # died with signal %d\n", cur, s); if (write(1, b, n)) _exit(2); _exit(2); }

/* ops: pairs of an operation letter and a flag letter: E D (one-shot) e d (stream); '-' no codec forced, or the digit of the codec */
static void seq(const char *ops)
{
	int curc = -1;
	struct base64_state st;
	size_t l;
	const char *p;
	char w[300];
	calls++;
	snprintf(cur, sizeof cur, "-r %x,%x,%x,%x,%llx,%x,%s", f_max, f1_ecx, f7_ebx, f7_ecx, (unsigned long long)f_xcr, noise, ops);
	reset();
	bad = 0;
	for (p = ops; *p; p += 2) {
		int fl = p[1] == '-' ? 0 : 1 << (p[1] - '0'), dec = *p == 'D' || *p == 'd';
		static char in[8], out[16];
		used[0] = used[1] = 0;
		switch (*p) {
		case 'E': base64_encode(in, 3, out, &l, fl); break;
		case 'D': base64_decode(in, 4, out, &l, fl); break;
		case 'e': base64_stream_encode_init(&st, fl); base64_stream_encode(&st, in, 3, out, &l); break;
		case 'd': base64_stream_decode_init(&st, fl); base64_stream_decode(&st, in, 4, out, &l); break;
		}
		if (fl) curc = p[1] - '0';
		else if (curc < 0) curc = best();
		if (used[dec] != 1 << curc || used[!dec]) {
			int i, k = snprintf(w, sizeof w, "call %d (%s) must use the %s codec but used", (int)(p - ops) / 2, dec ? "decode" : "encode", NAME[curc]);
			for (i = 0; i < NC; i++) if ((used[0] | used[1]) >> i & 1) k += snprintf(w + k, sizeof w - k, " %s", NAME[i]);
			if (!(used[0] | used[1])) snprintf(w + k, sizeof w - k, " none");
			fail(w);
			return;
		}
		if (bad) { fail(bad); return; }
	}
}

int main(int ac, char **av)
{
	static const uint64_t X[] = {0, 2, 4, 6, 7, 0xE6, 0xE7, 0xC6, 0xA6, 0x66, 0xE2, 0xE4, 0xE0, 0x206, ~0ull, ~2ull, ~4ull, ~0x20ull, ~0x40ull, ~0x80ull};
	static const uint32_t M[] = {0, 1, 2, 4, 6, 7, 8, 13, 0x20, 0x80000000u};
	static const char OP[] = "EDed";
	int i, j, k, l, s;
	unsigned a, b, x, m;
	signal(SIGSEGV, died); signal(SIGILL, died); signal(SIGBUS, died); signal(SIGABRT, died);
	snapn = __start_b64data ? (size_t)(__stop_b64data - __start_b64data) : 0;
	if (snapn) { snap = malloc(snapn); memcpy(snap, __start_b64data, snapn); }
	if (ac > 2 && !strcmp(av[1], "-r")) {
		unsigned long long xx; char ops[64];
		if (sscanf(av[2], "%x,%x,%x,%x,%llx,%x,%60s", &f_max, &f1_ecx, &f7_ebx, &f7_ecx, &xx, &noise, ops) != 7) return 3;
		f_xcr = xx;
		seq(ops);
		printf("DONE calls %lu\n", calls);
		return fails != 0;
	}
	for (s = 0; s < 4; s++)
	for (i = 0; i < (int)(sizeof M / sizeof *M); i++)
	for (a = 0; a < 32; a++)
	for (b = 0; b < 8; b++)
	for (x = 0; x < sizeof X / sizeof *X; x++) {
		uint32_t n1 = s == 0 ? 0 : s == 1 ? ~0u : rnd(), n2 = s == 0 ? 0 : s == 1 ? ~0u : rnd(), n3 = s == 0 ? 0 : s == 1 ? ~0u : rnd();
#ifndef X86
		if (s | a | b | x) break;
#endif
		f_max = M[i];
		f1_ecx = (n1 & ~(1u << 27 | 1u << 28 | 1u << 20 | 1u << 19 | 1u << 9)) | (a & 1) << 27 | (a >> 1 & 1) << 28 | (a >> 2 & 1) << 20 | (a >> 3 & 1) << 19 | (a >> 4 & 1) << 9;
		f7_ebx = (n2 & ~(1u << 31 | 1u << 5)) | (b & 1u) << 31 | (b >> 1 & 1) << 5;
		f7_ecx = (n3 & ~2u) | (b >> 2 & 1) << 1;
		f_xcr = X[x];
		noise = s < 2 ? n1 : rnd();
		char o[3] = { OP[rnd() & 3], '-', 0 };
		seq(o);
	}
	/* sequences of calls */
	for (m = 0; m < 4; m++) {
		f_max = 13; f1_ecx = m == 0 ? ~0u : m == 1 ? 0 : m == 2 ? 1u << 20 | 1u << 9 : ~(1u << 27); f7_ebx = f7_ecx = m == 0 ? ~0u : m == 3 ? 1u << 5 : 0; f_xcr = m == 0 ? 0xE7 : 7; noise = 0;
		for (i = 0; i < 4; i++) for (j = -1; j < NC; j++)
		for (k = 0; k < 4; k++) for (l = -1; l < NC; l++) {
			char o[7] = { OP[i], j < 0 ? '-' : '0' + j, OP[k], l < 0 ? '-' : '0' + l, OP[rnd() & 3], '-', 0 };
			seq(o);
		}
	}
	printf("DONE calls %lu\n", calls);
	return fails != 0;
}
