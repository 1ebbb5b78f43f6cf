/* Concrete counterpart of the OpenMP contracts: the library built with OpenMP against a reference,
 * for many team sizes, with random delays around the codec calls and the codec choice so that the
 * threads meet in many orders.  Used to search for and replay failing inputs; never counts as proof. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <omp.h>
#include <sys/mman.h>
#include "libbase64.h"

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int8_t VAL[256];
static uint64_t rs;
static double t00, tlimit = 1e9;
static long calls;
static int nfail, delays = 1;
static size_t PG = 65536, CAP = 1 << 21;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }

/* ---------------------------------------------------------------- delays (linked with --wrap) */
static void nap(void)
{
	static __thread unsigned x;
	unsigned k;
	if (!delays) return;
	if (!x) x = (unsigned)(uintptr_t)&x ^ (unsigned)time(0) ^ (unsigned)omp_get_thread_num() * 2654435761u;
	x = x * 1103515245u + 12345u;
	k = x >> 16 & 15;
	if (k < 6) { struct timespec t = {0, (long)(k + 1) * 20000}; nanosleep(&t, 0); }
}
#define ENCARGS struct base64_state *st, const char *s, size_t n, char *o, size_t *ol
extern void __real_base64_stream_encode_plain(ENCARGS);
extern int __real_base64_stream_decode_plain(ENCARGS);
extern void __real_codec_choose(void *c, int f);
void __wrap_base64_stream_encode_plain(ENCARGS) { nap(); __real_base64_stream_encode_plain(st, s, n, o, ol); nap(); }
int __wrap_base64_stream_decode_plain(ENCARGS) { int r; nap(); r = __real_base64_stream_decode_plain(st, s, n, o, ol); nap(); return r; }
void __wrap_codec_choose(void *c, int f) { nap(); nap(); __real_codec_choose(c, f); }

/* ---------------------------------------------------------------- reference */
static size_t ref_enc(const uint8_t *d, size_t n, uint8_t *o)
{
	size_t i, k = 0;
	for (i = 0; i < n; i += 3) {
		unsigned a = d[i], b = i + 1 < n ? d[i + 1] : 0, c = i + 2 < n ? d[i + 2] : 0;
		o[k++] = AL[a >> 2]; o[k++] = AL[(a & 3) << 4 | b >> 4];
		o[k++] = i + 1 < n ? AL[(b & 15) << 2 | c >> 6] : '=';
		o[k++] = i + 2 < n ? AL[c & 63] : '=';
	}
	return k;
}
static int ref_dec(const uint8_t *d, size_t n, uint8_t *o, size_t *ol)
{
	size_t P = 0;
	int k = 0, prev = 0;
	*ol = 0;
	while (P < n && VAL[d[P]] >= 0) {
		int q = VAL[d[P]];
		if (k == 1) o[(*ol)++] = (uint8_t)(prev << 2 | q >> 4);
		if (k == 2) o[(*ol)++] = (uint8_t)(prev << 4 | q >> 2);
		if (k == 3) o[(*ol)++] = (uint8_t)(prev << 6 | q);
		k = (k + 1) & 3; prev = q; P++;
	}
	if (P == n) return k == 0;
	if (d[P] != '=') return 0;
	if (k == 3) return P + 1 == n;
	if (k == 2) return P + 2 == n && d[P + 1] == '=';
	return 0;
}

static uint8_t *SB, *OB, *REF, *SRC;
static uint8_t *mk(void)
{
	uint8_t *p = mmap(0, CAP + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p + PG, CAP, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(2); }
	return p + PG + CAP;
}
static char args[256];
/* props: the properties that this breaks besides C10 */
static void fail(const char *props, const char *what, long x, long y)
{
	char p[8];
	int k;
	nfail++;
	if (nfail > 4) return;
	strcpy(p, "C10");
	for (;;) {
		printf("FAIL %s %s # ", p, args);
		printf(what, x, y);
		printf("\n");
		if (sscanf(props, "%7s%n", p, &k) != 1) break;
		props += k;
	}
	fflush(stdout);
}
static void onsig(int s) { (void)s; printf("FAIL C10 %s # signal %d (buffer bounds)\nFAIL %s %s # signal %d (buffer bounds)\n", args, s, args[0] == 'e' ? "C05" : args[0] == 'd' ? "C06" : "C09", args, s); printf("DONE calls %ld\n", calls); fflush(stdout); _exit(1); }

enum { FORCE_NONE = 0, FORCE_PLAIN = 1 << 3 };

static void one_enc(int T, int F, size_t n, const uint8_t *d, int nested)
{
	size_t cap = (n + 2) / 3 * 4, ol = 0x5a5a, k;
	uint8_t *s = SB - n, *o = OB - cap;
	memcpy(s, d, n);
	memset(o - 64, 0xa5, cap + 64);
	omp_set_num_threads(T);
	calls++;
	if (nested) {
		#pragma omp parallel num_threads(3)
		{
			#pragma omp master
			base64_encode((char *)s, n, (char *)o, &ol, F);
		}
	} else base64_encode((char *)s, n, (char *)o, &ol, F);
	k = ref_enc(d, n, REF);
	if (ol != k) fail("C01", "encode: outlen %ld, expected %ld", (long)ol, (long)k);
	else if (memcmp(o, REF, k)) { size_t i; for (i = 0; o[i] == REF[i]; i++); fail("C01", "encode: wrong output at %ld of %ld", (long)i, (long)k); }
	if (memcmp(s, d, n)) fail("C05", "encode: source modified%.0ld%.0ld", 0, 0);
	for (k = 1; k <= 64; k++) if (o[-(long)k] != 0xa5) { fail("C05", "encode: wrote before the buffer%.0ld%.0ld", 0, 0); break; }
}

static void one_dec(int T, int F, size_t n, const uint8_t *d, int nested)
{
	size_t cap = n * 3 / 4, ol = 0x5a5a, rl;
	uint8_t *s = SB - n, *o = OB - cap;
	int r = -2, rr;
	memcpy(s, d, n);
	memset(o - 64, 0xa5, cap + 64);
	omp_set_num_threads(T);
	calls++;
	if (nested) {
		#pragma omp parallel num_threads(3)
		{
			#pragma omp master
			r = base64_decode((char *)s, n, (char *)o, &ol, F);
		}
	} else r = base64_decode((char *)s, n, (char *)o, &ol, F);
	rr = ref_dec(d, n, REF, &rl);
	if (r != rr) fail(rr == 1 ? "C02 C03" : "C03", "decode: returned %ld, expected %ld", r, rr);
	if (ol != rl) fail(rr == 1 ? "C02" : "", "decode: outlen %ld, expected %ld", (long)ol, (long)rl);
	else if (memcmp(o, REF, rl)) fail(rr == 1 ? "C02" : "", "decode: wrong output (%ld bytes)%.0ld", (long)rl, 0);
	if (memcmp(s, d, n)) fail("C06", "decode: source modified%.0ld%.0ld", 0, 0);
	for (rl = 1; rl <= 64; rl++) if (o[-(long)rl] != 0xa5) { fail("C06", "decode: wrote before the buffer%.0ld%.0ld", 0, 0); break; }
}

/* a codec that is not in the build */
static void one_stub(int T, size_t n, const uint8_t *d)
{
	size_t ol = 0x5a5a;
	uint8_t *s = SB - n, *o = OB - n;
	int r;
	memcpy(s, d, n);
	memset(o, 0xa5, n);
	omp_set_num_threads(T);
	calls++;
	r = base64_decode((char *)s, n, (char *)o, &ol, 1 << 1);
	if (r != -1 || ol != 0) fail("C09", "absent codec: returned %ld with outlen %ld", r, (long)ol);
	base64_decode((char *)s, 0, (char *)o, &ol, FORCE_PLAIN);
}

/* enc T F n seed nested | dec T F n seed nested pad pos byte pos byte | stub T n */
static void run(const char *a)
{
	char k[8];
	int T, F, nested = 0, pad = 0, b1 = -1, b2 = -1, rep;
	unsigned long long seed = 0;
	size_t n = 0, p1 = 0, p2 = 0, i;
	snprintf(args, sizeof args, "%s", a);
	if (sscanf(a, "%7s", k) != 1) return;
	if (!strcmp(k, "stub")) { if (sscanf(a, "%*s %d %zu", &T, &n) != 2) return; memset(SRC, 'A', n); one_stub(T, n, SRC); return; }
	sscanf(a, "%*s %d %d %zu %llu %d %d %zu %d %zu %d", &T, &F, &n, &seed, &nested, &pad, &p1, &b1, &p2, &b2);
	if (n > CAP - 64 || n * 4 / 3 + 8 > CAP - 64) return;
	rs = seed * 0x9E3779B97F4A7C15ull + 1;
	rnd(); rnd();
	for (i = 0; i < n; i++) SRC[i] = k[0] == 'e' ? (uint8_t)rnd() : AL[rnd() & 63];
	if (k[0] == 'd') {
		for (i = 1; i <= (size_t)pad && i <= n; i++) SRC[n - i] = '=';
		if (b1 >= 0 && p1 < n) SRC[p1] = (uint8_t)b1;
		if (b2 >= 0 && p2 < n) SRC[p2] = (uint8_t)b2;
	}
	for (rep = 0; rep < (nested & 4 ? 60 : 1); rep++)
		if (k[0] == 'e') one_enc(T, F, n, SRC, nested & 1); else one_dec(T, F, n, SRC, nested & 1);
}

int main(int argc, char **argv)
{
	char a[256];
	uint64_t seed = 1;
	int i, T, round;
	for (i = 0; i < 256; i++) VAL[i] = -1;
	for (i = 0; i < 64; i++) VAL[(uint8_t)AL[i]] = (int8_t)i;
	SB = mk(); OB = mk(); REF = malloc(2 * CAP); SRC = malloc(2 * CAP);
	signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig);
	signal(SIGALRM, onsig);
	omp_set_dynamic(0);
	t00 = now();
	if (argc > 2 && !strcmp(argv[1], "one")) {
		alarm(100);
		a[0] = 0;
		for (i = 2; i < argc; i++) { strncat(a, argv[i], 60); strcat(a, " "); }
		for (i = 0; i < 200 && !nfail; i++) run(a);
		goto done;
	}
	for (i = 1; i + 1 < argc; i += 2) {
		if (!strcmp(argv[i], "-s")) seed = strtoull(argv[i + 1], 0, 10);
		if (!strcmp(argv[i], "-T")) tlimit = atof(argv[i + 1]);
	}
	alarm((unsigned)(tlimit < 1e8 ? tlimit + 100 : 1e6));
	for (round = 0; now() - t00 < tlimit && nfail < 4; round++) {
		uint64_t q = seed * 1000 + round;
		size_t n, len, pos;
		int F, k, b;
		static const int BAD[] = {'=', 0, '-', 0xff, '\n', '_'};
		T = round < 17 ? round + 1 : 1 + (int)((q * 2654435761u >> 8) % 24);
		rs = q * 77 + 5; rnd(); rnd();
		F = rnd() % 3 ? FORCE_PLAIN : FORCE_NONE;
		n = round % 4 == 0 ? 19990 + rnd() % 40 : round % 4 == 1 ? 20000 + rnd() % 300 : 20000 + rnd() % 60000;
		snprintf(a, sizeof a, "enc %d %d %zu %llu %d", T, F, n, (unsigned long long)q, rnd() % 8 == 0);
		run(a);
		len = n / ((size_t)T * 3) * 3;
		for (k = 0; k < 3; k++) { snprintf(a, sizeof a, "enc %d %d %zu %llu %d", T, F, (size_t)T * (len ? len : 3) + k, (unsigned long long)q, 0); run(a); }
		/* decoding: whole, padded, and around the boundaries of the parts */
		for (k = 0; k < 3; k++) { snprintf(a, sizeof a, "dec %d %d %zu %llu %d %d", T, F, n / 4 * 4, (unsigned long long)q, rnd() % 8 == 0, k); run(a); }
		snprintf(a, sizeof a, "dec %d %d %zu %llu 0 0", T, F, n, (unsigned long long)q); run(a);
		len = n / ((size_t)T * 4) * 4;
		for (k = 0; k < 3; k++) {
			snprintf(a, sizeof a, "dec %d %d %zu %llu 0 %d", T, F, (size_t)T * len, (unsigned long long)q, k); run(a);
			snprintf(a, sizeof a, "dec %d %d %zu %llu 0 %d", T, F, (size_t)T * len + 4, (unsigned long long)q, k); run(a);
		}
		for (k = 0; k < 10; k++) {
			size_t m = k & 1 ? (size_t)T * len : n / 4 * 4;
			int part = 1 + rnd() % T;
			pos = (size_t)part * len - 5 + rnd() % 9;
			b = BAD[rnd() % 6];
			snprintf(a, sizeof a, "dec %d %d %zu %llu 0 %d %zu %d", T, F, m, (unsigned long long)q, (int)(rnd() % 3), pos, b); run(a);
			pos = (size_t)part * len - 2;
			snprintf(a, sizeof a, "dec %d %d %zu %llu 0 %d %zu %d %zu %d", T, F, m, (unsigned long long)q, (int)(rnd() % 3), pos + rnd() % 2, '=', pos + 1, '='); run(a);
		}
		snprintf(a, sizeof a, "dec %d %d %zu %llu 0 0 %zu %d", T, F, n / 4 * 4, (unsigned long long)q, (size_t)(rnd() % n), BAD[rnd() % 6]); run(a);
		if (round % 5 == 0) { snprintf(a, sizeof a, "stub %d %zu", T, n); run(a); }
		if (round % 3 == 0) {
			/* many meetings of the threads over small parts */
			snprintf(a, sizeof a, "enc %d %d %d %llu 4", T, FORCE_PLAIN, 20000 + (int)(rnd() % 100), (unsigned long long)q); run(a);
			snprintf(a, sizeof a, "dec %d %d %d %llu 4 %d", T, FORCE_PLAIN, 20000 + 4 * (int)(rnd() % 50), (unsigned long long)q, (int)(rnd() % 3)); run(a);
		}
	}
done:
	printf("DONE calls %ld failures %d time %.1f\n", calls, nfail, now() - t00);
	return nfail ? 1 : 0;
}
