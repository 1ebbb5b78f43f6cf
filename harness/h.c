/* Concrete counterpart of the contracts: runs the compiled library on concrete inputs.
 * Used to replay and to search for failing inputs, and as the bounded stand-in where the
 * verifier gives no answer.  It never counts as proof. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include "libbase64.h"

#ifndef AEOF
#define AEOF 1
#define EOFM 2
#endif

static const char *NAMES[] = {"avx2", "neon32", "neon64", "plain", "ssse3", "sse41", "sse42", "avx", "avx512"};
enum { NC = 9, PLAIN = 3 };
static int have[NC];            /* in the build and runnable here */
static int inbuild[NC];
static uint64_t rs;
static double tlimit = 1e9, t00;
static long calls;
static int quiet_props;

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static int timeup(void) { return now() - t00 > tlimit; }

/* ---------------------------------------------------------------- reference */
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val(uint8_t c) { const char *p = c ? strchr(AL, c) : 0; return p ? (int)(p - AL) : -1; }
static int8_t VAL[256];
static size_t Ef(size_t k) { return k / 3 * 4 + k % 3; }
static size_t Df(size_t k) { return k / 4 * 3 + (k % 4) * 3 / 4; }

/* stream encoding of data after b pending bytes p; returns the count; *pb, *pc: successor state */
static size_t ref_enc(int b, const uint8_t *p, const uint8_t *d, size_t n, uint8_t *o, int *pb, int *pc)
{
	size_t k = 0, i;
	int r = b;
	uint8_t prev = b ? p[b - 1] : 0;
	for (i = 0; i < n; i++) {
		uint8_t c = d[i];
		if (r == 0) { o[k++] = AL[c >> 2]; r = 1; }
		else if (r == 1) { o[k++] = AL[(prev & 3) << 4 | c >> 4]; r = 2; }
		else { o[k++] = AL[(prev & 15) << 2 | c >> 6]; o[k++] = AL[c & 63]; r = 0; }
		prev = c;
	}
	*pb = r;
	*pc = r == 1 ? (prev & 3) << 4 : r == 2 ? (prev & 15) << 2 : -1;
	return k;
}

static size_t ref_final(int b, const uint8_t *p, uint8_t *o)
{
	if (b == 1) { o[0] = AL[(p[0] & 3) << 4]; o[1] = o[2] = '='; return 3; }
	if (b == 2) { o[0] = AL[(p[1] & 15) << 2]; o[1] = '='; return 2; }
	return 0;
}

struct dres { int ret, eof, bytes, carry; size_t ol; };   /* -1: not determined */

static struct dres ref_dec(int b, int q0, int eof, const uint8_t *d, size_t n, uint8_t *o)
{
	struct dres r = {0, eof, b, -1, 0};
	size_t P = 0;
	int prev = q0, k;
	if (eof == EOFM) { r.bytes = -1; return r; }
	if (eof == AEOF) {
		if (n == 0) return r;
		r.ret = d[0] == '=' && n == 1; r.eof = EOFM; r.bytes = 0;
		return r;
	}
	k = b;
	while (P < n && VAL[d[P]] >= 0) {
		int q = VAL[d[P]];
		if (k == 1) o[r.ol++] = (uint8_t)(prev << 2 | q >> 4);
		if (k == 2) o[r.ol++] = (uint8_t)(prev << 4 | q >> 2);
		if (k == 3) o[r.ol++] = (uint8_t)(prev << 6 | q);
		k = (k + 1) & 3; prev = q; P++;
	}
	if (P == n) {
		r.ret = 1; r.eof = 0; r.bytes = k;
		r.carry = k == 1 ? prev << 2 & 255 : k == 2 ? prev << 4 & 255 : k == 3 ? prev << 6 & 255 : -1;
		return r;
	}
	r.eof = EOFM;
	if (d[P] != '=' || k < 2) { r.ret = 0; r.bytes = -1; return r; }
	r.bytes = 0;
	if (k == 3) { r.ret = P + 1 == n; return r; }
	if (P + 1 == n) { r.ret = 1; r.eof = AEOF; r.bytes = 3; return r; }
	r.ret = d[P + 1] == '=' && P + 2 == n;
	return r;
}

static int ref_dec1(const uint8_t *d, size_t n, uint8_t *o, size_t *ol)
{
	struct dres r = ref_dec(0, 0, 0, d, n, o);
	*ol = r.ol;
	return r.ret && r.bytes == 0;
}

/* no set bits behind the last byte: the text is the encoding of what it decodes to */
static int canonical(const uint8_t *d, size_t n)
{
	if (n >= 4 && d[n - 1] == '=') return d[n - 2] == '=' ? (VAL[d[n - 3]] & 15) == 0 : (VAL[d[n - 2]] & 3) == 0;
	return 1;
}

/* ---------------------------------------------------------------- buffers with guard pages */
static size_t PG;
struct buf { uint8_t *lo, *hi; };
static struct buf SB, OB, OB2;
static size_t CAP;

static struct buf mkbuf(size_t cap)
{
	struct buf b;
	uint8_t *p = mmap(0, cap + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p + PG, cap, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(2); }
	b.lo = p + PG; b.hi = p + PG + cap;
	return b;
}
static uint8_t *place(struct buf *b, size_t n, int end, int sh) { return end ? b->hi - n : b->lo + sh; }

static sigjmp_buf jb;
static volatile uint8_t *faddr;
static volatile int fsig;
static void onsig(int s, siginfo_t *i, void *c) { (void)c; fsig = s; faddr = i->si_addr; siglongjmp(jb, 1); }

/* ---------------------------------------------------------------- hidden data of the library */
#ifdef WATCH
extern char __start_b64data[] __attribute__((weak)), __stop_b64data[] __attribute__((weak));
static char *snap;
static size_t snapn;
static void snap_take(void) { snapn = __start_b64data ? (size_t)(__stop_b64data - __start_b64data) : 0; if (!snap && snapn) snap = malloc(snapn); if (snapn) memcpy(snap, __start_b64data, snapn); }
static int snap_diff(void) { return snapn && memcmp(snap, __start_b64data, snapn) != 0; }
#else
static void snap_take(void) {}
static int snap_diff(void) { return 0; }
#endif

/* ---------------------------------------------------------------- reports */
static struct { char prop[8]; int n; } seen[64];
static int nseen, nfail;
static const char *curtest = "";
static char curargs[70000];

static void hex(char *o, const uint8_t *d, size_t n) { size_t i; for (i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", d[i]); o[2 * n] = 0; if (!n) strcpy(o, "-"); }
static uint64_t genseed; static int genkind = -1; /* how a large input was made */

static struct { const char *t; int codec, b, eof, nc; const uint8_t *p, *d; size_t n; const size_t *cut; } D;

static void describe(const char *t, int codec, int b, int eof, const uint8_t *p, const uint8_t *d, size_t n)
{
	D.t = t; D.codec = codec; D.b = b; D.eof = eof; D.p = p; D.d = d; D.n = n; D.nc = 0;
	curtest = t;
}

static void render(void)
{
	static char hp[16], hd[66000];
	char *e;
	int j;
	if (!D.t) return;
	hex(hp, D.p, D.b);
	if (D.n <= 32000) hex(hd, D.d, D.n);
	else snprintf(hd, sizeof hd, "gen:%d:%llu:%zu", genkind, (unsigned long long)genseed, D.n);
	snprintf(curargs, sizeof curargs, "%s %s %d %d %s %s", D.t, NAMES[D.codec], D.b, D.eof, hp, hd);
	e = curargs + strlen(curargs);
	for (j = 0; j < D.nc; j++) e += sprintf(e, " %zu", D.cut[j]);
}

static void fail(const char *prop, const char *fmt, const char *a, long x, long y)
{
	int i;
	char msg[400];
	nfail++;
	for (i = 0; i < nseen; i++) if (!strcmp(seen[i].prop, prop)) break;
	if (i == nseen) { strcpy(seen[nseen].prop, prop); seen[nseen].n = 0; nseen++; }
	if (seen[i].n++ >= 2) return;
	render();
	snprintf(msg, sizeof msg, fmt, a, x, y);
	printf("FAIL %s one %s # %s\n", prop, curargs, msg);
	fflush(stdout);
}

static struct base64_state mkstate(int codec, int b, int carry, int eof)
{
	struct base64_state st;
	(void)codec;
	memset(&st, 0, sizeof st);
	st.eof = eof; st.bytes = b; st.carry = (unsigned char)carry; st.flags = 0;
	return st;
}

static int curcodec = -1;
static void force(int codec)
{
	struct base64_state st;
	if (curcodec == codec) return;
	base64_stream_decode_init(&st, 1 << codec);
	base64_stream_encode_init(&st, 1 << codec);
	curcodec = codec;
}

#define GUARD(stmt) (calls++, sigsetjmp(jb, 1) == 0 ? ((void)(stmt), 0) : 1)

static void crash(const char *prop1, const char *prop2, const char *what, uint8_t *src, size_t n, uint8_t *out, size_t cap)
{
	char m[200];
	long so = (long)((uint8_t *)faddr - src), oo = (long)((uint8_t *)faddr - out);
	(void)n; (void)cap;
	snprintf(m, sizeof m, "%s: signal %d, fault at src%+ld (n=%zu) / out%+ld (cap %zu)", what, fsig, so, n, oo, cap);
	fail(prop1, "%s%.0ld%.0ld", m, 0, 0);
	if (prop2) fail(prop2, "%s%.0ld%.0ld", m, 0, 0);
}

/* ---------------------------------------------------------------- encode */
static uint8_t REF[1 << 21], TMP[1 << 21];

struct eres { size_t ol; int bytes, carry, crashed; };

static struct eres run_enc(int codec, int b, int carry, const uint8_t *d, size_t n, size_t cap, int end, int sh, uint8_t **po, struct buf *ob)
{
	struct eres r = {0, 0, 0, 0};
	uint8_t *s = place(&SB, n, end, sh), *o = place(ob, cap, end, sh);
	struct base64_state st;
	size_t ol = (size_t)-77;
	size_t slack = end ? 0 : 96;
	force(codec);
	memcpy(s, d, n);
	memset(o, 0xA5, cap + slack);
	st = mkstate(codec, b, carry, b ? 0 : 7);
	st.flags = 1 << codec;
	snap_take();
	*po = o;
	if (GUARD(base64_stream_encode(&st, (char *)s, n, (char *)o, &ol))) {
		r.crashed = 1;
		crash("C05", "C01", "encode", s, n, o, cap);
		return r;
	}
	if (snap_diff()) fail("C15", "%s: library data changed by an encode call%.0ld%.0ld", "enc", 0, 0);
	if (memcmp(s, d, n)) fail("C05", "%s: the source was modified%.0ld%.0ld", "enc", 0, 0);
	if (slack) { size_t i; for (i = 0; i < slack; i++) if (o[cap + i] != 0xA5) { fail("C05", "%s: byte %ld beyond the %ld reported bytes was written", "enc", (long)i, (long)cap); break; } }
	if (slack && sh) { int i; for (i = 0; i < sh; i++) if (ob->lo[i] != 0x5A) { fail("C05", "%s: byte %ld before the output was written%.0ld", "enc", (long)(i - sh), 0); break; } }
	r.ol = ol; r.bytes = st.bytes; r.carry = st.bytes ? st.carry : -1;
	return r;
}

static void t_enc(int codec, int b, const uint8_t *p, const uint8_t *d, size_t n, int end, int sh)
{
	int rb, rc, carry = b == 1 ? (p[0] & 3) << 4 : b == 2 ? (p[1] & 15) << 2 : 0x55 & 63;
	size_t k;
	uint8_t *o, *o2;
	struct eres r, q;
	describe("enc", codec, b, 0, p, d, n);
	k = ref_enc(b, p, d, n, REF, &rb, &rc);
	if (sh) memset(OB.lo, 0x5A, sh);
	r = run_enc(codec, b, carry, d, n, k, end, sh, &o, &OB);
	if (r.crashed) return;
	if (r.ol != k) { fail("C01", "%s: outlen %ld, expected %ld", "enc", (long)r.ol, (long)k); fail("C02", "%s: outlen %ld, expected %ld", "enc", (long)r.ol, (long)k); }
	else if (memcmp(o, REF, k)) {
		size_t i = 0;
		while (o[i] == REF[i]) i++;
		fail("C01", "%s: wrong character at %ld of %ld", "enc", (long)i, (long)k);
		fail("C02", "%s: wrong character at %ld of %ld", "enc", (long)i, (long)k);
	} else if (r.bytes != rb || (rb && r.carry != rc)) {
		fail("C01", "%s: state bytes %ld carry %ld", "enc", r.bytes, r.carry);
		fail("C02", "%s: state bytes %ld carry %ld", "enc", r.bytes, r.carry);
	} else return;
	if (codec == PLAIN) return;
	if (sh) memset(OB2.lo, 0x5A, sh);
	q = run_enc(PLAIN, b, carry, d, n, k, end, sh, &o2, &OB2);
	if (q.crashed) return;
	if (q.ol != r.ol || q.bytes != r.bytes || q.carry != r.carry || memcmp(o, o2, k < r.ol ? k : r.ol))
		fail("C07", "%s: differs from plain (outlen %ld, plain %ld)", "enc", (long)r.ol, (long)q.ol);
}

static void t_enc1(int codec, const uint8_t *d, size_t n, int end)
{
	int rb, rc;
	size_t k, cap, ol = (size_t)-77;
	uint8_t *s, *o;
	describe("enc1", codec, 0, 0, d, d, n);
	k = ref_enc(0, d, d, n, REF, &rb, &rc);
	k += ref_final(rb, d + n - rb, REF + k);
	cap = k;
	s = place(&SB, n, end, 0); o = place(&OB, cap, end, 0);
	memcpy(s, d, n);
	memset(o, 0xA5, cap + (end ? 0 : 64));
	curcodec = -1;
	if (GUARD(base64_encode((char *)s, n, (char *)o, &ol, 1 << codec))) { crash("C05", "C01", "one-shot encode", s, n, o, cap); return; }
	if (!end) { int i; for (i = 0; i < 64; i++) if (o[cap + i] != 0xA5) { fail("C05", "%s: wrote beyond the output (%ld)%.0ld", "enc1", i, 0); break; } }
	if (ol != k) { fail("C01", "%s: outlen %ld, expected %ld", "enc1", (long)ol, (long)k); fail("C02", "%s: outlen %ld, expected %ld", "enc1", (long)ol, (long)k); fail("C10", "%s: outlen %ld, expected %ld", "enc1", (long)ol, (long)k); }
	else if (memcmp(o, REF, k)) { fail("C01", "%s: wrong text%.0ld%.0ld", "enc1", 0, 0); fail("C02", "%s: wrong text%.0ld%.0ld", "enc1", 0, 0); fail("C10", "%s: wrong text%.0ld%.0ld", "enc1", 0, 0); }
}

static void t_final(int b, const uint8_t *p)
{
	uint8_t ref[4], *o;
	size_t k = ref_final(b, p, ref), ol = (size_t)-77;
	struct base64_state st = mkstate(PLAIN, b, b == 1 ? (p[0] & 3) << 4 : b == 2 ? (p[1] & 15) << 2 : 0, 0), s0;
	describe("final", PLAIN, b, 0, p, p, 0);
	s0 = st;
	o = place(&OB, k, 1, 0);
	snap_take();
	if (GUARD(base64_stream_encode_final(&st, (char *)o, &ol))) { crash("C05", "C01", "final", o, 0, o, k); return; }
	if (snap_diff()) fail("C15", "%s: library data changed%.0ld%.0ld", "final", 0, 0);
	if (ol != k || memcmp(o, ref, k)) { fail("C01", "%s: outlen %ld, expected %ld", "final", (long)ol, (long)k); fail("C02", "%s: outlen %ld, expected %ld", "final", (long)ol, (long)k); }
	(void)s0;
}

/* ---------------------------------------------------------------- decode */
struct drun { struct dres r; int crashed; uint8_t *o; };

static struct drun run_dec(int codec, int b, int carry, int eof, const uint8_t *d, size_t n, size_t cap, int end, int sh, struct buf *ob)
{
	struct drun r;
	uint8_t *s = place(&SB, n, end, sh), *o = place(ob, cap, end, sh);
	struct base64_state st;
	size_t ol = (size_t)-77;
	size_t slack = end ? 0 : 96;
	memset(&r, 0, sizeof r);
	force(codec);
	memcpy(s, d, n);
	memset(o, 0xA5, cap + slack);
	st = mkstate(codec, b, carry, eof);
	snap_take();
	r.o = o;
	if (GUARD(r.r.ret = base64_stream_decode(&st, (char *)s, n, (char *)o, &ol))) {
		r.crashed = 1;
		crash("C06", 0, "decode", s, n, o, cap);
		return r;
	}
	if (snap_diff()) fail("C15", "%s: library data changed by a decode call%.0ld%.0ld", "dec", 0, 0);
	if (memcmp(s, d, n)) fail("C06", "%s: the source was modified%.0ld%.0ld", "dec", 0, 0);
	if (slack) { size_t i; for (i = 0; i < slack; i++) if (o[cap + i] != 0xA5) { fail("C06", "%s: byte %ld beyond the allowed %ld was written", "dec", (long)i, (long)cap); break; } }
	if (slack && sh) { int i; for (i = 0; i < sh; i++) if (ob->lo[i] != 0x5A) { fail("C06", "%s: byte %ld before the output was written%.0ld", "dec", (long)(i - sh), 0); break; } }
	if (ol > cap) fail("C06", "%s: reported length %ld above the bound %ld", "dec", (long)ol, (long)cap);
	r.r.ol = ol; r.r.eof = st.eof; r.r.bytes = st.bytes; r.r.carry = st.carry;
	return r;
}

static int same_state(struct dres *a, struct dres *b)
{
	if (a->ret != b->ret || a->ol != b->ol || a->eof != b->eof) return 0;
	if (a->eof == EOFM && !a->ret) return 1;
	if (a->eof == EOFM) return (a->bytes == 0) == (b->bytes == 0);
	if (a->bytes != b->bytes) return 0;
	return a->eof != 0 || a->bytes == 0 || a->carry == b->carry;
}

static void t_dec(int codec, int b, int eof, const uint8_t *p, const uint8_t *d, size_t n, int end, int sh)
{
	int q0 = b && eof == 0 ? VAL[p[b - 1]] : 0, carry = b == 1 ? q0 << 2 & 255 : b == 2 ? q0 << 4 & 255 : b == 3 ? q0 << 6 & 255 : 0x5c;
	struct dres x;
	struct drun r, q;
	size_t cap;
	int badout;
	describe("dec", codec, b, eof, p, d, n);
	x = ref_dec(b, q0, eof, d, n, REF);
	cap = eof ? 0 : Df(b + n) - Df(b);
	if (sh) memset(OB.lo, 0x5A, sh);
	r = run_dec(codec, b, carry, eof, d, n, cap, end, sh, &OB);
	if (r.crashed) return;
	badout = r.r.ol != x.ol || memcmp(r.o, REF, x.ol < cap ? x.ol : cap) != 0;
	if (x.ret == 1 && (badout || r.r.ret != 1 || r.r.eof != x.eof || (x.bytes >= 0 && r.r.bytes != x.bytes) || (x.eof == 0 && x.bytes && r.r.carry != x.carry)))
		fail("C02", "%s: part of a valid text: ret %ld outlen %ld", "dec", r.r.ret, (long)r.r.ol);
	if (codec != PLAIN && (badout || r.r.ret != x.ret || r.r.eof != x.eof || (x.bytes >= 0 && r.r.bytes != x.bytes) || (x.carry >= 0 && r.r.carry != x.carry))) {
		if (sh) memset(OB2.lo, 0x5A, sh);
		q = run_dec(PLAIN, b, carry, eof, d, n, cap, end, sh, &OB2);
		if (!q.crashed && (!same_state(&r.r, &q.r) || memcmp(r.o, q.o, r.r.ol < cap ? r.r.ol : cap)))
			fail("C07", "%s: differs from plain (ret %ld, plain %ld)", "dec", r.r.ret, q.r.ret);
	}
}

static void t_dec1(int codec, const uint8_t *d, size_t n, int end)
{
	size_t k, cap = Df(n), ol = (size_t)-77;
	uint8_t *s, *o;
	int x, r = 0;
	describe("dec1", codec, 0, 0, d, d, n);
	x = ref_dec1(d, n, REF, &k);
	s = place(&SB, n, end, 0); o = place(&OB, cap, end, 0);
	memcpy(s, d, n);
	memset(o, 0xA5, cap + (end ? 0 : 64));
	curcodec = -1;
	if (GUARD(r = base64_decode((char *)s, n, (char *)o, &ol, 1 << codec))) { crash("C06", 0, "one-shot decode", s, n, o, cap); return; }
	if (!end) { int i; for (i = 0; i < 64; i++) if (o[cap + i] != 0xA5) { fail("C06", "%s: wrote beyond the output (%ld)%.0ld", "dec1", i, 0); break; } }
	if (ol > cap) fail("C06", "%s: reported length %ld above the bound %ld", "dec1", (long)ol, (long)cap);
	if (r != x) { fail("C03", "%s: returned %ld, expected %ld", "dec1", r, x); fail("C10", "%s: returned %ld, expected %ld", "dec1", r, x); }
	if (x == 1 && canonical(d, n) && (r != 1 || ol != k || memcmp(o, REF, k))) fail("C02", "%s: valid text decoded to the wrong bytes (outlen %ld, expected %ld)", "dec1", (long)ol, (long)k);
	if (ol != k || memcmp(o, REF, k < cap ? k : cap)) fail("C10", "%s: wrong output (outlen %ld, expected %ld)", "dec1", (long)ol, (long)k);
}

/* C04: cut the text at the given points, compare with a single call */
static void t_cut(int codec, const uint8_t *d, size_t n, const size_t *cut, int nc)
{
	struct base64_state a, c;
	size_t ola = 0, w = 0, ol, pos = 0;
	int ra, rc = 1, i, failed = 0;
	static uint8_t oa[1 << 16], oc[1 << 16];
	char m[200];
	describe("cut", codec, 0, 0, d, d, n);
	D.cut = cut; D.nc = nc;
	curcodec = -1;
	base64_stream_decode_init(&a, 1 << codec);
	if (GUARD(ra = base64_stream_decode(&a, (const char *)d, n, (char *)oa, &ola))) { crash("C04", 0, "single call", (uint8_t *)d, n, oa, 0); return; }
	base64_stream_decode_init(&c, 1 << codec);
	for (i = 0; i <= nc; i++) {
		size_t e = i < nc ? cut[i] : n;
		if (e <= pos) continue;
		ol = (size_t)-77;
		if (!rc) failed = 1;
		if (GUARD(rc = base64_stream_decode(&c, (const char *)d + pos, e - pos, (char *)oc + w, &ol))) { crash("C04", 0, "chunk", (uint8_t *)d, n, oc, 0); return; }
		if (ol > sizeof oc - w) { fail("C04", "%s: outlen %ld%.0ld", "cut", (long)ol, 0); return; }
		w += ol;
		pos = e;
	}
	if (w != ola || memcmp(oa, oc, w)) { snprintf(m, sizeof m, "output differs: %zu bytes in chunks, %zu in one call", w, ola); fail("C04", "%s%.0ld%.0ld", m, 0, 0); }
	if (!failed) {
		int sa = a.eof == EOFM && !ra, ok = ra == rc && a.eof == c.eof;
		if (ok && !sa) ok = a.bytes == c.bytes || (a.eof == EOFM && (a.bytes == 0) == (c.bytes == 0));
		if (ok && a.eof == 0 && a.bytes) ok = a.carry == c.carry;
		if (!ok) fail("C04", "%s: return value or state differs (one call %ld, chunks %ld)", "cut", ra, rc);
	}
	if (canonical(d, n)) {
		size_t k;
		if (ref_dec1(d, n, REF, &k) == 1 && (failed || rc != 1 || w != k || memcmp(oc, REF, k))) fail("C02", "%s: valid text is not restored when it comes in chunks (last return %ld, %ld bytes)", "cut", rc, (long)w);
	}
	if (!ra && rc) fail("C04", "%s: rejected text ends accepted in chunks (one call %ld, chunks %ld)", "cut", ra, rc);
}

/* C07: switch the codec between the calls of one stream */
/* covered by t_enc and t_dec: every call from every state equals the plain codec's */

/* C09 */
static void t_stub(int codec, int b, int eof, size_t n)
{
	struct base64_state st, s0;
	uint8_t *s = SB.lo - PG, *o = OB.lo - PG;   /* no access at all is allowed */
	size_t ol = 99;
	int r = 0;
	uint8_t p[4] = {'A', 'B', 'C', 'D'};
	describe("stub", codec, b, eof, p, p, 0);
	curcodec = -1;
	force(codec);
	st = mkstate(codec, b, 0x34, eof);
	s0 = st;
	if (GUARD(base64_stream_encode(&st, (char *)s, n, (char *)o, &ol))) { crash("C09", 0, "absent encoder", s, n, o, 0); return; }
	if (ol != 0) fail("C09", "%s: absent encoder reports %ld bytes%.0ld", "stub", (long)ol, 0);
	if (memcmp(&st, &s0, sizeof st)) fail("C09", "%s: absent encoder changed the state%.0ld%.0ld", "stub", 0, 0);
	ol = 99;
	if (GUARD(r = base64_stream_decode(&st, (char *)s, n, (char *)o, &ol))) { crash("C09", 0, "absent decoder", s, n, o, 0); return; }
	if (r != -1 || ol != 0) fail("C09", "%s: absent decoder returns %ld, outlen %ld", "stub", r, (long)ol);
	if (memcmp(&st, &s0, sizeof st)) fail("C09", "%s: absent decoder changed the state%.0ld%.0ld", "stub", 0, 0);
	ol = 99;
	curcodec = -1;
	if (GUARD(r = base64_decode((char *)s, n, (char *)o, &ol, 1 << codec))) { crash("C09", 0, "absent one-shot decoder", s, n, o, 0); return; }
	if (r != -1 || ol != 0) fail("C09", "%s: absent one-shot decoder returns %ld, outlen %ld", "stub", r, (long)ol);
}

/* C15: two streams interleaved behave as each on its own */
static void t_inter(int codec, size_t n, size_t step)
{
	static uint8_t d[2][4096], o[2][8192], x[8192];
	struct base64_state s[2];
	size_t w[2] = {0, 0}, ol, i, k;
	int j, rb, rc;
	describe("inter", codec, 0, 0, d[0], d[0], 0);
	for (j = 0; j < 2; j++) for (i = 0; i < n; i++) d[j][i] = (uint8_t)rnd();
	curcodec = -1;
	for (j = 0; j < 2; j++) base64_stream_encode_init(&s[j], 1 << codec);
	for (i = 0; i < n; i += step)
		for (j = 0; j < 2; j++) {
			size_t m = i + step > n ? n - i : step;
			ol = 0;
			if (GUARD(base64_stream_encode(&s[j], (char *)d[j] + i, m, (char *)o[j] + w[j], &ol)) || ol > 6000) { fail("C15", "%s: crash%.0ld%.0ld", "inter", 0, 0); return; }
			w[j] += ol;
			if (w[j] > 8000) return;
		}
	for (j = 0; j < 2; j++) {
		struct base64_state t;
		size_t w2 = 0;
		base64_stream_encode_init(&t, 1 << codec);
		for (i = 0; i < n; i += step) {
			size_t m = i + step > n ? n - i : step;
			ol = 0;
			if (GUARD(base64_stream_encode(&t, (char *)d[j] + i, m, (char *)x + w2, &ol)) || ol > 6000) return;
			w2 += ol;
			if (w2 > 8000) return;
		}
		if (w2 != w[j] || memcmp(x, o[j], w2)) fail("C15", "%s: interleaved encoding differs (stream %ld)%.0ld", "inter", j, 0);
		k = ref_enc(0, d[j], d[j], n, REF, &rb, &rc);
		memcpy(d[j], REF, k < 4096 ? k : 4096);
	}
	n = n * 4 / 3 < 4000 ? n * 4 / 3 : 4000;
	w[0] = w[1] = 0;
	for (j = 0; j < 2; j++) base64_stream_decode_init(&s[j], 1 << codec);
	for (i = 0; i < n; i += step)
		for (j = 0; j < 2; j++) {
			size_t m = i + step > n ? n - i : step;
			ol = 0;
			if (GUARD(base64_stream_decode(&s[j], (char *)d[j] + i, m, (char *)o[j] + w[j], &ol)) || ol > 6000) { fail("C15", "%s: crash%.0ld%.0ld", "inter", 0, 0); return; }
			w[j] += ol;
		}
	for (j = 0; j < 2; j++) {
		struct base64_state t;
		size_t w2 = 0;
		base64_stream_decode_init(&t, 1 << codec);
		for (i = 0; i < n; i += step) {
			size_t m = i + step > n ? n - i : step;
			ol = 0;
			if (GUARD(base64_stream_decode(&t, (char *)d[j] + i, m, (char *)x + w2, &ol)) || ol > 6000) return;
			w2 += ol;
		}
		if (w2 != w[j] || memcmp(x, o[j], w2)) fail("C15", "%s: interleaved decoding differs (stream %ld)%.0ld", "inter", j, 0);
	}
}

/* ---------------------------------------------------------------- very large chunks (64-bit): aliased pages */
static void t_huge(int codec, size_t n, int dec)
{
#if SIZE_MAX > 0xffffffffu
	size_t W = 6u << 20, i, cap = dec ? Df(n) : Ef(n), ol = 0, sn = (n + W - 1) / W * W, on = (cap + 8u * (1u << 20) - 1) / (8u << 20) * (8u << 20);
	size_t SW = dec ? (8u << 20) : W, OW = dec ? W : (8u << 20);
	int fs = memfd_create("s", 0), fo = memfd_create("o", 0), rb, rc, r = 1;
	uint8_t *s, *o, *small;
	struct base64_state st;
	(void)sn; (void)on;
	if (fs < 0 || fo < 0 || ftruncate(fs, SW) || ftruncate(fo, OW)) return;
	sn = (n + SW - 1) / SW * SW; on = (cap + OW - 1) / OW * OW;
	small = mmap(0, SW, PROT_READ | PROT_WRITE, MAP_SHARED, fs, 0);
	rs = 12345;
	if (dec) for (i = 0; i < SW; i++) small[i] = AL[rnd() & 63];
	else for (i = 0; i < SW; i++) small[i] = (uint8_t)rnd();
	s = mmap(0, sn + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	o = mmap(0, on + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (s == MAP_FAILED || o == MAP_FAILED) return;
	s += PG; o += PG;
	for (i = 0; i < sn; i += SW) if (mmap(s + i, SW, PROT_READ, MAP_SHARED | MAP_FIXED, fs, 0) == MAP_FAILED) return;
	for (i = 0; i < on; i += OW) if (mmap(o + i, OW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fo, 0) == MAP_FAILED) return;
	D.t = 0;
	snprintf(curargs, sizeof curargs, "huge %s %d 0 - %zu", NAMES[codec], dec, n);
	curcodec = -1;
	if (dec) base64_stream_decode_init(&st, 1 << codec); else base64_stream_encode_init(&st, 1 << codec);
	if (GUARD(dec ? (r = base64_stream_decode(&st, (char *)s, n, (char *)o, &ol)) : (base64_stream_encode(&st, (char *)s, n, (char *)o, &ol), 0))) {
		crash(dec ? "C06" : "C05", dec ? "C02" : "C01", "huge", s, n, o, cap);
	} else {
		/* the last window of the output */
		size_t from = (cap > OW ? (cap - OW + OW / 2) : 0) / (dec ? 3 : 4), k;
		const char *c1 = dec ? "C02" : "C01";
		int bad = 0;
		if (ol != cap) { fail(c1, "%s: outlen %ld, expected %ld", "huge", (long)ol, (long)cap); if (codec != PLAIN) fail("C07", "%s: outlen %ld, expected %ld", "huge", (long)ol, (long)cap); fail("C02", "%s: outlen %ld, expected %ld", "huge", (long)ol, (long)cap); }
		if (dec) { struct dres x = ref_dec(0, 0, 0, s + 4 * from, n - 4 * from > (1u << 20) ? (1u << 20) : n - 4 * from, REF); k = x.ol; bad = memcmp(REF, o + 3 * from, k) != 0 || r != 1 || st.bytes != (int)(n % 4); }
		else { k = ref_enc(0, s, s + 3 * from, n - 3 * from > (1u << 20) ? (1u << 20) : n - 3 * from, REF, &rb, &rc); bad = memcmp(REF, o + 4 * from, k) != 0 || st.bytes != (int)(n % 3); }
		if (bad) { fail(c1, "%s: wrong result for %ld bytes%.0ld", "huge", (long)n, 0); fail("C02", "%s: wrong result for %ld bytes%.0ld", "huge", (long)n, 0); if (codec != PLAIN) fail("C07", "%s: wrong result for %ld bytes%.0ld", "huge", (long)n, 0); }
	}
	munmap(s - PG, sn + 2 * PG); munmap(o - PG, on + 2 * PG); munmap(small, SW);
	close(fs); close(fo);
#else
	(void)codec; (void)n; (void)dec;
#endif
}

/* ---------------------------------------------------------------- search */
static uint8_t DATA[1 << 21];

static void gen(int kind, uint64_t seed, size_t n)
{
	size_t i;
	genseed = seed; genkind = kind;
	rs = seed * 0x9E3779B97F4A7C15ull + 1;
	for (i = 0; i < 4; i++) rnd();
	if (kind == 0) for (i = 0; i < n; i++) DATA[i] = (uint8_t)rnd();
	else for (i = 0; i < n; i++) DATA[i] = AL[rnd() & 63];
}

static const uint8_t BAD[] = {'=', 0, '-', '_', ',', '.', ':', '@', '[', '`', '{', '~', 0x7f, 0x80, 0xff, '\n', ' ', '*', '!', 0xab, 0xc1, 0xfa, 0xdb, 0xaf, 0xe1, 0xb0, 0x5c};

static void search_enc(int c, int lmax, uint64_t seed)
{
	size_t n;
	uint8_t p[2] = {0xd7, 0x3e};
	int b, v;
	for (b = 0; b < 3; b++) for (v = 0; v < (b == 0 ? 1 : b == 1 ? 256 : 256); v++) { uint8_t q[2]; q[0] = b == 1 ? v : 0x11; q[1] = v; t_final(b, q); }
	for (n = 0; n <= (size_t)lmax && !timeup(); n++) {
		gen(0, seed + n, n + 2);
		p[0] = (uint8_t)rnd(); p[1] = (uint8_t)rnd();
		for (b = 0; b < 3; b++) { t_enc(c, b, p, DATA, n, 1, 0); t_enc(c, b, p, DATA, n, 0, 0); if (n < 300) t_enc(c, b, p, DATA, n, 0, 1 + (int)(n % 31)); }
		if (n < 700) { t_enc1(c, DATA, n, 1); t_enc1(c, DATA, n, 0); }
	}
	/* each value at each position */
	for (n = 1; n < 110 && !timeup(); n += 13) {
		size_t pos; int x;
		for (pos = 0; pos < n; pos++) for (x = 0; x < 256; x++) { gen(0, seed + x, n); DATA[pos] = (uint8_t)x; t_enc(c, (int)(pos % 3), p, DATA, n, 1, 0); }
	}
	/* large random */
	for (v = 0; v < 6 && !timeup(); v++) { size_t m = 300000 + 7919 * v; gen(0, seed * 77 + v, m); t_enc(c, v % 3, p, DATA, m, 1, 0); }
}

static void search_dec(int c, int lmax, uint64_t seed)
{
	size_t n, pos;
	int b, v, i;
	uint8_t p[4] = {'A', '/', 'k', 'Q'};
	for (n = 0; n <= (size_t)lmax && !timeup(); n++) {
		gen(1, seed + n, n + 8);
		for (b = 0; b < 4; b++) {
			for (i = 0; i < 4; i++) p[i] = AL[rnd() & 63];
			t_dec(c, b, 0, p, DATA, n, 1, 0); t_dec(c, b, 0, p, DATA, n, 0, 0);
			if (n < 300) t_dec(c, b, 0, p, DATA, n, 0, 1 + (int)(n % 31));
		}
		if (n % 4 == 0 && n < 900) {
			t_dec1(c, DATA, n, 1); t_dec1(c, DATA, n, 0);
			if (n) { DATA[n - 1] = '='; t_dec1(c, DATA, n, 1); t_dec(c, 0, 0, p, DATA, n, 1, 0); DATA[n - 2] = '='; t_dec1(c, DATA, n, 1); t_dec(c, 0, 0, p, DATA, n, 1, 0); }
		} else if (n < 900) t_dec1(c, DATA, n, 1);
		if (n < 10) for (v = 0; v < 256; v++) { DATA[0] = (uint8_t)v; t_dec(c, 3, AEOF, p, DATA, n, 1, 0); t_dec(c, 0, EOFM, p, DATA, n, 1, 0); }
	}
	/* malformed */
	for (n = 1; n <= (size_t)(lmax < 220 ? lmax : 220) && !timeup(); n += (n < 80 ? 1 : 7)) {
		for (pos = 0; pos < n; pos++) {
			int nb = pos % 8 == (n & 7) ? 256 : (int)sizeof BAD;
			for (i = 0; i < nb; i++) {
				uint8_t x = nb == 256 ? (uint8_t)i : BAD[i];
				gen(1, seed + n * 3 + 1, n);
				DATA[pos] = x;
				b = (int)((pos + i) & 3);
				t_dec(c, b, 0, p, DATA, n, i & 1, 0);
				if (i < 6) { t_dec(c, (b + 1) & 3, 0, p, DATA, n, 1, 0); t_dec(c, 0, 0, p, DATA, n, 1, 0); }
				t_dec1(c, DATA, n, 1);
				if (pos + 1 < n) { DATA[pos + 1] = i % 3 ? '=' : x; t_dec(c, b, 0, p, DATA, n, 1, 0); t_dec1(c, DATA, n, 1); }
			}
		}
	}
	/* malformed far behind; large */
	for (v = 0; v < 60 && !timeup(); v++) {
		size_t m = 3000 + rnd() % 60000;
		gen(1, seed * 131 + v, m);
		p[0] = 'A'; p[1] = '/'; p[2] = 'k';
		t_dec(c, v & 3, 0, p, DATA, m, 1, 0);
		DATA[(v * 7919u) % m] = BAD[v % sizeof BAD];
		genkind = -1;
		if (m > 30000) m = 30000;
		t_dec(c, v & 3, 0, p, DATA, m, 1, 0);
		t_dec1(c, DATA, m, 1);
	}
	/* all values of whole groups */
	for (v = 0; v < 4 && !timeup(); v++) { size_t m = 400000 + 5 * v; gen(1, seed * 177 + v, m); t_dec(c, v & 3, 0, p, DATA, m, 1, 0); }
}

static void search_cut(int c, int rounds, uint64_t seed)
{
	int i, j;
	for (i = 0; i < rounds && !timeup(); i++) {
		size_t n, cut[16];
		int nc, kind;
		rs = seed * 1000003u + i * 2654435761u + 17; rnd(); rnd();
		n = i % 3 == 0 ? 1 + rnd() % 12 : i % 3 == 1 ? 1 + rnd() % 90 : 1 + rnd() % 400;
		kind = rnd() % 6;
		for (j = 0; j < (int)n; j++) DATA[j] = AL[rnd() & 63];
		if (kind == 1) DATA[n - 1] = '=';
		if (kind == 2 && n > 1) DATA[n - 1] = DATA[n - 2] = '=';
		if (kind == 3) DATA[rnd() % n] = BAD[rnd() % sizeof BAD];
		if (kind == 4) { DATA[rnd() % n] = '='; DATA[rnd() % n] = rnd() & 1 ? '=' : BAD[rnd() % sizeof BAD]; }
		if (kind == 5) { size_t k = rnd() % n; DATA[k] = '='; if (k + 1 < n && (rnd() & 1)) DATA[k + 1] = '='; }
		if (n <= 12 && i % 2 == 0) {
			/* every single cut */
			size_t x, y;
			for (x = 1; x < n; x++) { cut[0] = x; t_cut(c, DATA, n, cut, 1); for (y = x + 1; y < n; y++) { cut[1] = y; t_cut(c, DATA, n, cut, 2); } }
		}
		nc = 1 + rnd() % 6;
		for (j = 0; j < nc; j++) cut[j] = 1 + rnd() % n;
		for (j = 0; j < nc; j++) { int k; for (k = j + 1; k < nc; k++) if (cut[k] < cut[j]) { size_t t = cut[j]; cut[j] = cut[k]; cut[k] = t; } }
		t_cut(c, DATA, n, cut, nc);
	}
}

static int probe_codec(int c)
{
#if defined(__x86_64__) || defined(__i386__)
	__builtin_cpu_init();
	if (c == 0) return __builtin_cpu_supports("avx2");
	if (c == 4) return __builtin_cpu_supports("ssse3");
	if (c == 5) return __builtin_cpu_supports("sse4.1");
	if (c == 6) return __builtin_cpu_supports("sse4.2");
	if (c == 7) return __builtin_cpu_supports("avx");
	if (c == 8) return __builtin_cpu_supports("avx512vbmi") && __builtin_cpu_supports("avx512vl");
#endif
	return 1;
}

static size_t unhex(const char *h, uint8_t *o)
{
	size_t n = 0;
	unsigned x;
	if (!strcmp(h, "-")) return 0;
	while (h[0] && h[1] && sscanf(h, "%2x", &x) == 1) { o[n++] = (uint8_t)x; h += 2; }
	return n;
}

static int codec_no(const char *s) { int i; for (i = 0; i < NC; i++) if (!strcmp(s, NAMES[i])) return i; fprintf(stderr, "codec %s?\n", s); exit(2); }

int main(int argc, char **argv)
{
	int i, c;
	struct sigaction sa;
	stack_t ss;
	uint64_t seed = 1;
	int lmax = 300, cuts = 2000;
	const char *what = "enc,dec,cut,stub,inter";
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0;
	sigaltstack(&ss, 0);
	sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0);
	sigaction(SIGALRM, &sa, 0);
	PG = (size_t)sysconf(_SC_PAGESIZE);
	if (PG < 65536) PG = 65536;
	CAP = 1 << 21;
	SB = mkbuf(CAP); OB = mkbuf(CAP); OB2 = mkbuf(CAP);
	for (i = 0; i < 256; i++) VAL[i] = (int8_t)val((uint8_t)i);
	for (i = 0; i < NC; i++) inbuild[i] = i == PLAIN;
#ifdef CODECS
	{ char b[] = CODECS, *t; for (t = strtok(b, ","); t; t = strtok(0, ",")) inbuild[codec_no(t)] = 1; }
#endif
	for (i = 0; i < NC; i++) have[i] = inbuild[i] && probe_codec(i);
	t00 = now();
	if (argc > 1 && !strcmp(argv[1], "one")) {
		/* one TEST CODEC B EOF PREFIXHEX DATAHEX [cuts] */
		static uint8_t p[64];
		size_t n = 0;
		int b = atoi(argv[4]), eof = atoi(argv[5]);
		c = codec_no(argv[3]);
		unhex(argv[6], p);
		if (!strcmp(argv[2], "huge")) { t_huge(c, strtoull(argv[7], 0, 10), b); goto done; }
		if (!strncmp(argv[7], "gen:", 4)) { int k; unsigned long long s; sscanf(argv[7], "gen:%d:%llu:%zu", &k, &s, &n); gen(k, s, n); }
		else n = unhex(argv[7], DATA);
		alarm(20);
		if (!strcmp(argv[2], "enc")) { t_enc(c, b, p, DATA, n, 1, 0); t_enc(c, b, p, DATA, n, 0, 0); t_enc(c, b, p, DATA, n, 0, 5); }
		else if (!strcmp(argv[2], "enc1")) { t_enc1(c, DATA, n, 1); t_enc1(c, DATA, n, 0); }
		else if (!strcmp(argv[2], "dec")) { t_dec(c, b, eof, p, DATA, n, 1, 0); t_dec(c, b, eof, p, DATA, n, 0, 0); t_dec(c, b, eof, p, DATA, n, 0, 5); }
		else if (!strcmp(argv[2], "dec1")) { t_dec1(c, DATA, n, 1); t_dec1(c, DATA, n, 0); }
		else if (!strcmp(argv[2], "final")) t_final(b, p);
		else if (!strcmp(argv[2], "stub")) t_stub(c, b, eof, 100);
		else if (!strcmp(argv[2], "inter")) { size_t st; for (st = 1; st < 400; st++) t_inter(c, 1500, st); }
		else if (!strcmp(argv[2], "cut")) { size_t cut[64]; int k = 0; for (i = 8; i < argc && k < 64; i++) cut[k++] = strtoull(argv[i], 0, 10); t_cut(c, DATA, n, cut, k); }
		goto done;
	}
	for (i = 1; i + 1 < argc; i += 2) {
		if (!strcmp(argv[i], "-t")) what = argv[i + 1];
		if (!strcmp(argv[i], "-s")) seed = strtoull(argv[i + 1], 0, 10);
		if (!strcmp(argv[i], "-l")) lmax = atoi(argv[i + 1]);
		if (!strcmp(argv[i], "-c")) cuts = atoi(argv[i + 1]);
		if (!strcmp(argv[i], "-T")) tlimit = atof(argv[i + 1]);
	}
	if (tlimit < 1e8) alarm((unsigned)tlimit + 60);
	for (i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "-n")) {
		/* lengths suggested by the verifier's model */
		char *s = strdup(argv[i + 1]), *t;
		for (t = strtok(s, ","); t; t = strtok(0, ",")) {
			size_t n0 = strtoull(t, 0, 10), n;
			for (c = 0; c < NC; c++) if (have[c]) for (n = n0 > 6 ? n0 - 6 : 0; n <= n0 + 6; n++) {
				uint8_t p[4] = {'A', '/', 'k', 'Q'};
				int b;
				if (n > 1500000) { if (n == n0 && strstr(what, "huge")) { t_huge(c, n, 0); t_huge(c, n, 1); } continue; }
				gen(0, seed + n, n);
				if (strstr(what, "enc")) { for (b = 0; b < 3; b++) t_enc(c, b, p, DATA, n, 1, 0); t_enc1(c, DATA, n, 1); }
				gen(1, seed + n, n);
				if (strstr(what, "dec")) { for (b = 0; b < 4; b++) t_dec(c, b, 0, p, DATA, n, 1, 0); t_dec1(c, DATA, n, 1); }
			}
		}
	}
	for (c = 0; c < NC; c++) {
		if (!inbuild[c] && strstr(what, "stub")) {
			int b, e; size_t n;
			for (b = 0; b < 4; b++) for (e = 0; e < 3; e++) for (n = 0; n < 200; n += 7) t_stub(c, b, e, n);
			t_stub(c, 0, 0, 1000000);
		}
		if (!have[c]) continue;
		if (strstr(what, "enc")) search_enc(c, lmax, seed);
		if (strstr(what, "dec")) search_dec(c, lmax, seed);
		if (strstr(what, "cut")) search_cut(c, cuts, seed);
		if (strstr(what, "inter")) { size_t st; for (st = 1; st < 300 && !timeup(); st += 1 + st / 8) t_inter(c, 1200, st); }
		if (strstr(what, "huge")) {
			static const size_t H[] = {(size_t)1 << 31, ((size_t)1 << 32) + 100, ((size_t)3 << 31) + 7};
			int k;
			for (k = 0; k < 3 && sizeof(size_t) == 8 && !timeup(); k++) { if (strstr(what, "enc")) t_huge(c, H[k], 0); if (strstr(what, "dec")) t_huge(c, H[k], 1); }
		}
	}
done:
	printf("DONE calls %ld failures %d time %.1f codecs", calls, nfail, now() - t00);
	for (c = 0; c < NC; c++) if (have[c]) printf(" %s", NAMES[c]);
	printf("\n");
	return nfail ? 1 : 0;
}
