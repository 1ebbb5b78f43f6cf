/* Concrete counterpart of the command-line contracts: bin/base64.c (its main renamed) linked with the
 * library; every run is a forked child whose reads and writes are scripted (short reads, partial
 * writes, interrupted calls, errors).  Used to search for and replay failing inputs; never proof.
 *
 * A case is one line of eight fields:
 *   enc|dec  N  WRAP|-1|text  OPT  STYLE  SEED  RMODE  WMODE
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/stat.h>

int cli_main(int argc, char **argv);

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int8_t VAL[256];
static double t00, tlimit = 1e9;
static long calls;
static int nfail;
static uint64_t rs;
static const char *scratch;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint32_t nx(uint64_t *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return (uint32_t)(*s >> 16); }
static uint32_t rnd(void) { return nx(&rs); }
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull; x = (x ^ x >> 27) * 0x94d049bb133111ebull; return (x ^ x >> 31) | 1; }

#define CAP ((size_t)24 << 20)
struct shared { size_t out; int werr, rerr, over, badfd, slack, badfree; long nw; uint8_t data[CAP]; };
static struct shared *SH;

/* ---------------------------------------------------------------- scripted input and output (child) */
static const uint8_t *in_d;
static size_t in_n, in_p, in_err;
static int rmode, wmode;
static uint64_t rr, wr;
static long wfail;

static ssize_t rd(void *b, size_t n)
{
	size_t k = in_n - in_p, lim = n;
	if (in_err != (size_t)-1 && in_p >= in_err) { SH->rerr = 1; errno = EIO; return -1; }
	switch (rmode) {
	case 0: break;
	case 1: lim = 1 + nx(&rr) % 7; break;
	case 2: lim = 1 + nx(&rr) % 5000; break;
	case 3: lim = 1 + nx(&rr) % 400000; break;
	default: lim = 1 + nx(&rr) % (nx(&rr) & 1 ? 3 : 70000); break;
	}
	if (lim > n) lim = n;
	if (k > lim) k = lim;
	if (in_err != (size_t)-1 && k > in_err - in_p) k = in_err - in_p;
	memcpy(b, in_d + in_p, k);
	in_p += k;
	return (ssize_t)k;
}
static ssize_t ck_read(void *c, char *b, size_t n) { (void)c; return rd(b, n); }
/* how many of n bytes are accepted, or -1 */
static ssize_t pick(size_t n)
{
	size_t k = n;
	SH->nw++;
	if (wfail >= 0 && (wmode < 8 ? SH->nw > wfail : SH->nw == wfail + 1)) { SH->werr = 1; errno = wmode == 5 ? ENOSPC : EIO; return -1; }
	if (n == 0) return 0;
	switch (wmode) {
	case 0: break;
	case 1: k = 1 + nx(&wr) % n; break;
	case 2: k = 1 + nx(&wr) % 3; break;
	case 3: if (nx(&wr) & 1) { errno = EINTR; return -1; } k = nx(&wr) % 3 ? 1 + nx(&wr) % n : n; break;
	case 4: k = nx(&wr) & 3 ? 1 + nx(&wr) % n : n; break;
	case 5: break;
	case 6: if ((nx(&wr) & 3) == 0) { errno = EINTR; return -1; } k = 1 + nx(&wr) % (nx(&wr) & 1 ? 200 : 5); break;
	case 7: k = nx(&wr) & 1 ? n : n > 1 ? n - 1 : n; break;
	case 8: break;                      /* one error that goes away again */
	case 9: k = nx(&wr) & 1 ? n : 1 + nx(&wr) % n; break;
	}
	return (ssize_t)(k > n ? n : k);
}
static void take(const void *b, size_t n)
{
	if (SH->out + n > CAP) { SH->over = 1; _exit(99); }
	memcpy(SH->data + SH->out, b, n);
	SH->out += n;
}
extern ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	ssize_t k;
	if (fd == 2) return (ssize_t)n;
	if (fd != 1) { SH->badfd = 1; errno = EBADF; return -1; }
	k = pick(n);
	if (k > 0) take(b, (size_t)k);
	return k;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
	size_t n = 0, j;
	ssize_t k, left;
	int i;
	if (fd != 1) { SH->badfd = 1; errno = EBADF; return -1; }
	if (c <= 0 || c > 1024) { errno = EINVAL; SH->werr = 1; return -1; }
	for (i = 0; i < c; i++) n += v[i].iov_len;
	k = pick(n);
	for (i = 0, left = k; i < c && left > 0; i++) {
		j = v[i].iov_len < (size_t)left ? v[i].iov_len : (size_t)left;
		take(v[i].iov_base, j);
		left -= (ssize_t)j;
	}
	return k;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd != 0) { errno = EBADF; return -1; } return rd(b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t k = c ? (ssize_t)n : pick(n); if (!c && k > 0) take(b, (size_t)k); return k < 0 ? 0 : k; }

/* ---------------------------------------------------------------- allocation
 * The tool's own allocations each end at an inaccessible page; up to 15 bytes of slack before it
 * (for alignment) carry a pattern that is looked at when the block is freed or the tool ends. */
#define PG ((size_t)4096)
static struct blk { uint8_t *p; size_t n, sz, map; } BL[64];
static int nbl;
static int slack(struct blk *b)
{
	size_t i;
	for (i = b->n; i < b->sz; i++) if (b->p[i] != 0xC3) return 1;
	return 0;
}
void *__wrap_malloc(size_t n)
{
	size_t sz = (n + 15) & ~(size_t)15, map = (sz + PG - 1) / PG * PG + PG;
	uint8_t *m;
	if (n > (size_t)1 << 28 || nbl == 64) { errno = ENOMEM; return 0; }
	m = mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) return 0;
	mprotect(m + map - PG, PG, PROT_NONE);
	BL[nbl].map = map; BL[nbl].n = n; BL[nbl].sz = sz;
	BL[nbl].p = m + map - PG - sz;
	memset(BL[nbl].p + n, 0xC3, sz - n);
	return BL[nbl++].p;
}
void __wrap_free(void *p)
{
	int i;
	if (!p) return;
	for (i = 0; i < nbl; i++) if (BL[i].p == p && BL[i].map) {
		if (slack(&BL[i])) SH->slack = 1;
		mprotect(BL[i].p + BL[i].sz - (BL[i].map - PG), BL[i].map, PROT_NONE);
		BL[i].map = 0;
		return;
	}
	SH->badfree = 1;
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p;
	if (b && a > SIZE_MAX / b) { errno = ENOMEM; return 0; }
	p = __wrap_malloc(a * b);          /* fresh pages are zero; the slack is behind */
	return p;
}
void *__wrap_realloc(void *q, size_t n)
{
	int i;
	void *p = __wrap_malloc(n);
	if (!p || !q) return p;
	for (i = 0; i < nbl; i++) if (BL[i].p == q && BL[i].map) memcpy(p, q, n < BL[i].n ? n : BL[i].n);
	__wrap_free(q);
	return p;
}
static void endblocks(void)
{
	int i;
	for (i = 0; i < nbl; i++) if (BL[i].map && slack(&BL[i])) SH->slack = 1;
}

/* ---------------------------------------------------------------- reference */
static size_t ref_enc(const uint8_t *d, size_t n, uint8_t *o)
{
	size_t i, k = 0;
	for (i = 0; i < n; i += 3) {
		unsigned a = d[i], b = i + 1 < n ? d[i + 1] : 0, c = i + 2 < n ? d[i + 2] : 0;
		o[k++] = AL[a >> 2]; o[k++] = AL[(a & 3) << 4 | b >> 4];
		o[k++] = i + 1 < n ? AL[(b & 15) << 2 | c >> 6] : '=';
		o[k++] = i + 2 < n ? AL[c & 63] : '=';
	}
	return k;
}
static size_t ref_wrap(const uint8_t *t, size_t n, uint64_t w, uint8_t *o)
{
	size_t i, k = 0;
	uint64_t c = 0;
	for (i = 0; i < n; i++) {
		o[k++] = t[i];
		if (w && ++c == w) { o[k++] = '\n'; c = 0; }
	}
	if (w && c) o[k++] = '\n';
	return k;
}
/* 0: invalid, 1: valid and complete, 2: ends early */
static int ref_dec(const uint8_t *d, size_t n, uint8_t *o, size_t *ol)
{
	size_t P = 0;
	int k = 0, prev = 0;
	*ol = 0;
	while (P < n && VAL[d[P]] >= 0) {
		int q = VAL[d[P]];
		if (k == 1) o[(*ol)++] = (uint8_t)(prev << 2 | q >> 4);
		if (k == 2) o[(*ol)++] = (uint8_t)(prev << 4 | q >> 2);
		if (k == 3) o[(*ol)++] = (uint8_t)(prev << 6 | q);
		k = (k + 1) & 3; prev = q; P++;
	}
	if (P == n) return k == 0 ? 1 : 2;
	if (d[P] != '=' || k < 2) return 0;
	/* the partial byte pending before padding is not output */
	if (k == 3) return P + 1 == n ? 1 : 0;
	if (P + 1 == n) return 2;
	if (d[P + 1] != '=') return 0;
	return P + 2 == n ? 1 : 0;
}

/* ---------------------------------------------------------------- cases */
struct cs { int dec; size_t n; char w[40]; char opt[16]; int style; uint64_t seed; int rm, wm; };
static uint8_t *IN, *TX, *EX, *T2, *P0;
static size_t inn, exn, p0n;
static int want;        /* 1: must succeed, 0: must fail, 2: unspecified */

static uint8_t garb(uint64_t *s, int nl)
{
	for (;;) {
		uint8_t c = nl ? '\n' : (uint8_t)nx(s);
		if (nl || (VAL[c] < 0 && c != '=')) return c;
	}
}
static void mkinput(struct cs *c)
{
	uint64_t s = mix(c->seed * 77 + 5);
	size_t i, k, tn;
	if (!c->dec) {
		for (i = 0; i < c->n; i++) IN[i] = (uint8_t)nx(&s);
		inn = c->n;
		tn = ref_enc(IN, inn, TX);
		exn = ref_wrap(TX, tn, strcmp(c->w, "-1") ? strtoull(c->w, 0, 10) : 76, EX);
		want = 1;
		return;
	}
	for (i = 0; i < c->n; i++) T2[i] = (uint8_t)nx(&s);
	tn = ref_enc(T2, c->n, TX);
	k = 0;
	{
		int gi = strchr(c->opt, 'i') != 0, st = c->style, nl = !gi;
		uint64_t w = strtoull(c->w, 0, 10);
		size_t col = 0, bad = st == 5 && tn ? nx(&s) % tn : (size_t)-1;
		if (st == 8) nl = 0;     /* garbage in any mode */
		for (i = 0; i < tn; i++) {
			if (st == 2 && nx(&s) % 40 == 0) { unsigned q = 1 + nx(&s) % 3; while (q--) IN[k++] = garb(&s, nl || (nx(&s) & 1)); }
			if ((st == 3 || st == 8) && nx(&s) % 7 == 0) { unsigned q = 1 + nx(&s) % 4; while (q--) IN[k++] = garb(&s, nl); }
			if (st == 7) { unsigned q = nx(&s) % 12; while (q--) IN[k++] = garb(&s, nl); }
			if (i == bad) {
				unsigned q = nx(&s) % 4;
				if (q == 0) IN[k++] = '=';
				else if (q == 1) { uint8_t b = garb(&s, 0); IN[k++] = b; IN[k++] = TX[i]; }
				else if (q == 2) IN[k++] = garb(&s, 0);
				else { IN[k++] = TX[i]; IN[k++] = '='; }
			} else
				IN[k++] = TX[i];
			if ((st == 1 || st == 4 || st == 9) && w && ++col == w) { IN[k++] = '\n'; col = 0; }
		}
		if (st == 1 || st == 4) IN[k++] = '\n';
		if (st == 4) { unsigned q = nx(&s) % 9; while (q--) IN[k++] = garb(&s, nl || (nx(&s) & 1)); }
		if (st == 6 && k) k -= 1 + nx(&s) % (k < 3 ? k : 3);
		if (st == 10) { if (nx(&s) & 1) IN[k++] = '\n'; IN[k++] = nx(&s) & 1 ? '=' : 'A'; if (nx(&s) & 1) IN[k++] = nx(&s) & 1 ? 'A' : '='; }
	}
	inn = k;
	/* expected: drop what is to be dropped, then decode */
	{
		int gi = strchr(c->opt, 'i') != 0, gn = strchr(c->opt, 'n') != 0;
		for (i = k = 0; i < inn; i++) {
			if (gi && VAL[IN[i]] < 0 && IN[i] != '=') continue;
			if (!gi && !gn && IN[i] == '\n') continue;
			TX[k++] = IN[i];
		}
		want = ref_dec(TX, k, EX, &exn);
	}
}

/* one run; returns the exit status, or -1 if it died, or -2 if it did not end */
static int run(struct cs *c, int rm, int wm, size_t rerr, long wf, const char *file)
{
	static char b1[64], b2[64], b3[16];
	char *av[12];
	int ac = 0, st;
	pid_t p;
	double end;
	SH->out = 0; SH->werr = SH->rerr = SH->over = SH->badfd = SH->slack = SH->badfree = 0; SH->nw = 0;
	av[ac++] = (char *)"base64";
	if (c->dec) {
		uint64_t s = mix(c->seed + 3);
		switch (nx(&s) % 3) { case 0: av[ac++] = (char *)"-d"; break; case 1: av[ac++] = (char *)"--decode"; break; default: av[ac++] = (char *)"--dec"; }
		if (!strcmp(c->opt, "in") && nx(&s) & 1) av[ac++] = (char *)"-in";
		else {
			if (strchr(c->opt, 'i')) av[ac++] = (char *)(nx(&s) & 1 ? "-i" : "--ignore-garbage");
			if (strchr(c->opt, 'n')) av[ac++] = (char *)(nx(&s) & 1 ? "-n" : "--no-strip-newlines");
		}
	} else if (strcmp(c->w, "-1")) {
		uint64_t s = mix(c->seed + 9);
		switch (nx(&s) % 4) {
		case 0: snprintf(b1, sizeof b1, "-w%s", c->w); av[ac++] = b1; break;
		case 1: snprintf(b1, sizeof b1, "--wrap=%s", c->w); av[ac++] = b1; break;
		case 2: av[ac++] = (char *)"--wrap"; snprintf(b2, sizeof b2, "%s", c->w); av[ac++] = b2; break;
		default: av[ac++] = (char *)"-w"; snprintf(b2, sizeof b2, "%s", c->w); av[ac++] = b2;
		}
	}
	if (file) { snprintf(b3, sizeof b3, "%s", "-"); av[ac++] = strcmp(file, "-") ? (char *)file : b3; }
	av[ac] = 0;
	fflush(stdout);
	p = fork();
	if (p == 0) {
		cookie_io_functions_t fi = { ck_read, 0, 0, 0 }, fo = { 0, ck_write, 0, 0 };
		in_d = IN; in_n = inn; in_p = 0; in_err = rerr; rmode = rm; wmode = wm; wfail = wf;
		rr = mix(c->seed * 3 + 1); wr = mix(c->seed * 5 + 2);
		stdin = fopencookie(0, "r", fi);
		stdout = fopencookie(0, "w", fo);
		stderr = fopencookie((void *)1, "w", fo);
		atexit(endblocks);
		st = cli_main(ac, av);
		endblocks();
		_exit(st & 255);
	}
	end = now() + 20;
	for (long spin = 0;; spin++) {
		pid_t q = waitpid(p, &st, spin < 20000 ? WNOHANG : 0);
		if (q == p) break;
		if (spin >= 60 && spin < 20000) { struct timespec t = {0, spin < 400 ? 50000 : 5000000}; nanosleep(&t, 0); }
		if (now() > end) { kill(p, SIGKILL); waitpid(p, &st, 0); return -2; }
	}
	calls++;
	if (SH->slack) return -3;
	if (SH->badfree) return -4;
	return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

static void fail(const char *prop, struct cs *c, const char *what)
{
	nfail++;
	printf("FAIL %s %s %zu %s %s %d %llu %d %d # %s\n", prop, c->dec ? "dec" : "enc", c->n, c->w, c->opt, c->style, (unsigned long long)c->seed, c->rm, c->wm, what);
	fflush(stdout);
}

static const char *writefile(void)
{
	static char p[300];
	size_t o = 0;
	int fd;
	snprintf(p, sizeof p, "%s/input", scratch);
	fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0600);
	while (fd >= 0 && o < inn) { ssize_t k = __real_write(fd, IN + o, inn - o); if (k <= 0) break; o += (size_t)k; }
	if (fd >= 0) close(fd);
	return p;
}

static void one(struct cs *c)
{
	const char *prop = c->dec ? "C12" : "C11";
	char b[300];
	int r;
	size_t i;
	mkinput(c);
	if (c->rm >= 200) {                     /* input from a file, "-" or a missing file */
		const char *f = c->rm == 200 ? writefile() : c->rm == 201 ? "-" : "/nonexistent/input";
		r = run(c, 0, 0, (size_t)-1, -1, f);
		if (c->rm == 202) {
			if (r <= 0) fail(prop, c, "exit status 0 although the input file does not exist");
			return;
		}
	} else if (c->style == 50) {            /* invalid column count */
		r = run(c, 0, 0, (size_t)-1, -1, 0);
		if (r < -2) r = 0;
		if (r <= 0) fail("C11", c, "an invalid column count is not refused");
		else if (SH->out) fail("C11", c, "output although the column count is invalid");
		return;
	} else
		r = run(c, c->rm < 100 ? c->rm : 0, 0, (size_t)-1, -1, 0);
	if (r == -1) { fail(prop, c, "the tool died"); return; }
	if (r == -2) { fail(prop, c, "the tool does not end"); nfail += 6; return; }
	if (r == -3) { fail(prop, c, "the tool wrote behind the end of an allocated buffer"); return; }
	if (r == -4) { fail(prop, c, "the tool freed what it did not allocate"); return; }
	if (want == 1) {
		if (r != 0) { snprintf(b, sizeof b, "exit status %d on a good input of %zu bytes", r, inn); fail(prop, c, b); return; }
		for (i = 0; i < exn && i < SH->out && SH->data[i] == EX[i]; i++) ;
		if (i < exn || SH->out != exn) {
			snprintf(b, sizeof b, "input of %zu bytes: output (%zu bytes, expected %zu) differs from byte %zu", inn, SH->out, exn, i);
			fail(prop, c, b);
			return;
		}
	} else if (want == 0 && r == 0) {
		snprintf(b, sizeof b, "exit status 0 on malformed text of %zu bytes", inn);
		fail(prop, c, b);
		return;
	}
	if (c->rm >= 200 || (c->wm == 0 && c->rm < 100)) return;
	/* the same with faults: compare with the run without */
	{
		uint64_t s = mix(c->seed * 11 + 7);
		int r0 = r, rm = c->rm < 100 ? c->rm : 0;
		size_t rerr = (size_t)-1;
		long wf = -1, nw0 = SH->nw;
		/* malformed text: how much is written before it is noticed is not fixed, but it is decoded text */
		p0n = want == 1 ? SH->out : exn;
		memcpy(P0, want == 1 ? SH->data : EX, p0n);
		if (c->rm >= 100) { rerr = c->rm == 100 ? nx(&s) % (inn + 1) : c->rm == 101 ? 0 : inn; rm = (int)(nx(&s) % 5); }
		if (c->wm == 4 || c->wm == 5 || c->wm >= 8) wf = nx(&s) % (nw0 + (c->wm == 4 ? 5 : c->wm == 9 ? 3 : 1));
		r = run(c, rm, c->wm, rerr, wf, 0);
		if (r == -1) { fail("C13", c, "the tool died"); return; }
		if (r == -2) { fail("C13", c, "the tool does not end"); nfail += 6; return; }
		if (r < 0) { fail("C13", c, "the tool wrote behind the end of an allocated buffer or freed what it did not allocate"); return; }
		for (i = 0; i < p0n && i < SH->out && SH->data[i] == P0[i]; i++) ;
		if (i < SH->out) {
			snprintf(b, sizeof b, "input of %zu bytes: byte %zu of the output is wrong (%zu bytes arrived, %zu intended)", inn, i, SH->out, p0n);
			fail("C13", c, b);
			return;
		}
#ifdef EMULATE_WRITEV
		/* an error behind the first entry of a vector is reported as a partial write, as writev would;
		 * when the retry succeeds all of the output arrives and there is nothing left to report */
		if (c->wm >= 8 && !SH->rerr && r == 0 && SH->out == p0n) return;
#endif
		if (SH->werr || SH->rerr) {
			if (r == 0) fail("C13", c, SH->werr ? "exit status 0 after a failed write" : "exit status 0 after a failed read");
			return;
		}
		if (SH->out != p0n && want == 1) {
			snprintf(b, sizeof b, "input of %zu bytes: %zu of %zu output bytes arrived", inn, SH->out, p0n);
			fail("C13", c, b);
			return;
		}
		if (r != r0 && want != 2) { snprintf(b, sizeof b, "exit status %d instead of %d", r, r0); fail("C13", c, b); }
	}
}

static const size_t BIG[] = { 1048575, 1048576, 1048577, 1048578, 1572863, 1572864, 2097152, 2097153, 3145727, 3145728, 3145729, 3145730, 786431, 786432, 786433, 786434, 1398101, 5000000 };
static const char *WR[] = { "1", "2", "3", "4", "5", "7", "8", "19", "64", "75", "76", "77", "100", "128", "1000", "1023", "1024", "1025", "4096", "65535", "1048576", "1398100", "1398101", "1398104", "4294967296", "9223372036854775807" };
static const char *BADW[] = { "-5", "abc", "3x", "", " ", "0x10", "7 " };
#define LEN(a) (sizeof a / sizeof *a)

int main(int argc, char **argv)
{
	struct cs c;
	long i, round;
	int maxfail = 20, onlyfault = 0;
	char dir[] = "/tmp/b64cli-XXXXXX";
	memset(VAL, -1, sizeof VAL);
	for (i = 0; i < 64; i++) VAL[(uint8_t)AL[i]] = (int8_t)i;
	t00 = now();
	signal(SIGPIPE, SIG_IGN);
	SH = mmap(0, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	IN = mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	TX = mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	EX = mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	T2 = mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	P0 = mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	scratch = mkdtemp(dir);
	if (!scratch) return 2;
	rs = mix(1);
	if (argc > 1 && !strcmp(argv[1], "one")) {
		memset(&c, 0, sizeof c);
		c.dec = !strcmp(argv[2], "dec"); c.n = strtoull(argv[3], 0, 10); snprintf(c.w, sizeof c.w, "%s", argv[4]); snprintf(c.opt, sizeof c.opt, "%s", argv[5]);
		c.style = atoi(argv[6]); c.seed = strtoull(argv[7], 0, 10); c.rm = atoi(argv[8]); c.wm = atoi(argv[9]);
		one(&c);
		goto end;
	}
	for (i = 1; i + 1 < argc; i += 2) {
		if (!strcmp(argv[i], "-s")) rs = mix(strtoull(argv[i + 1], 0, 10));
		if (!strcmp(argv[i], "-T")) tlimit = atof(argv[i + 1]);
		if (!strcmp(argv[i], "-t")) onlyfault = !strcmp(argv[i + 1], "fault");
	}
	/* a fixed part first */
	for (i = 0; i < 6 && nfail < maxfail; i++) {
		memset(&c, 0, sizeof c);
		strcpy(c.w, i & 1 ? "-1" : "20"); strcpy(c.opt, "-"); c.n = 1000 + i; c.seed = i + 1; c.rm = 200 + (int)i % 3; c.wm = 0;
		c.dec = 0; one(&c);
		c.dec = 1; strcpy(c.w, "76"); c.style = 1; one(&c);
	}
	for (i = 0; i < (long)LEN(BADW) && nfail < maxfail; i++) {
		memset(&c, 0, sizeof c);
		snprintf(c.w, sizeof c.w, "%s", BADW[i]);
		if (!*c.w) strcpy(c.w, "");
		strcpy(c.opt, "-"); c.n = 10; c.style = 50;
		for (c.seed = 1; c.seed < 9; c.seed++) if (*c.w) one(&c);
	}
	for (round = 0; nfail < maxfail && now() - t00 < tlimit; round++) {
		int fault = onlyfault || round % 3 == 2;
		memset(&c, 0, sizeof c);
		c.seed = rnd();
		c.dec = rnd() % 2;
		strcpy(c.opt, "-");
		if (round % 60 == 7 || round == 24 || round == 30) c.n = BIG[rnd() % LEN(BIG)];
		else if (round < 800 && !fault) c.n = (size_t)round / 4;
		else switch (rnd() % 6) { case 0: c.n = rnd() % 40; break; case 1: c.n = rnd() % 400; break; case 2: c.n = rnd() % 3000; break; case 3: c.n = rnd() % 8000; break; case 4: c.n = rnd() % 40000; break; default: c.n = rnd() % 1600; }
		c.rm = rnd() % 2 ? 0 : (int)(rnd() % 5);
		if (c.n > 200000 && c.rm == 1) c.rm = 3;
		if (!c.dec) {
			unsigned q = rnd() % 8;
			if (q == 0) strcpy(c.w, "-1");
			else if (q == 1) strcpy(c.w, "0");
			else if (q < 5) snprintf(c.w, sizeof c.w, "%s", WR[rnd() % LEN(WR)]);
			else if (q == 5) snprintf(c.w, sizeof c.w, "%u", 1 + rnd() % 12);
			else if (q == 6) snprintf(c.w, sizeof c.w, "%u", 1 + rnd() % 3000);
			else {                  /* the text ends at a line end, or nearly */
				size_t tx = (c.n + 2) / 3 * 4, d = 1 + rnd() % 9;
				snprintf(c.w, sizeof c.w, "%zu", tx / d + (rnd() % 4 == 0) ? tx / d + (rnd() % 4 == 0) : 1);
			}
			if (c.n > 200000 && strlen(c.w) < 2 && rnd() % 4) strcpy(c.w, "76");
		} else {
			static const int ST[] = { 0, 1, 1, 2, 3, 4, 5, 5, 7, 8, 9, 10, 10 };
			static const char *OP[] = { "-", "-", "i", "i", "n", "in" };
			c.style = ST[rnd() % LEN(ST)];
			if (c.n > 1600000 && c.style == 7) c.style = 2;
			strcpy(c.opt, OP[rnd() % LEN(OP)]);
			snprintf(c.w, sizeof c.w, "%s", rnd() % 3 ? "76" : WR[rnd() % 10]);
		}
		if (fault) {
			c.wm = 1 + (int)(rnd() % 9);
			if (rnd() % 4 == 0) {   /* many short lines: the output is handed over many times */
				c.n = 2000 + rnd() % 30000;
				if (!c.dec) snprintf(c.w, sizeof c.w, "%u", 1 + rnd() % 8);
				if (rnd() % 2) c.wm = 8;
			}
			if (c.wm == 2 && c.n > 20000) c.n = 3000;
			if (c.wm == 6 && c.n > 200000) c.wm = 3;
			if (rnd() % 5 == 0) { c.rm = 100 + (int)(rnd() % 3); if (rnd() % 2) c.wm = 0; }
			if (c.dec && rnd() % 2) { c.style = 1; strcpy(c.opt, "-"); }
		}
		one(&c);
	}
end:
	{ char p[300]; snprintf(p, sizeof p, "%s/input", scratch); unlink(p); rmdir(scratch); }
	printf("DONE calls %ld\n", calls);
	return nfail ? 1 : 0;
}
