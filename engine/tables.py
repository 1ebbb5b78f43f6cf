"""C14: ground obligations over the initialisers of the lookup tables, and the generator programs.

The contract of a table gives the bytes of each entry in memory order, so that it reads the same for
either byte order.  The values are taken from the LLVM IR that clang makes of /repo's tables (deciding),
and again from the running program built with gcc (cross-check, and replay)."""
import os, re, sys, json, time, tempfile, shutil, subprocess
from . import build, concrete

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
VAL = {c: i for i, c in enumerate(ALPHA)}
CFGS = ['x86_64', 'i686', 'aarch64', 'armhf', 's390x']
SRC = {'base64_table_dec_32bit_d0': 'table_dec_32bit.h', 'base64_table_dec_32bit_d1': 'table_dec_32bit.h', 'base64_table_dec_32bit_d2': 'table_dec_32bit.h',
       'base64_table_dec_32bit_d3': 'table_dec_32bit.h', 'base64_table_enc_12bit': 'table_enc_12bit.h', 'base64_table_enc_6bit': 'tables.c', 'base64_table_dec_8bit': 'tables.c'}


def spec(name):
    """-> list of the bytes of each entry, in memory order"""
    inv = b'\xff\xff\xff\xff'
    v = [VAL.get(c) for c in range(256)]
    return {
        'base64_table_enc_6bit': [bytes([c]) for c in ALPHA],
        'base64_table_enc_12bit': [bytes([ALPHA[n >> 6], ALPHA[n & 63]]) for n in range(4096)],
        'base64_table_dec_8bit': [bytes([254 if c == 61 else 255 if x is None else x]) for c, x in enumerate(v)],
        'base64_table_dec_32bit_d0': [inv if x is None else bytes([x << 2, 0, 0, 0]) for x in v],
        'base64_table_dec_32bit_d1': [inv if x is None else bytes([x >> 4, (x & 15) << 4, 0, 0]) for x in v],
        'base64_table_dec_32bit_d2': [inv if x is None else bytes([0, x >> 2, (x & 3) << 6, 0]) for x in v],
        'base64_table_dec_32bit_d3': [inv if x is None else bytes([0, 0, x, 0]) for x in v],
    }[name]


def ir_table(txt, name, big):
    """entries of a constant global of the module, as memory bytes; None when there is no such table"""
    m = re.search(r'^@%s = .*?\bconstant (\[\d+ x i(\d+)\]) (.*)$' % re.escape(name), txt, re.M)
    if not m:
        return None
    w = int(m.group(2)) // 8
    n = int(re.match(r'\[(\d+)', m.group(1)).group(1))
    b = m.group(3)
    if b.startswith('zeroinitializer'):
        return [bytes(w)] * n
    if b.startswith('c"'):
        raw = re.match(r'c"(.*?)"', b).group(1)
        return [bytes([int(h, 16) if h else ord(c)]) for h, c in re.findall(r'\\([0-9A-Fa-f]{2})|(.)', raw)]
    out = [(int(x) & ((1 << 8 * w) - 1)).to_bytes(w, 'big' if big else 'little') for x in re.findall(r'\bi%d (-?\d+)' % (8 * w), b[:b.rindex(']')])]
    return out if len(out) == n else None


MAIN = r'''
#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
extern const uint8_t base64_table_enc_6bit[], base64_table_dec_8bit[];
extern const uint32_t base64_table_dec_32bit_d0[], base64_table_dec_32bit_d1[], base64_table_dec_32bit_d2[], base64_table_dec_32bit_d3[];
extern const uint16_t base64_table_enc_12bit[];
static void p(const char *n, const void *t, int w, int k) { const uint8_t *b = t; int i, j; for (i = 0; i < k; i++) { printf("%s %d ", n, i); for (j = 0; j < w; j++) printf("%02x", b[i * w + j]); printf("\n"); } }
#define P(t, w, k) p(#t, t, w, k)
int main(void)
{
	P(base64_table_enc_6bit, 1, 64); P(base64_table_dec_8bit, 1, 256); P(base64_table_enc_12bit, 2, 4096);
	P(base64_table_dec_32bit_d0, 4, 256); P(base64_table_dec_32bit_d1, 4, 256); P(base64_table_dec_32bit_d2, 4, 256); P(base64_table_dec_32bit_d3, 4, 256);
	return 0;
}
'''


def run_tables(cfgname, d):
    """the tables of the program that gcc builds"""
    cc, emu = concrete.NATIVE[cfgname]
    d = os.path.join(d, 't-' + cfgname)
    os.makedirs(d, exist_ok=True)
    build.write_config_h(d, build.CONFIGS[cfgname])
    open(os.path.join(d, 'm.c'), 'w').write(MAIN)
    src = [os.path.join(build.REPO, f) for f in build.sources() if f.startswith('lib/tables/')]
    if not src:
        raise build.BuildError('no table sources')
    exe = os.path.join(d, 't')
    build.run([cc, '-w', '-O1', '-std=c99', '-I', d] + (['-static'] if emu or cfgname == 'i686' else []) + ['-o', exe, os.path.join(d, 'm.c')] + src, cwd=build.REPO)
    out = build.run(([emu] if emu else []) + [exe]).decode()
    res = {}
    for l in out.splitlines():
        n, i, h = l.split()
        res.setdefault(n, []).append(bytes.fromhex(h))
    return res


def tokens(txt):
    txt = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', txt, flags=re.S)
    out = []
    for l in txt.split('\n'):
        t = re.findall(r"'(?:\\.|[^'])*'|\"(?:\\.|[^\"])*\"|\w+|[^\s\w]", l)
        if t and t[0] == '#':
            t = ['\n'] + t + ['\n']
        out += t
    return out


def generators(d):
    """-> [(what, ok, detail, input)]"""
    res = []
    T = os.path.join(build.REPO, 'lib/tables')
    jobs = []
    for cfg in ('x86_64', 'i686', 's390x'):
        cc, emu = concrete.NATIVE[cfg]
        exe = os.path.join(d, 'gen-' + cfg)
        try:
            build.run([cc, '-w', '-O1', '-std=c99'] + (['-static'] if emu or cfg == 'i686' else []) + ['-o', exe, os.path.join(T, 'table_generator.c')])
            out = build.run(([emu] if emu else []) + [exe]).decode()
        except (build.BuildError, OSError) as e:
            res.append(('table_generator.c runs on %s' % cfg, False, str(e)[-300:], 'generator-%s table_generator.c' % cfg))
            continue
        jobs.append(('table_generator.c on %s' % cfg, out, 'table_dec_32bit.h', 'generator-%s table_generator.c' % cfg))
    try:
        p = os.path.join(d, 'gen.py')
        shutil.copy(os.path.join(T, 'table_enc_12bit.py'), p)
        jobs.append(('table_enc_12bit.py', build.run(['/usr/bin/python3', p]).decode(), 'table_enc_12bit.h', 'generator-py table_enc_12bit.py'))
    except (build.BuildError, OSError) as e:
        res.append(('table_enc_12bit.py runs', False, str(e)[-300:], 'generator-py table_enc_12bit.py'))
    for what, out, f, inp in jobs:
        a, b = tokens(out), tokens(open(os.path.join(T, f)).read())
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ok = a == b
        res.append(('%s reproduces %s' % (what, f), ok, '' if ok else 'token %d: the generator has %s, the file %s' % (k, ' '.join(a[k:k + 4]), ' '.join(b[k:k + 4])), inp))
    return res


def main(prop, tier, seed):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='b64-C14-')
    here = concrete.HERE
    try:
        obs, bad, und, back = {}, [], [], []
        for n in CFGS:
            cfg = build.CONFIGS[n]
            try:
                ll = build.compile_module(cfg, os.path.join(d, n), files=build.sources())
                txt = open(ll).read()
            except (build.BuildError, OSError) as e:
                und.append('%s does not lower: %s' % (n, str(e)[-200:]))
                txt = ''
            try:
                run = run_tables(n, d)
            except (build.BuildError, OSError) as e:
                run = {}
                und.append('%s: cannot run the tables: %s' % (n, str(e)[-200:]))
            for name in SRC:
                s = spec(name)
                v = ir_table(txt, name, cfg.big) if txt else None
                if v is None:
                    und.append('%s: no table %s in the module' % (n, name))
                    v = run.get(name)
                    if v is None:
                        continue
                    back.append((n, name))
                extra = 1 if name == 'base64_table_enc_6bit' else 0     # the terminating zero of the string literal
                o = obs.setdefault('table-entry', [0, 0])
                for i, b in enumerate(s):
                    o[0] += 1
                    if i < len(v) and v[i] == b:
                        o[1] += 1
                    else:
                        bad.append(('table-' + n, '%s %d' % (name, i), 'entry %d of %s is %s, must be %s' % (i, name, v[i].hex() if i < len(v) else 'missing', b.hex())))
                o = obs.setdefault('table-size', [0, 0])
                o[0] += 1
                o[1] += len(v) in (len(s), len(s) + extra)
                if len(v) not in (len(s), len(s) + extra) and len(v) < len(s):
                    bad.append(('table-' + n, name + ' size', '%s has %d entries, must have %d' % (name, len(v), len(s))))
                if name in run and run[name] != s:
                    i = next(i for i, b in enumerate(s) if run[name][i] != b)
                    bad.append(('table-' + n, '%s %d' % (name, i), 'the gcc build has %s at %d of %s, must be %s' % (run[name][i].hex(), i, name, s[i].hex())))
        gen = generators(d)
        o = obs.setdefault('generator', [0, 0])
        for what, ok, det, inp in gen:
            o[0] += 1
            o[1] += ok
            if not ok:
                bad.append(('table-' + inp.split()[0], inp.split()[1], what + ' fails: ' + det))
        seen, b2 = set(), []
        for b in bad:
            if b[:2] not in seen:
                seen.add(b[:2])
                b2.append(b)
        bad = b2
        nob = sum(x[0] for x in obs.values())
        nok = sum(x[1] for x in obs.values())
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {
            'obligations': nob, 'discharged': nok, 'checker_cmd': 'python3-vt check.py C14',
            'trusted_base': ['clang 18 front end: its IR is taken as the meaning of the table initialisers (the gcc build is read back as a cross-check)', 'engine/tables.py'],
            'obligation_kinds': {k: {'generated': x[0], 'discharged': x[1]} for k, x in obs.items()},
            'back_ends': {'ground evaluation': obs['table-entry'][0] + obs['table-size'][0], 'execution of a closed program': obs['generator'][0]},
            'functions': [{'function': 'lib/tables/table_generator.c main (no arguments)', 'contract': 'prints table_dec_32bit.h', 'how': 'closed program, executed'},
                          {'function': 'lib/tables/table_enc_12bit.py main', 'contract': 'prints table_enc_12bit.h', 'how': 'closed program, executed'}],
            'tables': sorted(SRC), 'configurations': CFGS, 'bounded_stand_ins': und,
            'tables_read_from_the_gcc_build_only': ['%s %s' % x for x in back],
            'failed_obligations': [b[2] for b in bad[:50]], 'solver_time_s': 0},
            'assumptions': ['the files are compared as C tokens: comments and white space are not compared', 'generators are run without arguments'],
            'wall_s': round(time.time() - t0, 2), 'violations': 1 if bad else 0}
        os.makedirs(os.path.join(here, 'evidence', 'replay'), exist_ok=True)
        json.dump(ev, open(os.path.join(here, 'evidence', prop + '.json'), 'w'), indent=1)
        for u in und:
            print('not decided by the IR: ' + u)
        print('%s: %d of %d obligations discharged, %.1f s' % (prop, nok, nob, time.time() - t0))
        if bad:
            rp = os.path.join(here, 'evidence', 'replay', prop + '.txt')
            with open(rp, 'w') as f:
                f.write('property %s\nReproduce one with: python3-vt %s/replay.py %s [number]\n' % (prop, here, rp))
                for i, b in enumerate(bad[:40]):
                    f.write('INPUT %d cfg=%s args=%s # %s\n' % (i, b[0], b[1], b[2]))
            for b in bad[:6]:
                print('failed obligation: %s: %s' % (b[0], b[2]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            return 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
