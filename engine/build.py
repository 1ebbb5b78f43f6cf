"""Lower /repo's current sources to LLVM IR, one module per build configuration.

Every run compiles from /repo (or $REPO) as it is now.  What this drops: nothing of the
C semantics that clang's front end models; debug info and attributes are not used.
"""
import os, re, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
CLANG = LLVM + 'clang'
OPT = LLVM + 'opt'
LINK = LLVM + 'llvm-link'
DIS = LLVM + 'llvm-dis'

X86 = ['SSSE3', 'SSE41', 'SSE42', 'AVX', 'AVX2', 'AVX512']
X86FLAGS = {'SSSE3': ['-mssse3'], 'SSE41': ['-msse4.1'], 'SSE42': ['-msse4.2'], 'AVX': ['-mavx'],
            'AVX2': ['-mavx2'], 'AVX512': ['-mavx512vl', '-mavx512vbmi']}
HAVES = ['AVX512', 'AVX2', 'NEON32', 'NEON64', 'SSSE3', 'SSE41', 'SSE42', 'AVX']


class Config:
    def __init__(self, name, target, haves=(), flags=(), defs=(), perfile=None, ptr=64, big=False, openmp=False,
                 sysroot=None, neon_noasm=False):
        self.name = name
        self.target = target
        self.haves = list(haves)
        self.flags = list(flags)
        self.defs = list(defs)
        self.perfile = perfile or {}
        self.ptr = ptr
        self.big = big
        self.openmp = openmp
        self.sysroot = sysroot
        self.neon_noasm = neon_noasm


NOASM = ['-DBASE64_%s_USE_ASM=0' % c for c in ['SSSE3', 'SSE41', 'SSE42', 'AVX', 'AVX2']]


def _x86per():
    return {'lib/arch/%s/codec.c' % c.lower(): X86FLAGS[c] for c in X86}


INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')
CONFIGS = {c.name: c for c in [
    Config('x86_64', 'x86_64-linux-gnu', X86, perfile=_x86per()),
    Config('x86_64-noasm', 'x86_64-linux-gnu', X86, perfile=_x86per(), defs=NOASM),
    Config('x86_64-openmp', 'x86_64-linux-gnu', X86, perfile=_x86per(), flags=['-fopenmp', '-I', INC], openmp=True),
    Config('i686', 'i686-linux-gnu', X86, perfile=_x86per(), ptr=32, sysroot='/usr/i686-linux-gnu'),
    Config('aarch64', 'aarch64-linux-gnu', ['NEON64'], sysroot='/usr/aarch64-linux-gnu'),
    Config('armhf', 'arm-linux-gnueabihf', ['NEON32'], flags=['-march=armv7-a', '-mfloat-abi=hard'],
           perfile={'lib/arch/neon32/codec.c': ['-mfpu=neon']}, ptr=32, sysroot='/usr/arm-linux-gnueabihf'),
    Config('armhf-neon', 'arm-linux-gnueabihf', ['NEON32'], flags=['-march=armv7-a', '-mfloat-abi=hard', '-mfpu=neon'], ptr=32, sysroot='/usr/arm-linux-gnueabihf'),
    # as compilers without GNU inline assembly build it
    Config('aarch64-noasm', 'aarch64-linux-gnu', ['NEON64'], flags=['-include', INC + '/nogcc.h'], sysroot='/usr/aarch64-linux-gnu'),
    Config('armhf-noasm', 'arm-linux-gnueabihf', ['NEON32'], flags=['-march=armv7-a', '-mfloat-abi=hard', '-include', INC + '/nogcc.h'],
           perfile={'lib/arch/neon32/codec.c': ['-mfpu=neon']}, ptr=32, sysroot='/usr/arm-linux-gnueabihf'),
    # as Microsoft's compiler sees it
    Config('x86_64-msvc', 'x86_64-linux-gnu', X86, perfile=_x86per(), flags=['-I', INC + '/msvc', '-include', INC + '/msvc.h']),
    # 32-bit big-endian
    Config('armeb', 'armeb-linux-gnueabihf', [], flags=['-march=armv7-a', '-mfloat-abi=hard'], ptr=32, big=True, sysroot='/usr/arm-linux-gnueabihf'),
    Config('s390x', 's390x-linux-gnu', [], big=True, sysroot='/usr/s390x-linux-gnu'),
    Config('x86_64-plain', 'x86_64-linux-gnu', []),
]}


# the command-line tool only: as on systems that have no writev
EXTRA = {c.name: c for c in [Config('x86_64-nowritev', 'x86_64-linux-gnu', X86, perfile=_x86per(), defs=['-DEMULATE_WRITEV'])]}


def config(name):
    return CONFIGS.get(name) or EXTRA[name]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-4000:]))
    return r.stdout


def sources():
    """Library sources, from the project's own Makefile."""
    txt = open(os.path.join(REPO, 'Makefile')).read()
    m = re.search(r'^OBJS\s*=\s*\\\n((?:.*\\\n)*.*\n)', txt, re.M)
    objs = re.findall(r'(lib/\S+)\.o', m.group(1)) if m else []
    if 'lib/lib' not in objs:
        raise BuildError('cannot find the library source list in Makefile')
    return [o + '.c' for o in objs]


def write_config_h(d, cfg):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'config.h'), 'w') as f:
        for h in HAVES:
            f.write('#define BASE64_WITH_%s %d\n#define HAVE_%s BASE64_WITH_%s\n' % (h, 1 if h in cfg.haves else 0, h, h))


INCS = {'x86_64-linux-gnu': ['/usr/include/x86_64-linux-gnu', '/usr/include']}


def cc_args(cfg, src, d):
    a = ['--target=' + cfg.target, '-std=c99', '-O1', '-DBASE64_STATIC_DEFINE', '-I', d, '-w',
         '-fno-stack-protector', '-fno-pic', '-mno-red-zone' if 'x86' in cfg.target else '-fno-builtin-alloca',
         '-D_FORTIFY_SOURCE=0']
    a = [x for x in a if x != '-fno-builtin-alloca']
    if cfg.sysroot:
        a += ['-isystem', cfg.sysroot + '/include']
    a += cfg.flags + cfg.defs + cfg.perfile.get(src, [])
    return a


PASSES = 'always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg)'
# a second, equally valid view of the same code: loops with a constant trip count are unrolled
UNROLL = 'always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse,simplifycfg)'
# functions that keep their own contract; everything else is inlined into its callers
BOUNDARY = re.compile(r'base64_stream_(encode|decode)(_\w+)?|base64_(encode|decode)|codec_choose|main|writev|__kmpc_\w+')


def isolate(txt, boundary):
    """Only the boundary functions stay apart (linkage and bodies are untouched)."""
    out = []
    for l in txt.split('\n'):
        if l.startswith('attributes #'):
            l = re.sub(r'\b(noinline|optnone)\b ?', '', l)
        elif l.startswith('define '):
            m = re.match(r'define .*?@"?([\w.$]+)"?\(', l)
            if m and boundary.fullmatch(m.group(1)):
                k = l.rindex(')')
                d = 0
                for x in range(l.index('@' + m.group(1)) if '"' not in l[:m.end()] else 0, len(l)):
                    d += (l[x] == '(') - (l[x] == ')')
                    if l[x] == ')' and d == 0:
                        k = x
                        break
                l = l[:k + 1] + ' noinline' + l[k + 1:]
        out.append(l)
    return '\n'.join(out)


def compile_module(cfg, d, files=None, boundary=BOUNDARY, extra=(), passes=PASSES, name='all'):
    """Returns the path of textual IR for the linked module."""
    write_config_h(d, cfg)
    files = files or sources()
    raw = os.path.join(d, name + '-raw.ll')
    if not os.path.exists(raw):
        def one(f):
            o = os.path.join(d, f.replace('/', '_') + '.bc')
            run([CLANG] + cc_args(cfg, f, d) + list(extra) + ['-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-o', o,
                 os.path.join(REPO, f)], cwd=REPO)
            return o
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, files))
        txt = run([LINK, '-S', '-o', '-'] + bcs).decode()
        with open(raw, 'w') as f:
            f.write(isolate(txt, boundary))
    ll = os.path.join(d, name + ('' if passes == PASSES else '-unroll') + '.ll')
    run([OPT, '-S', '-passes=' + passes, '-inline-threshold=1000000', '-inlinehint-threshold=1000000', raw, '-o', ll])
    return ll


PROBE = """
#include <stddef.h>
#include "include/libbase64.h"
#include "config.h"
#include "lib/codecs.h"
#include "lib/env.h"
#define BASE64_PROBE(n, e) const long probe_##n = (long)(e);
BASE64_PROBE(eof, offsetof(struct base64_state, eof))
BASE64_PROBE(bytes, offsetof(struct base64_state, bytes))
BASE64_PROBE(flags, offsetof(struct base64_state, flags))
BASE64_PROBE(carry, offsetof(struct base64_state, carry))
BASE64_PROBE(size, sizeof(struct base64_state))
BASE64_PROBE(enc, offsetof(struct codec, enc))
BASE64_PROBE(dec, offsetof(struct codec, dec))
BASE64_PROBE(csize, sizeof(struct codec))
BASE64_PROBE(sz_eof, sizeof(((struct base64_state *)0)->eof))
BASE64_PROBE(sz_bytes, sizeof(((struct base64_state *)0)->bytes))
BASE64_PROBE(sz_flags, sizeof(((struct base64_state *)0)->flags))
BASE64_PROBE(sz_carry, sizeof(((struct base64_state *)0)->carry))
#if defined(__ARM_NEON__) || defined(__ARM_NEON)
BASE64_PROBE(neon, 1)
#else
BASE64_PROBE(neon, 0)
#endif
#ifdef BASE64_AEOF
BASE64_PROBE(AEOF, BASE64_AEOF)
BASE64_PROBE(EOF, BASE64_EOF)
#else
BASE64_PROBE(AEOF, 1)
BASE64_PROBE(EOF, 2)
#endif
BASE64_PROBE(f_avx2, BASE64_FORCE_AVX2)
BASE64_PROBE(f_neon32, BASE64_FORCE_NEON32)
BASE64_PROBE(f_neon64, BASE64_FORCE_NEON64)
BASE64_PROBE(f_plain, BASE64_FORCE_PLAIN)
BASE64_PROBE(f_ssse3, BASE64_FORCE_SSSE3)
BASE64_PROBE(f_sse41, BASE64_FORCE_SSE41)
BASE64_PROBE(f_sse42, BASE64_FORCE_SSE42)
BASE64_PROBE(f_avx, BASE64_FORCE_AVX)
BASE64_PROBE(f_avx512, BASE64_FORCE_AVX512)
"""


def probe(cfg, d):
    """layout and constants of this configuration, from the compiler"""
    write_config_h(d, cfg)
    p = os.path.join(d, 'probe.c')
    with open(p, 'w') as f:
        f.write(PROBE)
    txt = run([CLANG] + cc_args(cfg, 'probe.c', d) + ['-I', REPO, '-S', '-emit-llvm', '-o', '-', p], cwd=REPO).decode()
    lay = {m.group(1): int(m.group(2)) for m in re.finditer(r'@probe_(\w+) =.*constant i\d+ (-?\d+)', txt)}
    if lay.get('sz_eof') != 4 or lay.get('sz_bytes') != 4 or lay.get('sz_flags') != 4 or lay.get('sz_carry') != 1:
        raise BuildError('struct base64_state has an unexpected layout %r' % lay)
    return lay


if __name__ == '__main__':
    import sys, time
    for c in CONFIGS.values():
        t = time.time()
        d = '/tmp/w/ir/' + c.name
        os.makedirs(d, exist_ok=True)
        ll = compile_module(c, d)
        print(c.name, ll, round(time.time() - t, 2), len(open(ll).read()))
