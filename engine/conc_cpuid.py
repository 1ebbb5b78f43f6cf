"""Concrete runs of codec selection: the real lib.c and codec_choose.c, with the cpuid and xgetbv
instructions replaced (in the assembler text the compiler makes of them) by calls to stand-ins, and
with recorders for the codecs."""
import os, re, shutil, subprocess
from . import build, concrete

IDS = ['avx2', 'neon32', 'neon64', 'plain', 'ssse3', 'sse41', 'sse42', 'avx', 'avx512']
CFGS = ['x86_64', 'x86_64-msvc', 'x86_64-plain', 'x86_64-openmp', 'i686', 'aarch64', 'armhf', 'armhf-neon', 's390x']
HERE = concrete.HERE


def build_exe(cfgname, d):
    cfg = build.CONFIGS[cfgname]
    cc, emu = concrete.NATIVE['armhf' if cfgname.startswith('armhf') else cfgname]
    d = os.path.join(d, 'cpuid-' + cfgname)
    os.makedirs(d, exist_ok=True)
    build.write_config_h(d, cfg)
    x86 = cfgname.startswith(('x86', 'i686'))
    flags = ['-fopenmp'] if cfg.openmp else ['-mfpu=neon'] if cfgname == 'armhf-neon' else list(cfg.flags) if cfgname == 'x86_64-msvc' else []
    objs = []
    for f in build.sources():
        if f.startswith('lib/arch/'):
            continue
        s = os.path.join(d, f.replace('/', '_') + '.s')
        build.run([cc, '-std=c99', '-O0', '-g0', '-w', '-DBASE64_STATIC_DEFINE', '-fno-pic', '-I', d] + (['-mno-red-zone'] if cfgname.startswith('x86') else []) + flags + cfg.defs +
                  ['-S', '-o', s, os.path.join(build.REPO, f)], cwd=build.REPO)
        if x86:
            txt = open(s).read()
            txt = re.sub(r'^\s*cpuid\s*$', '\tcall stub_cpuid', txt, flags=re.M)
            txt = re.sub(r'^\s*xgetbv\s*$', '\tcall stub_xgetbv', txt, flags=re.M)
            body = re.sub(r'^\s*[.#].*$', '', txt, flags=re.M)
            if re.search(r'\b(?<!_)(cpuid|xgetbv)\b|__cpu_model|__cpu_features|getauxval|__builtin_cpu', body.replace('stub_cpuid', '').replace('stub_xgetbv', '')):
                raise build.BuildError('the feature queries cannot be replaced')
            open(s, 'w').write(txt)
        o = s[:-2] + '.o'
        build.run([cc, '-c', '-o', o, s])
        objs.append(o)
    hv = sum(1 << IDS.index(h.lower()) for h in cfg.haves)
    dc = 'PLAIN'
    if not x86:
        lay = build.probe(cfg, d)
        n = [h for h in cfg.haves if h.startswith('NEON')]
        dc = n[0] if n and lay['neon'] else 'PLAIN'
    m = os.path.join(d, 'main.o')
    build.run([cc, '-O1', '-w', '-fno-pic', '-DBASE64_STATIC_DEFINE', '-DHV=%d' % hv, '-DDEFCODEC=' + dc] + (['-DX86'] if x86 else []) +
              ['-I', os.path.join(build.REPO, 'include'), '-c', '-o', m, os.path.join(HERE, 'harness', 'cpuid.c')])
    oc = shutil.which(cc.replace('gcc', 'objcopy')) or 'objcopy'
    rel = os.path.join(d, 'lib-r.o')
    build.run([cc, '-r', '-nostdlib', '-o', rel] + objs)
    build.run([oc, '--rename-section', '.bss=b64data,alloc,load,data,contents', '--rename-section', '.data=b64data,alloc,load,data,contents',
               '--set-section-flags', '.bss=alloc,load,data,contents', rel, rel + '2'])
    extra = []
    if x86:
        so = os.path.join(d, 'stub.o')
        build.run([cc, '-c', '-o', so, os.path.join(HERE, 'harness', 'stub_x86.S')])
        extra = [so]
    exe = os.path.join(d, 'h')
    build.run([cc, '-no-pie'] + (['-static'] if emu or cfgname == 'i686' else []) + (['-fopenmp'] if cfg.openmp else []) + ['-o', exe, m, rel + '2'] + extra)
    return exe


def run(cfgname, d, args, timeout):
    exe = build_exe(cfgname, d)
    r = concrete.run_harness('armhf' if cfgname.startswith('armhf') else cfgname, exe, args, timeout)
    r['cfg'] = 'cpuid-' + cfgname
    for f in r['fails']:
        f['cfg'] = 'cpuid-' + cfgname
    return r


def replay(cfg, args, d):
    r = run(cfg[len('cpuid-'):], d, args.split(), 100)
    for f in r['fails']:
        print(f['property'], f['args'], '#', f['what'])
    print('reproduced' if r['fails'] else 'not reproduced')
    return 1 if r['fails'] else 0
