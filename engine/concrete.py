"""Builds the concrete harness for a configuration from /repo's current sources and runs it."""
import os, subprocess, re, shutil
from concurrent.futures import ThreadPoolExecutor
from . import build

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE = {'x86_64': ('gcc', None), 'x86_64-noasm': ('gcc', None), 'x86_64-openmp': ('gcc', None), 'x86_64-plain': ('gcc', None), 'x86_64-nowritev': ('gcc', None),
          'x86_64-clang': ('clang', None),
          'i686': ('i686-linux-gnu-gcc', None), 'aarch64': ('aarch64-linux-gnu-gcc', 'qemu-aarch64'),
          'armhf': ('arm-linux-gnueabihf-gcc', 'qemu-arm'), 's390x': ('s390x-linux-gnu-gcc', 'qemu-s390x'),
          'aarch64-noasm': ('aarch64-linux-gnu-gcc', 'qemu-aarch64'), 'armhf-noasm': ('arm-linux-gnueabihf-gcc', 'qemu-arm'),
          'x86_64-msvc': ('gcc', None), 's390x-word32': ('s390x-linux-gnu-gcc', 'qemu-s390x')}
BASE = {'x86_64-clang': 'x86_64', 's390x-word32': 's390x'}


def build_harness(cfgname, d, main='h.c', extra=(), sources=None, watch=True, libs=()):
    """-> path of the executable"""
    cfg = build.config(BASE.get(cfgname, cfgname))
    cc = NATIVE[cfgname][0]
    d = os.path.join(d, 'h-' + cfgname)
    os.makedirs(d, exist_ok=True)
    build.write_config_h(d, cfg)
    static = ['-static'] if NATIVE[cfgname][1] or cfgname == 'i686' else []
    flags = [] if cfgname.startswith('armhf') else list(cfg.flags)
    if cfgname == 'armhf-noasm':
        flags = ['-include', build.INC + '/nogcc.h']
    if cfgname == 's390x-word32':
        flags += ['-include', build.INC + '/word32.h']
    if cfg.openmp:
        flags = ['-fopenmp'] if cc != 'clang' else []
    per = dict(cfg.perfile)

    def one(f):
        o = os.path.join(d, f.replace('/', '_') + '.o')
        build.run([cc, '-std=c99', '-O3', '-g0', '-w', '-DBASE64_STATIC_DEFINE', '-I', d] + flags + cfg.defs + per.get(f, []) + ['-c', '-o', o, os.path.join(build.REPO, f)], cwd=build.REPO)
        return o

    def hmain(_):
        o = os.path.join(d, 'main.o')
        build.run([cc, '-O1', '-w', '-D_GNU_SOURCE', '-DBASE64_STATIC_DEFINE', '-I', os.path.join(build.REPO, 'include'), '-DWATCH' if watch else '-DNOWATCH',
                   '-DCODECS="%s"' % ','.join(['plain'] + [h.lower() for h in cfg.haves]), '-c', '-o', o, os.path.join(HERE, 'harness', main)] + list(extra))
        return o
    with ThreadPoolExecutor(8) as ex:
        fm = ex.submit(hmain, 0)
        objs = list(ex.map(one, sources or build.sources()))
        mo = fm.result()
    if watch:
        oc = shutil.which(cc.replace('gcc', 'objcopy')) or 'objcopy'
        rel = os.path.join(d, 'lib-r.o')
        build.run([cc, '-r', '-nostdlib', '-o', rel] + objs)
        # the library's writable data in a section of its own
        build.run([oc, '--rename-section', '.bss=b64data,alloc,load,data,contents', '--rename-section', '.data=b64data,alloc,load,data,contents',
                   '--set-section-flags', '.bss=alloc,load,data,contents', rel, rel + '2'])
        objs = [rel + '2']
    exe = os.path.join(d, 'h')
    build.run([cc] + static + (flags if cfg.openmp else []) + ['-o', exe, mo] + objs + list(libs))
    return exe


def run_harness(cfgname, exe, args, timeout):
    emu = NATIVE[cfgname][1]
    cmd = ([emu] if emu else []) + [exe] + [str(a) for a in args]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out, rc = r.stdout.decode(errors='replace'), r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace'), 'timeout'
    fails = []
    for l in out.splitlines():
        m = re.match(r'FAIL (\w+) (.*?) # (.*)', l)
        if m:
            fails.append({'property': m.group(1), 'cfg': cfgname, 'args': m.group(2), 'what': m.group(3)})
    m = re.search(r'DONE calls (\d+)', out)
    return {'cfg': cfgname, 'rc': rc, 'fails': fails, 'calls': int(m.group(1)) if m else 0, 'done': bool(m), 'cmd': ' '.join(cmd)}
