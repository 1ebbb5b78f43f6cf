"""Concrete runs of the command-line tool: bin/base64.c with main renamed, linked with the library,
one forked child per case, with scripted short reads, partial and interrupted writes and errors."""
import os
from . import build, concrete

CFGS = ['x86_64', 'i686', 'x86_64-nowritev']
WRAP = ['write', 'writev', 'read', 'malloc', 'calloc', 'realloc', 'free']


def build_exe(cfgname, d):
    cc = concrete.NATIVE[cfgname][0]
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, 'cli-%s.o' % cfgname)
    build.run([cc, '-std=c99', '-O2', '-w', '-DBASE64_STATIC_DEFINE', '-Dmain=cli_main'] + build.config(cfgname).defs + [ '-I', d, '-c', '-o', o, os.path.join(build.REPO, 'bin', 'base64.c')], cwd=build.REPO)
    return concrete.build_harness(cfgname, d, main='cli.c', watch=False, extra=build.config(cfgname).defs, libs=[o, '-Wl,' + ','.join('--wrap=' + w for w in WRAP)])


def run(cfgname, d, args, timeout):
    d = os.path.join(d, 'cli')
    r = concrete.run_harness(cfgname, build_exe(cfgname, d), args, timeout)
    r['cfg'] = 'cli-' + cfgname
    for f in r['fails']:
        f['cfg'] = r['cfg']
    return r


def replay(cfg, args, d):
    r = run(cfg[4:], d, ['one'] + args.split(), 150)
    for f in r['fails']:
        print(f['property'], f['args'], '#', f['what'])
    print('reproduced' if r['fails'] else 'not reproduced')
    return 1 if r['fails'] else 0
