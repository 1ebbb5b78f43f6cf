"""Concrete runs of the OpenMP build (gcc -fopenmp): team sizes, malformed text around the part
boundaries, delays around the codec calls."""
from . import concrete

CFGS = ['x86_64-openmp']
WRAP = ['base64_stream_encode_plain', 'base64_stream_decode_plain', 'codec_choose']


def build_exe(d):
    return concrete.build_harness('x86_64-openmp', d, main='omp.c', extra=['-fopenmp'], watch=False, libs=['-Wl,' + ','.join('--wrap=' + w for w in WRAP)])


def run(cfgname, d, args, timeout):
    import os
    d = os.path.join(d, 'omp')
    r = concrete.run_harness('x86_64-openmp', build_exe(d), args, timeout)
    r['cfg'] = 'omp-' + cfgname
    for f in r['fails']:
        f['cfg'] = r['cfg']
    return r


def replay(cfg, args, d):
    r = run(cfg[4:], d, ['one'] + args.split(), 150)
    for f in r['fails']:
        print(f['property'], f['args'], '#', f['what'])
    print('reproduced' if r['fails'] else 'not reproduced')
    return 1 if r['fails'] else 0
