"""Which functions, obligations and lemmas decide which property."""
from . import build

ALL = [c for c in build.CONFIGS]
LIB = [c for c in ALL if c != 'armhf-neon']
HN = ['x86_64', 'x86_64-noasm', 'i686', 'aarch64', 'armhf', 's390x']

# obligations without which a function's proof says nothing
STRUCT = {'ub', 'termination', 'invariant', 'asm', 'null', 'align'}
ENCF = {'encode', 'stream_encode', 'encode1', 'final', 'init'}
DECF = {'decode', 'stream_decode', 'decode1', 'init'}
VAL_E = {'content', 'outlen', 'state', 'call'} | STRUCT
BOUND = {'read-bounds', 'write-bounds', 'frame'} | STRUCT


def kinds_for(prop, contract, fn):
    """obligation kinds of this function that the property depends on (empty: none)"""
    enc = contract in ENCF and not (contract == 'init' and 'decode' in fn)
    dec = contract in DECF and not (contract == 'init' and 'encode' in fn)
    if contract == 'omp_encode1':
        enc = True
    if contract == 'omp_decode1':
        dec = True
    if prop == 'C01':
        return VAL_E if enc else set()
    if prop == 'C02':
        return VAL_E | ({'ret'} if dec else set()) if enc or dec else set()
    if prop == 'C03':
        return {'ret', 'rej-ret', 'state', 'call'} | STRUCT if dec else set()
    if prop == 'C04':
        return VAL_E | {'ret', 'rej-ret', 'rej-content', 'rej-outlen', 'rej-state'} if dec and contract != 'decode1' else set()
    if prop == 'C05':
        return BOUND | {'outlen', 'call'} if enc else set()
    if prop == 'C06':
        return BOUND | {'outlen', 'rej-outlen', 'call'} if dec else set()
    if prop == 'C07':
        return VAL_E | {'ret', 'rej-ret', 'rej-content', 'rej-outlen', 'rej-state'} if contract in ('encode', 'decode') else set()
    if prop == 'C08':
        return {'codec', 'query'} | (STRUCT | {'write-bounds', 'frame'} if contract == 'choose' else set())
    if prop == 'C09':
        return {'stub', 'codec'} | ({'write-bounds', 'read-bounds', 'frame'} | STRUCT if contract == 'stub' else set())
    if prop == 'C10':
        if contract.startswith('omp'):
            return None
        if contract in ('encode', 'decode', 'stub'):
            return {'frame', 'write-bounds', 'race'}
        return {'frame', 'call', 'codec', 'stub', 'state', 'write-bounds', 'race'}
    if prop == 'C15':
        return {'frame', 'race'}
    if prop == 'C11':
        return {'opt', 'opt-enc', 'feed', 'order', 'wrap', 'queue', 'call', 'mem', 'exit', 'exit-io', 'exit-spurious', 'ioerr', 'read-bounds', 'write-bounds'} | STRUCT
    if prop == 'C12':
        return {'opt', 'opt-dec', 'feed', 'order', 'wrap', 'call', 'mem', 'exit', 'exit-io', 'exit-spurious', 'ioerr', 'read-bounds', 'write-bounds'} | STRUCT
    if prop == 'C13':
        return {'order', 'queue', 'mem', 'ioerr', 'exit-io', 'exit-spurious', 'read-bounds', 'write-bounds'} | STRUCT
    return None


def pick(*cons, enc=True, dec=True):
    def f(fn, con):
        if con not in cons:
            return False
        if con == 'init':
            return (enc and 'encode' in fn) or (dec and 'decode' in fn)
        return True
    return f


CLI = dict(configs=['x86_64', 'i686'], files=['bin/base64.c'], modname='cli', lemmas=[], harness='', hconfigs=[], runner='conc_cli', rargs=['-T', 40], rsearch=['-T', 150],
           assume=['the C library and system calls behave as their contracts in engine/cli.py say (getopt_long, strtol, fopen, malloc, fread, memchr, write, writev, strcmp): fread is short only at the end of the input or after an error; write and writev accept between 1 and all of the bytes given, or fail; interruptions are finite in number',
                   'the library calls behave as contracts C01 to C04 say (those are proved from lib/)',
                   'input of at most 2^62 bytes, read once from start to end'])
OMP = ['OpenMP runtime model: a team of T >= 1 threads, T <= 2^24; single, barriers, static loop distribution, reductions, atomics and critical sections as OpenMP 5 defines them',
       'within a team, memory accesses that are ordered by barriers, single, critical sections and atomics are seen in that order']
PROPS = {
    'C01': dict(configs=LIB, want=pick('encode', 'stream_encode', 'encode1', 'omp_encode1', 'final', 'init', dec=False), lemmas=['encode_lemmas'], harness='enc', runner='conc_omp', rcfg='x86_64-openmp', rsearch=['-T', 60], assume=OMP, hconfigs=HN),
    'C02': dict(configs=LIB, want=pick('encode', 'stream_encode', 'encode1', 'omp_encode1', 'omp_decode1', 'final', 'init', 'decode', 'stream_decode', 'decode1'),
                lemmas=['encode_lemmas', 'roundtrip_lemmas', 'decode_lemmas'], harness='enc,dec,cut', runner='conc_omp', rcfg='x86_64-openmp', rsearch=['-T', 60], assume=OMP, hconfigs=HN),
    'C03': dict(configs=LIB, want=pick('decode', 'decode1', 'omp_decode1', 'stream_decode', 'init', enc=False), lemmas=['decode_lemmas'], harness='dec', runner='conc_omp', rcfg='x86_64-openmp', rsearch=['-T', 60], assume=OMP, hconfigs=HN),
    'C04': dict(configs=LIB, want=pick('decode', 'stream_decode', 'init', enc=False), lemmas=['decode_lemmas'], harness='cut', hconfigs=HN),
    'C05': dict(configs=LIB, want=pick('encode', 'stream_encode', 'encode1', 'omp_encode1', 'final', 'init', dec=False), lemmas=['encode_lemmas'], harness='enc', runner='conc_omp', rcfg='x86_64-openmp', rsearch=['-T', 60], assume=OMP, hconfigs=HN),
    'C06': dict(configs=LIB, want=pick('decode', 'stream_decode', 'decode1', 'omp_decode1', 'init', enc=False), lemmas=['decode_lemmas'], harness='dec', runner='conc_omp', rcfg='x86_64-openmp', rsearch=['-T', 60], assume=OMP, hconfigs=HN),
    'C07': dict(configs=LIB, want=pick('encode', 'decode'), lemmas=[], harness='enc,dec', hconfigs=HN),
    'C08': dict(configs=ALL, want=pick('choose', 'init', 'stream_encode', 'stream_decode', 'encode1', 'decode1', 'omp_encode1', 'omp_decode1'), lemmas=[], harness='', hconfigs=[], runner='conc_cpuid'),
    'C09': dict(configs=LIB, want=pick('stub', 'choose', 'init', 'stream_encode', 'stream_decode', 'encode1', 'decode1', 'omp_encode1', 'omp_decode1'), lemmas=[], harness='stub', runner='conc_omp', rcfg='x86_64-openmp', rsearch=['-T', 60], assume=OMP, hconfigs=HN + ['x86_64-plain']),
    'C10': dict(configs=['x86_64-openmp'], want=pick('omp_encode1', 'omp_decode1', 'encode', 'decode', 'stub', 'stream_encode', 'stream_decode', 'init', 'final'), lemmas=[], harness='', hconfigs=[],
                runner='conc_omp', rsearch=['-T', 100], rargs=['-T', 25],
                assume=OMP),
    'C11': dict(CLI, configs=CLI['configs'] + ['x86_64-nowritev'], units=['cli_opt', 'cli_enc0', 'cli_encw']),
    'C12': dict(CLI, units=['cli_opt', 'cli_dec', 'cli_deci', 'cli_decn']),
    'C13': dict(CLI, configs=CLI['configs'] + ['x86_64-nowritev'], units=['cli_enc0_io', 'cli_encw_io', 'cli_dec_io', 'cli_deci_io', 'cli_decn_io']),
    'C14': dict(main='engine.tables'),
    'C15': dict(configs=LIB, want=lambda f, c: not c.startswith('omp'), lemmas=[], harness='inter,enc,dec', hconfigs=HN),
}
