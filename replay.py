#!/usr/bin/env python3-vt
"""replay.py FILE [number]: run a recorded failing input against the code in /repo."""
import os, sys, re, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import concrete


def main():
    txt = open(sys.argv[1]).read()
    k = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    m = re.search(r'^INPUT %d cfg=(\S+) args=(.*?) # ' % k, txt, re.M)
    if not m:
        print(txt)
        return 0
    d = tempfile.mkdtemp(prefix='b64-replay-')
    try:
        if m.group(1).startswith(('cli', 'cpuid', 'omp', 'table')):
            import importlib
            mod = importlib.import_module('engine.conc_' + re.match(r'[a-z]+', m.group(1)).group(0))
            return mod.replay(m.group(1), m.group(2), d)
        exe = concrete.build_harness(m.group(1), d)
        r = concrete.run_harness(m.group(1), exe, m.group(2).split(), 300)
        for f in r['fails']:
            print(f['property'], f['args'][:300], '#', f['what'])
        print('reproduced' if r['fails'] else 'not reproduced')
        return 1 if r['fails'] else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
