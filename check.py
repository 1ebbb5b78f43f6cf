#!/usr/bin/env python3-vt
"""check.py <property> : verify the functions the property depends on against their contracts.

Everything is compiled from /repo as it is now.  Exit 0: every obligation of the property was
accepted (or a labelled bounded stand-in found nothing).  Exit 1: VIOLATION line."""
import os, sys, json, time, importlib, tempfile, shutil, subprocess, hashlib, re, threading, resource
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import build, concrete
from engine.props import PROPS, STRUCT, kinds_for

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = min(8, os.cpu_count() or 8)
MEM = 4 << 30
STOP = threading.Event()        # a failing input is known and so is the obligation that fails: the verdict is settled
INPUT = threading.Event()       # a concrete failing input is known
OBLIG = threading.Event()       # an obligation of the property failed
GRACE = 120 if TIER == 'quick' else 600     # with a failing input known, how long to go on for the failed obligation


def settle():
    if INPUT.is_set() and OBLIG.is_set():
        STOP.set()
    elif INPUT.is_set():
        t = threading.Timer(GRACE, STOP.set)
        t.daemon = True
        t.start()


CODECS = ['avx2', 'neon32', 'neon64', 'plain', 'ssse3', 'sse41', 'sse42', 'avx', 'avx512']
DEADLINE1 = 430 if TIER == 'quick' else 3000       # no new verification after this
DEADLINE2 = 560 if TIER == 'quick' else 4000
LIMIT = 150 if TIER == 'quick' else 600


def elapsed():
    return time.time() - T0


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def units_for(cfg, P):
    """(function, contract) pairs of a configuration"""
    if P.get('units'):
        us = [('main[%s]' % u, u) for u in P['units']]
        if '-DEMULATE_WRITEV' in cfg.defs:
            us.append(('writev', 'cli_writev_io' if us[0][1].endswith('_io') else 'cli_writev'))
        return us
    want = P['want']
    haves = [h.lower() for h in cfg.haves] + ['plain']
    out = []
    for c in CODECS:
        for d in ('encode', 'decode'):
            fn = 'base64_stream_%s_%s' % (d, c)
            out.append((fn, d if c in haves else 'stub'))
    out += [('base64_stream_encode_init', 'init'), ('base64_stream_decode_init', 'init'),
            ('base64_stream_encode', 'stream_encode'), ('base64_stream_decode', 'stream_decode'),
            ('base64_stream_encode_final', 'final'), ('codec_choose', 'choose'),
            ('base64_encode', 'encode1' if not cfg.openmp else 'omp_encode1'),
            ('base64_decode', 'decode1' if not cfg.openmp else 'omp_decode1')]
    return [(f, c) for f, c in out if want(f, c)]


class Text:
    """function bodies and globals of a module, for recognising identical work"""
    def __init__(self, path):
        self.txt = open(path).read()
        self.fn = {}
        self.glob = {}
        self.head = '\n'.join(re.findall(r'^target .*$', self.txt, re.M))
        for m in re.finditer(r'^define .*?@([\w.$]+)\(.*?^}$', self.txt, re.M | re.S):
            self.fn[m.group(1)] = m.group(0)
        for m in re.finditer(r'^@([\w.$]+) = (.*)$', self.txt, re.M):
            self.glob[m.group(1)] = m.group(2)
        self.types = {m.group(1): m.group(2) for m in re.finditer(r'^%(\S+) = type (.*)$', self.txt, re.M)}
        self.gh = {}

    def key(self, fn):
        b = self.fn.get(fn)
        if b is None:
            return None
        b = b.replace('@' + fn + '(', '@SELF(', 1)
        b = re.sub(r', !srcloc !\d+|, !tbaa[\w.]* !\d+|, !llvm\.loop !\d+|, !noundef !\d+|![\w.]+ !\d+| #\d+', '', b)
        b = re.sub(r'; preds = .*', '', b)
        # local names carry no meaning: number them in order of appearance
        names = {}

        def ren(m):
            x = m.group(2)
            if x.startswith(('struct.', 'union.')):
                return m.group(0)
            return m.group(1) + names.setdefault(x, 'L%d' % len(names))
        b = re.sub(r'(%|^)([A-Za-z][\w.]*)(?=\W|$)(?!:)', lambda m: ren(m) if m.group(1) else m.group(0), b, flags=re.M)
        b = re.sub(r'^()([A-Za-z][\w.]*)(?=:)', ren, b, flags=re.M)
        todo = sorted(set(re.findall(r'@([\w.$]+)', b)))
        seen = set()
        ty = sorted(set(re.findall(r'%((?:struct|union)\.[\w.]+)', b)))
        parts = [self.head] + [self.types.get(x, x) for x in ty] + [b]
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            if g in self.glob:
                if g not in self.gh:
                    self.gh[g] = hashlib.sha256(self.glob[g].encode()).hexdigest()
                parts.append(g + self.gh[g])
                todo += [x for x in re.findall(r'@([\w.$]+)', self.glob[g]) if x not in seen]
        return hashlib.sha256('\n'.join(parts).encode()).hexdigest()


def symbol(fn):
    return fn.split('[')[0]


def compile_cfgs(P, names, d, passes):
    res = {}

    def one(n):
        cfg = build.config(n)
        dd = os.path.join(d, n)
        os.makedirs(dd, exist_ok=True)
        try:
            lay = build.probe(cfg, dd)
            ll = build.compile_module(cfg, dd, passes=passes, **({'files': P['files'], 'name': P['modname']} if P.get('files') else {}))
            return n, {'lay': lay, 'll': ll, 'text': Text(ll), 'err': None}
        except (build.BuildError, OSError) as e:
            return n, {'err': str(e)[-1500:]}
    with ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(one, names):
            res[n] = r
    return res


def run_worker(task, d, limit):
    p = os.path.join(d, 'task-%s.json' % hashlib.sha256(json.dumps(task, sort_keys=True).encode()).hexdigest()[:16])
    task = dict(task, limit=limit)
    json.dump(task, open(p, 'w'))
    try:
        r = subprocess.Popen([sys.executable, os.path.join(HERE, 'engine', 'worker.py'), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits)
        end = time.time() + limit + 30
        while True:
            try:
                so, se = r.communicate(timeout=0.5)
                return json.loads(so)
            except subprocess.TimeoutExpired:
                if STOP.is_set() or time.time() > end:
                    r.kill()
                    r.communicate()
                    why = 'a failing input was found meanwhile' if STOP.is_set() else 'time limit'
                    break
    except ValueError:
        why = 'verifier ended without an answer: ' + se.decode(errors='replace')[-200:]
    return {'fn': task['fn'], 'cfg': task['cfg'], 'contract': task['contract'], 'status': 'undecided', 'obs': {}, 'backends': {}, 'failed': [], 'why': why, 'wall': limit}


COST = {'cli_encw_io': 20, 'cli_encw': 8, 'encode': 10, 'decode': 5, 'choose': 3}


def verify(prop, P, mods, d, deadline, limit, only=None):
    """-> {(cfg, fn): result}"""
    todo = {}
    alias = {}
    res = {}
    for n in P['configs']:
        m = mods[n]
        cfg = build.config(n)
        for fn, con in units_for(cfg, P):
            if only is not None and (n, fn) not in only:
                continue
            if m['err']:
                res[n, fn] = {'fn': fn, 'cfg': n, 'contract': con, 'status': 'undecided', 'obs': {}, 'backends': {}, 'failed': [], 'why': 'does not lower: ' + m['err'][-300:], 'wall': 0}
                continue
            k = m['text'].key(symbol(fn))
            t = {'fn': symbol(fn), 'cfg': n, 'contract': con, 'll': m['ll'], 'lay': m['lay'], 'haves': cfg.haves, 'target': cfg.target}
            if k is None:
                res[n, fn] = dict(t, status='undecided', obs={}, backends={}, failed=[], why='no definition of ' + fn, wall=0)
                continue
            k = (k, con, json.dumps(m['lay'], sort_keys=True), str(cfg.haves) if con == 'choose' else '')
            alias.setdefault(k, []).append((n, fn))
            todo.setdefault(k, t)
    order = sorted(todo, key=lambda k: (-COST.get(k[1], 1), 'avx' not in todo[k]['fn'] and 'sse' not in todo[k]['fn']))
    ex = ThreadPoolExecutor(NCPU)

    def go(k):
        left = deadline - elapsed()
        if left < 5 or STOP.is_set():
            t = todo[k]
            return k, {'fn': t['fn'], 'cfg': t['cfg'], 'contract': t['contract'], 'status': 'undecided', 'obs': {}, 'backends': {}, 'failed': [],
                       'why': 'a failing input was found meanwhile' if STOP.is_set() else 'time budget of the run used up', 'wall': 0}
        return k, run_worker(todo[k], d, min(limit, left))
    for f in as_completed([ex.submit(go, k) for k in order]):
        k, r = f.result()
        if r['status'] == 'failed' and relevant(prop, r):
            OBLIG.set()
            settle()
        first = True
        for n, fn in alias[k]:
            res[n, fn] = dict(r, cfg=n, fn=fn, shared=None if first else '%s/%s' % alias[k][0])
            first = False
    ex.shutdown()
    return res


def crosscheck(cfgs, d, args, timeout, par=3, prop=None, runner=None):
    out = []

    def one(c):
        t = time.time()
        try:
            if runner:
                r = runner(c, d, args, timeout)
            else:
                exe = concrete.build_harness(c, d)
                r = concrete.run_harness(c, exe, args, timeout)
        except (build.BuildError, OSError) as e:
            r = {'cfg': c, 'rc': 'build', 'fails': [], 'calls': 0, 'done': False, 'cmd': str(e)[-300:]}
        r['wall'] = round(time.time() - t, 1)
        if prop and any(f['property'] == prop for f in r['fails']) and not INPUT.is_set():
            INPUT.set()
            settle()
        return r
    with ThreadPoolExecutor(par) as ex:
        out = list(ex.map(one, cfgs))
    return out


def known():
    fixed, open_ = [], []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('fixed:'):
                fixed.append(l)
            elif l.startswith('finding:'):
                m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
                if m:
                    open_.append(m.groups())
    return fixed, open_


def main(prop):
    if PROPS[prop].get('main'):
        return importlib.import_module(PROPS[prop]['main']).main(prop, TIER, SEED)
    P = PROPS[prop]
    d = tempfile.mkdtemp(prefix='b64-%s-' % prop)
    try:
        return run(prop, P, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(prop, P, d):
    mods = compile_cfgs(P, P['configs'], d, build.PASSES)
    lem = {}

    def lemmas():
        for l in P.get('lemmas', ()):
            r = subprocess.run([sys.executable, '-c', 'import sys,json;sys.path.insert(0,%r);from engine import lemmas;print(json.dumps(lemmas.%s()))' % (HERE, l)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                lem[l] = json.loads(r.stdout)
            except ValueError:
                lem[l] = [['lemma %s: %s' % (l, r.stderr.decode(errors='replace')[-200:]), False, 'none', 0]]
    th = threading.Thread(target=lemmas)
    th.start()
    xr = []

    def cross():
        if P.get('harness'):
            a = ['-t', P['harness'], '-s', SEED, '-l', 90 if TIER == 'quick' else 900, '-c', 400 if TIER == 'quick' else 20000, '-T', 25 if TIER == 'quick' else 200]
            xr.extend(crosscheck(P['hconfigs'] + ([] if TIER == 'quick' else ['aarch64-noasm', 'armhf-noasm', 's390x-word32']), d, a, 120 if TIER == 'quick' else 600, prop=prop))
        if P.get('runner') and not P.get('rcfg'):
            mod = importlib.import_module('engine.' + P['runner'])
            a = P.get('rargs', []) if TIER == 'quick' else P.get('rsearch', [])
            xr.extend(crosscheck(mod.CFGS, d, a + (['-s', SEED] if a else []), 130 if TIER == 'quick' else 900, prop=prop, runner=mod.run))
    tx = threading.Thread(target=cross)
    tx.start()
    res = verify(prop, P, mods, d, DEADLINE1, LIMIT)
    bad = {k for k, r in res.items() if r['status'] != 'proved' and relevant(prop, r)}
    retried = {}
    if bad and not INPUT.is_set():
        # another, equally valid lowering of the same source
        mods2 = compile_cfgs(P, sorted({n for n, _ in bad}), d, build.UNROLL)
        for n in P['configs']:
            mods2.setdefault(n, mods[n])
        r2 = verify(prop, P, mods2, d, DEADLINE2, 80 if TIER == 'quick' else 400, only=bad)
        for k, r in r2.items():
            if r['status'] == 'proved' or (res[k]['status'] == 'undecided' and r['status'] == 'failed' and relevant(prop, r)):
                retried[k] = res[k]
                res[k] = dict(r, lowering='unrolled')
    th.join()
    tx.join()
    # ---------------------------------------------------------------- decide
    failed, undecided = [], []
    for k, r in sorted(res.items()):
        if r['status'] == 'failed':
            f = relevant(prop, r)
            if f:
                failed.append((k, r, f))
        elif r['status'] != 'proved':
            undecided.append((k, r))
    for l, xs in lem.items():
        for x in xs:
            if not x[1]:
                failed.append((('lemma', l), {'fn': l, 'cfg': '-', 'status': 'failed', 'why': ''}, [{'kind': 'lemma', 'what': x[0], 'where': '', 'detail': ''}]))
    xfail = [f for r in xr for f in r['fails'] if f['property'] == prop]
    for r in xr:
        if not r['done'] and r['rc'] != 'timeout' and r['rc'] != 'build' and not r['fails']:
            xfail.append({'property': prop, 'cfg': r['cfg'], 'args': '', 'what': 'the harness died: rc %s' % r['rc']}) if r['rc'] not in (0, 1, 2) else None
    search = []
    if (failed or undecided) and not xfail and P.get('harness'):
        # look for a concrete failing input
        hc = sorted({hcfg(k[0]) for k, *_ in failed + undecided if hcfg(k[0])} or set(P['hconfigs']))
        hints = set()
        for _, r, f in failed:
            for o in f:
                for m in re.finditer(r'\bN=(\d+)', o.get('detail', '')):
                    hints.add(int(m.group(1)))
        big = set()
        for k in {(k[0], k[1]) for k, *_ in failed + undecided}:
            if k[0] in mods and not mods[k[0]]['err']:
                # limits that the code compares its lengths with
                for m in re.finditer(r'(?:icmp|umin|umax|select|udiv|lshr|and|add|sub|mul|smin|smax)\b.*', mods[k[0]]['text'].fn.get(symbol(k[1]), '')):
                    for c in re.findall(r'[ (,](\d{4,11})\b', m.group(0)):
                        if 1300 <= int(c) < 1 << 36:
                            big.add(int(c))
        big = sorted(big)[:16]
        hints |= set(big) | {2 * c for c in big if 2 * c < 1500000} | {(4 * c + 2) // 3 for c in big if c < 1100000}
        left = max(30, (760 if TIER == 'quick' else 7000) - elapsed())
        per = min(150 if TIER == 'quick' else 1200, left / 2 - 15)
        a = ['-t', P['harness'], '-s', SEED + 1, '-l', 1300, '-c', 60000, '-T', int(per)]
        if hints:
            a += ['-n', ','.join(map(str, sorted(hints)[:40]))]
        search = crosscheck(hc, d, a, per + 70, par=NCPU)
        xfail = [f for r in search for f in r['fails'] if f['property'] == prop]
        if not xfail and any(h > 1500000 for h in hints):
            left = 800 - elapsed() if TIER == 'quick' else 2000
            if left > 60:
                search2 = crosscheck([c for c in hc if 'x86_64' in c], d, ['-t', P['harness'] + ',huge', '-l', 0, '-c', 0, '-T', int(left - 30), '-n', ','.join(map(str, [h for h in sorted(hints) if h > 1500000][:6]))], left, par=4)
                search += search2
                xfail = [f for r in search2 for f in r['fails'] if f['property'] == prop]
    if (failed or undecided) and not xfail and P.get('rsearch') and (not P.get('rcfg') or any(k[0] == P['rcfg'] for k, *_ in failed + undecided)):
        mod = importlib.import_module('engine.' + P['runner'])
        search = search + crosscheck(mod.CFGS, d, P['rsearch'] + ['-s', SEED + 1], 300 if TIER == 'quick' else 1500, par=4, runner=mod.run)
        xfail = [f for r in search for f in r['fails'] if f['property'] == prop]
    if failed and prop == 'C07' and not xfail:
        # every codec fails the contract in the same way: they may still agree with each other
        sig = {}
        for k, r, f in failed:
            sig.setdefault((k[0], r.get('contract')), {})[k[1]] = frozenset((o['kind'], o['what']) for o in f)
        same = True
        for (n, con), m in sig.items():
            if n == 'lemma' or len(set(m.values())) != 1 or len(m) != len([1 for k, r in res.items() if k[0] == n and r['contract'] == con]) or len(m) < 2:
                same = False
        if same:
            undecided += [(k, dict(r, why='all codecs miss the contract alike; equality decided by the bounded differential run')) for k, r, f in failed]
            failed = []
    fixed, open_ = known()
    nob = sum(sum(v[0] for v in r['obs'].values()) for r in res.values() if not r.get('shared')) + sum(len(x) for x in lem.values())
    nok = sum(sum(v[1] for v in r['obs'].values()) for r in res.values() if not r.get('shared')) + sum(1 for x in lem.values() for y in x if y[1])
    violation = bool(failed or xfail)
    replay = os.path.join(HERE, 'evidence', 'replay', '%s.txt' % prop)
    known_hit = []
    if violation:
        keys = {'%s/%s' % k for k, _, _ in failed} | {f['cfg'] + ':' + f['args'][:80].replace(' ', '_') for f in xfail}
        known_hit = [o for o in open_ if o[0] == prop and o[1] in keys]
        if known_hit and keys == {o[1] for o in known_hit}:
            violation = False
    evidence(prop, P, res, lem, xr, search, failed, undecided, xfail, nob, nok, violation, retried)
    for o in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, o[2]))
    for k, r in undecided:
        print('undecided by proof: %s %s (%s)%s' % (k[0], k[1], (r.get('why') or '')[-160:].replace('\n', ' '), '' if xfail else '; bounded concrete check found nothing'))
    print('%s: %d of %d obligations discharged, %d functions, %d undecided, %.1f s' % (prop, nok, nob, len(res), len(undecided), elapsed()))
    if violation:
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, 'w') as f:
            f.write(replay_text(prop, failed, xfail, search))
        for k, r, fl in failed[:6]:
            for o in fl[:4]:
                print('failed obligation: %s %s [%s] %s at %s: %s' % (k[0], k[1], o['kind'], o['what'], o['where'][:80], o['detail'][:200]))
        for f in xfail[:4]:
            print('failing input: %s: %s # %s' % (f['cfg'], f['args'][:200], f['what']))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if xfail else ' no-failing-input-found'))
        return 1
    return 0


def hcfg(n):
    return n if n in concrete.NATIVE else {'armhf-neon': 'armhf', 'armeb': 's390x-word32'}.get(n)


def relevant(prop, r):
    ks = kinds_for(prop, r.get('contract'), r.get('fn'))
    if r['status'] == 'failed':
        return [o for o in r['failed'] if ks is None or o['kind'] in ks]
    return True if ks is None or ks else []


def replay_text(prop, failed, xfail, search):
    out = ['property %s' % prop]
    if xfail:
        out.append('Failing inputs on the real code; reproduce one with: python3-vt %s/replay.py %s [number]' % (HERE, os.path.join(HERE, 'evidence/replay', prop + '.txt')))
        for i, f in enumerate(xfail[:20]):
            out.append('INPUT %d cfg=%s args=%s # %s' % (i, f['cfg'], f['args'], f['what']))
    else:
        out.append('no-failing-input-found: the concrete search found no failing input')
    for s in search:
        out.append('searched: %s (%d calls)' % (s['cmd'], s['calls']))
    for k, r, fl in failed:
        out.append('FUNCTION %s in configuration %s: %s' % (k[1], k[0], r['status']))
        for o in fl:
            out.append('  FAILED OBLIGATION [%s] %s\n    at %s\n    verifier: %s' % (o['kind'], o['what'], o['where'], o['detail']))
    return '\n'.join(out) + '\n'


TRUST = ['clang 18 front end and the opt passes %s: the IR is taken as the meaning of the C source (the tested binaries are built with gcc and clang)' % build.PASSES,
         'the verification engine in /verif/engine (symbolic execution, affine invariants, obligation generation)',
         'z3 4.x for linear integer and bit-vector queries; exhaustive table evaluation with numpy',
         'models of the vector intrinsics (engine/intrin.py) and of the instructions in the inline assembly (engine/asmlift.py)']
ASSUME = ['source and output chunks are distinct objects of at most PTRDIFF_MAX bytes (no wrap-around of the address space)',
          'pointer comparisons and differences follow the flat address model',
          'gcc compiles the same source to code with the same meaning (the concrete cross-check samples this)',
          'stream states are those reachable through the API (state invariant of the contracts)']


def evidence(prop, P, res, lem, xr, search, failed, undecided, xfail, nob, nok, violation, retried):
    ks = {}
    be = {}
    st = {'lia_queries': 0, 'lia_time_s': 0.0, 'z3_bv_queries': 0, 'z3_bv_time_s': 0.0, 'enumerated_cases': 0}
    for r in res.values():
        if r.get('shared'):
            continue
        for k, v in r['obs'].items():
            x = ks.setdefault(k, [0, 0])
            x[0] += v[0]
            x[1] += v[1]
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
        if isinstance(r.get('lia'), dict):
            st['lia_queries'] += r['lia']['queries'] + r['lia']['quick']
            st['lia_time_s'] += r['lia']['time']
        if isinstance(r.get('bv'), dict):
            st['z3_bv_queries'] += r['bv']['z3']
            st['z3_bv_time_s'] += r['bv']['z3time']
            st['enumerated_cases'] += r['bv']['evalcases']
    st = {k: round(v, 2) for k, v in st.items()}
    cov = {
        'obligations': nob, 'discharged': nok,
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': TRUST,
        'obligation_kinds': {k: {'generated': v[0], 'discharged': v[1]} for k, v in sorted(ks.items())},
        'relevant_kinds': P.get('note', ''),
        'back_ends': be, 'solver': st,
        'functions': [{'config': n, 'function': fn, 'contract': r['contract'], 'status': r['status'], 'obligations': sum(v[0] for v in r['obs'].values()),
                       'paths': r.get('paths'), 'loops': r.get('loops'), 'wall_s': r.get('wall'), 'same_code_as': r.get('shared'), 'lowering': r.get('lowering', 'inlined')}
                      for (n, fn), r in sorted(res.items())],
        'lemmas': [{'lemma': x[0], 'holds': x[1], 'back_end': x[2], 'cases': x[3]} for l in lem.values() for x in l],
        'bounded_stand_ins': [{'config': k[0], 'function': k[1], 'why': r.get('why')} for k, r in undecided],
        'concrete_cross_check_not_proof': [{'config': r['cfg'], 'calls': r['calls'], 'completed': r['done'], 'failures_of_this_property': len([f for f in r['fails'] if f['property'] == prop]), 'wall_s': r.get('wall')} for r in xr + search],
        'failed_obligations': [{'config': k[0], 'function': k[1], 'obligations': f[:8]} for k, r, f in failed],
    }
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUME + ['configurations: ' + ', '.join(P['configs'])] + P.get('assume', []), 'wall_s': round(elapsed(), 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
