"""Verify one function against its contract (one process per function).

usage: worker.py TASK.json   ->   JSON result on stdout
"""
import json, sys, time, os, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def contract(name, mod, lay, task):
    from engine import codec, wrap
    eofs = (lay.get('AEOF', 1), lay.get('EOF', 2))
    if name == 'encode':
        return codec.Encode(mod, lay, eofs)
    if name == 'decode':
        return codec.Decode(mod, lay, eofs)
    if name == 'choose':
        return wrap.Choose(mod, lay, task['haves'], task['target'], eofs=eofs)
    if name.startswith('omp'):
        from engine import omp
        return omp.CONTRACTS[name](mod, lay, eofs)
    if name.startswith('cli'):
        from engine import cli
        return cli.CONTRACTS[name](mod, lay, eofs)
    c = {'init': wrap.Init, 'stream_encode': wrap.StreamEncode, 'encode1': wrap.EncodeOneShot, 'final': wrap.EncodeFinal,
         'stream_decode': wrap.StreamDecode, 'decode1': wrap.DecodeOneShot, 'stub': wrap.Stub}[name]
    return c(mod, lay, eofs)


def main(task):
    t0 = time.time()
    r = None
    if task['contract'] in ('final', 'init', 'choose', 'stub'):
        r = attempt(task, t0, unfold=True)
        if r['status'] == 'undecided' and r.get('unfolded'):
            r = None
    r = r or attempt(task, t0)
    hints = r.pop('hints', None)
    if hints and r['status'] in ('failed', 'undecided') and not task['contract'].startswith(('cli', 'omp', 'choose', 'stub', 'init')) and time.time() - t0 < 0.5 * task.get('limit', 120):
        # again with a case distinction over small constants at the cutpoints
        r2 = attempt(task, t0, bycase=hints)
        if r2['status'] == 'proved':
            r2.pop('hints', None)
            r = dict(r2, bycase=True)
    return r


def attempt(task, t0, bycase=None, unfold=False):
    from engine import ir, intrin, asmlift
    from engine.loops import Verifier
    from engine.exec import Unsupported, Region
    res = {'fn': task['fn'], 'cfg': task['cfg'], 'contract': task['contract'], 'status': 'proved', 'obs': {}, 'backends': {}, 'failed': [], 'why': ''}
    E = None
    try:
        M = ir.Module(open(task['ll']).read(), only=lambda n: n == task['fn'] or '.omp_outlined' in n)
        if task['fn'] not in M.funcs:
            res['status'] = 'missing'
            res['why'] = 'no definition of %s' % task['fn']
            return res
        arch = 'aarch64' if 'aarch64' in task['target'] else 'arm' if task['target'].startswith('arm') else 'x86'
        asmlift.lift(M.funcs[task['fn']], arch)
        C = contract(task['contract'], M, task['lay'], task)
        E = getattr(C, 'engine', Verifier)(M, M.funcs[task['fn']], C, intrinsics=intrin.INTR, deadline=t0 + task.get('limit', 120))
        E.bycase = bycase
        E.unfold = unfold
        E.verify(C.starts(E))
        if E.exits == 0 and all(o.ok for o in E.obs):
            res['status'] = 'undecided'
            res['why'] = 'no path reaches the end of the function'
    except (Unsupported, ir.ParseError, NotImplementedError) as e:
        res['status'] = 'undecided'
        res['why'] = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        res['status'] = 'undecided'
        res['why'] = 'term too deep'
    except Exception as e:
        res['status'] = 'undecided'
        res['why'] = 'internal: %s' % ' | '.join(traceback.format_exc().strip().splitlines()[-5:])
    if E is not None:
        res['unfolded'] = E.unfolded
        res['hints'] = getattr(E, 'casehints', None)
        for o in E.obs:
            k = res['obs'].setdefault(o.kind, [0, 0])
            k[0] += 1
            k[1] += bool(o.ok)
            res['backends'][o.backend] = res['backends'].get(o.backend, 0) + 1
        bad = [o for o in E.obs if not o.ok]
        seen = {}
        for o in bad:
            seen.setdefault((o.kind, o.what), o)
        per = {}
        for o in seen.values():
            per.setdefault(o.kind, []).append(o)
        res['failed'] = [{'kind': o.kind, 'what': o.what, 'where': o.where, 'detail': (o.detail or '')[:600]} for v in per.values() for o in v[:12]]
        if bad and (res['status'] == 'proved' or res['status'] == 'undecided' and any(o.kind == 'race' for o in bad)):
            res['status'] = 'failed'
        if not E.obs and res['status'] == 'proved':
            res['status'] = 'undecided'
            res['why'] = 'no obligations were generated'
        res['paths'] = E.paths
        res['loops'] = len(E.loopinfo)
        res['lia'] = dict(E.lia.stats) if isinstance(E.lia.stats, dict) else str(E.lia.stats)
        res['bv'] = dict(E.dec.stats) if isinstance(E.dec.stats, dict) else str(E.dec.stats)
        res['exits'] = E.exits
        if hasattr(C, 'notes'):
            res['notes'] = C.notes
    res['wall'] = round(time.time() - t0, 2)
    return res


if __name__ == '__main__':
    print(json.dumps(main(json.load(open(sys.argv[1])))))
