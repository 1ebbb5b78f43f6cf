"""Contracts of the OpenMP one-shot calls (lib/lib_openmp.c as compiled into base64_encode/decode).

The parallel region is verified thread-modularly: one arbitrary thread `tid` of a team of T >= 1
threads (both symbolic) is executed from barrier to barrier over the outlined function.  Between
two barriers a shared object may be written only by the thread that won `single`, or inside a
critical section / reduction / atomic; nothing that is written that way may be read by the others
in the same phase.  The loop over the parts is distributed by the runtime: a static schedule with
as many iterations as threads gives each thread exactly its own one.  What one arbitrary thread
does as a function of tid is then summed over the team: its source range must start where the
range of tid-1 ends (no overlap, no gap), its contributions add up.

Products such as tid*len are monomials; facts about them come from products of linear facts."""
import z3
from . import terms as t
from .lia import Aff, aff, PC, LIA, fresh, lca
from .exec import State, Ptr, Fn, Region, Fork, Unsupported, UNDEF, PathEnd, sgn, M
from .loops import Verifier
from .codec import fromA
from .wrap import EncodeOneShot, DecodeOneShot, Base

TMAX = 1 << 24      # threads; the OpenMP runtime and the int arithmetic of the code stay far below
SEP = '·'


def factors(s):
    return s.split(SEP)


def mono(fs):
    return SEP.join(sorted(fs))


def pmul(a, b):
    """product of two polynomials in monomial form"""
    a, b = aff(a), aff(b)
    r = Aff(a.c * b.c)
    for s, k in a.m.items():
        if b.c:
            r = r + Aff(0, {s: k * b.c})
        for s2, k2 in b.m.items():
            fs = factors(s) + factors(s2)
            if len(fs) > 3:
                raise Unsupported('product of degree %d' % len(fs))
            r = r + Aff(0, {mono(fs): k * k2})
    for s, k in b.m.items():
        if a.c:
            r = r + Aff(0, {s: k * a.c})
    return r


def psubst(a, sym, p):
    """polynomial a with the symbol replaced by the polynomial p"""
    r = Aff(aff(a).c)
    for s, k in aff(a).m.items():
        m = Aff(1)
        for f in factors(s):
            m = pmul(m, p if f == sym else Aff.sym(f))
        r = r + m * k
    return r


class PLIA(LIA):
    """linear arithmetic plus products of pairs of known linear facts"""
    def __init__(self):
        super().__init__()
        self.stats['products'] = 0

    def prove_ge(self, pc, a):
        self.query = pc.norm(aff(a))
        try:
            return super().prove_ge(pc, a)
        finally:
            self.query = None

    query = None

    def fixed(self, pc, f):
        a = pc.norm(Aff.sym(f))
        if f == 'T' and not a.isc():
            k = ('fixed', f)
            if k not in pc.memo:
                pc.memo[k] = None
                one = LIA._check(self, pc, self.z(a) != 1) == z3.unsat
                pc.memo[k] = Aff(1) if one else a
            a = pc.memo[k] or a
        return a

    def _check(self, pc, extra):
        r = super()._check(pc, extra)
        if r == z3.unsat:
            return r
        facts = []
        base = set()
        if extra is not None and self.query is not None:
            for s in self.query.m:
                if SEP in s:
                    base.update(factors(s))
        ex = []
        for n in pc.chain():
            if n.kind in ('ge', 'eq'):
                for s in n.data.m:
                    if SEP in s:
                        base.update(factors(s))
                facts.append(n)
        if not base:
            return r
        lin = [Aff(1)]
        seen = set()
        for n in facts:
            a = pc.norm(n.data)
            if n.kind == 'ge' and a.m and all(s in base for s in a.m) and a.key() not in seen:
                seen.add(a.key())
                lin.append(a)
        # a factor that the path determines: its products are determined too
        mon = {m for n in facts for m in n.data.m if SEP in m}
        if self.query is not None:
            mon |= {m for m in self.query.m if SEP in m}
        for m in sorted(mon):
            p = Aff(1)
            for f in factors(m):
                p = pmul(p, self.fixed(pc, f))
            if p.key() != Aff.sym(m).key():
                ex.append(self.z(pc.norm(Aff.sym(m))) == self.z(pc.norm(p)))
        lin = lin[:14]
        for i in range(1, len(lin)):
            for j in range(i, len(lin)):
                ex.append(self.z(pc.norm(pmul(lin[i], lin[j]))) >= 0)
        self.stats['products'] += len(ex)
        self.sync(pc)
        self.s.push()
        self.s.add(*ex)
        if extra is not None:
            self.s.add(extra)
        r = self.s.check()
        self.s.pop()
        return r


class OmpEngine(Verifier):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.lia = PLIA()

    def divmod_(self, st, a, c):
        q, r = super().divmod_(st, a, c)
        for v in (q, r):
            v = aff(v)
            if not v.isc() and not self.lia.quick_ge(st.pc, v) and self.ge(st, v):
                st.pc = PC(st.pc, 'ge', st.pc.norm(v))
        return q, r

    def product(self, st, a, b):
        a, b = st.pc.norm(aff(a)), st.pc.norm(aff(b))
        r = st.pc.norm(pmul(a, b))
        if len(r.m) > 12:
            raise Unsupported('product of lengths %r * %r' % (a, b))
        return r

    def ibin(self, st, op, w, a, b):
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(b, Aff):
            if op[0] == 's':
                x, y = aff(self.norm_s(st, a, w)), aff(self.norm_s(st, b, w))
                if not self.ge(st, x):
                    raise Unsupported('signed division')
            else:
                x, y = aff(self.norm_u(st, a, w)), aff(self.norm_u(st, b, w))
            x, y = st.pc.norm(x), st.pc.norm(y)
            if y.isc():
                return self.ibin(st, op, w, fromA(x), y.c)
            self.ob(st, 'ub', 'division by nonzero', lambda: self.ge(st, y - 1))
            if not self.ge(st, y - 1):
                raise PathEnd()
            key = ('pdiv', x.key(), y.key())
            q = st.pc.recall(key)
            if q is None:
                qn, rn = fresh('q'), fresh('r')
                q, r = Aff.sym(qn), Aff.sym(rn)
                pc = st.pc.decl(qn).decl(rn).ge(q).ge(x - q).ge(r).ge(y - 1 - r)
                pc = pc.eq(x - pmul(y, q) - r)
                # the definition may have eliminated the remainder: keep its bounds in terms of the rest
                rr = pc.norm(r)
                pc = pc.ge(rr).ge(pc.norm(y) - 1 - rr)
                st.pc = pc.mark(key, q)
            q = aff(q)
            return q if op[1:] == 'div' else x - pmul(y, q)
        return super().ibin(st, op, w, a, b)


class Join(Exception):
    pass


SINGLE = ('__kmpc_single', '__kmpc_master', '__kmpc_masked')
ENDSINGLE = ('__kmpc_end_single', '__kmpc_end_master', '__kmpc_end_masked')


class ThreadCode:
    """what the outlined function may call; mixed into the encode and decode contracts"""
    def tcall(self, eng, st, i, name, args):
        a = [v for _, v in args]
        if name in SINGLE:
            if 'sgl' not in st.ext:
                raise Fork([[('do', lambda s, v=v: s.ext.update(sgl=v))] for v in (1, 0)])
            v = st.ext.pop('sgl')
            if v:
                st.ext['win'] = True
                st.ext['inwin'] = True
            return v
        if name in ENDSINGLE:
            st.ext['inwin'] = False
            return None
        if name == '__kmpc_barrier':
            self.arrive.append(st.copy())
            raise PathEnd()
        if name == '__kmpc_global_thread_num':
            return t.var(32, ('gtid',))
        if name == 'omp_get_num_threads':
            return Aff.sym('T')
        if name == 'omp_get_thread_num':
            return Aff.sym('tid')
        if name.startswith('__kmpc_for_static_init_'):
            return self.static_init(eng, st, name, a)
        if name == '__kmpc_for_static_fini':
            return None
        if name in ('__kmpc_reduce', '__kmpc_reduce_nowait'):
            return self.reduce(eng, st, a)
        if name in ('__kmpc_end_reduce', '__kmpc_end_reduce_nowait'):
            self.endcrit(eng, st)
            return None
        if name in ('__kmpc_critical', '__kmpc_critical_with_hint'):
            st.ext['crit'] = 'critical'
            return None
        if name == '__kmpc_end_critical':
            self.endcrit(eng, st)
            return None
        if name == '__kmpc_flush':
            return None
        return NotImplemented

    def static_init(self, eng, st, name, a):
        w = 8 if '8' in name.rsplit('_', 1)[1] else 4
        _, _, sched, plast, plo, pup, pstr, incr, chunk = a
        if sched not in (33, 34) or incr != 1 or (sched == 33 and chunk != 1):
            raise Unsupported('schedule %r, increment %r, chunk %r' % (sched, incr, chunk))
        lo = self.rd(eng, st, plo, w)
        up = self.rd(eng, st, pup, w)
        if lo != 0 or not eng.lia.prove_eq(st.pc, aff(up) + 1 - Aff.sym('T')):
            raise Unsupported('a loop that does not have one iteration per thread: %r..%r' % (lo, up))
        if st.ext.get('shared'):
            raise Unsupported('two distributed loops')
        st.ext['shared'] = True
        for p, v in ((plo, Aff.sym('tid')), (pup, Aff.sym('tid')), (pstr, Aff.sym('T'))):
            eng.cellstore(st, p.reg, p.off, w, v)
        if isinstance(plast, Ptr) and plast.reg.kind == 'cell':
            eng.cellstore(st, plast.reg, plast.off, 4, UNDEF)

    def rd(self, eng, st, p, n):
        if not isinstance(p, Ptr) or p.reg.kind != 'cell' or not isinstance(p.off, int):
            raise Unsupported('runtime argument')
        v = eng.cellload(st, p.reg, p.off, n, ('i', 8 * n))
        if v is UNDEF or isinstance(v, t.T):
            raise Unsupported('runtime argument %r' % (v,))
        v = self.num(eng, st, v, 8 * n)
        return v

    # ---- shared objects
    def sharedreg(self, r):
        return r.kind == 'cell' and r.name in self.shared

    def redcell(self, eng, st, p, n, val=None):
        """value of a shared cell inside a critical section: whatever the others left there"""

    def reduce(self, eng, st, a):
        _, _, n, size, lst, fn, _ = a
        if not isinstance(n, int) or not isinstance(lst, Ptr) or lst.reg.kind != 'cell':
            raise Unsupported('reduction')
        w = self.mod.ptrbits // 8
        if 'rv' not in st.ext:
            raise Fork([[('do', lambda s, v=v: s.ext.__setitem__('rv', v))] for v in (1, 2, 0)])
        if st.ext.get('red') is not None:
            raise Unsupported('two reductions')
        cells = []
        for k in range(n):
            c = st.mem[lst.reg.name].get(lst.off + k * w)
            p = c[1] if c else UNDEF
            if not isinstance(p, Ptr) or p.reg.kind != 'cell' or not isinstance(p.off, int):
                raise Unsupported('reduction list')
            e = st.mem[p.reg.name].get(p.off)
            if e is None or e[1] is UNDEF:
                raise Unsupported('reduction of an undefined value')
            cells.append((p, e[0]))
        vals = []
        for p, cw in cells:
            v = self.num(eng, st, st.mem[p.reg.name][p.off][1], 8 * cw)
            v = st.pc.norm(aff(v))
            if cw == 4:
                v = aff(eng.norm_s(st, fromA(v), 32))
                eng.ob(st, 'call', 'a thread contributes -1, 0 or 1', lambda v=v: eng.ge(st, v + 1) and eng.ge(st, 1 - v), lambda v=v: 'contribution %r' % (v,))
            vals.append((fromA(v), cw))
        st.ext['red'] = tuple(vals)
        if isinstance(fn, Fn):
            self.redfns[fn.name] = tuple(cw for _, cw in cells)
        rv = st.ext['rv']
        if rv:
            st.ext['crit'] = 'reduce'
            # the runtime may have combined other threads' values into this thread's list
            comb = []
            for p, cw in cells:
                s = fresh('V')
                st.pc = st.pc.decl(s)
                if cw == 4:
                    st.pc = st.pc.ge(Aff.sym('T') - Aff.sym(s)).ge(Aff.sym('T') + Aff.sym(s))
                else:
                    st.pc = st.pc.ge(Aff.sym(s)).ge(Aff(self.MAX) - Aff.sym(s))
                eng.cellstore(st, p.reg, p.off, cw, Aff.sym(s))
                comb.append((s, cw))
            st.ext['comb'] = tuple(comb)
        return rv

    def critsym(self, eng, st, key, cw):
        d = dict(st.ext.get('S', ()))
        if key not in d:
            s = fresh('S')
            d[key] = (s, cw)
            st.ext['S'] = tuple(sorted(d.items()))
            st.pc = st.pc.decl(s)
            S = Aff.sym(s)
            if cw == 4:
                st.pc = st.pc.ge(Aff.sym('T') - S).ge(Aff.sym('T') + S)
                for v, w in st.ext.get('comb', ()):
                    if w == 4:
                        st.pc = st.pc.ge(Aff.sym('T') - S - Aff.sym(v)).ge(Aff.sym('T') + S + Aff.sym(v))
            else:
                st.pc = st.pc.ge(S).ge(Aff(self.MAX) - S)
        return Aff.sym(d[key][0])

    def endcrit(self, eng, st):
        kind = st.ext.pop('crit', None)
        if kind is None:
            return
        S = dict(st.ext.pop('S', ()))
        new = dict(st.ext.pop('new', ()))
        adds = {}
        for k, (s, cw) in S.items():
            if k in new:
                adds[k] = st.pc.norm(aff(new[k]) - Aff.sym(s))
        if kind == 'reduce':
            for j, (v, cw) in enumerate(st.ext.get('comb', ())):
                cs = [k for k, d in adds.items() if d == Aff.sym(v)]
                eng.ob(st, 'call', 'reduction variable %d of the thread is added to its shared variable once' % j, len(cs) == 1, lambda: '%r' % adds)
                if len(cs) == 1:
                    old = self.redmap.setdefault(j, cs[0])
                    eng.ob(st, 'call', 'reduction variable %d always goes to the same shared variable' % j, old == cs[0])
            eng.ob(st, 'race', 'a reduction changes only its own variables', len(adds) == len(st.ext.get('comb', ())) and set(new) == set(adds), lambda: '%r' % new)
            st.ext.pop('comb', None)
        else:
            c = dict(st.ext.get('cadd', ()))
            for k, d in adds.items():
                c[k] = c.get(k, Aff(0)) + d
            st.ext['cadd'] = tuple(sorted(c.items()))
        w = set(st.ext.get('critw', ())) | set(new)
        st.ext['critw'] = tuple(sorted(w))

    def atomic(self, eng, st, i):
        if i.x is None:
            raise Unsupported('atomic')
        op = i.x if isinstance(i.x, str) else i.x[0]
        p = eng.val(st, ('ptr',), i.a[0])
        v = eng.val(st, i.ty, i.a[1])
        if op != 'add' or not isinstance(p, Ptr) or not self.sharedreg(p.reg) or not isinstance(p.off, int):
            raise Unsupported('atomic ' + i.text[:60])
        n = self.mod.size(i.ty)
        key = (p.reg.name, p.off)
        crit = st.ext.get('crit')
        if crit == 'reduce':
            old = dict(st.ext.get('new', ())).get(key)
            S = self.critsym(eng, st, key, n)
            cur = aff(old) if old is not None else S
            d = dict(st.ext.get('new', ()))
            d[key] = fromA(st.pc.norm(cur + aff(v)))
            st.ext['new'] = tuple(sorted(d.items()))
            st.env[i.res] = UNDEF
            return
        c = dict(st.ext.get('cadd', ()))
        x = aff(self.num(eng, st, v, 8 * n)) if n != 4 else aff(eng.norm_s(st, v, 32))
        c[key] = st.pc.norm(c.get(key, Aff(0)) + x)
        st.ext['cadd'] = tuple(sorted(c.items()))
        st.ext['critw'] = tuple(sorted(set(st.ext.get('critw', ())) | {key}))
        st.env[i.res] = UNDEF


class SubEngine(OmpEngine):
    """one thread inside the region: accesses to shared objects are watched"""
    def acc(self, st, r, o, n, wr):
        if not isinstance(o, int):
            raise Unsupported('variable access to a shared object')
        k = 'writes' if wr else 'reads'
        st.ext[k] = st.ext.get(k, frozenset()) | {(r.name, o + j) for j in range(n)}

    def load(self, st, p, ty, al=None):
        C = self.contract
        if isinstance(p, Ptr) and C.sharedreg(p.reg):
            o = st.pc.norm(aff(p.off))
            if p.idx or not o.isc():
                raise Unsupported('variable access to a shared object')
            n = self.mod.size(ty)
            if st.ext.get('crit'):
                key = (p.reg.name, o.c)
                new = dict(st.ext.get('new', ()))
                if key in new:
                    return new[key]
                if ty[0] != 'i':
                    raise Unsupported('shared pointer in a critical section')
                e = st.mem.get(p.reg.name, {}).get(o.c)
                if key not in C.redtargets and (e is None or (e[1] is not UNDEF and key not in C.maybered)):
                    return super().load(st, p, ty, al)
                return C.critsym(self, st, key, n)
            self.acc(st, p.reg, o.c, n, False)
            v = super().load(st, p, ty, al)
            if v is UNDEF:
                self.ob(st, 'race', 'shared %s is set before it is read' % p.reg.name, False)
                raise PathEnd()
            return v
        return super().load(st, p, ty, al)

    def store(self, st, p, ty, v, al=None):
        C = self.contract
        if isinstance(p, Ptr) and C.sharedreg(p.reg):
            o = st.pc.norm(aff(p.off))
            if p.idx or not o.isc():
                raise Unsupported('variable access to a shared object')
            if st.ext.get('crit'):
                new = dict(st.ext.get('new', ()))
                new[p.reg.name, o.c] = v
                st.ext['new'] = tuple(sorted(new.items()))
                return
        return super().store(st, p, ty, v, al)

    def cellstore(self, st, r, o, n, v):
        if self.contract.sharedreg(r):
            if st.ext.get('crit'):
                raise Unsupported('shared object in a critical section')
            self.acc(st, r, o, n, True)
            if not st.ext.get('inwin'):
                self.ob(st, 'race', 'shared %s+%d is written by one thread only' % (r.name, o), False)
        return super().cellstore(st, r, o, n, v)

    def memcpy(self, st, d, s, n, ty_hint=None):
        if isinstance(n, int):
            for p, wr in ((d, True), (s, False)):
                if isinstance(p, Ptr) and self.contract.sharedreg(p.reg) and isinstance(p.off, int):
                    self.acc(st, p.reg, p.off, n, wr)
        return super().memcpy(st, d, s, n, ty_hint)


class RedFn(Base):
    """a reduction function adds the second list to the first, element by element"""
    def __init__(self, mod, lay, eofs, widths):
        super().__init__(mod, lay, eofs)
        self.widths = widths

    def starts(self, eng):
        w = self.mod.ptrbits // 8
        ps = [n for _, n in eng.fn.params]
        st = self.newstate(eng)
        for side in (0, 1):
            l = eng.regions['list%d' % side] = Region('list%d' % side, 'cell', w * len(self.widths), w)
            st.mem[l.name] = {}
            for k, cw in enumerate(self.widths):
                r = eng.regions['v%d.%d' % (side, k)] = Region('v%d.%d' % (side, k), 'cell', cw, cw)
                st.mem[l.name][k * w] = (w, Ptr(r))
                s = 'v%d.%d' % (side, k)
                st.pc = st.pc.decl(s).ge(Aff.sym(s) + (1 << 29 if cw == 4 else 0)).ge(Aff((1 << 29) if cw == 4 else 1 << 61) - Aff.sym(s))
                st.mem[r.name] = {0: (cw, Aff.sym(s))}
            st.env[ps[side]] = Ptr(l)
        return [st]

    def exit(self, eng, st, ret):
        for k, cw in enumerate(self.widths):
            for side in (0, 1):
                v = st.mem['v%d.%d' % (side, k)].get(0, (0, UNDEF))[1]
                want = Aff.sym('v%d.%d' % (side, k)) + (Aff.sym('v1.%d' % k) if side == 0 else 0)
                ok = isinstance(v, (int, Aff)) and eng.lia.prove_eq(st.pc, aff(v) - want)
                eng.ob(st, 'call', 'combining two threads adds reduction variable %d' % k if side == 0 else 'combining leaves the second thread alone (%d)' % k, ok, lambda: '%r' % (v,))


class Omp(ThreadCode):
    """the caller's side"""
    engine = OmpEngine
    intrinsics = None

    def newstate(self, eng):
        first = not hasattr(self, 'rootpc')
        st = super().newstate(eng)
        if first:
            T = Aff.sym('T')
            self.rootpc = self.rootpc.decl('T').decl('tid').ge(T - 1).ge(TMAX - T)
            st.pc = self.rootpc
        return st

    def call(self, eng, st, i, name, args):
        if name == '__kmpc_fork_call':
            return self.region(eng, st, [v for _, v in args])
        if name in ('__kmpc_push_num_threads', '__kmpc_push_proc_bind'):
            return None
        if name == '__kmpc_global_thread_num':
            return t.var(32, ('gtid',))
        if name in ('omp_get_max_threads', 'omp_get_num_procs'):
            s = 'rt:' + name
            if s not in st.pc.syms():
                st.pc = st.pc.decl(s).ge(Aff.sym(s) - 1).ge(TMAX - Aff.sym(s))
            return Aff.sym(s)
        if name in ('omp_get_num_threads', 'omp_in_parallel', 'omp_get_thread_num', 'omp_set_num_threads'):
            raise Unsupported('%s outside of a parallel region' % name)
        return super().call(eng, st, i, name, args)

    # ---------------------------------------------------------------- the region
    def region(self, eng, st, a):
        alt = st.ext.get('omp')
        if alt is not None:
            if alt != 'now':
                raise Unsupported('two parallel regions')
            st.ext['omp'] = 'done'
            return None
        fn = a[2]
        if not isinstance(fn, Fn) or fn.name not in self.mod.funcs:
            raise Unsupported('outlined function %r' % (fn,))
        sub = SubEngine(self.mod, self.mod.funcs[fn.name], self.thread(self), decider=eng.dec, intrinsics=eng.intr, deadline=eng.deadline)
        C = sub.contract
        sub.lia = eng.lia
        sub.obs = eng.obs
        sub.regions = eng.regions
        C.eng = sub
        ptrs = a[3:]
        C.shared = {r.name for r in eng.regions.values() if r.kind == 'cell' and not r.name.endswith('@1') and r.name not in ('gtid', 'btid')}
        C.redmap = {}
        C.redfns = {}
        # variables that a critical section or reduction may update: written under no single
        C.redtargets = set()
        C.maybered = {(p.reg.name, p.off) for p in ptrs if isinstance(p, Ptr) and p.reg.kind == 'cell'}
        s = st.copy()
        s.frames = (1,)
        for nm in ('gtid', 'btid'):
            r = sub.regions[nm] = Region(nm, 'cell', 4, 4)
            s.mem[nm] = {0: (4, t.var(32, (nm,)))}
        ps = [n for _, n in sub.fn.params]
        if len(ps) != 2 + len(ptrs):
            raise Unsupported('outlined function signature')
        keep = {k: v for k, v in st.env.items() if k.startswith('$')}
        s.env = dict(keep)
        s.env[ps[0]] = Ptr(sub.regions['gtid'])
        s.env[ps[1]] = Ptr(sub.regions['btid'])
        for n, v in zip(ps[2:], ptrs):
            s.env[n] = v
        tid, T = Aff.sym('tid'), Aff.sym('T')
        s.pc = s.pc.ge(tid).ge(T - 1 - tid)
        s.block = sub.fn.entry
        s.prev = None
        s.idx = 0
        s.ext['tstart'] = s.pc
        joined = self.phases(eng, sub, C, s)
        for f, ws in C.redfns.items():
            self.redcheck(eng, f, ws)
        alts = []
        for G in joined:
            alts += self.summary(eng, sub, C, st, G)
        if not alts:
            raise Unsupported('the parallel region does not end')
        raise Fork([[('do', lambda q, m=m: self.install(q, m))] for m in alts])

    def install(self, q, m):
        pc, mem, ext, envs = m
        q.pc = pc
        q.mem = {k: dict(v) for k, v in mem.items()}
        q.ext.update(ext)
        q.env.update(envs)
        q.ext['omp'] = 'now'

    def redcheck(self, eng, f, ws):
        if f not in self.mod.funcs:
            raise Unsupported('reduction function %s' % f)
        R = RedFn(self.mod, self.lay, (self.AEOF, self.EOF), ws)
        e = OmpEngine(self.mod, self.mod.funcs[f], R, decider=eng.dec, intrinsics=eng.intr, deadline=eng.deadline)
        e.obs = eng.obs
        e.verify(R.starts(e))

    def phases(self, eng, sub, C, start):
        """run the team from barrier to barrier; -> list of (shared pc, shared memory, finished thread states)"""
        done = []
        work = [(start.pc, {k: v for k, v in start.mem.items() if k in C.shared}, [start], None)]
        guard = 0
        while work:
            guard += 1
            if guard > 60:
                raise Unsupported('too many phases')
            gpc, gmem, threads, _ = work.pop()
            C.arrive, C.ended = [], []
            sub.explore([x.copy() for x in threads], ())
            arr, end = C.arrive, C.ended
            allp = arr + end
            if not allp:
                continue
            # races inside this phase
            wr = set().union(*[x.ext.get('writes', frozenset()) for x in allp])
            cw = {(r, o + j) for x in allp for r, o in x.ext.get('critw', ()) for j in range(8)}
            for x in allp:
                if not x.ext.get('win'):
                    bad = x.ext.get('reads', frozenset()) & wr
                    sub.ob(x, 'race', 'no thread reads what another writes in the same phase', not bad, lambda: '%r' % sorted(bad)[:4])
                rd = x.ext.get('reads', frozenset())
                targets = {(r, o) for y in allp for r, o in y.ext.get('critw', ())}
                sub.ob(x, 'race', 'shared sums are only touched under the lock while threads add to them', not (targets & (rd | wr)), lambda: '%r' % sorted(targets & (rd | wr))[:4])
            meet = {(x.block, x.idx) for x in arr}
            sub.ob(allp[0], 'termination', 'all threads meet at the same barrier', len(meet) + bool(end) <= 1, lambda: '%r' % meet)
            if len(meet) + bool(end) > 1:
                raise Unsupported('threads part')
            if end:
                done.append((gpc, gmem, end))
                continue
            winners = [x for x in arr if x.ext.get('win')]
            for W in winners or [None]:
                if W is not None:
                    extra = self.since(W.pc, gpc)
                    if any('tid' in factors(s) for n in extra if n.kind in ('ge', 'eq') for s in n.data.m):
                        raise Unsupported('the single block depends on the thread')
                    pc2 = W.pc
                    mem2 = {k: v for k, v in W.mem.items() if k in C.shared}
                else:
                    pc2, mem2 = gpc, gmem
                nxt = []
                for P in arr:
                    if W is None:
                        p2 = P.pc
                    elif P is W:
                        p2 = pc2
                    elif P.ext.get('win'):
                        continue
                    else:
                        p2 = pc2
                        for n in self.since(P.pc, gpc):
                            p2 = p2.eq(n.data) if n.kind == 'eq' else p2.ge(n.data) if n.kind == 'ge' else p2.mark(*n.data) if n.kind == 'memo' else p2.decl(n.data)
                    q = P.copy()
                    q.pc = p2
                    for k, v in mem2.items():
                        q.mem[k] = dict(v)
                    q.idx += 1
                    for k in ('reads', 'writes', 'win', 'inwin'):
                        q.ext.pop(k, None)
                    if W is not None:
                        for k in ('init', 'codec'):
                            if k in W.ext:
                                q.ext[k] = W.ext[k]
                    q.ext['tstart'] = pc2
                    nxt.append(q)
                work.append((pc2, mem2, nxt, None))
        return done

    @staticmethod
    def since(pc, base):
        out = []
        n = pc
        while n is not None and n is not base:
            out.append(n)
            n = n.parent
        if n is None:
            raise Unsupported('path conditions of the threads')
        out.reverse()
        return out

    def contributions(self, sub, C, x):
        """shared cell -> what this thread adds to it"""
        d = {}
        for k, v in x.ext.get('cadd', ()):
            d[k] = aff(v)
        for j, (v, cw) in enumerate(x.ext.get('red') or ()):
            k = C.redmap.get(j)
            if k is None:
                raise Unsupported('reduction target')
            d[k] = d.get(k, Aff(0)) + aff(v)
        return d

    def tidfree(self, a):
        return not any('tid' in factors(s) for s in aff(a).m)

    def parts(self, eng, sub, C, ends):
        """the source range of each thread as a function of tid: starts at 0, follows its predecessor; -> end of the last"""
        forms = {}
        for x in ends:
            ps = x.ext.get('parts', ())
            sub.ob(x, 'call', 'a thread codes exactly one part', len(ps) == 1, lambda: '%d parts' % len(ps))
            if len(ps) != 1:
                raise Unsupported('parts per thread')
            off, n = ps[0]
            forms.setdefault((x.pc.norm(aff(off)).key(), x.pc.norm(aff(n)).key()), x)
        x = next(iter(forms.values()))
        if len(forms) != 1:         # the same part, written differently where a path knows more (the last thread, say)
            for x in forms.values():
                ref = x.ext['parts'][0]
                if all(sub.lia.prove_eq(y.pc, aff(a) - aff(b)) for y in forms.values() for a, b in zip(y.ext['parts'][0], ref)):
                    break
            else:
                raise Unsupported('the parts differ between paths')
        off, n = (x.pc.norm(aff(v)) for v in x.ext['parts'][0])
        if not self.tidfree(n):
            raise Unsupported('part length depends on the thread')
        T, tid = Aff.sym('T'), Aff.sym('tid')
        f0 = x.pc.norm(psubst(off, 'tid', Aff(0)))
        f1 = x.pc.norm(psubst(off, 'tid', tid + 1))
        fT = x.pc.norm(psubst(off, 'tid', T))
        sub.ob(x, 'race', 'the part of a thread begins where that of its predecessor ends', lambda: sub.lia.prove_eq(x.pc, f1 - off - n), lambda: 'start %r, length %r' % (off, n))
        sub.ob(x, 'content', 'the first part begins at the start of the source', lambda: sub.lia.prove_eq(x.pc, f0), lambda: 'start %r' % (off,))
        return fT, n

    def total(self, G, cells):
        """pc and memory after the join with the given totals added to the shared cells"""


class EncThread(ThreadCode, EncodeOneShot):
    def __init__(self, up):
        EncodeOneShot.__init__(self, up.mod, up.lay, (up.AEOF, up.EOF))
        self.src, self.out, self.outlen, self.flags = up.src, up.out, up.outlen, up.flags
        self.up = up

    def call(self, eng, st, i, name, args):
        r = self.tcall(eng, st, i, name, args)
        return EncodeOneShot.call(self, eng, st, i, name, args) if r is NotImplemented else r

    def fresh_state(self, eng, st, sp, olp):
        eng.ob(st, 'call', 'the stream is initialised', bool(st.ext.get('init')))
        for what, p in (('stream state', sp), ('length', olp)):
            eng.ob(st, 'race', 'the %s of a part belongs to the thread' % what, not self.sharedreg(p.reg), lambda p=p: p.reg.name)
        b = self.getcell(st, sp, 'bytes')
        bb = self.small(eng, st, b, 32) if b is not UNDEF and not isinstance(b, t.T) else None
        eng.ob(st, 'call', 'a part starts from a fresh stream', bb == 0, lambda: 'bytes %r' % (b,))

    def do_enc(self, eng, st, name, sp, src, n, out, olp):
        if not self.statecell(sp) or not self.statecell(olp):
            raise Unsupported('call arguments')
        if st.ext.get('crit') or st.ext.get('inwin'):
            raise Unsupported('coding inside a critical section')
        self.fresh_state(eng, st, sp, olp)
        n = st.pc.norm(aff(self.num(eng, st, n, self.mod.ptrbits)))
        ok = isinstance(src, Ptr) and src.reg is self.src and not src.idx and isinstance(out, Ptr) and out.reg is self.out and not out.idx
        eng.ob(st, 'call', 'a part reads from the source and writes to the output', ok)
        if not ok:
            raise PathEnd()
        so, oo = st.pc.norm(aff(src.off)), st.pc.norm(aff(out.off))
        N = Aff.sym('N')
        eng.ob(st, 'read-bounds', 'the part stays inside the source', lambda: eng.ge(st, so) and eng.ge(st, N - so - n))
        ol = self.mod.ptrbits // 8
        if st.ext['stub']:
            e = Aff(0)
        else:
            eng.ob(st, 'call', 'a part starts and ends at a group boundary', self.divides(eng, st, so, 3) and self.divides(eng, st, n, 3), lambda: 'start %r, length %r' % (so, n))
            eng.ob(st, 'call', 'a part is written at its place', lambda: eng.lia.prove_eq(st.pc, 4 * so - 3 * oo), lambda: 'source %r, output %r' % (so, oo))
            eng.ob(st, 'write-bounds', 'the part stays inside the output', lambda: eng.ge(st, oo) and eng.ge(st, 4 * N - 3 * oo - 4 * n))
            q, _ = eng.residue(st, n, 3)
            e = 4 * aff(q)
        st.ext['parts'] = st.ext.get('parts', ()) + ((fromA(so), fromA(n)),)
        if not eng.cellrange(st, olp.reg, olp.off, ol, True):
            raise PathEnd()
        eng.cellstore(st, olp.reg, olp.off, ol, fromA(st.pc.norm(e)))
        if not st.ext['stub']:
            self.setcell(eng, st, sp, 'bytes', 0)
            self.setcell(eng, st, sp, 'carry', t.var(8, ('carry', 'part')), 1)

    def do_final(self, eng, st, *a):
        raise Unsupported('trailer inside the region')

    def exit(self, eng, st, ret):
        self.ended.append(st)


class OmpEncode(Omp, EncodeOneShot):
    thread = EncThread

    def call(self, eng, st, i, name, args):
        return Omp.call(self, eng, st, i, name, args)

    def summary(self, eng, sub, C, st, G):
        gpc, gmem, ends = G
        fT, n = self.parts(eng, sub, C, ends)
        adds = {}
        for x in ends:
            for k, v in self.contributions(sub, C, x).items():
                adds.setdefault(k, set()).add(x.pc.norm(v).key())
        mem = {k: dict(v) for k, v in gmem.items()}
        T = Aff.sym('T')
        for (r, o), vs in adds.items():
            if len(vs) != 1:
                raise Unsupported('contributions differ')
            (v,) = vs
            v = Aff(v[0], dict(v[1]))
            if not self.tidfree(v):
                raise Unsupported('contribution depends on the thread')
            w, old = mem[r][o]
            if not isinstance(old, (int, Aff)):
                raise Unsupported('sum without a start value')
            mem[r][o] = (w, fromA(gpc.norm(aff(old) + pmul(T, v))))
        envs = {'$pos': fromA(fT), '$w': fromA(4 * self.third(gpc, fT))}
        ext = {k: ends[0].ext[k] for k in ('init', 'codec') if k in ends[0].ext}
        full = {k: v for k, v in st.mem.items()}
        full.update(mem)
        return [(gpc, full, ext, envs)]

    def third(self, pc, a):
        a = pc.norm(aff(a))
        if a.c % 3 or any(k % 3 for k in a.m.values()):
            raise Unsupported('parts that are not whole groups')
        return Aff(a.c // 3, {s: k // 3 for s, k in a.m.items()})

    def do_enc(self, eng, st, name, sp, src, n, out, olp):
        if not st.ext['stub'] and st.ext.get('omp') == 'done' and self.statecell(sp):
            # the tail continues a stream that has consumed whole groups
            b = self.getcell(st, sp, 'bytes')
            eng.ob(st, 'call', 'the remainder starts from a fresh stream', b == 0 or (isinstance(b, Aff) and eng.lia.prove_eq(st.pc, b)), lambda: 'bytes %r' % (b,))
        return super().do_enc(eng, st, name, sp, src, n, out, olp)


class DecThread(ThreadCode, DecodeOneShot):
    def __init__(self, up):
        DecodeOneShot.__init__(self, up.mod, up.lay, (up.AEOF, up.EOF))
        self.src, self.out, self.outlen, self.flags = up.src, up.out, up.outlen, up.flags
        self.up = up

    call = EncThread.call
    exit = EncThread.exit
    fresh_state = EncThread.fresh_state

    def call(self, eng, st, i, name, args):
        r = self.tcall(eng, st, i, name, args)
        return DecodeOneShot.call(self, eng, st, i, name, args) if r is NotImplemented else r

    def do_dec(self, eng, st, name, sp, src, n, out, olp):
        if not self.statecell(sp) or not self.statecell(olp):
            raise Unsupported('call arguments')
        if st.ext.get('crit') or st.ext.get('inwin'):
            raise Unsupported('coding inside a critical section')
        if 'poc' not in st.ext:
            self.fresh_state(eng, st, sp, olp)
            e = self.getcell(st, sp, 'eof')
            ee = self.small(eng, st, e, 32) if e is not UNDEF and not isinstance(e, t.T) else None
            eng.ob(st, 'call', 'a part starts from a stream without padding', ee == 0, lambda: 'eof %r' % (e,))
            n = st.pc.norm(aff(self.num(eng, st, n, self.mod.ptrbits)))
            ok = isinstance(src, Ptr) and src.reg is self.src and not src.idx and isinstance(out, Ptr) and out.reg is self.out and not out.idx
            eng.ob(st, 'call', 'a part reads from the source and writes to the output', ok)
            if not ok:
                raise PathEnd()
            so, oo = st.pc.norm(aff(src.off)), st.pc.norm(aff(out.off))
            N = Aff.sym('N')
            eng.ob(st, 'read-bounds', 'the part stays inside the source', lambda: eng.ge(st, so) and eng.ge(st, N - so - n))
            eng.ob(st, 'call', 'a part starts and ends at a group boundary', self.divides(eng, st, so, 4) and self.divides(eng, st, n, 4), lambda: 'start %r, length %r' % (so, n))
            eng.ob(st, 'call', 'a part is written at its place', lambda: eng.lia.prove_eq(st.pc, 3 * so - 4 * oo), lambda: 'source %r, output %r' % (so, oo))
            eng.ob(st, 'write-bounds', 'the part stays inside the output', lambda: eng.ge(st, oo) and eng.ge(st, 3 * N - 4 * oo - 3 * n))
            q, _ = eng.residue(st, n, 4)
            q = aff(q)
            st.ext['parts'] = st.ext.get('parts', ()) + ((fromA(so), fromA(n)),)
            raise Fork([[('do', lambda s, x=x: self.outcome(eng, s, x, q))] for x in (('S',) if st.ext['stub'] else ('V', 'P', 'B'))])
        x = st.ext.pop('poc')
        st.ext['outcome'] = x
        ol = self.mod.ptrbits // 8
        if not eng.cellrange(st, olp.reg, olp.off, ol, True):
            raise PathEnd()
        eng.cellstore(st, olp.reg, olp.off, ol, st.ext['pol'])
        if x == 'S':
            return M(32)
        self.setcell(eng, st, sp, 'eof', 0 if x == 'V' else self.EOF)
        self.setcell(eng, st, sp, 'bytes', t.var(32, ('res', 'bytes')) if x == 'B' else 0)
        self.setcell(eng, st, sp, 'carry', t.var(8, ('res', 'carry')), 1)
        return 0 if x == 'B' else 1

    def outcome(self, eng, s, x, q):
        s.ext['poc'] = x
        if x == 'S':
            s.ext['pol'] = 0
        elif x == 'V':
            s.ext['pol'] = fromA(3 * q)
        else:
            o = 'ol:' + x
            O = Aff.sym(o)
            s.pc = s.pc.decl(o).ge(O).ge(q - 1)
            if x == 'P':
                s.pc = s.pc.ge(3 * q - 1 - O).ge(O - 3 * q + 2)
            else:
                s.pc = s.pc.ge(3 * q - O)
            s.ext['pol'] = O


class OmpDecode(Omp, DecodeOneShot):
    thread = DecThread

    def starts(self, eng):
        out = []
        for s in super().starts(eng):
            for stub in (0, 1):
                q = s.copy()
                q.ext['stub'] = stub
                out.append(q)
        return out

    def call(self, eng, st, i, name, args):
        return Omp.call(self, eng, st, i, name, args)

    def summary(self, eng, sub, C, st, G):
        gpc, gmem, ends = G
        fT, n = self.parts(eng, sub, C, ends)
        T, tid, N = Aff.sym('T'), Aff.sym('tid'), Aff.sym('N')
        by = {}
        keys = set()
        for x in ends:
            c = {k: x.pc.norm(v) for k, v in self.contributions(sub, C, x).items()}
            keys |= set(c)
            by.setdefault(x.ext.get('outcome'), []).append((x, c))
        keys = sorted(keys)
        ext = {k: ends[0].ext[k] for k in ('init', 'codec') if k in ends[0].ext}

        def one(cs):
            """the one contribution that all these paths make"""
            s = {tuple(c.get(k, Aff(0)).key() for k in keys) for c in cs}
            if len(s) != 1:
                raise Unsupported('contributions differ between paths')
            return {k: Aff(v[0], dict(v[1])) for k, v in zip(keys, next(iter(s)))}

        def after(pc, tot, tag):
            mem = {k: dict(v) for k, v in st.mem.items()}
            mem.update({k: dict(v) for k, v in gmem.items()})
            for (r, o), v in tot.items():
                w, old = mem[r][o]
                if not isinstance(old, (int, Aff)):
                    raise Unsupported('sum without a start value')
                old = aff(sgn(old, 8 * w) if isinstance(old, int) and w == 4 else old)
                x = pc.norm(old + v)
                mem[r][o] = (w, (x.c & M(8 * w)) if x.isc() else x)
            return (pc, mem, dict(ext, alt=tag, tot=fromA(fT), partB=fromA(n)), {})
        if st.ext['stub']:
            v = one([c for _, c in by.get('S', [])])
            return [after(gpc, {k: pmul(T, x) for k, x in v.items()}, 'S')]
        out = []
        V = one([c for _, c in by.get('V', [])])
        if not all(self.tidfree(x) for x in V.values()):
            raise Unsupported('contribution depends on the thread')
        out.append(after(gpc, {k: pmul(T, x) for k, x in V.items()}, 'A'))
        # the last part ends with the padding and nothing follows
        good = []
        for x, c in by.get('P', []):
            p = x.pc.eq(tid - T + 1).eq(N - fT)
            if sub.lia.feasible(p):
                good.append((p, {k: p.norm(v) for k, v in c.items()}))
        if good:
            p0 = gpc.eq(N - fT)
            q = self.quarter(p0, n)
            O = Aff.sym('ol:P')
            p0 = p0.decl('ol:P').ge(O).ge(q - 1).ge(3 * q - 1 - O).ge(O - 3 * q + 2)
            if sub.lia.feasible(p0):
                Pc = one([c for _, c in good])
                if not all(self.tidfree(x) for x in Pc.values()):
                    raise Unsupported('contribution depends on the thread')
                out.append(after(p0, {k: pmul(T - 1, V.get(k, Aff(0))) + Pc[k] for k in keys}, 'B'))
        # anything else is malformed
        rng = {}
        for k in keys:
            if gmem.get(k[0], {}).get(k[1], (0,))[0] == 4:
                vs = [c.get(k, Aff(0)) for o in 'VPB' for _, c in by.get(o, [])]
                if not all(v.isc() for v in vs):
                    raise Unsupported('contribution %r' % vs)
                rng[k] = (min(v.c for v in vs), max(v.c for v in vs))
        seen = set()
        for o in 'BP':
            for x, c in by.get(o, []):
                for cond in ([None] if o == 'B' else ['middle', 'tail']):
                    p = x.pc if cond is None else x.pc.ge(T - 2 - tid) if cond == 'middle' else x.pc.ge(N - fT - 1)
                    if not sub.lia.feasible(p):
                        continue
                    sig = (o, cond, tuple(c.get(k, Aff(0)).c for k in keys if k in rng))
                    if sig in seen:
                        continue
                    seen.add(sig)
                    pc = gpc if cond is None else gpc.ge(T - 2) if cond == 'middle' else gpc.ge(N - fT - 1)
                    tot = {}
                    for k in keys:
                        s = fresh('sum')
                        S = Aff.sym(s)
                        pc = pc.decl(s)
                        if k in rng:
                            lo, hi = rng[k]
                            own = c.get(k, Aff(0)).c
                            pc = pc.ge(S - lo * (T - 1) - own).ge(hi * (T - 1) + own - S)
                        else:
                            pc = pc.ge(S).ge(3 * fT - 4 * S)
                        tot[k] = S
                    out.append(after(pc, tot, 'C'))
        return out

    def quarter(self, pc, a):
        a = pc.norm(aff(a))
        if a.c % 4 or any(k % 4 for k in a.m.values()):
            raise Unsupported('parts that are not whole groups')
        return Aff(a.c // 4, {s: k // 4 for s, k in a.m.items()})

    def do_dec(self, eng, st, name, sp, src, n, out, olp):
        alt = st.ext.get('alt')
        if alt is None:
            if 'oc' not in st.ext:
                # the stub case is explored on its own
                st.ext['oc_stub'] = True
            r = super().do_dec(eng, st, name, sp, src, n, out, olp)
            if (r == M(32)) != bool(st.ext['stub']):
                raise PathEnd()
            return r
        if not self.statecell(sp) or not self.statecell(olp):
            raise Unsupported('call arguments')
        N = Aff.sym('N')
        fT = st.pc.norm(aff(st.ext['tot']))
        ok = isinstance(src, Ptr) and src.reg is self.src and not src.idx and isinstance(out, Ptr) and out.reg is self.out and not out.idx
        if alt == 'S':
            # an absent codec touches nothing, whatever it is given
            st.ext.setdefault('oc', (-1, None, None))
            st.ext.setdefault('seq', 'stub')
            st.ext['res'] = True
            ol = self.mod.ptrbits // 8
            if not eng.cellrange(st, olp.reg, olp.off, ol, True):
                raise PathEnd()
            eng.cellstore(st, olp.reg, olp.off, ol, 0)
            return M(32)
        if 'oc' not in st.ext:
            eng.ob(st, 'call', 'the remainder is read from the source and written to the output', ok)
        if not ok:
            raise PathEnd()
        so, oo = st.pc.norm(aff(src.off)), st.pc.norm(aff(out.off))
        n = st.pc.norm(aff(self.num(eng, st, n, self.mod.ptrbits)))
        if 'oc' not in st.ext:
            b, e = self.getcell(st, sp, 'bytes'), self.getcell(st, sp, 'eof')
            fr = all(x is not UNDEF and not isinstance(x, t.T) and self.small(eng, st, x, 32) == 0 for x in (b, e))
            eng.ob(st, 'call', 'the sequential call starts from a fresh stream', fr, lambda: 'bytes %r eof %r' % (b, e))
            eng.ob(st, 'read-bounds', 'the length passed on stays inside the source', lambda: eng.ge(st, so) and eng.ge(st, N - so - n))
            eng.ob(st, 'call', 'output position and source position belong together', lambda: eng.lia.prove_eq(st.pc, 3 * so - 4 * oo), lambda: 'source %r, output %r' % (so, oo))
            eng.ob(st, 'write-bounds', 'the remainder stays inside the output', lambda: eng.ge(st, oo) and eng.ge(st, 3 * N - 4 * oo - 3 * n))
            eng.ob(st, 'call', 'one sequential call at most', not st.ext.get('res'))
            full = eng.lia.prove_eq(st.pc, so) and eng.lia.prove_eq(st.pc, n - N)
            tail = eng.lia.prove_eq(st.pc, so - fT) and eng.lia.prove_eq(st.pc, so + n - N)
            eng.ob(st, 'call', 'the sequential call gets the remainder or the whole text', full or tail, lambda: 'from %r, %r bytes; the parts end at %r' % (so, n, fT))
            if not (full or tail):
                raise PathEnd()
            if full and tail and alt == 'C':
                tail = False
            kind = 'tail' if tail else 'full'
            if kind == 'full':
                if alt != 'C':
                    raise Unsupported('sequential decoding of a valid text')
                oc = [(0, 'EOF', None)]
            elif alt == 'A':
                oc = [(1, 0, 0), (1, 0, 1), (1, 0, 2), (1, 0, 3), (1, 'AEOF', 3), (1, 'EOF', 0), (0, 'EOF', None)]
            elif alt == 'B':
                oc = [(1, 0, 0)]
            else:
                oc = [(1, 0, 0), (1, 0, 1), (1, 'AEOF', 3), (1, 'EOF', 0), (0, 'EOF', None)]
            raise Fork([[('do', lambda s, x=x: s.ext.update(oc=x, seq=kind))] for x in oc])
        r, e, b = st.ext['oc']
        if st.ext['seq'] == 'tail' and (r, e, b) != (1, 0, 0):
            st.pc = st.pc.ge(n - 1)
            if not eng.lia.feasible(st.pc):
                raise PathEnd()
        st.ext['res'] = True
        ol = self.mod.ptrbits // 8
        if not eng.cellrange(st, olp.reg, olp.off, ol, True):
            raise PathEnd()
        st.pc = st.pc.decl('OL').ge(Aff.sym('OL')).ge(3 * n - 4 * Aff.sym('OL'))
        if st.ext['seq'] == 'tail' and alt == 'B':
            st.pc = st.pc.eq(Aff.sym('OL'))
        eng.cellstore(st, olp.reg, olp.off, ol, Aff.sym('OL'))
        self.setcell(eng, st, sp, 'eof', {0: 0, 'AEOF': self.AEOF, 'EOF': self.EOF}[e])
        self.setcell(eng, st, sp, 'bytes', t.var(32, ('res', 'bytes')) if b is None else b)
        self.setcell(eng, st, sp, 'carry', t.var(8, ('res', 'carry')), 1)
        return r & M(32)

    def exit(self, eng, st, ret):
        alt = st.ext.get('alt')
        if alt is None:
            return super().exit(eng, st, ret)
        v = self.getoutlen(st)
        ol = aff(self.num(eng, st, v, self.mod.ptrbits)) if v is not UNDEF else None
        got = self.small(eng, st, ret, 32)
        if got is not None:
            got = sgn(got, 32)
        fT = st.pc.norm(aff(st.ext['tot']))
        if alt == 'S':
            eng.ob(st, 'stub', 'an absent codec: the return value is -1', got == -1, lambda: 'returned %r' % (got,))
            eng.ob(st, 'stub', 'an absent codec: the output length is 0', ol is not None and eng.lia.prove_eq(st.pc, ol), lambda: 'outlen %r' % (ol,))
            return
        seq = st.ext.get('seq')
        if alt == 'C':
            eng.ob(st, 'rej-ret', 'malformed text is rejected', got == 0, lambda: 'returned %r' % (got,))
            eng.ob(st, 'rej-outlen', 'malformed text is decoded sequentially up to the error', seq == 'full')
            if seq == 'full':
                eng.ob(st, 'rej-outlen', 'the output length of malformed text is that of the sequential decoder', ol is not None and eng.lia.prove_eq(st.pc, ol - Aff.sym('OL')), lambda: 'outlen %r' % (ol,))
            return
        eng.ob(st, 'content', 'the text after the parts is decoded too', seq == 'tail' or (seq is None and eng.lia.prove_eq(st.pc, Aff.sym('N') - fT)))
        body = 3 * self.quarter(st.pc, fT)
        if seq == 'tail':
            r, e, b = st.ext['oc']
            want = 1 if r == 1 and b == 0 else 0
            tail = Aff.sym('OL')
        else:
            want, tail = 1, Aff(0)
        eng.ob(st, 'ret' if want else 'rej-ret', 'return value of the whole text', got == want, lambda: 'returned %r, expected %d' % (got, want))
        if alt == 'B':
            # (T-1) whole parts, then the last one with its padding
            T = Aff.sym('T')
            part = st.ext['partB']
            body = pmul(T - 1, 3 * self.quarter(st.pc, part)) + Aff.sym('ol:P')
        eng.ob(st, 'outlen' if want else 'rej-outlen', 'the output length counts all parts', ol is not None and eng.lia.prove_eq(st.pc, ol - body - tail), lambda: 'outlen %r, expected %r' % (ol, body + tail))


CONTRACTS = {'omp_encode1': OmpEncode, 'omp_decode1': OmpDecode}
