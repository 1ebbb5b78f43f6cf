"""Deductive verifier for LLVM IR functions: path-wise strongest postconditions between cutpoints,
inductive loop invariants (inferred, then checked), obligations discharged by linear integer
arithmetic (z3) and by complete decision of bit-vector terms over input bytes."""
import time
from . import terms as t
from .lia import Aff, aff, PC, LIA, lca, fresh, hnf, lattice_solve


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """the path is infeasible or ends here"""


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Ptr:
    __slots__ = ('reg', 'off', 'idx')

    def __init__(self, reg, off=0, idx=()):
        self.reg = reg
        self.off = off          # int or Aff
        self.idx = idx          # tuple of (T, width-signedness resolved term, scale)

    def __repr__(self):
        return '&%s+%r%s' % (self.reg.name, self.off, ''.join('+%d*%r' % (s, x) for x, s in self.idx))

    def key(self):
        return (self.reg.name, self.off if isinstance(self.off, int) else self.off.key(), self.idx)


class Fn:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '&' + self.name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Vec:
    __slots__ = ('ew', 'e')

    def __init__(self, ew, e):
        self.ew = ew
        self.e = tuple(e)

    def __repr__(self):
        return 'V%d%r' % (self.ew, self.e)

    def __eq__(self, o):
        return isinstance(o, Vec) and self.ew == o.ew and self.e == o.e

    def __hash__(self):
        return hash((self.ew, self.e))


class UMax:
    """Horizontal unsigned maximum (or minimum): only compared with constants."""
    def __init__(self, w, e, least=False):
        self.w = w
        self.e = e
        self.least = least


class Region:
    def __init__(self, name, kind, size=None, align=1, lo=0, data=None, ro=False, goals=None):
        self.goals = goals
        self.name = name
        self.kind = kind        # 'src' 'out' 'cell' 'tab' 'null'
        self.size = size        # upper bound (exclusive) of valid offsets: int or Aff or callable
        self.lo = lo
        self.align = align
        self.data = data
        self.ro = ro

    def __repr__(self):
        return self.name


class State:
    __slots__ = ('env', 'mem', 'stores', 'pc', 'allowed', 'bfacts', 'block', 'prev', 'idx', 'trace', 'ext', 'frames')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.stores = []
        self.pc = PC()
        self.allowed = {}
        self.bfacts = ()
        self.block = None
        self.prev = None
        self.idx = 0
        self.trace = ()
        self.ext = {}
        self.frames = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.stores = list(self.stores)
        s.pc = self.pc
        s.allowed = dict(self.allowed)
        s.bfacts = self.bfacts
        s.block = self.block
        s.prev = self.prev
        s.idx = self.idx
        s.trace = self.trace
        s.ext = dict(self.ext)
        s.frames = self.frames
        return s


def M(w):
    return (1 << w) - 1


def toT(v, w):
    if isinstance(v, int):
        return t.const(w, v)
    if isinstance(v, t.T):
        return v
    raise Unsupported('bit-vector view of %r' % (v,))


def fromT(x):
    return x.a if x.op == 'c' else x


def sgn(v, w):
    v &= M(w)
    return v - (1 << w) if v >> (w - 1) else v


class Obligation:
    __slots__ = ('kind', 'what', 'where', 'ok', 'detail', 'backend')

    def __init__(self, kind, what, where, ok, detail, backend):
        self.kind = kind; self.what = what; self.where = where; self.ok = ok; self.detail = detail; self.backend = backend

    def __repr__(self):
        return '%s [%s] %s @ %s %s' % ('ok' if self.ok else 'FAIL', self.kind, self.what, self.where, self.detail or '')


class Engine:
    def __init__(self, mod, fn, contract, decider=None, intrinsics=None, maxpaths=20000, deadline=None):
        self.mod = mod
        self.fn = fn
        self.contract = contract
        contract.verifier = self
        self.maxsteps = 1 << 60
        self.lia = LIA()
        self.dec = decider or t.Decider()
        self.obs = []
        self.quiet = False
        self.intr = intrinsics or {}
        self.paths = 0
        self.maxpaths = maxpaths
        self.steps = 0
        self.exits = 0
        self.iters = 0
        self.deadline = deadline
        self.warm = {}
        self.regions = {}
        self.typ = {}
        self.asmchecks = []
        self.ptrw = mod.ptrbits
        self.cuts_used = []
        self.ntries = 0
        self.loopinfo = {}
        self.prep()

    # ------------------------------------------------------------ CFG
    def prep(self):
        f = self.fn
        for ty, n in f.params:
            self.typ[n] = ty
        for b in f.blocks.values():
            for i in b.phis + b.ins:
                if i.res and isinstance(i.res, str):
                    self.typ[i.res] = self.restype(i)
        self.typ.update(getattr(f, 'asmtyp', {}))
        self.succ = {b: [s for s in bl.succs()] for b, bl in f.blocks.items()}
        self.live = self.liveness()
        self.rpo = self.compute_rpo()

    def restype(self, i):
        if i.op == 'icmp':
            return ('vec', i.ty[1], ('i', 1)) if i.ty[0] == 'vec' else ('i', 1)
        if i.op in ('gep', 'alloca'):
            return ('ptr',)
        if i.op == 'extractelement':
            return i.ty[2]
        if i.op == 'shufflevector':
            return ('vec', i.x[0][1], i.ty[2])
        if i.op == 'extractvalue':
            ty = i.ty
            for k in i.x:
                ty = self.mod.field(ty, k)[1]
            return ty
        return i.ty

    @staticmethod
    def uses(i):
        out = []

        def val(v):
            if isinstance(v, tuple) and v:
                if v[0] == 'loc':
                    out.append(v[1])
                elif v[0] in ('cvec', 'carr', 'cstruct'):
                    for _, x in v[1]:
                        val(x)
        op = i.op
        if op == 'phi':
            return out
        if op in ('call', 'asm'):
            for _, v in i.a:
                val(v)
            if op == 'call':
                val(i.x)
        elif op == 'gep':
            val(i.a[0])
            for _, v in i.x:
                val(v)
        elif op in ('asmop', 'asmbr'):
            out.extend(i.a)
        else:
            for v in i.a or ():
                val(v)
            if op == 'alloca' and i.x[0]:
                val(i.x[0][1])
        return out

    @staticmethod
    def defs(i):
        if i.res is None:
            return ()
        if isinstance(i.res, str):
            return (i.res,)
        return tuple(i.res)

    def liveness(self):
        f = self.fn
        use = {}
        de = {}
        for b, bl in f.blocks.items():
            u = set(); d = set()
            for p in bl.phis:
                d.add(p.res)
            for i in bl.ins:
                for x in self.uses(i):
                    if x not in d:
                        u.add(x)
                d.update(self.defs(i))
            use[b] = u
            de[b] = d
        phiuse = {}
        for b, bl in f.blocks.items():
            for p in bl.phis:
                for v, pb in p.a:
                    if v[0] == 'loc':
                        phiuse.setdefault(pb, set()).add(v[1])
        live = {b: set(use[b]) for b in f.blocks}
        ch = True
        order = list(f.blocks)[::-1]
        while ch:
            ch = False
            for b in order:
                o = set(phiuse.get(b, ()))
                for s in self.succ[b]:
                    o |= live[s]        # live-in after phis (phi results excluded below)
                    for p in f.blocks[s].phis:
                        o.discard(p.res) if False else None
                n = use[b] | (o - de[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        # phi results that are used are part of the live-in vector
        res = {}
        for b, bl in f.blocks.items():
            inside = set()
            s = set(live[b])
            later = set()
            for i in bl.ins:
                later.update(self.uses(i))
            o = set(phiuse.get(b, ()))
            for q in self.succ[b]:
                o |= live[q]
            for p in bl.phis:
                if p.res in later or p.res in o:
                    s.add(p.res)
                else:
                    s.discard(p.res)
            res[b] = s
        return res

    def compute_rpo(self):
        seen = set()
        post = []
        st = [(self.fn.entry, iter(self.succ[self.fn.entry]))]
        seen.add(self.fn.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        post.reverse()
        return {b: i for i, b in enumerate(post)}

    def sccs(self, nodes):
        """Tarjan; returns SCCs that contain a cycle"""
        idx = {}
        low = {}
        on = set()
        stack = []
        out = []
        ctr = [0]
        for root in sorted(nodes, key=lambda b: self.rpo.get(b, 1 << 30)):
            if root in idx:
                continue
            work = [(root, iter([s for s in self.succ[root] if s in nodes]))]
            idx[root] = low[root] = ctr[0]; ctr[0] += 1
            stack.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = ctr[0]; ctr[0] += 1
                        stack.append(w); on.add(w)
                        work.append((w, iter([s for s in self.succ[w] if s in nodes])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    comp = set()
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.add(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in self.succ[v]:
                        out.append(comp)
        return out

    def plan(self, choice=0):
        """Choose cutpoints: a tree of (block, scc, children)."""
        reach = set(self.rpo)

        def rec(nodes):
            res = []
            for comp in self.sccs(nodes):
                preds = {}
                entries = []
                for b in comp:
                    ps = [p for p in reach if b in self.succ[p] and p not in comp]
                    if ps or b == self.fn.entry:
                        entries.append(b)
                # candidate cut blocks: entries in RPO order, then others
                cand = sorted(entries, key=lambda b: self.rpo[b])
                if len(cand) > 1:
                    # irreducible: prefer the candidate whose removal leaves the fewest cyclic parts
                    score = []
                    for c in cand:
                        rest = self.sccs(comp - {c})
                        bad = 0
                        for r in rest:
                            en = [b for b in r if any(p not in r and b in self.succ[p] for p in reach)]
                            bad += len(en) - 1
                        score.append((bad, self.is_zero_case(c) and -1 or 0, self.rpo[c], c))
                    score.sort()
                    cand = [s[3] for s in score]
                c = cand[min(choice, len(cand) - 1)]
                res.append((c, comp, rec(comp - {c})))
            return res
        self.cuts = {}

        def reg(tree, parent):
            for c, comp, ch in tree:
                self.cuts[c] = (comp, parent)
                reg(ch, c)
        tree = rec(reach)
        reg(tree, None)
        return tree

    def is_zero_case(self, b):
        for p, bl in self.fn.blocks.items():
            i = bl.ins[-1]
            if i.op == 'switch':
                for v, l in i.x[1]:
                    if l == b and v == 0:
                        return True
        return False

    # ------------------------------------------------------------ proving helpers
    def where(self, st):
        b = self.fn.blocks.get(st.block)
        txt = ''
        if b and st.idx < len(b.ins):
            txt = b.ins[st.idx].text[:90]
        return '%s: %s' % (st.block, txt)

    def ob(self, st, kind, what, ok, detail=None, backend='lia'):
        if self.quiet:
            return
        if callable(ok):
            ok = ok()
        if not ok and not (self.lia.feasible(st.pc) and self.bvfeasible(st)):
            raise PathEnd()
        d = None
        if not ok:
            d = detail() if callable(detail) else detail
            m = self.lia.model(st.pc)
            if m is not None:
                d = (d or '') + ' model ' + ' '.join('%s=%d' % kv for kv in sorted(m.items())[:12])
        self.obs.append(Obligation(kind, what, self.where(st), bool(ok), d, backend))

    def bvfeasible(self, st):
        fs = list(st.bfacts) + [c if v else t.not_(c) for c, v in st.ext.get('known', ())]
        if not fs:
            return True
        c = fs[0]
        for f in fs[1:]:
            c = t.and_(c, f)
        if c.op == 'c':
            return bool(c.a)
        return self.dec.valid(t.not_(c), st.allowed) is not True

    def residue(self, st, a, m):
        """(a // m, a % m) with a constant remainder, splitting cases if needed"""
        a = st.pc.norm(aff(a))
        for s, k in a.m.items():
            if k % m:
                n = fresh('r')
                raise Fork([[('decl', n), ('eq', Aff.sym(s) - m * Aff.sym(n) - j)] for j in range(m)])
        return Aff(a.c // m, {s: k // m for s, k in a.m.items()}), a.c % m

    def ge(self, st, a):
        return self.lia.prove_ge(st.pc, a)

    def decide_ge(self, st, a):
        """truth of a >= 0, forking if the path does not determine it"""
        a = st.pc.norm(aff(a))
        if a.isc():
            return a.c >= 0
        if self.lia.prove_ge(st.pc, a):
            return True
        if self.lia.prove_ge(st.pc, -a - 1):
            return False
        raise Fork([[('ge', a)], [('ge', -a - 1)]])

    def decide_eq(self, st, a):
        a = st.pc.norm(aff(a))
        if a.isc():
            return a.c == 0
        le = self.lia.prove_ge(st.pc, -a)
        ge = self.lia.prove_ge(st.pc, a)
        if le and ge:
            return True
        if self.lia.prove_ge(st.pc, a - 1) or self.lia.prove_ge(st.pc, -a - 1):
            return False
        alts = [[('eq', a)]]
        if not le:
            alts.append([('ge', a - 1)])
        if not ge:
            alts.append([('ge', -a - 1)])
        raise Fork(alts)

    def norm_u(self, st, a, w):
        """a as an integer in [0, 2^w)"""
        if isinstance(a, int):
            return a & M(w)
        a = st.pc.norm(a)
        if a.isc():
            return a.c & M(w)
        lo = self.lia.prove_ge(st.pc, a)
        hi = self.lia.prove_ge(st.pc, M(w) - a)
        if lo and hi:
            return a
        P = 1 << w
        if self.lia.prove_ge(st.pc, a + P) and self.lia.prove_ge(st.pc, 2 * P - 1 - a):
            if self.lia.prove_ge(st.pc, -a - 1):
                return a + P
            if self.lia.prove_ge(st.pc, a - P):
                return a - P
            alts = [[('ge', a), ('ge', M(w) - a)]]
            if not lo:
                alts.append([('ge', -a - 1)])
            if not hi:
                alts.append([('ge', a - P)])
            raise Fork(alts)
        k = fresh('k')
        u = fresh('u')
        key = ('mod', a.key(), w)
        r = st.pc.recall(key)
        if r is not None:
            return r
        # a = u + 2^w k
        pc = st.pc.decl(k).decl(u)
        pc = pc.ge(Aff.sym(u)).ge(M(w) - Aff.sym(u)).eq(a - Aff.sym(u) - P * Aff.sym(k))
        r = Aff.sym(u)
        st.pc = pc.mark(key, r)
        return st.pc.norm(r)

    def norm_s(self, st, a, w):
        if isinstance(a, int):
            return sgn(a, w)
        a = st.pc.norm(a)
        if a.isc():
            return sgn(a.c, w)
        H = 1 << (w - 1)
        lo = self.lia.prove_ge(st.pc, a + H)
        hi = self.lia.prove_ge(st.pc, H - 1 - a)
        if lo and hi:
            return a
        u = self.norm_u(st, a, w)
        if isinstance(u, int):
            return sgn(u, w)
        if self.decide_ge(st, H - 1 - u):
            return u
        return u - 2 * H

    def toInt(self, st, v, w):
        """integer view (int or Aff) of a value, enumerating a bit-vector term if it has few values"""
        if isinstance(v, (int, Aff)):
            return v
        if isinstance(v, t.T):
            if v.op == 'c':
                return v.a
            vs = self.tvalues(st, v)
            if vs is None or len(vs) > 40:
                raise Unsupported('integer view of data term %r' % (v,))
            if len(vs) == 1:
                return vs[0]
            raise Fork([[('bv', t.eq(v, t.const(v.w, x)), True)] for x in vs])
        if v is UNDEF:
            raise Unsupported('use of an undefined value')
        raise Unsupported('integer view of %r' % (v,))

    def tvalues(self, st, v):
        ab = self.dec.abstract(v, st.allowed) if len(v.sup) > 1 else v
        allowed = st.allowed if ab is v else {}
        r = self.dec.values(ab, allowed)
        if r is None:
            return None
        return sorted(set(int(x) for x in r[2]))

    def divmod_(self, st, a, c):
        """(a // c, a % c) for a >= 0 known"""
        a = st.pc.norm(aff(a))
        if a.isc():
            return a.c // c, a.c % c
        # split off the divisible part
        q0 = Aff(a.c // c)
        r0 = Aff(a.c % c)
        for s, k in a.m.items():
            q0 = q0 + Aff(0, {s: k // c}) if k // c else q0
            if k % c:
                r0 = r0 + Aff(0, {s: k % c})
        if r0.isc():
            return q0, r0.c
        if self.lia.prove_ge(st.pc, r0) and self.lia.prove_ge(st.pc, c - 1 - r0):
            return q0, r0
        key = ('div', r0.key(), c)
        q = st.pc.recall(key)
        if q is None:
            # also look for a quotient of an equal expression under the current equalities
            n = st.pc
            while n is not None and q is None:
                if n.kind == 'memo' and n.data[0][0] == 'div' and n.data[0][2] == c:
                    old = Aff(n.data[0][1][0], dict(n.data[0][1][1]))
                    if st.pc.norm(old) == r0:
                        q = n.data[1]
                n = n.parent
        if q is None:
            name = fresh('q')
            q = Aff.sym(name)
            st.pc = st.pc.decl(name).ge(r0 - c * q).ge(c * q + (c - 1) - r0).mark(key, q)
        q = st.pc.norm(q)
        return q0 + q, r0 - c * q

    def valid(self, st, cond):
        """1-bit term valid under the path's byte facts"""
        r = self.dec.valid(cond, st.allowed, st.bfacts)
        return r

    def assume_bv(self, st, c, truth):
        """Refine the state; returns False if infeasible."""
        if c.op == 'c':
            return bool(c.a) == truth
        if c.op == 'xor' and c.a[1].op == 'c':
            return self.assume_bv(st, c.a[0], not truth if c.a[1].a else truth)
        if truth and c.op == 'and':
            return self.assume_bv(st, c.a[0], True) and self.assume_bv(st, c.a[1], True)
        if not truth and c.op == 'or':
            return self.assume_bv(st, c.a[0], False) and self.assume_bv(st, c.a[1], False)
        if len(c.sup) == 1:
            (v,) = c.sup
            d = self.dec.domain(v, st.allowed)
            if d is not None:
                vals = self.dec.table(c, v, d)
                nd = tuple(x for x, y in zip(d, vals) if bool(y) == truth)
                if not nd:
                    return False
                if len(nd) != len(d):
                    st.allowed[v] = nd
                return True
        if c.op == 'eq' and truth is False and False:
            return True
        f = c if truth else t.not_(c)
        if len(c.sup) <= 3:
            st.bfacts = st.bfacts + (f,)
        if len(c.sup) > 3 or not self.small(st, c):
            st.ext['known'] = st.ext.get('known', frozenset()) | {(c, truth)}
        return True

    def tri(self, st, c):
        """truth of a 1-bit term as far as it follows conjunct by conjunct; None: open"""
        if c.op == 'c':
            return bool(c.a)
        if c.op == 'xor' and c.a[1].op == 'c':
            r = self.tri(st, c.a[0])
            return r if r is None or not c.a[1].a else not r
        if len(c.sup) == 1:
            (v,) = c.sup
            d = self.dec.domain(v, st.allowed)
            if d is not None:
                vals = set(self.dec.table(c, v, d))
                if len(vals) == 1:
                    return bool(vals.pop())
        if c.w == 1 and c.op in ('and', 'or'):
            a = [self.tri(st, x) for x in c.a]
            dom = c.op == 'or'
            if dom in a:
                return dom
            if all(x is not None for x in a):
                return not dom
        kn = st.ext.get('known', ())
        if (c, True) in kn:
            return True
        if (c, False) in kn:
            return False
        return None

    def decide_bv(self, st, c):
        if c.op == 'c':
            return bool(c.a)
        r = self.tri(st, c)
        if r is not None:
            return r
        if self.small(st, c):
            if self.dec.valid(c, st.allowed, st.bfacts) is True:
                return True
            if self.dec.valid(t.not_(c), st.allowed, st.bfacts) is True:
                return False
        raise Fork([[('bv', c, True)], [('bv', c, False)]])

    def small(self, st, c):
        n = 1
        for v in c.sup:
            d = self.dec.domain(v, st.allowed)
            n *= len(d) if d else 1 << 40
            if n > 1 << 16:
                return False
        return True

    def truth(self, st, v):
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, t.T):
            return self.decide_bv(st, v)
        if isinstance(v, Aff):
            return not self.decide_eq(st, self.norm_u(st, v, 1))
        if v is UNDEF:
            raise Unsupported('branch on an undefined value')
        raise Unsupported('condition %r' % (v,))

    # ------------------------------------------------------------ values
    def const(self, ty, v):
        k = v[0]
        if k == 'ci':
            if ty[0] == 'i':
                return v[1] & M(ty[1])
            return v[1]
        if k in ('undef', 'poison'):
            if ty[0] == 'vec':
                return Vec(ty[2][1], [UNDEF] * ty[1])
            if ty[0] in ('struct', 'arr'):
                n = ty[1] if ty[0] == 'arr' else len(ty[1])
                return [UNDEF] * n
            return UNDEF
        if k == 'zero':
            if ty[0] == 'vec':
                return Vec(ty[2][1], [t.const(ty[2][1], 0)] * ty[1])
            return 0
        if k == 'null':
            return Ptr(self.nullreg(), 0)
        if k == 'glob':
            return self.globptr(v[1][1:])
        if k == 'cvec':
            if ty[2][0] == 'i':
                return Vec(ty[2][1], [UNDEF if x[0] in ('undef', 'poison') else t.const(ty[2][1], x[1]) for _, x in v[1]])
            return Vec(0, [self.const(tt, x) for tt, x in v[1]])
        if k == 'cgep':
            base = self.const(('ptr',), v[2][0][1])
            off = 0
            bt = v[1]
            ix = [self.const(tt, x) for tt, x in v[2][1:]]
            off += ix[0] * self.mod.size(bt)
            for j in ix[1:]:
                o, bt = self.mod.field(bt, j)
                off += o
            return Ptr(base.reg, base.off + off)
        if k == 'ccast' and v[1] in ('ptrtoint', 'inttoptr'):
            return self.const(v[2], v[3])
        raise Unsupported('constant %r' % (v,))

    def nullreg(self):
        r = self.regions.get('null')
        if r is None:
            r = self.regions['null'] = Region('null', 'null', 0)
        return r

    def globptr(self, name):
        if name in self.mod.globals:
            r = self.regions.get('@' + name)
            if r is None:
                g = self.mod.globals[name]
                if g.const and g.init is not None:
                    data = self.globdata(g.ty, g.init)
                    r = Region('@' + name, 'tab', self.mod.size(g.ty), g.align, data=data, ro=True)
                    r.g = g
                else:
                    r = Region('@' + name, 'global', self.mod.size(g.ty) if g.init is not None else None, g.align)
                    r.g = g
                self.regions['@' + name] = r
            return Ptr(r, 0)
        return Fn(name)

    def globdata(self, ty, v):
        """bytes (ints), or None entries for pointers"""
        m = self.mod
        k = v[0]
        if ty[0] == 'named':
            ty = m.types[ty[1]]
        if k in ('zero', 'undef', 'poison'):
            return [0] * m.size(ty)
        if ty[0] == 'i':
            n = m.size(ty)
            x = v[1] & M(8 * n)
            b = [(x >> (8 * i)) & 255 for i in range(n)]
            return b[::-1] if m.bigendian else b
        if ty[0] == 'ptr':
            n = m.size(ty)
            if k == 'null':
                return [0] * n
            return [('p', v, i) for i in range(n)]
        if k == 'bytes':
            return list(v[1])
        if ty[0] in ('arr', 'vec'):
            out = []
            for tt, x in v[1]:
                out += self.globdata(tt, x)
            return out
        if ty[0] in ('struct', 'pstruct'):
            out = []
            for j, (tt, x) in enumerate(v[1]):
                off, _ = m.field(ty, j)
                out += [0] * (off - len(out))
                out += self.globdata(tt, x)
            out += [0] * (m.size(ty) - len(out))
            return out
        raise Unsupported('initialiser %r' % (v,))

    def val(self, st, ty, v):
        if v[0] == 'loc':
            try:
                x = st.env[v[1]]
            except KeyError:
                raise Unsupported('value %s not available' % v[1])
            return x
        return self.const(ty, v)

    # ------------------------------------------------------------ integer ops
    def binop(self, st, i, op, w, a, b):
        if a is UNDEF or b is UNDEF:
            if isinstance(a, int) or isinstance(b, int) or True:
                if op == 'and' and (a == 0 or b == 0):
                    return 0
                return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(st, op, w, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrarith(st, op, w, a, b)
        at, bt = isinstance(a, t.T), isinstance(b, t.T)
        if (at and isinstance(b, (int, t.T))) or (bt and isinstance(a, (int, t.T))):
            return self.tbin(st, op, w, toT(a, w), toT(b, w))
        if at or bt:
            # data and length mixed
            if at:
                a = self.toInt(st, a, w)
            if bt:
                b = self.toInt(st, b, w)
            if isinstance(a, int) and isinstance(b, int):
                return self.cbin(st, op, w, a, b)
        if not isinstance(a, (int, Aff)) or not isinstance(b, (int, Aff)):
            raise Unsupported('%s of %r, %r' % (op, a, b))
        r = self.ibin(st, op, w, a, b)
        if isinstance(r, Aff):
            r = st.pc.norm(r)
            if r.isc():
                r = r.c
        return r & M(w) if isinstance(r, int) else r

    def ptrarith(self, st, op, w, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.reg is b.reg and not a.idx and not b.idx:
            r = st.pc.norm(aff(a.off) - aff(b.off))
            return r.c & M(w) if r.isc() else r
        if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, (int, Aff)):
            d = self.norm_s(st, b, w)
            o = aff(a.off) + (aff(d) if op == 'add' else -aff(d))
            return Ptr(a.reg, o.c if o.isc() else o, a.idx)
        if op == 'add' and isinstance(b, Ptr):
            return self.ptrarith(st, op, w, b, a)
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int):
            # alignment test of an address: unknown low bits
            if b < 4096:
                return self.addrbits(st, a, b)
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and 'null' in (a.reg.kind, b.reg.kind):
            return UNDEF        # computed, but of no use to anyone
        raise Unsupported('pointer arithmetic %s %r %r' % (op, a, b))

    def addrbits(self, st, a, m):
        """low bits of an address: the base address is arbitrary"""
        raise Unsupported('address bits')

    def cbin(self, st, op, w, a, b):
        m = M(w)
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                self.ob(st, 'ub', 'shift amount below width', False)
                raise PathEnd()
            if op == 'shl':
                return (a << b) & m
            if op == 'lshr':
                return a >> b
            return (sgn(a, w) >> b) & m
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0:
                self.ob(st, 'ub', 'division by nonzero', False)
                raise PathEnd()
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) & m
        raise Unsupported(op)

    def tbin(self, st, op, w, a, b):
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            r = {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'and': t.and_, 'or': t.or_, 'xor': t.xor}[op](a, b)
        elif op in ('shl', 'lshr', 'ashr'):
            if b.op == 'c':
                if b.a >= w:
                    self.ob(st, 'ub', 'shift amount below width', False)
                    raise PathEnd()
            else:
                self.ob(st, 'ub', 'shift amount below width', lambda: self.valid(st, t.ult(b, t.const(w, w))) is True, backend='bv')
            r = {'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr}[op](a, b)
        elif op in ('udiv', 'urem', 'sdiv', 'srem') and b.op == 'c' and b.a:
            vs = len(a.sup) == 1
            if op in ('udiv', 'sdiv') and b.a & (b.a - 1) == 0 and (op == 'udiv' or (a.kz >> (w - 1)) & 1):
                r = t.lshrc(a, b.a.bit_length() - 1)
            elif op in ('urem', 'srem') and b.a & (b.a - 1) == 0 and (op == 'urem' or (a.kz >> (w - 1)) & 1):
                r = t.and_(a, t.const(w, b.a - 1))
            elif t.maxval(a) <= 65535:
                mx = t.maxval(a)
                if op in ('udiv', 'sdiv'):
                    r = t.tbl(tuple(x // b.a for x in range(mx + 1)), w, a)
                else:
                    r = t.tbl(tuple(x % b.a for x in range(mx + 1)), w, a)
            else:
                raise Unsupported('division of data')
        else:
            raise Unsupported('%s of data' % op)
        return fromT(r)

    def ibin(self, st, op, w, a, b):
        A, B = aff(a), aff(b)
        if op == 'add':
            if isinstance(b, int):
                return A + sgn(b, w)
            if isinstance(a, int):
                return B + sgn(a, w)
            return A + B
        if op == 'sub':
            if isinstance(b, int):
                return A - sgn(b, w)
            return A - B
        if op == 'mul':
            if isinstance(a, int):
                return B * sgn(a, w)
            if isinstance(b, int):
                return A * sgn(b, w)
            na, nb = st.pc.norm(A), st.pc.norm(B)
            if na.isc():
                return nb * na.c
            if nb.isc():
                return na * nb.c
            return self.product(st, self.norm_u(st, A, w), self.norm_u(st, B, w))
        if op == 'shl' and isinstance(b, int):
            if b >= w:
                self.ob(st, 'ub', 'shift amount below width', False)
                raise PathEnd()
            return A * (1 << b)
        if op in ('lshr', 'udiv') and isinstance(b, int):
            k = (1 << b) if op == 'lshr' else b
            if k == 0:
                self.ob(st, 'ub', 'division by nonzero', False)
                raise PathEnd()
            return self.divmod_(st, self.norm_u(st, a, w), k)[0]
        if op == 'urem' and isinstance(b, int):
            if b == 0:
                self.ob(st, 'ub', 'division by nonzero', False)
                raise PathEnd()
            return self.divmod_(st, self.norm_u(st, a, w), b)[1]
        if op in ('sdiv', 'srem') and isinstance(b, int):
            x = self.norm_s(st, a, w)
            y = sgn(b, w)
            if y == 0:
                self.ob(st, 'ub', 'division by nonzero', False)
                raise PathEnd()
            neg = not self.decide_ge(st, x)
            x = -aff(x) if neg else aff(x)
            q, r = self.divmod_(st, x, abs(y))
            q, r = aff(q), aff(r)
            if neg != (y < 0):
                q = -q
            if neg:
                r = -r
            return q if op == 'sdiv' else r
        if op == 'ashr' and isinstance(b, int):
            x = self.norm_s(st, a, w)
            k = 1 << b
            off = 1 << (w - 1)
            q, r = self.divmod_(st, aff(x) + off, k)
            return aff(q) - off // k
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b & (b + 1) == 0:
                    return self.divmod_(st, self.norm_u(st, a, w), b + 1)[1]
                nb = (~b) & M(w)
                if nb & (nb + 1) == 0:
                    u = self.norm_u(st, a, w)
                    return aff(u) - aff(self.divmod_(st, u, nb + 1)[1])
                lo = (b & -b)
                hi = b // lo
                if hi & (hi + 1) == 0:
                    # contiguous mask
                    u = self.norm_u(st, a, w)
                    r = self.divmod_(st, u, b + lo)[1] if b + lo <= M(w) else u
                    return aff(r) - aff(self.divmod_(st, r, lo)[1])
        if op in ('or', 'xor', 'add') and (isinstance(b, int) or isinstance(a, int)):
            if isinstance(a, int):
                a, b = b, a
            if op == 'xor' and b == M(w):
                return -1 - aff(a)
            u = st.pc.norm(aff(self.norm_u(st, a, w)))
            if b == 0:
                return u
            k = 1 << b.bit_length()
            q, r = self.divmod_(st, u, k)
            r = st.pc.norm(aff(r))
            if r.isc():
                return aff(q) * k + ((r.c | b) if op == 'or' else (r.c ^ b))
            if k <= 64:
                for x in range(k):
                    if self.lia.prove_eq(st.pc, r - x):
                        return aff(q) * k + ((x | b) if op == 'or' else (x ^ b))
                raise Fork([[('eq', r - x)] for x in range(k)])
        if op in ('and', 'or', 'xor') and isinstance(a, Aff) and isinstance(b, Aff):
            # 0/1 values
            ua, ub = self.norm_u(st, a, w), self.norm_u(st, b, w)
            x = self.enum_small(st, ua)
            y = self.enum_small(st, ub)
            return self.cbin(st, op, w, x, y)
        raise Unsupported('%s of lengths %r %r' % (op, a, b))

    def enum_small(self, st, a, n=16):
        a = st.pc.norm(aff(a))
        if a.isc():
            return a.c
        if self.lia.prove_ge(st.pc, a) and self.lia.prove_ge(st.pc, n - a):
            raise Fork([[('eq', a - x)] for x in range(n + 1)])
        raise Unsupported('cannot enumerate %r' % a)

    def product(self, st, a, b):
        """opaque product of two non-negative integers"""
        a, b = aff(a), aff(b)
        ka, kb = sorted([a.key(), b.key()])
        key = ('prod', ka, kb)
        p = st.pc.recall(key)
        if p is None:
            name = fresh('p')
            p = Aff.sym(name)
            st.pc = st.pc.decl(name).ge(p).mark(key, p)
        return p

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'ptr':
            return self.pcmp(st, pred, a, b)
        w = ty[1]
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of an undefined value')
        if isinstance(a, UMax) or isinstance(b, UMax):
            return self.umaxcmp(pred, a, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, int) and isinstance(b, int):
            return int(cmpi(pred, w, a, b))
        if isinstance(a, (t.T, int)) and isinstance(b, (t.T, int)):
            return fromT(tcmp(pred, toT(a, w), toT(b, w)))
        a = self.toInt(st, a, w)
        b = self.toInt(st, b, w)
        if isinstance(a, int) and isinstance(b, int):
            return int(cmpi(pred, w, a, b))
        n = self.norm_s if pred[0] == 's' else self.norm_u
        if pred in ('eq', 'ne'):
            # difference modulo 2^w
            d = st.pc.norm(aff(a) - aff(b))
            if d.isc():
                r = d.c & M(w) == 0
                return int(r == (pred == 'eq'))
        a = aff(n(st, a, w))
        b = aff(n(st, b, w))
        d = a - b
        if pred in ('eq', 'ne'):
            return int(self.decide_eq(st, d) == (pred == 'eq'))
        if pred[1:] == 'ge':
            return int(self.decide_ge(st, d))
        if pred[1:] == 'lt':
            return int(not self.decide_ge(st, d))
        if pred[1:] == 'gt':
            return int(self.decide_ge(st, d - 1))
        return int(not self.decide_ge(st, d - 1))

    def umaxcmp(self, pred, a, b, cw):
        if not isinstance(b, int):
            raise Unsupported('maximum compared with data')
        w = a.w
        c = b
        if pred[0] == 's' and c < 1 << (cw - 1) and (cw > w or all((toT(x, w).kz >> (w - 1)) & 1 for x in a.e)):
            pred = 'u' + pred[1:]       # neither is negative
        lt = lambda k: [t.ult(toT(x, w), t.const(w, k)) for x in a.e]
        ge = lambda k: t.FALSE if k > M(w) else t.TRUE if not k else t.not_(_or(lt(k))) if a.least else _or([t.not_(x) for x in lt(k)])
        if pred == 'ugt':
            r = ge(c + 1)
        elif pred == 'uge':
            r = ge(c)
        elif pred == 'ult':
            r = t.not_(ge(c))
        elif pred == 'ule':
            r = t.not_(ge(c + 1))
        elif pred == 'eq':
            r = t.and_(ge(c), t.not_(ge(c + 1)))
        elif pred == 'ne':
            r = t.not_(t.and_(ge(c), t.not_(ge(c + 1))))
        else:
            raise Unsupported('signed comparison of a maximum')
        return fromT(r)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            an = isinstance(a, Ptr) and a.reg.kind == 'null'
            bn = isinstance(b, Ptr) and b.reg.kind == 'null'
            if an or bn:
                return int(pred == 'ne')
            if isinstance(a, Fn) and isinstance(b, Fn):
                return int((a.name == b.name) == (pred == 'eq'))
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer comparison %r %r' % (a, b))
        if a.reg is b.reg:
            d = aff(a.off) - aff(b.off)
            if pred in ('eq', 'ne'):
                return int(self.decide_eq(st, d) == (pred == 'eq'))
            if pred[1:] == 'ge':
                return int(self.decide_ge(st, d))
            if pred[1:] == 'lt':
                return int(not self.decide_ge(st, d))
            if pred[1:] == 'gt':
                return int(self.decide_ge(st, d - 1))
            return int(not self.decide_ge(st, d - 1))
        if pred in ('eq', 'ne') and 'null' in (a.reg.kind, b.reg.kind):
            o = a if b.reg.kind == 'null' else b
            if getattr(o.reg, 'maynull', False):
                raise Unsupported('null test of %r' % o)
            return int(pred == 'ne')
        raise Unsupported('comparison of unrelated pointers')

    # ------------------------------------------------------------ memory
    def gep(self, st, bt, base, idx):
        if isinstance(base, Fn):
            raise Unsupported('function pointer arithmetic')
        if not isinstance(base, Ptr):
            raise Unsupported('address arithmetic on %r' % (base,))
        off = aff(base.off)
        ix = list(base.idx)
        cur = bt
        for j, (ty, v) in enumerate(idx):
            if j == 0:
                sc = self.mod.size(bt)
            else:
                c2 = self.mod.types[cur[1]] if cur[0] == 'named' else cur
                if c2[0] in ('struct', 'pstruct'):
                    o, cur = self.mod.field(c2, v)
                    off = off + o
                    continue
                sc = self.mod.size(c2[2])
                cur = c2[2]
            w = ty[1]
            if isinstance(v, int):
                off = off + sgn(v, w) * sc
            elif isinstance(v, Aff):
                off = off + aff(self.norm_s(st, v, w)) * sc
            elif isinstance(v, t.T):
                if base.reg.kind == 'tab':
                    ix.append((t.sext(v, 64), sc))
                else:
                    off = off + sgn(self.toInt(st, v, w), w) * sc
            else:
                raise Unsupported('index %r' % (v,))
        off = st.pc.norm(off)
        return Ptr(base.reg, off.c if off.isc() else off, tuple(ix))

    def srcvar(self, off):
        a = aff(off)
        return t.var(8, ('s', a.key()))

    def checkrange(self, st, p, n, wr):
        r = p.reg
        off = aff(p.off)
        what = '%s of %d bytes at %s%+r inside the buffer' % ('write' if wr else 'read', n, r.name, off)
        if r.goals is not None:
            ok = lambda: all(self.ge(st, g) for g in r.goals(st, off, n, wr))
        else:
            ok = lambda: self.ge(st, off - r.lo) and self.ge(st, aff(r.size) - off - n)
        self.ob(st, 'write-bounds' if wr else 'read-bounds', what, ok)

    def checkalign(self, st, p, al):
        if al and al > 1:
            r = p.reg
            ok = r.align % al == 0
            if ok and not p.idx:
                o = st.pc.norm(aff(p.off))
                ok = o.c % al == 0 and all(k % al == 0 for k in o.m.values())
            self.ob(st, 'align', 'address %s%+r aligned to %d' % (r.name, aff(p.off), al), ok)

    def load(self, st, p, ty, al=None):
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        n = self.mod.size(ty)
        r = p.reg
        if r.kind == 'src':
            if p.idx:
                raise Unsupported('data-dependent source address')
            self.checkrange(st, p, n, False)
            self.checkalign(st, p, al)
            o = st.pc.norm(aff(p.off))
            bs = [self.srcvar(o + i) for i in range(n)]
            return self.frombytes(ty, bs)
        if r.kind == 'tab':
            self.checkalign(st, p, al)
            return self.tabload(st, p, ty, n)
        if r.kind == 'cell':
            if not p.idx and st.pc.norm(aff(p.off)).isc():
                o = st.pc.norm(aff(p.off)).c
                if not self.cellrange(st, r, o, n, False):
                    raise PathEnd()
                return self.cellload(st, r, o, n, ty)
            return self.cellload_idx(st, p, n, ty)
        if r.kind == 'out':
            return self.outload(st, p, n, ty)
        if r.kind == 'null':
            self.ob(st, 'null', 'no access through a null pointer', False)
            raise PathEnd()
        return self.contract.load(self, st, p, ty, n)

    def outload(self, st, p, n, ty):
        off = st.pc.norm(aff(p.off))
        self.checkrange(st, p, n, False)
        got = {}
        for o, b in st.stores:
            d = st.pc.norm(o - off)
            if not d.isc():
                # unknown distance: give up if it may overlap
                if self.ge(st, d - n) or self.ge(st, -d - 1):
                    continue
                got = None
                break
            if 0 <= d.c < n:
                got[d.c] = b
        if got is not None and len(got) == n and all(isinstance(got[i], t.T) for i in range(n)):
            return self.frombytes(ty, [got[i] for i in range(n)])
        # content of the output buffer not tracked here: arbitrary
        return self.havoc(ty, 'outmem')

    def cellrange(self, st, r, o, n, wr):
        ok = 0 <= o and (r.size is None or o + n <= r.size)
        self.ob(st, 'write-bounds' if wr else 'read-bounds', '%s of %d bytes at %s%+d inside the object' % ('write' if wr else 'read', n, r.name, o), ok)
        return ok

    def cellload(self, st, r, o, n, ty):
        c = st.mem.get(r.name, {})
        e = c.get(o)
        if e is not None and e[0] == n:
            return self.retype(st, e[1], ty)
        # byte-wise
        bs = self.cellbytes(c, o, n)
        if bs is None:
            if r.kind == 'cell' and getattr(r, 'unknown', False):
                v = self.havoc(ty, r.name)
                return v
            return UNDEF if ty[0] != 'vec' else Vec(ty[2][1], [UNDEF] * ty[1])
        return self.frombytes(ty, bs)

    def cellbytes(self, c, o, n):
        out = []
        for k in range(o, o + n):
            hit = None
            for o2, (n2, v2) in c.items():
                if o2 <= k < o2 + n2:
                    bs = self.tobytes_any(v2, n2)
                    if bs is None:
                        return None
                    hit = bs[k - o2]
            if hit is None or hit is UNDEF:
                return None
            out.append(hit)
        return out

    def cellload_idx(self, st, p, n, ty):
        """load from a cell at a data- or length-dependent index"""
        r = p.reg
        if p.idx and st.pc.norm(aff(p.off)).isc() and n == 1 and isinstance(r.size, int) and r.size <= 4096:
            c = st.mem.get(r.name, {})
            bs = self.cellbytes(c, 0, r.size)
            if bs is not None and all(b.op == 'c' for b in bs):
                tab = Region(r.name, 'tab', r.size, data=[b.a for b in bs])
                return self.tabload(st, Ptr(tab, p.off, p.idx), ty, n)
        if not p.idx:
            # enumerate a small index range
            o = st.pc.norm(aff(p.off))
            if isinstance(r.size, int) and r.size <= 64:
                self.checkrange(st, p, n, False)
                if not (self.ge(st, o) and self.ge(st, r.size - o - n)):
                    raise PathEnd()
                raise Fork([[('eq', o - k)] for k in range(0, r.size - n + 1)])
        raise Unsupported('indexed access to %s' % r.name)

    def tabload(self, st, p, ty, n):
        r = p.reg
        size = len(r.data)
        if not p.idx:
            o = st.pc.norm(aff(p.off))
            if not o.isc():
                # length-dependent table index: enumerate if small
                if size <= 512:
                    if not (self.ge(st, o) and self.ge(st, size - o - n)):
                        self.ob(st, 'read-bounds', 'table %s index in range' % r.name, False)
                        raise PathEnd()
                    raise Fork([[('eq', o - k)] for k in range(size - n + 1)])
                raise Unsupported('table index %r' % o)
            o = o.c
            ok = 0 <= o and o + n <= size
            self.ob(st, 'read-bounds', 'read of %d bytes at %s%+d inside the table' % (n, r.name, o), ok)
            if not ok:
                raise PathEnd()
            return self.fromdata(ty, r.data[o:o + n])
        o = st.pc.norm(aff(p.off))
        if not o.isc():
            raise Unsupported('table index %r' % o)
        o = o.c
        if len(p.idx) > 1 or n > 8:
            # combine
            ix, sc = t.const(64, 0), 1
            for x, s in p.idx:
                ix = t.add(ix, t.mul(x, t.const(64, s)))
        else:
            ix, sc = p.idx[0]
        if n > 8 or ty[0] not in ('i', 'ptr'):
            if ty[0] == 'vec':
                es = [self.tabload(st, Ptr(r, o + k * self.mod.size(ty[2]), ((ix, sc),)), ty[2], self.mod.size(ty[2])) for k in range(ty[1])]
                return Vec(ty[2][1], [toT(e, ty[2][1]) for e in es])
            raise Unsupported('table load of %r' % (ty,))
        mx = t.maxval(ix)
        # drop known-zero top bits of the index
        k = ix.w
        while k > 1 and (ix.kz >> (k - 1)) & 1:
            k -= 1
        ixs = t.extract(ix, k - 1, 0)
        lim = (size - n - o) // sc if size - n - o >= 0 else -1
        if o < 0:
            raise Unsupported('negative table offset')
        ok = min(mx, M(k)) <= lim
        if not ok:
            ok = self.valid(st, t.not_(t.ult(t.const(k, lim), ixs)) if lim >= 0 and lim <= M(k) else t.FALSE) is True
        self.ob(st, 'read-bounds', 'index of table %s within %d entries' % (r.name, lim + 1), ok, backend='bv')
        if not ok:
            raise PathEnd()
        cnt = min(min(mx, M(k)), lim) + 1
        key = ('tab', r.name, o, sc, n, cnt)
        cache = r.__dict__.setdefault('cache', {})
        data = cache.get(key)
        if data is None:
            data = []
            for j in range(cnt):
                bs = r.data[o + j * sc:o + j * sc + n]
                if any(not isinstance(b, int) for b in bs):
                    raise Unsupported('pointer table')
                if self.mod.bigendian:
                    bs = bs[::-1]
                data.append(sum(b << (8 * q) for q, b in enumerate(bs)))
            data = tuple(data)
            cache[key] = data
        return fromT(t.tbl(data, 8 * n, ixs))

    def fromdata(self, ty, data):
        if ty[0] == 'ptr' and any(not isinstance(b, int) for b in data):
            return self.const(('ptr',), data[0][1])
        if any(not isinstance(b, int) for b in data):
            raise Unsupported('raw view of pointer data')
        return self.frombytes(ty, [t.const(8, b) for b in data])

    def frombytes(self, ty, bs):
        """value of type ty from memory bytes (terms, in address order)"""
        if ty[0] == 'i':
            b = bs if self.mod.bigendian else bs[::-1]
            r = t.concat(list(b)) if len(b) > 1 else b[0]
            if ty[1] < r.w:
                r = t.extract(r, ty[1] - 1, 0)
            return fromT(r)
        if ty[0] == 'vec':
            es = self.mod.size(ty[2])
            out = []
            for k in range(ty[1]):
                b = bs[k * es:(k + 1) * es]
                b = b if self.mod.bigendian else b[::-1]
                out.append(t.concat(list(b)) if es > 1 else b[0])
            return Vec(ty[2][1], out)
        if ty[0] == 'ptr' and all(b.op == 'c' and b.a == 0 for b in bs):
            return Ptr(self.nullreg(), 0)
        if ty[0] in ('arr',):
            es = self.mod.size(ty[2])
            return [self.frombytes(ty[2], bs[k * es:(k + 1) * es]) for k in range(ty[1])]
        raise Unsupported('load of type %r' % (ty,))

    def tobytes(self, v, ty):
        """memory bytes of value v: terms, or UNDEF"""
        if ty[0] == 'i':
            n = self.mod.size(ty)
            if v is UNDEF:
                return [UNDEF] * n
            x = toT(v, ty[1])
            if ty[1] < 8 * n:
                x = t.zext(x, 8 * n)
            b = t.bytes_of(x)
            return b[::-1] if self.mod.bigendian else b
        if ty[0] == 'vec':
            out = []
            for e in v.e:
                out += self.tobytes(fromT(e) if isinstance(e, t.T) else e, ty[2])
            return out
        if ty[0] == 'arr':
            out = []
            for e in v:
                out += self.tobytes(e, ty[2])
            return out
        raise Unsupported('store of type %r' % (ty,))

    def tobytes_any(self, v, n):
        if isinstance(v, int):
            b = [t.const(8, v >> (8 * k)) for k in range(n)]
            return b[::-1] if self.mod.bigendian else b
        if isinstance(v, t.T):
            x = t.zext(v, 8 * n) if v.w < 8 * n else v
            b = t.bytes_of(x)
            return b[::-1] if self.mod.bigendian else b
        if isinstance(v, Vec):
            out = []
            for e in v.e:
                if e is UNDEF:
                    out += [UNDEF] * (v.ew // 8)
                else:
                    b = t.bytes_of(e)
                    out += b[::-1] if self.mod.bigendian else b
            return out
        return None

    def retype(self, st, v, ty):
        if ty[0] == 'vec':
            if isinstance(v, Vec) and v.ew == ty[2][1]:
                return v
            bs = self.tobytes_any(v, self.mod.size(ty))
            if bs is None or any(b is UNDEF for b in bs):
                if isinstance(v, Vec):
                    return self.bitcast(v, None, ty)
                raise Unsupported('vector view of %r' % (v,))
            return self.frombytes(ty, bs)
        if isinstance(v, Vec):
            bs = self.tobytes_any(v, self.mod.size(ty))
            if any(b is UNDEF for b in bs):
                return UNDEF
            return self.frombytes(ty, bs)
        if ty[0] == 'ptr' and isinstance(v, int):
            if v == 0:
                return Ptr(self.nullreg(), 0)
        return v

    def havoc(self, ty, name):
        n = fresh('h')
        if ty[0] == 'i':
            return t.var(ty[1], ('h', name, n))
        if ty[0] == 'vec':
            return Vec(ty[2][1], [t.var(ty[2][1], ('h', name, n, k)) for k in range(ty[1])])
        return UNDEF

    def store(self, st, p, ty, v, al=None):
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        n = self.mod.size(ty)
        r = p.reg
        if r.kind == 'out':
            if p.idx:
                raise Unsupported('data-dependent output address')
            self.checkrange(st, p, n, True)
            self.checkalign(st, p, al)
            o = st.pc.norm(aff(p.off))
            bs = self.tobytes(v, ty) if isinstance(v, (int, t.T, Vec, list)) or v is UNDEF else [UNDEF] * n
            for k, b in enumerate(bs):
                st.stores.append((o + k, b))
            return
        if r.kind == 'cell':
            if r.ro:
                self.ob(st, 'frame', 'no write to read-only %s' % r.name, False)
                raise PathEnd()
            o = st.pc.norm(aff(p.off))
            if p.idx or not o.isc():
                if not p.idx and isinstance(r.size, int) and r.size <= 64:
                    self.checkrange(st, p, n, True)
                    if not (self.ge(st, o) and self.ge(st, r.size - o - n)):
                        raise PathEnd()
                    raise Fork([[('eq', o - k)] for k in range(0, r.size - n + 1)])
                raise Unsupported('indexed store to %s' % r.name)
            if not self.cellrange(st, r, o.c, n, True):
                raise PathEnd()
            self.cellstore(st, r, o.c, n, v)
            return
        if r.kind in ('src', 'tab'):
            self.ob(st, 'frame', 'no write to read-only %s' % r.name, False)
            raise PathEnd()
        if r.kind == 'null':
            self.ob(st, 'null', 'no access through a null pointer', False)
            raise PathEnd()
        return self.contract.store(self, st, p, ty, v, n)

    def cellstore(self, st, r, o, n, v):
        c = dict(st.mem.get(r.name, {}))
        for o2 in list(c):
            n2, v2 = c[o2]
            if o2 < o + n and o < o2 + n2:
                if not (o2 == o and n2 == n):
                    # partial overlap: split into bytes
                    bs = self.tobytes_any(v2, n2)
                    del c[o2]
                    for k in range(n2):
                        if not (o <= o2 + k < o + n):
                            c[o2 + k] = (1, fromT(bs[k]) if bs is not None and isinstance(bs[k], t.T) else UNDEF)
        c[o] = (n, v)
        st.mem[r.name] = c

    def memcpy(self, st, d, s, n, ty_hint=None):
        n = self.toInt(st, n, 64)
        if isinstance(n, Aff):
            n = st.pc.norm(n)
            if n.isc():
                n = n.c
        if not isinstance(n, int):
            return self.contract.memcpy(self, st, d, s, n)
        if n == 0:
            return
        if n > 256:
            return self.contract.memcpy(self, st, d, s, n)
        # whole-cell copies keep their values
        if s.reg.kind == 'cell' and d.reg.kind == 'cell':
            c = st.mem.get(s.reg.name, {})
            so, do = st.pc.norm(aff(s.off)), st.pc.norm(aff(d.off))
            if so.isc() and do.isc():
                if not self.cellrange(st, s.reg, so.c, n, False) or not self.cellrange(st, d.reg, do.c, n, True):
                    raise PathEnd()
                for o2, (n2, v2) in sorted(c.items()):
                    if so.c <= o2 and o2 + n2 <= so.c + n:
                        self.cellstore(st, d.reg, do.c + o2 - so.c, n2, v2)
                    elif o2 < so.c + n and so.c < o2 + n2:
                        bs = self.tobytes_any(v2, n2)
                        for k in range(n2):
                            if so.c <= o2 + k < so.c + n:
                                self.cellstore(st, d.reg, do.c + o2 + k - so.c, 1, fromT(bs[k]) if bs else UNDEF)
                return
        if s.reg.kind == 'tab' and any(not isinstance(b, int) for b in s.reg.data):
            # structured constant: copy pointer-sized pieces
            so = st.pc.norm(aff(s.off)).c
            ps = self.mod.ptrbits // 8
            k = 0
            while k < n:
                b = s.reg.data[so + k]
                if isinstance(b, int):
                    self.store(st, self.padd(d, k), ('i', 8), b)
                    k += 1
                else:
                    self.store(st, self.padd(d, k), ('ptr',), self.const(('ptr',), b[1]))
                    k += ps
            return
        ty = ('vec', n, ('i', 8)) if n > 8 or n not in (1, 2, 4, 8) else ('i', 8 * n)
        if s.reg.kind == 'tab' and s.idx and ty[0] == 'vec':
            bs = [self.load(st, self.padd(s, k), ('i', 8)) for k in range(n)]
            for k in range(n):
                self.store(st, self.padd(d, k), ('i', 8), bs[k])
            return
        v = self.load(st, s, ty)
        self.store(st, d, ty, v)

    def memset(self, st, d, c, n):
        n = self.toInt(st, n, 64)
        if isinstance(n, Aff):
            n = st.pc.norm(n)
            n = n.c if n.isc() else n
        if not isinstance(n, int) or n > 4096:
            return self.contract.memset(self, st, d, c, n)
        if d.reg.kind == 'cell':
            o = st.pc.norm(aff(d.off))
            if o.isc():
                if not self.cellrange(st, d.reg, o.c, n, True):
                    raise PathEnd()
                done = self.contract.memset_cells(self, st, d.reg, o.c, n, c) if hasattr(self.contract, 'memset_cells') else False
                if not done:
                    # whole cells keep their width
                    b = toT(c, 8)
                    old = {o2: n2 for o2, (n2, _) in st.mem.get(d.reg.name, {}).items()}
                    k = 0
                    while k < n:
                        m = old.get(o.c + k, 1)
                        if m > n - k or m not in (1, 2, 4, 8) or b.op != 'c':
                            m = 1
                        v = fromT(t.concat([b] * m)) if m > 1 else c
                        self.cellstore(st, d.reg, o.c + k, m, v)
                        k += m
                return
        for k in range(n):
            self.store(st, self.padd(d, k), ('i', 8), c)

    def padd(self, p, k):
        o = aff(p.off) + k
        return Ptr(p.reg, o.c if o.isc() else o, p.idx)

    # ------------------------------------------------------------ instructions
    def bitcast(self, v, fty, tty):
        if tty[0] == 'vec' and tty[2][0] == 'i' and tty[2][1] < 8:
            # to <n x i1>
            x = toT(v, tty[1] * tty[2][1])
            w = tty[2][1]
            return Vec(w, [t.extract(x, (k + 1) * w - 1, k * w) for k in range(tty[1])])
        if isinstance(v, Vec):
            if v.ew < 8:
                x = t.concat([e for e in reversed(v.e)])
                return fromT(x) if tty[0] == 'i' else self.bitcast(fromT(x), ('i', x.w), tty)
            if tty[0] == 'vec' and v.ew == tty[2][1]:
                return v
            if any(e is UNDEF for e in v.e):
                if tty[0] == 'vec':
                    ew = tty[2][1]
                    if ew > v.ew:
                        k = ew // v.ew
                        out = []
                        for j in range(tty[1]):
                            g = v.e[j * k:(j + 1) * k]
                            if any(e is UNDEF for e in g):
                                out.append(UNDEF)
                            else:
                                out.append(t.concat(list(reversed(g))))
                        return Vec(ew, out)
                    k = v.ew // ew
                    out = []
                    for e in v.e:
                        for q in range(k):
                            out.append(UNDEF if e is UNDEF else t.extract(e, (q + 1) * ew - 1, q * ew))
                    return Vec(ew, out)
                return UNDEF
            if tty[0] == 'vec':
                ew = tty[2][1]
                if ew < v.ew and v.ew % ew == 0:
                    k = v.ew // ew
                    out = []
                    for e in v.e:
                        for q in range(k):
                            out.append(t.extract(e, (q + 1) * ew - 1, q * ew))
                    return Vec(ew, out)
                k = ew // v.ew
                return Vec(ew, [t.concat(list(reversed(v.e[j * k:(j + 1) * k]))) for j in range(tty[1])])
            return fromT(t.concat(list(reversed(v.e))))
        if tty[0] == 'vec':
            if v is UNDEF:
                return Vec(tty[2][1], [UNDEF] * tty[1])
            w = tty[2][1]
            x = toT(v, w * tty[1])
            return Vec(w, [t.extract(x, (k + 1) * w - 1, k * w) for k in range(tty[1])])
        return v

    def vmap(self, f, *vs):
        out = []
        for es in zip(*[v.e for v in vs]):
            out.append(UNDEF if any(e is UNDEF for e in es) else f(*es))
        return out

    def ins(self, st, i):
        """Execute a non-terminator."""
        op = i.op
        val = self.val
        env = st.env
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a = val(st, i.ty, i.a[0])
            b = val(st, i.ty, i.a[1])
            if i.ty[0] == 'vec':
                w = i.ty[2][1]
                env[i.res] = Vec(w, self.vmap(lambda x, y: toT(self.tbin(st, op, w, x, y), w), a, b))
                return
            w = i.ty[1]
            r = self.binop(st, i, op, w, a, b)
            if 'nsw' in i.flags:
                self.nsw(st, op, w, a, b, r)
            env[i.res] = r
            return
        if op == 'icmp':
            a = val(st, i.ty, i.a[0])
            b = val(st, i.ty, i.a[1])
            if i.ty[0] == 'vec':
                env[i.res] = Vec(1, self.vmap(lambda x, y: tcmp(i.x, x, y), a, b))
                return
            env[i.res] = self.icmp(st, i.x, i.ty, a, b)
            return
        if op == 'gep':
            base = val(st, ('ptr',), i.a[0])
            idx = [(ty, val(st, ty, v)) for ty, v in i.x]
            env[i.res] = self.gep(st, i.ty, base, idx)
            return
        if op == 'load':
            p = val(st, ('ptr',), i.a[0])
            env[i.res] = self.load(st, p, i.ty, i.x)
            return
        if op == 'store':
            v = val(st, i.ty, i.a[0])
            p = val(st, ('ptr',), i.a[1])
            self.store(st, p, i.ty, v, i.x)
            return
        if op in ('zext', 'sext', 'trunc'):
            v = val(st, i.x, i.a[0])
            if i.ty[0] == 'vec':
                w = i.ty[2][1]
                f = {'zext': lambda x: t.zext(x, w), 'sext': lambda x: t.sext(x, w), 'trunc': lambda x: t.extract(x, w - 1, 0)}[op]
                env[i.res] = Vec(w, self.vmap(f, v))
                return
            env[i.res] = self.cast(st, op, v, i.x[1], i.ty[1])
            return
        if op in ('bitcast', 'freeze'):
            v = val(st, i.x, i.a[0])
            env[i.res] = v if op == 'freeze' or i.x == i.ty else self.bitcast(v, i.x, i.ty)
            return
        if op == 'ptrtoint':
            env[i.res] = val(st, i.x, i.a[0])
            return
        if op == 'inttoptr':
            env[i.res] = val(st, i.x, i.a[0])
            return
        if op == 'select':
            c = val(st, i.x, i.a[0])
            a = val(st, i.ty, i.a[1])
            b = val(st, i.ty, i.a[2])
            if i.x[0] == 'vec':
                env[i.res] = Vec(a.ew, self.vmap(lambda q, x, y: t.ite(q, x, y), c, a, b))
                return
            if isinstance(c, t.T) and i.ty[0] == 'i' and isinstance(a, (int, t.T)) and isinstance(b, (int, t.T)):
                env[i.res] = fromT(t.ite(c, toT(a, i.ty[1]), toT(b, i.ty[1])))
                return
            if isinstance(c, t.T) and i.ty[0] == 'vec':
                env[i.res] = Vec(a.ew, self.vmap(lambda x, y: t.ite(c, x, y), a, b))
                return
            env[i.res] = a if self.truth(st, c) else b
            return
        if op == 'extractelement':
            v = val(st, i.ty, i.a[0])
            k = val(st, i.x, i.a[1])
            if not isinstance(k, int):
                raise Unsupported('variable lane')
            e = v.e[k]
            env[i.res] = fromT(e) if isinstance(e, t.T) else e
            return
        if op == 'insertelement':
            v = val(st, i.ty, i.a[0])
            e = val(st, i.x[0], i.a[1])
            k = val(st, i.x[1], i.a[2])
            es = list(v.e)
            es[k] = e if e is UNDEF else toT(e, v.ew)
            env[i.res] = Vec(v.ew, es)
            return
        if op == 'shufflevector':
            a = val(st, i.ty, i.a[0])
            b = val(st, i.ty, i.a[1])
            mt, m = i.x
            if m[0] == 'zero':
                sel = [0] * mt[1]
            elif m[0] in ('undef', 'poison'):
                sel = [None] * mt[1]
            else:
                sel = [None if x[0] != 'ci' else x[1] for _, x in m[1]]
            es = a.e + b.e
            env[i.res] = Vec(a.ew, [UNDEF if s is None else es[s] for s in sel])
            return
        if op == 'extractvalue':
            v = val(st, i.ty, i.a[0])
            for k in i.x:
                v = UNDEF if v is UNDEF else v[k]
            env[i.res] = v
            return
        if op == 'insertvalue':
            v = val(st, i.ty, i.a[0])
            e = val(st, i.x[1], i.a[1])

            def put(v, ty, path):
                if not path:
                    return e
                while ty[0] == 'named':
                    ty = self.mod.types[ty[1]]
                if v is UNDEF:
                    v = [UNDEF] * (ty[1] if ty[0] == 'arr' else len(ty[1]))
                v = list(v)
                v[path[0]] = put(v[path[0]], ty[2] if ty[0] == 'arr' else ty[1][path[0]], path[1:])
                return v
            env[i.res] = put(v, i.ty, list(i.x[0]))
            return
        if op == 'alloca':
            name = 'A' + i.res + (('@%d' % len(st.frames)) if st.frames else '')
            r = self.regions.get(name)
            if r is None:
                n = self.mod.size(i.ty)
                if i.x[0]:
                    n *= i.x[0][1][1]
                r = Region(name, 'cell', n, i.x[1] or 1)
                self.regions[name] = r
            st.mem[name] = {}
            env[i.res] = Ptr(r, 0)
            return
        if op == 'call':
            self.call(st, i)
            return
        if op == 'asmop':
            i.x(self, st)
            return
        if op == 'asm':
            h = getattr(self.contract, 'asm', None)
            if h and h(self, st, i):
                return
            raise Unsupported('inline assembly ' + i.x[0][:60])
        if op == 'atomicrmw':
            return self.contract.atomic(self, st, i)
        raise Unsupported('instruction ' + i.text[:80])

    def cast(self, st, op, v, fw, tw):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, UMax) and op == 'zext':
            return v
        if isinstance(v, UMax) and op == 'trunc' and tw >= v.w:
            return v
        if isinstance(v, int):
            if op == 'sext':
                return sgn(v, fw) & M(tw)
            return v & M(tw)
        if isinstance(v, t.T):
            if op == 'zext':
                return fromT(t.zext(v, tw))
            if op == 'sext':
                return fromT(t.sext(v, tw))
            return fromT(t.extract(v, tw - 1, 0))
        if isinstance(v, Aff):
            if op == 'zext':
                return self.norm_u(st, v, fw)
            if op == 'sext':
                return self.norm_s(st, v, fw)
            return v
        if isinstance(v, Ptr) and op in ('zext', 'sext'):
            return v
        raise Unsupported('%s of %r' % (op, v))

    def nsw(self, st, op, w, a, b, r):
        if isinstance(a, int) and isinstance(b, int):
            x, y = sgn(a, w), sgn(b, w)
            z = {'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << y if 0 <= y < 64 else 0}.get(op)
            if z is not None:
                self.ob(st, 'ub', 'no signed overflow', -(1 << (w - 1)) <= z < 1 << (w - 1))
            return
        if isinstance(a, t.T) or isinstance(b, t.T):
            if not isinstance(a, (int, t.T)) or not isinstance(b, (int, t.T)):
                return
            x, y = toT(a, w), toT(b, w)
            if op == 'shl':
                return
            f = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op]
            if op in ('add',) and (x.kz >> (w - 2)) & 3 == 3 and (y.kz >> (w - 2)) & 3 == 3:
                return
            if op in ('sub',) and (x.kz >> (w - 1)) & 1 and (y.kz >> (w - 1)) & 1:
                return
            W = w * 2 if op == 'mul' else w + 1
            z = f(t.sext(x, W), t.sext(y, W))
            self.ob(st, 'ub', 'no signed overflow', lambda: self.valid(st, t.eq(z, t.sext(t.extract(z, w - 1, 0), W))) is True, backend='bv')
            return
        if isinstance(a, (int, Aff)) and isinstance(b, (int, Aff)):
            x, y = aff(self.norm_s(st, a, w)), aff(self.norm_s(st, b, w))
            if op == 'add':
                z = x + y
            elif op == 'sub':
                z = x - y
            elif op == 'mul' and y.isc():
                z = x * y.c
            elif op == 'mul' and x.isc():
                z = y * x.c
            else:
                return
            H = 1 << (w - 1)
            self.ob(st, 'ub', 'no signed overflow', lambda: self.ge(st, z + H) and self.ge(st, H - 1 - z))

    def call(self, st, i):
        args = [(ty, self.val(st, ty, v) if ty != ('metadata',) else None) for ty, v in i.a]
        f = self.val(st, ('ptr',), i.x)
        if isinstance(f, Fn):
            n = f.name
            if n.startswith('llvm.'):
                h = self.intr.get(n)
                if h is None:
                    for k, hh in self.intr.items():
                        if k.endswith('*') and n.startswith(k[:-1]):
                            h = hh
                            break
                if h is None:
                    raise Unsupported('intrinsic ' + n)
                r = h(self, st, i, [v for _, v in args])
                if i.res:
                    st.env[i.res] = r
                return
            r = self.contract.call(self, st, i, n, args)
        else:
            r = self.contract.icall(self, st, i, f, args)
        if i.res and r is not NotImplemented:
            st.env[i.res] = r

    # ------------------------------------------------------------ path exploration
    def goto(self, st, nb):
        """Take the edge to nb, evaluating phis."""
        b = self.fn.blocks[nb]
        if b.phis:
            new = {}
            for p in b.phis:
                for v, pb in p.a:
                    if pb == st.block:
                        new[p.res] = self.val(st, p.ty, v) if not (v[0] == 'loc' and v[1] not in st.env) else UNDEF
                        break
                else:
                    raise Unsupported('phi without edge')
            st.env.update(new)
        st.prev = st.block
        st.block = nb
        st.idx = 0

    def explore(self, starts, stops):
        """Run paths until they reach a block in stops (after at least one step) or exit.
        Returns dict block -> list of states."""
        arr = {}
        work = list(starts)
        while work:
            st = work.pop()
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget for this function exhausted')
            try:
                self.runpath(st, stops, arr, work)
            except PathEnd:
                pass
        return arr

    def forked(self, st, alts):
        out = []
        for alt in alts:
            s = st.copy()
            ok = True
            for f in alt:
                if f[0] == 'ge':
                    s.pc = s.pc.ge(f[1])
                    if s.pc is not st.pc and self.lia.feasible(s.pc) and self.lia.prove_ge(s.pc, -aff(f[1])):
                        # an implied equality: record it as one
                        s.pc = s.pc.eq(f[1])
                elif f[0] == 'eq':
                    s.pc = s.pc.eq(f[1])
                elif f[0] == 'bv':
                    if not self.assume_bv(s, f[1], f[2]):
                        ok = False
                        break
                elif f[0] == 'decl':
                    s.pc = s.pc.decl(f[1])
                elif f[0] == 'do':
                    f[1](s)
            if ok and s.pc is not st.pc and not self.lia.feasible(s.pc):
                ok = False
            if ok:
                out.append(s)
        return out

    def runpath(self, st, stops, arr, work):
        blocks = self.fn.blocks
        while True:
            b = blocks[st.block]
            ins = b.ins
            try:
                while True:
                    i = ins[st.idx]
                    self.steps += 1
                    if self.steps > self.maxsteps:
                        raise Unsupported('step limit')
                    op = i.op
                    if op == 'br':
                        if len(i.x) == 1:
                            nb = i.x[0]
                        else:
                            c = self.val(st, ('i', 1), i.a[0])
                            nb = i.x[0] if self.truth(st, c) else i.x[1]
                        break
                    if op == 'asmbr':
                        nb = i.x(self, st)
                        break
                    if op == 'switch':
                        v = self.val(st, i.ty, i.a[0])
                        w = i.ty[1]
                        nb = None
                        if isinstance(v, int):
                            nb = i.x[0]
                            for c, l in i.x[1]:
                                if c & M(w) == v:
                                    nb = l
                        elif isinstance(v, Aff):
                            v = self.norm_u(st, v, w)
                            nb = i.x[0]
                            for c, l in i.x[1]:
                                if self.decide_eq(st, aff(v) - (c & M(w))):
                                    nb = l
                                    break
                        elif isinstance(v, t.T):
                            nb = i.x[0]
                            for c, l in i.x[1]:
                                if self.decide_bv(st, t.eq(v, t.const(w, c))):
                                    nb = l
                                    break
                        else:
                            raise Unsupported('switch on %r' % (v,))
                        break
                    if op == 'ret':
                        v = self.val(st, i.ty, i.a[0]) if i.a else None
                        self.exits += 1
                        self.contract.exit(self, st, v)
                        return
                    if op == 'unreachable':
                        self.ob(st, 'ub', 'unreachable code is not reached', False)
                        return
                    self.ins(st, i)
                    st.idx += 1
            except Fork as f:
                alts = self.forked(st, f.alts)
                if not alts:
                    return
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget for this function exhausted')
                work.extend(alts[1:])
                st = alts[0]
                continue
            self.goto(st, nb)
            if nb in stops:
                todo = [st]
                while todo:
                    s = todo.pop()
                    try:
                        self.contract.segment_end(self, s)
                        arr.setdefault(nb, []).append(s)
                    except Fork as f:
                        todo.extend(self.forked(s, f.alts))
                return


def _or(l):
    r = t.FALSE
    for x in l:
        r = t.or_(r, x)
    return r


def cmpi(pred, w, a, b):
    if pred[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred if pred in ('eq', 'ne') else pred[1:]]


def tcmp(pred, a, b):
    return {'eq': t.eq, 'ne': t.ne, 'ult': t.ult, 'ule': t.ule, 'ugt': lambda x, y: t.ult(y, x), 'uge': lambda x, y: t.ule(y, x),
            'slt': t.slt, 'sle': t.sle, 'sgt': lambda x, y: t.slt(y, x), 'sge': lambda x, y: t.sle(y, x)}[pred](a, b)
