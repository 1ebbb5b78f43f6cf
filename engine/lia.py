"""Linear integer arithmetic: affine forms, path conditions, and proofs about them (z3)."""
import time
import math
import z3

_ctr = [0]


def fresh(prefix):
    _ctr[0] += 1
    return '%s#%d' % (prefix, _ctr[0])


class Aff:
    __slots__ = ('c', 'm', '_k')

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = m or {}
        self._k = None

    @staticmethod
    def sym(s):
        return Aff(0, {s: 1})

    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted(self.m.items())))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, int):
            return not self.m and self.c == o
        return self.c == o.c and self.m == o.m

    def isc(self):
        return not self.m

    def __add__(self, o):
        if isinstance(o, int):
            return Aff(self.c + o, self.m)
        m = dict(self.m)
        for s, k in o.m.items():
            v = m.get(s, 0) + k
            if v:
                m[s] = v
            else:
                m.pop(s, None)
        return Aff(self.c + o.c, m)

    __radd__ = __add__

    def __neg__(self):
        return Aff(-self.c, {s: -k for s, k in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return Aff(0)
        return Aff(self.c * k, {s: v * k for s, v in self.m.items()})

    __rmul__ = __mul__

    def subst(self, d):
        if not any(s in d for s in self.m):
            return self
        r = Aff(self.c)
        for s, k in self.m.items():
            if s in d:
                r = r + d[s] * k
            else:
                r = r + Aff(0, {s: k})
        return r

    def __repr__(self):
        out = []
        for s, k in sorted(self.m.items()):
            out.append(('%+d*%s' % (k, s)) if k not in (1, -1) else ('+' if k > 0 else '-') + s)
        if self.c or not out:
            out.append('%+d' % self.c)
        return ''.join(out)


def aff(x):
    return x if isinstance(x, Aff) else Aff(x)


class PC:
    """Persistent path condition: each node adds one fact (aff >= 0) or declares a symbol."""
    __slots__ = ('parent', 'kind', 'data', 'depth', 'sub', 'id', 'memo', 'lo', 'hi')
    _n = [0]

    def __init__(self, parent=None, kind='root', data=None, sub=None):
        self.parent = parent
        self.kind = kind
        self.data = data
        self.depth = parent.depth + 1 if parent else 0
        self.sub = sub if sub is not None else (parent.sub if parent else {})
        PC._n[0] += 1
        self.id = PC._n[0]
        self.memo = {}

    def norm(self, a):
        """Rewrite by the equalities known here."""
        if not isinstance(a, Aff):
            return a
        s = self.sub
        for _ in range(50):
            if not any(k in s for k in a.m):
                return a
            a = a.subst(s)
        return a

    def ge(self, a):
        """assume a >= 0"""
        a = self.norm(aff(a))
        if a.isc() and a.c >= 0:
            return self
        return PC(self, 'ge', a)

    def eq(self, a):
        """assume a == 0"""
        a = self.norm(aff(a))
        if a.isc() and a.c == 0:
            return self
        g = 0
        for k in a.m.values():
            g = math.gcd(g, k)
        if g > 1 and a.c % g == 0:
            a = Aff(a.c // g, {s: k // g for s, k in a.m.items()})
        # choose a symbol with unit coefficient, the newest
        best = None
        for s, k in a.m.items():
            if k in (1, -1):
                num = int(s.split('#')[1]) if '#' in s else -1
                if best is None or num > best[0]:
                    best = (num, s, k)
        if best is None:
            n = PC(self, 'ge', a)
            return PC(n, 'ge', -a)
        _, s, k = best
        rest = Aff(a.c, {x: v for x, v in a.m.items() if x != s})
        val = rest * (-k)        # k*s + rest == 0  ->  s == -rest/k
        sub = dict(self.sub)
        sub[s] = val
        return PC(self, 'eq', a, sub)

    def decl(self, s):
        return PC(self, 'sym', s)

    def mark(self, key, val):
        """remember a derived symbol (quotients) from here on"""
        return PC(self, 'memo', (key, val))

    def recall(self, key):
        n = self
        while n is not None:
            if n.kind == 'memo' and n.data[0] == key:
                return n.data[1]
            n = n.parent
        return None

    def chain(self):
        out = []
        n = self
        while n is not None:
            out.append(n)
            n = n.parent
        out.reverse()
        return out

    def facts(self):
        return [(n.kind, n.data) for n in self.chain() if n.kind in ('ge', 'eq')]

    def syms(self):
        return {n.data for n in self.chain() if n.kind == 'sym'}


def lca(a, b):
    while a.depth > b.depth:
        a = a.parent
    while b.depth > a.depth:
        b = b.parent
    while a is not b:
        a = a.parent
        b = b.parent
    return a


class LIA:
    def __init__(self):
        self.ctx = z3.Context()
        self.s = z3.SolverFor('QF_LIA', ctx=self.ctx)
        self.s.set('timeout', 20000)
        self.stack = []          # PC nodes asserted, one push each (only ge/eq)
        self.vars = {}
        self.stats = {'queries': 0, 'time': 0.0, 'quick': 0}
        self.cache = {}

    def z(self, a):
        r = None
        for s, k in a.m.items():
            v = self.vars.get(s)
            if v is None:
                v = self.vars[s] = z3.Int(s, self.ctx)
            t = v if k == 1 else v * k
            r = t if r is None else r + t
        if r is None:
            return z3.IntVal(a.c, self.ctx)
        return r + a.c if a.c else r

    def sync(self, pc):
        ch = [n for n in pc.chain() if n.kind in ('ge', 'eq')]
        i = 0
        while i < len(ch) and i < len(self.stack) and ch[i] is self.stack[i]:
            i += 1
        if i < len(self.stack):
            self.s.pop(len(self.stack) - i)
            del self.stack[i:]
        for n in ch[i:]:
            self.s.push()
            e = self.z(n.data)
            self.s.add(e >= 0 if n.kind == 'ge' else e == 0)
            self.stack.append(n)

    def quick_ge(self, pc, a):
        n = pc
        k = 0
        while n is not None and k < 400:
            if n.kind == 'ge':
                f = n.data
                if f.m == a.m and a.c >= f.c:
                    return True
            n = n.parent
            k += 1
        return False

    def prove_ge(self, pc, a):
        """a >= 0 in all models of pc?"""
        a = pc.norm(aff(a))
        if a.isc():
            if a.c >= 0:
                return True
            # false unless the path is infeasible
            return not self.feasible(pc)
        k = ('ge', a.key())
        r = pc.memo.get(k)
        if r is not None:
            return r
        # inherited positive answers
        if self.quick_ge(pc, a):
            self.stats['quick'] += 1
            r = True
        else:
            n = pc.parent
            d = 0
            while n is not None and d < 60 and r is None:
                if n.memo.get(k):
                    r = True
                n = n.parent
                d += 1
            if r is None:
                r = self._check(pc, self.z(a) < 0) == z3.unsat
        pc.memo[k] = r
        return r

    def prove_eq(self, pc, a):
        a = pc.norm(aff(a))
        if a.isc() and a.c == 0:
            return True
        return self.prove_ge(pc, a) and self.prove_ge(pc, -a)

    def feasible(self, pc):
        r = pc.memo.get('feas')
        if r is None:
            r = self._check(pc, None) != z3.unsat
            pc.memo['feas'] = r
        return r

    def _check(self, pc, extra):
        t = time.time()
        self.sync(pc)
        self.stats['queries'] += 1
        if extra is None:
            r = self.s.check()
        else:
            self.s.push()
            self.s.add(extra)
            r = self.s.check()
            self.s.pop()
        self.stats['time'] += time.time() - t
        return r

    def prove_z3(self, pc, f):
        """f: function of (lia) returning a z3 boolean; valid under pc?"""
        return self._check(pc, z3.Not(f)) == z3.unsat

    def model(self, pc, extra=None):
        self.sync(pc)
        self.s.push()
        if extra is not None:
            self.s.add(extra)
        r = self.s.check()
        m = None
        if r == z3.sat:
            mm = self.s.model()
            m = {str(d): mm[d].as_long() for d in mm.decls() if z3.is_int_value(mm[d])}
        self.s.pop()
        return m


# ------------------------------------------------------------ integer lattices

def hnf(vecs):
    """Row echelon integer basis of the lattice spanned by vecs (lists of ints)."""
    rows = [list(v) for v in vecs if any(v)]
    if not rows:
        return []
    ncol = len(rows[0])
    out = []
    col = 0
    while rows and col < ncol:
        # gcd elimination on this column
        while True:
            nz = [r for r in rows if r[col]]
            if len(nz) <= 1:
                break
            p = min(nz, key=lambda r: abs(r[col]))
            for r in rows:
                if r is not p and r[col]:
                    q = r[col] // p[col]
                    for j in range(ncol):
                        r[j] -= q * p[j]
            rows = [r for r in rows if any(r)]
        nz = [r for r in rows if r[col]]
        if nz:
            p = nz[0]
            if p[col] < 0:
                p = [-x for x in p]
            rows = [r for r in rows if r is not nz[0]]
            for q in out:
                if q[col]:
                    k = q[col] // p[col]
                    for j in range(ncol):
                        q[j] -= k * p[j]
            out.append(p)
        col += 1
    return out


def lattice_solve(basis, d):
    """Coefficients expressing integer vector d over the echelon basis, or None."""
    d = list(d)
    co = []
    for b in basis:
        p = next(j for j, x in enumerate(b) if x)
        if d[p] % b[p]:
            return None
        k = d[p] // b[p]
        co.append(k)
        if k:
            for j in range(len(d)):
                d[j] -= k * b[j]
    if any(d):
        return None
    return co
