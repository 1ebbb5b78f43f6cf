"""Hash-consed bit-vector terms over input bytes, with structural simplification,
complete evaluation over small supports, and translation to z3 for the rest."""
import numpy as np

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'sup', 'kz', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


MAXSUP = 12
BIG = None


def _mk(op, w, a, sup, kz=0):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.a = a; t.sup = sup; t.kz = kz
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


E = frozenset()


def _sup(*ts):
    s = ts[0].sup
    for t in ts[1:]:
        if t.sup is not s and t.sup:
            s = s | t.sup if s else t.sup
    return s


def mask(w):
    return (1 << w) - 1


def const(w, v):
    v &= mask(w)
    return _mk('c', w, v, E, mask(w) & ~v)


def var(w, key, vals=None):
    """A variable.  vals: None (all values) or a tuple of possible values."""
    kz = 0
    if vals is not None:
        o = 0
        for v in vals:
            o |= v
        kz = mask(w) & ~o
    k = ('v', w, (key, vals))
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = 'v'; t.w = w; t.a = (key, vals)
        _cnt[0] += 1
        t.id = _cnt[0]
        t.sup = frozenset([t.id]) if False else None
        t.kz = kz
        t.sup = frozenset([t])
        _tab[k] = t
    return t


def isc(t):
    return t.op == 'c'


def cv(t):
    return t.a


def concat(parts):
    """parts MSB first"""
    fl = []
    for p in parts:
        if p.op == 'cat':
            fl.extend(p.a)
        else:
            fl.append(p)
    out = []
    for p in fl:
        if out:
            q = out[-1]
            if q.op == 'c' and p.op == 'c':
                out[-1] = const(q.w + p.w, (q.a << p.w) | p.a)
                continue
            if q.op == 'x' and p.op == 'x' and q.a[0] is p.a[0] and q.a[2] == p.a[1] + 1:
                out[-1] = extract(q.a[0], q.a[1], p.a[2])
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    w = sum(p.w for p in out)
    kz = 0
    for p in out:
        kz = (kz << p.w) | p.kz
    return _mk('cat', w, tuple(out), _sup(*out), kz)


_xmemo = {}


def extract(t, hi, lo):
    if lo == 0 and hi == t.w - 1:
        return t
    k = (t, hi, lo)
    r = _xmemo.get(k)
    if r is None:
        r = _xmemo[k] = _extract(t, hi, lo)
    return r


def _extract(t, hi, lo):
    w = hi - lo + 1
    op = t.op
    if op == 'c':
        return const(w, t.a >> lo)
    if op == 'x':
        return extract(t.a[0], hi + t.a[2], lo + t.a[2])
    if op == 'cat':
        parts = []
        pos = t.w
        for p in t.a:
            pos -= p.w
            # p covers [pos, pos+p.w)
            h = min(hi, pos + p.w - 1)
            l = max(lo, pos)
            if h >= l:
                parts.append(extract(p, h - pos, l - pos))
        return concat(parts)
    if (t.kz >> lo) & mask(w) == mask(w):
        return const(w, 0)
    if op in ('and', 'or', 'xor'):
        return BITOPS[op](extract(t.a[0], hi, lo), extract(t.a[1], hi, lo))
    if op == 'ite':
        a, b = t.a[1], t.a[2]
        return ite(t.a[0], extract(a, hi, lo), extract(b, hi, lo))
    if op in ('add', 'sub', 'mul') and lo == 0:
        # low bits depend on low bits only
        return {'add': add, 'sub': sub, 'mul': mul}[op](extract(t.a[0], hi, 0), extract(t.a[1], hi, 0))
    if op == 'tbl':
        # narrow the table
        data, idx = t.a
        m = mask(w)
        return tbl(tuple((v >> lo) & m for v in data), w, idx)
    return _mk('x', w, (t, hi, lo), t.sup, (t.kz >> lo) & mask(w))


def zext(t, w):
    if w == t.w:
        return t
    return concat([const(w - t.w, 0), t])


def sext(t, w):
    if w == t.w:
        return t
    if t.op == 'c':
        v = t.a
        if v >> (t.w - 1):
            v |= mask(w) & ~mask(t.w)
        return const(w, v)
    if t.w == 1:
        return ite(t, const(w, mask(w)), const(w, 0))
    if (t.kz >> (t.w - 1)) & 1:
        return zext(t, w)
    s = extract(t, t.w - 1, t.w - 1)
    return concat([ite(s, const(w - t.w, -1), const(w - t.w, 0)), t])


def _split(t):
    """boundaries of a concat"""
    return t.op == 'cat'


def _bitop(op):
    def f(a, b):
        w = a.w
        if a.op == 'c' and b.op == 'c':
            return const(w, {'and': a.a & b.a, 'or': a.a | b.a, 'xor': a.a ^ b.a}[op])
        if a.op == 'c':
            a, b = b, a
        if b.op == 'c':
            v = b.a
            if op == 'and':
                if v == 0:
                    return b
                if (v | a.kz) & mask(w) == mask(w):
                    return a
                if v & ~a.kz & mask(w) == 0:
                    return const(w, 0)
            elif op == 'or':
                if v == 0:
                    return a
                if v == mask(w):
                    return b
            else:
                if v == 0:
                    return a
        if a is b:
            return a if op != 'xor' else const(w, 0)
        if op == 'and' and a.kz | b.kz == mask(w):
            return const(w, 0)
        # split at concat boundaries
        if w > 1 and (a.op == 'cat' or b.op == 'cat' or (b.op == 'c' and op == 'and' and w > 8)):
            cuts = set()
            for t in (a, b):
                if t.op == 'cat':
                    pos = w
                    for p in t.a:
                        pos -= p.w
                        cuts.add(pos)
            if b.op == 'c':
                # split at runs of 0/1 bits of the constant at byte granularity
                if w % 8 == 0 and w > 8:
                    cuts.update(range(0, w, 8))
            cuts.add(0)
            cl = sorted(cuts, reverse=True)
            if len(cl) > 1:
                hi = w - 1
                parts = []
                for c in cl:
                    parts.append(f(extract(a, hi, c), extract(b, hi, c)))
                    hi = c - 1
                return concat(parts)
        if w > 8 and w % 8 == 0 and w <= 64 and (a.op != 'c' and b.op != 'c') and (a.op in ('tbl',) or b.op in ('tbl',)):
            parts = [f(extract(a, i + 7, i), extract(b, i + 7, i)) for i in range(w - 8, -1, -8)]
            return concat(parts)
        if op == 'and' and b.op == 'c' and w <= 8 and a.op != 'cat':
            # contiguous low or high mask: use extract/concat so that shapes coincide
            v = b.a
            if a.op in ('v', 'x') :
                lo = (v & -v).bit_length() - 1
                top = v.bit_length()
                if v == mask(top) & ~mask(lo):
                    parts = []
                    if top < w:
                        parts.append(const(w - top, 0))
                    parts.append(extract(a, top - 1, lo))
                    if lo:
                        parts.append(const(lo, 0))
                    return concat(parts)
        if a.id > b.id and b.op != 'c':
            a, b = b, a
        if op == 'and':
            kz = a.kz | b.kz
        elif op == 'or':
            kz = a.kz & b.kz
        else:
            kz = a.kz & b.kz
        if op == 'and' and b.op == 'c' and a.op == 'and' and a.a[1].op == 'c':
            return f(a.a[0], const(w, a.a[1].a & b.a))
        return _mk(op, w, (a, b), _sup(a, b), kz)
    return f


and_ = _bitop('and')
or_ = _bitop('or')
xor = _bitop('xor')
BITOPS = {'and': and_, 'or': or_, 'xor': xor}


def not_(a):
    return xor(a, const(a.w, -1))


def maxval(t):
    return mask(t.w) & ~t.kz


def add(a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c':
        return const(w, a.a + b.a)
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c' and b.a == 0:
        return a
    if (a.kz | b.kz) == mask(w):
        return or_(a, b)
    if b.op == 'c' and a.op == 'add' and a.a[1].op == 'c':
        return add(a.a[0], const(w, a.a[1].a + b.a))
    m = maxval(a) + maxval(b)
    kz = 0
    if m <= mask(w):
        kz = mask(w) & ~mask(m.bit_length())
    if a.id > b.id and b.op != 'c':
        a, b = b, a
    return _mk('add', w, (a, b), _sup(a, b), kz)


def sub(a, b):
    w = a.w
    if b.op == 'c':
        return add(a, const(w, -b.a))
    if a is b:
        return const(w, 0)
    if a.op == 'c' and b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
        return ite(b.a[0], const(w, a.a - b.a[1].a), const(w, a.a - b.a[2].a))
    return _mk('sub', w, (a, b), _sup(a, b), 0)


def mul(a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c':
        return const(w, a.a * b.a)
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        v = b.a
        if v == 0:
            return b
        if v & (v - 1) == 0:
            return shlc(a, v.bit_length() - 1)
        if bin(v).count('1') <= 4:
            # sum of shifts
            r = None
            k = 0
            while v:
                if v & 1:
                    s = shlc(a, k)
                    r = s if r is None else add(r, s)
                v >>= 1
                k += 1
            return r
    m = maxval(a) * maxval(b)
    kz = 0
    if m <= mask(w):
        kz = mask(w) & ~mask(m.bit_length())
    return _mk('mul', w, (a, b), _sup(a, b), kz)


def shlc(a, k):
    if k == 0:
        return a
    if k >= a.w:
        return const(a.w, 0)
    return concat([extract(a, a.w - 1 - k, 0), const(k, 0)])


def lshrc(a, k):
    if k == 0:
        return a
    if k >= a.w:
        return const(a.w, 0)
    return concat([const(k, 0), extract(a, a.w - 1, k)])


def ashrc(a, k):
    if k >= a.w:
        k = a.w - 1
    return sext(extract(a, a.w - 1, k), a.w)


def shl(a, b):
    if b.op == 'c':
        return shlc(a, b.a)
    return _mk('shl', a.w, (a, b), _sup(a, b), 0)


def lshr(a, b):
    if b.op == 'c':
        return lshrc(a, b.a)
    return _mk('lshr', a.w, (a, b), _sup(a, b), 0)


def ashr(a, b):
    if b.op == 'c':
        return ashrc(a, b.a)
    return _mk('ashr', a.w, (a, b), _sup(a, b), 0)


TRUE = const(1, 1)
FALSE = const(1, 0)


def ite(c, a, b):
    if c.op == 'c':
        return a if c.a else b
    if a is b:
        return a
    if a.w == 1:
        if a.op == 'c' and b.op == 'c':
            return c if a.a else not_(c)
        if a.op == 'c':
            return or_(c, b) if a.a else and_(not_(c), b)
        if b.op == 'c':
            return or_(not_(c), a) if b.a else and_(c, a)
    if c.op == 'xor' and c.a[1].op == 'c':
        return ite(c.a[0], b, a)
    return _mk('ite', a.w, (c, a, b), _sup(c, a, b), a.kz & b.kz)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return FALSE
    if a.op == 'c':
        a, b = b, a
    if a.w == 1:
        if b.op == 'c':
            return a if b.a else not_(a)
        return not_(xor(a, b))
    if b.op == 'c':
        if b.a & a.kz:
            return FALSE
        if a.op == 'cat':
            r = TRUE
            pos = a.w
            for p in a.a:
                pos -= p.w
                r = and_(r, eq(p, const(p.w, b.a >> pos)))
            return r
        if a.op == 'xor' and a.a[1].op == 'c':
            return eq(a.a[0], const(a.w, b.a ^ a.a[1].a))
        if b.a == mask(a.w) and a.op == 'and':
            return and_(eq(a.a[0], b), eq(a.a[1], b))
        if b.a == 0:
            if a.op == 'or':
                return and_(eq(a.a[0], b), eq(a.a[1], b))
            if a.op == 'and' and a.a[1].op == 'c' and a.a[0].op == 'or':
                m = a.a[1]
                return and_(eq(and_(a.a[0].a[0], m), b), eq(and_(a.a[0].a[1], m), b))
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    elif a.op == 'cat' and b.op == 'cat' and [p.w for p in a.a] == [p.w for p in b.a]:
        r = TRUE
        for p, q in zip(a.a, b.a):
            r = and_(r, eq(p, q))
        return r
    if a.id > b.id and b.op != 'c':
        a, b = b, a
    return _mk('eq', 1, (a, b), _sup(a, b), 0)


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.a < b.a else FALSE
    if b.op == 'c' and maxval(a) < b.a:
        return TRUE
    if a.op == 'c' and a.a >= maxval(b):
        return FALSE
    if b.op == 'c' and b.a == 0:
        return FALSE
    if a.op == 'c' and a.a == 0:
        return ne(b, a)
    if b.op == 'c' and b.a == 1:
        return eq(a, const(a.w, 0))
    if b.op == 'c' and b.a == maxval(a):
        return ne(a, b)
    if a.op == 'c' and a.a == maxval(b) - 1:
        return eq(b, const(b.w, a.a + 1))
    return _mk('ult', 1, (a, b), _sup(a, b), 0)


def slt(a, b):
    w = a.w
    s = const(w, 1 << (w - 1))
    if a.op == 'c' and b.op == 'c':
        return TRUE if (a.a ^ s.a) < (b.a ^ s.a) else FALSE
    if (a.kz >> (w - 1)) & 1 and (b.kz >> (w - 1)) & 1:
        return ult(a, b)
    if b.op == 'c' and b.a == 0:
        return extract(a, w - 1, w - 1)
    if a.op == 'c' and a.a == mask(w):
        return not_(extract(b, w - 1, w - 1))
    return _mk('slt', 1, (a, b), _sup(a, b), 0)


def ule(a, b):
    return not_(ult(b, a))


def sle(a, b):
    return not_(slt(b, a))


def tbl(data, w, idx):
    """data[idx]; the caller has shown idx < len(data)"""
    if idx.op == 'c':
        return const(w, data[idx.a] if idx.a < len(data) else 0)
    o = 0
    for v in data:
        o |= v
    if o == 0:
        return const(w, 0)
    return _mk('tbl', w, (data, idx), idx.sup, mask(w) & ~o)


def bytes_of(t):
    """LSB first list of bytes"""
    return [extract(t, i + 7, i) for i in range(0, t.w, 8)]


def show(t, d=4):
    if t.op == 'c':
        return '%d:%d' % (t.a, t.w)
    if t.op == 'v':
        return str(t.a[0])
    if d == 0:
        return '..'
    if t.op == 'x':
        return '%s[%d:%d]' % (show(t.a[0], d - 1), t.a[1], t.a[2])
    if t.op == 'tbl':
        return 'tbl[%s]' % show(t.a[1], d - 1)
    return '%s(%s)' % (t.op, ','.join(show(x, d - 1) for x in t.a))


# ---------------------------------------------------------------- evaluation

def topo(t):
    seen = set()
    out = []
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if done:
            out.append(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        st.append((x, True))
        for c in children(x):
            if c not in seen:
                st.append((c, False))
    return out


def children(x):
    if x.op in ('c', 'v'):
        return ()
    if x.op == 'x':
        return (x.a[0],)
    if x.op == 'tbl':
        return (x.a[1],)
    return x.a


U = np.uint64
_npt = {}


def np_eval(t, env):
    """env: dict var term -> numpy uint64 array.  Width at most 64."""
    val = {}
    for x in topo(t):
        op = x.op
        a = x.a
        m = U(mask(min(x.w, 64)))
        if op == 'c':
            val[x] = U(a & mask(64))
        elif op == 'v':
            val[x] = env[x]
        elif op == 'x':
            val[x] = (val[a[0]] >> U(a[2])) & m
        elif op == 'cat':
            r = None
            for p in a:
                r = val[p] if r is None else (r << U(p.w)) | val[p]
            val[x] = r
        elif op == 'and':
            val[x] = val[a[0]] & val[a[1]]
        elif op == 'or':
            val[x] = val[a[0]] | val[a[1]]
        elif op == 'xor':
            val[x] = val[a[0]] ^ val[a[1]]
        elif op == 'add':
            val[x] = (val[a[0]] + val[a[1]]) & m
        elif op == 'sub':
            val[x] = (val[a[0]] - val[a[1]]) & m
        elif op == 'mul':
            val[x] = (val[a[0]] * val[a[1]]) & m
        elif op in ('shl', 'lshr', 'ashr'):
            s = val[a[1]]
            big = s >= U(x.w)
            sc = np.where(big, U(0), s)
            if op == 'shl':
                r = (val[a[0]] << sc) & m
                val[x] = np.where(big, U(0), r)
            elif op == 'lshr':
                val[x] = np.where(big, U(0), val[a[0]] >> sc)
            else:
                v = np.asarray(val[a[0]], dtype=np.uint64)
                sg = (v >> U(x.w - 1)) & U(1)
                sx = np.where(sg == 1, v | (U(mask(64)) & ~m), v).astype(np.int64)
                val[x] = (sx >> np.where(big, U(63), sc).astype(np.int64)).astype(np.uint64) & m
        elif op == 'ite':
            val[x] = np.where(val[a[0]] != 0, val[a[1]], val[a[2]])
        elif op == 'eq':
            val[x] = np.asarray(val[a[0]] == val[a[1]]).astype(np.uint64)
        elif op == 'ult':
            val[x] = np.asarray(val[a[0]] < val[a[1]]).astype(np.uint64)
        elif op == 'slt':
            s = U(1 << (a[0].w - 1))
            val[x] = np.asarray((val[a[0]] ^ s) < (val[a[1]] ^ s)).astype(np.uint64)
        elif op == 'tbl':
            arr = _npt.get(a[0])
            if arr is None:
                arr = np.array(a[0], dtype=np.uint64)
                _npt[a[0]] = arr
            i = np.asarray(val[a[1]])
            if i.size and int(i.max()) >= len(arr):
                i = np.minimum(i, U(len(arr) - 1))
            val[x] = arr[i.astype(np.int64)]
        else:
            raise ValueError(op)
    return val[t]


def subst(t, m, memo=None):
    """Rebuild t with the replacement map m (term -> term)."""
    if memo is None:
        memo = {}
    for x in topo(t):
        if x in memo:
            continue
        if x in m:
            memo[x] = m[x]
            continue
        if x.op in ('c', 'v'):
            memo[x] = x
            continue
        memo[x] = rebuild(x, [memo[c] for c in children(x)])
    return memo[t]


def rebuild(x, cs):
    op = x.op
    if op == 'x':
        return extract(cs[0], x.a[1], x.a[2])
    if op == 'cat':
        return concat(cs)
    if op == 'tbl':
        return tbl(x.a[0], x.w, cs[0])
    if op == 'ite':
        return ite(*cs)
    return {'and': and_, 'or': or_, 'xor': xor, 'add': add, 'sub': sub, 'mul': mul, 'shl': shl, 'lshr': lshr,
            'ashr': ashr, 'eq': eq, 'ult': ult, 'slt': slt}[op](*cs)


def to_z3(t, ctx, env):
    import z3
    val = {}
    for x in topo(t):
        op = x.op
        a = x.a
        if op == 'c':
            val[x] = z3.BitVecVal(a, x.w, ctx)
        elif op == 'v':
            if x not in env:
                env[x] = z3.BitVec('v%d' % x.id, x.w, ctx)
            val[x] = env[x]
        elif op == 'x':
            val[x] = z3.Extract(a[1], a[2], val[a[0]])
        elif op == 'cat':
            val[x] = z3.Concat(*[val[p] for p in a])
        elif op == 'and':
            val[x] = val[a[0]] & val[a[1]]
        elif op == 'or':
            val[x] = val[a[0]] | val[a[1]]
        elif op == 'xor':
            val[x] = val[a[0]] ^ val[a[1]]
        elif op == 'add':
            val[x] = val[a[0]] + val[a[1]]
        elif op == 'sub':
            val[x] = val[a[0]] - val[a[1]]
        elif op == 'mul':
            val[x] = val[a[0]] * val[a[1]]
        elif op == 'shl':
            val[x] = val[a[0]] << val[a[1]]
        elif op == 'lshr':
            val[x] = z3.LShR(val[a[0]], val[a[1]])
        elif op == 'ashr':
            val[x] = val[a[0]] >> val[a[1]]
        elif op == 'ite':
            val[x] = z3.If(val[a[0]] == 1, val[a[1]], val[a[2]])
        elif op == 'eq':
            val[x] = z3.If(val[a[0]] == val[a[1]], z3.BitVecVal(1, 1, ctx), z3.BitVecVal(0, 1, ctx))
        elif op == 'ult':
            val[x] = z3.If(z3.ULT(val[a[0]], val[a[1]]), z3.BitVecVal(1, 1, ctx), z3.BitVecVal(0, 1, ctx))
        elif op == 'slt':
            val[x] = z3.If(val[a[0]] < val[a[1]], z3.BitVecVal(1, 1, ctx), z3.BitVecVal(0, 1, ctx))
        elif op == 'tbl':
            i = val[a[1]]
            data = list(a[0])
            k = max(1, (len(data) - 1).bit_length())
            data += [0] * ((1 << k) - len(data))
            lvl = [z3.BitVecVal(d, x.w, ctx) for d in data]
            for b in range(k):
                bit = z3.Extract(b, b, i) if b < i.size() else z3.BitVecVal(0, 1, ctx)
                lvl = [lvl[j] if lvl[j].eq(lvl[j + 1]) else z3.If(bit == 1, lvl[j + 1], lvl[j]) for j in range(0, len(lvl), 2)]
            val[x] = lvl[0]
    return val[t]


# ---------------------------------------------------------------- deciding

class Decider:
    """Decides facts about terms, given per-variable sets of possible values."""

    def __init__(self):
        self.cache = {}
        self.vcache = set()
        self.stats = {'eval': 0, 'evalcases': 0, 'z3': 0, 'syntactic': 0, 'cached': 0, 'z3time': 0.0}

    def domain(self, v, allowed):
        s = allowed.get(v) if allowed else None
        vals = v.a[1]
        if s is not None:
            return s
        if vals is not None:
            return vals
        if v.w <= 16:
            return tuple(range(1 << v.w))
        return None

    def key(self, t, allowed):
        vi = {}
        idx = {}
        out = []
        doms = []
        for i, x in enumerate(topo(t)):
            idx[x] = i
            op = x.op
            if op == 'v':
                vi[x] = len(vi)
                out.append(('v', x.w))
                doms.append(self.domain(x, allowed))
            elif op == 'c':
                out.append(('c', x.w, x.a))
            elif op == 'x':
                out.append(('x', idx[x.a[0]], x.a[1], x.a[2]))
            elif op == 'tbl':
                out.append(('t', x.a[0], idx[x.a[1]]))
            else:
                out.append((op, x.w) + tuple(idx[c] for c in x.a))
        return tuple(out), tuple(doms)

    def grid(self, vs, allowed):
        """numpy arrays for all combinations, or None if too many"""
        n = 1
        ds = []
        for v in vs:
            d = self.domain(v, allowed)
            if d is None:
                return None
            ds.append(d)
            n *= len(d)
            if n > 1 << 20:
                return None
        arrs = [np.array(d, dtype=np.uint64) for d in ds]
        if not arrs:
            return {}, 1
        g = np.meshgrid(*arrs, indexing='ij')
        return {v: a.ravel() for v, a in zip(vs, g)}, n

    def abstract(self, t, allowed):
        """Replace maximal sub-terms that depend on one byte variable by a variable that ranges
        over their possible values (same values for the same byte: the byte stays the identity)."""
        m = {}
        memo = {}
        for x in topo(t):
            if x.op in ('c',):
                memo[x] = x
                continue
            if len(x.sup) == 1 and x.w <= 16 and x.op != 'c':
                (v,) = x.sup
                d = self.domain(v, allowed)
                if d is not None and len(d) <= 65536:
                    vals = self.table(x, v, d)
                    o = set(vals)
                    if len(o) == 1:
                        memo[x] = const(x.w, vals[0])
                    else:
                        memo[x] = var(x.w, ('f', v, d, vals), tuple(sorted(o)))
                    continue
            if x.op == 'v':
                memo[x] = x
                continue
            memo[x] = rebuild(x, [memo[c] for c in children(x)])
        return memo[t]

    def table(self, x, v, d):
        k = (self.key(x, {v: d}),)
        r = self.cache.get(k)
        if r is None:
            a = np.array(d, dtype=np.uint64)
            r = np_eval(x, {v: a})
            if np.ndim(r) == 0:
                r = np.full(len(d), r, dtype=np.uint64)
            r = tuple(int(z) for z in r)
            self.cache[k] = r
        return r

    def values(self, t, allowed):
        """All values of t as (support vars, env, array); None if too large."""
        vs = sorted(t.sup, key=lambda v: v.id)
        g = self.grid(vs, allowed)
        if g is None:
            return None
        env, n = g
        r = np_eval(t, env)
        if np.ndim(r) == 0:
            r = np.full(n, r, dtype=np.uint64)
        self.stats['eval'] += 1
        self.stats['evalcases'] += n
        return vs, env, r

    def valid(self, t, allowed, facts=()):
        """True if the 1-bit term t holds for all allowed values (and facts); else a counterexample dict or None."""
        if t.op == 'c':
            if t.a:
                self.stats['syntactic'] += 1
                return True
            return {}
        fs = [f for f in facts if f.sup & t.sup] if facts else []
        if not fs:
            k0 = (t, None if not allowed else tuple(allowed.get(v) for v in sorted(t.sup, key=lambda v: v.id)))
            if k0[1] is not None and not any(k0[1]):
                k0 = (t, None)
            if k0 in self.vcache:
                self.stats['cached'] += 1
                return True
            k = ('valid', self.key(t, allowed))
            r = self.cache.get(k)
            if r is True:
                self.stats['cached'] += 1
                self.vcache.add(k0)
                return True
        r = self._valid(t, allowed, fs)
        if r is True and not fs:
            self.cache[k] = True
            self.vcache.add(k0)
        return r

    def _valid(self, t, allowed, fs):
        vs = set(t.sup)
        for f in fs:
            vs |= f.sup
        vs = sorted(vs, key=lambda v: v.id)
        n = 1
        for v in vs:
            d = self.domain(v, allowed)
            n = n * len(d) if d is not None else 1 << 60
        if n <= 1 << 16 or (n <= 1 << 20 and len(vs) <= 2):
            env, cnt = self.grid(vs, allowed)
            r = np_eval(t, env)
            if np.ndim(r) == 0:
                r = np.full(cnt, r, dtype=np.uint64)
            bad = r == 0
            for f in fs:
                bad = bad & (np_eval(f, env) != 0)
            self.stats['eval'] += 1
            self.stats['evalcases'] += cnt
            if not bad.any():
                return True
            i = int(np.argmax(bad))
            return {v: int(env[v][i]) for v in vs}
        if not fs:
            ab = self.abstract(t, allowed)
            if ab.op == 'c':
                if ab.a:
                    self.stats['syntactic'] += 1
                    return True
            else:
                # variables of the abstraction that come from one byte are treated as independent:
                # sound for validity.
                n = 1
                for v in ab.sup:
                    d = self.domain(v, {})
                    n = n * len(d) if d is not None else 1 << 60
                if n <= 1 << 16:
                    vs2 = sorted(ab.sup, key=lambda v: v.id)
                    env, cnt = self.grid(vs2, {})
                    r = np_eval(ab, env)
                    self.stats['eval'] += 1
                    self.stats['evalcases'] += cnt
                    if np.all(np.asarray(r) != 0):
                        return True
        return self._z3(t, allowed, fs)

    def _z3(self, t, allowed, fs):
        import z3, time
        t0 = time.time()
        ctx = z3.Context()
        s = z3.SolverFor('QF_BV', ctx=ctx)
        s.set('timeout', 20000)
        env = {}
        s.add(to_z3(t, ctx, env) == 0)
        for f in fs:
            s.add(to_z3(f, ctx, env) == 1)
        for v, zv in list(env.items()):
            d = self.domain(v, allowed)
            if d is not None and len(d) < (1 << v.w):
                # ranges
                rs = []
                for x in sorted(d):
                    if rs and rs[-1][1] == x - 1:
                        rs[-1][1] = x
                    else:
                        rs.append([x, x])
                s.add(z3.Or([z3.And(z3.UGE(zv, a), z3.ULE(zv, b)) for a, b in rs]))
        r = s.check()
        self.stats['z3'] += 1
        self.stats['z3time'] += time.time() - t0
        if r == z3.unsat:
            return True
        if r == z3.sat:
            m = s.model()
            return {v: (m.eval(zv, model_completion=True).as_long()) for v, zv in env.items()}
        return None
