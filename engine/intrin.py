"""Semantics of the LLVM intrinsics that clang emits for this code (trusted transcriptions of the
vendor manuals; every vector model is also validated against hardware or qemu by tools/validate)."""
import re
from . import terms as t
from .exec import Vec, UNDEF, Unsupported, UMax, Ptr, toT, fromT, M, sgn, PathEnd
from .lia import Aff, aff


def lookup(elems, idx, bits, fill=None):
    """elems[idx[bits-1:0]] for a list of 2^bits terms"""
    n = 1 << bits
    ix = t.extract(idx, bits - 1, 0)
    if ix.op == 'c':
        return elems[ix.a]
    if all(e is not UNDEF and e.op == 'c' for e in elems):
        return t.tbl(tuple(e.a for e in elems), elems[0].w, ix)
    if any(e is UNDEF for e in elems):
        raise Unsupported('lookup in an undefined vector')
    lvl = list(elems)
    for b in range(bits):
        bit = t.extract(ix, b, b)
        lvl = [t.ite(bit, lvl[j + 1], lvl[j]) for j in range(0, len(lvl), 2)]
    return lvl[0]


def known(*vs):
    for v in vs:
        for e in v.e:
            if e is UNDEF:
                raise Unsupported('undefined lane')


def pshufb(a, m):
    known(m)
    out = []
    for l in range(0, len(a.e), 16):
        lane = a.e[l:l + 16]
        for x in m.e[l:l + 16]:
            top = t.extract(x, 7, 7)
            if top.op == 'c' and top.a:
                out.append(t.const(8, 0))
            else:
                v = lookup(lane, x, 4)
                if v is UNDEF:
                    out.append(UNDEF)
                else:
                    out.append(t.ite(top, t.const(8, 0), v))
    return Vec(8, out)


def maddubs(a, b):
    known(a, b)
    out = []
    for k in range(0, len(a.e), 2):
        s = None
        hi = 0
        neg = False
        for q in (0, 1):
            x = t.zext(a.e[k + q], 32)
            y = t.sext(b.e[k + q], 32)
            p = t.mul(x, y)
            by = b.e[k + q]
            if by.op == 'c' and by.a < 128:
                hi += t.maxval(a.e[k + q]) * by.a
            else:
                neg = True
            s = p if s is None else t.add(s, p)
        lo = t.extract(s, 15, 0)
        if not neg and hi <= 32767:
            out.append(lo)
        else:
            big = t.slt(t.const(32, 32767), s)
            small = t.slt(s, t.const(32, -32768))
            out.append(t.ite(big, t.const(16, 32767), t.ite(small, t.const(16, 0x8000), lo)))
    return Vec(16, out)


def maddwd(a, b):
    known(a, b)
    out = []
    for k in range(0, len(a.e), 2):
        p = t.mul(t.sext(a.e[k], 32), t.sext(b.e[k], 32))
        q = t.mul(t.sext(a.e[k + 1], 32), t.sext(b.e[k + 1], 32))
        out.append(t.add(p, q))
    return Vec(32, out)


def mulhu(a, b):
    known(a, b)
    return Vec(16, [t.extract(t.mul(t.zext(x, 32), t.zext(y, 32)), 31, 16) for x, y in zip(a.e, b.e)])


def multishift(ctrl, data):
    known(ctrl, data)
    out = []
    for l in range(0, len(ctrl.e), 8):
        q = t.concat(list(reversed(data.e[l:l + 8])))
        qq = t.concat([q, q])
        for j in range(8):
            c = t.extract(ctrl.e[l + j], 5, 0)
            if c.op != 'c':
                raise Unsupported('multishift with a variable control')
            out.append(t.extract(qq, c.a + 7, c.a))
    return Vec(8, out)


def perm(v, idx):
    n = len(v.e)
    bits = n.bit_length() - 1
    known(idx)
    return Vec(v.ew, [lookup(v.e, x, bits) for x in idx.e])


def usubsat(x, y):
    if x.op == 'c' and y.op == 'c':
        return t.const(x.w, max(0, x.a - y.a))
    return t.ite(t.ult(x, y), t.const(x.w, 0), t.sub(x, y))


def uaddsat(x, y):
    s = t.add(t.zext(x, x.w + 1), t.zext(y, x.w + 1))
    return t.ite(t.extract(s, x.w, x.w), t.const(x.w, -1), t.extract(s, x.w - 1, 0))


def bswap(x):
    return t.concat(t.bytes_of(x))


def lanes(f):
    def h(eng, st, i, a):
        if isinstance(a[0], Vec):
            vs = [v for v in a if isinstance(v, Vec)]
            return Vec(vs[0].ew, eng.vmap(f, *vs))
        w = i.ty[1]
        if any(v is UNDEF for v in a):
            return UNDEF
        if any(isinstance(v, Aff) for v in a):
            vv = [v for v in a if not isinstance(v, Ptr)]
            ints = [eng.toInt(st, v, w) for v in vv]
            ints = [eng.enum_small(st, v) if isinstance(v, Aff) else v for v in ints]
            return fromT(f(*[t.const(w, v) for v in ints]))
        return fromT(f(*[toT(v, w) for v in a]))
    return h


def minmax(kind):
    def h(eng, st, i, a):
        lt = {'u': t.ult, 's': t.slt}[kind[0]]
        f = (lambda x, y: t.ite(lt(x, y), x, y)) if kind[1:] == 'min' else (lambda x, y: t.ite(lt(x, y), y, x))
        if isinstance(a[0], Vec):
            return Vec(a[0].ew, eng.vmap(f, a[0], a[1]))
        w = i.ty[1]
        if any(isinstance(v, Aff) for v in a):
            n = eng.norm_s if kind[0] == 's' else eng.norm_u
            x, y = aff(n(st, eng.toInt(st, a[0], w), w)), aff(n(st, eng.toInt(st, a[1], w), w))
            if eng.decide_ge(st, x - y):
                return x if kind[1:] == 'max' else y
            return y if kind[1:] == 'max' else x
        return fromT(f(toT(a[0], w), toT(a[1], w)))
    return h


def shr_imm(f):
    def h(eng, st, i, a):
        k = a[1]
        if not isinstance(k, int):
            raise Unsupported('variable vector shift')
        return Vec(a[0].ew, eng.vmap(lambda x: t.const(x.w, 0) if k >= x.w and f is not t.ashrc else f(x, k), a[0]))
    return h


def movmsk(eng, st, i, a):
    v = a[0]
    known(v)
    bits = [t.extract(e, v.ew - 1, v.ew - 1) for e in reversed(v.e)]
    r = t.concat(bits)
    return fromT(t.zext(r, 32))


def ptest(kind):
    def h(eng, st, i, a):
        x, y = a
        known(x, y)
        if kind == 'z':
            r = t.TRUE
            for p, q in zip(x.e, y.e):
                r = t.and_(r, t.eq(t.and_(p, q), t.const(p.w, 0)))
        else:
            r = t.TRUE
            for p, q in zip(x.e, y.e):
                r = t.and_(r, t.eq(t.and_(t.not_(p), q), t.const(p.w, 0)))
        return fromT(t.zext(r, 32))
    return h


def packus(w):
    def h(eng, st, i, a):
        x, y = a
        known(x, y)
        out = []
        n = 128 // (2 * w)
        for l in range(0, len(x.e), n):
            for v in (x, y):
                for e in v.e[l:l + n]:
                    neg = t.extract(e, 2 * w - 1, 2 * w - 1)
                    big = t.slt(t.const(2 * w, (1 << w) - 1), e)
                    out.append(t.ite(neg, t.const(w, 0), t.ite(big, t.const(w, -1), t.extract(e, w - 1, 0))))
        return Vec(w, out)
    return h


def neon_tbl(n, ext):
    def h(eng, st, i, a):
        fb = None
        if ext:
            fb, a = a[0], a[1:]
        tabs, idx = a[:n], a[n]
        el = []
        for v in tabs:
            el += list(v.e)
        return Vec(8, tbl_lookup(el, idx.e, fb.e if fb else None))
    return h


def tbl_lookup(el, idx, fb=None):
    n = len(el)
    out = []
    allc = all(e is not UNDEF and e.op == 'c' for e in el)
    for j, x in enumerate(idx):
        if x is UNDEF:
            out.append(UNDEF)
            continue
        other = fb[j] if fb else t.const(8, 0)
        if x.op == 'c':
            out.append(el[x.a] if x.a < n else other)
            continue
        if not allc:
            raise Unsupported('table lookup with data table and data index')
        if fb is None:
            out.append(t.tbl(tuple(el[k].a if k < n else 0 for k in range(256)), 8, x))
        else:
            v = t.tbl(tuple(el[k].a if k < n else 0 for k in range(256)), 8, x)
            out.append(t.ite(t.ult(x, t.const(8, n)), v, other) if n < 256 else v)
    return out


def shift_insert(right=None):
    """SLI / SRI: shift the second operand, keep the bits of the first that are not written"""
    def h(eng, st, i, a):
        x, y, k = a
        known(x, y)
        w = x.ew
        ks = k.e if isinstance(k, Vec) else [k] * len(x.e)
        out = []
        for d, s, c in zip(x.e, y.e, ks):
            n = c if isinstance(c, int) else c.a if c is not UNDEF and not isinstance(c, Aff) and c.op == 'c' else None
            if n is None:
                raise Unsupported('shift and insert by an amount that is not constant')
            r = right
            if r is None:
                n = sgn(n, w)
                r, n = n < 0, abs(n)
            if not 0 <= n <= w:
                raise Unsupported('shift and insert out of range')
            if n == 0:
                out.append(s)
            elif n == w:
                out.append(d)
            elif r:
                out.append(t.concat([t.extract(d, w - 1, w - n), t.extract(s, w - 1, n)]))
            else:
                out.append(t.concat([t.extract(s, w - 1 - n, 0), t.extract(d, n - 1, 0)]))
        return Vec(w, out)
    return h


def pairwise(op):
    def h(eng, st, i, a):
        x, y = a
        known(x, y)
        el = list(x.e) + list(y.e)
        out = []
        for k in range(0, len(el), 2):
            p, q = el[k], el[k + 1]
            out.append(t.add(p, q) if op == 'add' else t.ite(t.ult(p, q), q if op == 'umax' else p, p if op == 'umax' else q))
        return Vec(x.ew, out)
    return h


def ldN(n):
    def h(eng, st, i, a):
        vt = i.ty[1][0]
        p = a[0]
        al = a[1] if len(a) > 1 and isinstance(a[1], int) else None
        cnt = vt[1]
        ety = vt[2]
        flat = eng.load(st, p, ('vec', cnt * n, ety), al)
        return [Vec(ety[1], flat.e[k::n]) for k in range(n)]
    return h


def stN(n, pfirst):
    def h(eng, st, i, a):
        if pfirst:
            p, vs = a[0], a[1:1 + n]
            al = a[1 + n] if len(a) > 1 + n else None
        else:
            vs, p = a[:n], a[n]
            al = None
        flat = []
        for k in range(len(vs[0].e)):
            for v in vs:
                flat.append(v.e[k])
        ew = vs[0].ew
        eng.store(st, p, ('vec', len(flat), ('i', ew)), Vec(ew, flat), al)
    return h


def vqmovnu(eng, st, i, a):
    v = a[0]
    w = v.ew // 2
    out = []
    for x in v.e:
        out.append(t.ite(t.eq(t.extract(x, v.ew - 1, w), t.const(w, 0)), t.extract(x, w - 1, 0), t.const(w, -1)))
    return Vec(w, out)


def masklike(x):
    """all bits equal: the maximum of such values is their bitwise or"""
    if x.op == 'c':
        return x.a in (0, t.mask(x.w))
    if x.op == 'ite':
        return masklike(x.a[1]) and masklike(x.a[2])
    if x.op in ('and', 'or', 'xor'):
        return masklike(x.a[0]) and masklike(x.a[1])
    return False


def reduce_(op):
    def h(eng, st, i, a):
        v = a[0]
        known(v)
        if op in ('umax', 'umin'):
            if op == 'umax' and all(masklike(e) for e in v.e):
                r = v.e[0]
                for e in v.e[1:]:
                    r = t.or_(r, e)
                return fromT(t.zext(r, i.ty[1]))
            return UMax(v.ew, v.e, op == 'umin')
        r = v.e[0]
        for e in v.e[1:]:
            r = {'or': t.or_, 'and': t.and_, 'xor': t.xor, 'add': t.add}[op](r, e)
        return fromT(r)
    return h


def fsh(left):
    def h(eng, st, i, a):
        if not isinstance(a[2], int) and not isinstance(a[2], Vec):
            raise Unsupported('variable funnel shift')
        def f(x, y, k, w):
            k %= w
            c = t.concat([x, y])
            return t.extract(c, 2 * w - 1 - k, w - k) if left else t.extract(c, w - 1 + k, k)
        if isinstance(a[0], Vec):
            return Vec(a[0].ew, [f(x, y, k.a, a[0].ew) for x, y, k in zip(a[0].e, a[1].e, a[2].e)])
        w = i.ty[1]
        return fromT(f(toT(a[0], w), toT(a[1], w), a[2], w))
    return h


def bitcount(kind):
    def h(eng, st, i, a):
        w = i.ty[1]
        x = a[0]
        if isinstance(x, int):
            if kind == 'ctpop':
                return bin(x).count('1')
            if kind == 'cttz':
                return (x & -x).bit_length() - 1 if x else w
            return w - x.bit_length()
        if not isinstance(x, t.T):
            raise Unsupported(kind + ' of a length')
        if kind == 'ctpop':
            r = t.const(w, 0)
            for k in range(w):
                r = t.add(r, t.zext(t.extract(x, k, k), w))
            return fromT(r)
        r = t.const(w, w)
        order = range(w - 1, -1, -1) if kind == 'cttz' else range(w)
        for k in order:
            r = t.ite(t.extract(x, k, k), t.const(w, k if kind == 'cttz' else w - 1 - k), r)
        return fromT(r)
    return h


def nop(eng, st, i, a):
    return None


def assume(eng, st, i, a):
    # clang's own assumption: only a hint here; it is an obligation
    eng.ob(st, 'ub', 'assumption holds', lambda: a[0] == 1)


def h_memcpy(eng, st, i, a):
    eng.memcpy(st, a[0], a[1], a[2])


def h_memset(eng, st, i, a):
    eng.memset(st, a[0], a[1], a[2])


INTR = {
    'llvm.lifetime.*': nop, 'llvm.dbg.*': nop, 'llvm.donothing': nop, 'llvm.assume': assume, 'llvm.prefetch*': nop,
    'llvm.experimental.noalias*': nop, 'llvm.stacksave*': nop, 'llvm.stackrestore*': nop, 'llvm.va_end*': nop,
    'llvm.expect.*': lambda e, s, i, a: a[0],
    'llvm.memcpy.*': h_memcpy, 'llvm.memmove.*': h_memcpy, 'llvm.memset.*': h_memset,
    'llvm.bswap.*': lanes(bswap),
    'llvm.usub.sat.*': lanes(usubsat), 'llvm.uadd.sat.*': lanes(uaddsat),
    'llvm.aarch64.neon.umin.*': minmax('umin'), 'llvm.aarch64.neon.umax.*': minmax('umax'), 'llvm.aarch64.neon.smin.*': minmax('smin'), 'llvm.aarch64.neon.smax.*': minmax('smax'),
    'llvm.arm.neon.vminu.*': minmax('umin'), 'llvm.arm.neon.vmaxu.*': minmax('umax'), 'llvm.arm.neon.vmins.*': minmax('smin'), 'llvm.arm.neon.vmaxs.*': minmax('smax'),
    'llvm.umin.*': minmax('umin'), 'llvm.umax.*': minmax('umax'), 'llvm.smin.*': minmax('smin'), 'llvm.smax.*': minmax('smax'),
    'llvm.fshl.*': fsh(True), 'llvm.fshr.*': fsh(False),
    'llvm.ctpop.*': bitcount('ctpop'), 'llvm.cttz.*': bitcount('cttz'), 'llvm.ctlz.*': bitcount('ctlz'),
    'llvm.vector.reduce.or.*': reduce_('or'), 'llvm.vector.reduce.and.*': reduce_('and'),
    'llvm.vector.reduce.umax.*': reduce_('umax'),
    'llvm.x86.ssse3.pshuf.b.128': lambda e, s, i, a: pshufb(a[0], a[1]),
    'llvm.x86.avx2.pshuf.b': lambda e, s, i, a: pshufb(a[0], a[1]),
    'llvm.x86.avx512.pshuf.b.512': lambda e, s, i, a: pshufb(a[0], a[1]),
    'llvm.x86.ssse3.pmadd.ub.sw.128': lambda e, s, i, a: maddubs(a[0], a[1]),
    'llvm.x86.avx2.pmadd.ub.sw': lambda e, s, i, a: maddubs(a[0], a[1]),
    'llvm.x86.avx512.pmaddubs.w.512': lambda e, s, i, a: maddubs(a[0], a[1]),
    'llvm.x86.sse2.pmadd.wd': lambda e, s, i, a: maddwd(a[0], a[1]),
    'llvm.x86.avx2.pmadd.wd': lambda e, s, i, a: maddwd(a[0], a[1]),
    'llvm.x86.avx512.pmaddw.d.512': lambda e, s, i, a: maddwd(a[0], a[1]),
    'llvm.x86.sse2.pmulhu.w': lambda e, s, i, a: mulhu(a[0], a[1]),
    'llvm.x86.avx2.pmulhu.w': lambda e, s, i, a: mulhu(a[0], a[1]),
    'llvm.x86.avx512.pmultishift.qb.512': lambda e, s, i, a: multishift(a[0], a[1]),
    'llvm.x86.avx512.permvar.qi.512': lambda e, s, i, a: perm(a[0], a[1]),
    'llvm.x86.avx2.permd': lambda e, s, i, a: perm(a[0], a[1]),
    'llvm.x86.sse2.pmovmskb.128': movmsk, 'llvm.x86.avx2.pmovmskb': movmsk,
    'llvm.x86.avx.ptestz.256': ptest('z'), 'llvm.x86.sse41.ptestz': ptest('z'),
    'llvm.x86.avx.ptestc.256': ptest('c'), 'llvm.x86.sse41.ptestc': ptest('c'),
    'llvm.x86.sse2.psrli.*': shr_imm(t.lshrc), 'llvm.x86.avx2.psrli.*': shr_imm(t.lshrc), 'llvm.x86.avx512.psrli.*': shr_imm(t.lshrc),
    'llvm.x86.sse2.pslli.*': shr_imm(t.shlc), 'llvm.x86.avx2.pslli.*': shr_imm(t.shlc), 'llvm.x86.avx512.pslli.*': shr_imm(t.shlc),
    'llvm.x86.sse2.psrai.*': shr_imm(t.ashrc), 'llvm.x86.avx2.psrai.*': shr_imm(t.ashrc),
    'llvm.x86.sse2.packuswb.128': packus(8), 'llvm.x86.avx2.packuswb': packus(8),
    'llvm.aarch64.neon.umaxv.*': reduce_('umax'),
    'llvm.aarch64.neon.uminv.*': reduce_('umin'), 'llvm.vector.reduce.umin.*': reduce_('umin'),
    'llvm.aarch64.neon.vsli.*': shift_insert(False), 'llvm.aarch64.neon.vsri.*': shift_insert(True),
    'llvm.arm.neon.vshiftins.*': shift_insert(None),
    'llvm.aarch64.neon.umaxp.*': pairwise('umax'), 'llvm.aarch64.neon.uminp.*': pairwise('umin'), 'llvm.aarch64.neon.addp.*': pairwise('add'),
    'llvm.arm.neon.vpmaxu.*': pairwise('umax'), 'llvm.arm.neon.vpminu.*': pairwise('umin'), 'llvm.arm.neon.vpadd.*': pairwise('add'),
    'llvm.aarch64.neon.uqsub.*': lanes(usubsat), 'llvm.aarch64.neon.uqadd.*': lanes(uaddsat),
    'llvm.arm.neon.vtbl1': neon_tbl(1, False), 'llvm.arm.neon.vtbl2': neon_tbl(2, False),
    'llvm.arm.neon.vtbl3': neon_tbl(3, False), 'llvm.arm.neon.vtbl4': neon_tbl(4, False),
    'llvm.arm.neon.vtbx1': neon_tbl(1, True), 'llvm.arm.neon.vtbx2': neon_tbl(2, True),
    'llvm.arm.neon.vqmovnu.*': vqmovnu, 'llvm.aarch64.neon.uqxtn.*': vqmovnu,
    'llvm.arm.neon.vst1.*': stN(1, True), 'llvm.arm.neon.vst2.*': stN(2, True), 'llvm.arm.neon.vst3.*': stN(3, True),
    'llvm.arm.neon.vst4.*': stN(4, True),
    'llvm.arm.neon.vld2.*': ldN(2), 'llvm.arm.neon.vld3.*': ldN(3), 'llvm.arm.neon.vld4.*': ldN(4),
    'llvm.aarch64.neon.ld2.*': ldN(2), 'llvm.aarch64.neon.ld3.*': ldN(3), 'llvm.aarch64.neon.ld4.*': ldN(4),
    'llvm.aarch64.neon.ld1x2.*': None, 'llvm.aarch64.neon.st2.*': stN(2, False), 'llvm.aarch64.neon.st3.*': stN(3, False),
    'llvm.aarch64.neon.st4.*': stN(4, False),
    'llvm.arm.neon.vld1.*': lambda e, s, i, a: e.load(s, a[0], i.ty, a[1] if len(a) > 1 else None),
}
for _n in (1, 2, 3, 4):
    INTR['llvm.aarch64.neon.tbl%d.*' % _n] = neon_tbl(_n, False)
    INTR['llvm.aarch64.neon.tbx%d.*' % _n] = neon_tbl(_n, True)


def _ld1x(n):
    def h(eng, st, i, a):
        vt = i.ty[1][0]
        flat = eng.load(st, a[0], ('vec', vt[1] * n, vt[2]))
        return [Vec(vt[2][1], flat.e[k * vt[1]:(k + 1) * vt[1]]) for k in range(n)]
    return h


for _n in (2, 3, 4):
    INTR['llvm.aarch64.neon.ld1x%d.*' % _n] = _ld1x(_n)
