"""Contracts of the stream codecs: base64_stream_encode_<codec> and base64_stream_decode_<codec>.

Ghost view.  `b` is the number of bytes (characters) already consumed of the current group, so the
chunk occupies positions [b, N) of a virtual stream whose group boundaries are multiples of 3 (4).
src offsets are numbered from b, out offsets from E(b) (D(b)), hence the specification of each
output position is the same formula for every chunk.  `$w`: all output below it is final and
correct.  `$L` (decoding): all characters below it are in the alphabet."""
import z3
from . import terms as t
from .lia import Aff, aff, PC, fresh
from .exec import State, Ptr, Fn, Region, Fork, Unsupported, UNDEF, PathEnd, Vec

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
ENC = tuple(ALPHA)
DECT = tuple(ALPHA.index(c) if c in ALPHA else 0 for c in range(256))
ALPHASET = frozenset(ALPHA)
ALPHAT = tuple(sorted(ALPHA))
ISALPHA = tuple(1 if c in ALPHASET else 0 for c in range(256))
PAD = 61


class Codec:
    """common part"""
    def __init__(self, mod, layout, eofs=(1, 2)):
        self.mod = mod
        self.lay = layout
        self.AEOF, self.EOF = eofs
        self.sbcache = {}
        self.spcache = {}
        self.MAX = (1 << (mod.ptrbits - 1)) - 1

    def regions(self, eng):
        self.src = Region('src', 'src', goals=self.srcgoals, ro=True)
        self.out = Region('out', 'out', goals=self.outgoals)
        self.state = Region('state', 'cell', self.lay['size'], 8)
        self.outlen = Region('outlen', 'cell', self.mod.ptrbits // 8, self.mod.ptrbits // 8)
        for r in (self.src, self.out, self.state, self.outlen):
            eng.regions[r.name] = r

    def srcgoals(self, st, off, n, wr):
        return [off - aff(st.env['$b']), Aff.sym('N') - off - n]

    def bounds(self, eng):
        return [('N', Aff.sym('N'))]

    def extra_candidates(self, eng, comps, comp0):
        if not hasattr(self, 'capleft'):
            return
        for k, x in comps.items():
            if isinstance(comp0.get(k), Ptr) and comp0[k].reg is self.out:
                yield ('cap', k), self.capleft(x)
        return

    # hooks that these functions do not need
    def call(self, eng, st, i, name, args):
        raise Unsupported('call of %s' % name)

    def icall(self, eng, st, i, f, args):
        raise Unsupported('indirect call')

    def load(self, eng, st, p, ty, n):
        if p.reg.kind == 'global':
            eng.ob(st, 'frame', 'no dependence on mutable global %s' % p.reg.name, False)
            return eng.havoc(ty, p.reg.name)
        raise Unsupported('load from %s' % p.reg.name)

    def store(self, eng, st, p, ty, v, n):
        if p.reg.kind == 'global':
            eng.ob(st, 'frame', 'no write to global %s' % p.reg.name, False)
            return
        raise Unsupported('store to %s' % p.reg.name)

    def memcpy(self, eng, st, d, s, n):
        raise Unsupported('copy of a variable amount')

    def memset(self, eng, st, d, c, n):
        raise Unsupported('fill of a variable amount')

    # ---- frontier
    def canon(self, eng, st):
        """rewrite byte variables whose position is now known under another name"""
        sub = st.pc.sub
        if not sub:
            return
        ren = {}

        def look(x):
            for v in x.sup:
                k = v.a[0]
                if k[0] == 's' and v not in ren and any(s in sub for s, _ in k[1][1]):
                    a = st.pc.norm(Aff(k[1][0], dict(k[1][1])))
                    ren[v] = t.var(8, ('s', a.key()))
        for _, b in st.stores:
            if isinstance(b, t.T):
                look(b)
        for v in st.allowed:
            look(v)
        for f in st.bfacts:
            look(f)
        for r, c in st.mem.items():
            for o, (n, v) in c.items():
                if isinstance(v, t.T):
                    look(v)
        for k, v in st.env.items():
            if isinstance(v, t.T):
                look(v)
        ren = {a: b for a, b in ren.items() if a is not b}
        if not ren:
            return
        memo = {}

        def sb(x):
            if not isinstance(x, t.T) or ren.keys().isdisjoint(x.sup):
                return x
            k = (x, tuple((v, ren[v]) for v in sorted(x.sup, key=lambda v: v.id) if v in ren))
            r = self.sbcache.get(k)
            if r is None:
                r = self.sbcache[k] = t.subst(x, ren, memo)
            return r
        st.stores = [(o, sb(b)) for o, b in st.stores]
        al = {}
        for v, d in st.allowed.items():
            n = ren.get(v, v)
            if n in al:
                d = tuple(x for x in d if x in set(al[n]))
            al[n] = d
        st.allowed = al
        if any(not d for d in al.values()):
            raise PathEnd()
        st.bfacts = tuple(sb(f) for f in st.bfacts)
        for r in st.mem:
            st.mem[r] = {o: (n, fromT_(sb(v))) for o, (n, v) in st.mem[r].items()}
        for k in list(st.env):
            if isinstance(st.env[k], t.T):
                st.env[k] = fromT_(sb(st.env[k]))

    def advance(self, eng, st):
        """largest frontier justified by the stores of this segment; also checks overwrites"""
        w = st.pc.norm(aff(st.env['$w']))
        last = {}
        for o, b in st.stores:
            d = st.pc.norm(o - w)
            if not d.isc():
                if eng.ge(st, d):
                    # somewhere above the frontier: not usable, but harmless unless it hits final data
                    last['sym'] = min(last.get('sym', 1 << 30), 0)
                    continue
                st.ext['lost'] = 'store at %r, frontier %r' % (o, w)
                last['sym'] = min(last.get('sym', 1 << 30), -1)
                continue
            last[d.c] = b
        k = 0
        if 'sym' not in last:
            while k in last:
                if not self.correct(eng, st, w + k, last[k]):
                    break
                k += 1
        neg = [d for d in last if d != 'sym' and d < 0]
        bad = [d for d in neg if not self.correct(eng, st, w + d, last[d])]
        if last.get('sym', 0) < 0:
            bad.append('unknown position')
        return w, k, last, bad

    def correct(self, eng, st, k, b):
        if b is UNDEF or not isinstance(b, t.T):
            return False
        # the specification term depends on nothing but the position and (decoding) the byte facts
        kk = None
        if not st.allowed:
            kk = st.pc.norm(k).key()
            s = self.spcache.get(kk)
            if s is None:
                s = self.spcache[kk] = self.spec(eng, st, k)
        else:
            s = self.spec(eng, st, k)
        if s is None:
            return False
        return b is s or eng.valid(st, t.eq(b, s)) is True

    def segment_end(self, eng, st):
        self.canon(eng, st)
        self.pre_segment(eng, st)
        if not st.stores:
            return
        w, k, last, bad = self.advance(eng, st)
        if bad:
            eng.ob(st, 'content', 'output already final is not overwritten (offset %s)' % bad[0], False, backend='bv')
        # where the code's own output pointer says the output ends
        best = None
        for n in eng.live[st.block]:
            v = st.env.get(n)
            if isinstance(v, Ptr) and v.reg is self.out and not v.idx:
                d = st.pc.norm(aff(v.off) - w)
                if d.isc() and 0 <= d.c <= k and (best is None or d.c > best):
                    best = d.c
                elif d.isc() and d.c > k and k in last:
                    st.ext['mismatch'] = 'output position %r holds %r, contract says %r' % (
                        w + k, last[k], self.spec(eng, st, w + k))
        st.env['$w'] = fromA(w + (best if best is not None else k))
        st.stores = []
        if not eng.quiet:
            eng.nbytes = getattr(eng, 'nbytes', 0) + k

    def pre_segment(self, eng, st):
        pass

    def final_content(self, eng, st, need, kind='content'):
        """all output below virtual offset `need` is correct"""
        w, k, last, bad = self.advance(eng, st)
        lost = last.get('sym', 0) < 0
        bad = [d for d in bad if d == 'unknown position' or eng.ge(st, need - (w + d) - 1) or True]
        ok = not bad and eng.ge(st, w + k - need)

        def detail():
            if bad:
                return 'final output overwritten at %s' % bad
            x = 'correct up to virtual offset %r, needed up to %r' % (w + k, need)
            if k in last:
                x += '; there: stored %r, contract %r' % (last[k], self.spec(eng, st, w + k))
            if 'mismatch' in st.ext:
                x += '; ' + st.ext['mismatch']
            return x
        eng.ob(st, kind, 'every output byte equals the specification', ok, detail, backend='bv')

    def divides(self, eng, st, a, m):
        a = st.pc.norm(aff(a))
        if a.c % m == 0 and all(k % m == 0 for k in a.m.values()):
            return True
        return eng.lia.prove_z3(st.pc, eng.lia.z(a) % m == 0)

    def cell(self, eng, st, name):
        o = self.lay[name]
        n = 1 if name == 'carry' else 4
        return self.cellvalue(st, 'state', o, n)

    def cellvalue(self, st, reg, o, n):
        """what a field holds, whatever the width of the stores that set it"""
        m = st.mem.get(reg, {})
        c = m.get(o)
        if c is not None and c[0] == n:
            return c[1]
        bs = self.verifier.cellbytes(m, o, n)
        return UNDEF if bs is None else self.verifier.frombytes(('i', 8 * n), bs)

    def newstate(self, eng):
        st = State()
        st.block = eng.fn.entry
        for n in ('null',):
            pass
        for r in ('state', 'outlen'):
            st.mem[r] = {}
        if not hasattr(self, 'rootpc'):
            self.rootpc = st.pc.decl('N').ge(Aff.sym('N')).ge(self.limit() - Aff.sym('N'))
        st.pc = self.rootpc
        return st

    def limit(self):
        """chunk and output sizes are those of objects: at most PTRDIFF_MAX"""
        return self.MAX // 4 * 3 if self.kind == 'enc' else self.MAX - 8

    def setparams(self, eng, st, b, base):
        ps = [n for _, n in eng.fn.params]
        if len(ps) != 5:
            raise Unsupported('codec signature')
        n = Aff.sym('N') - b
        st.env[ps[0]] = Ptr(self.state)
        st.env[ps[1]] = Ptr(self.src, b)
        st.env[ps[2]] = st.pc.norm(n)
        st.env[ps[3]] = Ptr(self.out, base)
        st.env[ps[4]] = Ptr(self.outlen)
        st.env['$b'] = b
        st.env['$base'] = base
        st.env['$w'] = base

    def getoutlen(self, st):
        return self.cellvalue(st, 'outlen', 0, self.mod.ptrbits // 8)

    def intval(self, eng, st, v, w, signed=True):
        """concrete-or-affine integer, or None"""
        if v is UNDEF:
            return None
        v = eng.toInt(st, v, w)
        v = eng.norm_s(st, v, w) if signed else eng.norm_u(st, v, w)
        if isinstance(v, Aff):
            v = st.pc.norm(v)
            if v.isc():
                v = v.c
        return v

    def small(self, eng, st, v, w):
        """force a concrete value"""
        v = self.intval(eng, st, v, w)
        if isinstance(v, Aff):
            try:
                v = eng.enum_small(st, v)
            except Unsupported:
                return None
        return v


def fromT_(x):
    return x.a if isinstance(x, t.T) and x.op == 'c' else x


def fromA(a):
    return a.c if a.isc() else a


class Encode(Codec):
    kind = 'enc'

    def outgoals(self, st, off, n, wr):
        return [off - aff(st.env['$base']), self.capleft(off + n)]

    def capleft(self, x):
        # x <= floor(4N/3)
        return Aff(0, {'N': 4}) - 3 * aff(x)

    def starts(self, eng):
        self.regions(eng)
        out = []
        for b in (0, 1, 2):
            st = self.newstate(eng)
            N = Aff.sym('N')
            st.pc = st.pc.ge(N - b)
            L = self.lay
            st.mem['state'][L['eof']] = (4, t.var(32, ('st', 'eof')))
            st.mem['state'][L['bytes']] = (4, b)
            st.mem['state'][L['flags']] = (4, t.var(32, ('st', 'flags')))
            st.mem['state'][L['carry']] = (1, self.carry(b, Aff(b)) if b else t.var(8, ('st', 'carry')))
            self.setparams(eng, st, b, b)          # E(b) = b for b < 3
            out.append(st)
        return out

    def carry(self, b, pos):
        """carry after the byte at virtual position pos-1, with b = pos mod 3"""
        v = t.var(8, ('s', (aff(pos) - 1).key()))
        if b == 1:
            return t.concat([t.const(2, 0), t.extract(v, 1, 0), t.const(4, 0)])
        return t.concat([t.const(2, 0), t.extract(v, 3, 0), t.const(2, 0)])

    def spec(self, eng, st, k):
        q, r = eng.residue(st, k, 4)
        base = 3 * aff(q)
        v = [t.var(8, ('s', st.pc.norm(base + j).key())) for j in range(3)]
        if r == 0:
            ix = t.extract(v[0], 7, 2)
        elif r == 1:
            ix = t.concat([t.extract(v[0], 1, 0), t.extract(v[1], 7, 4)])
        elif r == 2:
            ix = t.concat([t.extract(v[1], 3, 0), t.extract(v[2], 7, 6)])
        else:
            ix = t.extract(v[2], 5, 0)
        return t.tbl(ENC, 8, ix)

    def exit(self, eng, st, ret):
        if eng.quiet:
            return
        self.canon(eng, st)
        N = Aff.sym('N')
        base = aff(st.env['$base'])
        ol = self.intval(eng, st, self.getoutlen(st), self.mod.ptrbits, False)
        if ol is None:
            eng.ob(st, 'outlen', 'the output length is set', False)
            return
        # E(N) = floor(4N/3)
        e = 4 * N - 3 * (base + aff(ol))
        eng.ob(st, 'outlen', 'outlen = E(b+n) - E(b)', lambda: eng.ge(st, e) and eng.ge(st, 2 - e), lambda: 'outlen %r' % (ol,))
        self.final_content(eng, st, base + aff(ol))
        b = self.small(eng, st, self.cell(eng, st, 'bytes'), 32)
        ok = b is not None and 0 <= b <= 2
        eng.ob(st, 'state', 'bytes in 0..2', ok, lambda: 'bytes %r' % (b,))
        if not ok:
            return
        eng.ob(st, 'state', 'bytes = (b+n) mod 3', lambda: self.divides(eng, st, N - b, 3), lambda: 'bytes %r' % b)
        if b:
            c = self.cell(eng, st, 'carry')
            if isinstance(c, int):
                c = t.const(8, c)
            want = self.carry(b, st.pc.norm(N))
            ok = isinstance(c, t.T) and eng.valid(st, t.eq(c, want)) is True
            eng.ob(st, 'state', 'carry holds the pending bits', ok, lambda: 'carry %r, contract %r' % (c, want), backend='bv')


class Decode(Codec):
    kind = 'dec'

    def outgoals(self, st, off, n, wr):
        return [off - aff(st.env['$base']), self.capleft(off + n)]

    def capleft(self, x):
        return Aff(0, {'N': 3}) - 4 * aff(x)

    def starts(self, eng):
        self.regions(eng)
        out = []
        N = Aff.sym('N')
        L = self.lay
        for b, eof in ((0, 0), (1, 0), (2, 0), (3, 0), (3, self.AEOF), (0, self.EOF)):
            st = self.newstate(eng)
            st.pc = st.pc.ge(N - b)
            st.mem['state'][L['eof']] = (4, eof)
            st.mem['state'][L['bytes']] = (4, b if eof != self.EOF else t.var(32, ('st', 'bytes')))
            st.mem['state'][L['flags']] = (4, t.var(32, ('st', 'flags')))
            if b and eof == 0:
                v = t.var(8, ('s', Aff(b - 1).key()))
                st.allowed[v] = ALPHAT
                st.mem['state'][L['carry']] = (1, self.carry(b, v))
            else:
                st.mem['state'][L['carry']] = (1, t.var(8, ('st', 'carry')))
            self.setparams(eng, st, b, (0, 0, 1, 2)[b])
            st.env['$L'] = b
            st.ext['eof0'] = eof
            out.append(st)
        return out

    def q(self, v):
        return t.tbl(tuple(DECT), 6, v)

    def carry(self, b, v):
        q = self.q(v)
        if b == 1:
            return t.concat([q, t.const(2, 0)])
        if b == 2:
            return t.concat([t.extract(q, 3, 0), t.const(4, 0)])
        return t.concat([t.extract(q, 1, 0), t.const(6, 0)])

    def isalpha(self, eng, st, v):
        d = st.allowed.get(v)
        return d is not None and all(ISALPHA[c] for c in d)

    def spec(self, eng, st, k):
        q, r = eng.residue(st, k, 3)
        base = 4 * aff(q) + r
        v = [t.var(8, ('s', st.pc.norm(base + j).key())) for j in range(2)]
        if not all(self.isalpha(eng, st, x) for x in v):
            return None
        a, b = self.q(v[0]), self.q(v[1])
        if r == 0:
            return t.concat([a, t.extract(b, 5, 4)])
        if r == 1:
            return t.concat([t.extract(a, 3, 0), t.extract(b, 5, 2)])
        return t.concat([t.extract(a, 1, 0), b])

    def advL(self, eng, st):
        L = st.pc.norm(aff(st.env['$L']))
        k = 0
        while self.isalpha(eng, st, t.var(8, ('s', (L + k).key()))):
            k += 1
        return L, k

    def pre_segment(self, eng, st):
        L, k = self.advL(eng, st)
        if not k:
            return
        best = None
        for n in eng.live[st.block]:
            v = st.env.get(n)
            if isinstance(v, Ptr) and v.reg is self.src and not v.idx:
                d = st.pc.norm(aff(v.off) - L)
                if d.isc() and 0 <= d.c <= k and (best is None or d.c > best):
                    best = d.c
        st.env['$L'] = fromA(L + (best if best is not None else k))

    def bounds(self, eng):
        return [('N', Aff.sym('N'))]

    def classify(self, eng, st, v):
        """'alpha', 'pad' or 'other' for a byte, splitting cases"""
        d = st.allowed.get(v)
        if d is None:
            d = range(256)
        a = any(ISALPHA[c] for c in d)
        p = PAD in d
        o = any(not ISALPHA[c] and c != PAD for c in d)
        if a + p + o == 1:
            return 'alpha' if a else 'pad' if p else 'other'
        cls = t.tbl(tuple(1 if ISALPHA[c] else 2 if c == PAD else 0 for c in range(256)), 2, v)
        n = st.ext.get('unread', 0) + 1
        if n > 12:
            eng.ob(st, 'ret', 'all of the text is examined', False, lambda: 'not examined: %r' % (v,))
            raise PathEnd()
        raise Fork([[('bv', t.eq(cls, t.const(2, x)), True), ('do', lambda s: s.ext.__setitem__('unread', n))] for x in (1, 2, 0)])

    def exit(self, eng, st, ret):
        if eng.quiet:
            return
        self.canon(eng, st)
        N = Aff.sym('N')
        base = aff(st.env['$base'])
        w = self.mod.ptrbits
        e0 = st.ext['eof0']
        ol = self.intval(eng, st, self.getoutlen(st), w, False)
        if ol is None:
            eng.ob(st, 'outlen', 'the output length is set', False)
            return
        if e0:
            eng.ob(st, 'outlen', 'no output after the end of the text', lambda: eng.lia.prove_eq(st.pc, aff(ol)))
            if e0 == self.EOF:
                self.expect(eng, st, ret, 0, 'rej-ret', 'return value after the end is 0')
                self.expect(eng, st, self.cell(eng, st, 'eof'), self.EOF, 'rej-state', 'end-of-text is permanent')
                return
            n = N - aff(st.env['$b'])
            if eng.decide_ge(st, n - 1):
                v = t.var(8, ('s', st.pc.norm(aff(st.env['$b'])).key()))
                want = 1 if self.classify(eng, st, v) == 'pad' and not eng.decide_ge(st, n - 2) else 0
                rej = '' if want else 'rej-'
                self.expect(eng, st, ret, want, rej + 'ret', 'second padding character decides')
                self.expect(eng, st, self.cell(eng, st, 'eof'), self.EOF, rej + 'state', 'end of text reached')
                self.expect(eng, st, self.cell(eng, st, 'bytes'), 0, rej + 'state', 'no character pending at the end')
            else:
                self.expect(eng, st, ret, 0, 'rej-ret', 'empty chunk while padding is pending')
                self.expect(eng, st, self.cell(eng, st, 'eof'), self.AEOF, 'rej-state', 'still waiting for padding')
                self.expect(eng, st, self.cell(eng, st, 'bytes'), 3, 'rej-state', 'still waiting for padding')
            return
        # where does the alphabet prefix end
        L, k = self.advL(eng, st)
        P = st.pc.norm(L + k)
        c2 = None
        r = None
        last = True
        if not eng.decide_ge(st, N - P - 1):
            cls = None
        else:
            cls = self.classify(eng, st, t.var(8, ('s', P.key())))
            if cls == 'pad':
                _, r = eng.residue(st, P, 4)
                if r >= 2:
                    last = not eng.decide_ge(st, N - P - 2)
                    if r == 2 and not last:
                        c2 = self.classify(eng, st, t.var(8, ('s', st.pc.norm(P + 1).key())))
                        c2last = not eng.decide_ge(st, N - P - 3)
        # what the contract demands: return value, eof, bytes
        if cls is None:
            want = (1, 0, None, 'a chunk of alphabet characters is accepted')
        elif cls == 'other':
            want = (0, self.EOF, None, 'an invalid character is rejected')
        elif r < 2:
            want = (0, self.EOF, None, 'padding this early in a group is rejected')
        elif r == 3:
            want = (1 if last else 0, self.EOF, 0, 'single padding must be last')
        elif last:
            want = (1, self.AEOF, 3, 'first of two padding characters accepted')
        else:
            want = (1 if c2 == 'pad' and c2last else 0, self.EOF, 0, 'double padding must be complete and last')
        rej = '' if want[0] else 'rej-'
        e = 3 * P - 4 * (base + aff(ol))
        eng.ob(st, rej + 'outlen', 'outlen = D(b+P) - D(b), P the length of the alphabet prefix',
               lambda: eng.ge(st, e) and eng.ge(st, 3 - e), lambda: 'outlen %r, P %r, N %r' % (ol, P, st.pc.norm(N)))
        self.final_content(eng, st, base + aff(ol), rej + 'content')
        eof = self.cell(eng, st, 'eof')
        byt = self.cell(eng, st, 'bytes')
        self.expect(eng, st, ret, want[0], rej + 'ret', want[3])
        self.expect(eng, st, eof, want[1], rej + 'state', 'end-of-text mark: ' + want[3])
        if want[2] is not None:
            self.expect(eng, st, byt, want[2], rej + 'state', 'pending characters: ' + want[3])
        if cls is None:
            b = self.small(eng, st, byt, 32)
            ok = b is not None and 0 <= b <= 3
            eng.ob(st, 'state', 'bytes in 0..3', ok, lambda: 'bytes %r' % (b,))
            if not ok:
                return
            eng.ob(st, 'state', 'bytes = (b+n) mod 4', lambda: self.divides(eng, st, N - b, 4), lambda: 'bytes %r' % b)
            if b:
                c = self.cell(eng, st, 'carry')
                if isinstance(c, int):
                    c = t.const(8, c)
                want = self.carry(b, t.var(8, ('s', st.pc.norm(N - 1).key())))
                ok = isinstance(c, t.T) and eng.valid(st, t.eq(c, want)) is True
                eng.ob(st, 'state', 'carry holds the pending bits', ok, lambda: 'carry %r, contract %r' % (c, want), backend='bv')

    def expect(self, eng, st, v, want, kind, what):
        if isinstance(v, t.T):
            ok = eng.valid(st, t.eq(v, t.const(v.w, want))) is True
            be = 'bv'
        elif isinstance(v, (int, Aff)):
            x = self.intval(eng, st, v, 32)
            ok = eng.lia.prove_eq(st.pc, aff(x) - want)
            be = 'lia'
        else:
            ok = False
            be = 'lia'
        eng.ob(st, kind, '%s (expected %d)' % (what, want), ok, lambda: 'value %r' % (v,), backend=be)

