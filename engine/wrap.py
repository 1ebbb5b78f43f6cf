"""Contracts of the functions around the codecs (lib/lib.c, lib/codec_choose.c) and of the stubs.

A caller is verified against the contracts of what it calls: `$enc`/`$dec` stand for whatever
encoder/decoder the codec pointer holds (any function that satisfies the codec contract, or a stub),
the API functions and codec_choose for themselves."""
from . import terms as t
from .lia import Aff, aff
from .exec import State, Ptr, Fn, Region, Fork, Unsupported, UNDEF, PathEnd, toT, fromT
from .codec import Codec, ENC, PAD, ALPHA, fromA

FORCE = {'avx2': 0, 'neon32': 1, 'neon64': 2, 'plain': 3, 'ssse3': 4, 'sse41': 5, 'sse42': 6, 'avx': 7, 'avx512': 8}
FORCEMASK = 0x1ff
INITS = ('base64_stream_encode_init', 'base64_stream_decode_init')


class Base(Codec):
    kind = 'lib'

    def limit(self):
        return self.MAX // 4 * 3 - 4

    def segment_end(self, eng, st):
        if st.stores:
            raise Unsupported('direct output inside a loop of a wrapper')

    def newstate(self, eng):
        st = State()
        st.block = eng.fn.entry
        for r in [r.name for r in eng.regions.values() if r.kind == 'cell']:
            st.mem[r] = {}
        if not hasattr(self, 'rootpc'):
            self.rootpc = st.pc.decl('N').ge(Aff.sym('N')).ge(self.limit() - Aff.sym('N'))
        st.pc = self.rootpc
        return st

    def bounds(self, eng):
        return [('N', Aff.sym('N'))]

    # ---- the global codec pointers
    def codecfield(self, p):
        g = getattr(p.reg, 'g', None)
        ty = g.ty if g is not None else None
        if p.reg.kind == 'global' and ty is not None and self.mod.size(ty) == 2 * self.mod.ptrbits // 8 and isinstance(p.off, int) \
                and ty[0] == 'named' and 'codec' in ty[1]:
            return 'enc' if p.off == self.lay['enc'] else 'dec' if p.off == self.lay['dec'] else None
        return None

    def load(self, eng, st, p, ty, n):
        f = self.codecfield(p)
        if f and ty[0] == 'ptr':
            c = st.ext.get('codec')
            if c == 'null':
                return Ptr(eng.nullreg(), 0)
            if c == 'set':
                return Fn('$' + f)
            raise Fork([[('do', lambda s, v=v: s.ext.__setitem__('codec', v))] for v in ('null', 'set')])
        if p.reg.kind == 'global':
            eng.ob(st, 'frame', 'no dependence on mutable global %s' % p.reg.name, False)
            return eng.havoc(ty, p.reg.name)
        raise Unsupported('load from %s' % p.reg.name)

    def store(self, eng, st, p, ty, v, n):
        if p.reg.kind == 'global':
            eng.ob(st, 'frame', 'no write to global %s' % p.reg.name, False)
            return
        raise Unsupported('store to %s' % p.reg.name)

    def sameptr(self, eng, st, p, reg, off):
        return isinstance(p, Ptr) and p.reg is reg and not p.idx and eng.lia.prove_eq(st.pc, aff(p.off) - aff(off))

    def getcell(self, st, p, name, n=4):
        return self.cellvalue(st, p.reg.name, p.off + self.lay[name], n)

    def setcell(self, eng, st, p, name, v, n=4):
        eng.cellstore(st, p.reg, p.off + self.lay[name], n, v)

    def statecell(self, p):
        return isinstance(p, Ptr) and p.reg.kind == 'cell' and not p.idx and isinstance(p.off, int)

    def call(self, eng, st, i, name, args):
        a = [v for _, v in args]
        if name in INITS:
            return self.do_init(eng, st, name, *a)
        if name in ('$enc', 'base64_stream_encode'):
            return self.do_enc(eng, st, name, *a)
        if name in ('$dec', 'base64_stream_decode'):
            return self.do_dec(eng, st, name, *a)
        if name == 'base64_stream_encode_final':
            return self.do_final(eng, st, *a)
        if name == 'codec_choose':
            return self.do_choose(eng, st, *a)
        raise Unsupported('call of %s' % name)

    def icall(self, eng, st, i, f, args):
        if isinstance(f, Ptr) and f.reg.kind == 'null':
            eng.ob(st, 'codec', 'a codec has been chosen before it is used', False)
            raise PathEnd()
        raise Unsupported('indirect call of %r' % (f,))

    def do_choose(self, eng, st, cp, flags):
        raise Unsupported('codec_choose here')

    do_init = do_enc = do_dec = do_final = lambda self, eng, st, *a: (_ for _ in ()).throw(Unsupported('call'))

    def num(self, eng, st, v, w):
        return self.intval(eng, st, v, w, False)


class Init(Base):
    """base64_stream_{encode,decode}_init: a fresh stream; the codec is (re)chosen exactly when it must be"""
    def starts(self, eng):
        ps = [n for _, n in eng.fn.params]
        if len(ps) != 2:
            raise Unsupported('init signature')
        self.state = eng.regions['state'] = Region('state', 'cell', self.lay['size'], 8)
        self.flags = t.var(32, ('flags',))
        out = []
        for c in ('null', 'set'):
            st = self.newstate(eng)
            for n in ('eof', 'bytes', 'flags'):
                st.mem['state'][self.lay[n]] = (4, t.var(32, ('st', n)))
            st.mem['state'][self.lay['carry']] = (1, t.var(8, ('st', 'carry')))
            st.env[ps[0]] = Ptr(self.state)
            st.env[ps[1]] = self.flags
            st.ext['codec'] = st.ext['codec0'] = c
            st.ext['chosen'] = 0
            out.append(st)
        return out

    def do_choose(self, eng, st, cp, flags):
        ok = isinstance(cp, Ptr) and isinstance(cp.off, int) and cp.off == 0 and self.codecfield(Ptr(cp.reg, self.lay['enc'])) is not None
        eng.ob(st, 'codec', 'codec_choose works on the codec pointers of the library', ok)
        if not isinstance(flags, (t.T, int)):
            raise Unsupported('flags')
        m = lambda x: t.and_(toT(x, 32), t.const(32, FORCEMASK))
        eng.ob(st, 'codec', 'codec_choose gets the flags of this call', eng.valid(st, t.eq(m(flags), m(self.flags))) is True, backend='bv')
        st.ext['chosen'] = st.ext['chosen'] + 1
        st.ext['codec'] = 'set'

    def exit(self, eng, st, ret):
        if eng.quiet:
            return
        p = Ptr(self.state)
        for n in ('eof', 'bytes'):
            v = self.getcell(st, p, n)
            eng.ob(st, 'state', 'a fresh stream has %s 0' % n, v is not UNDEF and not isinstance(v, t.T) and self.intval(eng, st, v, 32) == 0, lambda: 'value %r' % (v,))
        forced = t.ne(t.and_(self.flags, t.const(32, FORCEMASK)), t.const(32, 0))
        if st.ext['chosen']:
            if st.ext['codec0'] == 'set':
                eng.ob(st, 'race', 'a chosen codec is only rewritten when a codec is forced',
                       eng.valid(st, t.ne(t.and_(self.flags, t.const(32, 0xffff)), t.const(32, 0))) is True, backend='bv')
        else:
            eng.ob(st, 'codec', 'a codec is chosen on first use', st.ext['codec0'] == 'set')
            eng.ob(st, 'codec', 'a forced codec is always honoured', eng.valid(st, t.not_(forced)) is True, backend='bv')


class StreamEncode(Base):
    """base64_stream_encode: the codec contract itself, for whatever codec is in use"""
    oneshot = False

    def regions(self, eng):
        self.src = Region('src', 'src', goals=lambda st, off, n, wr: [off - aff(st.env['$b']), Aff.sym('N') - off - n], ro=True)
        self.out = Region('out', 'out', goals=self.outgoals)
        self.outlen = Region('outlen', 'cell', self.mod.ptrbits // 8, self.mod.ptrbits // 8)
        for r in (self.src, self.out, self.outlen):
            eng.regions[r.name] = r
        if not self.oneshot:
            self.state = eng.regions['state'] = Region('state', 'cell', self.lay['size'], 8)

    def outgoals(self, st, off, n, wr):
        q, r = self.eng.residue(st, Aff.sym('N') + (2 if self.oneshot else 0), 3)
        cap = 4 * aff(q) + (0 if self.oneshot else r)
        return [off - aff(st.env['$base']), cap - off - n]

    def starts(self, eng):
        self.eng = eng
        self.regions(eng)
        ps = [n for _, n in eng.fn.params]
        if len(ps) != 5:
            raise Unsupported('signature')
        out = []
        for b, stub in ((0, 0), (0, 1)) if self.oneshot else ((0, 0), (1, 0), (2, 0), (0, 1)):
            st = self.newstate(eng)
            st.pc = st.pc.ge(Aff.sym('N') - b)
            k = 0
            if not self.oneshot:
                st.env[ps[0]] = Ptr(self.state)
                k = 1
                for n in ('eof', 'flags'):
                    st.mem['state'][self.lay[n]] = (4, t.var(32, ('st', n)))
                st.mem['state'][self.lay['bytes']] = (4, b if not stub else t.var(32, ('st', 'bytes')))
                st.mem['state'][self.lay['carry']] = (1, t.var(8, ('st', 'carry')))
                st.ext['codec'] = 'set'
                st.ext['init'] = True
            st.env[ps[k]] = Ptr(self.src, b)
            st.env[ps[k + 1]] = st.pc.norm(Aff.sym('N') - b)
            st.env[ps[k + 2]] = Ptr(self.out, b)
            st.env[ps[k + 3]] = Ptr(self.outlen)
            if self.oneshot:
                self.flags = t.var(32, ('flags',))
                st.env[ps[4]] = self.flags
            st.env.update({'$b': b, '$base': b, '$w': b, '$pos': b})
            st.ext['stub'] = stub
            st.ext['mem0'] = None if self.oneshot else tuple(sorted((o, v[0], str(v[1])) for o, v in st.mem['state'].items()))
            out.append(st)
        return out

    def do_init(self, eng, st, name, sp, flags):
        if not self.statecell(sp):
            raise Unsupported('state pointer')
        if not self.oneshot:
            eng.ob(st, 'state', 'the stream is not reset', False)
            raise PathEnd()
        eng.ob(st, 'call', 'the codec is initialised once, before any data', not st.ext.get('init'))
        eng.ob(st, 'codec', 'the flags of this call reach the codec choice', isinstance(flags, t.T) and
               eng.valid(st, t.eq(t.and_(flags, t.const(32, FORCEMASK)), t.and_(self.flags, t.const(32, FORCEMASK)))) is True, backend='bv')
        st.ext['init'] = True
        st.ext['codec'] = 'set'
        for n in ('eof', 'bytes'):
            self.setcell(eng, st, sp, n, 0)
        self.setcell(eng, st, sp, 'carry', t.var(8, ('init', 'carry')), 1)

    def do_enc(self, eng, st, name, sp, src, n, out, olp):
        if not self.statecell(sp) or not self.statecell(olp):
            raise Unsupported('call arguments')
        eng.ob(st, 'call', 'the stream is initialised', bool(st.ext.get('init')))
        pos = aff(st.env['$pos'])
        w = aff(st.env['$w'])
        if not st.ext['stub']:
            b = self.getcell(st, sp, 'bytes')
            bb = self.small(eng, st, b, 32) if b is not UNDEF else None
            eng.ob(st, 'call', 'the stream state is passed on', bb is not None and 0 <= bb < 3 and self.divides(eng, st, pos - bb, 3))
            if bb:
                eng.ob(st, 'call', 'the carry is passed on', self.carryok(eng, st, sp))
        elif not self.oneshot:
            eng.ob(st, 'call', 'the stream state is passed on', sp.reg is self.state and sp.off == 0)
        eng.ob(st, 'call', 'the codec reads on where the stream stands', lambda: self.sameptr(eng, st, src, self.src, pos), lambda: 'src %r' % (src,))
        eng.ob(st, 'call', 'the codec writes on where the stream stands', lambda: self.sameptr(eng, st, out, self.out, w), lambda: 'out %r' % (out,))
        n = aff(self.num(eng, st, n, self.mod.ptrbits))
        k = st.pc.norm(pos + n)
        eng.ob(st, 'read-bounds', 'the length passed on stays inside the source', lambda: eng.ge(st, Aff.sym('N') - k))
        ol = self.mod.ptrbits // 8
        if st.ext['stub']:
            eng.cellrange(st, olp.reg, olp.off, ol, True)
            eng.cellstore(st, olp.reg, olp.off, ol, 0)
            st.ext['called'] = True
            return
        q, r = eng.residue(st, k, 3)
        e = st.pc.norm(4 * aff(q) + r)
        if not eng.cellrange(st, olp.reg, olp.off, ol, True):
            raise PathEnd()
        eng.cellstore(st, olp.reg, olp.off, ol, fromA(st.pc.norm(e - w)))
        self.setcell(eng, st, sp, 'bytes', r)
        self.setcell(eng, st, sp, 'carry', t.var(8, ('carry', k.key())), 1)
        st.env['$pos'] = fromA(k)
        st.env['$w'] = fromA(e)
        st.ext['sp'] = (sp.reg.name, sp.off)

    def carryok(self, eng, st, sp):
        """the carry in the state at sp is that of the input consumed so far"""
        c = self.getcell(st, sp, 'carry', 1)
        pos = st.pc.norm(aff(st.env['$pos']))
        want = [t.var(8, ('carry', pos.key()))]
        if not self.oneshot and eng.lia.prove_eq(st.pc, pos - aff(st.env['$b'])):
            want.append(t.var(8, ('st', 'carry')))
        return c is not UNDEF and any(c is x for x in want)

    def do_final(self, eng, st, sp, out, olp):
        if not self.oneshot or not self.statecell(sp) or not self.statecell(olp):
            raise Unsupported('final')
        b = self.small(eng, st, self.getcell(st, sp, 'bytes'), 32)
        if st.ext['stub']:
            eng.ob(st, 'stub', 'the state of an untouched stream is passed on', b == 0)
            eng.cellrange(st, olp.reg, olp.off, self.mod.ptrbits // 8, True)
            eng.cellstore(st, olp.reg, olp.off, self.mod.ptrbits // 8, 0)
            return
        eng.ob(st, 'call', 'the stream is finished once, after all data', not st.ext.get('final') and st.ext.get('sp') == (sp.reg.name, sp.off) and
               eng.lia.prove_eq(st.pc, Aff.sym('N') - aff(st.env['$pos'])) and b is not None)
        eng.ob(st, 'call', 'the trailer is written after the body', lambda: self.sameptr(eng, st, out, self.out, st.env['$w']), lambda: 'out %r' % (out,))
        if b:
            eng.ob(st, 'call', 'the carry is passed on to the trailer', self.carryok(eng, st, sp))
        n = {0: 0, 1: 3, 2: 2}.get(b, 0)
        ol = self.mod.ptrbits // 8
        if not eng.cellrange(st, olp.reg, olp.off, ol, True):
            raise PathEnd()
        eng.cellstore(st, olp.reg, olp.off, ol, n)
        st.env['$w'] = fromA(st.pc.norm(aff(st.env['$w']) + n))
        st.ext['final'] = True

    def exit(self, eng, st, ret):
        if eng.quiet:
            return
        if st.stores:
            raise Unsupported('direct output')
        ol = self.num(eng, st, self.getoutlen(st), self.mod.ptrbits) if self.getoutlen(st) is not UNDEF else None
        if ol is None:
            eng.ob(st, 'outlen', 'the output length is set', False)
            return
        if st.ext['stub']:
            eng.ob(st, 'stub', 'an absent codec reports no output', lambda: eng.lia.prove_eq(st.pc, aff(ol)))
            if not self.oneshot:
                eng.ob(st, 'stub', 'an absent codec leaves the state alone',
                       st.ext['mem0'] == tuple(sorted((o, v[0], str(v[1])) for o, v in st.mem['state'].items())))
            return
        eng.ob(st, 'content', 'all input is encoded', lambda: eng.lia.prove_eq(st.pc, Aff.sym('N') - aff(st.env['$pos'])))
        eng.ob(st, 'outlen', 'the output length counts all that was written',
               lambda: eng.lia.prove_eq(st.pc, aff(st.env['$w']) - aff(st.env['$base']) - aff(ol)), lambda: 'outlen %r' % (ol,))
        if self.oneshot:
            eng.ob(st, 'content', 'the trailer is written', bool(st.ext.get('final')))
            q, r = eng.residue(st, Aff.sym('N') + 2, 3)
            eng.ob(st, 'outlen', 'outlen = 4*ceil(n/3)', lambda: eng.lia.prove_eq(st.pc, aff(ol) - 4 * aff(q)), lambda: 'outlen %r' % (ol,))
        else:
            p = Ptr(self.state)
            k = st.pc.norm(aff(st.env['$pos']))
            b = self.small(eng, st, self.getcell(st, p, 'bytes'), 32)
            eng.ob(st, 'state', 'bytes = (b+n) mod 3', b is not None and 0 <= b < 3 and self.divides(eng, st, Aff.sym('N') - b, 3))
            if b:
                eng.ob(st, 'state', 'the carry is that of the codec', self.carryok(eng, st, p))


class EncodeOneShot(StreamEncode):
    oneshot = True


class EncodeFinal(Base):
    """base64_stream_encode_final: the trailer for the pending bytes"""
    def starts(self, eng):
        ps = [n for _, n in eng.fn.params]
        if len(ps) != 3:
            raise Unsupported('signature')
        out = []
        self.state = eng.regions['state'] = Region('state', 'cell', self.lay['size'], 8)
        self.outlen = eng.regions['outlen'] = Region('outlen', 'cell', self.mod.ptrbits // 8, self.mod.ptrbits // 8)
        self.out = eng.regions['out'] = Region('out', 'out', goals=lambda st, off, n, wr: [aff(off), (0, 3, 2)[st.ext['b']] - off - n])
        for b in (0, 1, 2):
            st = self.newstate(eng)
            for n in ('eof', 'flags'):
                st.mem['state'][self.lay[n]] = (4, t.var(32, ('st', n)))
            st.mem['state'][self.lay['bytes']] = (4, b)
            c = t.var(8, ('st', 'carry'))
            if b:
                # the carry of 1 pending byte has 4, of 2 pending bytes 2 low zero bits
                z = 4 if b == 1 else 2
                c = t.concat([t.const(2, 0), t.extract(t.var(8, ('st', 'carrybits')), 5 - z, 0), t.const(z, 0)])
            st.mem['state'][self.lay['carry']] = (1, c)
            st.env[ps[0]] = Ptr(self.state)
            st.env[ps[1]] = Ptr(self.out)
            st.env[ps[2]] = Ptr(self.outlen)
            st.env['$base'] = st.env['$w'] = 0
            st.ext['b'] = b
            st.ext['mem0'] = dict(st.mem['state'])
            out.append(st)
        return out

    def exit(self, eng, st, ret):
        if eng.quiet:
            return
        b = st.ext['b']
        c = st.ext['mem0'][self.lay['carry']][1]
        want = [] if b == 0 else [t.tbl(ENC, 8, t.extract(c, 5, 0))] + [t.const(8, PAD)] * (3 - b)
        v = self.getoutlen(st)
        ol = self.num(eng, st, v, self.mod.ptrbits) if v is not UNDEF else None
        eng.ob(st, 'outlen', 'the trailer of %d pending bytes has %d characters' % (b, len(want)), ol == len(want), lambda: 'outlen %r' % (ol,))
        last = {}
        for o, x in st.stores:
            last[st.pc.norm(o).c if st.pc.norm(o).isc() else None] = x
        for j, x in enumerate(want):
            g = last.get(j, UNDEF)
            ok = isinstance(g, t.T) and eng.valid(st, t.eq(g, x)) is True
            eng.ob(st, 'content', 'trailer character %d' % j, ok, lambda: 'stored %r, contract %r' % (g, x), backend='bv')
        eng.ob(st, 'frame', 'the state is not changed', all(st.mem['state'].get(o) == v for o, v in st.ext['mem0'].items()))


class StreamDecode(Base):
    """base64_stream_decode: the codec's result, unchanged"""
    oneshot = False

    def regions(self, eng):
        self.src = Region('src', 'src', goals=lambda st, off, n, wr: [aff(off), Aff.sym('N') - off - n], ro=True)
        self.out = Region('out', 'out', goals=lambda st, off, n, wr: [aff(off), Aff(0, {'N': 3}) - 4 * (off + n)])
        self.outlen = Region('outlen', 'cell', self.mod.ptrbits // 8, self.mod.ptrbits // 8)
        for r in (self.src, self.out, self.outlen):
            eng.regions[r.name] = r
        if not self.oneshot:
            self.state = eng.regions['state'] = Region('state', 'cell', self.lay['size'], 8)

    def starts(self, eng):
        self.eng = eng
        self.regions(eng)
        ps = [n for _, n in eng.fn.params]
        if len(ps) != 5:
            raise Unsupported('signature')
        st = self.newstate(eng)
        k = 0
        if not self.oneshot:
            st.env[ps[0]] = Ptr(self.state)
            k = 1
            for n in ('eof', 'flags', 'bytes'):
                st.mem['state'][self.lay[n]] = (4, t.var(32, ('st', n)))
            st.mem['state'][self.lay['carry']] = (1, t.var(8, ('st', 'carry')))
            st.ext['codec'] = 'set'
            st.ext['init'] = True
            st.ext['mem0'] = tuple(sorted((o, v[0], str(v[1])) for o, v in st.mem['state'].items()))
        st.env[ps[k]] = Ptr(self.src)
        st.env[ps[k + 1]] = Aff.sym('N')
        st.env[ps[k + 2]] = Ptr(self.out)
        st.env[ps[k + 3]] = Ptr(self.outlen)
        st.env['$base'] = st.env['$w'] = st.env['$b'] = 0
        if self.oneshot:
            self.flags = t.var(32, ('flags',))
            st.env[ps[4]] = self.flags
        return [st]

    do_init = StreamEncode.do_init

    def do_dec(self, eng, st, name, sp, src, n, out, olp):
        if not self.statecell(sp) or not self.statecell(olp):
            raise Unsupported('call arguments')
        N = Aff.sym('N')
        eng.ob(st, 'call', 'the codec is called once on the stream', bool(st.ext.get('init')) and not st.ext.get('res'))
        if not self.oneshot:
            eng.ob(st, 'call', 'the stream state is passed on', sp.reg is self.state and sp.off == 0 and
                   st.ext['mem0'] == tuple(sorted((o, v[0], str(v[1])) for o, v in st.mem['state'].items())))
        else:
            f = [self.getcell(st, sp, x) for x in ('eof', 'bytes')]
            eng.ob(st, 'call', 'the fresh state is passed on', UNDEF not in f and all(self.small(eng, st, x, 32) == 0 for x in f))
        eng.ob(st, 'call', 'the codec gets the source', lambda: self.sameptr(eng, st, src, self.src, 0), lambda: 'src %r' % (src,))
        eng.ob(st, 'call', 'the codec gets the output buffer', lambda: self.sameptr(eng, st, out, self.out, 0), lambda: 'out %r' % (out,))
        n = aff(self.num(eng, st, n, self.mod.ptrbits))
        eng.ob(st, 'read-bounds', 'the length passed on stays inside the source', lambda: eng.ge(st, N - n))
        eng.ob(st, 'call', 'the codec gets all of the source', lambda: eng.lia.prove_eq(st.pc, N - n), lambda: 'n %r' % (n,))
        if 'oc' not in st.ext:
            # outcomes of the decoder contract: (return value, eof, pending characters)
            oc = [(1, 0, 0), (1, 0, 1), (1, 0, 2), (1, 0, 3), (1, 'AEOF', 3), (1, 'EOF', 0), (0, 'EOF', None), (-1, None, None)]
            if not self.oneshot:
                oc.append((0, 'AEOF', 3))
            raise Fork([[('do', lambda s, x=x: s.ext.__setitem__('oc', x))] for x in oc])
        r, e, b = st.ext['oc']
        st.ext['res'] = True
        ol = self.mod.ptrbits // 8
        if not eng.cellrange(st, olp.reg, olp.off, ol, True):
            raise PathEnd()
        if r == -1:
            eng.cellstore(st, olp.reg, olp.off, ol, 0)
        else:
            st.pc = st.pc.decl('OL').ge(Aff.sym('OL')).ge(Aff(0, {'N': 3}) - 4 * Aff.sym('OL'))
            eng.cellstore(st, olp.reg, olp.off, ol, Aff.sym('OL'))
            self.setcell(eng, st, sp, 'eof', {0: 0, 'AEOF': self.AEOF, 'EOF': self.EOF}[e])
            self.setcell(eng, st, sp, 'bytes', t.var(32, ('res', 'bytes')) if b is None else b)
            self.setcell(eng, st, sp, 'carry', t.var(8, ('res', 'carry')), 1)
        st.ext['after'] = tuple(sorted((o, v[0], str(v[1])) for o, v in st.mem[sp.reg.name].items()))
        return r & 0xffffffff

    def exit(self, eng, st, ret):
        if eng.quiet:
            return
        if st.stores:
            raise Unsupported('direct output')
        if not st.ext.get('res') and eng.lia.prove_eq(st.pc, Aff.sym('N')):
            raise Unsupported('an empty chunk is answered without the codec')
        eng.ob(st, 'call', 'the codec decides', bool(st.ext.get('res')))
        if not st.ext.get('res'):
            return
        r, e, b = st.ext['oc']
        kind = 'stub' if r == -1 else 'outlen'
        v = self.getoutlen(st)
        ol = self.num(eng, st, v, self.mod.ptrbits) if v is not UNDEF else None
        rej = '' if r == 1 else 'rej-' if r == 0 else ''
        eng.ob(st, kind if r == -1 else rej + kind, 'the output length is that of the codec', ol is not None and eng.lia.prove_eq(st.pc, aff(ol) - (0 if r == -1 else Aff.sym('OL'))), lambda: 'outlen %r' % (ol,))
        if self.oneshot:
            want = -1 if r == -1 else 1 if r == 1 and b == 0 else 0
        else:
            want = r
            eng.ob(st, 'stub' if r == -1 else 'state', 'the state is that of the codec', st.ext['after'] == tuple(sorted((o, v[0], str(v[1])) for o, v in st.mem['state'].items())))
        got = self.small(eng, st, ret, 32)
        eng.ob(st, 'stub' if r == -1 else 'ret' if want == 1 else 'rej-ret', 'return value for codec result %d with %s pending' % (r, b), got is not None and got == want,
               lambda: 'returned %r, expected %d' % (got, want))


class DecodeOneShot(StreamDecode):
    oneshot = True


class Stub(Base):
    """a codec that is not in this build: reports failure and touches nothing"""
    def starts(self, eng):
        self.dec = 'decode' in eng.fn.name
        ps = [n for _, n in eng.fn.params]
        if len(ps) != 5:
            raise Unsupported('signature')
        no = lambda st, off, n, wr: [Aff(-1)]
        self.src = eng.regions['src'] = Region('src', 'src', goals=no, ro=True)
        self.out = eng.regions['out'] = Region('out', 'out', goals=no)
        self.state = eng.regions['state'] = Region('state', 'out', goals=no)
        self.outlen = eng.regions['outlen'] = Region('outlen', 'cell', self.mod.ptrbits // 8, self.mod.ptrbits // 8)
        st = self.newstate(eng)
        for p, v in zip(ps, (Ptr(self.state), Ptr(self.src), Aff.sym('N'), Ptr(self.out), Ptr(self.outlen))):
            st.env[p] = v
        return [st]

    def exit(self, eng, st, ret):
        if eng.quiet:
            return
        v = self.getoutlen(st)
        eng.ob(st, 'stub', 'the output length is 0', v is not UNDEF and self.num(eng, st, v, self.mod.ptrbits) == 0, lambda: 'outlen %r' % (v,))
        if self.dec:
            r = self.small(eng, st, ret, 32)
            eng.ob(st, 'stub', 'the return value is -1', r == -1, lambda: 'returned %r' % (r,))


CPUBITS = {'ssse3': ('ecx', 9), 'sse41': ('ecx', 19), 'sse42': ('ecx', 20)}


def cpu(leaf, reg):
    return t.var(32, ('cpu', leaf, reg))


XCR0 = t.var(32, ('xcr0',))


def bit(x, n):
    return t.extract(x, n, n)


def ge_(x, k):
    return t.not_(t.ult(x, t.const(32, k)))


HASCPUID = t.var(1, ('cpuid',))
MAXLEAF = cpu(0, 'eax')
OSXSAVE = t.and_(ge_(MAXLEAF, 1), bit(cpu(1, 'ecx'), 27))


def xcr(m):
    return t.eq(t.and_(XCR0, t.const(32, m)), t.const(32, m))


HAS = {
    'ssse3': t.and_(ge_(MAXLEAF, 1), bit(cpu(1, 'ecx'), 9)),
    'sse41': t.and_(ge_(MAXLEAF, 1), bit(cpu(1, 'ecx'), 19)),
    'sse42': t.and_(ge_(MAXLEAF, 1), bit(cpu(1, 'ecx'), 20)),
    'avx': t.and_(t.and_(OSXSAVE, xcr(6)), bit(cpu(1, 'ecx'), 28)),
    'avx2': t.and_(t.and_(OSXSAVE, xcr(6)), t.and_(ge_(MAXLEAF, 7), bit(cpu(7, 'ebx'), 5))),
    'avx512': t.and_(t.and_(OSXSAVE, xcr(0xe6)), t.and_(ge_(MAXLEAF, 7), t.and_(bit(cpu(7, 'ebx'), 31), bit(cpu(7, 'ecx'), 1)))),
}
ORDER = ['avx512', 'avx2', 'avx', 'sse42', 'sse41', 'ssse3']


class Choose(Base):
    """codec_choose: the forced codec, else the best one that the build has and the machine supports"""
    def __init__(self, mod, lay, haves, target, **kw):
        super().__init__(mod, lay, **kw)
        self.haves = [h.lower() for h in haves]
        self.target = target

    def starts(self, eng):
        ps = [n for _, n in eng.fn.params]
        if len(ps) != 2:
            raise Unsupported('signature')
        w = self.mod.ptrbits // 8
        self.c = eng.regions['codec'] = Region('codec', 'cell', 2 * w, w)
        self.flags = t.var(32, ('flags',))
        st = self.newstate(eng)
        # one case per forced codec (exactly one bit), several forced, and none
        out = []
        fb = t.extract(self.flags, 8, 0)
        for c, k in [(c, k) for c, k in FORCE.items()] + [('none', None), ('many', None)]:
            s = st.copy()
            one = []
            if k is not None:
                s.env[ps[1]] = t.concat([t.extract(t.var(32, ('flags',)), 31, 9), t.const(9, 1 << k)])
            elif c == 'none':
                s.env[ps[1]] = t.concat([t.extract(t.var(32, ('flags',)), 31, 9), t.const(9, 0)])
            else:
                s.env[ps[1]] = t.var(32, ('flags',))
                f = t.ne(t.and_(fb, t.add(fb, t.const(9, -1))), t.const(9, 0))
                s.bfacts = (f,)
            s.env[ps[0]] = Ptr(self.c)
            s.ext['case'] = c
            s.ext['cpuid'] = 'i686' not in self.target
            out.append(s)
        return out

    def facts(self, st):
        return tuple(st.bfacts) + tuple(c if v else t.not_(c) for c, v in st.ext.get('known', ()))

    def holds(self, eng, st, c):
        if c.op == 'c':
            return bool(c.a)
        return eng.dec.valid(c, st.allowed, self.facts(st)) is True

    def asm(self, eng, st, i):
        txt = i.x[0] if isinstance(i.x, (list, tuple)) else i.x
        cons = i.x[1]
        args = [eng.val(st, ty, v) for ty, v in i.a]
        cl = cons.split(',')
        outs = [c for c in cl if c.startswith('=')]
        ins = [c for c in cl if not c.startswith('=') and not c.startswith('~')]
        if 'cpuid' in txt and len(outs) == 4:
            pos = {}
            for c, a in zip(ins, args):
                r = outs[int(c)] if c.isdigit() else '=' + c
                pos[r.replace('&', '')] = a
            leaf = pos.get('={ax}')
            if not isinstance(leaf, int):
                raise Unsupported('cpuid leaf')
            eng.ob(st, 'query', 'cpuid is available', st.ext['cpuid'] is True or self.holds(eng, st, HASCPUID), backend='bv')
            if leaf:
                eng.ob(st, 'query', 'cpuid leaf %d is supported' % leaf, self.holds(eng, st, ge_(MAXLEAF, leaf)), backend='bv')
            if leaf == 7:
                eng.ob(st, 'query', 'cpuid leaf 7 is asked for sub-leaf 0', pos.get('={cx}') == 0)
            regs = []
            for c in outs:
                c = c.replace('&', '')
                regs.append({'={ax}': 'eax', '={cx}': 'ecx', '={dx}': 'edx', '={bx}': 'ebx', '=r': 'ebx'}.get(c))
            if None in regs or regs.count('ebx') != 1:
                raise Unsupported('cpuid operands %s' % cons)
            st.env[i.res] = [cpu(leaf, r) for r in regs]
            return True
        if 'xgetbv' in txt and len(outs) == 2:
            eng.ob(st, 'query', 'xgetbv reads XCR0', args == [0], lambda: '%r' % args)
            eng.ob(st, 'query', 'xgetbv is available (OSXSAVE)', self.holds(eng, st, OSXSAVE), backend='bv')
            st.env[i.res] = [XCR0 if c == '={ax}' else t.var(32, ('xcr0hi',)) for c in outs]
            return True
        if 'pushf' in txt and len(outs) == 1 and not ins:
            # <cpuid.h> on i386: 1 if the ID flag can be toggled, that is, if cpuid exists
            st.env[i.res] = t.zext(HASCPUID, 32)
            return True
        raise Unsupported('asm %s' % txt[:40])

    def exit(self, eng, st, ret):
        if eng.quiet:
            return
        w = self.mod.ptrbits // 8
        e = st.mem['codec'].get(self.lay['enc'])
        d = st.mem['codec'].get(self.lay['dec'])
        names = []
        for x, k in ((e, 'encode'), (d, 'decode')):
            pre = 'base64_stream_%s_' % k
            ok = x is not None and x[0] == w and isinstance(x[1], Fn) and x[1].name.startswith(pre)
            eng.ob(st, 'codec', 'an %sr is chosen' % k, ok, lambda: '%r' % (x,))
            names.append(x[1].name[len(pre):] if ok else None)
        if None in names:
            return
        c = names[0]
        eng.ob(st, 'codec', 'encoder and decoder belong to one codec', names[0] == names[1], lambda: '%r' % names)
        case = st.ext['case']
        if case in FORCE:
            eng.ob(st, 'codec', 'forcing %s chooses %s' % (case, case), c == case, lambda: 'chose %s' % c)
            return
        if case == 'many':
            eng.ob(st, 'codec', 'one of several forced codecs is chosen', c in FORCE and self.holds(eng, st, bit(self.flags, FORCE[c])), lambda: 'chose %s' % c, backend='bv')
            return
        if 'x86' in self.target or 'i686' in self.target:
            if c != 'plain':
                eng.ob(st, 'codec', '%s is in the build' % c, c in self.haves)
                eng.ob(st, 'codec', 'the machine supports %s' % c, c in HAS and self.holds(eng, st, HAS[c]), backend='bv')
            for y in ORDER:
                if y == c:
                    break
                if y in self.haves:
                    has = HAS[y] if st.ext['cpuid'] else t.and_(HASCPUID, HAS[y])
                    eng.ob(st, 'codec', 'no better codec than %s: not %s' % (c, y), self.holds(eng, st, t.not_(has)), backend='bv')
        else:
            n = [x for x in self.haves if x.startswith('neon')]
            want = n[0] if n and self.lay['neon'] else 'plain'
            eng.ob(st, 'codec', 'the codec of this build is %s' % want, c == want, lambda: 'chose %s' % c)
