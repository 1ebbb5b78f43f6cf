"""Contract of the command-line tool (bin/base64.c): the whole program, inlined into main, against
contracts of the library calls (base64_stream_*) and of the C library and system calls it makes.

Ghost state (env names starting with $, integers) records the history:
  input   I bytes read, F bytes dealt with (fed to the library, or dropped as skippable), C: the bytes
          in [F,C) are known not to be skippable; eof, rerr
  text    P bytes produced by the library, T bytes handed to the output, c column, fin
  output  A bytes handed to the output (with newlines), W bytes accepted by the system
  vector  entries k..q-1 of the output vector are pending, entry k starts at stream position S;
          ab/al: by how much its base and length have been adjusted; L its length once looked at
  buffers lo/hi/d/k per buffer: offsets [lo,hi) hold the stream positions off+d of kind k
The buffers the program copies between are never looked at byte by byte: what matters is which
positions of which stream they hold.

Variants fix the options at the end of option parsing: cli_opt stops where the streams start; cli_enc0,
cli_encw, cli_dec, cli_deci, cli_decn go on from there.  io: 'perfect' (every write accepts everything,
no read fails) or 'any' (partial writes, interrupted calls, failing writes and reads)."""
from . import terms as t
from .lia import Aff, aff, fresh
from .exec import State, Ptr, Fn, Region, Fork, Unsupported, UNDEF, PathEnd, sgn, M
from .loops import Verifier, blk

ALPHA = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')
NMAX = 1 << 62
OPTS = {'decode': (0, 'd'), 'help': (0, 'h'), 'ignore-garbage': (0, 'i'), 'no-strip-newlines': (0, 'n'), 'wrap': (1, 'w')}
FLAGS = ('gd', 'gi', 'gn', 'gh', 'vfail', 'iofail', 'eof', 'rerr', 'est', 'fin', 'dash', 'open', 'src', 'zw')
PART = ('est', 'fin', 'src', 'vfail', 'iofail', 'rerr', 'eof', 'zw')
ZERO = ('I', 'F', 'C', 'T', 'P', 'c', 'A', 'W', 'k', 'q', 'S', 'ab', 'al', 'rc')
IOVMAX = 1024
FILES = {'stdin': 0, 'stdout': 1, 'stderr': 2}
ARG = 1 << 32


class CliEngine(Verifier):
    maxiter = 30

    def part(self, st):
        return tuple(st.env.get('$' + n) for n in PART)

    def partorder(self, c):
        return c[1] if isinstance(c, tuple) else ()

    def globptr(self, name):
        g = self.mod.globals.get(name)
        if g is None or '@' + name in self.regions:
            return super().globptr(name)
        if g.const and g.init is not None:
            return super().globptr(name)
        size = self.mod.size(g.ty)
        r = self.big('@' + name, g.ty, size, g.align)
        if r is None:
            r = Region('@' + name, 'cell', size, g.align)
        r.g = g
        self.regions['@' + name] = r
        return Ptr(r, 0)

    def elem(self, ty):
        """(element type, count) of an array type"""
        n = 1
        while ty[0] == 'arr':
            n *= ty[1]
            ty = ty[2]
        return ty, n

    def isiov(self, ty):
        if ty[0] == 'named':
            ty = self.mod.types[ty[1]]
        return ty[0] == 'struct' and len(ty[1]) == 2 and ty[1][0] == ('ptr',) and ty[1][1] == ('i', self.ptrw)

    def big(self, name, ty, size, al):
        e, n = self.elem(ty)
        if n > 1 and self.isiov(e):
            r = Region(name, 'iov', size, al)
            r.count = n
            return r
        if n >= 256 and e == ('i', 8):
            return Region(name, 'buf', size, al)
        return None

    def ins(self, st, i):
        if i.op == 'alloca':
            name = 'A' + i.res
            r = self.regions.get(name)
            if r is None and not i.x[0]:
                r = self.big(name, i.ty, self.mod.size(i.ty), i.x[1] or 1)
                if r is not None:
                    self.regions[name] = r
            if r is not None and r.kind != 'cell':
                if r.kind == 'buf':
                    self.contract.newbuf(st, name)
                st.env[i.res] = Ptr(r, 0)
                return
        super().ins(st, i)

    def cellload(self, st, r, o, n, ty):
        v = super().cellload(st, r, o, n, ty)
        return v

    # ------------------------------------------------------------ invariant candidates
    def candidates(self, c, keys, xs, ts, G, comp0, warm, scope):
        out = {}

        def add(name, a):
            a = aff(a)
            if a.isc() or name in warm['dead']:
                return
            out.setdefault(a.key(), (name, a))
        sig = tuple(tuple(g) for g in G)
        for j, s in enumerate(ts):
            add(('t+', j, sig), Aff.sym(s))
            add(('t-', j, sig), -Aff.sym(s))
        val = dict(zip(keys, xs))
        nc = [(k, x) for k, x in zip(keys, xs) if any(s in ts for s in x.m)]
        ghost = lambda k: k[0] == 'v' and k[1][0] == '$'
        for k, x in nc:
            add(('0', k), x)
            add(('b', k), 1 - x)
            if not ghost(k):
                add(('1', k), x - 1)
        prog = [(k, x) for k, x in nc if not ghost(k)]
        if len(prog) <= 16:
            for k, x in prog:
                for k2, y in prog:
                    if k != k2:
                        add(('p', k, k2), x - y)
        par = self.cuts[blk(c)][1]
        up = self.curxs.get(par)
        if up:
            for k, x in nc:
                y = up.get(k)
                if y is not None and all(s in scope for s in y.m):
                    add(('m', k), x - y)
                    add(('n', k), y - x)
            k = ('v', '$I')
            x, y = val.get(k), up.get(k)
            if x is not None and y is not None and all(s in scope for s in y.m):
                add(('o', k), x - y - 1)
        for n, a in self.contract.extra_candidates(self, val, comp0):
            add(n, a)
        return list(out.values())


class Cli:
    engine = CliEngine
    notes = 'bin/base64.c inlined into main'

    def __init__(self, mod, lay, eofs, variant, io):
        self.mod = mod
        self.lay = lay
        self.variant = variant
        self.any = io == 'any'
        self.dec = variant.startswith('dec')
        self.skip = {'dec': {10}, 'decn': set(), 'deci': set(range(256)) - ALPHA - {61}}.get(variant, set())
        self.N = Aff.sym('N')
        self.resetcuts = None

    # ------------------------------------------------------------ ghosts
    def g(self, st, n):
        v = st.env.get('$' + n)
        if v is None:
            raise Unsupported('history of %s lost' % n)
        return v

    def ga(self, st, n):
        return aff(self.g(st, n))

    def s(self, st, n, v):
        if isinstance(v, Aff):
            v = st.pc.norm(v)
            if v.isc():
                v = v.c
        st.env['$' + n] = v

    def starts(self, E):
        st = State()
        st.block = E.fn.entry
        self.file = E.regions['FILE'] = Region('FILE', 'file', 16)
        self.argv = E.regions['ARGV'] = Region('ARGV', 'argv', None)
        self.args = E.regions['ARGS'] = Region('ARGS', 'args', None)
        self.optarg = E.regions['OPTARG'] = Region('OPTARG', 'optarg', None)
        self.ostream = E.regions['OSTREAM'] = Region('OSTREAM', 'ostream', None)
        self.msg = E.regions['MSG'] = Region('MSG', 'msg', None)
        self.errno = E.regions['ERRNO'] = Region('ERRNO', 'cell', 4, 4)
        pb = E.ptrw // 8
        pc = st.pc
        for s, lo, hi in (('N', 0, NMAX), ('argc', 1, (1 << 31) - 1), ('fuel', 0, 1 << 40), ('opts', 0, 1 << 31)):
            pc = pc.decl(s).ge(Aff.sym(s) - lo).ge(hi - Aff.sym(s))
        st.pc = pc
        for f in FLAGS + ZERO:
            st.env['$' + f] = 0
        st.env['$gw'] = 76
        st.env['$dash'] = 2
        st.env['$fuel'] = Aff.sym('fuel')
        st.env['$opts'] = Aff.sym('opts')
        st.mem['ERRNO'] = {}
        for name, g in self.mod.globals.items():
            if g.const and g.init is not None:
                continue
            r = E.globptr(name).reg
            if r.kind == 'buf':
                self.newbuf(st, r.name)
            if r.kind != 'cell':
                continue
            cells = {}
            if g.init is None:
                if name in FILES:
                    cells[0] = (pb, Ptr(self.file, FILES[name]))
                elif name == 'optind':
                    cells[0] = (4, 1)
                else:
                    r.unknown = True
            else:
                self.initial(E, g.ty, g.init, 0, cells)
            st.mem[r.name] = cells
        ps = E.fn.params
        if len(ps) >= 1:
            st.env[ps[0][1]] = Aff.sym('argc')
        if len(ps) >= 2:
            st.env[ps[1][1]] = Ptr(self.argv, 0)
        self.findresets(E)
        return [st]

    def initial(self, E, ty, v, off, cells):
        if ty[0] == 'named':
            ty = self.mod.types[ty[1]]
        n = self.mod.size(ty)
        if ty[0] in ('i', 'ptr'):
            x = E.const(ty, v)
            if ty[0] == 'ptr' and x == 0:
                x = Ptr(E.nullreg(), 0)
            cells[off] = (n, x)
        elif ty[0] in ('struct', 'pstruct', 'arr'):
            k = len(ty[1]) if ty[0] != 'arr' else ty[1]
            if k > 64:
                raise Unsupported('global variable of %d elements' % k)
            for j in range(k):
                o, et = self.mod.field(ty, j)
                x = (('null',) if et == ('ptr',) else ('ci', 0) if et[0] == 'i' else ('zero',)) if v[0] == 'zero' else v[1][j][1]
                self.initial(E, et, x, off + o, cells)
        else:
            raise Unsupported('global variable of type %r' % (ty,))

    def newbuf(self, st, name):
        for k in ('lo', 'hi', 'd', 'free'):
            st.env['$%s:%s' % (k, name)] = 0
        st.env['$k:' + name] = Fn('dec' if self.dec else 'text')

    def findresets(self, E):
        """loops that do not themselves look at the output vector: there an empty vector may be renamed"""
        E.plan(0)
        iovs = set()
        for b in E.fn.blocks.values():
            for i in b.ins:
                if i.op == 'gep' and E.isiov(i.ty):
                    iovs.add(i.res)
        ch = True
        while ch:
            ch = False
            for b in E.fn.blocks.values():
                for i in b.phis + b.ins:
                    if i.res in iovs or not isinstance(i.res, str):
                        continue
                    if i.op == 'phi':
                        hit = any(v[0] == 'loc' and v[1] in iovs for v, _ in i.a)
                    elif i.op in ('gep', 'select'):
                        hit = any(isinstance(v, tuple) and v[:1] == ('loc',) and v[1] in iovs for v in i.a)
                    else:
                        hit = False
                    if hit:
                        iovs.add(i.res)
                        ch = True
        looks = set()
        feeds = set()
        for n, b in E.fn.blocks.items():
            for i in b.ins:
                if i.op == 'load' and i.a[0][0] == 'loc' and i.a[0][1] in iovs:
                    looks.add(n)
                if i.op == 'call' and i.x[0] == 'glob':
                    f = i.x[1].lstrip('@')
                    if f == 'writev':
                        looks.add(n)
                    if f in ('fread', 'fread_unlocked', 'read') or f.startswith('base64_stream'):
                        feeds.add(n)
        self.resets = set()
        self.feeds = set()
        for c, (comp, par) in E.cuts.items():
            own = set(comp)
            for c2, (comp2, par2) in E.cuts.items():
                if par2 == c:
                    own -= comp2
            if not own & looks:
                self.resets.add(c)
            if comp & feeds:
                self.feeds.add(c)

    # ------------------------------------------------------------ interface to the engine
    def bounds(self, E):
        return []

    def extra_candidates(self, E, val, comp0):
        out = []
        g = lambda n: val.get(('v', '$' + n))
        z = {n: g(n) if g(n) is not None else None for n in ZERO + ('gw', 'fuel', 'opts')}

        def add(n, *xs):
            """sum of +x / -x ghosts"""
            r = Aff(0)
            for x in xs:
                if isinstance(x, int):
                    r = r + x
                    continue
                neg = x[0] == '-'
                v = z[x.lstrip('-')]
                if v is None:
                    return
                r = r - v if neg else r + v
            out.append((('<', n), r))
        add('A-W', 'A', '-W')
        add('W-S', 'W', '-S')
        add('A-S', 'A', '-S')
        add('q-k', 'q', '-k')
        add('q-k-1', 'q', '-k', -1)
        if all(z[n] is not None for n in 'AWqk'):
            # no pending bytes without pending entries
            top = max([r.size for r in E.regions.values() if r.kind == 'buf'] + [16])
            out.append((('<', 'aw'), top * (z['q'] - z['k']) - z['A'] + z['W']))
        add('fuel', 'fuel')
        add('fuel+A-W', 'fuel', 'A', '-W')
        add('I-F', 'I', '-F')
        add('C-F', 'C', '-F')
        add('I-C', 'I', '-C')
        add('P-T', 'P', '-T')
        add('gw-c', 'gw', '-c')
        add('gw-c-1', 'gw', '-c', -1)
        add('gw-1', 'gw', -1)
        add('gw', 'gw')
        add('gwtop', '-gw', (1 << (E.ptrw - 1)) - 1)
        if z['I'] is not None:
            out.append((('<', 'N-I'), self.N - z['I']))
        for r in E.regions.values():
            if r.kind == 'iov' and z['q'] is not None:
                out.append((('<', 'iov', r.name), r.count - 1 - z['q']))
                out.append((('<', 'iov0', r.name), r.count - z['q']))
        # numbers, and what is left of a string literal from a pointer on
        plain = [(k, x) for k, x in val.items() if not (k[0] == 'v' and k[1][0] == '$') and not isinstance(comp0[k], Ptr)]
        lit = [(k, comp0[k].reg.size - 1 - x) for k, x in val.items() if isinstance(comp0[k], Ptr) and comp0[k].reg.kind in ('global', 'tab')
               and isinstance(comp0[k].reg.size, int) and comp0[k].reg.size <= 64]
        for k, x in lit:
            out.append((('<', 'lit', k), x))
        if z['fuel'] is not None:
            for k, x in plain + lit:
                out.append((('<', 'fuel+', k), z['fuel'] + x))
        if z['c'] is not None:
            for k, x in plain + lit:
                out.append((('<', 'cx', k), z['c'] - x))
                out.append((('<', 'cy', k), (1 << E.ptrw) * x - z['c']))
        if z['rc'] is not None:
            for k, x in val.items():
                if not (k[0] == 'v' and k[1][0] == '$') and not isinstance(comp0[k], Ptr):
                    out.append((('<', 'rc', k), z['rc'] - x))
            for r in E.regions.values():
                hi, lo = (val.get(('v', '$%s:%s' % (n, r.name))) for n in ('hi', 'lo'))
                if r.kind == 'buf' and hi is not None:
                    out.append((('<', 'rch', r.name), z['rc'] + lo - hi))
        segs = [r for r in E.regions.values() if r.kind == 'buf']
        for r in segs:
            hi, lo, d = (val.get(('v', '$%s:%s' % (n, r.name))) for n in ('hi', 'lo', 'd'))
            if hi is None:
                continue
            out.append((('<', 'hi', r.name), hi - lo))
            out.append((('<', 'sz', r.name), aff(r.size) - hi))
            for k, x in val.items():
                if isinstance(comp0[k], Ptr) and comp0[k].reg is r:
                    out.append((('<', 'ph', k), hi - x))
                    out.append((('<', 'ps', k), aff(r.size) - x))
        return out

    def segment_end(self, E, st):
        if st.env.get('$pb') is not None or st.env.get('$pl') is not None:
            raise Unsupported('an entry of the output vector is stored in two loops')
        self.advance(E, st)
        # output vector: entry k is finished when all of it has been accepted
        L = st.env.get('$L')
        k, q, S = (self.ga(st, n) for n in 'kqS')
        ab, al = self.ga(st, 'ab'), self.ga(st, 'al')
        if L is not None:
            if E.lia.prove_eq(st.pc, ab) and E.lia.prove_eq(st.pc, al):
                if E.decide_ge(st, self.ga(st, 'W') - S - aff(L)):
                    self.s(st, 'k', k + 1)
                    self.s(st, 'S', S + aff(L))
            elif E.lia.prove_eq(st.pc, ab - al):
                self.s(st, 'S', S + ab)
                self.s(st, 'ab', 0)
                self.s(st, 'al', 0)
            st.env.pop('$L', None)
        c = st.block
        if c in self.resets:
            self.s(st, 'zw', 0)
        if c in self.resets and E.lia.prove_eq(st.pc, self.ga(st, 'q') - self.ga(st, 'k')) and E.lia.prove_eq(st.pc, self.ga(st, 'A') - self.ga(st, 'W')):
            for n in ('k', 'q', 'ab', 'al'):
                self.s(st, n, 0)
            self.drainedvec(E, st)
            self.s(st, 'S', self.ga(st, 'W'))
        if c in self.feeds:
            # buffers whose content is used up
            for r in list(E.regions.values()):
                kd = st.env.get('$k:' + r.name)
                if r.kind != 'buf' or not isinstance(kd, Fn):
                    continue
                if kd.name == 'in':
                    done, pos = E.lia.prove_eq(st.pc, self.ga(st, 'I') - self.ga(st, 'F')), 'I'
                else:
                    done, pos = E.lia.prove_eq(st.pc, self.ga(st, 'P') - self.ga(st, 'T')), 'P'
                if done:
                    self.s(st, 'lo:' + r.name, 0)
                    self.s(st, 'hi:' + r.name, 0)
                    self.s(st, 'd:' + r.name, self.ga(st, pos))

    # ------------------------------------------------------------ classes of input bytes
    def advance(self, E, st):
        if not self.dec:
            return
        look = {}
        for v, a in st.allowed.items():
            if v.a[0][0] == 's':
                c, m = v.a[0][1]
                k = st.pc.norm(Aff(c, dict(m))).key()
                look[k] = set(a) & look[k] if k in look else set(a)
        for _ in range(100):
            C, F = st.pc.norm(self.ga(st, 'C')), st.pc.norm(self.ga(st, 'F'))
            a = look.get(C.key())
            if a is None:
                return
            if not self.skip & set(a):
                self.s(st, 'C', C + 1)
            elif set(a) <= self.skip and C == F:
                self.s(st, 'C', C + 1)
                self.s(st, 'F', F + 1)
            else:
                return

    # ------------------------------------------------------------ memory
    def alive(self, E, st, r):
        f = st.env.get('$free:' + r.name)
        E.ob(st, 'mem', 'no use of %s after it was freed' % r.name, f == 0)

    def load(self, E, st, p, ty, n):
        r = p.reg
        if p.idx:
            raise Unsupported('indexed load from %s' % r.name)
        if r.kind == 'buf':
            self.alive(E, st, r)
            E.checkrange(st, p, n, False)
            kd = st.env.get('$k:' + r.name)
            off = st.pc.norm(aff(p.off))
            if isinstance(kd, Fn) and kd.name == 'in':
                lo, hi, d = (self.ga(st, '%s:%s' % (x, r.name)) for x in ('lo', 'hi', 'd'))
                ok = E.ge(st, off - lo) and E.ge(st, hi - off - n)
                E.ob(st, 'feed', 'only bytes that were read are looked at', ok)
                if ok:
                    return E.frombytes(ty, [E.srcvar(st.pc.norm(off + d + j)) for j in range(n)])
            return E.havoc(ty, r.name)
        if r.kind == 'argv':
            pb = E.ptrw // 8
            q, rem = E.residue(st, p.off, pb)
            if rem or ty[0] != 'ptr':
                raise Unsupported('odd access to the argument vector')
            E.ob(st, 'read-bounds', 'argument index within argv', lambda: E.ge(st, aff(q)) and E.ge(st, Aff.sym('argc') - 1 - aff(q)))
            return Ptr(self.args, st.pc.norm(aff(q) * ARG))
        if r.kind == 'optarg':
            off = st.pc.norm(aff(p.off))
            name = st.env.get('$oa')
            if ty != ('i', 8) or not isinstance(name, Fn):
                raise Unsupported('access to the option argument')
            if off.isc() and off.c == 0:
                return t.var(8, ('h', 'oa0', name.name))
            if off == st.pc.norm(self.ga(st, 'oe')):
                return t.var(8, ('h', 'oae', name.name))
            raise Unsupported('character of the option argument')
        if r.kind == 'iov':
            return self.iovload(E, st, p, ty, n)
        if r.kind in ('args', 'msg'):
            return E.havoc(ty, r.name)
        raise Unsupported('load from %s' % r.name)

    def store(self, E, st, p, ty, v, n):
        if p.reg.kind == 'iov':
            return self.iovstore(E, st, p, ty, v, n)
        raise Unsupported('store to %s' % p.reg.name)

    def memcpy(self, E, st, d, s, n):
        raise Unsupported('memory copied in the tool')

    def memset(self, E, st, d, c, n):
        raise Unsupported('memory filled in the tool')

    # ------------------------------------------------------------ output vector
    def iovfield(self, E, st, p, ty):
        es = 2 * (E.ptrw // 8)
        q, rem = E.residue(st, p.off, es)
        if rem == 0 and ty[0] == 'ptr':
            return q, 'base'
        if rem == es // 2 and ty == ('i', E.ptrw):
            return q, 'len'
        raise Unsupported('odd access to the output vector')

    def lenof(self, E, st):
        """length of entry k as it was appended"""
        L = st.env.get('$L')
        if L is None:
            k, q, S, A = (self.ga(st, n) for n in 'kqSA')
            last = E.decide_eq(st, q - k - 1)
            n = fresh('L')
            L = Aff.sym(n)
            pc = st.pc.decl(n).ge(L).ge(A - S - L)
            if last:
                pc = pc.eq(L - A + S)
            st.pc = pc
            self.s(st, 'L', L)
            L = st.env['$L']
        return aff(L)

    def head(self, E, st, j):
        """make entry j the first pending entry"""
        k, q = self.ga(st, 'k'), self.ga(st, 'q')
        j = aff(j)
        if E.lia.prove_eq(st.pc, j - k):
            return
        if E.lia.prove_eq(st.pc, j - k - 1):
            L = st.env.get('$L')
            ok = L is not None and E.lia.prove_eq(st.pc, self.ga(st, 'ab')) and E.lia.prove_eq(st.pc, self.ga(st, 'al')) \
                and E.ge(st, self.ga(st, 'W') - self.ga(st, 'S') - aff(L))
            E.ob(st, 'queue', 'an entry of the output vector is passed only when all of it was accepted', ok)
            L = self.lenof(E, st)
            self.s(st, 'S', self.ga(st, 'S') + L)
            self.s(st, 'k', k + 1)
            self.s(st, 'ab', 0)
            self.s(st, 'al', 0)
            st.env.pop('$L', None)
            return
        raise Unsupported('entry %r of the output vector (first pending: %r)' % (j, k))

    def iovload(self, E, st, p, ty, n):
        E.checkrange(st, p, n, False)
        j, f = self.iovfield(E, st, p, ty)
        if '$pb' in st.env or '$pl' in st.env:
            raise Unsupported('the output vector is read while an entry is stored')
        self.head(E, st, j)
        E.ob(st, 'queue', 'only pending entries of the output vector are read', lambda: E.ge(st, self.ga(st, 'q') - self.ga(st, 'k') - 1))
        if not E.ge(st, self.ga(st, 'q') - self.ga(st, 'k') - 1):
            raise PathEnd()
        if f == 'len':
            return st.pc.norm(self.lenof(E, st) - self.ga(st, 'al'))
        return Ptr(self.ostream, st.pc.norm(self.ga(st, 'S') + self.ga(st, 'ab')))

    def drainedvec(self, E, st):
        """nothing pending: note that all of the output was accepted, if that follows"""
        d = st.pc.norm(self.ga(st, 'A') - self.ga(st, 'W'))
        if not d.isc() and E.lia.prove_eq(st.pc, d):
            st.pc = st.pc.eq(d)

    def iovstore(self, E, st, p, ty, v, n):
        E.checkrange(st, p, n, True)
        j, f = self.iovfield(E, st, p, ty)
        j = aff(j)
        k, q = self.ga(st, 'k'), self.ga(st, 'q')
        if isinstance(v, Ptr) and v.reg is self.ostream:
            self.head(E, st, j)
            self.s(st, 'ab', aff(v.off) - self.ga(st, 'S'))
            return
        L = st.env.get('$L')
        if L is not None and E.lia.prove_eq(st.pc, self.ga(st, 'ab')) and E.lia.prove_eq(st.pc, self.ga(st, 'al')) \
                and E.ge(st, self.ga(st, 'W') - self.ga(st, 'S') - aff(L)):
            # all of entry k was accepted
            self.s(st, 'S', self.ga(st, 'S') + aff(L))
            k = k + 1
            self.s(st, 'k', k)
            st.env.pop('$L', None)
        empty = E.lia.prove_eq(st.pc, k - q) and '$pb' not in st.env and '$pl' not in st.env
        if not E.lia.prove_eq(st.pc, j - q):
            if not empty and f == 'len' and (E.lia.prove_eq(st.pc, j - k) or E.lia.prove_eq(st.pc, j - k - 1)) and E.ge(st, q - k - 1):
                self.head(E, st, j)
                L = self.lenof(E, st)
                self.s(st, 'al', L - aff(E.norm_u(st, v, E.ptrw)))
                return
            ok = empty and E.lia.prove_eq(st.pc, self.ga(st, 'A') - self.ga(st, 'W'))
            E.ob(st, 'queue', 'a new entry of the output vector goes to its end', ok)
            self.s(st, 'k', j)
            self.s(st, 'q', j)
            self.s(st, 'S', self.ga(st, 'A'))
            self.s(st, 'ab', 0)
            self.s(st, 'al', 0)
            st.env.pop('$L', None)
        elif empty:
            self.drainedvec(E, st)
            self.s(st, 'S', self.ga(st, 'A'))
            self.s(st, 'ab', 0)
            self.s(st, 'al', 0)
            st.env.pop('$L', None)
        if f == 'base':
            if not isinstance(v, Ptr):
                raise Unsupported('entry of the output vector with base %r' % (v,))
            st.env['$pb'] = v
        else:
            st.env['$pl'] = E.norm_u(st, E.toInt(st, v, E.ptrw), E.ptrw)
        if '$pb' in st.env and '$pl' in st.env:
            b, l = st.env.pop('$pb'), st.env.pop('$pl')
            st.env['$iov'] = Fn(p.reg.name)
            self.emit(E, st, b, l)
            self.s(st, 'q', self.ga(st, 'q') + 1)

    # ------------------------------------------------------------ output monitor
    def emit(self, E, st, p, n):
        """n bytes at p are handed to the output"""
        n = aff(n)
        if n.isc() and n.c == 0:
            return
        if not isinstance(p, Ptr) or p.idx:
            raise Unsupported('output from %r' % (p,))
        if p.reg.kind == 'null':
            E.ob(st, 'null', 'no output through a null pointer', False)
            raise PathEnd()
        if p.reg.kind == 'tab' or p.reg.kind == 'cell':
            off = st.pc.norm(aff(p.off))
            n = st.pc.norm(n)
            if not n.isc() and E.ge(st, n) and E.ge(st, 1 - n):
                n = Aff(E.enum_small(st, n, 1))
            if n.isc() and n.c == 0:
                return
            if not off.isc() or not n.isc() or n.c > 16:
                raise Unsupported('output of %r bytes from %s' % (n, p.reg.name))
            bs = [E.load(st, Ptr(p.reg, off.c + j), ('i', 8)) for j in range(n.c)]
            for b in bs:
                self.newline(E, st, b == 10)
            return
        if p.reg.kind != 'buf':
            raise Unsupported('output from %s' % p.reg.name)
        r = p.reg
        self.alive(E, st, r)
        off = aff(p.off)
        E.ob(st, 'read-bounds', 'output of %r bytes at %s%+r inside the buffer' % (n, r.name, off), lambda: E.ge(st, n) and E.ge(st, off) and E.ge(st, aff(r.size) - off - n))
        kd = st.env.get('$k:' + r.name)
        want = 'dec' if self.dec else 'text'
        ok = isinstance(kd, Fn) and kd.name == want
        lo, hi, d = (self.ga(st, '%s:%s' % (x, r.name)) for x in ('lo', 'hi', 'd'))
        T = self.ga(st, 'T')
        E.ob(st, 'order', 'output comes from the buffer the library wrote to', ok, lambda: 'buffer %s holds %r' % (r.name, kd))
        E.ob(st, 'order', 'each byte of the result goes out once and in order', lambda: E.lia.prove_eq(st.pc, off + d - T), lambda: 'position %r, next is %r' % (st.pc.norm(off + d), st.pc.norm(T)))
        E.ob(st, 'order', 'no byte beyond what the library produced goes out', lambda: E.ge(st, off - lo) and E.ge(st, hi - off - n), lambda: 'bytes %r to %r of %r to %r' % (off, off + n, lo, hi))
        if self.variant == 'encw':
            c, gw = self.ga(st, 'c'), self.ga(st, 'gw')
            E.ob(st, 'wrap', 'no line is longer than the column count', lambda: E.ge(st, gw - c - n), lambda: 'column %r + %r, limit %r' % (c, n, gw))
            self.s(st, 'c', c + n)
        self.s(st, 'T', T + n)
        self.s(st, 'A', self.ga(st, 'A') + n)

    def newline(self, E, st, isnl):
        E.ob(st, 'order', 'nothing but the result and newlines goes out', isnl)
        if self.dec or self.variant == 'enc0':
            E.ob(st, 'wrap', 'no newline goes out', False)
        else:
            c, gw = self.ga(st, 'c'), self.ga(st, 'gw')

            def ok():
                if E.lia.prove_eq(st.pc, c - gw):
                    return True
                return self.g(st, 'fin') == 1 and E.lia.prove_eq(st.pc, self.ga(st, 'T') - self.ga(st, 'P')) and E.ge(st, c - 1)
            E.ob(st, 'wrap', 'a newline ends a full line, or the last one', ok, lambda: 'column %r of %r' % (c, gw))
            self.s(st, 'c', 0)
        self.s(st, 'A', self.ga(st, 'A') + 1)

    # ------------------------------------------------------------ calls
    def choose(self, st, alts):
        """one of several outcomes; each a list of facts"""
        ch = st.ext.get('ch', ())
        if self.nch < len(ch):
            self.nch += 1
            return ch[self.nch - 1]

        def f(s, j):
            s.ext['ch'] = ch + (j,)
        raise Fork([[('do', lambda s, j=j: f(s, j))] + list(a) for j, a in enumerate(alts) if a is not None])

    def sym(self, st, tag):
        """a symbol that stays the same while the call is executed again after a case split"""
        m = st.ext.get('cs', ())
        for k, v in m:
            if k == tag:
                return Aff.sym(v)
        v = fresh('c')
        st.ext['cs'] = m + ((tag, v),)
        st.pc = st.pc.decl(v)
        return Aff.sym(v)

    def call(self, E, st, i, name, args):
        h = getattr(self, 'c_' + name, None)
        if name in ('base64_stream_encode', 'base64_stream_decode', 'base64_stream_encode_final', 'base64_stream_encode_init', 'base64_stream_decode_init'):
            h = getattr(self, 'l_' + name[14:])
        if h is None:
            raise Unsupported('call of %s' % name)
        self.nch = 0
        self.ins = i
        r = h(E, st, *[v for _, v in args])
        st.ext.pop('ch', None)
        st.ext.pop('cs', None)
        return r

    def icall(self, E, st, i, f, args):
        raise Unsupported('indirect call')

    def w(self, E):
        return E.ptrw

    def num(self, E, st, v):
        v = E.toInt(st, v, E.ptrw)
        return aff(E.norm_u(st, v, E.ptrw))

    def clobber(self, E, st):
        st.mem['ERRNO'] = {0: (4, t.var(32, ('h', 'errno', fresh('e'))))}

    def seterrno(self, st, v):
        st.mem['ERRNO'] = {0: (4, v)}

    def filepos(self, E, st, fp):
        if not isinstance(fp, Ptr) or fp.reg is not self.file:
            raise Unsupported('stream %r' % (fp,))
        o = st.pc.norm(aff(fp.off))
        for k in range(4):
            if E.decide_eq(st, o - k):
                return k
        raise Unsupported('stream %r' % (fp,))

    # ---- options
    def cstr(self, E, p):
        if not isinstance(p, Ptr) or p.reg.kind != 'tab' or not isinstance(p.off, int):
            raise Unsupported('string %r' % (p,))
        b = p.reg.data[p.off:]
        if any(not isinstance(x, int) for x in b) or 0 not in b:
            raise Unsupported('string')
        return bytes(b[:b.index(0)]).decode('latin1')

    def checkopts(self, E, st, s, lo):
        s = self.cstr(E, s)
        short = {}
        k = 0
        while k < len(s) and s[k] in '+-:':
            k += 1
        while k < len(s):
            n = 0
            while k + 1 + n < len(s) and s[k + 1 + n] == ':':
                n += 1
            short[s[k]] = n
            k += 1 + n
        long = {}
        if not isinstance(lo, Ptr) or lo.reg.kind != 'tab' or lo.off != 0:
            raise Unsupported('long options')
        d = lo.reg.data
        pb = E.ptrw // 8
        es = 4 * pb
        for o in range(0, len(d), es):
            if all(x == 0 for x in d[o:o + es]):
                break
            nm = self.cstr(E, E.const(('ptr',), d[o][1]))
            has = int.from_bytes(bytes(d[o + pb:o + pb + 4]), 'little' if not self.mod.bigendian else 'big')
            val = int.from_bytes(bytes(d[o + 3 * pb:o + 3 * pb + 4]), 'little' if not self.mod.bigendian else 'big')
            if any(x != 0 for x in d[o + 2 * pb:o + 3 * pb]):
                val = -1
            long[nm] = (has, chr(val) if 0 <= val < 0x110000 else '?')
        for nm, (has, c) in OPTS.items():
            kd = {'i': 'opt-dec', 'n': 'opt-dec', 'w': 'opt-enc'}.get(c, 'opt')
            E.ob(st, kd, 'option -%s is known and takes %s' % (c, 'an argument' if has else 'none'), short.get(c) == has, backend='static')
            E.ob(st, kd, 'option --%s is the same as -%s' % (nm, c), long.get(nm) == (has, c), backend='static')
        return short, long

    def c_getopt_long(self, E, st, argc, argv, s, lo, ix):
        short, long = self.checkopts(E, st, s, lo)
        others = sorted((set(short) | {c for _, c in long.values()}) - {c for _, c in OPTS.values()})
        if others:
            raise Unsupported('further options')
        O = self.ga(st, 'opts')
        more = [('ge', O - 1)]
        name = 'o%s' % fresh('o')
        cs = dict(st.ext.get('cs', ()))
        if 'oa' not in cs:
            st.ext['cs'] = st.ext.get('cs', ()) + (('oa', name),)
        name = dict(st.ext['cs'])['oa']
        b0 = t.var(8, ('h', 'oa0', name))
        opt = self.variant == 'opt'
        j = self.choose(st, [[], more, more, more, more + [('bv', t.eq(b0, t.const(8, 0)), False)],
                             more if opt else None, more + [('bv', t.eq(b0, t.const(8, 0)), True)] if opt else None, more if opt else None, more if opt else None])
        if j == 0:
            ind = self.sym(st, 'ind')
            argc = Aff.sym('argc')
            if not opt:
                gd = self.ga(st, 'gd')
                if E.decide_eq(st, gd - (1 if self.dec else 0)) is False:
                    raise PathEnd()
                if self.dec:
                    if not E.decide_eq(st, self.ga(st, 'gi') - (self.variant == 'deci')):
                        raise PathEnd()
                    if self.variant != 'deci' and not E.decide_eq(st, self.ga(st, 'gn') - (self.variant == 'decn')):
                        raise PathEnd()
                else:
                    if E.decide_ge(st, self.ga(st, 'gw') - 1) != (self.variant == 'encw'):
                        raise PathEnd()
            st.pc = st.pc.ge(ind - 1).ge(argc - ind)
            st.mem['@optind'] = {0: (4, ind)}
            self.s(st, 'ind', ind)
            if E.decide_ge(st, argc - ind - 2):
                # more than one file is refused
                if not opt:
                    raise PathEnd()
                self.s(st, 'vfail', 1)
            return M(32)
        self.s(st, 'opts', O - 1)
        c = ' dinwhw:?'[j]
        if c in 'din':
            self.s(st, 'g' + c, 1)
        if c == 'h':
            self.s(st, 'gh', 1)
        if c == 'w':
            st.env['$oa'] = Fn(name)
            st.env.pop('$oe', None)
            st.mem['@optarg'] = {0: (E.ptrw // 8, Ptr(self.optarg, 0))}
            if j == 6:
                self.s(st, 'vfail', 1)
        if c in ':?':
            self.s(st, 'vfail', 1)
        return ord(c)

    def c_strtol(self, E, st, s, end, base):
        if not isinstance(s, Ptr) or s.reg is not self.optarg or s.off != 0 or base != 10:
            raise Unsupported('strtol')
        oa = st.env.get('$oa')
        if not isinstance(oa, Fn):
            raise Unsupported('strtol')
        lw = 8 * self.mod.size(self.ins.ty)
        v = self.sym(st, 'v')
        e = self.sym(st, 'e')
        be = t.var(8, ('h', 'oae', oa.name))
        top = (1 << (lw - 1)) - 1
        opt = self.variant == 'opt'
        j = self.choose(st, [[('ge', v), ('ge', top - v), ('bv', t.eq(be, t.const(8, 0)), True)],
                             [('ge', -1 - v), ('ge', v + top + 1)] if opt else None,
                             [('ge', v), ('ge', top - v), ('bv', t.eq(be, t.const(8, 0)), False)] if opt else None])
        st.pc = st.pc.ge(e)
        self.s(st, 'oe', e)
        if isinstance(end, Ptr) and end.reg.kind == 'cell':
            E.store(st, end, ('ptr',), Ptr(self.optarg, e))
        elif not (isinstance(end, Ptr) and end.reg.kind == 'null'):
            raise Unsupported('strtol')
        if j:
            self.s(st, 'vfail', 1)
        elif self.g(st, 'vfail') == 0:
            self.s(st, 'gw', v)
        self.clobber(E, st)
        return v

    def c_strcmp(self, E, st, a, b):
        if isinstance(b, Ptr) and b.reg is self.args:
            a, b = b, a
        if not (isinstance(a, Ptr) and a.reg is self.args) or self.cstr(E, b) != '-':
            raise Unsupported('strcmp')
        z = self.sym(st, 'z')
        j = self.choose(st, [[], [('ge', z - 1), ('ge', (1 << 31) - 1 - z)]])
        self.s(st, 'dash', 1 if j == 0 else 0)
        return 0 if j == 0 else z

    def c_fopen(self, E, st, p, mode):
        m = self.cstr(E, mode)
        E.ob(st, 'opt', 'the input file is opened for reading', m in ('r', 'rb', 'rbe', 're'))
        ok = isinstance(p, Ptr) and p.reg is self.args and E.lia.prove_eq(st.pc, aff(p.off) - self.ga(st, 'ind') * ARG)
        E.ob(st, 'opt', 'the file that is opened is the one that was named', ok)
        j = self.choose(st, [[], [] if self.variant == 'opt' else None])
        if j == 0:
            self.s(st, 'open', 1)
            return Ptr(self.file, 3)
        self.s(st, 'vfail', 1)
        self.clobber(E, st)
        return Ptr(E.nullreg(), 0)

    # ---- memory
    def c_malloc(self, E, st, n):
        n = E.toInt(st, n, E.ptrw)
        if not isinstance(n, int):
            raise Unsupported('malloc of %r' % (n,))
        name = 'M' + self.ins.res
        j = self.choose(st, [[], [] if self.variant == 'opt' else None])
        if j == 1:
            self.s(st, 'vfail', 1)
            self.clobber(E, st)
            return Ptr(E.nullreg(), 0)
        r = E.regions.get(name)
        if r is None or r.size != n:
            r = E.regions[name] = Region(name, 'buf', n, 16)
        self.newbuf(st, name)
        return Ptr(r, 0)

    def c_free(self, E, st, p):
        if isinstance(p, Ptr) and p.reg.kind == 'null':
            return
        if p is UNDEF or not isinstance(p, Ptr):
            E.ob(st, 'mem', 'free of an initialised pointer', False)
            return
        if p.reg.kind == 'cell':
            E.ob(st, 'mem', 'free of an allocated buffer', False)
            return
        E.ob(st, 'mem', 'free of an allocated buffer, once', p.reg.kind == 'buf' and p.reg.name[0] == 'M' and st.pc.norm(aff(p.off)) == Aff(0) and st.env.get('$free:' + p.reg.name) == 0)
        self.drained(E, st, p.reg)
        self.s(st, 'free:' + p.reg.name, 1)

    def drained(self, E, st, r):
        """nothing in the output vector can still refer to the buffer"""
        kd = st.env.get('$k:' + r.name)
        if isinstance(kd, Fn) and kd.name == 'in':
            return
        E.ob(st, 'queue', 'a buffer is not given up while output from it is pending',
             lambda: E.lia.prove_eq(st.pc, self.ga(st, 'q') - self.ga(st, 'k')) or E.lia.prove_eq(st.pc, self.ga(st, 'A') - self.ga(st, 'W')) or self.failed(st))

    def failed(self, st):
        return self.g(st, 'iofail') == 1 or self.g(st, 'vfail') == 1

    # ---- messages
    def c_fprintf(self, E, st, fp, *a):
        k = self.filepos(E, st, fp)
        if k == 1:
            E.ob(st, 'order', 'nothing but the result goes to standard output', self.g(st, 'gh') == 1)
        elif k != 2:
            E.ob(st, 'order', 'messages go to standard error', False)
        self.clobber(E, st)
        return t.var(32, ('h', 'fprintf', fresh('f')))

    def c_fputs(self, E, st, s, fp):
        return self.c_fprintf(E, st, fp, s)

    def c_fwrite(self, E, st, s, a, b, fp):
        # message text only (the compiler's form of fprintf)
        if not isinstance(s, Ptr) or s.reg.kind != 'tab':
            raise Unsupported('buffered output')
        self.c_fprintf(E, st, fp, s)
        return E.havoc(('i', E.ptrw), 'fwrite')

    def c_fputc(self, E, st, c, fp):
        return self.c_fprintf(E, st, fp, c)

    def c_perror(self, E, st, s):
        self.clobber(E, st)

    def c_strerror(self, E, st, n):
        self.clobber(E, st)
        return Ptr(self.msg, 0)

    def c___errno_location(self, E, st):
        return Ptr(self.errno, 0)

    def c_exit(self, E, st, code):
        E.exits += 1
        self.exit(E, st, code)
        raise PathEnd()

    def c_fclose(self, E, st, fp):
        k = self.filepos(E, st, fp)
        self.clobber(E, st)
        return 0

    def c_fflush(self, E, st, fp):
        self.clobber(E, st)
        return 0

    # ---- input
    def infile(self, E, st, fp):
        k = self.filepos(E, st, fp)
        E.ob(st, 'opt', 'standard input is read when no file, or "-", is given; else the named file', k == self.g(st, 'src'))

    def c_fread(self, E, st, p, size, n, fp):
        if size != 1:
            raise Unsupported('fread of items')
        n = st.pc.norm(self.num(E, st, n))
        self.infile(E, st, fp)
        if not isinstance(p, Ptr) or p.reg.kind != 'buf' or p.idx:
            raise Unsupported('input to %r' % (p,))
        r = p.reg
        off = aff(p.off)
        self.alive(E, st, r)
        E.ob(st, 'write-bounds', 'input of up to %r bytes at %s%+r inside the buffer' % (n, r.name, off), lambda: E.ge(st, off) and E.ge(st, aff(r.size) - off - n))
        I = self.ga(st, 'I')
        self.s(st, 'rc', n)
        rd = self.sym(st, 'r')
        j = self.choose(st, [[('eq', rd - n), ('ge', self.N - I - n)],
                             [('eq', rd - self.N + I), ('ge', n - 1 - rd), ('ge', rd)],
                             [('ge', rd), ('ge', n - 1 - rd), ('ge', self.N - I - rd)] if self.any else None])
        rd = st.pc.norm(rd)
        kd = st.env.get('$k:' + r.name)
        if isinstance(kd, Fn) and kd.name != 'in':
            self.drained(E, st, r)
        lo, hi, d = (self.ga(st, '%s:%s' % (x, r.name)) for x in ('lo', 'hi', 'd'))
        if isinstance(kd, Fn) and kd.name == 'in' and not E.lia.prove_eq(st.pc, hi - lo) and E.lia.prove_eq(st.pc, hi - off) and E.lia.prove_eq(st.pc, off + d - I):
            self.s(st, 'hi:' + r.name, hi + rd)
        else:
            st.env['$k:' + r.name] = Fn('in')
            self.s(st, 'lo:' + r.name, off)
            self.s(st, 'hi:' + r.name, off + rd)
            self.s(st, 'd:' + r.name, I - off)
        self.s(st, 'I', I + rd)
        if j == 1:
            self.s(st, 'eof', 1)
        if j == 2:
            self.s(st, 'rerr', 1)
            self.s(st, 'iofail', 1)
        self.clobber(E, st)
        return rd.c if rd.isc() else rd

    def c_ferror(self, E, st, fp):
        if self.filepos(E, st, fp) in (1, 2):
            return 0
        return self.flag(E, st, 'rerr')

    def c_feof(self, E, st, fp):
        return self.flag(E, st, 'eof')

    def flag(self, E, st, n):
        if E.decide_eq(st, self.ga(st, n)):
            return 0
        z = self.sym(st, 'z')
        st.pc = st.pc.ge(z - 1).ge((1 << 31) - 1 - z)
        return z

    def c_memchr(self, E, st, p, ch, n):
        n = st.pc.norm(self.num(E, st, n))
        if not isinstance(p, Ptr) or p.reg.kind != 'buf' or p.idx or not isinstance(ch, int):
            raise Unsupported('memchr')
        r = p.reg
        off = aff(p.off)
        kd = st.env.get('$k:' + r.name)
        if not isinstance(kd, Fn) or kd.name != 'in' or not self.dec:
            raise Unsupported('memchr')
        lo, hi, d = (self.ga(st, '%s:%s' % (x, r.name)) for x in ('lo', 'hi', 'd'))
        E.ob(st, 'feed', 'only bytes that were read are looked at', lambda: E.ge(st, off - lo) and E.ge(st, hi - off - n))
        at = self.sym(st, 'at')
        j = self.choose(st, [[('eq', at - n)], [('ge', at), ('ge', n - 1 - at)]])
        # bytes before the match differ from ch: that makes them clean only if ch is all there is to skip
        if self.skip <= {ch & 255}:
            C = self.ga(st, 'C')
            self.advance(E, st)
            if E.lia.prove_eq(st.pc, C - off - d):
                self.s(st, 'C', C + at)
        if j == 0:
            return Ptr(E.nullreg(), 0)
        v = E.srcvar(st.pc.norm(off + d + at))
        st.allowed[v] = (ch & 255,)
        return Ptr(r, st.pc.norm(off + at))

    # ---- output
    def c_write(self, E, st, fd, p, n):
        n = st.pc.norm(self.num(E, st, n))
        E.ob(st, 'order', 'output goes to standard output', fd == 1)
        E.ob(st, 'queue', 'nothing overtakes the output vector', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'A') - self.ga(st, 'W')))
        r = self.outcome(E, st, n)
        if r is None:
            return M(E.ptrw)
        if not isinstance(p, Ptr):
            raise Unsupported('output from %r' % (p,))
        self.emit(E, st, p, r)
        self.s(st, 'W', self.ga(st, 'W') + r)
        return r.c if r.isc() else r

    def outcome(self, E, st, n):
        """bytes accepted of n, or None with errno set"""
        if not self.any:
            return n
        fuel = self.ga(st, 'fuel')
        e = self.sym(st, 'errno')
        r = self.sym(st, 'r')
        j = self.choose(st, [[('ge', r - 1), ('ge', n - r)], [('eq', n), ('eq', r)], [('ge', fuel - 1)],
                             [('ge', e - 5), ('ge', 4095 - e)], [('ge', e - 1), ('ge', 3 - e)]])
        self.s(st, 'zw', int(j == 1))
        if j < 2:
            return st.pc.norm(r)
        if j == 2:
            self.s(st, 'fuel', fuel - 1)
            self.seterrno(st, 4)
        else:
            self.s(st, 'iofail', 1)
            self.seterrno(st, st.pc.norm(e))
        return None

    def c_writev(self, E, st, fd, p, cnt):
        E.ob(st, 'order', 'output goes to standard output', fd == 1)
        if not isinstance(p, Ptr) or p.reg.kind != 'iov' or p.idx:
            raise Unsupported('writev of %r' % (p,))
        cnt = E.toInt(st, cnt, 32)
        cnt = aff(E.norm_s(st, cnt, 32))
        j, rem = E.residue(st, p.off, 2 * (E.ptrw // 8))
        if rem:
            raise Unsupported('odd output vector')
        E.ob(st, 'queue', 'writev gets between 1 and IOV_MAX entries', lambda: E.ge(st, cnt - 1) and E.ge(st, IOVMAX - cnt))
        if '$pb' in st.env or '$pl' in st.env:
            raise Unsupported('writev of an incomplete entry')
        self.head(E, st, j)
        S, ab, al = self.ga(st, 'S'), self.ga(st, 'ab'), self.ga(st, 'al')
        E.ob(st, 'queue', 'base and length of a partly written entry are adjusted alike', lambda: E.lia.prove_eq(st.pc, ab - al), lambda: '%r and %r' % (ab, al))
        E.ob(st, 'queue', 'writing resumes at the first byte not accepted yet', lambda: E.lia.prove_eq(st.pc, S + ab - self.ga(st, 'W')),
             lambda: 'resumes at %r, accepted %r' % (st.pc.norm(S + ab), st.pc.norm(self.ga(st, 'W'))))
        E.ob(st, 'queue', 'writev gets all pending entries and no others', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'k') + cnt - self.ga(st, 'q')),
             lambda: 'entries %r..%r, count %r' % (self.ga(st, 'k'), self.ga(st, 'q'), cnt))
        # what is pending is A-W bytes; an adjusted entry is now a shorter one
        n = st.pc.norm(self.ga(st, 'A') - self.ga(st, 'W'))
        L = st.env.get('$L')
        r = self.outcome(E, st, n)
        if not (st.pc.norm(ab) == Aff(0) and st.pc.norm(al) == Aff(0)):
            self.s(st, 'S', S + ab)
            if L is not None:
                self.s(st, 'L', aff(L) - al)
            self.s(st, 'ab', 0)
            self.s(st, 'al', 0)
        if r is None:
            return M(E.ptrw)
        self.s(st, 'W', self.ga(st, 'W') + r)
        return r.c if r.isc() else r

    # ---- the library
    def l_encode_init(self, E, st, s, flags):
        self.init(E, st, s, 0)

    def l_decode_init(self, E, st, s, flags):
        self.init(E, st, s, 1)

    def init(self, E, st, s, dec):
        if not isinstance(s, Ptr) or s.reg.kind != 'cell' or s.off != 0:
            raise Unsupported('stream state %r' % (s,))
        E.ob(st, 'opt', 'the tool %s exactly if asked to' % ('decodes' if dec else 'encodes'), lambda: E.lia.prove_eq(st.pc, self.ga(st, 'gd') - dec))
        E.ob(st, 'opt', 'no work starts after a refused option', lambda: self.g(st, 'vfail') == 0)
        if self.variant == 'opt':
            E.exits += 1
            raise PathEnd()
        # the file to read is settled by now
        if self.g(st, 'dash') == 1 or (st.env.get('$ind') is not None and E.ge(st, self.ga(st, 'ind') - Aff.sym('argc'))):
            self.s(st, 'src', 0)
        elif self.g(st, 'open') == 1 and self.g(st, 'dash') == 0:
            self.s(st, 'src', 3)
        else:
            self.s(st, 'src', 9)
        self.s(st, 'dash', 0)
        self.s(st, 'open', 0)
        E.ob(st, 'call', 'one stream', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'est')))
        st.mem[s.reg.name] = {}
        st.env['$sreg'] = Fn(s.reg.name)
        self.s(st, 'est', 2 if dec else 1)

    def stream(self, E, st, s, want):
        x = st.env.get('$sreg')
        ok = isinstance(s, Ptr) and isinstance(x, Fn) and s.reg.name == x.name and s.off == 0 and self.g(st, 'est') == want and not st.mem.get(s.reg.name)
        E.ob(st, 'call', 'the stream state is the initialised one', ok)
        if not ok:
            raise PathEnd()

    def take(self, E, st, p, n):
        """position in the input of the n bytes at p"""
        if not isinstance(p, Ptr) or p.reg.kind != 'buf' or p.idx:
            raise Unsupported('input from %r' % (p,))
        r = p.reg
        self.alive(E, st, r)
        kd = st.env.get('$k:' + r.name)
        off = aff(p.off)
        lo, hi, d = (self.ga(st, '%s:%s' % (x, r.name)) for x in ('lo', 'hi', 'd'))
        E.ob(st, 'feed', 'the library gets input bytes', isinstance(kd, Fn) and kd.name == 'in', lambda: 'buffer %s holds %r' % (r.name, kd))
        E.ob(st, 'feed', 'the library gets only bytes that were read', lambda: E.ge(st, off - lo) and E.ge(st, hi - off - n) and E.ge(st, n), lambda: 'bytes %r to %r of %r to %r' % (off, off + n, lo, hi))
        return off + d

    def give(self, E, st, p, o, cap4, what):
        """the library writes o bytes at p, using at most cap4/4 bytes of room"""
        if not isinstance(p, Ptr) or p.reg.kind != 'buf' or p.idx:
            raise Unsupported('library output to %r' % (p,))
        r = p.reg
        self.alive(E, st, r)
        off = aff(p.off)
        E.ob(st, 'write-bounds', 'the library has room for its output in %s' % r.name, lambda: E.ge(st, off) and E.ge(st, 4 * (aff(r.size) - off) - cap4),
             lambda: '%s: offset %r, needs %r/4 of %r' % (r.name, off, cap4, r.size))
        kd = st.env.get('$k:' + r.name)
        lo, hi, d = (self.ga(st, '%s:%s' % (x, r.name)) for x in ('lo', 'hi', 'd'))
        P, T = self.ga(st, 'P'), self.ga(st, 'T')
        if isinstance(kd, Fn) and kd.name == what and E.lia.prove_eq(st.pc, hi - off) and E.lia.prove_eq(st.pc, off + d - P):
            self.s(st, 'hi:' + r.name, hi + o)
        else:
            self.drained(E, st, r)
            st.env['$k:' + r.name] = Fn(what)
            self.s(st, 'lo:' + r.name, off)
            self.s(st, 'hi:' + r.name, off + o)
            self.s(st, 'd:' + r.name, P - off)
        self.s(st, 'P', P + o)

    def setlen(self, E, st, pl, o):
        if not isinstance(pl, Ptr) or pl.reg.kind != 'cell':
            raise Unsupported('output length at %r' % (pl,))
        o = st.pc.norm(o)
        E.store(st, pl, ('i', E.ptrw), o.c if o.isc() else o)

    def l_encode(self, E, st, s, p, n, out, pl):
        n = st.pc.norm(self.num(E, st, n))
        self.stream(E, st, s, 1)
        F = self.ga(st, 'F')
        pos = self.take(E, st, p, n)
        E.ob(st, 'feed', 'the input is encoded in order, without gap or repetition', lambda: E.lia.prove_eq(st.pc, pos - F), lambda: 'position %r, next is %r' % (st.pc.norm(pos), st.pc.norm(F)))
        E.ob(st, 'call', 'source and output do not overlap', isinstance(out, Ptr) and out.reg is not p.reg)
        o = self.sym(st, 'o')
        # at most two bytes were left over: 4*floor((n+2)/3) characters
        st.pc = st.pc.ge(o).ge(4 * (n + 2) - 3 * o)
        b = fresh('b')
        st.pc = st.pc.decl(b).eq(o - 4 * Aff.sym(b))
        q = self.sym(st, 'cap')
        st.pc = st.pc.ge(n + 2 - 3 * q).ge(3 * q - n)
        self.give(E, st, out, o, 16 * q, 'text')
        self.s(st, 'F', F + n)
        self.setlen(E, st, pl, o)

    def l_encode_final(self, E, st, s, out, pl):
        self.stream(E, st, s, 1)
        o = self.sym(st, 'o')
        st.pc = st.pc.ge(o).ge(4 - o)
        E.ob(st, 'feed', 'encoding is finished only at the end of the input', lambda: E.lia.prove_eq(st.pc, self.N - self.ga(st, 'I')) and E.lia.prove_eq(st.pc, self.ga(st, 'I') - self.ga(st, 'F')))
        E.ob(st, 'ioerr', 'encoding is not finished after a failed read', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'rerr')))
        self.give(E, st, out, o, Aff(16), 'text')
        self.s(st, 'est', 3)
        self.s(st, 'fin', 1)
        self.setlen(E, st, pl, o)

    def l_decode(self, E, st, s, p, n, out, pl):
        n = st.pc.norm(self.num(E, st, n))
        self.stream(E, st, s, 2)
        self.advance(E, st)
        F, C = self.ga(st, 'F'), self.ga(st, 'C')
        pos = self.take(E, st, p, n)
        E.ob(st, 'feed', 'only bytes to be ignored are left out', lambda: E.lia.prove_eq(st.pc, pos - F), lambda: 'position %r, next is %r' % (st.pc.norm(pos), st.pc.norm(F)))
        E.ob(st, 'feed', 'no empty piece is decoded', lambda: E.ge(st, n - 1))
        if self.skip:
            E.ob(st, 'feed', 'bytes to be ignored are not decoded', lambda: E.ge(st, C - pos - n), lambda: 'bytes up to %r, known clean up to %r' % (st.pc.norm(pos + n), st.pc.norm(C)))
        E.ob(st, 'call', 'source and output do not overlap', isinstance(out, Ptr) and out.reg is not p.reg)
        o = self.sym(st, 'o')
        j = self.choose(st, [[('ge', o), ('ge', 3 * n + 3 - 4 * o), ('ge', n - o)], [('ge', o), ('ge', 3 * n + 3 - 4 * o), ('ge', n - o)]])
        self.give(E, st, out, o, 3 * n, 'dec')
        self.s(st, 'F', pos + n)
        if E.ge(st, pos + n - C):
            self.s(st, 'C', pos + n)
        self.setlen(E, st, pl, o)
        if j == 1:
            self.s(st, 'vfail', 1)
            return 0
        return 1

    # ------------------------------------------------------------ end of the program
    def exit(self, E, st, v):
        v = E.toInt(st, v, 32)
        v = aff(E.norm_s(st, v, 32))
        if E.lia.prove_eq(st.pc, self.ga(st, 'gh') - 1):
            return
        if not E.decide_eq(st, v):
            E.ob(st, 'exit-spurious', 'a failure status is returned only after a failure', self.failed(st))
            return
        E.ob(st, 'ioerr', 'a failed read or write is reported by the exit status', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'iofail')))
        E.ob(st, 'exit', 'refused options and malformed text are reported by the exit status', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'vfail')))
        E.ob(st, 'exit', 'success means that the whole input was dealt with', lambda: E.lia.prove_eq(st.pc, self.N - self.ga(st, 'F')) and E.lia.prove_eq(st.pc, self.ga(st, 'eof') - 1))
        E.ob(st, 'exit', 'success means that the stream was finished', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'est') - (2 if self.dec else 3)))
        E.ob(st, 'exit-io', 'success means that the whole result went out', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'T') - self.ga(st, 'P')))
        E.ob(st, 'exit-io', 'success means that everything was accepted', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'A') - self.ga(st, 'W')))
        if self.variant == 'encw':
            E.ob(st, 'wrap', 'the last line ends with a newline', lambda: E.lia.prove_eq(st.pc, self.ga(st, 'c')))


class EmuWritev(Cli):
    """The tool's own writev, for systems without one: the contract that c_writev assumes of the system's.
    The bytes accepted are a prefix of the concatenated entries, their number is returned, and an error is
    returned only when nothing was accepted.  Positions: the concatenation of the entries is the stream."""
    notes = 'emulated writev'

    def __init__(self, mod, lay, eofs, io):
        super().__init__(mod, lay, eofs, 'encw', io)

    def starts(self, E):
        st = State()
        st.block = E.fn.entry
        self.ostream = E.regions['OSTREAM'] = Region('OSTREAM', 'ostream', None)
        self.errno = E.regions['ERRNO'] = Region('ERRNO', 'cell', 4, 4)
        iov = Region('IOV', 'iov', IOVMAX * 2 * (E.ptrw // 8), E.ptrw // 8)
        iov.count = IOVMAX
        E.regions['IOV'] = iov
        if len(E.fn.params) != 3:
            raise Unsupported('signature')
        pc = st.pc
        for s, lo, hi in (('cnt', 1, IOVMAX), ('total', 0, (1 << (E.ptrw - 2)) - 1), ('fd', 0, (1 << 31) - 1), ('fuel', 0, 1 << 40)):
            pc = pc.decl(s).ge(Aff.sym(s) - lo).ge(hi - Aff.sym(s))
        st.pc = pc
        for f in FLAGS + ZERO:
            st.env['$' + f] = 0
        st.env['$A'] = Aff.sym('total')
        st.env['$q'] = Aff.sym('cnt')
        st.env['$fuel'] = Aff.sym('fuel')
        st.mem['ERRNO'] = {0: (4, t.var(32, ('h', 'errno', 'old')))}
        for (_, p), v in zip(E.fn.params, (Aff.sym('fd'), Ptr(iov, 0), Aff.sym('cnt'))):
            st.env[p] = v
        self.resets, self.feeds = set(), set()
        return [st]

    def extra_candidates(self, E, val, comp0):
        out = super().extra_candidates(E, val, comp0)
        A, W, k, q = (val.get(('v', '$' + n)) for n in 'AWkq')
        if all(x is not None for x in (A, W, k, q)):
            # no bytes left without entries left
            out.append((('<', 'aW'), (1 << (E.ptrw - 1)) * (q - k) - A + W))
        return out

    def segment_end(self, E, st):
        super().segment_end(E, st)
        self.s(st, 'zw', 0)

    def c_write(self, E, st, fd, p, n):
        n = st.pc.norm(self.num(E, st, n))
        E.ob(st, 'order', 'output goes to the descriptor given', lambda: E.lia.prove_eq(st.pc, aff(E.norm_s(st, E.toInt(st, fd, 32), 32)) - Aff.sym('fd')))
        if not isinstance(p, Ptr) or p.reg is not self.ostream:
            raise Unsupported('output from %r' % (p,))
        W, S = self.ga(st, 'W'), self.ga(st, 'S')
        off = st.pc.norm(aff(p.off))
        E.ob(st, 'order', 'the next byte written is the first one not accepted yet', lambda: E.lia.prove_eq(st.pc, off - W),
             lambda: 'writes from %r, accepted %r' % (off, st.pc.norm(W)))
        L = self.lenof(E, st)
        E.ob(st, 'read-bounds', 'no more is written than the entry holds', lambda: E.ge(st, S + L - off - n))
        E.ob(st, 'ioerr', 'nothing is written after an error', self.g(st, 'iofail') == 0)
        r = self.outcome(E, st, n)
        if r is None:
            self.s(st, 'rc', 1)
            return M(E.ptrw)
        self.s(st, 'W', W + r)
        return r.c if r.isc() else r

    def exit(self, E, st, v):
        if E.quiet:
            return
        W = self.ga(st, 'W')
        r = E.toInt(st, v, E.ptrw)
        r = st.pc.norm(aff(E.norm_s(st, r, E.ptrw)))
        if self.g(st, 'rc'):
            # an error can be reported only as long as nothing was accepted; the caller looks at errno then
            if E.lia.prove_eq(st.pc, W):
                neg = E.ge(st, -1 - r)
                E.ob(st, 'ioerr', 'an error is reported when nothing was accepted', neg, lambda: 'returned %r' % (r,))
                return
        E.ob(st, 'order', 'the number of bytes accepted is returned', lambda: E.lia.prove_eq(st.pc, r - W),
             lambda: 'returned %r, accepted %r' % (r, st.pc.norm(W)))
        E.ob(st, 'queue', 'something is accepted, or there is nothing to write', lambda: E.ge(st, W - 1) or E.lia.prove_eq(st.pc, self.ga(st, 'A') - W))


def _mk(v, io):
    return lambda mod, lay, eofs: Cli(mod, lay, eofs, v, io)


CONTRACTS = {'cli_opt': _mk('opt', 'perfect'), 'cli_writev': lambda mod, lay, eofs: EmuWritev(mod, lay, eofs, 'perfect'),
             'cli_writev_io': lambda mod, lay, eofs: EmuWritev(mod, lay, eofs, 'any')}
for _v in ('enc0', 'encw', 'dec', 'deci', 'decn'):
    CONTRACTS['cli_' + _v] = _mk(_v, 'perfect')
    CONTRACTS['cli_%s_io' % _v] = _mk(_v, 'any')
