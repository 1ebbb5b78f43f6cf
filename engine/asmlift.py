"""Inline assembly: each asm statement of the IR is split into instructions with a control-flow graph
of its own and executed like any other code, under the operand constraints it declares.

The instruction models are transcriptions of the vendor manuals, like those of the intrinsics."""
import re
from . import terms as t
from .ir import Instr, Block
from .exec import Vec, UNDEF, Ptr, Unsupported, M, sgn, toT, fromT
from .lia import Aff, aff
from . import intrin


class Constraint:
    def __init__(self, s):
        self.text = s
        self.out = s.startswith('=')
        self.clob = s.startswith('~')
        s = s.lstrip('=~')
        self.early = s.startswith('&')
        s = s.lstrip('&')
        self.hard = None
        self.tied = None
        if s.startswith('{'):
            self.hard = s[1:-1]
        elif s.isdigit():
            self.tied = int(s)
        self.cls = s


def liftable(template):
    return 'cpuid' not in template and 'xgetbv' not in template and 'pushf' not in template and template.strip() != ''


def lift(fn, arch):
    """Rewrite the asm statements of fn.  arch: 'x86', 'aarch64' or 'arm'."""
    fn.asmtyp = {}
    fn.asmobs = []
    fn.asmcount = 0
    again = True
    while again:
        again = False
        for bn, b in list(fn.blocks.items()):
            for k, i in enumerate(b.ins):
                if i.op == 'asm' and liftable(i.x[0]):
                    Lifter(fn, arch, bn, k, i).run()
                    again = True
                    break
            if again:
                break


JCC_X86 = {'e': 'eq', 'z': 'eq', 'ne': 'ne', 'nz': 'ne', 'l': 'slt', 'le': 'sle', 'g': 'sgt', 'ge': 'sge',
           'b': 'ult', 'c': 'ult', 'nae': 'ult', 'be': 'ule', 'na': 'ule', 'a': 'ugt', 'nbe': 'ugt', 'ae': 'uge', 'nb': 'uge', 'nc': 'uge',
           'nl': 'sge', 'nle': 'sgt', 'ng': 'sle', 'nge': 'slt'}
BCC_ARM = {'eq': 'eq', 'ne': 'ne', 'lt': 'slt', 'le': 'sle', 'gt': 'sgt', 'ge': 'sge', 'lo': 'ult', 'cc': 'ult', 'hs': 'uge', 'cs': 'uge',
           'hi': 'ugt', 'ls': 'ule'}


def num(s):
    s = s.strip().lstrip('#').strip()
    if not re.fullmatch(r'[-+*()0-9a-fA-FxX\s/]+', s):
        raise Unsupported('asm immediate ' + s)
    return int(eval(s.replace('/', '//'), {'__builtins__': {}}))


def split_ops(s):
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Lifter:
    def __init__(self, fn, arch, bn, k, i):
        self.fn = fn
        self.arch = arch
        self.bn = bn
        self.k = k
        self.i = i
        self.id = fn.asmcount
        fn.asmcount += 1
        self.pre = '%%asm%d.' % self.id
        cs = [Constraint(c) for c in re.findall(r'(?:\{[^}]*\}|[^,{])+', i.x[1])]
        self.clob = {c.hard for c in cs if c.clob}
        ops = [c for c in cs if not c.clob]
        self.outs = [c for c in ops if c.out]
        self.ins = [c for c in ops if not c.out]
        if i.ty[0] == 'struct' and len(self.outs) > 1:
            self.otys = list(i.ty[1])
        elif len(self.outs) == 1:
            self.otys = [i.ty]
        else:
            self.otys = []
        if len(self.otys) != len(self.outs) or len(i.a) != len(self.ins):
            raise Unsupported('asm operand count')
        self.slot = []          # operand -> canonical env name
        self.sty = []
        for n, c in enumerate(self.outs):
            self.slot.append(self.pre + (c.hard if c.hard else str(n)))
            self.sty.append(self.otys[n])
        self.inputonly = set()
        for n, c in enumerate(self.ins):
            if c.tied is not None:
                self.slot.append(self.slot[c.tied])
                self.outs[c.tied].tiedin = n
            elif c.hard:
                self.slot.append(self.pre + c.hard)
                self.inputonly.add(self.pre + c.hard)
            else:
                self.slot.append(self.pre + str(len(self.outs) + n))
                self.inputonly.add(self.slot[-1])
            self.sty.append(i.a[n][0])
        for s, ty in zip(self.slot, self.sty):
            fn.asmtyp[s] = ty

    def ob(self, what, ok):
        self.fn.asmobs.append(('assembly statement %d of %s: %s' % (self.id, self.fn.name, what), ok))

    # ---------------------------------------------------------------- operands
    def operand(self, s):
        """('slot', name, ty, mod) | ('hard', name) | ('imm', n) | ('mem', base, disp) | ('list', [...])"""
        s = s.strip()
        m = re.fullmatch(r'\$(?:(\d+)|\{(\d+):(\w)\})(?:\.(\w+))?', s)
        if m:
            k = int(m.group(1) or m.group(2))
            if k >= len(self.slot):
                raise Unsupported('asm operand ' + s)
            return ('slot', self.slot[k], self.sty[k], m.group(3) or '')
        if self.arch == 'x86':
            if s.startswith('$$'):
                return ('imm', num(s[2:]))
            m = re.fullmatch(r'(.*?)\(([^()]*)\)', s)
            if m and '$' in m.group(2):
                if ',' in m.group(2):
                    raise Unsupported('asm addressing ' + s)
                return ('mem', self.operand(m.group(2)), num(m.group(1)) if m.group(1).strip() else 0)
            m = re.fullmatch(r'%%?(\w+)', s)
            if m:
                return ('hard', m.group(1))
        else:
            if s.startswith('#'):
                return ('imm', num(s))
            if s.startswith('{'):
                out = []
                for x in split_ops(s[1:-1]):
                    m = re.fullmatch(r'([vdq])(\d+)(\.\w+)?\s*-\s*([vdq])(\d+)(\.\w+)?', x)
                    if m:
                        out += [('hard', m.group(1) + str(n)) for n in range(int(m.group(2)), int(m.group(5)) + 1)]
                    else:
                        out.append(self.operand(x))
                return ('list', out)
            m = re.fullmatch(r'\[(.*?)(?:,\s*#(.*))?\](!?)', s)
            if m:
                return ('mem', self.operand(m.group(1)), num(m.group(2)) if m.group(2) else 0, bool(m.group(3)))
            m = re.fullmatch(r'([vdq]\d+|[xw]\d+)(?:\.(\w+))?', s)
            if m:
                return ('hard', m.group(1))
        raise Unsupported('asm operand ' + s)

    def regs(self, o):
        """env names an operand register stands for"""
        if o[0] == 'slot':
            return [o[1]]
        if o[0] == 'hard':
            n = o[1]
            if self.arch == 'arm' and n[0] == 'q':
                return [self.pre + 'd%d' % (2 * int(n[1:])), self.pre + 'd%d' % (2 * int(n[1:]) + 1)]
            if self.arch == 'arm' and n[0] == 'd':
                self.fn.asmtyp[self.pre + n] = ('vec', 8, ('i', 8))
            else:
                self.fn.asmtyp.setdefault(self.pre + n, ('vec', 16, ('i', 8)))
            return [self.pre + n]
        if o[0] == 'mem':
            return self.regs(o[1])
        if o[0] == 'list':
            return [r for x in o[1] for r in self.regs(x)]
        return []

    def hardname(self, o):
        """hardware register of an operand, if it is fixed"""
        if o[0] == 'hard':
            return o[1]
        if o[0] == 'slot':
            n = o[1][len(self.pre):]
            return n if not n.isdigit() else None
        return None

    # values
    def getv(self, eng, st, o):
        """a vector register as bytes"""
        if o[0] == 'slot':
            v = st.env.get(o[1], UNDEF)
            n = eng.mod.size(o[2])
            if v is UNDEF:
                v = Vec(8, [UNDEF] * n)
            elif not isinstance(v, Vec):
                raise Unsupported('vector operand')
            else:
                v = eng.bitcast(v, o[2], ('vec', n, ('i', 8)))
            if o[3] == 'e':
                return Vec(8, v.e[:8])
            if o[3] == 'f':
                return Vec(8, v.e[8:16])
            return v
        out = []
        for r in self.regs(o):
            n = 8 if self.arch == 'arm' else 16
            v = st.env.get(r, UNDEF)
            out += [UNDEF] * n if v is UNDEF else list(eng.bitcast(v, None, ('vec', n, ('i', 8))).e)
        return Vec(8, out)

    def setv(self, eng, st, o, v):
        if o[0] == 'slot':
            if o[3] in ('e', 'f'):
                cur = list(self.getv(eng, st, (o[0], o[1], o[2], '')).e)
                cur[0 if o[3] == 'e' else 8:8 if o[3] == 'e' else 16] = v.e
                v = Vec(8, cur)
            if len(v.e) != eng.mod.size(o[2]):
                raise Unsupported('asm vector width')
            st.env[o[1]] = eng.bitcast(v, ('vec', len(v.e), ('i', 8)), o[2])
            return
        rs = self.regs(o)
        n = len(v.e) // len(rs)
        for k, r in enumerate(rs):
            st.env[r] = Vec(8, v.e[k * n:(k + 1) * n])

    def width(self, eng, o):
        if o[0] != 'slot':
            raise Unsupported('asm width')
        return eng.ptrw if o[2][0] == 'ptr' else o[2][1]

    def getg(self, eng, st, o):
        if o[0] == 'imm':
            return o[1]
        if o[0] != 'slot':
            raise Unsupported('asm general register')
        return st.env.get(o[1], UNDEF)

    def setg(self, eng, st, o, v):
        if o[0] != 'slot':
            raise Unsupported('asm general register')
        st.env[o[1]] = v

    def addr(self, eng, st, o):
        p = self.getg(eng, st, o[1])
        if not isinstance(p, Ptr):
            raise Unsupported('asm address %r' % (p,))
        return eng.padd(p, o[2]) if o[2] else p

    def memchk(self, eng, st, p, wr):
        if 'memory' not in self.clob and (wr or not (p.reg.kind == 'tab' or p.reg.ro and p.reg.kind != 'src')):
            eng.ob(st, 'asm', 'assembly that accesses memory declares it', False)

    def load(self, eng, st, p, n, al=1):
        self.memchk(eng, st, p, False)
        return eng.load(st, p, ('vec', n, ('i', 8)), al)

    def store(self, eng, st, p, v, al=1):
        self.memchk(eng, st, p, True)
        eng.store(st, p, ('vec', len(v.e), ('i', 8)), v, al)

    def arith(self, eng, st, op, w, a, b):
        if isinstance(b, int):
            b &= M(w)
        return eng.binop(st, None, op, w, a, b)

    # ---------------------------------------------------------------- translation
    def run(self):
        i = self.i
        fn = self.fn
        b = fn.blocks[self.bn]
        txt = i.x[0]
        lines = []
        for raw in re.split(r'[\n;]', txt):
            s = re.sub(r'//.*|/\*.*?\*/', '', raw)
            if self.arch == 'x86':
                s = re.sub(r'#.*', '', s)
            elif self.arch == 'arm':
                s = re.sub(r'@.*', '', s)
            s = s.strip()
            while True:
                m = re.match(r'([\w.$]+):\s*', s)
                if not m:
                    break
                lines.append(('label', m.group(1)))
                s = s[m.end():]
            if s:
                if s.startswith('.'):
                    if not re.match(r'\.(balign|p2align|align)\b', s):
                        raise Unsupported('asm directive ' + s)
                    continue
                m = re.match(r'(\S+)\s*(.*)$', s)
                lines.append(('ins', m.group(1).lower(), split_ops(m.group(2)), s))
        labels = [(k, l[1]) for k, l in enumerate(lines) if l[0] == 'label']

        def target(k, ref):
            m = re.fullmatch(r'(\d+)([fb])', ref)
            if m:
                c = [p for p, n in labels if n == m.group(1) and (p > k if m.group(2) == 'f' else p <= k)]
                if not c:
                    raise Unsupported('asm label ' + ref)
                return min(c) if m.group(2) == 'f' else max(c)
            c = [p for p, n in labels if n == ref]
            if len(c) != 1:
                raise Unsupported('asm label ' + ref)
            return c[0]
        post = b.ins[self.k + 1:]
        endn = '%s$asm%dend' % (self.bn, self.id)
        name = lambda p: '%s$asm%d.%d' % (self.bn, self.id, p)
        cur = b
        b.ins = b.ins[:self.k]
        b.ins.append(self.init())
        newb = []
        trace = []      # (index of block, instr, reads, writes)
        open_ = True
        for k, l in enumerate(lines):
            if l[0] == 'label':
                nb = Block(name(k))
                newb.append(nb)
                if open_:
                    cur.ins.append(Instr('br', None, None, [], 'asm fallthrough', x=[nb.name]))
                cur = nb
                open_ = True
                continue
            if not open_:
                nb = Block(name(k) + 'x')
                newb.append(nb)
                cur = nb
                open_ = True
            mn, ops, text = l[1:]
            br = self.branch(mn, ops, k, target)
            if br:
                cond, tgt, reads, fn_ = br
                if cond is None:
                    cur.ins.append(Instr('br', None, None, [], 'asm ' + text, x=[name(tgt)]))
                    open_ = False
                else:
                    nb = Block(name(k) + 'n')
                    newb.append(nb)

                    def go(eng, st, fn_=fn_, a=name(tgt), c=nb.name):
                        return a if fn_(eng, st) else c
                    cur.ins.append(Instr('asmbr', None, None, reads, 'asm ' + text, flags=(name(tgt), nb.name), x=go))
                    trace.append((cur.ins[-1], reads, []))
                    cur = nb
                continue
            f, reads, writes = self.instr(mn, ops, text)
            ins = Instr('asmop', list(writes), None, list(reads), 'asm ' + text, x=f)
            cur.ins.append(ins)
            trace.append((ins, reads, writes))
        if open_:
            cur.ins.append(Instr('br', None, None, [], 'asm end', x=[endn]))
        end = Block(endn)
        end.ins = [self.fini()] + post
        for x in newb + [end]:
            fn.blocks[x.name] = x
        # every label block must end properly
        for x in newb:
            if not x.ins or x.ins[-1].op not in ('br', 'asmbr'):
                x.ins.append(Instr('br', None, None, [], 'asm end', x=[endn]))
        for s in end.succs():
            for p in fn.blocks[s].phis:
                p.a = [(v, endn if pb == self.bn else pb) for v, pb in p.a]
        self.checks(b, newb, end, trace)

    def init(self):
        uses = []
        for ty, v in self.i.a:
            if v[0] == 'loc':
                uses.append(v[1])
        slots = [self.slot[len(self.outs) + n] for n in range(len(self.ins))]

        def f(eng, st):
            vals = [eng.val(st, ty, v) for ty, v in self.i.a]
            for s, v in zip(slots, vals):
                st.env[s] = v
        return Instr('asmop', slots, None, uses, 'asm operands in', x=f)

    def fini(self):
        outs = [self.slot[n] for n in range(len(self.outs))]
        res = self.i.res

        def f(eng, st):
            vs = []
            for s, ty in zip(outs, self.otys):
                v = st.env.get(s, UNDEF)
                if isinstance(v, Vec) and ty[0] == 'vec':
                    v = eng.bitcast(v, None, ty)
                elif v is UNDEF and ty[0] == 'vec':
                    v = Vec(ty[2][1], [UNDEF] * ty[1])
                vs.append(v)
            if res:
                st.env[res] = vs if len(vs) > 1 else vs[0]
        if res:
            self.fn.asmtyp[res] = self.i.ty
        return Instr('asmop', [res] if res else [], None, outs, 'asm operands out', x=f)

    def branch(self, mn, ops, k, target):
        fl = self.pre + 'flags'

        def cond(pred):
            def f(eng, st):
                x = st.env.get(fl, UNDEF)
                if x is UNDEF:
                    raise Unsupported('asm flags undefined')
                kind, a, b, w = x
                if kind == 'res':
                    if pred not in ('eq', 'ne'):
                        raise Unsupported('asm condition on a result')
                    b = 0
                return eng.truth(st, eng.icmp(st, pred, ('i', w), a, b))
            return f
        if self.arch == 'x86':
            if mn == 'jmp':
                return (None, target(k, ops[0]), [], None)
            if mn[0] == 'j' and mn[1:] in JCC_X86:
                return (1, target(k, ops[0]), [fl], cond(JCC_X86[mn[1:]]))
            return None
        if mn == 'b':
            return (None, target(k, ops[0]), [], None)
        if mn in ('cbz', 'cbnz'):
            o = self.operand(ops[0])

            def f(eng, st):
                return eng.truth(st, eng.icmp(st, 'eq' if mn == 'cbz' else 'ne', ('i', self.width(eng, o)), self.getg(eng, st, o), 0))
            return (1, target(k, ops[1]), self.regs(o), f)
        m = re.fullmatch(r'b\.?(\w\w)', mn)
        if m and m.group(1) in BCC_ARM:
            return (1, target(k, ops[0]), [fl], cond(BCC_ARM[m.group(1)]))
        return None

    def instr(self, mn, ops, text):
        os_ = [self.operand(x) for x in ops]
        f = getattr(self, 'i_' + self.arch)(mn, os_, text)
        if f is None:
            raise Unsupported('asm instruction ' + text)
        fun, reads, writes = f
        for w in writes:
            if w == self.pre + 'flags':
                if self.arch != 'x86':
                    self.ob('flags written by "%s" are declared' % text, 'cc' in self.clob)
                continue
            self.ob('"%s" does not modify an input-only operand' % text, w not in self.inputonly)
            h = w[len(self.pre):]
            if not h.isdigit():
                self.ob('register %s written by "%s" is declared' % (h, text), h in self.clob or any(c.hard == h for c in self.outs))
        return fun, reads, writes

    # ---- x86, AT&T syntax
    def i_x86(self, mn, os_, text):
        R = self.regs
        fl = self.pre + 'flags'
        isvec = lambda o: o[0] == 'slot' and o[2][0] == 'vec'
        g = re.fullmatch(r'(add|sub|and|or|xor|cmp|test|mov)[lq]?', mn)
        if g and len(os_) == 2:
            op = g.group(1)
            s, d = os_
            if s[0] == 'mem' or d[0] == 'mem':
                return None

            def f(eng, st):
                w = self.width(eng, d)
                a, b = self.getg(eng, st, d), self.getg(eng, st, s)
                if op == 'mov':
                    self.setg(eng, st, d, b & M(w) if isinstance(b, int) else b)
                    return
                if op == 'cmp':
                    st.env[fl] = ('sub', a, b & M(w) if isinstance(b, int) else b, w)
                    return
                if op == 'test':
                    r = a if os_[0][1:2] == os_[1][1:2] and os_[0][0] == 'slot' else self.arith(eng, st, 'and', w, a, b)
                    st.env[fl] = ('res', r, 0, w)
                    return
                r = self.arith(eng, st, op, w, a, b)
                self.setg(eng, st, d, r)
                st.env[fl] = ('sub', a, b & M(w) if isinstance(b, int) else b, w) if op == 'sub' else ('res', r, 0, w)
            if op == 'mov':
                return f, R(s), R(d)
            return f, R(s) + R(d), ([fl] if op in ('cmp', 'test') else R(d) + [fl])
        g = re.fullmatch(r'(inc|dec)[lq]?', mn)
        if g and len(os_) == 1:
            d = os_[0]

            def f(eng, st):
                w = self.width(eng, d)
                r = self.arith(eng, st, 'add' if g.group(1) == 'inc' else 'sub', w, self.getg(eng, st, d), 1)
                self.setg(eng, st, d, r)
                st.env[fl] = ('res', r, 0, w)
            return f, R(d), R(d) + [fl]
        if re.fullmatch(r'leaq?', mn) and os_[0][0] == 'mem':
            s, d = os_

            def f(eng, st):
                self.setg(eng, st, d, self.addr(eng, st, s))
            return f, R(s), R(d)
        if mn == 'nop':
            return (lambda eng, st: None), [], []
        if re.fullmatch(r'v?(movdq[au]|lddqu|mov[au]p[sd]|movdq[au]\d+)', mn):
            s, d = os_
            al = 16 if re.search(r'dqa|ap', mn) else 1

            def f(eng, st):
                n = eng.mod.size((d if isvec(d) else s)[2])
                if s[0] == 'mem':
                    self.setv(eng, st, d, self.load(eng, st, self.addr(eng, st, s), n, n if al > 1 else 1))
                elif d[0] == 'mem':
                    self.store(eng, st, self.addr(eng, st, d), self.getv(eng, st, s), n if al > 1 else 1)
                else:
                    self.setv(eng, st, d, self.getv(eng, st, s))
            if d[0] == 'mem':
                return f, R(s) + R(d), []
            return f, R(s), R(d)
        vex = mn[0] == 'v'
        base = mn[1:] if vex else mn
        h = X86VEC.get(base)
        if h:
            if len(os_) != (3 if vex else 2):
                return None
            if base in X86IMM:
                k, a, d = os_[0], os_[-2], os_[-1]
                if not vex:
                    a = d

                def f(eng, st):
                    self.setv(eng, st, d, h(eng, self.getv(eng, st, a), k[1]))
                if k[0] != 'imm':
                    return None
                return f, R(a), R(d)
            y, x, d = os_[0], os_[-2] if vex else os_[-1], os_[-1]

            def f(eng, st):
                if y[0] == 'mem':
                    n = eng.mod.size(d[2])
                    b = self.load(eng, st, self.addr(eng, st, y), n, 1 if vex else n)
                else:
                    b = self.getv(eng, st, y)
                self.setv(eng, st, d, h(eng, self.getv(eng, st, x), b))
            return f, R(x) + R(y), R(d)
        return None

    # ---- AArch64
    def i_aarch64(self, mn, os_, text):
        R = self.regs
        fl = self.pre + 'flags'
        m = re.fullmatch(r'(ld|st)([1234])', mn)
        if m:
            n = int(m.group(2))
            ls, mem = os_[0], os_[1]
            post = os_[2] if len(os_) > 2 else None
            regs = ls[1]
            k = len(regs)
            if n > 1 and k != n or '.16b' not in text or '.8b' in text:
                return None
            hs = [self.hardname(o) for o in regs]
            if k > 1:
                ok = all(h and h[0] == 'v' for h in hs) and all((int(b[1:]) - int(a[1:])) % 32 == 1 for a, b in zip(hs, hs[1:]))
                self.ob('register list of "%s" is consecutive' % text, ok)
                if not ok:
                    return None
            if post is not None and post != ('imm', 16 * k):
                return None

            def f(eng, st):
                p = self.addr(eng, st, mem)
                if m.group(1) == 'ld':
                    e = self.load(eng, st, p, 16 * k).e
                    for j, o in enumerate(regs):
                        self.setv(eng, st, o, Vec(8, e[16 * j:16 * j + 16] if n == 1 else e[j::n]))
                else:
                    vs = [self.getv(eng, st, o).e for o in regs]
                    e = [x for v in vs for x in v] if n == 1 else [v[j] for j in range(16) for v in vs]
                    self.store(eng, st, p, Vec(8, e))
                if post:
                    self.setg(eng, st, mem[1], eng.padd(self.getg(eng, st, mem[1]), 16 * k))
            w = R(mem) if post else []
            if m.group(1) == 'ld':
                return f, R(mem), R(ls) + w
            return f, R(mem) + R(ls), w
        if mn in ('add', 'sub', 'adds', 'subs', 'cmp', 'mov') and '.' not in text:
            if mn == 'cmp':
                a, b = os_

                def f(eng, st):
                    st.env[fl] = ('sub', self.getg(eng, st, a), self.getg(eng, st, b), self.width(eng, a))
                return f, R(a) + R(b), [fl]
            if mn == 'mov':
                d, a = os_
                return (lambda eng, st: self.setg(eng, st, d, self.getg(eng, st, a))), R(a), R(d)
            d, a, b = os_

            def f(eng, st):
                w = self.width(eng, d)
                x, y = self.getg(eng, st, a), self.getg(eng, st, b)
                r = self.arith(eng, st, mn[:3], w, x, y)
                self.setg(eng, st, d, r)
                if mn[3:]:
                    st.env[fl] = ('sub', x, y, w) if mn == 'subs' else ('res', r, 0, w)
            return f, R(a) + R(b), R(d) + ([fl] if mn[3:] else [])
        if '.16b' not in text or re.search(r'\.(8b|8h|4h|4s|2s|2d)', text):
            return None
        return self.neon(mn, os_, text)

    def neon(self, mn, os_, text):
        R = self.regs
        if mn in ('ushr', 'shl', 'sli', 'sri'):
            d, a, k = os_
            if k[0] != 'imm' or not 0 <= k[1] <= 8:
                return None
            n = k[1]

            def f(eng, st):
                x = self.getv(eng, st, a)
                if mn == 'ushr':
                    r = eng.vmap(lambda p: t.lshrc(p, n) if n < 8 else t.const(8, 0), x)
                elif mn == 'shl':
                    r = eng.vmap(lambda p: t.shlc(p, n), x)
                else:
                    y = self.getv(eng, st, d)
                    if mn == 'sli':
                        r = eng.vmap(lambda q, p: t.concat([t.extract(p, 7 - n, 0), t.extract(q, n - 1, 0)]) if n else p, y, x)
                    else:
                        r = eng.vmap(lambda q, p: q if n == 8 else t.concat([t.extract(q, 7, 8 - n), t.extract(p, 7, n)]) if n else p, y, x)
                self.setv(eng, st, d, Vec(8, r))
            return f, R(a) + (R(d) if mn in ('sli', 'sri') else []), R(d)
        if mn in ('tbl', 'tbx'):
            d, ls, ix = os_
            regs = ls[1]
            hs = [self.hardname(o) for o in regs]
            if len(regs) > 1:
                ok = all(h and h[0] in 'vd' for h in hs) and all((int(b[1:]) - int(a[1:])) % 32 == 1 for a, b in zip(hs, hs[1:]))
                self.ob('register list of "%s" is consecutive' % text, ok)
                if not ok:
                    return None

            def f(eng, st):
                el = []
                for o in regs:
                    el += list(self.getv(eng, st, o).e)
                fb = self.getv(eng, st, d).e if mn == 'tbx' else None
                self.setv(eng, st, d, Vec(8, intrin.tbl_lookup(el, self.getv(eng, st, ix).e, fb)))
            return f, R(ls) + R(ix) + (R(d) if mn == 'tbx' else []), R(d)
        if mn in ('mov', 'mvn', 'not') and len(os_) == 2:
            d, a = os_

            def f(eng, st):
                x = self.getv(eng, st, a)
                self.setv(eng, st, d, x if mn == 'mov' else Vec(8, eng.vmap(t.not_, x)))
            return f, R(a), R(d)
        h = NEON.get(mn)
        if h and len(os_) in (2, 3):
            if len(os_) == 2:
                if self.arch != 'arm':
                    return None
                os_ = [os_[0]] + os_
            d, a, b = os_

            def f(eng, st):
                x, y = self.getv(eng, st, a), self.getv(eng, st, b)
                if len(x.e) != len(y.e):
                    raise Unsupported('asm vector widths')
                self.setv(eng, st, d, Vec(8, eng.vmap(h, x, y)))
            return f, R(a) + R(b), R(d)
        return None

    # ---- 32-bit ARM
    def i_arm(self, mn, os_, text):
        R = self.regs
        m = re.fullmatch(r'v(ld|st)([1234])\.8', mn)
        if m:
            n = int(m.group(2))
            ls, mem = os_
            regs = ls[1]
            if any(o[0] != 'hard' or o[1][0] != 'd' for o in regs) or (n > 1 and len(regs) != n) or mem[2]:
                return None
            ds = [int(o[1][1:]) for o in regs]
            step = {b - a for a, b in zip(ds, ds[1:])}
            if len(step) > 1 or (step and step.pop() not in (1, 2)):
                return None
            k = len(regs)

            def f(eng, st):
                p = self.addr(eng, st, mem)
                if m.group(1) == 'ld':
                    e = self.load(eng, st, p, 8 * k).e
                    for j, o in enumerate(regs):
                        self.setv(eng, st, o, Vec(8, e[8 * j:8 * j + 8] if n == 1 else e[j::n]))
                else:
                    vs = [self.getv(eng, st, o).e for o in regs]
                    e = [x for v in vs for x in v] if n == 1 else [v[j] for j in range(8) for v in vs]
                    self.store(eng, st, p, Vec(8, e))
                if mem[3]:
                    self.setg(eng, st, mem[1], eng.padd(self.getg(eng, st, mem[1]), 8 * k))
            w = R(mem) if mem[3] else []
            if m.group(1) == 'ld':
                return f, R(mem), R(ls) + w
            return f, R(mem) + R(ls), w
        m = re.fullmatch(r'(v\w+?)(?:\.([uis]?)(\d+))?', mn)
        if not m or (m.group(3) or '8') != '8':
            return None
        name = m.group(1)
        sg = m.group(2)
        u = {'vshr': 'ushr', 'vshl': 'shl', 'vsli': 'sli', 'vsri': 'sri', 'vtbl': 'tbl', 'vtbx': 'tbx', 'vand': 'and', 'vorr': 'orr', 'veor': 'eor',
             'vadd': 'add', 'vsub': 'sub', 'vqsub': 'uqsub', 'vqadd': 'uqadd', 'vcgt': 'cmhi', 'vcge': 'cmhs', 'vceq': 'cmeq', 'vmov': 'mov',
             'vmvn': 'mvn', 'vbic': 'bic', 'vmin': 'umin', 'vmax': 'umax'}.get(name)
        if u in ('ushr', 'uqsub', 'uqadd', 'cmhi', 'cmhs', 'umin', 'umax') and sg != 'u':
            return None
        if u is None:
            return None
        if u in ('tbl', 'tbx'):
            # a q register in the list stands for its two halves
            ls = []
            for o in os_[1][1]:
                if o[0] == 'slot' and o[3] == 'q':
                    ls += [('slot', o[1], o[2], 'e'), ('slot', o[1], o[2], 'f')]
                elif o[0] == 'hard' and o[1][0] == 'q':
                    ls += [('hard', 'd%d' % (2 * int(o[1][1:]))), ('hard', 'd%d' % (2 * int(o[1][1:]) + 1))]
                else:
                    ls.append(o)
            d, ix = os_[0], os_[2]

            def f(eng, st):
                el = []
                for o in ls:
                    el += list(self.getv(eng, st, o).e)
                fb = self.getv(eng, st, d).e if u == 'tbx' else None
                self.setv(eng, st, d, Vec(8, intrin.tbl_lookup(el, self.getv(eng, st, ix).e, fb)))
            if len(ls) not in (1, 2, 3, 4):
                return None
            return f, sorted({r for o in ls for r in R(o)}) + R(ix) + (R(d) if u == 'tbx' else []), R(d)
        return self.neon(u, os_, text)

    # ---------------------------------------------------------------- operand constraints
    def checks(self, b, newb, end, trace):
        """early-clobber: a plain output must not be written while an input-only register may still be read"""
        soft = {self.slot[n]: c for n, c in enumerate(self.outs) if not c.early}
        if not soft:
            return
        blocks = {x.name: x for x in newb}
        blocks[b.name] = None
        # liveness of input-only slots over the asm blocks
        rd = {id(i): set(r) for i, r, w in trace}
        wr = {id(i): set(w) for i, r, w in trace}
        live = {x.name: set() for x in newb}
        first = [i for i in b.ins[self.k:]]

        def back(ins, out):
            s = set(out)
            for i in reversed(ins):
                s -= wr.get(id(i), set())
                s |= rd.get(id(i), set())
            return s
        ch = True
        while ch:
            ch = False
            for x in reversed(newb):
                o = set()
                for q in x.succs():
                    o |= live.get(q, set())
                n = back(x.ins, o)
                if n != live[x.name]:
                    live[x.name] = n
                    ch = True

        def scan(ins, succs):
            o = set()
            for q in succs:
                o |= live.get(q, set())
            for i in reversed(ins):
                if id(i) in wr:
                    for w in wr[id(i)]:
                        c = soft.get(w)
                        if c is None:
                            continue
                        later = [s for s in self.inputonly if s in o and self.sameclass(s, w)]
                        if hasattr(c, 'tiedin'):
                            mine = self.i.a[c.tiedin][1]
                            later = [s for s in later if self.i.a[self.slot[len(self.outs):].index(s)][1] == mine]
                        self.ob('output written by "%s" may not share a register with an input still needed' % i.text, not later)
                    o -= wr[id(i)]
                    o |= rd[id(i)]
        for x in newb:
            scan(x.ins, x.succs())
        scan(first, b.succs())

    def sameclass(self, a, b):
        cls = lambda s: self.fn.asmtyp.get(s, ('?',))[0] == 'vec'
        return cls(a) == cls(b)


def w16(eng, v):
    return eng.bitcast(v, ('vec', len(v.e), ('i', 8)), ('vec', len(v.e) // 2, ('i', 16)))


def w32(eng, v):
    return eng.bitcast(v, ('vec', len(v.e), ('i', 8)), ('vec', len(v.e) // 4, ('i', 32)))


def by(eng, v):
    return eng.bitcast(v, ('vec', len(v.e), ('i', v.ew)), ('vec', len(v.e) * v.ew // 8, ('i', 8)))


def bytewise(f):
    return lambda eng, x, y: Vec(8, eng.vmap(f, x, y))


def wide(f, conv, ew):
    return lambda eng, x, y: by(eng, Vec(ew, eng.vmap(f, conv(eng, x), conv(eng, y))))


def mask(c, w=8):
    return t.ite(c, t.const(w, -1), t.const(w, 0))


def shimm(f, conv, ew):
    return lambda eng, x, k: by(eng, Vec(ew, eng.vmap(lambda p: f(p, k) if k < ew else t.const(ew, 0), conv(eng, x))))


X86VEC = {
    'pshufb': lambda eng, x, y: intrin.pshufb(x, y),
    'pand': bytewise(t.and_), 'por': bytewise(t.or_), 'pxor': bytewise(t.xor), 'pandn': bytewise(lambda a, b: t.and_(t.not_(a), b)),
    'paddb': bytewise(t.add), 'psubb': bytewise(t.sub), 'psubusb': bytewise(intrin.usubsat), 'paddusb': bytewise(intrin.uaddsat),
    'pcmpgtb': bytewise(lambda a, b: mask(t.slt(b, a))), 'pcmpeqb': bytewise(lambda a, b: mask(t.eq(a, b))),
    'pminub': bytewise(lambda a, b: t.ite(t.ult(a, b), a, b)), 'pmaxub': bytewise(lambda a, b: t.ite(t.ult(a, b), b, a)),
    'pmulhuw': lambda eng, x, y: by(eng, intrin.mulhu(w16(eng, x), w16(eng, y))),
    'pmullw': wide(t.mul, w16, 16), 'paddw': wide(t.add, w16, 16), 'paddd': wide(t.add, w32, 32), 'psubw': wide(t.sub, w16, 16),
    'pmaddubsw': lambda eng, x, y: by(eng, intrin.maddubs(x, y)),
    'pmaddwd': lambda eng, x, y: by(eng, intrin.maddwd(w16(eng, x), w16(eng, y))),
    'psrlw': shimm(t.lshrc, w16, 16), 'psllw': shimm(t.shlc, w16, 16), 'psrld': shimm(t.lshrc, w32, 32), 'pslld': shimm(t.shlc, w32, 32),
    # AT&T: vpermd source, index, destination
    'permd': lambda eng, x, y: by(eng, intrin.perm(w32(eng, y), w32(eng, x))),
}
X86VEC['permd'] = X86VEC.pop('permd')
X86IMM = {'psrlw', 'psllw', 'psrld', 'pslld'}

NEON = {
    'and': t.and_, 'orr': t.or_, 'eor': t.xor, 'bic': lambda a, b: t.and_(a, t.not_(b)), 'add': t.add, 'sub': t.sub,
    'uqsub': intrin.usubsat, 'uqadd': intrin.uaddsat,
    'cmhi': lambda a, b: mask(t.ult(b, a)), 'cmhs': lambda a, b: mask(t.ule(b, a)), 'cmeq': lambda a, b: mask(t.eq(a, b)),
    'umin': lambda a, b: t.ite(t.ult(a, b), a, b), 'umax': lambda a, b: t.ite(t.ult(a, b), b, a),
}
