"""Parser for the subset of LLVM 18 textual IR that clang produces here."""
import re

TOK = re.compile(r'''\s*(?:
 (?P<cstr>c"(?:[^"\\]|\\.)*")
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<meta>!(?:[-a-zA-Z$._0-9]*))
|(?P<attr>\#\d+)
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
|(?P<hex>0x[0-9A-Fa-fKLMHR]+)
|(?P<dots>\.\.\.)
|(?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
|(?P<punct>[()\[\]{}<>,=*:|])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ParseError('token at: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    out.append(('eof', ''))
    return out


I1, I8, I32, I64 = ('i', 1), ('i', 8), ('i', 32), ('i', 64)
PTR = ('ptr',)
VOID = ('void',)


class P:
    def __init__(self, s, mod):
        self.t = tokenize(s)
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def kind(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0]

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, v):
        if self.peek() == v and self.kind() not in ('str', 'cstr'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t[:60])))

    def type(self):
        t = self._basetype()
        while True:
            if self.peek() == '*':
                self.next()
                t = PTR
                continue
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
                continue
            if self.peek() == '(' and self.kind() == 'punct' and self.fnty_ok:
                # function type
                self.next()
                args = []
                va = False
                while not self.accept(')'):
                    if self.accept('...'):
                        va = True
                    else:
                        args.append(self.type())
                    self.accept(',')
                t = ('fn', t, tuple(args), va)
                continue
            return t
    fnty_ok = False

    def _basetype(self):
        w = self.peek()
        if self.kind() == 'word':
            self.next()
            m = re.fullmatch(r'i(\d+)', w)
            if m:
                return ('i', int(m.group(1)))
            if w == 'ptr':
                return PTR
            if w == 'void':
                return VOID
            if w in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
                return ('fp', w)
            if w in ('label', 'metadata', 'token', 'opaque'):
                return (w,)
            raise ParseError('type ' + w)
        if self.kind() == 'loc':
            self.next()
            return ('named', w)
        if w == '<':
            self.next()
            if self.peek() == '{':
                self.next()
                els = []
                while not self.accept('}'):
                    els.append(self.type())
                    self.accept(',')
                self.expect('>')
                return ('pstruct', tuple(els))
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if w == '[':
            self.next()
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if w == '{':
            self.next()
            els = []
            while not self.accept('}'):
                els.append(self.type())
                self.accept(',')
            return ('struct', tuple(els))
        raise ParseError('type at ' + w)

    PATTR = {'noundef', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'nonnull', 'returned',
             'immarg', 'inreg', 'readnone', 'nofree', 'allocalign', 'noinline', 'swiftself', 'nest'}

    def pattrs(self):
        while True:
            w = self.peek()
            if self.kind() != 'word':
                return
            if w in self.PATTR:
                self.next()
            elif w == 'align':
                self.next(); self.accept('('); self.next(); self.accept(')')
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'preallocated', 'byref', 'inalloca', 'memory', 'captures'):
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
            else:
                return

    def value(self, ty):
        k = self.kind()
        w = self.next()
        if k == 'num':
            return ('ci', int(w)) if '.' not in w else ('fp', w)
        if k == 'hex':
            return ('fp', w)
        if k == 'loc':
            return ('loc', w)
        if k == 'glob':
            return ('glob', w)
        if k == 'cstr':
            return ('bytes', unesc(w[2:-1]))
        if k == 'word':
            if w == 'true':
                return ('ci', 1)
            if w == 'false':
                return ('ci', 0)
            if w == 'null':
                return ('null',)
            if w == 'undef':
                return ('undef',)
            if w == 'poison':
                return ('poison',)
            if w == 'zeroinitializer':
                return ('zero',)
            if w == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                args = []
                while True:
                    t = self.type()
                    args.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('cgep', bt, args)
            if w in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                v = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', w, t, v, t2)
            if w in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek() in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2)
                self.expect(')')
                return ('cbin', w, t, a, b)
            if w == 'splat':
                self.expect('(')
                t = self.type(); v = self.value(t)
                self.expect(')')
                n = ty[1]
                return ('cvec', [(t, v)] * n)
            raise ParseError('value word ' + w)
        if w in ('<', '['):
            if w == '<' and self.peek() == '{':
                self.next()
                els = self._vals('}')
                self.expect('>')
                return ('cstruct', els)
            els = self._vals('>' if w == '<' else ']')
            return ('cvec' if w == '<' else 'carr', els)
        if w == '{':
            return ('cstruct', self._vals('}'))
        raise ParseError('value ' + w)

    def _vals(self, end):
        els = []
        while not self.accept(end):
            t = self.type()
            els.append((t, self.value(t)))
            self.accept(',')
        return els

    def tv(self):
        t = self.type()
        self.pattrs()
        if t == ('metadata',):
            # skip metadata operand
            self.next()
            return (t, ('undef',))
        return (t, self.value(t))


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'flags', 'x')

    def __init__(self, op, res=None, ty=None, a=None, text='', flags=(), x=None):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.text = text; self.flags = flags; self.x = x

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []

    def succs(self):
        t = self.ins[-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'asmbr':
            return list(t.flags)
        return []


class Func:
    def __init__(self, name, ret, params):
        self.name = name; self.ret = ret; self.params = params
        self.blocks = {}
        self.entry = None
        self.attrs = ''
        self.internal = False
        self.text = ''


class Global:
    def __init__(self, name, ty, init, const, align, internal):
        self.name = name; self.ty = ty; self.init = init; self.const = const; self.align = align; self.internal = internal


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'}


class Module:
    def __init__(self, text, only=None):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.bigendian = False
        self.ptrbits = 64
        self.parse(text, only)

    # -- sizes (no padding subtleties beyond natural alignment)
    def size(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            return n
        if k == 'ptr':
            return self.ptrbits // 8
        if k == 'vec':
            if t[2][0] == 'i' and t[2][1] < 8:
                return (t[1] * t[2][1] + 7) // 8
            return t[1] * self.size(t[2])
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'named':
            return self.size(self.types[t[1]])
        if k == 'struct':
            off = 0
            mx = 1
            for e in t[1]:
                a = self.align(e)
                mx = max(mx, a)
                off = (off + a - 1) // a * a + self.size(e)
            return (off + mx - 1) // mx * mx
        if k == 'pstruct':
            return sum(self.size(e) for e in t[1])
        if k == 'fp':
            return {'float': 4, 'double': 8, 'half': 2}.get(t[1], 16)
        raise ParseError('size of %r' % (t,))

    def align(self, t):
        k = t[0]
        if k == 'i':
            s = self.size(t)
            if s >= 8 and self.ptrbits == 32 and self.i64align4:
                return 4
            return s
        if k == 'ptr':
            return self.ptrbits // 8
        if k in ('arr',):
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'named':
            return self.align(self.types[t[1]])
        if k == 'struct':
            return max([1] + [self.align(e) for e in t[1]])
        if k == 'pstruct':
            return 1
        return self.size(t)
    i64align4 = False

    def field(self, t, i):
        """offset and type of element i of aggregate t"""
        if t[0] == 'named':
            t = self.types[t[1]]
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        off = 0
        for j, e in enumerate(t[1]):
            a = self.align(e) if t[0] == 'struct' else 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.size(e)
        raise ParseError('field')

    def parse(self, text, only):
        m = re.search(r'target datalayout = "([^"]*)"', text)
        if m:
            dl = m.group(1)
            self.bigendian = dl.startswith('E')
            mm = re.search(r'(?:^|-)p:(\d+)', dl)
            if mm:
                self.ptrbits = int(mm.group(1))
            self.i64align4 = self.ptrbits == 32 and 'i64:64' not in dl
        m = re.search(r'target triple = "([^"]*)"', text)
        self.triple = m.group(1) if m else ''
        lines = text.split('\n')
        # types first
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                n, r = l.split(' = type ', 1)
                if r.strip() == 'opaque':
                    self.types[n] = ('struct', ())
                else:
                    self.types[n] = P(r, self).type()
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                name = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l).group(1)
                if only is None or only(name):
                    self.parse_func(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                name = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l).group(1)
                self.decls[name] = l
            i += 1

    def parse_global(self, l):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        name, r = m.group(1), m.group(2)
        internal = bool(re.match(r'(private|internal)\b', r))
        m = re.search(r'\b(global|constant)\b (.*)$', r)
        if not m:
            return
        const = m.group(1) == 'constant'
        ext = bool(re.search(r'\b(external|extern_weak)\b', r[:m.start()]))
        p = P(m.group(2), self)
        ty = p.type()
        init = None
        if not ext:
            init = p.value(ty)
        al = re.search(r', align (\d+)', m.group(2)[-40:])
        tl = 'thread_local' in r[:m.start()]
        g = Global(name, ty, init, const, int(al.group(1)) if al else 1, internal)
        g.tls = tl
        self.globals[name] = g

    def parse_func(self, head, body):
        p = P(head[len('define'):].rsplit('{', 1)[0], self)
        internal = False
        while p.kind() == 'word' and p.peek() in ('dso_local', 'internal', 'private', 'linkonce_odr', 'weak', 'hidden', 'local_unnamed_addr', 'weak_odr', 'protected', 'available_externally', 'fastcc', 'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'align'):
            w = p.next()
            if w in ('internal', 'private'):
                internal = True
            if w == 'align':
                p.next()
        p.pattrs()
        ret = p.type()
        p.pattrs()
        name = p.next()[1:]
        p.expect('(')
        params = []
        va = False
        while not p.accept(')'):
            if p.accept('...'):
                va = True
                continue
            t = p.type()
            p.pattrs()
            if p.kind() == 'loc':
                params.append((t, p.next()))
            else:
                params.append((t, '%' + str(len(params))))
            p.accept(',')
        f = Func(name, ret, params)
        f.va = va
        f.internal = internal
        f.text = '\n'.join(body)
        self.funcs[name] = f
        cur = None
        # join multi-line switch
        k = 0
        nb = len(body)
        # entry label: implicit number
        while k < nb:
            l = body[k]
            k += 1
            if not l.strip():
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if not m:
                    raise ParseError('label ' + l)
                cur = Block('%' + m.group(1))
                f.blocks[cur.name] = cur
                if f.entry is None:
                    f.entry = cur.name
                continue
            if cur is None:
                cur = Block('%' + str(len(params)) if params and re.fullmatch(r'%\d+', params[-1][1]) or not params else '%entry')
                f.blocks[cur.name] = cur
                f.entry = cur.name
            s = l.strip()
            if s.startswith('switch ') and s.endswith('['):
                while not body[k].strip() == ']' and not body[k].strip().startswith(']'):
                    s += ' ' + body[k].strip()
                    k += 1
                s += ' ]'
                k += 1
            ins = self.parse_ins(s)
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)

    META = re.compile(r',? ![a-zA-Z_.]+ !\d+|, ![a-zA-Z_.]+ !\{[^}]*\}')

    def parse_ins(self, s):
        txt = s
        if ' asm ' not in s and '!' in s:
            s = self.META.sub('', s)
        res = None
        m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', s, re.S)
        if m:
            res, s = m.group(1), m.group(2)
        p = P(s, self) if ' asm ' not in s else None
        if p is None:
            return self.parse_asm(res, s, txt)
        op = p.next()
        if op in BIN:
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.append(p.next())
            t = p.type()
            a = p.value(t); p.expect(','); b = p.value(t)
            return Instr(op, res, t, [a, b], txt, tuple(fl))
        if op in CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            t2 = t
            if p.accept('to'):
                t2 = p.type()
            return Instr(op, res, t2, [v], txt, x=t)
        if op == 'icmp':
            pr = p.next()
            t = p.type()
            a = p.value(t); p.expect(','); b = p.value(t)
            return Instr('icmp', res, t, [a, b], txt, x=pr)
        if op == 'load':
            vol = p.accept('volatile')
            at = p.accept('atomic')
            t = p.type(); p.expect(',')
            pt = p.type(); v = p.value(pt)
            return Instr('load', res, t, [v], txt, x=self._al(s), flags=('volatile',) if vol else (('atomic',) if at else ()))
        if op == 'store':
            vol = p.accept('volatile')
            at = p.accept('atomic')
            t = p.type(); v = p.value(t); p.expect(',')
            pt = p.type(); d = p.value(pt)
            return Instr('store', None, t, [v, d], txt, x=self._al(s), flags=('volatile',) if vol else (('atomic',) if at else ()))
        if op == 'getelementptr':
            fl = []
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                fl.append(p.next())
            bt = p.type(); p.expect(',')
            pt = p.type(); base = p.value(pt)
            idx = []
            while p.accept(','):
                t = p.type()
                idx.append((t, p.value(t)))
            return Instr('gep', res, bt, [base], txt, tuple(fl), x=idx)
        if op == 'alloca':
            t = p.type()
            n = None
            if p.accept(','):
                if p.peek() != 'align':
                    tt = p.type()
                    n = (tt, p.value(tt))
            return Instr('alloca', res, t, [], txt, x=(n, self._al(s)))
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t); p.expect(','); b = p.next(); p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            return Instr('phi', res, t, inc, txt)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Instr('br', None, None, [], txt, x=[p.next()])
            t = p.type(); c = p.value(t)
            p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return Instr('br', None, None, [c], txt, x=[a, b])
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t2 = p.type(); c = p.value(t2); p.expect(','); p.expect('label')
                cs.append((c[1], p.next()))
            return Instr('switch', None, t, [v], txt, x=(d, cs))
        if op == 'ret':
            t = p.type()
            return Instr('ret', None, t, [] if t == VOID else [p.value(t)], txt)
        if op == 'unreachable':
            return Instr('unreachable', None, None, [], txt)
        if op == 'select':
            ct = p.type(); c = p.value(ct); p.expect(',')
            t = p.type(); a = p.value(t); p.expect(',')
            t2 = p.type(); b = p.value(t2)
            return Instr('select', res, t, [c, a, b], txt, x=ct)
        if op == 'extractvalue':
            t = p.type(); v = p.value(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr('extractvalue', res, t, [v], txt, x=idx)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(',')
            t2 = p.type(); e = p.value(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr('insertvalue', res, t, [v, e], txt, x=(idx, t2))
        if op == 'shufflevector':
            t = p.type(); a = p.value(t); p.expect(',')
            t2 = p.type(); b = p.value(t2); p.expect(',')
            t3 = p.type(); m = p.value(t3)
            return Instr('shufflevector', res, t, [a, b], txt, x=(t3, m))
        if op == 'extractelement':
            t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); i = p.value(t2)
            return Instr('extractelement', res, t, [a, i], txt, x=t2)
        if op == 'insertelement':
            t = p.type(); a = p.value(t); p.expect(','); t1 = p.type(); e = p.value(t1); p.expect(','); t2 = p.type(); i = p.value(t2)
            return Instr('insertelement', res, t, [a, e, i], txt, x=(t1, t2))
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next(); pt = p.type(); d = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
            return Instr('atomicrmw', res, t, [d, v], txt, x=o)
        if op in ('call', 'tail', 'musttail', 'notail'):
            if op != 'call':
                p.expect('call')
            p.pattrs()
            while p.peek() in ('fastcc', 'ccc', 'range'):
                p.next()
            p.pattrs()
            p.fnty_ok = True
            t = p.type()
            p.fnty_ok = False
            if t[0] == 'fn':
                t = t[1]
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                args.append(p.tv())
                p.accept(',')
            return Instr('call', res, t, args, txt, x=callee)
        raise ParseError('instruction ' + txt[:200])

    def _al(self, s):
        m = re.search(r', align (\d+)', s)
        return int(m.group(1)) if m else None

    def parse_asm(self, res, s, txt):
        m = re.match(r'(?:tail )?call (.*?) asm ((?:sideeffect |alignstack |inteldialect |unwind )*)"((?:[^"\\]|\\.)*)", "([^"]*)"\((.*)\)', s, re.S)
        if not m:
            raise ParseError('asm ' + s[:120])
        t = P(m.group(1), self).type()
        # argument list: up to the matching paren
        rest = m.group(5)
        depth = 0
        full = s[m.start(5):]
        out = ''
        for ch in full:
            if ch == '(':
                depth += 1
            elif ch == ')':
                if depth == 0:
                    break
                depth -= 1
            out += ch
        p = P(out + ')', self)
        args = []
        while not p.accept(')'):
            args.append(p.tv())
            p.accept(',')
        return Instr('asm', res, t, args, txt, x=(unesc(m.group(3)).decode(), m.group(4), 'sideeffect' in m.group(2)))


if __name__ == '__main__':
    import sys, time, glob
    for f in glob.glob('/tmp/w/ir/*/all.ll'):
        t = time.time()
        M = Module(open(f).read())
        print(f, len(M.funcs), len(M.globals), round(time.time() - t, 2), M.bigendian, M.ptrbits)
