"""Cutpoints and inductive invariants: inferred as an affine lattice of the live values plus
inequalities, and accepted only when one pass over every path shows them inductive."""
import z3
from . import terms as t
from .lia import Aff, aff, PC, lca, fresh, hnf, lattice_solve
from .exec import Engine, State, Ptr, Fn, Vec, UNDEF, Unsupported, Obligation, UMax


def blk(c):
    return c[0] if isinstance(c, tuple) else c


def smallc(st, v):
    """the value, if it is a small constant on this path"""
    if isinstance(v, Aff):
        v = st.pc.norm(v)
        v = v.c if v.isc() else None
    return v if isinstance(v, int) and 0 <= v <= 3 else None


class Verifier(Engine):
    maxiter = 25
    dbg = {}
    unfold = False
    unfolded = False
    bycase = None       # block -> live values: keep arrivals apart in which these are different small constants

    def verify(self, starts, choice=0):
        self.curxs = {}
        self.cases = {}
        self.casehints = {}
        self.plan(choice)
        if self.unfold and self.cuts:
            # loops that concrete values drive: every iteration is executed, to the end
            self.cuts = {}
            self.unfolded = True
            self.maxsteps = 200000
            self.maxpaths = 20000
        for what, ok in getattr(self.fn, 'asmobs', ()):
            self.obs.append(Obligation('asm', what, self.fn.name, ok, None, 'static'))
        out = self.analyze(None, starts)
        if out:
            raise Unsupported('unexpected arrivals %r' % list(out))

    # ------------------------------------------------------------ driver
    def part(self, st):
        """arrivals at a cutpoint are merged only if this agrees: the invariant is a disjunction over its values"""
        ks = self.bycase.get(st.block) if self.bycase else None
        return tuple((k[1], smallc(st, st.env.get(k[1], UNDEF))) for k in sorted(ks)) if ks else ()

    def split(self, arr):
        out = {}
        for b, l in arr.items():
            for st in l:
                p = self.part(st)
                out.setdefault((b, p) if p else b, []).append(st)
                if self.bycase and p:
                    cs = self.cases.setdefault(b, set())
                    cs.add(p)
                    if len(cs) > 24:
                        raise Unsupported('too many cases at %s' % b)
        return out

    def analyze(self, level, starts):
        stops = self.cuts
        pend = self.split(self.explore(starts, stops))
        lb = blk(level)
        scope = None if level is None else self.cuts[lb][0]
        done = {}
        while True:
            local = [c for c in pend if blk(c) != lb and (scope is None or blk(c) in scope)]
            if not local:
                break
            # entries that bypass the parent cutpoint of an irreducible region go first
            def key(c):
                pt = self.partorder(c)
                c = blk(c)
                depth = 0
                p = self.cuts[c][1]
                while p is not None and p != lb:
                    depth += 1
                    p = self.cuts[p][1]
                top = c
                while self.cuts[top][1] is not None and self.cuts[top][1] != lb:
                    top = self.cuts[top][1]
                return (pt, min(self.rpo[b] for b in self.cuts[top][0]), -depth, min(self.rpo[b] for b in self.cuts[c][0]))
            c = min(local, key=key)
            if blk(c) != c:
                done[c] = done.get(c, 0) + 1
                if done[c] > 4:
                    raise Unsupported('no order among the cases at %s' % blk(c))
            arrs = pend.pop(c)
            for b, l in self.loop(c, arrs).items():
                pend.setdefault(b, []).extend(l)
        return pend

    def partorder(self, c):
        return ()

    def loop(self, c, arrs):
        base = arrs[0].pc
        for a in arrs[1:]:
            base = lca(base, a.pc)
        warm = self.warm.setdefault(c, {'G': {}, 'dead': set(), 'hav': set(), 'warm': False})
        it = 0
        while True:
            it += 1
            self.iters += 1
            if it > self.maxiter:
                raise Unsupported('no inductive invariant found at %s' % blk(c))
            S, info = self.merge(c, base, arrs, warm)
            saved = len(self.obs)
            q = self.quiet
            self.quiet = q or not warm['warm']
            ran_quiet = self.quiet
            try:
                ex = self.exits
                out = self.analyze(c, [S])
            finally:
                self.quiet = q
            backs = out.pop(c, [])
            if not self.inductive(c, info, backs, warm):
                del self.obs[saved:]
                continue
            warm['warm'] = True
            if ran_quiet and not q:
                continue
            self.dbg[c] = info
            if not q:
                self.record(c, info, backs)
            return out

    # ------------------------------------------------------------ merging
    def components(self, c, st):
        comp = {}
        for n in self.live[blk(c)]:
            comp[('v', n)] = st.env.get(n, UNDEF)
        for n, v in st.env.items():
            if n[0] == '$':
                comp[('v', n)] = v
        for r, cells in st.mem.items():
            for o, (n, v) in cells.items():
                comp[('m', r, o, n)] = v
        return comp

    def merge(self, c, base, arrs, warm):
        scope = base.syms()
        comps = [self.components(c, a) for a in arrs]
        for k in comps[0]:
            if k[0] == 'v' and k[1][0] != '$':
                vs = {smallc(a, x.get(k, UNDEF)) for a, x in zip(arrs, comps)}
                if len(vs) > 1 and None not in vs:
                    self.casehints.setdefault(blk(c), set()).add(k)
        keys = [k for k in comps[0] if all(k in x for x in comps)]
        # memory cells missing in some arrivals are unknown
        intk = []
        fixed = {}
        havk = []
        for k in keys:
            vs = [x[k] for x in comps]
            if k in warm['hav']:
                havk.append((k, vs[0]))
            elif all(isinstance(v, (int, Aff)) for v in vs):
                intk.append(k)
            elif all(isinstance(v, Ptr) and not v.idx and v.reg is vs[0].reg for v in vs):
                intk.append(k)
            elif all(same(v, vs[0]) for v in vs) and inscope(vs[0], scope):
                fixed[k] = vs[0]
            else:
                warm['hav'].add(k)
                havk.append((k, vs[0]))
        intk.sort(key=lambda k: self.order(k))

        def num(v):
            return aff(v.off) if isinstance(v, Ptr) else aff(v)
        vecs = [[num(x[k]) for k in intk] for x in comps]
        G0 = [[g.get(k, 0) for k in intk] for g in warm['G'].values()]

        def gens(v0, skip):
            out = [list(g) for g in G0]
            # local symbols of v0
            nsym = 0
            base0 = []
            loc = {}
            for j, a in enumerate(v0):
                b = {s: k for s, k in a.m.items() if s in scope}
                for s, k in a.m.items():
                    if s not in scope:
                        loc.setdefault(s, [0] * len(v0))[j] = k
                base0.append(Aff(a.c, b))
            for s, g in loc.items():
                out.append(g)
            for i, v in enumerate(vecs):
                if i == skip:
                    continue
                d = [arrs[i].pc.norm(x - y) for x, y in zip(v, base0)]
                cs, sy = coefs(d)
                out.append(cs)
                for s, g in sy.items():
                    out.append(g)
                    nsym += s in scope
            return base0, hnf(out), nsym
        best = None
        seen = set()
        for i, v in enumerate(vecs[:12]):
            n = [x if all(s in scope for s in x.m) else arrs[i].pc.norm(x) for x in v]
            kk = tuple(x.key() for x in n)
            if kk in seen:
                continue
            seen.add(kk)
            b0, G, ns = gens(n, i)
            sc = (len(G), ns)
            if best is None or sc < best[0]:
                best = (sc, b0, G)
            if sc == (0, 0):
                break
        _, v0, G = best if best else (None, [], [])
        # drop in-scope equalities: v0 may mention symbols substituted in base
        v0 = [base.norm(a) for a in v0]
        S = State()
        S.block = blk(c)
        S.idx = 0
        pc = base
        ts = []
        for j in range(len(G)):
            s = fresh('t')
            pc = pc.decl(s)
            ts.append(s)
        xs = []
        for j, k in enumerate(intk):
            a = v0[j]
            for g, s in zip(G, ts):
                if g[j]:
                    a = a + Aff(0, {s: g[j]})
            xs.append(a)
        # inequality candidates
        cands = self.candidates(c, intk, xs, ts, G, comps[0], warm, scope)
        cands += self.shared(base, arrs, scope, warm)
        cands += self.limits(base, arrs, vecs, intk, xs, ts, warm)
        self.curxs[blk(c)] = dict(zip(intk, xs))
        info = {'keys': intk, 'v0': v0, 'G': G, 'ts': ts, 'xs': xs, 'fixed': fixed, 'hav': havk, 'scope': scope}
        # keep those that hold on every arrival
        tmaps = []
        for i, v in enumerate(vecs):
            d = [arrs[i].pc.norm(x - y) for x, y in zip(v, v0)]
            tm = solve_aff(G, d)
            if tm is None:
                raise Unsupported('arrival outside its own lattice')
            tmaps.append(tm)
        for i, a in enumerate(arrs):
            m = dict(zip(ts, tmaps[i]))
            cands = self.filter(a.pc, cands, m, warm)
        info['cands'] = cands
        ck = {cd.key() for _, cd in cands}
        for k, cd in cands:
            if (-cd).key() in ck:
                pc = pc.eq(cd)
        for k, cd in cands:
            pc = pc.ge(cd)
        if not self.lia.feasible(pc):
            raise Unsupported('contradictory invariant')
        S.pc = pc
        for k, a in zip(intk, xs):
            if a.isc():
                a = a.c
            o = comps[0][k]
            v = Ptr(o.reg, a) if isinstance(o, Ptr) else a
            self.setcomp(S, k, v)
        for k, v in fixed.items():
            self.setcomp(S, k, v)
        for k, v in havk:
            self.setcomp(S, k, self.havoc_like(c, k, v))
        # byte facts
        al = {}
        a0 = arrs[0].allowed
        for v in a0:
            if all(v in a.allowed for a in arrs) and inscope(v, scope):
                u = set()
                for a in arrs:
                    u.update(a.allowed[v])
                d = v.a[1]
                if len(u) < (1 << v.w):
                    al[v] = tuple(sorted(u))
        S.allowed = al
        S.bfacts = tuple(f for f in arrs[0].bfacts if all(f in a.bfacts for a in arrs) and inscope(f, scope))
        S.ext = dict(arrs[0].ext)
        for k in list(S.ext):
            if any(a.ext.get(k) != S.ext[k] for a in arrs):
                del S.ext[k]
        S.frames = arrs[0].frames
        for r in arrs[0].mem:
            S.mem.setdefault(r, {})
        return S, info

    def shared(self, base, arrs, scope, warm):
        """what one arrival knows about the symbols of base, beyond base: kept if all know it"""
        if len(arrs) < 2:
            return []
        out = {}
        n = min((a.pc for a in arrs), key=lambda p: p.depth)
        while n is not base and n is not None:
            if n.kind in ('ge', 'eq'):
                a = n.data
                for b in ((a,) if n.kind == 'ge' else (a, -a)):
                    b = base.norm(b)
                    if not b.isc() and all(s in scope for s in b.m) and ('f', b.key()) not in warm['dead']:
                        out.setdefault(b.key(), (('f', b.key()), b))
            n = n.parent
        return list(out.values())

    def limits(self, base, arrs, vecs, intk, xs, ts, warm):
        """constant limits of a single value that one arrival knows by a branch: kept if all know them"""
        if len(arrs) < 2:
            return []
        i = min(range(len(arrs)), key=lambda i: arrs[i].pc.depth)
        a = arrs[i]
        by = {}
        for j, (k, x) in enumerate(zip(intk, xs)):
            if any(s in ts for s in x.m):
                v = a.pc.norm(vecs[i][j])
                if not v.isc():
                    by.setdefault(tuple(sorted(v.m.items())), []).append((k, v.c, x))
        out = {}
        n = a.pc
        while n is not base and n is not None:
            if n.kind == 'ge':
                f = a.pc.norm(n.data)
                for sg in (1, -1):
                    for k, c, x in by.get(tuple(sorted((s, sg * e) for s, e in f.m.items())), ()):
                        b = x * sg + (f.c - sg * c)
                        nm = ('l', k, sg, f.c - sg * c)
                        if not b.isc() and nm not in warm['dead']:
                            out.setdefault(b.key(), (nm, b))
            n = n.parent
        return list(out.values())

    def order(self, k):
        # pointers and ghosts first: they make readable generators
        n = str(k)
        return (0 if '$' in n else 1, n)

    def setcomp(self, S, k, v):
        if k[0] == 'v':
            S.env[k[1]] = v
        else:
            S.mem.setdefault(k[1], {})[k[2]] = (k[3], v)

    def havoc_like(self, c, k, v):
        if k[0] == 'v':
            ty = self.typ.get(k[1])
            if ty is None:
                return UNDEF
            if ty[0] == 'i':
                return t.var(ty[1], ('h', c, k[1]))
            if ty[0] == 'vec' and ty[2][0] == 'i':
                return Vec(ty[2][1], [t.var(ty[2][1], ('h', c, k[1], j)) for j in range(ty[1])])
            return UNDEF
        n = k[3]
        if n in (1, 2, 4, 8):
            return t.var(8 * n, ('h', c, k))
        return UNDEF

    def candidates(self, c, keys, xs, ts, G, comp0, warm, scope):
        out = {}

        def add(name, a):
            a = aff(a)
            if a.isc() or name in warm['dead']:
                return
            out.setdefault(a.key(), (name, a))
        sig = tuple(tuple(g) for g in G)
        for j, s in enumerate(ts):
            add(('t+', j, sig), Aff.sym(s))
            add(('t-', j, sig), -Aff.sym(s))
        var = [(k, x) for k, x in zip(keys, xs)]
        nc = []
        for k, x in var:
            if any(s in ts for s in x.m):
                nc.append((k, x))
                add(('0', k), x)
                for j in (1, 2, 3, 4, 6, 8):
                    add((str(j), k), x - j)
        ups = self.contract.bounds(self)
        for n, u in ups:
            for k, x in nc:
                add(('<', n, k), u - x)
        # pairs
        if len(var) <= 24:
            for k, x in nc:
                for k2, y in var:
                    if k != k2:
                        add(('p', k, k2), x - y)
                        add(('q', k, k2), y - x)
        # progress since the head of the enclosing loop
        par = self.cuts[blk(c)][1]
        up = self.curxs.get(par)
        if up:
            for k, x in nc:
                y = up.get(k)
                if y is not None and all(s in scope for s in y.m):
                    add(('m', k), x - y)
                    add(('n', k), y - x)
        for n, a in self.contract.extra_candidates(self, dict(var), comp0):
            add(n, a)
        return list(out.values())

    def filter(self, pc, cands, m, warm):
        """drop candidates not provable on this arrival"""
        todo = []
        keep = []
        for name, a in cands:
            b = pc.norm(a.subst(m))
            if b.isc():
                if b.c >= 0:
                    keep.append((name, a))
                else:
                    warm['dead'].add(name)
                continue
            if self.lia.quick_ge(pc, b):
                keep.append((name, a))
                continue
            todo.append((name, a, b))
        L = self.lia
        while todo:
            L.sync(pc)
            L.s.push()
            L.s.add(z3.Or([L.z(b) < 0 for _, _, b in todo]))
            r = L.s.check()
            L.stats['queries'] += 1
            if r == z3.unsat:
                L.s.pop()
                keep += [(n, a) for n, a, _ in todo]
                break
            if r != z3.sat:
                L.s.pop()
                # undecided together: one by one
                for n, a, b in todo:
                    if L.prove_ge(pc, b):
                        keep.append((n, a))
                    else:
                        warm['dead'].add(n)
                break
            mod = L.s.model()
            L.s.pop()
            nt = []
            for n, a, b in todo:
                v = mod.eval(L.z(b), model_completion=True)
                if v.as_long() < 0:
                    warm['dead'].add(n)
                else:
                    nt.append((n, a, b))
            todo = nt
        order = {id(a): i for i, (_, a) in enumerate(cands)}
        keep.sort(key=lambda x: order[id(x[1])])
        return keep

    def inductive(self, c, info, backs, warm):
        """Do all back edges re-establish the invariant?  Otherwise weaken (returns False)."""
        ok = True
        newg = []
        keys = info['keys']
        for a in backs:
            comp = self.components(c, a)
            d = []
            for k, x in zip(keys, info['v0']):
                v = comp.get(k, UNDEF)
                o = self.invval(info, k)
                if isinstance(v, (int, Aff)) and o != 'ptr':
                    d.append(a.pc.norm(aff(v) - x))
                elif isinstance(v, Ptr) and o == 'ptr' and not v.idx and v.reg is info['S_reg'][k]:
                    d.append(a.pc.norm(aff(v.off) - x))
                else:
                    warm['hav'].add(k)
                    ok = False
                    d.append(None)
            for k, v in info['fixed'].items():
                if not same(comp.get(k, UNDEF), v):
                    warm['hav'].add(k)
                    ok = False
            if not ok and any(x is None for x in d):
                continue
            tm = solve_aff(info['G'], d)
            if tm is None:
                # difference from the head's own symbolic value gives the missing generators
                hd = [a.pc.norm(y + x0 - x) for y, x0, x in zip(d, info['v0'], info['xs'])]
                cs, sy = coefs(hd)
                added = False
                for g in [cs] + list(sy.values()):
                    if any(g) and lattice_solve(info['G'], g) is None:
                        newg.append(dict(zip(keys, g)))
                        added = True
                if not added:
                    for g in [coefs(d)[0]] + list(coefs(d)[1].values()):
                        if any(g) and lattice_solve(info['G'], g) is None:
                            newg.append(dict(zip(keys, g)))
                ok = False
                continue
            m = dict(zip(info['ts'], tm))
            left = self.filter(a.pc, info['cands'], m, warm)
            if len(left) != len(info['cands']):
                ok = False
        for g in newg:
            kk = tuple(sorted((str(k), v) for k, v in g.items() if v))
            warm['G'][kk] = g
        # reduce the stored generators
        if newg:
            allk = sorted({k for g in warm['G'].values() for k in g}, key=lambda k: self.order(k))
            H = hnf([[g.get(k, 0) for k in allk] for g in warm['G'].values()])
            warm['G'] = {i: dict(zip(allk, h)) for i, h in enumerate(H)}
        return ok

    def invval(self, info, k):
        if 'S_reg' not in info:
            info['S_reg'] = {}
        return 'ptr' if k in info['S_reg'] else 'int'

    def record(self, c, info, backs):
        """Invariant obligations of the final pass, and termination."""
        n = len(backs) * (len(info['cands']) + len(info['keys']))
        self.obs.append(Obligation('invariant', 'invariant of the loop at %s re-established on %d back edges (%d conjuncts)' %
                                   (blk(c), len(backs), len(info['cands']) + len(info['keys'])), c, True, None, 'lia'))
        self.loopinfo[c] = {'generators': len(info['G']), 'inequalities': len(info['cands']), 'backedges': len(backs)}
        if not backs:
            return
        # a bounded quantity that strictly decreases
        meas = []
        for name, a in info['cands']:
            if name[0] in ('0', '1', '<', 't+', 't-', 'p', 'q'):
                meas.append(a)
        tms = []
        for a in backs:
            comp = self.components(c, a)
            d = [a.pc.norm(aff(comp[k].off if isinstance(comp[k], Ptr) else comp[k]) - x) for k, x in zip(info['keys'], info['v0'])]
            tms.append(dict(zip(info['ts'], solve_aff(info['G'], d))))
        for m in meas:
            good = True
            for a, tm in zip(backs, tms):
                if not self.lia.prove_ge(a.pc, m - m.subst(tm) - 1):
                    good = False
                    break
            if good:
                self.obs.append(Obligation('termination', 'loop at %s: %r decreases and is bounded below' % (blk(c), m), c, True, None, 'lia'))
                return
        self.obs.append(Obligation('termination', 'loop at %s has a decreasing measure' % blk(c), c, False, None, 'lia'))


_merge = Verifier.merge


def merge(self, c, base, arrs, warm):
    S, info = _merge(self, c, base, arrs, warm)
    reg = {}
    comp0 = self.components(c, arrs[0])
    for k in info['keys']:
        if isinstance(comp0[k], Ptr):
            reg[k] = comp0[k].reg
    info['S_reg'] = reg
    return S, info


Verifier.merge = merge


def coefs(d):
    cs = [a.c for a in d]
    sy = {}
    for j, a in enumerate(d):
        for s, k in a.m.items():
            sy.setdefault(s, [0] * len(d))[j] = k
    return cs, sy


def solve_aff(G, d):
    cs, sy = coefs(d)
    co = lattice_solve(G, cs)
    if co is None:
        return None
    out = [Aff(x) for x in co]
    for s, g in sy.items():
        c2 = lattice_solve(G, g)
        if c2 is None:
            return None
        for j, x in enumerate(c2):
            if x:
                out[j] = out[j] + Aff(0, {s: x})
    return out


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Ptr):
        return a.key() == b.key()
    if isinstance(a, (int, Aff, Vec, Fn)):
        return a == b
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def inscope(v, scope):
    if isinstance(v, t.T):
        for x in v.sup:
            k = x.a[0]
            if k[0] == 's':
                if any(s not in scope for s, _ in k[1][1]):
                    return False
        return True
    if isinstance(v, Vec):
        return all(e is UNDEF or inscope(e, scope) for e in v.e)
    if isinstance(v, list):
        return all(inscope(x, scope) for x in v)
    if isinstance(v, Aff):
        return all(s in scope for s in v.m)
    if isinstance(v, Ptr):
        return inscope(v.off, scope) and all(inscope(x, scope) for x, _ in v.idx)
    return True
