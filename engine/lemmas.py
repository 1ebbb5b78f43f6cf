"""Lemmas over the contracts: what a user relies on follows from the function contracts.

Each returns a list of (name, holds, back end, cases)."""
import binascii
import numpy as np
import z3
from . import terms as t
from .lia import Aff
from .exec import State
from .codec import Encode, Decode, ALPHA, ENC, DECT, PAD, ALPHAT


class _Mod:
    ptrbits = 64


class _Eng:
    def residue(self, st, a, m):
        a = a.c if isinstance(a, Aff) else a
        return a // m, a % m


def _codec(cls):
    return cls(_Mod(), {'eof': 0, 'bytes': 4, 'flags': 8, 'carry': 12, 'size': 16})


def sv(j):
    return t.var(8, ('s', Aff(j).key()))


def _z3(name, goal, vs=(), pre=True):
    s = z3.Solver()
    s.set('timeout', 60000)
    s.add(z3.Not(z3.Implies(pre, goal)))
    return (name, s.check() == z3.unsat, 'z3', 1)


def E(k):
    return 4 * (k / 3) + k % 3


def D(k):
    return (3 * k) / 4


def groups():
    """all 2^24 three-byte groups in blocks"""
    for hi in range(0, 256, 16):
        a = np.arange(hi << 16, (hi + 16) << 16, dtype=np.uint32)
        yield (a >> 16) & 255, (a >> 8) & 255, a & 255


def encode_lemmas():
    out = []
    q, x, n = z3.Ints('q x n')
    out.append(_z3('E(3q+x) = 4q + E(x): chunk offsets compose', E(3 * q + x) == 4 * q + E(x), pre=z3.And(q >= 0, x >= 0)))
    r = n % 3
    out.append(_z3('E(n) + trailer(n mod 3) = 4*ceil(n/3)',
                   E(n) + z3.If(r == 1, 3, z3.If(r == 2, 2, 0)) == 4 * ((n + 2) / 3), pre=n >= 0))
    b, m = z3.Ints('b m')
    out.append(_z3('(s mod 3 + n) mod 3 = (s + n) mod 3: the state of the next call', ((b % 3) + m) % 3 == (b + m) % 3, pre=z3.And(b >= 0, m >= 0)))
    c = _codec(Encode)
    st = State()
    sp = [c.spec(_Eng(), st, k) for k in range(4)]
    ok = True
    cases = 0
    for v in groups():
        raw = np.stack(v, axis=1).astype(np.uint8).tobytes()
        ref = np.frombuffer(binascii.b2a_base64(raw, newline=False), dtype=np.uint8).reshape(-1, 4)
        env = {sv(j): v[j].astype(np.uint64) for j in range(3)}
        for k in range(4):
            ok &= bool(np.array_equal(np.asarray(t.np_eval(sp[k], env)).astype(np.uint8), ref[:, k]))
        cases += len(ref)
    out.append(('the specified group is the RFC 4648 text of every three bytes', ok, 'enumeration', cases))
    ok = True
    one = np.arange(256, dtype=np.uint64)
    car = t.np_eval(c.carry(1, 1), {sv(0): one})
    for i in range(256):
        ok &= bytes([int(np.asarray(t.np_eval(sp[0], {sv(0): one}))[i]), ENC[int(car[i])], PAD, PAD]) == binascii.b2a_base64(bytes([i]), newline=False)
    out.append(('carry and trailer of one pending byte give its RFC 4648 text', ok, 'enumeration', 256))
    two = np.arange(65536, dtype=np.uint64)
    env = {sv(0): two >> np.uint64(8), sv(1): two & np.uint64(255)}
    c0, c1, cr = (np.asarray(t.np_eval(x, env)) for x in (sp[0], sp[1], c.carry(2, 2)))
    ok = True
    for i in range(65536):
        ok &= bytes([int(c0[i]), int(c1[i]), ENC[int(cr[i])], PAD]) == binascii.b2a_base64(bytes([i >> 8, i & 255]), newline=False)
    out.append(('carry and trailer of two pending bytes give their RFC 4648 text', ok, 'enumeration', 65536))
    return out


class _AlwaysAlpha(Decode):
    def isalpha(self, eng, st, v):
        return True


def roundtrip_lemmas():
    out = []
    ec, dc = _codec(Encode), _codec(_AlwaysAlpha)
    st = State()
    es = [ec.spec(_Eng(), st, k) for k in range(4)]
    ds = [dc.spec(_Eng(), st, k) for k in range(3)]
    ok = True
    cases = 0
    for v in groups():
        env = {sv(j): v[j].astype(np.uint64) for j in range(3)}
        txt = {sv(k): np.asarray(t.np_eval(es[k], env)).astype(np.uint64) for k in range(4)}
        for j in range(3):
            ok &= bool(np.array_equal(np.asarray(t.np_eval(ds[j], txt)), env[sv(j)]))
        cases += len(v[0])
    out.append(('the specified decoding of the specified text of three bytes is the three bytes', ok, 'enumeration', cases))
    one = np.arange(256, dtype=np.uint64)
    txt = {sv(0): np.asarray(t.np_eval(es[0], {sv(0): one})), sv(1): np.asarray([ENC[int(x)] for x in t.np_eval(ec.carry(1, 1), {sv(0): one})], dtype=np.uint64)}
    out.append(('one-byte tail round trip', bool(np.array_equal(np.asarray(t.np_eval(ds[0], txt)), one)), 'enumeration', 256))
    two = np.arange(65536, dtype=np.uint64)
    env = {sv(0): two >> np.uint64(8), sv(1): two & np.uint64(255)}
    tab = np.asarray(ENC, dtype=np.uint64)
    txt = {sv(0): np.asarray(t.np_eval(es[0], env)), sv(1): np.asarray(t.np_eval(es[1], env)),
           sv(2): tab[np.asarray(t.np_eval(ec.carry(2, 2), env)).astype(np.int64)]}
    ok = bool(np.array_equal(np.asarray(t.np_eval(ds[0], txt)), env[sv(0)]) and np.array_equal(np.asarray(t.np_eval(ds[1], txt)), env[sv(1)]))
    out.append(('two-byte tail round trip', ok, 'enumeration', 65536))
    n = z3.Int('n')
    r = n % 3
    N = 4 * ((n + 2) / 3)
    P = z3.If(r == 0, N, z3.If(r == 1, N - 2, N - 1))
    out.append(_z3('the text of n bytes decodes to n bytes: D(P) = n', D(P) == n, pre=n >= 0))
    # one-shot result of the text of n bytes; the characters from P on are padding
    ret, eof, byt, ol = stepz(z3.IntVal(0), z3.IntVal(0), N, P, z3.IntVal(1), z3.IntVal(1), z3.IntVal(2))
    out.append(_z3('the text of n bytes is accepted', z3.And(ret == 1, byt == 0), pre=n >= 0))
    return out


AE, EO = 1, 2


def stepz(b, eof, n, P, c1, c2, f):
    """the decoder contract as a function: b pending, mark eof, n characters, alphabet prefix P,
    class of the character at P and P+1, class of the first character (0 other, 1 '=', 2 alphabet)"""
    If, And = z3.If, z3.And
    r = (b + P) % 4
    full = P == n
    ret = If(full, 1, If(c1 == 0, 0, If(r < 2, 0, If(r == 3, If(P + 1 == n, 1, 0), If(P + 1 == n, 1, If(And(c2 == 1, P + 2 == n), 1, 0))))))
    e = If(full, 0, If(And(c1 == 1, r == 2, P + 1 == n), AE, EO))
    by = If(full, (b + n) % 4, If(And(c1 == 1, r == 2, P + 1 == n), 3, 0))
    ol = D(b + P) - D(b)
    ret = If(eof == 0, ret, If(eof == EO, 0, If(n == 0, 0, If(And(f == 1, n == 1), 1, 0))))
    e = If(eof == 0, e, If(eof == EO, EO, If(n == 0, AE, EO)))
    by = If(eof == 0, by, If(eof == EO, b, If(n == 0, b, 0)))
    ol = If(eof == 0, ol, 0)
    return ret, e, by, ol


def decode_lemmas():
    out = []
    And, Or, If = z3.And, z3.Or, z3.If
    q, x = z3.Ints('q x')
    out.append(_z3('D(4q+x) = 3q + D(x): chunk offsets compose', D(4 * q + x) == 3 * q + D(x), pre=And(q >= 0, x >= 0)))
    b, eof, nx, Px, c1x, c2x, ny, Py, c1y, c2y = z3.Ints('b eof nx Px c1x c2x ny Py c1y c2y')
    fx = If(Px > 0, 2, c1x)
    fy = If(Py > 0, 2, c1y)
    pre = And(b >= 0, b <= 3, eof >= 0, eof <= 2, z3.Implies(eof == AE, b == 3), nx >= 1, ny >= 1, Px >= 0, Px <= nx, Py >= 0, Py <= ny,
              c1x >= 0, c1x <= 1, c1y >= 0, c1y <= 1, c2x >= 0, c2x <= 2, c2y >= 0, c2y <= 2)
    r1, e1, b1, o1 = stepz(b, eof, nx, Px, c1x, c2x, fx)
    r2, e2, b2, o2 = stepz(b1, e1, ny, Py, c1y, c2y, fy)
    Pz = If(Px < nx, Px, nx + Py)
    c1z = If(Px < nx, c1x, c1y)
    c2z = If(Px < nx, If(Px + 1 < nx, c2x, fy), c2y)
    rz, ez, bz, oz = stepz(b, eof, nx + ny, Pz, c1z, c2z, fx)
    out.append(_z3('two calls write as much as one call on the joined text', o1 + o2 == oz, pre=pre))
    out.append(_z3('after an accepted call, the next call returns what one call on the joined text returns', r2 == rz, pre=And(pre, r1 == 1)))
    out.append(_z3('after an accepted call, the next call ends in the state of one call on the joined text',
                   And(e2 == ez, z3.Implies(ez != EO, b2 == bz)), pre=And(pre, r1 == 1)))
    out.append(_z3('a rejected call ends the text for good, as one call on the joined text does', And(e1 == EO, r2 == 0, rz == 0, e2 == EO, ez == EO, o2 == 0), pre=And(pre, r1 == 0)))
    # one-shot: a grammar characterisation
    n, P, c1, c2 = z3.Ints('n P c1 c2')
    pre = And(n >= 0, P >= 0, P <= n, c1 >= 0, c1 <= 1, c2 >= 0, c2 <= 2)
    r, e, by, o = stepz(z3.IntVal(0), z3.IntVal(0), n, P, c1, c2, If(P > 0, 2, c1))
    acc = And(r == 1, by == 0)
    wf = And(n % 4 == 0, Or(P == n, And(P + 1 == n, c1 == 1), And(P + 2 == n, c1 == 1, c2 == 1)))
    out.append(_z3('the one-shot decoder accepts exactly the well-formed texts', acc == wf, pre=pre))
    return out


if __name__ == '__main__':
    import time
    for f in (encode_lemmas, roundtrip_lemmas, decode_lemmas):
        t0 = time.time()
        for x in f():
            print(x)
        print(f.__name__, round(time.time() - t0, 1))
