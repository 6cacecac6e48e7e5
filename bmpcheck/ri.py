"""Term disequality by random interpretation (Gulwani and Necula): two value graphs whose
normal forms differ are given the same random meaning (symbols small random values,
uninterpreted calls a hash of their arguments) and an alarm is raised only when some
meaning tells them apart.  Nothing of the package is run: only terms are interpreted."""
import math
import random
import re
import time
from fractions import Fraction
from hashlib import blake2b, shake_128

from . import terms as X
from .terms import T, syms, show

IMGBITS = {}        # bits per pixel of the image parameters


class Undef(Exception):
    """no meaning under this valuation (index error, division by zero ...)"""


class Budget(Exception):
    pass


class Unknown(Exception):
    """operator without an interpretation"""


def H(*a):
    return int.from_bytes(blake2b(repr(a).encode(), digest_size=6).digest(), 'big')


OVR = {}            # values given to uninterpreted results by the valuation in use


def unk(h, kind=None):
    r = OVR.get(h)
    if r is None or LOOSE[0] and not (isinstance(r.v, (int, Fraction)) and r.v >= 1 or isinstance(r.v, (str, Unk))):
        return Unk(h, kind)
    if type(r.v) is int:
        v = UInt(r.v)
        v.h = h
        return v
    return r.v


class Box:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class UInt(int):
    """integer drawn for an uninterpreted result h"""


def uint(v, h):
    r = OVR.get(h)
    if r is not None and isinstance(r.v, int):
        v = r.v
    v = UInt(v)
    v.h = h
    return v


class Unk:
    """uninterpreted value"""
    __slots__ = ('h', 'kind')

    def __init__(self, h, kind=None):
        self.h, self.kind = h, kind

    def __repr__(self):
        return 'U%x' % self.h


class Fn:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key


BASE = {}
GEN = [0]           # counts valuations


def base(tag, n):
    """the bytes an unknown memory holds"""
    b = BASE.get(tag, b'')
    if len(b) < n:
        if n > 80000000:
            raise Budget
        if len(BASE) > 3000 or n > 1000000:
            BASE.clear()
        b = BASE[tag] = shake_128(repr(tag).encode()).digest(max(n, 64))
    return b


class Mem:
    """sequence: base(i) below length n, overlaid by explicit cells"""
    __slots__ = ('kind', 'tag', 'n', 'cells', 'c', 'b')

    def __init__(self, kind, tag, n, cells=None):
        self.kind, self.tag, self.n, self.cells, self.c, self.b = kind, tag, n, cells or {}, None, None

    def get(self, i):
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise Undef
        if i in self.cells:
            return self.cells[i]
        if self.kind == 'bytes':
            b = base(self.tag, self.n)[i]
            v = uint(b, ('cell', self.tag, i))
            return v if 0 <= v <= 255 else b
        return unk(H('cell', self.tag, i))

    def bulk(self):
        """all bytes"""
        if self.b is None or self.b[0] != GEN[0]:
            b = bytearray(base(self.tag, self.n)[:self.n])
            for h, x in OVR.items():
                if type(h) is tuple and h[1] == self.tag and h[2] < self.n and type(x.v) is int and 0 <= x.v <= 255:
                    b[h[2]] = x.v
            for i, x in self.cells.items():
                b[i] = num(x) if isinstance(x, Unk) else x
            self.b = GEN[0], bytes(b)
        return self.b[1]

    def put(self, i, v):
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise Undef
        c = dict(self.cells)
        c[i] = v
        return Mem(self.kind, self.tag, self.n, c)


class Lst:
    """explicit sequence"""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


class Dct:
    __slots__ = ('items', 'tag')

    def __init__(self, items, tag=None):
        self.items, self.tag = items, tag


def tobytes(q):
    return q if isinstance(q, bytes) else bytes([num(x) if isinstance(x, Unk) else x for x in q])


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction, float, complex)):
        return v
    if isinstance(v, Unk):
        if v.kind == 'real':
            return Fraction(v.h % 61 - 20, 3)
        if v.kind is None:
            return v.h % 23 + 1 if LOOSE[0] else v.h % 41 - 8
        return v.h % 256
    raise Undef


def integer(v):
    v = num(v)
    if isinstance(v, Fraction):
        if v.denominator != 1:
            raise Undef
        return int(v)
    if isinstance(v, float):
        if v != int(v):
            raise Undef
        return int(v)
    if isinstance(v, complex):
        raise Undef
    return v


def truth(v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, (int, Fraction, float, complex)):
        return v != 0
    if isinstance(v, str):
        return v != ''
    if isinstance(v, Unk):
        return bool(H('truth', v.h) & 1)
    if isinstance(v, Lst):
        return len(v.v) > 0
    if isinstance(v, Mem):
        return v.n > 0
    if isinstance(v, Dct):
        return bool(v.items)
    return True


def sgn(v):
    return (v > 0) - (v < 0)


LOOSE = [False]     # lists and tuples are the same, uninterpreted numbers are positive


def canon(v):
    """hashable canonical form"""
    if isinstance(v, (bool, UInt)):
        return int(v)
    if v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else ('q', v.numerator, v.denominator)
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e15:
            return int(v)
        return ('f', float('%.9g' % v))
    if isinstance(v, complex):
        return ('c', canon(v.real), canon(v.imag))
    if isinstance(v, Unk):
        return ('u', v.h)
    if isinstance(v, Fn):
        return ('fn', v.key)
    if isinstance(v, Lst):
        if v.kind == 'bytes' and len(v.v) > 64:
            try:
                return ('bytes', len(v.v), blake2b(tobytes(v.v), digest_size=12).digest())
            except (TypeError, ValueError):
                pass
        return (kind(v),) + tuple(canon(x) for x in v.v)
    if isinstance(v, Mem):
        if v.c is None or v.c[0] != GEN[0]:
            if v.kind == 'bytes' and v.n > 64:
                v.c = GEN[0], ('bytes', v.n, blake2b(v.bulk(), digest_size=12).digest())
            elif v.n > 20000:
                raise Budget
            else:
                v.c = GEN[0], (kind(v),) + tuple(canon(v.get(i)) for i in range(v.n))
        return v.c[1]
    if isinstance(v, Dct):
        return ('dict', v.tag) + tuple(sorted(((canon(a), canon(b)) for a, b in v.items), key=repr))
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    raise Unknown('canon %r' % type(v))


def kind(v):
    return 'list' if LOOSE[0] and v.kind == 'tuple' else v.kind


def close(a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and a[0] in ('f', 'c', 'q') or b and b[0] in ('f', 'c', 'q'):
            return abs(_f(a) - _f(b)) <= 1e-6 * (1 + abs(_f(a))) if _f(a) is not None and _f(b) is not None else False
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    fa, fb = _f(a), _f(b)
    if fa is not None and fb is not None and (isinstance(a, tuple) or isinstance(b, tuple)):
        return abs(fa - fb) <= 1e-6 * (1 + abs(fa))
    return False


def _f(a):
    if isinstance(a, int):
        return a
    if isinstance(a, tuple) and a:
        if a[0] == 'f':
            return a[1]
        if a[0] == 'q':
            return a[1] / a[2]
        if a[0] == 'c':
            x, y = _f(a[1]), _f(a[2])
            return complex(x, y) if x is not None and y is not None else None
    return None


def isbound(n):
    return n.startswith('#') or n.startswith('$a') or n.startswith('$k') or n.startswith('$m')


class Env:
    loop = None

    def __init__(self, parent, binds):
        self.parent, self.binds, self.memo = parent, binds, {}
        self.keys = frozenset(binds)


def step(m, body):
    """by how much one pass changes a variable, 0 when that is not known"""
    if body.op == 'ite':
        return step(m, body.args[1]) or step(m, body.args[2])
    d = X.numval(X.sub(body, m))
    return d or 0


class Eval:
    def __init__(self, rng, val, budget=150000):
        self.rng, self.val, self.budget = rng, val, budget
        self.top = Env(None, {})
        self.roots = {}             # memory left by a call -> memory before any call
        self.ban = ()               # operators one side only applies
        self.cands = None           # valuations that change the outcome of a test met on the way
        self.outs = set()           # outcomes of tests
        self.times = {}
        self.nth = 0                # pass of the loop whose test is evaluated

    # ------------------------------------------------------------ neighbouring valuations
    def note(self, t, env, v, targets):
        at = (t, self.nth) if self.nth else t
        self.outs.add((at, sgn(v)))
        n = self.times[t] = self.times.get(t, 0) + 1
        if len(self.cands) > 400 or n > 6 and self.rng.random() * n > 6:
            return
        for x in targets:
            if x != v:
                self.goal = (at, sgn(x))
                self.solve(t, t, env, x - v, 0)

    def noted(self, why, kind, key, v):
        if len(self.cands) <= 400:
            self.cands.append((why, kind, key, v, self.goal))

    def lookup(self, t, env):
        e = env
        while e is not None:
            if t in e.binds:
                return True
            e = e.parent
        return False

    def solve(self, why, t, env, delta, depth):
        """valuations under which t would be larger by delta"""
        if depth > 5:
            return
        if t.op == 'poly':
            slope = {}
            for m, c in t.args:
                for a, e in m:
                    if e != 1:
                        slope[a] = None
                        continue
                    if slope.get(a, 0) is None:
                        continue
                    p = c
                    for b, f in m:
                        if b is not a:
                            x = num(self.ev(b, env))
                            if not isinstance(x, (int, Fraction)) or f < 0 and x == 0 or f != int(f):
                                p = None
                                break
                            p = p * Fraction(x) ** int(f)
                    slope[a] = None if p is None else slope.get(a, 0) + p
            for a, k in slope.items():
                if not k:
                    continue
                d = Fraction(delta) / k if isinstance(delta, (int, Fraction)) else delta / float(k)
                self.solve(why, a, env, d, depth + 1)
            return
        if isinstance(delta, Fraction) and delta.denominator == 1:
            delta = int(delta)
        if t.op == 'sym':
            if self.lookup(t, env):
                e = env
                while t not in e.binds:
                    e = e.parent
                if e.loop is not None and isinstance(delta, (int, Fraction)):
                    # another pass of the loop
                    count, n, ms, bodies, k = e.loop
                    if t.args[0].startswith('#k'):
                        c = 1
                    else:
                        c = step(t, bodies.args[ms[t]]) if t in ms else 0
                    if c and delta / c > 0:
                        k = k + int(math.ceil(delta / c))
                        if n <= k < 2000:
                            self.solve(why, count, e.parent, k + 1 - n, depth + 1)
                return
            v = self.symval(t)
            if isinstance(v, Unk):
                v = num(v)
            if t.args[1] == 'int' and not isinstance(delta, int) or not isinstance(v, (int, Fraction)) or isinstance(v, bool):
                return
            v = v + delta
            lo, hi = t.args[2:4]
            if lo is not None and v < lo or hi is not None and v > hi or t.args[0].endswith('.fsz') and v < 3000:
                return
            if (lo, hi) == (1, 24) and t.args[0] in DEPTHS and v not in (1, 4, 8, 24):
                return
            self.noted(why, 'sym', t, v)
            return
        if t.op in ('relu',):
            self.solve(why, t.args[0], env, delta if self.real(self.ev(t, env)) > 0 else delta - self.real(self.ev(t.args[0], env)), depth + 1)
            return
        if t.op in ('max', 'min'):
            v = self.ev(t, env)
            for a in t.args:
                if self.ev(a, env) == v:
                    self.solve(why, a, env, delta, depth + 1)
                    break
            return
        if t.op == 'app' and t.args[0] == 'fd' and t.args[2].op == 'num':
            self.solve(why, t.args[1], env, delta * t.args[2].args[0], depth + 1)
            return
        if t.op == 'app' and t.args[0] in ('trunc', 'round'):
            self.solve(why, t.args[1], env, delta, depth + 1)
            return
        if t.op == 'app' and t.args[0] == 'and_' and t.args[2].op == 'num':
            self.solve(why, t.args[1], env, delta, depth + 1)
            return
        if t.op == 'ite':
            self.solve(why, t.args[1] if truth(self.ev(t.args[0], env)) else t.args[2], env, delta, depth + 1)
            return
        v = self.ev(t, env)
        if t.op == 'idx' and X.numval(t.args[1]) == 28 and (X.seqkind(t.args[0]) == 'bytes' or t.args[0].op == 'retseq' and t.args[0].args[0] == 'bytes') and num(v) + delta not in (1, 4, 8, 24):
            return          # the depth of an image
        if isinstance(v, UInt) and isinstance(delta, int):
            self.noted(why, 'unk', v.h, int(v) + delta)
            if type(v.h) is tuple and v.h[0] == 'len' and abs(delta) > 12:
                # elements mostly come in groups
                self.noted(why, 'unk', v.h, (int(v) + delta) // 12 * 12)
                self.noted(why, 'unk', v.h, -(-(int(v) + delta) // 12) * 12)
                if 12 < delta < 400:
                    self.noted(why, 'unk', v.h, 2 * (int(v) + delta))
        elif isinstance(v, Unk) and isinstance(delta, (int, Fraction)):
            self.noted(why, 'unk', v.h, num(v) + delta)

    def edge(self, t, env, v):
        """a comparison of t, whose value is v, with zero"""
        if self.cands is None or isinstance(v, complex):
            return
        try:
            self.note(t, env, v, (0, 1, -1, self.rng.choice((2, -2, 3, -3, 7, -12))))
        except (Undef, Unknown, OverflowError, ZeroDivisionError, ValueError, TypeError):
            pass

    def same(self, why, a, b, env, ta=None, tb=None):
        """an equality test of a and b"""
        try:
            self.outs.add((why, self.eqv(a, b)))
        except Unknown:
            return
        self.goal = (why, True)
        for x, y, tx in ((a, b, ta), (b, a, tb)):
            if isinstance(x, (Unk, UInt)) and not isinstance(y, type(x)) and not (isinstance(x, UInt) and not isinstance(y, int)):
                self.noted(why, 'unk', x.h, y)
            elif isinstance(x, Unk) and isinstance(y, Unk) and x.h != y.h:
                self.noted(why, 'unk', x.h, y)
            elif tx is not None and tx.op == 'sym' and not self.lookup(tx, env) and type(x) is type(y) and isinstance(x, (int, str)) and x != y \
                    and tx.args[2] is None and tx.args[3] is None:
                self.noted(why, 'sym', tx, y)
            elif isinstance(x, Lst) and isinstance(y, Lst) and len(x.v) == len(y.v) and x is a:
                for p, q in zip(x.v, y.v):
                    self.same(why, p, q, env)

    # ------------------------------------------------------------ sequences
    def seq(self, v):
        """explicit list of elements"""
        if isinstance(v, Lst):
            return v.v
        if isinstance(v, Mem):
            if v.n > 4000 and (v.kind == "bytes" or v.n > 20000):
                if v.kind == 'bytes':
                    return v.bulk()
                raise Budget
            return [v.get(i) for i in range(v.n)]
        if isinstance(v, Unk):
            return [unk(H('elem', v.h, i)) for i in range(self.len(v))]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Dct):
            return [k for k, _ in v.items]
        raise Undef

    def len(self, v):
        if isinstance(v, Lst):
            return len(v.v)
        if isinstance(v, Mem):
            return v.n
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Dct):
            return len(v.items)
        if isinstance(v, Unk):
            h = H('len', v.h)
            return max(0, uint(3 + h % 3, h))
        raise Undef

    def index(self, s, i):
        if isinstance(s, (Unk, Fn)):
            s = s if isinstance(s, Unk) else Unk(H('fn', s.key))
            n = OVR.get(H('len', s.h))
            if n is not None and type(i) is int and type(n.v) is int and not -n.v <= i < n.v:
                raise Undef             # of a length chosen by the search
            return unk(H('elem', s.h, canon(i)))
        if isinstance(s, Dct):
            for k, v in s.items:
                if canon(k) == canon(i):
                    return v
            raise Undef
        i = integer(i)
        if isinstance(s, Mem):
            if i >= s.n and self.cands is not None and isinstance(s.n, UInt) and i < 300:
                self.goal = (('short', s.n.h), i)
                self.noted(('short', s.n.h), 'unk', s.n.h, i + 1)
                self.outs.add((('short', s.n.h), -1))
            return s.get(i)
        if isinstance(s, (Lst, str)):
            q = s if isinstance(s, str) else s.v
            if not -len(q) <= i < len(q):
                raise Undef
            return q[i]
        raise Undef

    def kindof(self, s):
        return s.kind if isinstance(s, (Lst, Mem)) else 'list'

    def byteseq(self, v):
        if isinstance(v, Mem) and v.kind == 'bytes':
            return v
        q = self.seq(v)
        if isinstance(q, bytes):
            return Lst('bytes', q)
        out = []
        for x in q:
            b = integer(x)
            if not 0 <= b <= 255:
                raise Undef
            out.append(b)
        return Lst('bytes', out)

    def slc(self, s, lo, hi, st):
        n = self.len(s)
        r = range(n)[slice(None if lo is None else integer(lo), None if hi is None else integer(hi),
                           None if st is None else integer(st))]
        if self.cands is not None and type(hi) is int and hi > 64 and hi > n and isinstance(n, UInt) and (type(n.h) is tuple or hi < 3000) \
                and ('slice', hi) not in self.times:
            self.times[('slice', hi)] = 1
            self.goal = (('slice', hi), 1)
            self.noted(('slice', hi), 'unk', n.h, hi + 12)
        if len(r) > 2000 and self.kindof(s) == 'bytes':
            q = self.seq(s) if isinstance(s, Lst) else s.bulk()
            self.budget -= len(r) >> 5
            return Lst('bytes', q[r.start:r.stop if r.stop >= 0 else None:r.step])
        if len(r) > 20000:
            raise Budget
        self.budget -= len(r)
        if isinstance(s, str):
            return s[slice(lo, hi, st)]
        if isinstance(s, Mem):
            return Lst(s.kind, [s.get(i) for i in r])
        q = self.seq(s)
        return Lst(self.kindof(s), [q[i] for i in r])

    def put(self, s, i, v):
        if isinstance(s, Dct):
            return Dct([(k, x) for k, x in s.items if canon(k) != canon(i)] + [(i, v)], s.tag)
        if isinstance(s, Unk):
            return unk(H('put', s.h, canon(i), canon(v)))
        if self.kindof(s) == 'bytes':
            v = integer(v)
            if not 0 <= v <= 255:
                raise Undef
        i = integer(i)
        if isinstance(s, Mem):
            return s.put(i, v)
        q = list(self.seq(s))
        if not -len(q) <= i < len(q):
            raise Undef
        q[i] = v
        return Lst(self.kindof(s), q)

    def putslice(self, s, lo, hi, st, val):
        n = self.len(s)
        r = range(n)[slice(None if lo is None else integer(lo), None if hi is None else integer(hi),
                           None if st is None else integer(st))]
        q = self.seq(val)
        self.budget -= len(q)
        if isinstance(s, Mem) and len(r) == len(q):
            if len(r) > 50000:
                raise Budget
            self.budget -= len(s.cells) >> 6
            c = dict(s.cells)
            for i, x in zip(r, q):
                c[i] = x
            return Mem(s.kind, s.tag, s.n, c)
        w = list(self.seq(s)) if self.kindof(s) != 'bytes' or n <= 4000 else bytearray(tobytes(self.seq(s)))
        try:
            w[slice(None if lo is None else integer(lo), None if hi is None else integer(hi),
                    None if st is None else integer(st))] = q
        except ValueError:
            raise Undef
        return Lst(self.kindof(s), bytes(w) if isinstance(w, bytearray) else w)

    def concat(self, parts):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        if self.kindof(parts[0]) == 'bytes':
            q = [self.seq(p) for p in parts]
            if sum(map(len, q)) > 4000:
                self.budget -= sum(map(len, q)) >> 5
                return Lst('bytes', b''.join(map(tobytes, q)))
        out = []
        for p in parts:
            out += self.seq(p)
        if len(out) > 60000:
            raise Budget
        self.budget -= len(out)
        return Lst(self.kindof(parts[0]), out)

    # ------------------------------------------------------------ symbols
    def symval(self, t):
        v = self.val.get(t)
        if v is None:
            v = self.val[t] = self.val['$draw'](t, self.val)
        return v

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env=None):
        env = env or self.top
        ss = syms(t)
        while env.parent is not None and not (env.keys & ss):
            env = env.parent
        r = env.memo.get(t, env)
        if r is not env:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Budget
        m = getattr(self, 'o_' + t.op, None)
        if m is None:
            if t.op in self.ban:
                raise Unknown(t.op)
            r = self.uninterp(t, env)
        else:
            r = m(t, env)
        env.memo[t] = r
        return r

    def hash(self, t, env):
        return H(t.op, *[canon(self.ev(a, env)) if isinstance(a, T) else repr(a) for a in t.args])

    def uninterp(self, t, env, kind=None):
        return unk(self.hash(t, env), kind)

    def o_num(self, t, env):
        v = t.args[0]
        return int(v) if v.denominator == 1 else v

    def o_const(self, t, env):
        return t.args[0]

    def o_sym(self, t, env):
        e = env
        while e is not None:
            if t in e.binds:
                return e.binds[t]
            e = e.parent
        return self.symval(t)
    o_mem = o_sym

    def o_poly(self, t, env):
        s = 0
        for m, c in t.args:
            p = c if c.denominator != 1 else int(c)
            for a, e in m:
                x = num(self.ev(a, env))
                if isinstance(p, Fraction) and isinstance(x, (float, complex)):
                    p = float(p)
                if isinstance(x, Fraction) and isinstance(p, (float, complex)):
                    x = float(x)
                if isinstance(x, int) and isinstance(p, (float, complex)) and abs(x) > 1 << 900:
                    raise Undef
                try:
                    if e < 0 or not isinstance(e, int) and e != int(e):
                        if x == 0:
                            raise Undef
                        x = Fraction(x) if isinstance(x, int) else x
                    p = p * (x if e == 1 else x ** (int(e) if e == int(e) else float(e)))
                except (OverflowError, ZeroDivisionError, ValueError):
                    raise Undef
            try:
                if isinstance(s, Fraction) and isinstance(p, (float, complex)):
                    s = float(s)
                if isinstance(p, Fraction) and isinstance(s, (float, complex)):
                    p = float(p)
                s = s + p
            except OverflowError:
                raise Undef
        if isinstance(s, Fraction) and s.denominator == 1:
            s = int(s)
        return s

    def real(self, v):
        v = num(v)
        if isinstance(v, complex):
            if abs(v.imag) > 1e-9:
                raise Undef
            v = v.real
        if v != v:
            raise Undef
        return v

    def o_relu(self, t, env):
        v = self.real(self.ev(t.args[0], env))
        if self.cands is not None:
            self.edge(t.args[0], env, v)
        return max(0, v)

    def o_max(self, t, env):
        return max(self.real(self.ev(a, env)) for a in t.args)

    def o_min(self, t, env):
        return min(self.real(self.ev(a, env)) for a in t.args)

    def o_ge0(self, t, env):
        v = self.real(self.ev(t.args[0], env))
        if self.cands is not None:
            self.edge(t.args[0], env, v)
        return v >= 0

    def o_gt0(self, t, env):
        v = self.real(self.ev(t.args[0], env))
        if self.cands is not None:
            self.edge(t.args[0], env, v)
        return v > 0

    def o_eq0(self, t, env):
        v = num(self.ev(t.args[0], env))
        if self.cands is not None:
            self.edge(t.args[0], env, v)
        return v == 0

    def o_ne0(self, t, env):
        v = num(self.ev(t.args[0], env))
        if self.cands is not None:
            self.edge(t.args[0], env, v)
        return v != 0

    def o_eq(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if self.cands is not None:
            self.same(t.args[0], a, b, env, t.args[0], t.args[1])
        return self.eqv(a, b)

    def eqv(self, a, b):
        if isinstance(a, Unk) and isinstance(b, (int, Fraction)) and not isinstance(b, bool):
            return num(a) == b
        if isinstance(b, Unk) and isinstance(a, (int, Fraction)) and not isinstance(a, bool):
            return num(b) == a
        return canon(a) == canon(b)

    def o_ne(self, t, env):
        return not self.o_eq(t, env)

    def o_not(self, t, env):
        return not truth(self.ev(t.args[0], env))

    def o_and(self, t, env):
        return all(truth(self.ev(a, env)) for a in t.args)

    def o_or(self, t, env):
        u = None
        for a in t.args:
            try:
                if truth(self.ev(a, env)):
                    return True
            except Undef as e:
                u = e
        if u:
            raise u
        return False

    def o_truthy(self, t, env):
        v = self.ev(t.args[0], env)
        if self.cands is not None and isinstance(v, Unk):
            self.outs.add((t.args[0], truth(v)))
            self.goal = (t.args[0], not truth(v))
            self.noted(t.args[0], 'unk', v.h, 0 if truth(v) else 1)
            self.noted(t.args[0], 'unk', v.h, None)
        return truth(v)

    def o_ite(self, t, env):
        return self.ev(t.args[1] if truth(self.ev(t.args[0], env)) else t.args[2], env)

    def o_list(self, t, env):
        return Lst('list', [self.ev(a, env) for a in t.args])

    def o_tuple(self, t, env):
        return Lst('tuple', [self.ev(a, env) for a in t.args])

    def o_bytes(self, t, env):
        out = []
        for a in t.args:
            v = integer(self.ev(a, env))
            if not 0 <= v <= 255:
                raise Undef
            out.append(v)
        return Lst('bytes', out)

    def o_asbytes(self, t, env):
        return self.byteseq(self.ev(t.args[0], env))

    def o_dict(self, t, env):
        a = [self.ev(x, env) for x in t.args]
        return Dct(list(zip(a[::2], a[1::2])))

    def o_concat(self, t, env):
        return self.concat([self.ev(a, env) for a in t.args])

    def o_rep(self, t, env):
        s, n = self.ev(t.args[0], env), integer(self.ev(t.args[1], env))
        n = max(n, 0)
        if isinstance(s, str):
            return s * min(n, 200)
        q = self.seq(s)
        if len(q) * n > 60000:
            raise Budget
        return Lst(self.kindof(s), list(q) * n)

    def o_idx(self, t, env):
        return self.index(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_slice(self, t, env):
        return self.slc(*[self.ev(a, env) for a in t.args])

    def o_store(self, t, env):
        return self.put(*[self.ev(a, env) for a in t.args])

    def o_sstore(self, t, env):
        return self.putslice(*[self.ev(a, env) for a in t.args])

    def o_dset(self, t, env):
        return self.put(*[self.ev(a, env) for a in t.args])

    def o_dget(self, t, env):
        return self.index(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_fn(self, t, env):
        return Fn(t.args[0])

    def o_builtin(self, t, env):
        if t.args[0] in DATA:
            return unk(H('data', t.args[0]))
        return Fn('b:' + t.args[0])

    def o_file(self, t, env):
        return self.uninterp(t, env)

    def a_fileread(self, f, pos, n):
        """n bytes at pos of a file; a file holds an image"""
        m = image('file', canon(f))
        b = self.place(m, pos)
        e = m.n if n is None else min(m.n, b + max(0, integer(n)))
        return self.slc(m, b, e, None)

    def place(self, m, pos):
        if isinstance(pos, Lst) and pos.kind == 'advanced':
            p, n = pos.v
            p = self.place(m, p)
            return m.n if n is None else min(m.n, p + max(0, integer(n)))
        if isinstance(pos, Unk):
            return 0
        return min(m.n, max(0, integer(pos)))

    def a_advanced(self, pos, n):
        return Lst('advanced', [pos, n])

    def o_lam(self, t, env):
        n, body = t.args
        ps = sorted([s for s in syms(body) if s.op == 'sym' and s.args[0].startswith('$a')], key=lambda s: s.args[0])
        lv = min([int(s.args[0][2:].split('_')[0]) for s in ps], default=0)
        out = []
        for k in range(2):
            binds = {s: unk(H('lamarg', s.args[0].split('_')[1], k)) for s in ps if int(s.args[0][2:].split('_')[0]) == lv}
            try:
                out.append(canon(self.ev(body, Env(env, binds))))
            except Undef:
                out.append('undef')
        return Fn(('lam', n, tuple(out)))

    def o_comp(self, t, env):
        e, n, k, g = t.args
        n = max(0, integer(self.ev(n, env)))
        if n > 3000:
            raise Budget
        out = []
        for i in range(n):
            z = Env(env, {k: i})
            if g is X.TRUE or truth(self.ev(g, z)):
                if e.op == 'splice':
                    out += self.seq(self.ev(e.args[0], z))
                else:
                    out.append(self.ev(e, z))
        return Lst('list', out)

    def loop(self, t, env):
        h, count, inits, bodies, ex = t.args
        key = ('loop', t)
        ss = syms(t)
        while env.parent is not None and not (env.keys & ss):
            env = env.parent
        if key in env.memo:
            return env.memo[key]
        vals = [self.ev(a, env) for a in inits.args]
        n = None if count is X.NONE else max(0, integer(self.ev(count, env)))
        ex = list(ex.args)
        ctl = retv = cond = None
        if len(ex) >= 2:
            ctl, retv = ex[:2]
            ex = ex[2:]
        if ex:
            cond = ex[0]
        ksym = X.sym('#k%d' % h, 'int', 0, None)
        ms = {}
        for b in list(bodies.args) + list(t.args[4].args):
            for a in syms(b):
                nm = a.args[0] if a.op == 'sym' else a.args[1]
                if nm.startswith('#m%d_' % h):
                    ms[a] = int(nm.split('_')[1])
        i = 0
        ret, returned = None, False
        while n is None or i < n:
            z = Env(env, dict([(ksym, i)] + [(a, vals[j]) for a, j in ms.items()]))
            if n is not None:
                z.loop = count, n, ms, bodies, i
            if n is None and cond is not None:
                nth, self.nth = self.nth, min(i, 2)
                more = truth(self.ev(cond, z))
                self.nth = nth
                if not more:
                    break
            self.budget -= 3
            if self.budget < 0 or i > 3000:
                raise Budget
            c = self.ev(ctl, z) if ctl is not None else 'n'
            if c == 'r':
                ret, returned = self.ev(retv, z), True
            vals = [self.ev(b, z) for b in bodies.args]
            i += 1
            if c in ('b', 'r'):
                break
        if n is not None:
            self.outs.add((('trips', t), min(i, 3)))
        r = (vals, i, ret, returned)
        env.memo[key] = r
        return r

    def o_after(self, t, env):
        return self.loop(t.args[1], env)[0][t.args[2]]

    def o_loopret(self, t, env):
        return self.loop(t.args[0], env)[2]

    def o_loop(self, t, env):
        raise Unknown('loop')

    def result(self, t, env):
        """hash of a call whose result is used"""
        c = t.args[-1]
        if not LOOSE[0] or c.op != 'call':
            return self.hash(t, env)
        # what a callee tells about an image is taken not to depend on its pixels
        out = []
        for a in c.args:
            if isinstance(a, T):
                a = self.ev(a, env)
                if isinstance(a, Mem) and a.kind == 'bytes':
                    a = ('root', self.roots.get(a.tag, a.tag), a.n)
            out.append(canon(a))
        return H(t.op, 'call', *out)

    def o_ret(self, t, env):
        return unk(self.result(t, env))

    def o_reti(self, t, env):
        h = self.result(t, env)
        if LOOSE[0]:
            v = uint(h % 33 + 1, h)
            return v if v >= 1 else h % 33 + 1
        return uint(h % 37 - 4, h)

    def o_retseq(self, t, env):
        k = t.args[0]
        h = self.ev(t.args[1], env)
        if isinstance(h, (Mem, Lst)):
            return h if h.kind == k else Lst(k, self.seq(h))
        if k == 'dict':
            return unk(H('dict', canon(h)))
        if k == 'bytes':
            return image('ret', canon(h))
        n = H('retlen', canon(h))
        return Mem(k, ('ret', canon(h)), max(0, uint(4, n)))

    def o_post(self, t, env):
        k, c, i = t.args
        h = H('post', canon(self.ev(c, env)), i)
        if k in ('bytes', 'list'):
            a = self.ev(c.args[i + 1], env) if c.op == 'call' and c.args[0] != '?' and i + 1 < len(c.args) else None
            if isinstance(a, Mem):
                self.roots[('post', h)] = self.roots.get(a.tag, a.tag)
            return Mem(k, ('post', h), self.len(a) if isinstance(a, (Mem, Lst)) else 4)
        return Unk(h)

    def o_geniter(self, t, env):
        return self.uninterp(t, env)

    def o_yields(self, t, env):
        return self.ev(t.args[0], env)

    def o_iterof(self, t, env):
        return self.ev(t.args[0], env)

    def o_elem(self, t, env):
        return self.index(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_range(self, t, env):
        r = range(*[integer(self.ev(a, env)) for a in t.args])
        if len(r) > 3000:
            raise Budget
        return Lst('list', list(r))

    def o_reversed(self, t, env):
        return Lst('list', list(reversed(self.seq(self.ev(t.args[0], env)))))

    def o_col(self, t, env):
        raise Unknown('col')

    def o_app(self, t, env):
        f = t.args[0]
        m = getattr(self, 'a_' + f.replace(':', '_').replace('.', '_'), None)
        if m is None:
            if f in ('indexerror', 'keyerror', 'dangling', 'cycle', 'lastiter'):
                if f == 'lastiter':
                    raise Unknown(f)
                raise Undef
            if 'app ' + f in self.ban:
                raise Unknown(f)
            return self.uninterp(t, env)
        if f in ('trips', 'loopreturned'):
            return m(t, env)
        if self.cands is not None and f in ('fd', 'and_') and t.args[2].op == 'num':
            v, c = self.ev(t.args[1], env), t.args[2].args[0]
            if isinstance(v, (int, Fraction)) and c.denominator == 1 and c > 64:
                try:
                    step = lambda x: max(-1, min(3, int(x // c)))
                    self.outs.add((t, step(v)))
                    up = (v // c + 1) * c
                    for x in {c, c - 1, c + 1, -1, up, up + 1}:
                        self.goal = (t, step(x))
                        self.solve(t.args[1], t.args[1], env, x - v, 0)
                except (Undef, Unknown, OverflowError, ZeroDivisionError, ValueError, TypeError):
                    pass
        return m(*[self.ev(a, env) for a in t.args[1:]])

    def a_trips(self, t, env):
        return self.loop(t.args[1], env)[1]

    def a_loopreturned(self, t, env):
        return self.loop(t.args[1], env)[3]

    def a_len(self, s):
        return self.len(s)
    a_count = a_len

    def a_index(self, s, x):
        if isinstance(s, (Unk, str)) or self.len(s) > 3000:
            return unk(H('index', canon(s), canon(x)), 'int')
        for i, y in enumerate(self.seq(s)):
            if self.eqv(y, x):
                return i
        raise Undef

    def a_fd(self, a, b):
        a, b = self.real(a), self.real(b)
        if b == 0:
            raise Undef
        try:
            return math.floor(a / b) if isinstance(a, float) or isinstance(b, float) else a // b
        except OverflowError:
            raise Undef

    def _math(f):
        def g(self, a):
            try:
                return f(float(self.real(a)))
            except (ValueError, OverflowError):
                raise Undef
        return g
    a_sin, a_cos, a_tanh, a_exp = _math(math.sin), _math(math.cos), _math(math.tanh), _math(math.exp)
    a_ext_math_log, a_ext_math_sinh, a_ext_math_cosh, a_ext_math_tan = _math(math.log), _math(math.sinh), _math(math.cosh), _math(math.tan)
    a_ext_math_atan = _math(math.atan)
    a_ext_math_acos = _math(math.acos)
    a_ext_math_asin = _math(math.asin)

    def a_sqrt(self, a):
        a = self.real(a)
        if a < 0:
            raise Undef
        if isinstance(a, int):
            r = math.isqrt(a)
            if r * r == a:
                return r
        try:
            return math.sqrt(a)
        except OverflowError:
            raise Undef

    def a_cabs(self, a):
        return abs(num(a))

    def a_real(self, a):
        a = num(a)
        return a.real if isinstance(a, complex) else a

    def a_imag(self, a):
        a = num(a)
        return a.imag if isinstance(a, complex) else 0

    def a_conj(self, a):
        a = num(a)
        return a.conjugate() if isinstance(a, complex) else a

    def a_inv(self, a):
        a = num(a)
        if a == 0:
            raise Undef
        return Fraction(1, a) if isinstance(a, int) else 1 / a

    def a_pow(self, a, b):
        a, b = num(a), num(b)
        try:
            if isinstance(a, (int, Fraction)) and isinstance(b, int):
                if abs(b) > 200:
                    raise Undef
                return Fraction(a) ** b if b < 0 else a ** b
            r = complex(a) ** complex(b) if isinstance(a, complex) or isinstance(b, complex) else float(a) ** float(b)
            return r
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Undef

    def a_trunc(self, a):
        try:
            return int(self.real(a))
        except OverflowError:
            raise Undef

    def a_round(self, a):
        try:
            return round(self.real(a))
        except OverflowError:
            raise Undef

    def a_and_(self, a, b):
        return integer(a) & integer(b)

    def a_or_(self, a, b):
        return integer(a) | integer(b)

    def a_xor(self, a, b):
        return integer(a) ^ integer(b)

    def a_pow2(self, a):
        a = integer(a)
        if a > 300:
            raise Undef
        return 2 ** a if a >= 0 else Fraction(1, 2 ** -a)

    def a_rev(self, s):
        if isinstance(s, str):
            return s[::-1]
        return Lst(self.kindof(s), list(reversed(self.seq(s))))

    def a_aslist(self, s):
        return Lst('list', list(self.seq(s)))

    def a_tuple(self, s):
        return Lst('tuple', list(self.seq(s)))

    def a_sum(self, s):
        r = 0
        for x in self.seq(s):
            x = num(x)
            if isinstance(r, Fraction) and isinstance(x, (float, complex)):
                r = float(r)
            if isinstance(x, Fraction) and isinstance(r, (float, complex)):
                x = float(x)
            r = r + x
        return r

    def _srt(self, s):
        q = [self.real(x) for x in self.seq(s)]
        return sorted(q)

    def a_sorted(self, s, *kw):
        if kw:
            q = self.seq(s)
            return unk(H('sorted', canon(s), [canon(k) for k in kw]))
        return Lst('list', self._srt(s))

    def a_maxof(self, s):
        q = self._srt(s)
        if not q:
            raise Undef
        return q[-1]

    def a_minof(self, s):
        q = self._srt(s)
        if not q:
            raise Undef
        return q[0]

    def a_strcat(self, *p):
        return ''.join(x if isinstance(x, str) else 'U%x' % H('str', canon(x)) for x in p)

    def a_str(self, a):
        if isinstance(a, str):
            return a
        if isinstance(a, int):
            return str(a)
        return 'S%x' % H('str', canon(a))

    def a_ord(self, a):
        if isinstance(a, str) and len(a) == 1:
            return ord(a)
        if isinstance(a, (Lst, Mem)) and a.kind == 'bytes':
            if self.len(a) != 1:
                raise Undef
            return self.index(a, 0)
        if isinstance(a, str):
            raise Undef
        return H('ord', canon(a)) % 256

    def a_comb(self, a, b):
        a, b = integer(a), integer(b)
        if a < 0 or b < 0 or a > 300:
            raise Undef
        return math.comb(a, b)

    def a_any(self, s):
        return any(truth(x) for x in self.seq(s))

    def a_all(self, s):
        return all(truth(x) for x in self.seq(s))

    def a_countof(self, *a):
        s, x = a[0], a[1]
        return sum(1 for y in self.seq(s) if self.eqv(y, x))

    def a_type(self, v):
        if isinstance(v, bool):
            return Fn('b:bool')
        if isinstance(v, int):
            return Fn('b:int')
        return unk(H('type', canon(v)))

    def a_raise(self, *a):
        if a and isinstance(a[0], Unk):
            return a[0]
        return 'raise %s' % (a[0] if a else '')

    def _implied(name):
        def g(self, *a):
            return 'implied ' + name
        return g
    a_exc_KeyError, a_exc_IndexError = _implied('KeyError'), _implied('IndexError')
    a_exc_TypeError, a_exc_AttributeError = _implied('TypeError'), _implied('AttributeError')

    def a_dictgetd(self, c, k, d):
        if isinstance(c, Dct):
            for a, b in c.items:
                if canon(a) == canon(k):
                    return b
            return d
        return unk(H('dgetd', canon(c), canon(k), canon(d)))

    def o_in(self, t, env):
        a, b = [self.ev(x, env) for x in t.args]
        if isinstance(b, Dct):
            b = Lst('list', [k for k, _ in b.items])
        if isinstance(b, (Lst, Mem)):
            if self.cands is not None:
                for y in self.seq(b)[:6]:
                    self.same(t, a, y, env, t.args[0], None)
            return any(self.eqv(a, y) for y in self.seq(b))
        return unk(H('in', canon(a), canon(b)))


PICTURE = re.compile('bmp(?!hdr|meta)|BMP')
DATA = ('sys.argv', 'sys.platform', 'os.name', 'os.environ', 'sys.path')
HDR = {1: 62, 4: 118, 8: 1078, 24: 54}


def rowsize(w, bits):
    return (w * bits + 31) // 32 * 4


def image(*key):
    """byte sequence with the header of a small image"""
    h = H('image', *key)
    bits = (24, 24, 8, 24, 4, 1, 24)[h % 7]
    w, hh = 1 + h // 7 % 6, 1 + h // 49 % 6
    n = HDR[bits] + rowsize(w, bits) * hh
    c = {0: 66, 1: 77}
    for o, v in ((2, n), (10, HDR[bits]), (14, 40), (18, w), (22, hh)):
        for i in range(4):
            c[o + i] = v >> 8 * i & 255
    c[6] = c[7] = c[8] = c[9] = 0
    c[28], c[29] = bits, 0
    if h % 11 == 5:
        del c[0]
    if key[0] == 'file' and h % 3 == 1:
        n += 4
    return Mem('bytes', ('image',) + key, n, {i: _cell(key, i, v) for i, v in c.items()})


def _cell(key, i, v):
    x = uint(v, H('imagecell', key, i))
    return x if 0 <= x <= 255 else v


# ---------------------------------------------------------------- valuations
def constants(ts, words=None):
    out = set()
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('eq', 'ne', 'in', 'dict'):
            for a in t.args:
                if words is not None and a.op == "const" and isinstance(a.args[0], str):
                    words.append(a.args[0])
        if t.op == 'num' and t.args[0].denominator == 1 and abs(t.args[0]) <= 300:
            out.add(int(t.args[0]))
        if t.op == 'poly':
            for m, c in t.args:
                if not m and c.denominator == 1 and abs(c) <= 300:
                    out.add(int(-c))
                    out.add(int(c))
        st.extend(X.children(t))
    return sorted(out)


DEPTHS = ('bits', 'newbits', 'bitdepth', 'colorbits')


def drawer(rng, pool, small, words=()):
    shared = [rng.randint(0, 12) for _ in range(3)]

    def integers(lo, hi):
        r = rng.random()
        if lo is not None and hi is not None and hi - lo <= 3:
            return rng.randint(lo, hi)
        if r < .25 and pool:
            v = rng.choice(pool) + rng.choice((-1, 0, 0, 1))
        elif r < .45:
            v = rng.choice(shared) + rng.choice((-1, 0, 1))
        elif r < .55 and lo is not None:
            v = lo + rng.choice((0, 0, 1))
        elif r < .62 and hi is not None and hi < 400:
            v = hi - rng.choice((0, 0, 1))
        elif lo is not None and hi is not None and (hi <= 400 or r < .75):
            v = rng.randint(lo, hi)
        else:
            v = rng.randint(-8 if rng.random() < .3 else 0, rng.choice((6, 20, 40)))
        if small and abs(v) > 40 and (hi is None or hi < 400):
            v = v % 40
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return v

    dims = {}

    def dim(name, val):
        for k, v in val.items():
            if isinstance(k, T) and k.op == 'sym' and k.args[0] == name:
                return v
        if name not in dims:
            dims[name] = rng.randint(1, rng.choice((3, 9, 20)))
            if not small and name.endswith('.W') and rng.random() < .04:
                dims[name] = rng.choice((257, 300, 1030, 2050, 2740, 5500, 11000))
        return dims[name]

    def filesize(name, val):
        bits = IMGBITS.get(name, 24)
        if not isinstance(bits, int):
            bits = 24
        return HDR.get(bits, 54) + rowsize(dim(name + '.W', val), bits) * dim(name + '.H', val)

    def draw(t, val):
        if t.op == 'mem':
            return Mem(t.args[0], t.args[1], 6)
        name, kind, lo, hi = t.args
        if name == 'j' and kind == 'complex':
            return 1j
        if name == 'pi':
            return math.pi
        if kind == 'int':
            if name.endswith('.fsz'):
                return filesize(name[:-4], val)
            if name.endswith(('.W', '.H')):
                return dim(name, val)
            if (lo, hi) == (1, 24) and name in DEPTHS:
                return rng.choice((1, 4, 8, 24))
            if lo is not None and lo == int(lo):
                lo = int(lo)
            if hi is not None:
                hi = int(hi)
            return integers(lo, hi)
        if kind == 'real':
            r = rng.random()
            if r < .4:
                v = Fraction(integers(None, None))
            else:
                v = Fraction(rng.randint(-40, 120), rng.choice((2, 3, 4, 7, 16)))
            if lo is not None and v < lo:
                v = Fraction(lo)
            if hi is not None and v > hi:
                v = Fraction(hi)
            return v
        if kind == 'bool':
            return rng.random() < .5
        if kind == 'complex':
            return complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
        if kind == 'str' and name in ('c', 'char', 'character', 'letter'):
            return rng.choice('aAz09 ~\t\n!')
        if kind == 'str' and words and rng.random() < .6:
            return rng.choice(words)
        if kind == 'str':
            if rng.random() < .4 or 'file' in name.lower():
                return '%s%d' % (name[:1], rng.randint(0, 999))
            return rng.choice(['a', 'Hello', '', 'A\nb', 'xy|\t', '~']) + '%s' % name[:1]
        if kind == 'bytes':
            if name not in IMGBITS and PICTURE.search(name) and rng.random() < .8:
                return image('arg', name, rng.randint(0, 1 << 30))
            tag = ('sym', name, rng.randint(0, 1 << 30))
            if name in IMGBITS or 'bmp' in name or name.startswith('obj'):
                return sized('bytes', tag, filesize(name, val), t)
            return sized('bytes', tag, rng.choice((0, 6, 12, 24, 64, 1024)) if rng.random() < .3 else rng.choice((6, 12, 24)), t)
        if kind in ('list', 'tuple'):
            if name in ('charbuf', 'fontbuf'):          # height, rows of each character
                h = rng.randint(1, 3)
                return Mem(kind, ('sym', name, rng.randint(0, 1 << 30)), 1 + 256 * h, {0: h})
            m = sized(kind, ('sym', name, rng.randint(0, 1 << 30)), rng.randint(0 if rng.random() < .2 else 1, 5), t)
            if rng.random() < .25:          # equal elements
                m.cells = {i: m.get(rng.randrange(i)) for i in range(1, m.n) if rng.random() < .5}
            return m
        if kind == 'fn':
            return Fn('sym:' + name)
        return unk(H('sym', name, rng.randint(0, 1 << 30)))
    return draw


SKIP = (Undef, Budget, RecursionError, OverflowError, ZeroDivisionError, ValueError, TypeError)


def predicates(ts):
    out = set()
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('ge0', 'gt0', 'eq0', 'ne0', 'relu', 'eq', 'truthy'):
            out.add(t.args[0])
        elif t.op == 'in':
            out.add(t)
        elif t.op == 'app' and t.args[0] in ('fd', 'and_'):
            out.add(t if t.args[2].op == 'num' and t.args[2].args[0] > 64 else t.args[1])
        st.extend(X.children(t))
    return out


EFFECTFUL = ('ext:os.', 'ext:subprocess.', 'ext:random.', 'ext:time.', 'ext:datetime.', 'ext:shutil.', 'ext:sys.')


def uninterpreted(ts):
    """operators of the terms that have no interpretation"""
    out = set()
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'app':
            f = t.args[0]
            if not hasattr(Eval, 'a_' + f.replace(':', '_').replace('.', '_')) and not f.startswith(EFFECTFUL) and f not in ('meth:glob', 'meth:rglob'):
                out.add('app ' + f)
        elif t.op != 'call' and not hasattr(Eval, 'o_' + t.op):
            out.add(t.op)
        st.extend(X.children(t))
    return out


class Verdict:
    """outcome of a search: text of a separating valuation (or None), and how many
    valuations gave both sides a meaning"""

    def __init__(self):
        self.text, self.agreed, self.left, self.right, self.unknown = None, 0, 0, 0, None


DEPTH = [1.0]       # how much longer the thorough tier looks for a distinguishing valuation


def differ(diffs, facts=(), trials=1500, seconds=8.0, seed=1):
    """a text naming a valuation that separates the differing terms, or None"""
    return search(diffs, facts, trials, seconds, seed).text


def search(diffs, facts=(), trials=1500, seconds=8.0, seed=1):
    ts = [x for _, a, b in diffs for x in (a, b)] + list(facts)
    words = []
    pool = constants(ts, words)
    words = sorted(set(words))
    ban = uninterpreted([a for _, a, b in diffs]) ^ uninterpreted([b for _, a, b in diffs])
    odd = predicates([a for _, a, b in diffs]) ^ predicates([b for _, a, b in diffs])
    rng = random.Random(seed)
    trials, seconds = int(trials * DEPTH[0]), seconds * DEPTH[0]
    t0 = time.process_time()
    r = Verdict()
    r.seen = set()
    corpus = []
    r.starved, r.met = [], set()
    pairs = set()
    done = tried = 0
    while done < trials * 10 and tried < trials * 20 and time.process_time() - t0 < seconds:
        tried += 1
        r.budget = 12000 if time.process_time() - t0 < seconds * .5 else 150000
        mend = None
        if tried <= trials // 4 and time.process_time() - t0 < seconds * .25 or not corpus or rng.random() < .35:
            ovr = {}
            val = {'$draw': drawer(rng, pool, tried % 3 != 0, words)}
        else:
            val, ovr, cs, was = rng.choice(corpus[-30:] if rng.random() < .5 else corpus)
            val, ovr = dict(val), dict(ovr)
            for _ in range(1 if rng.random() < .8 else 2):
                mark = [o for o in was if o[0] in odd]
                w = [1 + 5 * (c[0] in odd) + 6 * (c[4] not in r.seen) + 4 * any((o, c[4]) not in pairs for o in mark) for c in cs]
                mend = rng.choices(cs, w)[0]
                val = change(val, ovr, mend)
        e = attempt(rng, diffs, facts, val, ovr, r, ban, odd)
        for _ in range(4):
            # the change turned other tests over before it could show: turn them back
            if r.text or mend is None or e is None or mend[4] in r.seen or mend[4] in e.outs:
                break
            back = [c for c in e.cands if c[4] in was and c[4] not in e.outs and c[2] != mend[2]]
            if not back:
                break
            val = change(val, ovr, rng.choice(back))
            e = attempt(rng, diffs, facts, val, ovr, r, ban, odd)
        if r.text:
            return r
        if e is None:
            continue
        if not r.agreed and min(r.left, r.right) == 0 and max(r.left, r.right) >= 200:
            r.text = 'never defined, where the other is'
            return r
        done += 1
        new = {(o, p) for o in e.outs if o[0] in odd for p in e.outs}
        if e.cands and (not e.outs <= r.seen or not new <= pairs or len(corpus) < 20):
            corpus.append((val, ovr, e.cands, e.outs))
        r.seen |= e.outs
        pairs |= new
    # valuations that reached a new outcome of a test but were too long to interpret
    rng.shuffle(r.starved)
    r.starved.sort(key=lambda s: -s[2])
    t1 = time.process_time()
    for val, ovr, _ in r.starved[:12]:
        if time.process_time() - t1 > seconds / 2:
            break
        r.budget = 2000000
        attempt(rng, diffs, facts, dict(val), dict(ovr), r, ban, odd)
        if r.text:
            break
    return r


def sized(kind, tag, n, t, cells=None):
    """memory whose length the search may change"""
    n = UInt(n)
    n.h = ('len', t)
    return Mem(kind, tag, n, cells)


def change(val, ovr, c):
    why, kind, key, v, goal = c
    if type(key) is tuple and key[0] == 'len':
        m = val.get(key[1])
        n = key[1].args[0]
        if isinstance(m, Mem) and isinstance(v, int) and v >= 0 and not any(
                isinstance(k, T) and k.op == 'sym' and k.args[0] in (n + '.W', n + '.H', n + '.fsz') for k in val):
            val[key[1]] = sized(m.kind, m.tag, v, key[1], {i: x for i, x in m.cells.items() if i < v})
    elif kind == 'sym' and key.args[0].endswith('.fsz'):
        # an image at least that large
        n = key.args[0][:-4]
        val = {k: x for k, x in val.items() if not (isinstance(k, T) and k.op == 'sym' and (
            k.args[0] in (n + '.W', n + '.H', n + '.fsz') or k.args[1] == 'bytes'))}
        b = IMGBITS.get(n)
        w = math.isqrt(v * 8 // (b if isinstance(b, int) and b else 24)) + 1
        val[X.sym(n + '.W', 'int', 1, None)] = val[X.sym(n + '.H', 'int', 1, None)] = w
    elif kind == 'sym':
        if key.args[0].endswith(('.W', '.H')):
            val = {k: x for k, x in val.items() if not (isinstance(k, T) and k.op == 'sym' and (
                k.args[0].endswith('.fsz') or k.args[1] == 'bytes'))}
        val[key] = v
    elif not (isinstance(v, Unk) and v.h in ovr):
        ovr[key] = Box(v)
    return val


def attempt(rng, diffs, facts, val, ovr, r, ban=(), odd=()):
    """interpret the differing terms under one valuation; None when the facts fail or
    nothing has a meaning"""
    OVR.clear()
    OVR.update(ovr)
    GEN[0] += 1
    e = Eval(rng, val)
    try:
        if not all(truth(e.ev(f)) for f in facts):
            return None
    except SKIP + (Unknown,):
        return None
    e.cands = []
    e.ban = ban
    ok = False
    limit = r.budget
    for what, a, b in diffs:
        v = []
        if what == '$exc':
            try:
                if any('implied' in repr(canon(e.ev(x))) for x in (a, b)):
                    return None
            except SKIP + (Unknown,):
                pass
        for x in (a, b):
            try:
                e.budget = limit
                v.append((1, canon(e.ev(x))))
            except Undef:
                v.append((0, None))
            except Budget:
                v.append((-2, None))
            except SKIP:
                v.append((-1, None))
            except Unknown as u:
                r.unknown = str(u)
                v.append((-1, None))
        if v[0][0] == 1 and v[1][0] == 0:
            r.left += 1
        elif v[0][0] == 0 and v[1][0] == 1:
            r.right += 1
        if -2 in (v[0][0], v[1][0]) and len(r.starved) < 300:
            new = sum(o[0] in odd for o in e.outs - r.met)
            if new:
                r.starved.append((val, ovr, new))
        if v[0][0] != 1 or v[1][0] != 1:
            continue
        ok = True
        if not close(v[0][1], v[1][1]):
            vs = sorted(('%s=%s' % (k.args[0] if k.op == 'sym' else k.args[1], _sv(x))) for k, x in val.items()
                        if isinstance(k, T) and isinstance(x, (int, Fraction, bool, str)))
            r.text = 'separated by %s' % ', '.join(vs)[:300]
            return None
    if ok:
        r.agreed += 1
        r.met |= e.outs
    return e if ok or e.cands else None


def _sv(v):
    return str(v)
