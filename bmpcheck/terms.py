"""Hash-consed symbolic terms with a normal form.

Numbers are polynomials over atoms with rational coefficients.  The only
integer-division atom is fd(u, m) (floor division); mod, shifts and masks are
expressed through it, so digit/bit splitting and recombination normalise to the
same polynomial.  min/max/abs/clamp are expressed through relu(p) = max(0, p).
Conditions are ge0(p), gt0(p), eq0(p), eq(a,b), and/or/not combinations.
"""
from fractions import Fraction
from functools import reduce
from hashlib import blake2b
from math import gcd, inf

_TAB = {}


class T:
    __slots__ = ('op', 'args', 'd', '_b', '_int', '_syms', '__weakref__')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (_mk_reduce, (self.op, self.args))


def _mk_reduce(op, args):
    return mk(op, *args)


def _dig(x):
    if isinstance(x, T):
        return x.d
    if isinstance(x, tuple):
        return b'(' + b','.join(_dig(i) for i in x) + b')'
    return (type(x).__name__ + ':' + repr(x)).encode()


def mk(op, *args):
    key = (op, args, tuple(type(a) for a in args)) if op in ('const', 'num', 'sym') else (op, args)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        h = blake2b(op.encode(), digest_size=10)
        for a in args:
            h.update(b'|')
            h.update(_dig(a))
        t.d = h.digest()
        t._b = None
        t._int = None
        t._syms = None
        _TAB[key] = t
    return t


# ---------------------------------------------------------------- basics
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk('const', v)
    if isinstance(v, int):
        return mk('num', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (inf, -inf):
            return mk('const', repr(v))
        return mk('num', Fraction(v))
    if isinstance(v, complex):
        if v.imag == 0:
            return const(v.real)
        return add(const(v.real), mul(mk('sym', 'j', 'complex', None, None), const(v.imag)))
    if isinstance(v, Fraction):
        return mk('num', v)
    raise TypeError(v)


TRUE = mk('const', True)
FALSE = mk('const', False)
NONE = mk('const', None)
ZERO = const(0)
ONE = const(1)
NUMOPS = ('num', 'poly')


def sym(name, kind='any', lo=None, hi=None):
    """kind: int real bool bytes list str any fn complex"""
    return mk('sym', name, kind, lo, hi)


def is_num(t):
    return t.op == 'num'


def numval(t):
    """Fraction for a numeric constant, else None."""
    if t.op == 'num':
        return t.args[0]
    return None


def intval(t):
    if t.op == 'num' and t.args[0].denominator == 1:
        return int(t.args[0])
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    return None


CONDOPS = ('ge0', 'gt0', 'eq0', 'ne0', 'eq', 'ne', 'and', 'or', 'not', 'truthy')
SEQOPS = ('list', 'tuple', 'bytes', 'concat', 'rep', 'slice', 'store', 'sstore', 'comp')
INT_APPS = {'len', 'fd', 'trunc', 'round', 'byteof', 'ord', 'count', 'xor', 'or_', 'and_', 'index'}


def is_cond(t):
    return t.op in CONDOPS or t is TRUE or t is FALSE or (t.op == 'sym' and t.args[1] == 'bool')


def is_int(t):
    r = t._int
    if r is None:
        r = t._int = _is_int(t)
    return r


def _is_int(t):
    o = t.op
    if o == 'num':
        return t.args[0].denominator == 1
    if o == 'poly':
        return all(c.denominator == 1 and all(is_int(a) and e > 0 for a, e in m) for m, c in t.args)
    if o == 'sym':
        return t.args[1] in ('int', 'bool')
    if o == 'idx':
        return seqkind(t.args[0]) == 'bytes'
    if o == 'app':
        if t.args[0] in INT_APPS:
            return True
        return False
    if o in ('relu',):
        return is_int(t.args[0])
    if o == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if o in ('max', 'min'):
        return all(is_int(a) for a in t.args)
    if o == 'const':
        return isinstance(t.args[0], bool)
    if is_cond(t):
        return True
    return False


def seqkind(t):
    """'bytes','list','tuple','str' or None."""
    o = t.op
    if o == 'sym':
        return t.args[1] if t.args[1] in ('bytes', 'list', 'str', 'tuple') else None
    if o in ('list', 'tuple', 'bytes'):
        return o
    if o == 'const' and isinstance(t.args[0], str):
        return 'str'
    if o in ('slice', 'store', 'sstore', 'rep'):
        return seqkind(t.args[0])
    if o == 'concat':
        return seqkind(t.args[0])
    if o == 'comp':
        return 'list'
    if o == 'asbytes':
        return 'bytes'
    if o in ('mem', 'after', 'post'):
        return t.args[0]
    if o == 'ite':
        a, b = seqkind(t.args[1]), seqkind(t.args[2])
        return a if a == b else None
    if o == 'app' and t.args[0] in ('str', 'fmt', 'strcat', 'repr', 'fmtspec', 'attr:__name__'):
        return 'str'
    if o == 'app' and t.args[0] in ('rev', 'sorted'):
        return seqkind(t.args[1]) or 'list'
    return None


# ---------------------------------------------------------------- polynomials
def _terms(t):
    """dict mono->coef for a numeric term."""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args)
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return (sum(e for _, e in m), tuple((a.d, e) for a, e in m))


def _frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', *sorted(d.items(), key=lambda mc: _mono_key(mc[0])))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _terms(t).items():
            d[m] = d.get(m, 0) + c
    return _frompoly(d)


def scale(t, k):
    k = Fraction(k)
    if k == 1:
        return t if t.op in NUMOPS or t.op != 'const' else _frompoly(_terms(t))
    return _frompoly({m: c * k for m, c in _terms(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    k = [(a, e) for a, e in d.items() if e]
    # j*j = -1
    sgn = 1
    out = []
    for a, e in k:
        if a.op == 'sym' and a.args[1] == 'complex':
            e %= 4
            if e in (2, 3):
                sgn = -sgn
            e &= 1
            if not e:
                continue
        out.append((a, e))
    return tuple(sorted(out, key=lambda ae: ae[0].d)), sgn


def mul(a, b):
    da, db = _terms(a), _terms(b)
    if len(da) * len(db) > 4000:
        return app('mulbig', *sorted((a, b), key=lambda t: t.d))
    d = {}
    for m, c in da.items():
        for n, e in db.items():
            mn, s = _mulmono(m, n)
            d[mn] = d.get(mn, 0) + c * e * s
    return _frompoly(d)


def power(a, n):
    v = numval(n)
    if v is not None and v.denominator == 1:
        v = int(v)
        if 0 <= v <= 12:
            r = ONE
            for _ in range(v):
                r = mul(r, a)
            return r
        if -12 <= v < 0:
            return power(inv(a), const(-v))
    av = numval(a)
    if v is not None and av is not None:
        try:
            return const(float(av) ** float(v))
        except Exception:
            pass
    if av == 2 and a is const(2) and is_int(n):
        return app('pow2', n)
    return app('pow', a, n)


def inv(t):
    v = numval(t)
    if v:
        return mk('num', 1 / v)
    d = _terms(t)
    if len(d) == 1:
        (m, c), = d.items()
        return _frompoly({tuple((a, -e) for a, e in m): 1 / c})
    # normalise the content so that inv(2x+2y) = inv(x+y)/2
    k, p = _content(t)
    return scale(_frompoly({((mk('app', 'inv', p), 1),): Fraction(1)}), 1 / k)


def _content(t):
    """t = k * p, leading coefficient of p positive, coefficients coprime ints."""
    d = _terms(t)
    if not d:
        return Fraction(1), t
    den = reduce(lambda x, y: x * y // gcd(x, y), (c.denominator for c in d.values()), 1)
    num = reduce(gcd, (abs(int(c * den)) for c in d.values()), 0)
    k = Fraction(num, den)
    lead = max((m for m in d if m != ()), key=_mono_key, default=())
    if d[lead] < 0:
        k = -k
    return k, scale(t, 1 / k)


def div(a, b):
    return mul(a, inv(b))


# ---------------------------------------------------------------- bounds
def bounds(t):
    r = t._b
    if r is None:
        r = t._b = _bounds(t)
    return r


def _imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y
    v = [m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1])]
    return min(v), max(v)


def _atom_pow_bounds(a, e):
    lo, hi = bounds(a)
    if e < 0:
        if lo > 0:
            return (0 if hi == inf else Fraction(1) / Fraction(hi) ** -e,
                    Fraction(1) / Fraction(lo) ** -e)
        return -inf, inf
    r = (1, 1)
    for _ in range(e):
        r = _imul(r, (lo, hi))
    if e % 2 == 0:
        r = (max(r[0], 0), r[1])
    return r


def _poly_ibounds(d):
    lo = hi = 0
    for m, c in d.items():
        b = (1, 1)
        for a, e in m:
            b = _imul(b, _atom_pow_bounds(a, e))
        b = _imul(b, (c, c))
        lo += b[0]
        hi += b[1]
    return lo, hi


def _bounds(t):
    o = t.op
    if o == 'num':
        return t.args[0], t.args[0]
    if o == 'sym':
        lo, hi = t.args[2], t.args[3]
        if t.args[1] == 'bool':
            return 0, 1
        return (-inf if lo is None else lo), (inf if hi is None else hi)
    if o == 'poly':
        d = dict(t.args)
        r = _poly_ibounds(d)
        # split off fd chains:  c*u + e*fd(u,m) + ...
        for f in _chain_bounds(d):
            r = max(r[0], f[0]), min(r[1], f[1])
        return r
    if o == 'relu':
        lo, hi = bounds(t.args[0])
        return max(lo, 0), max(hi, 0)
    if o == 'idx':
        if seqkind(t.args[0]) == 'bytes':
            return 0, 255
        return -inf, inf
    if o == 'app':
        n = t.args[0]
        if n == 'fd':
            lo, hi = bounds(t.args[1])
            m = numval(t.args[2])
            if m is not None and m > 0:
                return (lo if lo == -inf else lo // m), (hi if hi == inf else hi // m)
            ml, mh = bounds(t.args[2])
            if lo >= 0 and ml > 0:
                return 0, (hi if hi == inf else hi // ml)
            return -inf, inf
        if n == 'len':
            return 0, inf
        if n in ('pow2',):
            return 0, inf
        if n in ('trunc', 'round'):
            lo, hi = bounds(t.args[1])
            if n == 'trunc':
                f = lambda v: v if v in (inf, -inf) else Fraction(int(v))
            else:
                f = lambda v: v if v in (inf, -inf) else Fraction(round(v))
            return f(lo), f(hi)
        if n in ('or_', 'xor'):
            his = [bounds(a) for a in t.args[1:]]
            if all(l >= 0 and h != inf for l, h in his):
                m = 1
                while m <= max(h for _, h in his):
                    m *= 2
                return 0, m - 1
        if n == 'and_':
            his = [bounds(a) for a in t.args[1:]]
            nn = [h for l, h in his if l >= 0]
            if nn:
                return 0, min(nn)
        if n in ('sin', 'cos', 'tanh'):
            return -1, 1
        if n == 'byteof':
            return 0, 255
        if n in ('ord',):
            return 0, 1114111
        if n == 'sqrt':
            return 0, inf
        if n == 'exp':
            return 0, inf
        if n == 'pow':
            lo, hi = bounds(t.args[1])
            if lo >= 0:
                # x**p with 0<=x<=1, any finite p>=0 stays in [0,1]
                pl, ph = bounds(t.args[2])
                if hi <= 1 and pl >= 0:
                    return 0, 1
                return 0, inf
        if n in ('mean',):
            return -inf, inf
        return -inf, inf
    if o == 'ite':
        a, b = bounds(t.args[1]), bounds(t.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if o == 'max':
        bs = [bounds(a) for a in t.args]
        return max(b[0] for b in bs), max(b[1] for b in bs)
    if o == 'min':
        bs = [bounds(a) for a in t.args]
        return min(b[0] for b in bs), min(b[1] for b in bs)
    if o == 'const' and isinstance(t.args[0], bool):
        return int(t.args[0]), int(t.args[0])
    if is_cond(t):
        return 0, 1
    return -inf, inf


def _chain_bounds(d):
    """Extra bounds for polynomials containing fd(u,m) next to u, and for
    piecewise linear combinations of relus of one quantity."""
    out = []
    bases = {}
    relus = {}
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == 'app' and a.args[0] == 'fd':
                mv = numval(a.args[2])
                if mv is not None and mv > 0:
                    bases.setdefault(a.args[1], []).append((mv, a, c))
            elif a.op == 'relu':
                p = _terms(a.args[0])
                k = p.pop((), Fraction(0))
                relus.setdefault(_frompoly(p), []).append((k, a, c))
    if bases:
        # split every base at once
        rest = dict(d)
        extra = [Fraction(0), Fraction(0)]
        lo = hi = Fraction(0)
        used = False
        for u, ch in bases.items():
            du = _terms(u)
            uc = du.get((), Fraction(0))
            du = {m: c for m, c in du.items() if m != ()}
            ratio = None
            if du and all(m in rest for m in du):
                ms = list(du)
                ratio = rest[ms[0]] / du[ms[0]]
                if any(rest[m] / du[m] != ratio for m in ms):
                    ratio = None
            if ratio is None:
                ratio = Fraction(0)
            ch.sort(key=lambda x: x[0])
            chain = [(Fraction(1), ratio)] + [(mv, c) for mv, _, c in ch]
            dcoef = ratio
            ok = True
            contrib = []
            for i in range(1, len(chain)):
                step = chain[i][0] / chain[i - 1][0]
                if step.denominator != 1 or not is_int(u):
                    ok = False
                    break
                if i == 1 and ratio == 0:
                    dcoef = chain[1][1]
                    continue
                contrib.append((dcoef, step - 1))
                dcoef = chain[i][1] + dcoef * step
            if not ok:
                continue
            for m in du:
                if ratio:
                    rest[m] -= ratio * du[m]
            if ratio:
                rest[()] = rest.get((), Fraction(0)) - ratio * uc
            for _, a, c in ch:
                rest.pop(((a, 1),), None)
            for c, top in contrib:
                if c >= 0:
                    hi += c * top
                else:
                    lo += c * top
            fb = bounds(ch[-1][1])
            b = _imul(fb, (dcoef, dcoef))
            lo += b[0]
            hi += b[1]
            used = True
        if used:
            rest = {m: c for m, c in rest.items() if c}
            r = _poly_ibounds(rest)
            if any(a.op == 'relu' for m in rest for a, _ in m):
                for f in _chain_bounds({m: c for m, c in rest.items()}):
                    r = max(r[0], f[0]), min(r[1], f[1])
            out.append((lo + r[0], hi + r[1]))
    if relus:
        rest = dict(d)
        lo = hi = Fraction(0)
        for a0, rs in relus.items():
            da = _terms(a0)
            ratio = None
            if da and all(m in rest for m in da):
                ms = list(da)
                ratio = rest[ms[0]] / da[ms[0]]
                if any(rest[m] / da[m] != ratio for m in ms):
                    ratio = None
            ratio = ratio or Fraction(0)
            al, ah = bounds(a0) if a0.op != 'poly' else _poly_ibounds(da)
            if a0.op == 'poly':
                al = ah = None
                al, ah = _poly_ibounds(da)
            pts = [-k for k, _, _ in rs]

            def f(x):
                return ratio * x + sum(c * max(0, x + k) for k, _, c in rs)
            vals = []
            cand = [p for p in pts if al <= p <= ah]
            if al != -inf:
                cand.append(al)
            if ah != inf:
                cand.append(ah)
            vals = [f(x) for x in cand]
            l = min(vals) if vals else inf
            h = max(vals) if vals else -inf
            if al == -inf:
                s = ratio
                if s > 0:
                    l = -inf
                elif s < 0:
                    h = inf
                if not vals:
                    l = -inf
                    h = inf
            if ah == inf:
                s = ratio + sum(c for _, _, c in rs)
                if s > 0:
                    h = inf
                elif s < 0:
                    l = -inf
                if not vals:
                    l = -inf
                    h = inf
            for m in da:
                if ratio:
                    rest[m] -= ratio * da[m]
            for _, a, _ in rs:
                rest.pop(((a, 1),), None)
            lo += l
            hi += h
        r = _poly_ibounds({m: c for m, c in rest.items() if c})
        out.append((lo + r[0], hi + r[1]))
    return out


# ---------------------------------------------------------------- integer division
def app(name, *args):
    return mk('app', name, *args)


def fd(a, b):
    """floor(a/b)"""
    bv = numval(b)
    if bv is not None and bv < 0:
        return fd(neg(a), mk('num', -bv))
    if bv == 0:
        return app('fd', a, b)
    if bv is None:
        if a is ZERO:
            return ZERO
        if a is b:
            return ONE
        # exact multiples of a monomial divisor
        db = _terms(b)
        if len(db) == 1:
            (mb, cb), = db.items()
            q, r = {}, {}
            for m, c in _terms(a).items():
                mm = dict(m)
                if all(mm.get(x, 0) >= e for x, e in mb) and (c / cb).denominator == 1:
                    for x, e in mb:
                        mm[x] -= e
                    q[tuple((x, e) for x, e in sorted(mm.items(), key=lambda z: z[0].d) if e)] = c / cb
                else:
                    r[m] = c
            if q and is_int(a) and is_int(b):
                return add(_frompoly(q), fd(_frompoly(r), b))
        return app('fd', a, b)
    if bv == 1 and is_int(a):
        return a
    av = numval(a)
    if av is not None:
        return mk('num', Fraction(av // bv))
    if not is_int(a) or bv.denominator != 1:
        return app('fd', a, b)
    c = int(bv)
    q, r = {}, {}
    for m, co in _terms(a).items():
        co = int(co)
        qq = co // c
        rr = co - qq * c
        if qq:
            q[m] = Fraction(qq)
        if rr:
            r[m] = Fraction(rr)
    Q, R = _frompoly(q), _frompoly(r)
    if R is ZERO:
        return Q
    rv = numval(R)
    if rv is not None:
        return add(Q, mk('num', Fraction(rv // c)))
    lo, hi = bounds(R)
    if lo != -inf and hi != inf and lo // c == hi // c:
        return add(Q, const(int(lo // c)))
    # symmetric residues give a tighter range sometimes (e.g. -x)
    q2, r2 = {}, {}
    for m, co in _terms(a).items():
        co = int(co)
        qq = (co + (c // 2 if m != () else 0)) // c
        rr = co - qq * c
        if qq:
            q2[m] = Fraction(qq)
        if rr:
            r2[m] = Fraction(rr)
    R2 = _frompoly(r2)
    lo, hi = bounds(R2)
    if lo != -inf and hi != inf and lo // c == hi // c:
        return add(_frompoly(q2), const(int(lo // c)))
    # common factor
    g = c
    for m, co in r.items():
        if m != ():
            g = gcd(g, int(co))
    if g > 1:
        k = int(r.get((), 0))
        R = _frompoly({m: (co / g if m != () else Fraction(k // g)) for m, co in r.items()})
        c //= g
        return add(Q, fd(R, const(c)))
    # nested floor division:  (u//m + k) // c = (u + k*m)//(m*c)
    dr = _terms(R)
    k = dr.get((), Fraction(0))
    nz = [(m, co) for m, co in dr.items() if m != ()]
    if len(nz) == 1 and nz[0][1] == 1 and len(nz[0][0]) == 1 and nz[0][0][0][1] == 1:
        at = nz[0][0][0][0]
        if at.op == 'app' and at.args[0] == 'fd':
            mv = numval(at.args[2])
            if mv is not None and mv > 0 and mv.denominator == 1:
                return add(Q, fd(add(at.args[1], mk('num', k * mv)), mk('num', mv * c)))
    # u - m*fd(u,m) (i.e. u mod m) with c | m:   fd(u mod m, c) = fd(u,c) - (m/c)*fd(u,m)
    alt = _fd_digits(a, c)
    if alt is not None:
        return alt
    return add(Q, app('fd', R, const(c)))


def _fd_digits(a, c):
    """floor division of  s + sum_i c_i * fd(u, m_i) + c_0*u  by c where some leading
    part of the digit chain is divisible by c and the remainder is within [0,c)."""
    d = _terms(a)
    for m, co in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'fd':
            at = m[0][0]
            u = at.args[1]
            mv = numval(at.args[2])
            if mv is None or mv <= 0 or mv % c:
                continue
            # a = u*k + co*fd(u,mv)+rest with co = -k*mv:  k*(u mod mv)
            if co % mv:
                continue
            k = -co / mv
            rest = sub(sub(a, scale(u, k)), scale(at, co))
            if k == 1:
                if rest is ZERO:
                    return sub(fd(u, const(c)), scale(at, mv / c))
    return None


def mod(a, b):
    if a.op == 'const' and isinstance(a.args[0], str):
        return app('fmt', a, b)
    return sub(a, mul(b, fd(a, b)))


def shl(a, n):
    v = intval(n)
    if v is not None and v >= 0:
        return scale(a, 2 ** v)
    return mul(a, app('pow2', n))


def shr(a, n):
    v = intval(n)
    if v is not None and v >= 0:
        return fd(a, const(2 ** v))
    return fd(a, app('pow2', n))


def bit(t, j):
    return mod(fd(t, const(2 ** j)), const(2))


def band(a, b):
    if is_cond(a) and is_cond(b):
        return conj(a, b)
    av, bv = intval(a), intval(b)
    if av is not None and bv is not None:
        return const(av & bv)
    if av is not None:
        a, b, av, bv = b, a, bv, av
    if bv is not None and bv >= 0:
        lo, hi = bounds(a)
        # drop mask bits above the value
        r = ZERO
        j = 0
        while (1 << j) <= bv:
            if bv >> j & 1:
                k = j
                while bv >> k & 1:
                    k += 1
                r = add(r, scale(mod(fd(a, const(1 << j)), const(1 << (k - j))), 1 << j))
                j = k
            else:
                j += 1
        return r
    if bv is not None and bv < 0:      # clears bits of ~bv
        return sub(a, band(a, const(~bv)))
    if a is b:
        return a
    sa, sb = _single_bit(a), _single_bit(b)
    return app('and_', *sorted((a, b), key=lambda t: t.d))


def _single_bit(t):
    return None


def _bitspan(t):
    """(low, high): t is a multiple of 2^low and 0 <= t < 2^high."""
    lo, hi = bounds(t)
    if lo < 0 or hi == inf or not is_int(t):
        return None
    h = 0
    while (1 << h) <= hi:
        h += 1
    d = _terms(t)
    # peel the power of two dividing the value
    g = reduce(gcd, (int(c) for c in d.values()), 0)
    l = 0
    if g:
        while g % 2 == 0:
            g //= 2
            l += 1
    return l, h


def bor(a, b):
    if is_cond(a) and is_cond(b):
        return disj(a, b)
    av, bv = intval(a), intval(b)
    if av is not None and bv is not None:
        return const(av | bv)
    if av is not None:
        a, b, av, bv = b, a, bv, av
    if bv is not None and bv >= 0:
        r = a
        j = 0
        while (1 << j) <= bv:
            if bv >> j & 1:
                r = add(r, scale(sub(ONE, bit(a, j)), 1 << j))
            j += 1
        return r
    if a is b:
        return a
    sa, sb = _bitspan(a), _bitspan(b)
    if sa and sb and (sa[0] >= sb[1] or sb[0] >= sa[1]):
        return add(a, b)
    # disjoint digit masks, e.g. (v - v%2^k ..) handled through products of bits
    return app('or_', *sorted((a, b), key=lambda t: t.d))


def bxor(a, b):
    av, bv = intval(a), intval(b)
    if av is not None and bv is not None:
        return const(av ^ bv)
    if av is not None:
        a, b, av, bv = b, a, bv, av
    if bv is not None and bv >= 0:
        lo, hi = bounds(a)
        if (bv & (bv + 1)) == 0 and lo >= 0 and hi <= bv:
            return sub(b, a)
        r = a
        j = 0
        while (1 << j) <= bv:
            if bv >> j & 1:
                r = add(r, scale(sub(ONE, scale(bit(a, j), 2)), 1 << j))
            j += 1
        return r
    if a is b:
        return ZERO
    return app('xor', *sorted((a, b), key=lambda t: t.d))


def binvert(a):
    return sub(const(-1), a)


# ---------------------------------------------------------------- relu, min, max
def relu(p):
    v = numval(p)
    if v is not None:
        return mk('num', max(v, Fraction(0)))
    lo, hi = bounds(p)
    if lo >= 0:
        return p
    if hi <= 0:
        return ZERO
    k, q = _content(p)
    if k < 0:
        # relu(-|k| q) = |k| * relu(-q) = |k| * (relu(q) - q)
        return scale(sub(relu(q), q), -k)
    # clamp patterns
    d = _terms(q)
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'relu' and len(d) > 1:
            r = m[0][0]
            B = r.args[0]
            if c == -1:
                A = add(q, r)               # q = A - relu(B)
                diff = sub(A, B)            # m = A - B >= 0 ?
                # relu(A - relu(A - m)) = relu(A) - relu(A - m)
                if bounds(diff)[0] >= 0 and A.op != 'relu':
                    return scale(sub(relu(A), relu(B)), k)
                # relu(m - relu(B)), m>=0 const wrt sign: = m - relu(B) + relu(B - m)
                if bounds(A)[0] >= 0:
                    return scale(add(sub(A, r), relu(sub(B, A))), k)
            elif c == 1:
                A = sub(q, r)               # q = A + relu(B)
                # relu(A + relu(B)); if B >= -A i.e. B + A >= 0 always then q>=0 ...
                # A + relu(B) = max(A, A+B); relu -> max(0, A, A+B)
                if bounds(A)[1] <= 0:
                    # A <= 0: max(0, A+B) when A<=0  (A itself never wins)
                    return scale(relu(add(A, B)), k)
                if bounds(B)[1] <= 0:
                    return scale(relu(A), k)
    return scale(mk('relu', q), k)


def max2(a, b):
    return add(a, relu(sub(b, a)))


def min2(a, b):
    return sub(a, relu(sub(a, b)))


def maxn(ts):
    return _minmaxn('max', ts)


def minn(ts):
    return _minmaxn('min', ts)


def _minmaxn(op, ts):
    flat = []
    for t in ts:
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)
    out = []
    for t in flat:
        if t not in out:
            out.append(t)
    # drop dominated
    keep = []
    for i, t in enumerate(out):
        dom = False
        for j, u in enumerate(out):
            if i == j:
                continue
            lo, hi = bounds(sub(u, t))
            if op == 'max' and (lo > 0 or (lo >= 0 and j < i)):
                dom = True
            if op == 'min' and (hi < 0 or (hi <= 0 and j < i)):
                dom = True
        if not dom:
            keep.append(t)
    if len(keep) == 1:
        return keep[0]
    if len(keep) == 2:
        return max2(*keep) if op == 'max' else min2(*keep)
    return mk(op, *sorted(keep, key=lambda t: t.d))


def absval(t):
    return sub(scale(relu(t), 2), t)


# ---------------------------------------------------------------- conditions
def _isnumeric(t):
    if t.op in ('num', 'poly', 'relu', 'max', 'min'):
        return True
    if t.op == 'app':
        return t.args[0] not in ('str', 'fmt', 'strcat', 'rev', 'sorted', 'type', 'tuple', 'dict', 'ravel')
    if t.op == 'sym':
        return t.args[1] in ('int', 'real', 'complex', 'any')
    if t.op == 'idx':
        return True
    if t.op == 'ite':
        return _isnumeric(t.args[1]) and _isnumeric(t.args[2])
    return False


def ge0(p):
    v = numval(p)
    if v is not None:
        return TRUE if v >= 0 else FALSE
    lo, hi = bounds(p)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    k, q = _content(p)
    if is_int(p):
        # keep coefficients integral; floor the constant
        d = _terms(p)
        g = reduce(gcd, (abs(int(c)) for m, c in d.items() if m != ()), 0)
        c0 = d.get((), Fraction(0))
        q = _frompoly({m: (c / g if m != () else Fraction(int(c) // g)) for m, c in d.items()})
        q = add(q, ZERO)
        return mk('ge0', q)
    return mk('ge0', scale(q, 1 if k > 0 else -1))


def gt0(p):
    if is_int(p):
        return ge0(sub(p, ONE))
    v = numval(p)
    if v is not None:
        return TRUE if v > 0 else FALSE
    lo, hi = bounds(p)
    if lo > 0:
        return TRUE
    if hi <= 0:
        return FALSE
    k, q = _content(p)
    return mk('gt0', scale(q, 1 if k > 0 else -1))


def eq0(p):
    v = numval(p)
    if v is not None:
        return TRUE if v == 0 else FALSE
    lo, hi = bounds(p)
    if lo > 0 or hi < 0:
        return FALSE
    if (lo, hi) in ((0, 1), (-1, 0)) and is_int(p):
        return ge0(p if hi == 0 else neg(p))
    k, q = _content(p)
    if is_int(q):
        d = _terms(q)
        g = reduce(gcd, (abs(int(c)) for m, c in d.items() if m != ()), 0)
        if g > 1 and int(d.get((), 0)) % g:
            return FALSE
    return mk('eq0', q)


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return ge0(sub(b, a))


def gt(a, b):
    return gt0(sub(a, b))


def ge(a, b):
    return ge0(sub(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('list', 'tuple', 'bytes') and b.op in ('list', 'tuple', 'bytes'):
        if a.op != b.op or len(a.args) != len(b.args):
            return FALSE
        return conj(*[eq(x, y) for x, y in zip(a.args, b.args)])
    ca, cb = a.op == 'const', b.op == 'const'
    if ca and cb:
        return TRUE if a.args[0] == b.args[0] else FALSE
    if is_cond(a) and b is TRUE:
        return a
    if is_cond(a) and b is FALSE:
        return negate(a)
    if is_cond(b) and a in (TRUE, FALSE):
        return eq(b, a)
    if (ca and a.args[0] is None and (b.op in NUMOPS or b.op in SEQOPS or b.op == 'relu')) or \
       (cb and b.args[0] is None and (a.op in NUMOPS or a.op in SEQOPS or a.op == 'relu')):
        return FALSE
    if (ca and isinstance(a.args[0], str) and _isnumeric(b) and is_int(b)) or \
       (cb and isinstance(b.args[0], str) and _isnumeric(a) and is_int(a)):
        return FALSE
    if a.op in ('list', 'tuple') and not a.args and b.op in SEQOPS:
        n = length(b)
        return eq0(n)
    if b.op in ('list', 'tuple') and not b.args and a.op in SEQOPS:
        return eq0(length(a))
    if _isnumeric(a) and _isnumeric(b) and (a.op in NUMOPS or b.op in NUMOPS or is_int(a) or is_int(b)
                                            or a.op == 'sym' and b.op == 'sym'):
        return eq0(sub(a, b))
    if a.d > b.d:
        a, b = b, a
    return mk('eq', a, b)


def negate(c):
    o = c.op
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if o == 'ge0':
        return gt0(neg(c.args[0]))
    if o == 'gt0':
        return ge0(neg(c.args[0]))
    if o == 'eq0':
        p = c.args[0]
        lo, hi = bounds(p)
        if is_int(p):
            if lo >= 0:
                return ge0(sub(p, ONE))
            if hi <= 0:
                return ge0(sub(neg(p), ONE))
        return mk('ne0', p)
    if o == 'ne0':
        return mk('eq0', c.args[0])
    if o == 'eq':
        return mk('ne', *c.args)
    if o == 'ne':
        return mk('eq', *c.args)
    if o == 'not':
        return c.args[0]
    if o == 'and':
        return disj(*[negate(a) for a in c.args])
    if o == 'or':
        return conj(*[negate(a) for a in c.args])
    return mk('not', c)


def conj(*cs):
    out = []
    for c in cs:
        for x in (c.args if c.op == 'and' else (c,)):
            if x is TRUE or x in out:
                continue
            if x is FALSE:
                return FALSE
            out.append(x)
    for x in out:
        if negate(x) in out:
            return FALSE
    # an int equality implied by two inequalities stays as is; drop weaker linear facts
    out = _prune_lin(out)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda t: t.d))


def disj(*cs):
    out = []
    for c in cs:
        for x in (c.args if c.op == 'or' else (c,)):
            if x is FALSE or x in out:
                continue
            if x is TRUE:
                return TRUE
            out.append(x)
    for x in out:
        if negate(x) in out:
            return TRUE
    n = _prune_lin([negate(x) for x in out])
    out = [negate(x) for x in n]
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # ge0(p) or ge0(-p-2) over ints  ->  ne0(p+... )
    return mk('or', *sorted(out, key=lambda t: t.d))


def _prune_lin(cs):
    """Among ge0 facts differing by constants keep the strongest; merge p>=0 & -p>=0."""
    best = {}
    rest = []
    for c in cs:
        if c.op == 'ge0':
            d = _terms(c.args[0])
            k = d.pop((), Fraction(0))
            key = _frompoly(d)
            if key in best:
                best[key] = min(best[key], k)
            else:
                best[key] = k
        else:
            rest.append(c)
    out = []
    done = set()
    for key, k in best.items():
        if key in done:
            continue
        nk = neg(key)
        if nk in best and best[nk] == -k:
            done.add(nk)
            out.append(eq0(add(key, mk('num', k))))
            continue
        out.append(ge0(add(key, mk('num', k))))
    if any(o is FALSE for o in out):
        return [FALSE]
    return [o for o in out if o is not TRUE] + rest


def truthy(t):
    if is_cond(t):
        return t
    if t.op == 'const':
        return TRUE if t.args[0] else FALSE
    if t.op in ('list', 'tuple', 'bytes'):
        return TRUE if t.args else FALSE
    if t.op in ('num', 'poly', 'relu') or (_isnumeric(t) and is_int(t)):
        return negate(eq0(t))
    if t.op == 'ite':           # the value of a boolean operator
        c, a, b = t.args[0], truthy(t.args[1]), truthy(t.args[2])
        nc = negate(c)
        if c is a or nc is b:
            return disj(a, b)
        if c is b or nc is a:
            return conj(a, b)
    return mk('truthy', t)


def as01(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return c


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return negate(c)
    if is_cond(a) and is_cond(b):
        return disj(conj(c, a), conj(negate(c), b))
    if a.op in ('list', 'tuple', 'bytes') and a.op == b.op and len(a.args) == len(b.args):
        return mk(a.op, *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    a = assume(a, c)
    nc = negate(c)
    b = assume(b, nc)
    if a is b:
        return a
    if _isnumeric(a) and _isnumeric(b):
        r = _roundup(c, a, b)
        if r is None:
            r = _roundup(nc, b, a)
        if r is not None:
            return r
        if c.op in ('ge0', 'gt0'):
            p = c.args[0]
            for q in ((p, add(p, ONE)) if is_int(p) and c.op == 'ge0' else (p,)):
                k = _ratio(sub(a, b), q)
                if k is not None:
                    return add(b, scale(relu(q), k))
            q = nc.args[0] if nc.op in ('ge0', 'gt0') else None
            if q is not None:
                for q in ((q, add(q, ONE)) if is_int(q) and nc.op == 'ge0' else (q,)):
                    k = _ratio(sub(b, a), q)
                    if k is not None:
                        return add(a, scale(relu(q), k))
        # 0/1-valued selector
        z = _bool_atom(c)
        if z is not None:
            a = _elim01(a, z, 1)
            b = _elim01(b, z, 0)
            return add(b, mul(z, sub(a, b)))
    if nc.d < c.d:
        return mk('ite', nc, b, a)
    return mk('ite', c, a, b)


def _roundup(c, a, b):
    """u mod m > 0 ? b+1 : b (b containing u//m)  and  u mod m > 0 ? b+m-(u mod m) : b"""
    if c.op == 'ge0':
        p = add(c.args[0], ONE)
    elif c.op == 'ne0':
        p = c.args[0]
    else:
        return None
    for m, co in _terms(p).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'fd' and co < 0:
            at = m[0][0]
            mv = -co
            u = add(p, scale(at, mv))
            if mv <= 1 or mv != int(mv) or not is_int(u) or fd(u, mk('num', mv)) is not at:
                continue
            d = sub(a, b)
            if d is ONE and _terms(b).get(((at, 1),)) == 1:
                return add(b, sub(fd(add(u, mk('num', mv - 1)), mk('num', mv)), at))
            if sub(d, sub(mk('num', mv), p)) is ZERO:
                return add(b, sub(scale(fd(add(u, mk('num', mv - 1)), mk('num', mv)), mv), u))
    return None


def _ratio(p, q):
    dp, dq = _terms(p), _terms(q)
    if not dq or not dp or set(dp) != set(dq):
        return None
    r = None
    for m in dp:
        x = dp[m] / dq[m]
        if r is None:
            r = x
        elif r != x:
            return None
    return r


def _bool_atom(c):
    """If c is 'p == 1' for a 0/1-valued integer p, return p (as polynomial)."""
    if c.op == 'ge0':
        p = add(c.args[0], ONE)
        if bounds(p) == (0, 1) and is_int(p):
            return p
    if c.op == 'eq0':
        p = c.args[0]
        if bounds(p) == (0, 1) and is_int(p):
            return sub(ONE, p)
        if bounds(p) == (-1, 0) and is_int(p):
            return add(ONE, p)
    if c.op == 'ne0':
        p = c.args[0]
        if bounds(p) == (0, 1) and is_int(p):
            return p
    return None


def _elim01(t, z, v):
    """t knowing z == v, eliminating one atom of the linear polynomial z at top level"""
    best = None
    for m, co in _terms(z).items():
        if len(m) == 1 and m[0][1] == 1 and abs(co) == 1:
            at = m[0][0]
            k = (-numval(at.args[2]) if at.op == 'app' and at.args[0] == 'fd' and numval(at.args[2]) is not None else -1)
            if best is None or k > best[0]:
                best = (k, at, co)
    if best is None:
        return t
    _, at, co = best
    dt = _terms(t)
    if not any(at is x for m in dt for x, e in m):
        return t
    # at = (v - (z - co*at)) / co
    rep = scale(sub(mk('num', Fraction(v)), sub(z, scale(at, co))), Fraction(1) / co)
    out = ZERO
    for m, k in dt.items():
        r = mk('num', k)
        for x, e in m:
            if x is at and e > 0:
                for _ in range(e):
                    r = mul(r, rep)
            else:
                r = mul(r, power(x, mk('num', Fraction(e))))
        out = add(out, r)
    return out


_ASSUME = {}


def assume(t, c):
    """Simplify t knowing c (shallow: nested gates on the same condition, bit
    equalities)."""
    key = (t, c)
    r = _ASSUME.get(key)
    if r is not None:
        return r
    r = t
    if c.op == 'and':
        for x in c.args:
            r = assume(r, x)
    elif t.op == 'ite':
        if t.args[0] is c:
            r = assume(t.args[1], c)
        elif t.args[0] is negate(c):
            r = assume(t.args[2], c)
    elif t.op in ('list', 'tuple', 'bytes'):
        r = mk(t.op, *[assume(x, c) for x in t.args])
    _ASSUME[key] = r
    return r


def _decide(c, lin, strict):
    """TRUE or FALSE when the facts settle the condition c"""
    def pos(q):
        k, q1 = _content(q)
        if k < 0:
            q1 = neg(q1)
        return any(prove_ge0(sub(q1, p), lin) for p in strict) or prove_ge0(add(q1, const(-1)), lin)
    q = c.args[0]
    if c.op == 'ge0':
        return TRUE if prove_ge0(q, lin) else FALSE if pos(neg(q)) else None
    if c.op == 'gt0':
        return TRUE if pos(q) else FALSE if prove_ge0(neg(q), lin) else None
    if pos(q) or pos(neg(q)):
        return TRUE if c.op == 'ne0' else FALSE
    return None


def _cancel(t, lin, strict):
    """P * inv(P) = 1 for every P known to differ from 0"""
    if t.op in ('list', 'tuple'):
        return mk(t.op, *[_cancel(x, lin, strict) for x in t.args])
    if t.op != 'poly':
        return t
    for a in [a for a in atoms(t) if a.op == 'app' and a.args[0] == 'inv']:
        p = a.args[1]
        if _decide(mk('ne0', p), lin, strict) is not TRUE:
            continue
        d = _terms(p)
        lead = max((m for m in d if m != ()), key=_mono_key)
        rest = sub(p, _frompoly({lead: d[lead]}))
        for _ in range(12):
            out, hit = [], False
            for m, c in _terms(t).items():
                e = dict(m)
                if e.get(a, 0) >= 1 and all(e.get(x, 0) >= n for x, n in lead):
                    hit = True
                    q = _frompoly({_mulmono(m, tuple((x, -n) for x, n in lead + ((a, 1),)))[0]: c})
                    out.append(mul(scale(q, 1 / d[lead]), sub(ONE, mul(rest, a))))
                else:
                    out.append(_frompoly({m: c}))
            if not hit:
                break
            t = add(*out)
    return t


def equal_under(a, b, facts):
    """True when the facts make the numbers a and b equal"""
    if a.op in ('list', 'tuple') and a.op == b.op and len(a.args) == len(b.args):
        return all(equal_under(x, y, facts) for x, y in zip(a.args, b.args))
    if a is b:
        return True
    if a.op not in ('poly', 'relu', 'num') or b.op not in ('poly', 'relu', 'num', 'sym'):
        return False
    lin = tuple(linfacts(facts))
    return prove_ge0(sub(a, b), lin, 6) and prove_ge0(sub(b, a), lin, 6)


def under(t, facts):
    """t with the conditions, clamps and quotients the facts settle resolved"""
    facts = [x for f in facts for x in (f.args if f.op == 'and' else (f,))]
    lin = tuple(linfacts(facts))
    strict = [f.args[0] for f in facts if f.op == 'gt0']
    if not lin:
        return t
    for _ in range(4):
        env, seen, todo = {}, set(), [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            r = None
            if x.op in ('ge0', 'gt0', 'eq0', 'ne0'):
                r = _decide(x, lin, strict)
            elif x.op == 'relu':
                r = x.args[0] if prove_ge0(x.args[0], lin) else ZERO if prove_ge0(neg(x.args[0]), lin) else None
            if r is not None:
                env[x] = r
            else:
                todo.extend(children(x))
        t2 = _cancel(subst(t, env) if env else t, lin, strict)
        if t2 is t:
            break
        t = t2
    return t


# ---------------------------------------------------------------- sequences
KNOWNLEN = {}


def length(t):
    o = t.op
    if t in KNOWNLEN:
        return KNOWNLEN[t]
    if o in ('list', 'tuple', 'bytes'):
        return const(len(t.args))
    if o == 'const' and isinstance(t.args[0], (str, bytes)):
        return const(len(t.args[0]))
    if o == 'concat':
        return add(*[length(a) for a in t.args])
    if o == 'rep':
        return mul(length(t.args[0]), relu(t.args[1]))
    if o in ('store', 'sstore', 'asbytes'):
        return length(t.args[0])
    if o == 'comp' and t.args[3] is TRUE:
        return t.args[1]
    if o == 'slice':
        b, lo, hi, st = t.args
        if st is ONE and hi is not NONE and lo is not NONE:
            return mk('app', 'slen', relu(sub(hi, lo)), t) if False else relu(sub(hi, lo))
        if st is ONE and lo is NONE and hi is not NONE:
            if bounds(hi)[0] >= 0:
                return hi
        return app('len', t)
    if o == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if o == 'app' and t.args[0] in ('rev', 'sorted'):
        return length(t.args[1])
    return app('len', t)


def mkseq(kind, elems):
    return mk(kind, *elems)


def concat(*ts):
    out = []
    kind = None
    for t in ts:
        for x in (t.args if t.op == 'concat' else (t,)):
            if x.op in ('list', 'tuple', 'bytes') and not x.args:
                kind = kind or x.op
                continue
            if out and out[-1].op in ('list', 'tuple', 'bytes') and x.op in ('list', 'tuple', 'bytes'):
                out[-1] = mk(out[-1].op, *(out[-1].args + x.args))
            else:
                out.append(x)
    if not out:
        return ts[0]
    if len(out) == 1:
        return out[0]
    return mk('concat', *out)


def rep(seq, n):
    v = intval(n)
    if v is not None and seq.op in ('list', 'tuple', 'bytes') and len(seq.args) * max(v, 0) <= 1024:
        return mk(seq.op, *(seq.args * max(v, 0)))
    if seq.op == 'const' and isinstance(seq.args[0], str) and v is not None:
        return const(seq.args[0] * v)
    return mk('rep', seq, n)


def idx(seq, i):
    v = intval(i)
    o = seq.op
    if o in ('list', 'tuple', 'bytes'):
        if v is not None:
            if -len(seq.args) <= v < len(seq.args):
                return seq.args[v]
            return app('indexerror')
        if seq.args and all(a is seq.args[0] for a in seq.args):
            return seq.args[0]
    if o == 'const' and isinstance(seq.args[0], str) and v is not None:
        try:
            return const(seq.args[0][v])
        except IndexError:
            return app('indexerror')
    if o == 'concat' and v is not None and v >= 0:
        for p in seq.args:
            n = intval(length(p))
            if n is None:
                break
            if v < n:
                return idx(p, const(v))
            v -= n
    if o == 'concat':
        off = ZERO
        for p in seq.args:
            n = length(p)
            rel = sub(i, off)
            if bounds(rel)[0] < 0:
                break
            if bounds(sub(sub(n, ONE), rel))[0] >= 0:
                return idx(p, rel)
            if bounds(sub(rel, n))[0] >= 0:
                off = add(off, n)
                continue
            break
    if o == 'slice':
        b, lo, hi, st = seq.args
        if bounds(i)[0] >= 0 and lo is not NONE or (lo is NONE and bounds(i)[0] >= 0):
            l = ZERO if lo is NONE else lo
            if bounds(st)[0] > 0 and (lo is NONE or bounds(lo)[0] >= 0):
                return idx(b, add(l, mul(i, st)))
    if o == 'rep':
        n = intval(length(seq.args[0]))
        if n == 1 and bounds(i)[0] >= 0:
            return idx(seq.args[0], ZERO)
    if o == 'comp' and seq.args[3] is TRUE and bounds(i)[0] >= 0:
        return subst(seq.args[0], {seq.args[2]: i})
    if o == 'asbytes':
        return idx(seq.args[0], i)
    if o == 'store':
        b, j, val = seq.args
        dlt = sub(i, j)
        if dlt is ZERO:
            return val
        dv = numval(dlt)
        lo, hi = bounds(dlt)
        if dv is not None or lo > 0 or hi < 0:
            return idx(b, i)
    if o == 'sstore':
        b, lo, hi, st, val = seq.args
        if st is ONE and lo is not NONE and hi is not NONE:
            rel = sub(i, lo)
            if bounds(rel)[1] < 0 or bounds(sub(i, hi))[0] >= 0:
                return idx(b, i)
            if bounds(rel)[0] >= 0 and bounds(sub(i, hi))[1] < 0:
                return idx(val, rel)
    if o == 'ite':
        return ite(seq.args[0], idx(seq.args[1], i), idx(seq.args[2], i))
    if o == 'app' and seq.args[0] == 'rev':
        if bounds(i)[0] >= 0:
            return idx(seq.args[1], sub(sub(length(seq.args[1]), ONE), i))
    return mk('idx', seq, i)


def slice_(seq, lo, hi, st=ONE):
    if st is NONE:
        st = ONE
    if lo is ZERO and st is ONE:
        lo = NONE
    lv = None if lo is NONE else intval(lo)
    hv = None if hi is NONE else intval(hi)
    sv = intval(st)
    known = (lo is NONE or lv is not None) and (hi is NONE or hv is not None) and sv is not None
    o = seq.op
    if known and o in ('list', 'tuple', 'bytes'):
        return mk(o, *seq.args[slice(lv, hv, sv)])
    if known and o == 'const' and isinstance(seq.args[0], str):
        return const(seq.args[0][slice(lv, hv, sv)])
    if sv == -1 and lo is NONE and hi is NONE:
        return app('rev', seq)
    if lo is NONE and hi is NONE and sv == 1:
        return seq
    if sv == 1 and lo is not NONE and hi is not NONE and seqkind(seq) == 'bytes':
        n = intval(sub(hi, lo))
        if n is not None and 0 <= n <= 4 and bounds(lo)[0] >= 0:
            return mk('bytes', *[idx(seq, add(lo, const(i))) for i in range(n)])
    if o == 'slice' and sv == 1 and seq.args[3] is ONE and (lo is NONE or bounds(lo)[0] >= 0) and hi is not NONE and bounds(hi)[0] >= 0:
        base, l2, h2, _ = seq.args
        if l2 is not NONE and h2 is not NONE:
            nl = add(l2, ZERO if lo is NONE else lo)
            nh = add(l2, hi)
            if bounds(sub(h2, nh))[0] >= 0:
                return slice_(base, nl, nh, ONE)
    if o == 'sstore' and sv == 1 and lo is not NONE and hi is not NONE and seq.args[3] is ONE \
            and seq.args[1] is not NONE and seq.args[2] is not NONE:
        if bounds(sub(lo, seq.args[2]))[0] >= 0 or bounds(sub(seq.args[1], hi))[0] >= 0:
            return slice_(seq.args[0], lo, hi, st)
        if lo is seq.args[1] and hi is seq.args[2]:
            return seq.args[4]
    return mk('slice', seq, lo, hi, st)


def reverse(seq):
    if seq.op in ('list', 'tuple', 'bytes'):
        return mk(seq.op, *reversed(seq.args))
    if seq.op == 'app' and seq.args[0] == 'rev':
        return seq.args[1]
    return app('rev', seq)


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


def syms(t):
    r = t._syms
    if r is None:
        if t.op in ('sym', 'mem'):
            r = frozenset((t,))
        else:
            r = frozenset().union(*[syms(c) for c in children(t)]) if t.op not in ('num', 'const') else frozenset()
        t._syms = r
    return r


def atoms(t, op=None, seen=None):
    """all sub-terms"""
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    if op is None or t.op == op:
        yield t
    for c in children(t):
        yield from atoms(c, op, seen)


def rebuild(t, f):
    """rebuild t applying f to children through smart constructors"""
    o = t.op
    if o in ('num', 'const', 'sym'):
        return t
    if o == 'poly':
        r = ZERO
        for m, c in t.args:
            x = mk('num', c)
            for a, e in m:
                fa = f(a)
                if e > 0:
                    for _ in range(e):
                        x = mul(x, fa)
                else:
                    for _ in range(-e):
                        x = mul(x, inv(fa))
            r = add(r, x)
        return r
    args = [f(a) if isinstance(a, T) else a for a in t.args]
    if all(x is y for x, y in zip(args, t.args)):
        return t
    return construct(o, args)


def construct(o, args):
    if o == 'app':
        n = args[0]
        if n == 'fd':
            return fd(*args[1:])
        if n == 'inv':
            return inv(args[1])
        if n == 'pow':
            return power(*args[1:])
        if n == 'pow2':
            v = intval(args[1])
            if v is not None and 0 <= v < 64:
                return const(2 ** v)
            return app('pow2', args[1])
        if n == 'xor' and len(args) == 3:
            return bxor(*args[1:])
        if n == 'or_' and len(args) == 3:
            return bor(*args[1:])
        if n == 'and_' and len(args) == 3:
            return band(*args[1:])
        if n == 'len':
            return length(args[1])
        if n in ('trunc', 'round'):
            return trunc(args[1]) if n == 'trunc' else round_(args[1])
        if n == 'rev':
            return reverse(args[1])
        return mk('app', *args)
    f = {'ge0': ge0, 'gt0': gt0, 'eq0': eq0, 'ne0': lambda p: negate(eq0(p)), 'eq': eq,
         'ne': lambda a, b: negate(eq(a, b)), 'and': conj, 'or': disj, 'not': negate,
         'ite': ite, 'relu': relu, 'idx': idx, 'slice': slice_, 'truthy': truthy,
         'concat': concat, 'rep': rep}.get(o)
    if f:
        return f(*args)
    if o == 'max':
        return maxn(args)
    if o == 'min':
        return minn(args)
    h = CONSTRUCT.get(o)
    if h:
        return h(*args)
    return mk(o, *args)


CONSTRUCT = {}


def trunc(t):
    if is_int(t):
        return t
    v = numval(t)
    if v is not None:
        return const(int(v))
    return app('trunc', t)


def round_(t):
    if is_int(t):
        return t
    v = numval(t)
    if v is not None:
        return const(round(v))
    return app('round', t)


def subst(t, env, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in env:
        r = env[t]
    elif t.op in ('num', 'const'):
        r = t
    elif not (syms(t) & _envsyms(env)) and all(k.op in ('sym', 'mem') for k in env):
        r = t
    else:
        r = rebuild(t, lambda c: subst(c, env, memo))
    memo[t] = r
    return r


def _envsyms(env):
    s = frozenset()
    for k in env:
        s |= syms(k)
    return s


# ---------------------------------------------------------------- linear entailment
def linfacts(conds):
    """ge0 polynomials (and equalities as two) from conditions."""
    out = []
    for c in conds:
        if c.op == 'ge0':
            out.append(c.args[0])
        elif c.op == 'gt0':
            out.append(c.args[0])
        elif c.op == 'eq0':
            out.append(c.args[0])
            out.append(neg(c.args[0]))
        elif c.op == 'and':
            out.extend(linfacts(c.args))
    return out


def _atom_facts(p, depth=0):
    """implicit facts about the atoms of polynomial p"""
    out = []
    for m, c in _terms(p).items():
        for a, e in m:
            if a.op == 'relu':
                out.append(a)
                out.append(sub(a, a.args[0]))
            elif a.op == 'app' and a.args[0] == 'fd':
                mv = numval(a.args[2])
                if mv is not None and mv > 0 and is_int(a.args[1]):
                    out.append(sub(a.args[1], scale(a, mv)))
                    out.append(sub(add(scale(a, mv), mk('num', mv - 1)), a.args[1]))
            lo, hi = bounds(a)
            if lo != -inf:
                out.append(sub(a, mk('num', Fraction(lo))))
            if hi != inf:
                out.append(sub(mk('num', Fraction(hi)), a))
    return out


_PROVE = {}


def prove_ge0(p, facts, cases=3):
    """facts: polynomials known >= 0. True if p >= 0 follows by linear reasoning
    (Fourier-Motzkin over monomials), with case splits on relu signs."""
    key = (p, frozenset(facts), cases)
    r = _PROVE.get(key)
    if r is None:
        r = _PROVE[key] = _prove_ge0(p, tuple(facts), cases)
    return r


def _prove_ge0(p, facts, cases):
    if bounds(p)[0] >= 0:
        return True
    for f in facts:
        d = numval(sub(p, f))
        if d is not None and d >= 0:
            return True
    # gather relevant facts by shared monomials
    if _fm(p, facts):
        return True
    if cases > 0:
        rs = [a for m, _ in _terms(p).items() for a, e in m if a.op == 'relu']
        if rs:
            r = rs[0]
            while True:             # innermost first
                n = [a for m, _ in _terms(r.args[0]).items() for a, e in m if a.op == 'relu']
                if not n:
                    break
                r = n[0]
            q = r.args[0]
            pos = subst(p, {r: q})
            z = subst(p, {r: ZERO})
            f1 = [subst(f, {r: q}) for f in facts]
            f2 = [subst(f, {r: ZERO}) for f in facts]
            return prove_ge0(pos, tuple(f1) + (q,), cases - 1) and prove_ge0(z, tuple(f2) + (neg(q),), cases - 1)
    return False


def _fm(goal, facts):
    """refute  goal <= -1 (int) / goal < 0  together with facts."""
    strict = Fraction(1) if is_int(goal) else Fraction(1, 10 ** 6)
    rows = [sub(neg(goal), mk('num', strict))]
    seenm = set(m for m in _terms(goal) if m != ())
    pool = list(facts)
    extra = _atom_facts(goal)
    for f in facts:
        extra += _atom_facts(f)
    pool += extra
    # relevance closure
    chosen = []
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        for f in pool:
            if f in chosen:
                continue
            ms = set(m for m in _terms(f) if m != ())
            if ms & seenm:
                chosen.append(f)
                if ms - seenm:
                    seenm |= ms
                    changed = True
    if len(chosen) > 40:
        chosen = chosen[:40]
    rows += chosen
    sysm = [dict(_terms(r)) for r in rows]
    mons = set(m for r in sysm for m in r if m != ())
    while mons:
        # choose the monomial with the fewest products
        best, bm = None, None
        for m in mons:
            pn = sum(1 for r in sysm if r.get(m, 0) > 0)
            nn = sum(1 for r in sysm if r.get(m, 0) < 0)
            cost = pn * nn - pn - nn
            if best is None or cost < best:
                best, bm = cost, m
        m = bm
        mons.discard(m)
        P = [r for r in sysm if r.get(m, 0) > 0]
        N = [r for r in sysm if r.get(m, 0) < 0]
        Z = [r for r in sysm if not r.get(m, 0)]
        new = []
        seen = set()
        for a in P:
            for b in N:
                ca, cb = a[m], -b[m]
                r = {}
                for k, v in a.items():
                    r[k] = r.get(k, 0) + v * cb
                for k, v in b.items():
                    r[k] = r.get(k, 0) + v * ca
                r = {k: v for k, v in r.items() if v}
                if not any(k != () for k in r):
                    if r.get((), 0) < 0:
                        return True
                    continue
                t = max(abs(v) for v in r.values())
                r = {k: v / t for k, v in r.items()}
                fk = frozenset(r.items())
                if fk in seen:
                    continue
                seen.add(fk)
                new.append(r)
        sysm = Z + new
        if any(not any(k != () for k in r) and r.get((), 0) < 0 for r in sysm):
            return True
        if len(sysm) > 400:
            return False
    return any(r.get((), 0) < 0 for r in sysm if not any(k != () for k in r))


def decide(c, facts):
    """True / False / None for condition c given known-true conditions."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in facts:
        return True
    n = negate(c)
    if n in facts or n is FALSE and False:
        return False
    if c.op == 'and':
        rs = [decide(x, facts) for x in c.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if c.op == 'or':
        rs = [decide(x, facts) for x in c.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if c.op in ('ge0', 'gt0', 'eq0', 'ne0'):
        lf = linfacts(facts)
        if c.op == 'ge0':
            if prove_ge0(c.args[0], lf):
                return True
            if n.op == 'ge0' and prove_ge0(n.args[0], lf):
                return False
            if n.op == 'gt0' and any(x is n for x in facts):
                return False
        elif c.op == 'eq0':
            p = c.args[0]
            if lf and is_int(p) and (prove_ge0(sub(p, ONE), lf) or prove_ge0(sub(neg(p), ONE), lf)):
                return False
            if lf and prove_ge0(p, lf) and prove_ge0(neg(p), lf):
                return True
        elif c.op == 'ne0':
            r = decide(mk('eq0', c.args[0]), facts)
            return None if r is None else not r
        elif c.op == 'gt0':
            p = c.args[0]
            if prove_ge0(neg(p), lf):
                return False
            for f in facts:
                if f.op == 'gt0':
                    d = numval(sub(p, f.args[0]))
                    if d is not None and d >= 0:
                        return True
    for f in facts:
        if f.op == 'or' and c in f.args:
            pass
    return None


# ---------------------------------------------------------------- printing
def _paren(s):
    return s


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    o = t.op
    if depth <= 0:
        return '..' + t.d.hex()[:4]
    S = lambda x: show(x, depth - 1)
    if o == 'num':
        v = t.args[0]
        return str(v) if v.denominator == 1 or v.denominator < 1000 else '%.6g' % float(v)
    if o == 'const':
        return repr(t.args[0])
    if o == 'sym':
        return t.args[0]
    if o == 'poly':
        parts = []
        for m, c in t.args:
            ms = '*'.join((S(a) if e == 1 else '%s^%d' % (S(a), e)) for a, e in m)
            cs = str(c) if c.denominator < 100000 else '%.6g' % float(c)
            parts.append(cs if not ms else ms if c == 1 else '-' + ms if c == -1 else cs + '*' + ms)
        return '(' + ' + '.join(parts) + ')'
    if o == 'app':
        if t.args[0] == 'fd':
            return '(%s // %s)' % (S(t.args[1]), S(t.args[2]))
        return t.args[0] + '(' + ', '.join(S(a) for a in t.args[1:]) + ')'
    if o == 'ge0':
        return S(t.args[0]) + '>=0'
    if o == 'gt0':
        return S(t.args[0]) + '>0'
    if o == 'eq0':
        return S(t.args[0]) + '==0'
    if o == 'ne0':
        return S(t.args[0]) + '!=0'
    if o == 'idx':
        return '%s[%s]' % (S(t.args[0]), S(t.args[1]))
    if o == 'slice':
        return '%s[%s:%s:%s]' % tuple(S(a) for a in t.args)
    if o in ('list', 'tuple', 'bytes'):
        if len(t.args) > 12:
            return o[0] + '[' + ', '.join(S(a) for a in t.args[:6]) + ', ...%d]' % len(t.args)
        return o[0] + '[' + ', '.join(S(a) for a in t.args) + ']'
    return o + '(' + ', '.join(S(a) if isinstance(a, T) else str(a) for a in t.args) + ')'
