"""Interval reasoning on value graphs: proves that an integer term stays inside a range,
splitting on the clamps (relu) and selections (ite) it contains and using that a component
divided by the maximum of the components it belongs to lies between 0 and 1."""
from . import terms as X
from .terms import mk, const


def replace(t, m, memo):
    r = memo.get(t)
    if r is None:
        if t in m:
            r = m[t]
        else:
            r = X.rebuild(t, lambda x: replace(x, m, memo)) if isinstance(t, X.T) and t.args else t
        memo[t] = r
    return r


def maxof(t):
    """components whose maximum t is (possibly replaced by 1 when they are all 0)"""
    if t.op == 'ite':
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if b is X.ONE and a.op == 'max':
                return set(a.args)
    if t.op == 'max':
        return set(t.args)
    return set()


def ratios(p, ren):
    """y/max(.., y, ..) replaced by a symbol between 0 and 1"""
    out = {}
    ch = False
    for m, c in X._terms(p).items():
        d = dict(m)
        for a, e in list(d.items()):
            if e < 0:
                for y in sorted(maxof(a), key=lambda t: t.d):
                    while d.get(y, 0) > 0 and d.get(a, 0) < 0:
                        d[y] -= 1
                        d[a] += 1
                        s = ren.setdefault((y, a), X.sym('ratio.%s.%s' % (y.d[:6], a.d[:6]), 'real', 0, 1))
                        d[s] = d.get(s, 0) + 1
                        ch = True
        k = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].d))
        out[k] = out.get(k, 0) + c
    return X._frompoly(out) if ch else p


def factor(p):
    """(rest, common) when every monomial has a common part"""
    ts = X._terms(p)
    if len(ts) < 2:
        return None
    com = None
    for m in ts:
        d = dict(m)
        com = d if com is None else {a: min(e, com[a]) for a, e in d.items() if a in com and e > 0 and com[a] > 0}
    if not com:
        return None
    k = tuple(sorted(((a, e) for a, e in com.items()), key=lambda ae: ae[0].d))
    rest = {}
    for m, c in ts.items():
        d = dict(m)
        for a, e in com.items():
            d[a] -= e
        rest[tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].d))] = c
    return X._frompoly(rest), mk('poly', (k, c0)) if (c0 := X.Fraction(1)) else None


def atoms(p):
    out = []
    for m in X._terms(p):
        for a, e in m:
            if a not in out:
                out.append(a)
    return out


class Prover:
    def __init__(self, budget=4000):
        self.budget = budget
        self.ren = {}

    def nonneg(self, p, facts=(), depth=9):
        self.budget -= 1
        if self.budget < 0:
            return False
        if X.bounds(p)[0] >= 0:
            return True
        for q in facts:
            if X.bounds(X.sub(p, q))[0] >= 0:
                return True
        if any(X.bounds(q)[1] < 0 for q in facts):
            return True             # the case cannot happen
        q = ratios(p, self.ren)
        if q is not p:
            facts = tuple(ratios(f, self.ren) for f in facts)
            return self.nonneg(q, facts, depth)
        if depth == 0:
            return False
        # k + common*rest with common in [0, 1] : holds if k + rest and k hold
        ts = X._terms(p)
        k = ts.get((), 0)
        body = X.sub(p, mk('num', X.Fraction(k))) if k else p
        f = factor(body)
        if f and f[1] is not None:
            lo, hi = X.bounds(f[1])
            if lo >= 0 and hi <= 1 and k >= 0 and self.nonneg(X.add(f[0], const(k)), facts, depth - 1):
                return True
            if lo >= 0 and k >= 0 and self.nonneg(f[0], facts, depth - 1):
                return True
        # rounding does not cross integers
        for m, c in ts.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] in ('round', 'trunc') and abs(c) == 1:
                rest = X.sub(p, mk('poly', (m, c)))
                n = X.numval(rest)
                if n is not None and n.denominator == 1 and (m[0][0].args[0] == 'round' or n >= 0):
                    e = m[0][0].args[1]
                    if self.nonneg(X.add(rest, X.scale(e, c)), facts, depth - 1):
                        return True
        for a in atoms(p):
            if a.op == 'relu':
                e = a.args[0]
                yes = replace(p, {a: e}, {})
                no = replace(p, {a: X.ZERO}, {})
                return self.nonneg(yes, facts + (e,), depth - 1) and self.nonneg(no, facts + (X.neg(e),), depth - 1)
        for a in atoms(p):
            if a.op == 'ite':
                c = a.args[0]
                y, n = self.condfacts(c)
                return self.nonneg(replace(p, {a: a.args[1]}, {}), facts + y, depth - 1) and \
                    self.nonneg(replace(p, {a: a.args[2]}, {}), facts + n, depth - 1)
        return False

    def condfacts(self, c):
        if c.op == 'ge0':
            e = c.args[0]
            return (e,), (X.sub(X.neg(e), X.ONE) if X.is_int(e) else X.neg(e),)
        if c.op == 'gt0':
            e = c.args[0]
            return (e,), (X.neg(e),)
        if c.op == 'eq0':
            return (c.args[0], X.neg(c.args[0])), ()
        if c.op == 'ne0':
            return (), (c.args[0], X.neg(c.args[0]))
        if c.op == 'and':
            y = ()
            for a in c.args:
                y += self.condfacts(a)[0]
            return y, ()
        return (), ()


def inrange(t, lo, hi, facts=()):
    if not X.is_int(t):
        return False
    return Prover().nonneg(X.sub(t, const(lo)), tuple(facts)) and Prover().nonneg(X.sub(const(hi), t), tuple(facts))
