"""C11: color adjustments give valid components.
component-range: for every adjustment of a color and of a pixel buffer, the value graph of
every component it returns or stores is an integer proved to lie in 0..255 by interval
analysis over its clamps (ranges.py); a component that cannot be proved is only reported
when a valuation of the parameters puts it outside.
same-length: the result of a buffer adjustment is as long as the buffer.
reference: every adjustment, the region and image forms and their helpers against the
reference definitions."""
import random
from fractions import Fraction

from .. import ri
from .. import terms as X
from ..groups import members
from ..interp import Unsupported
from ..loader import where
from ..model import models, run_models
from ..ranges import inrange
from ..spec import Ctx, evaluate, effects_of, make_kind
from ..terms import mk

BUF = [3, 6, 9]
# (module, function, kinds, valid parameters)
CASES = [
    ('colors', 'gammacorrect', {'rgb': 'rgb', 'gamma': 'real 0 -'}),
    ('colors', 'brightnessadjust', {'rgb': 'rgb', 'percentadj': 'real'}),
    ('colors', 'thresholdadjust', {'rgb': 'rgb', 'lumrange': 'list 2 int'}),
    ('colors', 'colorfilter', {'rgb': 'rgb', 'rgbfactors': 'list 3 real'}),
    ('colors', 'monochrome', {'rgb': 'rgb'}),
    ('colors', 'applymonochromefiltertoBGRbuf', {}),
    ('colors', 'monochromefiltertoBGRbuf', {}),
    ('colors', 'applycolorfiltertoBGRbuf', {'rgbfactors': 'list 3 real'}),
    ('colors', 'colorfiltertoBGRbuf', {'rgbfactors': 'list 3 real'}),
    ('colors', 'applygammaBGRbuf', {'gamma': 'real 0 -'}),
    ('colors', 'gammaBGRbuf', {'gamma': 'real 0 -'}),
    ('colors', 'invertbitsinbuffer', {}),
    ('colors', 'applybrightnessadjtoBGRbuf', {'percentadj': 'real'}),
    ('colors', 'applythresholdadjtoBGRbuf', {'lumrange': 'list 2 int'}),
]


def outside(t, seconds=3.0):
    """a valuation that puts t outside 0..255 or makes it no integer"""
    import time
    pool = ri.constants([t])
    rng = random.Random(1)
    t0 = time.time()
    for n in range(1500):
        if time.time() - t0 > seconds:
            break
        val = {'$draw': ri.drawer(rng, pool, n % 3 != 0)}
        try:
            v = ri.Eval(rng, val).ev(t)
        except (ri.Undef, ri.Budget, ri.Unknown, RecursionError, OverflowError, ZeroDivisionError, ValueError):
            continue
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float) and v == int(v):
            v = int(v) if X.is_int(t) else v
        if isinstance(v, (int, Fraction, float)) and (not 0 <= v <= 255 or isinstance(v, Fraction) and v.denominator != 1):
            s = sorted('%s=%s' % (k.args[0], w) for k, w in val.items() if isinstance(k, X.T) and k.op == 'sym')
            return '%s with %s' % (v, ', '.join(s)[:200])
    return None


def component(rep, label, w, c):
    if inrange(c, 0, 255):
        rep.ok('component-range', label, w)
        return
    o = outside(c)
    if o:
        rep.bad('component-range', label, w, 'a component may be %s: %s' % (o, X.show(c, 5)[:300]))
    else:
        rep.undecided('component-range', label, w, 'not proved to lie in 0..255: %s' % X.show(c, 4)[:200])


def check(prog, rep):
    eff = effects_of(prog)
    rep.floor = 150
    for mod, name, kinds in CASES:
        m, node = prog.func(mod, name)
        isbuf = 'rgb' not in kinds
        for n in (BUF if isbuf else [0]):
            first = node.args.args[0].arg
            ks = (['bytes %d' % n] if isbuf else []) + list(kinds.values())
            label = name + (' %d bytes' % n if n else '')
            w = where(m, node)
            if rep.only and rep.only not in label:
                continue
            names = [a.arg for a in node.args.args]
            if len(names) < len(ks) or len(node.args.defaults) < len(names) - len(ks):
                rep.undecided('component-range', label, w, 'signature changed')
                continue

            def build(it, st):
                return Ctx([make_kind(it, st, a, k, None, {}) for a, k in zip(names, ks)])
            try:
                r = evaluate(prog, mk('fn', 'g:%s.%s' % (m, node.name)), build, opaque=(), effects=eff, mod=m)
            except Unsupported as x:
                rep.undecided('component-range', label, w, str(x))
                continue
            res = r.value
            if isbuf and res.op not in ('bytes',):
                res = r.final.get(first, res)
            if res.op not in ('list', 'tuple', 'bytes'):
                rep.undecided('component-range', label, w, 'result %s' % X.show(res, 2)[:100])
                continue
            want = n or 3
            if len(res.args) != want:
                rep.bad('same-length', label, w, 'the result has %d components instead of %d' % (len(res.args), want))
            else:
                rep.ok('same-length', label, w)
            for i, c in enumerate(res.args):
                component(rep, '%s component %d' % (label, i), w, c)
            if isbuf and first in r.changed and r.final[first].op in ('bytes', 'list'):
                for i, c in enumerate(r.final[first].args):
                    component(rep, '%s stored %d' % (label, i), w, c)
    run_models(rep, prog, 'reference', members(models(prog), 'c11'))
