"""C17: results depend only on arguments.  Effect summaries of every public function are
held against the confirmed ones (tables/effects.json): no further source of randomness,
time, environment or process state, and no write to a module level object at all; clock
reads are confined to the timing module; default arguments and the variables of
decorators keep no state."""
import ast
import json
import os

from ..spec import effects_of
from ..loader import where
from ..effects import CLOCK, RNG, MUTATORS, mutable_literal

T = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tables', 'effects.json')
WHAT = {'rng': 'uses random numbers', 'clock': 'reads the clock', 'env': 'depends on the process environment',
        'reflect': 'reaches names or attributes by reflection',
        'identity': 'depends on object identity or hash order', 'process': 'starts another process', 'exit': 'ends the process'}
CACHES = {'lru_cache', 'cache', 'cached_property'}


def dotted(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    return (e.id, list(reversed(out))) if isinstance(e, ast.Name) else (None, [])


def external(prog, mod, e):
    """('module', 'name') of an expression naming an imported object"""
    base, attrs = dotted(e)
    if base is None:
        return None
    r = prog.resolve(mod, base)
    if not r:
        return None
    if r[0] == 'ext':
        return (r[1], r[2]) if not attrs else ('%s.%s' % (r[1], r[2]), attrs[0])
    if r[0] == 'extmod' and attrs:
        return ('.'.join([r[1]] + attrs[:-1]), attrs[-1])
    return None


def check(prog, rep):
    eff = effects_of(prog)
    table = json.load(open(T))
    rep.floor = 800
    for k, a in sorted(table.items()):
        s = eff.sums.get(k)
        if s is None:
            continue
        mod, node = eff.nodes[k]
        bad = False
        for e, w in sorted(s.eff.items()):
            if e in WHAT and e not in a['eff']:
                bad = True
                rep.bad('effect', '%s %s' % (k, e), where(w[0], w[1]), '%s %s%s' % (k, WHAT[e], ' through ' + w[2] if w[2] else ''))
        gl = sorted(o for o in s.mut if o.startswith('G:'))
        gl += [e for e in s.eff if e.startswith('global:') and 'G:' + e[7:] not in gl]
        for g in gl:
            bad = True
            w = s.mut.get(g) or s.eff.get(g)
            rep.bad('hidden-state', '%s %s' % (k, g), where(w[0], w[1]), '%s may modify the module level object %s' % (k, g.split(':', 1)[1]))
        for a_, d in zip(reversed(node.args.posonlyargs + node.args.args), reversed(node.args.defaults)):
            if mutable_literal(d) and a_.arg in s.mut:
                bad = True
                rep.bad('default-state', '%s(%s)' % (k, a_.arg), where(mod, node), 'the default object of parameter %s may be modified and kept' % a_.arg)
        if not bad:
            rep.ok('effect', k, where(mod, node))
    # syntactic sweep of every module: clock and randomness sources, decorators with state, caches
    for mod in sorted(prog.mods):
        m = prog.mods[mod]
        nc = 0
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                q = external(prog, mod, x)
                if q and q in CLOCK and mod != 'proctimer':
                    rep.bad('clock-confined', '%s %s.%s' % (mod, q[0], q[1]), '%s:%d' % (mod, x.lineno), 'the clock is read outside the timing module')
                    nc += 1
            if isinstance(x, ast.FunctionDef):
                for d in x.decorator_list:
                    dd = d.func if isinstance(d, ast.Call) else d
                    q = external(prog, mod, dd)
                    if q and q[1] in CACHES and not returns_immutable(x):
                        nc += 1
                        rep.bad('cached-object', '%s.%s' % (mod, x.name), where(mod, x), 'later calls get the very object handed to earlier callers')
                for v, n in closure_state(x):
                    nc += 1
                    rep.bad('closure-state', '%s.%s %s' % (mod, x.name, v), '%s:%d' % (mod, n.lineno),
                            'the function returned by %s keeps state in %s between calls' % (x.name, v))
        if not nc:
            rep.ok('state-sweep', mod)


def returns_immutable(f):
    return f.returns is not None and ast.unparse(f.returns) in ('int', 'float', 'bool', 'str', 'Number', 'complex')


def closure_state(outer):
    """writes to variables of outer made by a function outer returns"""
    inner = {n.name: n for n in outer.body if isinstance(n, ast.FunctionDef)}
    returned = {n.value.id for n in ast.walk(outer) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    todo = [inner[n] for n in inner if n in returned]
    own = {a.arg for a in outer.args.posonlyargs + outer.args.args + outer.args.kwonlyargs}
    for s in outer.body:
        if isinstance(s, ast.FunctionDef):
            own.add(s.name)
        else:
            own |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for f in todo:
        mine = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        mine |= {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        nl = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Nonlocal):
                nl |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                mine.add(n.id)
        free = (own - mine) | nl
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in nl:
                yield n.id, n
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    isinstance(n.value, ast.Name) and n.value.id in free:
                yield n.value.id, n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                    isinstance(n.func.value, ast.Name) and n.func.value.id in free:
                yield n.func.value.id, n
