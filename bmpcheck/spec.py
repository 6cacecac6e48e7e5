"""Agreement of a package function with a specification: both are turned into value
graphs over the same symbolic arguments and their normal forms are compared."""
import ast
import time

from . import ri
from . import terms as X
from .interp import Interp, Policy, State, Unsupported
from .query import run, gfn, spec_fn, params, bmp_param, stride, Result
from .terms import mk, const, sym, show, ZERO, ONE, TRUE, FALSE, NONE
from .loader import Broken, where
from .deadline import limited, Timeout

IGNORE = ('$io', '$clock', '$fpos')


class Ctx:
    """arguments builder result"""

    def __init__(self, args, kw=None, env=None, facts=()):
        self.args, self.kw, self.env, self.facts = args, kw or {}, env or {}, tuple(facts)


def evaluate(prog, fn, build, opaque=(), inline=(), effects=None, hooks=None, mod='BITMAPlib', src=None,
             maxsteps=400000, decorate=False, extlog=False):
    it = Interp(prog, Policy(opaque=opaque, inline=inline), effects=effects)
    it.extlog = extlog
    it.maxsteps = maxsteps
    if hooks:
        it.hooks.update(hooks)
    st = State()
    it.modstack.append(mod)
    ctx = build(it, st)
    for f in ctx.facts:
        st.assume(f)
    if src is not None:
        f = spec_fn(it, st, src, mod, ctx.env, decorate)
    else:
        f = gfn(prog, fn) if isinstance(fn, str) else fn
    r = run(it, st, f, ctx.args, ctx.kw)
    r.facts = ctx.facts
    return r


def diff(a, b, path='', depth=0, out=None):
    """first differing subterms"""
    if out is None:
        out = []
    if a is b or len(out) >= 3:
        return out
    if depth < 12 and a.op == b.op and len(a.args) == len(b.args) and a.op not in ('poly', 'num', 'sym', 'const'):
        bad = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
        if all(isinstance(x, X.T) and isinstance(y, X.T) for x, y in bad):
            for i, (x, y) in enumerate(bad):
                diff(x, y, path + '/' + a.op, depth + 1, out)
            return out
    out.append((path, a, b))
    return out


def clip(s, n=700):
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def describe(a, b, la='code', lb='spec'):
    o = []
    for p, x, y in diff(a, b):
        o.append('%s: %s\n%s: %s' % (la, clip(show(x, 7)), lb, clip(show(y, 7))))
    return '\n'.join(o)


def compare(a, b, ignore=IGNORE, ret=True):
    """list of (what, term in a, term in b) that differ"""
    out = []
    if ret and a.value is not b.value:
        out.append(('return value', a.value, b.value))
    for k in sorted(set(a.changed) | set(b.changed)):
        if k in ignore:
            continue
        x = a.final.get(k)
        y = b.final.get(k)
        if x is None:
            x = sym(k, 'any')
        if y is None:
            y = sym(k, 'any')
        if x is not y:
            out.append((k, x, y))
    return out


def simp(t, facts):
    for f in facts:
        t = X.assume(t, f)
    return t


LIMIT = 60          # seconds per obligation
TOTAL = 600         # seconds per check, after which obligations get little time each


def agree(rep, prog, rule, name, src, build, construct=None, **kw):
    construct = construct or name
    left = TOTAL - (time.time() - rep.t0)
    lim = LIMIT * ri.DEPTH[0]
    lim = lim if left > lim else max(3, left)
    if left < -150:
        rep.undecided(rule, construct, '', 'time limit')
        return None
    try:
        return limited(lim, lambda: agree_(rep, prog, rule, name, src, build, construct, **kw))
    except Timeout:
        rep.undecided(rule, construct, '', 'time limit')
        return None
    except Broken:
        raise
    except Exception as e:
        if os.environ.get('BMPCHECK_TRACE'):
            raise
        rep.undecided(rule, construct, '', 'not evaluated: %s %s' % (type(e).__name__, e))
        return None


def agree_(rep, prog, rule, name, src, build, construct=None, opaque=(), inline=(), effects=None, hooks=None,
          ignore=IGNORE, ret=True, mod='BITMAPlib', post=None, specopaque=None, decorate=False, prefer=None,
          code=None, at='', extlog=False, cases=None):
    construct = construct or name
    if getattr(rep, 'only', None) and rep.only not in construct:
        return None
    if isinstance(name, str):
        m, node = prog.find(name) if mod == 'BITMAPlib' else prog.func(mod, name)
        w = where(m, node)
        fn = mk('fn', 'g:%s.%s' % (m, node.name))
    else:
        fn, w = name, at

    def both(build, op, steps):
        x = evaluate(prog, fn, build, op, inline, effects, hooks, mod, code, maxsteps=steps, extlog=extlog)
        y = evaluate(prog, None, build, set(op) | set(specopaque or ()), inline, effects, hooks, mod, src,
                     maxsteps=steps, decorate=decorate, extlog=extlog)
        if post:
            post(x, y)
        d = compare(x, y, ignore, ret)
        if d and x.facts:
            d = [(w, X.under(p, x.facts), X.under(q, x.facts)) for w, p, q in d]
            d = [t for t in d if not X.equal_under(t[1], t[2], x.facts)]
        return x, y, d

    def settle(build):
        """(True, note) when equal, (False, text) when told apart, (None, why)"""
        try:
            a, b, d = both(build, opaque, 400000)
        except (Unsupported, RecursionError) as e:
            return None, str(e)
        if not d:
            return True, ''
        if build is not cases[0] and build is first:
            return None, ''             # decided case by case
        from . import ri
        v = ri.search(d, a.facts)
        shared = d if v.text and called(d, 1) == called(d, 2) else None
        if v.text and opaque:
            # a callee may have been expanded, extracted or replaced by an equal one: expand the
            # callees the two sides do not share, then all of them, before reporting
            try:
                st, d, v = expand(lambda *x: both(build, *x), set(opaque), d, v)
            except (Unsupported, RecursionError, Timeout):
                st, v = None, None
            if st == 'equal':
                return True, 'callees expanded'
            if shared and (v is None or not v.text and (v.agreed < 30 or uncovered(d, v))):
                # little could be said about the expanded callees; both sides apply the same
                # callees equally often: the values they hand to them are compared, with what
                # callees return restricted to ordinary values
                ri.LOOSE[0] = True
                try:
                    v = ri.search(shared, a.facts)
                finally:
                    ri.LOOSE[0] = False
                if v.text:
                    d = shared
                    v.text += ' (arguments of the same callees)'
            elif v is None:
                return None, 'a callee is not evaluated'
        elif opaque:
            # no difference as long as callees are opaque: let the search see into them
            try:
                st, d2, v2 = expand(lambda *x: both(build, *x), set(opaque), d, v)
            except (Unsupported, RecursionError, Timeout):
                st = None
            if st == 'equal':
                return True, 'callees expanded'
            if st == 'differ' and v2.text:
                d, v = d2, v2
        if not v.text:
            return None, 'normal forms differ but no distinguishing valuation: ' + \
                '; '.join(describe(x, y).replace('\n', ' | ') for _, x, y in d[:2])
        return False, '\n'.join('%s\n%s' % (k, describe(x, y)) for k, x, y in d[:3]) + '\n' + v.text

    first = build
    cases = [build] if not cases else list(cases)
    ok, text = settle(build)
    if ok is None and cases[0] is not build:
        res = [settle(c) for c in cases]
        bad = [r for r in res if r[0] is False] + [r for r in res if r[0] is None]
        ok, text = bad[0] if bad else (True, 'case by case')
    if ok:
        rep.ok(rule, construct, w, text)
    elif ok is None:
        rep.undecided(rule, construct, w, text)
    else:
        rep.bad(rule, construct, w, text)
    return ok


def expand(both, op, d, v):
    from . import ri
    todo = True
    n = 0
    while todo:
        x, y = called(d, 1), called(d, 2)
        odd = {f for f in set(x) | set(y) if x.get(f) != y.get(f)} & op
        n += 1
        if not odd or n > 4:
            odd = set(op)
            todo = False
        op -= odd
        a2, b2, d2 = both(op, 150000)
        if not d2:
            return 'equal', d2, v
        v, d = ri.search(d2, a2.facts), d2
        if not v.text:
            return 'same', d, v
        if not op:
            break
    return 'differ', d, v


def uncovered(d, v):
    """a test made by one side only whose outcome never varied"""
    from . import ri
    odd = ri.predicates([x for _, x, _ in d]) ^ ri.predicates([x for _, _, x in d])
    n = {}
    for t, o in v.seen:
        n.setdefault(t, set()).add(o)
    return any(len(n.get(t, ())) < 2 for t in odd)


def called(d, side):
    """package functions kept as applications in the differing terms, with how often"""
    seen = set()
    out = {}
    todo = [x[side] for x in d]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'call':
            f = t.args[0].split('.')[-1]
            out[f] = out.get(f, 0) + 1
        todo.extend(X.children(t))
    return out


# ---------------------------------------------------------------- specification files
import itertools
import os

SPECDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs')
_EFF = {}


def effects_of(prog):
    if id(prog) not in _EFF:
        from .effects import Effects
        _EFF[id(prog)] = Effects(prog)
    return _EFF[id(prog)]


def _expr(e, names):
    """arithmetic over symbols and case constants in a kind string"""
    if isinstance(e, ast.Expression):
        return _expr(e.body, names)
    if isinstance(e, ast.Name):
        return const(names[e.id]) if e.id in names else sym(e.id, 'int')
    if isinstance(e, ast.Constant):
        return const(e.value)
    if isinstance(e, ast.BinOp):
        a, b = _expr(e.left, names), _expr(e.right, names)
        return {ast.Add: X.add, ast.Sub: X.sub, ast.Mult: X.mul}[type(e.op)](a, b)
    if isinstance(e, ast.UnaryOp):
        return X.neg(_expr(e.operand, names))
    raise Broken('spec kind ' + ast.unparse(e))


def make_kind(it, st, name, k, bits, case):
    """symbolic argument of a declared kind"""
    if not isinstance(k, str):
        return it_const(it, st, k)
    w = k.split()
    if w[0] == 'bmp':
        return bmp_param(it, st, name, int(w[1]) if len(w) > 1 else bits)
    if w[0] in ('int', 'real'):
        lo = int(w[1]) if len(w) > 1 and w[1] != '-' else None
        hi = int(w[2]) if len(w) > 2 and w[2] != '-' else None
        return sym(name, w[0], lo, hi)
    if w[0] in ('str', 'bool', 'any', 'complex'):
        return sym(name, w[0])
    if w[0] == 'fn':
        return sym(name, 'fn')
    if w[0] == 'bytes':
        if len(w) > 1:
            return it.root(st, name, 'bytes', mk('bytes', *[sym('%s.%d' % (name, i), 'int', 0, 255) for i in range(int(w[1]))]))
        return it.root(st, name, 'bytes', sym(name, 'bytes'))
    if w[0] == 'list':
        if len(w) == 1:
            return it.root(st, name, 'list', sym(name, 'list'))
        rest = ' '.join(w[2:]) or 'int'
        return it.root(st, name, 'list', mk('list', *[make_kind(it, st, '%s.%d' % (name, i), rest, bits, case)
                                                     for i in range(int(w[1]))]))
    if w[0] == 'dict':
        return it.root(st, name, 'dict', sym(name, 'dict'))
    if w[0] == 'rgb':
        return it.root(st, name, 'list', mk('list', *[sym('%s.%s' % (name, i), 'int', 0, 255) for i in 'rgb']))
    if w[0] == 'xy':
        return it.root(st, name, 'list', mk('list', *[sym('%s.%s' % (name, i), 'int') for i in 'xy']))
    if w[0] == '=':
        return _expr(ast.parse(k.split('=', 1)[1].strip(), mode='eval'), case)
    raise Broken('spec kind ' + k)


def it_const(it, st, k):
    if isinstance(k, (list, tuple)):
        return mk('list' if isinstance(k, list) else 'tuple', *[it_const(it, st, x) for x in k])
    return const(k)


class Case:
    def __init__(self, node, opts):
        self.node, self.o = node, opts
        self.fn, _, self.tag = node.name.partition('__')


def load_specs(fname):
    p = os.path.join(SPECDIR, fname + '.py')
    tree = ast.parse(open(p).read(), p)
    out = []
    helpers = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            d = [x for x in n.decorator_list if isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'on']
            if not d:
                helpers.append(n)
                continue
            for x in d:
                out.append(Case(n, {k.arg: ast.literal_eval(k.value) for k in x.keywords}))
    return out, helpers


def image_env(name, bits, pre=''):
    W, H = sym(name + '.W', 'int', 1, (1 << 24) - 1), sym(name + '.H', 'int', 1, (1 << 24) - 1)
    e = {pre + 'W': W, pre + 'H': H, pre + 'FSZ': sym(name + '.fsz', 'int', 54, 256 ** 7 - 1)}
    if isinstance(bits, int):
        from .query import HDR
        e[pre + 'S'] = stride(W, bits)
        e[pre + 'D'] = const(HDR[bits])
        e['BITS'] = const(bits)
        e['NCOL'] = const(1 << bits)
    return e


def case_builder(prog, case, bits, vals, node):
    kinds = case.o.get('kinds', {})

    def build(it, st):
        args = []
        env = {k: const(v) for k, v in vals.items()}
        from .query import default_param
        for a in node.args.posonlyargs + node.args.args:
            n = a.arg
            if n in kinds:
                k = kinds[n]
                args.append(make_kind(it, st, n, k, bits, vals))
                if isinstance(k, str) and k.split()[0] == 'bmp':
                    env.update(image_env(n, int(k.split()[1]) if len(k.split()) > 1 else bits, '' if n == 'bmp' else n + '_'))
            elif n == 'bmp':
                args.append(bmp_param(it, st, n, bits))
                env.update(image_env(n, bits))
            else:
                args.append(default_param(it, st, a, bits))
        facts = []
        for w in case.o.get('when', ()):
            f = spec_fn(it, st, 'def when(%s):\n    return %s' % (', '.join(a.arg for a in node.args.args), w),
                        case.o.get('mod', 'BITMAPlib'), env)
            facts.append(X.truthy(it.call(f, args, {}, st)))
        return Ctx(args, env=env, facts=facts)
    return build


def run_specs(rep, prog, fname, rule, only=None, effects=None):
    cases, helpers = load_specs(fname)
    hs = '\n'.join(ast.unparse(h) for h in helpers)
    for c in cases:
        if only and not only(c):
            continue
        mod = c.o.get('mod', 'BITMAPlib')
        m, node = prog.find(c.fn) if mod == 'BITMAPlib' else prog.func(mod, c.fn)
        bl = c.o.get('bits', [None])
        each = c.o.get('each', {})
        n2 = ast.parse(ast.unparse(c.node)).body[0]
        n2.decorator_list = []
        n2.name = 'spec'
        src = hs + '\n' + ast.unparse(n2)
        a1 = node.args.posonlyargs + node.args.args
        a2 = n2.args.args
        if [a.arg for a in a1] != [a.arg for a in a2] and len(a1) != len(a2):
            rep.undecided(rule, c.node.name, where(m, node), 'signature changed: %s' % ast.unparse(node.args))
            continue
        for bits in (bl if isinstance(bl, list) else [bl]):
            keys = sorted(each)
            for combo in itertools.product(*[each[k] for k in keys]):
                vals = dict(zip(keys, combo))
                tag = c.node.name + (' %d-bit' % bits if bits else '') + ''.join(' %s=%s' % kv for kv in sorted(vals.items()))
                agree(rep, prog, c.o.get('rule', rule), c.fn, src,
                      case_builder(prog, c, bits, vals, ParamNames(node, n2)), tag,
                      opaque=c.o.get('opaque', ()), inline=c.o.get('inline', ()),
                      effects=effects or effects_of(prog), ignore=IGNORE + tuple(c.o.get('ignore', ())),
                      ret=c.o.get('ret', True), mod=m if mod != 'BITMAPlib' else 'BITMAPlib')


class ParamNames:
    """implementation parameters under the names used by the specification (a renamed
    parameter keeps its position)"""

    def __init__(self, impl, spec):
        self.args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        ia = impl.args.posonlyargs + impl.args.args
        for a, b in zip(ia, spec.args.args):
            self.args.args.append(ast.arg(arg=b.arg, annotation=a.annotation if a.annotation is not None else b.annotation))


def run_laws(rep, prog, fname, rule):
    """laws in specs/<fname>.py: each function ends in 'return left, right', two
    expressions over package functions that have the same value for all arguments"""
    cases, helpers = load_specs(fname)
    for c in cases:
        mod = c.o.get('mod', 'mathlib')
        body = ast.parse(ast.unparse(c.node)).body[0]
        body.decorator_list = []
        body.name = 'spec'
        pair = body.body[-1].value.elts
        srcs = []
        for x in pair:
            body.body[-1].value = x
            srcs.append(ast.unparse(body))
        fns = [n.id for n in ast.walk(ast.Tuple(elts=list(pair))) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
        w = ''
        for f in fns:
            r = prog.resolve(mod, f)
            if r and r[0] == 'def':
                w = where(r[1], r[2])
                break
        each = c.o.get('each', {})
        keys = sorted(each)
        for combo in itertools.product(*[each[k] for k in keys]):
            vals = dict(zip(keys, combo))
            tag = c.node.name + ''.join(' %s=%s' % kv for kv in sorted(vals.items()))
            agree(rep, prog, c.o.get('rule', rule), None, srcs[1], case_builder(prog, c, None, vals, c.node), tag,
                  effects=effects_of(prog), mod=mod, code=srcs[0], at=w)
