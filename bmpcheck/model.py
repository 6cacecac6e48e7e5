"""Reference models: bmpcheck/models/<module>.py holds, for each package function, a
reviewed definition of what it computes.  A property names the functions it rests on;
the check then shows, one function at a time, that the current definition has the same
value graph (result, effect on every argument, defaults of its parameters) as the model,
with calls to other modelled functions kept as uninterpreted applications, and follows
those calls until every function the property depends on is covered."""
import ast
import builtins
import os

from . import terms as X
from .interp import Interp, Policy, State, Unsupported
from .query import default_param
from .spec import agree, effects_of, make_kind, Ctx
from .terms import mk, const, sym
from .loader import Broken, where

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'models')


def returns_closure(n):
    inner = {x.name for x in n.body if isinstance(x, ast.FunctionDef)}
    return any(isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id in inner for x in n.body)


class Models:
    def __init__(self, prog):
        self.prog = prog
        self.fn = {}            # (mod, name) -> node
        self.by = {}            # name -> [mod]
        for f in sorted(os.listdir(DIR)):
            if f.endswith('.py'):
                mod = f[:-3]
                for n in ast.parse(open(os.path.join(DIR, f)).read()).body:
                    if isinstance(n, ast.FunctionDef) and n.name == 'program':
                        self.program = n            # what the module does when it is run
                    elif isinstance(n, ast.FunctionDef):
                        self.fn[(mod, n.name)] = n
                        self.by.setdefault(n.name, []).append(mod)
        self.deco = {k for k, n in self.fn.items() if returns_closure(n)}
        self.names = set(self.by) - {k[1] for k in self.deco}

    def resolve(self, mod, name):
        r = self.prog.resolve(mod, name)
        if r and r[0] == 'def' and (r[1], r[2].name) in self.fn:
            return (r[1], r[2].name)
        if r is None and (mod, name) in self.fn:
            return (mod, name)
        return None

    def callees(self, key):
        """modelled functions the model of key mentions"""
        mod, name = key
        n = self.fn[key]
        out = []
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                r = self.resolve(mod, x.id)
                if r and r != key and r not in out:
                    out.append(r)
        return out

    def closure(self, roots, stop=()):
        todo = list(roots)
        seen = []
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.append(k)
            for c in self.callees(k):
                if c not in seen and c[1] not in stop:
                    todo.append(c)
        return sorted(seen)


_M = {}


def models(prog):
    if id(prog) not in _M:
        _M[id(prog)] = Models(prog)
    return _M[id(prog)]


# kinds of parameters whose annotation does not say enough, and constants worth splitting on
KINDS = {}
DEFAULT_BITS = (1, 4, 8, 24)
# functions that hand out functions: expanded, so that the function they choose is known
EXPAND = {'_getBMoffhdfunc', '_getBMofffunc'}


# what the documentation says of integer parameters: models and package are compared on these values
BITS = {'bits', 'newbits', 'bitdepth', 'colorbits'}
POSITIVE = {'scale', 'n', 'sides', 'petals', 'step', 'int_eraseeverynline', 'int_eraseNthline', 'intmagfactor', 'intpixsize',
            'xbins', 'ybins', 'pbins', 'qbins', 'colors'}
NATURAL = {'maxiter', 'pixspace', 'spacebetweenchar', 'penradius', 'edgeradius', 'bufsize', 'cnt', 'offset', 'order', 'size', 'hdsize',
           'headsize', 'turns'}
BYTE = {'bytepat', 'byteval', 'lumbyte', 'bytelum', 'brightness', 'lum', 'r1', 'r2', 'g1', 'g2', 'b1', 'b2'}
# x and y inside the image (or a width and height)
INSIDE = {'_xbytes', '_pdbytes', '_getbmflsz', '_bmmeta', 'newBMP', 'newBMPwithPAL', 'CopyBMPxydim2newBMP', '_24bmof', '_24bmofhd', '_8bmof',
          '_8bmofhd', '_4bmof', '_4bmofhd', '_1bmof', '_1bmofhd', '_BMoffset', '_BMoffsethd', 'plotxybit', 'getxybit'}


def declared(mod, name, a):
    """kind of an integer parameter that its name and annotation do not exhaust"""
    if a.annotation is None or ast.unparse(a.annotation) != 'int':
        return None
    n = a.arg
    if n in BITS and name != 'isvalidcolorbit':
        return 'int 1 24'
    if n.endswith('color') or n in ('c1', 'c2') or n == 'c' and name != 'getRGBpal' and name != 'setRGBpal':
        return 'int 0 16777215'
    if n in BYTE or n == 'c' or n in ('r', 'g', 'b') and (mod == 'colors' or name == 'setRGBpal'):
        return 'int 0 255'
    if n in POSITIVE and name not in ('iterimageregionvertbyRGB',):
        return 'int 1'
    if n in NATURAL or n == 'r' and mod in ('BITMAPlib', 'primitives2D'):
        return 'int 0'
    if n in ('x', 'y') and name in INSIDE:
        return 'int 0'
    if n in ('x', 'y') and 'attractor' in name:
        return 'int 1'          # size of the new image
    return None


def builder(names, bits, kinds):
    def build(it, st):
        args = []
        for a in names:
            if a.arg in kinds:
                args.append(make_kind(it, st, a.arg, kinds[a.arg], bits, {}))
            else:
                args.append(default_param(it, st, a, bits))
        return Ctx(args)
    return build


def run_models(rep, prog, rule, roots, closure=True, stop=(), skip=(), need=True):
    """roots: names or (mod, name)"""
    M = models(prog)
    ks = []
    for r in roots:
        if isinstance(r, str):
            ms = M.by.get(r)
            if not ms:
                raise Broken('no model for ' + r)
            r = (ms[0], r)
        ks.append(r)
        if need and not r[1].startswith('_'):
            prog.func(*r)
    ks = M.closure(ks, stop) if closure else sorted(set(ks))
    eff = effects_of(prog)
    for k in ks:
        if k[1] in skip or k in M.deco:
            continue
        check_model(rep, prog, rule, k, eff)
    return ks


def check_model(rep, prog, rule, key, eff):
    M = models(prog)
    mod, name = key
    spec = M.fn[key]
    r = prog.resolve(mod, name)
    if not r or r[0] != 'def':
        # an internal helper that no longer exists: its callers are compared with the model expanded
        return
    mod2, node = r[1], r[2]
    label = '%s.%s' % (mod2, name)
    if rep.only and rep.only not in label:
        return
    w = where(mod2, node)
    done = rep.__dict__.setdefault('_done', set())
    if (rule, key) in done:
        return
    done.add((rule, key))
    ia = node.args.posonlyargs + node.args.args
    sa = spec.args.posonlyargs + spec.args.args
    if len(ia) < len(sa) or node.args.vararg and not spec.args.vararg:
        rep.undecided(rule, label, w, 'signature changed')
        return
    if [a.arg for a in ia[:len(sa)]] != [a.arg for a in sa]:
        if sorted(a.arg for a in ia[:len(sa)]) == sorted(a.arg for a in sa):
            rep.bad(rule, label + ' parameters', w, 'parameters are in the order (%s), expected (%s)' % (
                ', '.join(a.arg for a in ia), ', '.join(a.arg for a in sa)))
            return
    if len(ia) > len(sa) and len(ia) - len(sa) > len(node.args.defaults):
        rep.undecided(rule, label, w, 'signature changed')
        return
    u = unbound(prog, mod2, node)
    if u:
        rep.bad(rule, label, w, 'uses the name %s, which nothing defines' % ', '.join(sorted(u)))
        return
    # defaults
    dflt = {}
    for a, d in zip(reversed(sa), reversed(spec.args.defaults)):
        dflt[sa.index(a)] = d
    impl = {}
    for a, d in zip(reversed(ia), reversed(node.args.defaults)):
        impl[ia.index(a)] = d
    for i, d in sorted(dflt.items()):
        if i not in impl:
            rep.bad(rule, '%s default of %s' % (label, sa[i].arg), w, 'parameter %s has no default, expected %s' % (sa[i].arg, ast.unparse(d)))
        elif ast.dump(impl[i]) != ast.dump(d) and not same_value(prog, mod2, impl[i], d):
            rep.bad(rule, '%s default of %s' % (label, sa[i].arg), w, 'parameter %s defaults to %s, expected %s' % (
                sa[i].arg, ast.unparse(impl[i]), ast.unparse(d)))
    kinds = KINDS.get(name, {})
    src = ast.unparse(spec)
    lost = [n for n in missing(M, prog, key)]
    if lost:
        src = '\n'.join(ast.unparse(M.fn[x]) for x in lost) + '\n' + src
    bl = kinds.get('BITS', DEFAULT_BITS) if any(a.arg == 'bmp' for a in sa) else (None,)
    kinds = {k: v for k, v in kinds.items() if k != 'BITS'}
    for a in sa:
        k = declared(mod, name, a)
        if k and a.arg not in kinds:
            kinds[a.arg] = k
    for more in [{}] + dispatched(spec, sa):
        for bits in bl:
            tag = label + (' %d-bit' % bits if bits else '') + ''.join(' %s: %s' % x for x in more.items())
            kk = dict(kinds, **more)
            depth = [a.arg for a in sa if kk.get(a.arg) == 'int 1 24' and a.arg in BITS]
            cases = [builder(sa, bits, dict(kk, **{depth[0]: v})) for v in DEFAULT_BITS] if len(depth) == 1 else None
            agree(rep, prog, rule, name, src, builder(sa, bits, kk), tag, cases=cases,
                  opaque=M.names - {name} - {x[1] for x in lost} - EXPAND, effects=eff, mod=mod2, decorate=True, specopaque={name})


def dispatched(spec, sa):
    """further kinds of a parameter the function tells apart by type(p) == kind"""
    out = []
    for a in sa:
        ks = [c.comparators[0].id for c in ast.walk(spec) if isinstance(c, ast.Compare) and isinstance(c.left, ast.Call) and
              isinstance(c.left.func, ast.Name) and c.left.func.id == 'type' and len(c.left.args) == 1 and
              isinstance(c.left.args[0], ast.Name) and c.left.args[0].id == a.arg and isinstance(c.comparators[0], ast.Name)]
        if not ks or a.annotation is None or ast.unparse(a.annotation) != 'int':
            continue
        if 'list' in ks:
            out.append({a.arg: 'list'})
        elif ks == ['int']:
            out.append({a.arg: 'real'})
    return out


def unbound(prog, mod, node):
    """names the function reads that neither it, its module nor Python defines"""
    have = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            have.add(x.id)
        elif isinstance(x, ast.arg):
            have.add(x.arg)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            have.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            have.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            have |= {(a.asname or a.name).split('.')[0] for a in x.names}
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            have.add(x.name)
    out = set()
    # annotations of local names are never evaluated
    skip = {id(y) for x in ast.walk(node) if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)
            for y in ast.walk(x.annotation)}
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in skip and x.id not in have and not hasattr(builtins, x.id) \
                and x.id not in ('__name__', '__file__', '__doc__') and prog.resolve(mod, x.id) is None \
                and not bound_in_module(prog.mods[mod], x.id):
            out.add(x.id)
    return out


def bound_in_module(m, name):
    return name in m.names or '*' in m.names or any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(m.tree))


def missing(M, prog, key):
    """modelled helpers the model uses that the package no longer defines (deepest first)"""
    out = []

    def go(k):
        for x in ast.walk(M.fn[k]):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if prog.resolve(k[0], x.id) is None and (k[0], x.id) in M.fn and (k[0], x.id) not in out:
                    go((k[0], x.id))
                    out.append((k[0], x.id))
    go(key)
    return [k for k in out if k != key]


def same_value(prog, mod, a, b):
    it = Interp(prog, Policy())
    st = State()
    it.modstack.append(mod)
    fid = it.fresh('f')
    st.frames[fid] = {}
    it.frame, it.parent = fid, {fid: None}
    try:
        return it.reify(it.ev(a, st), st) is it.reify(it.ev(b, st), st)
    except Unsupported:
        return True
