"""C20: every name, call and message the package uses exists and fits.
name: every name read in a function or at module level is bound somewhere visible.
import: every imported name exists in the module it is imported from.
arity: every call of a package function (also through a function-valued parameter,
followed through the call graph) supplies arguments the function accepts.
unbound-local: no local is read where no assignment can have happened before.
unbound-at-depth: the same with the tests on the bit depth (of an image or of a parameter) decided for
each of the depths 1, 4, 8 and 24.
message: message keys exist; %-formats get as many values as they have fields."""
import ast
import builtins
import importlib
import operator
import re
import sys

from ..loader import where
from ..model import unbound, BITS

OPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
       ast.GtE: operator.ge, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b, ast.Add: operator.add,
       ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.BitAnd: operator.and_,
       ast.RShift: operator.rshift, ast.LShift: operator.lshift, ast.Not: operator.not_, ast.USub: operator.neg}
FIELD = re.compile(r'%(?:\([^)]*\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')
STR = (ast.Constant,)


def functions(tree):
    """every function of a module with its enclosing functions"""
    out = []

    def go(n, outer):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                out.append((c, outer))
                go(c, outer + [c])
            else:
                go(c, outer)
    go(tree, [])
    return out


def fields(s):
    n = 0
    for m in FIELD.finditer(s):
        if m.group(3) == '%':
            continue
        n += 1 + (m.group(1) == '*') + (m.group(2) == '*')
    return n


class Sig:
    def __init__(self, a, name, skip=0):
        pos = a.posonlyargs + a.args
        self.pos = [x.arg for x in pos][skip:]
        self.posonly = {x.arg for x in a.posonlyargs}
        self.req = max(0, len(pos) - len(a.defaults) - skip)
        self.var = a.vararg is not None
        self.kwvar = a.kwarg is not None
        self.kwo = [x.arg for x in a.kwonlyargs]
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.name = name

    def reject(self, npos, kws, star, kwstar):
        """reason the call does not fit, or None"""
        if npos > len(self.pos) and not self.var:
            return '%d positional arguments for %s, which takes %d' % (npos, self.name, len(self.pos))
        for k in kws:
            if k in self.pos[:npos] and not star:
                return 'argument %s of %s given twice' % (k, self.name)
            if k not in self.pos + self.kwo and not self.kwvar or k in self.posonly:
                return '%s has no parameter %s' % (self.name, k)
        if not star and not kwstar:
            miss = [p for p in self.pos[npos:self.req] if p not in kws]
            if miss:
                return '%s needs %s' % (self.name, ', '.join(miss))
        if not kwstar:
            miss = [p for p in self.kwreq if p not in kws]
            if miss:
                return '%s needs %s' % (self.name, ', '.join(miss))
        return None


def shape(c):
    pos = 0
    star = False
    for a in c.args:
        if isinstance(a, ast.Starred):
            n = None
            if isinstance(a.value, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in a.value.elts):
                n = len(a.value.elts)
            if n is None:
                star = True
            else:
                pos += n
        else:
            pos += 1
    return pos, tuple(k.arg for k in c.keywords if k.arg), star, any(k.arg is None for k in c.keywords)


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.calls = {}          # (mod, name, param) -> set of shapes it is called with

    def locals_of(self, fn):
        have = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        have |= {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    have.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    have.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    have.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    have |= {(y.asname or y.name).split('.')[0] for y in x.names}
        return have

    def target(self, mod, e, bound):
        """(mod, node) of the package function an expression names"""
        if isinstance(e, ast.Name) and e.id not in bound:
            r = self.prog.resolve(mod, e.id)
            hop = 0
            while r and r[0] == 'val' and isinstance(r[2], ast.Name) and hop < 5:      # alias = function
                r = self.prog.resolve(r[1], r[2].id)
                hop += 1
            if r and r[0] == 'def':
                return r[1], r[2]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id not in bound:
            r = self.prog.resolve(mod, e.value.id)
            if r and r[0] == 'mod':
                r = self.prog.resolve(r[1], e.attr)
                if r and r[0] == 'def':
                    return r[1], r[2]
        return None

    def scope(self, mod):
        """(function, names bound by it and its enclosing functions) and the module level"""
        tree = self.prog.mods[mod].tree
        for fn, outer in functions(tree):
            b = set()
            for f in outer + [fn]:
                b |= self.locals_of(f)
            yield fn, outer, b

    def owned_calls(self, fn):
        """calls in fn that are not inside a nested function"""
        todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Call):
                yield n
            todo.extend(ast.iter_child_nodes(n))

    def module_calls(self, mod):
        todo = list(self.prog.mods[mod].tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                todo.extend(n.args.defaults)
                if not isinstance(n, ast.Lambda):
                    todo.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Call):
                yield n
            todo.extend(ast.iter_child_nodes(n))

    def argmap(self, node, call):
        """parameter name -> argument expression"""
        if any(isinstance(a, ast.Starred) for a in call.args):
            n = [i for i, a in enumerate(call.args) if isinstance(a, ast.Starred)][0]
        else:
            n = len(call.args)
        pos = [a.arg for a in node.args.posonlyargs + node.args.args]
        m = dict(zip(pos, call.args[:n]))
        for k in call.keywords:
            if k.arg:
                m[k.arg] = k.value
        return m

    def run(self):
        prog, rep = self.prog, self.rep
        # names and imports
        for mod in sorted(prog.mods):
            m = prog.mods[mod]
            bad = 0
            for k, n in [(k, b[1]) for k, b in m.names.items() if b[0] == 'def']:
                u = unbound(prog, mod, n)
                if u:
                    rep.bad('name', '%s.%s %s' % (mod, k, ', '.join(sorted(u))), where(mod, n), 'nothing defines ' + ', '.join(sorted(u)))
                else:
                    rep.ok('name', '%s.%s' % (mod, k), where(mod, n))
            top = set(m.names)
            skip = {id(y) for x in ast.walk(m.tree) if isinstance(x, ast.AnnAssign) for y in ast.walk(x.annotation)} if False else set()
            seen = set()
            todo = list(m.tree.body)
            comp = set()
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    todo += x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d] + \
                        [a.annotation for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs if a.annotation] + ([x.returns] if x.returns else [])
                    continue
                if isinstance(x, ast.Lambda):
                    todo += x.args.defaults
                    continue
                if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in x.generators:
                        comp |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                if isinstance(x, ast.ExceptHandler) and x.name:
                    comp.add(x.name)
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in skip:
                    seen.add((x.id, x.lineno))
                todo.extend(ast.iter_child_nodes(x))
            for n, line in sorted(seen):
                if n not in top and n not in comp and not hasattr(builtins, n) and n not in ('__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__'):
                    rep.bad('name', '%s module level %s' % (mod, n), '%s:%d' % (mod, line), 'nothing defines ' + n)
                    bad += 1
            self.imports(mod, m)
            if not bad:
                rep.ok('name', '%s module level' % mod)
        # how function-valued parameters are called
        self.higher_order()
        for mod in sorted(prog.mods):
            items = [(fn, outer, b, self.owned_calls(fn)) for fn, outer, b in self.scope(mod)]
            items.append((None, [], set(), self.module_calls(mod)))
            for fn, outer, b, calls in items:
                top = outer[0] if outer else fn
                owner = '%s.%s' % (mod, getattr(top, 'name', 'module level') if top is not None else 'module level')
                for c in calls:
                    self.one_call(mod, owner, b, c)
        # nested functions called by name
        for mod in sorted(prog.mods):
            for fn, outer, b in self.scope(mod):
                if isinstance(fn, ast.Lambda):
                    continue
                inner = {}
                for s in ast.walk(fn):
                    if isinstance(s, ast.FunctionDef) and s is not fn:
                        inner.setdefault(s.name, []).append(s)
                for s in ast.walk(fn):
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Lambda):
                        inner.setdefault(s.targets[0].id, []).append(s.value)
                stores = {}
                for s in ast.walk(fn):
                    if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                        stores[s.id] = stores.get(s.id, 0) + 1
                for c in ast.walk(fn):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in inner:
                        k = inner[c.func.id]
                        if len(k) == 1 and stores.get(c.func.id, 0) <= (1 if isinstance(k[0], ast.Lambda) else 0) and not getattr(k[0], 'decorator_list', None):
                            w = Sig(k[0].args, c.func.id).reject(*shape(c))
                            if w:
                                rep.bad('arity', '%s.%s calls %s' % (mod, fn.name, c.func.id), '%s:%d' % (mod, c.lineno), w)
                            else:
                                rep.ok('arity', '%s.%s calls %s' % (mod, fn.name, c.func.id))
        self.formats()
        self.locals_()

    def imports(self, mod, m):
        rep = self.rep
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                base = (x.module or '').split('.')[0]
                if x.level or base == 'pythonbmp':
                    tm = (x.module or '')
                    if tm.startswith('pythonbmp'):
                        tm = tm[len('pythonbmp'):].lstrip('.')
                    for a in x.names:
                        if a.name == '*':
                            continue
                        if tm == '':
                            ok = a.name in self.prog.mods or a.name in self.prog.mods.get('__init__', m).names
                        else:
                            ok = tm in self.prog.mods and self.prog.resolve(tm, a.name) is not None
                        (rep.ok if ok else rep.bad)('import', '%s imports %s.%s' % (mod, tm, a.name), '%s:%d' % (mod, x.lineno),
                                                    '' if ok else 'module %s has no %s' % (tm, a.name))
                elif base in sys.stdlib_module_names:
                    try:
                        s = importlib.import_module(x.module)
                    except ImportError:
                        rep.bad('import', '%s imports %s' % (mod, x.module), '%s:%d' % (mod, x.lineno), 'no module ' + x.module)
                        continue
                    for a in x.names:
                        ok = a.name == '*' or hasattr(s, a.name)
                        if not ok:
                            try:
                                importlib.import_module(x.module + '.' + a.name)
                                ok = True
                            except ImportError:
                                pass
                        (rep.ok if ok else rep.bad)('import', '%s imports %s.%s' % (mod, x.module, a.name), '%s:%d' % (mod, x.lineno),
                                                    '' if ok else '%s has no %s' % (x.module, a.name))

    def higher_order(self):
        prog = self.prog
        edges = []
        for mod in prog.mods:
            for k, n in [(k, b[1]) for k, b in prog.mods[mod].names.items() if b[0] == 'def']:
                ps = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
                # a parameter that is rebound is not followed
                ps -= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for f in ast.walk(n):
                    if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f is not n:
                        ps -= {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
                if n.decorator_list and not all(isinstance(d, ast.Name) for d in n.decorator_list):
                    pass
                for c in ast.walk(n):
                    if not isinstance(c, ast.Call):
                        continue
                    if isinstance(c.func, ast.Name) and c.func.id in ps:
                        self.calls.setdefault((mod, n.name, c.func.id), {})[shape(c)] = (mod, c.lineno)
                    t = self.target(mod, c.func, self.locals_of(n))
                    if t:
                        for q, a in self.argmap(t[1], c).items():
                            if isinstance(a, ast.Name) and a.id in ps:
                                edges.append(((mod, n.name, a.id), (t[0], t[1].name, q)))
        change = True
        while change:
            change = False
            for a, b in edges:
                for s, w in list(self.calls.get(b, {}).items()):
                    d = self.calls.setdefault(a, {})
                    if s not in d:
                        d[s] = w
                        change = True

    def one_call(self, mod, owner, bound, c):
        rep = self.rep
        t = self.target(mod, c.func, bound)
        if not t:
            return
        tm, tn = t
        cons = '%s calls %s' % (owner, tn.name)
        w = '%s:%d' % (mod, c.lineno)
        why = Sig(tn.args, tn.name).reject(*shape(c))
        if why:
            rep.bad('arity', cons, w, why)
        else:
            rep.ok('arity', cons, w)
        for p, a in self.argmap(tn, c).items():
            sh = self.calls.get((tm, tn.name, p))
            if not sh:
                continue
            sig = None
            if isinstance(a, ast.Lambda):
                sig = Sig(a.args, 'the function given')
            else:
                g = self.target(mod, a, bound)
                if g:
                    sig = Sig(g[1].args, g[1].name)
            if sig is None:
                continue
            for s, at in sorted(sh.items(), key=str):
                why = sig.reject(*s)
                if why:
                    rep.bad('arity', '%s passes %s to %s' % (owner, sig.name, tn.name), w, '%s (called at %s:%d)' % (why, at[0], at[1]))
                else:
                    rep.ok('arity', '%s passes %s to %s' % (owner, sig.name, tn.name), w)

    def table(self, mod, name):
        r = self.prog.resolve(mod, name)
        if r and r[0] == 'val' and isinstance(r[2], ast.Dict) and all(isinstance(k, ast.Constant) for k in r[2].keys):
            return {k.value: v for k, v in zip(r[2].keys, r[2].values)}
        return None

    def formats(self):
        rep, prog = self.rep, self.prog
        for mod in sorted(prog.mods):
            tree = prog.mods[mod].tree
            parents = {}
            owner = {}
            for n in tree.body:
                for x in ast.walk(n):
                    owner[x] = getattr(n, 'name', 'module level')
                    for c in ast.iter_child_nodes(x):
                        parents[c] = x
            for x in ast.walk(tree):
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                    r = prog.resolve(mod, x.value.id)
                    d = self.table(mod, x.value.id)
                    if d is None or (r and r[0] == 'val' and r[1] != 'messages'):
                        continue
                    w = '%s:%d' % (mod, x.lineno)
                    key = x.slice.value
                    cons = '%s.%s message %s' % (mod, owner.get(x), key)
                    if key not in d:
                        rep.bad('message', cons, w, 'there is no message ' + key)
                        continue
                    p = parents.get(x)
                    if not isinstance(d[key], ast.Constant):
                        continue
                    n = fields(d[key].value)
                    if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) and p.left is x:
                        self.fit(cons, w, n, p.right)
                    elif n and isinstance(p, ast.Call) and x in p.args:
                        rep.bad('message', cons, w, 'the message has %d fields and gets no values' % n)
                    else:
                        rep.ok('message', cons, w)
                elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
                    self.fit('%s.%s format %r' % (mod, owner.get(x), x.left.value[:20]), '%s:%d' % (mod, x.lineno), fields(x.left.value), x.right)

    def fit(self, cons, w, n, right):
        if isinstance(right, ast.Tuple):
            star = any(isinstance(e, ast.Starred) for e in right.elts)
            k = sum(not isinstance(e, ast.Starred) for e in right.elts)
            if star and k > n or not star and k != n:
                self.rep.bad('message', cons, w, 'the message has %d fields and gets %d values' % (n, k))
                return
        elif isinstance(right, (ast.Constant, ast.JoinedStr, ast.Attribute, ast.List)) and n != 1 or n == 0:
            self.rep.bad('message', cons, w, 'the message has %d fields and gets 1 value' % n)
            return
        self.rep.ok('message', cons, w)

    def locals_(self):
        """reads of a local that no assignment can precede (forward may-assign analysis)"""
        for mod in sorted(self.prog.mods):
            for k, fn in [(k, b[1]) for k, b in self.prog.mods[mod].names.items() if b[0] == 'def']:
                for f in [x for x in ast.walk(fn) if isinstance(x, ast.FunctionDef)]:
                    bad = never_assigned(f)
                    cons = '%s.%s' % (mod, fn.name) + ('' if f is fn else '.' + f.name)
                    for n, line in bad:
                        self.rep.bad('unbound-local', cons + ' ' + n, '%s:%d' % (mod, line), '%s is read before any assignment to it' % n)
                    if not bad:
                        self.rep.ok('unbound-local', cons, where(mod, f))
                    for key, val, fold in depth_cases(f):
                        for n, line in never_assigned(f, fold):
                            bad.append((n, line))
                            self.rep.bad('unbound-at-depth', '%s %s' % (cons, n), '%s:%d' % (mod, line),
                                         '%s is read before any assignment to it when %s is %d' % (n, key, val))
                        if not bad:
                            self.rep.ok('unbound-at-depth', '%s %s=%d' % (cons, key, val), where(mod, f))


def depth_cases(f):
    """(what, depth, folding of the tests under it) for every bit depth the function branches on"""
    if any('bit' in ast.unparse(d) for d in f.decorator_list):
        return
    stores, keys = {}, {}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            stores[x.id] = stores.get(x.id, 0) + 1
        elif isinstance(x, ast.arg):
            stores[x.arg] = stores.get(x.arg, 0) + 1

    def depth(e):
        return isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Name) and e.slice.id == 'bmpcolorbits' and \
            isinstance(e.value, ast.Name) and stores.get(e.value.id, 0) == 1
    for a in f.args.args:
        if a.arg in BITS and stores[a.arg] == 1:
            keys[a.arg] = {a.arg}
    for x in ast.walk(f):
        if depth(x) and isinstance(x.ctx, ast.Load):
            keys.setdefault(ast.unparse(x), set()).add(ast.unparse(x))
    for x in ast.walk(f):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and depth(x.value) \
                and stores[x.targets[0].id] == 1:
            keys[ast.unparse(x.value)].add(x.targets[0].id)
    for key, names in sorted(keys.items()):
        for v in (1, 4, 8, 24):
            yield key, v, (lambda t, names=names, v=v: fold(t, names, v))


def fold(t, names, v):
    """the value of a test when every expression of names is v; None when it depends on more"""
    def val(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return [val(x) for x in e.elts]
        if isinstance(e, (ast.Name, ast.Subscript)) and ast.unparse(e) in names:
            return v
        if isinstance(e, ast.UnaryOp):
            return OPS[type(e.op)](val(e.operand))
        if isinstance(e, ast.BinOp):
            return OPS[type(e.op)](val(e.left), val(e.right))
        if isinstance(e, ast.Compare):
            l = val(e.left)
            for o, r in zip(e.ops, e.comparators):
                r = val(r)
                if not OPS[type(o)](l, r):
                    return False
                l = r
            return True
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            some = None
            for x in e.values:
                try:
                    if bool(val(x)) == stop:
                        return stop
                except Exception as y:
                    some = y
            if some:
                raise some
            return not stop
        raise KeyError
    try:
        return bool(val(t))
    except Exception:
        return None


def never_assigned(f, fold=None):
    glob = set()
    for x in ast.walk(f):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            glob |= set(x.names)
    par = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    par |= {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
    loc = set()

    def own(n, fun):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    fun(c)
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in c.generators[:1]:
                    fun(g.iter)
                    own(g.iter, fun)
                continue
            fun(c)
            own(c, fun)

    def addloc(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.FunctionDef):
            loc.add(n.name)
    own(f, addloc)
    loc -= glob
    loc -= par
    out = []

    def reads(e, have):
        if e is None:
            return
        def see(n):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in have:
                out.append((n.id, n.lineno))
        see(e)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                have.add(n.target.id)
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if not isinstance(e, ast.Lambda):
                reads(e.generators[0].iter, have)
            return
        own(e, see)

    def stored(t, have):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                have.add(n.id)

    def block(ss, have):
        """True when its end is never reached"""
        for s in ss:
            if stmt(s, have) and fold:
                return True
        return False

    def stmt(s, have):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            have.add(s.name)
            return
        if isinstance(s, ast.Assign):
            reads(s.value, have)
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    reads(t, have)
                stored(t, have)
        elif isinstance(s, ast.AugAssign):
            reads(s.value, have)
            if isinstance(s.target, ast.Name):
                if s.target.id in loc and s.target.id not in have:
                    out.append((s.target.id, s.lineno))
            else:
                reads(s.target, have)
            stored(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            reads(s.value, have)
            if s.value is not None:
                stored(s.target, have)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            reads(s.iter, have)
            stored(s.target, have)
            block(s.body, have)
            block(s.orelse, have)
        elif isinstance(s, ast.While):
            reads(s.test, have)
            block(s.body, have)
            block(s.orelse, have)
        elif isinstance(s, ast.If):
            reads(s.test, have)
            v = fold(s.test) if fold else None
            if v is not None:
                return block(s.body if v else s.orelse, have)
            a, b = set(have), set(have)
            da = block(s.body, a)
            db = block(s.orelse, b)
            have |= a | b
            return da and db
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                reads(i.context_expr, have)
                if i.optional_vars is not None:
                    stored(i.optional_vars, have)
            return block(s.body, have)
        elif isinstance(s, ast.Try):
            block(s.body, have)
            for h in s.handlers:
                if h.name:
                    have.add(h.name)
                block(h.body, have)
            block(s.orelse, have)
            block(s.finalbody, have)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                have.add((a.asname or a.name).split('.')[0])
        elif isinstance(s, ast.Match):
            reads(s.subject, have)
            for c in s.cases:
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        have.add(n.name)
                block(c.body, have)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    reads(c, have)
            return isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break))
    block(f.body, set(par))
    # a read in a loop may follow an assignment later in the same loop
    if any(isinstance(x, (ast.For, ast.While, ast.AsyncFor)) for x in ast.walk(f)):
        inloop = {}
        for x in ast.walk(f):
            if isinstance(x, (ast.For, ast.While)):
                names = {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                lines = {y.lineno for y in ast.walk(x) if hasattr(y, 'lineno')}
                inloop[x] = (names, lines)
        # the first iteration still reads it unassigned: only conditional reads are excused
        keep = []
        for n, line in out:
            excused = False
            for x, (names, lines) in inloop.items():
                if n in names and line in lines:
                    for y in ast.walk(x):
                        if isinstance(y, ast.If) and any(getattr(z, 'lineno', 0) == line for b in y.body + y.orelse for z in ast.walk(b)):
                            excused = True
            if not excused:
                keep.append((n, line))
        return keep
    return out


def check(prog, rep):
    rep.floor = 2500
    Check(prog, rep).run()
