"""Parse the current tree of the package and resolve module level names."""
import ast
import builtins
import os
import hashlib

REPO = os.environ.get('BMPCHECK_REPO', '/repo')
PKG = 'pythonbmp'


class Broken(Exception):
    """analysis cannot be carried out (missing anchor, unparsable source)"""


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, 'rb') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.names = {}      # name -> binding
        self.stmts = []
        for node in self.tree.body:
            self._stmt(node)
        for node in self.tree.body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._lift(node)

    def _lift(self, f):
        """imports inside functions, as if made at module level"""
        own = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        own |= {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
        for n in ast.walk(f):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Import, ast.ImportFrom)) and not any(a.name == '*' for a in s.names):
                        names = [a.asname or a.name.split('.')[0] for a in s.names]
                        keep = {k: self.names[k] for k in names if k in self.names}
                        if own & set(names):
                            continue
                        self._stmt(s)
                        if any(self.names[k] != v for k, v in keep.items()):
                            self.names.update(keep)
                            continue
                        b[i] = ast.copy_location(ast.Pass(), s)

    def _bind(self, name, b):
        self.names[name] = b

    def _stmt(self, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self._bind(node.name, ('def', node))
        elif isinstance(node, ast.ClassDef):
            self._bind(node.name, ('class', node))
        elif isinstance(node, ast.Import):
            for a in node.names:
                n = a.asname or a.name.split('.')[0]
                self._bind(n, ('extmod', a.name if a.asname else a.name.split('.')[0]))
        elif isinstance(node, ast.ImportFrom):
            mod = node.module or ''
            for a in node.names:
                n = a.asname or a.name
                if node.level or mod.split('.')[0] == PKG:
                    m = mod
                    if m.startswith(PKG):
                        m = m[len(PKG):].lstrip('.')
                    if m == '':
                        self._bind(n, ('mod', a.name))
                    else:
                        self._bind(n, ('from', m, a.name))
                else:
                    self._bind(n, ('ext', mod, a.name))
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                self._target(t, node.value)
            self.stmts.append(node)
        elif isinstance(node, ast.AnnAssign):
            if node.value is not None:
                self._target(node.target, node.value)
                self.stmts.append(node)
            elif isinstance(node.target, ast.Name) and node.target.id not in self.names:
                self._bind(node.target.id, ('declared', node))
        else:
            self.stmts.append(node)
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in self.names:
                    self._bind(n.id, ('dyn', node))
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._stmt(n)

    def _target(self, t, value):
        if isinstance(t, ast.Name):
            if t.id in self.names and self.names[t.id][0] in ('val', 'dyn'):
                self._bind(t.id, ('dyn', value))
            else:
                self._bind(t.id, ('val', value))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                if isinstance(e, ast.Name):
                    self._bind(e.id, ('dyn', value))


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        d = os.path.join(self.repo, PKG)
        if not os.path.isdir(d):
            raise Broken('package directory missing: ' + d)
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.py'):
                self._load(fn[:-3], os.path.join(d, fn))
        p = os.path.join(self.repo, 'mspaint.py')
        if os.path.exists(p):
            self._load('mspaint', p)

    def _load(self, name, path):
        try:
            self.mods[name] = Module(name, path)
        except SyntaxError as e:
            raise Broken('cannot parse %s: %s' % (path, e))

    def resolve(self, mod, name, seen=()):
        """-> (kind, ...) : ('def', modname, node) ('val', modname, expr, name)
        ('ext', extmod, attr) ('extmod', name) ('mod', name) ('builtin', name) or None"""
        m = self.mods.get(mod)
        if m is None or (mod, name) in seen:
            return None
        b = m.names.get(name)
        if b is None:
            if hasattr(builtins, name):
                return ('builtin', name)
            if name in ('__name__', '__file__', '__doc__'):
                return ('dunder', mod, name)
            return None
        k = b[0]
        if k == 'from':
            if b[1] not in self.mods:
                return None
            r = self.resolve(b[1], b[2], seen + ((mod, name),))
            if r and r[0] == 'builtin' and b[2] not in self.mods[b[1]].names:
                return None
            return r
        if k == 'def':
            return ('def', mod, b[1])
        if k == 'class':
            return ('class', mod, b[1])
        if k == 'val':
            return ('val', mod, b[1], name)
        if k in ('dyn', 'declared'):
            return (k, mod, b[1], name)
        if k == 'ext':
            return ('ext', b[1], b[2])
        if k == 'extmod':
            return ('extmod', b[1])
        if k == 'mod':
            return ('mod', b[1])
        return None

    def funcs(self, mod=None):
        """all module level functions (modname, node)"""
        for mn, m in self.mods.items():
            if mod is None or mn == mod:
                for n, b in m.names.items():
                    if b[0] == 'def':
                        yield mn, b[1]

    def func(self, mod, name):
        r = self.resolve(mod, name)
        if not r or r[0] != 'def':
            raise Broken('function %s.%s not found' % (mod, name))
        return r[1], r[2]

    def find(self, name):
        """unique module level function by name across the package (BITMAPlib first)"""
        for mn in ['BITMAPlib'] + list(self.mods):
            if mn in self.mods:
                r = self.resolve(mn, name)
                if r and r[0] == 'def':
                    return r[1], r[2]
        raise Broken('function %s not found in the package' % name)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.mods):
            h.update(n.encode() + b'\0' + self.mods[n].src + b'\0')
        return h.hexdigest()


def where(mod, node):
    return '%s.py:%d' % (mod if mod == 'mspaint' else PKG + '/' + mod, getattr(node, 'lineno', 0))


# ---------------------------------------------------------------- results of functions
def own(node):
    """statements and expressions of a function, nested functions left out"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def returned(node):
    """returned expressions; None for a bare return; ['yield'] of a generator"""
    out = []
    for n in own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return ['yield']
        if isinstance(n, ast.Return):
            out.append(n.value)
    return out


def isnone(e):
    return e is None or isinstance(e, ast.Constant) and e.value is None


class Results:
    """what can be told about the results of package functions from their return statements"""

    def __init__(self, prog):
        self.prog, self.voids, self.lens = prog, {}, {}

    def callee(self, mod, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            r = self.prog.resolve(mod, e.func.id)
            if r and r[0] == 'def':
                return r[1], e.func.id

    def void(self, mod, name):
        """the function returns None whenever it returns"""
        r = self.prog.resolve(mod, name)
        if not r or r[0] != 'def':
            return False
        k = (r[1], name)
        if k not in self.voids:
            self.voids[k] = False               # recursion: nothing is claimed
            self.voids[k] = self._void(r[1], r[2])
        return self.voids[k]

    def _void(self, mod, node):
        return all(self.transparent(mod, d) for d in node.decorator_list) and self._voids(mod, node)

    def _voids(self, mod, node):
        local = {a.arg for a in node.args.args + node.args.posonlyargs + node.args.kwonlyargs}
        local |= {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        local |= {n.name for n in ast.walk(node) if isinstance(n, ast.FunctionDef)}
        for e in returned(node):
            if e == 'yield':
                return False
            if isnone(e):
                continue
            c = self.callee(mod, e)
            if not c or c[1] in local or not self.void(*c):
                return False
        return True

    def transparent(self, mod, d):
        """a decorator whose wrapper returns None or the result of the function it wraps"""
        if not isinstance(d, ast.Name):
            return False
        r = self.prog.resolve(mod, d.id)
        if not r or r[0] != 'def' or len(r[2].args.args) != 1 or r[2].decorator_list:
            return False
        f = r[2].args.args[0].arg
        inner = {n.name: n for n in r[2].body if isinstance(n, ast.FunctionDef)}
        for e in returned(r[2]):
            if isinstance(e, ast.Name) and e.id == f:
                continue
            if not (isinstance(e, ast.Name) and e.id in inner):
                return False
            g = inner[e.id]
            if not all(isinstance(x, ast.Call) and ast.unparse(x.func) in ('wraps', 'functools.wraps') for x in g.decorator_list):
                return False
            for x in returned(g):
                if x == 'yield':
                    return False
                if not (isnone(x) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == f):
                    return False
        return True

    def length(self, mod, name):
        """kind and number of elements of the returned list or tuple, or None"""
        r = self.prog.resolve(mod, name)
        if not r or r[0] != 'def' or r[2].decorator_list:
            return None
        k = (r[1], name)
        if k not in self.lens:
            self.lens[k] = None
            ns = set()
            es = returned(r[2])
            for e in es:
                ns.add(self._len(r[1], r[2], e))
            last = r[2].body[-1]
            self.lens[k] = ns.pop() if es and len(ns) == 1 and isinstance(last, ast.Return) else None
        return self.lens[k]

    def _len(self, mod, node, e):
        if isinstance(e, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return 'list' if isinstance(e, ast.List) else 'tuple', len(e.elts)
        if isinstance(e, ast.IfExp):
            a, b = self._len(mod, node, e.body), self._len(mod, node, e.orelse)
            return a if a == b else None
        c = self.callee(mod, e)
        if c and c[1] not in {a.arg for a in node.args.args}:
            return self.length(*c)
        return None
