"""Interprocedural may-mutate / may-alias / implicit-effect summaries.

Flow sensitive inside a function (branches joined, loops iterated to a fixed point),
bottom-up over the call graph to a fixed point; callable parameters are kept as
'higher order calls' and instantiated where a caller passes a known function.

A value is (self origins, element origins, functions).  An origin is a parameter name,
'G:mod.name' (module level object) or 'J:key' (result of a call is fresh unless its
summary says it may alias an argument)."""
import ast
import builtins

from .loader import PKG

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault',
            'popitem', 'fromfile', 'frombytes', 'fromlist', 'byteswap', 'add', 'discard', '__setitem__', '__delitem__'}
READERS = {'index', 'count', 'tolist', 'tobytes', 'copy', 'keys', 'values', 'items', 'get', 'format', 'join', 'split', 'isdisjoint',
           'union', 'intersection', 'difference'}
FLAT2 = {'list[list[%s]]' % t for t in ('int', 'float', 'Number', 'number', 'int, int', 'float, float', 'int, int, int', 'float, float, float')}
IMMUT = {'int', 'float', 'str', 'bool', 'Number', 'complex', 'bytes', 'real', 'tuple[int]', 'None'}
RNG = {'random'}
CLOCK = {('time', 'process_time_ns'), ('time', 'time'), ('time', 'perf_counter'), ('time', 'monotonic'),
         ('time', 'process_time'), ('time', 'time_ns'), ('time', 'perf_counter_ns'), ('time', 'monotonic_ns'),
         ('datetime', 'datetime'), ('datetime', 'date')}
FSWRITE = {('os', 'remove'), ('os', 'unlink'), ('os', 'rename'), ('os', 'replace'), ('os', 'mkdir'), ('os', 'makedirs'),
           ('os', 'rmdir'), ('os', 'removedirs'), ('os', 'truncate'), ('os', 'symlink'), ('os', 'link'), ('os', 'chmod'),
           ('os', 'utime'), ('os', 'open'), ('os', 'write')}
ENV = {('os', 'environ'), ('os', 'getenv'), ('os', 'urandom'), ('os', 'getpid'), ('sys', 'argv'), ('os', 'listdir')}
PURE_SEQ = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'dict', 'iter', 'enumerate', 'zip', 'map', 'filter'}

HDR = 1078
RESIZE = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'fromfile', 'frombytes', 'fromlist', '__delitem__'}
E0 = frozenset()


def sub(o):
    """origin of the elements of what comes from o: p, p[], p[][] (and deeper)"""
    return o if o.startswith('G:') or o.endswith('[][]') else o + '[]'


def base(o):
    while o.endswith('[]'):
        o = o[:-2]
    return o


class V:
    """s: what the value may be, e: what its elements may be, d: what lies deeper"""
    __slots__ = ('s', 'e', 'f', 'seq', 'd')

    def __init__(self, s=E0, e=E0, f=E0, seq=False, d=None):
        self.s, self.e, self.f, self.seq = frozenset(s), frozenset(e), frozenset(f), seq
        self.d = frozenset(map(sub, self.e)) if d is None else frozenset(d)

    def __or__(self, o):
        return V(self.s | o.s, self.e | o.e, self.f | o.f, self.seq or o.seq, self.d | o.d)

    def __eq__(self, o):
        return (self.s, self.e, self.f, self.seq, self.d) == (o.s, o.e, o.f, o.seq, o.d)

    def all(self):
        return self.s | self.e | self.d

    def elem(self):
        return V(self.e, self.d, self.f, d=self.d | frozenset(map(sub, self.d)))

    def wrap(self, seq=False):
        """a fresh container of it"""
        return V(E0, self.s, self.f, seq, self.e | self.d)

    def fresh(self, seq=False):
        """a fresh container of the same elements"""
        return V(E0, self.e, self.f, seq, self.d)

    def deep(self):
        """a fresh container of fresh containers of the elements"""
        return V(E0, E0, self.f, d=self.e | self.d)

    def at(self, o):
        """what the origin o of a parameter bound to this value stands for"""
        return self.s if not o.endswith('[]') else self.e if not o.endswith('[][]') else self.d


BOT = V()
BTYPES = frozenset('B:' + n for n in ('list', 'dict', 'set', 'bytearray')) | {'X:array.array'}
# functions outside the package that modify an argument
MUTARG = {('random', 'shuffle'): 0, ('heapq', 'heapify'): 0, ('heapq', 'heappush'): 0, ('heapq', 'heappop'): 0, ('heapq', 'heapreplace'): 0,
          ('heapq', 'heappushpop'): 0, ('struct', 'pack_into'): 1, ('bisect', 'insort'): 0, ('bisect', 'insort_left'): 0, ('bisect', 'insort_right'): 0,
          ('operator', 'setitem'): 0, ('operator', 'delitem'): 0, ('operator', 'iadd'): 0, ('operator', 'iconcat'): 0, ('operator', 'imul'): 0,
          ('operator', 'ixor'): 0, ('operator', 'ior'): 0, ('operator', 'iand'): 0, ('ctypes', 'memmove'): 0, ('ctypes', 'memset'): 0}


class Summary:
    def __init__(self):
        self.lev = {}        # origin with levels -> witness
        self.mut = {}        # origin -> (mod, node) witness
        self.ret = BOT       # origins the result may alias
        self.eff = {}        # effect tag -> (mod, node, via)
        self.ho = set()      # (callable parameter, tuple of arg origin frozensets, kwnames)
        self.calls = {}      # callee key -> node
        self.raw = {}        # (origin, 'size' | 'hdr' | 'at:param') -> witness: the store changes the length of the
        #                      object, or lies in the first HDR bytes, or at an offset given by a parameter

    def key(self):
        return (frozenset(self.lev), frozenset(self.raw), self.ret.s, self.ret.e, self.ret.d, self.ret.f, frozenset(self.eff), frozenset(self.ho))


def ann(n):
    return ast.unparse(n) if n is not None else ''


def immut(a):
    if a in IMMUT:
        return True
    return False


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        self.nodes = {}
        for mod, node in prog.funcs():
            self.nodes['%s.%s' % (mod, node.name)] = (mod, node)
        self.sums = {k: Summary() for k in self.nodes}
        self.rounds = 0
        ch = True
        while ch and self.rounds < 12:
            ch = False
            self.rounds += 1
            for k, (mod, node) in self.nodes.items():
                s = Analyse(self, mod, node, k).run()
                if s.key() != self.sums[k].key():
                    ch = True
                self.sums[k] = s

    def __call__(self, mod, name):
        """effects callable for the interpreter: names of mutated parameters and
        auxiliary resources of an opaque call"""
        r = self.prog.resolve(mod, name)
        if not r or r[0] != 'def':
            return set()
        s = self.sums.get('%s.%s' % (r[1], r[2].name))
        if s is None:
            return set()
        out = {o for o in s.mut if not o.startswith('G:')}
        names = [a.arg for a in r[2].args.posonlyargs + r[2].args.args]
        for (p, args, kws) in s.ho:
            # an unknown callable may modify what it is handed
            for a in args:
                out |= {b for b in map(base, a) if b in names}
        for e in s.eff:
            if e == 'rng':
                out.add('$rng')
            elif e == 'clock':
                out.add('$clock')
            elif e in ('fsw', 'fsr'):
                out.add('$fs')
            elif e == 'io':
                out.add('$io')
        if 'fsw' in s.eff or s.eff.get('fsr'):
            out.add('$fs')
        return out

    def isobject(self, q):
        mod, _, name = q.rpartition('.')
        r = self.prog.resolve(mod, name)
        return bool(r) and r[0] in ('val', 'dyn') and isinstance(r[2] if len(r) > 2 else None, ast.Call)

    def summary(self, mod, name):
        r = self.prog.resolve(mod, name)
        return self.sums.get('%s.%s' % (r[1], r[2].name)) if r and r[0] == 'def' else None


class Analyse:
    def __init__(self, eff, mod, node, key, outer=None, locals_=None):
        self.E, self.mod, self.node, self.key = eff, mod, node, key
        self.S = Summary()
        self.annot = {}
        self.local = {}          # nested function name -> node
        self.globaldecl = set()
        self.depth = 0

    # ---- helpers
    def mutate(self, origins, node):
        for o in origins:
            self.S.lev.setdefault(o, (self.mod, node))
            self.S.mut.setdefault(base(o), (self.mod, node))
            if o.startswith('G:'):
                self.S.eff.setdefault('global:' + o[2:], (self.mod, node, ''))

    def rawstore(self, origins, kinds, node):
        for o in map(base, origins):
            for k in kinds:
                self.S.raw.setdefault((o, k), (self.mod, node))

    def where_(self, e, seen=()):
        """kinds of a store index: header constants and parameters it is made of"""
        if isinstance(e, ast.Slice):
            if e.lower is None:
                return {'hdr'}
            return self.where_(e.lower, seen)
        terms = self.addends(e)
        consts = [self.intconst(t) for t in terms]
        total = sum(c for c in consts if c is not None)
        named = any(c is not None and c < HDR and any(isinstance(x, ast.Name) for x in ast.walk(t)) for t, c in zip(terms, consts))
        rest = [t for t, c in zip(terms, consts) if c is None]
        if named or not rest:
            return {'hdr'} if total < HDR else set()
        if len(rest) == 1 and isinstance(rest[0], ast.Name) and total < HDR:
            x = rest[0].id
            if x in {a.arg for a in self.node.args.posonlyargs + self.node.args.args} and x not in self.stores():
                return {'at:' + x}
        return set()

    def addends(self, e, seen=()):
        """terms of a sum, through locals assigned once"""
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.addends(e.left, seen) + self.addends(e.right, seen)
        if isinstance(e, ast.Name) and e.id not in seen:
            d = self.stores().get(e.id)
            if d and len(d) == 1:
                return self.addends(d[0], seen + (e.id,))
            if d == [] and e.id not in {a.arg for a in self.node.args.args}:
                return []           # counts from the start of a range
        return [e]

    def stores(self):
        d = self.__dict__.get('_stores')
        if d is None:
            d = self._stores = {}
            for s in ast.walk(self.node):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            d.setdefault(t.id, []).append(s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    d.setdefault(s.target.id, []).append(s.value)
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    d.setdefault(s.target.id, [])
                elif isinstance(s, ast.For):
                    for t in ast.walk(s.target):
                        if isinstance(t, ast.Name):
                            d.setdefault(t.id, [])
        return d

    def intconst(self, e):
        if isinstance(e, ast.Constant):
            return e.value if type(e.value) is int else None
        if isinstance(e, ast.BinOp):
            a, b = self.intconst(e.left), self.intconst(e.right)
            if a is None or b is None:
                return None
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                        ast.LShift: lambda: a << b if b < 64 else None}.get(type(e.op), lambda: None)()
            except ValueError:
                return None
        if isinstance(e, ast.Name) and e.id not in self.stores():
            r = self.E.prog.resolve(self.mod, e.id)
            if r and r[0] == 'val' and isinstance(r[2], ast.Constant) and type(r[2].value) is int:
                return r[2].value
        return None

    def effect(self, tag, node, via=''):
        self.S.eff.setdefault(tag, (self.mod, node, via))

    def run(self):
        n = self.node
        env = {}
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            an = ann(a.annotation)
            self.annot[a.arg] = an
            if immut(an):
                env[a.arg] = BOT
            elif an in ('Callable', 'callable', 'FunctionType'):
                env[a.arg] = V(f={'P:' + a.arg})
            else:
                el = {sub(a.arg)}
                if an in ('array', 'list[int]', 'list[float]', 'list[str]', 'bmp') or a.arg == 'bmp':
                    el = set()
                deep = set() if an in FLAT2 else None
                seq = an.startswith('list') or an == 'array' or a.arg == 'bmp'
                f = {'P:' + a.arg} if not seq else set()
                env[a.arg] = V({a.arg}, el, f, seq, deep)
        if n.args.vararg:
            env[n.args.vararg.arg] = V(E0, {'*' + n.args.vararg.arg})
        if n.args.kwarg:
            env[n.args.kwarg.arg] = V(E0, {'**' + n.args.kwarg.arg})
        for d in n.decorator_list:
            self.decorator(d)
        self.body(n.body, env)
        return self.S

    def decorator(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        if not isinstance(d, ast.Name):
            return
        r = self.E.prog.resolve(self.mod, d.id)
        if r and r[0] == 'def':
            s = self.E.sums.get('%s.%s' % (r[1], r[2].name))
            if s:
                for e, w in s.eff.items():
                    self.S.eff.setdefault(e, (self.mod, self.node, 'decorator ' + d.id))
            for x in ast.walk(r[2]):
                if isinstance(x, ast.FunctionDef) and x is not r[2]:
                    # effects of the wrapper body (its calls of the wrapped function excluded)
                    sub = Analyse(self.E, r[1], x, None)
                    t = sub.run()
                    for e in t.eff:
                        self.S.eff.setdefault(e, (self.mod, self.node, 'decorator ' + d.id))

    # ---- statements
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k] | v if k in out else v
        return out

    def body(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, env)
            return env
        if t is ast.Assign:
            v = self.ev(s.value, env)
            for x in s.targets:
                self.assign(x, v, env, s)
            return env
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
            return env
        if t is ast.AugAssign:
            v = self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                cur = self.name(s.target.id, env)
                if s.target.id in self.globaldecl:
                    self.mutate({'G:%s.%s' % (self.mod, s.target.id)}, s)
                if (cur.seq or v.seq) and isinstance(s.op, (ast.Add, ast.Mult)):
                    self.mutate(cur.s, s)
                    self.rawstore(cur.s, ['size'], s)
                    env[s.target.id] = V(cur.s, cur.e | v.e, E0, True, cur.d | v.d)
            else:
                self.assign(s.target, v, env, s)
            return env
        if t is ast.Return:
            if s.value is not None:
                self.S.ret = self.S.ret | self.ev(s.value, env)
            return None
        if t is ast.If:
            self.ev(s.test, env)
            a = self.body(s.body, dict(env))
            b = self.body(s.orelse, dict(env))
            return self.join(a, b)
        if t in (ast.For, ast.While, ast.AsyncFor):
            out = env
            for _ in range(4):
                e = dict(out)
                if t is ast.While:
                    self.ev(s.test, e)
                else:
                    it = self.ev(s.iter, e)
                    self.assign(s.target, self.elem(it), e, s)
                r = self.body(s.body, e)
                self.lb = None
                n = self.join(out, r)
                # break/continue environments: body effects on names joined conservatively
                for k in _stored(s.body):
                    if k in e:
                        n[k] = n[k] | e[k] if k in n else e[k]
                if n == out:
                    break
                out = n
            return self.body(s.orelse, out) if s.orelse else out
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            self.local[s.name] = s
            env[s.name] = V(f={'L:' + s.name})
            # a nested function is analysed where it is defined (captured names resolve here)
            self.nested(s, env)
            return env
        if t is ast.Try:
            a = self.body(s.body, dict(env))
            base = self.join(env, a)
            outs = [self.body(s.orelse, a) if a is not None else None]
            for h in s.handlers:
                e = dict(base)
                if h.name:
                    e[h.name] = BOT
                outs.append(self.body(h.body, e))
            r = None
            for o in outs:
                r = self.join(r, o)
            if s.finalbody:
                f = self.body(s.finalbody, dict(r if r is not None else base))
                r = f if r is not None else None
            return r
        if t is ast.With:
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            return self.body(s.body, env)
        if t is ast.Global:
            self.globaldecl |= set(s.names)
            return env
        if t is ast.Delete:
            for x in s.targets:
                if isinstance(x, (ast.Subscript, ast.Attribute)):
                    o = self.ev(x.value, env).s
                    self.mutate(o, s)
                    self.rawstore(o, ['size'], s)
                elif isinstance(x, ast.Name):
                    env.pop(x.id, None)
            return env
        if t is ast.Raise:
            if s.exc is not None:
                self.ev(s.exc, env)
            return None
        if t is ast.Assert:
            self.ev(s.test, env)
            return env
        if t in (ast.Break, ast.Continue):
            return None
        return env

    def nested(self, s, env):
        e = dict(env)
        for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
            e[a.arg] = V({'N:' + a.arg}, {sub('N:' + a.arg)}, E0, False)
            if ann(a.annotation) in IMMUT:
                e[a.arg] = BOT
        for a in (s.args.vararg, s.args.kwarg):
            if a:
                e[a.arg] = BOT
        keep = self.S.ret
        self.S.ret = BOT
        self.body(s.body, e)
        self.S.ret = keep
        for k in [k for k in self.S.mut if k.startswith('N:')]:
            del self.S.mut[k]
        for k in [k for k in self.S.lev if k.startswith('N:')]:
            del self.S.lev[k]
        for k in [k for k in self.S.raw if k[0].startswith('N:')]:
            del self.S.raw[k]

    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            if t.id in self.globaldecl:
                self.mutate({'G:%s.%s' % (self.mod, t.id)}, s)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x, self.elem(v), env, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(b.s, s)
            self.rawstore(b.s, self.where_(t.slice), s)
            if isinstance(t.value, ast.Name) and t.value.id in env:
                x = v if isinstance(t.slice, ast.Slice) else v.wrap()
                env[t.value.id] = V(b.s, b.e | x.e, b.f | v.f, b.seq, b.d | x.d)
            else:
                self.absorb(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.mutate(b.s, s)
            if b.s == E0 and not isinstance(t.value, ast.Name):
                pass
            if isinstance(t.value, ast.Name) and t.value.id not in env:
                self.effect('global:%s.%s' % (self.mod, t.value.id), s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, s)

    def absorb(self, x, v, env):
        """v becomes part of what lies below x"""
        while isinstance(x, (ast.Subscript, ast.Attribute, ast.Starred)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            x = x.func.value if isinstance(x, ast.Call) else x.value
        if isinstance(x, ast.Name) and x.id in env:
            c = env[x.id]
            env[x.id] = V(c.s, c.e, c.f | v.f, c.seq, c.d | v.all())

    def elem(self, v):
        return v.elem()

    # ---- expressions
    def name(self, n, env):
        if n in env:
            return env[n]
        r = self.E.prog.resolve(self.mod, n)
        if not r:
            return BOT
        if r[0] == 'def':
            return V(f={'%s.%s' % (r[1], r[2].name)})
        if r[0] == 'val':
            fs = self.funcsin(r[1], r[2])
            if mutable_literal(r[2]):
                g = 'G:%s.%s' % (r[1], r[3])
                return V({g}, {g}, fs, isinstance(r[2], (ast.List, ast.ListComp)))
            return V(f=fs)
        if r[0] == 'dyn':
            g = 'G:%s.%s' % (r[1], r[3])
            return V({g}, {g})
        if r[0] == 'ext':
            if (r[1], r[2]) in ENV:
                self.effect('env', self.node)
            return V(f={'X:%s.%s' % (r[1], r[2])})
        if r[0] == 'builtin':
            return V(f={'B:' + n})
        return BOT

    def funcsin(self, mod, expr):
        out = set()
        for x in ast.walk(expr):
            if isinstance(x, ast.Name):
                r = self.E.prog.resolve(mod, x.id)
                if r and r[0] == 'def':
                    out.add('%s.%s' % (r[1], r[2].name))
        return out

    def ev(self, e, env):
        t = type(e)
        if t is ast.Name:
            return self.name(e.id, env)
        if t in (ast.Constant,):
            return BOT
        if t in (ast.List, ast.Set, ast.Tuple):
            r = V(seq=t is ast.List)
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, env)
                r = r | (v.fresh() if isinstance(x, ast.Starred) else v.wrap())
            return r
        if t is ast.Dict:
            r = BOT
            for k, x in zip(e.keys, e.values):
                if k is not None:
                    self.ev(k, env)
                v = self.ev(x, env)
                r = r | (v.wrap() if k is not None else v.fresh())
            return r
        if t is ast.Subscript:
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                return b.fresh(b.seq)
            return b.elem()
        if t is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
            return BOT
        if t is ast.BinOp:
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, (ast.Add, ast.Mult)):
                return V(E0, a.e | b.e, E0, a.seq or b.seq, a.d | b.d)
            return BOT
        if t is ast.BoolOp:
            r = BOT
            for x in e.values:
                r = r | self.ev(x, env)
            return r
        if t is ast.UnaryOp:
            self.ev(e.operand, env)
            return BOT
        if t is ast.Compare:
            self.ev(e.left, env)
            for x in e.comparators:
                self.ev(x, env)
            return BOT
        if t is ast.IfExp:
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, e)
            return v
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            en = dict(env)
            for g in e.generators:
                it = self.ev(g.iter, en)
                self.assign(g.target, self.elem(it), en, e)
                for i in g.ifs:
                    self.ev(i, en)
            if t is ast.DictComp:
                self.ev(e.key, en)
                v = self.ev(e.value, en)
            else:
                v = self.ev(e.elt, en)
            return v.wrap(t is ast.ListComp)
        if t is ast.Lambda:
            en = dict(env)
            for a in e.args.posonlyargs + e.args.args:
                en[a.arg] = BOT
            self.ev(e.body, en)
            n = 'lambda %d:%d' % (e.lineno, e.col_offset)
            if n not in self.local:
                self.local[n] = ast.copy_location(ast.FunctionDef(
                    name=n, args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[], returns=None), e)
            return V(f={'L:' + n})
        if t is ast.JoinedStr:
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, env)
            return BOT
        if t is ast.Attribute:
            if isinstance(e.value, ast.Name):
                r = self.E.prog.resolve(self.mod, e.value.id) if e.value.id not in env else None
                if r and r[0] == 'extmod':
                    if (r[1], e.attr) in ENV:
                        self.effect('env', e)
                    if (r[1], e.attr) == ('sys', 'modules'):
                        self.effect('reflect', e)
                    return V(f={'X:%s.%s' % (r[1], e.attr)})
                if r and r[0] == 'mod':
                    r2 = self.E.prog.resolve(r[1], e.attr)
                    if r2 and r2[0] == 'def':
                        return V(f={'%s.%s' % (r2[1], r2[2].name)})
                if r and r[0] == 'def' and e.attr == '__dict__':
                    self.effect('reflect', e)
            v = self.ev(e.value, env)
            if e.attr in MUTATORS and (v.s or v.f & BTYPES):
                return V(v.s, v.e, d=v.d, f={'M:%s:%s' % (e.attr, ' '.join(sorted(v.s)))})
            return V(v.s, v.e, E0, d=v.d)
        if t is ast.Call:
            return self.callx(e, env)
        if t in (ast.Yield, ast.YieldFrom):
            if e.value is not None:
                v = self.ev(e.value, env)
                if t is ast.Yield:
                    self.S.ret = self.S.ret | v.wrap()
                else:
                    self.S.ret = self.S.ret | v.fresh()
            return BOT
        if t is ast.Starred:
            return self.ev(e.value, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return BOT

    def callx(self, e, env):
        args, star = [], None
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = self.ev(a.value, env)
                args.append(('*', star))
            else:
                args.append(('', self.ev(a, env)))
        kws = [(k.arg, self.ev(k.value, env)) for k in e.keywords]
        fn = e.func
        res = BOT
        if isinstance(fn, ast.Attribute):
            base = None
            if isinstance(fn.value, ast.Name) and fn.value.id not in env:
                r = self.E.prog.resolve(self.mod, fn.value.id)
                if r and r[0] in ('extmod', 'mod'):
                    base = r
            if base is None:
                b = self.ev(fn.value, env)
                if fn.attr not in READERS:
                    # a method call on a module level object built by a call may change it
                    self.mutate({o for o in b.s if o.startswith('G:') and self.E.isobject(o[2:])}, e)
                if fn.attr in MUTATORS and not b.s and b.f & BTYPES and args:
                    self.mutate(args[0][1].s, e)
                    if fn.attr in RESIZE:
                        self.rawstore(args[0][1].s, ['size'], e)
                if fn.attr in MUTATORS:
                    self.mutate(b.s, e)
                    if fn.attr in RESIZE:
                        self.rawstore(b.s, ['size'], e)
                    av = BOT
                    for _, v in args:
                        av = av | v
                    w = av.fresh() if fn.attr in ('extend', 'update', 'fromlist') else av.wrap()
                    if isinstance(fn.value, ast.Name) and fn.value.id in env:
                        cur = env[fn.value.id]
                        env[fn.value.id] = V(cur.s, cur.e | w.e, cur.f | av.f, cur.seq, cur.d | w.d)
                    else:
                        self.absorb(fn.value, av, env)
                    return b.elem() | av if fn.attr == 'setdefault' else b.elem()
                if fn.attr == 'get':
                    r = b.elem()
                    for _, v in args[1:]:
                        r = r | v
                    return r
                if fn.attr == 'items':
                    return b.deep()
                if fn.attr in ('copy', 'tolist', 'tobytes', 'keys', 'values'):
                    return b.fresh(fn.attr in ('copy', 'tolist'))
                if fn.attr in ('write', 'writelines', 'tofile'):
                    return BOT
                if fn.attr == 'readinto':
                    for _, v in args:
                        self.mutate(v.s, e)
                return V(E0, b.e, d=b.d)
        fv = self.ev(fn, env)
        if not fv.f and isinstance(fn, ast.Name):
            pass
        for f in sorted(fv.f):
            res = res | self.apply(f, e, args, kws, env)
        return res

    def apply(self, f, e, args, kws, env):
        al = BOT
        for _, v in args:
            al = al | v
        for _, v in kws:
            al = al | v
        if f.startswith('P:'):
            self.S.ho.add((f[2:], tuple(v.s for _, v in args), tuple(k or '**' for k, _ in kws)))
            return V(al.s, al.e, d=al.d)
        if f.startswith('B:'):
            n = f[2:]
            if n == 'print' or n == 'input':
                self.effect('io', e)
            elif n == 'open':
                self.openmode(e, env)
            elif n in ('exit', 'quit'):
                self.effect('exit', e)
            elif n in ('globals', 'vars', 'setattr', 'delattr', 'exec', 'eval', '__import__'):
                self.effect('reflect', e)
            elif n in ('id', 'hash'):
                self.effect('identity', e)
            elif n in ('map', 'filter', 'sorted', 'min', 'max') and (args and args[0][1].f or kws):
                fs = set(args[0][1].f) if args else set()
                for _, v in kws:
                    fs |= v.f
                rr = BOT
                for g in fs:
                    if g.startswith('B:') and g[2:] in PURE_SEQ:
                        for _, v in args[1:]:
                            rr = rr | v.elem().fresh()
                    elif not g.startswith('B:'):
                        rr = rr | self.apply(g, e, [('', self.elem(v)) for _, v in args[1:]] or
                                             [('', self.elem(args[0][1]))], [], env)
                if n == 'map':
                    return V(E0, rr.s, E0, d=rr.e | rr.d)
                if n in ('min', 'max'):
                    return al | al.elem()
                return V(E0, al.e, E0, n == 'sorted', al.d)
            if n in PURE_SEQ:
                return al.deep() if n in ('zip', 'enumerate') else al.fresh(n in ('list', 'sorted'))
            if n == 'memoryview':
                return V(al.s, al.e, E0, True, al.d)
            if n == 'getattr' and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                return self.ev(ast.copy_location(ast.Attribute(e.args[0], str(e.args[1].value), ast.Load()), e), env)
            if n == 'next':
                self.mutate({o for o in al.s if o.startswith('G:')}, e)
                return al.elem()
            if n in ('min', 'max'):
                return al | al.elem() if len(args) > 1 else al.elem()
            if (n == 'setattr' or n == 'delattr') and args:
                self.mutate(args[0][1].s, e)
            return BOT
        if f.startswith('X:'):
            m, _, n = f[2:].partition('.')
            top = m.split('.')[0]
            if top in RNG or top == 'secrets' or top == 'uuid':
                self.effect('rng', e)
            if (m, n.split('.')[0]) in CLOCK:
                self.effect('clock', e)
            if (m, n) in FSWRITE or top in ('shutil', 'tempfile'):
                self.effect('fsw', e, m + '.' + n)
                self.effect('fsw:' + m + '.' + n, e)
            if top == 'subprocess' or (m, n) in (('os', 'system'), ('os', 'popen')):
                self.effect('process', e)
            if (m, n) == ('sys', 'exit'):
                self.effect('exit', e)
            if (m, n) in MUTARG and len(args) > MUTARG[m, n]:
                self.mutate(args[MUTARG[m, n]][1].s, e)
                self.rawstore(args[MUTARG[m, n]][1].s, ['hdr'] if m in ('struct', 'ctypes') else ['size'], e)
                if m == 'operator':
                    return args[0][1]
            if n == 'deepcopy':
                return BOT
            if n == 'reduce' or n == 'partial':
                rr = BOT
                for g in args[0][1].f if args else ():
                    rr = rr | self.apply(g, e, [('', al), ('', al)], [], env)
                return rr if n == 'reduce' else V(f=args[0][1].f)
            if (m, n) == ('os.path', 'isfile') or (m, n) == ('os.path', 'exists'):
                self.effect('fsr', e)
            if m == 'copy':
                return al.fresh()
            x = al.e | al.d if top in ('itertools', 'collections') else E0
            return V(E0, x, d=x)
        if f.startswith('M:'):
            _, a, o = f.split(':', 2)
            o = o.split(' ') if o else (args[0][1].s if args else ())
            self.mutate(o, e)
            if a in RESIZE:
                self.rawstore(o, ['size'], e)
            return V(E0, al.all())
        if f.startswith('L:'):
            nd = self.local.get(f[2:])
            if nd is None or self.depth > 4:
                return BOT
            # inline the local function on the actual argument origins
            self.depth += 1
            en = dict(env)
            self.bindlocal(nd, args, kws, en)
            keep = self.S.ret
            self.S.ret = BOT
            self.body(nd.body, en)
            r = self.S.ret
            self.S.ret = keep
            self.depth -= 1
            return r
        s = self.E.sums.get(f)
        if s is None:
            return BOT
        mod, node = self.E.nodes[f]
        self.S.calls.setdefault(f, e)
        m = self.bindmap(node, args, kws)
        for o, w in s.lev.items():
            if o.startswith('G:'):
                self.S.mut.setdefault(o, w)
                self.S.lev.setdefault(o, w)
            else:
                self.mutate(m.get(base(o), BOT).at(o), e)
        for (o, k), w in s.raw.items():
            v = m.get(o, BOT)
            ks = [k]
            if k.startswith('at:'):
                x = self.argexpr(e, f, node, k[3:])
                ks = self.where_(x) if x is not None else ()
            self.rawstore(v.s if not o.startswith('*') else v.all(), ks, e)
        for t, w in s.eff.items():
            self.S.eff.setdefault(t, (self.mod, e, f))
        for (p, hargs, hk) in list(s.ho):
            v = m.get(p, BOT)
            inst = [('', self.subst(a, m)) for a in hargs]
            for g in v.f:
                if g.startswith('B:'):
                    continue
                self.apply(g, e, inst, [], env)
        return self.substV(s.ret, m)

    def argexpr(self, e, f, node, p):
        if not isinstance(e.func, ast.Name):
            return None
        r = self.E.prog.resolve(self.mod, e.func.id)
        if not r or r[0] != 'def' or r[2] is not node:
            return None
        for k in e.keywords:
            if k.arg == p:
                return k.value
        names = [a.arg for a in node.args.posonlyargs + node.args.args]
        i = names.index(p) if p in names else -1
        if 0 <= i < len(e.args) and not any(isinstance(a, ast.Starred) for a in e.args[:i + 1]):
            return e.args[i]
        return None

    def subst(self, origins, m):
        r = BOT
        for o in origins:
            if o.startswith('G:'):
                r = r | V({o}, {o})
                continue
            v = m.get(base(o), BOT)
            for _ in range(o.count('[]')):
                v = v.elem()
            r = r | v
        return r

    def substV(self, v, m):
        s, e, f, d = set(), set(), set(), set()
        for x, y in ((v.s, s), (v.e, e), (v.d, d)):
            for o in x:
                y |= {o} if o.startswith('G:') else m.get(base(o), BOT).at(o)
        for g in v.f:
            if g.startswith('P:'):
                f |= m.get(g[2:], BOT).f
            elif not g.startswith('L:'):
                f.add(g)
        return V(s, e, f, v.seq, d)

    def bindmap(self, node, args, kws):
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        m, i = {}, 0
        extra = BOT
        for st, v in args:
            if st == '*':
                for p in ps[i:]:
                    m[p] = m.get(p, BOT) | v.elem()
                extra = extra | v.elem()
                i = len(ps)
            elif i < len(ps):
                m[ps[i]] = v
                i += 1
            else:
                extra = extra | v
        if a.vararg:
            m['*' + a.vararg.arg] = extra
        for k, v in kws:
            if k is None:
                for p in ps:
                    m[p] = m.get(p, BOT) | v.elem()
            else:
                m[k] = v
                if a.kwarg and k not in ps and k not in {x.arg for x in a.kwonlyargs}:
                    q = '**' + a.kwarg.arg
                    m[q] = m.get(q, BOT) | v
        return m

    def bindlocal(self, nd, args, kws, en):
        m = self.bindmap(nd, args, kws)
        for a in nd.args.posonlyargs + nd.args.args + nd.args.kwonlyargs:
            en[a.arg] = m.get(a.arg, BOT)
        if nd.args.vararg:
            en[nd.args.vararg.arg] = m.get('*' + nd.args.vararg.arg, BOT).wrap()

    def openmode(self, e, env):
        mode = None
        if len(e.args) > 1:
            mode = e.args[1]
        for k in e.keywords:
            if k.arg == 'mode':
                mode = k.value
        if mode is None:
            self.effect('fsr', e)
        elif isinstance(mode, ast.Constant) and isinstance(mode.value, str):
            self.effect('fsr' if not set(mode.value) & set('wax+') else 'fsw', e)
        else:
            self.effect('fsw', e)


def mutable_literal(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        (isinstance(e, ast.Call))


def _stored(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out
