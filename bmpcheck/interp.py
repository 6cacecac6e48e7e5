"""Abstract interpreter producing gated value graphs (global value numbering on
the syntax tree).  Every variable and every heap object holds a term of terms.py;
joins produce gated (ite) terms, loops are summarised once: affine variables get
closed forms, appended lists become comprehensions, everything else becomes a
canonical 'loop' term.  No path is enumerated and nothing is executed."""
import ast
import math
from fractions import Fraction

from . import terms as X
from .terms import (T, mk, const, sym, TRUE, FALSE, NONE, ZERO, ONE, add, sub, mul, neg, div, intval, numval,
                    conj, disj, negate, ite, truthy, decide, idx, length, slice_, concat, bounds, app, subst,
                    is_cond, is_int, seqkind, eq, syms)
from .loader import Broken, where

UNROLL = 40
BIGLIT = {}
MAXDEPTH = 60


class Unsupported(Exception):
    pass


class HObj:
    __slots__ = ('kind', 'c', 'root', 'hdr')

    def __init__(self, kind, c, root=None, hdr=None):
        self.kind, self.c, self.root, self.hdr = kind, c, root, hdr

    def but(self, c, hdr=0):
        return HObj(self.kind, c, self.root, self.hdr if hdr == 0 else hdr)


class Func:
    """closure"""
    __slots__ = ('node', 'mod', 'env', 'name', 'defaults', 'kwdefaults', 'key', 'raw', 'isgen')

    def __init__(self, node, mod, env, name, defaults, kwdefaults, key):
        self.node, self.mod, self.env, self.name = node, mod, env, name
        self.defaults, self.kwdefaults, self.key = defaults, kwdefaults, key
        self.isgen = not isinstance(node, ast.Lambda) and has_yield(node)


def has_yield(node):
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class State:
    __slots__ = ('frames', 'heap', 'facts')

    def __init__(self, frames=None, heap=None, facts=()):
        self.frames = frames or {}
        self.heap = heap or {}
        self.facts = facts

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap), self.facts)

    def assume(self, c):
        if c is TRUE:
            return
        fs = list(self.facts)
        for x in (c.args if c.op == 'and' else (c,)):
            if x not in fs:
                fs.append(x)
        self.facts = tuple(fs)


class Leaf:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Br:
    __slots__ = ('c', 't', 'f')

    def __init__(self, c, t, f):
        self.c, self.t, self.f = c, t, f


def leaves(tr):
    if isinstance(tr, Leaf):
        yield tr
    else:
        yield from leaves(tr.t)
        yield from leaves(tr.f)


def maptree(tr, f):
    if isinstance(tr, Leaf):
        return f(tr)
    return Br(tr.c, maptree(tr.t, f), maptree(tr.f, f))


class Policy:
    """which package functions are treated as primitives"""

    def __init__(self, opaque=(), inline=(), public_opaque=False, api=()):
        self.set = set(opaque)
        self.inl = set(inline)
        self.public = public_opaque
        self.api = set(api)

    def opaque(self, mod, name):
        if name in self.inl:
            return False
        if name in self.set:
            return True
        return self.public and name in self.api


PURE_EXT = {
    'math.sin', 'math.cos', 'math.tan', 'math.asin', 'math.acos', 'math.atan', 'math.atan2', 'math.sinh',
    'math.cosh', 'math.tanh', 'math.sqrt', 'math.exp', 'math.log', 'math.radians', 'math.degrees', 'math.comb',
    'math.ceil', 'math.floor', 'math.log2', 'math.log10', 'math.hypot', 'math.fmod', 'math.gcd',
    'cmath.exp', 'cmath.sin', 'cmath.cos', 'cmath.tan', 'cmath.sinh', 'cmath.cosh', 'cmath.tanh', 'cmath.rect',
    'cmath.log', 'cmath.sqrt', 'cmath.phase', 'cmath.polar',
    'os.path.isfile', 'os.path.exists', 'os.path.join',
}
PURE_METH = {'exists', 'resolve', 'absolute', 'as_posix', 'stat', 'rglob', 'glob', 'cwd', 'strip', 'lower', 'upper', 'is_file',
             'suffix', 'startswith', 'endswith', 'split', 'join', 'format', 'replace', 'relative_to', 'is_dir', 'decode', 'encode'}
IMPURE = {'random.random': 'rng', 'random.randint': 'rng', 'random.uniform': 'rng', 'random.choice': 'rng',
          'time.process_time_ns': 'clock', 'time.time': 'clock', 'time.perf_counter': 'clock',
          'time.monotonic': 'clock', 'time.process_time': 'clock', 'time.time_ns': 'clock'}
EXTCONST = {'math.pi': math.pi, 'math.tau': math.tau, 'math.e': math.e, 'cmath.pi': math.pi}
TYPES = {'int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'bool', 'complex', 'bytes', 'bytearray', 'type',
         'object', 'frozenset'}
EXC = {'FileExistsError', 'ValueError', 'TypeError', 'Exception', 'RuntimeError', 'KeyError', 'IndexError',
       'FileNotFoundError', 'OSError', 'StopIteration', 'ZeroDivisionError', 'NotImplementedError'}


def collapse_concat(t):
    return t


_RES = {}


def results(prog):
    if id(prog) not in _RES:
        from .loader import Results
        _RES[id(prog)] = prog, Results(prog)
    return _RES[id(prog)][1]


class Interp:
    def __init__(self, prog, policy=None, effects=None, ext_pure=True):
        self.compframes = set()
        self.prog = prog
        self.results = results(prog)
        self.policy = policy or Policy()
        self.effects = effects        # callable (mod,name)-> set of mutated param indexes
        self.ctr = 0
        self.FUN = {}
        self.globcache = {}
        self.stack = []
        self.ybase = []               # yield handlers
        self.loopdepth = 0
        self.obl = []                 # obligations (kind, data..., facts, where)
        self.calls = []               # opaque calls seen (for the evidence)
        self.visited = set()          # package functions inlined
        self.modstack = []
        self.curnode = None
        self.collect = True
        self.steps = 0
        self.maxsteps = 400000
        self.hooks = {}
        self.extlog = False           # keep a log of calls that act outside the program

    # ------------------------------------------------------------ utilities
    def fresh(self, pre='o'):
        self.ctr += 1
        return '%s%d' % (pre, self.ctr)

    def alloc(self, st, kind, c, hdr=None, root=None):
        oid = self.fresh()
        st.heap[oid] = HObj(kind, c, root, hdr)
        return mk('ref', oid)

    def root(self, st, name, kind, c=None, hdr=None):
        if c is None:
            c = sym(name, kind)
        st.heap['r:' + name] = HObj(kind, c, name, hdr)
        return mk('ref', 'r:' + name)

    def aux(self, st, name):
        """implicit resource objects: io, fs, rng, clock, exc"""
        k = 'x:' + name
        o = st.heap.get(k)
        if o is None:
            o = st.heap[k] = HObj('aux', sym('$' + name, 'any'), '$' + name)
        return o

    def setaux(self, st, name, c):
        st.heap['x:' + name] = self.aux(st, name).but(c)

    def content(self, v, st):
        if v.op == 'ref':
            o = st.heap.get(v.args[0])
            if o is None:
                raise Unsupported('dangling ref')
            return o.c
        if v.op == 'ite' and self.hasref(v):
            return ite(v.args[0], self.content(v.args[1], st), self.content(v.args[2], st))
        return v

    def hasref(self, v):
        if v.op == 'ref':
            return True
        if v.op == 'ite':
            return self.hasref(v.args[1]) or self.hasref(v.args[2])
        return False

    def kindof(self, v, st):
        if v.op == 'ref':
            return st.heap[v.args[0]].kind
        if v.op == 'ite' and self.hasref(v):
            a, b = self.kindof(v.args[1], st), self.kindof(v.args[2], st)
            return a if a == b else None
        return seqkind(v)

    def reify(self, v, st, seen=()):
        """replace references by contents (value semantics)"""
        return self._reify(v, st, {}, seen)

    def _reify(self, v, st, memo, seen):
        r = memo.get(v)
        if r is not None:
            return r
        if v.op == 'ref':
            oid = v.args[0]
            if oid in seen:
                return app('cycle')
            o = st.heap.get(oid)
            if o is None:
                return app('dangling')
            r = self._reify(o.c, st, memo, seen + (oid,))
            if o.kind == 'iter':
                r = mk('iterof', r)
        elif v.op == 'fn':
            r = self.reify_fn(v, st)
        elif not _contains_ref(v):
            r = v
        elif v.op in ('list', 'tuple', 'bytes', 'dict', 'set'):
            r = mk(v.op, *[self._reify(a, st, memo, seen) for a in v.args])
        else:
            r = X.rebuild(v, lambda c: self._reify(c, st, memo, seen))
        memo[v] = r
        return r

    def reify_fn(self, v, st):
        key = v.args[0]
        if key.startswith('g:'):
            mod, name = key[2:].split('.', 1)
            pol = self.policy
            if pol.opaque(mod, name) or name in pol.api or not pol.api:
                return v
            f = self.FUN.get(key)
            node = self.prog.resolve(mod, name)[2]
            nargs = len(node.args.args)
            if has_yield(node):
                return v
        else:
            f = self.FUN.get(key)
            if f is None or f.isgen:
                return v
            if f.node.args.vararg or f.node.args.kwarg:
                return v
            nargs = len(f.node.args.args)
        if len(self.stack) > MAXDEPTH - 5 or any(s == key for s in self.stack):
            return v
        h = sum(1 for s in self.stack if s == '$lam')
        ps = [sym('$a%d_%d' % (h, i), 'any') for i in range(nargs)]
        self.stack.append('$lam')
        s2 = st.copy()
        try:
            before = dict(s2.heap)
            r = self.call(v, ps, {}, s2)
            r = self.reify(r, s2)
            extra = []
            for k, o in s2.heap.items():
                if k in before and before[k] is not o and o.c is not before[k].c:
                    extra.append((o.root or k, o.c))
            if extra:
                r = mk('lameff', r, *[c for _, c in sorted(extra, key=lambda e: e[1].d)])
        except Unsupported:
            return v
        finally:
            self.stack.pop()
        # eta: lambda a,b: f(a,b)  ->  f
        if r.op == 'ret' and r.args[0].op == 'call' and list(r.args[0].args[1:]) == ps:
            return mk('fn', 'g:' + r.args[0].args[0])
        return mk('lam', nargs, r)

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """states a (c true) and b -> one"""
        out = State()
        for fid, fa in a.frames.items():
            fb = b.frames.get(fid)
            if fb is None:
                continue
            if fa is fb:
                out.frames[fid] = fa
                continue
            m = {}
            for k, va in fa.items():
                vb = fb.get(k)
                if vb is None:
                    m[k] = va
                else:
                    m[k] = va if va is vb else self.mergeval(c, va, a, vb, b, out)
            for k, vb in fb.items():
                if k not in fa:
                    m[k] = vb
            out.frames[fid] = m
        h = dict(b.heap)
        for k, oa in a.heap.items():
            ob = h.get(k)
            if ob is None:
                h[k] = oa
                if oa.kind == 'aux':
                    ob = HObj('aux', sym(oa.root, 'any'), oa.root)
                else:
                    continue
            if ob is oa:
                continue
            if ob.c is oa.c:
                cc = oa.c
            else:
                cc = ite(c, oa.c, ob.c)
            hdr = None
            if oa.hdr is not None and ob.hdr is not None:
                hdr = {i: (v if ob.hdr[i] is v else ite(c, v, ob.hdr[i])) for i, v in oa.hdr.items() if i in ob.hdr}
            h[k] = HObj(oa.kind, cc, oa.root, hdr)
        for k, ob in b.heap.items():
            if k not in a.heap and ob.kind == 'aux':
                h[k] = HObj('aux', ite(c, sym(ob.root, 'any'), ob.c), ob.root)
        h.update(out.heap)
        out.heap = h
        fb = set(b.facts)
        out.facts = tuple(f for f in a.facts if f in fb)
        return out

    def mergeval(self, c, va, a, vb, b, out):
        if va is vb:
            return va
        return ite(c, va, vb)

    def collapse(self, tr, kinds=None):
        """tree -> (single leaf) merging states; leaf values merged by ite; leaf kinds
        merged: differing kinds are not allowed here except raise, which is recorded."""
        if isinstance(tr, Leaf):
            return tr
        a = self.collapse(tr.t)
        b = self.collapse(tr.f)
        if a.kind == 'raise' and b.kind != 'raise':
            st = b.st.copy()        # the same leaf may stand elsewhere in the tree
            self.setaux(st, 'exc', ite(tr.c, self.aux(a.st, 'exc').c, self.aux(st, 'exc').c))
            return Leaf(b.kind, st, b.val)
        if b.kind == 'raise' and a.kind != 'raise':
            st = a.st.copy()
            self.setaux(st, 'exc', ite(tr.c, self.aux(st, 'exc').c, self.aux(b.st, 'exc').c))
            return Leaf(a.kind, st, a.val)
        st = self.merge(tr.c, a.st, b.st)
        va = a.val if a.val is not None else NONE
        vb = b.val if b.val is not None else NONE
        k = a.kind
        if a.kind != b.kind:
            k = 'return' if 'return' in (a.kind, b.kind) else 'fall'
            if {a.kind, b.kind} - {'return', 'fall', 'raise'}:
                raise Unsupported('mixed exits')
        return Leaf(k, st, ite(tr.c, va, vb) if va is not vb else va)

    def graft(self, tr, cont):
        """continue all fall leaves with cont(state) -> tree"""
        falls = [l for l in leaves(tr) if l.kind == 'fall']
        n = sum(1 for _ in leaves(tr))
        if not falls:
            return tr
        if n == 1:
            return cont(tr.st)
        if len(falls) == 1:
            return maptree(tr, lambda l: cont(l.st) if l.kind == 'fall' else l)
        if len(falls) == n:
            return cont(self.collapse(tr).st)

        def falltree(t):
            if isinstance(t, Leaf):
                return t if t.kind == 'fall' else None
            a, b = falltree(t.t), falltree(t.f)
            if a is None or b is None:
                return a or b
            return Br(t.c, a, b)
        ft = self.collapse(falltree(tr))
        r = cont(ft.st)
        return maptree(tr, lambda l: r if l.kind == 'fall' else l)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        tr = Leaf('fall', st)
        for i, s in enumerate(stmts):
            if isinstance(tr, Leaf):
                if tr.kind != 'fall':
                    return tr
                tr = self.stmt(s, tr.st)
            else:
                rest = stmts[i:]
                return self.graft(tr, lambda z, rest=rest: self.block(rest, z))
        return tr

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('step budget')
        self.curnode = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        r = m(s, st)
        return Leaf('fall', st) if r is None else r

    def s_Pass(self, s, st):
        pass

    def s_Global(self, s, st):
        raise Unsupported('global')

    def s_Nonlocal(self, s, st):
        raise Unsupported('nonlocal')

    def s_Assert(self, s, st):
        pass

    def s_Import(self, s, st):
        fr = st.frames[self.frame]
        for a in s.names:
            fr[a.asname or a.name.split('.')[0]] = mk('extmod', a.name)

    def s_ImportFrom(self, s, st):
        fr = st.frames[self.frame]
        mod = s.module or ''
        for a in s.names:
            if s.level or mod.startswith('pythonbmp'):
                m = mod[len('pythonbmp'):].lstrip('.') if mod.startswith('pythonbmp') else mod
                fr[a.asname or a.name] = self.glob(m, a.name, st)
            else:
                fr[a.asname or a.name] = self.extval(mod + '.' + a.name)

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(v, st)
        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and ast.unparse(v.func) in ('exit', 'sys.exit') \
                and self.ev(v.func, st).op == 'builtin':
            self.ev(v, st)
            return Leaf('raise', st)
        self.ev(v, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[self.frame].pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Assign(self, s, st):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported('yield value')
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            v = self.ev(s.value, st)
            if self.hasref(cur) and self.kindof(cur, st) in ('list', 'bytes') and isinstance(s.op, ast.Add):
                self.mutate(cur, st, lambda c: concat(c, self.seqcontent(v, st)))
                return
            self.assign(t, self.binop(s.op, cur, v, st), st)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            i = self.evindex(t.slice, st)
            cur = self.subscript(base, i, st)
            v = self.ev(s.value, st)
            r = self.binop(s.op, cur, v, st)
            self.store(base, i, r, st, t)
            return
        raise Unsupported('augassign')

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        return Leaf('return', st, v)

    def s_Break(self, s, st):
        return Leaf('break', st)

    def s_Continue(self, s, st):
        return Leaf('continue', st)

    def s_Raise(self, s, st):
        if isinstance(s.exc, ast.Call) and ast.unparse(s.exc.func) == 'SystemExit':
            self.b_exit([self.ev(a, st) for a in s.exc.args], {}, st)
            return Leaf('raise', st)
        c = app('raise', self.reify(self.ev(s.exc, st), st)) if s.exc is not None else app('raise')
        self.setaux(st, 'exc', c)
        return Leaf('raise', st)

    def s_FunctionDef(self, s, st):
        st.frames[self.frame][s.name] = self.defun(s, st)

    def s_If(self, s, st):
        c = truthy(self.cond(s.test, st))
        return self.branch(c, st, lambda z: self.block(s.body, z), lambda z: self.block(s.orelse, z))

    def branch(self, c, st, ft, ff):
        d = self.decide(c, st)
        if d is True:
            return ft(st)
        if d is False:
            return ff(st)
        s1, s2 = st, st.copy()
        s1 = st.copy()
        s1.assume(c)
        s2.assume(negate(c))
        tr = Br(c, ft(s1), ff(s2))
        ls = list(leaves(tr))
        if all(l.kind == 'fall' for l in ls):
            return self.collapse(tr)
        return tr

    def decide(self, c, st):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if not st.facts:
            return None
        return decide(c, st.facts)

    def s_Try(self, s, st):
        # the handlers are alternatives guarded by an opaque condition on what the body computed
        s0 = st.copy()
        tr = self.block(s.body, st.copy())
        got = []
        for l in leaves(tr):
            fr0, fr1 = s0.frames.get(self.frame, {}), l.st.frames.get(self.frame, {})
            for n in sorted(fr1):
                if fr1[n] is not fr0.get(n):
                    got.append(self.reify(fr1[n], l.st))
            for k, o in l.st.heap.items():
                o0 = s0.heap.get(k)
                if o.root is not None and (o0 is None or o0.c is not o.c):
                    got.append(self.reify(o.c, l.st))
        if s.orelse or s.finalbody:
            raise Unsupported('try with else or finally')
        gates = []
        for h in s.handlers:
            c = truthy(app('raises', const(ast.unparse(h.type) if h.type is not None else 'BaseException'), mk('tuple', *got)))
            z = s0.copy()
            z.assume(c)
            if h.name:
                z.frames[self.frame][h.name] = app('exception', const(h.name))
            gates.append((c, self.block(h.body, z)))
        for c, hb in reversed(gates):
            tr = Br(c, hb, tr)
        if all(l.kind == 'fall' for l in leaves(tr)):
            return self.collapse(tr)
        return tr

    def s_With(self, s, st):
        if len(s.items) != 1:
            raise Unsupported('with')
        it = s.items[0]
        v = self.ev(it.context_expr, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.frames[self.frame][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred target')
            vs = self.unpack(v, n, st)
            for e, x in zip(t.elts, vs):
                self.assign(e, x, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            i = self.evindex(t.slice, st)
            self.store(base, i, v, st, t)
        else:
            raise Unsupported('target ' + type(t).__name__)

    def unpack(self, v, n, st):
        c = self.content(v, st)
        if c.op == 'iter' or self.kindof(v, st) in ('gen', 'iter'):
            c = self.tolist(v, st)
        if c.op in ('tuple', 'list', 'bytes'):
            if len(c.args) == n:
                return list(c.args)
        return [idx(c, const(i)) for i in range(n)]

    def mutate(self, v, st, f):
        """apply content function f to the object(s) v denotes"""
        if v.op == 'ref':
            o = st.heap[v.args[0]]
            st.heap[v.args[0]] = o.but(f(o.c))
            return
        if v.op == 'ite':
            c, a, b = v.args
            if self.hasref(a):
                self.mutate(a, st, lambda x: ite(c, f(x), x))
            if self.hasref(b):
                self.mutate(b, st, lambda x: ite(c, x, f(x)))
            return
        raise Unsupported('mutation of a value')

    def store(self, base, i, v, st, node):
        if not self.hasref(base):
            # nested value: rebuild through the parent
            if isinstance(node, ast.Subscript) and isinstance(node.value, (ast.Subscript, ast.Name)):
                nb = mkstore(base, i, self.reify(v, st)) if not isinstance(i, tuple) else \
                    mkslstore(base, *i, self.reify(self.seqcontent(v, st), st))
                self.assign(node.value, nb, st)
                return
            raise Unsupported('store into value')
        kind = self.kindof(base, st)
        if kind == 'dict':
            key = self.reify(i, st)
            self.mutate(base, st, lambda c: dictset(c, key, v))
            return
        if isinstance(i, tuple):
            lo, hi, step = i
            val = self.seqcontent(v, st)
            if kind == 'bytes':
                val = self.reify(val, st)
            self.note('slicestore', base, (lo, hi, step), val, st, node)
            self.setmem(base, st, lambda c: mkslstore(c, lo, hi, step, val), (lo, hi, step, val))
            return
        self.note('store', base, i, v, st, node)
        if self.kindof(base, st) == 'bytes':
            v = self.reify(v, st)
        if bounds(i)[1] < 0:
            n = length(self.content(base, st))
            i = add(n, i)
        self.setmem(base, st, lambda c: mkstore(c, i, v), (i, None, None, v))

    def setmem(self, base, st, f, w):
        self.mutate(base, st, f)
        # header cache
        for r in refs(base):
            o = st.heap[r]
            if o.hdr is not None:
                lo, hi, step, val = w
                h = dict(o.hdr)
                li = intval(lo) if lo is not NONE else 0
                if hi is None:
                    if li is not None and li in h or (li is not None and li < 54):
                        if base.op == 'ref':
                            h[li] = val
                        else:
                            h.pop(li, None)
                else:
                    h2 = None if hi is NONE else intval(hi)
                    if li is not None and li < 54:
                        if h2 is not None and val.op == 'bytes' and step is ONE and base.op == 'ref' and len(val.args) == h2 - li:
                            for j, x in enumerate(val.args):
                                h[li + j] = x
                        else:
                            for j in list(h):
                                if j >= li and (h2 is None or j < h2):
                                    y = idx(val, const(j - li)) if step is ONE and base.op == 'ref' else None
                                    if y is not None:
                                        h[j] = y
                                    else:
                                        h.pop(j)
                st.heap[r] = HObj(o.kind, o.c, o.root, h)

    def note(self, kind, base, i, v, st, node):
        if self.collect:
            self.obl.append((kind, base, i, v, st.facts,
                             {r: st.heap[r] for r in refs(base)}, tuple(self.stack), self.modstack[-1] if self.modstack else '?', node))

    def seqcontent(self, v, st):
        """sequence content as a term (generators and vseqs are listed)"""
        k = self.kindof(v, st)
        if k in ('gen', 'iter') or v.op in VSEQ:
            return self.tolist(v, st)
        return self.content(v, st)

    # ------------------------------------------------------------ names
    def lookup(self, name, st):
        fid = self.frame
        while fid is not None:
            fr = st.frames.get(fid)
            if fr is None:
                break
            if name in fr:
                return fr[name]
            fid = self.parent.get(fid)
        return self.glob(self.modstack[-1], name, st)

    def glob(self, mod, name, st):
        r = self.prog.resolve(mod, name)
        if r is None:
            raise Unsupported('undefined name %s in %s' % (name, mod))
        k = r[0]
        if k == 'def':
            return mk('fn', 'g:%s.%s' % (r[1], r[2].name))
        if k == 'val':
            key = 'g:%s.%s' % (r[1], r[3])
            if key in self.globcache:
                kind, v, objs = self.globcache[key]
                for o, h in objs.items():
                    if o not in st.heap:
                        st.heap[o] = h
                return v
            v, objs = self.globval(r[1], r[2], r[3], key)
            self.globcache[key] = (k, v, objs)
            st.heap.update({o: h for o, h in objs.items() if o not in st.heap})
            return v
        if k == 'ext':
            return self.extval(r[1] + '.' + r[2])
        if k == 'extmod':
            return mk('extmod', r[1])
        if k == 'mod':
            return mk('pkgmod', r[1])
        if k == 'builtin':
            n = r[1]
            if n in ('True', 'False', 'None'):
                return {'True': TRUE, 'False': FALSE, 'None': NONE}[n]
            return mk('builtin', n)
        if k == 'dunder':
            return sym('%s.%s' % (mod, name), 'str')
        raise Unsupported('name %s: %s' % (name, k))

    def extval(self, q):
        if q in EXTCONST:
            if q == 'math.pi' or q == 'cmath.pi':
                return PI
            if q == 'math.tau':
                return X.scale(PI, 2)
            return const(EXTCONST[q])
        return mk('builtin', q)

    def globval(self, mod, expr, name, key):
        if sum(1 for _ in ast.walk(expr)) > 700:
            kind = {ast.List: 'list', ast.Tuple: 'tuple', ast.Dict: 'dict'}.get(type(expr), 'list')
            oid = key
            c = self.bigsym(mod, expr, mod + '.' + name, kind)
            return mk('ref', oid), {oid: HObj(kind, c, 'glob:' + mod + '.' + name)}
        save = (self.modstack, getattr(self, 'frame', None), getattr(self, 'parent', {}), self.stack)
        self.modstack = [mod]
        self.frame = None
        self.parent = {}
        self.stack = []
        st = State()
        try:
            self.frame = self.fresh('f')
            st.frames[self.frame] = {}
            v = self.ev(expr, st)
        finally:
            self.modstack, self.frame, self.parent, self.stack = save
        objs = {}
        if v.op == 'ref':
            o = st.heap[v.args[0]]
            oid = key
            objs = {k: h for k, h in st.heap.items() if k != v.args[0]}
            objs[oid] = HObj(o.kind, o.c, 'glob:' + mod + '.' + name)
            v = mk('ref', oid)
        else:
            objs = dict(st.heap)
        return v, objs

    def bigsym(self, mod, expr, name, kind):
        c = sym(name, kind)
        BIGLIT[c] = (mod, expr)
        if isinstance(expr, (ast.List, ast.Tuple)) and not any(isinstance(e, ast.Starred) for e in expr.elts):
            X.KNOWNLEN[c] = const(len(expr.elts))
        return c

    def biglookup(self, c, i, st):
        """constant subscript of a large literal table"""
        if c not in BIGLIT or i is None or i.op not in ('num', 'const'):
            return None
        mod, expr = BIGLIT[c]
        sub_ = None
        if isinstance(expr, ast.Dict):
            for k, v in zip(expr.keys, expr.values):
                if isinstance(k, ast.Constant) and const(k.value) is i:
                    sub_ = v
        elif isinstance(expr, (ast.List, ast.Tuple)):
            n = intval(i)
            if n is not None and -len(expr.elts) <= n < len(expr.elts):
                sub_ = expr.elts[n]
        if sub_ is None:
            return None
        if sum(1 for _ in ast.walk(sub_)) > 700:
            kind = {ast.List: 'list', ast.Tuple: 'tuple', ast.Dict: 'dict'}.get(type(sub_))
            if kind is None:
                return None
            return self.bigsym(mod, sub_, '%s[%s]' % (c.args[0], X.show(i)), kind)
        key = 'lit:%s[%s]' % (c.args[0], X.show(i))
        if key not in self.globcache:
            self.globcache[key] = self.globval(mod, sub_, '%s[%s]' % (c.args[0].split('.', 1)[1], X.show(i)), key)
        v, objs = self.globcache[key]
        s2 = State({}, dict(objs))
        return self.reify(v, s2)

    # ------------------------------------------------------------ functions
    frame = None
    parent = {}

    def defun(self, node, st, decorate=True):
        a = node.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = {k.arg: self.ev(d, st) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        key = self.fresh('c:')
        name = getattr(node, 'name', '<lambda>')
        f = Func(node, self.modstack[-1], self.frame, name, defaults, kwd, key)
        self.FUN[key] = f
        v = mk('fn', key)
        if decorate and isinstance(node, ast.FunctionDef):
            for d in reversed(node.decorator_list):
                dv = self.ev(d, st)
                v = self.call(dv, [v], {}, st)
        return v

    def globfunc(self, mod, name):
        """(decorated fn term, base heap/frames) for a module level function"""
        key = 'G:%s.%s' % (mod, name)
        if key in self.globcache:
            return self.globcache[key]
        r = self.prog.resolve(mod, name)
        if r is None or r[0] != 'def':
            raise Unsupported('function %s.%s' % (mod, name))
        node = r[2]
        save = (self.modstack, self.frame, self.parent, self.stack)
        self.modstack = [r[1]]
        self.stack = []
        st = State()
        self.frame = None
        try:
            a = node.args
            self.frame = None
            fid = self.fresh('f')
            st.frames[fid] = {}
            self.frame = fid
            defaults = [self.ev(d, st) for d in a.defaults]
            kwd = {k.arg: self.ev(d, st) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
            rk = 'raw:%s.%s' % (r[1], name)
            f = Func(node, r[1], None, name, defaults, kwd, rk)
            self.FUN[rk] = f
            v = mk('fn', rk)
            for d in reversed(node.decorator_list):
                dv = self.ev(d, st)
                v = self.call(dv, [v], {}, st)
            del st.frames[fid]
        finally:
            self.modstack, self.frame, self.parent, self.stack = save
        res = (v, st.frames, st.heap)
        self.globcache[key] = res
        return res

    def fnname(self, v):
        k = v.args[0]
        if k.startswith('g:'):
            return k[2:].split('.', 1)[1]
        f = self.FUN.get(k)
        return f.name if f else '?'

    def bind(self, f, args, kw, st):
        """bind arguments -> dict name->T or raise Unsupported"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if args and args[-1].op == 'star' and not a.vararg:
            # a starred sequence of unknown length fills the remaining required parameters
            q = args[-1].args[0]
            k = len(args) - 1
            req = len(names) - len(f.defaults)
            if all(x.op != 'star' for x in args[:-1]) and not set(kw) & set(names[k:req]):
                args = list(args[:-1]) + [X.idx(q, const(i)) for i in range(req - k)]
        if len(args) > len(names):
            if not a.vararg:
                raise Unsupported('too many arguments for ' + f.name)
            out[a.vararg.arg] = mk('tuple', *args[len(names):])
        elif a.vararg:
            out[a.vararg.arg] = mk('tuple')
        for n, v in zip(names, args):
            out[n] = v
        extra = []
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    raise Unsupported('duplicate argument ' + k)
                out[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                raise Unsupported('unexpected keyword %s for %s' % (k, f.name))
        if a.kwarg:
            out[a.kwarg.arg] = self.alloc(st, 'dict', mk('dict', *[y for k, v in extra for y in (const(k), v)]))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in out:
                out[n] = d
        for k, d in f.kwdefaults.items():
            out.setdefault(k, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise Unsupported('missing argument %s for %s' % (n, f.name))
        return out

    def call(self, fn, args, kw, st, node=None):
        if fn.op == 'fn':
            key = fn.args[0]
            if key.startswith('g:'):
                mod, name = key[2:].split('.', 1)
                h = self.hooks.get(name)
                if h is not None:
                    r = h(self, mod, name, args, kw, st)
                    if r is not NotImplemented:
                        return r
                if self.policy.opaque(mod, name) or self.stack.count('raw:%s.%s' % (mod, name)) >= 1 \
                        or len(self.stack) > MAXDEPTH:
                    return self.opaque(mod, name, args, kw, st)
                v, frames, heap = self.globfunc(mod, name)
                for k, fr in frames.items():
                    st.frames.setdefault(k, fr)
                for k, h in heap.items():
                    st.heap.setdefault(k, h)
                return self.call(v, args, kw, st, node)
            f = self.FUN[key]
            if key.startswith('raw:'):
                self.visited.add(key[4:])
            if f.isgen:
                b = self.bind(f, args, kw, st)
                return self.alloc(st, 'gen', mk('gen', key, *[y for k in sorted(b) for y in (const(k), b[k])]))
            return self.inline(f, self.bind(f, args, kw, st), st)
        if fn.op == 'ite':
            c, a, b = fn.args
            d = self.decide(c, st)
            if d is not None:
                return self.call(a if d else b, args, kw, st, node)
            s1, s2 = st.copy(), st.copy()
            s1.assume(c)
            s2.assume(negate(c))
            if nokey(a) or nokey(b):
                v, s = (self.call(b, args, kw, s2, node), s2) if nokey(a) else (self.call(a, args, kw, s1, node), s1)
                e, z = self.aux(s, 'exc').c, app('raise', app('exc:KeyError'))
                self.setaux(s, 'exc', ite(c, z, e) if nokey(a) else ite(c, e, z))
                st.frames, st.heap = s.frames, s.heap
                return v
            va = self.call(a, args, kw, s1, node)
            vb = self.call(b, args, kw, s2, node)
            m = self.merge(c, s1, s2)
            st.frames, st.heap = m.frames, m.heap
            return self.mergeval(c, va, s1, vb, s2, st)
        if fn.op == 'builtin':
            return self.builtin(fn.args[0], args, kw, st, node)
        if fn.op == 'partialdec':      # functools.wraps(f)
            g = args[0]
            if g.op == 'fn' and g.args[0] in self.FUN:
                self.FUN[g.args[0]].name = self.fnname(fn.args[0])
            return g
        if fn.op in ('lam',):
            raise Unsupported('call lam')
        # unknown callable value: pure uninterpreted application on reified arguments
        ra = [self.reify(a, st) for a in args] + [mk('tuple', const(k), self.reify(v, st)) for k, v in sorted(kw.items())]
        t = mk('call', '?', self.reify(fn, st), *ra)
        for i, a in enumerate(args):
            if self.hasref(a) and self.kindof(a, st) in ('bytes', 'list') and getattr(self, 'unknown_mutates', True):
                k = self.kindof(a, st)
                self.mutate(a, st, lambda c: mk('post', k, t, i))
        return mk('ret', t)

    def opaque(self, mod, name, args, kw, st):
        r = self.prog.resolve(mod, name)
        node = r[2]
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        # defaults must be bound so that f(a) and f(a, default) coincide
        v, frames, heap = self.rawdefaults(mod, name, st)
        f = v
        b = self.bind(f, args, kw, st)
        order = names + [x.arg for x in node.args.kwonlyargs]
        if node.args.vararg:
            order.append(node.args.vararg.arg)
        if node.args.kwarg:
            order.append(node.args.kwarg.arg)
        vals = [b[n] for n in order]
        vals = [coerce01(x) for x in vals]
        rv = [self.reify(x, st) for x in vals]
        mut = self.effects(mod, name) if self.effects else set()
        extra = []
        t = mk('call', '%s.%s' % (r[1], name), *(rv + extra))
        self.calls.append((r[1], name, st.facts, tuple(self.stack)))
        if self.collect:
            self.obl.append(('call', name, vals, rv, st.facts, dict(st.heap) if self.collect == 2 else None,
                             tuple(self.stack), self.modstack[-1] if self.modstack else '?', self.curnode))
        for i, n in enumerate(order):
            if n in mut and self.hasref(vals[i]):
                k = self.kindof(vals[i], st) or 'list'
                self.mutate(vals[i], st, lambda c: mk('post', k, t, i))
        for aux in mut:
            if aux.startswith('$'):
                self.setaux(st, aux[1:], mk('auxpost', self.aux(st, aux[1:]).c, t))
        ret = node.returns
        rs = ast.unparse(ret) if ret is not None else ''
        rt = mk('ret', t)
        if has_yield(node):
            return mk('geniter', t)
        if self.results.void(r[1], name):
            return NONE
        k = self.results.length(r[1], name)
        if k is not None and k[1] <= 8:
            q = mk('ret', t)
            v = [idx(q, const(i)) for i in range(k[1])]
            return mk('tuple', *v) if k[0] == 'tuple' else self.alloc(st, 'list', mk('list', *v))
        if rs == 'array':
            hdr = self.rethdr(name, vals, rt, st)
            return self.alloc(st, 'bytes', mk('retseq', 'bytes', t), hdr=hdr)
        if rs.startswith('list') or rs == 'list':
            return self.alloc(st, 'list', mk('retseq', 'list', t))
        if rs.startswith('dict'):
            return self.alloc(st, 'dict', mk('retseq', 'dict', t))
        if rs == 'int':
            return mk('reti', t)
        if rs == 'bool':
            return mk('truthy', rt)
        return rt

    def rethdr(self, name, vals, rt, st):
        h = self.hooks.get('hdr:' + name)
        return h(self, vals, rt, st) if h else None

    def rawdefaults(self, mod, name, st):
        key = 'D:%s.%s' % (mod, name)
        if key not in self.globcache:
            r = self.prog.resolve(mod, name)
            node = r[2]
            save = (self.modstack, self.frame, self.parent, self.stack)
            self.modstack = [r[1]]
            s0 = State()
            fid = self.fresh('f')
            s0.frames[fid] = {}
            self.frame = fid
            try:
                a = node.args
                defaults = [self.ev(d, s0) for d in a.defaults]
                kwd = {k.arg: self.ev(d, s0) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
            finally:
                self.modstack, self.frame, self.parent, self.stack = save
            f = Func(node, r[1], None, name, defaults, kwd, 'raw:%s.%s' % (r[1], name))
            self.globcache[key] = (f, {}, s0.heap)
        f, fr, heap = self.globcache[key]
        for k, h in heap.items():
            st.heap.setdefault(k, h)
        return f, fr, heap

    def inline(self, f, binding, st):
        if len(self.stack) > MAXDEPTH:
            raise Unsupported('depth')
        fid = self.fresh('f')
        st.frames[fid] = dict(binding)
        save = (self.frame, self.parent, self.curnode)
        self.parent = dict(self.parent)
        self.parent[fid] = f.env
        self.frame = fid
        self.stack.append(f.key)
        self.modstack.append(f.mod)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, st)
            tr = self.block(f.node.body, st)
            tr = maptree(tr, lambda l: Leaf('return', l.st, NONE) if l.kind == 'fall' else l)
            l = self.collapse(tr)
            if l.st is not st:
                st.frames, st.heap = l.st.frames, l.st.heap
                base = set(st.facts)
                st.facts = tuple(x for x in l.st.facts)
            v = l.val if l.val is not None else NONE
            return v
        finally:
            self.stack.pop()
            self.modstack.pop()
            self.frame, self.parent, self.curnode = save
            # keep the frame only when closures may capture it
            if not any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for n in _inner(f.node)):
                st.frames.pop(fid, None)

    # ------------------------------------------------------------ generators
    def run_gen(self, genv, st, handler):
        """run generator object genv feeding every yielded value to handler(value, st)->tree.
        returns tree with leaves fall / xbreak / xreturn..."""
        c = self.content(genv, st)
        key = c.args[0]
        f = self.FUN[key]
        kv = c.args[1:]
        b = {kv[i].args[0]: kv[i + 1] for i in range(0, len(kv), 2)}
        if len(self.stack) > MAXDEPTH or self.stack.count(key) >= 3:
            raise Unsupported('generator recursion')
        fid = self.fresh('f')
        st.frames[fid] = dict(b)
        ctx = (self.frame, self.parent, self.stack, self.modstack, self.ybase)
        gpar = dict(self.parent)
        gpar[fid] = f.env

        gctx = (fid, gpar, self.stack + [key], self.modstack + [f.mod])

        def h(v, s):
            inner = (self.frame, self.parent, self.stack, self.modstack, self.ybase)
            self.frame, self.parent, self.stack, self.modstack, self.ybase = ctx
            # allow loops inside the consumer to nest below the producer's loops
            try:
                tr = handler(v, s)
            finally:
                self.frame, self.parent, self.stack, self.modstack, self.ybase = inner
            return tr
        self.frame, self.parent, self.stack, self.modstack = gctx
        self.ybase = self.ybase + [h]
        try:
            tr = self.block(f.node.body, st)
        finally:
            self.frame, self.parent, self.stack, self.modstack, self.ybase = ctx
        return maptree(tr, lambda l: Leaf('fall', l.st) if l.kind == 'return' else l)

    def do_yield(self, y, st):
        h = self.ybase[-1]
        if isinstance(y, ast.Yield):
            v = NONE if y.value is None else self.ev(y.value, st)
            return h(v, st)
        it = self.ev(y.value, st)
        return self.iterate(it, st, lambda v, s: h(v, s))

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)

        def body(v, z):
            self.assign(s.target, v, z)
            return self.block(s.body, z)
        tr = self.iterate(it, st, body)
        tr = maptree(tr, lambda l: Leaf('fall', l.st) if l.kind == 'xbreak' else l)
        if s.orelse:
            raise Unsupported('for else')
        ls = list(leaves(tr))
        if len(ls) > 1 and all(l.kind == 'fall' for l in ls):
            return self.collapse(tr)
        return tr

    def iterate(self, it, st, body):
        """body(value, state)->tree with leaves fall/continue/break/return/x*.
        Result leaves: fall, xbreak (from the consumer's break), xreturn, return..."""
        def wrap(v, z):
            tr = body(v, z)
            return maptree(tr, lambda l: Leaf('fall', l.st) if l.kind == 'continue' else
                           Leaf('xbreak', l.st) if l.kind == 'break' else
                           Leaf('xreturn', l.st, l.val) if l.kind == 'return' else l)
        k = self.kindof(it, st)
        if k == 'gen':
            tr = self.run_gen(it, st, wrap)
        elif it.op == 'ite' and self.hasref(it):
            c, a, b = it.args
            tr = self.branch(c, st, lambda z: self.iterate(a, z, body), lambda z: self.iterate(b, z, body))
            return tr
        else:
            n, elem = self.as_seq(it, st)
            nv = intval(n)
            if nv is not None and nv <= UNROLL and not (it.op == 'range' and nv > UNROLL):
                tr = Leaf('fall', st)
                for i in range(nv):
                    tr = self.graft(tr, lambda z, i=i: wrap(elem(const(i), z), z))
                    if sum(1 for _ in leaves(tr)) > 200:
                        raise Unsupported('unroll blowup')
            else:
                tr = self.symloop(st, n, None, lambda k, z: wrap(elem(k, z), z))
        return maptree(tr, lambda l: Leaf('return', l.st, l.val) if l.kind == 'xreturn' else l)

    def s_While(self, s, st):
        if s.orelse:
            raise Unsupported('while else')
        # try complete unrolling first
        n = 0
        tr = self._while_unroll(s, st.copy(), 0)
        if tr is not None:
            tr = maptree(tr, lambda l: Leaf('fall', l.st) if l.kind == 'xbreak' else l)
            return tr

        def cond(z):
            return truthy(self.cond(s.test, z))

        def body(k, z):
            t = self.block(s.body, z)
            return maptree(t, lambda l: Leaf('fall', l.st) if l.kind == 'continue' else
                           Leaf('xbreak', l.st) if l.kind == 'break' else
                           Leaf('xreturn', l.st, l.val) if l.kind == 'return' else l)
        tr = self.symloop(st, None, cond, body)
        tr = maptree(tr, lambda l: Leaf('fall', l.st) if l.kind == 'xbreak' else
                     Leaf('return', l.st, l.val) if l.kind == 'xreturn' else l)
        ls = list(leaves(tr))
        if len(ls) > 1 and all(l.kind == 'fall' for l in ls):
            return self.collapse(tr)
        return tr

    def _while_unroll(self, s, st, n):
        save = (len(self.obl), len(self.calls), self.collect)
        # cheap test: does the first evaluation decide?
        tr = Leaf('fall', st)
        for i in range(UNROLL + 1):
            if not isinstance(tr, Leaf):
                falls = [l for l in leaves(tr) if l.kind == 'fall']
                if len(falls) != 1:
                    del self.obl[save[0]:], self.calls[save[1]:]
                    return None
                z = falls[0].st
            else:
                z = tr.st
            c = truthy(self.cond(s.test, z))
            d = self.decide(c, z)
            if d is None or i == UNROLL:
                del self.obl[save[0]:], self.calls[save[1]:]
                return None
            if d is False:
                return tr
            r = self.block(s.body, z)
            r = maptree(r, lambda l: Leaf('fall', l.st) if l.kind == 'continue' else
                        Leaf('xbreak', l.st) if l.kind == 'break' else l)
            if isinstance(tr, Leaf):
                tr = r
            else:
                tr = maptree(tr, lambda l: r if l.kind == 'fall' else l)
            fl = [l for l in leaves(tr) if l.kind == 'fall']
            if not fl:
                return tr
        return None

    def symloop(self, st, n, condf, bodyf):
        """summarise a loop.  n: trip count term (for) or None (while with condf)."""
        self.loopdepth += 1
        depth = self.loopdepth
        if depth > 12:
            raise Unsupported('loop nesting')
        ksym = sym('$k%d' % depth, 'int', 0, None)
        if n is not None:
            hi = bounds(n)[1]
            ksym = sym('$k%d' % depth, 'int', 0, int(hi) - 1 if hi not in (X.inf,) and hi >= 1 else None)
        try:
            return self._symloop(st, n, condf, bodyf, depth, ksym)
        finally:
            self.loopdepth -= 1

    def _symloop(self, st, n, condf, bodyf, depth, ksym):
        outer_frames = {f: set(fr) for f, fr in st.frames.items()}
        outer_heap = set(st.heap)
        mus = {}            # (kind,id,[path]) -> mu spec
        affine = {}         # loc -> closed form at iteration k
        appended = {}       # oid -> elements
        kinds = {}
        nobl, ncalls = len(self.obl), len(self.calls)
        dead = set()

        def start():
            z = st.copy()
            for loc, t in mus.items():
                self._setloc(z, loc, t)
            for loc, t in affine.items():
                self._setloc(z, loc, t)
            return z
        rounds = 0
        noaffine = set()
        while True:
            rounds += 1
            if rounds > 14:
                raise Unsupported('loop fixpoint')
            del self.obl[nobl:], self.calls[ncalls:]
            z = start()
            if n is not None:
                z.assume(X.ge0(ksym))
                z.assume(X.gt0(sub(n, ksym)))
                c = TRUE
            else:
                c = condf(z)
                if c is FALSE:
                    return Leaf('fall', st)
                z.assume(c)
                chg = self._diffcheck(st, z, mus, affine, outer_frames, outer_heap)
            tr = bodyf(ksym, z)
            ls = list(leaves(tr))
            exits = [l for l in ls if l.kind in ('xbreak', 'xreturn', 'break', 'return')]
            nexts = [l for l in ls if l.kind == 'fall']
            # merge into a single end-of-iteration state
            ctl = None
            if exits:
                ctl = self._ctl(tr)
                retv = self._retv(tr)
            tr2 = maptree(tr, lambda l: Leaf('fall', l.st) if l.kind != 'raise' else l)
            end = self.collapse(tr2).st if len(ls) > 1 else tr2.st
            # which locations changed?
            newmu = False
            finals = {}
            for f, names in outer_frames.items():
                fr0, fr1 = st.frames[f], end.frames.get(f)
                if fr1 is None:
                    continue
                for nm in fr1:
                    loc = ('v', f, nm)
                    if nm not in names:
                        continue
                    cur = mus.get(loc) or affine.get(loc)
                    before = cur if cur is not None else fr0[nm]
                    v1 = fr1[nm]
                    if v1 is before and loc not in mus and loc not in affine:
                        continue
                    finals[loc] = v1
                    if cur is None:
                        mus[loc] = self._havoc(fr0[nm], v1, st, end, depth, len(mus), kinds, loc)
                        newmu = True
            for o in outer_heap:
                loc = ('h', o, None)
                h0, h1 = st.heap[o], end.heap[o]
                cur = mus.get(loc) or affine.get(loc)
                before = cur if cur is not None else h0.c
                if h1.c is before and loc not in mus and loc not in affine:
                    continue
                finals[loc] = h1.c
                if cur is None:
                    mus[loc] = self._havoc_h(h0, h1, depth, len(mus))
                    newmu = True
            for o in end.heap:
                # implicit resources created in the loop body
                if o.startswith('x:') and o not in outer_heap:
                    self.aux(st, o[2:])
                    outer_heap.add(o)
                    newmu = True
            if newmu:
                continue
            # kind check of mus, affine detection
            redo = False
            for loc, m in list(mus.items()):
                if loc in noaffine:
                    continue
                fin = finals.get(loc)
                if fin is None:
                    continue
                init = self._getloc(st, loc)
                if loc[0] == 'v':
                    if m.op in ('list', 'tuple') and not self._compat(m, fin, end):
                        # structure mismatch: fall back to an unstructured havoc
                        mus[loc] = sym('$m%d_%d' % (depth, self._munum(loc, mus)), 'any')
                        kinds[loc] = 'any'
                        redo = True
                        continue
                    fr = self._reify_mu(fin, end, m)
                    if m.op == 'sym' and m.args[1] == 'int' and not is_int(fr):
                        mus[loc] = sym(m.args[0], 'real')
                        redo = True
                        continue
                    if m.op == 'sym' and m.args[1] == 'bool' and not is_cond(fr):
                        mus[loc] = sym(m.args[0], 'any')
                        redo = True
                        continue
                    if m.op == 'sym' and m.args[1] == 'real' and not isreal(fr):
                        mus[loc] = sym(m.args[0], 'any')
                        redo = True
                        continue
                    cf = self._affine(m, fr, self.reify(init, st), ksym, mus)
                    if cf is not None and not exits_touch(ctl):
                        affine[loc] = cf
                        del mus[loc]
                        redo = True
                        continue
                    noaffine_later = loc
                else:
                    pass
            if redo:
                continue
            break
        # ---- trip count
        count = n
        if n is None:
            count = self._tripcount(c, ksym)
        # list appends
        comps = {}
        for loc, m in list(mus.items()):
            if loc[0] == 'h' and m.op == 'mem' and not ctl:
                fin = self.reify(finals[loc], end) if _contains_ref(finals[loc]) else finals[loc]
                comps[loc] = fin
        fin = {}
        for loc, m in mus.items():
            v = finals.get(loc, m)
            fin[loc] = self._reify_mu(v, end, m) if loc[0] == 'v' else self.reify(v, end)
        allmus = {}
        for loc, m in mus.items():
            for x in flat(m):
                allmus[x] = loc
        out = st
        # variables whose value does not depend on loop carried state are handled by closed form
        comp_locs = {}
        muset = set(allmus)
        newc = {}
        for loc, m in mus.items():
            if loc[0] == 'h' and seqkind(m) == 'list' and ctl is None:
                e = self._append_elems(m, fin[loc])
                if e is not None:
                    newc[loc] = e
        for loc, (e, guard) in list(newc.items()):
            bad = False
            for x in e + [guard]:
                if syms(x) & muset:
                    bad = True
            for l2, v in fin.items():
                if l2 != loc and mus[loc] in syms(v):
                    bad = True
            if c is not None and mus[loc] in syms(c):
                bad = True
            if count is None:
                bad = True
            if not bad:
                comp_locs[loc] = (e, guard)
        loopmus = {loc: m for loc, m in mus.items() if loc not in comp_locs}
        summary = None
        res = {}
        # simple last-value variables
        for loc in list(loopmus):
            v = fin[loc]
            used = any((set(flat(mus[loc])) & syms(w)) for l2, w in fin.items()) or \
                (c is not None and set(flat(mus[loc])) & syms(c)) or (ctl is not None and set(flat(mus[loc])) & syms(ctl)) \
                or any(set(flat(mus[loc])) & syms(x) for e, g in comp_locs.values() for x in e + [g])
            if not used and not (syms(v) & muset) and count is not None and ctl is None:
                last = subst(v, {ksym: sub(count, ONE)})
                init = self.reify(self._getloc(st, loc), st)
                res[loc] = ite(X.gt0(count), last, init)
                del loopmus[loc]
        if loopmus or ctl is not None:
            L = self._summarise(loopmus, fin, st, count, None if count is not None else c, ctl,
                                retv if ctl is not None else None, ksym, depth)
            for loc in loopmus:
                res[loc] = L['after'][loc]
        for loc, cf in affine.items():
            if count is not None:
                if ctl is None:
                    res[loc] = subst(cf, {ksym: X.relu(count)})
                else:
                    res[loc] = subst(cf, {ksym: L['trips']})
            else:
                L2 = L if (loopmus or ctl is not None) else \
                    self._summarise({}, {}, st, None, c, None, None, ksym, depth)
                res[loc] = subst(cf, {ksym: L2['trips']})
        for loc, (e, guard) in comp_locs.items():
            init = self._getloc(st, loc)
            res[loc] = concat(init, mkcomp(e, count, ksym, guard))
        # write back
        for loc, v in res.items():
            self._setloc(out, loc, self._wrapval(v, loc, st, out))
        # header caches survive loops on parameters (see header stability)
        for o in outer_heap:
            h1 = end.heap[o]
            h0 = out.heap[o]
            if h0.hdr is not None and h1.hdr is not None and ('h', o, None) in res:
                out.heap[o] = HObj(h0.kind, h0.c, h0.root, {i: v for i, v in h0.hdr.items() if h1.hdr.get(i) is v})
        # resources referenced by closures created in the body
        for fid, fr in end.frames.items():
            if fid not in out.frames:
                out.frames[fid] = fr
            else:
                # variables first assigned inside the loop (visible after it)
                for nm, v in fr.items():
                    if nm not in out.frames[fid]:
                        rv = self._reify_fnsafe(v, end)
                        sv = syms(rv)
                        if not (sv & muset) and ksym not in sv:
                            pass
                        elif count is not None and not (sv & muset) and ctl is None:
                            rv = subst(rv, {ksym: sub(count, ONE)})
                        else:
                            rv = app('lastiter', rv)
                        out.frames[fid][nm] = rv
        if ctl is None:
            return Leaf('fall', out)
        kindsx = {l.kind for l in exits}
        if 'xreturn' in kindsx or 'return' in kindsx:
            rk = 'xreturn' if 'xreturn' in kindsx else 'return'
            ret = L['ret']
            cnd = L['returned']
            return Br(cnd, Leaf(rk, out.copy(), ret), Leaf('fall', out))
        return Leaf('fall', out)

    def _reify_fnsafe(self, v, st):
        try:
            return self.reify(v, st)
        except Unsupported:
            return v

    def _diffcheck(self, *a):
        return None

    def _munum(self, loc, mus):
        return list(mus).index(loc)

    def _getloc(self, st, loc):
        if loc[0] == 'v':
            return st.frames[loc[1]][loc[2]]
        return st.heap[loc[1]].c

    def _setloc(self, st, loc, v):
        if loc[0] == 'v':
            if _needs_box(v):
                pass
            st.frames[loc[1]][loc[2]] = v
        else:
            o = st.heap[loc[1]]
            st.heap[loc[1]] = o.but(v)

    def _wrapval(self, v, loc, st0, st):
        if loc[0] == 'v':
            old = st0.frames[loc[1]][loc[2]]
            k = seqkind(v)
            if k in ('list', 'bytes') and v.op not in ('sym',):
                return self.alloc(st, k, v)
        return v

    def _havoc(self, v0, v1, st0, st1, depth, i, kinds, loc):
        a = self.reify(v0, st0) if v0.op != 'fn' else v0
        b = self._reify_fnsafe(v1, st1)
        return self._havoc_t(a, b, '$m%d_%d' % (depth, i))

    def _havoc_t(self, a, b, name):
        if a.op in ('list', 'tuple') and b.op == a.op and len(a.args) == len(b.args) and 0 < len(a.args) <= 6:
            return mk(a.op, *[self._havoc_t(x, y, '%s_%d' % (name, j)) for j, (x, y) in enumerate(zip(a.args, b.args))])
        if is_int(a) and is_int(b) and not is_cond(a):
            return sym(name, 'int')
        if a in (TRUE, FALSE) and is_cond(b):
            return sym(name, 'bool')
        k = seqkind(a)
        if k and seqkind(b) == k:
            return mk('mem', k, name)
        if isreal(a) and isreal(b):
            return sym(name, 'real')
        return sym(name, 'any')

    def _havoc_h(self, h0, h1, depth, i):
        if h0.kind in ('bytes', 'list', 'dict', 'str'):
            return mk('mem', h0.kind, '$m%d_%d' % (depth, i))
        return sym('$m%d_%d' % (depth, i), 'any')

    def _compat(self, m, fin, end):
        f = self._reify_fnsafe(fin, end)
        if m.op in ('list', 'tuple'):
            return f.op == m.op and len(f.args) == len(m.args) and \
                all(self._compat(x, y, end) for x, y in zip(m.args, f.args))
        if m.op == 'sym' and m.args[1] == 'int':
            return is_int(f)
        if m.op == 'sym' and m.args[1] == 'real':
            return isreal(f)
        return True

    def _reify_mu(self, v, end, m):
        return self._reify_fnsafe(v, end)

    def _affine(self, m, fin, init, ksym, mus):
        """fin = m + c (c loop invariant) -> init + c*k"""
        ms = set()
        for x in mus.values():
            ms.update(flat(x))
        if m.op == 'sym' and m.args[1] in ('int', 'real', 'any'):
            if fin is m:
                return init
            if not X._isnumeric(fin) or fin.op not in X.NUMOPS:
                return None
            dlt = sub(fin, m)
            ds = syms(dlt)
            if ds & ms or ksym in ds:
                # telescoping sums of k are left to the loop term
                return None
            return add(init, mul(ksym, dlt))
        if m.op in ('list', 'tuple') and fin.op == m.op and init.op == m.op and len(fin.args) == len(m.args) == len(init.args):
            parts = [self._affine(a, b, i, ksym, mus) for a, b, i in zip(m.args, fin.args, init.args)]
            if all(p is not None for p in parts):
                return mk(m.op, *parts)
        return None

    def _tripcount(self, c, ksym):
        """closed form of the number of iterations when c is  A - B*k >= 0"""
        cs = c.args if c.op == 'and' else (c,)
        outs = []
        for x in cs:
            if x.op not in ('ge0', 'gt0'):
                if ksym not in syms(x):
                    return None
                return None
            d = dict(X._terms(x.args[0]))
            b = d.pop(((ksym, 1),), None)
            A = X._frompoly(d)
            if b is None or b >= 0 or ksym in syms(A):
                return None
            if any(s.args[0].startswith('$m') for s in syms(A)):
                return None
            if x.op == 'gt0':
                if not (is_int(A) and b.denominator == 1):
                    # k < A/|b|  -> ceil
                    outs.append(X.relu(neg(app('fd', X.scale(A, Fraction(1) / b), ONE))))
                    continue
                A = sub(A, ONE)
            if is_int(A) and b.denominator == 1:
                outs.append(X.relu(add(X.fd(A, const(int(-b))), ONE)))
            else:
                outs.append(X.relu(add(app('fd', X.scale(A, Fraction(1) / -b), ONE), ONE)))
        if len(outs) == 1:
            return outs[0]
        return X.minn(outs)

    def _append_elems(self, m, v):
        """v == concat(m, e1, e2...) or gated by one condition -> ([elems], guard)"""
        if v is m:
            return None
        if v.op == 'concat' and v.args[0] is m:
            es = []
            for x in v.args[1:]:
                if x.op in ('list', 'tuple'):
                    es.extend(x.args)
                else:
                    es.append(mk('splice', x))
            if m in set().union(*[set(X.syms(e)) for e in es]) if es else False:
                return None
            for e in es:
                if any(a is m for a in X.atoms(e)):
                    return None
            return es, TRUE
        if v.op == 'ite':
            c, a, b = v.args
            if any(x is m for x in X.atoms(c)):
                return None
            if a is m:
                r = self._append_elems(m, b)
                return None if r is None else (r[0], conj(negate(c), r[1]))
            if b is m:
                r = self._append_elems(m, a)
                return None if r is None else (r[0], conj(c, r[1]))
            ra, rb = self._append_elems(m, a), self._append_elems(m, b)
            if ra and rb and ra[1] is TRUE and rb[1] is TRUE and len(ra[0]) == len(rb[0]):
                return [ite(c, x, y) for x, y in zip(ra[0], rb[0])], TRUE
        return None

    def _ctl(self, tr):
        if isinstance(tr, Leaf):
            return const({'fall': 'n', 'raise': 'n', 'xbreak': 'b', 'break': 'b', 'xreturn': 'r', 'return': 'r'}[tr.kind])
        return ite(tr.c, self._ctl(tr.t), self._ctl(tr.f))

    def _retv(self, tr):
        if isinstance(tr, Leaf):
            return self.reify(tr.val, tr.st) if tr.kind in ('xreturn', 'return') and tr.val is not None else NONE
        return ite(tr.c, self._retv(tr.t), self._retv(tr.f))

    def _summarise(self, mus, fin, st, count, cond, ctl, retv, ksym, depth):
        """canonical loop terms"""
        comps = []
        for loc, m in mus.items():
            init = self._reify_fnsafe(self._getloc(st, loc), st)
            comps.append((loc, m, init, fin[loc]))
        # flatten structured mus
        slots = []      # (mu, init, final, loc, path)

        def fl(loc, m, i, f, path):
            if m.op in ('list', 'tuple') and m.args:
                for j, x in enumerate(m.args):
                    fl(loc, x, idx(i, const(j)), idx(f, const(j)), path + (j,))
            else:
                slots.append((m, i, f, loc, path))
        for loc, m, i, f in comps:
            fl(loc, m, i, f, ())
        extra = []
        if ctl is not None:
            extra.append(ctl)
            extra.append(retv)
        if cond is not None:
            extra.append(cond)
        bylh = {}
        afters = {}
        base_h = 1 + max([bheight(x) for _, _, f, _, _ in slots for x in (f,)] + [bheight(x) for x in extra] + [0])

        def closure(seed):
            need = set()
            todo = list(seed)
            while todo:
                t = todo.pop()
                for s in musyms(t):
                    for si, (m, i, f, loc, path) in enumerate(slots):
                        if m is s and si not in need:
                            need.add(si)
                            todo.append(f)
            return need

        def build(need):
            key = frozenset(need)
            if key in bylh:
                return bylh[key]
            ordl = sorted(need)
            color = {si: mk('col', slots[si][1], sk(slots[si][0])) for si in ordl}
            for _ in range(min(len(ordl), 4) + 1):
                # the states of enclosing loops are still free: their names must not decide the order
                env = {s: mk('col', NONE, sk(s)) for si in ordl for s in musyms(slots[si][2])}
                env.update({slots[si][0]: color[si] for si in ordl})
                color = {si: mk('col', color[si], gsubst(slots[si][2], env)) for si in ordl}
            ordl.sort(key=lambda si: (color[si].d, si))
            h = 1 + max([bheight(slots[si][2]) for si in ordl] + [bheight(x) for x in extra] + [0])
            env = {ksym: sym('#k%d' % h, 'int', 0, None)}
            for j, si in enumerate(ordl):
                m = slots[si][0]
                env[m] = sym('#m%d_%d' % (h, j), m.args[1], None, None) if m.op == 'sym' else mk('mem', m.args[0], '#m%d_%d' % (h, j))
            bodies = [gsubst(slots[si][2], env) for si in ordl]
            inits = [slots[si][1] for si in ordl]
            ex = [gsubst(x, env) for x in extra]
            L = mk('loop', h, count if count is not None else NONE, mk('tuple', *inits), mk('tuple', *bodies),
                   mk('tuple', *ex))
            bylh[key] = (L, ordl)
            return bylh[key]
        base_need = closure(extra)
        res = {}
        for si, (m, i, f, loc, path) in enumerate(slots):
            need = closure([f]) | {si} | base_need
            L, ordl = build(need)
            t = mk('after', seqkind(m) or (m.args[1] if m.op == 'sym' else None), L, ordl.index(si))
            afters[(loc, path)] = t

        def unfl(loc, m, path):
            if m.op in ('list', 'tuple') and m.args:
                return mk(m.op, *[unfl(loc, x, path + (j,)) for j, x in enumerate(m.args)])
            return afters[(loc, path)]
        out = {'after': {loc: unfl(loc, m, ()) for loc, m, _, _ in comps}}
        if extra or count is None:
            L, ordl = build(base_need)
            out['trips'] = app('trips', L)
            out['ret'] = mk('loopret', L)
            out['returned'] = mk('truthy', app('loopreturned', L))
        return out

    # ------------------------------------------------------------ sequences
    def as_seq(self, v, st):
        """-> (count term, elem(k, state))"""
        o = v.op
        if o == 'range':
            lo, hi, step = v.args
            sv = intval(step)
            if sv is None:
                n = X.ite(X.gt(step, ZERO), X.relu(X.fd(add(add(sub(hi, lo), step), const(-1)), step)),
                          X.relu(X.fd(add(add(sub(lo, hi), neg(step)), const(-1)), neg(step))))
                return n, lambda k, z: add(lo, mul(k, step))
            if sv > 0:
                n = X.relu(X.fd(add(sub(hi, lo), const(sv - 1)), const(sv)))
            else:
                n = X.relu(X.fd(add(sub(lo, hi), const(-sv - 1)), const(-sv)))
            return n, lambda k, z: add(lo, mul(k, step))
        if o == 'enumerate':
            n, e = self.as_seq(v.args[0], st)
            return n, lambda k, z: mk('tuple', add(v.args[1], k), e(k, z))
        if o == 'zip':
            parts = [self.as_seq(a, st) for a in v.args]
            n = parts[0][0]
            for p in parts[1:]:
                n = n if n is p[0] else X.min2(n, p[0])
            return n, lambda k, z: mk('tuple', *[p[1](k, z) for p in parts])
        if o == 'reversed':
            n, e = self.as_seq(v.args[0], st)
            return n, lambda k, z: e(sub(sub(n, ONE), k), z)
        if o == 'mapv':
            n, e = self.as_seq(v.args[1], st)
            return n, lambda k, z: self.call(v.args[0], [e(k, z)], {}, z)
        if o == 'geniter':
            n = app('count', v)
            return n, lambda k, z: mk('elem', v, k)
        if o == 'iterof':
            return self.as_seq(v.args[0], st)
        k = self.kindof(v, st)
        if k in ('gen',):
            c = self.tolist(v, st)
            return length(c), lambda k, z: idx(c, k)
        if k == 'iter':
            return self.as_seq(self.content(v, st), st)
        if k == 'dict':
            c = self.content(v, st)
            if c.op == 'dict':
                ks = c.args[::2]
                return const(len(ks)), lambda k, z: ks[intval(k)] if intval(k) is not None else idx(mk('list', *ks), k)
            return app('len', c), lambda k, z: mk('elem', c, k)
        c = self.content(v, st)
        if c.op in VSEQ:
            return self.as_seq(c, st)
        return length(c), lambda k, z: idx(c, k)

    def tolist(self, v, st):
        """list content (term) of an iterable"""
        if v.op == 'ite' and self.hasref(v) and self.kindof(v, st) in ('gen', 'iter'):
            c, a, b = v.args
            s1, s2 = st.copy(), st.copy()
            ra, rb = self.tolist(a, s1), self.tolist(b, s2)
            ra, rb = self.reify(ra, s1), self.reify(rb, s2)
            m = self.merge(c, s1, s2)
            st.frames, st.heap = m.frames, m.heap
            return ite(c, ra, rb)
        c = self.content(v, st) if self.hasref(v) else v
        k = self.kindof(v, st)
        if k not in ('gen', 'iter', 'dict') and c.op not in VSEQ:
            if c.op == 'tuple':
                return mk('list', *c.args)
            if c.op == 'bytes':
                return mk('list', *c.args)
            if seqkind(c) == 'list':
                return c
            return app('aslist', c)
        if c.op == 'geniter':
            return app('aslist', c)
        lst = self.alloc(st, 'list', mk('list'))

        def body(x, z):
            self.mutate(lst, z, lambda q: concat(q, mk('list', x)))
            return Leaf('fall', z)
        tr = self.iterate(v, st, body)
        l = self.collapse(tr)
        if l.st is not st:
            st.frames, st.heap, st.facts = l.st.frames, l.st.heap, l.st.facts
        return self.content(lst, st)

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        return truthy(self.contentcond(self.ev(e, st), st))

    def contentcond(self, v, st):
        if self.hasref(v):
            return self.content(v, st)
        return v

    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, bytes):
            return mk('bytes', *[const(b) for b in v])
        return const(v)

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        fid = self.frame
        while fid in self.compframes and self.parent.get(fid) is not None:
            fid = self.parent[fid]      # a walrus in a comprehension binds in the enclosing scope
        st.frames[fid][e.target.id] = v
        return v

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.alloc(st, 'list', concat(*([mk('list')] + [self.seqcontent(self.ev(x.value, st), st) if isinstance(x, ast.Starred)
                                                   else mk('list', self.ev(x, st)) for x in e.elts])))
        return self.alloc(st, 'list', mk('list', *[self.ev(x, st) for x in e.elts]))

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return concat(*([mk('tuple')] + [tuplify(self.seqcontent(self.ev(x.value, st), st)) if isinstance(x, ast.Starred)
                                            else mk('tuple', self.ev(x, st)) for x in e.elts]))
        return mk('tuple', *[self.ev(x, st) for x in e.elts])

    def e_Set(self, e, st):
        return mk('set', *sorted([self.ev(x, st) for x in e.elts], key=lambda t: t.d))

    def e_Dict(self, e, st):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict **')
            out += [self.reify(self.ev(k, st), st), self.ev(v, st)]
        return self.alloc(st, 'dict', mk('dict', *out))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.reify(self.ev(v.value, st), st)
                if v.conversion not in (-1, 115):
                    x = app('repr', x)
                parts.append(x if seqkind(x) == 'str' and v.format_spec is None else
                             app('str', x) if v.format_spec is None else app('fmtspec', x))
        return strcat(*parts)

    def e_FormattedValue(self, e, st):
        return app('str', self.reify(self.ev(e.value, st), st))

    def e_Lambda(self, e, st):
        return self.defun(e, st)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        d = self.decide(c, st)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(negate(c))
        a = self.ev(e.body, s1)
        b = self.ev(e.orelse, s2)
        m = self.merge(c, s1, s2)
        facts = st.facts
        st.frames, st.heap, st.facts = m.frames, m.heap, facts
        return self.mergeval(c, a, s1, b, s2, st)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        conds = []
        cur = st
        facts0 = st.facts
        for i, x in enumerate(e.values):
            v = self.ev(x, cur)
            vals.append(v)
            if i < len(e.values) - 1:
                c = truthy(self.contentcond(v, cur))
                d = self.decide(c, cur)
                if d is (not isand):
                    break
                cur.assume(c if isand else negate(c))
        st.facts = facts0
        r = vals[-1]
        for v in reversed(vals[:-1]):
            c = truthy(self.contentcond(v, st))
            if is_cond(v) and is_cond(r):
                r = conj(v, r) if isand else disj(v, r)
            elif is_cond(v):
                r = ite(c, r, FALSE) if isand else ite(c, TRUE, r)
            else:
                r = ite(c, r, v) if isand else ite(c, v, r)
        return r

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return negate(truthy(self.contentcond(v, st)))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return X.binvert(v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st)

    def isseq(self, v, st):
        return self.kindof(v, st) in ('list', 'bytes', 'tuple') or v.op == 'tuple'

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            if self.isseq(a, st) or self.isseq(b, st):
                ca, cb = self.content(a, st), self.content(b, st)
                r = concat(ca, cb)
                k = self.kindof(a, st)
                if seqkind(ca) == 'tuple' and k == 'tuple':
                    return r
                return self.alloc(st, k or 'list', r)
            if seqkind(a) == 'str' or seqkind(b) == 'str':
                return strcat(a, b)
            return add(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if self.isseq(x, st):
                    r = X.rep(self.content(x, st), y)
                    if self.kindof(x, st) == 'tuple':
                        return r
                    return self.alloc(st, self.kindof(x, st), r)
                if seqkind(x) == 'str':
                    return X.rep(x, y)
            return mul(a, b)
        a, b = self.content(a, st), self.content(b, st)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return X.fd(a, b)
        if isinstance(op, ast.Mod):
            if seqkind(a) == 'str':
                return app('fmt', a, b)
            return X.mod(a, b)
        if isinstance(op, ast.Pow):
            return X.power(a, b)
        if isinstance(op, ast.LShift):
            return X.shl(a, b)
        if isinstance(op, ast.RShift):
            return X.shr(a, b)
        if isinstance(op, ast.BitAnd):
            return X.band(a, b)
        if isinstance(op, ast.BitOr):
            return X.bor(a, b)
        if isinstance(op, ast.BitXor):
            return X.bxor(a, b)
        raise Unsupported('operator')

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(op, left, right, st))
            left = right
        return conj(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = eq(a, b) if not (self.hasref(a) or self.hasref(b)) else (TRUE if a is b else FALSE if NONE in (a, b) or a.op == b.op == 'ref' else eq(a, b))
            return r if isinstance(op, ast.Is) else negate(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return r if isinstance(op, ast.In) else negate(r)
        a, b = self.reify(a, st), self.reify(b, st)
        if isinstance(op, ast.Eq):
            return typeeq(a, b)
        if isinstance(op, ast.NotEq):
            return negate(typeeq(a, b))
        if isinstance(op, ast.Lt):
            return X.lt(a, b)
        if isinstance(op, ast.LtE):
            return X.le(a, b)
        if isinstance(op, ast.Gt):
            return X.gt(a, b)
        return X.ge(a, b)

    def contains(self, a, b, st):
        c = self.reify(b, st)
        a = self.reify(a, st)
        if c.op in ('list', 'tuple', 'bytes', 'set') and len(c.args) <= 64:
            return disj(*[typeeq(a, x) for x in c.args]) if c.args else FALSE
        if c.op == 'dict' and len(c.args) <= 128:
            return disj(*[typeeq(a, x) for x in c.args[::2]]) if c.args else FALSE
        return mk('truthy', app('in', a, c))

    def evindex(self, s, st):
        if isinstance(s, ast.Slice):
            lo = NONE if s.lower is None else self.ev(s.lower, st)
            hi = NONE if s.upper is None else self.ev(s.upper, st)
            stp = ONE if s.step is None else self.ev(s.step, st)
            return (lo, hi, stp)
        return self.ev(s, st)

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        return self.subscript(base, self.evindex(e.slice, st), st, e)

    def subscript(self, base, i, st, node=None):
        if base.op == 'builtin':
            return base          # list[int] style annotations
        k = self.kindof(base, st)
        if k == 'dict' or base.op == 'dict':
            c = self.content(base, st)
            ri = self.reify(i, st)
            b = self.biglookup(c, ri, st)
            return b if b is not None else dictget(c, ri)
        if isinstance(i, tuple):
            c = self.content(base, st)
            r = slice_(c, *i)
            if k == 'tuple' or k == 'str':
                return r
            if self.collect and k == 'bytes':
                self.note('sliceload', base, i, None, st, node)
            return self.alloc(st, k or 'list', r) if k in ('list', 'bytes') else r
        if base.op == 'ref':
            o = st.heap[base.args[0]]
            if o.hdr is not None:
                v = intval(i)
                if v is not None and v in o.hdr:
                    return o.hdr[v]
        if self.collect and k == 'bytes':
            self.note('load', base, i, None, st, node)
        c = self.content(base, st)
        i = coerce01(i) if is_cond(i) else i
        if c in BIGLIT:
            b = self.biglookup(c, i, st)
            if b is not None:
                return b
        return idx(c, i)

    def e_Attribute(self, e, st):
        v = self.ev(e.value, st)
        if v.op == 'extmod':
            return self.extval(v.args[0] + '.' + e.attr)
        if v.op == 'pkgmod':
            return self.glob(v.args[0], e.attr, st)
        if v.op == 'fn' and e.attr == '__name__':
            return const(self.fnname(v))
        if v.op == 'fn' and e.attr == '__doc__':
            return app('doc', v)
        if e.attr == 'real':
            return real_part(v)
        if e.attr == 'imag':
            return imag_part(v)
        if v.op == 'builtin':
            return mk('builtin', v.args[0] + '.' + e.attr)
        return app('attr:' + e.attr, self.reify(v, st))

    def comp_iter(self, gens, st, emit):
        """run nested comprehension generators; emit(st)->None at the innermost"""
        g = gens[0]
        it = self.ev(g.iter, st)

        def body(v, z):
            self.assign(g.target, v, z)
            tr = Leaf('fall', z)
            cs = [self.cond(c, z) for c in g.ifs]
            c = conj(*cs) if cs else TRUE

            def go(y):
                if len(gens) > 1:
                    return self.comp_iter(gens[1:], y, emit)
                return emit(y)
            return self.branch(c, z, go, lambda y: Leaf('fall', y))
        return self.iterate(it, st, body)

    def _comp(self, elt, gens, st):
        fid = self.fresh('f')
        st.frames[fid] = {}
        save = (self.frame, self.parent)
        self.parent = dict(self.parent)
        self.parent[fid] = self.frame
        lst = self.alloc(st, 'list', mk('list'))
        self.compframes.add(fid)
        self.frame = fid
        try:
            def emit(z):
                v = self.ev(elt, z)
                self.mutate(lst, z, lambda c: concat(c, mk('list', v)))
                return Leaf('fall', z)
            tr = self.comp_iter(gens, st, emit)
            l = self.collapse(tr)
            if l.st is not st:
                st.frames, st.heap = l.st.frames, l.st.heap
        finally:
            self.frame, self.parent = save
        return lst

    def e_ListComp(self, e, st):
        return self._comp(e.elt, e.generators, st)

    def e_GeneratorExp(self, e, st):
        return self._comp(e.elt, e.generators, st)

    def e_SetComp(self, e, st):
        return app('setof', self.content(self._comp(e.elt, e.generators, st), st))

    def e_DictComp(self, e, st):
        t = ast.Tuple([e.key, e.value], ast.Load())
        l = self._comp(t, e.generators, st)
        c = self.reify(l, st)
        if c.op == 'list' and all(a.op == 'tuple' for a in c.args):
            return self.alloc(st, 'dict', mk('dict', *[y for a in c.args for y in a.args]))
        return self.alloc(st, 'dict', mk('dictof', c))

    def e_Call(self, e, st):
        f = e.func
        args, kw = [], {}
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, st)
            if base.op not in ('extmod', 'pkgmod', 'builtin') and not (base.op == 'fn'):
                args, kw = self.evargs(e, st)
                return self.method(base, f.attr, args, kw, st, f.value)
            fn = self.e_Attribute(f, st)
        else:
            fn = self.ev(f, st)
        args, kw = self.evargs(e, st)
        save = self.curnode
        self.curnode = e
        try:
            return self.call(fn, args, kw, st, e)
        finally:
            self.curnode = save

    def evargs(self, e, st):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                c = self.seqcontent(v, st)
                if c.op in ('tuple', 'list', 'bytes'):
                    args.extend(c.args)
                else:
                    args.append(mk('star', self.reify(c, st)))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            if k.arg is None:
                v = self.content(self.ev(k.value, st), st)
                if v.op != 'dict':
                    raise Unsupported('** of unknown')
                for i in range(0, len(v.args), 2):
                    kw[v.args[i].args[0]] = v.args[i + 1]
            else:
                kw[k.arg] = self.ev(k.value, st)
        if any(a.op == 'star' for a in args):
            return args, kw
        return args, kw

    # ------------------------------------------------------------ methods
    def method(self, base, name, args, kw, st, node=None):
        k = self.kindof(base, st)
        if k in ('list', 'bytes') and self.hasref(base):
            if name == 'append':
                v = args[0]
                self.mutate(base, st, lambda c: concat(c, mk('list' if k == 'list' else 'bytes', v)))
                return NONE
            if name in ('extend', 'frombytes', 'fromlist'):
                v = self.seqcontent(args[0], st)
                self.mutate(base, st, lambda c: concat(c, v if c.args or k == 'list' else asbytes(v)) if k == 'list' else concat(c, asbytes(v)))
                return NONE
            if name == 'reverse':
                self.mutate(base, st, lambda c: X.reverse(c))
                return NONE
            if name == 'sort':
                kk = [mk('tuple', const(a), self.reify(b, st)) for a, b in sorted(kw.items())]
                self.mutate(base, st, lambda c: app('sorted', self.reify(c, st), *kk))
                return NONE
            if name == 'index':
                return app('index', self.reify(base, st), self.reify(args[0], st))
            if name == 'copy':
                return self.alloc(st, k, self.content(base, st))
            if name == 'tolist':
                return self.alloc(st, 'list', app('aslist', self.content(base, st)))
            if name == 'count':
                return app('countof', self.reify(base, st), self.reify(args[0], st))
            if name == 'pop':
                c = self.content(base, st)
                i = args[0] if args else const(-1)
                r = idx(c, i)
                self.mutate(base, st, lambda c: app('popped', c, i) if c.op != 'list' or intval(i) is None else
                            mk('list', *[x for j, x in enumerate(c.args) if j != intval(i) % len(c.args)]))
                return r
            if name == 'insert':
                self.mutate(base, st, lambda c: concat(slice_(c, NONE, args[0]), mk('list', args[1]), slice_(c, args[0], NONE)))
                return NONE
            raise Unsupported('list method ' + name)
        if k == 'dict':
            c = self.content(base, st)
            if name == 'items':
                if c.op == 'dict':
                    return mk('list', *[mk('tuple', c.args[i], c.args[i + 1]) for i in range(0, len(c.args), 2)])
                return app('items', c)
            if name == 'keys':
                return mk('list', *c.args[::2]) if c.op == 'dict' else app('keys', c)
            if name == 'values':
                return mk('list', *c.args[1::2]) if c.op == 'dict' else app('values', c)
            if name == 'get':
                key = self.reify(args[0], st)
                d = args[1] if len(args) > 1 else NONE
                if c.op == 'dict':
                    r = d
                    for i in range(len(c.args) - 2, -1, -2):
                        r = ite(typeeq(c.args[i], key), c.args[i + 1], r)
                    return r
                return app('dictgetd', c, key, d)
            if name == 'setdefault':
                key = self.reify(args[0], st)
                d = args[1] if len(args) > 1 else NONE
                self.mutate(base, st, lambda c: app('setdefault', c, key, d))
                return app('dictgetd', c, key, d)
            if name in ('update',):
                v = self.reify(args[0], st)
                self.mutate(base, st, lambda c: app('dictupdate', c, v))
                return NONE
            raise Unsupported('dict method ' + name)
        if k == 'file' or base.op == 'file':
            return self.filemethod(base, name, args, st)
        if name == 'conjugate':
            return conjugate(base)
        if k == 'str' or base.op in ('const', 'app', 'sym', 'idx', 'ret', 'call', 'ite', 'concat', 'slice', 'after', 'loopret'):
            rb = self.reify(base, st)
            ra = [self.reify(a, st) for a in args] + [mk('tuple', const(a), self.reify(b, st)) for a, b in sorted(kw.items())]
            if rb.op == 'const' and isinstance(rb.args[0], str) and all(a.op == 'const' or intval(a) is not None for a in ra) \
                    and name in ('lower', 'upper', 'strip', 'zfill', 'replace', 'split', 'startswith', 'endswith'):
                try:
                    r = getattr(rb.args[0], name)(*[a.args[0] if a.op == 'const' else intval(a) for a in ra])
                    if isinstance(r, list):
                        return self.alloc(st, 'list', mk('list', *[const(x) for x in r]))
                    return const(r)
                except Exception:
                    pass
            if self.extlog and name not in PURE_METH:
                return self.external('meth:' + name, [rb] + ra, st)
            return app('meth:' + name, rb, *ra)
        raise Unsupported('method %s on %s' % (name, base.op))

    def filemethod(self, base, name, args, st):
        f = base
        if name == 'read':
            pos = self.aux(st, 'fpos').c
            n = args[0] if args else NONE
            r = app('fileread', f, pos, n)
            self.setaux(st, 'fpos', app('advanced', pos, n))
            return mk('asbytes', mk('sym', 'file:' + r.d.hex(), 'bytes', None, None)) if False else mk('retseq', 'bytes', r)
        if name == 'seek':
            self.setaux(st, 'fpos', args[0])
            return NONE
        if name == 'write':
            self.setaux(st, 'fs', mk('written', self.aux(st, 'fs').c, f, self.reify(args[0], st)))
            return NONE
        if name == 'close':
            return NONE
        raise Unsupported('file method ' + name)

    # ------------------------------------------------------------ builtins
    def builtin(self, q, args, kw, st, node=None):
        m = getattr(self, 'b_' + q.replace('.', '_'), None)
        if m is not None:
            return m(args, kw, st)
        if q in IMPURE:
            ra = [self.reify(a, st) for a in args]
            r = IMPURE[q]
            cur = self.aux(st, r).c
            self.setaux(st, r, mk('auxpost', cur, app('ext:' + q, *ra)))
            return app('draw:' + q, cur, *ra)
        if q in EXC:
            return app('exc:' + q, *[self.reify(a, st) for a in args])
        ra = [self.reify(a, st) for a in args] + [mk('tuple', const(k), self.reify(v, st)) for k, v in sorted(kw.items())]
        if self.extlog and q.split('.')[0] == 'subprocess':
            return self.external('ext:' + q, ra, st)
        return app('ext:' + q, *ra)

    def external(self, q, ra, st):
        cur = self.aux(st, 'ext').c
        self.setaux(st, 'ext', mk('auxpost', cur, app(q, *ra)))
        return app('ran:' + q, cur, *ra)

    def b_functools_wraps(self, args, kw, st):
        return mk('partialdec', args[0])

    def b_range(self, args, kw, st):
        if len(args) == 1:
            return mk('range', ZERO, args[0], ONE)
        if len(args) == 2:
            return mk('range', args[0], args[1], ONE)
        return mk('range', *args)

    def b_len(self, args, kw, st):
        v = args[0]
        if v.op in VSEQ and v.op != 'geniter':
            return self.as_seq(v, st)[0]
        c = self.content(v, st)
        if c.op == 'dict':
            return const(len(c.args) // 2)
        return length(c)

    def b_list(self, args, kw, st):
        if not args:
            return self.alloc(st, 'list', mk('list'))
        return self.alloc(st, 'list', self.tolist(args[0], st))

    def b_tuple(self, args, kw, st):
        if not args:
            return mk('tuple')
        c = self.reify(self.tolist(args[0], st), st)
        return tuplify(c)

    def b_set(self, args, kw, st):
        if not args:
            return mk('set')
        return app('setof', self.reify(self.tolist(args[0], st), st))

    def b_dict(self, args, kw, st):
        if not args:
            return self.alloc(st, 'dict', mk('dict', *[y for k, v in kw.items() for y in (const(k), v)]))
        return self.alloc(st, 'dict', app('dictof', self.reify(args[0], st)))

    def b_array_array(self, args, kw, st):
        if len(args) < 2:
            return self.alloc(st, 'bytes', mk('bytes'))
        v = args[1]
        c = self.reify(self.seqcontent(v, st), st)
        self.note_bytes(c, st)
        return self.alloc(st, 'bytes', asbytes(c))

    b_bytearray = lambda self, args, kw, st: self.alloc(st, 'bytes', self._bytes(args, st))

    def b_bytes(self, args, kw, st):
        return self.alloc(st, 'bytes', self._bytes(args, st))

    def _bytes(self, args, st):
        if not args:
            return mk('bytes')
        v = args[0]
        if not self.hasref(v) and is_int(v):
            return X.rep(mk('bytes', ZERO), v)
        return asbytes(self.reify(self.seqcontent(v, st), st))

    def note_bytes(self, c, st):
        if self.collect:
            self.obl.append(('bytes', c, st.facts, tuple(self.stack), self.modstack[-1] if self.modstack else '?', self.curnode))

    def b_ord(self, args, kw, st):
        a = args[0]
        if a.op == 'const' and isinstance(a.args[0], str) and len(a.args[0]) == 1:
            return const(ord(a.args[0]))
        return app('ord', self.content(a, st))

    def b_chr(self, args, kw, st):
        v = intval(args[0])
        return const(chr(v)) if v is not None and 0 <= v < 0x110000 else app('str', app('chr', args[0]))

    def b_str(self, args, kw, st):
        a = self.reify(args[0], st) if args else const('')
        if a.op == 'const' and isinstance(a.args[0], str):
            return a
        v = intval(a)
        if v is not None and a.op == 'num':
            return const(str(v))
        if seqkind(a) == 'str':
            return a
        return app('str', a)

    def b_print(self, args, kw, st):
        ra = [self.reify(a, st) for a in args] + [mk('tuple', const(k), self.reify(v, st)) for k, v in sorted(kw.items())]
        self.setaux(st, 'io', mk('print', self.aux(st, 'io').c, *ra))
        return NONE

    def b_exit(self, args, kw, st):
        self.setaux(st, 'exc', app('exit', *[self.reify(a, st) for a in args]))
        return NONE
    b_sys_exit = b_exit

    def _minmax(self, args, st, mx):
        if len(args) == 1:
            c = self.reify(self.seqcontent(args[0], st), st)
            if c.op in ('list', 'tuple', 'bytes') and c.args:
                return X.maxn(list(c.args)) if mx else X.minn(list(c.args))
            return app('maxof' if mx else 'minof', c)
        return X.maxn(list(args)) if mx else X.minn(list(args))

    def b_max(self, args, kw, st):
        return self._minmax(args, st, True)

    def b_min(self, args, kw, st):
        return self._minmax(args, st, False)

    def b_abs(self, args, kw, st):
        a = args[0]
        if not maybe_complex(a):
            return X.absval(a)
        return app('cabs', a)

    def b_int(self, args, kw, st):
        a = args[0] if args else ZERO
        a = self.content(a, st)
        if a.op == 'const' and isinstance(a.args[0], str):
            try:
                return const(int(a.args[0]))
            except ValueError:
                return app('parseint', a)
        if seqkind(a) == 'str':
            return app('parseint', a)
        if is_cond(a):
            return coerce01(a)
        return X.trunc(a)

    def b_float(self, args, kw, st):
        return args[0]

    def b_bool(self, args, kw, st):
        return truthy(self.content(args[0], st))

    def b_round(self, args, kw, st):
        if len(args) > 1:
            return app('roundn', *args)
        return X.round_(args[0])

    def b_complex(self, args, kw, st):
        if len(args) == 1:
            return args[0]
        return add(args[0], mul(X.const(1j), args[1]))

    def b_sum(self, args, kw, st):
        c = self.reify(self.seqcontent(args[0], st), st)
        s0 = args[1] if len(args) > 1 else ZERO
        return add(s0, sumof(c))

    def b_enumerate(self, args, kw, st):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        return mk('enumerate', self.snap(args[0], st), start)

    def b_zip(self, args, kw, st):
        return mk('zip', *[self.snap(a, st) for a in args])

    def snap(self, v, st):
        if v.op in VSEQ:
            return v
        if self.kindof(v, st) in ('gen', 'iter', 'dict'):
            return self.tolist(v, st)
        return v

    def b_reversed(self, args, kw, st):
        v = args[0]
        if v.op in VSEQ:
            return mk('reversed', v)
        c = self.seqcontent(v, st)
        return X.reverse(c) if seqkind(c) != 'bytes' else mk('reversed', c)

    def b_map(self, args, kw, st):
        if len(args) == 2:
            return mk('mapv', args[0], self.snap(args[1], st))
        n = len(args) - 1
        z = mk('zip', *[self.snap(a, st) for a in args[1:]])
        cnt, e = self.as_seq(z, st)
        lst = self.alloc(st, 'list', mk('list'))

        def body(x, zst):
            v = self.call(args[0], list(x.args), {}, zst)
            self.mutate(lst, zst, lambda q: concat(q, mk('list', v)))
            return Leaf('fall', zst)
        l = self.collapse(self.iterate(z, st, body))
        if l.st is not st:
            st.frames, st.heap = l.st.frames, l.st.heap
        return lst

    def b_functools_reduce(self, args, kw, st):
        f, seq = args[0], args[1]
        n, e = self.as_seq(seq, st)
        nv = intval(n)
        if nv is None or nv > UNROLL or (nv == 0 and len(args) < 3):
            return app('reduce', self.reify(f, st), self.reify(self.seqcontent(seq, st), st), *[self.reify(a, st) for a in args[2:]])
        i = 0
        if len(args) > 2:
            acc = args[2]
        else:
            acc = e(ZERO, st)
            i = 1
        while i < nv:
            acc = self.call(f, [acc, e(const(i), st)], {}, st)
            i += 1
        return acc

    def b_divmod(self, args, kw, st):
        q = X.fd(*args)
        return mk('tuple', q, X.mod(*args))

    def b_pow(self, args, kw, st):
        return X.power(*args[:2])

    def b_sorted(self, args, kw, st):
        c = self.reify(self.seqcontent(args[0], st), st)
        kk = [mk('tuple', const(a), self.reify(b, st)) for a, b in sorted(kw.items())]
        if c.op in ('list', 'tuple') and not kk and len(c.args) == 2 and all(X._isnumeric(a) for a in c.args):
            return self.alloc(st, 'list', mk('list', X.min2(*c.args), X.max2(*c.args)))
        return self.alloc(st, 'list', app('sorted', c, *kk))

    def b_any(self, args, kw, st):
        c = self.reify(self.seqcontent(args[0], st), st)
        if c.op in ('list', 'tuple'):
            return disj(*[truthy(a) for a in c.args]) if c.args else FALSE
        return mk('truthy', app('any', c))

    def b_all(self, args, kw, st):
        c = self.reify(self.seqcontent(args[0], st), st)
        if c.op in ('list', 'tuple'):
            return conj(*[truthy(a) for a in c.args]) if c.args else TRUE
        return mk('truthy', app('all', c))

    def b_iter(self, args, kw, st):
        return args[0]

    def b_next(self, args, kw, st):
        return app('next', self.reify(args[0], st))

    def b_type(self, args, kw, st):
        v = args[0]
        k = self.kindof(v, st)
        if k == 'bytes' and self.hasref(v):
            return mk('builtin', 'array.array')
        if k in ('list', 'dict', 'tuple', 'str'):
            return mk('builtin', k)
        if v is NONE:
            return app('NoneType')
        if v.op == 'sym' and v.args[1] in ('int', 'bool', 'str'):
            return mk('builtin', v.args[1])
        if v.op in ('fn', 'lam'):
            return app('FunctionType')
        if v in (TRUE, FALSE):
            return mk('builtin', 'bool')
        if v.op not in ('ite',) and is_int(v):
            return mk('builtin', 'int')
        return app('type', self.reify(v, st))

    def b_isinstance(self, args, kw, st):
        ts = args[1]
        lst = ts.args if ts.op == 'tuple' else (ts,)
        ty = self.b_type([args[0]], {}, st)
        return disj(*[typeeq(ty, t) for t in lst])

    def b_open(self, args, kw, st):
        mode = args[1] if len(args) > 1 else kw.get('mode', const('r'))
        self.setaux(st, 'fs', mk('opened', self.aux(st, 'fs').c, self.reify(args[0], st), mode))
        self.setaux(st, 'fpos', ZERO)
        return mk('file', self.reify(args[0], st), mode)

    def b_math_radians(self, args, kw, st):
        return mul(args[0], X.scale(PI, Fraction(1, 180)))

    def b_math_degrees(self, args, kw, st):
        return div(X.scale(args[0], 180), PI)

    def b_math_sqrt(self, args, kw, st):
        v = numval(args[0])
        if v is not None and v >= 0:
            r = math.isqrt(v.numerator * v.denominator)
            if r * r == v.numerator * v.denominator:
                return X.mk('num', Fraction(r, v.denominator))
        return app('sqrt', args[0])

    def _trig(name):
        def f(self, args, kw, st):
            a = args[0]
            if name in ('sin', 'cos'):
                if a is ZERO:
                    return ZERO if name == 'sin' else ONE
                k, q = X._content(a) if X._terms(a) else (1, a)
                if k < 0:
                    r = app(name, neg(a))
                    return neg(r) if name == 'sin' else r
            return app(name, a)
        return f
    b_math_sin = _trig('sin')
    b_math_cos = _trig('cos')
    b_math_tanh = _trig('tanh')
    b_math_exp = _trig('exp')

    def b_math_comb(self, args, kw, st):
        a, b = intval(args[0]), intval(args[1])
        if a is not None and b is not None:
            return const(math.comb(a, b))
        return app('comb', *args)

    def b_math_ceil(self, args, kw, st):
        return neg(X.fd(neg(args[0]), ONE))

    def b_math_floor(self, args, kw, st):
        return X.fd(args[0], ONE)

    def b_cmath_rect(self, args, kw, st):
        r, t = args
        return add(mul(r, app('cos', t)), mul(X.const(1j), mul(r, app('sin', t))))


PI = sym('pi', 'real', Fraction(3141592653, 10 ** 9), Fraction(3141592654, 10 ** 9))
VSEQ = ('range', 'enumerate', 'zip', 'reversed', 'geniter', 'mapv')


def _inner(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        yield from ast.walk(b)


def exits_touch(ctl):
    return False


def refs(v):
    if v.op == 'ref':
        yield v.args[0]
    elif v.op == 'ite':
        yield from refs(v.args[1])
        yield from refs(v.args[2])


_CR = {}


def _contains_ref(v):
    r = _CR.get(v)
    if r is None:
        if v.op in ('ref', 'fn', 'gen'):
            r = True
        else:
            r = any(_contains_ref(c) for c in X.children(v))
        _CR[v] = r
    return r


def _needs_box(v):
    return False


def tuplify(c):
    if c.op in ('list', 'bytes', 'tuple'):
        return mk('tuple', *c.args)
    return mk('astuple', c) if False else app('tuple', c)


def asbytes(c):
    o = c.op
    if o in ('list', 'tuple', 'bytes'):
        return mk('bytes', *c.args)
    if seqkind(c) == 'bytes':
        return c
    if o == 'rep':
        return X.rep(asbytes(c.args[0]), c.args[1])
    if o == 'concat':
        return concat(*[asbytes(a) for a in c.args])
    if o == 'ite':
        return ite(c.args[0], asbytes(c.args[1]), asbytes(c.args[2]))
    if o == 'app' and c.args[0] == 'aslist' and seqkind(c.args[1]) == 'bytes':
        return c.args[1]
    return mk('asbytes', c)


def strcat(*parts):
    out = []
    for p in parts:
        for x in (p.args[1:] if p.op == 'app' and p.args[0] == 'strcat' else (p,)):
            if out and out[-1].op == 'const' and x.op == 'const' and isinstance(x.args[0], str) and isinstance(out[-1].args[0], str):
                out[-1] = const(out[-1].args[0] + x.args[0])
            elif x.op == 'const' and x.args[0] == '':
                continue
            else:
                out.append(x)
    if not out:
        return const('')
    if len(out) == 1:
        return out[0]
    return app('strcat', *out)


def coerce01(v):
    return v


def typeeq(a, b):
    if a.op == 'builtin' and b.op == 'builtin':
        return TRUE if a is b else FALSE
    if {a.op, b.op} == {'builtin', 'app'}:
        x = a if a.op == 'app' else b
        if x.args[0] in ('NoneType', 'FunctionType'):
            return FALSE
    if a.op == 'fn' and b.op == 'fn':
        return TRUE if a is b else FALSE
    return eq(a, b)


def isreal(t):
    o = t.op
    if o in ('num', 'relu', 'max', 'min') or is_int(t):
        return True
    if o == 'sym':
        return t.args[1] in ('int', 'real', 'bool')
    if o == 'poly':
        return all(isreal(a) for m, c in t.args for a, e in m)
    if o == 'app':
        return t.args[0] in ('sin', 'cos', 'tanh', 'sqrt', 'cabs', 'real', 'imag', 'exp', 'trunc', 'round') or \
            t.args[0] in ('pow', 'inv', 'fd') and all(isreal(a) for a in t.args[1:])
    if o == 'ite':
        return isreal(t.args[1]) and isreal(t.args[2])
    if o == 'after':
        return t.args[0] in ('int', 'real')
    return False


def maybe_complex(t):
    if isreal(t):
        return False
    for a in X.atoms(t):
        if a.op == 'sym' and a.args[1] == 'complex':
            return True
    return False


J = None


def real_part(v):
    d = X._terms(v)
    jj = X.sym('j', 'complex')
    if any(any(a is jj for a, e in m) for m in d) or isreal(v):
        rest = X._frompoly({m: c for m, c in d.items() if not any(a is jj for a, e in m)})
        im = X._frompoly({tuple((a, e) for a, e in m if a is not jj): c for m, c in d.items() if any(a is jj for a, e in m)})
        if isreal_loose(rest) and isreal_loose(im):
            return rest
    return app('real', v)


def imag_part(v):
    d = X._terms(v)
    jj = X.sym('j', 'complex')
    if any(any(a is jj for a, e in m) for m in d) or isreal(v):
        rest = X._frompoly({m: c for m, c in d.items() if not any(a is jj for a, e in m)})
        im = X._frompoly({tuple((a, e) for a, e in m if a is not jj): c for m, c in d.items() if any(a is jj for a, e in m)})
        if isreal_loose(rest) and isreal_loose(im):
            return im
    return app('imag', v)


def isreal_loose(t):
    """no complex atom in sight: parameters of unknown kind count as real here"""
    for a in X.atoms(t):
        if a.op == 'sym' and (a.args[1] == 'complex' or a.args[0].startswith('$m')):
            if a.args[1] in ('int', 'real'):
                continue
            return False
        if a.op == 'app' and a.args[0] in ('real', 'imag', 'cabs'):
            continue
        if a.op in ('ret', 'call', 'elem', 'after') and not isreal(a):
            return False
    return True


def conjugate(v):
    jj = X.sym('j', 'complex')
    d = X._terms(v)
    if isreal_loose(X._frompoly({tuple((a, e) for a, e in m if a is not jj): c for m, c in d.items()})):
        return subst(v, {jj: neg(jj)})
    return app('conj', v)


def sumof(c):
    if c.op in ('list', 'tuple', 'bytes'):
        return add(ZERO, *c.args)
    if c.op == 'concat':
        return add(*[sumof(a) for a in c.args])
    if c.op == 'rep':
        return mul(sumof(c.args[0]), X.relu(c.args[1]))
    if c.op == 'ite':
        return ite(c.args[0], sumof(c.args[1]), sumof(c.args[2]))
    if c.op == 'comp':
        # linearity: sum(a*x_k) = a*sum(x_k)
        e, n, k, g = c.args
        if g is TRUE and e.op != 'splice':
            out = ZERO
            for m, co in X._terms(e).items():
                outer = tuple((a, x) for a, x in m if k not in syms(a))
                inner = tuple((a, x) for a, x in m if k in syms(a))
                o = X._frompoly({outer: co})
                if not inner:
                    out = add(out, mul(o, X.relu(n)))
                else:
                    ie = X._frompoly({inner: Fraction(1)})
                    out = add(out, mul(o, app('sum', mkcomp([ie], n, k, TRUE))))
            return out
    if seqkind(c) in ('list', 'tuple', 'bytes') or c.op in ('sym', 'idx', 'ret', 'slice', 'retseq'):
        # the same sum written through indices
        k = sym('#k1', 'int', 0, None)
        return app('sum', mk('comp', idx(c, k), length(c), k, TRUE))
    return app('sum', c)


def nokey(t):
    return t.op == 'app' and t.args[0] == 'keyerror'


def dictget(c, key):
    if c.op == 'dict':
        r = None
        for i in range(len(c.args) - 2, -1, -2):
            e = typeeq(c.args[i], key)
            if e is TRUE:
                # later entries override earlier ones: scanning from the end
                return c.args[i + 1] if r is None else ite(FALSE, NONE, _dchain(c, key, i))
            if e is not FALSE:
                r = True
        if r is None:
            return app('keyerror', key)
        return _dchain(c, key, 0)
    return mk('dget', c, key)


def _dchain(c, key, lo):
    r = None
    for i in range(lo, len(c.args), 2):
        e = typeeq(c.args[i], key)
        if e is FALSE:
            continue
        r = ite(e, c.args[i + 1], app('keyerror', key) if r is None else r)
    return r


def dictset(c, key, v):
    if c.op == 'dict':
        args = list(c.args)
        for i in range(0, len(args), 2):
            e = typeeq(args[i], key)
            if e is TRUE:
                args[i + 1] = v
                return mk('dict', *args)
            if e is not FALSE:
                return mk('dset', c, key, v)
        return mk('dict', *(args + [key, v]))
    return mk('dset', c, key, v)


def flat(m):
    if m.op in ('list', 'tuple') and m.args:
        out = []
        for a in m.args:
            out += flat(a)
        return out
    return [m]


def musyms(t):
    return [a for a in X.atoms(t) if (a.op == 'sym' or a.op == 'mem') and str(a.args[0 if a.op == 'sym' else 1]).startswith('$m')]


def sk(m):
    return const('%s:%s' % (m.op, m.args[1] if m.op == 'sym' else m.args[0]))


def gsubst(t, env):
    return subst(t, env)


_BH = {}


def bheight(t):
    """largest bound index name already used inside t"""
    r = _BH.get(t)
    if r is None:
        if t.op == 'sym':
            n = t.args[0]
            r = 0
            if n.startswith('#k') or n.startswith('#m'):
                r = int(n[2:].split('_')[0])
        elif t.op == 'mem' and t.args[1].startswith('#m'):
            r = int(t.args[1][2:].split('_')[0])
        else:
            r = max([bheight(c) for c in X.children(t)] + [0])
        _BH[t] = r
    return r


def mkcomp(elems, count, ksym, guard):
    """list built by appending elems (guarded) for k in range(count)"""
    if len(elems) == 1:
        e = elems[0]
    elif all(x.op != 'splice' for x in elems):
        e = mk('splice', mk('list', *elems))
    else:
        e = mk('splice', concat(mk('list'), *[x.args[0] if x.op == 'splice' else mk('list', x) for x in elems]))
    cv = intval(count)
    if cv is not None and cv <= UNROLL and guard is TRUE:
        parts = []
        for i in range(max(cv, 0)):
            x = subst(e, {ksym: const(i)})
            parts.append(x.args[0] if x.op == 'splice' else mk('list', x))
        return concat(mk('list'), *parts)
    h = 1 + max(bheight(e), bheight(guard))
    k2 = sym('#k%d' % h, 'int', 0, None)
    e2 = subst(e, {ksym: k2})
    g2 = subst(guard, {ksym: k2})
    # [x[k] for k in range(len(x))] is x
    if g2 is TRUE and e2.op == 'idx' and e2.args[1] is k2 and length(e2.args[0]) is count and k2 not in syms(e2.args[0]):
        s = e2.args[0]
        if seqkind(s) == 'list':
            return s
        return app('aslist', s) if s.op not in ('tuple', 'bytes') else mk('list', *s.args)
    return mk('comp', e2, count, k2, g2)


def _extent(t):
    """(start, end, step) of the cells written by the outermost write of t, or None when
    the write may change the length"""
    if t.op == 'store':
        i = t.args[1]
        return i, add(i, ONE), ONE
    if t.op == 'sstore':
        _, lo, hi, st, val = t.args
        if bounds(lo)[0] < 0 or bounds(hi)[0] < 0:
            return None
        if st is ONE:
            n = length(val)
            if n is not sub(hi, lo):
                return None
        elif intval(st) is None or intval(st) < 1:
            return None
        return lo, hi, st
    return None


def _below(x, y):
    """-1: every cell of x precedes y and they are disjoint; 1 the reverse; 2: disjoint,
    interleaved with x starting first; 3 the reverse; None otherwise"""
    if bounds(sub(y[0], x[1]))[0] >= 0:
        return -1
    if bounds(sub(x[0], y[1]))[0] >= 0:
        return 1
    sx, sy = intval(x[2]), intval(y[2])
    if sx == sy and sx and sx > 1:
        d = numval(sub(y[0], x[0]))
        if d is not None and d % sx:
            return 2 if d > 0 else 3
    if sx == sy and sx is None and x[2] is y[2]:
        d = numval(sub(y[0], x[0]))
        if d is not None and d != 0 and bounds(sub(x[2], const(abs(d))))[0] > 0:
            return 2 if d > 0 else 3
    return None


def _rewrite(t, base):
    return mk(t.op, base, *t.args[1:])


def _push(w):
    """canonical position of the outermost write of w among the writes below it:
    provably disjoint writes are ordered by address"""
    c = w.args[0]
    if c.op not in ('store', 'sstore'):
        return w
    ew, ec = _extent(w), _extent(c)
    if ew is None or ec is None:
        return w
    r = _below(ew, ec)
    if r in (-1, 2):
        inner = _again(w, c.args[0])
        return _rewrite(c, inner)
    return w


def _again(w, base):
    if w.op == 'store':
        return mkstore(base, w.args[1], w.args[2])
    return mkslstore(base, *w.args[1:])


def mkstore(c, i, v):
    if c.op in ('list', 'bytes', 'tuple') and intval(i) is not None and -len(c.args) <= intval(i) < len(c.args):
        a = list(c.args)
        a[intval(i)] = v
        return mk(c.op, *a)
    if idx(c, i) is v:
        return c
    if c.op == 'store':
        b, j, w = c.args
        if sub(i, j) is ZERO:
            return mkstore(b, i, v)
    return _push(mk('store', c, i, v))


def mkslstore(c, lo, hi, step, val):
    n = length(c)
    if c.op in ('list', 'bytes') and step is ONE and (lo is NONE or intval(lo) is not None) and (hi is NONE or intval(hi) is not None) \
            and val.op in ('list', 'bytes', 'tuple'):
        l = list(c.args)
        l[slice(None if lo is NONE else intval(lo), None if hi is NONE else intval(hi))] = val.args
        return mk(c.op, *l)
    if c.op in ('list', 'bytes') and intval(step) is not None and intval(step) > 0 and \
            (lo is NONE or intval(lo) is not None) and (hi is NONE or intval(hi) is not None) and val.op in ('list', 'bytes', 'tuple'):
        l = list(c.args)
        r = range(len(l))[slice(None if lo is NONE else intval(lo), None if hi is NONE else intval(hi), intval(step))]
        if len(r) == len(val.args):
            for j, x in zip(r, val.args):
                l[j] = x
            return mk(c.op, *l)
    if step is NONE:
        step = ONE
    if lo is NONE:
        lo = ZERO
    if hi is NONE:
        hi = n
    if step is ONE:
        if val.op == 'asbytes' and val.args[0].op == 'concat':
            val = val.args[0]
        w = sub(hi, lo)
        wv = intval(w)
        if wv is not None and 0 <= wv <= 128 and val.op in ('bytes', 'list') and len(val.args) == wv:
            for j in range(wv):
                c = mkstore(c, add(lo, const(j)), val.args[j])
            return c
        if val.op == 'concat' and bounds(lo)[0] >= 0:
            ls = [length(x) for x in val.args]
            if add(*ls) is w:
                a = lo
                for x, l in zip(val.args, ls):
                    c = mkslstore(c, a, add(a, l), ONE, x)
                    a = add(a, l)
                return c
    else:
        hi = _normstop(lo, hi, step)
    if slice_(c, lo, hi, step) is val:
        return c
    if c.op == 'sstore' and c.args[1] is lo and c.args[2] is hi and c.args[3] is step and \
            _extent(c) is not None and (step is not ONE or length(val) is sub(hi, lo)):
        return mkslstore(c.args[0], lo, hi, step, val)
    return _push(mk('sstore', c, lo, hi, step, val))


def _normstop(lo, hi, step):
    return hi


def _rcomp(e, n, k, g):
    nv = intval(n)
    if k.op == 'sym' and nv is not None and nv <= UNROLL and g is TRUE:
        return mkcomp([e] if e.op != 'splice' else list(e.args[0].args) if e.args[0].op == 'list' else [e], n, k, g)
    return mk('comp', e, n, k, g)


X.CONSTRUCT.update({'store': mkstore, 'sstore': mkslstore, 'comp': _rcomp, 'asbytes': asbytes})
