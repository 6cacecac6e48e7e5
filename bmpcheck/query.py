"""Query helpers: evaluate a package function (or a specification snippet) on
symbolic arguments and return its value graph."""
import ast

from . import terms as X
from .interp import Interp, Policy, State, Unsupported, Func, HObj, Leaf
from .terms import mk, const, sym, NONE, ZERO, ONE, TRUE, FALSE, add, sub, scale
from .loader import Program, Broken

HDR = {24: 54, 8: 1078, 4: 118, 1: 62}


def hdr_bytes(v, n):
    """little endian byte terms of a non negative integer term"""
    return [X.mod(X.fd(v, const(256 ** i)), const(256)) if i < n - 1 or True else None for i in range(n)]


def bmp_param(it, st, name, bits, W=None, H=None, maxdim=1 << 24):
    """a well formed image parameter: header reads resolve to W, H, bits ..."""
    from .ri import IMGBITS
    IMGBITS[name] = bits
    W = W if W is not None else sym(name + '.W', 'int', 1, maxdim - 1)
    H = H if H is not None else sym(name + '.H', 'int', 1, maxdim - 1)
    hdr = {}
    b = const(bits) if isinstance(bits, int) else bits
    hdr[28] = b
    for i, x in enumerate(hdr_bytes(W, 3)):
        hdr[18 + i] = x
    hdr[21] = ZERO
    for i, x in enumerate(hdr_bytes(H, 3)):
        hdr[22 + i] = x
    hdr[25] = ZERO
    if isinstance(bits, int):
        hs = HDR[bits]
        for i in range(4):
            hdr[10 + i] = const(hs >> (8 * i) & 255)
        S = stride(W, bits)
        fs = add(const(hs), X.mul(S, H))
    else:
        hs = sym(name + '.hdsz', 'int', 54, 1078)
        for i, x in enumerate(hdr_bytes(hs, 3)):
            hdr[10 + i] = x
        hdr[13] = ZERO
        fs = sym(name + '.fsz', 'int', 54, 1 << 55)
    F = sym(name + '.fsz', 'int', 54, 256 ** 7 - 1)
    for i, x in enumerate(hdr_bytes(F, 7)):
        hdr[2 + i] = x
    r = it.root(st, name, 'bytes', sym(name, 'bytes'), hdr)
    return r


def stride(W, bits):
    if bits == 24:
        return scale(X.fd(add(scale(W, 3), const(3)), const(4)), 4)
    per = 8 // bits
    # ceil(ceil(W/per)/4)*4
    return scale(X.fd(add(W, const(4 * per - 1)), const(4 * per)), 4)


def run(it, st, fn, args, kw=None):
    """call fn (term) -> Result"""
    st0 = {k: o for k, o in st.heap.items()}
    v = it.call(fn, args, kw or {}, st)
    v = drain(it, v, st)
    return Result(it, st0, st, v)


def drain(it, v, st):
    """the sequence of values a returned generator yields, each as it is when yielded"""
    if v.op == 'ite' and it.hasref(v):
        ks = {it.kindof(v.args[1], st), it.kindof(v.args[2], st)}
        if 'gen' in ks:
            s1, s2 = st.copy(), st.copy()
            s1.assume(v.args[0])
            s2.assume(X.negate(v.args[0]))
            a = it.reify(drain(it, v.args[1], s1), s1)
            b = it.reify(drain(it, v.args[2], s2), s2)
            m = it.merge(v.args[0], s1, s2)
            st.frames, st.heap = m.frames, m.heap
            return X.ite(v.args[0], a, b)
        return v
    if v.op != 'ref' or it.kindof(v, st) != 'gen':
        return v
    lst = it.alloc(st, 'list', mk('list'))

    def body(x, z):
        y = it.reify(x, z)
        it.mutate(lst, z, lambda q: X.concat(q, mk('list', y)))
        return Leaf('fall', z)
    l = it.collapse(it.iterate(v, st, body))
    if l.st is not st:
        st.frames, st.heap, st.facts = l.st.frames, l.st.heap, l.st.facts
    return mk('yields', it.content(lst, st))


class Result:
    def __init__(self, it, heap0, st, v):
        self.it, self.st, self.v = it, st, v
        self.value = it.reify(v, st)
        self.ret_ref = v
        self.final = {}
        self.changed = {}
        for k, o in st.heap.items():
            if o.root is not None:
                c = it.reify(o.c, st)
                self.final[o.root] = c
                o0 = heap0.get(k)
                init = o0.c if o0 is not None else (sym(o.root, 'any') if o.kind == 'aux' else None)
                if init is not None and it.reify(init, st) is not c and not (o.root.startswith('glob:')):
                    self.changed[o.root] = c
                elif o.root.startswith('glob:') and o0 is not None and o0.c is not o.c:
                    self.changed[o.root] = c

    def aux(self, name):
        return self.final.get('$' + name, sym('$' + name, 'any'))


def gfn(prog, name, mod=None):
    if mod is None:
        mod, node = prog.find(name)
    else:
        mod, node = prog.func(mod, name)
    return mk('fn', 'g:%s.%s' % (mod, node.name))


def spec_fn(it, st, src, mod='BITMAPlib', env=None, decorate=False):
    """compile a specification snippet (def ...) evaluated in the name space of a
    package module"""
    tree = ast.parse(src)
    node = tree.body[-1]
    fid = it.fresh('f')
    st.frames[fid] = dict(env or {})
    st.frames[fid].setdefault('array', mk('builtin', 'array.array'))
    it.modstack.append(mod)
    save = getattr(it, 'frame', None), getattr(it, 'parent', {})
    it.frame = fid
    it.parent = {fid: None}
    try:
        for n in tree.body:
            v = it.defun(n, st, decorate=decorate)
            if not decorate or n is not node:
                st.frames[fid][n.name] = v      # a model's own name stays the package function
    finally:
        it.modstack.pop()
        it.frame, it.parent = save
    return v


def ann(node):
    return ast.unparse(node) if node is not None else ''


def default_param(it, st, arg, bits=None, listlen=None, kinds=None):
    """symbolic argument for a formal parameter from its name and annotation"""
    n, a = arg.arg, ann(arg.annotation)
    kinds = kinds or {}
    if n in kinds:
        k = kinds[n]
        if callable(k):
            return k(it, st, n)
        if isinstance(k, X.T):
            return k
        a = k
    if n == 'bmp' or a == 'bmp':
        return bmp_param(it, st, n, bits)
    if a == 'int':
        return sym(n, 'int')
    if a in ('float', 'Number', 'real'):
        return sym(n, 'real')
    if a == 'str':
        return sym(n, 'str')
    if a == 'bool':
        return sym(n, 'bool')
    if a == 'array':
        return it.root(st, n, 'bytes', sym(n, 'bytes'))
    if a.startswith('list['):
        t = ast.parse(a, mode='eval').body
        s = t.slice
        if isinstance(s, ast.Tuple):
            return it.root(st, n, 'list', mk('list', *[_sub(it, st, e, '%s.%d' % (n, i)) for i, e in enumerate(s.elts)]))
        return it.root(st, n, 'list', sym(n, 'list'))
    if a.startswith('list') or a.startswith('dict'):
        return it.root(st, n, 'list' if a.startswith('list') else 'dict', sym(n, a[:4]))
    if a == 'complex':
        return sym(n, 'complex')
    return sym(n, 'any')


def _sub(it, st, e, n):
    a = ast.unparse(e)
    if a == 'int':
        return sym(n, 'int')
    if a in ('float', 'Number'):
        return sym(n, 'real')
    if a.startswith('list[') and isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Tuple):
        return mk('list', *[_sub(it, st, x, '%s.%d' % (n, i)) for i, x in enumerate(e.slice.elts)])
    return sym(n, 'any')


def params(it, st, node, bits=None, kinds=None):
    return [default_param(it, st, a, bits, None, kinds) for a in node.args.posonlyargs + node.args.args]
