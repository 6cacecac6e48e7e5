"""Self-test of the model comparison: random behaviour-preserving edits must stay quiet,
random behaviour-changing edits should be reported.  Not part of any check."""
import ast, copy, os, random, sys, threading, time, traceback, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import multiprocessing as mp
from bmpcheck.loader import Program, Module
from bmpcheck import spec as SP, model as MD
from bmpcheck.report import Report

BASE = Program()
EFF = SP.effects_of(BASE)


def load(mod, tree):
    m = Module.__new__(Module)
    b = BASE.mods[mod]
    m.name, m.path, m.src = b.name, b.path, b''
    m.tree = tree
    m.names, m.stmts = {}, []
    for n in tree.body:
        m._stmt(n)
    p = Program.__new__(Program)
    p.repo = BASE.repo
    p.mods = dict(BASE.mods)
    p.mods[mod] = m
    SP._EFF[id(p)] = EFF
    return p


# ------------------------------------------------------------------ refactorings
class Ctr:
    n = 0


def fresh(p='t'):
    Ctr.n += 1
    return '%s_%d_' % (p, Ctr.n)


def locals_of(f):
    s = {a.arg for a in f.args.args}
    st = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            st.add(n.id)
    return st - s


def has_nested(f):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f for n in ast.walk(f))


def blocks(f):
    for n in ast.walk(f):
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def r_rename(f, R):
    ls = sorted(locals_of(f))
    if not ls:
        return False
    lam = {a.arg for n in ast.walk(f) if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not f for a in n.args.args}
    m = {l: fresh(l) for l in ls if l not in lam}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
    return True


def r_noop(f, R):
    bs = list(blocks(f))
    _, b = R.choice(bs)
    i = R.randrange(len(b) + (0 if isinstance(b[-1], (ast.Return, ast.Break, ast.Continue)) else 1))
    ps = [a.arg for a in f.args.args]
    s = R.choice(['pass', 'None', fresh() + ' = 0', '0', "''", 'if False:\n    pass'] + (['%s = %s' % (ps[0], ps[0])] if ps else []))
    b[i:i] = ast.parse(s).body
    return True


def r_hoist(f, R):
    """first evaluated argument expression of a simple statement into a temporary"""
    c = []
    for p, b in blocks(f):
        for i, s in enumerate(b):
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.BinOp, ast.Call)):
                if isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
                    continue
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = R.choice(c)
    t = fresh()
    v = s.value
    s.value = ast.Name(t, ast.Load())
    b.insert(i, ast.Assign([ast.Name(t, ast.Store())], v))
    return True


def r_flipcmp(f, R):
    c = [n for n in ast.walk(f) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in
         (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)]
    if not c:
        return False
    n = R.choice(c)
    fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    n.left, n.comparators[0] = n.comparators[0], n.left
    n.ops[0] = fl[type(n.ops[0])]()
    return True


def r_invert(f, R):
    c = [n for n in ast.walk(f) if isinstance(n, ast.If)]
    if not c:
        return False
    n = R.choice(c)
    n.test = ast.UnaryOp(ast.Not(), n.test)
    n.body, n.orelse = (n.orelse or [ast.Pass()]), n.body
    return True


def r_aug(f, R):
    c = []
    ann = {a.arg: ast.unparse(a.annotation) if a.annotation else '' for a in f.args.args}
    for p, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Sub, ast.RShift, ast.Mult)):
                c.append((b, i, s))
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = R.choice(c)
    b[i] = ast.Assign([ast.Name(s.target.id, ast.Store())], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
    return True


def r_while(f, R):
    c = []
    for p, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') == 'range' \
                    and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and not s.orelse \
                    and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(s)):
                st = {x.id for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if s.target.id in st:
                    continue
                rest = [x for q in ast.walk(f) for x in [q] if isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Load)]
                inside = [x for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Load)]
                if len(rest) != len(inside):
                    continue
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = R.choice(c)
    a = s.iter.args
    lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
    h = fresh('hi')
    b[i:i + 1] = [ast.Assign([ast.Name(h, ast.Store())], hi), ast.Assign([ast.Name(s.target.id, ast.Store())], lo),
                  ast.While(ast.Compare(ast.Name(s.target.id, ast.Load()), [ast.Lt()], [ast.Name(h, ast.Load())]),
                            s.body + [ast.AugAssign(ast.Name(s.target.id, ast.Store()), ast.Add(), ast.Constant(1))], [])]
    # evaluation order lo, hi does not matter for pure bounds
    return True


def r_compr(f, R):
    """x = [e for v in it] -> loop"""
    c = []
    for p, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = R.choice(c)
    g = s.value.generators[0]
    t = fresh('acc')
    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
    # the comprehension variable must not leak over a local
    names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    if names & (locals_of(f) | {a.arg for a in f.args.args}) - names or names & {a.arg for a in f.args.args}:
        return False
    for q in reversed(g.ifs):
        body = [ast.If(q, body, [])]
    s.value = ast.Name(t, ast.Load())
    b[i:i] = [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
    return True


def r_ifexp(f, R):
    c = []
    for p, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = R.choice(c)
    s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
    s1.value, s2.value = s.value.body, s.value.orelse
    b[i] = ast.If(s.value.test, [s1], [s2])
    return True


def r_untuple(f, R):
    c = []
    for p, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) \
                    and len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(x, ast.Name) for x in s.targets[0].elts):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = R.choice(c)
    ts = [fresh() for _ in s.value.elts]
    b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], v) for t, v in zip(ts, s.value.elts)] + \
                 [ast.Assign([x], ast.Name(t, ast.Load())) for x, t in zip(s.targets[0].elts, ts)]
    return True


def r_extract(f, R, mod=None):
    """statements i..j of a block into a helper that returns what it assigns"""
    if has_nested(f):
        return False
    c = []
    for p, b in blocks(f):
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 6) + 1):
                seg = b[i:j]
                w = [x for s in seg for x in ast.walk(s)]
                if any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in w):
                    continue
                # break/continue must belong to loops inside the segment
                if any(isinstance(x, (ast.Break, ast.Continue)) for x in w) and not all(isinstance(s, (ast.For, ast.While)) for s in seg):
                    continue
                c.append((p, b, i, j))
    if not c:
        return False
    p, b, i, j = R.choice(c)
    seg = b[i:j]
    st, ld = [], []
    for s in seg:
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Store):
                    if x.id not in st:
                        st.append(x.id)
    allv = {a.arg for a in f.args.args} | locals_of(f)
    comp = set()
    for s in seg:
        for x in ast.walk(s):
            if isinstance(x, ast.comprehension):
                comp |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    st = [x for x in st if x not in comp]
    for s in seg:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in allv and x.id not in ld and x.id not in comp:
                ld.append(x.id)
    # aug-assigned names are read too
    for s in seg:
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id not in ld:
                ld.append(x.target.id)
    # definitely assigned before? require params to be assigned textually before (approximate: params of f or assigned in earlier top code)
    before = {a.arg for a in f.args.args}
    pos = seg[0].lineno
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < pos:
            before.add(x.id)
    inloop = False
    need = []
    for v in ld:
        if v in before:
            need.append(v)
        elif v not in st:
            return False
    # outputs only definitely assigned: require assigned at top level of the segment or already before
    top = set()
    for s in seg:
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            top |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    out = []
    for v in st:
        if v in top:
            out.append(v)
        elif v in before:
            out.append(v)
            if v not in need:
                need.append(v)
        else:
            # loop variables that are not read afterwards
            after = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and x.lineno > seg[-1].end_lineno]
            if after:
                return False
    h = fresh('helper')
    ret = ast.Return(ast.Tuple([ast.Name(v, ast.Load()) for v in out], ast.Load())) if len(out) != 1 else ast.Return(ast.Name(out[0], ast.Load()))
    body = seg + ([ret] if out else [])
    fn = ast.FunctionDef(name=h, args=ast.arguments([], [ast.arg(v) for v in need], None, [], [], None, []), body=body,
                         decorator_list=[], returns=None, type_params=[])
    call = ast.Call(ast.Name(h, ast.Load()), [ast.Name(v, ast.Load()) for v in need], [])
    if not out:
        new = ast.Expr(call)
    elif len(out) == 1:
        new = ast.Assign([ast.Name(out[0], ast.Store())], call)
    else:
        new = ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in out], ast.Store())], call)
    b[i:j] = [new]
    return fn


REF = [r_rename, r_noop, r_hoist, r_flipcmp, r_invert, r_aug, r_while, r_compr, r_ifexp, r_untuple, r_extract, r_extract]


# ------------------------------------------------------------------ faults
def m_const(f, R):
    c = [n for n in ast.walk(f) if isinstance(n, ast.Constant) and type(n.value) in (int, float)]
    if not c:
        return False
    n = R.choice(c)
    n.value = n.value + R.choice([1, -1])
    return True


def m_cmp(f, R):
    c = [n for n in ast.walk(f) if isinstance(n, ast.Compare) and type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE)]
    if not c:
        return False
    n = R.choice(c)
    n.ops[0] = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}[type(n.ops[0])]()
    return True


def m_binop(f, R):
    c = [n for n in ast.walk(f) if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub)]
    if not c:
        return False
    n = R.choice(c)
    n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    return True


def m_name(f, R):
    ps = [a.arg for a in f.args.args] + sorted(locals_of(f))
    c = [n for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ps]
    if not c or len(ps) < 2:
        return False
    n = R.choice(c)
    n.id = R.choice([p for p in ps if p != n.id])
    return True


def m_del(f, R):
    c = [(b, i) for _, b in blocks(f) for i, s in enumerate(b) if not isinstance(s, (ast.FunctionDef,))]
    b, i = R.choice(c)
    b[i] = ast.Pass()
    return True


def m_args(f, R):
    c = [n for n in ast.walk(f) if isinstance(n, ast.Call) and len(n.args) >= 2]
    if not c:
        return False
    n = R.choice(c)
    i = R.randrange(len(n.args) - 1)
    n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    return True


def m_deco(f, R):
    if not f.decorator_list:
        return False
    f.decorator_list = []
    return True


MUT = [m_const, m_cmp, m_binop, m_name, m_del, m_args, m_deco]


def job(a):
    try:
        return job_(a)
    except Exception:
        return (a, [], {"exc": 1}, [("exc", "", "", "", traceback.format_exc()[-500:])], "", "", "")


def job_(a):
    mode, key, seed = a
    R = random.Random('%s/%s/%s' % (mode, key, seed))
    mod, name = key
    tree = ast.parse(ast.unparse(BASE.mods[mod].tree)) if False else copy.deepcopy(BASE.mods[mod].tree)
    f = next(n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == name)
    if ast.get_docstring(f) is not None:
        f.body = f.body[1:]
    ops = []
    before = ast.unparse(f)
    for _ in range(R.choice([1, 1, 2, 3]) if mode == 'ref' else 1):
        for _ in range(8):
            op = R.choice(REF if mode == 'ref' else MUT)
            g = ast.parse(ast.unparse(ast.fix_missing_locations(f))).body[0]
            tree.body[tree.body.index(f)] = g
            f = g
            r = op(f, R)
            if r:
                ops.append(op.__name__)
                if isinstance(r, ast.FunctionDef):
                    tree.body.insert(tree.body.index(f), ast.fix_missing_locations(r))
                break
    if not ops:
        return None
    ast.fix_missing_locations(tree)
    after = ast.unparse(f)
    if after == before:
        return None
    out = []

    def go():
        try:
            p = load(mod, tree)
            rep = Report('X', 'quick')
            rep.only = None
            t0 = time.time()
            MD.check_model(rep, p, 'model', key, EFF)
            out.extend(rep.items)
            if time.time() - t0 > 60:
                out.append(('slow', 'model', '%s.%s' % key, '', '%.0fs' % (time.time() - t0)))
        except Exception:
            out.append(('exc', 'model', '%s.%s' % key, '', traceback.format_exc()[-600:]))
    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(400)
    if th.is_alive():
        out.append(('timeout', 'model', '%s.%s' % key, '', ''))
    st = collections.Counter(x[0] for x in out)
    det = [x for x in out if x[0] != 'ok'][:2]
    extra = ''
    if mode == 'ref' and any(o == 'r_extract' for o in ops):
        extra = '\n'.join(ast.unparse(n) for n in tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith('helper_'))
    return a, ops, dict(st), det, before, after, extra


if __name__ == '__main__':
    sys.setrecursionlimit(30000)
    threading.stack_size(256 * 1024 * 1024)
    mode, per, seed0 = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sub = sys.argv[4] if len(sys.argv) > 4 else ''
    M = MD.models(BASE)
    keys = [k for k in sorted(M.fn) if k not in M.deco and sub in '%s.%s' % k and k[0] != 'mspaint']
    jobs = [(mode, k, seed0 + i) for k in keys for i in range(per)]
    random.Random(seed0).shuffle(jobs)
    tot = collections.Counter()
    with mp.Pool(8, maxtasksperchild=20) as pool:
        for r in pool.imap_unordered(job, jobs):
            if r is None:
                continue
            a, ops, st, det, b, c, extra = r
            k = 'bad' if 'bad' in st else 'exc' if 'exc' in st else 'timeout' if 'timeout' in st else 'slow' if 'slow' in st else 'undecided' if 'undecided' in st else 'ok'
            tot[k] += 1
            if (mode == 'ref' and k in ('bad', 'exc', 'timeout', 'slow')) or (mode == 'mut' and k != 'bad') or (len(sys.argv) > 5 and k == sys.argv[5]):
                import difflib
                print('=====', k, a, ops, st)
                print(extra)
                print('\n'.join(l for l in difflib.unified_diff(b.split('\n'), c.split('\n'), lineterm='', n=1) if not l.startswith(('---', '+++'))))
                for x in det:
                    print('   ', x[0], x[2], x[4][:700])
                sys.stdout.flush()
    print(tot)
