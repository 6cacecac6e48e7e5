"""C07: guards refuse exactly the invalid calls and are transparent otherwise.
guard-law: every guard decorator applied to an unknown operation equals the specification
of its guard (message, refusal, argument passing, result) for arguments of any type.
guarded: every operation that carries guards refuses what its guards refuse: the stack of
guards around the operation equals the confirmed one (applied to an unknown body), or the
whole operation equals its reference model."""
import ast

from .. import ri
from .. import terms as X
from ..interp import Unsupported
from ..loader import where
from ..model import models, check_model, builder
from ..query import bmp_param
from ..spec import agree, agree_, effects_of, Ctx, compare, evaluate
from ..report import Report
from ..terms import mk, sym, const

REG = '''    if type(x1) != int or type(y1) != int or type(x2) != int or type(y2) != int:
        print(sysmsg['inttypereq'])
    elif (x1 > -1 and x1 < MX and y1 > -1 and y1 < MY) and (x2 > -1 and x2 < MX and y2 > -1 and y2 < MY):
        return body(bmp, x1, y1, x2, y2, e, kw=kw)
    else:
        print(sysmsg['regionoutofbounds'])
'''
CIRC = '''    if type(x1) != int or type(y1) != int or type(x2) != int:
        print(sysmsg['inttypereq'])
    elif all([-1 < x1 - x2 < MX, -1 < x1 + x2 < MX, -1 < y1 - x2 < MY, -1 < y1 + x2 < MY]):
        return body(bmp, x1, y1, x2, y2, e, kw=kw)
    else:
        print(sysmsg['regionoutofbounds'])
'''
ICIRC = '''    if type(x1) == int and type(y1) == int and type(x2) == int:
        return body(bmp, x1, y1, x2, y2, e, kw=kw)
    else:
        print(sysmsg['inttypereq'])
'''
RUN = '    return body(bmp, x1, y1, x2, y2, e, kw=kw)\n'


def depth(bits, msg, rest):
    return '    if bmp[28] not in %r:\n        print(sysmsg[%r])\n        return None\n' % (tuple(bits), msg) + rest


LAWS = {
    'func24bitonly': depth([24], 'not24bit', RUN),
    'func8and24bitonly': depth([8, 24], 'not24or8bit', RUN),
    'func4and8bitonly': depth([4, 8], 'not4or8bit', RUN),
    'intcircleparam': ICIRC,
    'intcircleparam24bitonly': depth([24], 'not24bit', ICIRC),
    'entirerectinboundary': REG,
    'entirecircleinboundary': CIRC,
    'func24bitonlyandentirerectinboundary': depth([24], 'not24bit', REG),
    'func8and24bitonlyandentirerectinboundary': depth([8, 24], 'not24or8bit', REG),
    'func24bitonlyandentirecircleinboundary': depth([24], 'not24bit', CIRC),
    'func8and24bitonlyandentirecircleinboundary': depth([8, 24], 'not24or8bit', CIRC),
    'functimer': '''    print('Applying ' + body.__name__ + ' please wait...')
    t = process_time_ns()
    r = body(bmp, x1, y1, x2, y2, e, kw=kw)
    print('Done in: ' + hhmmsselaspedtime(t))
    return r
''',
    'checklink': '''    if isfile(bmp):
        return body(bmp, x1, y1, x2, y2, e, kw=kw)
    print(sysmsg['filenotexist'])
''',
    'checklinks': '''    if isfile(bmp) and isfile(x1):
        return body(bmp, x1, y1, x2, y2, e, kw=kw)
    print(sysmsg['filenotexist'])
''',
}
WHERE = {'functimer': 'proctimer', 'checklink': 'fileutils', 'checklinks': 'fileutils'}
NAMES = ['bmp', 'x1', 'y1', 'x2', 'y2', 'e', 'kw']


def guard_laws(rep, prog, rule, names):
    eff = effects_of(prog)
    for d in names:
        mod = WHERE.get(d, 'paramchecks')
        r = prog.resolve(mod, d)
        if not r or r[0] != 'def':
            continue
        for types in ((0, 1) if mod == 'paramchecks' else (0,)):
            for bits in ((1, 4, 8, 24) if mod == 'paramchecks' else (None,)):
                def build(it, st, bits=bits, types=types):
                    # coordinates: integers, or values of unknown type
                    k = 'any' if types else 'int'
                    if bits:
                        b = bmp_param(it, st, 'bmp', bits)
                        xs = [sym(n, k) for n in NAMES[1:5]]
                        W, H = sym('bmp.W', 'int', 1, (1 << 24) - 1), sym('bmp.H', 'int', 1, (1 << 24) - 1)
                    else:
                        b = sym('bmp', 'str')
                        xs = [sym('x1', 'str')] + [sym(n, 'int') for n in NAMES[2:5]]
                        W = H = X.ZERO
                    return Ctx([b] + xs + [sym('e', 'any'), sym('kw', 'any')],
                               env={'MX': W, 'MY': H, 'body': sym('body', 'fn')})
                call = 'def use(%s):\n    return %s(body)(bmp, x1, y1, x2, y2, e, kw=kw)\n' % (', '.join(NAMES), d)
                law = 'def law(%s):\n%s' % (', '.join(NAMES), LAWS[d])
                tag = d + (' %d-bit' % bits if bits else '') + (' any type' if types else '')
                if rep.only and rep.only not in tag:
                    continue
                compare_src(rep, prog, rule, tag, where(r[1], r[2]), call, law, build, mod, eff)


def compare_src(rep, prog, rule, tag, w, src1, src2, build, mod, eff, quiet=False):
    opq = {'hhmmsselaspedtime'}
    try:
        a = evaluate(prog, None, build, opq, effects=eff, mod=mod, src=src1, decorate=True)
        b = evaluate(prog, None, build, opq, effects=eff, mod=mod, src=src2, decorate=True)
    except (Unsupported, RecursionError) as e:
        if not quiet:
            rep.undecided(rule, tag, w, str(e))
        return None
    d = compare(a, b, ('$clock', '$fs'))
    if not d:
        if not quiet:
            rep.ok(rule, tag, w)
        return True
    v = ri.differ(d)
    if quiet:
        return False if v else None
    from ..spec import describe
    txt = '\n'.join('%s\n%s' % (k, describe(x, y)) for k, x, y in d[:3])
    if v:
        rep.bad(rule, tag, w, txt + '\n' + v)
    else:
        rep.undecided(rule, tag, w, 'normal forms differ but no distinguishing valuation: ' + txt.replace('\n', ' | '))
    return False


def stack(M, prog, key):
    """source of the operation's guards around an unknown body: confirmed and current"""
    spec = M.fn[key]
    mod, node = prog.resolve(*key)[1:]
    args = [a.arg for a in spec.args.posonlyargs + spec.args.args]
    call = ', '.join(args)
    if spec.args.vararg:
        call += ', *' + spec.args.vararg.arg
    if spec.args.kwarg:
        call += ', **' + spec.args.kwarg.arg

    def make(decs):
        f = ast.parse('def %s(): return __body__(%s)' % (spec.name, call)).body[0]
        f.args = ast.parse(ast.unparse(ast.Module([ast.FunctionDef(name='f', args=spec.args, body=[ast.Pass()], decorator_list=[], lineno=1)], []))).body[0].args
        f.args.defaults = []
        f.decorator_list = decs
        return ast.unparse(ast.fix_missing_locations(f))
    return make(node.decorator_list), make(spec.decorator_list), args


def check(prog, rep):
    M = models(prog)
    eff = effects_of(prog)
    rep.floor = 150
    guard_laws(rep, prog, 'guard-law', sorted(LAWS))
    for key, spec in sorted(M.fn.items()):
        if not spec.decorator_list:
            continue
        mod, name = key
        r = prog.resolve(mod, name)
        if not r or r[0] != 'def':
            continue
        mod2, node = r[1], r[2]
        label = '%s.%s' % (mod2, name)
        if rep.only and rep.only not in label:
            continue
        w = where(mod2, node)
        if [ast.dump(x) for x in node.decorator_list] == [ast.dump(x) for x in spec.decorator_list] and \
                all(isinstance(x, ast.Name) and prog.resolve(mod2, x.id) == prog.resolve(mod, x.id) for x in node.decorator_list):
            rep.ok('guarded', label, w)
            continue
        tmp = Report('C07', rep.tier)
        tmp.only, tmp.t0 = None, rep.t0
        check_model(tmp, prog, 'guarded', key, eff)
        bad = [i for i in tmp.items if i[0] == 'bad']
        und = [i for i in tmp.items if i[0] == 'undecided']
        if bad:
            rep.bad('guarded', label, w, 'guards (%s), expected (%s)\n%s' % (
                ', '.join(ast.unparse(x) for x in node.decorator_list), ', '.join(ast.unparse(x) for x in spec.decorator_list), bad[0][4]))
        elif und:
            rep.undecided('guarded', label, w, und[0][4])
        else:
            rep.ok('guarded', label, w, 'equals its reference model')
