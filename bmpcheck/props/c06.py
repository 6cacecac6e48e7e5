"""C06: sources are only read, results go only to the named output.
file-protocol: for every operation on files, the sequence of file system effects as a
function of the arguments (which file is opened for reading, which is written, under
which conditions, in which order) equals that of the reference model; what the written
image contains is abstracted away.
source-only-read: every load in that sequence names a source parameter and every save
the output parameter, and with a missing source nothing happens.
file-effect: no further function opens files for writing or changes the file system."""
import ast
import json
import os

from .. import terms as X
from ..loader import where
from ..model import models, run_models, builder, missing
from ..interp import Unsupported
from ..spec import agree, effects_of, evaluate
from ..terms import mk, const

T = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tables', 'effects.json')
HELP = {'cropBMPandsave', 'cropBMPandsaveusingrectbnd', 'imagecomp', 'savefractal2file', 'savemultifractal2file', 'savefractalwithparam2file',
        'savefractalwith2param2file', 'plotstringfunc2file', 'plotstringverticalwithfn2file'}
SAVE, LOAD = 'BITMAPlib.saveBMP', 'BITMAPlib.loadBMP'
SOURCES = {'ExistingBMPfile', 'inputfile1', 'inputfile2', 'infile1', 'infile2'}


def fileops(M):
    out = []
    for (mod, n), node in sorted(M.fn.items()):
        if mod == 'BITMAPlib' and (n.endswith('2file') or n in HELP or n in ('pixelizenxntofile', 'imagediff', 'showsimilarparts', 'gammaadjtoregion2file',
                                                                               'colorcycle2dir', 'sphere2file', '_usefndirsv')):
            out.append((mod, n))
    return out


def abstract(t, memo):
    """saved images replaced by a constant"""
    r = memo.get(t)
    if r is None:
        if t.op == 'call' and t.args[0] == SAVE:
            r = mk('call', SAVE, abstract(t.args[1], memo), const('image'))
        elif isinstance(t, X.T) and t.args:
            r = X.rebuild(t, lambda a: abstract(a, memo))
        else:
            r = t
        memo[t] = r
    return r


def events(t, seen, out):
    """calls and openings in a file system term"""
    if t in seen:
        return
    seen.add(t)
    if t.op == 'auxpost':
        out.append(('call', t.args[1]))
        events(t.args[0], seen, out)
        return
    if t.op in ('opened', 'written'):
        out.append((t.op, t))
        events(t.args[0], seen, out)
        return
    for c in X.children(t):
        events(c, seen, out)


def replace(t, a, b, memo):
    if t is a:
        return b
    r = memo.get(t)
    if r is None:
        r = X.rebuild(t, lambda x: replace(x, a, b, memo)) if t.args else t
        memo[t] = r
    return r


def symnames(t):
    return {s.args[0] for s in X.syms(t)}


def check(prog, rep):
    M = models(prog)
    eff = effects_of(prog)
    rep.floor = 250
    opq = {n for n in M.names if not n.startswith('_use') and n not in HELP}
    for key in fileops(M):
        mod, name = key
        r = prog.resolve(mod, name)
        if not r or r[0] != 'def':
            continue
        mod2, node = r[1], r[2]
        spec = M.fn[key]
        label = '%s.%s' % (mod2, name)
        memo = {}

        def keep(a, b):
            for s in (a, b):
                s.changed = {'$fs': 1}
                s.final = {'$fs': abstract(s.final.get('$fs', X.sym('$fs', 'any')), memo)}
        src = ast.unparse(spec)
        lost = missing(M, prog, key)
        if lost:
            src = '\n'.join(ast.unparse(M.fn[x]) for x in lost) + '\n' + src
        if len(node.args.args) < len(spec.args.args):
            rep.undecided('file-protocol', label, where(mod2, node), 'signature changed')
            continue
        b = builder(spec.args.args, 24, {})
        agree(rep, prog, 'file-protocol', name, src, b, label, opaque=opq - {name}, effects=eff, mod=mod2,
              decorate=True, specopaque={name}, post=keep, ret=False)
        srcs = [a.arg for a in spec.args.args if a.arg in SOURCES]
        if not srcs:
            continue
        try:
            e = evaluate(prog, mk('fn', 'g:%s.%s' % (mod2, node.name)), b, opq - {name}, effects=eff, mod=mod2)
        except Unsupported as x:
            rep.undecided('source-only-read', label, where(mod2, node), str(x))
            continue
        fs = abstract(e.final.get('$fs', X.sym('$fs', 'any')), {})
        ev = []
        events(fs, set(), ev)
        wrong = []
        for kind, c in ev:
            if kind == 'call' and c.args[0] == LOAD:
                if not (c.args[1].op == 'sym' and c.args[1].args[0] in srcs):
                    wrong.append('loads %s' % X.show(c.args[1], 4))
            elif kind == 'call' and c.args[0] == SAVE:
                if symnames(c.args[1]) & set(srcs):
                    wrong.append('saves to %s' % X.show(c.args[1], 4))
            elif kind in ('opened', 'written'):
                wrong.append('%s %s' % (kind, X.show(c, 3)))
        for s in srcs:
            c = X.truthy(X.app('ext:os.path.isfile', X.sym(s, 'str')))
            ev2 = []
            events(replace(fs, c, X.FALSE, {}), set(), ev2)
            if [1 for k, x in ev2 if k != 'call' or x.args[0] != LOAD]:
                wrong.append('writes although the file %s does not exist' % s)
        if wrong:
            rep.bad('source-only-read', label, where(mod2, node), '; '.join(wrong))
        else:
            rep.ok('source-only-read', label, where(mod2, node))
    run_models(rep, prog, 'reference', ['saveBMP', 'loadBMP', 'checklink', 'checklinks'], closure=False)
    from .c07 import guard_laws
    guard_laws(rep, prog, 'file-guard', ('checklink', 'checklinks'))
    table = json.load(open(T))
    for k, a in sorted(table.items()):
        s = eff.sums.get(k)
        if s is None:
            continue
        m, n = eff.nodes[k]
        new = sorted(e for e in s.eff if (e.startswith('fsw') or e == 'process') and e not in a['eff'])
        if new:
            w = s.eff[new[0]]
            rep.bad('file-effect', '%s %s' % (k, new[0]), where(w[0], w[1]), '%s may write or change files%s' % (k, ' through ' + w[2] if w[2] else ''))
        else:
            rep.ok('file-effect', k, where(m, n))
