"""C08: rectangular operations do not depend on the order of the corners.
corner-order: the value graph of the operation applied to (x1,y1,x2,y2) equals the one of
the same operation applied to (x2,y1,x1,y2), (x1,y2,x2,y1) and (x2,y2,x1,y1): for every
depth, coordinates inside and outside the image, same image, result and messages."""
import ast

from ..loader import where
from ..model import models, builder, check_model
from ..spec import agree, effects_of
from ..report import Report

SKIP = ('line', 'fern', 'rectangle')
EXPAND = {'sortrecpoints', 'swapif', 'iif', 'isinBMPrectbnd', 'isinrectbnd', 'rectboundarycoords', 'getmaxx', 'getmaxy'}


def operations(M):
    out = []
    for (mod, n), node in sorted(M.fn.items()):
        a = [x.arg for x in node.args.args]
        if mod == 'BITMAPlib' and a[:5] == ['bmp', 'x1', 'y1', 'x2', 'y2'] and n not in SKIP:
            t = a[5:]
            # plots of a formula over a window are about the window, not about a region
            if 'domain' in t or 'RGBfactors' in t and 'mcolor' in t or 'maxiter' in t:
                continue
            if n.endswith(('fractal', 'julia', 'biomorph')) or n.startswith('plotmultifractal'):
                continue
            out.append((mod, n))
    return out


def check(prog, rep):
    M = models(prog)
    eff = effects_of(prog)
    rep.floor = 200
    ops = operations(M)
    rep.info['operations'] = [n for _, n in ops]
    opq = M.names - {n for _, n in ops} - EXPAND
    for key in ops:
        mod, name = key
        r = prog.resolve(mod, name)
        if not r or r[0] != 'def':
            continue
        mod2, node = r[1], r[2]
        args = node.args.posonlyargs + node.args.args
        names = [a.arg for a in args]
        if len(names) < 5:
            rep.undecided('corner-order', name, where(mod2, node), 'signature changed')
            continue
        b_, x1, y1, x2, y2 = names[:5]
        for tag, perm in (('x swapped', (x2, y1, x1, y2)), ('y swapped', (x1, y2, x2, y1)), ('both swapped', (x2, y2, x1, y1))):
            src = 'def corner(%s):\n    return %s(%s)\n' % (', '.join(names), name, ', '.join([b_] + list(perm) + names[5:]))
            for bits in (1, 4, 8, 24):
                agree(rep, prog, 'corner-order', name, src, builder(args, bits, {}), '%s %d-bit %s' % (name, bits, tag),
                      opaque=opq, effects=eff, mod=mod2, ignore=('$clock',))
