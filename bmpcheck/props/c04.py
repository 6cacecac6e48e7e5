"""C04: only palette and construction operations change header or palette.
header-write: for every function, which image parameters may be stored into at a header
or palette offset (a constant below 1078, a named header offset, or an offset parameter a
caller fills with one), followed through every call; only the confirmed setters may.
buffer-size: no function but the confirmed ones may grow or shrink a parameter.
pixel-store: every function that stores raw bytes into an image, and the offset functions
it uses, has the store offsets and values of its reference definition."""
import ast

from ..loader import where
from ..model import models, run_models
from ..spec import effects_of

HDR = {'BITMAPlib._setflsz': 'bmp', 'BITMAPlib._sethdsz': 'bmp', 'BITMAPlib._setx': 'bmp', 'BITMAPlib._sety': 'bmp',
       'BITMAPlib.copyRGBpal': 'destBMP', 'BITMAPlib.itercolorcycle': 'bmp', 'BITMAPlib.palshift': 'bmp',
       'BITMAPlib.setBMP2dichromaticpal': 'bmp', 'BITMAPlib.setBMP2invshiftedmonochrome': 'bmp', 'BITMAPlib.setBMP2monochrome': 'bmp',
       'BITMAPlib.setRGBpal': 'bmp', 'BITMAPlib.setbmppal': 'bmp', 'BITMAPlib.setbmppalwithBGRAlist': 'bmp',
       'BITMAPlib.setbmppalwithBGRlist': 'bmp', 'BITMAPlib.setnewpalfromsourcebmp': 'newbmp'}
SIZE = {'fractals.hilbertvert': 'l'}
IMAGE = ('bmp', 'destBMP', 'newbmp', 'sourceBMP', 'sourcebmp', 'bmp1', 'bmp2')


def rawstores(M):
    out = []
    for (mod, name), n in sorted(M.fn.items()):
        ps = {a.arg for a in n.args.args}
        for x in ast.walk(n):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in ps & set(IMAGE):
                out.append((mod, name))
                break
    return out


def isimage(prog, mod, node, p):
    """a parameter that holds a whole image: by its name, or an array of a BITMAPlib function"""
    if p in IMAGE:
        return True
    for a in node.args.posonlyargs + node.args.args:
        if a.arg == p:
            return mod == 'BITMAPlib' and a.annotation is not None and ast.unparse(a.annotation) == 'array' and 'buf' not in p
    return False


def check(prog, rep):
    eff = effects_of(prog)
    rep.floor = 500
    M = models(prog)
    for k, s in sorted(eff.sums.items()):
        mod, node = eff.nodes[k]
        if (mod, node.name) not in M.fn:
            continue            # a new helper: what it does shows in its callers
        wrong = False
        for (o, kind), (m, n) in sorted(s.raw.items(), key=lambda x: x[0]):
            if o.startswith('G:') or not isimage(prog, mod, node, o):
                if kind != 'size' or o.startswith('G:') or SIZE.get(k) == o or not isarray(node, o):
                    continue
            if kind == 'hdr' and HDR.get(k) != o:
                wrong = True
                rep.bad('header-write', '%s(%s)' % (k, o), where(m, n), '%s may write header or palette bytes of its parameter %s (at %s)' % (k, o, where(m, n)))
            if kind == 'size' and SIZE.get(k) != o:
                wrong = True
                rep.bad('buffer-size', '%s(%s)' % (k, o), where(m, n), '%s may change the length of its parameter %s (at %s)' % (k, o, where(m, n)))
        if not wrong:
            rep.ok('header-write', k, where(mod, node))
    roots = rawstores(M) + [('BITMAPlib', n) for n in HDRNAMES]
    run_models(rep, prog, 'pixel-store', roots)
    off = [(m, n) for (m, n) in M.fn if m == 'BITMAPlib' and ('bmof' in n or 'BMoff' in n or n in ('_xbytes', '_hdsz', '_flsz', '_getclrbits', 'getmaxx', 'getmaxy'))]
    run_models(rep, prog, 'pixel-store', off, closure=False)


HDRNAMES = [k.split('.')[1] for k in HDR]


def isarray(node, p):
    return any(a.arg == p and a.annotation is not None and ast.unparse(a.annotation) == 'array' for a in node.args.args)

