"""C14: built-in fonts, palettes, color tables and solids are well formed.
Every table is evaluated from the source (module constants and the functions that return
tables) and every entry is checked:
glyph-table: 256 glyphs of the stated height, every row a byte.
palette-table: one byte triple per color of the depth; header sizes leave room for it.
color-views: the RGB, HSL and factor tables of a collection have the same names, every RGB
value is a 24-bit color, and the three views of a name are the same color to the precision
of the table.
solid-faces: faces name existing vertices, every edge belongs to exactly two faces, which
run along it in opposite directions.
table-entry: entry by entry equality with the reviewed tables (tables/literals.json).
reference: glyph lookup, palette lookup and vertex functions against reference definitions."""
import ast
import colorsys
import json
import os
from collections import Counter

from .. import terms as X
from ..interp import Unsupported
from ..loader import where, Broken
from ..model import models, run_models
from ..spec import Ctx, evaluate, effects_of
from ..terms import sym

T = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tables', 'literals.json')
FONTS = ['font8x8', 'font8x8thin', 'font8x14', 'font8x14thin', 'font8x8sanserif', 'font8x14sanserif']
COLORS = [('colordict', 'getcolorname2HSLdict', 'getcolorname2RGBdict', 'getRGBfactors'),
          ('X11colordict', 'getX11colorname2HSLdict', 'getX11colorname2RGBdict', 'getX11RGBfactors'),
          ('XKCDcolordict', 'getXKCDcolorname2HSLdict', 'getXKCDcolorname2RGBdict', 'getXKCDRGBfactors')]
SOLIDS = {'tetrahedra': 'tetrahedravert', 'cube': 'cubevert', 'hexahedra': 'hexahedravert', 'octahedra': 'octahedravert'}
SURF = ['decahedvertandsurface', 'icosahedvertandsurface']


class NotConst(Exception):
    pass


def py(t):
    """Python value of a constant term"""
    if t.op == 'num':
        return int(t.args[0]) if t.args[0].denominator == 1 else float(t.args[0])
    if t.op == 'const':
        return t.args[0]
    if t.op in ('list', 'tuple', 'bytes'):
        return [py(a) for a in t.args]
    if t.op == 'dict':
        d = {}
        for k, v in zip(t.args[::2], t.args[1::2]):
            d[py(k)] = py(v)
        return d
    raise NotConst(X.show(t, 2)[:80])


def table(prog, mod, name, eff):
    """(value, place) of a module constant or of a function without parameters"""
    r = prog.resolve(mod, name)
    if not r:
        raise Broken('%s.%s not found' % (mod, name))
    if r[0] == 'def':
        src, m, w = 'def spec():\n    return %s()' % name, r[1], where(r[1], r[2])
    elif r[0] == 'val':
        src, m, w = 'def spec():\n    return ' + ast.unparse(r[2]), r[1], where(r[1], r[2])
    else:
        raise NotConst('%s is %s' % (name, r[0]))
    v = evaluate(prog, None, lambda it, st: Ctx([]), opaque=(), effects=eff, mod=m, src=src).value
    return py(v), w


def isbyte(v):
    return type(v) is int and 0 <= v <= 255


class C:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.eff = prog, rep, effects_of(prog)

    def get(self, rule, mod, name):
        try:
            return table(self.prog, mod, name, self.eff)
        except (NotConst, Unsupported) as e:
            self.rep.undecided(rule, '%s.%s' % (mod, name), mod + '.py', str(e)[:200])
            return None, None

    def say(self, rule, construct, w, wrong):
        if wrong:
            self.rep.bad(rule, construct, w, wrong)
        else:
            self.rep.ok(rule, construct, w)

    def fonts(self):
        for f in FONTS:
            v, w = self.get('glyph-table', 'fonts', f)
            if v is None:
                continue
            h = int(f[5:].split('x')[1].rstrip('abcdefghijklmnopqrstuvwxyz') or 0)
            self.say('glyph-table', f + ' height', w, None if v and v[0] == h else 'records height %s instead of %d' % (v[:1], h))
            self.say('glyph-table', f + ' size', w, None if len(v) == 1 + 256 * h else 'holds %d bytes, 256 glyphs of %d rows need %d' % (len(v), h, 1 + 256 * h))
            for c in range(256):
                g = v[1 + c * h:1 + c * h + h]
                self.say('glyph-table', '%s glyph %d' % (f, c), w, None if len(g) == h and all(map(isbyte, g)) else 'glyph %d is %s' % (c, g))

    def palettes(self):
        v, w = self.get('palette-table', 'bmppal', 'bmpstdpal')
        b, w2 = self.get('palette-table', 'bmppal', 'bmpvalidcolorbits')
        h, w3 = self.get('palette-table', 'bmpconstants', 'bmpheadersizedict')
        if b is not None:
            self.say('palette-table', 'valid depths', w2, None if sorted(b) == [1, 4, 8, 24] else 'valid depths are %s' % b)
        if h is not None:
            for bits, n in ((1, 62), (4, 118), (8, 1078), (24, 54)):
                self.say('palette-table', 'header size %d-bit' % bits, w3, None if h.get(bits) == n else 'header and palette of %d-bit images take %d bytes, not %s' % (bits, n, h.get(bits)))
        if v is None:
            return
        for bits in (1, 4, 8):
            p = v.get(bits, [])
            self.say('palette-table', '%d-bit size' % bits, w, None if len(p) == 1 << bits else '%d-bit palette has %d entries' % (bits, len(p)))
            for i, e in enumerate(p):
                self.say('palette-table', '%d-bit entry %d' % (bits, i), w, None if isinstance(e, list) and len(e) == 3 and all(map(isbyte, e)) else 'entry %d of the %d-bit palette is %s' % (i, bits, e))

    def colors(self):
        for mod, hn, rn, fn in COLORS:
            (H, hw), (R, rw), (F, fw) = [self.get('color-views', mod, n) for n in (hn, rn, fn)]
            if R is not None:
                for n, v in R.items():
                    self.say('color-views', '%s %s' % (rn, n), rw, None if type(v) is int and 0 <= v < 1 << 24 else '%s is %s, no 24-bit color' % (n, v))
            if R is None or H is None or F is None:
                continue
            for a, an, aw in ((H, hn, hw), (F, fn, fw)):
                d = sorted(set(a) ^ set(R), key=str)
                self.say('color-views', '%s names' % an, aw, 'names not in both %s and %s: %s' % (an, rn, d[:5]) if d else None)
            for n, v in R.items():
                if type(v) is not int or not 0 <= v < 1 << 24:
                    continue
                rgb = [v >> 16, v >> 8 & 255, v & 255]
                f = F.get(n)
                if f is not None:
                    ok = isinstance(f, list) and len(f) == 3 and all(isinstance(x, (int, float)) and abs(x * 255 - c) <= .5 for x, c in zip(f, rgb))
                    self.say('color-views', '%s %s' % (fn, n), fw, None if ok else 'factors of %s are %s, its color is %s' % (n, f, rgb))
                h = H.get(n)
                if h is not None:
                    a, l, s = colorsys.rgb_to_hls(*[c / 255 for c in rgb])
                    a, s, l = a * 360, s * 100, l * 100
                    ok = isinstance(h, list) and len(h) == 3 and all(isinstance(x, (int, float)) for x in h)
                    if ok:
                        da = min(abs(a - h[0]), 360 - abs(a - h[0]))
                        ok = (da <= 1 or s == 0 or l in (0, 100)) and abs(s - h[1]) <= 1 and abs(l - h[2]) <= 1
                    self.say('color-views', '%s %s' % (hn, n), hw, None if ok else 'HSL of %s is %s, its color is %s' % (n, h, rgb))

    def faces(self, name, faces, nv, w):
        dirs = Counter()
        for f in faces:
            self.say('solid-faces', '%s face %s' % (name, tuple(f)), w, None if len(f) >= 3 and len(set(f)) == len(f) and all(
                type(i) is int and 0 <= i < nv for i in f) else 'face %s, the solid has %d vertices' % (f, nv))
            for a, b in zip(f, list(f[1:]) + [f[0]]):
                dirs[(a, b)] += 1
        wrong = sorted(e for e, n in dirs.items() if n != 1 or dirs.get((e[1], e[0])) != 1)
        self.say('solid-faces', name + ' closed', w, 'edges not shared by exactly two faces: %s' % wrong[:6] if wrong else None)
        used = {i for f in faces for i in f}
        self.say('solid-faces', name + ' vertices', w, 'vertices of no face: %s' % sorted(set(range(nv)) - used) if set(range(nv)) - used else None)

    def solids(self):
        d, w = self.get('solid-faces', 'solids3D', 'getshapesidedict')
        for s, vf in SOLIDS.items():
            try:
                v = evaluate(self.prog, None, lambda it, st: Ctx([sym('x', 'real')]), opaque=(), effects=self.eff, mod='solids3D',
                             src='def spec(x):\n    return %s(x)' % vf).value
            except Unsupported as e:
                self.rep.undecided('solid-faces', vf, 'solids3D.py', str(e))
                continue
            if v.op not in ('list', 'tuple') or d is None:
                self.rep.undecided('solid-faces', vf, 'solids3D.py', X.show(v, 2)[:100])
                continue
            if s not in d:
                self.rep.bad('solid-faces', s, w, 'no faces for ' + s)
                continue
            self.faces(s, d[s], len(v.args), w)
        for f in SURF:
            m, node = self.prog.func('solids3D', f)
            try:
                v = evaluate(self.prog, None, lambda it, st: Ctx([sym('x', 'real')]), opaque=(), effects=self.eff, mod='solids3D',
                             src='def spec(x):\n    return %s(x)' % f).value
                if v.op not in ('list', 'tuple') or len(v.args) != 2 or v.args[0].op not in ('list', 'tuple'):
                    raise NotConst(X.show(v, 2)[:100])
                self.faces(f, py(v.args[1]), len(v.args[0].args), where(m, node))
            except (Unsupported, NotConst) as e:
                self.rep.undecided('solid-faces', f, where(m, node), str(e))

    def entries(self):
        ref = json.load(open(T))
        for key, want in sorted(ref.items()):
            mod, name = key.split('.')
            v, w = self.get('table-entry', mod, name)
            if v is None:
                continue
            v = json.loads(json.dumps(v))
            n = 0
            for lab, a, b in self.diff(want, v, name):
                n += 1
                if n <= 5:
                    self.rep.bad('table-entry', '%s.%s' % (mod, lab), w, 'is %s, the reviewed table has %s' % (str(b)[:80], str(a)[:80]))
            if not n:
                self.rep.ok('table-entry', key, w)

    def diff(self, a, b, lab):
        if isinstance(a, dict) and isinstance(b, dict):
            for k in a:
                if k not in b:
                    yield lab + ' ' + k, a[k], 'missing'
                else:
                    yield from self.diff(a[k], b[k], lab + ' ' + k)
            return
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and len(a) > 4:
            for i, (x, y) in enumerate(zip(a, b)):
                yield from self.diff(x, y, '%s %d' % (lab, i))
            return
        if a != b and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) < 1e-9):
            yield lab, a, b


TABLES = [('fonts', f) for f in FONTS] + [('bmppal', 'bmpstdpal'), ('solids3D', 'getshapesidedict')] + \
    [(m, n) for m, *ns in COLORS for n in ns]


def check(prog, rep):
    rep.floor = 3000
    c = C(prog, rep)
    c.fonts()
    c.palettes()
    c.colors()
    c.solids()
    c.entries()
    M = models(prog)
    roots = [k for k in M.fn if k[0] in ('fonts', 'colordict')] + [k for k in M.fn if k[0] == 'solids3D' and (
        k[1].endswith('vert') or k[1].endswith('surface') or k[1] in ('getshapesidedict', 'genspheresurfaces', 'zlevelcoords'))]
    roots += [('colors', 'getdefaultbitpal'), ('colors', 'getdefaultlumrange')]
    run_models(rep, prog, 'reference', [k for k in roots if k in M.fn])
