"""C09: producers leave their inputs intact.  Rule may-modify: no public function may
modify a parameter outside its confirmed list (tables/effects.json); rule fresh-result:
what a producer returns shares no storage with its inputs.  Both come from the
interprocedural may-mutate / may-alias summaries."""
import json
import os

from ..spec import effects_of
from ..loader import where
from ..effects import base

T = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tables', 'effects.json')
FRESH = ['crop', 'flipXY', 'resizeNtimesbigger', 'resizeNtimessmaller', 'pixelizenxn', 'copyBMPhdr', 'CopyBMPxydim2newBMP',
         'copyrect', 'copycircregion2buf', 'convertselection2BMP', 'getallRGBpal', 'getRGBpal', 'getBMPimgbytes',
         'colorhistogram', 'makenewpalfromcolorhist', 'BMPbitBLTget', 'vertBMPbitBLTget', 'getxybit', 'getRGBxybit',
         'getRGBxybitvec', 'getxybitvec', 'getmaxxy', 'getmaxxyandbits', 'bottomrightcoord', 'centercoord', 'getBGRpalbuf',
         'convertbufto24bit', 'getneighborcolorlist', 'getimagedgevert', 'getimageregionbyRGB', 'itercopyrect',
         'itergetcolorfromrectregion', 'iterimageRGB', 'iterimagecolor', 'newBMP', 'loadBMP']
# upgradeto24bitimage hands a 24-bit image back as it is (it says so on the screen)


def check(prog, rep):
    eff = effects_of(prog)
    table = json.load(open(T))
    rep.floor = 700
    rep.info['table_functions'] = len(table)
    for k, a in sorted(table.items()):
        s = eff.sums.get(k)
        if s is None:
            continue
        mod, node = eff.nodes[k]
        names = [x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        extra = [o for o in s.mut if not o.startswith('G:') and o.lstrip('*') in names and o not in a['mut']]
        for o in extra:
            m, n = s.mut[o]
            rep.bad('may-modify', '%s(%s)' % (k, o), where(m, n), '%s may modify what its parameter %s refers to (at %s)' % (k, o, where(m, n)))
        if not extra:
            rep.ok('may-modify', k, where(mod, node))
    for f in FRESH:
        mod, node = prog.find(f)
        s = eff.sums['%s.%s' % (mod, node.name)]
        names = {x.arg for x in node.args.posonlyargs + node.args.args}
        al = {b for b in map(base, s.ret.s) if b in names}
        if al:
            rep.bad('fresh-result', f, where(mod, node), 'the result of %s may be the same object as its parameter %s' % (f, ', '.join(sorted(al))))
        else:
            rep.ok('fresh-result', f, where(mod, node))
