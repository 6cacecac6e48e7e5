SEEDS = [
 dict(id='s01', property='C01', edits=[('pythonbmp/BITMAPlib.py', 'plotxybit', '        offset = (x >> 3) + \\\n        ((readint(bmpy, 4, bmp) - y - 1) * \\', '        offset = (x >> 3) + \\\n        ((readint(bmpy, 3, bmp) - y - 1) * \\')],
  needs='a 1-bit image more than 65535 pixels high',
  breaks='plotxybit reads only two bytes of the height for 1-bit images, so the pixel lands in another row',
  demo="\nimport sys, os, tempfile, io, contextlib\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(8, 65600, 1)\nn = len(b)\nplotxybit(b, 3, 10, 1)\nassert len(b) == n\nassert b[62 + (65600 - 1 - 10) * 4] == 16, 'pixel not in its row'\nassert getxybit(b, 3, 10) == 1\n"),
 dict(id='s02', property='C03', edits=[('pythonbmp/BITMAPlib.py', 'vertline', 'y2 = setmax(y2, my - 1)', 'y2 = setmax(y2, my)')],
  needs='an 8 or 24-bit vertical line whose lower end is below the bottom edge',
  breaks='the line is not clipped at the bottom row: palette or header bytes before the pixel data are overwritten',
  demo="\nimport sys, os, tempfile, io, contextlib\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(40, 20, 8)\nh = bytes(b[:1078])\nvertline(b, 5, 3, 30, 77)\nassert bytes(b[:1078]) == h, 'header or palette changed'\nassert all(getxybit(b, 5, y) == 77 for y in range(3, 20))\n"),
 dict(id='s05', property='C08', edits=[('pythonbmp/BITMAPlib.py', 'crop', '    x1, y1, x2, y2 = \\\n        sortrecpoints(x1, y1, x2, y2)\n', '    x1, x2 = swapif(x1, x2, x1 > x2 and y1 > y2)\n    y1, y2 = swapif(y1, y2, y1 > y2)\n')],
  needs='corners given top right and bottom left',
  breaks='crop only sorts the horizontal coordinates when both are reversed',
  demo='\nimport sys, os, tempfile, io, contextlib\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(20, 20, 24)\nfor x in range(20):\n    for y in range(20): plotxybit(b, x, y, x * 1000 + y)\nassert bytes(crop(b, 12, 3, 4, 9)) == bytes(crop(b, 4, 3, 12, 9))\n'),
 dict(id='s08', property='C13', edits=[('pythonbmp/BITMAPlib.py', 'savemultifractal2file', 'f(bmp, 0, 0, x, y, d,', 'f(bmp, 0, 0, x, x, d,')],
  needs='an image that is not square',
  breaks='multi-parameter fractals are drawn over a square as wide as the image instead of over the whole image',
  demo="\nimport sys, os, tempfile, io, contextlib\nfrom pythonbmp.BITMAPlib import *\n\nimport pythonbmp.BITMAPlib as L\ngot = []\nwith tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):\n    savemultifractal2file(d + '/a.bmp', 12, 7, lambda *a: got.append(a[1:5]), 3, [-2, 2, -2, 2], [1, 1, 1])\nassert got == [(0, 0, 12, 7)], got\n"),
 dict(id='s09', property='C15', edits=[('pythonbmp/BITMAPlib.py', 'plot8bitpatternwithfn', '            colorind += 1\n            if colorind == colorcount:\n                colorind = 0', '            if cl != color[-1]:\n                colorind += 1\n            else:\n                colorind = 0')],
  needs='a list of colors in which the last color also appears earlier',
  breaks='the color list restarts early at a repeated color, so rows of the glyph get the wrong color',
  demo='\nimport sys, os, tempfile, io, contextlib\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(16, 16, 24)\ncl = [1, 5, 2, 5]\nplot8bitpatternwithfn(b, 0, 0, [255] * 8, 1, 0, cl, circle)\nassert [getxybit(b, 0, y) for y in range(8)] == [cl[y % 4] for y in range(8)]\n'),
 dict(id='s13', property='C19', edits=[('pythonbmp/primitives2D.py', 'iterellipsepart', '    while row > -1:', '    while row > 0:')],
  needs='any ellipse that is not drawn by the circle routine, on its horizontal axis',
  breaks='the two end points of the horizontal axis are missing from the outline',
  demo='\nfrom pythonbmp.primitives2D import *\np = [tuple(x) for x in ellipsevert(0, 0, 3, 9)]\nassert (9, 0) in p or (3, 0) in p, p\nassert {(-x, y) for x, y in p} == set(p)\nassert {y for x, y in p} >= {0}\n'),
 dict(id='s16', property='C25', edits=[('pythonbmp/charts.py', 'genpiechartdata', '        p *= 100', '        p = round(p * 100)')],
  needs='a share between 49.5 and 50 percent, or exact percentages read back',
  breaks='the share of a slice is rounded, so a slice just under one half counts as the big one',
  demo='\nfrom pythonbmp.charts import genpiechartdata\na, big = genpiechartdata([[995, 1], [1005, 2]])\nassert big == 1, big\nassert abs(a[0][4] - 49.75) < 1e-9, a\n'),
 dict(id='s20', property='C10', edits=[('pythonbmp/BITMAPlib.py', 'palshift', '    shift = abs(shift) % m', '    shift = abs(shift) % (m - 1)')],
  needs='a shift of exactly one less than the palette size, or larger',
  breaks='the palette is rotated by the wrong amount',
  demo='\nimport sys, os, tempfile, io, contextlib\nfrom pythonbmp.BITMAPlib import *\n\nfor bits, m in ((4, 16), (8, 256)):\n    for sh in (1, 7, m - 1, m, m + 3):\n        b = newBMP(8, 8, bits)\n        for i in range(m): setRGBpal(b, i, i, 255 - i, (i * 7) & 255)\n        a = getallRGBpal(b)\n        palshift(b, sh)\n        k = sh % m\n        assert getallRGBpal(b) == a[k:] + a[:k], (bits, sh)\n'),
 dict(id='s25', property='C21', edits=[('pythonbmp/BITMAPlib.py', 'loadBMP', 'a.frombytes(f.read(fsize))', 'a.frombytes(f.read(fsize & 0xffffff))')],
  needs='a file of 16 MB or more',
  breaks='loading truncates the file',
  demo="\nimport sys, os, tempfile, io, contextlib\nfrom pythonbmp.BITMAPlib import *\n\nwith tempfile.TemporaryDirectory() as d:\n    b = newBMP(4096, 1400, 24)\n    saveBMP(d + '/a.bmp', b)\n    assert len(loadBMP(d + '/a.bmp')) == len(b)\n"),
]
