SEEDS = [
 dict(id='s31', property='C16', edits=[('pythonbmp/BITMAPlib.py', 'horizontalbulkswap', '    while x1 < x2:', '    while x1 < x2 - (r >> 10):')],
  needs='a row of 1024 bytes or more and a region with an even number of columns',
  breaks='the two middle columns of a wide image are not flipped',
  demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(1400, 3, 8)\nfor x in range(1400):\n    for y in range(3): plotxybit(b, x, y, (x * 7 + y) & 255)\na = [getxybit(b, x, 1) for x in range(1400)]\nfliphorizontal(b)\nassert [getxybit(b, x, 1) for x in range(1400)] == a[::-1]\n'),
 dict(id='s32', property='C22', edits=[('pythonbmp/BITMAPlib.py', 'pastecirularbuf', '                x, y, -1,\n', '                x, y, -2,\n')],
  needs='a circle pasted one column over the left edge',
  breaks='the paste wraps into the row below',
  demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nwith contextlib.redirect_stdout(io.StringIO()):\n    b = newBMP(40, 40, 24)\n    filledrect(b, 0, 0, 39, 39, 0x123456)\n    buf = copycircregion2buf(b, 20, 20, 8)\n    n = newBMP(40, 40, 24); m = bytes(n)\n    pastecirularbuf(n, 7, 20, buf)\nassert bytes(n) == m\n'),
 dict(id='s33', property='C03', edits=[('pythonbmp/BITMAPlib.py', 'horiline', '        dx = x2 - x1 + 1\n        if dx', '        dx = setmin(x2 - x1 + 1, 1)\n        if dx')],
  needs='a horizontal line that lies completely to the right of the image',
  breaks='one pixel of the row above is overwritten (or the buffer grows)',
  demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(10, 10, 24); m = bytes(b)\nhoriline(b, 6, 14, 20, 0xabcdef)\nassert bytes(b) == m\n'),
 dict(id='s35', property='C05', edits=[('pythonbmp/BITMAPlib.py', 'erasealternatehorizontallines2file', None, None)],
  needs='the line interval and the line number differ',
  breaks='the file version erases other lines than the in-memory operation',
  demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nwith tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):\n    b = newBMP(12, 30, 24); filledrect(b, 0, 0, 11, 29, 0x777777); saveBMP(d + '/a.bmp', b)\n    erasealternatehorizontallines2file(d + '/a.bmp', d + '/b.bmp', 5, 2, 0)\n    erasealternatehorizontallines(b, 5, 2, 0)\n    assert bytes(loadBMP(d + '/b.bmp')) == bytes(b)\n"),
 dict(id='s36', property='C05', edits=[('pythonbmp/BITMAPlib.py', '_usefn2regsv', '    if bmp != None:', '    if bmp != None and len(bmp) < _flsz(loadBMP(ExistingBMPfile)):')],
  needs='a crop of the whole image',
  breaks='a result as large as the source is not saved',
  demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nwith tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):\n    b = newBMP(12, 30, 24); filledrect(b, 3, 0, 7, 20, 0x777777); saveBMP(d + '/a.bmp', b)\n    cropBMPandsave(d + '/a.bmp', d + '/b.bmp', 0, 0, 11, 29)\n    assert bytes(loadBMP(d + '/b.bmp')) == bytes(b)\n"),
 dict(id='s37', property='C06', edits=[('pythonbmp/BITMAPlib.py', 'imagecomp', '        saveBMP(diff_file, nbmp)', '        saveBMP(diff_file or inputfile1, nbmp)')],
  needs='an empty name for the output file',
  breaks='the first source image is overwritten by the comparison',
  demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nwith tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):\n    b = newBMP(12, 30, 24); filledrect(b, 3, 0, 7, 20, 0x777777); saveBMP(d + '/a.bmp', b)\n    saveBMP(d + '/b.bmp', newBMP(12, 30, 24))\n    try: imagediff(d + '/a.bmp', d + '/b.bmp', '')\n    except OSError: pass\n    assert bytes(loadBMP(d + '/a.bmp')) == bytes(b)\n"),
 dict(id='s41', property='C15', edits=[('pythonbmp/BITMAPlib.py', 'plotstringfunc', '            x += xstep << 2', '            x += xstep << 2 if scale < 4 else xstep * 3')],
  needs='a tab in a string drawn at scale 4 or more',
  breaks='a tab advances three cells instead of four',
  demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nfrom pythonbmp.fonts import font8x8\ngot = []\nfor sc in (1, 3, 4, 6):\n    xs = []\n    L.plotstringfunc(None, 0, 0, 'a\\tb', sc, 0, 2, 1, font8x8, lambda s: iter(s), lambda bmp, x, *a: xs.append(x))\n    assert xs[1] - xs[0] == 5 * (sc * 8 + 2), (sc, xs)\n"),
 dict(id='s44', property='C25', edits=[('pythonbmp/solids3D.py', 'gensides', '<= 0', '< 0')],
  needs='a side seen exactly edge-on',
  breaks='such sides are left out',
  demo='\nfrom pythonbmp.solids3D import gensides\npl = [[0, 0, 0], [1, 1, 1], [2, 2, 2]]\na, n = gensides([pl, [[0, 0], [1, 1], [2, 2]]], [5, 5], [[0, 1, 2]])\nassert len(a) == 1\n'),
 dict(id='s21', property='C24', edits=[('pythonbmp/BITMAPlib.py', 'colorhistogram', '            d[c] += 1', '            d[c] += 1 if d[c] < 65535 else 0')],
  needs='an image with more than 65535 pixels of one color',
  breaks='counts stop at 65535',
  demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nwith contextlib.redirect_stdout(io.StringIO()):\n    b = newBMP(300, 300, 8)\n    h = colorhistogram(b)\nassert sorted(h[0]) == [0, 90000], h\n'),
 dict(id='s22', property='C22', edits=[('pythonbmp/BITMAPlib.py', 'convertbufto24bit', '            s1 <<= 2\n', '            s1 = s1 << 2 if s2 else 0\n')],
  needs='a 4-bit image in which color 0 follows another color in an odd column',
  breaks='upgrading looks up the wrong palette entry',
  demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(6, 3, 4)\nfor i in range(16): setRGBpal(b, i, i * 16, i * 3, 255 - i)\nfor x in range(6): plotxybit(b, x, 1, 9 if x in (0, 2, 3) else 0)\nn = upgradeto24bitimage(b)\nfor x in range(6): assert list(getRGBxybit(n, x, 1)) == list(getRGBxybit(b, x, 1)), x\n'),
 dict(id='s30', property='C13', edits=[('pythonbmp/fractals.py', 'itermultibiomorphvariant', 'x1, y1, x2, y2, c, d,', 'x1, y1, x2, y2, d, c,')],
  needs='the variant biomorph with an exponent different from its constant',
  breaks='constant and exponent are swapped',
  demo='\nfrom pythonbmp.fractals import *\nfrom pythonbmp.fractals import itermultibiomorphvariant, multibiomorphvariant, itermultifractalcomplexpar\ndom = [-2.5, 2.5, -2.5, 2.5]\na = [tuple(p) for p in itermultibiomorphvariant(0, 0, 9, 7, complex(.5, .1), 3, dom, 20)]\nb = [tuple(p) for p in itermultifractalcomplexpar(0, 0, 9, 7, complex(.5, .1), 3, multibiomorphvariant, dom, 20)]\nassert a == b\n'),
]
