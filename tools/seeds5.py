P = '\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\n'
B = 'pythonbmp/BITMAPlib.py'
SEEDS = [
 dict(id='u01', property='C04', edits=[(B, 'horiline', 'if isinrange(y, my, -1):', 'if isinrange(y, my, -1) or y == my > mx:')],
  needs='a horizontal line one row below an image that is taller than wide',
  breaks='the palette or header bytes before the pixel data are overwritten',
  demo=P + "for bits, hd in ((8, 1078), (24, 54)):\n    b = newBMP(10, 30, bits); m = bytes(b[:hd])\n    with contextlib.redirect_stdout(io.StringIO()):\n        horiline(b, 30, 2, 7, 0x55)\n    assert bytes(b[:hd]) == m, bits\n"),
 dict(id='u02', property='C04', edits=[(B, 'copyRGBpal', '    l = _hdsz(sourceBMP)\n    destBMP[bmppal: l] = \\\n  sourceBMP[bmppal: l]', '    l = _hdsz(destBMP)\n    destBMP[bmppal: l] = \\\n  sourceBMP[bmppal: l]')],
  needs='copying the palette of a 4-bit image to an 8-bit one',
  breaks='pixel data of the source are taken as palette entries',
  demo=P + "a = newBMP(200, 60, 4); b = newBMP(8, 8, 8); filledrect(a, 0, 0, 199, 59, 9)\nm = bytes(b[118:1078])\ncopyRGBpal(a, b)\nassert bytes(b[118:1078]) == m\n"),
 dict(id='u03', property='C11', edits=[('pythonbmp/colors.py', 'brightnessadjust', 'return setminmaxvec(RGBfactors2RGB(c0,\n     c1 * (1 + (percentadj / 100))),\n     0, 255)', 'return [min(c, 255) for c in RGBfactors2RGB(c0,\n     c1 * (1 + (percentadj / 100)))]')],
  needs='a brightness adjustment below -100 percent',
  breaks='components are negative',
  demo=P + "from pythonbmp.colors import brightnessadjust\nfor p in (-300, -101, -50, 0, 80, 400):\n    assert all(0 <= c <= 255 for c in brightnessadjust([10, 200, 30], p)), p\n"),
 dict(id='u04', property='C11', edits=[('pythonbmp/colors.py', 'applythresholdadjtoBGRbuf', 'lummax = lumrange[1] & 0xff', 'lummax = lumrange[1] & 0x1ff')],
  needs='an upper limit of the luminosity range above 255',
  breaks='the limits are not reduced to bytes, components above 255 raise',
  demo=P + "from pythonbmp.colors import applythresholdadjtoBGRbuf as f\nfrom array import array\nassert list(f(array('B', [10, 20, 40]), [300, 280])) == list(f(array('B', [10, 20, 40]), [300 & 255, 280 & 255]))\nassert list(f(array('B', [200, 20, 40]), [10, 290])) == list(f(array('B', [200, 20, 40]), [10, 290 & 255]))\n"),
 dict(id='u05', property='C11', edits=[('pythonbmp/colors.py', 'applygammaBGRbuf', '    imax = len(buf)\n', '    imax = len(buf) - (len(buf) > 7650) * 3\n')],
  needs='a row of more than 2550 pixels',
  breaks='the last pixel of wide rows is not adjusted',
  demo=P + "from pythonbmp.colors import applygammaBGRbuf as f\nfrom array import array\nfor n in (3, 200, 255, 256, 400, 2551, 4000):\n    b = array('B', [50, 100, 200] * n); f(b, 2.0)\n    assert list(b) == list(b[:3]) * n, n\n"),
 dict(id='u06', property='C14', edits=[('pythonbmp/X11colordict.py', None, "'tomato3': 13455161,", "'tomato3': 13455160,"), ('pythonbmp/X11colordict.py', None, "'tomato3': [0.803922, 0.309804, 0.223529]", "'tomato3': [0.803922, 0.309804, 0.219608]")],
  needs='one color name', breaks='the RGB and factor views both give another color than the name has (its blue is off by one)',
  demo=P + "import pythonbmp.X11colordict as X\nds = [f() for n, f in vars(X).items() if n.startswith('get') and callable(f)]\nrgb = [d['tomato3'] for d in ds if isinstance(d['tomato3'], int)]\nassert rgb == [0xcd4f39], rgb\n"),
 dict(id='u07', property='C17', edits=[('pythonbmp/charts.py', 'genpiechartdata', 'def genpiechartdata(dlist: list):', 'def genpiechartdata(dlist: list, seen: dict = {}):'), ('pythonbmp/charts.py', 'genpiechartdata', '    tot = getdatalisttotal(dlist)\n', '    tot = seen.setdefault(len(dlist) if len(dlist) > 12 else id(seen) + len(seen), getdatalisttotal(dlist))\n')],
  needs='two charts with the same large number of slices',
  breaks='the total of an earlier chart is used for a later one',
  demo=P + "from pythonbmp.charts import genpiechartdata as g\na = [[i + 1, i] for i in range(20)]; b = [[2 * i + 1, i] for i in range(20)]\ng(a)\nassert abs(g(b)[0][-1][1] - 360) < 1e-6\n"),
 dict(id='u08', property='C17', edits=[('pythonbmp/proctimer.py', 'hhmmsselaspedtime', None, None)], needs='', breaks='', demo=''),
 dict(id='u09', property='C20', edits=[(B, 'imagecomp', "% (s1, s2))", "% [s1, s2])")],
  needs='comparing two images of different size', breaks='the message has more fields than it gets values',
  demo=P + "with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):\n    saveBMP(d + '/a.bmp', newBMP(8, 8, 24)); saveBMP(d + '/b.bmp', newBMP(9, 8, 24))\n    imagediff(d + '/a.bmp', d + '/b.bmp', d + '/c.bmp')\n    assert not os.path.exists(d + '/c.bmp')\n"),
 dict(id='u10', property='C20', edits=[(B, 'reduce24bitimagebits', '        if newbits > 1:\n', '        if newbits > 4:\n')],
  needs='a reduction to 4 bits', breaks='the palette is used although it was never computed',
  demo=P + "with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):\n    b = newBMP(8, 8, 24); filledrect(b, 1, 1, 4, 4, 0xff0000); saveBMP(d + '/a.bmp', b)\n    reduce24bitimagebits(d + '/a.bmp', d + '/b.bmp', 4, 0.1, False)\n    assert getmaxxyandbits(loadBMP(d + '/b.bmp'))[1] == 4\n"),
]
SEEDS = [s for s in SEEDS if s['demo']]
