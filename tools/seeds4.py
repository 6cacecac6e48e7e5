SEEDS = [
 dict(id='t04', property='C06', edits=[('pythonbmp/fileutils.py', 'checklinks', 'isfile(args[0]) and \\\n           isfile(args[1])', 'isfile(args[0] and args[1])')], needs='the first of two source files is missing', breaks='a comparison with a missing first file raises instead of reporting it', demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nwith tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):\n    saveBMP(d + '/b.bmp', newBMP(9, 7, 24))\n    try: imagediff(d + '/missing.bmp', d + '/b.bmp', d + '/o.bmp')\n    except Exception as e: sys.exit('raised %r' % e)\n    assert not os.path.exists(d + '/o.bmp')\n"),
 dict(id='t05', property='C07', edits=[('pythonbmp/paramchecks.py', 'func8and24bitonlyandentirecircleinboundary', '                x, y, -1, readint(bmpx, 4, bmp),\n                      -1, readint(bmpy, 4, bmp), r)', '                x, y, -1, readint(bmpx, 4, bmp),\n                      -1, max(readint(bmpy, 4, bmp), r + r + 2), r)')], needs='an image lower than the diameter of the circle', breaks='a circle that leaves the image at top and bottom is accepted', demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(60, 18, 24)\nfilledrect(b, 0, 0, 59, 17, 0x102030)\nfor x in range(60): plotxybit(b, x, 3, x)\nm = bytes(b)\no = io.StringIO()\nwith contextlib.redirect_stdout(o):\n    try: fliphoricircregion(b, 30, 10, 10)\n    except Exception as e: sys.exit('%r' % e)\nassert bytes(b) == m and o.getvalue()\n"),
 dict(id='t30', property='C16', edits=[('pythonbmp/BITMAPlib.py', 'verttransregion', '    while s1 < s2:', '    while s1 + r <= s2 - (r & 4096):')], needs='rows of 4096 bytes or more', breaks='the two innermost rows of a wide image keep their place', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(1500, 6, 24)\nfor y in range(6): horiline(b, y, 0, 1499, 0x111111 * (y + 1))\na = [getxybit(b, 700, y) for y in range(6)]\nflipverticalregion(b, 0, 0, 1499, 5)\nassert [getxybit(b, 700, y) for y in range(6)] == a[::-1]\n'),
 dict(id='t35', property='C22', edits=[('pythonbmp/BITMAPlib.py', 'pasterect', 'listinBMPrecbnd(bmp, ((x1, y1),', 'listinBMPrecbnd(bmp, ((abs(x1), y1),')], needs='a paste whose left edge is left of the image', breaks='the paste wraps around instead of being refused', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(30, 30, 24)\nfilledrect(b, 0, 0, 29, 29, 0x445566)\nbuf = copyrect(b, 2, 2, 9, 9)\nn = newBMP(30, 30, 24); m = bytes(n)\nwith contextlib.redirect_stdout(io.StringIO()): pasterect(n, buf, -3, 4)\nassert bytes(n) == m\n'),
 dict(id='t37', property='C09', edits=[('pythonbmp/BITMAPlib.py', 'thickplotpoly', '    vertcount = len(vertlist)\n', '    vertcount = len(vertlist)\n    for i, p in enumerate(vertlist):\n        vertlist[i] = roundvect(p)\n')], needs='vertices that are not integers', breaks="drawing a thick polygon rounds the caller's vertex list in place", demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(40, 40, 8)\nv = [[5.5, 6.25], [30.75, 8.5], [20.2, 30.1]]\nw = [list(p) for p in v]\nthickplotpoly(b, v, 2, 3)\nassert v == w\n'),
 dict(id='t45', property='C25', edits=[('pythonbmp/BITMAPlib.py', 'numbervert', 'i = vlist.index(v)', 'i = vlist.index(v) if valstep > 0 else maxv - vlist.index(v)')], needs='axis numbers that decrease', breaks='the labels of a descending axis are in reverse order', demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\ngot = []\nL.plotstring = lambda bmp, x, y, s, *a: got.append(s)\nnumbervert(None, [[1, 1], [2, 2], [3, 3]], 0, 0, 1, 10, -2, 0, 0, 1, None, False, False, False)\nassert got == ['10', '8', '6'], got\n"),
]
