SEEDS = [
 dict(id='t01', property='C02', edits=[('pythonbmp/BITMAPlib.py', 'copyBMPhdr', '    hdsz = _hdsz(bmp)\n    newbmp', '    hdsz = _hdsz(bmp) - (_hdsz(bmp) >> 8)\n    newbmp')], needs='an 8-bit image whose last palette entry is not black', breaks='an empty copy of a 256 color image loses its last palette entry', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(9, 7, 8)\nsetRGBpal(b, 255, 10, 20, 30)\nc = copyBMPhdr(b)\nassert getallRGBpal(c) == getallRGBpal(b)\n'),
 dict(id='t02', property='C02', edits=[('pythonbmp/BITMAPlib.py', '_setx', 'writeint(bmpx, 4,', 'writeint(bmpx, 3,')], needs='an image more than 65535 pixels wide', breaks='the width field holds only two bytes', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(70000, 1, 1)\nassert getmaxx(b) == 70000\n'),
 dict(id='t04', property='C06', edits=[('pythonbmp/fileutils.py', 'checklinks', 'isfile(args[0]) and isfile(args[1])', 'isfile(args[0] and args[1])')], needs='the first of two source files is missing', breaks='a comparison with a missing first file raises instead of reporting it', demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nwith tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):\n    saveBMP(d + '/b.bmp', newBMP(9, 7, 24))\n    try: imagediff(d + '/missing.bmp', d + '/b.bmp', d + '/o.bmp')\n    except Exception as e: sys.exit('raised %r' % e)\n    assert not os.path.exists(d + '/o.bmp')\n"),
 dict(id='t05', property='C07', edits=[('pythonbmp/paramchecks.py', 'func8and24bitonlyandentirecircleinboundary', '-1, readint(bmpx, 4, bmp), -1, readint(bmpy, 4, bmp), r)', '-1, readint(bmpx, 4, bmp), -1, max(readint(bmpy, 4, bmp), r << 1), r)')], needs='an image lower than the diameter of the circle', breaks='a circle that leaves the image at top and bottom is accepted', demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(60, 18, 24)\nfilledrect(b, 0, 0, 59, 17, 0x102030)\nm = bytes(b)\nwith contextlib.redirect_stdout(io.StringIO()):\n    try: fliphoricircregion(b, 30, 10, 10); invertbitsincircregion(b, 30, 10, 10)\n    except Exception: pass\n    o = io.StringIO()\n    with contextlib.redirect_stdout(o): fliphoricircregion(b, 30, 10, 10)\nassert bytes(b) == m\nassert 'out of bounds' in o.getvalue().lower() or o.getvalue(), o.getvalue()\n"),
 dict(id='t06', property='C07', edits=[('pythonbmp/paramchecks.py', 'func24bitonlyandentirerectinboundary', 'type(y1) == int and type(y2) == int', 'type(y1) == type(y2)')], needs='both y coordinates are floats', breaks='a region with fractional y coordinates is not refused', demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(20, 20, 24)\no = io.StringIO()\nwith contextlib.redirect_stdout(o):\n    try: r = monofilterto24bitregion(b, 1, 1.0, 8, 9.0)\n    except Exception as e: sys.exit('not refused: %r' % e)\nassert o.getvalue(), 'accepted'\n"),
 dict(id='t09', property='C12', edits=[('pythonbmp/inttools.py', 'buf2int', '(i << 3)', '((i & 3) << 3)')], needs='a buffer of more than four bytes', breaks='integers longer than four bytes are read back wrongly', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nfrom pythonbmp.inttools import int2buf, buf2int\nfor n in range(1, 9):\n    for v in (0, 1, 255, 256, 0x1234567890abcdef):\n        v &= (1 << 8 * n) - 1\n        assert buf2int(int2buf(n, v)) == v, (n, v)\n'),
 dict(id='t13', property='C18', edits=[('pythonbmp/mathlib.py', 'anglebetween2Dlines', 'u[0] != v[0]', 'u[0] < v[0] or u[0] > v[0] and u[1] >= v[1]')], needs='a line to the lower left', breaks='the angle of such a line is a right angle', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nfrom math import atan\nfrom pythonbmp.mathlib import anglebetween2Dlines\nfor u in ([0, 0], [3, 1]):\n    for v in ([5, 4], [5, -4], [-5, 4], [-5, -4]):\n        assert abs(anglebetween2Dlines(u, v) - atan((v[1] - u[1]) / (v[0] - u[0]))) < 1e-9, (u, v)\n'),
 dict(id='t15', property='C23', edits=[('mspaint.py', 'determine_file', 'Path.cwd().rglob(glob)', 'Path.cwd().glob(glob)')], needs='the newest match lies in a subdirectory', breaks='a file of the current directory is opened though a newer one lies below it', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nimport subprocess\nr = os.getcwd()\nwith tempfile.TemporaryDirectory() as d:\n    os.makedirs(d + \'/bin\'); os.makedirs(d + \'/w/sub\')\n    for n in (\'xdg-open\', \'open\'):\n        open(d + \'/bin/\' + n, \'w\').write(\'#!/bin/sh\\necho "$1" > %s/opened\\n\' % d); os.chmod(d + \'/bin/\' + n, 0o755)\n    open(d + \'/w/a.bmp\', \'w\').write(\'a\'); open(d + \'/w/sub/b.bmp\', \'w\').write(\'b\')\n    os.utime(d + \'/w/a.bmp\', (1000, 1000)); os.utime(d + \'/w/sub/b.bmp\', (2000, 2000))\n    subprocess.run([sys.executable, r + \'/mspaint.py\'], cwd=d + \'/w\', env=dict(os.environ, PATH=d + \'/bin:/usr/bin:/bin\'), check=True)\n    assert open(d + \'/opened\').read().strip().endswith(\'sub/b.bmp\')\n'),
 dict(id='t17', property='C10', edits=[('pythonbmp/BITMAPlib.py', 'palshift', 'shift = abs(shift) % m', 'shift = abs(shift) % m if shift < m else m - 1')], needs='a shift by at least the number of colors', breaks='such a shift rotates the palette by the wrong amount', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nfor bits in (4, 8):\n    n = 1 << bits\n    for k in (1, 3, n - 1, n, n + 2, 5 * n + 7):\n        b = newBMP(4, 4, bits)\n        p = [[i, 255 - i, i ^ 5] for i in range(n)]\n        setbmppal(b, p)\n        c = newBMP(4, 4, bits); setbmppal(c, p)\n        palshift(b, k); palshift(c, k % n)\n        assert bytes(b) == bytes(c), (bits, k)\n'),
 dict(id='t23', property='C21', edits=[('pythonbmp/BITMAPlib.py', 'loadBMP', 'f.read(fsize)', 'f.read()')], needs='a file with bytes after the image', breaks='bytes behind the recorded size become part of the image', demo="\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nwith tempfile.TemporaryDirectory() as d:\n    b = newBMP(9, 7, 24)\n    open(d + '/a.bmp', 'wb').write(bytes(b) + b'trailing')\n    assert bytes(loadBMP(d + '/a.bmp')) == bytes(b)\n"),
 dict(id='t30', property='C16', edits=[('pythonbmp/BITMAPlib.py', 'verttransregion', '    while s1 < s2:', '    while s1 + r <= s2 - (r & 4096):')], needs='rows of 4096 bytes or more', breaks='the two innermost rows of a wide image keep their place', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(1500, 6, 24)\nfor y in range(6): horiline(b, y, 0, 1499, 0x111111 * (y + 1))\na = [getxybit(b, 700, y) for y in range(6)]\nflipvertical(b)\nassert [getxybit(b, 700, y) for y in range(6)] == a[::-1]\n'),
 dict(id='t33', property='C25', edits=[('pythonbmp/charts.py', 'genpiechartdata', 'if p >= 50:', 'if p > 50:')], needs='a slice of exactly half of the total', breaks='a half slice is neither drawn as an arc nor as the background disc', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nfrom pythonbmp.charts import genpiechartdata\na, big = genpiechartdata([[5, 1], [3, 2], [2, 3]])\nb = newBMP(100, 100, 8)\nr = piechart(b, 50, 50, 40, [[5, 1], [3, 2], [2, 3]])\nassert any(getxybit(b, x, y) == 1 for x in range(100) for y in range(100))\n'),
 dict(id='t35', property='C22', edits=[('pythonbmp/BITMAPlib.py', 'pasterect', 'listinBMPrecbnd(bmp, ((x1, y1), (x2, y2)))', 'listinBMPrecbnd(bmp, ((x2, y1), (x2, y2)))')], needs='a paste whose left edge is left of the image', breaks='the paste wraps around instead of being refused', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(30, 30, 24)\nfilledrect(b, 0, 0, 29, 29, 0x445566)\nbuf = copyrect(b, 2, 2, 9, 9)\nn = newBMP(30, 30, 24); m = bytes(n)\nwith contextlib.redirect_stdout(io.StringIO()): pasterect(n, buf, -3, 4)\nassert bytes(n) == m\n'),
 dict(id='t36', property='C03', edits=[('pythonbmp/BITMAPlib.py', 'vertline', 'y1 = setmin(y1, 0)', 'y1 = setmin(y1, 0) if y2 < my else abs(y1)')], needs='a vertical line that leaves the image at both ends', breaks='the top part of the line inside the image is missing', demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nfor bits in (8, 24):\n    b = newBMP(10, 10, bits)\n    vertline(b, 4, -3, 14, 5)\n    assert [getxybit(b, 4, y) for y in range(10)] == [5] * 10, bits\n'),
 dict(id='t37', property='C09', edits=[('pythonbmp/BITMAPlib.py', 'plotpoly', '    linevec(bmp,', '    vertlist.append(vertlist[0])\n    vertlist.pop(0) if len(vertlist) > 9 else vertlist.pop()\n    linevec(bmp,')], needs='a polygon with nine or more vertices', breaks="drawing a polygon rotates the caller's vertex list", demo='\nimport sys, os, tempfile, io, contextlib\nimport pythonbmp.BITMAPlib as L\nfrom pythonbmp.BITMAPlib import *\n\nb = newBMP(40, 40, 8)\nv = [[20 + (k * 7) % 11, 3 * k] for k in range(12)]\nw = [list(p) for p in v]\nplotpoly(b, v, 3)\nassert v == w\n'),
]
