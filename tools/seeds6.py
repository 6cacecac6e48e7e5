B = 'pythonbmp/BITMAPlib.py'
P = '''
import sys, os, tempfile, io, contextlib
import pythonbmp.BITMAPlib as L
from pythonbmp.BITMAPlib import *

'''
SEEDS = [
 dict(id='v01', property='C03', edits=[(B, 'plotpoly', 'vertlist[-1]', 'vertlist[len(vertlist) - 1 & 4095]')],
  needs='a polygon of more than 4096 vertices', breaks='the closing side starts at an earlier vertex',
  demo=P + "b = newBMP(200, 60, 24)\nv = [[i % 150 + 10, 10 + i % 2] for i in range(5000)] + [[80, 50]]\nplotpoly(b, v, 0xffffff)\nassert getxybit(b, 45, 30) == 0xffffff\n"),
 dict(id='v02', property='C22', edits=[(B, 'pasterect', '            br = buf2int(buf[5: 7])', '            br = buf2int(buf[5: 7]) & 0x3fff')],
  needs='a region whose rows take more than 16383 bytes', breaks='pasting cuts the rows in the wrong places',
  demo=P + "b = newBMP(17000, 2, 8)\nfor x in range(0, 17000, 77): plotxybit(b, x, 1, x % 251)\nr = copyrect(b, 0, 0, 16999, 1)\nc = newBMP(17000, 2, 8)\npasterect(c, r, 0, 0)\nassert c == b\n"),
 dict(id='v03', property='C06', edits=[(B, 'saveBMP', '        f.write(bmp)', '        f.write(bmp[:1 << 24])')],
  needs='an image of more than 16 MB', breaks='the rest of the file is missing',
  demo=P + "b = newBMP(4200, 4100, 8)\nwith tempfile.TemporaryDirectory() as d:\n    saveBMP(d + '/a.bmp', b)\n    assert os.path.getsize(d + '/a.bmp') == len(b)\n"),
]
