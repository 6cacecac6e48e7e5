B = 'pythonbmp/BITMAPlib.py'
P = '''
import sys, os, tempfile, io, contextlib
import pythonbmp.BITMAPlib as L
from pythonbmp.BITMAPlib import *

'''
SEEDS = [
 dict(id='w01', property='C10', edits=[('pythonbmp/colors.py', 'matchRGBtopal', '                    d = newd', '                    d = newd if i < 128 else d')],
  needs='a palette whose closest colour comes after entry 127 and is followed by a worse one', breaks='the later, worse colour is taken',
  demo=P + "from pythonbmp.colors import matchRGBtopal\npal = [[250, 250, 250] for _ in range(256)]\npal[130] = [12, 10, 10]\npal[200] = [40, 10, 10]\nassert matchRGBtopal([10, 10, 10], pal) == 130\n"),
 dict(id='w02', property='C25', edits=[(B, 'XYscatterplot', '            xmax = (ymax - b) / m', '            xmax = (ymax + b) / m')],
  needs='a regression line that leaves the plot through its top', breaks='the line ends at the wrong place',
  demo=P + "b = newBMP(200, 200, 24)\nd = [[x, 2 * x + 1, 1, 0xff, True] for x in range(1, 5)]\nXYscatterplot(b, d, [[20, 180], [10, 10], [190, 10], [0, 0], [1, 1], [17, 17]], True, 0xff00)\nassert getxybit(b, 100, 10) == 0xff00\n"),
]
