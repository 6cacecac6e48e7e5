# New and copied images.  rowsize/datastart are the format's own arithmetic.

def rowsize(w, bits):
    return (w * bits + 31) // 32 * 4

def datastart(bits):
    if bits == 24:
        return 54
    return 54 + 4 * 2 ** bits

def le(v, n):
    return [v // 256 ** i % 256 for i in range(n)]

@on(each={'colorbits_': [1, 4, 8, 24]}, kinds={'x': 'int 1 16777215', 'y': 'int 1 16777215', 'colorbits': '= colorbits_'})
def newBMP(x, y, colorbits):
    ds = datastart(colorbits)
    size = ds + rowsize(x, colorbits) * y
    bmp = array('B', [0] * size)
    bmp[0] = 66
    bmp[1] = 77
    for i in range(7):
        bmp[2 + i] = size // 256 ** i % 256
    for i in range(3):
        bmp[10 + i] = ds // 256 ** i % 256
    for i in range(3):
        bmp[18 + i] = x // 256 ** i % 256
    for i in range(3):
        bmp[22 + i] = y // 256 ** i % 256
    bmp[28] = colorbits
    bmp[14] = 40
    if colorbits < 24:
        pal = bmpstdpal[colorbits]
        k = 0
        for r, g, b in pal:
            bmp[54 + 4 * k] = b
            bmp[55 + 4 * k] = g
            bmp[56 + 4 * k] = r
            k += 1
    return bmp

@on(each={'bits_': [1, 4, 8, 24]}, kinds={'x': 'int 0 16777215', 'bits': '= bits_'})
def _xbytes(x, bits):
    return rowsize(x, bits)

@on(each={'bits_': [1, 4, 8, 24]}, kinds={'x': 'int 0 16777215', 'y': 'int 0 16777215', 'bits': '= bits_'})
def _getbmflsz(x, y, bits):
    return datastart(bits) + rowsize(x, bits) * y

@on(bits=[1, 4, 8, 24])
def getmaxx(bmp):
    return W

@on(bits=[1, 4, 8, 24])
def getmaxy(bmp):
    return H

@on(bits=[1, 4, 8, 24])
def getmaxxy(bmp):
    return (W, H)

@on(bits=[1, 4, 8, 24])
def getmaxxyandbits(bmp):
    return ((W, H), BITS)

@on(bits=[1, 4, 8, 24])
def bottomrightcoord(bmp):
    return (W - 1, H - 1)

@on(bits=[1, 4, 8, 24])
def centercoord(bmp):
    return ((W - 1) // 2, (H - 1) // 2)

@on(bits=[1, 4, 8, 24])
def getmaxcolors(bmp):
    return NCOL

@on(bits=[1, 4, 8, 24])
def _xchrcnt(bmp):
    return S

@on(bits=[1, 4, 8, 24])
def copyBMPhdr(bmp):
    new = array('B', [0] * FSZ)
    new[0:D] = bmp[0:D]
    return new

@on(bits=[1, 4, 8, 24], each={'newbits_': [1, 4, 8, 24]}, kinds={'newbits': '= newbits_'})
def CopyBMPxydim2newBMP(bmp, newbits):
    return newBMP(W, H, newbits)

@on(mod='inttools', kinds={'arr': 'bytes', 'offset': 'int 0', 'cnt': '= n', 'value': 'int 0'}, each={'n': [2, 3, 4, 8]})
def writeint(offset, cnt, arr, value):
    for i in range(n - 1):
        arr[offset + i] = value // 256 ** i % 256

@on(mod='inttools', kinds={'arr': 'bytes', 'offset': 'int 0', 'cnt': '= n'}, each={'n': [2, 3, 4, 8]})
def readint(offset, cnt, arr):
    t = 0
    for i in range(n - 1):
        t += arr[offset + i] * 256 ** i
    return t
