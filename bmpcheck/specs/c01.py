# Single pixel layout.  W, H: image size, S: padded row size, D: data offset.

@on(bits=24, kinds={'c': 'int 0 16777215'})
def plotxybit(bmp, x, y, c):
    if 0 <= x < W and 0 <= y < H:
        i = D + (H - 1 - y) * S + 3 * x
        bmp[i] = c % 256
        bmp[i + 1] = c // 256 % 256
        bmp[i + 2] = c // 65536

@on(bits=8, kinds={'c': 'int 0 255'})
def plotxybit(bmp, x, y, c):
    if 0 <= x < W and 0 <= y < H:
        bmp[D + (H - 1 - y) * S + x] = c

@on(bits=4, kinds={'c': 'int 0 15'})
def plotxybit(bmp, x, y, c):
    if 0 <= x < W and 0 <= y < H:
        i = D + (H - 1 - y) * S + x // 2
        if x % 2 == 0:
            bmp[i] = c * 16 + bmp[i] % 16
        else:
            bmp[i] = bmp[i] // 16 * 16 + c

@on(bits=1, kinds={'x': '= 8 * q + r', 'c': '= k'}, each={'r': [0, 1, 2, 3, 4, 5, 6, 7], 'k': [0, 1]})
def plotxybit(bmp, x, y, c):
    if 0 <= x < W and 0 <= y < H:
        i = D + (H - 1 - y) * S + x // 8
        p = 2 ** (7 - r)
        bmp[i] = bmp[i] // (2 * p) * (2 * p) + c * p + bmp[i] % p

@on(bits=24)
def getxybit(bmp, x, y):
    if 0 <= x < W and 0 <= y < H:
        i = D + (H - 1 - y) * S + 3 * x
        return bmp[i] + bmp[i + 1] * 256 + bmp[i + 2] * 65536
    return -1

@on(bits=8)
def getxybit(bmp, x, y):
    if 0 <= x < W and 0 <= y < H:
        return bmp[D + (H - 1 - y) * S + x]
    return -1

@on(bits=4)
def getxybit(bmp, x, y):
    if 0 <= x < W and 0 <= y < H:
        b = bmp[D + (H - 1 - y) * S + x // 2]
        if x % 2 == 0:
            return b // 16
        return b % 16
    return -1

@on(bits=1, kinds={'x': '= 8 * q + r'}, each={'r': [0, 1, 2, 3, 4, 5, 6, 7]})
def getxybit(bmp, x, y):
    if 0 <= x < W and 0 <= y < H:
        return bmp[D + (H - 1 - y) * S + x // 8] // 2 ** (7 - r) % 2
    return -1

@on(bits=24, kinds={'rgb': 'rgb'})
def plotRGBxybit(bmp, x, y, rgb):
    if 0 <= x < W and 0 <= y < H:
        i = D + (H - 1 - y) * S + 3 * x
        bmp[i] = rgb[2]
        bmp[i + 1] = rgb[1]
        bmp[i + 2] = rgb[0]

@on(bits=[8, 4, 1], kinds={'rgb': 'rgb'}, opaque=['plotxybit', 'getallRGBpal', 'matchRGBtopal'])
def plotRGBxybit(bmp, x, y, rgb):
    if 0 <= x < W and 0 <= y < H:
        plotxybit(bmp, x, y, matchRGBtopal(rgb, getallRGBpal(bmp)))

@on(bits=24)
def getRGBxybit(bmp, x, y):
    if 0 <= x < W and 0 <= y < H:
        i = D + (H - 1 - y) * S + 3 * x
        return [bmp[i + 2], bmp[i + 1], bmp[i]]
    return []

@on(bits=[8, 4, 1], opaque=['getxybit'])
def getRGBxybit(bmp, x, y):
    if 0 <= x < W and 0 <= y < H:
        j = 54 + 4 * getxybit(bmp, x, y)
        return [bmp[j + 2], bmp[j + 1], bmp[j]]
    return []

@on(bits=[24, 8, 4, 1], kinds={'v': 'xy'})
def getRGBxybitvec(bmp, v):
    return getRGBxybit(bmp, v[0], v[1])

@on(bits=[24, 8, 4, 1], kinds={'v': 'xy'})
def getxybitvec(bmp, v):
    return getxybit(bmp, v[0], v[1])

@on(bits=[24, 8, 4, 1], kinds={'v': 'xy'}, opaque=['plotxybit'])
def intplotvecxypoint(bmp, v, c):
    plotxybit(bmp, v[0], v[1], c)

@on(bits=[24, 8, 4, 1], kinds={'v': 'list 2 real'}, opaque=['plotxybit'])
def plotvecxypoint(bmp, v, c):
    plotxybit(bmp, round(v[0]), round(v[1]), c)

@on(bits=[24, 8, 4, 1], kinds={'v': 'xy', 'rgb': 'rgb'}, opaque=['plotRGBxybit'])
def plotRGBxybitvec(bmp, v, rgb):
    plotRGBxybit(bmp, v[0], v[1], rgb)

@on(bits=[24, 8, 4, 1])
def isinBMPrectbnd(bmp, x, y):
    return 0 <= x < W and 0 <= y < H
