def getdefaultlumrange() -> dict:
    return {'maxdesc': [255, 0], 'maxasc': [0, 255], 'middesc': [192, 64], 'midasc': [64, 192], 'upperdesc': [255, 128], 'upperasc': [128, 255], 'lowerdesc': [128, 0], 'lowerasc': [0, 128]}


def isvalidcolorbit(bits: int) -> bool:
    return bits in bmpvalidcolorbits


def getdefaultbitpal(bits: int) -> list:
    return bmpstdpal[bits]


def colormix(lum: int, RGBfactors: list[float, float, float]) -> int:
    r, g, b = RGBfactors
    return RGB2int(int(r * lum), int(g * lum), int(b * lum))


def int2RGB(i: int):
    return (i >> 16, i >> 8 & 255, i & 255)


def int2RGBlist(i: int) -> list[int, int, int]:
    return [i >> 16, i >> 8 & 255, i & 255]


def int2BGRarr(i: int) -> array:
    return array('B', [i & 255, i >> 8 & 255, i >> 16])


def int2RGBarr(i: int) -> array:
    return array('B', [i >> 16, i >> 8 & 255, i & 255])


def RGB2BGRarr(r: int, g: int, b: int) -> array:
    return array('B', [b, g, r])


def RGBfactors2RGB(RGBfactors: list[float, float, float], bytelum: int) -> list[int, int, int]:
    return roundvect(scalarmulvect(RGBfactors, bytelum))


def RGB2int(r: int, g: int, b: int) -> int:
    return b + (g << 8) + (r << 16)


def matchRGBtodefault4bitpal(RGB: list[int, int, int]) -> int:
    r, g, b = RGB
    r >>= 6
    g >>= 6
    b >>= 6
    color = 8 if r > 1 or g > 1 or b > 1 else 0
    if r >= 1:
        color += 4
    if g >= 1:
        color += 2
    if b >= 1:
        color += 1
    return color


def matchRGBtopal(RGB: list, pal: list) -> int:
    c = i = 0
    d = 442
    if RGB in pal:
        c = pal.index(RGB)
    else:
        for p in pal:
            if p != [0, 0, 0] and RGB != [0, 0, 0]:
                newd = dist(RGB, p)
                if newd < d:
                    c = i
                    d = newd
            i += 1
    return c


def RGBtoRGBfactorsandlum(rgb: list[int, int, int]) -> list[list[float, float, float], int]:
    lum = max(rgb)
    if lum == 0:
        lum = 1
    return [[rgb[0] / lum, rgb[1] / lum, rgb[2] / lum], lum]


def probplotRGBto1bit(rgb: list[int, int, int], brightness: int) -> int:
    return round(brightness * randint(0, sum(rgb)) / 768)


def probplotRGBto4bitpal(rgb: list[int, int, int]) -> int:
    color = 0
    r, g, b = rgb
    if round(randint(0, r) / 256) == 1:
        color += 4
    if round(randint(0, g) / 256) == 1:
        color += 2
    if round(randint(0, b) / 256) == 1:
        color += 1
    r >>= 6
    g >>= 6
    b >>= 6
    if r > 1 or g > 1 or b > 1:
        color += 8
    return color


def monochromepal(bits: int, rgbfactors: list[float, float, float]) -> list[list[int, int, int]]:
    inc = (256 >> bits) + iif(bits == 4, 1, iif(bits == 1, 127, 0))
    r, g, b = rgbfactors
    return [[round(r * c), round(g * c), round(b * c)] for c in range(0, 256, inc)]


def monoshiftablepal(bits: int, rgbfactors: list[float, float, float], mult: int=1, shift: int=0) -> list[list[int, int, int]]:
    inc = (256 >> bits) + iif(bits == 4, 1, iif(bits == 1, 127, 0))
    r, g, b = rgbfactors
    return [[round(r * j), round(g * j), round(b * j)] for j in [(c * mult + shift) % 256 for c in range(0, 256, inc)]]


def monoinverseshiftablepal(bits: int, rgbfactors: list[float, float, float], mult: int=1, shift: int=0) -> list[list[int, int, int]]:
    inc = (256 >> bits) + iif(bits == 4, 1, iif(bits == 1, 127, 0))
    r, g, b = rgbfactors
    return [[round(r * j), round(g * j), round(b * j)] for j in [((255 - c) * mult + shift) % 256 for c in range(0, 256, inc)]]


def monoinverseshiftableBGRpal(bits: int, rgbfactors: list[float, float, float], mult: int=1, shift: int=0) -> list[list[int, int, int]]:
    inc = (256 >> bits) + iif(bits == 4, 1, iif(bits == 1, 127, 0))
    r, g, b = rgbfactors
    return [[round(b * j), round(g * j), round(r * j)] for j in [((255 - c) * mult + shift) % 256 for c in range(0, 256, inc)]]


def monoinverseshiftableBGRApal(bits: int, rgbfactors: list[float, float, float], mult: int=1, shift: int=0) -> list[list[int, int, int]]:
    inc = (256 >> bits) + iif(bits == 4, 1, iif(bits == 1, 127, 0))
    r, g, b = rgbfactors
    return [[round(b * j), round(g * j), round(r * j), 0] for j in [((255 - c) * mult + shift) % 256 for c in range(0, 256, inc)]]


def monochrome(rgb: list[int, int, int]) -> list[int, int, int]:
    return [round(mean(rgb))] * 3


def gammacorrectbyte(lumbyte: int, gamma: float) -> int:
    return int((lumbyte / 255) ** gamma * 255)


def gammacorrect(rgb: list[int, int, int], gamma: float) -> list[int, int, int]:
    c = RGBtoRGBfactorsandlum(rgb)
    return setminmaxvec(RGBfactors2RGB(c[0], gammacorrectbyte(c[1], gamma)), 0, 255)


def brightnessadjust(rgb: list[int, int, int], percentadj: float) -> list[int, int, int]:
    c0, c1 = RGBtoRGBfactorsandlum(rgb)
    return setminmaxvec(RGBfactors2RGB(c0, c1 * (1 + percentadj / 100)), 0, 255)


def thresholdadjust(rgb: list[int, int, int], lumrange: list[int, int]) -> list[int, int, int]:
    c0, c1 = RGBtoRGBfactorsandlum(rgb)
    l0, l1 = intsetminmaxvec(lumrange, 0, 255)
    if l0 > l1:
        l1, l0 = (l0, l1)
    return RGBfactors2RGB(c0, setminmax(c1, l0, l1))


def colorfilter(rgb: list[int, int, int], rgbfactors: list[float, float, float]) -> list[int, int, int]:
    return intsetminmaxvec(mulvect(rgb, rgbfactors), 0, 255)


def applymonochromefiltertoBGRbuf(buf: array):
    m = len(buf)
    buf[0:m - 2:3] = buf[1:m - 1:3] = buf[2:m:3] = array('B', [int((b + g + r) / 3) for b, g, r in zip(buf[:m - 2:3], buf[1:m - 1:3], buf[2:m:3])])


def monochromefiltertoBGRbuf(buf: array) -> array:
    applymonochromefiltertoBGRbuf(buf)
    return buf


def applycolorfiltertoBGRbuf(buf: array, rgbfactors: list[float, float, float]):
    m = len(buf) - 1
    r, g, b = rgbfactors
    buf[0:m - 2:3], buf[1:m - 1:3], buf[2:m:3] = (array('B', setminmaxvec(intscalarmulvect(buf[:m - 2:3], b), 0, 255)), array('B', setminmaxvec(intscalarmulvect(buf[1:m - 1:3], g), 0, 255)), array('B', setminmaxvec(intscalarmulvect(buf[2:m:3], r), 0, 255)))


def colorfiltertoBGRbuf(buf: array, rgbfactors: list[float, float, float]) -> array:
    applycolorfiltertoBGRbuf(buf, rgbfactors)
    return buf


def applygammaBGRbuf(buf: array, gamma: float):
    imax = len(buf)
    for i in range(0, imax, 3):
        lum = max(buf[i:i + 3])
        if lum == 0:
            lum = 1
        f = int((lum / 255) ** gamma * 255) / lum
        j = i + 1
        k = i + 2
        buf[i] = int(buf[i] * f) & 255
        buf[j] = int(buf[j] * f) & 255
        buf[k] = int(buf[k] * f) & 255


def gammaBGRbuf(buf: array, gamma: float) -> array:
    applygammaBGRbuf(buf, gamma)
    return buf


def gammacorrectbyte(lumbyte: int, gamma: float) -> int:
    return int((lumbyte / 255) ** gamma * 255)


def RGBfactorstoBaseandRange(lumrange: list[int, int], rgbfactors: list[float, float, float]):
    baselum = intscalarmulvect(rgbfactors, lumrange[0])
    lumrange = subvect(scalarmulvect(rgbfactors, lumrange[1]), baselum)
    return (baselum, lumrange)


def invertbitsinbuffer(buf: array) -> array:
    return array('B', [b ^ 255 for b in buf])


def applybrightnessadjtoBGRbuf(buf: array, percentadj: float) -> array:
    return array('B', setminmaxvec(intscalarmulvect(buf, 1 + percentadj / 100), 0, 255))


def applythresholdadjtoBGRbuf(buf: array, lumrange: list) -> array:
    lummin = lumrange[0] & 255
    lummax = lumrange[1] & 255
    m = len(buf)
    for i in range(0, m, 3):
        lum = max(buf[i:i + 3])
        f = 1
        if lummin > lummax:
            lummin, lummax = (lummax, lummin)
        if lum > 0:
            if lum < lummin:
                f = lummin / lum
            if lum > lummax:
                f = lummax / lum
        if f != 1:
            j = i + 1
            k = i + 2
            buf[i] = int(f * buf[i])
            buf[j] = int(f * buf[j])
            buf[k] = int(f * buf[k])
    return buf


def RGB2BGRbuf(buf: array):
    m = len(buf)
    buf[0:m - 2:3], buf[2:m:3] = (buf[2:m:3], buf[:m - 2:3])


def makeBGRbuf(bbuf: array, gbuf: array, rbuf: array) -> array:
    return array('B', ravel2D([[b, g, r] for b, g, r in zip(bbuf, gbuf, rbuf)]))


def RGB2HSL(r: int, g: int, b: int) -> list[int, int, int]:
    r /= 255
    g /= 255
    b /= 255
    hi = max(r, g, b)
    lo = min(r, g, b)
    lum = (hi + lo) / 2
    hue = sat = 0
    if hi != lo:
        c = hi - lo
        sat = c / (1 - abs(2 * lum - 1))
        if hi == r:
            hue = (g - b) / c
            if g < b:
                hue += 6
        elif hi == g:
            hue = (b - r) / c + 2
        elif hi == b:
            hue = (r - g) / c + 4
    hue = round(hue * 60)
    sat = round(sat * 100)
    lum = round(lum * 100)
    return [hue, sat, lum]


def dichromaticpal(c1: int, c2: int, n: int, mult: int=1, shift: int=0) -> list[list[float]]:
    r, g, b = int2RGB(c1)
    x, y, z = int2RGB(c2)
    v = [[r, g, b]] * n
    for i in range(0, n):
        j = i / n
        v[((n - i) * mult + shift) % n] = (round(lerp(r, x, j)), round(lerp(g, y, j)), round(lerp(b, z, j)))
    return v


def RGB2BGRAlist(rgblist: list[list[int]]) -> list[list[int]]:
    return [[b, g, r, 0] for [r, g, b] in rgblist]


def interpolateRGB(f: Callable, r1: int, r2: int, g1: int, g2: int, b1: int, b2: int, v: float) -> list[int]:
    return (round(f(r1, r2, v)), round(f(g1, g2, v)), round(f(b1, b2, v)))


