def _setx(bmp: array, xmax: int):
    writeint(bmpx, 4, bmp, xmax)


def getmaxx(bmp: array) -> int:
    return readint(bmpx, 4, bmp)


def _sety(bmp: array, ymax: int):
    writeint(bmpy, 4, bmp, ymax)


def getmaxy(bmp: array) -> int:
    return readint(bmpy, 4, bmp)


def getmaxxy(bmp: array) -> tuple:
    return (readint(bmpx, 4, bmp), readint(bmpy, 4, bmp))


def bottomrightcoord(bmp: array) -> tuple:
    return (readint(bmpx, 4, bmp) - 1, readint(bmpy, 4, bmp) - 1)


def centercoord(bmp: array) -> tuple:
    return (readint(bmpx, 4, bmp) - 1 >> 1, readint(bmpy, 4, bmp) - 1 >> 1)


def isinBMPrectbnd(bmp: array, x: int, y: int) -> bool:
    return (x < readint(bmpx, 4, bmp) and y < readint(bmpy, 4, bmp)) and (x > -1 and y > -1)


def listinBMPrecbnd(bmp: array, xylist: list) -> bool:
    for x, y in xylist:
        if isinBMPrectbnd(bmp, x, y) == False:
            return False
    return True


def _getclrbits(bmp: array) -> int:
    return bmp[bmpcolorbits]


def _xchrcnt(bmp: array) -> int:
    return _xbytes(readint(bmpx, 4, bmp), bmp[bmpcolorbits])


def _setflsz(bmp: array, size: int):
    writeint(bmpfilesize, 8, bmp, size)


def _flsz(bmp: array) -> int:
    return readint(bmpfilesize, 8, bmp)


def _sethdsz(bmp: array, hdsize: int):
    writeint(bmphdrsize, 4, bmp, hdsize)


def _hdsz(bmp: array) -> int:
    return readint(bmphdrsize, 4, bmp)


def getmaxcolors(bmp: array) -> int:
    return 1 << bmp[bmpcolorbits]


def _24bmof(bmp: array, x: int, y: int) -> int:
    return x * 3 + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 24)


def _24bmofhd(bmp: array, x: int, y: int) -> int:
    return x * 3 + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 24) + 54


def _8bmof(bmp: array, x: int, y: int) -> int:
    return x + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 8)


def _8bmofhd(bmp: array, x: int, y: int) -> int:
    return x + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 8) + 1078


def _4bmof(bmp: array, x: int, y: int) -> int:
    return (x >> 1) + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 4)


def _1bmof(bmp: array, x: int, y: int) -> int:
    return (x >> 3) + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 1)


def _4bmofhd(bmp: array, x: int, y: int) -> int:
    return (x >> 1) + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 4) + 118


def _1bmofhd(bmp: array, x: int, y: int) -> int:
    return (x >> 3) + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 1) + 62


def _getBMoffhdfunc(bmp: array):
    return {24: _24bmofhd, 8: _8bmofhd, 4: _4bmofhd, 1: _1bmofhd}[bmp[bmpcolorbits]]


def _getBMofffunc(bmp: array):
    return {24: _24bmof, 8: _8bmof, 4: _4bmof, 1: _1bmof}[bmp[bmpcolorbits]]


def _BMoffset(bmp: array, x: int, y: int) -> int:
    return _getBMofffunc(bmp)(bmp, x, y)


def _BMoffsethd(bmp: array, x: int, y: int) -> int:
    return _getBMoffhdfunc(bmp)(bmp, x, y)


def getmaxxyandbits(bmp: array) -> tuple:
    return ((readint(bmpx, 4, bmp), readint(bmpy, 4, bmp)), bmp[bmpcolorbits])


def _xbytes(x: int, bits: int) -> int:
    if bits <= 8:
        xperbyte = 8 // bits
        xbytes, rem = divmod(x, xperbyte)
        if rem > 0:
            xbytes += 1
    if bits == 24:
        xbytes = x * 3
    rem = xbytes & 3
    if rem > 0:
        xbytes = xbytes + (4 - rem)
    return xbytes


def _pdbytes(x: int, bits: int) -> int:
    if bits <= 8:
        xperbyte = 8 // bits
        xbytes, rem = divmod(x, xperbyte)
        if rem > 0:
            xbytes += 1
    if bits == 24:
        xbytes = x * 3
    rem = xbytes & 3
    return iif(rem > 0, 4 - rem, 0)


def _getbmflsz(x: int, y: int, bits: int) -> int:
    return _xbytes(x, bits) * y + bmpheadersizedict[bits]


def _bmmeta(x: int, y: int, bits: int) -> tuple:
    return (_getbmflsz(x, y, bits), bmpheadersizedict[bits], x, y, bits)


def isdefaultpal(bmp: array) -> bool:
    return getdefaultbitpal(_getclrbits(bmp)) == getallRGBpal(bmp)


def getBMPimgbytes(bmp: array) -> list:
    return bmp[_hdsz(bmp):_flsz(bmp)]


def setBMPimgbytes(bmp: array, buf: array):
    bmp[_hdsz(bmp):_flsz(bmp)] = buf


def setbmppal(bmp: array, pallist: list):
    if len(pallist) == getmaxcolors(bmp):
        s = bmppal
        for r, g, b in pallist:
            bmp[s:s + 3] = array('B', [b, g, r])
            s += 4


def setbmppalwithBGRlist(bmp: array, bgrpallist: list):
    if len(bgrpallist) == getmaxcolors(bmp):
        s = bmppal
        for p in bgrpallist:
            bmp[s:s + 3] = array('B', p)
            s += 4


def setbmppalwithBGRAlist(bmp: array, bgrapallist: list):
    if len(bgrapallist) == getmaxcolors(bmp):
        p = ravel2D(bgrapallist)
        bmp[bmppal:bmppal + len(p)] = array('B', p)


def getallRGBpal(bmp: array) -> list[list[int, int, int]]:
    colors = getmaxcolors(bmp)
    return [getRGBpal(bmp, c) for c in range(colors)]


def getRGBpal(bmp: array, c: int) -> list[int, int, int]:
    i = bmppal + (c << 2)
    return [bmp[i + 2], bmp[i + 1], bmp[i]]


def setRGBpal(bmp: array, c: int, r: int, g: int, b: int):
    s = bmppal + (c << 2)
    bmp[s:s + 3] = array('B', [b, g, r])


@func4and8bitonly
def palshift(bmp: array, shift: int=1):
    m = getmaxcolors(bmp)
    shift = abs(shift) % m
    e = (m - shift) * 4 + bmppal
    shift *= 4
    p = bmppal + shift
    q = e + shift
    bmp[e:q], bmp[bmppal:e] = (bmp[bmppal:p], bmp[p:q])


@func4and8bitonly
def itercolorcycle(bmp: array):
    m = getmaxcolors(bmp) - 1
    yield bmp
    for _ in range(m):
        palshift(bmp)
        yield bmp


def colorcycle2dir(ExistingBMPfile: str, NewDir: str, overwritedir: bool=False):
    _usefndirsv(ExistingBMPfile, NewDir, itercolorcycle, overwritedir)


def colorhistogram(bmp: array) -> list:
    d = {}
    for v in iterimagecolor(bmp, sysmsg['colorhist'], '*', sysmsg['done']):
        c = v[1]
        if c not in d:
            d.setdefault(c, 1)
        else:
            d[c] += 1
    return dict2descorderlist(d)


def makenewpalfromcolorhist(chist: list, colors: int, similaritythreshold: float) -> list:
    newpal = [[0, 0, 0]]
    palcnt = 1
    colorcount = len(chist)
    for i in range(colorcount):
        rgb = int2RGBlist(chist[i][1])
        addcl = True
        for palentry in newpal:
            if dist(palentry, rgb) < similaritythreshold:
                addcl = False
        if addcl:
            print(palcnt, '=', rgb)
            newpal.append(rgb)
            palcnt += 1
        if palcnt == colors:
            break
    return newpal


def copyBMPhdr(bmp: array) -> array:
    hdsz = _hdsz(bmp)
    newbmp = array('B', [0] * _flsz(bmp))
    newbmp[0:hdsz] = bmp[:hdsz]
    return newbmp


def copyRGBpal(sourceBMP: array, destBMP: array):
    l = _hdsz(sourceBMP)
    destBMP[bmppal:l] = sourceBMP[bmppal:l]


def _setmeta(bmpmeta: list) -> array:
    bmp = array('B')
    [filesize, hdrsize, x, y, bits] = bmpmeta
    bmp.frombytes(b'\x00' * filesize)
    bmp[0:2] = bmpheaderid
    _setflsz(bmp, filesize)
    _sethdsz(bmp, hdrsize)
    _setx(bmp, x)
    _sety(bmp, y)
    bmp[bmpcolorbits] = bits
    bmp[14] = 40
    if bits < 24:
        setbmppal(bmp, getdefaultbitpal(bits))
    return bmp


def setnewpalfromsourcebmp(sourcebmp: array, newbmp: array, similaritythreshold: float) -> list:
    newpal = makenewpalfromcolorhist(colorhistogram(sourcebmp), getmaxcolors(newbmp), similaritythreshold)
    setbmppal(newbmp, newpal)
    return newpal


def RGBpalbrightnessadjust(bmp: array, percentadj: float) -> list:
    return [brightnessadjust(c, percentadj) for c in getallRGBpal(bmp)]


def setBMP2monochrome(bmp: array, RGBfactors: list[float, float, float]) -> list:
    newpal = monochromepal(_getclrbits(bmp), RGBfactors)
    setbmppal(bmp, newpal)
    return newpal


def setBMP2invshiftedmonochrome(bmp: array, RGBfactors: list[float, float, float], mult: int=20, shift: int=0) -> list:
    newpal = monoinverseshiftableBGRApal(_getclrbits(bmp), RGBfactors, mult, shift)
    setbmppalwithBGRAlist(bmp, newpal)
    return newpal


def setBMP2dichromaticpal(bmp: array, c1: int, c2: int) -> list:
    newpal = RGB2BGRAlist(dichromaticpal(c1, c2, getmaxcolors(bmp), 3))
    setbmppalwithBGRAlist(bmp, newpal)
    return newpal


def newBMP(x: int, y: int, colorbits: int) -> array:
    return _setmeta(_bmmeta(x, y, colorbits))


def CopyBMPxydim2newBMP(bmp: array, newbits: int) -> array:
    return newBMP(getmaxx(bmp), getmaxy(bmp), newbits)


@checklink
def loadBMP(filename: str) -> array:
    a = array('B')
    with open(filename, 'rb') as f:
        hd = f.read(2)
        if hd != b'BM':
            print(sysmsg['notBMP'])
        else:
            fsize = char2int(f.read(8))
            if fsize > 54:
                f.seek(0)
                a.frombytes(f.read(fsize))
            else:
                print(sysmsg['notBMP'])
        f.close()
    return a


def ensurePaintWrapperInPath():
    d: Path = Path(__file__).parent.parent
    d_abs = str(d.absolute())
    entries = environ.get('PATH', '').split(pathsep)
    if d_abs not in entries:
        entries.insert(0, d_abs)
        environ['PATH'] = pathsep.join(entries)


def saveBMP(filename: str, bmp: array):
    ensurePaintWrapperInPath()
    with open(filename, 'wb') as f:
        f.write(bmp)
        f.close()


def BMPbitBLTput(bmp: array, offset: int, arraybuf: array):
    hdrsize = _hdsz(bmp)
    bufsize = len(arraybuf)
    startoff = hdrsize + offset
    endoff = startoff + bufsize
    if offset >= 0 and endoff <= _flsz(bmp):
        bmp[startoff:endoff] = arraybuf
    else:
        print(sysmsg['invalidoffset'])


def BMPbitBLTget(bmp: array, offset: int, bufsize: int) -> array:
    hdrsize = _hdsz(bmp)
    retval = array('B', [])
    startoff = hdrsize + offset
    endoff = startoff + bufsize
    if (offset >= 0 and bufsize > 0) and endoff <= _flsz(bmp):
        retval = bmp[startoff:endoff]
    else:
        print(sysmsg['invalidoffset'])
    return retval


def vertBMPbitBLTget(bmp: array, x: int, y1: int, y2: int) -> array:
    bits = bmp[bmpcolorbits]
    r = _xchrcnt(bmp)
    m = getmaxxy(bmp)
    c = _getBMoffhdfunc(bmp)
    if isinrange(x, m[0], -1):
        y1, y2 = swapif(y1, y2, y1 > y2)
        y1 = setmin(y1, 0)
        y2 = setmax(y2, m[1] - 1)
        s = c(bmp, x, y2)
        e = c(bmp, x, y1) + r
        if bits == 24:
            return makeBGRbuf(bmp[s:e - 2:r], bmp[s + 1:e - 1:r], bmp[s + 2:e:r])
        else:
            return bmp[s:e:r]
    else:
        print(sysmsg['lineoutofbnd'])


def _fnwithpar2vertslice(bmp: array, x: int, y1: int, y2: int, func: Callable, funcparam):
    bits = bmp[bmpcolorbits]
    r = _xchrcnt(bmp)
    mx, my = getmaxxy(bmp)
    c = _getBMoffhdfunc(bmp)
    if isinrange(x, mx, -1):
        y1, y2 = swapif(y1, y2, y1 > y2)
        y1 = setmin(y1, 0)
        y2 = setmax(y2, my - 1)
        s = c(bmp, x, y2)
        e = c(bmp, x, y1) + r
        if bits == 24:
            e2 = e - 2
            bmp[s:e2:r] = func(bmp[s:e2:r], funcparam)
            s1 = s + 1
            e1 = e - 1
            bmp[s1:e1:r] = func(bmp[s1:e1:r], funcparam)
            s2 = s + 2
            bmp[s2:e:r] = func(bmp[s2:e:r], funcparam)
        else:
            bmp[s:e:r] = func(bmp[s:e:r], funcparam)
    else:
        print(sysmsg['lineoutofbnd'])


def plotRGBxybit(bmp: array, x: int, y: int, rgb: list):
    if isinBMPrectbnd(bmp, x, y):
        if bmp[bmpcolorbits] == 24:
            offset = _24bmofhd(bmp, x, y)
            r, g, b = rgb
            bmp[offset:offset + 3] = array('B', [b, g, r])
        else:
            plotxybit(bmp, x, y, matchRGBtopal(rgb, getallRGBpal(bmp)))


def plotxybit(bmp: array, x: int, y: int, c: int):
    if not isinBMPrectbnd(bmp, x, y):
        return
    bits = bmp[bmpcolorbits]
    if bits == 24:
        offset = x * 3 + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 24) + 54
        bmp[offset:offset + 3] = array('B', [c & 255, c >> 8 & 255, c >> 16])
    elif bits == 8:
        bmp[x + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 8) + 1078] = c & 255
    elif bits == 4:
        offset = (x >> 1) + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 4) + 118
        c &= 15
        if x & 1 == 1:
            bmp[offset] = (bmp[offset] & 240) + c
        else:
            bmp[offset] = (c << 4) + (bmp[offset] & 15)
    elif bits == 1:
        offset = (x >> 3) + (readint(bmpy, 4, bmp) - y - 1) * _xbytes(readint(bmpx, 4, bmp), 1) + 62
        b = bmp[offset]
        mask = 1 << 7 - x % 8
        c = 1 if c > 0 else 0
        if c == 1:
            b |= mask
        elif b & mask == mask and c == 0:
            b = b ^ mask
        bmp[offset] = b


def getxybit(bmp: array, x: int, y: int) -> int:
    retval = 0
    if isinBMPrectbnd(bmp, x, y):
        offset = _BMoffsethd(bmp, x, y)
        bits = bmp[bmpcolorbits]
        if bits == 1:
            mask = 7 - x % 8
            retval = (bmp[offset] & 1 << mask) >> mask
        elif bits == 4:
            retval = bmp[offset] & 15 if x & 1 == 1 else (bmp[offset] & 240) >> 4
        elif bits == 8:
            retval = bmp[offset]
        elif bits == 24:
            retval = RGB2int(bmp[offset + 2], bmp[offset + 1], bmp[offset])
    else:
        retval = -1
    return retval


def getRGBxybitvec(bmp: array, v: list) -> list:
    return getRGBxybit(bmp, v[0], v[1])


def getRGBxybit(bmp: array, x: int, y: int) -> list[int, int, int]:
    retval = []
    if isinBMPrectbnd(bmp, x, y):
        if _getclrbits(bmp) == 24:
            i = _24bmofhd(bmp, x, y)
            retval = [bmp[i + 2], bmp[i + 1], bmp[i]]
        else:
            retval = getRGBpal(bmp, getxybit(bmp, x, y))
    return retval


def getxybitvec(bmp: array, v: list) -> int:
    return getxybit(bmp, v[0], v[1])


def intplotvecxypoint(bmp: array, v: list[int, int], c: int):
    plotxybit(bmp, v[0], v[1], c)


def plotvecxypoint(bmp: array, v: list, c: int):
    x, y = roundvect(v)
    plotxybit(bmp, x, y, c)


def plotRGBxybitvec(bmp: array, v: list, rgb: list):
    plotRGBxybit(bmp, v[0], v[1], rgb)


def plotxypointlist(bmp: array, vlist: list, penradius: int, color: int):
    for v in vlist:
        roundpen(bmp, v, penradius, color)


def roundpen(bmp: array, point: list, penradius: int, color: int):
    x, y = point
    if penradius <= 1:
        plotxybit(bmp, x, y, color)
    else:
        circle(bmp, x, y, penradius, color, True)


def swapcolors(bmp: array, p1: list, p2: list):
    c = getxybitvec(bmp, p1)
    intplotvecxypoint(bmp, p1, getxybitvec(bmp, p2))
    intplotvecxypoint(bmp, p2, c)


def line(bmp: array, x1: int, y1: int, x2: int, y2: int, color: int):
    mx, my = bottomrightcoord(bmp)
    x1 = setminmax(x1, 0, mx)
    x2 = setminmax(x2, 0, mx)
    y1 = setminmax(y1, 0, my)
    y2 = setminmax(y2, 0, my)
    if x1 == x2:
        vertline(bmp, x1, y1, y2, color)
    elif y1 == y2:
        horiline(bmp, y1, x1, x2, color)
    else:
        bits = bmp[bmpcolorbits]
        p1 = (x1, y1)
        p2 = (x2, y2)
        c = _getBMoffhdfunc(bmp)
        if bits == 24:
            buf = int2BGRarr(color)
            for x, y in iterline(p1, p2):
                s = c(bmp, x, y)
                bmp[s:s + 3] = buf
        elif bits == 8:
            color &= 255
            for x, y in iterline(p1, p2):
                bmp[c(bmp, x, y)] = color
        elif bits == 4:
            if color > 15:
                color &= 15
            for x, y in iterline(p1, p2):
                s = c(bmp, x, y)
                if x & 1 == 1:
                    bmp[s] = (bmp[s] & 240) + color
                else:
                    bmp[s] = (color << 4) + (bmp[s] & 15)
        elif bits == 1:
            if color > 1:
                color &= 1
            for x, y in iterline(p1, p2):
                plotxybit(bmp, x, y, color)


def horiline(bmp: array, y: int, x1: int, x2: int, color: int):
    bits = bmp[bmpcolorbits]
    mx, my = getmaxxy(bmp)
    if isinrange(y, my, -1):
        x1, x2 = swapif(x1, x2, x1 > x2)
        x1 = setmin(x1, 0)
        x2 = setmax(x2, mx - 1)
        dx = x2 - x1 + 1
        if dx < 1:
            return
        s = _BMoffsethd(bmp, x1, y)
        if bits == 24:
            e = s + dx * 3
            r, g, b = int2RGBlist(color)
            bmp[s:e] = array('B', [b, g, r] * dx)
        elif bits == 8:
            e = s + dx
            color &= 255
            bmp[s:e] = array('B', [color] * dx)
        elif bits == 4:
            dx >>= 1
            e = s + dx
            color &= 15
            c2 = (color << 4) + color
            c1 = bmp[s] & 240 if x1 & 1 == 1 else -1
            bmp[s:e] = array('B', [c2] * dx)
            if c1 != -1:
                bmp[s] = c1 + (bmp[s] & 15)
            if x2 & 1 == 1:
                plotxybit(bmp, x2 - 1, y, color)
        elif bits == 1:
            x2 += 1
            for x in range(x1, x2):
                plotxybit(bmp, x, y, color)
    else:
        print(sysmsg['lineoutofbnd'])


def vertline(bmp: array, x: int, y1: int, y2: int, color: int):
    bits = bmp[bmpcolorbits]
    if bits not in [24, 8]:
        y1, y2 = swapif(y1, y2, y1 > y2)
        y2 += 1
        for y in range(y1, y2):
            plotxybit(bmp, x, y, color)
    else:
        r = _xchrcnt(bmp)
        mx, my = getmaxxy(bmp)
        c = _getBMoffhdfunc(bmp)
        if isinrange(x, mx, -1):
            y1, y2 = swapif(y1, y2, y1 > y2)
            y1 = setmin(y1, 0)
            y2 = setmax(y2, my - 1)
            dy = y2 - y1 + 1
            if dy < 1:
                return
            rgb = int2RGBlist(color)
            s = c(bmp, x, y2)
            e = c(bmp, x, y1) + r
            if bits == 24:
                bmp[s:e - 2:r] = array('B', [rgb[2]] * dy)
                bmp[s + 1:e - 1:r] = array('B', [rgb[1]] * dy)
                bmp[s + 2:e:r] = array('B', [rgb[0]] * dy)
            elif bits == 8:
                bmp[s:e:r] = array('B', [color % 256] * dy)
        else:
            print(sysmsg['lineoutofbnd'])


def fillbackgroundwithgrad(bmp: array, lumrange: list[int, int], RGBfactors: list[float, float, float], direction: int):
    filledgradrect(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1, lumrange, RGBfactors, direction)


@func8and24bitonlyandentirerectinboundary
def filledgradrect(bmp: array, x1: int, y1: int, x2: int, y2: int, lumrange: list[int, int], RGBfactors: list[float, float, float], direction: int, fn: Callable=lerp):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    dx = x2 - x1 + 1
    dy = y2 - y1 + 1
    r1, g1, b1 = scalarmulvect(RGBfactors, lumrange[0])
    r2, g2, b2 = scalarmulvect(RGBfactors, lumrange[1])
    if direction == 0:
        xlim = x2 + 1
        for x in range(x1, xlim):
            c = RGB2int(*interpolateRGB(fn, r1, r2, g1, g2, b1, b2, setminmax(x / dx, 0.0, 1.0)))
            if bmp[bmpcolorbits] != 24:
                c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
            vertline(bmp, x, y1, y2, c)
    else:
        ylim = y2 + 1
        for y in range(y1, ylim):
            c = RGB2int(*interpolateRGB(fn, r1, r2, g1, g2, b1, b2, setminmax(y / dy, 0.0, 1.0)))
            if bmp[bmpcolorbits] != 24:
                c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
            horiline(bmp, y, x1, x2, c)


@func24bitonlyandentirerectinboundary
def filleddichromaticgradrect(bmp: array, x1: int, y1: int, x2: int, y2: int, c1: int, c2: int, direction: int, fn: Callable=lerp):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    dx = x2 - x1 + 1
    dy = y2 - y1 + 1
    r1, g1, b1 = int2RGB(c1)
    r2, g2, b2 = int2RGB(c2)
    if direction == 0:
        xlim = x2 + 1
        for x in range(x1, xlim):
            vertline(bmp, x, y1, y2, RGB2int(*interpolateRGB(fn, r1, r2, g1, g2, b1, b2, setminmax(x / dx, 0.0, 1.0))))
    else:
        ylim = y2 + 1
        for y in range(y1, ylim):
            horiline(bmp, y, x1, x2, RGB2int(*interpolateRGB(fn, r1, r2, g1, g2, b1, b2, setminmax(y / dy, 0.0, 1.0))))


def fillbackgroundwithdichromaticgrad(bmp: array, lumrange: list[int, int], c1: int, c2: int, direction: int):
    filleddichromaticgradrect(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1, c1, c2, direction)


@entirerectinboundary
def itercopyrect(bmp: array, x1: int, y1: int, x2: int, y2: int) -> array:
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    bufsize = adjustxbufsize(bmp, x1, x2)
    r = _xchrcnt(bmp)
    offset = _BMoffset(bmp, x1, y2)
    lim = _BMoffset(bmp, x1, y1)
    while offset <= lim:
        yield BMPbitBLTget(bmp, offset, bufsize)
        offset += r


def intlinevec(bmp: array, u: list, v: list, color: int):
    line(bmp, u[0], u[1], v[0], v[1], color)


def linevec(bmp: array, u: list, v: list, color: int):
    intlinevec(bmp, roundvect(u), roundvect(v), color)


def filledparallelogram(bmp: array, p1: list, p2: list, p3: list, color: int):
    for u, v in iterparallelogram(p1, p2, p3):
        linevec(bmp, u, v, color)


def drawvec(bmp: array, u: list, v: list, headsize: int, color: int, penradius: int=None):
    for a, b in iterdrawvec(u, v, headsize):
        if type(penradius) == int:
            thickroundline(bmp, a, b, penradius, color)
        else:
            linevec(bmp, a, b, color)


def thickroundline(bmp: array, p1: list, p2: list, penradius: int, color: int):
    for x, y in iterline(p1, p2):
        circle(bmp, x, y, penradius, color, True)


def gradthickroundline(bmp: array, p1: list, p2: list, penradius: int, lumrange: list[int, int], RGBfactors: list[float, float, float]):
    lum1, lumrang = range2baseanddelta(lumrange)
    for i in range(penradius, 0, -1):
        c = colormix(int(lum1 + lumrang * i / penradius), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        thickroundline(bmp, p1, p2, i, c)


@intcircleparam24bitonly
def _usenopar24btfn2circreg(bmp: array, x: int, y: int, r: int, func: Callable):
    c = _getBMoffhdfunc(bmp)
    if entirecircleisinboundary(x, y, -1, getmaxx(bmp), -1, getmaxy(bmp), r):
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            s1 = c(bmp, x1, y1)
            e1 = c(bmp, x2, y1)
            s2 = c(bmp, x1, y2)
            e2 = c(bmp, x2, y2)
            bmp[s1:e1] = func(bmp[s1:e1])
            if y1 != y2:
                bmp[s2:e2] = func(bmp[s2:e2])
    else:
        xmax = getmaxx(bmp)
        ymax = getmaxy(bmp)
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            x1 = setmin(x1, 0)
            x2 = setmax(x2, xmax - 1)
            if isinrange(y2, ymax, -1):
                s2 = c(bmp, x1, y2)
                e2 = c(bmp, x2, y2)
                bmp[s2:e2] = func(bmp[s2:e2])
            if isinrange(y1, ymax, -1) and y2 != y1:
                s1 = c(bmp, x1, y1)
                e1 = c(bmp, x2, y1)
                bmp[s1:e1] = func(bmp[s1:e1])


@intcircleparam24bitonly
def _use24btfn2circreg(bmp: array, x: int, y: int, r: int, func: Callable, funcparam):
    c = _getBMoffhdfunc(bmp)
    if entirecircleisinboundary(x, y, -1, getmaxx(bmp), -1, getmaxy(bmp), r):
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            s1 = c(bmp, x1, y1)
            e1 = c(bmp, x2, y1)
            s2 = c(bmp, x1, y2)
            e2 = c(bmp, x2, y2)
            bmp[s1:e1] = func(bmp[s1:e1], funcparam)
            if y2 != y1:
                bmp[s2:e2] = func(bmp[s2:e2], funcparam)
    else:
        xmax = getmaxx(bmp)
        ymax = getmaxy(bmp)
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            x1 = setmin(x1, 0)
            x2 = setmax(x2, xmax - 1)
            if isinrange(y2, ymax, -1):
                s2 = c(bmp, x1, y2)
                e2 = c(bmp, x2, y2)
                bmp[s2:e2] = func(bmp[s2:e2], funcparam)
            if isinrange(y1, ymax, -1) and y2 != y1:
                s1 = c(bmp, x1, y1)
                e1 = c(bmp, x2, y1)
                bmp[s1:e1] = func(bmp[s1:e1], funcparam)


@entirecircleinboundary
def copycircregion2buf(bmp: array, x: int, y: int, r: int) -> list:
    copybuf = [_getclrbits(bmp), r]
    c = _getBMoffhdfunc(bmp)
    for v0, v1 in itercirclepartlineedge(r):
        x1, x2 = mirror(x, v0)
        y1, y2 = mirror(y, v1)
        copybuf += [[bmp[c(bmp, x1, y1):c(bmp, x2, y1)], bmp[c(bmp, x1, y2):c(bmp, x2, y2)]]]
    return copybuf


def pastecirularbuf(bmp: array, x: int, y: int, circbuf: list):
    if circbuf is None:
        print(sysmsg['invalidbuf'])
    else:
        r = circbuf[1]
        c = _getBMoffhdfunc(bmp)
        if entirecircleisinboundary(x, y, -1, getmaxx(bmp), -1, getmaxy(bmp), r):
            if _getclrbits(bmp) == circbuf[0]:
                for i, (v0, v1) in enumerate(itercirclepartlineedge(r), start=2):
                    x1, x2 = mirror(x, v0)
                    y1, y2 = mirror(y, v1)
                    bmp[c(bmp, x1, y1):c(bmp, x2, y1)] = circbuf[i][0]
                    bmp[c(bmp, x1, y2):c(bmp, x2, y2)] = circbuf[i][1]
            else:
                print(sysmsg['bitsnotequal'])
        else:
            print(sysmsg['regionoutofbounds'])


def copycircregion(bmp: array, x: int, y: int, r: int, newxy: list):
    pastecirularbuf(bmp, newxy[0], newxy[1], copycircregion2buf(bmp, x, y, r))


@intcircleparam
def _usenoparfn2circreg(bmp: array, x: int, y: int, r: int, func: Callable):
    c = _getBMoffhdfunc(bmp)
    if entirecircleisinboundary(x, y, -1, getmaxx(bmp), -1, getmaxy(bmp), r):
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            s1 = c(bmp, x1, y1)
            e1 = c(bmp, x2, y1)
            s2 = c(bmp, x1, y2)
            e2 = c(bmp, x2, y2)
            bmp[s1:e1] = func(bmp[s1:e1])
            if y1 != y2:
                bmp[s2:e2] = func(bmp[s2:e2])
    else:
        xmax = getmaxx(bmp)
        ymax = getmaxy(bmp)
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            x1 = setmin(x1, 0)
            x2 = setmax(x2, xmax - 1)
            if isinrange(y2, ymax, -1):
                s2 = c(bmp, x1, y2)
                e2 = c(bmp, x2, y2)
                bmp[s2:e2] = func(bmp[s2:e2])
            if isinrange(y1, ymax, -1) and y2 != y1:
                s1 = c(bmp, x1, y1)
                e1 = c(bmp, x2, y1)
                bmp[s1:e1] = func(bmp[s1:e1])


@entirecircleinboundary
def flipXYcircregion(bmp: array, x: int, y: int, r: int):
    bits = bmp[bmpcolorbits]
    c = _getBMoffhdfunc(bmp)
    if bits not in [24, 8]:
        n = flipXY(bmp)
        for v0, v1 in itercirclepartlineedge(r):
            x3, x4 = mirror(y, v0)
            y3, y4 = mirror(x, v1)
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            bmp[c(bmp, x1, y1):c(bmp, x2, y1)] = n[c(n, x3, y3):c(n, x4, y3)]
            bmp[c(bmp, x1, y2):c(bmp, x2, y2)] = n[c(n, x3, y4):c(n, x4, y4)]
    else:
        buf = []
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            x2 += 1
            x3, x4 = mirror(x, v1)
            y3, y4 = mirror(y, v0)
            buf += [[x1, y1, x2, y2, vertBMPbitBLTget(bmp, x3, y3, y4), vertBMPbitBLTget(bmp, x4, y3, y4)]]
        for b in buf:
            x1, y1, x2, y2 = b[0:4]
            bmp[c(bmp, x1, y1):c(bmp, x2, y1)] = b[4]
            bmp[c(bmp, x1, y2):c(bmp, x2, y2)] = b[5]


def fliphoricircregion(bmp: array, x: int, y: int, r: int):
    horitransformincircregion(bmp, x, y, r, 'F')


@func8and24bitonlyandentirecircleinboundary
def horitransformincircregion(bmp: array, x: int, y: int, r: int, trans: str):

    def _24F():
        bmp[s1:e1 - 2:k], bmp[s2:e2 - 2:k], bmp[s1 + 1:e1 - 1:k], bmp[s2 + 1:e2 - 1:k], bmp[s1 + 2:e1:k], bmp[s2 + 2:e2:k] = (bmp[s2:e2 - 2:k], bmp[s1:e1 - 2:k], bmp[s2 + 1:e2 - 1:k], bmp[s1 + 1:e1 - 1:k], bmp[s2 + 2:e2:k], bmp[s1 + 2:e1:k])

    def _8F():
        bmp[s1:e1:k], bmp[s2:e2:k] = (bmp[s2:e2:k], bmp[s1:e1:k])

    def _24R():
        bmp[s1:e1 - 2:k], bmp[s1 + 1:e1 - 1:k], bmp[s1 + 2:e1:k] = (bmp[s2:e2 - 2:k], bmp[s2 + 1:e2 - 1:k], bmp[s2 + 2:e2:k])

    def _8R():
        bmp[s1:e1:k] = bmp[s2:e2:k]

    def _24L():
        bmp[s2:e2 - 2:k], bmp[s2 + 1:e2 - 1:k], bmp[s2 + 2:e2:k] = (bmp[s1:e1 - 2:k], bmp[s1 + 1:e1 - 1:k], bmp[s1 + 2:e1:k])

    def _8L():
        bmp[s2:e2:k] = bmp[s1:e1:k]
    c = _getBMoffhdfunc(bmp)
    f = {8: {'F': _8F, 'R': _8R, 'L': _8L}, 24: {'F': _24F, 'R': _24R, 'L': _24L}}[bmp[bmpcolorbits]][trans]
    for v in itercirclepartvertlineedge(r):
        x1, x2 = mirror(x, v[0])
        y1, y2 = mirror(y, v[1])
        k = _xchrcnt(bmp)
        s1 = c(bmp, x1, y2)
        e1 = c(bmp, x1, y1) + k
        s2 = c(bmp, x2, y2)
        e2 = c(bmp, x2, y1) + k
        f()


def mirrorleftincircregion(bmp: array, x: int, y: int, r: int):
    horitransformincircregion(bmp, x, y, r, 'L')


def mirrorrightincircregion(bmp: array, x: int, y: int, r: int):
    horitransformincircregion(bmp, x, y, r, 'R')


def flipvertcircregion(bmp: array, x: int, y: int, r: int):
    verttransformincircregion(bmp, x, y, r, 'F')


@entirecircleinboundary
def verttransformincircregion(bmp: array, x: int, y: int, r: int, trans: str):

    def _T():
        bmp[s2:e2] = bmp[s1:e1]

    def _B():
        bmp[s1:e1] = bmp[s2:e2]

    def _F():
        bmp[s1:e1], bmp[s2:e2] = (bmp[s2:e2], bmp[s1:e1])
    f = {'T': _T, 'B': _B, 'F': _F}[trans]
    c = _getBMoffhdfunc(bmp)
    for v0, v1 in itercirclepartlineedge(r):
        x1, x2 = mirror(x, v0)
        y1, y2 = mirror(y, v1)
        s1 = c(bmp, x1, y1)
        e1 = c(bmp, x2, y1)
        s2 = c(bmp, x1, y2)
        e2 = c(bmp, x2, y2)
        f()


def mirrortopincircregion(bmp: array, x: int, y: int, r: int):
    verttransformincircregion(bmp, x, y, r, 'T')


def mirrorbottomincircregion(bmp: array, x: int, y: int, r: int):
    verttransformincircregion(bmp, x, y, r, 'B')


def mirrortopleftincircregion(bmp: array, x: int, y: int, r: int):
    mirrorleftincircregion(bmp, x, y, r)
    mirrortopincircregion(bmp, x, y, r)


def mirrortoprightincircregion(bmp: array, x: int, y: int, r: int):
    mirrorrightincircregion(bmp, x, y, r)
    mirrortopincircregion(bmp, x, y, r)


def mirrorbottomleftincircregion(bmp: array, x: int, y: int, r: int):
    mirrorleftincircregion(bmp, x, y, r)
    mirrorbottomincircregion(bmp, x, y, r)


def mirrorbottomrightincircregion(bmp: array, x: int, y: int, r: int):
    mirrorrightincircregion(bmp, x, y, r)
    mirrorbottomincircregion(bmp, x, y, r)


@func24bitonlyandentirecircleinboundary
def vertbrightnessgrad2circregion(bmp: array, x: int, y: int, r: int, lumrange: list[int, int]):
    c = _getBMoffhdfunc(bmp)
    f = applybrightnessadjtoBGRbuf
    l = lumrange[0]
    dl = delta(lumrange) / (2 * r)
    b = y - r
    for v0, v1 in itercirclepartlineedge(r):
        x1, x2 = mirror(x, v0)
        y1, y2 = mirror(y, v1)
        l1 = l + (y1 - b) * dl
        l2 = l + (y2 - b) * dl
        s1 = c(bmp, x1, y1)
        e1 = c(bmp, x2, y1)
        s2 = c(bmp, x1, y2)
        e2 = c(bmp, x2, y2)
        bmp[s1:e1], bmp[s2:e2] = (f(bmp[s1:e1], l1), f(bmp[s2:e2], l2))


@func24bitonlyandentirecircleinboundary
def horibrightnessgrad2circregion(bmp: array, x: int, y: int, r: int, lumrange: list[int, int]):
    f = applybrightnessadjtoBGRbuf
    l = lumrange[0]
    dl = delta(lumrange) / (2 * r)
    b = x - r
    for v0, v1 in itercirclepartvertlineedge(r):
        x1, x2 = mirror(x, v0)
        y1, y2 = mirror(y, v1)
        _fnwithpar2vertslice(bmp, x1, y1, y2, f, l + (x1 - b) * dl)
        if x1 != x2:
            _fnwithpar2vertslice(bmp, x2, y1, y2, f, l + (x2 - b) * dl)


@intcircleparam
def outlinecircregion(bmp: array, x: int, y: int, r: int):
    bits = bmp[bmpcolorbits]
    c = _getBMoffhdfunc(bmp)
    if entirecircleisinboundary(x, y, -1, getmaxx(bmp), -1, getmaxy(bmp), r):
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            s1 = c(bmp, x1, y1)
            e1 = c(bmp, x2, y1)
            s2 = c(bmp, x1, y2)
            e2 = c(bmp, x2, y2)
            if bits == 24:
                bmp[s1:e1] = array('B', xorvect(bmp[s1:e1], bmp[s1 + 3:e1 + 3]))
                if y1 != y2:
                    bmp[s2:e2] = array('B', xorvect(bmp[s2:e2], bmp[s2 + 3:e2 + 3]))
            else:
                bmp[s1:e1] = array('B', xorvect(bmp[s1:e1], bmp[s1 + 1:e1 + 1]))
                if y1 != y2:
                    bmp[s2:e2] = array('B', xorvect(bmp[s2:e2], bmp[s2 + 1:e2 + 1]))
    else:
        xmax, ymax = getmaxxy(bmp)
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            x1 = setmin(x1, 0)
            x2 = setmax(x2, xmax - 1)
            if isinrange(y2, ymax, -1):
                s2 = c(bmp, x1, y2)
                e2 = c(bmp, x2, y2)
                if bits == 24:
                    bmp[s2:e2] = array('B', xorvect(bmp[s2:e2], bmp[s2 + 3:e2 + 3]))
                else:
                    bmp[s2:e2] = array('B', xorvect(bmp[s2:e2], bmp[s2 + 1:e2 + 1]))
            if isinrange(y1, ymax, -1) and y2 != y1:
                s1 = c(bmp, x1, y1)
                e1 = c(bmp, x2, y1)
                if bits == 24:
                    bmp[s1:e1] = array('B', xorvect(bmp[s1:e1], bmp[s1 + 3:e1 + 3]))
                else:
                    bmp[s1:e1] = array('B', xorvect(bmp[s1:e1], bmp[s1 + 1:e1 + 1]))


def monocircle(bmp: array, x: int, y: int, r: int):
    _usenopar24btfn2circreg(bmp, x, y, r, monochromefiltertoBGRbuf)


def colorfiltercircregion(bmp: array, x: int, y: int, r: int, rgbfactors: list[float, float, float]):
    _use24btfn2circreg(bmp, x, y, r, colorfiltertoBGRbuf, rgbfactors)


def gammacorrectcircregion(bmp: array, x: int, y: int, r: int, gamma: float):
    _use24btfn2circreg(bmp, x, y, r, gammaBGRbuf, gamma)


def brightnessadjcircregion(bmp: array, x: int, y: int, r: int, percentadj: float):
    _use24btfn2circreg(bmp, x, y, r, applybrightnessadjtoBGRbuf, percentadj)


def invertbitsincircregion(bmp: array, x: int, y: int, r: int):
    _usenoparfn2circreg(bmp, x, y, r, invertbitsinbuffer)


def circlevec(bmp: array, v: list, r: int, color: int, isfilled: bool=None):
    x, y = roundvect(v)
    circle(bmp, x, y, r, color, isfilled)


def filledcircle(bmp: array, x: int, y: int, r: int, color: int):
    bits = bmp[bmpcolorbits]
    if bits < 8:
        for v0, v1 in itercirclepartlineedge(r):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            horiline(bmp, y1, x1, x2, color)
            horiline(bmp, y2, x1, x2, color)
    else:
        xmax, ymax = getmaxxy(bmp)
        xmax -= 1
        if bits == 24:
            for v0, v1 in itercirclepartlineedge(r):
                x1, x2 = mirror(x, v0)
                y1, y2 = mirror(y, v1)
                x1 = setmin(x1, 0)
                x2 = setmax(x2, xmax)
                dx = setmin(x2 - x1 + 1, 0)
                rgb = int2RGBlist(color)
                colorbuf = array('B', [rgb[2], rgb[1], rgb[0]] * dx)
                lbuf = dx * 3
                if isinrange(y2, ymax, -1):
                    s = _24bmofhd(bmp, x1, y2)
                    bmp[s:s + lbuf] = colorbuf
                if isinrange(y1, ymax, -1):
                    s = _24bmofhd(bmp, x1, y1)
                    bmp[s:s + lbuf] = colorbuf
        elif bits == 8:
            for v0, v1 in itercirclepartlineedge(r):
                x1, x2 = mirror(x, v0)
                y1, y2 = mirror(y, v1)
                x1 = setmin(x1, 0)
                x2 = setmax(x2, xmax)
                dx = setmin(x2 - x1 + 1, 0)
                colorbuf = array('B', [color & 255] * dx)
                if isinrange(y2, ymax, -1):
                    s = _8bmofhd(bmp, x1, y2)
                    bmp[s:s + dx] = colorbuf
                if isinrange(y1, ymax, -1):
                    s = _8bmofhd(bmp, x1, y1)
                    bmp[s:s + dx] = colorbuf


def circle(bmp: array, x: int, y: int, r: int, color: int, isfilled: bool=None):
    if isfilled:
        filledcircle(bmp, x, y, r, color)
    else:
        mx, my = getmaxxy(bmp)
        bits = bmp[bmpcolorbits]
        c = _getBMoffhdfunc(bmp)
        dobndcheck = not entirecircleisinboundary(x, y, -1, mx, -1, my, r)
        if bits == 24:
            color = int2BGRarr(color)
            if dobndcheck:
                for px, py in itercircle(x, y, r):
                    if isinBMPrectbnd(bmp, px, py):
                        s = c(bmp, px, py)
                        bmp[s:s + 3] = color
            else:
                for px, py in itercirclepart(r):
                    x1, x2 = mirror(x, px)
                    y1, y2 = mirror(y, py)
                    s1 = c(bmp, x1, y1)
                    s2 = c(bmp, x2, y2)
                    s3 = c(bmp, x1, y2)
                    s4 = c(bmp, x2, y1)
                    bmp[s1:s1 + 3] = bmp[s2:s2 + 3] = bmp[s3:s3 + 3] = bmp[s4:s4 + 3] = color
        elif bits == 8:
            if dobndcheck:
                for px, py in itercircle(x, y, r):
                    if isinBMPrectbnd(bmp, px, py):
                        bmp[c(bmp, px, py)] = color
            else:
                for px, py in itercirclepart(r):
                    x1, x2 = mirror(x, px)
                    y1, y2 = mirror(y, py)
                    bmp[c(bmp, x1, y1)] = bmp[c(bmp, x2, y2)] = bmp[c(bmp, x1, y2)] = bmp[c(bmp, x2, y1)] = color
        else:
            for px, py in itercircle(x, y, r):
                plotxybit(bmp, px, py, color)


def squircle(bmp: array, x: int, y: int, r: int, color: int):
    plotpoly(bmp, squirclevert(x, y, r), color)


def thickcircle(bmp: array, x: int, y: int, r: int, penradius: int, color: int):
    for p0, p1 in itercircle(x, y, r):
        circle(bmp, p0, p1, penradius, color, True)


def gradthickcircle(bmp: array, x: int, y: int, r: int, penradius: int, lumrange: list[int, int], RGBfactors: list[float, float, float]):
    lum1, lumrang = range2baseanddelta(lumrange)
    for i in range(penradius, 0, -1):
        c = colormix(int(lum1 + lumrang * i / penradius), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        thickcircle(bmp, x, y, r, i, c)


def gradcircle(bmp: array, x: int, y: int, r: int, lumrange: list[int, int], RGBfactors: list[float, float, float], fn=lerp):
    a, b = lumrange
    for i in range(r - 1, 0, -1):
        c = colormix(int(fn(a, b, i / r)), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        thickcircle(bmp, x, y, i, 2, c)


@func24bitonly
def graddichromiccircle(bmp: array, x: int, y: int, r: int, c1: int, c2: int, fn: Callable=lerp):
    r1, g1, b1 = int2RGB(c1)
    r2, g2, b2 = int2RGB(c2)
    for i in range(r - 1, 0, -1):
        thickcircle(bmp, x, y, i, 2, RGB2int(*interpolateRGB(fn, r1, r2, g1, g2, b1, b2, i / r)))


def orb(bmp: array, x: int, y: int, r: int, RGBfactors: list[float, float, float]):
    j = r >> 1
    c = colormix(255, RGBfactors)
    if bmp[bmpcolorbits] != 24:
        c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
    filledcircle(bmp, x, y, j, c)
    for i in range(r - 1, j, -1):
        c = colormix(int(255 * (r - i) / j), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        thickcircle(bmp, x, y, i, 2, c)


def thickellipserot(bmp: array, x: int, y: int, b: int, a: int, degrot: float, penradius: int, color: int):
    for p0, p1 in iterellipserot(x, y, b, a, degrot):
        circle(bmp, p0, p1, penradius, color, True)


def gradthickellipserot(bmp: array, x: int, y: int, b: int, a: int, degrot: float, penradius: int, lumrange: list[int, int], RGBfactors: list[float, float, float], fn=lerp):
    l1, l2 = lumrange
    for i in range(penradius, 0, -1):
        c = colormix(int(fn(l1, l2, i / penradius)), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        thickellipserot(bmp, x, y, b, a, degrot, i, c)


def filledellipse(bmp: array, x: int, y: int, b: int, a: int, color: int):
    bits = bmp[bmpcolorbits]
    if bits < 8:
        for v0, v1 in iterellipsepart(b, a):
            x1, x2 = mirror(x, v0)
            y1, y2 = mirror(y, v1)
            horiline(bmp, y1, x1, x2, color)
            horiline(bmp, y2, x1, x2, color)
    else:
        mx, my = getmaxxy(bmp)
        if bits == 24:
            for v0, v1 in iterellipsepart(b, a):
                x1, x2 = mirror(x, v0)
                y1, y2 = mirror(y, v1)
                x1 = setmin(x1, 0)
                x2 = setmax(x2, mx - 1)
                dx = setmin(x2 - x1 + 1, 0)
                rgb = int2RGBlist(color)
                colorbuf = array('B', [rgb[2], rgb[1], rgb[0]] * dx)
                lbuf = dx * 3
                if isinrange(y2, my, -1):
                    s = _24bmofhd(bmp, x1, y2)
                    bmp[s:s + lbuf] = colorbuf
                if isinrange(y1, my, -1):
                    s = _24bmofhd(bmp, x1, y1)
                    bmp[s:s + lbuf] = colorbuf
        elif bits == 8:
            for v0, v1 in iterellipsepart(b, a):
                x1, x2 = mirror(x, v0)
                y1, y2 = mirror(y, v1)
                x1 = setmin(x1, 0)
                x2 = setmax(x2, mx - 1)
                dx = setmin(x2 - x1 + 1, 0)
                colorbuf = array('B', [color & 255] * dx)
                if isinrange(y2, my, -1):
                    s = _8bmofhd(bmp, x1, y2)
                    bmp[s:s + dx] = colorbuf
                if isinrange(y1, my, -1):
                    s = _8bmofhd(bmp, x1, y1)
                    bmp[s:s + dx] = colorbuf


def ellipse(bmp: array, x: int, y: int, b: int, a: int, color: int, isfilled: bool=None):
    if isfilled:
        filledellipse(bmp, x, y, b, a, color)
    else:
        mx, my = getmaxxy(bmp)
        bits = bmp[bmpcolorbits]
        c = _getBMoffhdfunc(bmp)
        dobndcheck = not entireellipseisinboundary(x, y, -1, mx, -1, my, b, a)
        if bits == 24:
            color = int2BGRarr(color)
            for px, py in iterellipse(x, y, b, a):
                if dobndcheck:
                    if isinBMPrectbnd(bmp, px, py):
                        s = c(bmp, px, py)
                        bmp[s:s + 3] = color
                else:
                    s = c(bmp, px, py)
                    bmp[s:s + 3] = color
        elif bits == 8:
            for px, py in iterellipse(x, y, b, a):
                if dobndcheck:
                    if isinBMPrectbnd(bmp, px, py):
                        bmp[c(bmp, px, py)] = color
                else:
                    bmp[c(bmp, px, py)] = color
        else:
            for px, py in iterellipse(x, y, b, a):
                plotxybit(bmp, px, py, color)


def gradellipse(bmp: array, x: int, y: int, b: int, a: int, lumrange: list[int, int], RGBfactors: list[float, float, float], fn: Callable=lerp):
    l1, l2 = lumrange
    r = max(a, b)
    a -= r
    b -= r
    for i in range(r, 0, -1):
        c = colormix(int(fn(l1, l2, i / r)), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        ellipse(bmp, x, y, b + i, a + i, c, True)


@intcircleparam
def drawarc(bmp: array, x: int, y: int, r: int, startdegangle: float, enddegangle: float, color: int, showoutline: bool, fillcolor: int, isfilled: bool):
    av = arcvert(x, y, r, startdegangle, enddegangle)
    if showoutline:
        for p in av:
            plotxybit(bmp, p[0], p[1], color)
    if isfilled:
        fillboundary(bmp, fillpolydata(av, getmaxx(bmp), getmaxy(bmp)), fillcolor)


def rectangle(bmp: array, x1: int, y1: int, x2: int, y2: int, color: int):
    plotpoly(bmp, recvert(x1, y1, x2, y2), color)


@entirerectinboundary
def filledrect(bmp: array, x1: int, y1: int, x2: int, y2: int, color: int):
    bits = bmp[bmpcolorbits]
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    if bits not in [8, 24]:
        y2 += 1
        for y in range(y1, y2):
            horiline(bmp, y, x1, x2, color)
    else:
        dx = x2 - x1 + 1
        r = _xchrcnt(bmp)
        rgb = int2RGB(color)
        c = _getBMoffhdfunc(bmp)
        if bits == 24:
            buf = array('B', [rgb[2], rgb[1], rgb[0]] * dx)
        elif bits == 8:
            buf = array('B', [matchRGBtopal(rgb, getallRGBpal(bmp))] * dx)
        offset = c(bmp, x1, y2)
        lim = c(bmp, x2, y1)
        bufsize = len(buf)
        fsize = _flsz(bmp)
        while offset <= lim and offset + bufsize <= fsize:
            bmp[offset:offset + bufsize] = buf
            offset += r


def beziercurve(bmp: array, pntlist: list[list[Number, Number]], penradius: int, color: int):
    for v in iterbeziercurve(pntlist):
        roundpen(bmp, v, penradius, color)


def bspline(bmp: array, pntlist: list, penradius: int, color: int, isclosed: bool, curveback: bool):
    for v in iterbspline(pntlist, isclosed, curveback):
        roundpen(bmp, v, penradius, color)


def plotrotated8bitpatternwithfn(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int, fn: Callable):
    inc = scale - 1 - pixspace
    for bits in bitpattern:
        ox = x
        mask = 128
        bits = rotatebits(bits)
        while mask > 0:
            if mask & bits > 0:
                if scale == 1 or inc <= 0:
                    plotxybit(bmp, x, y, color)
                else:
                    fn(bmp, x, y, inc, color)
            mask >>= 1
            x += scale
        y += scale
        x = ox


def plotrotateditalic8bitpatternwithfn(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int, fn: Callable):
    inc = scale - 1 - pixspace
    i = scale >> 1
    h = len(bitpattern)
    if scale > 1:
        x += i * h
    else:
        x += h >> 1
    if type(color) == int:
        for bits in bitpattern:
            ox = x
            mask = 128
            bits = rotatebits(bits)
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, color)
                    else:
                        fn(bmp, x, y, inc, color)
                mask >>= 1
                x += scale
            y += scale
            x = ox - i
            if y % 2 == 0 and scale == 1:
                x -= 1
    elif type(color) == list or type(color) == tuple:
        colorcnt = len(color)
        colorind = 0
        for bits in bitpattern:
            ox = x
            mask = 128
            bits = rotatebits(bits)
            cl = color[colorind]
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, cl)
                    else:
                        fn(bmp, x, y, inc, cl)
                mask >>= 1
                x += scale
            y += scale
            x = ox - i
            colorind += 1
            if colorind == colorcnt:
                colorind = 0
            if y % 2 == 0 and scale == 1:
                x -= 1


def plot8bitpatternwithfn(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int, fn: Callable):
    inc = scale - 1 - pixspace
    if type(color) == int:
        for bits in bitpattern:
            ox = x
            mask = 128
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, color)
                    else:
                        fn(bmp, x, y, inc, color)
                mask >>= 1
                x += scale
            y += scale
            x = ox
    elif type(color) == list or type(color) == tuple:
        colorcount = len(color)
        colorind = 0
        for bits in bitpattern:
            ox = x
            mask = 128
            cl = color[colorind]
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, cl)
                    else:
                        fn(bmp, x, y, inc, cl)
                mask >>= 1
                x += scale
            y += scale
            colorind += 1
            if colorind == colorcount:
                colorind = 0
            x = ox


def plotitalic8bitpatternwithfn(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int, fn: Callable):
    inc = scale - 1 - pixspace
    i = scale >> 1
    h = len(bitpattern)
    if scale > 1:
        x += i * h
    else:
        x += h >> 1
    if type(color) == int:
        for bits in bitpattern:
            ox = x
            mask = 128
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, color)
                    else:
                        fn(bmp, x, y, inc, color)
                mask >>= 1
                x += scale
            y += scale
            x = ox - i
            if y % 2 == 0 and scale == 1:
                x -= 1
    elif type(color) == list or type(color) == tuple:
        colorind = 0
        colorcnt = len(color)
        for bits in bitpattern:
            ox = x
            mask = 128
            cl = color[colorind]
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, cl)
                    else:
                        fn(bmp, x, y, inc, cl)
                mask >>= 1
                x += scale
            y += scale
            x = ox - i
            colorind += 1
            if colorind == colorcnt:
                colorind = 0
            if y % 2 == 0 and scale == 1:
                x -= 1


def plotitalic8bitpatternupsidedownwithfn(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int, fn: Callable):
    inc = scale - 1 - pixspace
    i = len(bitpattern) - 1
    j = scale >> 1
    if type(color) == int:
        while i > -1:
            bits = bitpattern[i]
            ox = x
            mask = 128
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, color)
                    else:
                        fn(bmp, x, y, inc, color)
                mask >>= 1
                x += scale
            y += scale
            x = ox - j
            i -= 1
            if y % 2 == 0 and scale == 1:
                x -= 1
    elif type(color) == list or type(color) == tuple:
        colorcnt = len(color)
        colorind = 0
        while i > -1:
            bits = bitpattern[i]
            ox = x
            mask = 128
            cl = color[colorind]
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, cl)
                    else:
                        fn(bmp, x, y, inc, cl)
                mask >>= 1
                x += scale
            y += scale
            x = ox - j
            i -= 1
            colorind += 1
            if colorcnt == colorind:
                colorind = 0
            if y % 2 == 0 and scale == 1:
                x -= 1


def plot8bitpattern(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plot8bitpatternwithfn(bmp, x, y, bitpattern, scale, pixspace, color, lambda bmp, x, y, inc, color: filledrect(bmp, x, y, x + inc, y + inc, color))


def plotitalic8bitpattern(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotitalic8bitpatternwithfn(bmp, x, y, bitpattern, scale, pixspace, color, lambda bmp, x, y, inc, color: filledrect(bmp, x, y, x + inc, y + inc, color))


def plotcircinsqr(bmp, x, y, d, color):
    d >>= 1
    filledcircle(bmp, x + d, y + d, d, color)


def plot8bitpatternasdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plot8bitpatternwithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plotitalic8bitpatternasdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotitalic8bitpatternwithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plotitalic8bitpatternupdsidedownasdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotitalic8bitpatternupsidedownwithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plotreverseditalic8bitpatternasdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotrotateditalic8bitpatternwithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plotreverseditalic8bitpattern(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotrotateditalic8bitpatternwithfn(bmp, x, y, bitpattern, scale, pixspace, color, lambda bmp, x, y, inc, color: filledrect(bmp, x, y, x + inc, y + inc, color))


def plotupsidedownitalic8bitpattern(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotitalic8bitpatternupsidedownwithfn(bmp, x, y, bitpattern, scale, pixspace, color, lambda bmp, x, y, inc, color: filledrect(bmp, x, y, x + inc, y + inc, color))


def plotupsidedownitalic8bitpatternasdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotitalic8bitpatternupsidedownwithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plotrotated8bitpattern(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotrotated8bitpatternwithfn(bmp, x, y, bitpattern, scale, pixspace, color, lambda bmp, x, y, inc, color: filledrect(bmp, x, y, x + inc, y + inc, color))


def plotrotated8bitpatternasdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotrotated8bitpatternwithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plot8bitpatternupsidedownwithfn(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int, fn: Callable):
    inc = scale - 1 - pixspace
    i = len(bitpattern) - 1
    if type(color) == int:
        while i > -1:
            bits = bitpattern[i]
            ox = x
            mask = 128
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, color)
                    else:
                        fn(bmp, x, y, inc, color)
                mask >>= 1
                x += scale
            y += scale
            x = ox
            i -= 1
    elif type(color) == list or type(color) == tuple:
        colorcnt = len(color)
        colorind = 0
        while i > -1:
            bits = bitpattern[i]
            ox = x
            mask = 128
            cl = color[colorind]
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, cl)
                    else:
                        fn(bmp, x, y, inc, cl)
                mask >>= 1
                x += scale
            y += scale
            x = ox
            i -= 1
            colorind += 1
            if colorind == colorcnt:
                colorind = 0


def plot8bitpatternupsidedown(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plot8bitpatternupsidedownwithfn(bmp, x, y, bitpattern, scale, pixspace, color, lambda bmp, x, y, inc, color: filledrect(bmp, x, y, x + inc, y + inc, color))


def plot8bitpatternupsidedownasdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plot8bitpatternupsidedownwithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plot8bitpatternsidewaywithfn(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int, fn: Callable):
    inc = scale - 1 - pixspace
    if type(color) == int:
        for bits in bitpattern:
            oy = y
            mask = 128
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, color)
                    else:
                        fn(bmp, x, y, inc, color)
                mask >>= 1
                y -= scale
            x += scale
            y = oy
    elif type(color) == list or type(color) == tuple:
        colorcnt = len(color)
        colorind = 0
        for bits in bitpattern:
            oy = y
            mask = 128
            cl = color[colorind]
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, cl)
                    else:
                        fn(bmp, x, y, inc, cl)
                mask >>= 1
                y -= scale
            x += scale
            y = oy
            colorind += 1
            if colorcnt == colorind:
                colorind = 0


def plotitalic8bitpatternsidewaywithfn(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int, fn: Callable):
    inc = scale - 1 - pixspace
    i = scale >> 1
    if type(color) == int:
        for bits in bitpattern:
            oy = y
            mask = 128
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, color)
                    else:
                        fn(bmp, x, y, inc, color)
                mask >>= 1
                y -= scale
            x += scale
            y = oy + i
            if x % 2 == 0 and scale == 1:
                y += 1
    elif type(color) == list or type(color) == tuple:
        colorcnt = len(color)
        colorind = 0
        for bits in bitpattern:
            oy = y
            mask = 128
            cl = color[colorind]
            while mask > 0:
                if mask & bits > 0:
                    if scale == 1 or inc <= 0:
                        plotxybit(bmp, x, y, cl)
                    else:
                        fn(bmp, x, y, inc, cl)
                mask >>= 1
                y -= scale
            x += scale
            y = oy + i
            colorind += 1
            if colorind == colorcnt:
                colorind = 0
            if x % 2 == 0 and scale == 1:
                y += 1


def plot8bitpatternsideway(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plot8bitpatternsidewaywithfn(bmp, x, y, bitpattern, scale, pixspace, color, lambda bmp, x, y, inc, color: filledrect(bmp, x, y, x + inc, y + inc, color))


def plotitalic8bitpatternsideway(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotitalic8bitpatternsidewaywithfn(bmp, x, y, bitpattern, scale, pixspace, color, lambda bmp, x, y, inc, color: filledrect(bmp, x, y, x + inc, y + inc, color))


def plot8bitpatternsidewaywithdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plot8bitpatternsidewaywithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plotitalic8bitpatternsidewayasdots(bmp: array, x: int, y: int, bitpattern: list, scale: int, pixspace: int, color: int):
    plotitalic8bitpatternsidewaywithfn(bmp, x, y, bitpattern, scale, pixspace, color, plotcircinsqr)


def plotstringfunc(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, orderfunc: Callable, fontrenderfunc: Callable):
    if spacebetweenchar == 0:
        spacebetweenchar = 1
    ox = x
    xstep = (scale << 3) + spacebetweenchar
    ystep = fontbuf[0] * scale + spacebetweenchar
    for c in orderfunc(str2plot):
        if c == '\n':
            y += ystep
            x = ox
        elif c == '\t':
            x += xstep << 2
        else:
            fontrenderfunc(bmp, x, y, getcharfont(fontbuf, c), scale, pixspace, color)
            x += xstep


def plotstringfunc2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, orderfunc: Callable, fontrenderfunc: Callable, backgroundcolor: int=0, bitdepth: int=24):
    if spacebetweenchar == 0:
        spacebetweenchar = 1
    x = y = scale
    ox = x
    xstep = (scale << 3) + spacebetweenchar
    h = fontbuf[0]
    ystep = h * scale + spacebetweenchar
    row, col = computetextrowandcolcnt(str2plot)
    pad = scale << 1
    mx = row * xstep + pad
    my = col * ystep + pad
    if fontrenderfunc.__name__.find('italic') > 0:
        if scale > 1:
            mx += h * (scale >> 1)
        else:
            mx += h >> 1
    bmp = newBMP(mx, my, bitdepth)
    if backgroundcolor > 0:
        mx -= 1
        my -= 1
        filledrect(bmp, 0, 0, mx, my, backgroundcolor)
    for c in orderfunc(str2plot):
        if c == '\n':
            y += ystep
            x = ox
        elif c == '\t':
            x += xstep << 2
        else:
            fontrenderfunc(bmp, x, y, getcharfont(fontbuf, c), scale, pixspace, color)
            x += xstep
    saveBMP(file, bmp)


def plotstringverticalwithfn2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, orderfunc: Callable, fontrenderfunc: Callable, backgroundcolor: int=0, bitdepth: int=24):
    if spacebetweenchar == 0:
        spacebetweenchar = 1
    h = fontbuf[0]
    xstep = (scale << 3) + spacebetweenchar
    ystep = h * scale + spacebetweenchar
    x = y = scale
    oy = y
    row, col = computetextrowandcolcnt(str2plot)
    pad = scale << 1
    mx = col * xstep + pad
    my = row * ystep + pad
    if fontrenderfunc.__name__.find('italic') > 0:
        if scale > 1:
            mx += h * (scale >> 1)
        else:
            mx += h >> 1
    bmp = newBMP(mx, my, bitdepth)
    if backgroundcolor > 0:
        mx -= 1
        my -= 1
        filledrect(bmp, 0, 0, mx, my, backgroundcolor)
    for c in orderfunc(str2plot):
        if c == '\n':
            x += xstep
            y = oy
        elif c == '\t':
            y += ystep << 2
        else:
            fontrenderfunc(bmp, x, y, getcharfont(fontbuf, c), scale, pixspace, color)
            y += ystep
    saveBMP(file, bmp)


def plotstring(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plot8bitpattern)


def plotstring2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plot8bitpattern, backgroundcolor, bitdepth)


def plotverticalstring2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringverticalwithfn2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plot8bitpattern, backgroundcolor, bitdepth)


def plotitalicstring(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plotitalic8bitpattern)


def plotitalicstring2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plotitalic8bitpattern, backgroundcolor, bitdepth)


def plotverticalitalicstring2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringverticalwithfn2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plotitalic8bitpattern, backgroundcolor, bitdepth)


def plotreverseditalicstring2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotreverseditalic8bitpattern, backgroundcolor, bitdepth)


def plotverticalstringasdots2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringverticalwithfn2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plot8bitpatternasdots, backgroundcolor, bitdepth)


def plotverticalitalicstringasdots2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringverticalwithfn2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plotitalic8bitpatternasdots, backgroundcolor, bitdepth)


def plotstringasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plot8bitpatternasdots)


def plotstringasdots2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plot8bitpatternasdots, backgroundcolor, bitdepth)


def plotitalicstringasdots2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plotitalic8bitpatternasdots, backgroundcolor, bitdepth)


def plotreversedstring2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotrotated8bitpattern, backgroundcolor, bitdepth)


def plotreversedstringasdots2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotrotated8bitpatternasdots, backgroundcolor, bitdepth)


def plotitalicstringasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumletters, plotitalic8bitpatternasdots)


def plotreverseditalicstringasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotreverseditalic8bitpatternasdots)


def plotreverseditalicstring(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotreverseditalic8bitpattern)


def plotstringupsidedown(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plot8bitpatternupsidedown)


def plotupsidedownstring2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plot8bitpatternupsidedown, backgroundcolor, bitdepth)


def plotupsidedownstringasdots2file(file: str, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, backgroundcolor: int=0, bitdepth: int=24):
    plotstringfunc2file(file, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plot8bitpatternupsidedownasdots, backgroundcolor, bitdepth)


def plotupsidedownitalicstring(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotupsidedownitalic8bitpattern)


def plotupsidedownitalicstringasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotupsidedownitalic8bitpatternasdots)


def plotstringupsidedownasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plot8bitpatternupsidedownasdots)


def plotreversestring(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotrotated8bitpattern)


def plotreversestringasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringfunc(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, enumreverseletters, plotrotated8bitpatternasdots)


def plotstringsidewayfn(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, fn: Callable):
    if spacebetweenchar == 0:
        spacebetweenchar = 1
    oy = y
    xstep = (scale << 3) + spacebetweenchar
    ystep = fontbuf[0] * scale + spacebetweenchar
    for c in enumletters(str2plot):
        if c == '\n':
            x += ystep
            y = oy
        elif c == '\t':
            y -= xstep << 2
        else:
            fn(bmp, x, y, getcharfont(fontbuf, c), scale, pixspace, color)
            y -= xstep


def plotstringsideway(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringsidewayfn(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, plot8bitpatternsideway)


def plotitalicstringsidewayasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringsidewayfn(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, plotitalic8bitpatternsidewayasdots)


def plotitalicstringsideway(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringsidewayfn(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, plotitalic8bitpatternsideway)


def plotstringsidewayasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringsidewayfn(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, plot8bitpatternsidewaywithdots)


def plotstringverticalwithfn(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, fn: Callable):
    if spacebetweenchar == 0:
        spacebetweenchar = 1
    oy = y
    xstep = (scale << 3) + spacebetweenchar
    ystep = fontbuf[0] * scale + spacebetweenchar
    for c in enumletters(str2plot):
        if c == '\n':
            x += xstep
            y = oy
        elif c == '\t':
            y += ystep << 2
        else:
            fn(bmp, x, y, getcharfont(fontbuf, c), scale, pixspace, color)
            y += ystep


def plotstringvertical(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringverticalwithfn(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, plot8bitpattern)


def plotstringverticalasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringverticalwithfn(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, plot8bitpatternasdots)


def plotitalicstringverticalasdots(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringverticalwithfn(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, plotitalic8bitpatternasdots)


def plotitalicstringvertical(bmp: array, x: int, y: int, str2plot: str, scale: int, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list):
    plotstringverticalwithfn(bmp, x, y, str2plot, scale, pixspace, spacebetweenchar, color, fontbuf, plotitalic8bitpattern)


def fillboundary(bmp: array, bndfilldic: dict, color: int):
    for y in bndfilldic:
        b = bndfilldic[y]
        yint = len(b)
        if yint == 1:
            plotxybit(bmp, b[0], y, color)
        else:
            for j in range(1, yint):
                horiline(bmp, y, b[j - 1], b[j], color)


def plotpolyfill(bmp: array, vertlist: list[list[Number, Number]], color: int):
    fillboundary(bmp, fillpolydata(polyboundary(vertlist), getmaxx(bmp), getmaxy(bmp)), color)


def thickplotpoly(bmp: array, vertlist: list[list[Number, Number]], penradius: int, color: int):
    vertcount = len(vertlist)
    for i in range(vertcount):
        if i > 0:
            thickroundline(bmp, roundvect(vertlist[i - 1]), roundvect(vertlist[i]), penradius, color)
    thickroundline(bmp, roundvect(vertlist[0]), roundvect(vertlist[vertcount - 1]), penradius, color)


def gradthickplotpoly(bmp: array, vertlist: list[list[Number, Number]], penradius: int, lumrange: list[int, int], RGBfactors: list[float, float, float], fn: Callable=lerp):
    l1, l2 = lumrange
    for i in range(penradius, 0, -1):
        c = colormix(int(fn(l1, l2, i / penradius)), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        thickplotpoly(bmp, vertlist, i, c)


def gradplotlines(bmp: array, vertlist: list[list[Number, Number]], penradius: int, lumrange: list[int, int], RGBfactors: list[float, float, float], fn: Callable=lerp):
    l1, l2 = lumrange
    for i in range(penradius, 0, -1):
        c = colormix(int(fn(l1, l2, i / penradius)), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        plotlines(bmp, vertlist, c, i)


def plotlines(bmp: array, vertlist: list[list[Number, Number]], color: int, penradius: int=1):
    vertcount = len(vertlist)
    if penradius <= 1:
        for i in range(vertcount):
            if i > 0:
                linevec(bmp, vertlist[i - 1], vertlist[i], color)
    elif penradius >= 2:
        for i in range(vertcount):
            if i > 0:
                thickroundline(bmp, roundvect(vertlist[i - 1]), roundvect(vertlist[i]), penradius, color)


def plotpoly(bmp: array, vertlist: list[list[Number, Number]], color: int):
    plotlines(bmp, vertlist, color)
    linevec(bmp, vertlist[0], vertlist[-1], color)


def plotpolylist(bmp: array, polylist: list[list[Number, Number]], color: int):
    for poly in polylist:
        plotpoly(bmp, poly, color)


def plotpolyfillist(bmp: array, sides: list[list[list[list]], list[list[float, float, float]]], RGBfactors: list[float, float]):
    polylist, normlist = sides
    for i, poly in enumerate(polylist):
        c = colormix(int(cosaffin(normlist[i], [0, 0, 1]) * 128) + 127, RGBfactors) if normlist[i] != [0, 0, 0] else colormix(127, RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        plotpolyfill(bmp, poly, c)


def plot3d(bmp: array, sides: list[list, list], issolid: bool, RGBfactors: list[float, float], showoutline: bool, outlinecolor: int):
    if issolid:
        plotpolyfillist(bmp, sides, RGBfactors)
    if showoutline:
        plotpolylist(bmp, sides[0], outlinecolor)


def plot3Dsolid(bmp: array, vertandsides: list[list, list], issolid: bool, RGBfactors: list[float, float, float], showoutline: bool, outlinecolor: int, rotvect: list[float, float, float], transvect3D: list[float, float, float], d: int, transvect: list[int, int]):
    plot3d(bmp, gensides(perspective(vertandsides[0], rotvect, transvect3D, d), transvect, vertandsides[1]), issolid, RGBfactors, showoutline, outlinecolor)


def gradvert(bmp: array, vertlist: list[list[int, int]], penradius: int, lumrange: list[int, int], RGBfactors: list[float, float, float], fn: Callable=lerp):
    l1, l2 = lumrange
    for i in range(penradius, 0, -1):
        c = colormix(fn(l1, l2, i / penradius), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = matchRGBtopal(int2RGBarr(c), getallRGBpal(bmp))
        for point in vertlist:
            roundpen(bmp, point, i, c)


@entirerectinboundary
def xygrid(bmp: array, x1: int, y1: int, x2: int, y2: int, xysteps: list[int, int], color: int):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    xstep, ystep = xysteps
    for x in range(x1, x2, xstep):
        vertline(bmp, x, y1, y2, color)
    for y in range(y1, y2, ystep):
        horiline(bmp, y, x1, x2, color)


def xygridvec(bmp: array, u: list[int, int], v: list[int, int], steps: list[int, int], gridcolor: int):
    xygrid(bmp, u[0], u[1], v[0], v[1], steps, gridcolor)


def numbervert(bmp: array, vlist: list[list[int, int]], xadj: int, yadj: int, scale: int, valstart: Number, valstep: Number, pixspace: int, spacebetweenchar: int, color: int, fontbuf: list, suppresszero: bool, suppresslastnum: bool, rightjustify: bool):
    plot = False
    maxv = len(vlist) - 1
    for v in vlist:
        i = vlist.index(v)
        plot = True if i > 0 else not suppresszero
        if i == maxv and suppresslastnum:
            plot = False
        stval = str(valstart + i * valstep)
        rjust = 0
        if rightjustify:
            rjust = len(stval) - 1 << 3
        if plot:
            plotstring(bmp, v[0] + xadj - rjust, v[1] + yadj, stval, scale, pixspace, spacebetweenchar, color, fontbuf)


def vertlinevert(bmp: array, vlist: list[list[int, int]], linelen: int, yadj: int, color: int):
    for x, y in vlist:
        vertline(bmp, x, y, y + linelen + yadj, color)


def horilinevert(bmp: array, vlist: list[list[int, int]], linelen: int, xadj: int, color: int):
    for x, y in vlist:
        horiline(bmp, y, x, x + linelen + xadj, color)


def XYaxis(bmp: array, origin: list[int, int], steps: list[int, int], xylimits: list[int, int], xyvalstarts: list[Number, Number], xysteps: list[Number, Number], color: int, textcolor: int, showgrid: bool, gridcolor: int):
    hvert = horizontalvert(origin[1], origin[0], xylimits[0], steps[0])
    vvert = verticalvert(origin[0], origin[1], xylimits[1], -steps[1])
    if showgrid:
        xygridvec(bmp, origin, xylimits, steps, gridcolor)
    drawvec(bmp, origin, [origin[0], xylimits[1]], 10, color)
    drawvec(bmp, origin, [xylimits[0], origin[1]], 10, color)
    vertlinevert(bmp, hvert, 5, -2, color)
    horilinevert(bmp, vvert, -3, 0, color)
    font = font8x14
    numbervert(bmp, vvert, -15, -4, 1, xyvalstarts[1], xysteps[1], 0, 0, textcolor, font, False, False, True)
    numbervert(bmp, hvert, -4, 7, 1, xyvalstarts[0], xysteps[0], 0, 0, textcolor, font, False, False, False)
    xvalmax = xyvalstarts[0] + (len(hvert) - 1) * xysteps[0]
    yvalmax = xyvalstarts[1] + (len(vvert) - 1) * xysteps[1]
    return (origin, steps, xylimits, xyvalstarts, xysteps, (xvalmax, yvalmax))


def userdef2Dcooordsys2screenxy(x: int, y: int, lstcooordinfo: list):
    (xo, yo), (xs, ys), (xlim, ylim), (xvst, yvst), (xvstp, yvstp) = lstcooordinfo[0:5]
    x = xo + (x - xvst) / xvstp * xs
    y = yo - (y - yvst) / yvstp * ys
    if x > xlim or y < ylim:
        x = -1
        y = -1
        print(sysmsg['regionoutofbounds'])
    return [x, y]


def XYscatterplot(bmp: array, XYdata: list, XYcoordinfo: list, showLinearRegLine: bool, reglinecolor: int):
    for v in XYdata:
        r = v[2]
        w = userdef2Dcooordsys2screenxy(v[0], v[1], XYcoordinfo)
        if r > 1:
            circlevec(bmp, w, setmax(r, 5), v[3], v[4])
        else:
            plotvecxypoint(bmp, w, v[3])
    if showLinearRegLine:
        m = LSMslope(XYdata)
        b = LSMYint(XYdata)
        xmin = XYcoordinfo[3][0]
        xmax = XYcoordinfo[5][0]
        ymin = xmin * m + b
        ymax = xmax * m + b
        u = userdef2Dcooordsys2screenxy(xmin, ymin, XYcoordinfo)
        w = userdef2Dcooordsys2screenxy(xmax, ymax, XYcoordinfo)
        if w == [-1, -1]:
            ymax = XYcoordinfo[5][1]
            xmax = (ymax - b) / m
            w = userdef2Dcooordsys2screenxy(xmax, ymax, XYcoordinfo)
        linevec(bmp, u, w, reglinecolor)


def getneighborcolorlist(bmp: array, v: list):
    return [getRGBxybitvec(bmp, u) for u in itergetneighbors(v, getmaxx(bmp), getmaxy(bmp), True)]


def iterimagedgevert(bmp: array, similaritythreshold: float):
    mx, my = getmaxxy(bmp)
    for v0, v1 in iterimageRGB(bmp, sysmsg['edgedetect'], '*', sysmsg['done']):
        for u in itergetneighbors(v0, mx, my, False):
            if dist(getRGBxybitvec(bmp, u), v1) > similaritythreshold:
                yield u
                break


def iterimageregionvertbyRGB(bmp: array, rgb: list[int, int, int], similaritythreshold: int):
    for v in iterimageRGB(bmp, sysmsg['edgedetect'], '*', sysmsg['done']):
        if dist(rgb, v[1]) < similaritythreshold:
            yield v[0]


def getimageregionbyRGB(bmp: array, rgb: list[int, int, int], similaritythreshold: int):
    return list(iterimageregionvertbyRGB(bmp, rgb, similaritythreshold))


def getimagedgevert(bmp: array, similaritythreshold: int):
    return list(iterimagedgevert(bmp, similaritythreshold))


def plotimgedges(bmp: array, similaritythreshold: int, edgeradius: int, edgecolor: int):
    plotxypointlist(bmp, getimagedgevert(bmp, similaritythreshold), edgeradius, edgecolor)


def getBGRpalbuf(bmp: array):
    return bmp[bmppal:_hdsz(bmp)]


def convertbufto24bit(buf: array, bgrpalbuf: array, bits: int) -> array:
    retval = []
    for b in buf:
        if bits == 8:
            s = b << 2
            retval += bgrpalbuf[s:s + 3]
        elif bits == 4:
            s1, s2 = divmod(b, 16)
            s1 <<= 2
            s2 <<= 2
            retval += bgrpalbuf[s1:s1 + 3] + bgrpalbuf[s2:s2 + 3]
        elif bits == 1:
            for i in enumbits(b):
                s = i << 2
                retval += bgrpalbuf[s:s + 3]
    return array('B', retval)


def upgradeto24bitimage(bmp: array):
    bits = bmp[bmpcolorbits]
    if bits == 24:
        print(sysmsg['is24bit'])
        nbmp = bmp
    else:
        nbmp = CopyBMPxydim2newBMP(bmp, 24)
        bgrpal = getBGRpalbuf(bmp)
        mx = getmaxx(bmp) - 1
        my = getmaxy(bmp) - 1
        offset = _BMoffset(nbmp, 0, my)
        r = _xchrcnt(nbmp)
        for buf in itercopyrect(bmp, 0, 0, mx, my):
            BMPbitBLTput(nbmp, offset, convertbufto24bit(buf, bgrpal, bits)[: (mx + 1) * 3])
            offset += r
    return nbmp


def iterimageRGB(bmp: array, waitmsg: str, rowprocind: str, finishmsg: str):
    if waitmsg != '':
        print(waitmsg)
    y = getmaxy(bmp) - 1
    offset = 0
    b = getBMPimgbytes(bmp)
    maxoffset = len(b)
    x = 0
    mx = getmaxx(bmp)
    bits = bmp[bmpcolorbits]
    padbytes = _pdbytes(mx, bits)
    if bits < 24:
        p = getallRGBpal(bmp)
        doff = 1
    else:
        doff = 3
    while offset < maxoffset:
        if bits == 1:
            c = b[offset]
            for bit in range(7, -1, -1):
                if x < mx:
                    yield ((x, y), p[(c & 1 << bit) >> bit])
                x += 1
        elif bits == 4:
            c0, c1 = divmod(b[offset], 16)
            if x < mx:
                yield ((x, y), p[c0])
            x += 1
            if x < mx:
                yield ((x, y), p[c1])
            x += 1
        elif bits == 8:
            if x < mx:
                yield ((x, y), p[b[offset]])
            x += 1
        elif bits == 24:
            if x < mx:
                yield ((x, y), (b[offset + 2], b[offset + 1], b[offset]))
            x += 1
        if x >= mx:
            x = 0
            y -= 1
            offset += padbytes
            if rowprocind != '':
                print(rowprocind, end='')
        offset += doff
    print('\n')
    if finishmsg != '':
        print(finishmsg)


def iterimagecolor(bmp: array, waitmsg: str, rowprocind: str, finishmsg: str):
    if waitmsg != '':
        print(waitmsg)
    y = getmaxy(bmp) - 1
    offset = 0
    b = getBMPimgbytes(bmp)
    maxoffset = len(b)
    x = 0
    mx = getmaxx(bmp)
    bits = bmp[bmpcolorbits]
    pb = _pdbytes(mx, bits)
    doff = 3 if bits == 24 else 1
    while offset < maxoffset:
        if bits == 1:
            c = b[offset]
            for bit in range(7, -1, -1):
                if x < mx:
                    yield ((x, y), (c & 1 << bit) >> bit)
                x += 1
        elif bits == 4:
            c0, c1 = divmod(b[offset], 16)
            if x < mx:
                yield ((x, y), c0)
            x += 1
            if x < mx:
                yield ((x, y), c1)
            x += 1
        elif bits == 8:
            if x < mx:
                yield ((x, y), b[offset])
            x += 1
        elif bits == 24:
            if x < mx:
                yield ((x, y), (b[offset + 2] << 16) + (b[offset + 1] << 8) + b[offset])
            x += 1
        if x >= mx:
            x = 0
            y -= 1
            offset += pb
            if rowprocind != '':
                print(rowprocind, end='')
        offset += doff
    print('\n')
    if finishmsg != '':
        print(finishmsg)


@entirerectinboundary
def copyrect(bmp: array, x1: int, y1: int, x2: int, y2: int) -> array:
    retval = array('B', [bmp[bmpcolorbits]])
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    retval += int2buf(2, x2 - x1)
    retval += int2buf(2, y2 - y1)
    retval += int2buf(2, adjustxbufsize(bmp, x1, x2))
    for buf in itercopyrect(bmp, x1, y1, x2, y2):
        retval += buf
    return retval


def pasterect(bmp: array, buf: array, x1: int, y1: int):
    if bmp[bmpcolorbits] != buf[0]:
        print(sysmsg['bitsnotequal'])
    else:
        x2 = x1 + buf2int(buf[1:3])
        y2 = y1 + buf2int(buf[3:5])
        r = _xchrcnt(bmp)
        if listinBMPrecbnd(bmp, ((x1, y1), (x2, y2))):
            offset = _BMoffset(bmp, x1, y2)
            br = buf2int(buf[5:7])
            startoff = 7
            endoff = br + 7
            bufsize = len(buf)
            while startoff < bufsize:
                BMPbitBLTput(bmp, offset, buf[startoff:endoff])
                offset += r
                startoff = endoff
                endoff += br
        else:
            print(sysmsg['regionoutofbounds'])


def convertselection2BMP(buf: array):
    bmp = -1
    bits = buf[0]
    if not isvalidcolorbit(bits):
        print(sysmsg['invalidbuf'])
    else:
        bmp = newBMP(buf2int(buf[1:3]) + 1, buf2int(buf[3:5]) + 1, bits)
        pasterect(bmp, buf, 0, 0)
    return bmp


def invertimagebits(bmp: array):
    offset = _hdsz(bmp)
    maxoffset = _flsz(bmp)
    while offset < maxoffset:
        bmp[offset] ^= 255
        offset += 1


def erasealternatehorizontallines(bmp: array, int_eraseeverynline: int, int_eraseNthline: int, bytepat: int):
    bufsize = _xchrcnt(bmp)
    s1 = _hdsz(bmp)
    s2 = _flsz(bmp) - bufsize
    bytepat &= 255
    blank = array('B', [bytepat] * bufsize)
    i = 1
    while s2 >= s1:
        if i % int_eraseeverynline == int_eraseNthline:
            bmp[s2:s2 + bufsize] = blank
        s2 -= bufsize
        i += 1


def eraseeverynthhorizontalline(bmp: array, n: int):
    erasealternatehorizontallines(bmp, n, 0, 0)


@entirecircleinboundary
def erasealternatehorizontallinesincircregion(bmp: array, x: int, y: int, r: int, int_eraseeverynline: int, int_eraseNthline: int, bytepat: int):
    c = _getBMoffhdfunc(bmp)
    bytepat &= 255
    for v in itercirclepartlineedge(r):
        x1, x2 = mirror(x, v[0])
        y1, y2 = mirror(y, v[1])
        s1 = c(bmp, x1, y1)
        e1 = c(bmp, x2, y1)
        s2 = c(bmp, x1, y2)
        e2 = c(bmp, x2, y2)
        if y1 % int_eraseeverynline == int_eraseNthline:
            bmp[s1:e1] = array('B', [bytepat] * (e1 - s1))
        if y2 % int_eraseeverynline == int_eraseNthline:
            bmp[s2:e2] = array('B', [bytepat] * (e2 - s2))


def eraseeverynthhorizontallineinccircregion(bmp: array, x: int, y: int, r: int, n: int):
    erasealternatehorizontallinesincircregion(bmp, x, y, r, n, 0, 0)


@entirerectinboundary
def erasealternatehorizontallinesinregion(bmp: array, x1: int, y1: int, x2: int, y2: int, int_eraseeverynline: int, int_eraseNthline: int, bytepat: int):
    bytepat &= 255
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    bufsize = adjustxbufsize(bmp, x1, x2)
    r = _xchrcnt(bmp)
    f = _getBMoffhdfunc(bmp)
    s1 = f(bmp, x1, y2)
    s2 = f(bmp, x1, y1)
    blank = array('B', [bytepat] * bufsize)
    i = 1
    while s2 >= s1:
        if i % int_eraseeverynline == int_eraseNthline:
            bmp[s2:s2 + bufsize] = blank
        s2 -= r
        i += 1


def eraseeverynthhorilineinregion(bmp: array, x1: int, y1: int, x2: int, y2: int, n: int):
    erasealternatehorizontallinesinregion(bmp, x1, y1, x2, y2, n, 0, 0)


def verttrans(bmp: array, trans: str):

    def _F():
        bmp[s1:e1], bmp[s2:e2] = (bmp[s2:e2], bmp[s1:e1])

    def _T():
        bmp[s1:s1 + bufsize] = bmp[s2:s2 + bufsize]

    def _B():
        bmp[s2:s2 + bufsize] = bmp[s1:s1 + bufsize]
    f = {'F': _F, 'T': _T, 'B': _B}[trans]
    bufsize = _xchrcnt(bmp)
    s1 = _hdsz(bmp)
    s2 = _flsz(bmp) - bufsize
    while s1 < s2:
        e1 = s1 + bufsize
        e2 = s2 + bufsize
        f()
        s1 += bufsize
        s2 -= bufsize


def flipvertical(bmp: array):
    verttrans(bmp, 'F')


def mirrortop(bmp: array):
    verttrans(bmp, 'T')


def mirrorbottom(bmp: array):
    verttrans(bmp, 'B')


@entirerectinboundary
def verttransregion(bmp: array, x1: int, y1: int, x2: int, y2: int, trans: str):

    def _F():
        bmp[s1:e1], bmp[s2:e2] = (bmp[s2:e2], bmp[s1:e1])

    def _T():
        bmp[s1:s1 + bufsize] = bmp[s2:s2 + bufsize]

    def _B():
        bmp[s2:s2 + bufsize] = bmp[s1:s1 + bufsize]
    f = {'F': _F, 'T': _T, 'B': _B}[trans]
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    bufsize = adjustxbufsize(bmp, x1, x2)
    r = _xchrcnt(bmp)
    c = _getBMoffhdfunc(bmp)
    s1 = c(bmp, x1, y2)
    s2 = c(bmp, x1, y1)
    while s1 < s2:
        e1 = s1 + bufsize
        e2 = s2 + bufsize
        f()
        s1 += r
        s2 -= r


def flipverticalregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    verttransregion(bmp, x1, y1, x2, y2, 'F')


def mirrorbottominregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    verttransregion(bmp, x1, y1, x2, y2, 'B')


def mirrortopinregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    verttransregion(bmp, x1, y1, x2, y2, 'T')


@entirerectinboundary
def fliphorzontalpixelbased(bmp: array, x1: int, y1: int, x2: int, y2: int):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    m = x1 + (x2 - x1 >> 1)
    while x1 <= m:
        y = y1
        while y <= y2:
            swapcolors(bmp, (x1, y), (x2, y))
            y += 1
        x1 += 1
        x2 -= 1


@entirerectinboundary
def fliphverticalalpixelbased(bmp: array, x1: int, y1: int, x2: int, y2: int):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    m = y1 + (y2 - y1 >> 1)
    while y1 <= m:
        x = x1
        while x <= x2:
            swapcolors(bmp, (x, y1), (x, y2))
            x += 1
        y1 += 1
        y2 -= 1


@entirerectinboundary
def horizontalbulkswap(bmp: array, x1: int, y1: int, x2: int, y2: int, swapfunc: Callable):
    dx = {24: 1, 8: 1, 4: 2, 1: 8}[bmp[bmpcolorbits]]
    c = _getBMoffhdfunc(bmp)
    r = _xchrcnt(bmp)
    y1, y2 = swapif(y1, y2, y1 > y2)
    x1, x2 = swapif(x1, x2, x1 > x2)
    while x1 < x2:
        swapfunc(bmp, c(bmp, x1, y2), c(bmp, x1, y1) + r, c(bmp, x2, y2), c(bmp, x2, y1) + r, r)
        x1 += dx
        x2 -= dx


def fliphorizontalregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    if bmp[bmpcolorbits] < 8:
        fliphorzontalpixelbased(bmp, x1, y1, x2, y2)
        return

    def _24(bmp, s1, e1, s2, e2, r):
        bmp[s1:e1 - 2:r], bmp[s2:e2 - 2:r], bmp[s1 + 1:e1 - 1:r], bmp[s2 + 1:e2 - 1:r], bmp[s1 + 2:e1:r], bmp[s2 + 2:e2:r] = (bmp[s2:e2 - 2:r], bmp[s1:e1 - 2:r], bmp[s2 + 1:e2 - 1:r], bmp[s1 + 1:e1 - 1:r], bmp[s2 + 2:e2:r], bmp[s1 + 2:e1:r])

    def _8(bmp, s1, e1, s2, e2, r):
        bmp[s1:e1:r], bmp[s2:e2:r] = (bmp[s2:e2:r], bmp[s1:e1:r])
    horizontalbulkswap(bmp, x1, y1, x2, y2, {24: _24, 8: _8}[bmp[bmpcolorbits]])


@entirerectinboundary
def _mirrorhorizontalpixelbased(bmp: array, x1: int, y1: int, x2: int, y2: int, leftisource: bool):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    while x1 < x2:
        s, d = swapif(x1, x2, not leftisource)
        for y in range(y1, y2 + 1):
            plotxybit(bmp, d, y, getxybit(bmp, s, y))
        x1 += 1
        x2 -= 1


def mirrorleftinregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    if bmp[bmpcolorbits] < 8:
        _mirrorhorizontalpixelbased(bmp, x1, y1, x2, y2, True)
        return

    def _24(bmp, s1, e1, s2, e2, r):
        bmp[s2:e2 - 2:r], bmp[s2 + 1:e2 - 1:r], bmp[s2 + 2:e2:r] = (bmp[s1:e1 - 2:r], bmp[s1 + 1:e1 - 1:r], bmp[s1 + 2:e1:r])

    def _8(bmp, s1, e1, s2, e2, r):
        bmp[s2:e2:r] = bmp[s1:e1:r]
    horizontalbulkswap(bmp, x1, y1, x2, y2, {24: _24, 8: _8}[bmp[bmpcolorbits]])


def mirrorrightinregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    if bmp[bmpcolorbits] < 8:
        _mirrorhorizontalpixelbased(bmp, x1, y1, x2, y2, False)
        return

    def _24(bmp, s1, e1, s2, e2, r):
        bmp[s1:e1 - 2:r], bmp[s1 + 1:e1 - 1:r], bmp[s1 + 2:e1:r] = (bmp[s2:e2 - 2:r], bmp[s2 + 1:e2 - 1:r], bmp[s2 + 2:e2:r])

    def _8(bmp, s1, e1, s2, e2, r):
        bmp[s1:e1:r] = bmp[s2:e2:r]
    horizontalbulkswap(bmp, x1, y1, x2, y2, {24: _24, 8: _8}[bmp[bmpcolorbits]])


def mirrorleft(bmp: array):
    mirrorleftinregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1)


def mirrorright(bmp: array):
    mirrorrightinregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1)


def mirrortopleftinregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    mirrorleftinregion(bmp, x1, y1, x2, y2)
    mirrortopinregion(bmp, x1, y1, x2, y2)


def mirrortoprightinregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    mirrorrightinregion(bmp, x1, y1, x2, y2)
    mirrortopinregion(bmp, x1, y1, x2, y2)


def mirrorbottomleftinregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    mirrorleftinregion(bmp, x1, y1, x2, y2)
    mirrorbottominregion(bmp, x1, y1, x2, y2)


def mirrorbottomrightinregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    mirrorrightinregion(bmp, x1, y1, x2, y2)
    mirrorbottominregion(bmp, x1, y1, x2, y2)


def mirrortopleft(bmp):
    mirrorleftinregion(bmp, 0, 0, getmaxx(bmp) - 1, (getmaxy(bmp) - 1) // 2)
    mirrortop(bmp)


def mirrortopright(bmp: array):
    mirrorrightinregion(bmp, 0, 0, getmaxx(bmp) - 1, (getmaxy(bmp) - 1) // 2)
    mirrortop(bmp)


def mirrorbottomleft(bmp: array):
    ymax = getmaxy(bmp) - 1
    mirrorleftinregion(bmp, 0, ymax // 2, getmaxx(bmp) - 1, ymax)
    mirrorbottom(bmp)


def mirrorbottomright(bmp: array):
    ymax = getmaxy(bmp) - 1
    mirrorrightinregion(bmp, 0, ymax // 2, getmaxx(bmp) - 1, ymax)
    mirrorbottom(bmp)


def fliphorizontal(bmp: array):
    fliphorizontalregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1)


def flipXY(bmp: array):
    mx = getmaxy(bmp)
    my = getmaxx(bmp)
    bits = bmp[bmpcolorbits]
    nbmp = newBMP(mx, my, bits)
    if bits in [8, 24]:
        r = _xchrcnt(nbmp)
        mx -= 1
        if bits < 24:
            copyRGBpal(bmp, nbmp)
        offset = 0
        for y in range(my):
            BMPbitBLTput(nbmp, offset, array('B', vertBMPbitBLTget(bmp, y, 0, mx)))
            offset += r
    else:
        copyRGBpal(bmp, nbmp)
        for v in iterimagecolor(bmp, sysmsg['flipXY'], '*', sysmsg['done']):
            plotxybit(nbmp, v[0][1], v[0][0], v[1])
    return nbmp


@entirerectinboundary
def itergetcolorfromrectregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    x, y = (x1, y1)
    while y <= y2:
        x = x1
        while x <= x2:
            yield ((x, y), getxybit(bmp, x, y))
            x += 1
        y += 1


@entirerectinboundary
def crop(bmp: array, x1: int, y1: int, x2: int, y2: int):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    bits = bmp[bmpcolorbits]
    nbmp = newBMP(x2 - x1 + 1, y2 - y1 + 1, bits)
    if bits < 24:
        copyRGBpal(bmp, nbmp)
    if bits < 8:
        for v in itergetcolorfromrectregion(bmp, x1, y1, x2, y2):
            intplotvecxypoint(nbmp, subvect(v[0], (x1, y1)), v[1])
    else:
        offset = 0
        r = _xchrcnt(nbmp)
        for buf in itercopyrect(bmp, x1, y1, x2, y2):
            BMPbitBLTput(nbmp, offset, buf)
            offset += r
    return nbmp


@entirerectinboundary
def invertregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    bits = bmp[bmpcolorbits]
    if bits < 8:
        c = getmaxcolors(bmp) - 1
        for v in itergetcolorfromrectregion(bmp, x1, y1, x2, y2):
            intplotvecxypoint(bmp, v[0], getxybitvec(bmp, v[0]) ^ c)
    else:
        offset = iif(bits == 24, _24bmof(bmp, x1, y2), _8bmof(bmp, x1, y2))
        r = _xchrcnt(bmp)
        for buf in itercopyrect(bmp, x1, y1, x2, y2):
            BMPbitBLTput(bmp, offset, invertbitsinbuffer(buf))
            offset += r


def monofilterto24bitregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    _usebyrefnopar24bitfn2reg(bmp, x1, y1, x2, y2, applymonochromefiltertoBGRbuf)


def monofilterto24bitimage(bmp: array):
    monofilterto24bitregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1)


def horizontalbrightnessgradto24bitimage(bmp: array, lumrange: list[int, int]):
    horizontalbrightnessgradto24bitregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1, lumrange)


def resizeNtimesbigger(bmp: array, n: int):
    bits = bmp[bmpcolorbits]
    mx, my = getmaxxy(bmp)
    nx = mx * n
    ny = my * n
    nbmp = newBMP(nx, ny, bits)
    mx -= 1
    my -= 1
    ny -= 1
    if bits < 24:
        copyRGBpal(bmp, nbmp)
    offset = _BMoffset(nbmp, 0, ny)
    r = _xchrcnt(nbmp)
    for buf in itercopyrect(bmp, 0, 0, mx, my):
        nbuf = resizebufNtimesbigger(buf, n, bits)[: r]
        for _ in range(n):
            BMPbitBLTput(nbmp, offset, nbuf)
            offset += r
    return nbmp


def colorfilterto24bitregion(bmp: array, x1: int, y1: int, x2: int, y2: int, rgbfactors: list[float, float, float]):
    _usebyref24btfn2reg(bmp, x1, y1, x2, y2, applycolorfiltertoBGRbuf, rgbfactors)


def colorfilterto24bitimage(bmp: array, rgbfactors: list[float, float, float]):
    colorfilterto24bitregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1, rgbfactors)


def brightnesseadjto24bitregion(bmp: array, x1: int, y1: int, x2: int, y2: int, percentadj: float):
    _use24bitfn2reg(bmp, x1, y1, x2, y2, applybrightnessadjtoBGRbuf, percentadj)


def thresholdadjto24bitregion(bmp: array, x1: int, y1: int, x2: int, y2: int, lumrange: list[int, int]):
    _use24bitfn2reg(bmp, x1, y1, x2, y2, applythresholdadjtoBGRbuf, lumrange)


def thresholdadjcircregion(bmp: array, x: int, y: int, r: int, lumrange: list[int, int]):
    _use24btfn2circreg(bmp, x, y, r, applythresholdadjtoBGRbuf, lumrange)


def brightnesseadjto24bitimage(bmp: array, percentadj: float):
    brightnesseadjto24bitregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1, percentadj)


def thresholdadjto24bitimage(bmp: array, lumrange: list[int, int]):
    thresholdadjto24bitregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1, lumrange)


def verticalbrightnessgradto24bitimage(bmp: array, lumrange: list[int, int]):
    verticalbrightnessgradto24bitregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1, lumrange)


def plotmultifractal(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, func: Callable, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    maxcolors = getmaxcolors(bmp)
    mcolor = maxcolors - 1
    bits = bmp[bmpcolorbits]
    if bits == 24:
        for x, y, c in func(x1, y1, x2, y2, d, domain, maxiter):
            plotxybit(bmp, x, y, colormix((255 - c) * 20 % 256, RGBfactors))
    elif bits == 8 and len(RGBfactors) == 3:
        for x, y, c in func(x1, y1, x2, y2, d, domain, maxiter):
            bmp[_8bmofhd(bmp, x, y)] = c
    elif bits == 4 and len(RGBfactors) == 3:
        for x, y, c in func(x1, y1, x2, y2, d, domain, maxiter):
            plotxybit(bmp, x, y, c)
    elif bits == 1:
        for x, y, c in func(x1, y1, x2, y2, d, domain, maxiter):
            plotxybit(bmp, x, y, c % maxcolors)
    else:
        for x, y, c in func(x1, y1, x2, y2, d, domain, maxiter):
            plotxybit(bmp, x, y, (mcolor - c) % maxcolors)


def plotmultifractalcomplexpar(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, func: Callable, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    maxcolors = getmaxcolors(bmp)
    mcolor = maxcolors - 1
    bits = bmp[bmpcolorbits]
    if bits == 24:
        for x, y, v in func(x1, y1, x2, y2, c, d, domain, maxiter):
            plotxybit(bmp, x, y, colormix((255 - v) * 20 % 256, RGBfactors))
    elif bits == 8 and len(RGBfactors) == 3:
        for x, y, v in func(x1, y1, x2, y2, c, d, domain, maxiter):
            bmp[_8bmofhd(bmp, x, y)] = v
    elif bits == 4 and len(RGBfactors) == 3:
        for x, y, v in func(x1, y1, x2, y2, c, d, domain, maxiter):
            plotxybit(bmp, x, y, v)
    elif bits == 1:
        for x, y, v in func(x1, y1, x2, y2, c, d, domain, maxiter):
            plotxybit(bmp, x, y, v % maxcolors)
    else:
        for x, y, v in func(x1, y1, x2, y2, c, d, domain, maxiter):
            plotxybit(bmp, x, y, (mcolor - v) % maxcolors)


def newtonsfractal(bmp: array, x1: int, y1: int, x2: int, y2: int, d: list[Callable, Callable], domain: list[float, float, float, float], RGBfactorslist: list[list[float, float, float]], maxiter: int) -> list:
    tol = 0.01
    maxcolors = getmaxcolors(bmp)
    mcolor = maxcolors - 1
    roots = []
    for x, y, r in iternewtonsfractal(x1, y1, x2, y2, d, domain, maxiter):
        rt, c = r
        if rt != None:
            flag = False
            for tst_rt in roots:
                if abs(tst_rt - rt) < tol:
                    rt = tst_rt
                    flag = True
                    break
            if not flag:
                roots.append(rt)
            if bmp[bmpcolorbits] == 24:
                c = colormix((255 - c) * 20 % 256, RGBfactorslist[roots.index(rt)])
            else:
                c = mcolor - c % maxcolors
            plotxybit(bmp, x, y, c)
    return roots


def mandelbrot(bmp: array, x1: int, y1: int, x2: int, y2: int, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, 2, itermultibrot, domain, RGBfactors, maxiter)


def multibrot(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, itermultibrot, domain, RGBfactors, maxiter)


def multicircle(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, itermulticircle, domain, RGBfactors, maxiter)


def multihyperbola(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, itermultihyperbola, domain, RGBfactors, maxiter)


def multisuperellipse(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, itermultisuperellipse, domain, RGBfactors, maxiter)


def astroidfractal(bmp: array, x1: int, y1: int, x2: int, y2: int, r: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, r, iterastroid, domain, RGBfactors, maxiter)


def lemniscatefractal(bmp: array, x1: int, y1: int, x2: int, y2: int, r: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, r, iterlemniscate, domain, RGBfactors, maxiter)


def xorfractal(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, iterxorfractal, domain, RGBfactors, maxiter)


def xordivfractal(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, iterxordivfractal, domain, RGBfactors, maxiter)


def tetrationfractal(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, itertetration, domain, RGBfactors, maxiter)


def sinjulia(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, c, itersinjulia, domain, RGBfactors, maxiter)


def cosjulia(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, c, itercosjulia, domain, RGBfactors, maxiter)


def spiraljulia(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, c, iterspiraljulia, domain, RGBfactors, maxiter)


def lambdafractal(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, c, iterlamdbafractal, domain, RGBfactors, maxiter)


@functimer
def savelambdafractal2file(file: str, x: int, y: int, c: complex, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, lambdafractal, c, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savetetrationfractal2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savemultifractal2file(file, x, y, tetrationfractal, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savexorfractal2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=24, maxiter: int=255):
    savemultifractal2file(file, x, y, xorfractal, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savexordivfractal2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=24, maxiter: int=255):
    savemultifractal2file(file, x, y, xordivfractal, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savesinjulia2file(file: str, x: int, y: int, c: complex, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, sinjulia, c, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savespiraljulia2file(file: str, x: int, y: int, c: complex, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, spiraljulia, c, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savecosjulia2file(file: str, x: int, y: int, c: complex, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, cosjulia, c, domain, rgbfactors, bitdepth, maxiter)


def julia(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, 2, itermultijulia, domain, RGBfactors, maxiter)


def multijulia(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultijulia, domain, RGBfactors, maxiter)


def ngonfractal(bmp: array, x1: int, y1: int, x2: int, y2: int, c: float, n: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, n, iterngonfractal, domain, RGBfactors, maxiter)


def multibiomorphvariant(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultibiomorphvariant, domain, RGBfactors, maxiter)


def multibiomorphphasevariant(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultibiomorphphasevariant, domain, RGBfactors, maxiter)


def multibiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultibiomorph, domain, RGBfactors, maxiter)


def multisinbiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultisinbiomorph, domain, RGBfactors, maxiter)


def multicosbiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermulticosbiomorph, domain, RGBfactors, maxiter)


def multicoshbiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermulticoshbiomorph, domain, RGBfactors, maxiter)


def multisinhbiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultisinhbiomorph, domain, RGBfactors, maxiter)


def multiexpbiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultiexpbiomorph, domain, RGBfactors, maxiter)


def multi2ndtetrationbiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermulti2ndtetrationbiomorph, domain, RGBfactors, maxiter)


def multizconjugatebiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultizconjugatebiomorph, domain, RGBfactors, maxiter)


def multitanbiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultitanbiomorph, domain, RGBfactors, maxiter)


def multitanhbiomorph(bmp: array, x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractalcomplexpar(bmp, x1, y1, x2, y2, c, d, itermultitanhbiomorph, domain, RGBfactors, maxiter)


def tricorn(bmp: array, x1: int, y1: int, x2: int, y2: int, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, 2, itermulticorn, domain, RGBfactors, maxiter)


def multicorn(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, itermulticorn, domain, RGBfactors, maxiter)


def barnsleytree(bmp: array, x1: int, y1: int, x2: int, y2: int, d: complex, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, iterbarnsleytree, domain, RGBfactors, maxiter)


def marekdragon(bmp: array, x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], RGBfactors: list[float, float, float], maxiter: int):
    plotmultifractal(bmp, x1, y1, x2, y2, d, itermarekdragon, domain, RGBfactors, maxiter)


def IFS(bmp: array, IFStransparam: tuple, x1: int, y1: int, x2: int, y2: int, xscale: int, yscale: int, xoffset: int, yoffset: int, color: int, maxiter: int):
    for px, py in iterIFS(IFStransparam, x1, y1, x2, y2, xscale, yscale, xoffset, yoffset, maxiter):
        plotxybit(bmp, px, py, color)


def plotflower(bmp: array, cx: int, cy: int, r: int, petals: float, angrot: float, lumrange: list[int, int], RGBfactors: list[float, float, float]):
    maxcolors = getmaxcolors(bmp)
    mcolor = maxcolors - 1
    lum1, dlum = range2baseanddelta(lumrange)
    for x, y in iterflower(cx, cy, r, petals, angrot):
        c = colormix(setmax(abs(int(lum1 + dlum * (dist([x, y], [cx, cy]) / r))), 255), RGBfactors)
        if bmp[bmpcolorbits] != 24:
            c = mcolor - c % maxcolors
        plotxybit(bmp, x, y, c)


def newBMPwithPAL(x, y, bitdepth, rgbfactors):
    bmp = newBMP(x, y, bitdepth)
    if bitdepth < 24:
        cp = len(rgbfactors)
        if cp == 3:
            setBMP2invshiftedmonochrome(bmp, rgbfactors)
        elif cp == 2:
            setBMP2dichromaticpal(bmp, rgbfactors[0], rgbfactors[1])
    return bmp


def savefractal2file(file: str, x: int, y: int, f: Callable, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    bmp = newBMPwithPAL(x, y, bitdepth, rgbfactors)
    f(bmp, 0, 0, x, y, domain, rgbfactors, maxiter)
    saveBMP(file, bmp)


def savemultifractal2file(file: str, x: int, y: int, f: Callable, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=24, maxiter: int=255):
    bmp = newBMPwithPAL(x, y, bitdepth, rgbfactors)
    f(bmp, 0, 0, x, y, d, domain, rgbfactors, maxiter)
    saveBMP(file, bmp)


@functimer
def savemandelbrotfractal2file(file: str, x: int, y: int, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savefractal2file(file, x, y, mandelbrot, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultibrotfractal2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, multibrot, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemulticirclefractal2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, multicircle, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultihyperbolafractal2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, multihyperbola, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultisuperellipsefractal2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=24, maxiter: int=255):
    savemultifractal2file(file, x, y, multisuperellipse, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def saveastroidfractal2file(file: str, x: int, y: int, r: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, astroidfractal, r, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savelemniscatefractal2file(file: str, x: int, y: int, r: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, lemniscatefractal, r, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savetricornfractal2file(file: str, x: int, y: int, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savefractal2file(file, x, y, tricorn, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemulticornfractal2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, multicorn, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savebarnsleytreefractal2file(file: str, x: int, y: int, d: complex, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, barnsleytree, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemarekdragon2file(file: str, x: int, y: int, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savemultifractal2file(file, x, y, marekdragon, d, domain, rgbfactors, bitdepth, maxiter)


def savefractalwithparam2file(file: str, x: int, y: int, f: Callable, p: any, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=24, maxiter: int=255):
    bmp = newBMP(x, y, bitdepth)
    if bitdepth < 24:
        cp = len(rgbfactors)
        if cp == 3:
            setBMP2invshiftedmonochrome(bmp, rgbfactors)
        elif cp == 2:
            setBMP2dichromaticpal(bmp, rgbfactors[0], rgbfactors[1])
    retval = f(bmp, 0, 0, x, y, p, domain, rgbfactors, maxiter)
    saveBMP(file, bmp)
    return retval


def savefractalwith2param2file(file: str, x: int, y: int, f: Callable, p1: any, p2: any, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=24, maxiter: int=255):
    bmp = newBMPwithPAL(x, y, bitdepth, rgbfactors)
    retval = f(bmp, 0, 0, x, y, p1, p2, domain, rgbfactors, maxiter)
    saveBMP(file, bmp)
    return retval


@functimer
def savejuliafractal2file(file: str, x: int, y: int, c: complex, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savefractalwithparam2file(file, x, y, julia, c, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultijuliafractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multijulia, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savengonfractal2file(file: str, x: int, y: int, c: float, n: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savefractalwith2param2file(file, x, y, ngonfractal, c, n, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultibiomorphvariantfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multibiomorphvariant, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultibiomorphphasevariantfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=8, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multibiomorphphasevariant, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultibiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multibiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultisinbiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multisinbiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemulticosbiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multicosbiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemulticoshbiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multicoshbiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultisinhbiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multisinhbiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultiexpbiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multiexpbiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemulti2ndtetrationbiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multi2ndtetrationbiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultizconjugatebiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multizconjugatebiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultitanbiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multitanbiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savemultitanhbiomorphfractal2file(file: str, x: int, y: int, c: complex, d: float, domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=4, maxiter: int=255):
    savefractalwith2param2file(file, x, y, multitanhbiomorph, c, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savenewtonsfractal2file(file: str, x: int, y: int, d: list[Callable, Callable], domain: list[float, float, float, float], rgbfactors: list[float, float, float], bitdepth: int=24, maxiter: int=255):
    return savefractalwithparam2file(file, x, y, newtonsfractal, d, domain, rgbfactors, bitdepth, maxiter)


@functimer
def savehilbertcurve2file(file: str, x: int, y: int, order: int, bitdepth: int=1, color: int=1, backgroundcolor: int=0, penradius: int=1, orientation: int=0):
    bmp = newBMP(x, y, bitdepth)
    x -= 1
    y -= 1
    if backgroundcolor > 0:
        filledrect(bmp, 0, 0, x, y, backgroundcolor)
    o = (0, x, y, 0) if orientation == 1 else (x, 0, 0, y)
    l = []
    hilbertvert(l, (0, 0), o, order)
    plotlines(bmp, l, color, penradius)
    saveBMP(file, bmp)


@functimer
def savekochsnowflake2file(file: str, r: int, order: int, angle: float=0, bitdepth: int=1, color: int=1, backgroundcolor: int=0, penradius: int=1):
    x = y = (r << 1) + (penradius << 1) + 2
    bmp = newBMP(x, y, bitdepth)
    x -= 1
    y -= 1
    if backgroundcolor > 0:
        filledrect(bmp, 0, 0, x, y, backgroundcolor)
    cx = x >> 1
    cy = y >> 1
    l = kochsnowflakevert(cx, cy, r, angle, order)
    if penradius > 1:
        thickplotpoly(bmp, l, penradius, color)
    else:
        plotpoly(bmp, l, color)
    saveBMP(file, bmp)


def plotfilledflower(bmp: array, cx: int, cy: int, r: int, petals: float, angrot: float, lumrange: list[int, int], RGBfactors: list[float, float, float]):
    for nr in range(r, 2, -1):
        plotflower(bmp, cx, cy, nr, petals, angrot, lumrange, RGBfactors)


def plotbmpastext(bmp: array):
    bits = _getclrbits(bmp)
    my = getmaxy(bmp) - 1
    r = _xchrcnt(bmp)
    offset = _hdsz(bmp)
    for y in range(my, -1, -1):
        for x in range(r):
            i = offset + r * y + x
            if bits == 1:
                plotbitsastext(bmp[i])
            if bits == 4:
                c0, c1 = divmod(bmp[i], 16)
                print(chr(97 + c0) + chr(97 + c1), end='')
            if bits == 8:
                print(chr(bmp[i]), end='')
        print()


def piechart(bmp: array, x: int, y: int, r: int, dataandcolorlist: list):
    alist, big = genpiechartdata(dataandcolorlist)
    if big > -1:
        circle(bmp, x, y, r, alist[big][2], True)
    for a in alist:
        if a[4] < 50:
            drawarc(bmp, x, y, r, a[0], a[1], a[2], True, a[2], True)
    return [alist, big]


@func24bitonlyandentirerectinboundary
def _usebyrefnopar24bitfn2reg(bmp: array, x1: int, y1: int, x2: int, y2: int, func: Callable):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    offset = _24bmof(bmp, x1, y2)
    r = _xchrcnt(bmp)
    for buf in itercopyrect(bmp, x1, y1, x2, y2):
        func(buf)
        BMPbitBLTput(bmp, offset, buf)
        offset += r


@func24bitonlyandentirerectinboundary
def _usebyref24btfn2reg(bmp: array, x1: int, y1: int, x2: int, y2: int, func: Callable, funcparam):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    offset = _24bmof(bmp, x1, y2)
    r = _xchrcnt(bmp)
    for buf in itercopyrect(bmp, x1, y1, x2, y2):
        func(buf, funcparam)
        BMPbitBLTput(bmp, offset, buf)
        offset += r


@func24bitonlyandentirerectinboundary
def _use24bitfn2reg(bmp: array, x1: int, y1: int, x2: int, y2: int, func: Callable, funcparam):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    offset = _24bmof(bmp, x1, y2)
    r = _xchrcnt(bmp)
    for buf in itercopyrect(bmp, x1, y1, x2, y2):
        BMPbitBLTput(bmp, offset, func(buf, funcparam))
        offset += r


@func24bitonlyandentirerectinboundary
def verticalbrightnessgradto24bitregion(bmp: array, x1: int, y1: int, x2: int, y2: int, lumrange: list[int, int]):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    offset = _24bmof(bmp, x1, y2)
    r = _xchrcnt(bmp)
    lum = lumrange[1]
    dlum = (lumrange[0] - lum) / max(y2 - y1, 1)
    for buf in itercopyrect(bmp, x1, y1, x2, y2):
        BMPbitBLTput(bmp, offset, applybrightnessadjtoBGRbuf(buf, lum))
        offset += r
        lum += dlum


@func24bitonlyandentirerectinboundary
def horizontalbrightnessgradto24bitregion(bmp: array, x1: int, y1: int, x2: int, y2: int, lumrange: list[int, int]):
    r = _xchrcnt(bmp)
    c = _getBMoffhdfunc(bmp)
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    xlim = x2 + 1
    f = applybrightnessadjtoBGRbuf
    l = lumrange[0]
    dl = delta(lumrange) / max(x2 - x1, 1)
    for x in range(x1, xlim):
        s = c(bmp, x, y2)
        e = c(bmp, x, y1)
        bmp[s:e - 2:r], bmp[s + 1:e - 1:r], bmp[s + 2:e:r] = (f(bmp[s:e - 2:r], l), f(bmp[s + 1:e - 1:r], l), f(bmp[s + 2:e:r], l))
        l += dl


@func24bitonlyandentirecircleinboundary
def magnifyNtimescircregion(bmp: array, x: int, y: int, r: int, n: int):
    nx = x * n
    ny = y * n
    b = resizeNtimesbigger(bmp, n)
    c = _BMoffsethd
    for v0, v1 in itercirclepartlineedge(r):
        x1, x2 = mirror(x, v0)
        y1, y2 = mirror(y, v1)
        x3, x4 = mirror(nx, v0)
        y3, y4 = mirror(ny, v1)
        bmp[c(bmp, x1, y1):c(bmp, x2, y1)], bmp[c(bmp, x1, y2):c(bmp, x2, y2)] = (b[c(b, x3, y3):c(b, x4, y3)], b[c(b, x3, y4):c(b, x4, y4)])


@func24bitonlyandentirecircleinboundary
def pixelizenxncircregion(bmp: array, x: int, y: int, r: int, n: int):
    b = pixelizenxn(bmp, n)
    c = _BMoffsethd
    for v0, v1 in itercirclepartlineedge(r):
        x1, x2 = mirror(x, v0)
        y1, y2 = mirror(y, v1)
        bmp[c(bmp, x1, y1):c(bmp, x2, y1)], bmp[c(bmp, x1, y2):c(bmp, x2, y2)] = (b[c(b, x1, y1):c(b, x2, y1)], b[c(b, x1, y2):c(b, x2, y2)])


@func24bitonly
def resizeNtimessmaller(bmp: array, n: int) -> array:
    bits = bmp[bmpcolorbits]
    nbmp = -1
    mx, my = getmaxxy(bmp)
    nx = mx // n
    ny = my // n
    nbmp = newBMP(nx, ny, bits)
    mx -= 1
    my -= 1
    ny -= 1
    offset = _24bmof(nbmp, 0, ny)
    r = _xchrcnt(nbmp)
    i = 1
    bufl = []
    y = 0
    for buf in itercopyrect(bmp, 0, 0, mx, my):
        j = i % n
        bufl += [buf]
        if j == 0:
            BMPbitBLTput(nbmp, offset, resizesmaller24bitbuf(bufl))
            offset += r
            bufl = []
            y += 1
            if y > ny:
                break
        i += 1
    return nbmp


def pixelizenxn(bmp: array, n: int) -> array:
    return resizeNtimesbigger(resizeNtimessmaller(bmp, n), n)


def adjustcolordicttopal(bmp: array, colordict: dict):
    if _getclrbits(bmp) < 24:
        for color in colordict:
            colordict[color] = matchRGBtopal(int2RGBarr(colordict[color]), getallRGBpal(bmp))


def gammaadjto24bitregion(bmp: array, x1: int, y1: int, x2: int, y2: int, gamma: float):
    _usebyref24btfn2reg(bmp, x1, y1, x2, y2, applygammaBGRbuf, gamma)


def gammaadjto24bitimage(bmp: array, gamma: float):
    gammaadjto24bitregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1, gamma)


@entirerectinboundary
def _cmpimglines(bmp: array, x1: int, y1: int, x2: int, y2: int, func: Callable):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    offset = _BMoffset(bmp, x1, y2)
    r = _xchrcnt(bmp)
    oldbuf = []
    for buf in itercopyrect(bmp, x1, y1, x2, y2):
        if oldbuf != []:
            BMPbitBLTput(bmp, offset, array('B', func(buf, oldbuf)))
            offset += r
        oldbuf = buf
    BMPbitBLTput(bmp, offset, array('B', func(buf, oldbuf)))


def outlineregion(bmp: array, x1: int, y1: int, x2: int, y2: int):
    _cmpimglines(bmp, x1, y1, x2, y2, xorvect)


def outline(bmp: array):
    outlineregion(bmp, 0, 0, getmaxx(bmp) - 1, getmaxy(bmp) - 1)


def plotattractorcomplex(v: list[complex], x: int, y: int, bits: int):
    h = histogram2Dcomplex(v, x, y)
    fh = ravel2D(h)
    minval = min(fh)
    bmp = newBMP(x, y, bits)
    f = (getmaxcolors(bmp) - 1) / (max(fh) - minval)
    for q in range(y):
        for p in range(x):
            plotxybit(bmp, p, q, int((h[q][p] - minval) * f))
    return bmp


def plotattractor(v: list[list[float, float]], x: int, y: int, bits: int):
    h = histogram2D(v, x, y)
    fh = ravel2D(h)
    minval = min(fh)
    bmp = newBMP(x, y, bits)
    f = (getmaxcolors(bmp) - 1) / (max(fh) - minval)
    for q in range(y):
        for p in range(x):
            plotxybit(bmp, p, q, int((h[q][p] - minval) * f))
    return bmp


def ikedaattractor(x: int, y: int, bits: int, a: float, b: float, k: float, p: float, n: int):
    return plotattractorcomplex(ikedaattractorlist(a, b, k, p, n), x, y, bits)


def nattractor(x: int, y: int, bits: int, a: float, b: float, c: float, d: float, n: int):
    return plotattractor(nattractorlist(a, b, c, d, n), x, y, bits)


def peterdejongattractor(x: int, y: int, bits: int, a: float, b: float, c: float, d: float, n: int):
    return plotattractor(peterdejongattractorlist(a, b, c, d, n), x, y, bits)


def duffingattractor(x: int, y: int, bits: int, a: float, b: float, w: float, dt: float, n: int):
    return plotattractor(duffingattractorlist(0, 0, 0, dt, a, b, w, n), x, y, bits)


def hopalongattractor(x: int, y: int, bits: int, a: float, b: float, c: float, n: int):
    return plotattractor(hopalongattractorlist(a, b, c, n), x, y, bits)


def symmetriciconattractor(x: int, y: int, bits: int, ox: float, oy: float, a: float, b: float, g: float, o: float, l: float, d: int, n: int):
    return plotattractorcomplex(symmetriciconattractorlist(ox, oy, a, b, g, o, l, d, n), x, y, bits)


def cliffordattractor(x: int, y: int, bits: int, a: float, b: float, c: float, d: float, n: int):
    return plotattractor(cliffordattractorlist(a, b, c, d, n), x, y, bits)


def fractaldreamattractor(x: int, y: int, bits: int, a: float, b: float, c: float, d: float, n: int):
    return plotattractor(fractaldreamattractorlist(a, b, c, d, n), x, y, bits)


def gumowskimiraattractor(x: int, y: int, bits: int, ox: float, oy: float, a: float, b: float, n: int):
    return plotattractor(gumowskimiraattractorlist(ox, oy, a, b, n), x, y, bits)


@functimer
def saveikedaattractor2file(file: str, x: int, y: int, bits: int, a: float, b: float, k: float, p: float, n: int):
    saveBMP(file, ikedaattractor(x, y, bits, a, b, k, p, n))


@functimer
def savegumowskimiraattractor2file(file: str, x: int, y: int, bits: int, ox: float, oy: float, a: float, b: float, n: int):
    saveBMP(file, gumowskimiraattractor(x, y, bits, ox, oy, a, b, n))


@functimer
def savenattractor2file(file: str, x: int, y: int, bits: int, a: float, b: float, c: float, d: float, n: int):
    saveBMP(file, nattractor(x, y, bits, a, b, c, d, n))


@functimer
def savepeterdejongattractor2file(file: str, x: int, y: int, bits: int, a: float, b: float, c: float, d: float, n: int):
    saveBMP(file, peterdejongattractor(x, y, bits, a, b, c, d, n))


@functimer
def saveduffingattractor2file(file: str, x: int, y: int, bits: int, a: float, b: float, w: float, dt: float, n: int):
    saveBMP(file, duffingattractor(x, y, bits, a, b, w, dt, n))


@functimer
def savehopalongattractor2file(file: str, x: int, y: int, bits: int, a: float, b: float, c: float, n: int):
    saveBMP(file, hopalongattractor(x, y, bits, a, b, c, n))


@functimer
def savesymmetriciconattractor2file(file: str, x: int, y: int, bits: int, ox: float, oy: float, a: float, b: float, g: float, o: float, l: float, d: int, n: int):
    saveBMP(file, symmetriciconattractor(x, y, bits, ox, oy, a, b, g, o, l, d, n))


@functimer
def savecliffordattractor2file(file: str, x: int, y: int, bits: int, a: float, b: float, c: float, d: float, n: int):
    saveBMP(file, cliffordattractor(x, y, bits, a, b, c, d, n))


@functimer
def savefractaldreamattractor2file(file: str, x: int, y: int, bits: int, a: float, b: float, c: float, d: float, n: int):
    saveBMP(file, fractaldreamattractor(x, y, bits, a, b, c, d, n))


@intcircleparam
def sphere(bmp: array, x: int, y: int, r: int, rgbfactors: list[float, float, float], fn: Callable=lerp):
    cp = len(rgbfactors)
    if cp == 3:
        gradcircle(bmp, x, y, r, [255, 0], rgbfactors, fn)
    if cp == 2:
        graddichromiccircle(bmp, x, y, r, rgbfactors[0], rgbfactors[1], fn)


@intcircleparam
def thickencirclearea(bmp: array, x: int, y: int, r: int, rgbfactors: list[float, float, float]):
    gradthickcircle(bmp, x, y, r, 8, [255, 0], rgbfactors)


@entirerectinboundary
def fern(bmp: array, x1: int, y1: int, x2: int, y2: int, color: int):
    y = abs(y2 - y1) // 10
    IFS(bmp, getIFSparams()['fern'], x1, y1, x2, y2, y, y, abs(x2 - x1) // 2, 0, color, 100000)


@checklink
def _usebyreffnwithpar2regnsv(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, func: Callable, *param):
    bmp = loadBMP(ExistingBMPfile)
    func(bmp, x1, y1, x2, y2, *param)
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savedareafunc'] % (func.__name__, x1, y1, x2, y2, ExistingBMPfile, NewBMPfile))


@checklink
def _use24btbyrefclrfn2regnsv(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, func: Callable, funcparam):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        print(sysmsg['not24bit'])
    else:
        func(bmp, x1, y1, x2, y2, funcparam)
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savedareafunc'] % (func.__name__, x1, y1, x2, y2, ExistingBMPfile, NewBMPfile))


@checklink
def _usebyref24btfn2regnsv(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, func: Callable):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        print(sysmsg['not24bit'])
    else:
        func(bmp, x1, y1, x2, y2)
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savedareafunc'] % (func.__name__, x1, y1, x2, y2, ExistingBMPfile, NewBMPfile))


@checklink
def _usebyreffn2regnsv(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, func: Callable):
    bmp = loadBMP(ExistingBMPfile)
    func(bmp, x1, y1, x2, y2)
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savedareafunc'] % (func.__name__, x1, y1, x2, y2, ExistingBMPfile, NewBMPfile))


@checklink
def _usefn2regsv(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, func: Callable):
    bmp = loadBMP(ExistingBMPfile)
    bmp = func(bmp, x1, y1, x2, y2)
    if bmp != None:
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savedareafunc'] % (func.__name__, x1, y1, x2, y2, ExistingBMPfile, NewBMPfile))


@checklink
def _usebyreffnsv(ExistingBMPfile: str, NewBMPfile: str, func: Callable):
    bmp = loadBMP(ExistingBMPfile)
    func(bmp)
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savefunc'] % (func.__name__, ExistingBMPfile, NewBMPfile))


@checklink
def _usebyreffnwithparnsv(ExistingBMPfile: str, NewBMPfile: str, func: Callable, funcparam: any):
    bmp = loadBMP(ExistingBMPfile)
    func(bmp, funcparam)
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savesingleparamfunc'] % (func.__name__, str(funcparam), ExistingBMPfile, NewBMPfile))


@checklink
def _usefnsv(ExistingBMPfile: str, NewBMPfile: str, func: Callable):
    bmp = loadBMP(ExistingBMPfile)
    saveBMP(NewBMPfile, func(bmp))
    print(sysmsg['savefunc'] % (func.__name__, ExistingBMPfile, NewBMPfile))


@checklink
def _usefndirsv(ExistingBMPfile: str, NewDir: str, func: Callable, overwritedir: bool=False):
    obmp = loadBMP(ExistingBMPfile)
    cwd = getcwd()
    try:
        mkdir(NewDir)
    except FileExistsError:
        if not overwritedir:
            raise FileExistsError(sysmsg['direxist'])
    for i, bmp in enumerate(func(obmp)):
        NewBMPfile = f'{cwd}/{NewDir}/{i}.bmp'
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savefunc'] % (func.__name__, ExistingBMPfile, NewBMPfile))


@checklink
def _use24btfnwithparnsv(ExistingBMPfile: str, NewBMPfile: str, func: Callable, funcparam):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        print(sysmsg['not24bit'])
    else:
        saveBMP(NewBMPfile, func(bmp, funcparam))
        print(sysmsg['savesingleparamfunc'] % (func.__name__, str(funcparam), ExistingBMPfile, NewBMPfile))


@checklink
def _usefn2circreg(ExistingBMPfile: str, NewBMPfile: str, func: Callable, x: int, y: int, r: int):
    bmp = loadBMP(ExistingBMPfile)
    func(bmp, x, y, r)
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savecircfunc'] % (func.__name__, x, y, r, ExistingBMPfile, NewBMPfile))


@checklink
def _usefnwithpar2circreg(ExistingBMPfile: str, NewBMPfile: str, func: Callable, x: int, y: int, r: int, funcparam):
    bmp = loadBMP(ExistingBMPfile)
    func(bmp, x, y, r, funcparam)
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savecircfuncwithparam'] % (func.__name__, x, y, r, funcparam, ExistingBMPfile, NewBMPfile))


@checklink
def _use24btclrfntocircregion(ExistingBMPfile: str, NewBMPfile: str, func: Callable, x: int, y: int, r: int):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        print(sysmsg['not24bit'])
    else:
        func(bmp, x, y, r)
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savecircfunc'] % (func.__name__, x, y, r, ExistingBMPfile, NewBMPfile))


@checklink
def _use24btclrfnwithpar2circreg(ExistingBMPfile: str, NewBMPfile: str, func: Callable, x: int, y: int, r: int, *funcparam):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        print(sysmsg['not24bit'])
    else:
        func(bmp, x, y, r, *funcparam)
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savecircfuncwithparam'] % (func.__name__, x, y, r, *funcparam, ExistingBMPfile, NewBMPfile))


@checklink
def _use24btclrfnwithmultpar2circreg(ExistingBMPfile: str, NewBMPfile: str, func: Callable, x: int, y: int, r: int, funcparam, *otherparam):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        print(sysmsg['not24bit'])
    else:
        func(bmp, x, y, r, funcparam, *otherparam)
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savecircfuncwithparam'] % (func.__name__, x, y, r, funcparam, ExistingBMPfile, NewBMPfile))


@checklink
def _useclradjfn(ExistingBMPfile: str, NewBMPfile: str, func: Callable, funcparam):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        setbmppal(bmp, [func(c, funcparam) for c in getallRGBpal(bmp)])
    elif func.__name__ == 'colorfilter':
        colorfilterto24bitimage(bmp, funcparam)
    elif func.__name__ == 'brightnessadjust':
        brightnesseadjto24bitimage(bmp, funcparam)
    elif func.__name__ == 'gammacorrect':
        gammaadjto24bitimage(bmp, funcparam)
    elif func.__name__ == 'thresholdadjust':
        thresholdadjto24bitimage(bmp, funcparam)
    else:
        for v in iterimageRGB(bmp, sysmsg['coloradj'], '*', sysmsg['done']):
            plotRGBxybitvec(bmp, v[0], func(v[1], funcparam))
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savesingleparamfunc'] % (func.__name__, str(funcparam), ExistingBMPfile, NewBMPfile))


@checklink
def _use24btclrfn(ExistingBMPfile: str, NewBMPfile: str, func: Callable, funcparam):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        print(sysmsg['not24bit'])
    else:
        func(bmp, funcparam)
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savesingleparamfunc'] % (func.__name__, str(funcparam), ExistingBMPfile, NewBMPfile))


@checklink
def _usenoparclradjfn(ExistingBMPfile: str, NewBMPfile: str, func: Callable):
    bmp = loadBMP(ExistingBMPfile)
    if bmp[bmpcolorbits] != 24:
        setbmppal(bmp, [func(c) for c in getallRGBpal(bmp)])
    elif func.__name__ == 'monochrome':
        monofilterto24bitimage(bmp)
    else:
        for v in iterimageRGB(bmp, sysmsg['coloradj'], '*', sysmsg['done']):
            plotRGBxybitvec(bmp, v[0], func(v[1]))
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savenoparamfunc'] % (func.__name__, ExistingBMPfile, NewBMPfile))


@checklink
def cropBMPandsave(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usefn2regsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, crop)


@checklink
def cropBMPandsaveusingrectbnd(ExistingBMPfile: str, NewBMPfile: str, rectbnd: list):
    _usefn2regsv(ExistingBMPfile, NewBMPfile, rectbnd[0][0], rectbnd[0][1], rectbnd[1][0] + 1, rectbnd[1][1] + 1, crop)


@checklinks
def imagecomp(inputfile1: str, inputfile2: str, diff_file: str, func: Callable):
    bmp1 = loadBMP(inputfile1)
    bmp2 = loadBMP(inputfile2)
    s1 = getmaxxyandbits(bmp1)
    s2 = getmaxxyandbits(bmp2)
    if s1 != s2:
        print(sysmsg['cantcomparefiles'] % (s1, s2))
    else:
        bits = s1[1]
        nbmp = CopyBMPxydim2newBMP(bmp1, bits)
        if bits < 24:
            pal1 = getallRGBpal(bmp1)
            pal2 = getallRGBpal(bmp2)
            if pal1 != pal2:
                print(sysmsg['diffpal'])
            copyRGBpal(bmp1, nbmp)
        setBMPimgbytes(nbmp, array('B', func(getBMPimgbytes(bmp1), getBMPimgbytes(bmp2))))
        saveBMP(diff_file, nbmp)
        print(sysmsg['savdifffile'] % diff_file)


@checklink
@functimer
def reduce24bitimagebits(Existing24BMPfile: str, NewBMPfile: str, newbits: int, similaritythreshold: float, usemonopal: bool, RGBfactors: list[float, float, float]=None):
    sbmp = loadBMP(Existing24BMPfile)
    if sbmp[bmpcolorbits] != 24:
        print(sysmsg['not24bit'])
    else:
        bmp = CopyBMPxydim2newBMP(sbmp, newbits)
        if newbits > 1:
            if usemonopal:
                newpal = setBMP2monochrome(bmp, RGBfactors)
            else:
                newpal = setnewpalfromsourcebmp(sbmp, bmp, similaritythreshold)
        for v in iterimageRGB(sbmp, sysmsg['colorquant'], '*', sysmsg['done']):
            if newbits == 1:
                c = probplotRGBto1bit(v[1], 2)
            else:
                c = matchRGBtopal(v[1], newpal)
            intplotvecxypoint(bmp, v[0], c)
        saveBMP(NewBMPfile, bmp)
        print(sysmsg['savemod'] % (Existing24BMPfile, NewBMPfile))


@checklink
@functimer
def imgregionbyRGB2file(ExistingBMPfile: str, NewBMPfile: str, edgeradius: int, edgecolor: int, rgb: list[int, int, int], similaritythreshold: float, showedgeonly: bool):
    bmp = loadBMP(ExistingBMPfile)
    edge = getimageregionbyRGB(bmp, rgb, similaritythreshold)
    if showedgeonly:
        bmp = copyBMPhdr(bmp)
    plotxypointlist(bmp, edge, edgeradius, edgecolor)
    saveBMP(NewBMPfile, bmp)
    print(sysmsg['savemod'] % (ExistingBMPfile, NewBMPfile))


@functimer
def invertbits2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, invertimagebits)


@functimer
def flipvertical2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, flipvertical)


@functimer
def mirrortop2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, mirrortop)


@functimer
def mirrortopleft2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, mirrortopleft)


@functimer
def mirrortopright2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, mirrortopright)


@functimer
def mirrorbottomleft2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, mirrorbottomleft)


@functimer
def mirrorbottomright2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, mirrorbottomright)


@functimer
def mirrorbottom2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, mirrorbottom)


@functimer
def mirrorleft2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, mirrorleft)


@functimer
def mirrorright2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, mirrorright)


@functimer
def fliphorizontal2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, fliphorizontal)


@functimer
def flipXY2file(ExistingBMPfile: str, NewBMPfile: str):
    _usefnsv(ExistingBMPfile, NewBMPfile, flipXY)


@functimer
def palshift2file(ExistingBMPfile: str, NewBMPfile: str, shift: int=1):
    _usebyreffnwithparnsv(ExistingBMPfile, NewBMPfile, palshift, shift)


@functimer
def flipverticalregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, flipverticalregion)


@functimer
def fliphorizontalregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, fliphorizontalregion)


@functimer
def mirrorleftinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, mirrorleftinregion)


@functimer
def mirrorrightinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, mirrorrightinregion)


@functimer
def mirrortopinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, mirrortopinregion)


@functimer
def mirrorbottominregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, mirrorbottominregion)


@functimer
def mirrortopleftinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, mirrortopleftinregion)


@functimer
def mirrortoprightinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, mirrortoprightinregion)


@functimer
def mirrorbottomleftinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, mirrorbottomleftinregion)


@functimer
def mirrorbottomrightinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, mirrorbottomrightinregion)


@functimer
def invertregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, invertregion)


@checklink
@functimer
def autocropimg2file(ExistingBMPfile: str, NewBMPfile: str, similaritythreshold: float):
    bmp = loadBMP(ExistingBMPfile)
    cropBMPandsaveusingrectbnd(ExistingBMPfile, NewBMPfile, rectboundarycoords(getimagedgevert(bmp, similaritythreshold)))


@functimer
def adjustbrightness2file(ExistingBMPfile: str, NewBMPfile: str, percentadj: float):
    _useclradjfn(ExistingBMPfile, NewBMPfile, brightnessadjust, percentadj)


@functimer
def thresholdadjust2file(ExistingBMPfile: str, NewBMPfile: str, lumrange: list[int, int]):
    _useclradjfn(ExistingBMPfile, NewBMPfile, thresholdadjust, lumrange)


@functimer
def adjustbrightnessinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, percentadj: float):
    _use24btbyrefclrfn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, brightnesseadjto24bitregion, percentadj)


@functimer
def adjustthresholdinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, lumrange: list):
    _use24btbyrefclrfn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, thresholdadjto24bitregion, lumrange)


@functimer
def colorfilter2file(ExistingBMPfile: str, NewBMPfile: str, rgbfactors: list[float, float, float]):
    _useclradjfn(ExistingBMPfile, NewBMPfile, colorfilter, rgbfactors)


@functimer
def monochrome2file(ExistingBMPfile: str, NewBMPfile: str):
    _usenoparclradjfn(ExistingBMPfile, NewBMPfile, monochrome)


@functimer
def colorfilterinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, rgbfactors: list[float, float, float]):
    _use24btbyrefclrfn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, colorfilterto24bitregion, rgbfactors)


@functimer
def monofilterinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyref24btfn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, monofilterto24bitregion)


@functimer
def pixelizenxntofile(ExistingBMPfile: str, NewBMPfile: str, n: int):
    _use24btfnwithparnsv(ExistingBMPfile, NewBMPfile, pixelizenxn, n)


@functimer
def resizeNtimessmaller2file(ExistingBMPfile: str, NewBMPfile: str, n: int):
    _use24btfnwithparnsv(ExistingBMPfile, NewBMPfile, resizeNtimessmaller, n)


@functimer
def resizeNtimesbigger2file(ExistingBMPfile: str, NewBMPfile: str, n: int):
    _use24btfnwithparnsv(ExistingBMPfile, NewBMPfile, resizeNtimesbigger, n)


@functimer
def upgradeto24bitimage2file(ExistingBMPfile: str, NewBMPfile: str):
    _usefnsv(ExistingBMPfile, NewBMPfile, upgradeto24bitimage)


@functimer
def gammaadj2file(ExistingBMPfile: str, NewBMPfile: str, gamma: float):
    _useclradjfn(ExistingBMPfile, NewBMPfile, gammacorrect, gamma)


@functimer
def gammaadjtoregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, gamma: float):
    _use24btbyrefclrfn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, gammaadjto24bitregion, gamma)


@functimer
def eraseeverynthhorilineinregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, n: int):
    _usebyreffnwithpar2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, eraseeverynthhorilineinregion, n)


@functimer
def rectangle2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, color: int):
    _usebyreffnwithpar2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, rectangle, color)


@functimer
def filledrect2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, color: int):
    _usebyreffnwithpar2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, filledrect, color)


@functimer
def filledgradrect2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, lumrange: list[int, int], rgbfactors: list[float, float, float], direction: int, fn: Callable=lerp):
    _usebyreffnwithpar2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, filledgradrect, lumrange, rgbfactors, direction, fn)


@functimer
def filleddichromaticgradrect2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, c1: int, c2: int, direction: int, fn: Callable=lerp):
    _usebyreffnwithpar2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, filleddichromaticgradrect, c1, c2, direction, fn)


@functimer
def fern2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, color: int):
    _usebyreffnwithpar2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, fern, color)


@functimer
def eraseeverynthhoriline2file(ExistingBMPfile: str, NewBMPfile: str, n: int):
    _usebyreffnwithparnsv(ExistingBMPfile, NewBMPfile, eraseeverynthhorizontalline, n)


@functimer
def outlineregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int):
    _usebyreffn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, outlineregion)


@functimer
def outline2file(ExistingBMPfile: str, NewBMPfile: str):
    _usebyreffnsv(ExistingBMPfile, NewBMPfile, outline)


@functimer
def imagediff(inputfile1: str, inputfile2: str, diff_file: str):
    imagecomp(inputfile1, inputfile2, diff_file, xorvect)


@functimer
def showsimilarparts(inputfile1: str, inputfile2: str, diff_file: str):
    imagecomp(inputfile1, inputfile2, diff_file, andvect)


@functimer
def monochromecircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _use24btclrfntocircregion(ExistingBMPfile, NewBMPfile, monocircle, x, y, r)


@functimer
def invertbitsincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, invertbitsincircregion, x, y, r)


@functimer
def colorfiltercircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, rgbfactors: list[float, float, float]):
    _use24btclrfnwithpar2circreg(ExistingBMPfile, NewBMPfile, colorfiltercircregion, x, y, r, rgbfactors)


@functimer
def thresholdadjcircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, lumrange: list[int, int]):
    _use24btclrfnwithpar2circreg(ExistingBMPfile, NewBMPfile, thresholdadjcircregion, x, y, r, lumrange)


@functimer
def gammacorrectcircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, gamma: float):
    _use24btclrfnwithpar2circreg(ExistingBMPfile, NewBMPfile, gammacorrectcircregion, x, y, r, gamma)


@functimer
def sphere2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, rgbfactors: list[float, float, float], fn: Callable=lerp):
    _use24btclrfnwithmultpar2circreg(ExistingBMPfile, NewBMPfile, sphere, x, y, r, rgbfactors, fn)


@functimer
def filledcircle2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, color: int):
    _usefnwithpar2circreg(ExistingBMPfile, NewBMPfile, filledcircle, x, y, r, color)


@functimer
def circle2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, color: int):
    _usefnwithpar2circreg(ExistingBMPfile, NewBMPfile, circle, x, y, r, color)


@functimer
def thickencirclearea2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, rgbfactors: list[float, float, float]):
    _use24btclrfnwithpar2circreg(ExistingBMPfile, NewBMPfile, thickencirclearea, x, y, r, rgbfactors)


@functimer
def brightnessadjcircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, percentadj: float):
    _use24btclrfnwithpar2circreg(ExistingBMPfile, NewBMPfile, brightnessadjcircregion, x, y, r, percentadj)


@functimer
def vertbrightnessgrad2circregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, lumrange: list[int, int]):
    _use24btclrfnwithpar2circreg(ExistingBMPfile, NewBMPfile, vertbrightnessgrad2circregion, x, y, r, lumrange)


@functimer
def horibrightnessgrad2circregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, lumrange: list[int, int]):
    _use24btclrfnwithpar2circreg(ExistingBMPfile, NewBMPfile, horibrightnessgrad2circregion, x, y, r, lumrange)


@functimer
def flipvertcircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, flipvertcircregion, x, y, r)


@functimer
def eraseeverynthhorilineinccircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, n: int):
    _usefnwithpar2circreg(ExistingBMPfile, NewBMPfile, eraseeverynthhorizontallineinccircregion, x, y, r, n)


@functimer
def mirrortopincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, mirrortopincircregion, x, y, r)


@functimer
def mirrorbottomincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, mirrorbottomincircregion, x, y, r)


@functimer
def mirrorleftincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, mirrorleftincircregion, x, y, r)


@functimer
def mirrorrightincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, mirrorrightincircregion, x, y, r)


@functimer
def mirrortopleftincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, mirrortopleftincircregion, x, y, r)


@functimer
def mirrorbottomleftincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, mirrorbottomleftincircregion, x, y, r)


@functimer
def mirrortoprightincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, mirrortoprightincircregion, x, y, r)


@functimer
def mirrorbottomrightincircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, mirrorbottomrightincircregion, x, y, r)


@functimer
def fliphoricircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, fliphoricircregion, x, y, r)


@functimer
def outlinecircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, outlinecircregion, x, y, r)


@functimer
def flipXYcircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int):
    _usefn2circreg(ExistingBMPfile, NewBMPfile, flipXYcircregion, x, y, r)


@functimer
def magnifyNtimescircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, intmagfactor: int):
    _usefnwithpar2circreg(ExistingBMPfile, NewBMPfile, magnifyNtimescircregion, x, y, r, intmagfactor)


@functimer
def pixelizenxncircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, intpixsize: int):
    _usefnwithpar2circreg(ExistingBMPfile, NewBMPfile, pixelizenxncircregion, x, y, r, intpixsize)


@functimer
def copycircregion2file(ExistingBMPfile: str, NewBMPfile: str, x: int, y: int, r: int, newxycenterpoint: list):
    _usefnwithpar2circreg(ExistingBMPfile, NewBMPfile, copycircregion, x, y, r, newxycenterpoint)


@functimer
def horizontalbrightnessgrad2file(ExistingBMPfile: str, NewBMPfile: str, lumrange: list[int, int]):
    _use24btclrfn(ExistingBMPfile, NewBMPfile, horizontalbrightnessgradto24bitimage, lumrange)


@functimer
def horizontalbrightnessgradregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, lumrange: list[int, int]):
    _use24btbyrefclrfn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, horizontalbrightnessgradto24bitregion, lumrange)


@functimer
def verticalbrightnessgrad2file(ExistingBMPfile: str, NewBMPfile: str, lumrange: list[int, int]):
    _use24btclrfn(ExistingBMPfile, NewBMPfile, verticalbrightnessgradto24bitimage, lumrange)


@functimer
def verticalbrightnessgradregion2file(ExistingBMPfile: str, NewBMPfile: str, x1: int, y1: int, x2: int, y2: int, lumrange: list[int, int]):
    _use24btbyrefclrfn2regnsv(ExistingBMPfile, NewBMPfile, x1, y1, x2, y2, verticalbrightnessgradto24bitregion, lumrange)


