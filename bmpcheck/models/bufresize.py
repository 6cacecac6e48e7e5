def adjustbufsize(bufsize: int, bits: int) -> int:
    if bits == 1:
        bufsize >>= 3
    elif bits == 24:
        bufsize *= 3
    elif bits == 4:
        bufsize >>= 1
    return bufsize


def adjustxbufsize(bmp: array, x1: int, x2: int) -> int:
    bits = bmp[28]
    if bits < 8:
        n = 8 // bits
        return x2 // n - x1 // n + 1
    return adjustbufsize(x2 - x1 + 1, bmp[28])


def packbitlisttobuf(blist: list[int]) -> list[int]:
    retval = []
    j = len(blist) + 1
    i = 1
    b = 0
    while i < j:
        m = i % 8
        b += blist[i - 1] << (8 - m & 7)
        if m == 0 and i > 1:
            retval += [b]
            b = 0
        i += 1
    return retval


def resizebitpattenNtimesbigger(byteval: int, n: int):
    retval = []
    for bit in enumbits(byteval):
        retval += [bit] * n
    return retval


def resize1bitbufNtimesbigger(buf: array, n: int):
    retval = []
    for b in buf:
        retval += packbitlisttobuf(resizebitpattenNtimesbigger(b, n))
    return array('B', retval)


def unpack4bitbuf(buf: list[int]) -> list[int]:
    retval = []
    for b in buf:
        retval += [b >> 4, b & 15]
    return retval


def unpack4bitbufresizeNtimesbigger(buf: list[int], n: int) -> list[int]:
    retval = []
    for b in buf:
        retval += [b >> 4] * n
        retval += [b & 15] * n
    return retval


def pack4bitbuf(unpackedbuf: list[int]) -> list[int]:
    retval = []
    j = len(unpackedbuf) - 1
    i = 0
    while i < j:
        retval += [(unpackedbuf[i] << 4) + unpackedbuf[i + 1]]
        i += 2
    return retval


def resize4bitbufNtimesbigger(buf: array, n: int) -> array:
    return array('B', pack4bitbuf(unpack4bitbufresizeNtimesbigger(buf, n)))


def resize8bitbufNtimesbigger(buf: array, n: int) -> array:
    retval = []
    for b in buf:
        retval += [b] * n
    return array('B', retval)


def resizesmaller24bitbuf(buf: array) -> array:
    n = len(buf)
    f = 1 / n ** 2
    b = altsplitbuf3way(addvectinlist(buf))
    return makeBGRbuf(*[intscalarmulvect(addvectinlist(altsplitbufnway(i, n)), f) for i in b])


def resize24bitbufNtimesbigger(buf: array, n: int):
    buf = altsplitbuf3way(buf)
    return makeBGRbuf(*[resize8bitbufNtimesbigger(i, n) for i in buf])


def resizebufNtimesbigger(buf: array, n: int, bits: int) -> array:
    f = {24: resize24bitbufNtimesbigger, 8: resize8bitbufNtimesbigger, 4: resize4bitbufNtimesbigger, 1: resize1bitbufNtimesbigger}[bits]
    return f(buf, n)


