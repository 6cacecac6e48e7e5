# Conversions.

@on(mod='colors', kinds={'i': 'int 0 16777215'})
def int2RGB(i):
    return (i // 65536, i // 256 % 256, i % 256)

@on(mod='colors', kinds={'i': 'int 0 16777215'})
def int2RGBlist(i):
    return [i // 65536, i // 256 % 256, i % 256]

@on(mod='colors', kinds={'i': 'int 0 16777215'})
def int2RGBarr(i):
    return array('B', [i // 65536, i // 256 % 256, i % 256])

@on(mod='colors', kinds={'i': 'int 0 16777215'})
def int2BGRarr(i):
    return array('B', [i % 256, i // 256 % 256, i // 65536])

@on(mod='colors', kinds={'r': 'int 0 255', 'g': 'int 0 255', 'b': 'int 0 255'})
def RGB2int(r, g, b):
    return r * 65536 + g * 256 + b

@on(mod='colors', kinds={'r': 'int 0 255', 'g': 'int 0 255', 'b': 'int 0 255'})
def RGB2BGRarr(r, g, b):
    return array('B', [b, g, r])

@on(mod='colors', kinds={'buf': 'bytes 3'}, each={'n': [1]})
@on(mod='colors', kinds={'buf': 'bytes 6'}, each={'n': [2]})
@on(mod='colors', kinds={'buf': 'bytes 9'}, each={'n': [3]})
@on(mod='colors', kinds={'buf': 'bytes 12'}, each={'n': [4]})
def RGB2BGRbuf(buf):
    for k in range(n):
        t = buf[3 * k]
        buf[3 * k] = buf[3 * k + 2]
        buf[3 * k + 2] = t

@on(mod='colors', kinds={'bbuf': 'bytes 1', 'gbuf': 'bytes 1', 'rbuf': 'bytes 1'}, each={'n': [1]})
@on(mod='colors', kinds={'bbuf': 'bytes 3', 'gbuf': 'bytes 3', 'rbuf': 'bytes 3'}, each={'n': [3]})
@on(mod='colors', kinds={'bbuf': 'bytes 4', 'gbuf': 'bytes 4', 'rbuf': 'bytes 4'}, each={'n': [4]})
def makeBGRbuf(bbuf, gbuf, rbuf):
    out = []
    for k in range(n):
        out += [bbuf[k], gbuf[k], rbuf[k]]
    return array('B', out)

@on(mod='colors', kinds={'rgblist': 'list 2 rgb'})
def RGB2BGRAlist(rgblist):
    return [[p[2], p[1], p[0], 0] for p in rgblist]

@on(mod='buffersplit', kinds={'buf': 'bytes 2'}, each={'n': [1]})
@on(mod='buffersplit', kinds={'buf': 'bytes 6'}, each={'n': [3]})
@on(mod='buffersplit', kinds={'buf': 'bytes 8'}, each={'n': [4]})
def altsplitbuf(buf):
    return [array('B', [buf[2 * k] for k in range(n)]), array('B', [buf[2 * k + 1] for k in range(n)])]

@on(mod='buffersplit', kinds={'buf': 'bytes 3'}, each={'n': [1]})
@on(mod='buffersplit', kinds={'buf': 'bytes 6'}, each={'n': [2]})
@on(mod='buffersplit', kinds={'buf': 'bytes 9'}, each={'n': [3]})
@on(mod='buffersplit', kinds={'buf': 'bytes 12'}, each={'n': [4]})
@on(mod='buffersplit', kinds={'buf': 'bytes 15'}, each={'n': [5]})
def altsplitbuf3way(buf):
    return [array('B', [buf[3 * k + j] for k in range(n)]) for j in range(3)]

@on(mod='buffersplit', kinds={'buf': 'bytes 2', 'n': '= 2'}, each={'c': [1], 'w': [2]})
@on(mod='buffersplit', kinds={'buf': 'bytes 6', 'n': '= 2'}, each={'c': [3], 'w': [2]})
@on(mod='buffersplit', kinds={'buf': 'bytes 9', 'n': '= 3'}, each={'c': [3], 'w': [3]})
@on(mod='buffersplit', kinds={'buf': 'bytes 12', 'n': '= 4'}, each={'c': [3], 'w': [4]})
@on(mod='buffersplit', kinds={'buf': 'bytes 15', 'n': '= 5'}, each={'c': [3], 'w': [5]})
@on(mod='buffersplit', kinds={'buf': 'bytes 5', 'n': '= 1'}, each={'c': [5], 'w': [1]})
def altsplitbufnway(buf, n):
    return [array('B', [buf[w * k + j] for k in range(c)]) for j in range(w)]

@on(mod='bufferflip', kinds={'buf': 'bytes'})
def flipnibbleinbuf(buf):
    return array('B', [b // 16 + b % 16 * 16 for b in buf])

@on(mod='bufferflip', kinds={'buf': 'bytes'}, opaque=['rotatebits'])
def rotatebitsinbuf(buf):
    return array('B', [rotatebits(b) for b in buf])

@on(mod='mathlib', kinds={'bits': 'int 0 255'})
def rotatebits(bits):
    t = 0
    for k in range(8):
        t += bits // 2 ** k % 2 * 2 ** (7 - k)
    return t

@on(mod='bufferflip', kinds={'buf': 'bytes 3'}, each={'n': [1]})
@on(mod='bufferflip', kinds={'buf': 'bytes 6'}, each={'n': [2]})
@on(mod='bufferflip', kinds={'buf': 'bytes 9'}, each={'n': [3]})
def flip24bitbuf(buf):
    out = []
    for k in range(n):
        j = 3 * (n - 1 - k)
        out += [buf[j], buf[j + 1], buf[j + 2]]
    for k in range(3 * n):
        buf[k] = out[k]
    return array('B', out)

@on(mod='bufferflip', kinds={'buf': 'bytes 3', 'bits': '= 24'}, each={'n': [1]}, rule='row-flip')
@on(mod='bufferflip', kinds={'buf': 'bytes 9', 'bits': '= 24'}, each={'n': [3]}, rule='row-flip')
def flipbuf__24(buf, bits):
    out = []
    for k in range(n):
        j = 3 * (n - 1 - k)
        out += [buf[j], buf[j + 1], buf[j + 2]]
    for k in range(3 * n):
        buf[k] = out[k]
    return array('B', out)

@on(mod='bufferflip', kinds={'buf': 'bytes 5', 'bits': '= 8'}, ignore=['buf'])
def flipbuf__8(buf, bits):
    return array('B', [buf[4 - k] for k in range(5)])

@on(mod='bufferflip', kinds={'buf': 'bytes 5', 'bits': '= 4'}, ignore=['buf'])
def flipbuf__4(buf, bits):
    return array('B', [buf[4 - k] // 16 + buf[4 - k] % 16 * 16 for k in range(5)])

@on(mod='bufferflip', kinds={'buf': 'bytes 5', 'bits': '= 1'}, ignore=['buf'], opaque=['rotatebits'])
def flipbuf__1(buf, bits):
    return array('B', [rotatebits(buf[4 - k]) for k in range(5)])

@on(mod='bufresize', kinds={'buf': 'bytes'})
def unpack4bitbuf(buf):
    out = []
    for b in buf:
        out.append(b // 16)
        out.append(b % 16)
    return out

@on(mod='bufresize', kinds={'unpackedbuf': 'list 2 int 0 15'}, each={'n': [1]})
@on(mod='bufresize', kinds={'unpackedbuf': 'list 6 int 0 15'}, each={'n': [3]})
def pack4bitbuf(unpackedbuf):
    return [unpackedbuf[2 * k] * 16 + unpackedbuf[2 * k + 1] for k in range(n)]

@on(mod='bufresize', kinds={'blist': 'list 8 int 0 1'}, each={'n': [1]})
@on(mod='bufresize', kinds={'blist': 'list 16 int 0 1'}, each={'n': [2]})
def packbitlisttobuf(blist):
    out = []
    for k in range(n):
        t = 0
        for j in range(8):
            t += blist[8 * k + j] * 2 ** (7 - j)
        out.append(t)
    return out

@on(mod='mathlib', kinds={'byteval': 'int 0 255'})
def enumbits(byteval):
    for k in range(8):
        yield byteval // 2 ** (7 - k) % 2

@on(mod='bufresize', kinds={'buf': 'bytes 3', 'n': '= m'}, each={'m': [1, 2, 3]})
def unpack4bitbufresizeNtimesbigger(buf, n):
    out = []
    for b in buf:
        out += [b // 16] * m + [b % 16] * m
    return out

@on(mod='bufresize', kinds={'buf': 'bytes 3', 'n': '= m'}, each={'m': [1, 2, 3]})
def resize8bitbufNtimesbigger(buf, n):
    out = []
    for b in buf:
        for j in range(m):
            out.append(b)
    return array('B', out)

@on(mod='bufresize', kinds={'buf': 'bytes 4', 'n': '= m'}, each={'m': [1, 2, 3]})
def resize4bitbufNtimesbigger(buf, n):
    nib = []
    for b in buf:
        nib += [b // 16] * m + [b % 16] * m
    return array('B', [nib[2 * k] * 16 + nib[2 * k + 1] for k in range(4 * m)])

@on(mod='bufresize', kinds={'buf': 'bytes 6', 'n': '= m'}, each={'m': [1, 2, 3]})
@on(mod='bufresize', kinds={'buf': 'bytes 9', 'n': '= m'}, each={'m': [2]})
def resize24bitbufNtimesbigger(buf, n):
    out = []
    for k in range(len(buf) // 3):
        for j in range(m):
            out += [buf[3 * k], buf[3 * k + 1], buf[3 * k + 2]]
    return array('B', out)

@on(mod='bufresize', kinds={'buf': 'bytes 2', 'n': '= m'}, each={'m': [1, 2, 3]})
def resize1bitbufNtimesbigger(buf, n):
    bits = []
    for b in buf:
        for k in range(8):
            for j in range(m):
                bits.append(b // 2 ** (7 - k) % 2)
    out = []
    for k in range(2 * m):
        t = 0
        for j in range(8):
            t += bits[8 * k + j] * 2 ** (7 - j)
        out.append(t)
    return array('B', out)

@on(mod='inttools', kinds={'cnt': '= n', 'value': 'int 0'}, each={'n': [1, 2, 3, 4]})
def int2buf(cnt, value):
    return array('B', [value // 256 ** i % 256 for i in range(n)])

@on(mod='inttools', kinds={'buf': 'bytes 1'}, each={'n': [1]})
@on(mod='inttools', kinds={'buf': 'bytes 2'}, each={'n': [2]})
@on(mod='inttools', kinds={'buf': 'bytes 4'}, each={'n': [4]})
def buf2int(buf):
    t = 0
    for i in range(n):
        t += buf[i] * 256 ** i
    return t

@on(mod='inttools', kinds={'arr': 'bytes', 'offset': 'int 0', 'cnt': '= n', 'value': 'int 0'}, each={'n': [2, 3, 4, 8]})
def writeint(offset, cnt, arr, value):
    for i in range(n - 1):
        arr[offset + i] = value // 256 ** i % 256

@on(mod='inttools', kinds={'arr': 'bytes', 'offset': 'int 0', 'cnt': '= n'}, each={'n': [2, 3, 4, 8]})
def readint(offset, cnt, arr):
    t = 0
    for i in range(n - 1):
        t += arr[offset + i] * 256 ** i
    return t
