# Palette layout: entry c at 54 + 4c, blue green red reserved.

@on(bits=[1, 4, 8], kinds={'c': 'int 0 255', 'r': 'int 0 255', 'g': 'int 0 255', 'b': 'int 0 255'})
def setRGBpal(bmp, c, r, g, b):
    bmp[54 + 4 * c] = b
    bmp[55 + 4 * c] = g
    bmp[56 + 4 * c] = r

@on(bits=[1, 4, 8], kinds={'c': 'int 0 255'})
def getRGBpal(bmp, c):
    return [bmp[54 + 4 * c + 2], bmp[54 + 4 * c + 1], bmp[54 + 4 * c]]

@on(bits=[1, 4, 8])
def getallRGBpal(bmp):
    out = []
    for c in range(2 ** BITS):
        out.append([bmp[54 + 4 * c + 2], bmp[54 + 4 * c + 1], bmp[54 + 4 * c]])
    return out

@on(bits=[1, 4, 8], kinds={'pallist': 'list'})
def setbmppal(bmp, pallist):
    if len(pallist) == 2 ** BITS:
        for c in range(len(pallist)):
            bmp[54 + 4 * c] = pallist[c][2]
            bmp[55 + 4 * c] = pallist[c][1]
            bmp[56 + 4 * c] = pallist[c][0]

@on(bits=1, kinds={'pallist': 'list 2 rgb'})
def setbmppal__two(bmp, pallist):
    for c in range(2):
        bmp[54 + 4 * c] = pallist[c][2]
        bmp[55 + 4 * c] = pallist[c][1]
        bmp[56 + 4 * c] = pallist[c][0]

@on(bits=4, kinds={'pallist': 'list 16 rgb'})
def setbmppal__sixteen(bmp, pallist):
    for c in range(16):
        bmp[54 + 4 * c] = pallist[c][2]
        bmp[55 + 4 * c] = pallist[c][1]
        bmp[56 + 4 * c] = pallist[c][0]

@on(bits=4, kinds={'pallist': 'list 15 rgb'})
@on(bits=4, kinds={'pallist': 'list 17 rgb'})
@on(bits=1, kinds={'pallist': 'list 1 rgb'})
@on(bits=1, kinds={'pallist': 'list 3 rgb'})
def setbmppal__wrong_length(bmp, pallist):
    pass

@on(bits=1, kinds={'bgrpallist': 'list 2 list 3 int 0 255'})
@on(bits=4, kinds={'bgrpallist': 'list 16 list 3 int 0 255'})
def setbmppalwithBGRlist(bmp, bgrpallist):
    for c in range(2 ** BITS):
        bmp[54 + 4 * c] = bgrpallist[c][0]
        bmp[55 + 4 * c] = bgrpallist[c][1]
        bmp[56 + 4 * c] = bgrpallist[c][2]

@on(bits=1, kinds={'bgrpallist': 'list 3 list 3 int 0 255'})
@on(bits=4, kinds={'bgrpallist': 'list 15 list 3 int 0 255'})
@on(bits=8, kinds={'bgrpallist': 'list 16 list 3 int 0 255'})
def setbmppalwithBGRlist__wrong_length(bmp, bgrpallist):
    pass

@on(bits=1, kinds={'bgrapallist': 'list 2 list 4 int 0 255'})
@on(bits=4, kinds={'bgrapallist': 'list 16 list 4 int 0 255'})
def setbmppalwithBGRAlist(bmp, bgrapallist):
    for c in range(2 ** BITS):
        for k in range(4):
            bmp[54 + 4 * c + k] = bgrapallist[c][k]

@on(bits=1, kinds={'bgrapallist': 'list 3 list 4 int 0 255'})
@on(bits=4, kinds={'bgrapallist': 'list 15 list 4 int 0 255'})
@on(bits=8, kinds={'bgrapallist': 'list 16 list 4 int 0 255'})
def setbmppalwithBGRAlist__wrong_length(bmp, bgrapallist):
    pass

@on(kinds={'sourceBMP': 'bmp 1', 'destBMP': 'bmp 1'}, each={'n': [2]})
@on(kinds={'sourceBMP': 'bmp 4', 'destBMP': 'bmp 4'}, each={'n': [16]})
@on(kinds={'sourceBMP': 'bmp 8', 'destBMP': 'bmp 8'}, each={'n': [256]})
def copyRGBpal(sourceBMP, destBMP):
    destBMP[54:54 + 4 * n] = sourceBMP[54:54 + 4 * n]

@on(bits=4, kinds={'shift': '= k'}, each={'k': [0, 1, 3, 15, 16, 17, -1, -5]})
@on(bits=8, kinds={'shift': '= k'}, each={'k': [0, 1, 3, 255, 256, 257, -1, -5]})
def palshift__fixed(bmp, shift):
    n = 2 ** BITS
    s = abs(shift) % n
    a = bmp[54:54 + 4 * s]
    b = bmp[54 + 4 * s:54 + 4 * n]
    bmp[54:54 + 4 * n] = b + a

@on(bits=[4, 8])
def palshift(bmp, shift):
    n = 2 ** BITS
    s = abs(shift) % n
    a = bmp[54:54 + 4 * s]
    b = bmp[54 + 4 * s:54 + 4 * n]
    bmp[54:54 + 4 * n] = b + a

@on(bits=[1, 24])
def palshift__other_depths(bmp, shift):
    pass

@on(bits=[1, 4, 8, 24], opaque=['getallRGBpal'])
def isdefaultpal(bmp):
    return bmpstdpal[BITS] == getallRGBpal(bmp)

@on(bits=[4, 8], opaque=['palshift'])
def itercolorcycle(bmp):
    yield bmp
    for _ in range(2 ** BITS - 1):
        palshift(bmp, 1)
        yield bmp

@on(mod='colors', kinds={'bits': '= b_'}, each={'b_': [1, 4, 8]})
def getdefaultbitpal(bits):
    return bmpstdpal[b_]

@on(bits=[1, 4, 8], kinds={'RGBfactors': 'list 3 real'}, opaque=['monochromepal', 'setbmppal'])
def setBMP2monochrome(bmp, RGBfactors):
    p = monochromepal(BITS, RGBfactors)
    setbmppal(bmp, p)
    return p

@on(bits=[1, 4, 8], kinds={'RGBfactors': 'list 3 real'}, opaque=['monoinverseshiftableBGRApal', 'setbmppalwithBGRAlist'])
def setBMP2invshiftedmonochrome(bmp, RGBfactors, mult, shift):
    p = monoinverseshiftableBGRApal(BITS, RGBfactors, mult, shift)
    setbmppalwithBGRAlist(bmp, p)
    return p

@on(bits=[1, 4, 8], opaque=['dichromaticpal', 'setbmppalwithBGRAlist'])
def setBMP2dichromaticpal(bmp, c1, c2):
    p = [[b, g, r, 0] for r, g, b in dichromaticpal(c1, c2, 2 ** BITS, 3)]
    setbmppalwithBGRAlist(bmp, p)
    return p

@on(bits=[1, 4, 8], opaque=['getallRGBpal', 'brightnessadjust'])
def RGBpalbrightnessadjust(bmp, percentadj):
    return [brightnessadjust(c, percentadj) for c in getallRGBpal(bmp)]

@on(mod='colors', kinds={'bits': '= b_', 'rgbfactors': 'list 3 real'}, each={'b_': [1, 4, 8]})
def monochromepal(bits, rgbfactors):
    step = {1: 255, 4: 17, 8: 1}[bits]
    return [[round(rgbfactors[0] * (step * i)), round(rgbfactors[1] * (step * i)), round(rgbfactors[2] * (step * i))]
            for i in range(2 ** bits)]

@on(mod='colors', kinds={'bits': '= b_', 'rgbfactors': 'list 3 real'}, each={'b_': [1, 4, 8]})
def monoshiftablepal(bits, rgbfactors, mult, shift):
    step = {1: 255, 4: 17, 8: 1}[bits]
    out = []
    for i in range(2 ** bits):
        j = (step * i * mult + shift) % 256
        out.append([round(rgbfactors[0] * j), round(rgbfactors[1] * j), round(rgbfactors[2] * j)])
    return out

@on(mod='colors', kinds={'bits': '= b_', 'rgbfactors': 'list 3 real'}, each={'b_': [1, 4, 8]})
def monoinverseshiftablepal(bits, rgbfactors, mult, shift):
    step = {1: 255, 4: 17, 8: 1}[bits]
    out = []
    for i in range(2 ** bits):
        j = ((255 - step * i) * mult + shift) % 256
        out.append([round(rgbfactors[0] * j), round(rgbfactors[1] * j), round(rgbfactors[2] * j)])
    return out

@on(mod='colors', kinds={'bits': '= b_', 'rgbfactors': 'list 3 real'}, each={'b_': [1, 4, 8]})
def monoinverseshiftableBGRpal(bits, rgbfactors, mult, shift):
    step = {1: 255, 4: 17, 8: 1}[bits]
    out = []
    for i in range(2 ** bits):
        j = ((255 - step * i) * mult + shift) % 256
        out.append([round(rgbfactors[2] * j), round(rgbfactors[1] * j), round(rgbfactors[0] * j)])
    return out

@on(mod='colors', kinds={'bits': '= b_', 'rgbfactors': 'list 3 real'}, each={'b_': [1, 4, 8]})
def monoinverseshiftableBGRApal(bits, rgbfactors, mult, shift):
    step = {1: 255, 4: 17, 8: 1}[bits]
    out = []
    for i in range(2 ** bits):
        j = ((255 - step * i) * mult + shift) % 256
        out.append([round(rgbfactors[2] * j), round(rgbfactors[1] * j), round(rgbfactors[0] * j), 0])
    return out

@on(mod='colors', kinds={'rgblist': 'list 3 rgb'})
def RGB2BGRAlist(rgblist):
    return [[p[2], p[1], p[0], 0] for p in rgblist]

@on(mod='colors', kinds={'RGB': 'rgb', 'pal': 'list 2 rgb'}, opaque=['dist'])
@on(mod='colors', kinds={'RGB': 'rgb', 'pal': 'list 16 rgb'}, opaque=['dist'])
def matchRGBtopal(RGB, pal):
    if RGB in pal:
        return pal.index(RGB)
    c = 0
    d = 442
    i = 0
    for p in pal:
        if p != [0, 0, 0] and RGB != [0, 0, 0]:
            n = dist(RGB, p)
            if n < d:
                c = i
                d = n
        i += 1
    return c
