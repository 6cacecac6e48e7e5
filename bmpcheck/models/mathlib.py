def setmaxvec(vlist: list[Number], maxval: Number) -> list[Number]:
    return [setmax(v, maxval) for v in vlist]


def setminmaxvec(vlist: list[Number], minval: Number, maxval: Number) -> list[Number]:
    return [setminmax(v, minval, maxval) for v in vlist]


def intsetminmaxvec(vlist: list[Number], minval: int, maxval: int) -> list[int]:
    return [intsetminmax(v, minval, maxval) for v in vlist]


def range2baseanddelta(lst_range: list[int, int]):
    return (lst_range[0], delta(lst_range))


def roundvect(v: list[Number]) -> list[int]:
    return [round(n) for n in v]


def roundvectlist(vlist: list[list[Number]]) -> list[list[int]]:
    return [roundvect(v) for v in vlist]


def addvect(u: list[Number], v: list[Number]) -> list[Number]:
    return [i + j for i, j in zip(u, v)]


def trans(vlist: list[list[Number]], u: list[Number]) -> list[list[Number]]:
    return [addvect(v, u) for v in vlist]


def subvect(u: list[Number], v: list[Number]) -> list[Number]:
    return [i - j for i, j in zip(u, v)]


def mulvect(u: list[Number], v: list[Number]) -> list[Number]:
    return [i * j for i, j in zip(u, v)]


def divvect(u: list[Number], v: list[Number]) -> list[float]:
    return [i / j for i, j in zip(u, v)]


def scalarmulvect(v: list[Number], scalarval: Number) -> list[Number]:
    return [s * scalarval for s in v]


def scalardivvect(v: list[Number], scalarval: Number) -> list[Number]:
    return [s / scalarval for s in v]


def intscalarmulvect(vec: list[Number], scalarval: Number) -> list[int]:
    return [round(s * scalarval) for s in vec]


def mean(v: list[Number]) -> float:
    return sum(v) / len(v)


def meanlist(vlist: list[list[float]]) -> list[float]:
    return [mean(v) for v in vlist]


def pivotlist(vlist: list[list[any]]) -> list[list[any]]:
    j = len(vlist[0])
    'Pivot table with a list of list of anything\n\n    Args:\n        vlist: a list of lists\n\n    Returns:\n        list of lists\n    '
    return [[v[i] for v in vlist] for i in range(j)]


def variance(v: list[Number]) -> list[float]:
    ave = mean(v)
    return [n - ave for n in v]


def isinrange(value: Number, highlimit: Number, lowlimit: Number) -> bool:
    return value > lowlimit and value < highlimit


def setmax(val: Number, maxval: Number) -> Number:
    return maxval if val > maxval else val


def setmin(val: Number, minval: Number) -> Number:
    return minval if val < minval else val


def setminmax(val: Number, minval: Number, maxval: Number) -> Number:
    if val > maxval:
        val = maxval
    if val < minval:
        val = minval
    return val


def intsetminmax(val: Number, minval: int, maxval: int) -> int:
    val = round(val)
    val = min(val, maxval)
    val = max(val, minval)
    return val


def sign(val: Number) -> int:
    retval = 0
    if val > 0:
        return 1
    elif val == 0:
        return 0
    else:
        return -1


def LSMslope(XYdata: list) -> float:
    XY, N = (pivotlist(XYdata), len(XYdata))
    X = XY[0]
    Y = XY[1]
    EX = sum(X)
    EY = sum(Y)
    EXY = sum(mulvect(X, Y))
    EsqX = sum(mulvect(X, X))
    return (N * EXY - EX * EY) / (N * EsqX - EX ** 2)


def LSMYint(XYdata: list) -> float:
    XY = pivotlist(XYdata)
    meanX = mean(XY[0])
    meanY = mean(XY[1])
    return meanY - LSMslope(XYdata) * meanX


def PearsonsR(XYdata: list) -> float:
    XY = pivotlist(XYdata)
    N = len(XYdata)
    X = XY[0]
    Y = XY[1]
    EX = sum(X)
    EY = sum(Y)
    EXY = sum(mulvect(X, Y))
    EsqX = sum(mulvect(X, X))
    EsqY = sum(mulvect(Y, Y))
    return (N * EXY - EX * EY) / sqrt(abs(N * EsqX - EX ** 2) * abs(N * EsqY - EY ** 2))


def Rsquare(XYdata: list) -> float:
    return PearsonsR(XYdata) ** 2


def TTest(XYdata: list) -> float:
    r = PearsonsR(XYdata)
    return r * sqrt((len(XYdata) - 2) / (1 - r ** 2))


def StdDev(v: list[Number]) -> float:
    vr = variance(v)
    return sqrt(sum(mulvect(vr, vr)) / len(v))


def slope(u: list[float, float], v: list[float, float]) -> float:
    return (v[1] - u[1]) / (v[0] - u[0])


def coefvar(v: list[Number]) -> float:
    return StdDev(v) / mean(v)


def vectiszero(v: list[Number]) -> bool:
    return all((u == 0 for u in v))


def isorthogonal(u: list[Number], v: list[Number]) -> bool:
    return dotprod(u, v) == 0


def crossprod3d(u: list[float, float, float], v: list[float, float, float]) -> list[float, float, float]:
    x = y = z = 0
    if len(u) == 3 and len(v) == 3:
        x = u[1] * v[2] - u[2] * v[1]
        y = u[2] * v[0] - u[0] * v[2]
        z = u[0] * v[1] - u[1] * v[0]
    return [x, y, z]


def getnormvec(p1: list[float, float, float], p2: list[float, float, float], p3: list[float, float, float]) -> list:
    return crossprod3d(subvect(p2, p1), subvect(p3, p1))


def dotprod(u: list[Number], v: list[Number]) -> float:
    return sum(mulvect(u, v))


def vmag(v: list[float]) -> float:
    return sqrt(sum((i * i for i in v)))


def dist(u: list[float], v: list[float]) -> float:
    return vmag(subvect(u, v))


def distancetable(vertlist: list) -> list:
    dlist = []
    for v in vertlist:
        dlist.extend(([vertlist.index(v), vertlist.index(u), dist(u, v)] for u in vertlist if u != v))
    return dlist


def countdist(distlist: list) -> dict:
    d = {}
    for i in distlist:
        dist = i[2]
        if dist not in d:
            d.setdefault(dist, 1)
        else:
            d[dist] += 1
    return d


def det3D(a1: list[Number, Number, Number], a2: list[Number, Number, Number], a3: list[Number, Number, Number]) -> float:
    return a1[0] * a2[1] * a3[2] + a1[1] * a2[2] * a3[0] + a1[2] * a2[0] * a3[1] - a1[0] * a2[2] * a3[1] - a1[1] * a2[0] * a3[2] - a1[2] * a2[1] * a3[0]


def cosaffin(u: list[Number], v: list[Number]) -> float:
    return dotprod(u, v) / (vmag(u) * vmag(v))


def dircos(v: list[Number]) -> list[float]:
    mag = vmag(v)
    return [i / mag for i in v]


def diracos(dcos: list[float]) -> list[float]:
    return [acos(d) for d in dcos]


def dirdeg(raddir: list[float]) -> list[float]:
    return [degrees(d) for d in raddir]


def rect2sphericalcoord3D(v: list[Number, Number, Number]) -> list[float, float, float]:
    p = vmag(v)
    return [p, atan2(v[1], v[0]), acos(v[2] / p)]


def spherical2rectcoord3D(vspherecoord: list[float, float, float]) -> list[float, float, float]:
    p, theta, phi = vspherecoord
    sinphi = sin(phi)
    return [p * sinphi * cos(theta), p * sinphi * sin(theta), p * cos(phi)]


def rect2cylindricalcoord3D(v: list[Number, Number, Number]) -> list[float, float, float]:
    return [vmag(v[0:2]), atan2(v[1], v[0]), v[2]]


def cylindrical2rectcoord3D(vcylindcoord: list[float, float, float]) -> list[float, float, float]:
    r, theta, z = vcylindcoord
    return [r * cos(theta), r * sin(theta), z]


def polar2rectcoord2D(vpolarcoord: list[float, float]) -> list[float, float]:
    r, theta = vpolarcoord
    return [r * cos(theta), r * sin(theta)]


def rect2polarcoord2D(v: list[Number, Number]) -> list[float, float]:
    return [vmag(v), atan2(v[1], v[0])]


def polarcoordangle2D(v: list) -> float:
    a = acos(cosaffin(v, [0, -1]))
    if v[0] < 0:
        a = 2 * pi - a
    return a


def rect2polarcoord2Dwithcenter(vcen: list[Number, Number], vpnt: list[Number, Number]) -> list[float, float]:
    v = subvect(vpnt, vcen)
    return [vmag(v), polarcoordangle2D(v)]


def computerotvec(degrot: float) -> list[float, float]:
    a = radians(degrot)
    return (sin(a), cos(a))


def rotvec2D(v: list[Number, Number], rotvec: list[float, float]) -> list[float, float]:
    x, y = v
    a, b = rotvec
    return [x * b - y * a, x * a + y * b]


def mirrorx(p: list[Number, Number], x: Number) -> list[Number, Number]:
    a, y = p
    return ([a - x, y], [a + x, y])


def mirrory(p: list[Number, Number], y: Number) -> list[Number, Number]:
    x, b = p
    return ([x, b - y], [x, b + y])


def mirrorvec(vcen: list[Number], v: list[Number]) -> list[Number]:
    return [subvect(vcen, v), addvect(vcen, v)]


def mirror(pt: float, delta: float):
    return (pt - delta, pt + delta)


def randomvect(minrnd: int, maxrnd: int) -> list[int, int, int]:
    return [randint(minrnd, maxrnd), randint(minrnd, maxrnd), randint(minrnd, maxrnd)]


def addrndtovert(vertlist: list, minrnd: int, maxrnd: int) -> list:
    return [addvect(pt, randomvect(minrnd, maxrnd)) for pt in vertlist]


def adddimz(vlist2D: list[Number, Number], value: Number) -> list[Number, Number, Number]:
    return [[v[0], v[1], value] for v in vlist2D]


def anglebetween2Dlines(u: list[Number, Number], v: list[Number, Number]) -> float:
    return atan(slope(u, v)) if u[0] != v[0] else iif(u[0] < v[0], 1.5707963267948966, 4.71238898038469)


def rotatebits(bits: int) -> int:
    return sum(((bits & 1 << bit) >> bit << 7 - bit for bit in range(7, 0, -1)))


def mirror1stquad(x: Number, y: Number, v: list[Number, Number]) -> list[list[Number, Number], list[Number, Number], list[Number, Number], list[Number, Number]]:
    xmin, xmax = mirror(x, v[0])
    ymin, ymax = mirror(y, v[1])
    return [[xmin, ymax], [xmax, ymax], [xmin, ymin], [xmax, ymin]]


def xorvect(u: list[int], v: list[int]) -> list[int]:
    return [i ^ j for i, j in zip(u, v)]


def andvect(u: list[int], v: list[int]) -> list[int]:
    return [i & j for i, j in zip(u, v)]


def bitmaskvect(v: list[int], bitmask: int) -> list[int]:
    return [b & bitmask for b in v]


def orvect(u: list[int], v: list[int]) -> list[int]:
    return [i | j for i, j in zip(u, v)]


def addvectinlist(vlist: list[list[Number]]) -> Number:
    return reduce(addvect, vlist)


def addvectpairlist(vpair: list[list[Number], list[Number]]) -> list[Number]:
    return addvect(vpair[0], vpair[1])


def addvecttripletlist(vtriplet: list[list[Number], list[Number], list[Number]]) -> list[Number]:
    return addvect(addvect(vtriplet[0], vtriplet[1]), vtriplet[2])


def addvectlist(vlist1: list[list[Number]], vlist2: list[list[Number]]) -> list[list[Number]]:
    return [addvect(u, v) for u, v in zip(vlist1, vlist2)]


def swapxy(v: list) -> list:
    return [v[1], v[0]]


def centerpoint(x1: int, y1: int, x2: int, y2: int):
    return ((x2 - x1 >> 1) + x1, (y2 - y1 >> 1) + y1)


def enumbits(byteval: int):
    for bit in range(7, -1, -1):
        yield ((byteval & 1 << bit) >> bit)


def delta(v: list[Number, Number]):
    return v[1] - v[0]


def newtonmethod(x0: Number, f: Callable, fprime: Callable, maxiter: int=40, tol: float=1e-08) -> tuple:
    null = (None, None)
    x = x0
    for i in range(maxiter):
        fx = f(x)
        fpx = fprime(x)
        if fpx != 0:
            dx = fx / fpx
        else:
            return null
        if abs(dx) < tol:
            return (x, i)
        x -= dx
    return null


def tetration(x: Number, n: Number) -> Number:
    if n == 0:
        return 1
    return x ** tetration(x, n - 1)


def applyfft(fn: Callable, v: list[complex], tmp: list=[]):
    n = len(v)
    if n > 1:
        l = n >> 1
        ve = v[::2]
        vo = v[1::2]
        applyfft(fn, ve, v)
        applyfft(fn, vo, v)
        for m in range(l):
            w = fn(tau * m / n) * vo[m]
            vm = ve[m]
            v[m] = vm + w
            v[m + l] = vm - w


def fft(v: list[complex]):
    applyfft(fftfn, v)


def ifft(v: list[complex]):
    applyfft(ifftfn, v)


def normvec(v: list[Number]) -> list[float]:
    return scalardivvect(v, vmag(v))


def getcomplexdomainbounds(v: list[Complex]) -> list[float, float, float, float]:
    p = [z.real for z in v]
    q = [z.imag for z in v]
    return (min(p), max(p), min(q), max(q))


def getdomainbounds(v: list[list[float, float]]) -> list[float, float, float, float]:
    p = [z[0] for z in v]
    q = [z[1] for z in v]
    return (min(p), max(p), min(q), max(q))


def initmatrix(i: int, j: int, initval: any=0):
    return [[initval for i in range(i)] for j in range(j)]


def histogram2D(v: list[float, float], xbins: int, ybins: int) -> list[list[int]]:
    xmin, xmax, ymin, ymax = getdomainbounds(v)
    xbinsize = (xmax - xmin) / (xbins - 1)
    ybinsize = (ymax - ymin) / (ybins - 1)
    h = initmatrix(xbins, ybins)
    for z in v:
        h[int((z[1] - ymin) / ybinsize)][int((z[0] - xmin) / xbinsize)] += 1
    return h


def histogram2Dcomplex(v: list[Complex], pbins: int, qbins: int) -> list[list[int]]:
    pmin, pmax, qmin, qmax = getcomplexdomainbounds(v)
    pbinsize = (pmax - pmin) / (pbins - 1)
    qbinsize = (qmax - qmin) / (qbins - 1)
    h = initmatrix(pbins, qbins)
    for z in v:
        h[int((z.imag - qmin) / qbinsize)][int((z.real - pmin) / pbinsize)] += 1
    return h


def ravel2D(v: list[list[any]]) -> list[any]:
    return [i for sv in v for i in sv]


def lerp(a: float, b: float, f: float) -> float:
    return (1.0 - f) * a + f * b


def invlerp(a: float, b: float, v: float) -> float:
    d = b - a
    if d != 0:
        v = (v - a) / d
    else:
        v = 1
    return v


def clamp(x: float, a: float, b: float) -> float:
    if x < a:
        x = a
    if x > b:
        x = b
    return x


def smoothstep(a: float, b: float, v: float) -> float:
    d = b - a
    if d != 0:
        v = (v - a) / d
    else:
        v = 1
    return v * v * (3 - 2 * v)


def smootherstep(a: float, b: float, v: float) -> float:
    d = b - a
    if d != 0:
        v = (v - a) / d
    else:
        v = 1
    return v * v * v * (v * (v * 6 - 15) + 10)


def smootheststep(a: float, b: float, v: float) -> float:
    d = b - a
    if d != 0:
        v = (v - a) / d
    else:
        v = 1
    return v * v * v * v * (v * (v * (-20 * v + 70) - 84) + 35)


def invsmoothstep(x: float):
    return 0.5 - sin(asin(1.0 - 2.0 * x) / 3.0)


def smoothsteplerp(a: float, b: float, f: float) -> float:
    return lerp(a, b, smoothstep(a, b, lerp(a, b, f)))


def smoothersteplerp(a: float, b: float, f: float) -> float:
    return lerp(a, b, smootherstep(a, b, lerp(a, b, f)))


def smootheststeplerp(a: float, b: float, f: float) -> float:
    return lerp(a, b, smootheststep(a, b, lerp(a, b, f)))


