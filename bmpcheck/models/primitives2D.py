def itercirclepart(r: int) -> list[int, int]:
    row = r
    col = 0
    r_sqr = r * r
    _2r_sqr = r_sqr << 1
    _4r_sqr = r_sqr << 2
    d = _2r_sqr * ((row - 1) * row) + r_sqr + _2r_sqr * (1 - r_sqr)
    while row >= col:
        yield [col, row]
        if row != col:
            yield [row, col]
        if d >= 0:
            row -= 1
            d -= _4r_sqr * row
        d += _2r_sqr * (3 + (col << 1))
        col += 1


def itercirclepartlineedge(r: int) -> list[int, int]:
    row = r
    col = 0
    r_sqr = r * r
    _2r_sqr = r_sqr << 1
    _4r_sqr = r_sqr << 2
    d = _2r_sqr * ((row - 1) * row) + r_sqr + _2r_sqr * (1 - r_sqr)
    y = []
    while row >= col:
        if col not in y:
            yield [row, col]
            y += [col]
        if d >= 0:
            if row not in y:
                yield [col, row]
                y += [row]
            row -= 1
            d -= _4r_sqr * row
        d += _2r_sqr * (3 + (col << 1))
        col += 1


def itercirclepartvertlineedge(r: int) -> list[int, int]:
    row = r
    col = 0
    r_sqr = r * r
    _2r_sqr = r_sqr << 1
    _4r_sqr = r_sqr << 2
    d = _2r_sqr * ((row - 1) * row) + r_sqr + _2r_sqr * (1 - r_sqr)
    x = []
    while row >= col:
        if col not in x:
            yield [col, row]
            x += [col]
        if row not in x:
            yield [row, col]
            x += [row]
        if d >= 0:
            row -= 1
            d -= _4r_sqr * row
        d += _2r_sqr * (3 + (col << 1))
        col += 1


def iterline(p1: list[int, int], p2: list[int, int]) -> list[int, int]:
    dx, dy = subvect(p2, p1)
    sdx = sign(dx)
    sdy = sign(dy)
    dxabs = abs(dx)
    dyabs = abs(dy)
    x = y = 0
    px, py = p1
    if dxabs == dyabs:
        ilim = dxabs + 1
        for _ in range(ilim):
            yield [px, py]
            px += sdx
            py += sdy
    elif dxabs > dyabs:
        ilim = dxabs + 1
        for _ in range(ilim):
            y += dyabs
            if y >= dxabs:
                y -= dxabs
                py += sdy
            yield [px, py]
            px += sdx
    else:
        ilim = dyabs + 1
        for _ in range(ilim):
            x += dxabs
            if x >= dyabs:
                x -= dyabs
                px += sdx
            yield [px, py]
            py += sdy
    yield p2


def iterparallelogram(p1: list[int, int], p2: list[int, int], p3: list[int, int]) -> list[int, int]:
    p = lineseg(p1, p3)
    q = lineseg(p2, addvect(p3, subvect(p2, p1)))
    for u, v in zip(p, q):
        yield [u, v]


def lineseg(p1: list[int, int], p2: list[int, int]) -> list[list[int, int]]:
    return list(iterline(p1, p2))


def iterellipsepart(b: int, a: int) -> list[int, int]:
    row = b
    col = 0
    a_sqr = a * a
    b_sqr = b * b
    _2a_sqr = a_sqr << 1
    _4a_sqr = a_sqr << 2
    _2b_sqr = b_sqr << 1
    _4b_sqr = b_sqr << 2
    d = _2a_sqr * ((row - 1) * row) + a_sqr + _2b_sqr * (1 - a_sqr)
    while row * a_sqr >= col * b_sqr:
        yield [col, row]
        if d >= 0:
            row -= 1
            d -= _4a_sqr * row
        d += _2b_sqr * (3 + (col << 1))
        col += 1
    d = _2b_sqr * ((col - 1) * col) + _2a_sqr * (row * (row - 2) + 1) + (1 - _2a_sqr) * b_sqr
    while row > -1:
        yield [col, row]
        if d >= 0:
            col += 1
            d -= _4b_sqr * col
        d += _2a_sqr * (3 + (row << 1))
        row -= 1


def iterellipse(x: int, y: int, b: int, a: int):
    for p in iterellipsepart(b, a):
        yield from mirror1stquad(x, y, p)


def iterellipserot(x: int, y: int, b: int, a: int, degrot: float):
    rotvec = computerotvec(degrot)
    c = (x, y)
    for p in iterellipsepart(b, a):
        for v in mirror1stquad(x, y, p):
            yield roundvect(addvect(rotvec2D(subvect(v, c), rotvec), c))


def itercircle(x: int, y: int, r: int) -> list[int, int]:
    for p in itercirclepart(r):
        yield from mirror1stquad(x, y, p)


def _bezierblend(i: int, n: int, u: int):
    return comb(n, i) * u ** i * (1 - u) ** (n - i)


def iterbeziercurve(pntlist: list[list[int, int]]) -> list[int, int]:
    cnt = len(pntlist)
    w = v = pntlist[0]
    klim = cnt << 2
    for i in range(cnt):
        if i > cnt - 2:
            last = i - 1
            for k in range(klim):
                u = k / klim
                v = [0, 0]
                for j in range(i):
                    v = addvect(v, scalarmulvect(pntlist[j], _bezierblend(j, last, u)))
                yield from iterline(roundvect(v), roundvect(w))
                w = v


def beziercurvevert(pntlist: list[list[int, int]], isclosed: bool, curveback: bool) -> list[int, int]:
    return list(iterbeziercurve(pntlist))


def iterbspline(pntlist: list[list[int, int]], isclosed: bool, curveback: bool) -> list[int, int]:
    i = 0
    cnt = len(pntlist)
    v = pntlist[0]
    w = v
    klim = cnt << 2
    ilim = cnt + iif(isclosed, 2, 0)
    mx = cnt - 1
    while i < ilim:
        for k in range(klim):
            u = k / klim
            v = [0, 0]
            nc = _bsplineblend(u)
            for j in range(4):
                k = i + j
                v = addvect(v, scalarmulvect(pntlist[k % cnt if curveback else setmax(k, mx)], nc[j]))
            if i > 1:
                yield from iterline(roundvect(v), roundvect(w))
            w = v
        i += 1


def bsplinevert(pntlist: list[list[int, int]], isclosed: bool, curveback: bool) -> list[list[int, int]]:
    return list(iterbspline(pntlist, isclosed, curveback))


def _bsplineblend(u: float) -> list[float, float, float, float]:
    u2, u3 = (u * u, u * u * u)
    d, f = (u3 / 6, 1 / 6)
    a = -d + u2 / 2 - u / 2 + f
    b = u3 / 2 - u2 + 2 / 3
    c = (-u3 + u2 + u) / 2 + f
    return (a, b, c, d)


def recvert(x1: int, y1: int, x2: int, y2: int) -> list[list[int, int], list[int, int], list[int, int], list[int, int]]:
    return [(x1, y1), (x2, y1), (x2, y2), (x1, y2)]


def floatregpolygonvert(cx: int, cy: int, r: int, sides: int, angle: float) -> list[list[float, float]]:
    v = []
    angle = radians(angle)
    q = complex(cx, cy)
    for i in range(sides):
        ang = angle + radians(i * 360 / sides)
        z = q - r * complex(sin(ang), cos(ang))
        v.append([z.real, z.imag])
    return v


def regpolygonvert(cx: int, cy: int, r: int, sides: int, angle: float) -> list[list[int, int]]:
    return roundvectlist(floatregpolygonvert(cx, cy, r, sides, angle))


def horizontalvert(y: int, x1: int, x2: int, dx: int) -> list[list[int, int]]:
    return [[x, y] for x in range(x1, x2, dx)]


def verticalvert(x: int, y1: int, y2: int, dy: int) -> list[list[int, int]]:
    return [[x, y] for y in range(y1, y2, dy)]


def circlevert(x: int, y: int, r: int) -> list[list[int, int]]:
    return list(itercircle(x, y, r))


def arcvert(x: int, y: int, r: int, startdegangle: float, enddegangle: float) -> list[list[int, int]]:
    v = []
    tol = 0.03
    c = (x, y)
    sa = radians(startdegangle)
    ea = radians(enddegangle)
    for p in itercircle(x, y, r):
        pc = rect2polarcoord2Dwithcenter(c, p)
        a = pc[1]
        if a >= sa and a <= ea:
            v.append(p)
            if abs(a - sa) < tol or abs(a - ea) < tol:
                v.extend(iter(iterline(c, p)))
    return v


def rectboundarycoords(vlist: list[list[int, int]]) -> list[list[int, int]]:
    x, y = pivotlist(vlist)
    return ((min(x), min(y)), (max(x), max(y)))


def itergetneighbors(v: list[int, int], mx: int, my: int, includecenter: bool) -> list[int, int]:
    x, y = v
    if x > -1 and y > -1:
        lx = x - 1
        ty = y - 1
        rx = x + 1
        by = y + 1
        if ty > -1:
            yield [x, ty]
        if includecenter:
            yield v
        if by < my:
            yield [x, by]
        if lx > -1:
            if ty > -1:
                yield [lx, ty]
            yield [lx, y]
            if by < my:
                yield [lx, by]
        if rx < mx:
            if ty > -1:
                yield [rx, ty]
            yield [rx, y]
            if by < my:
                yield [rx, by]


def getneighborlist(v: list[int, int], mx: int, my: int, includecenter: bool) -> list[list[int, int]]:
    return list(itergetneighbors(v, mx, my, includecenter))


def spiralcontrolpointsvert(x: int, y: int, step: int, growthfactor: float, turns: int) -> list[list[int, int]]:
    v = [[x, y]]
    inc = step
    while turns > 0:
        x += step
        v.append([x, y])
        step += inc
        y += step
        v.append([x, y])
        step += inc
        x -= step
        v.append([x, y])
        step += inc
        y -= step
        v.append([x, y])
        turns -= 1
        step += inc
        inc *= growthfactor
    return v


def sortrecpoints(x1: int, y1: int, x2: int, y2: int):
    x1, x2 = swapif(x1, x2, x1 > x2)
    y1, y2 = swapif(y1, y2, y1 > y2)
    return (x1, y1, x2, y2)


def isinrectbnd(x: int, y: int, xmin: int, ymin: int, xmax: int, ymax: int) -> bool:
    return (x < xmax and y < ymax) and (x > xmin and y > ymin)


def listinrecbnd(xylist: list[list[Number, Number]], xmin: int, ymin: int, xmax: int, ymax: int) -> bool:
    for x, y in xylist:
        if isinrectbnd(x, y, xmin, ymin, xmax, ymax) == False:
            return False
    return True


def entirecircleisinboundary(x: int, y: int, minx: int, maxx: int, miny: int, maxy: int, r: int) -> bool:
    return (isinrange(x - r, maxx, minx) and isinrange(x + r, maxx, minx)) and (isinrange(y - r, maxy, miny) and isinrange(y + r, maxy, miny))


def entireellipseisinboundary(x: int, y: int, minx: int, maxx: int, miny: int, maxy: int, b: int, a: int) -> bool:
    return (isinrange(x - a, maxx, minx) and isinrange(x + a, maxx, minx)) and (isinrange(y - b, maxy, miny) and isinrange(y + b, maxy, miny))


def ellipsevert(x: int, y: int, b: int, a: int) -> list[int, int]:
    return list(iterellipse(x, y, b, a))


def iterspirograph(x: int, y: int, r: int, l: float, k: float, delta: float, lim: float) -> list[int, int]:
    a = 0
    e = l * k
    d = 1 - k
    f = d / k
    q = complex(x, y)
    while a < lim:
        z = r * (rect(d, a) + rect(e, a * f)) + q
        a += delta
        yield (round(z.real), round(z.imag))


def spirographvert(x: int, y: int, r: int, l: float, k: float, delta: float, lim: float) -> list[list[int, int]]:
    return list(iterspirograph(x, y, r, l, k, delta, lim))


def iterlissajouscurve(x: int, y: int, a: float, b: float, c: float, d: float, e: float, delta: float, lim: float) -> list[int, int]:
    t = 0
    while t < lim:
        dx = round(a * cos(c * t + e))
        dy = round(b * sin(d * t))
        t += delta
        yield (x + dx, y + dy)


def lissajouscurvevert(x: int, y: int, a: float, b: float, c: float, d: float, e: float, delta: float, lim: float) -> list[list[int, int]]:
    return list(iterlissajouscurve(x, y, a, b, c, d, e, delta, lim))


def itercircleinvolute(x: int, y: int, a: float, delta: float, lim: float) -> list[int, int]:
    t = 0
    b = complex(x, y)
    while t < lim:
        z = rect(1, t)
        z *= a * z * t * 1j
        t += delta
        z += b
        yield (round(z.real), round(z.imag))


def circleinvolutevert(x: int, y: int, a: float, delta: float, lim: float) -> list[list[int, int]]:
    return list(itercircleinvolute(x, y, a, delta, lim))


def iterepicycloid(x: int, y: int, a: float, b: float, delta: float, lim: float) -> list[int, int]:
    p = a + b
    c = a / b + 1
    t = 0
    q = complex(x, y)
    while t < lim:
        z = rect(p, t) - rect(b, c * t) + q
        t += delta
        yield (round(z.real), round(z.imag))


def epicycloidvert(x: int, y: int, a: float, b: float, delta: float, lim: float) -> list[list[int, int]]:
    return list(iterepicycloid(x, y, a, b, delta, lim))


def iterhypotrochoid(x: int, y: int, a: float, b: float, c: float, delta: float, lim: float) -> list[int, int]:
    p = a - b
    d = a / b + 1
    t = 0
    q = complex(x, y)
    while t < lim:
        z = rect(p, t) - rect(c, d * t) + q
        t += delta
        yield (round(z.real), round(z.imag))


def hypotrochoidvert(x: int, y: int, a: float, b: float, c: float, delta: float, lim: float) -> list[list[int, int]]:
    return list(iterhypotrochoid(x, y, a, b, c, delta, lim))


def iterflower(cx: int, cy: int, r: int, petals: int, angrot: float) -> list[int, int]:
    p = petals / 2
    angmax = 360 * petals
    angrot = radians(angrot)
    for a in range(angmax):
        ang = radians(a / petals)
        f = cos(p * ang) ** 2 * r
        rang = ang + angrot
        yield (int(cx - f * sin(rang)), int(cy - f * cos(rang)))


def flowervert(cx: int, cy: int, r: int, petals: int, angrot: float) -> list[list[int, int]]:
    return list(iterflower(cx, cy, r, petals, angrot))


def iterdrawvec(u: list, v: list, headsize: int) -> list[list[int, int]]:
    vm = vmag(subvect(u, v))
    anginc = 0.39269908169872414
    hm = iif(headsize == 0, vm / 5, headsize)
    a = anglebetween2Dlines(u, v)
    a1 = a - anginc
    a2 = a + anginc
    yield (u, v)

    def _hadd(v, hm, a1, a2):
        w = complex(*v)
        return (w + rect(hm, a1), w + rect(hm, a2))

    def _hsub(v, hm, a1, a2):
        w = complex(*v)
        return (w - rect(hm, a1), w - rect(hm, a2))
    if u[0] < v[0] and u[1] < v[1]:
        p, q = _hsub(v, hm, a1, a2)
    elif u[0] > v[0] and u[1] > v[1]:
        p, q = _hadd(v, hm, a1, a2)
    elif v[1] == u[1] and u[0] < v[0]:
        p, q = _hsub(v, hm, a1, a2)
    elif v[1] == u[1] and u[0] > v[0]:
        p, q = _hadd(v, hm, a1, a2)
    elif v[0] == u[0] and u[1] > v[1]:
        p, q = _hsub(v, hm, a1, a2)
    elif v[0] == u[0] and u[1] < v[1]:
        p, q = _hadd(v, hm, a1, a2)
    elif u[0] < v[0] and u[1] > v[1]:
        p, q = _hsub(v, hm, a1, a2)
    else:
        p, q = _hadd(v, hm, a1, a2)
    yield (v, (round(p.real), round(p.imag)))
    yield (v, (round(q.real), round(q.imag)))


def itersquircle(x: int, y: int, r: int) -> list[int, int]:
    for p in itersuperellipse(x, y, r, r, 4, 4):
        yield p


def squirclevert(x: int, y: int, r: int) -> list[list[int, int]]:
    return list(itersquircle(x, y, r))


def itersuperellipse(cx: int, cy: int, a: float, b: float, m: float, n: float) -> list[int, int]:
    p = 2 / m
    q = 2 / n
    for i in range(360):
        t = radians(i)
        w = cos(t)
        x = cx + int(abs(w) ** p * a * sign(w))
        w = sin(t)
        y = cy + int(abs(w) ** q * b * sign(w))
        yield (x, y)


def superellipsevert(cx: int, cy: int, a: int, b: int, m: float, n: float) -> list[list[int, int]]:
    return list(itersuperellipse(cx, cy, a, b, m, n))


def itergearcurve(cx: int, cy: int, a: int, b: int, n: int) -> list[int, int]:
    q = complex(cx, cy)
    for i in range(360):
        t = radians(i)
        z = rect(a + b * tanh(b * sin(n * t)), t) + q
        yield (int(z.real), int(z.imag))


def gearcurvevert(cx: int, cy: int, a: int, b: int, n: int) -> list[list[int, int]]:
    return list(itergearcurve(cx, cy, a, b, n))


def itercornuspiral(cx: int, cy: int, r: int) -> list[int, int]:
    c = 0.017453292519943295
    k = r * c
    z = complex(cx, cy)
    for i in range(360):
        t = i * c
        z += rect(k, t * t)
        yield (int(z.real), int(z.imag))


def cornuspiralvert(cx: int, cy: int, r: int) -> list[list[int, int]]:
    return list(itercornuspiral(cx, cy, r))


def iterheartcurve(cx: int, cy: int, s: int) -> list[int, int]:
    c = 0.017453292519943295
    for i in range(360):
        t = i * c
        x = 16 * sin(t) ** 3
        y = 13 * cos(t) - 5 * cos(2 * t) - 2 * cos(3 * t) - cos(4 * t)
        yield (cx + int(s * x), cy - int(s * y))


def heartcurvevert(cx: int, cy: int, s: int) -> list[int, int]:
    return list(iterheartcurve(cx, cy, s))


def itereggcurve(cx: int, cy: int, a: int, b: float) -> list[int, int]:
    sqrt2 = 1.4142135623730951
    p = 0.5
    k = a - b
    c = a >> 1
    if k > 0:
        _4b = 4 * b
        for x in range(a):
            y = int(((k - 2 * x + ((_4b * x + k) ** p).real) ** p).real * (x ** p).real / sqrt2)
            if y > 0:
                px = cx + x - c
                yield (px, cy - y)
                yield (px, cy + y)


def eggcurvevert(cx: int, cy: int, a: int, b: float) -> list[int, int]:
    return list(itereggcurve(cx, cy, a, b))


