def getIFSparams() -> dict:
    return {'fern': (((0, 0, 0, 0.16, 0, 0), (0.2, -0.26, 0.23, 0.22, 0, 1.6), (-0.15, 0.28, 0.26, 0.24, 0, 0.44), (0.85, 0.04, -0.04, 0.85, 0, 1.6)), (0.009, 0.073, 0.137, 1)), 'tree': (((0, 0.2, 0, 0.5, 0, 0), (0.1, 0, 0, 0.1, 0, 0.2), (0.42, -0.42, 0.42, 0.42, 0, 0.2), (0.42, 0.42, -0.42, 0.42, 0, 0.2)), (0.05, 0.2, 0.6, 1)), 'cantortree': (((1 / 3, 0, 0, 1 / 3, 0, 0), (1 / 3, 0, 0, 1 / 3, 1, 0), (2 / 3, 0, 0, 2 / 3, 0.5, 0.5), (0, 0, 0, 0, 0, 0)), (1 / 3, 2 / 3, 1, 1)), 'sierpinskitriangle': (((0.5, 0, 0, 0.5, 0, 0), (0.5, 0, 0, 0.5, 1, 0), (0.5, 0, 0, 0.5, 0.5, 0.5), (0, 0, 0, 0, 0, 0)), (1 / 3, 2 / 3, 1, 1))}


def fractaldomainparamdict() -> dict:
    return {'maxdefault': (1.75, -1.75, 1.5, -1.5), 'maxeqdim': (1.75, -1.75, 1.75, -1.75), 'middefault': (0.75, -1.25, 1.25, -1.25), 'mindefault': (0.75, -0.75, 0.5, -0.5), 'mineqdim': (0.5, -0.5, 0.5, -0.5), 'custom1': (-0.5, -0.7, -0.5, -0.7)}


def funcparamdict() -> dict:
    return {3: (lambda z: z * z * z - 1.0, lambda z: 3.0 * (z * z)), 4: (lambda z: z * z * z * z - 1.0, lambda z: 4.0 * (z * z * z)), 4.1: (lambda z: z * z * z * z - z, lambda z: 4.0 * (z * z * z) - 1), 5: (lambda z: z * z * z * z * z - 1, lambda z: 5.0 * (z * z * z * z)), 5.1: (lambda z: z * z * z * z * z - z, lambda z: 5.0 * (z * z * z * z) - 1), 5.3: (lambda z: z * z * z * z * z - z * z * z, lambda z: 5.0 * (z * z * z * z) - 3.0 * (z * z)), 6: (lambda z: z * z * z * z * z * z - 1, lambda z: 6.0 * (z * z * z * z * z)), 6.3: (lambda z: z * z * z * z * z * z - z * z * z - 1, lambda z: 6.0 * (z * z * z * z * z) - 3 * (z * z))}


def iterIFS(IFStransparam: tuple, x1: int, y1: int, x2: int, y2: int, xscale: int, yscale: int, xoffset: int, yoffset: int, maxiter: int):
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    af, p = IFStransparam
    x = x1
    y = y1
    dy = y2 - y1
    p0, p1, p2 = p[0:3]
    for _ in range(maxiter):
        j = random()
        a, b, c, d, e, f = af[iif(j < p0, 0, iif(j < p1, 1, iif(j < p2, 2, 3)))]
        nx = a * x + b * y + e
        y = c * x + d * y + f
        x = nx
        px = int(x * xscale + xoffset + x1)
        py = int(dy - y * yscale + yoffset + y1)
        if isinrectbnd(px, py, x1, y1, x2, y2):
            yield (px, py)


def tetrationfn(P: float, Q: float, d: int, maxiter: int) -> int:
    z = complex(P, Q)
    y = 0
    for i in range(d):
        try:
            if abs((y := (y + (z := (z ** z)).imag))) > d:
                return i % maxiter
        except OverflowError:
            return i % maxiter
    return maxiter


def sinjulia(P: float, Q: float, c: complex, maxiter: int, lim: int=50) -> int:
    z = complex(P, Q)
    s = 0
    for i in range(lim):
        if abs((s := (s + (z := (c * sin(z))).imag))) > lim:
            return i % maxiter
    return maxiter


def cosjulia(P: float, Q: float, c: complex, maxiter: int, lim: int=50) -> int:
    z = complex(P, Q)
    s = 0
    for i in range(lim):
        if abs((s := (s + (z := (c * cos(z))).imag))) > lim:
            return i % maxiter
    return maxiter


def spiraljulia(P: float, Q: float, c: complex, maxiter: int) -> int:
    z = complex(P, Q)
    for i in range(maxiter):
        if abs((z := tan(z * z + c))) > 2:
            return i
    return maxiter


def lambdafn(P: float, Q: float, c: complex, maxiter: int) -> int:
    z = complex(P, Q)
    for i in range(maxiter):
        if abs((z := (c * z * (1 - z)))) > 2:
            return i
    return maxiter


def multibrot(P: float, Q: float, d: float, maxiter: int) -> int:
    z = 0
    c = complex(P, Q)
    for i in range(maxiter):
        if abs((z := (z ** d + c))) > 2:
            return i
    return maxiter


def multicircle(P: float, Q: float, d: float, maxiter: int) -> int:
    return round(abs(complex(P, Q) ** d)) % maxiter


def multihyperbola(P: float, Q: float, d: float, maxiter: int) -> int:
    return round(abs(P ** d - Q ** d)) % maxiter


def multisuperellipse(P: float, Q: float, d: float, maxiter: int) -> int:
    return abs(P ** d + Q ** d) % maxiter


def astroid(P: float, Q: float, r: float, maxiter: int) -> int:
    P *= P
    Q *= Q
    r *= r
    return round(abs((P + Q - r) ** 3 + 27 * P * Q * r)) % maxiter


def lemniscate(P: float, Q: float, r: float, maxiter: int) -> int:
    r *= r
    P *= P
    Q *= Q
    return int(abs((P + Q) ** 2 - 2 * r * (P - Q))) % maxiter


def xorfn(P: float, Q: float, d: int, maxiter: int) -> int:
    return (int(P) ^ int(Q)) % d % maxiter


def xordivfn(P: float, Q: float, d: int, maxiter: int) -> int:
    return (int(P) ^ int(Q)) // d % maxiter


def newton(P: float, Q: float, d: float, maxiter: int) -> tuple:
    return newtonmethod(complex(P, Q), (f := d[0]), (fp := d[1]), maxiter)


def multijulia(P: float, Q: float, c: complex, d: float, maxiter: int) -> int:
    z = complex(P, Q)
    for i in range(maxiter):
        z = z ** d + c
        if (z * z.conjugate()).real > 4:
            return i
    return maxiter


def biomorphfunc(f: Callable, z: complex, d: float, c: complex, a: float, maxiter: int):
    for i in range(maxiter):
        z = f(z, d, c)
        if abs(z.real) > a and abs(z.imag) > a:
            return i
        if abs(z.real) > a or abs(z.imag) > a:
            return maxiter
    return maxiter


def multibiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multibiomorphphasevariant(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: z ** (d + abs(phase(z))) + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multisinbiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: sin(z) + z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multicosbiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: cos(z) + z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multisinhbiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: sinh(z) + z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multicoshbiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: cosh(z) + z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multitanbiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: tan(z) + z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multitanhbiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: tanh(z) + z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multiexpbiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: exp(z) + z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multi2ndtetrationbiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: z ** z + z ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multizconjugatebiomorph(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    return biomorphfunc((f := (lambda z, d, c: z.conjugate() ** d + c)), (z := complex(P, Q)), d, c, a, maxiter)


def multibiomorphvariant(P: float, Q: float, c: complex, d: float, maxiter: int, a: float=5) -> int:
    z = complex(P, Q)
    for _ in range(maxiter):
        z = z ** d + c
        if abs(z.real) > a or abs(z.imag) > a:
            return round(abs(z)) % maxiter
    return maxiter


def ngonfunc(P: float, Q: float, c: float, n: float, maxiter: int) -> int:
    z = complex(P, Q)
    for i in range(maxiter):
        if z == 0 + 0j:
            return i
        if abs((z := ((z ** n + c) / z))) > 2:
            return i
    return maxiter


def multicorn(P: float, Q: float, d: float, maxiter: int) -> int:
    z = complex(0, 0)
    c = complex(P, Q)
    for i in range(maxiter):
        if abs((z := (z.conjugate() ** d + c))) > 2:
            return i
    return maxiter


def barnsleytree(P: float, Q: float, d: complex, maxiter: int) -> int:
    z = complex(P, Q)
    for i in range(maxiter):
        if abs((z := (d * (z - sign(z.real))))) > 2:
            return i
    return maxiter


def marekdragon(P: float, Q: float, d: float, maxiter: int, lim: int=65) -> int:
    z = complex(P, Q)
    s = 0
    for i in range(lim):
        z *= d + z
        s += abs(z.imag)
        if s > lim:
            return i % maxiter
    return maxiter


def mapfractaldomain(x1: int, y1: int, x2: int, y2: int, domain: list[float, float, float, float]) -> list[list, list]:
    Pmax, Pmin, Qmax, Qmin = domain
    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
    dp = (Pmax - Pmin) / (x2 - x1)
    dq = (Qmax - Qmin) / (y2 - y1)
    return [[(Pmin + (x - x1) * dp, x) for x in range(x1, x2)], [(Qmin + (y - y1) * dq, y) for y in range(y1, y2)]]


def itermultifractal(x1: int, y1: int, x2: int, y2: int, d: any, func: Callable, domain: list[float, float, float, float], maxiter: int):
    mp, mq = mapfractaldomain(x1, y1, x2, y2, domain)
    for Q, y in mq:
        for P, x in mp:
            yield (x, y, func(P, Q, d, maxiter))


def itermultifractalcomplexpar(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, func: Callable, domain: list[float, float, float, float], maxiter: int):
    mp, mq = mapfractaldomain(x1, y1, x2, y2, domain)
    for Q, y in mq:
        for P, x in mp:
            yield (x, y, func(P, Q, c, d, maxiter))


def itermandelbrot(x1: int, y1: int, x2: int, y2: int, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, 2, multibrot, domain, maxiter):
        yield p


def iterjulia(x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, 2, multijulia, domain, maxiter):
        yield p


def itertricorn(x1: int, y1: int, x2: int, y2: int, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, 2, multicorn, domain, maxiter):
        yield p


def itermultibrot(x1: int, y1: int, x2: int, y2: int, d: float, mandelparam: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, multibrot, mandelparam, maxiter):
        yield p


def itermulticircle(x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, multicircle, domain, maxiter):
        yield p


def itermultihyperbola(x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, multihyperbola, domain, maxiter):
        yield p


def itermultisuperellipse(x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, multisuperellipse, domain, maxiter):
        yield p


def iterastroid(x1: int, y1: int, x2: int, y2: int, r: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, r, astroid, domain, maxiter):
        yield p


def iterlemniscate(x1: int, y1: int, x2: int, y2: int, r: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, r, lemniscate, domain, maxiter):
        yield p


def itertetration(x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, tetrationfn, domain, maxiter):
        yield p


def iterxorfractal(x1: int, y1: int, x2: int, y2: int, d: int, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, xorfn, domain, maxiter):
        yield p


def iterxordivfractal(x1: int, y1: int, x2: int, y2: int, d: int, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, xordivfn, domain, maxiter):
        yield p


def itersinjulia(x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, c, sinjulia, domain, maxiter):
        yield p


def itercosjulia(x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, c, cosjulia, domain, maxiter):
        yield p


def iterspiraljulia(x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, c, spiraljulia, domain, maxiter):
        yield p


def iterlamdbafractal(x1: int, y1: int, x2: int, y2: int, c: complex, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, c, lambdafn, domain, maxiter):
        yield p


def itermultijulia(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multijulia, domain, maxiter):
        yield p


def iterngonfractal(x1: int, y1: int, x2: int, y2: int, c: float, n: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, n, ngonfunc, domain, maxiter):
        yield p


def itermultibiomorphvariant(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multibiomorphvariant, domain, maxiter):
        yield p


def itermultibiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multibiomorph, domain, maxiter):
        yield p


def itermultibiomorphphasevariant(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multibiomorphphasevariant, domain, maxiter):
        yield p


def itermultisinbiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multisinbiomorph, domain, maxiter):
        yield p


def itermulticosbiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multicosbiomorph, domain, maxiter):
        yield p


def itermulticoshbiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multicoshbiomorph, domain, maxiter):
        yield p


def itermultisinhbiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multisinhbiomorph, domain, maxiter):
        yield p


def itermultitanbiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multitanbiomorph, domain, maxiter):
        yield p


def itermultitanhbiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multitanhbiomorph, domain, maxiter):
        yield p


def itermultiexpbiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multiexpbiomorph, domain, maxiter):
        yield p


def itermulti2ndtetrationbiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multi2ndtetrationbiomorph, domain, maxiter):
        yield p


def itermultizconjugatebiomorph(x1: int, y1: int, x2: int, y2: int, c: complex, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractalcomplexpar(x1, y1, x2, y2, c, d, multizconjugatebiomorph, domain, maxiter):
        yield p


def itermulticorn(x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, multicorn, domain, maxiter):
        yield p


def iterbarnsleytree(x1: int, y1: int, x2: int, y2: int, d: complex, domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, barnsleytree, domain, maxiter):
        yield p


def itermarekdragon(x1: int, y1: int, x2: int, y2: int, d: float, domain: list[float, float, float, float], maxiter: int):
    d = exp(_2pij * d)
    for p in itermultifractal(x1, y1, x2, y2, d, marekdragon, domain, maxiter):
        yield p


def hilbertvert(l: list, u: list[int, int], v: list[int, int, int, int], n: int):
    if n <= 0:
        v0, v1, v2, v3 = v
        l += [roundvect(addvect(u, ((v0 + v2) / 2, (v1 + v3) / 2)))]
    else:
        i = v[2]
        j = v[3]
        v = scalarmulvect(v, 0.5)
        v0, v1, v2, v3 = v
        n -= 1
        w = (v2, v3, v0, v1)
        hilbertvert(l, u, w, n)
        hilbertvert(l, addvect(u, (v0, v1)), v, n)
        hilbertvert(l, addvect(u, (v0 + v2, v1 + v3)), v, n)
        hilbertvert(l, addvect(u, (v0 + i, v1 + j)), scalarmulvect(w, -1), n)


def iternewtonsfractal(x1: int, y1: int, x2: int, y2: int, d: list[Callable, Callable], domain: list[float, float, float, float], maxiter: int):
    for p in itermultifractal(x1, y1, x2, y2, d, newton, domain, maxiter):
        yield p


def koch(u: list[float, float], v: list[float, float], h: float=0.28867513459481287) -> list[list[float, float], list[float, float], list[float, float]]:
    v = complex(*v)
    u = complex(*u)
    d = v - u
    e = d / 3
    d *= h
    d = (u + v) / 2 + d * 1j
    u += e
    v -= e
    return ([u.real, u.imag], [d.real, d.imag], [v.real, v.imag])


def kochcurvevert(u: list[int, int], v: list[int, int], n: int) -> list[list[float, float]]:
    size = 4 ** n + 1
    p = [(0, 0)] * size
    p[0] = u
    p[-1] = v
    size -= 1
    l = size
    for _ in range(n):
        seg = size // l
        for s in range(seg):
            i = s * l
            j = l >> 2
            p[i + j], p[i + (l >> 1)], p[i + j * 3] = koch(p[i], p[i + l])
        l = j
    return p


def kochsnowflakevert(x: int, y: int, r: int, angle: float, n: int) -> list[list[float, float]]:
    a, b, c = regpolygonvert(x, y, r, 3, angle)
    return kochcurvevert(a, b, n) + kochcurvevert(b, c, n) + kochcurvevert(c, a, n)


def ikedaattractorlist(a: float, b: float, k: float, p: float, n: int) -> list[complex]:
    z = complex(0, 0)
    return [(z := (a + b * z * exp(1j * k - 1j * p / (1 + abs(z * z))))) for _ in range(n)]


def nattractorlist(a: float, b: float, c: float, d: float, n: int) -> list[list[float, float]]:
    x = y = 0
    return [[(x := (a * sine(a * y) + b * cosine(b * x))), (y := (c * sine(c * x) + d * cosine(d * y)))] for _ in range(n)]


def gumowskimiraattractorlist(x: float, y: float, a: float, b: float, n: int) -> list[list[float, float]]:
    k = 2 * (1 - a)
    f = lambda x: a * x + k * x * x * (1 + x * x) ** (-2)
    g = f(x)
    v = [(0, 0)] * n
    for i in range(n):
        z = x
        v[i] = ((x := (b * y + g)), (y := ((g := f(x)) - z)))
    return v


def peterdejongattractorlist(a: float, b: float, c: float, d: float, n: int) -> list[list[float, float]]:
    x = y = 0
    v = [(0, 0)] * n
    for i in range(n):
        x, y = v[i] = (sine(a * y) - cosine(b * x), sine(c * x) - cosine(d * y))
    return v


def cliffordattractorlist(a: float, b: float, c: float, d: float, n: int) -> list[list[float, float]]:
    x = y = 0
    v = [(0, 0)] * n
    for i in range(n):
        x, y = v[i] = (sine(a * y) + c * cosine(a * x), sine(b * x) + d * cosine(b * y))
    return v


def fractaldreamattractorlist(a: float, b: float, c: float, d: float, n: int) -> list[list[float, float]]:
    x = y = 0.1
    v = [(0, 0)] * n
    for i in range(n):
        x, y = v[i] = (sine(b * y) + c * sine(b * x), sine(a * x) + d * sine(a * y))
    return v


def hopalongattractorlist(a: float, b: float, c: float, n: int) -> list[list[float, float]]:
    x = y = 0
    v = [(0, 0)] * n
    for i in range(n):
        x, y = v[i] = (y - sign(x) * abs(b * x - c) ** 0.5, a - x)
    return v


def symmetriciconattractorlist(x: float, y: float, a: float, b: float, g: float, o: float, l: float, d: int, n: int) -> list[complex]:
    v = [(0, 0)] * n
    d -= 1
    z = complex(x, y)
    for i in range(n):
        p = z ** d
        c = z.conjugate()
        v[i] = z = (a * abs(z * c) + l + b * (z.real * p.real - z.imag * p.imag)) * z + (g * p).conjugate() - o * c * 1j
    return v


def duffingattractorlist(x: float=0, y: float=0, t: float=0, dt: float=0.01, a: float=0.25, b: float=0.3, w: float=1.0, n: int=25000) -> list[list[float, float]]:
    v = [(0, 0)] * n
    for i in range(n):
        dx = y * dt
        dy = (x - x ** 3 - a * y + b * cosine(w * t)) * dt
        x += dx
        y += dy
        t += dt
        v[i] = (x, y)
    return v


