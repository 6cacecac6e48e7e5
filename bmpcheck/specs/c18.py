# Defining formulas of the math helpers.

@on(mod='mathlib', kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def addvect(u, v):
    return [u[0] + v[0], u[1] + v[1], u[2] + v[2]]

@on(mod='mathlib', kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def subvect(u, v):
    return [u[0] - v[0], u[1] - v[1], u[2] - v[2]]

@on(mod='mathlib', kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def mulvect(u, v):
    return [u[0] * v[0], u[1] * v[1], u[2] * v[2]]

@on(mod='mathlib', kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def divvect(u, v):
    return [u[0] / v[0], u[1] / v[1], u[2] / v[2]]

@on(mod='mathlib', kinds={'v': 'list 3 real', 'scalarval': 'real'})
def scalarmulvect(v, scalarval):
    return [scalarval * v[0], scalarval * v[1], scalarval * v[2]]

@on(mod='mathlib', kinds={'v': 'list 3 real', 'scalarval': 'real'})
def scalardivvect(v, scalarval):
    return [v[0] / scalarval, v[1] / scalarval, v[2] / scalarval]

@on(mod='mathlib', kinds={'vec': 'list 3 real', 'scalarval': 'real'})
def intscalarmulvect(vec, scalarval):
    return [round(scalarval * vec[0]), round(scalarval * vec[1]), round(scalarval * vec[2])]

@on(mod='mathlib', kinds={'v': 'list 4 real'})
def mean(v):
    return (v[0] + v[1] + v[2] + v[3]) / 4

@on(mod='mathlib', kinds={'v': 'list 3 real'})
def variance(v):
    m = (v[0] + v[1] + v[2]) / 3
    return [v[0] - m, v[1] - m, v[2] - m]

@on(mod='mathlib', kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def dotprod(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]

@on(mod='mathlib', kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def isorthogonal(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2] == 0

@on(mod='mathlib', kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def crossprod3d(u, v):
    a, b, c = u
    d, e, f = v
    return [b * f - c * e, c * d - a * f, a * e - b * d]

@on(mod='mathlib', kinds={'p1': 'list 3 real', 'p2': 'list 3 real', 'p3': 'list 3 real'})
def getnormvec(p1, p2, p3):
    a, b, c = p2[0] - p1[0], p2[1] - p1[1], p2[2] - p1[2]
    d, e, f = p3[0] - p1[0], p3[1] - p1[1], p3[2] - p1[2]
    return [b * f - c * e, c * d - a * f, a * e - b * d]

@on(mod='mathlib', kinds={'v': 'list 3 real'})
def vmag(v):
    return sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)

@on(mod='mathlib', kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def dist(u, v):
    return sqrt((u[0] - v[0]) ** 2 + (u[1] - v[1]) ** 2 + (u[2] - v[2]) ** 2)

@on(mod='mathlib', kinds={'a1': 'list 3 real', 'a2': 'list 3 real', 'a3': 'list 3 real'})
def det3D(a1, a2, a3):
    a, b, c = a1
    d, e, f = a2
    g, h, i = a3
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)

@on(mod='mathlib', kinds={'u': 'list 2 real', 'v': 'list 2 real'})
def slope(u, v):
    return (v[1] - u[1]) / (v[0] - u[0])

@on(mod='mathlib', kinds={'XYdata': 'list 3 list 2 real'})
def LSMslope(XYdata):
    (a, p), (b, q), (c, r) = XYdata
    return (3 * (a * p + b * q + c * r) - (a + b + c) * (p + q + r)) / (3 * (a * a + b * b + c * c) - (a + b + c) ** 2)

@on(mod='mathlib', kinds={'XYdata': 'list 3 list 2 real'})
def LSMYint(XYdata):
    (a, p), (b, q), (c, r) = XYdata
    m = (3 * (a * p + b * q + c * r) - (a + b + c) * (p + q + r)) / (3 * (a * a + b * b + c * c) - (a + b + c) ** 2)
    return (p + q + r) / 3 - m * ((a + b + c) / 3)

@on(mod='mathlib', kinds={'XYdata': 'list 3 list 2 real'})
def PearsonsR(XYdata):
    (a, p), (b, q), (c, r) = XYdata
    return (3 * (a * p + b * q + c * r) - (a + b + c) * (p + q + r)) / sqrt(
        abs(3 * (a * a + b * b + c * c) - (a + b + c) ** 2) * abs(3 * (p * p + q * q + r * r) - (p + q + r) ** 2))

@on(mod='mathlib', kinds={'a': 'real', 'b': 'real', 'f': 'real'})
def lerp(a, b, f):
    return a + (b - a) * f

@on(mod='mathlib', kinds={'a': 'real', 'b': 'real', 'v': 'real'}, when=['a < b'])
def invlerp(a, b, v):
    return (v - a) / (b - a)

@on(mod='mathlib', kinds={'a': 'real', 'b': 'real', 'v': 'real'}, when=['a < b'])
def smoothstep(a, b, v):
    t = (v - a) / (b - a)
    return 3 * t ** 2 - 2 * t ** 3

@on(mod='mathlib', kinds={'a': 'real', 'b': 'real', 'v': 'real'}, when=['a < b'])
def smootherstep(a, b, v):
    t = (v - a) / (b - a)
    return 6 * t ** 5 - 15 * t ** 4 + 10 * t ** 3

@on(mod='mathlib', kinds={'a': 'real', 'b': 'real', 'v': 'real'}, when=['a < b'])
def smootheststep(a, b, v):
    t = (v - a) / (b - a)
    return -20 * t ** 7 + 70 * t ** 6 - 84 * t ** 5 + 35 * t ** 4

@on(mod='mathlib', kinds={'v': 'list 2 real', 'rotvec': 'list 2 real'})
def rotvec2D(v, rotvec):
    s, c = rotvec
    return [v[0] * c - v[1] * s, v[0] * s + v[1] * c]

@on(mod='mathlib', kinds={'degrot': 'real'})
def computerotvec(degrot):
    return (sin(radians(degrot)), cos(radians(degrot)))

@on(mod='mathlib', kinds={'pt': 'real', 'delta': 'real'})
def mirror(pt, delta):
    return (pt - delta, pt + delta)

@on(mod='mathlib', kinds={'v': 'list 2 real'})
def delta(v):
    return v[1] - v[0]

@on(mod='mathlib', kinds={'lst_range': 'list 2 real'})
def range2baseanddelta(lst_range):
    return (lst_range[0], lst_range[1] - lst_range[0])

@on(mod='mathlib', kinds={'val': 'real', 'minval': 'real', 'maxval': 'real'}, when=['minval <= maxval'])
def setminmax(val, minval, maxval):
    return max(minval, min(val, maxval))

@on(mod='mathlib', kinds={'val': 'real', 'minval': 'int', 'maxval': 'int'}, when=['minval <= maxval'])
def intsetminmax(val, minval, maxval):
    return max(minval, min(round(val), maxval))

@on(mod='mathlib', kinds={'x': 'real', 'a': 'real', 'b': 'real'}, when=['a <= b'])
def clamp(x, a, b):
    return max(a, min(x, b))

@on(mod='mathlib', kinds={'val': 'real', 'minval': 'real'})
def setmin(val, minval):
    return max(val, minval)

@on(mod='mathlib', kinds={'val': 'real', 'maxval': 'real'})
def setmax(val, maxval):
    return min(val, maxval)

@on(mod='mathlib', kinds={'value': 'real', 'highlimit': 'real', 'lowlimit': 'real'})
def isinrange(value, highlimit, lowlimit):
    return lowlimit < value < highlimit

@on(mod='mathlib', kinds={'val': 'real'})
def sign(val):
    return 1 if val > 0 else (0 if val == 0 else -1)

@on(mod='mathlib', kinds={'x1': 'int', 'y1': 'int', 'x2': 'int', 'y2': 'int'})
def centerpoint(x1, y1, x2, y2):
    return ((x1 + x2) // 2, (y1 + y2) // 2)

@on(mod='mathlib', kinds={'v': 'list 2 real'})
def swapxy(v):
    return [v[1], v[0]]

@on(mod='mathlib', kinds={'x': 'real', 'y': 'real', 'v': 'list 2 real'})
def mirror1stquad(x, y, v):
    return [[x - v[0], y + v[1]], [x + v[0], y + v[1]], [x - v[0], y - v[1]], [x + v[0], y - v[1]]]

@on(mod='mathlib', kinds={'byteval': 'int 0 255'})
def enumbits(byteval):
    for d in (128, 64, 32, 16, 8, 4, 2, 1):
        yield byteval // d % 2

@on(mod='mathlib', kinds={'vlist': 'list 2 list 2 real', 'u': 'list 2 real'})
def trans(vlist, u):
    return [[vlist[0][0] + u[0], vlist[0][1] + u[1]], [vlist[1][0] + u[0], vlist[1][1] + u[1]]]

@on(mod='mathlib', kinds={'vlist': 'list 3 list 2 real'})
def addvectinlist(vlist):
    return [vlist[0][0] + vlist[1][0] + vlist[2][0], vlist[0][1] + vlist[1][1] + vlist[2][1]]

@on(mod='mathlib', kinds={'vpolarcoord': 'list 2 real'})
def polar2rectcoord2D(vpolarcoord):
    return [vpolarcoord[0] * cos(vpolarcoord[1]), vpolarcoord[0] * sin(vpolarcoord[1])]

@on(mod='mathlib', kinds={'vspherecoord': 'list 3 real'})
def spherical2rectcoord3D(vspherecoord):
    p, theta, phi = vspherecoord
    return [p * sin(phi) * cos(theta), p * sin(phi) * sin(theta), p * cos(phi)]

@on(mod='mathlib', kinds={'v': 'list 2 list 2 real'})
def ravel2D(v):
    return [v[0][0], v[0][1], v[1][0], v[1][1]]

@on(mod='mathlib', kinds={'vlist': 'list 3 list 2 real'})
def pivotlist(vlist):
    return [[vlist[0][0], vlist[1][0], vlist[2][0]], [vlist[0][1], vlist[1][1], vlist[2][1]]]

@on(mod='mathlib', kinds={'v': 'list 3 list 2 real'})
def getdomainbounds(v):
    return (min(v[0][0], v[1][0], v[2][0]), max(v[0][0], v[1][0], v[2][0]), min(v[0][1], v[1][1], v[2][1]), max(v[0][1], v[1][1], v[2][1]))
