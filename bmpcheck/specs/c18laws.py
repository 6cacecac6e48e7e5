# Laws between the math helpers: both sides have the same value for all arguments.

@on(kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def sum_commutes(u, v):
    return addvect(u, v), addvect(v, u)

@on(kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def difference_undoes_sum(u, v):
    return subvect(addvect(u, v), v), [u[0], u[1], u[2]]

@on(kinds={'u': 'list 3 real', 'k': 'real 1 -'})
def division_undoes_scaling(u, k):
    return scalardivvect(scalarmulvect(u, k), k), [u[0], u[1], u[2]]

@on(kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def cross_is_orthogonal_left(u, v):
    return dotprod(crossprod3d(u, v), u), 0

@on(kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def cross_is_orthogonal_right(u, v):
    return dotprod(crossprod3d(u, v), v), 0

@on(kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def cross_anticommutes(u, v):
    return crossprod3d(u, v), scalarmulvect(crossprod3d(v, u), -1)

@on(kinds={'u': 'list 3 real', 'v': 'list 3 real', 'w': 'list 3 real'})
def determinant_is_triple_product(u, v, w):
    return det3D(u, v, w), dotprod(u, crossprod3d(v, w))

@on(kinds={'u': 'list 3 real', 'v': 'list 3 real', 'w': 'list 3 real'})
def determinant_alternates(u, v, w):
    return det3D(u, v, w), -det3D(v, u, w)

@on(kinds={'u': 'list 3 real', 'v': 'list 3 real'})
def distance_symmetric(u, v):
    return dist(u, v), dist(v, u)

@on(kinds={'a': 'real', 'b': 'real'})
def lerp_start(a, b):
    return lerp(a, b, 0), a

@on(kinds={'a': 'real', 'b': 'real'})
def lerp_end(a, b):
    return lerp(a, b, 1), b

@on(kinds={'a': 'real', 'b': 'real', 'f': 'real'}, when=['a < b'])
def invlerp_undoes_lerp(a, b, f):
    return invlerp(a, b, lerp(a, b, f)), f

@on(kinds={'a': 'real', 'b': 'real', 'v': 'real'}, when=['a < b'])
def lerp_undoes_invlerp(a, b, v):
    return lerp(a, b, invlerp(a, b, v)), v

@on(kinds={'t': 'real 0 1'})
def smoothstep_symmetric(t):
    return smoothstep(0, 1, t) + smoothstep(0, 1, 1 - t), 1

@on(kinds={'t': 'real 0 1'})
def smootherstep_symmetric(t):
    return smootherstep(0, 1, t) + smootherstep(0, 1, 1 - t), 1

@on(kinds={'t': 'real 0 1'})
def smootheststep_symmetric(t):
    return smootheststep(0, 1, t) + smootheststep(0, 1, 1 - t), 1

@on(kinds={'a': 'real', 'b': 'real'}, when=['a < b'])
def smooth_curves_start(a, b):
    return [smoothstep(a, b, a), smootherstep(a, b, a), smootheststep(a, b, a)], [0, 0, 0]

@on(kinds={'a': 'real', 'b': 'real'}, when=['a < b'])
def smooth_curves_end(a, b):
    return [smoothstep(a, b, b), smootherstep(a, b, b), smootheststep(a, b, b)], [1, 1, 1]

@on(kinds={'a': 'real', 'b': 'real'}, when=['a < b'])
def smooth_interpolation_starts(a, b):
    return [smoothsteplerp(a, b, 0), smoothersteplerp(a, b, 0), smootheststeplerp(a, b, 0)], [a, a, a]

@on(kinds={'a': 'real', 'b': 'real'}, when=['a < b'])
def smooth_interpolation_ends(a, b):
    return [smoothsteplerp(a, b, 1), smoothersteplerp(a, b, 1), smootheststeplerp(a, b, 1)], [b, b, b]

@on(kinds={'c': 'real', 'd': 'real'})
def mirror_points_about_centre(c, d):
    return mirror(c, d)[0] + mirror(c, d)[1], 2 * c

@on(kinds={'c': 'list 3 real', 'd': 'list 3 real'})
def mirror_vectors_about_centre(c, d):
    return addvect(mirrorvec(c, d)[0], mirrorvec(c, d)[1]), scalarmulvect(c, 2)

@on(kinds={'v': 'list 2 real'})
def swap_twice(v):
    return swapxy(swapxy(v)), [v[0], v[1]]

@on(kinds={'v': 'list 4 real'})
def deviations_cancel(v):
    return sum(variance(v)), 0

@on(kinds={'v': 'list 2 real', 'r': 'list 2 real'})
def rotation_scales_length(v, r):
    return dotprod(rotvec2D(v, r), rotvec2D(v, r)), dotprod(v, v) * dotprod(r, r)

@on(kinds={'v': 'list 2 real', 's': 'real', 'c': 'real'})
def rotation_back(v, s, c):
    return rotvec2D(rotvec2D(v, [s, c]), [-s, c]), scalarmulvect(v, s * s + c * c)

@on(kinds={'a': 'real', 'b': 'real', 'm': 'real', 'k': 'real', 'c': 'real'}, when=['(a - b) ** 2 + (b - c) ** 2 + (a - c) ** 2 > 0'])
def slope_of_points_on_a_line(a, b, c, m, k):
    return LSMslope([[a, m * a + k], [b, m * b + k], [c, m * c + k]]), m

@on(kinds={'v': 'real', 'lo': 'real', 'hi': 'real'}, when=['lo <= v', 'v <= hi'])
def clamp_keeps_inside_values(v, lo, hi):
    return [setminmax(v, lo, hi), clamp(v, lo, hi), setmin(v, lo), setmax(v, hi)], [v, v, v, v]

@on(kinds={'v': 'real', 'lo': 'real', 'hi': 'real'}, when=['lo <= hi'])
def clamp_idempotent(v, lo, hi):
    return setminmax(setminmax(v, lo, hi), lo, hi), setminmax(v, lo, hi)

@on(kinds={'v': 'list 3 real'})
def cylinder_radius(v):
    return rect2cylindricalcoord3D(v)[0], sqrt(v[0] ** 2 + v[1] ** 2)

@on(kinds={'v': 'list 3 real'})
def sphere_radius(v):
    return rect2sphericalcoord3D(v)[0], sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)

@on(kinds={'v': 'list 3 real'})
def unit_vector(v):
    return scalarmulvect(normvec(v), vmag(v)), [v[0], v[1], v[2]]
