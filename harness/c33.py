"""C33: midpoints lie on their edges, circles go through the points that define them."""

import math

from .common import EDGES, arr_list, dist2, hexa, set_vertex, vertex

DIRS = [(1.0, 0.0), (0.0, 1.0), (-0.6, 0.8), (0.8, -0.6), (-1.0, 0.0)]


def element(env, ndim, reals=True, span=20.0, order=None):
    d = hexa(env, ndim, 1, order or [2, 2, ndim - 1], [ndim, 0, 0, 0, 0], 1)
    el = d.elem[0]
    if order:
        el.pos[0:ndim, ...] = env.arr(env.reals("inside", (ndim,) + tuple(order[::-1]), -span, span))
    if reals:
        for v in range(2**ndim):
            set_vertex(el, v, [env.real(f"v{v}_{i}", -span, span) for i in range(ndim)])
    return d, el


def state(el):
    return [arr_list(el.pos), arr_list(el.curv), list(el.ccurv), [list(el.bcs[0, f]) for f in range(6)]]


def same(env, before, el):
    for a, b, n in zip(before, state(el), ("geometry", "curvature", "types", "conditions")):
        env.eq(f"{n} of the element unchanged", b, a)


def straight(env, ndim, **g):
    """straight and midpoint-curved edges, all edges at once"""
    d, el = element(env, ndim, **g)
    m = env.mod("meshtools")
    n = 12 if ndim == 3 else 4
    stored = {}
    for e in range(1, n, 3):
        el.ccurv[e] = "m"
        stored[e] = [env.real(f"m{e}_{j}", -20.0, 20.0) for j in range(3)]
        for j in range(3):
            el.curv[e, j] = stored[e][j]
        el.curv[e, 3] = 7.0
    # what is left over in the parameters of a straight edge means nothing
    el.curv[0, 0] = env.real("left", -20.0, 20.0)
    before = state(el)
    for e in range(n):
        r = m.edge_mid(el, e)
        env.eq(f"edge {e + 1}: three coordinates", len(r), 3)
        a, b = (vertex(el, v) for v in EDGES[e])
        want = stored.get(e) or [(x + y) / 2 for x, y in zip(a, b)]
        env.close(f"midpoint of edge {e + 1}", [r[i] for i in range(3)], want, 1e-9)
        same(env, before, el)
        # the answer is the caller's
        r[0] = r[0] + 1.0
        same(env, before, el)


def arc_ends(env, el, iedge, direction, length, shift=True):
    ux, uy = direction
    L = env.real("length", 0.5, 4.0) if length is None else length
    ax = env.real("ax", -5.0, 5.0) if shift else 0.25
    ay = env.real("ay", -5.0, 5.0) if shift else -0.5
    az = 1.5 if el.pos.shape[1] > 1 else 0.0
    a, b = [ax, ay, az], [ax + L * ux, ay + L * uy, az]
    va, vb = EDGES[iedge]
    set_vertex(el, va, a)
    set_vertex(el, vb, b)
    return a, b, L


def arc(env, ndim, edges, sign, length=None, shift=True, **g):
    """the middle of a circular edge"""
    m = env.mod("meshtools")
    iedge = env.pick("edge", edges)
    ux, uy = env.pick("direction", DIRS)
    d, el = element(env, ndim, reals=False, **g)
    a, b, L = arc_ends(env, el, iedge, (ux, uy), length, shift)
    k = env.real("k", 0.51, 10.0) if length is not None else env.pick("k", [0.5001, 0.6, 1.0, 7.5])
    R = sign * k * L
    el.ccurv[iedge] = "C"
    el.curv[iedge, 0] = R
    before = state(el)
    r = m.edge_mid(el, iedge)
    same(env, before, el)
    # components along the edge and to its right
    mx, my = r[0] - a[0], r[1] - a[1]
    t = mx * ux + my * uy
    h = mx * uy - my * ux
    env.close("as far from one end as from the other", t, 0.5 * L, 1e-6)
    env.check("on the side the radius says", h * sign > 0.0)
    # on the circle: L^2/4 + h^2 = 2 |R| |h|, on the shorter arc
    env.close("on the circle", 0.25 * L * L + h * h, 2 * R * h, 1e-4)
    env.check("on the shorter arc", h * sign <= 0.5 * L + 1e-9)
    env.close("height", r[2], a[2], 1e-9)


def circle(env, ndim, edges, shapes, length=None, shift=True, back=True, **g):
    """the circle through the ends and a point in between, given along the edge and off it"""
    m = env.mod("meshtools")
    iedge = env.pick("edge", edges)
    ux, uy = env.pick("direction", DIRS)
    t, k = env.pick("shape", shapes)
    sign = 1 if k > 0 else -1
    d, el = element(env, ndim, reals=False, **g)
    a, b, L = arc_ends(env, el, iedge, (ux, uy), length, shift)
    h = k * L
    p = [a[0] + t * L * ux + h * uy, a[1] + t * L * uy - h * ux, a[2]]
    before = state(el)
    c = m.edge_circle(el, iedge, env.np.array(p))
    same(env, before, el)
    env.eq("radius and centre", len(c), 4)
    R = c[0]
    env.check("the sign says the side", R * sign > 0.0)
    # the centre lies on the bisector of the ends and is a radius away from all three points
    cx, cy = c[1] - a[0], c[2] - a[1]
    u, v = cx * ux + cy * uy, cx * uy - cy * ux
    env.close("the centre is as far from either end", u, 0.5 * L, 1e-6)
    env.close("a radius away from the ends", 0.25 * L * L + v * v, R * R, 1e-4)
    env.close("a radius away from the midpoint", (t * L - u) * (t * L - u) + (h - v) * (h - v), R * R, 1e-4)
    env.close("height of the centre", c[3], a[2], 1e-6)
    if back and t == 0.5 and abs(k) <= 0.5:
        el.ccurv[iedge] = "C"
        el.curv[iedge, 0] = R
        r = m.edge_mid(el, iedge)
        env.close("back to the midpoint", [r[i] for i in range(3)], p, 1e-5)


def shallow(env, edges, depths):
    """midpoints hardly off the edge: relative accuracy"""
    m = env.mod("meshtools")
    iedge = env.pick("edge", edges)
    ux, uy = env.pick("direction", DIRS)
    k = env.pick("depth", depths)
    t = env.pick("t", (0.5, 0.25))
    d, el = element(env, 2, reals=False)
    a, b, L = arc_ends(env, el, iedge, (ux, uy), 1.0, False)
    h = k * L
    c = m.edge_circle(el, iedge, env.np.array([a[0] + t * L * ux + h * uy, a[1] + t * L * uy - h * ux, a[2]]))
    # from (t L - u)^2 + (h - v)^2 = u^2 + v^2 with u = L/2
    v = (h * h + t * t * L * L - t * L * L) / (2 * h)
    R = math.copysign(math.hypot(0.5 * L, v), k)
    env.check("there is a curvature", c[0] != 0.0)
    env.close("radius, relative", c[0] / R, 1.0, 1e-6)
    env.close("centre along x, relative", (c[1] - (a[0] + 0.5 * L * ux + v * uy)) / R, 0.0, 1e-6)
    env.close("centre along y, relative", (c[2] - (a[1] + 0.5 * L * uy - v * ux)) / R, 0.0, 1e-6)


def circle_space(env, edges, shift=True):
    """the circle lies in the plane of the three points, whichever way the edge runs"""
    m = env.mod("meshtools")
    iedge = env.pick("edge", edges)
    along, off = env.pick("frame", [((0.0, 0.0, 1.0), (0.6, -0.8, 0.0)), ((0.0, 0.0, -1.0), (0.0, 1.0, 0.0)), ((0.6, 0.0, 0.8), (-0.8, 0.0, 0.6)), ((0.0, 1.0, 0.0), (0.6, 0.0, 0.8))])
    t, k = env.pick("shape", [(0.5, 0.25), (0.5, -0.5), (0.25, 0.5)])
    d, el = element(env, 3, reals=False)
    a = [env.real(f"a{i}", -5.0, 5.0) if shift else 0.25 for i in range(3)]
    L = 2.0
    b = [a[i] + L * along[i] for i in range(3)]
    va, vb = EDGES[iedge]
    set_vertex(el, va, a)
    set_vertex(el, vb, b)
    p = [a[i] + t * L * along[i] + k * L * off[i] for i in range(3)]
    before = state(el)
    c = m.edge_circle(el, iedge, env.np.array(p))
    same(env, before, el)
    # centre on the bisector: h off the edge, with (L/2)^2 + h^2 = R^2 and (t L - L/2)^2 + (k L - h)^2 = R^2
    h = (((t - 0.5) * L) ** 2 + (k * L) ** 2 - 0.25 * L * L) / (2 * k * L)
    for i in range(3):
        env.close(f"centre, coordinate {i}", c[1 + i], a[i] + 0.5 * L * along[i] + h * off[i], 1e-6)
    env.close("radius", c[0] * c[0], 0.25 * L * L + h * h, 1e-6)


UNITS = [(1.0, 0.0, 0.0), (0.0, 0.6, 0.8), (-0.6, 0.8, 0.0), (2 / 3, -1 / 3, 2 / 3), (0.0, 0.0, -1.0)]
PAIRS = [(i, j) for i in range(5) for j in range(5) if i != j]


def sphere(env, edges, pairs):
    """the middle of an edge on a sphere, the shorter way round"""
    m = env.mod("meshtools")
    iedge = env.pick("edge", edges)
    i, j = env.pick("ends", pairs)
    R = env.real("radius", 0.5, 4.0)
    c = [env.real(f"centre{k}", -5.0, 5.0) for k in range(3)]
    d, el = element(env, 3, reals=False)
    va, vb = EDGES[iedge]
    a, b = ([c[k] + R * UNITS[q][k] for k in range(3)] for q in (i, j))
    set_vertex(el, va, a)
    set_vertex(el, vb, b)
    el.ccurv[iedge] = "s"
    for k in range(3):
        el.curv[iedge, k] = c[k]
    el.curv[iedge, 3], el.curv[iedge, 4] = 0.0, R
    before = state(el)
    r = m.edge_mid(el, iedge)
    same(env, before, el)
    s = [UNITS[i][k] + UNITS[j][k] for k in range(3)]
    n = math.sqrt(sum(x * x for x in s))
    # a radius from the centre, in the direction between the two ends
    for k in range(3):
        env.close(f"coordinate {k}", r[k], c[k] + R * (s[k] / n), 1e-6)


def free_circle(env, sign):
    """any distance off the edge"""
    m = env.mod("meshtools")
    d, el = element(env, 2, reals=False)
    set_vertex(el, 0, [-1.0, 0.0])
    set_vertex(el, 1, [1.0, 0.0])
    h = env.real("h", 0.1, 0.9)
    c = m.edge_circle(el, 0, env.np.array([0.0 * h, -sign * h, 0.0]))
    env.check("the sign says the side", c[0] * sign > 0.0)
    env.close("radius", 2 * c[0] * h * sign, 1.0 + h * h, 1e-6)


def flat(env, ndim):
    """a midpoint on the line between the ends means no curvature"""
    m = env.mod("meshtools")
    iedge = env.pick("edge", [0, 1, 2, 3])
    ux, uy = env.pick("direction", DIRS)
    d, el = element(env, ndim, reals=False)
    a, b, L = arc_ends(env, el, iedge, (ux, uy), 1.0, False)
    t = env.pick("t", [0.25, 0.5, 0.75])
    c = m.edge_circle(el, iedge, env.np.array([a[i] + t * (b[i] - a[i]) for i in range(3)]))
    env.eq("no curvature", [c[i] for i in range(4)], [0.0] * 4)


SCENARIOS = {
    "straight_2d": (straight, dict(ndim=2)),
    "straight_3d": (straight, dict(ndim=3)),
    "arc_right": (arc, dict(ndim=2, edges=[0, 1, 2, 3], sign=1, length=1.0)),
    "arc_left": (arc, dict(ndim=2, edges=[0, 1, 2, 3], sign=-1, length=1.0)),
    "arc_length": (arc, dict(ndim=2, edges=[1], sign=1)),
    "arc_3d": (arc, dict(ndim=3, edges=list(range(8)), sign=-1, length=2.0, shift=False)),
    "arc_length_left": (arc, dict(ndim=2, edges=[3], sign=-1)),
    "circle": (circle, dict(ndim=2, edges=[0, 1, 2, 3], shapes=[(0.5, 0.3), (0.5, -0.05)])),
    "circle_shapes": (circle, dict(ndim=2, edges=[2], shapes=[(0.5, 0.49), (0.5, -0.49), (0.5, 0.01), (0.25, 0.2), (0.7, -0.4), (0.5, 2.0), (0.4, -1.5)])),
    "circle_3d": (circle, dict(ndim=3, edges=list(range(8)), shapes=[(0.5, 0.2), (0.6, -0.3)], shift=False)),
    "circle_space": (circle_space, dict(edges=[0, 5, 8, 9, 10, 11])),
    "circle_space_all": (circle_space, dict(edges=list(range(12)))),
    "sphere": (sphere, dict(edges=list(range(12)), pairs=PAIRS), {"cost": 2}),
    "free_right": (free_circle, dict(sign=1), {"query_ms": 200000}),
    "free_left": (free_circle, dict(sign=-1), {"query_ms": 200000}),
    "flat": (flat, dict(ndim=2)),
}
SCENARIOS["shallow"] = (shallow, dict(edges=[0, 1, 2, 3], depths=(1e-3, -1e-3, 2e-4, -2e-4, 0.005, -0.02)))
# elements of higher order
SCENARIOS["straight_order_2d"] = (straight, dict(ndim=2, order=[4, 3, 1]))
SCENARIOS["straight_order_3d"] = (straight, dict(ndim=3, order=[3, 4, 5]))
SCENARIOS["arc_order"] = (arc, dict(ndim=3, edges=list(range(8)), sign=1, length=1.0, shift=False, order=[4, 3, 3]))
SCENARIOS["circle_order"] = (circle, dict(ndim=3, edges=list(range(8)), shapes=[(0.5, 0.2), (0.6, -0.3)], shift=False, order=[3, 4, 3]))
