"""C27: map2D moves vertices and curved edges by the transformation and nothing else."""

import math
from itertools import product

from .boxes import grid
from .common import arr_list, get_bc, set_bc, set_elmap, set_vertex, snapshot, vertex

SQUARE = [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)]
ENDS = [(0, 1), (1, 2), (2, 3), (3, 0)]


def maps(env, kind):
    """transformations; the coefficients of the first three are arbitrary"""
    if kind == "affine":
        a = env.reals("a", 3, -3.0, 3.0)
        b = env.reals("b", 3, -3.0, 3.0)
        return lambda x, y: (a[0] + a[1] * x + a[2] * y, b[0] + b[1] * x + b[2] * y)
    if kind == "bilinear":
        a = env.reals("a", 4, -3.0, 3.0)
        b = env.reals("b", 4, -3.0, 3.0)
        return lambda x, y: (a[0] + a[1] * x + a[2] * y + a[3] * x * y, b[0] + b[1] * x + b[2] * y + b[3] * x * y)
    if kind == "quadratic":
        a = env.reals("a", 3, -3.0, 3.0)
        return lambda x, y: (x + a[0] * x * x + a[1] * y * y, y + a[2] * x * y)
    if kind == "swap":
        return lambda x, y: (-y, x)
    if kind == "bent":
        return lambda x, y: (x * (1.0 + 0.5 * y), y + 0.25 * x * x)
    if kind == "list":
        return lambda x, y: [x + y * y, 2.0 * y + 1.0]
    return lambda x, y: (x, y)


def arc_mid(p, q, r):
    """middle of the arc of radius |r| from p to q, bulging to the right for r > 0 (all numbers)"""
    dx, dy = q[0] - p[0], q[1] - p[1]
    L = math.hypot(dx, dy)
    h = abs(r) - math.sqrt(r * r - L * L / 4)
    s = 1.0 if r > 0 else -1.0
    return [(p[0] + q[0]) / 2 + s * h * dy / L, (p[1] + q[1]) / 2 - s * h * dx / L]


def mapping(env, n=(1, 1), nbc=1, kind="affine", types=(), conds=(), free=True, curvature=None, boundary=None, call="keywords", order=None, extra=None, points=None):
    """types: (element, edge, curvature types); conds: (field, element, face, condition types)"""
    d = grid(env, n[0], n[1], ndim=2, nbc=nbc, order=points)
    if extra:
        d.var = list(extra)
    pts = []
    for e, el in enumerate(d.elem):
        p = []
        for v in range(4):
            if free:
                xy = [env.real(f"v{e}_{v}{i}", -5.0, 5.0) for i in range(2)]
                set_vertex(el, v, xy)
            p.append(vertex(el, v)[:2])
        pts.append(p)
    curved = {}
    for e, g, ts in types:
        el = d.elem[e]
        t = ts if isinstance(ts, str) else env.pick(f"t{e}_{g}", ts)
        el.ccurv[g] = t
        if t == "m":
            curved[e, g] = [env.real(f"m{e}_{g}_{i}", -5.0, 5.0) for i in range(2)]
            for i in range(2):
                el.curv[g, i] = curved[e, g][i]
        elif t == "C":
            r = env.pick(f"r{e}_{g}", [0.75, -2.0])
            el.curv[g, 0] = r
            a, b = ENDS[g]
            curved[e, g] = arc_mid(pts[e][a], pts[e][b], r)
    for b, e, f, ts in conds:
        set_bc(d.elem[e], b, f, ts if isinstance(ts, str) else env.string(f"bc{b}_{e}_{f}", list(ts)), e + 1, f + 1, 1, 2)
    d.update_ncurv()
    if order:
        set_elmap(env, d, order)
    f = maps(env, kind)
    kw = {}
    c = env.pick("curvature", [True, False]) if curvature is None else curvature
    b = env.pick("boundary", [True, False]) if boundary is None else boundary
    if call == "keywords":
        kw = {"curvature": c, "boundary_curvature": b}
    before = snapshot(env, d)
    calls = []

    def transformation(x, y):
        calls.append((x, y))
        return f(x, y)

    if call == "positional":
        m = env.mod("meshtools").map2D(d, transformation, c, b)
    else:
        m = env.mod("meshtools").map2D(d, transformation, **kw)
    after = snapshot(env, m)
    # the original is as it was
    now = snapshot(env, d)
    env.eq("the original: metadata", now["meta"], before["meta"])
    env.eq("the original: element map", now["elmap"], before["elmap"])
    for e, (x, y) in enumerate(zip(before["elem"], now["elem"])):
        for k in x:
            env.eq(f"the original: {k} of element {e + 1}", y[k], x[k])
    env.check("a mesh of its own", m is not d and all(x is not y for x, y in zip(m.elem, d.elem)))
    # metadata and conditions
    env.eq("metadata", [x for i, x in enumerate(after["meta"]) if i != 2], [x for i, x in enumerate(before["meta"]) if i != 2])
    env.eq("element map", after["elmap"], before["elmap"])
    env.eq("number of elements", len(m.elem), len(d.elem))
    ncurv = 0
    for e, el in enumerate(m.elem):
        env.eq(f"conditions of element {e + 1}", after["elem"][e]["bcs"], before["elem"][e]["bcs"])
        for k in ("vel", "pres", "temp", "scal"):
            env.eq(f"{k} of element {e + 1}", after["elem"][e][k], before["elem"][e][k])
        for v in range(4):
            env.close(f"vertex {v + 1} of element {e + 1}", vertex(el, v)[:2], list(f(*pts[e][v])), 1e-9)
            env.eq(f"height of vertex {v + 1} of element {e + 1}", vertex(el, v)[2], 0.0)
        if points:
            was = d.elem[e].pos
            for i, j in product(range(points[1]), range(points[0])):
                env.close(f"point {i}, {j} of element {e + 1}", [el.pos[k, 0, i, j] for k in range(2)], list(f(was[0, 0, i, j], was[1, 0, i, j])), 1e-9)
        for g in range(12):
            was = before["elem"][e]
            t0 = was["ccurv"][g]
            old = was["curv"][5 * g:5 * g + 5]
            new = after["elem"][e]["curv"][5 * g:5 * g + 5]
            L = f"edge {g + 1} of element {e + 1}"
            if g > 3:
                env.eq(L + " does not exist", [el.ccurv[g]] + new, [t0] + old)
                continue
            if nbc:
                t = was["bcs"][0][g][0]
                outer = env.all([env.not_(t == ""), env.not_(t == "E")])
            else:
                outer = False
            wanted = bool(c or t0 != "") or (outer if b else False)
            if wanted is not True and wanted is not False:
                # depends on a symbolic condition: both sides
                wanted = bool(wanted)
            if wanted:
                ncurv += 1
                mid = curved.get((e, g)) or [(pts[e][ENDS[g][0]][i] + pts[e][ENDS[g][1]][i]) / 2 for i in range(2)]
                env.eq(L + ": type", el.ccurv[g], "m")
                env.close(L + ": midpoint", new[:2], list(f(*mid)), 1e-7)
                env.close(L + ": height of the midpoint", new[2], 0.0, 1e-12)
            else:
                env.eq(L + " stays straight", el.ccurv[g], "")
                env.eq(L + ": parameters", new, old)
    env.eq("number of curved sides", m.ncurv, ncurv)
    # what is done to the mapped mesh later does not show in the original
    for el in m.elem:
        el.pos[0, 0, 0, 0] = el.pos[0, 0, 0, 0] + 1.0
        el.curv[0, 0] = el.curv[0, 0] + 1.0
        el.ccurv[1] = "x"
        if nbc:
            set_bc(el, 0, 0, "q", 77)
    m.elmap[0] = 99
    now = snapshot(env, d)
    env.eq("the original, later: element map", now["elmap"], before["elmap"])
    for e, (x, y) in enumerate(zip(before["elem"], now["elem"])):
        for k in ("pos", "curv", "ccurv", "bcs"):
            env.eq(f"the original, later: {k} of element {e + 1}", y[k], x[k])


ALL = ("", "m", "C")
SOME = ("", "E", "W", "P", "v", "con", "EE")
SCENARIOS = {
    "affine": (mapping, dict(types=[(0, 0, ("", "m")), (0, 2, ("", "m"))])),
    "bilinear": (mapping, dict(n=(2, 1), kind="bilinear", types=[(0, 1, ("", "m")), (1, 3, ("", "m"))])),
    "quadratic": (mapping, dict(n=(1, 2), kind="quadratic", types=[(1, 0, "m")])),
    "conditions": (mapping, dict(n=(1, 1), kind="bent", conds=[(0, 0, 0, SOME), (0, 0, 1, SOME)])),
    "conditions_other": (mapping, dict(n=(1, 1), kind="bent", conds=[(0, 0, 2, SOME), (0, 0, 3, SOME)], types=[(0, 2, ("", "m"))])),
    "fields": (mapping, dict(n=(2, 1), nbc=2, kind="affine", conds=[(0, 0, 0, ("", "W", "E")), (1, 0, 0, ("", "t", "E")), (1, 1, 2, ("", "t"))], curvature=False)),
    "arcs": (mapping, dict(n=(1, 1), kind="affine", free=False, types=[(0, g, ALL) for g in (0, 1)])),
    "arcs_other": (mapping, dict(n=(1, 1), kind="bilinear", free=False, types=[(0, g, ALL) for g in (2, 3)], curvature=False)),
    "arcs_bent": (mapping, dict(n=(2, 1), kind="bent", free=False, types=[(0, 1, ALL), (1, 3, ALL)])),
    "no_fields": (mapping, dict(n=(1, 1), nbc=0, kind="affine", types=[(0, 1, ("", "m"))])),
    "swap": (mapping, dict(n=(2, 1), kind="swap", types=[(0, 0, "m"), (1, 2, "m")])),
    "identity": (mapping, dict(n=(2, 2), kind="identity", order=[2, 1, 4, 3], curvature=False)),
    "as_list": (mapping, dict(n=(1, 1), kind="list", curvature=True)),
    "defaults": (mapping, dict(n=(2, 1), kind="bent", call="defaults", curvature=True, boundary=True)),
    "positional": (mapping, dict(n=(1, 2), kind="bent", call="positional")),
    "four_arcs": (mapping, dict(n=(1, 1), kind="bilinear", free=False, types=[(0, g, ALL) for g in range(4)]), {"tier": "thorough", "cost": 4}),
    "large": (mapping, dict(n=(3, 3), kind="bilinear", conds=[(0, 4, f, SOME[:3]) for f in range(4)]), {"tier": "thorough", "cost": 4}),
    "all_conditions": (mapping, dict(n=(1, 1), nbc=2, kind="quadratic", conds=[(0, 0, f, SOME[:4]) for f in range(4)]), {"cost": 4}),
}
SCENARIOS["twelve"] = (mapping, dict(n=(4, 3), kind="affine", types=[(11, 2, ("", "m"))], conds=[(0, 10, 2, SOME)]))
SCENARIOS["hundreds"] = (mapping, dict(n=(20, 15), kind="affine", types=[(299, 2, ("", "m"))], conds=[(0, 280, 2, SOME)]), {"cost": 4})
# fields with points inside their elements, and data
SCENARIOS["field"] = (mapping, dict(n=(1, 1), kind="affine", points=(4, 3, 1), types=[(0, 1, "m")]))
SCENARIOS["field_bilinear"] = (mapping, dict(n=(2, 1), kind="bilinear", points=(3, 4, 1), curvature=False, boundary=True))
