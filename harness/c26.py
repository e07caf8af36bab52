"""C26: gen_circle fills the disc with conforming elements whose outer edges are arcs of the circle."""

import math

from .common import bookkeeping, get_bc, vertex

CURV = [None, lambda x: x, lambda x: x * (2.0 - x), lambda x: 1.0 + 0.0 * x, lambda x: x * x]
BL = [lambda x: x, lambda x: 0.5 * x + 0.5 * x * x, lambda x: x * (2.0 - x)]


def circle(env, ns, no, r=None, s=None, curv=1, bl=0, bc=("W",), var=None, internal=True):
    r = env.real("r", 0.1, 50.0) if r is None else r
    s = env.real("s", 0.3, 0.8) if s is None else s
    kw = {"bl_fun": BL[bl]} if bl is not None else {}
    if CURV[curv] is not None:
        kw["curvature_fun"] = CURV[curv]
    nbc = len(bc)
    names = [env.string(f"bc{b}", list(c)) if isinstance(c, tuple) else c for b, c in enumerate(bc)]
    if not internal:
        kw["internal_bcs"] = False
    if var is not None:
        kw["var"] = list(var)
    d = env.mod("meshtools").gen_circle(r, s, ns, no, bc=list(names), **kw)
    nel = ns * ns + 4 * ns * no
    env.eq("shape", [d.ndim, d.nel, len(d.elem), list(d.lr1), list(d.var), d.nbc], [2, nel, nel, [2, 2, 1], list(var or [2, 2, 1, 0, 0]), nbc])
    bookkeeping(env, d, data=True)
    env.eq("curved edges", d.ncurv, 4 * ns)
    outer = {}
    tol = 1e-8
    pts = [[vertex(el, v)[:2] for v in range(4)] for el in d.elem]
    area = 0.0
    for e in range(nel):
        p = pts[e]
        for v in range(4):
            a, b, c = p[v], p[(v + 1) % 4], p[(v + 3) % 4]
            cr = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
            env.check(f"element {e + 1} is right-handed at vertex {v + 1}", cr > 0.0)
            area = area + (p[v][0] * b[1] - p[v][1] * b[0]) / 2
        for f in range(4):
            a, b = p[f], p[(f + 1) % 4]
            t = d.elem[e].ccurv[f]
            if t != "":
                outer[e, f] = True
                env.eq(f"edge {f + 1} of element {e + 1} is an arc", t, "C")
                env.close("of the circle", d.elem[e].curv[f, 0], r, 1e-9)
                env.eq("without other parameters", [d.elem[e].curv[f, j] for j in range(1, 5)], [0.0] * 4)
                for q in (a, b):
                    env.close("its ends are on the circle", q[0] * q[0] + q[1] * q[1], r * r, 1e-6)
                # the same share of the circumference for each
                env.close("of equal length", (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]), 4 * r * r * math.sin(math.pi / 4 / ns) ** 2, 1e-6)
        for f in range(4, 12):
            env.eq("no other curvature", d.elem[e].ccurv[f], "")
    # the polygon inscribed in the circle
    n = 4 * ns
    env.close("the elements fill the polygon", area, 0.5 * n * math.sin(2 * math.pi / n) * r * r, 1e-6)
    # the square in the middle
    c = 0.5 * s * r * math.sqrt(2.0)
    for e in range(ns * ns):
        i, j = e % ns, e // ns
        for v, (a, b) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
            env.close("square in the middle", pts[e][v], [c * (2 * (i + a) / ns - 1), c * (2 * (j + b) / ns - 1)], 1e-8)
    for e in range(nel):
        for b in range(nbc):
            for f in range(4):
                got = get_bc(d.elem[e], b, f)
                L = f"condition {b} of face {f + 1} of element {e + 1}"
                if (e, f) in outer:
                    env.eq(L + " on the circle", got[0], names[b])
                elif not internal:
                    env.eq(L + " is left out", got[0], "")
                else:
                    env.eq(L + " is internal", got[0], "E")
                    g, h = int(got[3]) - 1, int(got[4]) - 1
                    env.eq(L + ": the partner points back", get_bc(d.elem[g], b, h)[3:5], [e + 1, f + 1])
                    env.close(L + ": same corners", [pts[e][f], pts[e][(f + 1) % 4]], [pts[g][(h + 1) % 4], pts[g][h]], tol)
                    env.eq(L + ": own numbers", got[1:3], [e + 1, f + 1])
    if internal:
        env.check("connected", d.check_connectivity(tol=0.01))
    if bl is None and no > 1 and ns % 2 == 0 and 2 * c / ns < r - c:
        # the default spacing is uniform around the square: the first ring is as thick there as the elements of the square
        hit = [p for q in pts[ns * ns:] for p in q if -tol <= p[1] <= tol and p[0] > 0 and -1e-6 <= p[0] - c - 2 * c / ns <= 1e-6]
        env.check("the first ring is as thick as the elements of the square", len(hit) > 0)


SCENARIOS = {
    "smallest": (circle, dict(ns=1, no=1, s=0.45)),
    "smallest_wide": (circle, dict(ns=1, no=1, s=0.8)),
    "smallest_narrow": (circle, dict(ns=1, no=1, s=0.3)),
    "two_rings": (circle, dict(ns=1, no=2, bl=1, s=0.55)),
    "two_sides": (circle, dict(ns=2, no=1, s=0.5), {"cost": 3}),
    "square_2x2": (circle, dict(ns=2, no=2, s=0.5, bl=2), {"cost": 4}),
    "larger": (circle, dict(ns=3, no=3, s=0.5, bl=2), {"cost": 9}),
    "largest": (circle, dict(ns=4, no=4, s=0.6, curv=4), {"tier": "thorough", "cost": 9}),
    "sides_over_rings": (circle, dict(ns=3, no=2, s=0.5, internal=False), {"cost": 3}),
    "rings_over_sides": (circle, dict(ns=2, no=3, s=0.5, internal=False), {"cost": 3}),
    "three_sides": (circle, dict(ns=3, no=1, s=0.6, internal=False)),
    "ratio": (circle, dict(ns=1, no=1, internal=False)),
    "ratio_two_rings": (circle, dict(ns=1, no=2, curv=4, internal=False)),
    "default_curvature": (circle, dict(ns=1, no=2, curv=0, s=0.5)),
    "early": (circle, dict(ns=2, no=1, curv=2, s=0.5), {"cost": 3}),
    "round": (circle, dict(ns=1, no=2, curv=3, s=0.5)),
    "square_law": (circle, dict(ns=1, no=2, curv=4, bl=2, s=0.4)),
    "fields": (circle, dict(ns=1, no=1, s=0.5, bc=(("W", "v", "SYM"), ("t", "f")), var=[2, 2, 1, 1, 0])),
    "no_fields": (circle, dict(ns=1, no=1, s=0.5, bc=(), var=[2, 0, 0, 0, 0])),
    "without_inner": (circle, dict(ns=2, no=2, internal=False)),
}


def default_spacing(env, sizes, **k):
    """the exponential spacing of the default, for given sizes (the iteration that finds it is not encoded for all of them)"""
    r, s, ns, no = env.pick("sizes", sizes)
    circle(env, ns, no, r=r, s=s, bl=None, **k)


SOME = [(1.0, 0.5, 1, 2), (2.5, 0.7, 2, 2), (0.3, 0.4, 2, 3), (40.0, 0.6, 3, 2), (1.0, 0.45, 1, 1), (0.5, 0.5, 4, 4)]
SCENARIOS["default_spacing"] = (default_spacing, dict(sizes=SOME[:3], bc=(("W", "v"),), curv=0))
SCENARIOS["default_spacing_other"] = (default_spacing, dict(sizes=SOME[3:], bc=(("W", "v"),), curv=0))
SCENARIOS["default_spacing_curved"] = (default_spacing, dict(sizes=SOME[:5], bc=("W", "t"), var=[2, 2, 1, 1, 0], curv=4, internal=False))
SCENARIOS["default_one_layer"] = (circle, dict(ns=1, no=1, s=0.45, bl=None))
SCENARIOS["default_one_layer_sides"] = (circle, dict(ns=2, no=1, s=0.6, bl=None, internal=False))
SCENARIOS["default_coarse_square"] = (circle, dict(ns=1, no=2, s=0.8, bl=None))
COARSE = [(1.0, 0.665, 2, 3), (2.0, 0.76, 3, 2), (20.0, 0.8, 4, 3), (0.2, 0.78, 1, 4), (1000.0, 0.5, 3, 3), (1.0, 0.3, 2, 5)]
SCENARIOS["default_spacing_wide"] = (default_spacing, dict(sizes=COARSE[:3], curv=0))
SCENARIOS["default_spacing_extreme"] = (default_spacing, dict(sizes=COARSE[3:], curv=0))
SCENARIOS["many_sides"] = (circle, dict(ns=7, no=2, bl=2, s=0.5, r=2.0), {"cost": 9})
