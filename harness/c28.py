"""C28: rotate_2d is a rigid rotation about the given point and changes nothing else."""

from .common import arr_list, get_bc, hexa, set_bc, snapshot


def body(env, ndim, lr1, nel, nbc, edges=(), var=None, span=50.0):
    d = hexa(env, ndim, nel, list(lr1), list(var or [ndim, 0, 0, 0, 0]), nbc)
    pts = []
    for ie, el in enumerate(d.elem):
        p = env.reals(f"p{ie}", (ndim, lr1[2], lr1[1], lr1[0]), -span, span)
        el.pos[0:ndim, ...] = p
        pts.append(p)
        for b in range(nbc):
            for f in range(2 * ndim):
                set_bc(el, b, f, ["E", "W", "P", ""][(ie + f) % 4], ie + 1, f + 1, 1.0 + f, 2.0)
        for f in ("vel", "pres", "temp", "scal"):
            a = getattr(el, f)
            if a.size:
                a[...] = 0.5 * (ie + 1)
    for k, (ie, e, types) in enumerate(edges):
        el = d.elem[ie]
        el.ccurv[e] = env.string(f"c{k}", list(types)) if not isinstance(types, str) else types
        for j in range(3):
            el.curv[e, j] = env.real(f"m{k}_{j}", -span, span)
    d.update_ncurv()
    return d


def expect(env, L, p, q, x0, y0, c, s, tol):
    env.close(L + ": x", q[0], x0 + c * (p[0] - x0) - s * (p[1] - y0), tol)
    env.close(L + ": y", q[1], y0 + s * (p[0] - x0) + c * (p[1] - y0), tol)


def others(env, d, before, after, ndim):
    env.check("metadata", env.all([env.equal(x, y) for x, y in zip(before["meta"], after["meta"])]))
    env.eq("element map", before["elmap"], after["elmap"])
    for ie, (x, y) in enumerate(zip(before["elem"], after["elem"])):
        for k in ("vel", "pres", "temp", "scal", "ccurv", "bcs"):
            env.eq(f"{k} of element {ie + 1}", x[k], y[k])


def rotate(env, theta=None, centre=None, restore=False, **k):
    d = body(env, **k)
    ndim, lr1, nel = k["ndim"], k["lr1"], k["nel"]
    m = env.mod("meshtools")
    if theta is None:
        t, c, s = env.angle("a")
    else:
        t = theta
        import math

        c, s = math.cos(t), math.sin(t)
    x0, y0 = (env.real("x0", -20.0, 20.0), env.real("y0", -20.0, 20.0)) if centre is None else centre
    before = snapshot(env, d)
    old = [[[arr_list(el.pos[i]) for i in range(3)], [[el.curv[e, j] for j in range(5)] for e in range(12)]] for el in d.elem]
    m.rotate_2d(d, x0, y0, t)
    others(env, d, before, snapshot(env, d), ndim)
    for ie, el in enumerate(d.elem):
        new = [arr_list(el.pos[i]) for i in range(3)]
        env.eq(f"z of element {ie + 1}", new[2], old[ie][0][2])
        for n in range(len(new[0])):
            expect(env, f"point {n} of element {ie + 1}", (old[ie][0][0][n], old[ie][0][1][n]), (new[0][n], new[1][n]), x0, y0, c, s, 1e-9)
        for e in range(12):
            was, now = old[ie][1][e], [el.curv[e, j] for j in range(5)]
            if el.ccurv[e] == "m" or el.ccurv[e] == "s":
                # a midpoint, or the centre of a sphere
                expect(env, f"midpoint of edge {e + 1} of element {ie + 1}", was[:2], now[:2], x0, y0, c, s, 1e-9)
                env.eq(f"the rest of edge {e + 1} of element {ie + 1}", now[2:], was[2:])
            else:
                env.eq(f"curvature of edge {e + 1} of element {ie + 1}", now, was)
    if restore:
        m.rotate_2d(d, x0, y0, -t)
        for ie, el in enumerate(d.elem):
            env.close(f"rotated back, element {ie + 1}", arr_list(el.pos), [x for i in range(3) for x in old[ie][0][i]], 1e-8)
            for e in range(12):
                env.close(f"rotated back, edge {e + 1} of element {ie + 1}", [el.curv[e, j] for j in range(5)], old[ie][1][e], 1e-8)


ANY = ("m", "C", "")
SCENARIOS = {
    "2d": (rotate, dict(ndim=2, lr1=(2, 2, 1), nel=2, nbc=1, edges=[(0, 0, ANY), (1, 3, ANY)])),
    "2d_edges": (rotate, dict(ndim=2, lr1=(2, 2, 1), nel=1, nbc=0, edges=[(0, 1, ANY), (0, 2, "m")])),
    "2d_order": (rotate, dict(ndim=2, lr1=(4, 3, 1), nel=1, nbc=1, var=[2, 2, 1, 1, 1], edges=[(0, 3, "m")])),
    "3d": (rotate, dict(ndim=3, lr1=(2, 2, 2), nel=2, nbc=2, edges=[(0, 5, ANY), (1, 11, ("m", ""))])),
    "3d_edges": (rotate, dict(ndim=3, lr1=(2, 2, 2), nel=1, nbc=1, edges=[(0, e, "m") for e in range(12)])),
    "3d_order": (rotate, dict(ndim=3, lr1=(2, 3, 4), nel=1, nbc=1, var=[3, 3, 1, 0, 0])),
    "origin": (rotate, dict(ndim=2, lr1=(2, 2, 1), nel=2, nbc=1, centre=(0, 0), edges=[(1, 2, "m")])),
    "back": (rotate, dict(ndim=2, lr1=(2, 2, 1), nel=1, nbc=1, edges=[(0, 1, "m"), (0, 2, "C")], restore=True)),
    "centre_x": (rotate, dict(ndim=2, lr1=(2, 2, 1), nel=1, nbc=1, centre=(3.0, 0), edges=[(0, 0, "m")])),
}
for _i, _t in enumerate((0.0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966, 0.3, 7.0, 100.0)):
    SCENARIOS[f"angle_{_i}"] = (rotate, dict(ndim=2, lr1=(2, 2, 1), nel=1, nbc=1, theta=_t, edges=[(0, 3, "m")], restore=True))
SCENARIOS["seven"] = (rotate, dict(ndim=3, lr1=(2, 2, 2), nel=7, nbc=1, edges=[(6, 11, ANY)]))
SCENARIOS["hundreds"] = (rotate, dict(ndim=2, lr1=(2, 2, 1), nel=300, nbc=1, edges=[(299, 3, ANY)]), {"cost": 4})
# spheres, whose centres move
SCENARIOS["spheres"] = (rotate, dict(ndim=3, lr1=(2, 2, 2), nel=2, nbc=1, edges=[(0, 5, ("m", "C", "", "s")), (1, 11, ("s", "m"))]))
SCENARIOS["sphere_back"] = (rotate, dict(ndim=3, lr1=(2, 2, 2), nel=1, nbc=0, edges=[(0, 3, "s"), (0, 8, "s")], restore=True))
