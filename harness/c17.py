"""C17: centroid, face centres, smallest edge and point list of elements."""

from .common import EDGES, dist2, face_vertices, hexa


def corner(el, v):
    from .common import CORNERS

    z, y, x = (-k for k in CORNERS[v])
    return [el.pos[i, z, y, x] for i in range(3)]


def element(env, ndim, lr1, nel=1, planar=True):
    d = hexa(env, ndim, nel, lr1, [ndim, 0, 0, 0, 0])
    n = 2 if ndim == 2 and planar else 3
    vals = []
    for ie, el in enumerate(d.elem):
        b = env.reals(f"p{ie}", (n,) + tuple(lr1[::-1]), -100.0, 100.0)
        el.pos[0:n, ...] = env.arr(b)
        vals.append(b)
    return d, vals


def centres(env, ndim, lr1, planar=True):
    d, vals = element(env, ndim, lr1, 1, planar)
    el = d.elem[0]
    c = el.centroid
    npts = lr1[0] * lr1[1] * lr1[2]
    for i in range(3):
        want = sum(vals[0][i].reshape(-1)) / npts if i < vals[0].shape[0] else 0.0
        env.close(f"centroid, coordinate {i}", c[i], want, 1e-9)
    for f in range(2 * ndim):
        pts = [corner(el, v) for v in face_vertices(f, ndim)]
        got = el.face_center(f)
        env.eq("three coordinates", len(got), 3)
        for i in range(3):
            env.close(f"centre of face {f + 1}, coordinate {i}", got[i], sum(p[i] for p in pts) / len(pts), 1e-9)


def points(env, ndim, lr1, nel):
    d, vals = element(env, ndim, lr1, nel)
    xyz = d.get_points()
    lx, ly, lz = lr1
    env.eq("shape", tuple(xyz.shape), (nel, lx * ly * lz, 3))
    for ie in range(nel):
        for iz in range(lz):
            for iy in range(ly):
                for ix in range(lx):
                    want = [vals[ie][i, iz, iy, ix] if i < vals[ie].shape[0] else 0.0 for i in range(3)]
                    env.eq(f"point ({ix},{iy},{iz}) of element {ie + 1}", list(xyz[ie, ix + lx * (iy + ly * iz)]), want)


def edges(env, ndim, lr1, moved, span=4.0):
    """a brick, some of whose vertices are anywhere"""
    d = hexa(env, ndim, 1, lr1, [ndim, 0, 0, 0, 0])
    el = d.elem[0]
    from .common import CORNERS

    for iz in range(lr1[2]):
        for iy in range(lr1[1]):
            for ix in range(lr1[0]):
                # a skewed brick away from the origin, no two edges alike
                x, y, z = (k / max(n - 1, 1) for k, n in zip((ix, iy, iz), lr1))
                el.pos[0, iz, iy, ix] = 1.25 + 2.0 * x + 0.25 * y * z - 0.5 * x * y
                el.pos[1, iz, iy, ix] = -3.5 + 2.25 * y + 0.5 * x + 0.25 * x * z
                if ndim == 3:
                    el.pos[2, iz, iy, ix] = 2.5 + 1.75 * z - 0.25 * x * y + 0.125 * y
    for v in moved:
        z, y, x = (-k for k in CORNERS[v])
        for i in range(ndim):
            el.pos[i, z, y, x] = env.real(f"v{v}_{i}", -span, span)
    s = el.smallest_edge()
    l2 = [dist2(corner(el, a), corner(el, b)) for a, b in EDGES if a < 2**ndim and b < 2**ndim]
    env.check("not negative", s >= 0.0)
    env.check("no edge is shorter", env.all([s * s <= x + 1e-9 for x in l2]), env.all([s * s <= x + 1e-3 for x in l2]))
    env.check("an edge has this length", env.any([env.all([s * s <= x + 1e-9, s * s >= x - 1e-9]) for x in l2]),
              env.any([env.all([s * s <= x + 1e-3, s * s >= x - 1e-3]) for x in l2]))


SCENARIOS = {
    "centres_2d": (centres, dict(ndim=2, lr1=[2, 2, 1])),
    "centres_2d_tilted": (centres, dict(ndim=2, lr1=[2, 2, 1], planar=False)),
    "centres_3d": (centres, dict(ndim=3, lr1=[2, 2, 2])),
    "centres_order": (centres, dict(ndim=3, lr1=[3, 4, 3])),
    "centres_2d_order": (centres, dict(ndim=2, lr1=[4, 3, 1])),
    "points_2d": (points, dict(ndim=2, lr1=[3, 2, 1], nel=2)),
    "points_3d": (points, dict(ndim=3, lr1=[2, 3, 4], nel=3)),
    "edges_2d": (edges, dict(ndim=2, lr1=[2, 2, 1], moved=[0, 1, 2, 3])),
    "edges_2d_order": (edges, dict(ndim=2, lr1=[3, 3, 1], moved=[0, 2])),
    "edges_3d_order": (edges, dict(ndim=3, lr1=[3, 3, 3], moved=[6])),
}
for _v in range(8):
    SCENARIOS[f"edges_3d_{_v}"] = (edges, dict(ndim=3, lr1=[2, 2, 2], moved=[_v]))
SCENARIOS["edges_3d_two"] = (edges, dict(ndim=3, lr1=[2, 2, 2], moved=[0, 6]), {"cost": 5})
SCENARIOS["edges_3d_all"] = (edges, dict(ndim=3, lr1=[2, 2, 2], moved=list(range(8))), {"cost": 9, "budget": 800})
SCENARIOS["points_many"] = (points, dict(ndim=3, lr1=[3, 2, 3], nel=7))
SCENARIOS["centres_high"] = (centres, dict(ndim=3, lr1=[6, 5, 7]))
SCENARIOS["points_hundreds"] = (points, dict(ndim=2, lr1=[2, 1, 1], nel=300), {"cost": 2})
