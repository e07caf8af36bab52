"""C08: .rea files, written and read."""

from .common import CORNERS, get_bc, hexa, leftover, mesh, set_bc, set_vertex, vertex

BCS = ["", "E", "W", "v", "SYM", "mv", "O"]
CURV = ["", "C", "m", "s"]
SPAN = 1e20
TINY = 1e-20


def number(env, name):
    """zero, or a number whose exponent has two digits"""
    x = env.real(name, -SPAN, SPAN)
    env.assume(env.any([x == 0.0, x >= TINY, x <= -TINY]))
    return x


def near(env, label, got, x):
    """equal to seven significant digits"""
    env.check(label, env.all([abs(got - x) <= abs(x) * 5.0001e-7]))


def build(env, ndim, nel, nbc, verts, faces, edges, few=False):
    """a mesh with concrete data, except at the listed vertices, faces and edges"""
    d = mesh(env, ndim, nel, nbc)
    for ie, el in enumerate(d.elem):
        for v in range(2**ndim):
            set_vertex(el, v, [float(ie + CORNERS[v][2]), float(CORNERS[v][1]), float(CORNERS[v][0])][:ndim])
        for ibc in range(nbc):
            for f in range(2 * ndim):
                set_bc(el, ibc, f, "W" if f else "", ie + 1 if f else 0, f + 1 if f else 0)
    for ie, v in verts:
        set_vertex(d.elem[ie], v, [number(env, f"x{ie}_{v}_{i}") for i in range(ndim)])
    for ie, e in edges:
        el = d.elem[ie]
        el.ccurv[e] = env.string(f"ccurv{ie}_{e}", CURV if (ie, e) == edges[0] and not few else CURV[2:])
        for j in range(5):
            el.curv[e, j] = number(env, f"curv{ie}_{e}_{j}")
    for ie, ibc, f in faces:
        t = env.string(f"bc{ie}_{ibc}_{f}", BCS if (ie, ibc, f) == faces[0] and not few else ["W", "E", "SYM"] if few else ["W", "E", ""])
        set_bc(d.elem[ie], ibc, f, t, ie + 1, f + 1)
        bc = d.elem[ie].bcs[ibc, f]
        if t == "":
            set_bc(d.elem[ie], ibc, f, "", 0, 0)
        elif t == "E":
            # connection to another face, by number
            bc[3] = env.int(f"partner{ie}_{ibc}_{f}", 1, nel) * 1.0
            bc[4] = env.int(f"pface{ie}_{ibc}_{f}", 1, 2 * ndim) * 1.0
        else:
            for j in range(5):
                bc[3 + j] = number(env, f"bcp{ie}_{ibc}_{f}_{j}")
    d.update_ncurv()
    return d


def kept(env, d, r, ndim, nel, nbc, els):
    env.eq("ndim", r.ndim, ndim)
    env.eq("nel", [r.nel, len(r.elem)], [nel, nel])
    env.eq("number of fields", r.nbc, nbc)
    env.eq("lr1", list(r.lr1), [2, 2, ndim - 1])
    env.eq("var", list(r.var), [ndim, 0, 0, 0, 0])
    env.eq("ncurv", r.ncurv, d.ncurv)
    for ie in els:
        a, b = d.elem[ie], r.elem[ie]
        for v in range(2**ndim):
            for i in range(ndim):
                near(env, f"vertex {v + 1} of element {ie + 1}", vertex(b, v)[i], vertex(a, v)[i])
        for e in range(12):
            env.eq(f"curvature type of edge {e + 1} of element {ie + 1}", b.ccurv[e], a.ccurv[e])
            for j in range(5):
                near(env, f"curvature of edge {e + 1} of element {ie + 1}", b.curv[e, j], env.ite(a.ccurv[e] == "", 0.0, a.curv[e, j]))
        for ibc in range(nbc):
            for f in range(2 * ndim):
                p, q = get_bc(a, ibc, f), get_bc(b, ibc, f)
                L = f"condition of field {ibc}, face {f + 1} of element {ie + 1}: "
                env.eq(L + "type", q[0], p[0])
                env.eq(L + "owner", [q[1], q[2]], [p[1], p[2]])
                for j in range(3, 8):
                    near(env, L + f"parameter {j - 2}", q[j], p[j])


WIDE = [-1.234567e-105, 9.876543e299, -4.5e-300, 1.25e100]


def exponents(env, ndim, nel):
    """three-digit exponents: the numbers fill their columns"""
    m = env.mod("neksuite.mesh")
    w = env.pick("which", [0, 1, 2, 3])
    nums = [WIDE[(w + i) % 4] for i in range(5)]
    d = mesh(env, ndim, nel, 1)
    for ie, el in enumerate(d.elem):
        for v in range(2**ndim):
            set_vertex(el, v, [nums[(v + i) % 5] for i in range(ndim)])
        for f in range(2 * ndim):
            set_bc(el, 0, f, "v", ie + 1, f + 1, *nums)
    for e in range(12 if ndim == 3 else 4):
        d.elem[-1].ccurv[e] = "s"
        for j in range(5):
            d.elem[-1].curv[e, j] = nums[j]
    d.update_ncurv()
    path = env.path("wide.rea")
    m.writerea(path, d)
    kept(env, d, m.readrea(path), ndim, nel, 1, sorted({0, nel - 1}))


def points(env, ndim, n):
    """only the corners of elements of more points are written"""
    m = env.mod("neksuite.mesh")
    d = hexa(env, ndim, 2, [n, n, n if ndim == 3 else 1], [ndim, 0, 0, 0, 0], 1)
    for ie, el in enumerate(d.elem):
        for i in range(ndim):
            el.pos[i] = env.np.full(el.pos[i].shape, -77.0)
        for v in range(2**ndim):
            set_vertex_ends(el, v, [number(env, f"x{ie}_{v}_{i}") if ie == 1 and v % 3 == 1 else 1.0 * v + 10 * i for i in range(ndim)])
        for f in range(2 * ndim):
            set_bc(el, 0, f, "W", ie + 1, f + 1)
    path = env.path("points.rea")
    m.writerea(path, d)
    r = m.readrea(path)
    env.eq("lr1", list(r.lr1), [2, 2, ndim - 1])
    for ie in range(2):
        for v in range(2**ndim):
            z, y, x = (-c for c in CORNERS[v])
            for i in range(ndim):
                near(env, f"vertex {v + 1} of element {ie + 1}", vertex(r.elem[ie], v)[i], d.elem[ie].pos[i, z, y, x])


def set_vertex_ends(el, v, xyz):
    z, y, x = (-c for c in CORNERS[v])
    for i, c in enumerate(xyz):
        el.pos[i, z, y, x] = c


def roundtrip(env, ndim, nel, nbc, verts=(), faces=(), edges=(), few=False, over=0, stale=False):
    m = env.mod("neksuite.mesh")
    d = build(env, ndim, nel, nbc, verts, faces, edges, few)
    ncurv = d.ncurv
    if stale:
        # curvature was changed without updating the count
        d.ncurv = env.int("ncurv", 0, 999)
    path = env.path("rt.rea")
    if over:
        leftover(env, path, over)
    m.writerea(path, d)
    r = m.readrea(path)
    d.ncurv = ncurv
    els = range(nel) if nel < 10 else sorted({0, nel - 1} | {x[0] for x in list(verts) + list(faces) + list(edges)})
    kept(env, d, r, ndim, nel, nbc, els)


def huge(env, ndim, nel):
    """the column layout of meshes of a million elements or more, on the first elements"""
    m = env.mod("neksuite.mesh")
    env.huge(nel, 2)
    d = mesh(env, ndim, nel, 1)
    if len(d.elem) != 2:
        return  # the mesh was built by other means than a loop
    for ie, el in enumerate(d.elem):
        for v in range(2**ndim):
            set_vertex(el, v, [number(env, f"x{ie}_{v}_{i}") if (ie, v) == (1, 1) else 1.0 * v for i in range(ndim)])
        for f in range(2 * ndim):
            set_bc(el, 0, f, "v", env.int(f"own{f}", 1, nel) if ie else 1, f + 1)
            for j in range(5):
                el.bcs[0, f][3 + j] = number(env, f"bcp{f}_{j}") if (ie, f) == (1, 1) else 0.0
    el = d.elem[1]
    bc = el.bcs[0, 2]
    bc[0] = "E"
    bc[3], bc[4] = env.int("partner", 1, nel) * 1.0, 2.0
    el.ccurv[3] = "m"
    for j in range(5):
        el.curv[3, j] = number(env, f"c{j}")
    d.ncurv = 1
    path = env.path("huge.rea")
    try:
        m.writerea(path, d)
        r = m.readrea(path)
    except IndexError:
        return  # the elements are visited by other means than a range
    env.eq("number of elements", r.nel, nel)
    if len(r.elem) != 2:
        return
    for ie in range(2):
        a, b = d.elem[ie], r.elem[ie]
        for v in range(2**ndim):
            for i in range(ndim):
                near(env, f"vertex {v + 1} of element {ie + 1}", vertex(b, v)[i], vertex(a, v)[i])
        for e in range(12):
            env.eq("curvature type", b.ccurv[e], a.ccurv[e])
            for j in range(5):
                near(env, "curvature", b.curv[e, j], a.curv[e, j])
        for f in range(2 * ndim):
            p, q = get_bc(a, 0, f), get_bc(b, 0, f)
            env.eq("type", q[0], p[0])
            env.eq("owner", [q[1], q[2]], [p[1], p[2]])
            for j in range(3, 8):
                near(env, f"parameter {j - 2}", q[j], p[j])


SCENARIOS = {
    "2d": (roundtrip, dict(ndim=2, nel=2, nbc=1, verts=[(0, 0), (1, 3), (1, 2)], faces=[(0, 0, 1), (1, 0, 3)], edges=[(0, 2)])),
    "3d": (roundtrip, dict(ndim=3, nel=2, nbc=1, verts=[(0, 1), (1, 4), (1, 7)], faces=[(1, 0, 5)], edges=[(0, 0), (1, 10)])),
    "two_fields": (roundtrip, dict(ndim=2, nel=2, nbc=2, verts=[(0, 2)], faces=[(1, 1, 2), (0, 0, 0)], edges=[])),
    "three_fields": (roundtrip, dict(ndim=3, nel=1, nbc=3, verts=[(0, 3)], faces=[(0, 2, 4), (0, 1, 4)], edges=[(0, 11)])),
    "no_conditions": (roundtrip, dict(ndim=3, nel=2, nbc=0, verts=[(0, 5)], edges=[(1, 3)])),
    "all_vertices_2d": (roundtrip, dict(ndim=2, nel=3, nbc=1, verts=[(i, v) for i in range(3) for v in range(4)])),
    "all_vertices_3d": (roundtrip, dict(ndim=3, nel=1, nbc=1, verts=[(0, v) for v in range(8)])),
    "999": (roundtrip, dict(ndim=2, nel=999, nbc=1, verts=[(998, 1)], faces=[(998, 0, 1)], edges=[(998, 3)], few=True), {"cost": 3}),
    "1000": (roundtrip, dict(ndim=2, nel=1000, nbc=1, verts=[(999, 1)], faces=[(999, 0, 1)], edges=[(999, 3)], few=True), {"cost": 3}),
    "exponents_2d": (exponents, dict(ndim=2, nel=2)),
    "exponents_3d": (exponents, dict(ndim=3, nel=2)),
    "exponents_1000": (exponents, dict(ndim=2, nel=1000), {"cost": 4}),
    "points_2d": (points, dict(ndim=2, n=3)),
    "points_3d": (points, dict(ndim=3, n=4)),
    "million": (huge, dict(ndim=3, nel=1000000)),
    "ten_million": (huge, dict(ndim=2, nel=12345678)),
    "1000_3d": (roundtrip, dict(ndim=3, nel=1000, nbc=1, verts=[(999, 1)], faces=[(999, 0, 5)], edges=[(999, 10)]), {"cost": 4, "tier": "thorough"}),
}
SCENARIOS["overwrites"] = (roundtrip, dict(ndim=2, nel=1, nbc=1, verts=[(0, 0)], faces=[(0, 0, 1)], edges=[(0, 2)], over=20000))
SCENARIOS["stale_count"] = (roundtrip, dict(ndim=2, nel=2, nbc=1, edges=[(0, 1), (1, 3)], faces=[(1, 0, 0)], stale=True))
