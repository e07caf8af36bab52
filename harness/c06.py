"""C06: what writere2 stores, readre2 gives back."""

from .common import box_vertices, get_bc, leftover, mesh, set_bc, vertex

BCS = ["", "E", "W", "v", "P", "SYM", "O", "mv", "t", "int", "EXO", "e"]
CURV = ["", "C", "m", "s", "c", "e"]


def bits_mesh(env, ndim, nel, nbc, dtype="float64", sym_faces=(), sym_edges=(), other="W", wide=False, only=None, **k):
    """a mesh whose geometry, curvature and condition parameters are arbitrary"""
    d = mesh(env, ndim, nel, nbc, dtype)
    w = 64 if dtype == "float64" else 32
    for ie, el in enumerate(d.elem):
        if only is not None and ie not in only:
            box_vertices(el, [ie + 0.25 * i for i in range(3)], [ie + 1 + 0.25 * i for i in range(3)], ndim)
            continue
        b = env.bits(f"pos{ie}", (ndim, ndim - 1, 2, 2), w, **k)
        el.pos[0:ndim, ...] = env.arr(b, dtype)
        env.eq("a mesh holds the geometry it is given", el.pos[0:ndim, ...].reshape(-1), b.reshape(-1))
    for ie, edge in sym_edges:
        el = d.elem[ie]
        el.ccurv[edge] = env.string(f"ccurv{ie}_{edge}", CURV if wide or (ie, edge) == sym_edges[0] else CURV[1:3])
        par = [env.bit(f"curv{ie}_{edge}_{j}", w, **k) for j in range(5)]
        for j in range(5):
            el.curv[edge, j] = par[j]
        env.eq("a mesh holds the curvature it is given", [el.curv[edge, j] for j in range(5)], par)
    for ie, el in enumerate(d.elem):
        for ibc in range(nbc):
            for f in range(2 * ndim):
                if (ie, ibc, f) in sym_faces:
                    t = env.string(f"bc{ie}_{ibc}_{f}", BCS if wide or (ie, ibc, f) == sym_faces[0] else ["E", "SYM"])
                else:
                    t = other
                set_bc(el, ibc, f, t, ie + 1, f + 1)
                par = [0.125 * (ie + f + j) if only is not None and ie not in only else env.bit(f"bcp{ie}_{ibc}_{f}_{j}", w, **k) for j in range(5)]
                for j in range(5):
                    el.bcs[ibc, f][3 + j] = par[j]
                if only is None:
                    env.eq("a mesh holds the conditions it is given", get_bc(el, ibc, f), [t, ie + 1, f + 1] + par)
    d.update_ncurv()
    return d


def kept(env, label, a, b, ndim, nel, nbc, bits64):
    """the geometry, curvature and external conditions of b are those of a"""
    env.eq(label + "number of fields", b.nbc, nbc)
    nc = 0
    for ie in range(nel):
        x, y = a.elem[ie], b.elem[ie]
        for v in range(2**ndim):
            env.eq(label + f"vertex {v + 1} of element {ie + 1}", vertex(y, v)[:ndim], [env.f64(q) for q in vertex(x, v)[:ndim]])
        for e in range(12):
            env.eq(label + f"curvature type of edge {e + 1} of element {ie + 1}", y.ccurv[e], x.ccurv[e])
            if x.ccurv[e] != "":
                nc += 1
                env.eq(label + f"curvature of edge {e + 1} of element {ie + 1}", [y.curv[e, j] for j in range(5)], [env.f64(x.curv[e, j]) for j in range(5)])
        for ibc in range(nbc):
            for f in range(2 * ndim):
                p, q = get_bc(x, ibc, f), get_bc(y, ibc, f)
                L = label + f"condition of field {ibc}, face {f + 1} of element {ie + 1}: "
                if p[0] == "" or p[0] == "E":
                    env.eq(L + "internal faces come back empty", q[0], "")
                    env.eq(L + "internal faces carry no parameters", q[3:], [0.0] * 5)
                else:
                    env.eq(L + "type", q[0], p[0])
                    env.eq(L + "owner", [q[1], q[2]], [ie + 1, f + 1])
                    env.eq(L + "parameters", q[3:], [env.f64(z) for z in p[3:]])
    env.eq(label + "ncurv", b.ncurv, nc)


def roundtrip(env, ndim, nel, nbc, faces=(), edges=(), dtype="float64", endians=("little", "big"), only=None, over=0, stale=False):
    m = env.mod("neksuite.mesh")
    k = {} if dtype == "float64" else {"nonan": True}
    d = bits_mesh(env, ndim, nel, nbc, dtype, faces, edges, only=only, **k)
    d.endian = env.pick("endian", endians)
    if stale:
        # curvature was changed without updating the count
        d.ncurv = env.int("ncurv", 0, 999)
    path = env.path("rt.re2")
    if over:
        leftover(env, path, over)
    m.writere2(path, d)
    r = m.readre2(path)
    env.eq("ndim", r.ndim, ndim)
    env.eq("nel", r.nel, nel)
    env.eq("elements", len(r.elem), nel)
    env.eq("endian", r.endian, d.endian)
    env.eq("lr1", list(r.lr1), [2, 2, ndim - 1])
    env.eq("var", list(r.var), [ndim, 0, 0, 0, 0])
    env.eq("element map", [int(x) for x in r.elmap], list(range(1, nel + 1)))
    kept(env, "", d, r, ndim, nel, nbc, True)
    path2 = env.path("rt2.re2")
    m.writere2(path2, r)
    env.check("rewriting what was read gives the same file", env.same_cells(env.read(path), env.read(path2)))


def refuses(env):
    """meshes that an .re2 file cannot hold are refused and leave no file"""
    m = env.mod("neksuite.mesh")
    core = env.mod("core")
    nd = env.pick("ndim", (2, 3))
    lx = env.pick("lx", (2, 3))
    ly = env.pick("ly", (2, 4))
    lz = env.pick("lz", (1, 2, 3))
    v0 = env.pick("v0", (0, nd))
    if [lx, ly, lz] == [2, 2, nd - 1] and v0 == nd:
        return
    d = core.HexaData(nd, 1, [lx, ly, lz], [v0, 0, 0, 0, 0], 1)
    path = env.path("no.re2")
    env.check("refused", env.raises(ValueError, lambda: m.writere2(path, d)) is not None)
    env.check("no file left behind", not env.exists(path))


SCENARIOS = {
    "2d_bcs": (roundtrip, dict(ndim=2, nel=2, nbc=1, faces=[(0, 0, 0), (0, 0, 3), (1, 0, 2)])),
    "3d_bcs": (roundtrip, dict(ndim=3, nel=2, nbc=1, faces=[(0, 0, 1), (1, 0, 4), (1, 0, 5)])),
    "2d_two_fields": (roundtrip, dict(ndim=2, nel=2, nbc=2, faces=[(0, 0, 1), (1, 1, 2), (0, 1, 0)])),
    "3d_three_fields": (roundtrip, dict(ndim=3, nel=1, nbc=3, faces=[(0, 0, 2), (0, 1, 2), (0, 2, 5)])),
    "2d_curv": (roundtrip, dict(ndim=2, nel=2, nbc=1, edges=[(0, 0), (0, 3), (1, 2)])),
    "3d_curv": (roundtrip, dict(ndim=3, nel=2, nbc=1, edges=[(0, 7), (0, 11), (1, 0)])),
    "mixed": (roundtrip, dict(ndim=3, nel=2, nbc=2, faces=[(1, 0, 0)], edges=[(1, 8)], endians=("big",))),
    "single_precision": (roundtrip, dict(ndim=2, nel=2, nbc=1, faces=[(1, 0, 0)], edges=[(1, 1)], dtype="float32")),
    "one_element": (roundtrip, dict(ndim=3, nel=1, nbc=1, faces=[(0, 0, 0), (0, 0, 5)], edges=[(0, 4)])),
    "three_elements": (roundtrip, dict(ndim=2, nel=3, nbc=1, faces=[(2, 0, 3)], edges=[])),
    "three_elements_more": (roundtrip, dict(ndim=2, nel=3, nbc=1, faces=[(0, 0, 0), (1, 0, 1), (2, 0, 3)], edges=[(2, 3)]), {"tier": "thorough", "cost": 2}),
    "many_faces": (roundtrip, dict(ndim=2, nel=2, nbc=2, faces=[(i, b, f) for i in range(2) for b in range(2) for f in (0, 2)], edges=[(0, 1), (1, 3)]), {"tier": "thorough", "cost": 9, "budget": 800}),
    "refuses": (refuses, {}),
}
SCENARIOS["twelve_2d"] = (roundtrip, dict(ndim=2, nel=12, nbc=2, faces=[(10, 1, 3)]))
SCENARIOS["twelve_3d"] = (roundtrip, dict(ndim=3, nel=12, nbc=1, edges=[(9, 11)]))
SCENARIOS["hundreds"] = (roundtrip, dict(ndim=2, nel=300, nbc=1, edges=[(280, 1)], only=(0, 255, 256, 299)), {"cost": 4})
SCENARIOS["hundreds_conditions"] = (roundtrip, dict(ndim=3, nel=260, nbc=1, faces=[(259, 0, 5)], only=(256, 259), endians=("little",)), {"cost": 4})
SCENARIOS["overwrites"] = (roundtrip, dict(ndim=2, nel=2, nbc=1, edges=[(0, 1)], faces=[(1, 0, 2)], over=3000))
SCENARIOS["stale_count"] = (roundtrip, dict(ndim=2, nel=2, nbc=1, edges=[(0, 1), (1, 3)], endians=("little",), stale=True))
