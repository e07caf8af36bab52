"""C31: operations leave the meshes and lists they are given as they were, and nothing is shared with what they return."""

from .boxes import grid
from .common import FIELDS, arr_list, get_bc, same_snapshot, set_bc, set_vertex, snapshot, vertex


def build(env, tag, n=(2, 1), ndim=2, nbc=1, free=(0,), types=(), conds=(), offset=0.0, var=None, periodic=()):
    """a mesh with some arbitrary vertices, curvature types and conditions"""
    xs = [offset + float(i) for i in range(n[0] + 1)]
    d = grid(env, n[0], n[1], n[2] if len(n) > 2 else 1, ndim=ndim, nbc=nbc, xs=xs, periodic=periodic)
    for e in free:
        el = d.elem[e]
        for v in range(2**ndim):
            p = vertex(el, v)
            set_vertex(el, v, [p[i] + env.real(f"{tag}v{e}_{v}_{i}", -0.1, 0.1) for i in range(2)])
    for e, g, ts in types:
        el = d.elem[e]
        el.ccurv[g] = env.string(f"{tag}t{e}_{g}", list(ts))
        for i in range(5):
            el.curv[g, i] = env.real(f"{tag}c{e}_{g}_{i}", 2.0, 9.0)
    for b, e, f, ts in conds:
        set_bc(d.elem[e], b, f, env.string(f"{tag}b{b}_{e}_{f}", list(ts)), e + 1, f + 1, env.int(f"{tag}g{b}_{e}_{f}", 1, d.nel), 2, env.real(f"{tag}p{b}_{e}_{f}"))
    if var:
        d.var = list(var)
    d.update_ncurv()
    d.time, d.istep = 1.5, 7
    return d


def spoil_element(env, el, x, k):
    for f in FIELDS + ("curv",):
        a = getattr(el, f)
        if len(arr_list(a)):
            a[...] = x
    for i in range(len(el.ccurv)):
        el.ccurv[i] = "z"
    for b in range(el.bcs.shape[0]):
        for f in range(6):
            set_bc(el, b, f, "zz", k, k, k, k, x, x, x)


def spoil(env, d, x, k):
    """everything in a mesh is changed in place"""
    for el in d.elem:
        spoil_element(env, el, x, k)
    d.elmap[...] = 99
    for name in ("var", "lr1"):
        v = getattr(d, name)
        if isinstance(v, list):
            for i in range(len(v)):
                v[i] = 9
    d.elem.reverse()
    d.elem.pop()
    d.nel, d.ncurv, d.nbc, d.ndim, d.time, d.istep = -1, -1, -1, -1, -1.0, -1


def element(env, el):
    return [arr_list(getattr(el, f)) for f in FIELDS + ("curv",)] + [list(el.ccurv)] + [list(get_bc(el, b, f)) for b in range(el.bcs.shape[0]) for f in range(6)]


def untouched(env, meshes, lists, run):
    """run() gives the meshes it made; every mesh and list must be as before, also once the made ones are spoilt"""
    x = env.real("spoilt", 1000.0, 2000.0)
    k = env.int("spoilt_number", 77, 88)
    before = [(n, d, snapshot(env, d)) for n, d in meshes.items()]
    copies = [(n, v, list(v)) for n, v in lists.items()]

    def compare(when):
        for n, d, s in before:
            same_snapshot(env, f"{n}{when}", snapshot(env, d), s)
        for n, v, c in copies:
            env.eq(f"{n}{when}", list(v), c)

    made = run()
    compare("")
    for m in made:
        env.check("a mesh of its own", all(m is not d for d in meshes.values()))
        mine = [id(el) for el in m.elem]
        env.check("elements of its own", len(set(mine)) == len(mine) and all(id(el) not in mine for d in meshes.values() for el in d.elem))
        # no two elements share anything
        others = [element(env, el) for el in m.elem[1:]]
        spoil_element(env, m.elem[0], x, k)
        env.eq("the other elements of the result, when one is changed", [element(env, el) for el in m.elem[1:]], others)
        spoil(env, m, x, k)
    compare(", after the result is changed")


CONDS = ("", "E", "W", "P", "con")


def extrude(env, internal=True, ends=("W", "O"), array=False, nbc=1, n=(2, 1), conds=((0, 1, 1, CONDS),), **k):
    d = build(env, "m", n, nbc=nbc, types=[(0, 0, ("", "m", "C")), (1, 2, ("", "m", "C"))], conds=conds if nbc else (), **k)
    z = [env.real("z0", -5.0, 5.0)]
    for i in range(2):
        z.append(z[-1] + env.real(f"dz{i}", 0.1, 5.0))
    zz = env.arr(z) if array else z
    b1, b2 = [ends[0]] * nbc, [ends[1]] * nbc
    untouched(env, {"the 2D mesh": d}, {"the heights": zz, "the first conditions": b1, "the second conditions": b2},
              lambda: [env.mod("meshtools").extrude(d, zz, b1, b2, internal_bcs=internal)])


def extrude_default(env, internal=True):
    d = build(env, "m", (2, 1), periodic=(0,))
    z = [0.0, env.real("z1", 0.5, 1.0), env.real("z2", 1.5, 2.0)]
    untouched(env, {"the 2D mesh": d}, {"the heights": z}, lambda: [env.mod("meshtools").extrude(d, z, internal_bcs=internal)])


def refine(env, split=True, internal=True, nbc=1):
    d = grid(env, 3, 1, nbc=nbc)
    z = [env.real("z0", -5.0, 5.0)]
    for i in range(4):
        z.append(z[-1] + env.real(f"dz{i}", 0.5, 2.0))
    zz = env.arr(z)
    b1, b2 = ["W"] * nbc, ["O"] * nbc
    fun, par = [lambda x, y, p: x - p], [1.5]
    kw = dict(fun=fun, funpar=par) if split else {}
    untouched(env, {"the 2D mesh": d}, {"the heights": zz, "the first conditions": b1, "the second conditions": b2, "the parameters": par, "the functions": fun},
              lambda: [env.mod("meshtools").extrude_refine(d, zz, bc1=b1, bc2=b2, internal_bcs=internal, **kw)])


def mid(env, internal=True):
    d = grid(env, 1, 1, nbc=1)
    z = [env.real("z0", -5.0, 5.0)]
    for i in range(4):
        z.append(z[-1] + env.real(f"dz{i}", 0.5, 2.0))
    zz = env.arr(z)
    b1, b2 = ["W"], ["O"]
    untouched(env, {"the 2D mesh": d}, {"the heights": zz, "the first conditions": b1, "the second conditions": b2},
              lambda: [env.mod("meshtools").extrude_mid(d, zz, b1, b2, lambda x, y, p: x - p, 0.5, internal_bcs=internal)])


def mapped(env, nbc=1):
    d = build(env, "m", (2, 1), nbc=nbc, types=[(0, 0, ("", "m")), (1, 2, ("", "m"))], conds=[(0, 1, 1, CONDS)], var=[2, 2, 1, 0, 0])
    c, b = env.flag("curvature"), env.flag("boundary")
    untouched(env, {"the mesh": d}, {}, lambda: [env.mod("meshtools").map2D(d, lambda x, y: (x + y * y, 2.0 * y - x), curvature=c, boundary_curvature=b)])


def merged(env, ndim=2, internal=True, nbc=1, gap=True, **opts):
    n = (2, 1) if ndim == 2 else (2, 1, 1)
    a = build(env, "a", n, ndim, nbc, free=())
    b = build(env, "b", n, ndim, nbc, free=(), types=[(0, 0, ("", "m", "C"))], conds=[(0, 1, 1, CONDS)] if nbc else (), offset=2.0 + (env.real("gap", -0.3, 0.3) if gap else 0.0))

    def run():
        a.merge(b, **opts)
        return [a]

    untouched(env, {"the mesh merged in": b}, {}, run)


def merged_itself(env):
    """a copy-on-merge: merging the same mesh twice"""
    a = build(env, "a", (1, 1), free=())
    b = build(env, "b", (1, 1), free=(), offset=1.0 + env.real("gap", -0.3, 0.3))

    def run():
        a.merge(b)
        a.merge(b, ignore_all_bcs=True)
        return [a]

    untouched(env, {"the mesh merged in": b}, {}, run)


def checks(env, what, ndim=2):
    n = (2, 1) if ndim == 2 else (2, 1, 1)
    conds = [(0, 0, 0, CONDS), (0, 1, 1, ("P", "E", ""))]
    far = what in ("connectivity", "radii")
    d = build(env, "m", n, ndim, 1, free=() if far else (0,), types=[(0, 0, ("", "m", "C"))], conds=conds)
    if far:
        x = env.real("moved", -0.1, 0.1)
        for el in d.elem[1:] if what == "connectivity" else []:
            el.pos[0, ...] = el.pos[0, ...] + x
    mt = env.mod("meshtools")

    def run():
        if what == "connectivity":
            env.raises(ValueError, lambda: d.check_connectivity(tol=env.real("tol", 0.01, 0.5)))
        elif what == "conditions":
            env.raises(ValueError, lambda: d.check_bcs_present())
        elif what == "geometry":
            for el in d.elem:
                for i in range(3):
                    el.centroid[i] = 5.0
                el.smallest_edge()
                for f in range(2 * ndim):
                    el.face_center(f)
        elif what == "limits":
            lims = d.lims
            for k in FIELDS:
                getattr(lims, k)
        elif what == "points":
            p = d.get_points() if hasattr(d, "get_points") else None
            if p is not None:
                p[...] = 77.0
        elif what == "midpoints":
            for el in d.elem:
                for g in range(4):
                    if el.ccurv[g] != "C":
                        m = mt.edge_mid(el, g)
                        env.check("three coordinates", len(m) == 3)
                        if hasattr(m, "shape"):
                            m[...] = 77.0
        elif what == "radii":
            for el in d.elem:
                p, q = vertex(el, 0), vertex(el, 1)
                m = [(p[0] + q[0]) / 2, (p[1] + q[1]) / 2 - env.pick(f"h{d.elem.index(el)}", [0.0, 0.125, 0.3, -0.2]), 0.0]
                arg = env.arr(m)
                mt.edge_circle(el, 0, arg)
                env.eq("the midpoint given", arr_list(arg), m)
        return []

    untouched(env, {"the mesh": d}, {}, run)


def kept_list(env, kind):
    d = build(env, "m", (3, 1), free=())
    want = env.pick("kept", [[0], [2, 0], [1, 2, 0], [2, 1]])
    arg = env.np.array(want) if kind == "array" else list(want)
    env.mod("meshtools").keep_elements(d, arg)
    env.eq("the list of elements", list(arg), want)


def box(env, var=(2, 2, 1, 0, 0), default=False, internal=True):
    mt = env.mod("meshtools")
    x = env.real("x0", -5.0, 5.0)
    w = env.real("w", 0.5, 5.0)
    spoilt, k = env.real("spoilt", 1000.0, 2000.0), env.int("spoilt_number", 77, 88)
    v = list(var)
    nbc = (1 if v[1] else 0) + (1 if v[3] else 0) + v[4]
    sides = [[env.string(f"s{i}", ["W", "v", "O"])] * nbc for i in range(4)]
    copies = [list(s) for s in sides]
    kw = dict(zip(("bcs_xmin", "bcs_xmax", "bcs_ymin", "bcs_ymax"), sides))
    if not default:
        kw["var"] = v

    def make():
        return mt.gen_box(2, 1, x, x + w, 0.0, 1.0, internal_bcs=internal, **kw)

    a = make()
    b = make()
    env.eq("the list of variables", v, list(var))
    env.eq("the lists of conditions", sides, copies)
    sa, sb = snapshot(env, a), snapshot(env, b)
    same_snapshot(env, "made twice", sb, sa)
    spoil(env, a, spoilt, k)
    same_snapshot(env, "the other box, after one is changed", snapshot(env, b), sb)
    env.eq("the list of variables, later", v, list(var))
    env.eq("the lists of conditions, later", sides, copies)
    same_snapshot(env, "made after one was changed", snapshot(env, make()), sb)


def circle(env, var=(2, 2, 1, 0, 0), default=False, internal=True):
    mt = env.mod("meshtools")
    r = env.real("r", 0.5, 5.0)
    spoilt, k = env.real("spoilt", 1000.0, 2000.0), env.int("spoilt_number", 77, 88)
    v = list(var)
    nbc = (1 if v[1] else 0) + (1 if v[3] else 0) + v[4]
    side = ["W"] * nbc
    kw = {} if default else {"var": v}

    def make():
        return mt.gen_circle(r, 0.5, 1, 1, bc=side, internal_bcs=internal, curvature_fun=lambda t: t, bl_fun=lambda t: t, **kw)

    a = make()
    b = make()
    env.eq("the list of variables", v, list(var))
    env.eq("the list of conditions", side, ["W"] * nbc)
    sb = snapshot(env, b)
    same_snapshot(env, "made twice", sb, snapshot(env, a))
    others = [element(env, el) for el in a.elem[1:]]
    spoil_element(env, a.elem[0], spoilt, k)
    env.eq("the other elements, when one is changed", [element(env, el) for el in a.elem[1:]], others)
    spoil(env, a, spoilt, k)
    same_snapshot(env, "the other circle, after one is changed", snapshot(env, b), sb)
    env.eq("the list of variables, later", v, list(var))
    env.eq("the list of conditions, later", side, ["W"] * nbc)
    same_snapshot(env, "made after one was changed", snapshot(env, make()), sb)


SCENARIOS = {
    "extrude": (extrude, dict()),
    "extrude_array": (extrude, dict(array=True, internal=False)),
    "extrude_periodic": (extrude, dict(ends=("P", "P"), nbc=2, conds=[(1, 1, 1, CONDS)])),
    "extrude_fields": (extrude, dict(nbc=3, conds=[(2, 0, 3, CONDS)], var=[2, 2, 1, 1, 1])),
    "extrude_no_fields": (extrude, dict(nbc=0)),
    "extrude_default": (extrude_default, dict()),
    "extrude_default_without": (extrude_default, dict(internal=False)),
    "refine": (refine, dict(), {"cost": 3}),
    "refine_without": (refine, dict(internal=False), {"cost": 3}),
    "refine_plain": (refine, dict(split=False)),
    "refine_fields": (refine, dict(nbc=2), {"cost": 3}),
    "mid": (mid, dict()),
    "mid_without": (mid, dict(internal=False)),
    "map": (mapped, dict()),
    "map_fields": (mapped, dict(nbc=2)),
    "merge": (merged, dict()),
    "merge_3d": (merged, dict(ndim=3)),
    "merge_all": (merged, dict(ignore_empty=False)),
    "merge_no_conditions": (merged, dict(ignore_all_bcs=True)),
    "merge_no_fields": (merged, dict(nbc=0)),
    "merge_fields": (merged, dict(nbc=2, gap=False)),
    "merge_twice": (merged_itself, dict()),
    "keep_list": (kept_list, dict(kind="list")),
    "keep_array": (kept_list, dict(kind="array")),
    "box": (box, dict()),
    "box_default": (box, dict(default=True)),
    "box_fields": (box, dict(var=(2, 2, 1, 1, 2), internal=False)),
    "circle": (circle, dict()),
    "circle_default": (circle, dict(default=True, internal=False)),
    "circle_fields": (circle, dict(var=(2, 2, 1, 1, 0))),
}
for _w in ("connectivity", "conditions", "geometry", "limits", "points", "midpoints", "radii"):
    for _d in (2, 3):
        if _w in ("midpoints", "radii") and _d == 3:
            continue
        SCENARIOS[f"{_w}_{_d}d"] = (checks, dict(what=_w, ndim=_d))
