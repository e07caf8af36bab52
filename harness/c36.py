"""C36: a request that is refused changes nothing: no mesh, no list, no file."""

from .boxes import grid
from .c31 import CONDS, build
from .common import fill, get_bc, hexa, mesh, same_snapshot, set_bc, set_vertex, snapshot, vertex


def unchanged(env, meshes, lists, exc, run):
    """run() is refused, and everything is as before"""
    before = [(n, d, snapshot(env, d)) for n, d in meshes.items()]
    copies = [(n, v, list(v)) for n, v in lists.items()]
    env.check("refused", env.raises(exc, run) is not None)
    for n, d, s in before:
        same_snapshot(env, n, snapshot(env, d), s)
        env.eq(f"{n}: types", [type(d.lr1).__name__, type(d.var).__name__], ["list", "list"])
    for n, v, c in copies:
        env.eq(n, list(v), c)


def writer(env, what):
    """a file that is there stays as it is, one that is not is not made"""
    name = {"word": "out0.f00001", "order": "out.re2", "geometry": "out.re2"}[what]
    if what == "word":
        d = hexa(env, env.pick("ndim", [2, 3]), 2, (2, 2, 1), [2, 2, 1, 0, 1])
        fill(env, d)
        d.wdsz = env.pick("wdsz", [0, 1, 2, 3, 5, 7, 16, 32, 64, -4])
        fn = env.mod("neksuite.field").writenek
    else:
        nd = env.pick("ndim", [2, 3])
        lr1, var = [2, 2, nd - 1], [nd, 0, 0, 0, 0]
        if what == "order":
            lr1 = env.pick("lr1", [[3, 3, 2 * nd - 3], [2, 3, nd - 1], [1, 1, 1], [2, 2, 4 - nd], [4, 2, nd - 1]])
        else:
            var = [env.pick("n", [0, 1, 5 - nd, 4]), nd, 0, 0, 0]
        d = hexa(env, nd, 2, lr1, var, 1)
        d.lr1, d.var = list(lr1), list(var)
        for el in d.elem:
            set_bc(el, 0, 1, "W", 1, 2)
        fn = env.mod("neksuite.mesh").writere2
    d.lr1, d.var = list(d.lr1), list(d.var)
    path = env.path(name)
    old = env.pick("already there", [0, 1, 5, 40])
    cells = env.scalars_cells([env.int(f"byte{i}", -(2**31), 2**31 - 1) for i in range(old)], "i")
    if old:
        env.write(path, cells)
    unchanged(env, {"the data": d}, {}, ValueError, lambda: fn(path, d))
    env.check("a file is there as before", bool(env.exists(path)) == bool(old))
    if old:
        env.check("the file is unchanged", env.same_cells(env.read(path), cells))


def merge(env, what):
    a = build(env, "a", (2, 1), conds=[(0, 1, 1, CONDS)], types=[(0, 0, ("", "m", "C"))])
    if what == "dimensions":
        b = build(env, "b", (2, 1, 1), 3, conds=[(0, 1, 1, CONDS)], types=[(1, 5, ("", "m", "C"))], offset=2.0)
    else:
        n = env.pick("points", [3, 4, 8])
        b = hexa(env, 2, 2, [n, n, 1], [2, 0, 0, 0, 0], 1)
        b.lr1 = [n, n, 1]
        b.var = [2, 0, 0, 0, 0]
        for e, el in enumerate(b.elem):
            el.pos[0, 0, 0, 0] = env.real(f"x{e}")
            set_bc(el, 0, 0, env.string(f"t{e}", ["E", "W", "P"]), e + 1, 1, 2 - e, 3)
    if env.flag("the other way round"):
        a, b = b, a
    opts = env.pick("options", [{}, {"ignore_empty": False}, {"ignore_all_bcs": True}, {"tol": 0.5}])
    unchanged(env, {"the mesh": a, "the other mesh": b}, {}, ValueError, lambda: a.merge(b, **opts))


def keep(env, ndim=2):
    n = (3, 1) if ndim == 2 else (1, 1, 3)
    d = build(env, "m", n, ndim, conds=[(0, 1, 1 if ndim == 2 else 5, CONDS)], types=[(0, 0, ("", "m", "C"))], periodic=(0,) if ndim == 2 else ())
    bad = env.pick("number", [3, 4, 1000])
    good = env.pick("others", [[], [0], [2, 0], [1, 1], [0, 1, 2]])
    at = env.pick("at", list(range(len(good) + 1)))
    arg = good[:at] + [bad] + good[at:]
    ext = env.string("external", ["", "W", "con"])
    unchanged(env, {"the mesh": d}, {"the numbers": arg}, ValueError, lambda: env.mod("meshtools").keep_elements(d, arg, external_bc=ext))


def generate(env, ndim):
    """an edge of no length"""
    n = (2, 2) if ndim == 2 else (1, 1, 3)
    d = grid(env, *n, ndim=ndim, nbc=2, inner=False)
    for el in d.elem:
        for b in range(2):
            for f in range(2 * ndim):
                set_bc(el, b, f, "", 0, 0)
    set_bc(d.elem[0], 0, 0, env.string("t", ["", "W", "E"]), 1, 1, env.real("p"))
    e = env.pick("element", list(range(d.nel)))
    x, y = env.real("x", 5.0, 9.0), env.real("y", 5.0, 9.0)
    a, b = env.pick("edge", [(0, 1), (1, 2), (2, 3), (3, 0)] + ([(4, 5), (6, 7), (2, 6)] if ndim == 3 else []))
    p = [x, y, 0.25 if ndim == 3 else 0.0]
    set_vertex(d.elem[e], a, p)
    set_vertex(d.elem[e], b, p)
    d.lr1, d.var = list(d.lr1), list(d.var)
    unchanged(env, {"the mesh": d}, {}, ValueError, lambda: env.mod("meshtools").generate_internal_bcs(d))


def extrude(env, what, fn):
    m = env.mod("meshtools")
    d = build(env, "m", (3, 1), types=[(0, 0, ("", "m", "C"))], free=(0,) if what != "cut" else ())
    b1, b2, par = ["W"], ["O"], [1.5]
    z = [env.real("z0", -5.0, 5.0)]
    for i in range(4):
        z.append(z[-1] + env.real(f"dz{i}", 0.5, 2.0))
    if what == "ends":
        b1, b2 = env.pick("ends", [(["P"], ["W"]), (["W"], ["P"]), (["v"], ["P"])])
    elif what == "dimensions":
        d = build(env, "s", (2, 1, 1), 3)
    elif what == "order":
        d.lr1 = env.pick("lr1", [[3, 3, 1], [2, 3, 1], [2, 2, 2]])
    elif what == "geometry":
        d.var = [env.pick("n", [0, 1]), 2, 0, 0, 0]
    elif what == "layers":
        z = z[: env.pick("nz", [1, 2, 3]) + 1]
    elif what == "parameters":
        par = env.pick("par", [[], [1.5, 2.5]])
    elif what == "cut":
        # the line goes through corners: it leaves an element with one or three of them on a side
        par = [env.pick("corner", [1.25, 2.75])]
    funs = [lambda x, y, p: x + y - p] if what == "cut" else [lambda x, y, p: x - p]
    d.lr1, d.var = list(d.lr1), list(d.var)
    lists = {"the heights": z, "the first conditions": b1, "the second conditions": b2, "the parameters": par, "the functions": funs}
    inner = env.flag("internal")
    if fn == "extrude":
        run = lambda: m.extrude(d, z, b1, b2, internal_bcs=inner)
    elif fn == "mid":
        run = lambda: m.extrude_mid(d, z, b1, b2, funs[0], par[0], internal_bcs=inner)
    else:
        zz = env.np.array(z)
        run = lambda: m.extrude_refine(d, zz, b1, b2, funs, par, internal_bcs=inner)
    unchanged(env, {"the mesh": d}, lists, ValueError, run)


def checks(env, what):
    """checking a mesh that is not right leaves it as it is"""
    d = build(env, "m", (2, 1), nbc=2, types=[(0, 0, ("", "m", "C"))], free=() if what == "links" else (0,))
    if what == "links":
        set_bc(d.elem[0], env.pick("field", [0, 1]), 1, "E", 1, 2, env.pick("partner", [1, 2]), env.pick("face", [1, 2, 3]))
        run = lambda: d.check_connectivity()
    else:
        b = env.pick("field", [0, 1])
        set_bc(d.elem[1], b, env.pick("face", [0, 1, 2]), "", 0, 0)
        run = lambda: d.check_bcs_present()
    d.lr1, d.var = list(d.lr1), list(d.var)
    s = snapshot(env, d)
    out = env.raises(ValueError, run)
    env.check("refused", out is not None)
    same_snapshot(env, "the mesh", snapshot(env, d), s)


def limits(env):
    """the limits of a mesh cannot be assigned"""
    d = hexa(env, 2, 2, [2, 2, 1], [2, 2, 1, 0, 0])
    for e, el in enumerate(d.elem):
        el.pos[0:2, ...] = env.arr(env.reals(f"p{e}", (2, 1, 2, 2)))
        el.vel[0:2, ...] = env.arr(env.reals(f"v{e}", (2, 1, 2, 2)))
    lims = d.lims
    names = ["pos", "vel", "pres", "temp", "scal"]
    old = [[x for p in getattr(lims, f) for x in p] for f in names]
    name = env.pick("name", names)
    v = env.real("v")
    env.check("refused", env.raises(AttributeError, lambda: setattr(lims, name, ((v, v),))) is not None)
    env.eq("the limits", [[x for p in getattr(lims, f) for x in p] for f in names], old)


SCENARIOS = {
    "write_word": (writer, dict(what="word")),
    "write_order": (writer, dict(what="order")),
    "write_geometry": (writer, dict(what="geometry")),
    "merge_dimensions": (merge, dict(what="dimensions")),
    "merge_order": (merge, dict(what="order")),
    "keep": (keep, {}),
    "keep_3d": (keep, dict(ndim=3)),
    "generate": (generate, dict(ndim=2)),
    "generate_3d": (generate, dict(ndim=3)),
    "check_links": (checks, dict(what="links")),
    "check_present": (checks, dict(what="present")),
    "limits": (limits, {}),
}
for _f, _ws in (("extrude", ("ends", "dimensions", "order", "geometry")),
                ("mid", ("ends", "dimensions", "order", "geometry", "layers", "cut")),
                ("refine", ("ends", "dimensions", "order", "geometry", "layers", "parameters", "cut"))):
    for _w in _ws:
        SCENARIOS[f"{_f}_{_w}"] = (extrude, dict(what=_w, fn=_f))
