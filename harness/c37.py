"""C37: a call depends on what it is given and on the files as they are now, not on earlier calls."""

import importlib

from .boxes import grid
from .c10 import ma2_cells
from .c11 import dns_cells, header_inputs
from .c12 import plane_cells
from .c14 import file_of, lines, positions
from .c31 import build, spoil
from .common import FIELDS, arr_list, fill, hexa, set_elmap, same_snapshot, snapshot, vertex


def sequence(env, parts):
    """scenarios of the other properties, one after another, in any order, on the same file names"""
    from vsym.env import Scoped

    todo = list(parts)
    n = 0
    while todo:
        i = env.pick(f"next{n}", list(range(len(todo)))) if len(set(todo)) > 1 else 0
        module, name = todo.pop(i)
        fn, params = importlib.import_module("harness." + module).SCENARIOS[name][:2]
        fn(Scoped(env, f"{'abcd'[n]}_"), **params)
        n += 1


# -- reading ---------------------------------------------------------------
class Field:
    """a field file: its cells, and what must come out"""

    name = "in0.f00001"

    def __init__(self, env, tag, wdsz=8, **k):
        self.env = env
        nel, lr1 = k.get("nel", 2), k.get("lr1", (2, 1, 2))
        self.nel, self.lr1 = nel, lr1
        ndim = 3 if lr1[2] > 1 else 2
        var = k.get("var", (0, ndim, 1, 1, 2))
        self.var = var
        d = hexa(env, ndim, nel, lr1, list(var))
        from vsym.env import Scoped

        fill(Scoped(env, tag), d, nonan=True)
        d.wdsz, d.endian = wdsz, env.pick(tag + "endian", ("little", "big"))
        d.istep, d.time = env.int(tag + "istep", 0, 999999999), 0.25 if tag == "a" else 1.5
        set_elmap(env, d, env.pick(tag + "map", [list(range(1, nel + 1)), list(range(nel, 0, -1))]))
        self.d = d

    def write(self, path):
        self.env.mod("neksuite.field").writenek(path, self.d)

    def read(self, path):
        return self.env.mod("neksuite.field").readnek(path)

    def seen(self, r):
        return [r.ndim, r.nel, list(r.lr1), list(r.var), r.wdsz, r.endian, r.istep, r.time, list(r.elmap)] + [arr_list(getattr(el, f)) for el in r.elem for f in FIELDS]

    def expected(self):
        env, d = self.env, self.d
        rnd = (lambda x: env.f64(env.f32(x))) if d.wdsz == 4 else (lambda x: env.f64(x))
        out = [d.ndim, d.nel, list(d.lr1), list(d.var), d.wdsz, d.endian, d.istep, d.time, list(d.elmap)]
        for el in d.elem:
            for f in FIELDS:
                out.append([rnd(x) for x in arr_list(getattr(el, f))])
        return out

    def spoil(self, r):
        spoil(self.env, r, 77.0, 5)


class Mesh:
    def __init__(self, env, tag, fmt="re2", **k):
        self.env, self.fmt = env, fmt
        self.name = "in." + fmt
        n, ndim = k.get("n", (2, 1)), k.get("ndim", 2)
        from .common import set_bc

        d = grid(env, *n, ndim=ndim, nbc=k.get("nbc", 1), inner=False)
        for e, el in enumerate(d.elem):
            for b in range(d.nbc):
                for f in range(2 * ndim):
                    set_bc(el, b, f, "W", e + 1, f + 1)
        for e in range(min(2, d.nel)):
            el = d.elem[e]
            el.pos[0, 0, 0, 0] = float(1 + e) if fmt == "rea" else env.real(f"{tag}x{e}")
            el.ccurv[e] = env.string(f"{tag}t{e}", ["m", "C"] if tag == "a" else ["", "C"]) if e == 0 else "s"
            set_bc(el, d.nbc - 1, 1, env.string(f"{tag}b{e}", ["v", "SYM"]) if e == 1 else tag, e + 1, 2)
        if fmt == "re2":
            d.endian = env.pick(tag + "endian", ("little", "big"))
        d.update_ncurv()
        self.d = d

    def write(self, path):
        m = self.env.mod("neksuite.mesh")
        (m.writere2 if self.fmt == "re2" else m.writerea)(path, self.d)

    def read(self, path):
        m = self.env.mod("neksuite.mesh")
        return (m.readre2 if self.fmt == "re2" else m.readrea)(path)

    def seen(self, r):
        s = snapshot(self.env, r)
        return [r.ndim, r.nel, r.ncurv, r.nbc, list(r.elmap)] + [[e["pos"], e["ccurv"], e["bcs"]] for e in s["elem"]]

    def expected(self):
        return self.seen(self.d)

    def spoil(self, r):
        spoil(self.env, r, 77.0, 5)


class Partition:
    name = "in.ma2"

    def __init__(self, env, tag, nel=3, ndim=2):
        self.env, self.nv = env, 2**ndim
        self.rows = [[env.int(f"{tag}{e}_{k}", -(2**31), 2**31 - 1) for k in range(self.nv + 1)] for e in range(nel)]
        self.big = env.flag(tag + "big")

    def write(self, path):
        self.env.write(path, ma2_cells(self.env, len(self.rows), self.nv, self.big, self.rows, [4, 2, 4, 6, 3]))

    def read(self, path):
        return self.env.mod("neksuite.map").readma2(path)

    def seen(self, r):
        return [tuple(r[0].shape), tuple(r[1].shape), arr_list(r[0]), arr_list(r[1])]

    def expected(self):
        n = len(self.rows)
        return [(n, self.nv), (n,), [x for r in self.rows for x in r[1:]], [r[0] for r in self.rows]]

    def spoil(self, r):
        r[0][...] = 7
        r[1][...] = 7


class Plane:
    name = "in.plane"

    def __init__(self, env, tag, nn=(2, 3)):
        self.env, self.nn = env, nn
        nt = 1
        for n in nn:
            nt *= n
        self.x = [[env.bit(f"{tag}x{i}_{k}") for k in range(nt)] for i in range(len(nn))]
        self.v = [env.bit(f"{tag}v{k}") for k in range(nt)]
        self.big = env.flag(tag + "big")

    def write(self, path):
        self.env.write(path, plane_cells(self.env, self.big, self.nn, self.x, self.v))

    def read(self, path):
        return self.env.mod("simsonsuite").readplane(path)

    def seen(self, r):
        x, d, n, nd = r
        order = [(i, j) for j in range(self.nn[1]) for i in range(self.nn[0])] if len(self.nn) == 2 else [(i,) for i in range(self.nn[0])]
        xs = [[x[(i, *p)] if len(self.nn) > 1 else x[p[0]] for p in order] for i in range(len(self.nn))]
        return [list(n), nd, xs, [d[p] for p in order]]

    def expected(self):
        return [list(self.nn), len(self.nn), self.x, self.v]

    def spoil(self, r):
        for a in r[:2]:
            if hasattr(a, "shape"):
                a[...] = 7.0


class Simson:
    name = "in.u"

    def __init__(self, env, tag, lr1=(2, 2, 4)):
        from vsym.env import Scoped

        self.env, self.lr1 = env, lr1
        nx, ny, nz = lr1
        self.h = header_inputs(Scoped(env, tag), 1)
        self.mean = [[env.real(f"{tag}m{v}_{y}", -10, 10) for y in range(ny)] for v in range(4)]
        self.big = env.flag(tag + "big")
        self.data = [[[[0.0] * nx for _ in range(ny)] for _ in range(nz)] for _ in range(4)]
        for v in range(4):
            for y in range(ny):
                self.data[v][0][y][0] = self.mean[v][y]

    def write(self, path):
        self.env.write(path, dns_cells(self.env, self.big, self.lr1, 1, 1, self.h, self.data))

    def read(self, path):
        return self.env.mod("simsonsuite").readdns(path)

    def seen(self, r):
        nx, ny, nz = self.lr1
        el = r.elem[0]
        return [r.nel, list(r.lr1), list(r.var), r.time, r.endian, [[el.vel[v, k, j, i] if v < 3 else el.scal[0, k, j, i] for k in range(nz) for i in range(nx)] for v in range(4) for j in range(ny)]]

    def expected(self):
        # only the mean is there (rows run downwards in the file), so that each plane is even
        nx, ny, nz = self.lr1
        return [1, list(self.lr1), [3, 3, 0, 0, 1], self.h["time"], "big" if self.big else "little", [[-self.mean[v][j] if v == 1 else self.mean[v][j]] * (nx * nz) for v in range(4) for j in range(ny)]]

    def spoil(self, r):
        spoil(self.env, r, 77.0, 5)


class Dataset:
    name = "in0.f00001"

    def __init__(self, env, tag, n=(2, 1, 1), lr1=(2, 2, 2)):
        from vsym.env import Scoped

        self.env = env
        e = Scoped(env, tag)
        self.n, self.lr1 = n, lr1
        self.grid = [lines(e, a, n[i], lr1[i], "x") for i, a in enumerate("xyz")]
        self.places = positions(n)
        self.big = env.flag(tag + "big")
        self.time = env.real(tag + "time", -1e6, 1e6)
        self.cells, self.vals = file_of(e, lr1, self.places, list(range(1, len(self.places) + 1)), (3, 3, 1, 0, 0), self.grid, 8, self.big, self.time)

    def write(self, path):
        self.env.write(path, self.cells)

    def read(self, path):
        return self.env.mod("dataset").open_dataset(path)

    def seen(self, ds):
        out = [sorted(ds.data_vars.keys()), [self.env.f64(x) for x in arr_list(ds["x"].values)]]
        for name in ("ux", "uz", "pressure"):
            v = ds[name].values
            out += [tuple(v.shape), arr_list(v)]
        return out

    def expected(self):
        n, lr1 = self.n, self.lr1
        shape = tuple(n[a] * lr1[a] for a in (2, 1, 0))
        out = [sorted(["xmesh", "ymesh", "zmesh", "ux", "uy", "uz", "pressure"]), [x for e in range(n[0]) for x in self.grid[0][e]]]
        for f, i in (("vel", 0), ("vel", 2), ("pres", 0)):
            flat = []
            for z in range(shape[0]):
                for y in range(shape[1]):
                    for x in range(shape[2]):
                        e = (x // lr1[0], y // lr1[1], z // lr1[2])
                        flat.append(self.vals[f, i, e, z % lr1[2], y % lr1[1], x % lr1[0]])
            out += [shape, flat]
        return out

    def spoil(self, ds):
        pass


def kinds():
    return {
        "field": (Field, dict(), dict(wdsz=4)),
        "field_other": (Field, dict(nel=2), dict(nel=1, lr1=(3, 2, 1), var=(2, 2, 0, 0, 1))),
        "field_scalars": (Field, dict(nel=1, lr1=(1, 2, 1), var=(2, 0, 0, 0, 1)), dict(nel=1, lr1=(1, 2, 1), var=(2, 0, 0, 0, 3))),
        "re2": (Mesh, dict(), dict(nbc=2)),
        "re2_other": (Mesh, dict(n=(3, 1)), dict(n=(1, 1, 2), ndim=3)),
        "rea": (Mesh, dict(fmt="rea"), dict(fmt="rea", nbc=2)),
        "rea_other": (Mesh, dict(fmt="rea", n=(3, 1)), dict(fmt="rea", n=(1, 1, 2), ndim=3)),
        "ma2": (Partition, dict(), dict()),
        "ma2_other": (Partition, dict(), dict(nel=2, ndim=3)),
        "plane": (Plane, dict(), dict()),
        "plane_other": (Plane, dict(nn=(4,)), dict(nn=(3, 2))),
        "dns": (Simson, dict(), dict()),
        "dns_other": (Simson, dict(), dict(lr1=(4, 3, 2))),
        "dataset": (Dataset, dict(), dict()),
        "dataset_other": (Dataset, dict(), dict(n=(1, 1, 1), lr1=(3, 2, 2))),
    }


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
        yield len(x)
    else:
        yield x


def equal(env, label, got, want):
    """the same numbers (computed ones within 1e-9), names and shapes"""
    for i, (a, b) in enumerate(zip(got, want, strict=True)):
        xs, ys = list(flat(a)), list(flat(b))
        env.check(f"{label}: length of part {i}", len(xs) == len(ys))
        for x, y in zip(xs, ys):
            if isinstance(x, (str, bool, int)) or isinstance(y, (str, bool, int)):
                env.eq(f"{label}: part {i}", x, y)
            else:
                close(env, f"{label}: part {i}", x, y)


def close(env, label, x, y):
    if not env.sym:
        same = env.equal(x, y)
        if not same and isinstance(x, float) and isinstance(y, float):
            same = abs(x - y) <= 1e-9
        env.check(label, bool(same))
    elif all(isinstance(v, (env.core.SReal, float)) for v in (x, y)):
        env.close(label, x, y, 1e-9)
    else:
        env.eq(label, x, y)


def reading(env, what):
    """what was read stays as it is when something else is read; a file that changed is read as it is now"""
    cls, ka, kb = kinds()[what]
    a, b = cls(env, "a", **ka), cls(env, "b", **kb)
    if env.flag("swapped"):
        a, b = b, a
    path, other = env.path(cls.name if hasattr(cls, "name") else a.name), env.path("other_" + (cls.name if hasattr(cls, "name") else a.name))
    a.write(path)
    ra = a.read(path)
    equal(env, "the first file", a.seen(ra), a.expected())
    b.write(path)
    rb = b.read(path)
    equal(env, "the file written in its place", b.seen(rb), b.expected())
    equal(env, "what was read first, after the second was read", a.seen(ra), a.expected())
    b.spoil(rb)
    equal(env, "what was read first, after the second was changed", a.seen(ra), a.expected())
    a.write(other)
    rc = a.read(other)
    equal(env, "the first file again, elsewhere", a.seen(rc), a.expected())
    rb = b.read(path)
    equal(env, "the second file again", b.seen(rb), b.expected())


def writing(env, what):
    """a file does not depend on what was written before, there or elsewhere"""
    cls, ka, kb = kinds()[what]
    a, b = cls(env, "a", **ka), cls(env, "b", **kb)
    if env.flag("swapped"):
        a, b = b, a
    first, second = env.path("one_" + a.name), env.path("two_" + a.name)
    a.write(first)
    one = list(env.read(first))
    b.write(first)
    b.write(second)
    env.check("a file written over another is that written to a new place", env.same_cells(env.read(first), env.read(second)))
    a.write(second)
    env.check("the first file again, over the second", env.same_cells(env.read(second), one))


# -- other calls ------------------------------------------------------------
def operations(env, name):
    """call -> (meshes made by it or None, what can be seen of it)"""
    m, core = env.mod("meshtools"), env.mod("core")

    def of(tag):
        k = {"a": 0, "b": 1}[tag]
        d = build(env, tag, (2, 1) if k == 0 else (1, 2), free=() if name in ("merge", "generate") else (0,), types=[(0, 0, ("", "m", "C"))], conds=[(0, 1, 1, ("E", "W", "P"))] if name in ("keep", "offset") else ())
        return d

    if name == "box":
        x = {t: env.real("x" + t, -5.0, 5.0) for t in "ab"}
        return lambda t: m.gen_box(2 if t == "a" else 1, 2, x[t], x[t] + 2.0, 0.0, 1.0)
    if name == "circle":
        r = {t: env.real("r" + t, 0.5, 5.0) for t in "ab"}
        return lambda t: m.gen_circle(r[t], 0.5, 1, 1 if t == "a" else 2, curvature_fun=lambda x: x, bl_fun=lambda x: x)
    if name == "circle_default":
        return lambda t: m.gen_circle(*((1.0, 0.5, 1, 2) if t == "a" else (2.5, 0.7, 1, 3)))
    if name == "spacing":
        return lambda t: m.exponential_refinement_parameter(*((0.1, 1.0, 5) if t == "a" else (0.3, 1.0, 5)))
    ds = {t: of(t) for t in "ab"}
    import copy

    z = {t: [0.0, env.real("z" + t, 0.5, 2.0), 3.0] for t in "ab"}
    two = {t: copy.deepcopy(ds[t]) for t in "ab"}
    for t in "ab":
        for el in two[t].elem:
            el.pos[0, ...] = el.pos[0, ...] + 10.0

    def mutate(fn):
        def run(t):
            d = copy.deepcopy(ds[t])
            fn(d, t)
            return d

        return run

    return {
        "extrude": lambda t: m.extrude(ds[t], z[t]),
        "extrude_ends": lambda t: m.extrude(ds[t], z[t], ["W"], ["O"], internal_bcs=False),
        "refine": lambda t: m.extrude_refine(ds[t], env.np.array(z[t]), ["W"], ["v"]),
        "map": lambda t: m.map2D(ds[t], (lambda x, y: (x + y * y, 2.0 * y)) if t == "a" else (lambda x, y: (x, y + 1.0))),
        "rotate": mutate(lambda d, t: m.rotate_2d(d, 0.5 if t == "a" else 0.0, 0.25, 0.5)),
        "merge": mutate(lambda d, t: d.merge(two[t])),
        "keep": mutate(lambda d, t: m.keep_elements(d, [1] if t == "a" else [0])),
        "generate": mutate(lambda d, t: (m.delete_internal_bcs(d), m.generate_internal_bcs(d))),
        "offset": mutate(lambda d, t: d.offset_connectivity(3 if t == "a" else 5)),
        "limits": lambda t: ds[t].lims,
        "middles": lambda t: [m.edge_mid(el, e) for el in ds[t].elem for e in range(1, 4)],
        "points": lambda t: ds[t].get_points(),
    }[name]


def look(env, r):
    if hasattr(r, "elem"):
        s = snapshot(env, r)
        return [s["meta"], s["elmap"]] + [list(e.values()) for e in s["elem"]]
    if hasattr(r, "scal") and hasattr(r, "pos"):
        return [[x for p in getattr(r, f) for x in p] for f in FIELDS]
    if isinstance(r, (list, tuple)):
        return [list(arr_list(x)) for x in r]
    if hasattr(r, "reshape"):
        return list(arr_list(r))
    return [r]


def calls(env, name):
    run = operations(env, name)
    first, then = ("a", "b") if not env.flag("swapped") else ("b", "a")
    ra = run(first)
    sa = look(env, ra)
    rb = run(then)
    sb = look(env, rb)
    env.eq("the first result, after the second call", look(env, ra), sa)
    rc = run(first)
    env.eq("the first call again", look(env, rc), sa)
    env.eq("the second result, after the third call", look(env, rb), sb)
    if hasattr(ra, "elem"):
        spoil(env, ra, 77.0, 5)
        env.eq("the second result, after the first is changed", look(env, rb), sb)
        env.eq("the first call once more", look(env, run(first)), sa)
    env.eq("the second call again", look(env, run(then)), sb)


def changed(env, what):
    """a mesh that was changed is seen as it is now"""
    d = build(env, "m", (2, 1), types=[(0, 0, ("", "m"))])
    if what == "limits":
        old = d.lims
        was = look(env, old)
        d.elem[1].pos[0, 0, 0, 0] = env.real("new", 200.0, 300.0)
        now = d.lims
        env.eq("the new limit", now.pos[0][1], d.elem[1].pos[0, 0, 0, 0])
        env.eq("the old limits", look(env, old), was)
    elif what == "count":
        n = d.ncurv
        d.elem[1].ccurv[2] = env.string("t", ["", "m", "C"])
        d.update_ncurv()
        k = sum(1 for el in d.elem for t in el.ccurv if t != "")
        env.eq("the new count", d.ncurv, k)
    elif what == "points":
        was = d.get_points() if hasattr(d, "get_points") else None
        s = look(env, was)
        d.elem[1].pos[0, 0, 0, 0] = env.real("new", 200.0, 300.0)
        env.eq("the earlier points", look(env, was), s)
        env.check("the new points", env.any([x == d.elem[1].pos[0, 0, 0, 0] for x in look(env, d.get_points())]))
    else:
        el = d.elem[0]
        c = [el.face_center(f) for f in range(4)]
        e = el.smallest_edge()
        s = [list(x) for x in c]
        for v in range(2):
            el.pos[1, 0, 0, v] = el.pos[1, 0, 0, v] - 0.5
        for f, (was, now) in enumerate(zip(s, [el.face_center(f) for f in range(4)])):
            env.eq("the earlier centre", list(c[f]), was)
            env.close("the new centre", now[1], was[1] - (0.5 if f == 0 else 0.25 if f in (1, 3) else 0.0), 1e-9)


SEQ = {
    "fields": [("c01", "defaults_2d"), ("c03", "twelve_scalars"), ("c02", "twelve_elements")],
    "fields_twice": [("c01", "defaults_3d"), ("c01", "defaults_2d")],
    "skip": [("c04", "everything"), ("c01", "defaults_2d")],
    "headers": [("c05", "scalars_2d"), ("c05", "scalars_3d")],
    "meshes": [("c08", "points_2d"), ("c08", "points_3d")],
    "maps": [("c10", "2d_3"), ("c10", "3d_1"), ("c10", "2d_1")],
    "simson": [("c11", "2d"), ("c11", "4x2x4")],
    "planes": [("c12", "1d"), ("c12", "2d")],
    "datasets": [("c14", "without_mesh"), ("c14", "turned_mirror_x")],
    "vtk": [("c15", "scalars"), ("c15", "flat_uneven"), ("c15", "default")],
    "limits": [("c16", "pos1"), ("c16", "scal1"), ("c16", "vel0")],
    "elements": [("c17", "centres_2d"), ("c17", "edges_2d"), ("c17", "centres_2d")],
    "links": [("c18", "periodic_2d"), ("c18", "places_xy"), ("c18", "periodic_3d")],
    "present": [("c19", "one_missing"), ("c19", "no_fields"), ("c19", "3d_1el_1f_4")],
    "merging": [("c20", "gap"), ("c20", "no_fields"), ("c20", "3d")],
    "generated": [("c21", "restore_2d"), ("c21", "zero_edge_2d")],
    "kept": [("c22", "no_fields"), ("c22", "refuse")],
    "extruded": [("c23", "no_fields"), ("c23", "sound"), ("c23", "refuse_3d")],
    "refined": [("c24", "halves_axis0_up_C0"), ("c24", "halves_axis1_down_0c")],
    "boxes": [("c25", "box_1x2"), ("c25", "no_fields"), ("c25", "box_2x2")],
    "circles": [("c26", "smallest"), ("c26", "no_fields"), ("c26", "default_one_layer")],
    "circle_twice": [("c26", "fields"), ("c26", "two_rings")],
}
SCENARIOS = {"then_" + k: (sequence, dict(parts=v), {"cost": 2}) for k, v in SEQ.items()}
for _k in kinds():
    SCENARIOS["read_" + _k] = (reading, dict(what=_k), {"cost": 2})
for _k in ("field", "field_other", "field_scalars", "re2", "re2_other", "rea", "rea_other"):
    SCENARIOS["write_" + _k] = (writing, dict(what=_k), {"cost": 2})
for _k in ("box", "circle", "circle_default", "spacing", "extrude", "extrude_ends", "refine", "map", "rotate", "merge", "keep", "generate", "offset", "limits", "middles", "points"):
    SCENARIOS["calls_" + _k] = (calls, dict(name=_k), {"cost": 2})
for _k in ("limits", "count", "points", "elements"):
    SCENARIOS["changed_" + _k] = (changed, dict(what=_k))
