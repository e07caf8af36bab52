"""C14: a dataset has every value at its own coordinates."""

from itertools import permutations, product

from .c02 import block_order, header_text, variables_text
from .common import FIELDS

NAMES = {("vel", 0): "ux", ("vel", 1): "uy", ("vel", 2): "uz", ("pres", 0): "pressure", ("temp", 0): "temperature"}


def lines(env, axis, n, l, kind, tiny=(), fine=True):
    """grid lines of n elements of l points each along an axis: neighbours share a line"""
    if l == 1:
        return [[0.0]]
    start = {"xyz"[a]: ([0.2512345678901, -1.4987654321098, 3.0123456789012] if fine else [0.25, -1.5, 3.0])[a] for a in range(3)}[axis]
    if axis in kind:
        start = env.real(f"{axis}0", -50.0, 50.0)
    out = []
    for e in range(n):
        el = [start]
        for i in range(1, l):
            if axis in tiny:
                # steps well above the rounding that joins neighbours
                el.append(el[-1] + (env.real(f"d{axis}{e}_{i}", 2e-7, 9e-7) if axis in kind else 2.5e-7 + 1e-7 * (e + i)))
                continue
            el.append(el[-1] + (env.real(f"d{axis}{e}_{i}", 0.001, 5.0) if axis in kind else (0.5000123456789 if fine else 0.5) + 0.125 * (e + i)))
        out.append(el)
        start = el[-1]
    return out


def positions(n):
    return [(i, j, k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]


def file_of(env, lr1, places, order, var, grid, wdsz, big, time, local=None, skip=(), name=""):
    """cells of a field file with element `places[i]` stored as element order[i]; values by (field, component, place)"""
    nb = len(places)
    ndim = 2 if lr1[2] == 1 else 3
    cells = env.text_cells(header_text(wdsz, lr1, nb, nb, time, 5, 0, 1, variables_text(var)))
    cells += env.text_cells(" " * (132 - len(cells)))
    cells += env.cells(env.f32(6.54321), "f", big)
    cells += env.scalars_cells(order, "i", big)
    vals = {}
    code = "d" if wdsz == 8 else "f"
    comps = list(var)
    if ndim == 2:
        comps[0], comps[1] = (2 if var[0] else 0), (2 if var[1] else 0)
    at = dict(enumerate(places))
    for f, i, e in block_order(order, comps):
        for k, j, h in product(range(lr1[2]), range(lr1[1]), range(lr1[0])):
            if f == "pos":
                q = (local or (lambda h, j, k: (h, j, k)))(h, j, k)
                x = grid[i][at[e][i]][q[i]]
            else:
                x = env.bit(f"{name}{f}{i}_{e}_{k}{j}{h}", 8 * wdsz, nonan=True)
                vals[f, i, at[e], k, j, h] = x
            cells += env.cells(x, code, big)
    if ndim == 3:
        cells += env.text_cells("    ")
    return cells, vals


def get(ds, name):
    return ds[name].values


def dataset(env, n, lr1, var=(3, 3, 1, 0, 0), kind="x", orders=None, arrangement=None, wdsz=8, endian=("little",), drop=(None,), time=None, tiny=(), via="function"):
    n = tuple(n)
    grid = [lines(env, a, n[i], lr1[i], kind, tiny, wdsz == 8) for i, a in enumerate("xyz")]
    places = positions(n)
    nel = len(places)
    places = [places[i] for i in env.pick("arrangement", arrangement or ([list(p) for p in permutations(range(nel))] if nel < 4 else [list(range(nel)), list(range(nel))[::-1]]))]
    order = env.pick("elmap", orders or [list(range(1, nel + 1))])
    big = env.pick("endian", list(endian)) == "big"
    t = time if time is not None else env.real("time", -1e6, 1e6)
    cells, vals = file_of(env, lr1, places, order, var, grid, wdsz, big, t)
    path = env.path("field0.f00001")
    env.write(path, cells)
    d = env.pick("drop", list(drop))
    kw = {} if d is None else {"drop_variables": d}
    m = env.mod("dataset")
    if via == "plugin":
        ds = m.PymechXarrayBackend().open_dataset(path, **({"drop_variables": None} if d is None else kw))
    else:
        ds = m.open_dataset(path, **kw)
    check(env, ds, n, lr1, var, grid, places, vals, t, [] if d is None else [d] if isinstance(d, str) else d, wdsz)


def check(env, ds, n, lr1, var, grid, places, vals, t, dropped, wdsz=8):
    names = {"xmesh", "ymesh", "zmesh", "ux", "uy", "uz"}
    if var[2]:
        names.add("pressure")
    if var[3]:
        names.add("temperature")
    names |= {f"s{i + 1:02d}" for i in range(var[4])}
    env.check("the variables", set(ds.data_vars.keys()) == names - set(dropped))
    env.check("the coordinates", {"x", "y", "z", "time"} - set(dropped) == set(ds.coords.keys()))
    if "time" not in dropped:
        env.check("time is one number", ds["time"].shape == ())
        got = env.f64(ds["time"].item())
        env.check("time to 13 decimals", abs(got - t) <= abs(t) * 1e-13 + 1e-300)
    for a, ax in enumerate("xyz"):
        if ax in dropped:
            continue
        v = get(ds, ax)
        want = [x for e in range(n[a]) for x in grid[a][e]]
        env.check(f"points along {ax}", tuple(v.shape) == (n[a] * lr1[a],))
        env.close(f"{ax} axis", [env.f64(x) for x in v], want, 1e-12)
        env.check(f"{ax} ascends", env.all([v[i] <= v[i + 1] for i in range(len(want) - 1)]))
    shape = tuple(n[a] * lr1[a] for a in (2, 1, 0))
    for name in sorted(names - set(dropped)):
        env.check(f"shape of {name}", tuple(ds[name].shape) == shape and tuple(ds[name].dims) == ("z", "y", "x"))
        v = get(ds, name)
        for e in places:
            for k, j, h in product(range(lr1[2]), range(lr1[1]), range(lr1[0])):
                g = (e[2] * lr1[2] + k, e[1] * lr1[1] + j, e[0] * lr1[0] + h)
                if name.endswith("mesh"):
                    a = "xyz".index(name[0])
                    env.close(f"{name} of element {e} at {h, j, k}", env.f64(v[g]), grid[a][e[a]][(h, j, k)[a]], 1e-12)
                    continue
                f, i = next(((f, i) for (f, i), m in NAMES.items() if m == name), (None, None))
                if f is None:
                    f, i = "scal", int(name[1:]) - 1
                x = vals.get((f, i, e, k, j, h))
                if x is None:
                    env.eq(f"{name} is not in the file", v[g], 0.0)
                else:
                    env.eq(f"{name} of element {e} at {h, j, k}", v[g], env.f64(x))


def several(env, n, lr1, files, var=(3, 3, 1, 0, 0), kind="x", arrangements=None, drop=(None,), wdsz=8):
    """several files of one mesh, in any order: one after another in time"""
    n = tuple(n)
    grid = [lines(env, a, n[i], lr1[i], kind, (), wdsz == 8) for i, a in enumerate("xyz")]
    nb = len(positions(n))
    stored = []
    for i in range(files):
        places = [positions(n)[q] for q in (arrangements or [list(range(nb))])[i % len(arrangements or [0])]]
        t = env.real(f"time{i}", -1e6, 1e6)
        cells, vals = file_of(env, lr1, places, list(range(1, nb + 1)), var, grid, wdsz, False, t, name=f"file{i}_")
        path = env.path(f"field0.f{i + 1:05d}")
        env.write(path, cells)
        stored.append((path, t, places, vals))
    order = [stored[i] for i in env.pick("order", list(permutations(range(files))))]
    d = env.pick("drop", list(drop))
    ds = env.mod("dataset").open_mfdataset([x[0] for x in order], **({} if d is None else {"drop_variables": d}))
    dropped = [] if d is None else [d] if isinstance(d, str) else d
    for i, (_, t, places, vals) in enumerate(order):
        check(env, Moment(ds, i, files), n, lr1, var, grid, places, vals, t, dropped, wdsz)


class Moment:
    """what a data set of several times holds at one of them"""

    def __init__(self, ds, i, files):
        self.ds, self.i, self.files = ds, i, files
        self.data_vars, self.coords = ds.data_vars, ds.coords

    def __getitem__(self, k):
        v = self.ds[k]
        return Now(v, self.i, self.files) if k not in "xyz" else v


class Now:
    def __init__(self, v, i, files):
        whole = v.values
        ok = tuple(v.dims)[:1] == ("time",) and whole.shape[0] == files
        self.dims = tuple(v.dims)[1:] if ok else ("not along time",)
        self.values = whole[i] if ok else whole
        self.shape = tuple(whole.shape)[1:] if ok else ("not along time",)

    def item(self):
        return self.values.item() if hasattr(self.values, "item") else self.values


def turned(env, lr1, how):
    """elements whose own axes run the other way or are exchanged: their values are put right, or the mesh is refused"""
    grid = [lines(env, a, 1 if a != "x" else 2, lr1[i], "x") for i, a in enumerate("xyz")]
    local = {
        "mirror_x": lambda h, j, k: (lr1[0] - 1 - h, j, k),
        "mirror_y": lambda h, j, k: (h, lr1[1] - 1 - j, k),
        "half_turn": lambda h, j, k: (lr1[0] - 1 - h, lr1[1] - 1 - j, k),
        "mirror_z": lambda h, j, k: (h, j, lr1[2] - 1 - k),
        "exchange": lambda h, j, k: (j, h, k),
        "turn": lambda h, j, k: (j, lr1[0] - 1 - h, k),
        "exchange_z": lambda h, j, k: (k, j, h),
    }[how]
    places = [(0, 0, 0), (1, 0, 0)]
    var = (3, 3, 1, 0, 0)
    cells, vals = file_of(env, lr1, places, [1, 2], var, grid, 8, False, 0.5, local)
    path = env.path("field0.f00001")
    env.write(path, cells)
    box = []
    e = env.raises(Exception, lambda: box.append(env.mod("dataset").open_dataset(path)))
    env.check("put right or refused as not implemented", e is None or isinstance(e, NotImplementedError))
    if e is None:
        moved = {}
        for (f, i, e, k, j, h), x in vals.items():
            q = local(h, j, k)
            moved[f, i, e, q[2], q[1], q[0]] = x
        check(env, box[0], (2, 1, 1), lr1, var, grid, places, moved, 0.5, [])


def bent(env, lr1, axis, points):
    """an element that is no brick is refused"""
    nb = 1
    grid = [lines(env, a, 1, lr1[i], "") for i, a in enumerate("xyz")]
    off = {p: env.real(f"off{i}", -3.0, 3.0) for i, p in enumerate(points)}
    for i, p in enumerate(points):
        env.assume(env.any([off[p] >= 1e-5, off[p] <= -1e-5]))
    if len(points) > 1:
        # not a line of points moved alike
        a, b = (off[p] for p in points[:2])
        env.assume(env.any([a - b >= 1e-5, b - a >= 1e-5]))
    var = (3, 3, 0, 0, 0)
    cells = env.text_cells(header_text(8, lr1, nb, nb, 0.5, 5, 0, 1, "XU"))
    cells += env.text_cells(" " * (132 - len(cells)))
    cells += env.cells(env.f32(6.54321), "f", False)
    cells += env.scalars_cells([1], "i", False)
    for f, i, e in block_order([1], [2 if lr1[2] == 1 else 3] * 2 + [0, 0, 0]):
        for k, j, h in product(range(lr1[2]), range(lr1[1]), range(lr1[0])):
            x = 1.0
            if f == "pos":
                q = (h, j, k)
                x = grid[i][0][q[i]] + (off[h, j, k] if i == axis and (h, j, k) in off else 0.0)
            cells += env.cells(x, "d", False)
    if lr1[2] > 1:
        cells += env.text_cells("    ")
    path = env.path("field0.f00001")
    env.write(path, cells)
    e = env.raises(Exception, lambda: env.mod("dataset").open_dataset(path))
    env.check("refused as not implemented", isinstance(e, NotImplementedError))


def without_mesh(env, lr1):
    """a file without coordinates is refused"""
    cells = env.text_cells(header_text(8, lr1, 1, 1, 0.5, 5, 0, 1, "UP"))
    cells += env.text_cells(" " * (132 - len(cells)))
    cells += env.cells(env.f32(6.54321), "f", False)
    cells += env.scalars_cells([1], "i", False)
    for i in range(4 * lr1[0] * lr1[1] * lr1[2]):
        cells += env.cells(env.bit(f"v{i}", 64), "d", False)
    path = env.path("field0.f00001")
    env.write(path, cells)
    e = env.raises(Exception, lambda: env.mod("dataset").open_dataset(path))
    env.check("refused as not implemented", isinstance(e, NotImplementedError))


ALL = (3, 3, 1, 1, 2)
SCENARIOS = {
    "one": (dataset, dict(n=(1, 1, 1), lr1=[2, 2, 2], kind="xyz", var=ALL, drop=(None, "ux", ["pressure", "s01"], ["uy", "uz", "xmesh", "temperature"], []))),
    "row_x": (dataset, dict(n=(3, 1, 1), lr1=[2, 2, 2], kind="x")),
    "row_y": (dataset, dict(n=(1, 3, 1), lr1=[2, 2, 2], kind="y")),
    "row_z": (dataset, dict(n=(1, 1, 3), lr1=[2, 2, 2], kind="z")),
    "map_x": (dataset, dict(n=(2, 1, 1), lr1=[2, 2, 2], kind="xyz", orders=[[1, 2], [2, 1]], var=ALL)),
    "map_z": (dataset, dict(n=(1, 1, 2), lr1=[2, 2, 2], kind="z", orders=[[1, 2], [2, 1]], var=(3, 3, 0, 1, 1), endian=("little", "big"))),
    "plane": (dataset, dict(n=(2, 2, 1), lr1=[2, 2, 2], kind="xy", arrangement=[[0, 1, 2, 3], [3, 1, 0, 2], [1, 2, 3, 0]], orders=[[1, 2, 3, 4], [2, 4, 1, 3]])),
    "block": (dataset, dict(n=(2, 2, 2), lr1=[2, 2, 2], kind="z", var=(3, 3, 0, 0, 0), arrangement=[list(range(8)), [7, 2, 5, 0, 1, 6, 3, 4]], orders=[list(range(1, 9))])),
    "order_three": (dataset, dict(n=(2, 1, 1), lr1=[3, 3, 3], kind="x", var=(3, 3, 1, 0, 0))),
    "uneven": (dataset, dict(n=(1, 2, 1), lr1=[2, 3, 2], kind="y", var=(3, 3, 1, 0, 1))),
    "flat": (dataset, dict(n=(2, 1, 1), lr1=[3, 2, 1], kind="xy", var=(2, 2, 1, 1, 1))),
    "flat_square": (dataset, dict(n=(2, 2, 1), lr1=[2, 2, 1], kind="xy", var=(2, 2, 1, 0, 0), arrangement=[[0, 1, 2, 3], [2, 0, 3, 1]], orders=[[1, 2, 3, 4], [3, 1, 4, 2]])),
    "single": (dataset, dict(n=(2, 1, 1), lr1=[2, 2, 2], kind="", wdsz=4, endian=("little", "big"), var=ALL)),
    "velocity_only": (dataset, dict(n=(1, 1, 2), lr1=[2, 2, 2], kind="z", var=(3, 3, 0, 0, 0), drop=(None, "uz", ("ux", "uy")))),
    "mesh_only": (dataset, dict(n=(2, 1, 1), lr1=[2, 2, 2], kind="x", var=(3, 0, 0, 0, 0))),
    "no_velocity": (dataset, dict(n=(2, 1, 1), lr1=[2, 2, 2], kind="x", var=(3, 0, 1, 1, 0))),
    "scalars": (dataset, dict(n=(1, 1, 1), lr1=[2, 2, 2], kind="", var=(3, 3, 0, 0, 11), drop=(None, "s11", ["s02", "s10"]))),
    "without_mesh": (without_mesh, dict(lr1=[2, 2, 2])),
    "without_mesh_flat": (without_mesh, dict(lr1=[3, 3, 1])),
    "cube": (dataset, dict(n=(2, 2, 2), lr1=[2, 2, 2], kind="xyz", var=ALL, arrangement=[[0, 1, 2, 3, 4, 5, 6, 7], [7, 2, 5, 0, 1, 6, 3, 4], [4, 6, 1, 3, 0, 2, 7, 5]], orders=[list(range(1, 9)), [3, 1, 8, 6, 2, 4, 7, 5]]), {"cost": 5}),
    "long": (dataset, dict(n=(5, 1, 1), lr1=[2, 2, 2], kind="x", arrangement=[[4, 2, 0, 1, 3], [0, 4, 1, 3, 2]], orders=[[1, 2, 3, 4, 5], [5, 3, 1, 2, 4]]), {"cost": 5}),
}
for _h in ("mirror_x", "mirror_y", "half_turn", "mirror_z", "exchange", "turn", "exchange_z"):
    SCENARIOS["turned_" + _h] = (turned, dict(lr1=[2, 2, 2], how=_h))
for _a in range(3):
    SCENARIOS[f"bent_{'xyz'[_a]}"] = (bent, dict(lr1=[2, 2, 2], axis=_a, points=[(1, 1, 1)]))
SCENARIOS["bent_two"] = (bent, dict(lr1=[2, 2, 2], axis=0, points=[(1, 1, 1), (1, 0, 0)]))
SCENARIOS["bent_flat"] = (bent, dict(lr1=[2, 2, 1], axis=1, points=[(0, 1, 0)]))
SCENARIOS["bent_swapped"] = (bent, dict(lr1=[2, 2, 2], axis=0, points=[(0, 1, 1), (1, 1, 1)]))
SCENARIOS["wide"] = (dataset, dict(n=(4, 3, 1), lr1=[2, 2, 2], kind="x", var=(3, 3, 1, 0, 0), arrangement=[[11, 0, 5, 3, 2, 7, 8, 1, 10, 4, 9, 6]], orders=[list(range(12, 0, -1))]))
for _a in "xyz":
    _n = tuple(3 if a == _a else 1 for a in "xyz")
    SCENARIOS[f"tiny_{_a}"] = (dataset, dict(n=_n, lr1=[2, 2, 2], kind=_a, tiny=_a, time=0.5))
SCENARIOS["tiny_plane"] = (dataset, dict(n=(2, 2, 1), lr1=[3, 3, 1], kind="", tiny="xy", var=(2, 2, 1, 0, 0), arrangement=[[0, 1, 2, 3], [2, 0, 3, 1]], orders=[[3, 1, 4, 2]], time=0.5))
# as a plugin of xarray
SCENARIOS["plugin"] = (dataset, dict(n=(2, 1, 1), lr1=[2, 2, 2], kind="x", var=ALL, via="plugin", drop=(None, "ux", ["pressure", "s01"], [])))
# several files
SCENARIOS["files_two"] = (several, dict(n=(2, 1, 1), lr1=[2, 2, 2], files=2, var=ALL, drop=(None, "uy", ["temperature", "s02"])))
SCENARIOS["files_three"] = (several, dict(n=(1, 2, 1), lr1=[2, 2, 1], kind="y", var=(2, 2, 1, 0, 0), files=3, arrangements=[[0, 1], [1, 0]]))
SCENARIOS["files_one"] = (several, dict(n=(1, 1, 2), lr1=[2, 2, 2], kind="z", files=1, drop=(None, "uz")))
