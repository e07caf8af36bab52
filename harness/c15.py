"""C15: the VTK grid made from a field."""

from itertools import product

from .common import FIELDS, fill, hexa, perms, same_snapshot, set_elmap, snapshot

NAMES = {"vel": "vel", "pres": "pres", "temp": "temp"}


def data_of(grid, name):
    w = grid.point_data.get_array(name)
    return None if w is None else w.data


def convert(env, lr1, nel, vars_, ndim=3, down=(False,), call="keyword", maps=False, words=None):
    vtk = env.mod("vtksuite")
    var = env.pick("var", vars_)
    d = hexa(env, ndim, nel, list(lr1), list(var))
    orig = fill(env, d)
    if words:
        d.wdsz = env.pick("wdsz", words)
        d.endian = env.pick("endian", ("little", "big"))
    if maps:
        set_elmap(env, d, env.pick("elmap", perms(nel)))
    downsample = env.pick("downsample", list(down))
    before = snapshot(env, d)
    if call == "default":
        g = vtk.hexa2vtk(d)
    elif call == "positional":
        g = vtk.hexa2vtk(d, downsample)
    else:
        g = vtk.hexa2vtk(d, downsample=downsample)
    same_snapshot(env, "the field", snapshot(env, d), before)
    check(env, g, lr1, nel, var, ndim, orig, downsample)


def check(env, g, lr1, nel, var, ndim, orig, downsample):
    keep = [[0, n - 1] if downsample and n > 1 else list(range(n)) for n in lr1]
    n = [len(k) for k in keep]
    npt = n[0] * n[1] * n[2]
    at = {}
    for e in range(nel):
        for k, j, i in product(range(n[2]), range(n[1]), range(n[0])):
            at[e, k, j, i] = e * npt + i + n[0] * (j + n[1] * k)
    env.eq("number of points", tuple(g.points.shape), (nel * npt, 3))
    grids = {name: data_of(g, name) for name in ("vel", "pres", "temp")}
    for s in range(var[4]):
        grids[f"scal_{s + 1}"] = data_of(g, f"scal_{s + 1}")
    expected = [name for name, v in zip(("vel", "pres", "temp"), var[1:4]) if v] + [f"scal_{s + 1}" for s in range(var[4])]
    names = [g.point_data.get_array(i).name for i in range(g.point_data.number_of_arrays)]
    env.check("exactly the variables of the field", sorted(str(x) for x in names) == sorted(expected))
    for name in expected:
        v = grids[name]
        env.eq(f"shape of {name}", tuple(v.shape), (nel * npt, 3) if name == "vel" else (nel * npt,))
    for (e, k, j, i), p in at.items():
        kk, jj, ii = keep[2][k], keep[1][j], keep[0][i]
        where = f"at point {ii, jj, kk} of element {e + 1}"
        for c in range(3):
            env.eq(f"coordinate {c} {where}", g.points[p, c], orig[e]["pos"][c, kk, jj, ii] if c < ndim else 0.0)
            if var[1]:
                env.eq(f"velocity {c} {where}", grids["vel"][p, c], orig[e]["vel"][c, kk, jj, ii] if c < ndim else 0.0)
        if var[2]:
            env.eq(f"pressure {where}", grids["pres"][p], orig[e]["pres"][0, kk, jj, ii])
        if var[3]:
            env.eq(f"temperature {where}", grids["temp"][p], orig[e]["temp"][0, kk, jj, ii])
        for s in range(var[4]):
            env.eq(f"scalar {s + 1} {where}", grids[f"scal_{s + 1}"][p], orig[e]["scal"][s, kk, jj, ii])
    # the cells
    want = []
    for e in range(nel):
        for k, j, i in product(range(n[2] - 1) if ndim == 3 else [0], range(n[1] - 1), range(n[0] - 1)):
            c = []
            for up in (0, 1) if ndim == 3 else (0,):
                c += [at[e, k + up, j, i], at[e, k + up, j, i + 1], at[e, k + up, j + 1, i + 1], at[e, k + up, j + 1, i]]
            want.append(c)
    nv = 8 if ndim == 3 else 4
    ids = [int(x) for x in g.cells.ids]
    env.eq("number of cells", [int(g.cells.n), len(ids)], [len(want), len(want) * (nv + 1)])
    env.eq("types of the cells", [int(t) for t in g.types], [12 if ndim == 3 else 9] * len(want))
    got = [ids[q:q + nv + 1] for q in range(0, len(ids), nv + 1)]
    env.check("every cell has its number of points first", all(c[0] == nv for c in got))
    env.check("the cells join the neighbouring points in order", sorted(c[1:] for c in got) == sorted(want))


def write(env, name, expected):
    from vsym.stubs import WRITTEN

    vtk = env.mod("vtksuite")
    var = (3, 3, 1, 0, 1)
    d = hexa(env, 3, 1, [2, 2, 2], list(var))
    orig = fill(env, d)
    before = snapshot(env, d)
    del WRITTEN[:]
    vtk.writevtk(name, d)
    same_snapshot(env, "the field", snapshot(env, d), before)
    env.eq("one file", len(WRITTEN), 1)
    env.eq("its name", str(WRITTEN[0][1]), expected)
    check(env, WRITTEN[0][0], (2, 2, 2), 1, var, 3, orig, False)


FULL = (3, 3, 1, 1, 2)
ANY = [(3, 3, 1, 1, 2), (3, 3, 1, 0, 0), (3, 3, 0, 1, 0), (3, 3, 0, 0, 1), (3, 0, 1, 0, 0), (3, 0, 0, 1, 1), (3, 0, 1, 1, 1), (3, 0, 0, 0, 2), (3, 0, 0, 0, 0), (3, 3, 0, 0, 0), (3, 3, 1, 0, 3), (3, 0, 1, 0, 1)]
FLAT = [(2, 2, 1, 1, 2), (2, 2, 1, 0, 0), (2, 0, 0, 1, 1), (2, 2, 0, 0, 1)]
SCENARIOS = {
    "linear": (convert, dict(lr1=(2, 2, 2), nel=1, vars_=ANY, down=(False, True))),
    "three": (convert, dict(lr1=(2, 2, 2), nel=3, vars_=[FULL], maps=True)),
    "order_three": (convert, dict(lr1=(3, 3, 3), nel=1, vars_=[FULL, (3, 3, 0, 1, 1)], down=(False, True))),
    "uneven": (convert, dict(lr1=(4, 3, 2), nel=2, vars_=[FULL], down=(False, True))),
    "uneven_other": (convert, dict(lr1=(2, 3, 4), nel=2, vars_=[(3, 3, 1, 0, 0)], down=(False, True))),
    "default": (convert, dict(lr1=(3, 2, 2), nel=2, vars_=[(3, 3, 1, 1, 1)], call="default")),
    "positional": (convert, dict(lr1=(3, 2, 3), nel=2, vars_=[(3, 3, 1, 1, 1)], down=(False, True), call="positional")),
    "flat": (convert, dict(lr1=(2, 2, 1), nel=2, vars_=FLAT, ndim=2, down=(False, True))),
    "flat_uneven": (convert, dict(lr1=(4, 3, 1), nel=2, vars_=[(2, 2, 1, 0, 1)], ndim=2, down=(False, True))),
    "write": (write, dict(name="field.vtp", expected="field.vtp")),
    "write_renamed": (write, dict(name="some/field0.f00001", expected="some/field0.vtp")),
    "words": (convert, dict(lr1=(2, 2, 2), nel=2, vars_=[(3, 3, 1, 1, 1)], words=(4, 8), down=(False, True))),
    "scalars": (convert, dict(lr1=(2, 2, 2), nel=1, vars_=[(3, 3, 1, 1, 12)])),
    "order_five": (convert, dict(lr1=(5, 5, 5), nel=2, vars_=[FULL], down=(False, True)), {"tier": "thorough", "cost": 4}),
    "many": (convert, dict(lr1=(3, 3, 3), nel=6, vars_=[FULL], down=(False, True)), {"tier": "thorough", "cost": 4}),
}
