"""C03: readnek decodes every file that follows the format."""

from .c02 import block_order, header_text, variables_text
from .common import FIELDS, perms

ALIAS = {"x": "x", "y": "y", "z": "z"}


def build(env, ndim, lr1, nb, order, wdsz, big, var, time, istep, fid=0, nfiles=1, vtext=None, tag=None, idx=None, **k):
    """a field file as the format prescribes: cells, and the values by (field, component, element)"""
    cells = env.text_cells(header_text(wdsz, lr1, nb, len(order), time, istep, fid, nfiles, vtext or variables_text(var)))
    cells += env.text_cells(" " * (132 - len(cells)))
    cells += env.cells(env.f32(6.54321), "f", big) if tag is None else tag
    cells += env.scalars_cells(order, "i", big)
    vals = {}
    for f, i, ie in block_order(idx or order, var):
        b = env.bits(f"{f}{i}e{ie}", (lr1[2], lr1[1], lr1[0]), 8 * wdsz, **k)
        vals[f, i, ie] = b
        for x in b.reshape(-1):
            cells += env.cells(x, "d" if wdsz == 8 else "f", big)
    return cells, vals


def metadata_tail(env, cells, n, big):
    """the extrema after the data: any content is acceptable"""
    for i in range(n):
        cells += env.cells(env.bit(f"tail{i}", 32), "f", big)


def compare(env, d, vals, lr1, wdsz, nb, var, skipped=(), dtype="float64"):
    for ie in range(nb):
        for f, n in zip(FIELDS, var):
            a = getattr(d.elem[ie], f)
            for i in range(n):
                for iz in range(lr1[2]):
                    for iy in range(lr1[1]):
                        for ix in range(lr1[0]):
                            key = (f, i, ie)
                            if (f, i) in skipped or key not in vals:
                                env.eq(f"{f}[{i}] of element {ie + 1} was not asked for or not in this part", a[i, iz, iy, ix], 0.0)
                            else:
                                x = vals[key][iz, iy, ix]
                                x = env.f32(x) if dtype == "float32" else env.f64(x)
                                env.eq(f"{f}[{i}] of element {ie + 1} at ({ix},{iy},{iz})", a[i, iz, iy, ix], x)


def read(env, ndim, lr1, nb, orders, wdsz, vars_, dtype="float64", zero=False, idx=None):
    field = env.mod("neksuite.field")
    var = env.pick("var", vars_)
    big = env.pick("endian", ("little", "big")) == "big"
    order = env.pick("elmap", orders)
    time = env.real("time", -1e12, 1e12)
    istep = env.int("istep", 0, 999999999)
    fid = env.int("fid", 0, 99999)
    nfiles = env.int("nfiles", 1, 99999)
    idx = list(range(1, len(order) + 1)) if zero else None
    exact = wdsz == 8 and dtype == "float64"
    cells, vals = build(env, ndim, lr1, nb, order, wdsz, big, var, time, istep, fid, nfiles, idx=idx, nonan=not exact)
    if ndim == 3:
        metadata_tail(env, cells, 2, big)
    path = env.path("in0.f00001")
    env.write(path, cells)
    d = field.readnek(path, dtype=dtype)
    env.eq("ndim", d.ndim, ndim)
    env.eq("nel", d.nel, nb)
    env.eq("elements allocated", len(d.elem), nb)
    env.eq("lr1", tuple(d.lr1), tuple(lr1))
    env.eq("var", tuple(d.var), tuple(var))
    env.eq("wdsz", d.wdsz, wdsz)
    env.eq("endian", d.endian, "big" if big else "little")
    env.eq("istep", d.istep, istep)
    env.check("time to 13 decimals", abs(d.time - time) <= abs(time) * 1e-13 + 1e-300)
    env.eq("element map", list(d.elmap), order)
    compare(env, d, vals, lr1, wdsz, nb, var, dtype=dtype)


def bad_tag(env, ndim, lr1):
    """a file whose endianness tag is not the agreed constant is refused"""
    field = env.mod("neksuite.field")
    t = env.pick("tag", [0.0, 6.5, -6.54321, 65.4321, 6.6, 6.55, 6.538, 1e-30, 1e30])
    big = env.pick("endian", ("little", "big")) == "big"
    cells, _ = build(env, ndim, lr1, 1, [1], 8, big, (ndim, 0, 0, 0, 0), 0.0, 0, tag=env.cells(env.f32(t), "f", big))
    path = env.path("bad0.f00001")
    env.write(path, cells)
    env.check("a wrong endianness tag is refused", env.raises(ValueError, lambda: field.readnek(path)) is not None)


V3 = [(3, 3, 1, 1, 2), (0, 3, 1, 0, 1), (3, 0, 0, 1, 0)]
V2 = [(2, 2, 1, 1, 2), (0, 2, 1, 0, 1)]
P4 = [[3, 1], [2, 4], [4, 3]]
SCENARIOS = {}
for _w in (8, 4):
    for _r in ("float64", "float32"):
        SCENARIOS[f"3d_{_w}_{_r}"] = (read, dict(ndim=3, lr1=(2, 3, 2), nb=2, orders=perms(2), wdsz=_w, vars_=V3, dtype=_r), {"cost": 3})
        SCENARIOS[f"2d_{_w}_{_r}"] = (read, dict(ndim=2, lr1=(3, 2, 1), nb=2, orders=perms(2), wdsz=_w, vars_=V2, dtype=_r), {"cost": 2})
    SCENARIOS[f"three_elements_{_w}"] = (read, dict(ndim=3, lr1=(2, 2, 2), nb=3, orders=perms(3), wdsz=_w, vars_=[(3, 3, 1, 1, 1)]), {"cost": 4})
    SCENARIOS[f"part_of_many_{_w}"] = (read, dict(ndim=3, lr1=(2, 2, 2), nb=4, orders=P4, wdsz=_w, vars_=[(3, 3, 1, 1, 2)]), {"cost": 3})
    SCENARIOS[f"corrupt_map_{_w}"] = (read, dict(ndim=2, lr1=(2, 2, 1), nb=3, orders=[[0, 2, 3], [1, 0, 0], [3, 2, 0]], wdsz=_w, vars_=[(2, 2, 1, 1, 2)], zero=True), {"cost": 2})
SCENARIOS["bad_tag"] = (bad_tag, dict(ndim=2, lr1=(2, 2, 1)))
SCENARIOS["twelve_elements"] = (read, dict(ndim=2, lr1=(2, 2, 1), nb=12, orders=[list(range(12, 0, -1))], wdsz=4, vars_=[(2, 0, 1, 0, 2)]), {"cost": 3})
SCENARIOS["part_of_thousands"] = (read, dict(ndim=2, lr1=(2, 2, 1), nb=2000, orders=[[1999, 7], [2000, 1]], wdsz=8, vars_=[(2, 0, 0, 0, 1)]), {"cost": 3})
SCENARIOS["twelve_scalars"] = (read, dict(ndim=2, lr1=(2, 2, 1), nb=2, orders=perms(2), wdsz=8, vars_=[(2, 0, 0, 0, 12)]), {"cost": 3})
SCENARIOS["corrupt_map_part"] = (read, dict(ndim=2, lr1=(2, 2, 1), nb=4, orders=[[0, 3], [1, 0], [0, 0]], wdsz=8, vars_=[(2, 2, 1, 1, 2)], zero=True), {"cost": 2})
