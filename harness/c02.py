"""C02: the bytes writenek produces are the Nek5000 field format."""

from .common import FIELDS, fill, hexa, leftover, perms, set_elmap

LETTER = ("X", "U", "P", "T", "S")


def header_text(wdsz, lr1, nb, nbf, time, istep, fid, nfiles, variables):
    s = f"#std {wdsz:1d} {lr1[0]:2d} {lr1[1]:2d} {lr1[2]:2d} {nb:10d} {nbf:10d} {time:20.13E} {istep:9d} {fid:6d} {nfiles:6d} {variables}"
    return s


def variables_text(var):
    return "".join((l if l != "S" else f"S{n:02d}") for l, n in zip(LETTER, var) if n)


def block_order(order, var):
    """(field, component, element) in file order"""
    for f, n in zip(FIELDS[:4], var[:4]):
        for ie in order:
            for i in range(n):
                yield f, i, ie - 1
    for i in range(var[4]):
        for ie in order:
            yield "scal", i, ie - 1


def setup(env, ndim, lr1, nel, wdsz, mem, vars_, orders=None):
    var = env.pick("var", vars_)
    d = hexa(env, ndim, nel, lr1, var, 0, "float64" if mem == 64 else "float32")
    d.wdsz = wdsz
    d.endian = env.pick("endian", ("little", "big"))
    set_elmap(env, d, env.pick("elmap", orders or (perms(nel) if nel < 5 else [list(range(nel, 0, -1))])))
    d.time = env.real("time", -1e12, 1e12)
    d.istep = env.int("istep", 0, 999999999)
    return var, d


def layout(env, ndim, lr1, nel, wdsz, mem, vars_, over=0, orders=None):
    """every byte of the header, the tag, the element map and the data"""
    field = env.mod("neksuite.field")
    var, d = setup(env, ndim, lr1, nel, wdsz, mem, vars_, orders)
    exact = mem == 64 and wdsz == 8
    orig = fill(env, d, mem, nonan=not exact)
    order = stored = [int(x) for x in d.elmap]
    held = len(order)
    if 0 in order:
        order = list(range(1, held + 1))  # the data of a corrupted map are in the order of the elements
    big = d.endian == "big"
    path = env.path("lay0.f00001")
    if over:
        leftover(env, path, over)
    field.writenek(path, d)
    got = env.read(path)
    npts = lr1[0] * lr1[1] * lr1[2]
    nblk = sum(var) * held
    size = 136 + 4 * held + nblk * npts * wdsz + (8 * nblk if ndim == 3 else 0)
    env.eq("file size", len(got), size)
    want = env.text_cells(header_text(wdsz, lr1, nel, held, d.time, d.istep, 0, 1, variables_text(var)))
    want += env.text_cells(" " * (132 - len(want)))
    env.check("132-byte header", env.same_cells(got[:132], want))
    env.check("endianness tag", env.same_cells(got[132:136], env.cells(env.f32(6.54321), "f", big)))
    env.check("element map", env.same_cells(got[136:136 + 4 * held], env.scalars_cells(stored, "i", big)))
    p = 136 + 4 * held
    code = "d" if wdsz == 8 else "f"
    for f, i, ie in block_order(order, var):
        want = []
        for iz in range(lr1[2]):
            for iy in range(lr1[1]):
                for ix in range(lr1[0]):
                    x = orig[ie][f][i, iz, iy, ix]
                    want += env.cells(env.f32(x) if wdsz == 4 else env.f64(x), code, big)
        env.check(f"data block: {f}[{i}] of element {ie + 1}", env.same_cells(got[p:p + npts * wdsz], want))
        p += npts * wdsz


def extrema(env, lr1, nel, wdsz, vars_):
    """the single-precision extrema that close 3D files"""
    field = env.mod("neksuite.field")
    var, d = setup(env, 3, lr1, nel, wdsz, 64, vars_)
    vals = []
    for ie, el in enumerate(d.elem):
        rec = {}
        for f, n in zip(FIELDS, var):
            if n:
                b = env.reals(f"{f}{ie}", (n,) + tuple(lr1[::-1]))
                getattr(el, f)[0:n, ...] = env.arr(b)
                rec[f] = b
        vals.append(rec)
    order = [int(x) for x in d.elmap]
    big = d.endian == "big"
    path = env.path("ext0.f00001")
    field.writenek(path, d)
    got = env.read(path)
    p = 136 + 4 * nel + wdsz * sum(var) * nel * lr1[0] * lr1[1] * lr1[2]
    env.eq("file size", len(got), p + 8 * sum(var) * nel)
    for f, n in zip(FIELDS, var):
        for ie in order:
            for i in range(n):
                v = list(vals[ie - 1][f][i].reshape(-1))
                lo = env.num(got[p:p + 4], "f", big)
                hi = env.num(got[p + 4:p + 8], "f", big)
                env.check(f"minimum of {f}[{i}] of element {ie} bounds it", env.all([lo <= x + 1e-4 for x in v]))
                env.check(f"minimum of {f}[{i}] of element {ie} is attained", env.any([abs(lo - x) <= 1e-4 for x in v]))
                env.check(f"maximum of {f}[{i}] of element {ie} bounds it", env.all([hi >= x - 1e-4 for x in v]))
                env.check(f"maximum of {f}[{i}] of element {ie} is attained", env.any([abs(hi - x) <= 1e-4 for x in v]))
                p += 8


V3 = [(3, 3, 1, 1, 2), (3, 0, 1, 0, 1), (0, 3, 0, 1, 0), (0, 0, 1, 0, 3)]
V2 = [(2, 2, 1, 1, 2), (2, 0, 1, 0, 0), (0, 2, 0, 1, 3)]
SCENARIOS = {}
for _w in (8, 4):
    for _m in (64, 32):
        SCENARIOS[f"3d_{_w}_{_m}"] = (layout, dict(ndim=3, lr1=(2, 3, 2), nel=2, wdsz=_w, mem=_m, vars_=V3), {"cost": 3})
        SCENARIOS[f"2d_{_w}_{_m}"] = (layout, dict(ndim=2, lr1=(3, 2, 1), nel=2, wdsz=_w, mem=_m, vars_=V2), {"cost": 2})
    SCENARIOS[f"three_elements_{_w}"] = (layout, dict(ndim=2, lr1=(2, 2, 1), nel=3, wdsz=_w, mem=64, vars_=[(2, 2, 1, 1, 1)]), {"cost": 3})
    SCENARIOS[f"extrema_{_w}"] = (extrema, dict(lr1=(2, 2, 2), nel=2, wdsz=_w, vars_=[(3, 3, 1, 1, 1), (0, 0, 0, 1, 2)]), {"cost": 3})
SCENARIOS["four_elements"] = (layout, dict(ndim=3, lr1=(2, 2, 2), nel=4, wdsz=8, mem=64, vars_=[(3, 3, 1, 1, 2)]), {"cost": 9, "tier": "thorough"})
SCENARIOS["order5"] = (layout, dict(ndim=3, lr1=(5, 4, 6), nel=2, wdsz=4, mem=64, vars_=[(3, 3, 1, 1, 2)]), {"cost": 9, "tier": "thorough"})
SCENARIOS["twelve_elements"] = (layout, dict(ndim=3, lr1=(2, 1, 2), nel=12, wdsz=8, mem=64, vars_=[(3, 0, 1, 0, 1)]), {"cost": 4})
SCENARIOS["twelve_scalars"] = (layout, dict(ndim=2, lr1=(2, 2, 1), nel=2, wdsz=4, mem=64, vars_=[(2, 0, 0, 0, 12)]), {"cost": 3})
SCENARIOS["hundreds"] = (layout, dict(ndim=2, lr1=(2, 1, 1), nel=300, wdsz=8, mem=64, vars_=[(2, 0, 1, 0, 0)]), {"cost": 4})
SCENARIOS["hundreds_3d"] = (layout, dict(ndim=3, lr1=(1, 1, 2), nel=280, wdsz=4, mem=64, vars_=[(0, 0, 1, 0, 0)]), {"cost": 4})
SCENARIOS["overwrites"] = (layout, dict(ndim=2, lr1=(2, 2, 1), nel=2, wdsz=4, mem=64, vars_=[(2, 0, 1, 0, 0)], over=900))
SCENARIOS["overwrites_3d"] = (layout, dict(ndim=3, lr1=(2, 1, 2), nel=1, wdsz=8, mem=64, vars_=[(3, 3, 1, 0, 1)], over=900))
SCENARIOS["part"] = (layout, dict(ndim=3, lr1=(2, 1, 2), nel=4, wdsz=8, mem=64, vars_=[(3, 0, 1, 0, 2)], orders=[[3, 1], [4, 2, 3], [2]]), {"cost": 3})
SCENARIOS["corrupt_map"] = (layout, dict(ndim=3, lr1=(2, 1, 2), nel=3, wdsz=4, mem=64, vars_=[(3, 0, 1, 1, 1)], orders=[[0, 2, 3], [3, 0], [0, 0, 0]]), {"cost": 3})
