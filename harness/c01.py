"""C01: what writenek stores, readnek gives back."""

from .common import FIELDS, fill, hexa, perms, set_elmap


def roundtrip(env, ndim, lr1, nel, wdsz, mem, read_dtype, endians=("little", "big"), vars_=None, order=None):
    field = env.mod("neksuite.field")
    var = env.pick("var", vars_)
    d = hexa(env, ndim, nel, lr1, var, 0, "float64" if mem == 64 else "float32")
    # NaN payloads are only promised where no conversion takes place
    exact = mem == 64 and wdsz == 8 and read_dtype == "float64"
    orig = fill(env, d, mem, nonan=not exact)
    d.wdsz = wdsz
    d.endian = env.pick("endian", endians)
    set_elmap(env, d, env.pick("elmap", order or perms(nel)))
    elmap = list(d.elmap)
    d.time = env.real("time", -1e12, 1e12)
    d.istep = env.int("istep", 0, 999999999)
    path = env.path("rt0.f00001")
    env.check("writing reports success", field.writenek(path, d) == 0)
    r = field.readnek(path, dtype=read_dtype)
    env.eq("ndim", r.ndim, ndim)
    env.eq("nel", r.nel, nel)
    env.eq("lr1", tuple(r.lr1), tuple(lr1))
    env.eq("var", tuple(r.var), tuple(var))
    env.eq("wdsz", r.wdsz, wdsz)
    env.eq("endian", r.endian, d.endian)
    env.eq("istep", r.istep, d.istep)
    env.check("time to 13 decimals", abs(r.time - d.time) <= abs(d.time) * 1e-13 + 1e-300)
    env.eq("element map", list(r.elmap), elmap)
    env.eq("number of elements", len(r.elem), nel)
    # one part of a field in several files; the data of a corrupted map are in the order of the elements
    held = [i - 1 for i in elmap] if 0 not in elmap else list(range(len(elmap)))
    for ie in sorted(held):
        for f, n in zip(FIELDS, var):
            got = getattr(r.elem[ie], f)
            if f in ("pres", "temp", "scal"):
                env.eq(f"shape of {f}", got.shape, (n,) + tuple(lr1[::-1]))
            for i in range(n):
                for iz in range(lr1[2]):
                    for iy in range(lr1[1]):
                        for ix in range(lr1[0]):
                            x = orig[ie][f][i, iz, iy, ix]
                            if wdsz == 4:
                                x = env.f32(x)
                            x = env.f32(x) if read_dtype == "float32" else env.f64(x)
                            env.eq(f"{f}[{i}] of element {ie + 1} at ({ix},{iy},{iz})", got[i, iz, iy, ix], x)
    # a second generation is identical to the first
    path2 = env.path("rt0.f00002")
    if env.flag("rewrite"):
        field.writenek(path2, r)
        if read_dtype == "float64" or wdsz == 4:
            stop = 136 + 4 * len(held) + wdsz * sum(var) * len(held) * lr1[0] * lr1[1] * lr1[2]
            env.check("rewriting what was read gives the same data", env.same_cells(env.read(path)[132:stop], env.read(path2)[132:stop]))


def defaults(env, ndim):
    """a new data set, nothing set by hand"""
    field = env.mod("neksuite.field")
    lr1 = (2, 2, ndim - 1)
    d = hexa(env, ndim, 2, lr1, (ndim, 0, 0, 0, 1))
    orig = fill(env, d, 64)
    path = env.path("new0.f00001")
    env.check("writing reports success", field.writenek(path, d) == 0)
    r = field.readnek(path)
    env.eq("settings", [r.ndim, r.nel, r.wdsz, r.endian, r.istep, list(r.elmap)], [ndim, 2, 8, d.endian, 0, [1, 2]])
    env.check("time", r.time == 0.0)
    for ie in range(2):
        for f, n in (("pos", ndim), ("scal", 1)):
            for i in range(n):
                for iz in range(lr1[2]):
                    for iy in range(2):
                        for ix in range(2):
                            env.eq(f"{f}[{i}] of element {ie + 1} at ({ix},{iy},{iz})", getattr(r.elem[ie], f)[i, iz, iy, ix], orig[ie][f][i, iz, iy, ix])


M12 = [list(range(12, 0, -1)), [2, 11, 1, 10, 12, 3, 5, 4, 9, 6, 8, 7]]
V3 = [(3, 3, 1, 1, 2), (3, 0, 0, 0, 0), (0, 3, 1, 0, 0), (0, 0, 0, 1, 3), (3, 0, 1, 0, 1), (0, 0, 0, 0, 1), (0, 3, 0, 1, 0), (0, 0, 1, 0, 0)]
V2 = [(2, 2, 1, 1, 2), (2, 0, 0, 0, 0), (0, 2, 1, 1, 0), (0, 0, 1, 0, 1), (0, 2, 0, 0, 3), (2, 0, 0, 1, 0)]

SCENARIOS = {}
for _w in (8, 4):
    for _m in (64, 32):
        for _r in ("float64", "float32"):
            main = (_w, _m, _r) == (8, 64, "float64")
            k = (_w == 4) + 2 * (_m == 32) + 4 * (_r == "float32")
            SCENARIOS[f"3d_{_w}_{_m}_{_r}"] = (roundtrip, dict(ndim=3, lr1=(2, 3, 2), nel=2, wdsz=_w, mem=_m, read_dtype=_r, vars_=V3 if main else [V3[k], V3[0]][:1 if k == 0 else 2]), {"cost": 3})
            SCENARIOS[f"2d_{_w}_{_m}_{_r}"] = (roundtrip, dict(ndim=2, lr1=(3, 2, 1), nel=2, wdsz=_w, mem=_m, read_dtype=_r, vars_=V2 if main else [V2[k % 6], V2[(k + 3) % 6]]), {"cost": 2})
            if not main:
                SCENARIOS[f"3d_{_w}_{_m}_{_r}_all"] = (roundtrip, dict(ndim=3, lr1=(2, 3, 2), nel=2, wdsz=_w, mem=_m, read_dtype=_r, vars_=V3), {"cost": 3})
                SCENARIOS[f"2d_{_w}_{_m}_{_r}_all"] = (roundtrip, dict(ndim=2, lr1=(3, 2, 1), nel=2, wdsz=_w, mem=_m, read_dtype=_r, vars_=V2), {"cost": 2})
    SCENARIOS[f"three_elements_{_w}"] = (roundtrip, dict(ndim=3, lr1=(2, 2, 2), nel=3, wdsz=_w, mem=64, read_dtype="float64", vars_=[(3, 3, 1, 1, 2)] if _w == 8 else [(0, 3, 1, 0, 2)], endians=("little", "big") if _w == 8 else ("big",)), {"cost": 4})
    SCENARIOS[f"order4_{_w}"] = (roundtrip, dict(ndim=3, lr1=(4, 3, 5), nel=1, wdsz=_w, mem=64, read_dtype="float64", vars_=[(3, 3, 1, 1, 2)], endians=("little", "big") if _w == 8 else ("big",)), {"cost": 2})
    SCENARIOS[f"four_elements_{_w}"] = (roundtrip, dict(ndim=3, lr1=(2, 2, 2), nel=4, wdsz=_w, mem=64, read_dtype="float64", vars_=[(3, 0, 1, 0, 2)], endians=("little",)), {"cost": 4, "tier": "thorough"})
    SCENARIOS[f"twelve_elements_{_w}"] = (roundtrip, dict(ndim=2, lr1=(2, 2, 1), nel=12, wdsz=_w, mem=64, read_dtype="float64", vars_=[(2, 0, 1, 0, 2)], order=M12, endians=("big",)), {"cost": 4})
    SCENARIOS[f"twelve_scalars_{_w}"] = (roundtrip, dict(ndim=2, lr1=(2, 2, 1), nel=2, wdsz=_w, mem=64, read_dtype="float64", vars_=[(2, 0, 0, 0, 12)]), {"cost": 4})
    SCENARIOS[f"order8_{_w}"] = (roundtrip, dict(ndim=3, lr1=(8, 8, 8), nel=1, wdsz=_w, mem=64, read_dtype="float64", vars_=[(0, 0, 1, 0, 1)]), {"cost": 4, "tier": "thorough"})
for _n in (2, 3):
    SCENARIOS[f"defaults_{_n}d"] = (defaults, dict(ndim=_n))
SCENARIOS["hundreds"] = (roundtrip, dict(ndim=2, lr1=(2, 1, 1), nel=300, wdsz=8, mem=64, read_dtype="float64", vars_=[(2, 0, 1, 0, 0)], order=[list(range(300, 0, -1))], endians=("big",)), {"cost": 4})
for _w in (8, 4):
    SCENARIOS[f"part_{_w}"] = (roundtrip, dict(ndim=3, lr1=(2, 3, 2), nel=4, wdsz=_w, mem=64, read_dtype="float64", vars_=[(3, 0, 1, 0, 2)], order=[[3, 1], [4, 2, 3], [2]], endians=("little", "big") if _w == 8 else ("big",)), {"cost": 3})
    SCENARIOS[f"corrupt_map_{_w}"] = (roundtrip, dict(ndim=2, lr1=(2, 2, 1), nel=3, wdsz=_w, mem=64, read_dtype="float64", vars_=[(2, 2, 1, 1, 2)], order=[[0, 2, 3], [3, 0, 0], [0, 1], [0, 0, 0]], endians=("big",)), {"cost": 3})
