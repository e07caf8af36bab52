"""C04: skip_vars leaves out exactly the named variables."""

from .c03 import build, compare, metadata_tail
from .common import perms

NAMES = {
    ("pos", 0): ["x"], ("pos", 1): ["y"], ("pos", 2): ["z"],
    ("vel", 0): ["ux", "vx"], ("vel", 1): ["uy", "vy"], ("vel", 2): ["uz", "vz"],
    ("pres", 0): ["pressure", "p"], ("temp", 0): ["temperature", "t"],
    ("scal", 0): ["s01"], ("scal", 1): ["s02"], ("scal", 2): ["s03"],
}


def skip(env, ndim, lr1, nb, orders, wdsz, var, fixed=(), free=(), names=0, dtype="float64", idx=None):
    """free: variables each of which may or may not be skipped; fixed: always skipped"""
    field = env.mod("neksuite.field")
    big = env.pick("endian", ("little", "big")) == "big"
    order = env.pick("elmap", orders)
    cells, vals = build(env, ndim, lr1, nb, order, wdsz, big, var, env.real("time", -10, 10), 3, idx=idx, nonan=wdsz == 4 or dtype == "float32")
    if ndim == 3:
        metadata_tail(env, cells, 1, big)
    path = env.path("skip0.f00001")
    env.write(path, cells)
    skipped = set(fixed)
    for k in free:
        if env.flag(f"skip_{k[0]}{k[1]}"):
            skipped.add(k)
    args = []
    for k in sorted(skipped):
        n = NAMES.get(k) or [f"s{k[1] + 1:02d}"]
        if names == "any":
            i = env.pick(f"name_{k[0]}{k[1]}", range(len(n) + (len(n) > 1)))
            args += n if i == len(n) else [n[i]]
        else:
            args.append(n[names % len(n)])
    d = field.readnek(path, skip_vars=tuple(args), dtype=dtype)
    env.eq("var", tuple(d.var), tuple(var))
    env.eq("nel", d.nel, nb)
    compare(env, d, vals, lr1, wdsz, nb, var, skipped=skipped, dtype=dtype)


X, Y, Z = ("pos", 0), ("pos", 1), ("pos", 2)
U, V, W = ("vel", 0), ("vel", 1), ("vel", 2)
P, T, A, B, C = ("pres", 0), ("temp", 0), ("scal", 0), ("scal", 1), ("scal", 2)
FULL = (3, 3, 1, 1, 2)
_3 = dict(ndim=3, lr1=(2, 2, 2), nb=2, orders=[[2, 1]], wdsz=8)
_2 = dict(ndim=2, lr1=(2, 3, 1), nb=2, orders=[[2, 1]], wdsz=4)
SCENARIOS = {
    "geometry": (skip, dict(**_3, var=(3, 0, 1, 0, 1), free=(X, Y, Z))),
    "velocity": (skip, dict(**_3, var=(0, 3, 1, 0, 1), free=(U, V, W))),
    "velocity_alias": (skip, dict(**_3, var=(0, 3, 1, 0, 1), free=(U, V, W), names=1)),
    "p_t": (skip, dict(**_3, var=FULL, free=(P, T), fixed=(X, Y, Z))),
    "p_t_alias": (skip, dict(**_3, var=FULL, free=(P, T), fixed=(U, V, W), names=1)),
    "scalars": (skip, dict(**_3, var=(0, 0, 1, 1, 3), free=(A, B, C))),
    "across": (skip, dict(**_3, var=FULL, free=(Y, W, P, B))),
    "2d_geometry": (skip, dict(**_2, var=(2, 2, 1, 1, 1), free=(X, Y, U, V))),
    "2d_rest": (skip, dict(**_2, var=(2, 2, 1, 1, 2), free=(P, T, A, B), names=1)),
    "part_of_many": (skip, dict(ndim=3, lr1=(2, 2, 2), nb=4, orders=[[4, 2]], wdsz=8, var=FULL, free=(P, T, A, B), fixed=(X, Y, Z))),
    "part_of_many_2": (skip, dict(ndim=3, lr1=(2, 2, 2), nb=3, orders=[[3, 1]], wdsz=4, var=FULL, free=(X, V, B), fixed=(Y, Z))),
    "velocity_mixed": (skip, dict(**_3, var=(0, 3, 0, 0, 0), free=(U, V, W), names="any"), {"cost": 3}),
    "p_t_mixed": (skip, dict(**_3, var=(0, 3, 1, 1, 1), free=(P, T), names="any")),
    "scalars_12": (skip, dict(ndim=2, lr1=(2, 2, 1), nb=1, orders=[[1]], wdsz=8, var=(0, 0, 0, 0, 12), free=(A, ("scal", 9), ("scal", 10), ("scal", 11)))),
    "everything": (skip, dict(**_3, var=FULL, fixed=(X, Y, Z, U, V, W, P, T), free=(A, B))),
    "all_subsets_2d": (skip, dict(ndim=2, lr1=(2, 2, 1), nb=2, orders=[[2, 1]], wdsz=8, var=(2, 2, 1, 1, 2), free=(X, Y, U, V, P, T, A, B)), {"cost": 9, "tier": "thorough", "budget": 800}),
    "single_precision": (skip, dict(ndim=3, lr1=(2, 2, 2), nb=2, orders=[[2, 1]], wdsz=8, var=FULL, free=(P, V, B), dtype="float32")),
    "single_in_single": (skip, dict(ndim=2, lr1=(2, 3, 1), nb=2, orders=[[2, 1]], wdsz=4, var=(2, 2, 1, 1, 2), free=(T, X, A), dtype="float32")),
    "corrupt_map": (skip, dict(ndim=2, lr1=(2, 2, 1), nb=3, orders=[[0, 2, 3], [3, 0, 0]], wdsz=8, var=(2, 2, 1, 1, 2), free=(Y, P, A), idx=[1, 2, 3])),
}
