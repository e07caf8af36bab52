"""C16: the limits of a mesh are the extrema of what it stores."""

from .common import FIELDS, hexa


def limits(env, ndim, lr1, nel, var, fields, span=100.0, only=None):
    d = hexa(env, ndim, nel, lr1, var)
    vals = {}
    for f in FIELDS:
        for ie, el in enumerate(d.elem):
            a = getattr(el, f)
            for i in range(a.shape[0]):
                b = env.reals(f"{f}{ie}_{i}", tuple(lr1[::-1]), -span, span) if (f, i) in fields and (only is None or ie in only) else None
                if b is not None:
                    a[i, ...] = env.arr(b)
                vals.setdefault((f, i), []).extend(list(b.reshape(-1)) if b is not None else [0.0])
    lims = d.lims
    for f in FIELDS:
        n = getattr(d.elem[0], f).shape[0]
        got = getattr(lims, f)
        env.eq(f"number of components of {f}", len(got), n)
        for i in range(n):
            lo, hi = got[i]
            v = vals[f, i]
            env.check(f"minimum of {f}[{i}] is a lower bound", env.all([lo <= x for x in v]))
            env.check(f"minimum of {f}[{i}] is attained", env.any([lo == x for x in v]))
            env.check(f"maximum of {f}[{i}] is an upper bound", env.all([hi >= x for x in v]))
            env.check(f"maximum of {f}[{i}] is attained", env.any([hi == x for x in v]))

    def change():
        lims.pos = ()

    env.check("limits cannot be changed", env.raises(AttributeError, change) is not None)
    # asking twice gives the same answer, and does not change the mesh
    again = d.lims
    for f in FIELDS:
        env.eq("limits are stable", [x for p in getattr(again, f) for x in p], [x for p in getattr(lims, f) for x in p])
    for f in FIELDS:
        for i in range(getattr(d.elem[0], f).shape[0]):
            if (f, i) in fields:
                env.eq("the mesh is unchanged", [x for el in d.elem for x in getattr(el, f)[i, ...].reshape(-1)], vals[f, i])


ALL = [("pos", 0), ("pos", 1), ("pos", 2), ("vel", 0), ("vel", 1), ("vel", 2), ("pres", 0), ("temp", 0), ("scal", 0), ("scal", 1)]
SCENARIOS = {}
for _i, _f in enumerate(ALL):
    SCENARIOS[f"{_f[0]}{_f[1]}"] = (limits, dict(ndim=3, lr1=[2, 2, 2], nel=2, var=[3, 3, 1, 1, 2], fields=[_f]))
SCENARIOS["all"] = (limits, dict(ndim=3, lr1=[1, 2, 1], nel=2, var=[3, 3, 1, 1, 2], fields=ALL))
SCENARIOS["one_element"] = (limits, dict(ndim=3, lr1=[2, 2, 2], nel=1, var=[3, 3, 1, 1, 1], fields=[("pos", 1), ("vel", 2), ("scal", 0)]))
SCENARIOS["2d"] = (limits, dict(ndim=2, lr1=[3, 2, 1], nel=2, var=[2, 2, 1, 0, 1], fields=[("pos", 0), ("vel", 1), ("pres", 0), ("scal", 0)]))
SCENARIOS["three_elements"] = (limits, dict(ndim=2, lr1=[2, 2, 1], nel=3, var=[2, 2, 0, 1, 0], fields=[("pos", 1), ("temp", 0)]))
SCENARIOS["geometry_only"] = (limits, dict(ndim=3, lr1=[2, 2, 2], nel=2, var=[3, 0, 0, 0, 0], fields=[("pos", 2)]))
SCENARIOS["five_elements"] = (limits, dict(ndim=3, lr1=[2, 2, 1], nel=5, var=[3, 3, 1, 1, 1], fields=[("pos", 2), ("pres", 0)]))
SCENARIOS["order3"] = (limits, dict(ndim=3, lr1=[3, 3, 3], nel=1, var=[3, 3, 1, 1, 1], fields=[("temp", 0)]))
SCENARIOS["twelve"] = (limits, dict(ndim=3, lr1=[2, 1, 1], nel=12, var=[3, 3, 1, 1, 11], fields=[("pos", 0), ("scal", 10)]))
SCENARIOS["orders"] = (limits, dict(ndim=3, lr1=[2, 3, 4], nel=1, var=[3, 3, 1, 1, 1], fields=[("vel", 1)]))
SCENARIOS["hundreds"] = (limits, dict(ndim=2, lr1=[1, 1, 1], nel=300, var=[2, 2, 0, 1, 0], fields=[("temp", 0)], only=(0, 127, 128, 255, 256, 299)), {"cost": 4})
