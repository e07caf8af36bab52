"""C19: check_bcs_present passes exactly when every face carries a condition."""

from .boxes import grid
from .common import same_snapshot, set_bc, snapshot

TYPES = ["", "E", "W", "v", "SYM", "P"]


def present(env, ndim, nel, nbc, free, missing=()):
    d = grid(env, nel, 1, 1, ndim=ndim, nbc=nbc)
    types = [["E" if 0 < e or f == 1 else "W" for f in range(2 * ndim)] for e in range(nel)]
    full = []
    for b, e, f in free:
        t = env.string(f"t{b}_{e}_{f}", TYPES)
        set_bc(d.elem[e], b, f, t, e + 1, f + 1, 1, 1)
        full.append(env.not_(t == ""))
    for b, e, f in missing:
        set_bc(d.elem[e], b, f, "", e + 1, f + 1)
        full.append(False)
    full = env.all(full)
    before = snapshot(env, d)
    out = []
    err = env.raises(ValueError, lambda: out.append(d.check_bcs_present()))
    if err is None:
        env.check("a mesh with a face without condition is rejected", full)
        env.check("a complete mesh gets True", out == [True])
    else:
        env.check("a complete mesh is accepted", env.not_(full))
    same_snapshot(env, "the mesh is unchanged", before, snapshot(env, d))


SCENARIOS = {}
# every face of every shape, four at a time
for _nd, _nel, _nbc in ((2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 1, 1), (3, 2, 2), (2, 3, 3)):
    _all = [(b, e, f) for b in range(_nbc) for e in range(_nel) for f in range(2 * _nd)]
    for _i in range(0, len(_all), 4):
        SCENARIOS[f"{_nd}d_{_nel}el_{_nbc}f_{_i}"] = (present, dict(ndim=_nd, nel=_nel, nbc=_nbc, free=_all[_i : _i + 4]))
SCENARIOS["no_fields"] = (present, dict(ndim=2, nel=2, nbc=0, free=[]))
SCENARIOS["first_and_last"] = (present, dict(ndim=3, nel=2, nbc=2, free=[(0, 0, 0), (1, 1, 5)]))
SCENARIOS["one_missing"] = (present, dict(ndim=2, nel=2, nbc=1, free=[(0, 1, 2)], missing=[(0, 0, 0)]))
SCENARIOS["eight"] = (present, dict(ndim=3, nel=2, nbc=1, free=[(0, 0, f) for f in range(6)] + [(0, 1, 0), (0, 1, 5)]), {"cost": 5})
SCENARIOS["twelve"] = (present, dict(ndim=3, nel=12, nbc=2, free=[(0, 11, 5), (1, 11, 5), (1, 0, 0), (0, 6, 3)]))
SCENARIOS["hundreds"] = (present, dict(ndim=2, nel=300, nbc=2, free=[(0, 299, 3), (1, 299, 3), (1, 256, 0)]), {"cost": 4})
