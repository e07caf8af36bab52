"""C22: keeping some elements of a mesh keeps them whole and their connections right."""

from itertools import permutations

from .boxes import grid
from .common import FIELDS, bookkeeping, get_bc, perms, set_bc, set_elmap, snapshot


def subset(env, n, smallest=1):
    """any non-empty set of elements, in any order"""
    sets = []
    for k in range(smallest, n + 1):
        sets += [list(p) for p in permutations(range(n), k)]
    return sets


def keep(env, ndim, n, nbc=1, chosen=None, free=(), periodic=(), external=("", "con", "W"), maps=False, curved=False, kind="list", empty=(), **g):
    d = grid(env, *n, ndim=ndim, nbc=nbc, periodic=periodic, **g)
    nel = d.nel
    for e, el in enumerate(d.elem):
        for v in range(2):
            el.pos[0:ndim, 0, 0, v] = env.arr(env.reals(f"p{e}_{v}", ndim, -10.0, 10.0))
        if curved:
            g = e if curved is True else curved[e]
            el.ccurv[g] = env.string(f"c{e}", ["", "m", "C"])
            for j in range(5):
                el.curv[g, j] = env.real(f"cv{e}_{j}")
    for b, e, f in free:
        set_bc(d.elem[e], b, f, env.string(f"t{b}_{e}_{f}", ["E", "P", "W"]), e + 1, f + 1, env.int(f"g{b}_{e}_{f}", 1, nel), env.int(f"h{b}_{e}_{f}", 1, 6))
    d.update_ncurv()
    if maps:
        set_elmap(env, d, env.pick("map", perms(nel)))
    order = env.pick("kept", chosen or subset(env, nel))
    if empty:  # faces without a condition, as a new mesh has them
        for e, f in empty:
            for b in range(nbc):
                for i in range(8):
                    d.elem[e].bcs[b, f][i] = "" if i == 0 else 0
    ext = env.string("external", list(external))
    before = snapshot(env, d)
    arg = env.np.array(order) if kind == "array" else tuple(order) if kind == "tuple" else list(order)
    keep_elements = env.mod("meshtools").keep_elements
    if kind == "default":
        ext = ""
        keep_elements(d, arg)
    else:
        keep_elements(d, arg, external_bc=ext)
    kept = sorted(set(order))
    env.eq("number of elements", d.nel, len(kept))
    env.eq("elements", len(d.elem), len(kept))
    bookkeeping(env, d, own_index=False, data=True)
    if kind != "array":
        env.eq("the list of elements is unchanged", list(arg), list(order))
    new = {e: i for i, e in enumerate(kept)}
    for i, e in enumerate(kept):
        s, el = before["elem"][e], d.elem[i]
        now = {k: snapshot_of(el, k) for k in FIELDS + ("curv", "ccurv")}
        for k, v in now.items():
            env.eq(f"{k} of element {e + 1}, now {i + 1}", v, s[k])
        for b in range(nbc):
            for f in range(2 * ndim):
                old, got = s["bcs"][b][f], get_bc(el, b, f)
                L = f"condition {b} of face {f + 1} of element {e + 1}, now {i + 1}: "
                linked = env.any([old[0] == "E", old[0] == "P"])
                env.check(L + "own numbers", got[2] == old[2] and (got[1] == i + 1 or (old[0] == "" and got[1] == old[1] == 0)))
                env.eq(L + "parameters", got[5:], old[5:])
                cases = [env.all([env.not_(linked), env.equal(got[0], old[0]), env.equal(got[3], old[3]), env.equal(got[4], old[4])])]
                for g, j in new.items():
                    cases.append(env.all([linked, old[3] == g + 1, env.equal(got[0], old[0]), got[3] == j + 1, got[4] == old[4]]))
                gone = env.all([linked] + [env.not_(old[3] == g + 1) for g in new])
                cases.append(env.all([gone, env.equal(got[0], ext), got[3] == 0, got[4] == 0]))
                env.check(L + "type and partner", env.any(cases))
            for f in range(2 * ndim, 6):
                env.eq(f"condition {b} of face {f + 1}", get_bc(el, b, f), s["bcs"][b][f])
    env.eq("other metadata", [d.ndim, d.nbc, list(d.var), list(d.lr1), d.time, d.istep, d.wdsz, d.endian], [before["meta"][i] for i in (0, 3, 4, 5, 6, 7, 8, 9)])


def snapshot_of(el, k):
    from .common import arr_list

    return list(el.ccurv) if k == "ccurv" else arr_list(getattr(el, k))


def refuse(env, ndim, n):
    """an element that does not exist"""
    d = grid(env, *n, ndim=ndim)
    arg = [0, env.pick("bad", [d.nel, d.nel + 1, d.nel + 50, -1, -d.nel, -d.nel - 1])]
    env.check("refused", env.raises(ValueError, lambda: env.mod("meshtools").keep_elements(d, arg)) is not None)


SCENARIOS = {
    "row": (keep, dict(ndim=2, n=(3, 1))),
    "row_periodic": (keep, dict(ndim=2, n=(3, 1), periodic=(0,), kind="array")),
    "column_default": (keep, dict(ndim=2, n=(1, 3), kind="default")),
    "square": (keep, dict(ndim=2, n=(2, 2), periodic=(1,), chosen=[[0], [1, 2], [3, 1], [2, 0, 3], [3, 2, 1, 0], [1, 2, 3]])),
    "links": (keep, dict(ndim=2, n=(3, 1), free=[(0, 1, 1)], chosen=[[1], [0, 1], [2, 1], [0, 1, 2]])),
    "links_two": (keep, dict(ndim=2, n=(3, 1), free=[(0, 1, 1), (0, 2, 2)], chosen=[[1, 2]])),
    "fields": (keep, dict(ndim=2, n=(2, 1), nbc=3, free=[(2, 0, 1)], kind="tuple")),
    "maps": (keep, dict(ndim=2, n=(3, 1), maps=True, chosen=[[0, 2], [1], [2, 1, 0]])),
    "curves": (keep, dict(ndim=2, n=(3, 1), curved=True, chosen=[[0, 2], [1]])),
    "3d": (keep, dict(ndim=3, n=(1, 1, 3), periodic=(2,))),
    "3d_links": (keep, dict(ndim=3, n=(1, 1, 3), free=[(0, 2, 4), (0, 2, 5)], chosen=[[0, 2], [1, 2]])),
    "no_fields": (keep, dict(ndim=2, n=(2, 1), nbc=0)),
    "twelve": (keep, dict(ndim=2, n=(4, 3), periodic=(0,), chosen=[[0, 5, 10], [11, 3, 7, 4], [1, 2, 5, 6, 9, 10], list(range(12))])),
    "refuse": (refuse, dict(ndim=2, n=(2, 1))),
    "square_all": (keep, dict(ndim=2, n=(2, 2), periodic=(0, 1)), {"cost": 3}),
    "links_three": (keep, dict(ndim=2, n=(3, 1), free=[(0, 1, 1), (0, 2, 2), (0, 0, 0)], chosen=[[1, 2, 0], [0, 1]]), {"tier": "thorough", "cost": 3}),
}
SCENARIOS["cube"] = (keep, dict(ndim=3, n=(2, 2, 3), periodic=(2,), chosen=[[0, 7, 11], [10, 2, 6, 3], [4, 5, 8, 9, 0]]))
SCENARIOS["hundreds"] = (keep, dict(ndim=2, n=(20, 15), periodic=(0,), chosen=[list(range(299, -1, -2)), list(range(5, 300))]), {"cost": 4})
SCENARIOS["curves_3d"] = (keep, dict(ndim=3, n=(1, 1, 3), curved=(11, 4, 8), chosen=[[0, 2], [1], [0]]))
SCENARIOS["repeated"] = (keep, dict(ndim=2, n=(3, 1), periodic=(0,), chosen=[[0, 0], [2, 1, 2], [1, 1, 1, 0, 0]]))
SCENARIOS["repeated_3d"] = (keep, dict(ndim=3, n=(1, 1, 3), periodic=(2,), chosen=[[2, 0, 2], [0, 1, 2, 1]], kind="array"))
# elements whose own axes point elsewhere
SCENARIOS["turned"] = (keep, dict(ndim=2, n=(2, 2), periodic=(0,), turns=[(0, 1), (1, 2), (3, 3)], chosen=[[0, 3], [1, 2, 3], [2, 1]]))
SCENARIOS["turned_3d"] = (keep, dict(ndim=3, n=(1, 2, 2), periodic=(2,), turns=[(0, 22), (1, 4), (3, 15)], chosen=[[0, 3], [1, 2, 3], [2, 0]]))
# fields with points inside their elements, and data
SCENARIOS["field"] = (keep, dict(ndim=2, n=(3, 1), periodic=(0,), order=(4, 3, 1), var=(2, 2, 1, 1, 2), chosen=[[0, 2], [1], [2, 1]]))
SCENARIOS["field_3d"] = (keep, dict(ndim=3, n=(1, 1, 3), periodic=(2,), order=(3, 4, 5), var=(3, 3, 1, 0, 1), chosen=[[0, 2], [1], [2, 1]]))
SCENARIOS["empty"] = (keep, dict(ndim=2, n=(3, 1), empty=[(0, 0), (1, 2), (2, 1), (2, 2)], chosen=[[0, 2], [1], [2, 1]]))
