"""C20: merging meshes connects exactly the faces that touch, and keeps the rest."""

from .boxes import grid
from .common import FIELDS, arr_list, dist2, face_centre, get_bc, perms, same_snapshot, set_bc, set_elmap, snapshot, vertex


def unchanged(env, label, before, after):
    """geometry, data and curvature of an element"""
    for k in FIELDS + ("curv", "ccurv"):
        env.eq(f"{label}: {k}", after[k], before[k])


def merge(env, ndim, na, nb, shift, nbc=1, tol=None, periodic=((), ()), free=(), maps=False, curved=False, inner=True, touch=(1, 3), turns=((), ()), order=None, var=None, more=0, **opts):
    """mesh b is put to the right of mesh a, off by an unknown amount"""
    a = grid(env, *na, ndim=ndim, nbc=nbc, periodic=periodic[0], inner=inner, turns=turns[0], order=order, var=var)
    s = [env.real(f"s{i}", -0.4, 0.4) if i in shift else 0.0 for i in range(3)]
    ax = {1: 0, 2: 1, 5: 2}[touch[0]]
    off = [float(na[i]) if i == ax else 0.0 for i in range(3)]
    nb3 = tuple(nb) + (1,) * (3 - len(nb))
    crd = [[off[i] + k + s[i] for k in range(nb3[i] + 1)] for i in range(3)]
    b = grid(env, *nb, ndim=ndim, nbc=nbc + more, xs=crd[0], ys=crd[1], zs=crd[2], periodic=periodic[1], inner=inner, turns=turns[1], order=order, var=var, tag="b")
    types = {}
    for m, e, f in free:
        d = (a, b)[m]
        types[m, e, f] = env.string(f"t{m}_{e}_{f}", ["W", "con", "", "E"])
        for ibc in range(d.nbc):
            set_bc(d.elem[e], ibc, f, types[m, e, f], e + 1, f + 1, 1, 1)
    for m, d in enumerate((a, b)):
        for e, el in enumerate(d.elem):
            for f in range(2 * ndim):
                for ibc in range(d.nbc):
                    el.bcs[ibc, f][5] = 0.5 + e + 10 * f + 100 * m + 1000 * ibc
    if curved:
        for m, d in enumerate((a, b)):
            for e, el in enumerate(d.elem):
                el.ccurv[e % 4] = env.string(f"c{m}_{e}", ["", "m", "C"])
                for j in range(5):
                    el.curv[e % 4, j] = env.real(f"cv{m}_{e}_{j}")
            d.update_ncurv()
    if maps:
        set_elmap(env, a, env.pick("mapa", perms(a.nel)))
        set_elmap(env, b, env.pick("mapb", perms(b.nel)))
    mapa, mapb = [int(x) for x in a.elmap], [int(x) for x in b.elmap]
    t = 1e-2 if tol is None else tol
    # faces that could touch: those of the side of a and of b that meet
    pairs = []
    for e0 in range(b.nel):
        for f0 in range(2 * ndim):
            for e1 in range(a.nel):
                for f1 in range(2 * ndim):
                    d2 = dist2(face_centre(b.elem[e0], f0, ndim), face_centre(a.elem[e1], f1, ndim))
                    env.assume(env.any([d2 <= t * t * 0.999, d2 >= t * t * 1.001]))
                    pairs.append((e0, f0, e1, f1, d2 <= t * t))
    sa, sb = snapshot(env, a), snapshot(env, b)
    kw = dict(opts)
    if tol is not None:
        kw["tol"] = tol
    n = a.merge(b, **kw)
    same_snapshot(env, "the other mesh is unchanged", sb, snapshot(env, b))
    nel1, nel = sa["meta"][1], sa["meta"][1] + sb["meta"][1]
    env.eq("number of elements", a.nel, nel)
    env.eq("elements", len(a.elem), nel)
    env.check("element map is a permutation", sorted(int(x) for x in a.elmap) == list(range(1, nel + 1)))
    env.eq("element map keeps both", [int(x) for x in a.elmap], mapa + [x + nel1 for x in mapb])
    nc = sum((env.ite(el.ccurv[e] == "", 0, 1) for el in a.elem for e in range(12)), 0)
    env.eq("ncurv", a.ncurv, nc)
    after = snapshot(env, a)
    for e in range(nel):
        src = sa["elem"][e] if e < nel1 else sb["elem"][e - nel1]
        unchanged(env, f"element {e + 1}", src, after["elem"][e])
    for el in a.elem:
        env.eq("every element has the fields of the mesh", tuple(el.bcs.shape), (a.nbc, 6))
    env.eq("number of fields", a.nbc, nbc)
    for el in b.elem:
        env.check("no element is shared with the other mesh", all(el is not x for x in a.elem))

    # what every face must carry
    def before(e, f, ibc):
        """condition before merging, in the numbering of the merged mesh"""
        if e >= nel1 and ibc >= nbc + more:
            return [""] + [0] * 7
        v = list((sa["elem"][e] if e < nel1 else sb["elem"][e - nel1])["bcs"][ibc][f])
        if e >= nel1:
            v[1] = v[1] + nel1
            v[3] = env.ite(env.any([v[0] == "E", v[0] == "P"]), v[3] + nel1, v[3])
        return v

    ignore_empty = opts.get("ignore_empty", True)
    nothing = opts.get("ignore_all_bcs", False) or nbc == 0 or nbc + more == 0
    glue = {}
    for e0, f0, e1, f1, near in pairs:
        t0, t1 = sb["elem"][e0]["bcs"][0][f0][0] if nbc + more else "", sa["elem"][e1]["bcs"][0][f1][0] if nbc else ""
        skip = [t0 == "E", t1 == "E"]
        if ignore_empty:
            skip += [t0 == "", t1 == ""]
        glue[e0 + nel1, f0, e1, f1] = False if nothing else env.all([near, env.not_(env.any(skip))])
    for e in range(nel):
        for f in range(2 * ndim):
            mine = [(c, (q[2], q[3]) if q[0] == e and q[1] == f else (q[0], q[1])) for q, c in glue.items() if (q[0], q[1]) == (e, f) or (q[2], q[3]) == (e, f)]
            for ibc in range(nbc):
                got = get_bc(a.elem[e], ibc, f)
                old = before(e, f, ibc)
                cases = [env.all([c, got[0] == "E", got[1] == e + 1, got[2] == f + 1, got[3] == g + 1, got[4] == h + 1]) for c, (g, h) in mine]
                free_ = env.not_(env.any([c for c, _ in mine]))
                # a periodic face whose partner was glued is connected to the partner of what it was glued to
                # (the first field tells which faces are periodic: all fields of these meshes have the same conditions,
                # except for those which the other mesh does not have)
                alt = []
                old0 = before(e, f, 0)
                if old0[0] == "P" and periodic != ((), ()):
                    pe, pf = int(old0[3]) - 1, int(old0[4]) - 1
                    moved_ = env.any([c for q, c in glue.items() if (q[0], q[1]) == (pe, pf) or (q[2], q[3]) == (pe, pf)])
                    for q, c in glue.items():
                        if (pe, pf) in ((q[0], q[1]), (q[2], q[3])):
                            oth = (q[2], q[3]) if (q[0], q[1]) == (pe, pf) else (q[0], q[1])
                            ob = before(oth[0], oth[1], 0)
                            if ob[0] == "P":
                                alt.append(env.all([c, free_, got[0] == "P", got[1] == e + 1, got[2] == f + 1, got[3] == ob[3], got[4] == ob[4]]))
                            else:
                                alt.append(env.all([c, free_, env.all([env.equal(x, y) for x, y in zip(got, old)])]))
                    same = env.all([free_, env.not_(moved_)] + [env.equal(x, y) for x, y in zip(got, old)])
                else:
                    same = env.all([free_] + [env.equal(x, y) for x, y in zip(got, old)])
                env.check(f"condition {ibc} of face {f + 1} of element {e + 1}", env.any(cases + alt + [same]))
    count = sum((env.ite(c, 1, 0) if not isinstance(c, bool) else int(c) for c in glue.values()), 0)
    env.eq("number of pairs connected", n, count)
    if not free and not nothing:
        env.check("the merged mesh is connected", a.check_connectivity(tol=1e9))


def sizes(env, ndim, tol=None, axes=(0,), exact=False):
    """bricks of different lengths: the tolerance is relative to the smallest edge of both"""
    a = grid(env, 1, 1, ndim=ndim, xs=[-1.0 * env.real("ha", 0.25, 4.0) if not exact else -1.0, 0.0])
    s = [(env.int(f"s{i}", -8, 8) * 0.125 if exact else env.real(f"s{i}", -0.4, 0.4)) if i in axes else 0.0 for i in range(3)]
    h = 0.5 if exact else env.real("hb", 0.25, 4.0)
    b = grid(env, 1, 1, ndim=ndim, xs=[s[0], s[0] + h], ys=[s[1], 1.0 + s[1]], zs=[s[2], 1.0 + s[2]])
    short = 1.0
    for el in (a.elem[0], b.elem[0]):
        w = vertex(el, 1)[0] - vertex(el, 0)[0]
        short = env.ite(w < short, w, short)
    lim = (1e-2 if tol is None else tol) * short
    d2 = sum(x * x for x in s)
    if not exact:
        env.assume(env.any([d2 <= lim * lim * 0.999 - 1e-9, d2 >= lim * lim * 1.001 + 1e-9]))
    # the far sides stay apart
    for f0 in range(2 * ndim):
        for f1 in range(2 * ndim):
            if (f0, f1) != (3, 1):
                q = dist2(face_centre(b.elem[0], f0, ndim), face_centre(a.elem[0], f1, ndim))
                env.assume(q >= lim * lim * 1.001 + 1e-9)
    before = [snapshot(env, x) for x in (a, b)]
    touch = d2 <= lim * lim
    n = a.merge(b) if tol is None else a.merge(b, tol=tol)
    env.eq("number of pairs connected", n, env.ite(touch, 1, 0))
    for e in range(2):
        for f in range(2 * ndim):
            got = get_bc(a.elem[e], 0, f)
            old = before[e]["elem"][0]["bcs"][0][f]
            if (e, f) in ((0, 1), (1, 3)):
                want = ["E", e + 1, f + 1, 2 - e, 4 if f == 1 else 2]
                env.check(f"face {f + 1} of element {e + 1}", env.any([env.all([touch] + [x == y for x, y in zip(got[:5], want)]), env.all([env.not_(touch), got[0] == "W"])]))
            else:
                env.eq(f"face {f + 1} of element {e + 1}", got[0], old[0])


def refuse(env, what):
    a = grid(env, 1, 1)
    if what == "dimension":
        b = grid(env, 1, 1, 1, ndim=3)
    else:
        b = env.mod("core").HexaData(2, 1, [3, 3, 1], [2, 0, 0, 0, 0], 1)
    sa, sb = snapshot(env, a), snapshot(env, b)
    env.check("refused", env.raises(ValueError, lambda: a.merge(b)) is not None)
    same_snapshot(env, "the mesh is unchanged", sa, snapshot(env, a))
    same_snapshot(env, "the other mesh is unchanged", sb, snapshot(env, b))


def offset(env, ndim, nel, nbc, free, own=True):
    """offset_connectivity: every reference to element iel_min or later moves"""
    d = grid(env, nel, 1, 1, ndim=ndim, nbc=nbc, periodic=(0,))
    for b, e, f in free:
        set_bc(d.elem[e], b, f, env.string(f"t{b}_{e}_{f}", ["E", "P", "W"]), e + 1, f + 1, env.int(f"g{b}_{e}_{f}", 0, 1000), env.int(f"h{b}_{e}_{f}", 0, 6))
    off = env.int("offset", -1000, 1000)
    first = env.pick("first", range(nel + 1))
    before = snapshot(env, d)
    if first == 0 and env.flag("default"):
        d.offset_connectivity(off)
    else:
        d.offset_connectivity(off, iel_min=first)
    after = snapshot(env, d)
    for e in range(nel):
        unchanged(env, f"element {e + 1}", before["elem"][e], after["elem"][e])
        for b in range(nbc):
            for f in range(2 * ndim):
                v, w = before["elem"][e]["bcs"][b][f], after["elem"][e]["bcs"][b][f]
                L = f"condition {b} of face {f + 1} of element {e + 1}: "
                env.eq(L + "type, face and parameters", [w[0], w[2]] + w[4:], [v[0], v[2]] + v[4:])
                env.eq(L + "element", w[1], v[1] + off if e >= first else v[1])
                env.check(L + "partner", env.any([
                    env.all([env.any([v[0] == "E", v[0] == "P"]), v[3] >= first + 1, w[3] == v[3] + off]),
                    env.all([env.any([v[0] == "E", v[0] == "P"]), v[3] <= first, w[3] == v[3]]),
                    env.all([env.not_(env.any([v[0] == "E", v[0] == "P"])), w[3] == v[3]])]))


SCENARIOS = {
    "gap": (merge, dict(ndim=2, na=(1, 1), nb=(1, 1), shift=(0, 1))),
    "gap_tol": (merge, dict(ndim=2, na=(1, 1), nb=(1, 1), shift=(0,), tol=0.3)),
    "sides": (merge, dict(ndim=2, na=(2, 2), nb=(1, 2), shift=(1,))),
    "top": (merge, dict(ndim=2, na=(2, 1), nb=(2, 1), shift=(0,), touch=(2, 0))),
    "fields": (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(0,), nbc=3)),
    "types": (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(0,), free=[(0, 1, 1), (1, 0, 3)])),
    "types_empty": (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(), free=[(0, 1, 1), (1, 0, 3)], ignore_empty=False)),
    "all_ignored": (merge, dict(ndim=2, na=(1, 1), nb=(1, 1), shift=(0,), ignore_all_bcs=True)),
    "no_fields": (merge, dict(ndim=2, na=(1, 1), nb=(2, 1), shift=(0,), nbc=0)),
    "maps": (merge, dict(ndim=2, na=(2, 1), nb=(2, 1), shift=(0,), maps=True)),
    "curves": (merge, dict(ndim=2, na=(1, 1), nb=(2, 1), shift=(0,), curved=True)),
    "periodic": (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(0,), periodic=((0,), (0,)))),
    "periodic_wide": (merge, dict(ndim=2, na=(2, 1), nb=(3, 1), shift=(1,), periodic=((0,), (0,)), nbc=2)),
    "periodic_other": (merge, dict(ndim=2, na=(1, 2), nb=(1, 2), shift=(0,), periodic=((1,), (1,)))),
    "3d": (merge, dict(ndim=3, na=(1, 1, 1), nb=(1, 1, 1), shift=(0, 2))),
    "3d_top": (merge, dict(ndim=3, na=(1, 1, 2), nb=(1, 1, 1), shift=(2,), touch=(5, 4))),
    "3d_periodic": (merge, dict(ndim=3, na=(1, 1, 1), nb=(1, 1, 1), shift=(0,), periodic=((0, 2), (0, 2)))),
    "dimension": (refuse, dict(what="dimension")),
    "order": (refuse, dict(what="order")),
    "offset_2d": (offset, dict(ndim=2, nel=2, nbc=1, free=[(0, 0, 0), (0, 1, 3)])),
    "offset_3d": (offset, dict(ndim=3, nel=1, nbc=2, free=[(0, 0, 5), (1, 0, 4)])),
    "offset_three": (offset, dict(ndim=2, nel=3, nbc=1, free=[(0, 1, 1)])),
}
SCENARIOS["blocks"] = (merge, dict(ndim=2, na=(3, 2), nb=(2, 2), shift=(0,), nbc=2))
SCENARIOS["blocks_3d"] = (merge, dict(ndim=3, na=(2, 2, 1), nb=(1, 2, 2), shift=(0,)))
SCENARIOS["more"] = (merge, dict(ndim=2, na=(7, 5), nb=(6, 5), shift=(), nbc=1), {"cost": 4})
SCENARIOS["sizes"] = (sizes, dict(ndim=2, tol=0.25))
SCENARIOS["sizes_default"] = (sizes, dict(ndim=2))
SCENARIOS["sizes_y"] = (sizes, dict(ndim=2, tol=0.5, axes=(0, 1)))
SCENARIOS["sizes_3d"] = (sizes, dict(ndim=3, tol=0.25, axes=(0, 2)))
SCENARIOS["exact"] = (sizes, dict(ndim=2, tol=0, axes=(0, 1), exact=True))
SCENARIOS["exact_3d"] = (sizes, dict(ndim=3, tol=0.0, axes=(2,), exact=True))
# elements whose own axes point elsewhere
SCENARIOS["turned"] = (merge, dict(ndim=2, na=(2, 2), nb=(1, 2), shift=(0,), turns=([(1, 1), (3, 2)], [(0, 3), (1, 1)])))
SCENARIOS["turned_periodic"] = (merge, dict(ndim=2, na=(2, 1), nb=(2, 1), shift=(0,), periodic=((0,), (0,)), turns=([(0, 1), (1, 2)], [(0, 3), (1, 1)])))
SCENARIOS["turned_3d"] = (merge, dict(ndim=3, na=(1, 2, 1), nb=(1, 2, 1), shift=(1,), turns=([(0, 5), (1, 20)], [(0, 13), (1, 9)])))
# fields with points inside their elements, and data
SCENARIOS["field"] = (merge, dict(ndim=2, na=(1, 1), nb=(2, 1), shift=(0, 1), order=(4, 3, 1), var=(2, 2, 1, 1, 2)))
SCENARIOS["field_3d"] = (merge, dict(ndim=3, na=(1, 1, 1), nb=(1, 1, 1), shift=(2,), touch=(5, 4), order=(3, 4, 5), var=(3, 3, 1, 0, 1), tol=0.2))
SCENARIOS["field_periodic"] = (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(0,), periodic=((0,), (0,)), order=(3, 3, 1), var=(2, 0, 0, 1, 0)))
# the other mesh has more condition fields, or fewer: it takes those of the mesh it is merged into
SCENARIOS["more_fields"] = (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(0,), nbc=1, more=1, free=[(0, 1, 1), (1, 0, 3)]))
SCENARIOS["more_fields_periodic"] = (merge, dict(ndim=2, na=(2, 1), nb=(2, 1), shift=(0,), nbc=2, more=1, periodic=((0,), (0,))))
SCENARIOS["fewer_fields"] = (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(0,), nbc=2, more=-1, free=[(0, 1, 1), (1, 0, 3)]))
SCENARIOS["fewer_fields_periodic"] = (merge, dict(ndim=2, na=(2, 1), nb=(2, 1), shift=(0,), nbc=3, more=-2, periodic=((0,), (0,))))
SCENARIOS["fewer_fields_empty"] = (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(0,), nbc=2, more=-1, free=[(0, 1, 1), (1, 0, 3)], ignore_empty=False))
SCENARIOS["fewer_fields_none"] = (merge, dict(ndim=2, na=(2, 1), nb=(1, 1), shift=(0,), nbc=2, more=-2))
# periodic along the other axes
SCENARIOS["top_periodic"] = (merge, dict(ndim=2, na=(1, 2), nb=(1, 2), shift=(1,), touch=(2, 0), periodic=((1,), (1,))))
SCENARIOS["3d_top_periodic"] = (merge, dict(ndim=3, na=(1, 1, 2), nb=(1, 1, 2), shift=(2,), touch=(5, 4), periodic=((2,), (2,))))
