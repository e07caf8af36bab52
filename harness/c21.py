"""C21: generated internal conditions connect exactly the faces that meet; deleting removes exactly the internal ones."""

from .boxes import grid
from .common import CORNERS, FIELDS, dist2, edge_ends, face_centre, get_bc, set_bc, set_vertex, snapshot


def blank(env, ndim, n, nbc, **k):
    """a mesh without internal conditions"""
    return grid(env, *n, ndim=ndim, nbc=nbc, inner=False, **k)


def shortest2(env, el, ndim):
    l2 = [dist2(*edge_ends(el, i)) for i in range(12 if ndim == 3 else 4)]
    m = l2[0]
    for x in l2[1:]:
        m = env.ite(x < m, x, m)
    return m


def untouched(env, before, after):
    env.eq("metadata and element map", [after["meta"], after["elmap"]], [before["meta"], before["elmap"]])
    for e, (x, y) in enumerate(zip(before["elem"], after["elem"])):
        for k in FIELDS + ("curv", "ccurv"):
            env.eq(f"{k} of element {e + 1}", y[k], x[k])


def generate(env, ndim, n, nbc=1, moves=(), tol=None, taken=(), types=("W", "", "E", "P"), scale=None, **g):
    """the vertices of some elements are moved together by any amount"""
    d = blank(env, ndim, n, nbc, **g)
    for f in range(2 * ndim):  # outer conditions are left out too
        for el in d.elem:
            for b in range(nbc):
                set_bc(el, b, f, "", 0, 0, 0, 0)
    for e, axes in moves:
        s = [env.real(f"s{e}_{i}", -0.4, 0.4) if i in axes else 0.0 for i in range(ndim)]
        h = env.real(f"h{e}", 0.25, 4.0) if scale == e else 1.0
        el = d.elem[e]
        z, y, x = CORNERS[0]
        p0 = [el.pos[i, z, y, x] for i in range(ndim)]
        for v in range(2**ndim):
            z, y, x = CORNERS[v]
            set_vertex(el, v, [p0[i] + s[i] + k * (h if i == 1 else 1.0) for i, k in enumerate((x, y, z)[:ndim])])
    for e, f, *only in taken:  # in all fields, or only in some
        t = env.string(f"t{e}_{f}", types)
        for b in only or range(nbc):
            set_bc(d.elem[e], b, f, t, e + 1, f + 1, 1, 1, 0.5)
    t = 1e-3 if tol is None else tol
    faces = [(e, f) for e in range(d.nel) for f in range(2 * ndim)]
    c = {q: face_centre(d.elem[q[0]], q[1], ndim) for q in faces}
    short = [shortest2(env, el, ndim) for el in d.elem]
    empty = {q: env.all([get_bc(d.elem[q[0]], b, q[1])[0] == "" for b in range(nbc)]) for q in faces}
    meet = {}
    for i, q in enumerate(faces):
        for r in faces[i + 1 :]:
            if q[0] == r[0]:
                continue
            d2 = dist2(c[q], c[r])
            lim = env.ite(short[q[0]] < short[r[0]], short[q[0]], short[r[0]]) * (t * t)
            env.assume(env.any([d2 <= lim * 0.999 - 1e-12, d2 >= lim * 1.001 + 1e-12]))
            meet[q, r] = env.all([d2 <= lim, empty[q], empty[r]])
    # each face meets at most one other
    for q in faces:
        mine = [m for k, m in meet.items() if q in k]
        for i, m in enumerate(mine):
            for m2 in mine[i + 1 :]:
                env.assume(env.not_(env.all([m, m2])))
    before = snapshot(env, d)
    gen = env.mod("meshtools").generate_internal_bcs
    n = gen(d) if tol is None else gen(d, tol=tol)
    after = snapshot(env, d)
    untouched(env, before, after)
    for q in faces:
        for b in range(nbc):
            old, got = before["elem"][q[0]]["bcs"][b][q[1]], after["elem"][q[0]]["bcs"][b][q[1]]
            cases = [env.all([env.not_(env.any([m for k, m in meet.items() if q in k])), env.all([env.equal(x, y) for x, y in zip(got, old)])])]
            for k, m in meet.items():
                if q in k:
                    o = k[1] if k[0] == q else k[0]
                    cases.append(env.all([m, got[0] == "E"] + [env.equal(x, y) for x, y in zip(got[1:5], [q[0] + 1, q[1] + 1, o[0] + 1, o[1] + 1])]))
            env.check(f"condition {b} of face {q[1] + 1} of element {q[0] + 1}", env.any(cases))
    pairs = sum((env.ite(m, 1, 0) for m in meet.values()), 0)
    env.eq("number of connections", n, pairs * nbc)


def exact(env, ndim, axes):
    """without any tolerance faces at exactly the same place are connected (steps of 1/8 have no rounding)"""
    d = blank(env, ndim, (2, 1), 1)
    s = [env.int(f"s{i}", -3, 3) * 0.125 if i in axes else 0.0 for i in range(ndim)]
    for f in range(2 * ndim):
        for el in d.elem:
            set_bc(el, 0, f, "", 0, 0, 0, 0)
    for v in range(2**ndim):
        z, y, x = CORNERS[v]
        set_vertex(d.elem[1], v, [1.0 + x + s[0], y + s[1]] + ([z + s[2]] if ndim == 3 else []))
    meet = env.all([x == 0 for x in s])
    n = env.mod("meshtools").generate_internal_bcs(d, tol=env.pick("tol", (0, 0.0)))
    env.eq("number of connections", n, env.ite(meet, 1, 0))
    for e in range(2):
        for f in range(2 * ndim):
            t = get_bc(d.elem[e], 0, f)[0]
            env.eq(f"face {f + 1} of element {e + 1}", t, env.ite(meet, "E", "") if (e, f) in ((0, 1), (1, 3)) else "")


def zero_edge(env, ndim, edge):
    """an edge without length is an error"""
    d = blank(env, ndim, (2, 1), 1)
    from .common import EDGES, vertex

    a, b = EDGES[edge]
    el = d.elem[env.pick("element", (0, 1))]
    p = [env.real(f"p{i}", -4.0, 4.0) for i in range(ndim)]
    set_vertex(el, a, p)
    set_vertex(el, b, p)
    env.check("refused", env.raises(ValueError, lambda: env.mod("meshtools").generate_internal_bcs(d)) is not None)


def delete(env, ndim, n, nbc, free):
    d = grid(env, *n, ndim=ndim, nbc=nbc, periodic=(1,))
    for b, e, f in free:
        set_bc(d.elem[e], b, f, env.string(f"t{b}_{e}_{f}", ["E", "W", "P", ""]), e + 1, f + 1, env.int(f"g{b}_{e}_{f}", 0, 99), env.int(f"h{b}_{e}_{f}", 0, 6))
        for i in range(3):
            d.elem[e].bcs[b, f][5 + i] = env.real(f"x{b}_{e}_{f}_{i}")
    before = snapshot(env, d)
    n = env.mod("meshtools").delete_internal_bcs(d)
    after = snapshot(env, d)
    untouched(env, before, after)
    count = 0
    for e in range(d.nel):
        for b in range(nbc):
            for f in range(6):
                old, got = before["elem"][e]["bcs"][b][f], after["elem"][e]["bcs"][b][f]
                inner = old[0] == "E"
                clean = env.all([got[0] == ""] + [env.equal(x, 0) for x in got[1:]])
                same = env.all([env.equal(x, y) for x, y in zip(got, old)])
                env.check(f"condition {b} of face {f + 1} of element {e + 1}", env.any([env.all([inner, clean]), env.all([env.not_(inner), same])]))
                count = count + env.ite(inner, 1, 0)
    env.eq("number of deleted conditions", n, count)


def restore(env, ndim, n, nbc, periodic=(), **g):
    """deleting the internal conditions of a mesh of bricks of any size and generating them again changes nothing"""
    crd = [[env.real("x0", -10.0, 10.0)], [0.0], [0.0]]
    for i, m in enumerate(tuple(n) + (1,) * (3 - len(n))):
        for k in range(m):
            crd[i].append(crd[i][-1] + (env.real(f"d{i}_{k}", 0.5, 2.0) if i < 2 else 1.0))
    d = grid(env, *n, ndim=ndim, nbc=nbc, xs=crd[0], ys=crd[1], zs=crd[2], periodic=periodic, **g)
    before = snapshot(env, d)
    m = env.mod("meshtools")
    k = m.delete_internal_bcs(d)
    env.eq("twice as many conditions as connections", k, 2 * m.generate_internal_bcs(d))
    after = snapshot(env, d)
    untouched(env, before, after)
    for e in range(d.nel):
        env.eq(f"conditions of element {e + 1}", after["elem"][e]["bcs"], before["elem"][e]["bcs"])
    env.check("connected", d.check_connectivity())
    env.check("complete", d.check_bcs_present())


SCENARIOS = {
    "pair": (generate, dict(ndim=2, n=(2, 1), moves=[(1, (0, 1))])),
    "pair_scaled": (generate, dict(ndim=2, n=(2, 1), moves=[(1, (1,))], tol=0.25, scale=1)),
    "pair_tol": (generate, dict(ndim=2, n=(1, 2), moves=[(1, (0,))], tol=0.2)),
    "three": (generate, dict(ndim=2, n=(3, 1), moves=[(1, (0,))], tol=0.1)),
    "four": (generate, dict(ndim=2, n=(2, 2), moves=[(3, (0,))], tol=0.1)),
    "fields": (generate, dict(ndim=2, n=(2, 1), nbc=3, moves=[(1, (0,))])),
    "taken": (generate, dict(ndim=2, n=(2, 1), moves=[], taken=[(0, 1), (1, 3)])),
    "taken_in_one_field": (generate, dict(ndim=2, n=(2, 1), nbc=2, moves=[], taken=[(0, 1, 1), (1, 3, 0)])),
    "taken_in_first_field": (generate, dict(ndim=3, n=(2, 1, 1), nbc=3, moves=[], taken=[(0, 1, 0), (0, 2, 1), (1, 3, 2)])),
    "no_fields": (generate, dict(ndim=2, n=(2, 1), nbc=0, moves=[])),
    "taken_other": (generate, dict(ndim=2, n=(2, 2), moves=[], taken=[(0, 2), (3, 0), (1, 1)])),
    "pair_3d": (generate, dict(ndim=3, n=(2, 1, 1), moves=[(1, (0, 2))])),
    "pair_3d_z": (generate, dict(ndim=3, n=(1, 1, 2), moves=[(1, (2,))], tol=0.1)),
    "pair_3d_y": (generate, dict(ndim=3, n=(1, 2, 1), moves=[(0, (1,))], tol=0.1)),
    "zero_edge_3d": (zero_edge, dict(ndim=3, edge=9)),
    "zero_edge_2d": (zero_edge, dict(ndim=2, edge=2)),
    "delete_2d": (delete, dict(ndim=2, n=(2, 1), nbc=2, free=[(0, 0, 1), (1, 1, 3)])),
    "delete_3d": (delete, dict(ndim=3, n=(1, 1, 2), nbc=1, free=[(0, 0, 5), (0, 1, 4), (0, 0, 0)])),
    "delete_none": (delete, dict(ndim=2, n=(2, 1), nbc=0, free=[])),
    "restore_2d": (restore, dict(ndim=2, n=(2, 2), nbc=1)),
    "restore_fields": (restore, dict(ndim=2, n=(2, 1), nbc=1, periodic=(1,))),
    "restore_3d": (restore, dict(ndim=3, n=(2, 1, 1), nbc=1)),
    "restore_big": (restore, dict(ndim=2, n=(3, 2), nbc=1), {"cost": 5}),
    "restore_3d_big": (restore, dict(ndim=3, n=(2, 1, 2), nbc=1), {"cost": 5}),
}
SCENARIOS["nine"] = (generate, dict(ndim=2, n=(3, 3), moves=[(8, (0,))], tol=0.1))
SCENARIOS["eight_3d"] = (generate, dict(ndim=3, n=(2, 2, 2), moves=[(7, (2,))], tol=0.1))
SCENARIOS["more"] = (generate, dict(ndim=2, n=(5, 4), moves=[], tol=0.1), {"cost": 4})
SCENARIOS["exact"] = (exact, dict(ndim=2, axes=(0, 1)))
SCENARIOS["exact_3d"] = (exact, dict(ndim=3, axes=(2,)))
SCENARIOS["pair_scaled_first"] = (generate, dict(ndim=2, n=(2, 1), moves=[(0, (1,))], tol=0.25, scale=0))
# elements whose own axes point elsewhere
SCENARIOS["turned"] = (generate, dict(ndim=2, n=(2, 2), moves=[(3, (0,))], tol=0.1, turns=[(0, 1), (1, 2), (2, 3)]))
SCENARIOS["turned_3d"] = (generate, dict(ndim=3, n=(2, 1, 2), moves=[(3, (2,))], tol=0.1, turns=[(0, 21), (1, 6), (2, 11)]))
SCENARIOS["restore_turned"] = (restore, dict(ndim=2, n=(2, 2), nbc=1, periodic=(0,), turns=[(0, 1), (1, 2), (3, 3)]))
SCENARIOS["restore_turned_3d"] = (restore, dict(ndim=3, n=(2, 1, 2), nbc=1, turns=[(0, 19), (1, 3), (3, 8)]), {"cost": 3})
# fields with points inside their elements, and data
SCENARIOS["field"] = (generate, dict(ndim=2, n=(2, 1), moves=[(1, (0, 1))], order=(4, 3, 1)))
SCENARIOS["field_size"] = (generate, dict(ndim=2, n=(2, 1), moves=[(1, (1,))], tol=0.25, scale=1, order=(3, 4, 1), var=(2, 2, 0, 1, 0)))
SCENARIOS["field_3d"] = (generate, dict(ndim=3, n=(1, 1, 2), moves=[(1, (2,))], tol=0.1, order=(4, 3, 5), var=(3, 3, 1, 0, 1)))
SCENARIOS["restore_field"] = (restore, dict(ndim=3, n=(2, 1, 1), nbc=1, order=(3, 3, 3), var=(3, 0, 0, 0, 0)))
