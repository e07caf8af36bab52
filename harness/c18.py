"""C18: check_connectivity accepts exactly the meshes whose connections agree."""

from .boxes import grid, link
from .common import dist2, edge_ends, face_centre, get_bc, same_snapshot, set_bc, set_vertex, snapshot


def agree(env, d, near):
    """every connection leads to an existing face that is connected back and, for
    internal faces, lies at the same place"""
    conds = []
    faces = [(e, f) for e in range(d.nel) for f in range(2 * d.ndim)]
    known = set(faces)
    for b in range(d.nbc):
        for e, f in faces:
            t, _, _, g, h = get_bc(d.elem[e], b, f)[:5]
            ok = []
            if isinstance(t, str) and isinstance(g, (int, float)) and isinstance(h, (int, float)):
                if t not in ("E", "P"):
                    continue
                some = [(int(g) - 1, int(h) - 1)]
            else:
                some = faces
            for e1, f1 in some:
                if (e1, f1) not in known:
                    continue
                t1, _, _, g1, h1 = get_bc(d.elem[e1], b, f1)[:5]
                back = [g == e1 + 1, h == f1 + 1, t1 == t, g1 == e + 1, h1 == f + 1]
                ok.append(env.all(back + [env.any([t == "P", near(e, f, e1, f1)])]))
            conds.append(env.any([env.not_(env.any([t == "E", t == "P"])), env.any(ok)]))
    return env.all(conds)


def verdict(env, d, good, **k):
    before = snapshot(env, d)
    out = []
    err = env.raises(ValueError, lambda: out.append(d.check_connectivity(**k)))
    if err is None:
        env.check("a mesh with a bad connection is rejected", good)
        env.check("an accepted mesh gets True", out == [True])
    else:
        env.check("a mesh whose connections agree is accepted", env.not_(good))
    same_snapshot(env, "the mesh is unchanged", before, snapshot(env, d))


def links(env, ndim, n, free, nbc=1, fields=(0,), periodic=(), second=("E", "W"), near=None, faces=None, turns=(), order=None, var=None):
    """some conditions are anything; the bricks are where they should be"""
    d = grid(env, *n, ndim=ndim, nbc=nbc, periodic=periodic, turns=turns, order=order, var=var)
    for b in fields:
        for i, (e, f) in enumerate(free):
            t = env.string(f"t{b}_{e}_{f}", ["E", "P", "W", ""] if i == 0 else second)
            g = env.int(f"g{b}_{e}_{f}", *(near or (-1, d.nel + 1))) if i == 0 else env.int(f"g{b}_{e}_{f}", 1, d.nel)
            h = env.int(f"h{b}_{e}_{f}", *(faces if faces and i == 0 else (1, 2 * ndim)))
            set_bc(d.elem[e], b, f, t, e + 1, f + 1, g, h)
    centre = {(e, f): face_centre(d.elem[e], f, ndim) for e in range(d.nel) for f in range(2 * ndim)}
    verdict(env, d, agree(env, d, lambda e, f, e1, f1: bool(dist2(centre[e, f], centre[e1, f1]) < 1e-9)))


def shortest2(env, el, ndim):
    n = 12 if ndim == 3 else 4
    l2 = [dist2(*edge_ends(el, i)) for i in range(n)]
    m = l2[0]
    for x in l2[1:]:
        m = env.ite(x < m, x, m)
    return m


def places(env, ndim, shift, tol=None, size=False, two=False, only=None, **g):
    """the second brick is somewhere else, of another size"""
    ax = 2 if ndim == 3 and two else 0
    n = [1, 1, 1]
    n[ax] = 2
    d = grid(env, *n, ndim=ndim, **g)
    a, b = d.elem
    s = [env.real(f"s{i}", -1.5, 1.5) if i in shift else 0.0 for i in range(ndim)]
    h = [env.real(f"h{i}", 0.25, 4.0) if size and i == 0 else 1.0 for i in range(ndim)]
    lo, hi = (5, 4) if ax == 2 else (1, 3)
    if only is not None:
        # connected in one of the fields
        for i in range(d.nbc):
            if i != only:
                set_bc(a, i, lo, "W", 1, lo + 1)
                set_bc(b, i, hi, "W", 2, hi + 1)
    from .common import CORNERS

    for v in range(2**ndim):
        z, y, x = CORNERS[v]
        p = [(1.0 if i == ax else 0.0) + k * h[i] + s[i] for i, k in enumerate((x, y, z)[:ndim])]
        set_vertex(b, v, p)
    c0, c1 = face_centre(a, lo, ndim), face_centre(b, hi, ndim)
    gap = dist2(c0, c1)
    m0, m1 = shortest2(env, a, ndim), shortest2(env, b, ndim)
    lim = env.ite(m0 < m1, m0, m1)
    t = env.real("tol", 1e-3, 1.0) if tol == "any" else tol
    k = {} if t is None else {"tol": t}
    t = 1e-3 if t is None else t
    lim = lim * t * t
    env.assume(env.any([gap <= lim * 0.999 - 1e-9, gap >= lim * 1.001 + 1e-9]))
    verdict(env, d, gap <= lim, **k)


def exact(env, ndim, axes):
    """without any tolerance faces at exactly the same place are connected (steps of 1/8 have no rounding)"""
    d = grid(env, 2, 1, ndim=ndim)
    s = [env.int(f"s{i}", -8, 8) * 0.125 if i in axes else 0.0 for i in range(ndim)]
    from .common import CORNERS

    for v in range(2**ndim):
        z, y, x = CORNERS[v]
        set_vertex(d.elem[1], v, [1.0 + x + s[0], y + s[1]] + ([z + s[2]] if ndim == 3 else []))
    verdict(env, d, env.all([x == 0 for x in s]), tol=env.pick("tol", (0, 0.0)))


def periodic_places(env, ndim):
    """periodic faces may be anywhere"""
    d = grid(env, 2, 1, ndim=ndim, periodic=(0, 1))
    for v in range(2**ndim):
        set_vertex(d.elem[1], v, [env.real(f"v{v}_{i}", -4.0, 4.0) for i in range(ndim)])
    link(d, 0, 0, 1, "P", 1, 3)
    link(d, 0, 1, 3, "P", 0, 1)
    verdict(env, d, True)


SCENARIOS = {
    "links_2d": (links, dict(ndim=2, n=(2, 1), free=[(0, 1), (1, 3)])),
    "links_self": (links, dict(ndim=2, n=(2, 1), free=[(0, 0), (0, 2)], periodic=(1,))),
    "links_one": (links, dict(ndim=2, n=(1, 1), free=[(0, 0), (0, 2)])),
    "links_field": (links, dict(ndim=2, n=(1, 2), nbc=2, fields=(1,), free=[(0, 2), (1, 0)])),
    "links_2x2": (links, dict(ndim=2, n=(2, 2), free=[(3, 3)])),
    "links_3d": (links, dict(ndim=3, n=(1, 1, 2), free=[(1, 4)])),
    "links_3d_low": (links, dict(ndim=3, n=(1, 1, 2), free=[(0, 5)])),
    "links_3d_periodic": (links, dict(ndim=3, n=(2, 1, 1), free=[(1, 1)], periodic=(0, 2))),
    "places_x": (places, dict(ndim=2, shift=(0,))),
    "places_y": (places, dict(ndim=2, shift=(1,), size=True)),
    "places_xy": (places, dict(ndim=2, shift=(0, 1), tol=0.25)),
    "places_tol": (places, dict(ndim=2, shift=(0,), tol="any")),
    "places_size": (places, dict(ndim=2, shift=(0,), tol=0.5, size=True)),
    "places_3d": (places, dict(ndim=3, shift=(2,), tol=0.25, size=True)),
    "places_3d_z": (places, dict(ndim=3, shift=(0, 2), tol=0.25, two=True)),
    "places_3d_y": (places, dict(ndim=3, shift=(1,), tol=0.25)),
    "periodic_2d": (periodic_places, dict(ndim=2)),
    "periodic_3d": (periodic_places, dict(ndim=3)),
    "links_3": (links, dict(ndim=2, n=(3, 1), free=[(1, 3), (0, 1)], second=["E", "P", "W", ""]), {"tier": "thorough", "cost": 5}),
    "links_two_fields": (links, dict(ndim=2, n=(2, 1), nbc=2, fields=(0, 1), free=[(0, 1)]), {"tier": "thorough", "cost": 5}),
    "links_3d_two": (links, dict(ndim=3, n=(1, 1, 2), free=[(1, 4), (0, 5)]), {"tier": "thorough", "cost": 9}),
    "places_all": (places, dict(ndim=3, shift=(0, 1, 2), tol=0.3, size=True), {"cost": 5}),
}
SCENARIOS["links_six"] = (links, dict(ndim=2, n=(3, 2), free=[(4, 1)], periodic=(0,)), {"cost": 3})
SCENARIOS["links_many"] = (links, dict(ndim=2, n=(4, 3), free=[(10, 1)], periodic=(0,)), {"tier": "thorough", "cost": 5})
SCENARIOS["links_3d_many"] = (links, dict(ndim=3, n=(2, 2, 2), free=[(6, 4)]), {"tier": "thorough", "cost": 5})
SCENARIOS["hundreds"] = (links, dict(ndim=2, n=(20, 15), free=[(290, 1)], periodic=(0,), near=(291, 292)), {"cost": 4})
for _d, _n in ((2, (2, 1)), (3, (2, 1, 1)), (3, (1, 1, 2))):
    # another face leads to a periodic face that is properly connected already
    _p = 2 if _n == (1, 1, 2) else 0
    SCENARIOS[f"links_second_{_d}d_{'xyz'[_p]}"] = (links, dict(ndim=_d, n=_n, free=[(0, 0)], periodic=(_p,)), {"cost": 2})
    SCENARIOS[f"links_second_other_{_d}d_{'xyz'[_p]}"] = (links, dict(ndim=_d, n=_n, free=[(1, 2)], periodic=(_p,)), {"cost": 2})
SCENARIOS["exact"] = (exact, dict(ndim=2, axes=(0, 1)))
SCENARIOS["exact_3d"] = (exact, dict(ndim=3, axes=(2,)))
# neighbours whose own axes point elsewhere
SCENARIOS["links_turned"] = (links, dict(ndim=2, n=(2, 2), free=[(3, 3)], periodic=(1,), turns=[(0, 1), (1, 2), (3, 3)]))
SCENARIOS["links_turned_3d"] = (links, dict(ndim=3, n=(2, 1, 1), free=[(1, 1)], periodic=(2,), turns=[(0, 7), (1, 17)]), {"cost": 2})
# fields with points inside their elements, and data
SCENARIOS["links_field_2d"] = (links, dict(ndim=2, n=(2, 1), free=[(0, 1)], periodic=(0,), order=(4, 3, 1), var=(2, 2, 1, 1, 1)), {"cost": 2})
SCENARIOS["links_field_3d"] = (links, dict(ndim=3, n=(2, 1, 1), free=[(1, 3)], order=(3, 4, 5), var=(3, 0, 1, 0, 0)), {"cost": 2})
SCENARIOS["places_field"] = (places, dict(ndim=2, shift=(0,), tol=0.5, size=True, order=(3, 4, 1)))
SCENARIOS["places_field_3d"] = (places, dict(ndim=3, shift=(2,), tol=0.25, order=(4, 3, 3), var=(3, 0, 0, 0, 0)))
# connected in one field only
SCENARIOS["places_second"] = (places, dict(ndim=2, shift=(0, 1), tol=0.25, nbc=2, only=1))
SCENARIOS["places_third_3d"] = (places, dict(ndim=3, shift=(0, 2), tol=0.25, nbc=3, only=2))
SCENARIOS["places_second_3d"] = (places, dict(ndim=3, shift=(1,), tol=0.25, nbc=2, only=1, two=True))
# faces that no element has
SCENARIOS["faces_2d"] = (links, dict(ndim=2, n=(2, 1), free=[(0, 1)], faces=(-2, 9)))
SCENARIOS["faces_3d"] = (links, dict(ndim=3, n=(1, 1, 2), free=[(1, 4)], faces=(-6, 13)))
SCENARIOS["faces_3d_low"] = (links, dict(ndim=3, n=(1, 1, 2), free=[(0, 5)], faces=(-3, 0), periodic=(2,)))
SCENARIOS["faces_3d_mixed"] = (links, dict(ndim=3, n=(2, 1, 1), free=[(0, 3), (1, 1)], faces=(-5, 9)))
