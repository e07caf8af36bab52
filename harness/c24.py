"""C24: refined extrusion fills the extruded domain with conforming, correctly connected elements."""

from .boxes import grid, turn
from .c27 import arc_mid
from .common import EDGES, FACES, bookkeeping, get_bc, same_snapshot, set_bc, snapshot, vertex


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def det(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


# the three neighbours of each vertex, in right-handed order
AROUND = [(1, 3, 4), (2, 0, 5), (3, 1, 6), (0, 2, 7), (7, 5, 0), (4, 6, 1), (5, 7, 2), (6, 4, 3)]
# six tetrahedra around the diagonal 0-6
TETS = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]


def same_points(env, a, b):
    """two lists of points are the same set, up to rounding"""
    def eq(p, q):
        tests = []
        for x, y in zip(p, q):
            if x is y:
                continue
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if not -1e-9 <= x - y <= 1e-9:
                    return False
                continue
            d = x - y
            tests += [d <= 1e-9, d >= -1e-9]
        return env.all(tests)

    table = [[eq(p, q) for q in b] for p in a]
    return env.all([env.any(row) for row in table] + [env.any(list(col)) for col in zip(*table)])


def base(env, axis, n, nbc, free_z=True, free_x=False, nz=4, across=1, periodic=()):
    """elements in a row; returns the mesh, the position of the splitting lines and the heights"""
    xs = [0.0]
    for i in range(n):
        xs.append(xs[-1] + (env.real(f"dx{i}", 0.5, 2.0) if free_x else 1.0 + 0.25 * i))
    other = [0.5 * j for j in range(across + 1)]
    z = [env.real("z0", -5.0, 5.0) if free_z else 0.0]
    for k in range(nz):
        z.append(z[-1] + (env.real(f"dz{k}", 0.5, 2.0) if free_z and not (free_z == "first" and k) else 0.5 + 0.125 * k))
    if axis == 0:
        d = grid(env, n, across, nbc=nbc, xs=xs, ys=other, periodic=periodic)
    else:
        d = grid(env, across, n, nbc=nbc, xs=other, ys=xs, periodic=periodic)
    for e, el in enumerate(d.elem):
        for b in range(nbc):
            for f in range(4):
                if get_bc(el, b, f)[0] == "W":
                    set_bc(el, b, f, ("W", "v", "O", "SYM")[f])
    return d, xs, z


def conforming(env, r, d, z, bc1, bc2, area_of, nbc, internal, lims, periodic=(), some=None):
    bookkeeping(env, r, data=True)
    env.eq("three dimensions", [r.ndim, list(r.lr1), list(r.var)], [3, [2, 2, 2], [3, 0, 0, 0, 0]])
    pts = [[vertex(el, v) for v in range(8)] for el in r.elem]
    vol = 0.0
    for e in range(r.nel):
        p = pts[e]
        for v in range(8):
            a, b, c = (sub(p[k], p[v]) for k in AROUND[v])
            env.check(f"element {e + 1} is right-handed at vertex {v + 1}", det(a, b, c) > 0.0)
        for t in TETS:
            o = p[t[0]]
            vol = vol + det(sub(p[t[1]], o), sub(p[t[2]], o), sub(p[t[3]], o)) / 6
    env.close("the elements fill the domain", vol, area_of * (z[-1] - z[0]), 1e-6)
    sides = [(1, lims[1][0], ("W", "v", "O", "SYM")[0]), (0, lims[0][1], "v"), (1, lims[1][1], "O"), (0, lims[0][0], "SYM"), (2, z[0], None), (2, z[-1], None)]
    for e in range(r.nel):
        for b in range(nbc):
            for f in range(6):
                t, own, face, g, h = get_bc(r.elem[e], b, f)[:5]
                L = f"condition {b} of face {f + 1} of element {e + 1}: "
                if t != "":
                    env.eq(L + "own numbers", [own, face], [e + 1, f + 1])
                mine = [pts[e][v] for v in FACES[f]]
                outer = []
                for i, (ax, c, name) in enumerate(sides):
                    on = env.all([env.all([p[ax] - c <= 1e-9, c - p[ax] <= 1e-9]) for p in mine])
                    want = (bc1[b] if i == 4 else bc2[b] if i == 5 else "P" if ax in periodic and (some is None or b in some) else name)
                    outer.append((on, want, i))
                on_any = env.any([o for o, _, _ in outer])
                if t == "E":
                    env.check(L + "inside", env.not_(on_any))
                    if internal:
                        g, h = int(g) - 1, int(h) - 1
                        env.check(L + "the partner has the same corners", same_points(env, mine, [pts[g][v] for v in FACES[h]]))
                        back = get_bc(r.elem[g], b, h)
                        env.eq(L + "the partner points back", [back[0], back[3], back[4]], ["E", e + 1, f + 1])
                elif t == "":
                    env.check(L + "only internal faces are left empty", env.not_(on_any))
                    env.check(L + "only without internal conditions", not internal)
                else:
                    env.check(L + "type of the side it lies on", env.any([env.all([o, t == w]) for o, w, _ in outer]))
                    if t == "P":
                        g, h = int(g) - 1, int(h) - 1
                        back = get_bc(r.elem[g], b, h)
                        env.eq(L + "the periodic partner points back", [back[0], back[3], back[4]], ["P", e + 1, f + 1])
                        theirs = [pts[g][v] for v in FACES[h]]
                        ax = 2 if f >= 4 else periodic[0] if len(periodic) == 1 else (1, 0)[f % 2]
                        proj = lambda q: [0.0 if i == ax else x for i, x in enumerate(q)]
                        env.check(L + "the periodic partner is opposite", same_points(env, [proj(q) for q in mine], [proj(q) for q in theirs]))
    if not internal:
        env.check("no internal conditions", all(get_bc(el, b, f)[0] != "E" for el in r.elem for b in range(nbc) for f in range(6)))


ENDS = [(None, None), (["W"], ["O"])]


def refine(env, axis, sign, n=3, split=((1, 2),), nbc=1, nz=4, high=0, ends=ENDS[:1], internal=(True,), free_z=True, free_x=False, across=1, periodic=(), default_par=False, some=None, turns=(), at=None):
    d, xs, z = base(env, axis, n, nbc, free_z, free_x, nz, across, periodic)
    if some is not None:
        # only some of the condition fields are periodic
        for e, el in enumerate(d.elem):
            for b in range(nbc):
                for f in range(4):
                    if b not in some and get_bc(el, b, f)[0] == "P":
                        set_bc(el, b, f, ("W", "v", "O", "SYM")[f], e + 1, f + 1)
    for e, q in turns:
        turn(d, e, q)
    lines, funs = [], []
    for lo, hi in split:
        c = 0.5 * (xs[lo] + xs[hi])
        if at == "edge":  # vertices on the line belong to the refined side
            c = xs[lo] if sign > 0 else xs[hi]
        elif at == "any":
            c = env.real(f"line{lo}", xs[lo], xs[hi])
            env.assume(c < xs[hi] if sign > 0 else c > xs[lo])
        lines.append(c * sign)
    if default_par:
        c = lines[0]
        funs = [(lambda x, y, p: (x, y)[axis] * sign - c + p)]
        par = None
    else:
        funs = [(lambda x, y, p: (x, y)[axis] * sign - p) for _ in split]
        par = lines
    bc1, bc2 = env.pick("ends", ends)
    inner = env.pick("internal", internal)
    before = snapshot(env, d)
    kw = {} if bc1 is None else {"bc1": bc1 * nbc, "bc2": bc2 * nbc}
    if high:
        kw["imesh_high"] = high
    if not inner:
        kw["internal_bcs"] = False
    if par is not None:
        kw["funpar"] = par
    r = env.mod("meshtools").extrude_refine(d, z if not env.sym else env.np.array(z), fun=funs, **kw)
    same_snapshot(env, "the 2D mesh is unchanged", before, snapshot(env, d))
    bc1, bc2 = (["P"] * nbc, ["P"] * nbc) if bc1 is None else (bc1 * nbc, bc2 * nbc)
    wide = 0.5 * across
    lims = [(xs[0], xs[-1]), (0.0, wide)] if axis == 0 else [(0.0, wide), (xs[0], xs[-1])]
    # count: refined part, middle elements, coarse part
    side = [i for i in range(n) if all(i + 1 <= lo or i >= hi for lo, hi in split)]
    conforming(env, r, d, z, bc1, bc2, (xs[-1] - xs[0]) * wide, nbc, inner, lims, periodic, some)
    mids = [lo for lo, _ in split]
    total = 0
    order = range(n) if sign > 0 else range(n - 1, -1, -1)
    level = 0
    ms = mids if sign > 0 else mids
    for i in order:
        if i in mids:
            k = abs(level - high) if level >= high else abs(level + 1 - high)
            total += 6 * (nz // 2**k) // 4
            level += 1
        else:
            total += nz // 2 ** abs(level - high)
    env.eq("number of elements", r.nel, total * across)


def middle(el, g, nv):
    """the middle of an edge, from its ends and curvature (radii are plain numbers)"""
    p, q = vertex(el, EDGES[g][0]), vertex(el, EDGES[g][1])
    t = el.ccurv[g]
    if t == "m":
        return [el.curv[g, i] for i in range(nv)]
    if t == "C":
        xy = arc_mid([float(x) for x in p[:2]], [float(x) for x in q[:2]], float(el.curv[g, 0]))
        return (xy + [(p[2] + q[2]) / 2])[:nv]
    return [(p[i] + q[i]) / 2 for i in range(nv)]


def bend(env, d, e, g, how, k):
    """curve edge g of element e, and the same edge of its neighbour; returns its middle"""
    (x0, y0), (x1, y1) = vertex(d.elem[e], EDGES[g][0])[:2], vertex(d.elem[e], EDGES[g][1])[:2]
    sides = [(e, g, 1.0)]
    t, _, _, ie, jf = get_bc(d.elem[e], 0, g)[:5]
    if t == "E":
        sides.append((int(ie) - 1, int(jf) - 1, -1.0))
    if how == "":
        return [(x0 + x1) / 2, (y0 + y1) / 2], sides
    if how == "m":
        h = env.real(f"h{k}", -0.1, 0.1)
        mid = [(x0 + x1) / 2 + h * (y1 - y0), (y0 + y1) / 2 - h * (x1 - x0)]
    else:
        mid = None
    r = {"C": 1.5, "c": -1.25}.get(how)
    for ee, gg, sign in sides:
        el = d.elem[ee]
        el.ccurv[gg] = "m" if how == "m" else "C"
        if how == "m":
            el.curv[gg, 0], el.curv[gg, 1] = mid
        else:
            el.curv[gg, 0] = r * sign
    return mid or arc_mid((x0, y0), (x1, y1), r), sides


def curved(env, axis, sign, edges, across=2, free_z=True, periodic=(), high=0):
    """the middle column is split; its edges are curved in any of the given ways"""
    d, xs, z = base(env, axis, 3, 1, free_z, False, 4, across, periodic)
    mids = {}
    for k, (e, g, ways) in enumerate(edges):
        how = env.pick(f"how{k}", ways)
        mid, sides = bend(env, d, e, g, how, k)
        for ee, gg, _ in sides:
            mids[ee, gg] = (how, mid)
    d.update_ncurv()
    c = 0.5 * (xs[1] + xs[2]) * sign
    before = snapshot(env, d)
    kw = {"imesh_high": high} if high else {}
    r = env.mod("meshtools").extrude_refine(d, env.np.array(z), ["W"], ["O"], [lambda x, y, p: (x, y)[axis] * sign - p], [c], **kw)
    same_snapshot(env, "the 2D mesh is unchanged", before, snapshot(env, d))
    wide = 0.5 * across
    lims = [(xs[0], xs[-1]), (0.0, wide)] if axis == 0 else [(0.0, wide), (xs[0], xs[-1])]
    if all(get_bc(d.elem[e], 0, g)[0] == "E" for (e, g), (how, _) in mids.items() if how):
        conforming(env, r, d, z, ["W"], ["O"], (xs[-1] - xs[0]) * wide, 1, True, lims, periodic)
    else:
        bookkeeping(env, r, data=True)
    # edges of faces that touch have the same middle
    face_edges = [[g for g, (a, b) in enumerate(EDGES) if a in f and b in f] for f in FACES]
    middles = [[middle(el, g, 3) for g in range(12)] for el in r.elem]
    for e, el in enumerate(r.elem):
        for f in range(6):
            t, _, _, ie, jf = get_bc(el, 0, f)[:5]
            if t == "E":
                g, h = int(ie) - 1, int(jf) - 1
                env.check(f"the edges of face {f + 1} of element {e + 1} meet those of its partner",
                          same_points(env, [middles[e][q] for q in face_edges[f]], [middles[g][q] for q in face_edges[h]]))
    # the line that splits an element bulges as the mean of the two edges it lies between
    for row in range(across):
        e = 1 * across + row if axis == 1 else 3 * row + 1
        e2 = d.elem[e]
        ends = (1, 3) if axis == 0 else (0, 2)
        lats = (0, 2) if axis == 0 else (1, 3)
        m2 = {g: middle(e2, g, 2) for g in range(4)}
        u, v = m2[lats[0]], m2[lats[1]]
        off = [sum(m2[g][j] - 0.5 * (vertex(e2, EDGES[g][0])[j] + vertex(e2, EDGES[g][1])[j]) for g in ends) / 2 for j in range(2)]
        want = [0.5 * (u[j] + v[j]) + off[j] for j in range(2)]
        found = 0
        for i, el in enumerate(r.elem):
            for k, (a, b) in enumerate(EDGES[:8]):
                s, w = vertex(el, a), vertex(el, b)
                if (near(s, u, axis) and near(w, v, axis)) or (near(s, v, axis) and near(w, u, axis)):
                    found += 1
                    for j in range(2):
                        env.close(f"the line splitting 2D element {e + 1} in element {i + 1}, edge {k + 1}, coordinate {j}", middles[i][k][j], want[j], 1e-8)
        env.check(f"2D element {e + 1} is split", found > 0)
    # every curved edge of the 2D mesh is there, whole or in halves, at every height it spans
    for (e, g), (how, mid) in mids.items():
        p, q = vertex(d.elem[e], EDGES[g][0])[:2], vertex(d.elem[e], EDGES[g][1])[:2]
        split = p[axis] != q[axis]
        whole, halves, tops = 0, [], []
        for i, el in enumerate(r.elem):
            for k, (a, b) in enumerate(EDGES):
                u, v = vertex(el, a), vertex(el, b)
                for s, w, su in ((u, v, 1), (v, u, -1)):
                    # everything but the heights and the depth of an arc is a plain number here
                    if same(env, s[:2], p) and same(env, w[:2], q) and k < 8:
                        whole += 1
                        for j in range(2):
                            env.close(f"curved edge {g + 1} of 2D element {e + 1} in element {i + 1}, edge {k + 1}, coordinate {j}", middles[i][k][j], mid[j], 1e-9)
                        env.close(f"height of curved edge {k + 1} of element {i + 1}", middles[i][k][2], u[2], 1e-9)
        env.check(f"curved edge {g + 1} of 2D element {e + 1} is in the mesh", whole > 0)


def near(s, m, axis):
    """s is at m: the position along the other axis tells the ends of a splitting line apart, that along the axis is far from other lines"""
    return bool(abs(s[axis] - m[axis]) <= 0.15) and bool(abs(s[1 - axis] - m[1 - axis]) <= 0.15)


def same(env, a, b):
    return all(not hasattr(x, "t") and not hasattr(y, "t") and abs(float(x) - float(y)) < 1e-9 for x, y in zip(a, b))


def halves(env, axis, sign, how, e=1, across=1):
    """the two halves of a split edge lie on the curve it was"""
    d, xs, z = base(env, axis, 3, 1, False, False, 4, across)
    gs = (0, 2) if axis == 0 else (1, 3)
    info = {g: bend(env, d, e, g, w, g)[0] for g, w in zip(gs, how) if w}
    d.update_ncurv()
    c = 0.5 * (xs[1] + xs[2]) * sign
    r = env.mod("meshtools").extrude_refine(d, env.np.array(z), ["W"], ["O"], [lambda x, y, p: (x, y)[axis] * sign - p], [c])
    bookkeeping(env, r, data=True)
    for g, mid in info.items():
        w = how[gs.index(g)]
        p, q = vertex(d.elem[e], EDGES[g][0])[:2], vertex(d.elem[e], EDGES[g][1])[:2]
        found = 0
        for i, el in enumerate(r.elem):
            for k, (a, b) in enumerate(EDGES):
                u, v = vertex(el, a), vertex(el, b)
                for s, m in ((u, v), (v, u)):
                    for end, other in ((p, q), (q, p)):
                        # from an end of the edge to its middle
                        if same(env, s[:2], end) and mid_of(env, m, mid, end, other, axis):
                            found += 1
                            L = f"half of edge {g + 1} in element {i + 1}, edge {k + 1}"
                            for j in range(2):
                                env.close(L + f": ends in the middle ({j})", m[j], mid[j], 1e-9)
                            got = middle(el, k, 3)
                            if w == "m":
                                # the quarter point of the parabola through the ends and the middle
                                for j in range(2):
                                    want = 0.5 * (end[j] + mid[j]) + 0.25 * (mid[j] - 0.5 * (end[j] + other[j]))
                                    env.close(L + f": on the parabola ({j})", got[j], want, 1e-9)
                            else:
                                want = on_arc(p, q, mid, end)
                                for j in range(2):
                                    env.close(L + f": on the circle ({j})", got[j], want[j], 1e-6)
                            env.close(L + ": height", got[2], 0.5 * (s[2] + m[2]), 1e-9)
        env.check(f"halves of edge {g + 1} are in the mesh", found >= 4)


def mid_of(env, m, mid, end, other, axis):
    """m is the middle of the split edge (its position along the edge is a plain number up to the bend)"""
    x = m[axis]
    want = 0.5 * (end[axis] + other[axis])
    if hasattr(x, "t"):
        return bool(abs(x - want) <= 1e-9) and bool(abs(m[1 - axis] - mid[1 - axis]) <= 0.3)
    return abs(float(x) - want) < 1e-9 and bool(abs(m[1 - axis] - end[1 - axis]) <= 0.3)


def on_arc(p, q, mid, end):
    """middle of the part of the arc p-mid-q between mid and end (numbers)"""
    import math

    ax, ay, bx, by, cx, cy = p[0], p[1], mid[0], mid[1], q[0], q[1]
    D = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by))
    ux = ((ax * ax + ay * ay) * (by - cy) + (bx * bx + by * by) * (cy - ay) + (cx * cx + cy * cy) * (ay - by)) / D
    uy = ((ax * ax + ay * ay) * (cx - bx) + (bx * bx + by * by) * (ax - cx) + (cx * cx + cy * cy) * (bx - ax)) / D
    r = math.hypot(ax - ux, ay - uy)
    hx, hy = (mid[0] + end[0]) / 2 - ux, (mid[1] + end[1]) / 2 - uy
    n = math.hypot(hx, hy)
    return [ux + r * hx / n, uy + r * hy / n]


def plain(env, nbc):
    """without splitting functions it is a plain extrusion"""
    d, xs, z = base(env, 0, 2, nbc, True, True, 2)
    m = env.mod("meshtools")
    a = m.extrude_refine(d, z)
    b = m.extrude(d, z)
    same_snapshot(env, "same as extrude", snapshot(env, b), snapshot(env, a))
    a = m.extrude_refine(d, z, ["W"] * nbc, ["O"] * nbc, internal_bcs=False)
    b = m.extrude(d, z, ["W"] * nbc, ["O"] * nbc, internal_bcs=False)
    same_snapshot(env, "same as extrude", snapshot(env, b), snapshot(env, a))


def refuse(env, what):
    m = env.mod("meshtools")
    d, xs, z = base(env, 0, 3, 1, False, False, 4)
    f = [lambda x, y, p: x - p]
    kw = dict(fun=f, funpar=[1.5])
    if what == "layers":
        nz = env.pick("nz", [1, 2, 3, 5, 6, 7])
        z = [float(k) for k in range(nz + 1)]
    elif what == "ends":
        kw["bc1"], kw["bc2"] = env.pick("ends", [(["P"], ["W"]), (["W"], ["P"])])
    elif what == "parameters":
        kw["funpar"] = env.pick("par", [[], [1.5, 2.5]])
    elif what == "3d":
        d = m.extrude(d, [0.0, 1.0])
    env.check("refused", env.raises(ValueError, lambda: m.extrude_refine(d, env.np.array(z), **kw)) is not None)


SCENARIOS = {}
for _a in (0, 1):
    for _s in (1.0, -1.0):
        SCENARIOS[f"axis{_a}_{'up' if _s > 0 else 'down'}"] = (refine, dict(axis=_a, sign=_s), {"cost": 3})
SCENARIOS.update({
    "periodic": (refine, dict(axis=0, sign=1.0, across=1, periodic=(1,), nbc=2), {"cost": 3}),
    "high1": (refine, dict(axis=0, sign=1.0, high=1), {"cost": 3}),
    "two": (refine, dict(axis=0, sign=1.0, n=5, split=((1, 2), (3, 4)), nz=8), {"tier": "thorough", "cost": 8}),
    "two_high1": (refine, dict(axis=1, sign=1.0, n=5, split=((1, 2), (3, 4)), nz=8, high=1), {"tier": "thorough", "cost": 8}),
    "two_high2": (refine, dict(axis=0, sign=-1.0, n=5, split=((3, 4), (1, 2)), nz=8, high=2), {"tier": "thorough", "cost": 8}),
    "widths": (refine, dict(axis=0, sign=1.0, free_z=False, free_x=True), {"cost": 3}),
    "ends": (refine, dict(axis=0, sign=1.0, ends=ENDS, internal=(True, False)), {"cost": 3}),
    "across": (refine, dict(axis=0, sign=1.0, across=2, free_z=False, internal=(True, False)), {"cost": 3}),
    "across_widths": (refine, dict(axis=0, sign=1.0, across=2, free_z=False, free_x=True), {"tier": "thorough", "cost": 8, "path_s": 150}),
    "parameter": (refine, dict(axis=0, sign=1.0, default_par=True), {"cost": 3}),
    "plain": (plain, dict(nbc=1)),
    "refuse_layers": (refuse, dict(what="layers")),
    "refuse_ends": (refuse, dict(what="ends")),
    "refuse_parameters": (refuse, dict(what="parameters")),
    "refuse_3d": (refuse, dict(what="3d")),
})
WAYS = ("", "m", "C", "c")
for _a, _hi, _lo, _lat in ((0, 1, 3, 2), (1, 2, 0, 1)):
    # columns 0-2 along the axis, two rows: element 1 (or 2) is in the middle of the first row
    _e = 1 if _a == 0 else 2
    for _s in (1.0, -1.0):
        _n = f"axis{_a}_{'up' if _s > 0 else 'down'}"
        _up = {"cost": 3} if (_s > 0) == (_a == 0) else {"cost": 3, "tier": "thorough"}
        _dn = {"cost": 3, "tier": "thorough"} if (_s > 0) == (_a == 0) else {"cost": 3}
        SCENARIOS[f"curved_{_n}"] = (curved, dict(axis=_a, sign=_s, edges=[(_e, _hi, WAYS), (_e, _lo, WAYS)], free_z=False), _up)
        SCENARIOS[f"curved_side_{_n}"] = (curved, dict(axis=_a, sign=_s, edges=[(_e, _lat, WAYS[1:]), (_e, _hi, ("", "m"))], free_z=False), _dn)
        for _w in (("m", ""), ("", "m"), ("m", "m"), ("C", ""), ("c", "C"), ("", "c")):
            SCENARIOS[f"halves_{_n}_{''.join(w or '0' for w in _w)}"] = (halves, dict(axis=_a, sign=_s, how=_w), {"cost": 2})
SCENARIOS["curved_heights"] = (curved, dict(axis=0, sign=1.0, edges=[(1, 1, ("m",)), (1, 2, ("m",)), (1, 3, ("m",))]), {"cost": 3, "tier": "thorough"})
for _s in (1.0, -1.0):
    _n = "up" if _s > 0 else "down"
    SCENARIOS[f"curved_high1_{_n}"] = (curved, dict(axis=0, sign=_s, edges=[(1, 1, ("m", "C")), (1, 3, ("", "m"))], free_z=False, high=1, across=1), {"cost": 3})
    SCENARIOS[f"curved_high1_side_{_n}"] = (curved, dict(axis=0, sign=_s, edges=[(1, 1, ("m", "C")), (1, 2, ("m", "c")), (1, 3, ("", "m"))], free_z=False, high=1), {"cost": 3, "tier": "thorough"})
# more splits and layers, of fixed heights (of any position in the thorough tier)
for _z, _t in ((False, {"cost": 3}), ("first", {"tier": "thorough", "cost": 8, "path_s": 400, "budget": 900})):
    _k = "" if not _z else "_anywhere"
    SCENARIOS["two_low" + _k] = (refine, dict(axis=0, sign=1.0, n=5, split=((1, 2), (3, 4)), nz=8, free_z=_z), _t)
    SCENARIOS["two_middle" + _k] = (refine, dict(axis=1, sign=-1.0, n=5, split=((3, 4), (1, 2)), nz=8, high=1, free_z=_z, ends=ENDS), _t)
    SCENARIOS["two_upper" + _k] = (refine, dict(axis=0, sign=-1.0, n=5, split=((3, 4), (1, 2)), nz=8, high=2, free_z=_z, nbc=2), _t)
    SCENARIOS["three" + _k] = (refine, dict(axis=0, sign=1.0, n=7, split=((1, 2), (3, 4), (5, 6)), nz=16, free_z=_z), _t)
    SCENARIOS["more_layers" + _k] = (refine, dict(axis=1, sign=1.0, nz=12, free_z=_z), _t)
SCENARIOS["periodic_second"] = (refine, dict(axis=0, sign=1.0, across=1, periodic=(1,), nbc=2, some=(1,), free_z=False, ends=ENDS), {"cost": 3})
SCENARIOS["periodic_first"] = (refine, dict(axis=1, sign=-1.0, across=2, periodic=(0,), nbc=2, some=(0,), free_z=False, ends=ENDS[1:]), {"cost": 3})
# the line may be anywhere in the elements it splits, and elements may have their own axes
SCENARIOS["line_edge_up"] = (refine, dict(axis=0, sign=1.0, free_z=False, at="edge"), {"cost": 2})
SCENARIOS["line_edge_down"] = (refine, dict(axis=1, sign=-1.0, free_z=False, at="edge"), {"cost": 2})
SCENARIOS["line_anywhere"] = (refine, dict(axis=0, sign=1.0, free_z=False, at="any"), {"cost": 2})
SCENARIOS["line_anywhere_down"] = (refine, dict(axis=1, sign=-1.0, free_z=False, at="any", high=1), {"cost": 2})
SCENARIOS["turned"] = (refine, dict(axis=0, sign=1.0, free_z=False, across=2, turns=[(0, 1), (1, 2), (4, 3), (5, 1)]), {"cost": 3})
SCENARIOS["turned_other"] = (refine, dict(axis=1, sign=-1.0, free_z=False, across=2, turns=[(1, 3), (2, 1), (3, 2)], internal=(True, False)), {"cost": 3})
SCENARIOS["turned_periodic"] = (refine, dict(axis=0, sign=1.0, free_z=False, across=2, periodic=(1,), turns=[(1, 3), (4, 2), (3, 1)], ends=ENDS), {"cost": 3})
SCENARIOS["more_layers_across"] = (refine, dict(axis=0, sign=1.0, nz=12, free_z=False, across=2, internal=(True, False)), {"cost": 4})
SCENARIOS["more_layers_across_down"] = (refine, dict(axis=1, sign=-1.0, nz=8, free_z=False, across=3, internal=(True, False)), {"cost": 4})
