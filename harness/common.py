"""helpers shared by the harnesses (both worlds)"""

from itertools import permutations, product

import numpy as np

FIELDS = ("pos", "vel", "pres", "temp", "scal")
CORNERS = [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0), (1, 0, 0), (1, 0, 1), (1, 1, 1), (1, 1, 0)]  # (z, y, x) of Nek's vertices 1-8
# end points of the 12 edges, as 0-based vertex numbers
EDGES = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
# vertices of the 6 faces
FACES = [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (0, 1, 2, 3), (4, 5, 6, 7)]


def hexa(env, ndim, nel, lr1, var, nbc=0, dtype="float64"):
    return env.mod("core").HexaData(ndim, nel, lr1, var, nbc, dtype)


def mesh(env, ndim, nel, nbc=1, dtype="float64"):
    """an empty geometry-only mesh (vertices only)"""
    return hexa(env, ndim, nel, [2, 2, ndim - 1], [ndim, 0, 0, 0, 0], nbc, dtype)


def fill(env, d, w=64, tag="", **k):
    """give every stored value of every written field its own arbitrary bit pattern"""
    dt = "float64" if w == 64 else "float32"
    orig = []
    for ie, el in enumerate(d.elem):
        rec = {}
        for f, n in zip(FIELDS, d.var):
            a = getattr(el, f)
            n = min(n, a.shape[0]) if f in ("pos", "vel") else a.shape[0]
            if n == 0:
                continue
            b = env.bits(f"{f}{tag}{ie}", (n,) + a.shape[1:], w, **k)
            a[0:n, ...] = env.arr(b, dt)
            rec[f] = b
        orig.append(rec)
    return orig


def perms(n):
    return [list(p) for p in permutations(range(1, n + 1))]


def set_elmap(env, d, order):
    d.elmap = env.np.array(order, dtype=env.np.int32)


def set_bc(el, ibc, iface, *v):
    """assign the first fields of a boundary condition: type, element, face, parameters"""
    bc = el.bcs[ibc, iface]
    for i, x in enumerate(v):
        bc[i] = x


def get_bc(el, ibc, iface):
    bc = el.bcs[ibc, iface]
    return [bc[i] for i in range(8)]


def vertex(el, v):
    """coordinates of 0-based vertex v of an element"""
    z, y, x = (-c for c in CORNERS[v])  # also of elements of higher order
    return [el.pos[0, z, y, x], el.pos[1, z, y, x], el.pos[2, z, y, x]]


def set_vertex(el, v, xyz):
    z, y, x = (-c for c in CORNERS[v])
    for i, c in enumerate(xyz):
        el.pos[i, z, y, x] = c


def box_vertices(el, lo, hi, ndim):
    """make an element an axis-aligned brick"""
    for v in range(2**ndim):
        z, y, x = CORNERS[v]
        sel = (x, y, z)
        set_vertex(el, v, [hi[i] if sel[i] else lo[i] for i in range(ndim)])


def face_vertices(iface, ndim):
    return [v for v in FACES[iface] if v < 2**ndim]


def face_centre(el, iface, ndim):
    """centre of a face, computed from the vertex numbering of Nek5000"""
    vs = face_vertices(iface, ndim)
    pts = [vertex(el, v) for v in vs]
    return [sum(p[i] for p in pts) / len(vs) for i in range(3)]


def edge_ends(el, iedge):
    a, b = EDGES[iedge]
    return vertex(el, a), vertex(el, b)


def dist2(a, b):
    return sum((x - y) * (x - y) for x, y in zip(a, b))


def snapshot(env, d):
    """everything an observer can see of a mesh, as plain nested lists"""
    out = {"meta": [d.ndim, d.nel, d.ncurv, d.nbc, list(d.var), list(d.lr1), d.time, d.istep, d.wdsz, d.endian],
           "elmap": list(d.elmap)}
    els = []
    for el in d.elem:
        e = {f: arr_list(getattr(el, f)) for f in FIELDS}
        e["curv"] = arr_list(el.curv)
        e["ccurv"] = list(el.ccurv)
        e["bcs"] = [[list(get_bc(el, i, j)) for j in range(6)] for i in range(el.bcs.shape[0])]
        els.append(e)
    out["elem"] = els
    return out


def arr_list(a):
    if hasattr(a, "ravel_raw"):
        return a.ravel_raw()
    return list(a.reshape(-1))


def same_snapshot(env, label, a, b):
    env.check(label + ": metadata", env.all([env.equal(x, y) for x, y in zip(a["meta"], b["meta"])]))
    env.eq(label + ": element map", a["elmap"], b["elmap"])
    env.check(label + ": number of elements", len(a["elem"]) == len(b["elem"]))
    for i, (x, y) in enumerate(zip(a["elem"], b["elem"])):
        for k in x:
            env.eq(f"{label}: {k} of element {i}", x[k], y[k])


def bookkeeping(env, d, label="", own_index=True, data=False):
    """what every mesh handed to the user must satisfy"""
    L = label + ": " if label else ""
    env.eq(L + "nel is the number of elements", d.nel, len(d.elem))
    em = sorted(int(x) for x in d.elmap)
    env.check(L + "the element map is a permutation of 1..nel", em == list(range(1, len(d.elem) + 1)))
    n = 0
    for el in d.elem:
        env.eq(L + "number of boundary condition fields", el.bcs.shape, (d.nbc, 6))
        for e in range(12):
            if el.ccurv[e] != "":
                n += 1
    env.eq(L + "ncurv is the number of curved edges", d.ncurv, n)
    pts = tuple(int(x) for x in list(d.lr1)[::-1])
    for el in d.elem if data else ():
        env.eq(L + "room for the variables of the mesh", [tuple(getattr(el, f).shape) for f in FIELDS], [(k,) + pts for k in (3, 3, d.var[2], d.var[3], d.var[4])])
    if own_index:
        for ie, el in enumerate(d.elem):
            for ibc, f in product(range(d.nbc), range(2 * d.ndim)):
                bc = el.bcs[ibc, f]
                if bc[0] in ("E", "P"):
                    env.check(L + f"face {f + 1} of element {ie + 1} names a partner in the mesh",
                              env.all([bc[3] >= 1, bc[3] <= d.nel, bc[4] >= 1, bc[4] <= 2 * d.ndim]))


def leftover(env, path, n):
    """an older, longer file of the same name"""
    env.write(path, [i * 37 % 251 for i in range(n)])
