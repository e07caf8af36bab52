"""meshes of bricks built by the harness itself (both worlds)"""

from itertools import product

from .common import CORNERS, FACES, fill, hexa, mesh, set_bc, set_vertex, vertex


def number(i, j, k, nx, ny):
    return i + nx * (j + ny * k)


def neighbours(nx, ny, nz, ndim, periodic=()):
    """(element, face) -> (type, element, face) of every inner or periodic face"""
    out = {}
    n = (nx, ny, nz)
    dirs = [(1, 3, 0), (2, 0, 1), (5, 4, 2)][:ndim]  # (upper face, lower face, axis)
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                e = number(i, j, k, nx, ny)
                for up, lo, ax in dirs:
                    p = [i, j, k]
                    t = "E"
                    p[ax] += 1
                    if p[ax] == n[ax]:
                        if ax not in periodic:
                            continue
                        p[ax], t = 0, "P"
                    g = number(*p, nx, ny)
                    out[e, up] = (t, g, lo)
                    out[g, lo] = (t, e, up)
    return out


def grid(env, nx, ny, nz=1, ndim=2, nbc=1, xs=None, ys=None, zs=None, periodic=(), outer="W", inner=True, turns=(), order=None, var=None, tag=""):
    """a structured mesh of bricks between the given (possibly symbolic) coordinates;
    with the order given a field: points inside the elements and data of any values"""
    if order is None:
        d = mesh(env, ndim, nx * ny * nz, nbc)
    else:
        d = hexa(env, ndim, nx * ny * nz, list(order), list(var or [ndim, ndim, 1, 1, 2]), nbc)
        fill(env, d, tag=tag)
        for e, el in enumerate(d.elem):
            el.pos[0:ndim, ...] = env.arr(env.reals(f"inside{tag}{e}", (ndim,) + tuple(order[::-1]), -50.0, 50.0))
    xs = xs if xs is not None else [float(i) for i in range(nx + 1)]
    ys = ys if ys is not None else [float(i) for i in range(ny + 1)]
    zs = zs if zs is not None else [float(i) for i in range(nz + 1)]
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                el = d.elem[number(i, j, k, nx, ny)]
                hi = [xs[i + 1], ys[j + 1], zs[k + 1] if ndim == 3 else 0.0]
                for v in range(2**ndim):
                    z, y, x = CORNERS[v]
                    set_vertex(el, v, [xs[i + x], ys[j + y], zs[k + z] if ndim == 3 else 0.0])
    links = neighbours(nx, ny, nz, ndim, periodic)
    for e, el in enumerate(d.elem):
        for b in range(nbc):
            for f in range(2 * ndim):
                if (e, f) in links:
                    t, g, h = links[e, f]
                    if inner or t == "P":
                        set_bc(el, b, f, t, e + 1, f + 1, g + 1, h + 1)
                else:
                    set_bc(el, b, f, outer, e + 1, f + 1)
    for e, q in turns:
        turn(d, e, q)
    return d


def rotations(ndim):
    """vertex orders of an element turned in space: new vertex v is the old vertex p[v]"""
    if ndim == 2:
        return [[(v + q) % 4 for v in range(4)] for q in range(4)]
    about_z = [1, 2, 3, 0, 5, 6, 7, 4]
    about_x = [3, 2, 6, 7, 0, 1, 5, 4]
    out = [list(range(8))]
    for p in out:
        for g in (about_z, about_x):
            r = [p[g[v]] for v in range(8)]
            if r not in out:
                out.append(r)
    return out


def turn(d, e, q):
    """number the vertices and faces of an element as if it were turned; its place and its connections stay"""
    el, ndim = d.elem[e], d.ndim
    p = rotations(ndim)[q]
    n = len(p)
    old = [vertex(el, v) for v in range(n)]
    for v in range(n):
        set_vertex(el, v, old[p[v]])
    faces = [{v for v in f if v < n} for f in FACES[: 2 * ndim]]
    new = {g: f for f, g in product(range(2 * ndim), repeat=2) if {p[v] for v in faces[f]} == faces[g]}
    for b in range(d.nbc):
        rows = [[el.bcs[b, g][i] for i in range(8)] for g in range(2 * ndim)]
        for x in d.elem:
            for r in rows if x is el else [x.bcs[b, g] for g in range(2 * ndim)]:
                if r[0] in ("E", "P") and r[3] == e + 1:
                    r[4] = new[int(r[4]) - 1] + 1
        for g, r in enumerate(rows):
            set_bc(el, b, new[g], *r)
            el.bcs[b, new[g]][2] = new[g] + 1


def link(d, b, e, f, t, g, h):
    set_bc(d.elem[e], b, f, t, e + 1, f + 1, g + 1, h + 1)
