"""C12: readplane returns the coordinates and values a plane file holds."""


def plane_cells(env, big, nn, coords, values):
    I = lambda v: env.cells(v, "i", big)
    ndim = len(nn)
    nt = 1
    for n in nn:
        nt *= n
    c = I(4 * ndim)
    for n in nn:
        c += I(n)
    c += I(4 * ndim)
    for x in coords:
        c += I(8 * len(x)) + env.scalars_cells(x, "d", big) + I(8 * len(x))
    c += I(8 * nt) + env.scalars_cells(values, "d", big) + I(8 * nt)
    return c


def read(env, sizes):
    s = env.mod("simsonsuite")
    nn = env.pick("sizes", sizes)
    big = env.pick("endian", ("little", "big")) == "big"
    nt = 1
    for n in nn:
        nt *= n
    ndim = len(nn)
    coords = [[env.bit(f"x{i}_{k}") for k in range(nt)] for i in range(ndim)]
    values = [env.bit(f"d{k}") for k in range(nt)]
    path = env.path("in.plane")
    env.write(path, plane_cells(env, big, nn, coords, values))
    x, d, n, nd = s.readplane(path)
    env.eq("ndim", nd, ndim)
    env.eq("sizes", list(n), list(nn))
    env.eq("shape of the values", tuple(d.shape), tuple(nn))
    strides = [1]
    for k in nn[:-1]:
        strides.append(strides[-1] * k)

    def walk(pre):
        if len(pre) == ndim:
            k = sum(i * st for i, st in zip(pre, strides))
            env.eq(f"value at {pre}", d[tuple(pre)], values[k])
            if ndim == 1:
                env.eq(f"coordinate at {pre}", x[pre[0]], coords[0][k])
            else:
                for i in range(ndim):
                    env.eq(f"coordinate {i} at {pre}", x[(i, *pre)], coords[i][k])
            return
        for i in range(nn[len(pre)]):
            walk([*pre, i])

    walk([])


def unreadable(env):
    s = env.mod("simsonsuite")
    env.eq("missing file", s.readplane(env.path("missing")), -1)
    big = env.pick("endian", ("little", "big")) == "big"
    nd = env.pick("dimensions", (4, 5))
    path = env.path("bad.plane")
    env.write(path, plane_cells(env, big, [1] * nd, [[0.0]] * nd, [0.0]))
    env.eq("more than three dimensions", s.readplane(path), -3)


SCENARIOS = {
    "1d": (read, dict(sizes=[(1,), (2,), (5,)])),
    "2d": (read, dict(sizes=[(1, 1), (2, 3), (3, 2), (4, 1)])),
    "3d": (read, dict(sizes=[(2, 2, 3), (1, 3, 2), (3, 1, 2)])),
    "large": (read, dict(sizes=[(7, 5), (4, 3, 5), (30,)])),
    "unreadable": (unreadable, {}),
}
