"""C10: readma2 gives the processor and the vertices of every element."""


def ma2_cells(env, nel, nvert, big, rows, numbers, tag=None):
    nactive, depth, d2, nrank, nout = numbers
    h = f"#v001{nel:12d}{nactive:12d}{depth:12d}{d2:12d}{nel * nvert:12d}{nrank:12d}{nout:12d}"
    c = env.text_cells(h)
    c += env.text_cells(" " * (132 - len(c)))
    c += env.cells(env.f32(6.54321), "f", big) if tag is None else tag
    for r in rows:
        c += env.scalars_cells(r, "i", big)
    return c


def read(env, ndim, nel, large=()):
    m = env.mod("neksuite.map")
    nvert = 2**ndim
    big = env.pick("endian", ("little", "big")) == "big"
    rows = None if large else [[env.int(f"v{ie}_{k}", -(2**31), 2**31 - 1) for k in range(nvert + 1)] for ie in range(nel)]
    if large:
        # numbers that single precision cannot hold
        rows = [[large[(ie + 3 * k) % len(large)] for k in range(nvert + 1)] for ie in range(nel)]
    numbers = [env.int("nactive", 0, 999999999), env.int("depth", 0, 99), env.int("d2", 0, 999999999), env.int("nrank", 0, 999999999), env.int("nout", 0, 999999999)]
    path = env.path("in.ma2")
    env.write(path, ma2_cells(env, nel, nvert, big, rows, numbers))
    cell, proc = m.readma2(path)
    env.eq("shape of the vertices", tuple(cell.shape), (nel, nvert))
    env.eq("shape of the processors", tuple(proc.shape), (nel,))
    for ie in range(nel):
        env.eq(f"processor of element {ie + 1}", proc[ie], rows[ie][0])
        for k in range(nvert):
            env.eq(f"vertex {k + 1} of element {ie + 1}", cell[ie, k], rows[ie][k + 1])


def bad_tag(env):
    m = env.mod("neksuite.map")
    t = env.pick("tag", [0.0, 6.5, -6.54321, 65.4321, 6.6, 6.55, 6.538, 1e-30])
    big = env.pick("endian", ("little", "big")) == "big"
    path = env.path("bad.ma2")
    env.write(path, ma2_cells(env, 1, 4, big, [[0, 1, 2, 3, 4]], [1, 0, 1, 4, 0], tag=env.cells(env.f32(t), "f", big)))
    env.check("a wrong endianness tag is refused", env.raises(ValueError, lambda: m.readma2(path)) is not None)


SCENARIOS = {f"{d}d_{n}": (read, dict(ndim=d, nel=n)) for d in (2, 3) for n in (1, 2, 3, 5)}
SCENARIOS["3d_20"] = (read, dict(ndim=3, nel=20))
SCENARIOS["2d_100"] = (read, dict(ndim=2, nel=100))
SCENARIOS["bad_tag"] = (bad_tag, {})
SCENARIOS["3d_7"] = (read, dict(ndim=3, nel=7))
SCENARIOS["2d_12"] = (read, dict(ndim=2, nel=12))
SCENARIOS["3d_1500"] = (read, dict(ndim=3, nel=1500), {"cost": 4})
SCENARIOS["large_numbers"] = (read, dict(ndim=3, nel=4, large=(16777217, -16777217, 2147483647, 123456789, 0)))
SCENARIOS["2d_300"] = (read, dict(ndim=2, nel=300), {"cost": 3})
