"""C05: the field file header and its variable string."""

from .c02 import header_text, variables_text


def all_vars(nd, scal):
    return [(x, u, p, t, s) for s in scal for x in (nd, 0) for u in (nd, 0) for p in (1, 0) for t in (1, 0) if x or u or p or t or s]


def codec(env, ndim, wdsz, scal):
    """any header -> 132 bytes -> the same header"""
    F = env.mod("neksuite.field")
    var = env.pick("var", all_vars(ndim, scal))
    lx = env.int("lx", 2, 99)
    ly = env.int("ly", 2, 99)
    lz = env.int("lz", 2, 99) if ndim == 3 else 1
    nb = env.int("nb", 1, 9999999999)
    nbf = env.int("nbf", 1, 9999999999)
    istep = env.int("istep", 0, 999999999)
    fid = env.int("fid", 0, 999999)
    nf = env.int("nf", 1, 999999)
    time = env.real("time", -1e15, 1e15)
    h = F.Header(wdsz, (lx, ly, lz), nb, nbf, time, istep, fid, nf, nb_vars=var)
    env.eq("variables string", h.variables, variables_text(var))
    env.eq("dimensions", h.nb_dims, ndim)
    env.eq("points per element", h.nb_pts_elem, lx * ly * lz)
    env.eq("real type", h.realtype, "f" if wdsz == 4 else "d")
    path = env.path("h0.f00001")
    if env.sym:
        cells = env.files.as_cells(h.as_bytestring())
    else:
        cells = list(h.as_bytestring())
    env.eq("header length", len(cells), 132)
    want = env.text_cells(header_text(wdsz, (lx, ly, lz), nb, nbf, time, istep, fid, nf, variables_text(var)))
    want += env.text_cells(" " * (132 - len(want)))
    env.check("header text", env.same_cells(cells, want))
    env.write(path, want)
    g = F.read_header(path)
    for k, a, b in (("wdsz", g.wdsz, wdsz), ("orders", tuple(g.orders), (lx, ly, lz)), ("nb_elems", g.nb_elems, nb),
                    ("nb_elems_file", g.nb_elems_file, nbf), ("istep", g.istep, istep), ("fid", g.fid, fid), ("nb_files", g.nb_files, nf),
                    ("variables", g.variables, variables_text(var)), ("nb_vars", tuple(g.nb_vars), var), ("nb_dims", g.nb_dims, ndim),
                    ("nb_pts_elem", g.nb_pts_elem, lx * ly * lz)):
        env.eq("decoded " + k, a, b)
    env.check("decoded time", abs(g.time - time) <= abs(time) * 1e-13 + 1e-300)


def scalar_count(env, ndim):
    """any number of scalars"""
    F = env.mod("neksuite.field")
    s = env.int("s", 1, 99)
    lz = 2 if ndim == 3 else 1
    h = F.Header(8, (2, 2, lz), 1, 1, 0.0, 0, 0, 1, nb_vars=(0, 0, 0, 0, s))
    cells = env.text_cells(f"#std 8  2  2 {lz:2d}          1          1  0.0000000000000E+00         0      0      1 S{s:02d}")
    cells += env.text_cells(" " * (132 - len(cells)))
    path = env.path("s0.f00001")
    env.write(path, cells)
    g = F.read_header(path)
    env.eq("scalars decoded", tuple(g.nb_vars), (0, 0, 0, 0, s))
    env.eq("scalars kept", tuple(h.nb_vars), (0, 0, 0, 0, s))


def rejects(env):
    F = env.mod("neksuite.field")
    env.check("no variables at all is an error",
              env.raises(ValueError, lambda: F.Header(8, (2, 2, 1), 1, 1, 0.0, 0, 0, 1)) is not None)
    w = env.int("wdsz", 0, 9)
    env.assume(env.not_(env.any([w == 4, w == 8])))
    env.check("unknown word sizes are errors",
              env.raises(ValueError, lambda: F.Header(w, (2, 2, 1), 1, 1, 0.0, 0, 0, 1, nb_vars=(2, 0, 0, 0, 0))) is not None)
    full = "#std 8  2  2  1          1          1  0.0000000000000E+00         0      0      1 X"
    n = env.int("words", 0, 11)
    k = env.conc_int(n)
    path = env.path("short0.f00001")
    env.write(path, env.text_cells(" ".join(full.split()[:k]).ljust(132)))
    env.check("a header with missing fields is refused", env.raises(OSError, lambda: F.read_header(path)) is not None)


SCENARIOS = {
    "3d_8": (codec, dict(ndim=3, wdsz=8, scal=(0, 1)), {"cost": 3}),
    "3d_4": (codec, dict(ndim=3, wdsz=4, scal=(0, 12)), {"cost": 3}),
    "2d_8": (codec, dict(ndim=2, wdsz=8, scal=(0, 3)), {"cost": 3}),
    "2d_4": (codec, dict(ndim=2, wdsz=4, scal=(0, 99)), {"cost": 3}),
    "scalars_3d": (scalar_count, dict(ndim=3)),
    "scalars_2d": (scalar_count, dict(ndim=2)),
    "rejects": (rejects, {}),
}
