"""C34: a binary file cut short is refused, wherever the cut is."""

import struct

from . import c03, c07, c10, c11, c12


def refused(env, label, path, size, reader, ok=()):
    n = env.int("cut", 0, size - 1)
    env.assume(env.all([n != k for k in ok]))
    env.limit(path, n)
    env.check(label, env.raises((ValueError, struct.error, IndexError, TypeError, OSError), lambda: reader(path)) is not None)


def nek(env, ndim, lr1, nb, order, wdsz, var, endians=("little", "big")):
    field = env.mod("neksuite.field")
    big = env.pick("endian", endians) == "big"
    cells, _ = c03.build(env, ndim, lr1, nb, order, wdsz, big, var, 1.5, 7)
    path = env.path("cut0.f00001")
    env.write(path, cells)
    refused(env, "a field file cut before the end of its data is refused", path, len(cells), field.readnek)


def re2(env, ndim, nel, nbc, nrec, ncurv, endians=("little", "big")):
    m = env.mod("neksuite.mesh")
    big = env.pick("endian", endians) == "big"
    pos = c07.inputs(env, ndim, nel, nbc)
    curv = [(i % nel, 3 - i, [env.bit(f"cp{i}_{j}") for j in range(5)], "m") for i in range(ncurv)]
    fields = [[(i % nel, i, [env.bit(f"bp{b}_{i}_{j}") for j in range(5)], "W") for i in range(nrec)] for b in range(nbc)]
    cells = c07.re2_cells(env, ndim, nel, big, pos, curv, fields)
    path = env.path("cut.re2")
    env.write(path, cells)
    # the number of fields is not stored: a cut between two fields leaves a shorter, valid file
    start = 84 + 8 * nel * (1 + ndim * 2**ndim) + 8 + 64 * ncurv
    ok = [start + b * (8 + 64 * nrec) for b in range(nbc)]
    refused(env, "an .re2 file cut inside a section is refused", path, len(cells), m.readre2, ok)


def ma2(env, ndim, nel, endians=("little", "big")):
    m = env.mod("neksuite.map")
    big = env.pick("endian", endians) == "big"
    rows = [[env.int(f"v{ie}_{k}", 0, 99999) for k in range(2**ndim + 1)] for ie in range(nel)]
    cells = c10.ma2_cells(env, nel, 2**ndim, big, rows, [1, 2, 3, 4, 5])
    path = env.path("cut.ma2")
    env.write(path, cells)
    refused(env, "a map file cut short is refused", path, len(cells), m.readma2)


def dns(env, lr1, nscal, fltype, endians=("little", "big")):
    s = env.mod("simsonsuite")
    big = env.pick("endian", endians) == "big"
    h = c11.header_inputs(env, nscal)
    data = [[[[1.0] * lr1[0] for _ in range(lr1[1])] for _ in range(lr1[2])] for _ in range(3 + nscal)]
    cells = c11.dns_cells(env, big, lr1, nscal, fltype, h, data)
    path = env.path("cut.u")
    env.write(path, cells)
    # the last 8 bytes are an end-of-record mark
    refused(env, "a SIMSON file cut before the end of its data is refused", path, len(cells) - 8, s.readdns)


def plane(env, nn, endians=("little", "big")):
    s = env.mod("simsonsuite")
    big = env.pick("endian", endians) == "big"
    nt = 1
    for n in nn:
        nt *= n
    cells = c12.plane_cells(env, big, nn, [[1.0] * nt for _ in nn], [env.bit(f"d{i}") for i in range(nt)])
    path = env.path("cut.plane")
    env.write(path, cells)
    refused(env, "a plane file cut before the end of its data is refused", path, len(cells) - 4, s.readplane)


SCENARIOS = {
    "nek_3d": (nek, dict(ndim=3, lr1=(2, 2, 2), nb=2, order=[2, 1], wdsz=8, var=(3, 3, 1, 1, 2), endians=("big",))),
    "nek_2d": (nek, dict(ndim=2, lr1=(2, 2, 1), nb=2, order=[1, 2], wdsz=4, var=(2, 2, 1, 0, 0), endians=("little",))),
    "nek_scalar": (nek, dict(ndim=2, lr1=(3, 2, 1), nb=1, order=[1], wdsz=8, var=(0, 0, 0, 0, 1), endians=("big",))),
    "nek_temperature": (nek, dict(ndim=3, lr1=(2, 2, 2), nb=2, order=[1, 2], wdsz=4, var=(0, 0, 0, 1, 0), endians=("little",))),
    "re2_2d": (re2, dict(ndim=2, nel=2, nbc=1, nrec=2, ncurv=1, endians=("big",))),
    "re2_3d": (re2, dict(ndim=3, nel=1, nbc=2, nrec=1, ncurv=0, endians=("little",))),
    "ma2_2d": (ma2, dict(ndim=2, nel=2, endians=("big",))),
    "ma2_3d": (ma2, dict(ndim=3, nel=3, endians=("little",))),
    "dns": (dns, dict(lr1=(2, 2, 4), nscal=0, fltype=1, endians=("big",))),
    "dns_scalars": (dns, dict(lr1=(4, 2, 2), nscal=2, fltype=6, endians=("little",))),
    "plane_1d": (plane, dict(nn=(3,))),
    "plane_2d": (plane, dict(nn=(2, 3))),
    "plane_3d": (plane, dict(nn=(2, 1, 2))),
}
