"""C11: readdns turns a SIMSON velocity file into the field it describes."""

import math


def dns_cells(env, big, lr1, nscal, fltype, head, data):
    """head: Re, lengths x and z, time, dstar; data[var][iz][iy] = nx reals"""
    I = lambda v: env.cells(v, "i", big)
    D = lambda v: env.cells(v, "d", big)
    eol = [0] * 8
    c = I(44 + 16 * nscal) + D(head["Re"]) + I(0) + D(head["lx"]) + D(head["lz"]) + D(head["time"]) + D(0.0)
    for i in range(nscal):
        c += D(head["pr"][i]) + D(head["m"][i])
    c += eol
    for n in lr1:
        c += I(n)
    c += I(0) + eol
    c += I(fltype) + D(head["dstar"]) + eol
    n = 1 if fltype == -1 else 2 if fltype == -2 else 4 if 6 <= fltype <= 9 else nscal if abs(fltype) == 20 else 0
    if n or abs(fltype) == 20:
        for i in range(n):
            c += D(head["extra"][i])
        c += eol
    for var in data:
        for plane in var:
            for row in plane:
                for x in row:
                    c += D(x)
                c += eol
    return c


def header_inputs(env, nscal):
    return {"Re": env.real("Re", 1, 1e5), "lx": env.real("lx", 0.5, 50), "lz": env.real("lz", 0.5, 50), "time": env.real("time", -1e6, 1e6),
            "dstar": env.real("dstar", 0.125, 8), "pr": [env.real(f"pr{i}", 0, 10) for i in range(nscal)],
            "m": [env.real(f"m{i}", 0, 10) for i in range(nscal)], "extra": [env.real(f"extra{i}", 0, 10) for i in range(max(4, nscal))]}


def read(env, lr1, nscal, modes, fltypes=(1,)):
    """modes: (kz, kx) with 0 < kz < nz/2, or (0, 0); one arbitrary amplitude each, per row"""
    s = env.mod("simsonsuite")
    nx, ny, nz = lr1
    big = env.pick("endian", ("little", "big")) == "big"
    fltype = env.pick("fltype", fltypes)
    h = header_inputs(env, nscal)
    nvar = 3 + nscal
    data = [[[[0.0] * nx for _ in range(ny)] for _ in range(nz)] for _ in range(nvar)]
    amp = {}
    for v in range(nvar):
        for iy in range(ny):
            for kz, kx in modes:
                re = env.real(f"re{v}_{iy}_{kz}_{kx}", -10, 10)
                im = env.real(f"im{v}_{iy}_{kz}_{kx}", -10, 10) if (kz, kx) != (0, 0) else 0.0
                data[v][kz][iy][2 * kx] = re
                data[v][kz][iy][2 * kx + 1] = im
                amp[v, iy, kz, kx] = (re, im)
    path = env.path("in.u")
    env.write(path, dns_cells(env, big, lr1, nscal, fltype, h, data))
    d = s.readdns(path)
    ndim = 3 if nz > 1 else 2
    env.eq("ndim", d.ndim, ndim)
    env.eq("one element", [d.nel, len(d.elem)], [1, 1])
    env.eq("lr1", list(d.lr1), list(lr1))
    env.eq("var", list(d.var), [ndim, ndim, 0, 0, nscal])
    env.eq("endian", d.endian, "big" if big else "little")
    env.eq("wdsz", d.wdsz, 8)
    env.eq("time", d.time, h["time"])
    el = d.elem[0]
    for iz in range(nz):
        for iy in range(ny):
            for ix in range(nx):
                env.close("x", el.pos[0, iz, iy, ix], h["lx"] * (ix / nx), 1e-9)
                env.close("y", el.pos[1, iz, iy, ix] * h["dstar"], 1 - math.cos(math.pi * iy / (ny - 1)), 1e-9)
                env.close("z", el.pos[2, iz, iy, ix], h["lz"] * ((iz - nz / 2) / nz), 1e-9)
                for v in range(nvar):
                    want = 0.0
                    for kz, kx in modes:
                        re, im = amp[v, iy, kz, kx]
                        ph = 2 * math.pi * (kx * ix / nx + kz * iz / nz)
                        k = 1 if (kz, kx) == (0, 0) else 2
                        want = want + k * (re * math.cos(ph) - im * math.sin(ph))
                    if v == 1:
                        want = -want
                    got = el.vel[v, iz, iy, ix] if v < 3 else el.scal[v - 3, iz, iy, ix]
                    env.close("uvw"[v] if v < 3 else f"s{v - 2}", got, want, 1e-9)


def alike(env, lr1, nscal, planes):
    """every plane of amplitudes counts in the same way for each velocity component and each scalar"""
    s = env.mod("simsonsuite")
    nx, ny, nz = lr1
    h = header_inputs(env, nscal)
    nvar = 3 + nscal
    big = env.pick("endian", ("little", "big")) == "big"
    data = [[[[0.0] * nx for _ in range(ny)] for _ in range(nz)] for _ in range(nvar)]
    for iz in planes:
        for iy in range(ny):
            for k in range(nx):
                a = env.real(f"a{iz}_{iy}_{k}", -10, 10)
                for v in range(nvar):
                    data[v][iz][iy][k] = a
    path = env.path("in.u")
    env.write(path, dns_cells(env, big, lr1, nscal, 1, h, data))
    el = s.readdns(path).elem[0]
    for iz in range(nz):
        for iy in range(ny):
            for ix in range(nx):
                want = el.vel[0, iz, iy, ix]
                env.close("v", el.vel[1, iz, iy, ix], -want, 1e-9)
                env.close("w", el.vel[2, iz, iy, ix], want, 1e-9)
                for i in range(nscal):
                    env.close(f"s{i + 1}", el.scal[i, iz, iy, ix], want, 1e-9)


def unreadable(env):
    """files that are not there or not SIMSON files are reported, not read"""
    s = env.mod("simsonsuite")
    path = env.path("bad.u")
    env.eq("missing file", s.readdns(env.path("missing.u")), -1)
    t = env.pick("tag", (0, 43, 1645, 70000, -44))
    big = env.pick("endian", ("little", "big")) == "big"
    env.write(path, env.cells(t, "i", big) + [0] * 400)
    env.eq("wrong record length", s.readdns(path), -3)


SCENARIOS = {
    "4x2x4": (read, dict(lr1=(4, 2, 4), nscal=0, modes=[(0, 0), (1, 0), (1, 1)])),
    "2x3x6": (read, dict(lr1=(2, 3, 6), nscal=0, modes=[(0, 0), (1, 0), (2, 0)])),
    "6x2x4": (read, dict(lr1=(6, 2, 4), nscal=0, modes=[(1, 1), (1, 2)], fltypes=(1, 2, 3))),
    "scalars": (read, dict(lr1=(4, 2, 4), nscal=2, modes=[(0, 0), (1, 1)], fltypes=(1, 20, -20))),
    "flow_types": (read, dict(lr1=(2, 2, 4), nscal=0, modes=[(1, 0)], fltypes=(-1, -2, 6, 7, 8, 9))),
    "flow_types_scalar": (read, dict(lr1=(2, 2, 4), nscal=1, modes=[(1, 0)], fltypes=(-2, 6, 20))),
    "2d": (read, dict(lr1=(4, 3, 1), nscal=1, modes=[(0, 0)])),
    "alike_4x2x6": (alike, dict(lr1=(4, 2, 6), nscal=1, planes=range(6))),
    "alike_2x2x8": (alike, dict(lr1=(2, 2, 8), nscal=2, planes=range(8))),
    "4x3x8": (read, dict(lr1=(4, 3, 8), nscal=1, modes=[(0, 0), (1, 0), (1, 1), (2, 1), (3, 0), (3, 1)]), {"cost": 4}),
    "five_scalars": (read, dict(lr1=(2, 2, 4), nscal=5, modes=[(0, 0), (1, 0)], fltypes=(1, 20))),
    "forty_scalars": (read, dict(lr1=(2, 2, 1), nscal=40, modes=[(0, 0)])),
    "unreadable": (unreadable, {}),
}
