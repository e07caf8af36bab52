"""C25: gen_box tiles the rectangle it is asked for and connects its elements."""

from .boxes import neighbours
from .common import bookkeeping, get_bc, vertex


def box(env, nx, ny, var=None, nbc=1, sides=None, internal=True, size=50.0):
    xmin, ymin = env.real("xmin", -size, size), env.real("ymin", -size, size)
    lx, ly = env.real("lx", 0.01, size), env.real("ly", 0.01, size)
    xmax, ymax = xmin + lx, ymin + ly
    kw = {}
    if var is not None:
        kw["var"] = list(var)
    var = var or [2, 2, 1, 0, 0]
    names = ("bcs_ymin", "bcs_xmax", "bcs_ymax", "bcs_xmin")
    want = []
    for f, n in enumerate(names):
        choice = (sides or {}).get(n)
        if choice is None:
            want.append(["P"] * nbc)
        else:
            kw[n] = [env.string(f"{n}{b}", list(choice)) for b in range(nbc)]
            want.append(list(kw[n]))
    if not internal:
        kw["internal_bcs"] = False
    d = env.mod("meshtools").gen_box(nx, ny, xmin, xmax, ymin, ymax, **kw)
    env.eq("shape", [d.ndim, d.nel, len(d.elem), list(d.lr1), list(d.var), d.nbc], [2, nx * ny, nx * ny, [2, 2, 1], list(var), nbc])
    bookkeeping(env, d, own_index=False, data=True)
    links = neighbours(nx, ny, 1, 2)
    for j in range(ny):
        for i in range(nx):
            e = i + nx * j
            el = d.elem[e]
            x = [xmin + lx * (i + k) / nx for k in (0, 1)]
            y = [ymin + ly * (j + k) / ny for k in (0, 1)]
            for v, (a, b) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
                env.close(f"vertex {v + 1} of element {e + 1}", vertex(el, v), [x[a], y[b], 0.0], 1e-9)
            for b in range(nbc):
                for f in range(6):
                    got = get_bc(el, b, f)
                    L = f"condition {b} of face {f + 1} of element {e + 1}: "
                    if f > 3:
                        env.eq(L + "nothing", got, ["", 0, 0, 0, 0, 0, 0, 0])
                    elif (e, f) in links:
                        t, g, h = links[e, f]
                        if internal:
                            env.eq(L + "connected", got[:5], ["E", e + 1, f + 1, g + 1, h + 1])
                        else:
                            env.eq(L + "nothing", got[0], "")
                    else:
                        t = want[f][b]
                        env.eq(L + "type", got[0], t)
                        env.eq(L + "own numbers", got[1:3], [e + 1, f + 1])
                        opp = (f + 2) % 4
                        g = {0: (i, ny - 1), 1: (0, j), 2: (i, 0), 3: (nx - 1, j)}[f]
                        pair = [g[0] + nx * g[1] + 1, opp + 1]
                        env.check(L + "partner", env.any([env.all([t == "P", got[3] == pair[0], got[4] == pair[1]]), env.all([env.not_(t == "P"), got[3] == 0, got[4] == 0])]))
                    env.eq(L + "parameters", got[5:], [0.0] * 3)
    # neighbours share their vertices, and the outer sides are where they should be
    for (e, f), (t, g, h) in links.items():
        for a, b in zip(((0, 1), (1, 2), (2, 3), (3, 0))[f], reversed(((0, 1), (1, 2), (2, 3), (3, 0))[h])):
            env.close("shared vertices", vertex(d.elem[e], a), vertex(d.elem[g], b), 1e-9)
    if internal and sides is None:
        env.check("connected", d.check_connectivity(tol=0.01))
        env.check("complete", d.check_bcs_present())


def refuse(env, axis):
    """an empty or inverted rectangle"""
    a, w = env.real("a", -50.0, 50.0), env.real("w", -50.0, 0.0)
    lo, hi = [0.0, 0.0], [1.0, 1.0]
    lo[axis], hi[axis] = a, a + w
    err = env.raises(ValueError, lambda: env.mod("meshtools").gen_box(2, 2, lo[0], hi[0], lo[1], hi[1]))
    env.check("refused", err is not None)


SOME = ("W", "v", "P", "O", "")
SCENARIOS = {}
for _nx in (1, 2, 3):
    for _ny in (1, 2, 3):
        SCENARIOS[f"box_{_nx}x{_ny}"] = (box, dict(nx=_nx, ny=_ny))
SCENARIOS.update({
    "x_sides": (box, dict(nx=2, ny=2, sides={"bcs_xmin": SOME, "bcs_xmax": SOME})),
    "y_sides": (box, dict(nx=2, ny=2, sides={"bcs_ymin": SOME, "bcs_ymax": SOME})),
    "all_sides": (box, dict(nx=1, ny=2, sides={n: ("W", "v") for n in ("bcs_xmin", "bcs_xmax", "bcs_ymin", "bcs_ymax")})),
    "temperature": (box, dict(nx=2, ny=1, var=[2, 2, 1, 1, 0], nbc=2, sides={"bcs_xmin": SOME[:3]})),
    "only_temperature": (box, dict(nx=2, ny=1, var=[2, 0, 0, 1, 0], nbc=1, sides={"bcs_ymax": SOME[:3]})),
    "scalars": (box, dict(nx=1, ny=3, var=[2, 2, 1, 1, 2], nbc=4)),
    "only_scalars": (box, dict(nx=2, ny=2, var=[2, 0, 1, 0, 3], nbc=3)),
    "no_fields": (box, dict(nx=2, ny=2, var=[2, 0, 0, 0, 0], nbc=0)),
    "without_inner": (box, dict(nx=3, ny=2, internal=False)),
    "without_inner_sides": (box, dict(nx=2, ny=3, internal=False, sides={"bcs_xmax": SOME, "bcs_ymin": SOME})),
    "wide": (box, dict(nx=5, ny=1)),
    "tall": (box, dict(nx=1, ny=6)),
    "refuse_x": (refuse, dict(axis=0)),
    "refuse_y": (refuse, dict(axis=1)),
    "large": (box, dict(nx=7, ny=6, size=1000.0), {"cost": 4}),
    "large_scalars": (box, dict(nx=4, ny=5, var=[2, 2, 1, 1, 3], nbc=5), {"cost": 4}),
    "five_sides": (box, dict(nx=2, ny=3, nbc=2, var=[2, 2, 1, 0, 1], sides={"bcs_xmin": SOME, "bcs_ymax": SOME}), {"cost": 6}),
})
SCENARIOS["more"] = (box, dict(nx=4, ny=5, sides={"bcs_ymin": SOME[:3]}))
SCENARIOS["hundreds"] = (box, dict(nx=20, ny=15, size=1000.0), {"cost": 4})
