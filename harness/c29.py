"""C29: .rea files of the format are read as they say, and written files follow it."""

from .c08 import build, near, number
from .common import get_bc, vertex


def e14(x):
    return format(x, "14.6e")


TITLES = ["  ***** FLUID   BOUNDARY CONDITIONS *****", "  ***** THERMAL BOUNDARY CONDITIONS *****"] + [f"  ***** PASSIVE SCALAR {k:4d} BOUNDARY CONDITIONS *****" for k in (1, 2, 3)]


def reading(env, ndim, nel, nbc, edges=(), faces=(), orders=None, headers=False, verts=True):
    """a file another tool wrote, with its own parameters and switches"""
    m = env.mod("neksuite.mesh")
    npar, nps, nsw = 2, 1, 3
    if headers:
        npar = env.pick("parameters", (0, 1, 3, 200))
        nps = env.pick("scalars", (0, 2, 4, 9))
        nsw = env.pick("switches", (1, 2, 13))
    L = [" ****** PARAMETERS *****", "    2.610000     NEKTON VERSION", f"           {ndim} DIMENSIONAL RUN", f"  {npar} PARAMETERS FOLLOW"]
    L += [f"   {1.5 * k:.6e}   p{k:03d} X" for k in range(npar)]
    L += [f"   {nps}  Lines of passive scalar data follows2 CONDUCT; 2RHOCP"] + ["   1.00000   1.00000"] * nps
    L += [f"   {nsw}  LOGICAL SWITCHES FOLLOW"] + ["  T     IFFLOW"] * nsw
    L += ["   5.00000  5.00000  -2.7  -5.0  XFAC,YFAC,XZERO,YZERO", " ***MESH DATA*** 6 lines are X,Y,Z;X,Y,Z. Columns corners 1-4;5-8", f"  {nel:10d} {ndim:3d} {nel:10d}           NEL,NDIM,NELV"]
    pos = []
    for ie in range(nel):
        p = [[number(env, f"x{ie}_{v}_{i}") if verts and ie in (0, nel - 1) and v % 3 == 1 else 0.25 * v - ie for i in range(ndim)] for v in range(2**ndim)]
        pos.append(p)
        L.append(f"           ELEMENT {ie + 1:10d} [    1 ]    GROUP     0")
        for iz in range(ndim - 1):
            for i in range(ndim):
                L.append("".join(e14(p[4 * iz + v][i]) for v in range(4)))
    curved = {}
    for ie, e in edges:
        curved[ie, e] = (env.pick(f"ctype{ie}_{e}", ("C", "m", "s")), [number(env, f"c{ie}_{e}_{j}") for j in range(5)])
    keys = list(edges)
    if orders:
        keys = [keys[k] for k in env.pick("order", orders)]
    L += ["  ***** CURVED SIDE DATA *****", f"  {len(keys)} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE"]
    for ie, e in keys:
        t, cp = curved[ie, e]
        L.append((f"{e + 1:3d}{ie + 1:3d}" if nel < 1000 else f"{e + 1:2d}{ie + 1:6d}") + "".join(e14(x) for x in cp) + " " + t)
    L.append("  ***** BOUNDARY CONDITIONS *****")
    if nbc == 0:
        L.append("  ***** NO FLUID   BOUNDARY CONDITIONS *****")
    want = {}
    for k, ib, f in faces:
        t = env.pick(f"bctype{k}_{ib}_{f}", ("W", "SYM", "mv", "E", "", "E blank") if (k, ib, f) == faces[0] else ("v", "E blank"))
        if t == "E":
            bp = [env.int(f"partner{k}_{ib}_{f}", 1, nel) * 1.0, 3.0, 0.0, 0.0, 0.0]
        elif t == "E blank":
            # no partner: nothing is left of it, whatever the other numbers
            bp = [0.0] + [number(env, f"b{k}_{ib}_{f}_{j}") for j in range(1, 5)]
        elif t == "":
            bp = [0.0] * 5
        else:
            bp = [number(env, f"b{k}_{ib}_{f}_{j}") for j in range(5)]
        want[k, ib, f] = (t, bp)
    for ib in range(nbc):
        L.append(TITLES[ib])
        for k in range(nel):
            for f in range(2 * ndim):
                t, bp = want.get((k, ib, f), ("O", [0.0] * 5))
                own = f"{k + 1:3d}{f + 1:3d}" if nel < 1000 else f"{k + 1:5d}{f + 1:1d}" if nel < 100000 else f"{k + 1:6d}"
                L.append(" " + t[:3].strip().ljust(3) if t != "E blank" else " E  ")
                L[-1] += own + "".join(e14(x) for x in bp)
    if nbc == 1:
        L.append("  ***** NO THERMAL BOUNDARY CONDITIONS *****")
    L += ["    0 PRESOLVE/RESTART OPTIONS  *****", "    7         INITIAL CONDITIONS *****", " C Default", ""]
    path = env.path("in.rea")
    env.write_text(path, "\n".join(L))
    r = m.readrea(path)
    env.eq("sizes", [r.ndim, r.nel, r.nbc, r.ncurv, len(r.elem)], [ndim, nel, nbc, len(keys), nel])
    env.eq("points per element and variables", [list(r.lr1), list(r.var)], [[2, 2, ndim - 1], [ndim, 0, 0, 0, 0]])
    env.eq("element map", [int(x) for x in r.elmap], list(range(1, nel + 1)))
    for k in range(nel) if nel < 20 else sorted({0, nel - 1} | {e[0] for e in edges} | {f[0] for f in faces}):
        el = r.elem[k]
        for v in range(2**ndim):
            for i in range(ndim):
                near(env, f"vertex {v + 1} of element {k + 1}", vertex(el, v)[i], pos[k][v][i])
        for a in range(12):
            t, cp = curved.get((k, a), ("", [0.0] * 5))
            env.eq(f"curvature type of edge {a + 1} of element {k + 1}", el.ccurv[a], t)
            for j in range(5):
                near(env, f"curvature of edge {a + 1} of element {k + 1}", el.curv[a, j], cp[j])
        for ib in range(nbc):
            for f in range(2 * ndim):
                bc = get_bc(el, ib, f)
                t, bp = want.get((k, ib, f), ("O", [0.0] * 5))
                name = f"face {f + 1} of element {k + 1}, field {ib}: "
                env.eq(name + "type", bc[0], "" if t == "E blank" else t)
                env.eq(name + "owner", [bc[1], bc[2]], [0, 0] if t == "E blank" else [k + 1, f + 1])
                for j in range(5):
                    near(env, name + "parameters", bc[3 + j], 0.0 if t == "E blank" else bp[j])


def writing(env, ndim, nel, nbc, verts, faces, edges, stale=False):
    """the numbers are in the columns Nek5000 prescribes"""
    m = env.mod("neksuite.mesh")
    d = build(env, ndim, nel, nbc, verts, faces, edges)
    ncurv = d.ncurv
    if stale:
        # curvature was changed without updating the count
        d.ncurv = env.int("ncurv", 0, 999)
    path = env.path("out.rea")
    m.writerea(path, d)
    L = env.text(path).split("\n")
    n = next(i for i, x in enumerate(L) if "PARAMETERS FOLLOW" in x)
    env.eq("dimensions", env.parse_int(L[n - 1].split()[0]), ndim)
    npar = int(L[n].split()[0])
    n += npar + 1
    n += int(L[n].split()[0]) + 1
    env.check("logical switches", "SWITCHES" in L[n])
    n += int(L[n].split()[0]) + 2
    env.check("mesh data", "MESH DATA" in L[n])
    env.eq("element counts", [int(x) for x in L[n + 1].split()[:3]], [nel, ndim, nel])
    n += 2
    for ie, el in enumerate(d.elem):
        env.eq("element number", int(L[n].split()[1]), ie + 1)
        n += 1
        for iz in range(ndim - 1):
            for i in range(ndim):
                for v in range(4):
                    near(env, f"vertex {4 * iz + v + 1} of element {ie + 1}", env.parse_float(L[n][14 * v:14 * v + 14]), vertex(el, 4 * iz + v)[i])
                env.eq("line length", len(L[n]), 56)
                n += 1
    env.check("curved sides", "CURVED SIDE DATA" in L[n])
    env.eq("number of curved sides", env.parse_int(L[n + 1].split()[0]), ncurv)
    n += 2
    a, b = (3, 6) if nel < 1000 else (2, 8)
    for ie, el in enumerate(d.elem):
        for e in range(12):
            if el.ccurv[e] != "":
                env.eq("edge and element", [env.parse_int(L[n][:a]), env.parse_int(L[n][a:b])], [e + 1, ie + 1])
                for j in range(5):
                    near(env, "curvature", env.parse_float(L[n][b + 14 * j:b + 14 * j + 14]), el.curv[e, j])
                env.eq("type", L[n][b + 70:].strip(), el.ccurv[e])
                n += 1
    env.check("boundary conditions", "***** BOUNDARY" in L[n])
    n += 1
    if nbc == 0:
        env.check("no conditions", "NO FLUID" in L[n])
        n += 1
    for ib in range(nbc):
        env.check("field", ["FLUID", "THERMAL", "SCALAR", "SCALAR", "SCALAR"][ib] in L[n] and "NO " not in L[n])
        if ib > 1:
            env.check("number of the scalar", str(ib - 1) in L[n].split())
        n += 1
        for ie, el in enumerate(d.elem):
            for f in range(2 * ndim):
                bc = get_bc(el, ib, f)
                env.eq("type", L[n][1:4].strip(), env.ite(bc[0] == "", "E", bc[0]) if isinstance(bc[0], str) else L[n][1:4].strip())
                if nel < 1000:
                    env.eq("element and face", [env.parse_int(L[n][4:7]), env.parse_int(L[n][7:10])], [ie + 1, f + 1])
                else:
                    env.eq("element", env.parse_int(L[n][4:10]), ie + 1)
                for j in range(5):
                    near(env, "parameters", env.parse_float(L[n][10 + 14 * j:24 + 14 * j]), bc[3 + j])
                n += 1
    env.check("what follows", "NO THERMAL" in L[n] if nbc < 2 else "PRESOLVE" in L[n])


SCENARIOS = {
    "read_headers": (reading, dict(ndim=2, nel=1, nbc=1, headers=True)),
    "read_2d": (reading, dict(ndim=2, nel=3, nbc=1, edges=[(2, 3)], faces=[(1, 0, 2), (2, 0, 0)])),
    "read_3d": (reading, dict(ndim=3, nel=2, nbc=2, edges=[(0, 11)], faces=[(1, 1, 5), (0, 0, 5)])),
    "read_three_fields": (reading, dict(ndim=2, nel=2, nbc=3, faces=[(1, 2, 3)])),
    "read_five_fields": (reading, dict(ndim=2, nel=1, nbc=5, faces=[(0, 4, 1)], verts=False)),
    "read_no_conditions": (reading, dict(ndim=3, nel=2, nbc=0, edges=[(1, 0)])),
    "read_curved": (reading, dict(ndim=2, nel=2, nbc=1, edges=[(0, 1), (1, 0), (1, 3)], orders=[[0, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]], verts=False), {"cost": 2}),
    "read_curved_3d": (reading, dict(ndim=3, nel=3, nbc=1, edges=[(2, 8), (0, 10)], orders=[[0, 1], [1, 0]], verts=False), {"cost": 2}),
    "read_twelve": (reading, dict(ndim=3, nel=12, nbc=1, edges=[(11, 5), (9, 9)], faces=[(10, 0, 4)], verts=False), {"cost": 2}),
    "read_999": (reading, dict(ndim=2, nel=999, nbc=1, edges=[(998, 1)], faces=[(998, 0, 3)]), {"cost": 3}),
    "read_1000": (reading, dict(ndim=2, nel=1000, nbc=1, edges=[(999, 1)], faces=[(999, 0, 3)]), {"cost": 3}),
    "write_2d": (writing, dict(ndim=2, nel=2, nbc=2, verts=[(1, 1)], faces=[(1, 0, 0)], edges=[(0, 3)])),
    "write_3d": (writing, dict(ndim=3, nel=2, nbc=3, verts=[(1, 6)], faces=[(1, 2, 5)], edges=[(1, 9)])),
    "write_stale": (writing, dict(ndim=2, nel=2, nbc=1, verts=[], faces=[], edges=[(0, 3), (1, 2)], stale=True)),
    "write_one": (writing, dict(ndim=3, nel=1, nbc=1, verts=[(0, v) for v in range(8)], faces=[], edges=[])),
    "write_no_conditions": (writing, dict(ndim=2, nel=2, nbc=0, verts=[(0, 2)], faces=[], edges=[(0, 0), (1, 2)])),
    "write_five_fields": (writing, dict(ndim=2, nel=1, nbc=5, verts=[], faces=[(0, 4, 2), (0, 3, 2)], edges=[])),
    "write_twelve": (writing, dict(ndim=2, nel=12, nbc=1, verts=[(11, 3)], faces=[(11, 0, 3)], edges=[(9, 3)])),
    "write_999": (writing, dict(ndim=2, nel=999, nbc=1, verts=[(998, 1)], faces=[(998, 0, 1)], edges=[(998, 3)]), {"cost": 4}),
    "write_1000": (writing, dict(ndim=2, nel=1000, nbc=1, verts=[(999, 1)], faces=[(999, 0, 1)], edges=[(999, 3)]), {"cost": 4}),
}
