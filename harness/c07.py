"""C07: the bytes of an .re2 file, written and read, in both byte orders."""

from .c06 import BCS, CURV, bits_mesh, kept
from .common import CORNERS, get_bc, mesh, set_bc, vertex


def re2_cells(env, ndim, nel, big, pos, curv, fields, pad="\0", version="#v002", head=None):
    """pos[ie] = coordinates of the vertices; curv = (ie, edge, 5 params, type);
    fields = lists of (ie, face, 5 params, type)"""
    h = head or f"{version}{nel:9d}{ndim:3d}{nel:9d} this is the hdr"
    c = env.text_cells(h)
    c += env.text_cells(" " * (80 - len(c)))
    c += env.cells(env.f32(6.54321), "f", big)
    for ie in range(nel):
        c += env.cells(0.0, "d", big)
        for i in range(ndim):
            for v in range(2**ndim):
                c += env.cells(pos[ie][v][i], "d", big)

    def records(rows, fill):
        out = env.cells(float(len(rows)), "d", big)
        for ie, k, p, t in rows:
            out += env.scalars_cells([float(ie + 1), float(k + 1)], "d", big)
            out += env.scalars_cells(p, "d", big)
            out += env.text_cells(t + fill * (8 - len(t)))
        return out

    c += records(curv, "\0")
    for rows in fields:
        c += records(rows, " ")
    return c


def inputs(env, ndim, nel, nbc):
    pos = [[[env.bit(f"x{ie}_{v}_{i}") for i in range(ndim)] for v in range(2**ndim)] for ie in range(nel)]
    return pos


def reading(env, ndim, nel, nbc, nrec, ncurv, endians=("little", "big")):
    """records in any order, at any element, face and edge"""
    m = env.mod("neksuite.mesh")
    big = env.pick("endian", endians) == "big"
    pos = inputs(env, ndim, nel, nbc)
    curv, fields = [], []
    for i in range(ncurv):
        ie = env.pick(f"cel{i}", range(nel))
        ed = env.pick(f"cedge{i}", [0, 3] if ndim == 2 else [4, 11])
        t = CURV[1 + i % 3]
        curv.append((ie, ed, [env.bit(f"cp{i}_{j}") for j in range(5)], t))
    env.assume(len({(a, b) for a, b, _, _ in curv}) == len(curv))
    for ib in range(nbc):
        rows = []
        for i in range(nrec):
            ie = env.pick(f"bel{ib}_{i}", range(nel))
            fc = env.pick(f"bface{ib}_{i}", [0, 2] if ndim == 2 else [1, 5])
            t = ["W", "SYM", "v", "mv", "P"][(i + 2 * ib) % 5]
            rows.append((ie, fc, [env.bit(f"bp{ib}_{i}_{j}") for j in range(5)], t))
        env.assume(len({(a, b) for a, b, _, _ in rows}) == len(rows))
        fields.append(rows)
    path = env.path("in.re2")
    env.write(path, re2_cells(env, ndim, nel, big, pos, curv, fields))
    d = m.readre2(path)
    env.eq("ndim", d.ndim, ndim)
    env.eq("nel", d.nel, nel)
    env.eq("endian", d.endian, "big" if big else "little")
    env.eq("fields", d.nbc, max(nbc, 1))
    env.eq("ncurv", d.ncurv, ncurv)
    for ie in range(nel):
        el = d.elem[ie]
        for v in range(2**ndim):
            env.eq(f"vertex {v + 1} of element {ie + 1}", vertex(el, v)[:ndim], pos[ie][v])
        for e in range(12):
            row = next((r for r in curv if r[0] == ie and r[1] == e), None)
            env.eq(f"edge {e + 1} of element {ie + 1}: type", el.ccurv[e], row[3] if row else "")
            env.eq(f"edge {e + 1} of element {ie + 1}: parameters", [el.curv[e, j] for j in range(5)], row[2] if row else [0.0] * 5)
        for ib in range(nbc):
            for f in range(6):
                row = next((r for r in fields[ib] if r[0] == ie and r[1] == f), None)
                bc = get_bc(el, ib, f)
                L = f"field {ib}, face {f + 1} of element {ie + 1}: "
                env.eq(L + "type", bc[0], row[3] if row else "")
                env.eq(L + "owner", [bc[1], bc[2]], [ie + 1, f + 1] if row else [0, 0])
                env.eq(L + "parameters", bc[3:], row[2] if row else [0.0] * 5)


def writing(env, ndim, nel, nbc, faces, edges, only=None):
    """the file is exactly the prescribed bytes"""
    m = env.mod("neksuite.mesh")
    d = bits_mesh(env, ndim, nel, nbc, "float64", faces, edges, only=only)
    d.endian = env.pick("endian", ("little", "big"))
    big = d.endian == "big"
    path = env.path("out.re2")
    env.check("writing reports success", m.writere2(path, d) == 0)
    pos = [[vertex(el, v)[:ndim] for v in range(2**ndim)] for el in d.elem]
    curv = []
    for ie, el in enumerate(d.elem):
        for e in range(12):
            for t in CURV[1:]:
                if el.ccurv[e] == t:
                    curv.append((ie, e, [el.curv[e, j] for j in range(5)], t))
    fields = []
    for ib in range(nbc):
        rows = []
        for ie, el in enumerate(d.elem):
            for f in range(2 * ndim):
                bc = get_bc(el, ib, f)
                for t in BCS[2:]:
                    if bc[0] == t:
                        rows.append((ie, f, bc[3:], t))
        fields.append(rows)
    want = re2_cells(env, ndim, nel, big, pos, curv, fields)
    got = env.read(path)
    env.eq("file size", len(got), len(want))
    env.check("header", env.same_cells(got[:80], want[:80]))
    env.check("tag", env.same_cells(got[80:84], want[80:84]))
    n = 84 + nel * 8 * (1 + ndim * 2**ndim)
    env.check("geometry", env.same_cells(got[84:n], want[84:n]))
    env.check("curvature and conditions", env.same_cells(got[n:], want[n:]))


def bad_tag(env):
    m = env.mod("neksuite.mesh")
    t = env.pick("tag", [0.0, 6.5, -6.54321, 65.4321, 6.6, 6.55, 6.538, 1e-30])
    big = env.pick("endian", ("little", "big")) == "big"
    c = re2_cells(env, 2, 1, big, [[[0.0, 0.0]] * 4], [], [[]])
    c[80:84] = env.cells(env.f32(t), "f", big)
    path = env.path("bad.re2")
    env.write(path, c)
    env.check("a wrong endianness tag is refused", env.raises(ValueError, lambda: m.readre2(path)) is not None)


SCENARIOS = {
    "read_2d": (reading, dict(ndim=2, nel=2, nbc=1, nrec=2, ncurv=1)),
    "read_3d": (reading, dict(ndim=3, nel=2, nbc=1, nrec=1, ncurv=2)),
    "read_fields": (reading, dict(ndim=2, nel=2, nbc=2, nrec=1, ncurv=0)),
    "read_three_fields": (reading, dict(ndim=3, nel=1, nbc=3, nrec=1, ncurv=1)),
    "read_no_conditions": (reading, dict(ndim=3, nel=2, nbc=0, nrec=0, ncurv=1)),
    "read_empty_field": (reading, dict(ndim=2, nel=2, nbc=2, nrec=0, ncurv=2)),
    "write_2d": (writing, dict(ndim=2, nel=2, nbc=1, faces=[(0, 0, 0), (1, 0, 3)], edges=[(0, 1)])),
    "write_3d": (writing, dict(ndim=3, nel=2, nbc=1, faces=[(0, 0, 5), (1, 0, 4)], edges=[(1, 11)])),
    "write_fields": (writing, dict(ndim=2, nel=2, nbc=2, faces=[(1, 0, 0), (0, 1, 2)], edges=[(0, 0)])),
    "write_no_conditions": (writing, dict(ndim=3, nel=1, nbc=0, faces=[], edges=[(0, 0), (0, 8)])),
    "bad_tag": (bad_tag, {}),
    "read_many": (reading, dict(ndim=3, nel=3, nbc=2, nrec=3, ncurv=3), {"tier": "thorough", "cost": 9, "budget": 800}),
    "write_many": (writing, dict(ndim=3, nel=3, nbc=2, faces=[(i, b, f) for i in range(3) for b in range(2) for f in (5,)], edges=[(0, 0), (1, 5), (2, 11)]), {"tier": "thorough", "cost": 9, "budget": 800}),
}
SCENARIOS["read_twelve"] = (reading, dict(ndim=3, nel=12, nbc=1, nrec=1, ncurv=0))
SCENARIOS["read_twelve_curved"] = (reading, dict(ndim=3, nel=12, nbc=1, nrec=1, ncurv=1), {"tier": "thorough", "cost": 9, "budget": 800})
SCENARIOS["write_twelve"] = (writing, dict(ndim=3, nel=12, nbc=2, faces=[], edges=[(10, 7)]))
SCENARIOS["write_hundreds"] = (writing, dict(ndim=2, nel=300, nbc=1, faces=[], edges=[(280, 1)], only=(0, 256, 299)), {"cost": 4})
