"""C35: a mesh or field carried from one file format to another keeps what both formats hold."""

from itertools import product

from .c08 import build, number
from .c11 import dns_cells, header_inputs
from .common import fill, get_bc, hexa, mesh, set_bc, set_elmap, set_vertex, vertex


class Content:
    """what a mesh says, as plain values; `rough` counts how often its numbers were printed"""

    def __init__(self, d):
        self.ndim, self.nel, self.nbc = d.ndim, d.nel, d.nbc
        self.rough = 0
        self.pos = [[vertex(el, v)[: d.ndim] for v in range(2**d.ndim)] for el in d.elem]
        self.curv = [[(el.ccurv[e], [el.curv[e, j] for j in range(5)]) for e in range(12)] for el in d.elem]
        self.bcs = [[[get_bc(el, b, f) for f in range(2 * d.ndim)] for b in range(d.nbc)] for el in d.elem]

    def every_bc(self):
        return product(range(self.nel), range(self.nbc), range(2 * self.ndim))

    def through_re2(self):
        """internal faces are not stored; there is always a first field"""
        if self.nbc == 0:
            self.nbc = 1
            self.bcs = [[[["", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0] for _ in range(2 * self.ndim)]] for _ in range(self.nel)]
        for ie, b, f in self.every_bc():
            bc = self.bcs[ie][b][f]
            if bc[0] == "" or bc[0] == "E":
                self.bcs[ie][b][f] = ["", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0]
            else:
                self.bcs[ie][b][f] = [bc[0], ie + 1, f + 1] + bc[3:]

    def through_rea(self):
        """seven digits; a connection to no element is none"""
        self.rough += 1
        for ie, b, f in self.every_bc():
            bc = self.bcs[ie][b][f]
            if bc[0] == "":
                self.bcs[ie][b][f] = ["", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0]

    def through_field(self):
        """the points only"""
        self.nbc = 0
        self.bcs = [[] for _ in range(self.nel)]
        self.curv = [[("", [0.0] * 5)] * 12 for _ in range(self.nel)]


def near(env, label, got, x, rough):
    if rough == 0:
        env.eq(label, got, x)
    else:
        env.check(label, env.all([abs(got - x) <= abs(x) * (5.0001e-7 * rough)]))


def holds(env, L, d, c):
    env.eq(L + "sizes", [d.ndim, d.nel, len(d.elem), d.nbc], [c.ndim, c.nel, c.nel, c.nbc])
    env.eq(L + "points per element", list(d.lr1), [2, 2, c.ndim - 1])
    n = 0
    for ie, el in enumerate(d.elem):
        for v in range(2**c.ndim):
            for i in range(c.ndim):
                near(env, L + f"vertex {v + 1} of element {ie + 1}", vertex(el, v)[i], c.pos[ie][v][i], c.rough)
        for e in range(12):
            t, p = c.curv[ie][e]
            env.eq(L + f"curvature type of edge {e + 1} of element {ie + 1}", el.ccurv[e], t)
            if t != "":
                n += 1
                for j in range(5):
                    near(env, L + f"curvature of edge {e + 1} of element {ie + 1}", el.curv[e, j], p[j], c.rough)
        for b in range(c.nbc):
            for f in range(2 * c.ndim):
                got, want = get_bc(el, b, f), c.bcs[ie][b][f]
                name = L + f"condition of field {b}, face {f + 1} of element {ie + 1}: "
                env.eq(name + "type", got[0], want[0])
                env.eq(name + "owner", [got[1], got[2]], [want[1], want[2]])
                for j in range(3, 8):
                    near(env, name + f"parameter {j - 2}", got[j], want[j], c.rough)
    env.eq(L + "number of curved edges", d.ncurv, n)


def carry(env, d, c, chain):
    mesh_io, field_io = env.mod("neksuite.mesh"), env.mod("neksuite.field")
    for k, fmt in enumerate(chain):
        path = env.path(f"step{k}." + {"rea": "rea", "re2": "re2", "field": "f00001"}[fmt])
        if fmt == "rea":
            mesh_io.writerea(path, d)
            d = mesh_io.readrea(path)
            c.through_rea()
        elif fmt == "re2":
            mesh_io.writere2(path, d)
            d = mesh_io.readre2(path)
            c.through_re2()
        else:
            field_io.writenek(path, d)
            d = field_io.readnek(path)
            c.through_field()
        holds(env, "after " + " ".join(chain[: k + 1]) + ": ", d, c)
    return d


def meshes(env, chains, ndim, nel, nbc, verts=(), faces=(), edges=(), endians=("little",)):
    """a mesh of any numbers through a chain of formats"""
    d = build(env, ndim, nel, nbc, verts, faces, edges, few=True)
    d.endian = env.pick("endian", endians)
    carry(env, d, Content(d), env.pick("chain", chains))


def box(env, chains, nx, ny, nbc=1, layers=0):
    """a generated mesh of any place and size"""
    t = env.mod("meshtools")
    x, y = env.real("xmin", 1.0, 5.0), env.real("ymin", 1.0, 5.0)
    d = t.gen_box(nx, ny, x, x + env.real("lx", 0.5, 5.0), y, y + 1.0, bcs_xmin=["W"] * nbc, bcs_xmax=["v"] * nbc, var=[2, 2, 0, 0, nbc - 1])
    if layers:
        d = t.extrude(d, [0.0] + [0.5 + k for k in range(layers)], bc1=["W"] * nbc, bc2=["O"] * nbc)
    # the numbers of connections are printed and stored as they are
    carry(env, d, Content(d), env.pick("chain", chains))


def field_as_mesh(env, ndim, nel, orders, endians=("little", "big")):
    """a field of two points per direction is as good as a mesh: it can be stored, extruded and connected"""
    m, field, t = env.mod("neksuite.mesh"), env.mod("neksuite.field"), env.mod("meshtools")
    d = hexa(env, ndim, nel, [2, 2, ndim - 1], [ndim, ndim, 1, 0, 1], 0)
    for ie, el in enumerate(d.elem):
        for v in range(2**ndim):
            set_vertex(el, v, [env.real(f"x{ie}_{v}_{i}", -50, 50) for i in range(ndim)])
    d.endian = env.pick("endian", endians)
    set_elmap(env, d, env.pick("elmap", orders))
    c = Content(d)
    path = env.path("in0.f00001")
    field.writenek(path, d)
    r = field.readnek(path)
    holds(env, "read back: ", r, c)
    path = env.path("mesh.re2")
    m.writere2(path, r)
    c.through_re2()
    holds(env, "as .re2: ", m.readre2(path), c)
    if ndim == 2:
        z = [0.0, env.real("h1", 0.5, 2.0), 3.0]
        for name, e in (("extruded: ", t.extrude(r, z)), ("refined: ", t.extrude_refine(r, z, fun=[], funpar=None, imesh_high=0))):
            env.eq(name + "sizes", [e.ndim, e.nel, len(e.elem), list(e.lr1)], [3, 2 * nel, 2 * nel, [2, 2, 2]])
            for k in range(2):
                for ie in range(nel):
                    for v in range(8):
                        env.close(name + f"vertex {v + 1} of element {ie + 1} of layer {k + 1}", vertex(e.elem[k * nel + ie], v), vertex(d.elem[ie], v % 4)[:2] + [z[k + (v > 3)]], 1e-9)


def precisions(env, ndim, wdsz):
    """fields of either word size stored again in the other keep what the smaller one holds"""
    field = env.mod("neksuite.field")
    d = hexa(env, ndim, 2, [2, 2, ndim - 1], [ndim, 0, 1, 0, 1], 0)
    fill(env, d, nonan=True)
    d.endian = env.pick("endian", ("little", "big"))
    d.wdsz = wdsz
    set_elmap(env, d, env.pick("elmap", ([1, 2], [2, 1])))
    path = env.path("a0.f00001")
    field.writenek(path, d)
    r = field.readnek(path)
    r.wdsz = 12 - wdsz
    r.endian = env.pick("endian2", ("little", "big"))
    path = env.path("b0.f00001")
    field.writenek(path, r)
    s = field.readnek(path)
    env.eq("metadata", [s.wdsz, s.endian, s.nel, list(s.elmap)], [r.wdsz, r.endian, 2, list(d.elmap)])
    for ie in range(2):
        for f, n in zip(("pos", "pres", "scal"), (ndim, 1, 1)):
            a, b = getattr(d.elem[ie], f), getattr(s.elem[ie], f)
            for i in range(n):
                for iz, iy, ix in product(range(ndim - 1), range(2), range(2)):
                    env.eq(f"{f}[{i}] of element {ie + 1}", b[i, iz, iy, ix], env.f64(env.f32(a[i, iz, iy, ix])))


def simson(env, lr1, nscal, modes):
    """a SIMSON field stored as a Nek field"""
    s, field = env.mod("simsonsuite"), env.mod("neksuite.field")
    nx, ny, nz = lr1
    big = env.pick("endian", ("little", "big")) == "big"
    h = header_inputs(env, nscal)
    nvar = 3 + nscal
    data = [[[[0.0] * nx for _ in range(ny)] for _ in range(nz)] for _ in range(nvar)]
    for v in range(nvar):
        for iy in range(ny):
            for kz, kx in modes:
                data[v][kz][iy][2 * kx] = env.real(f"re{v}_{iy}_{kz}_{kx}", -10, 10)
                data[v][kz][iy][2 * kx + 1] = env.real(f"im{v}_{iy}_{kz}_{kx}", -10, 10) if (kz, kx) != (0, 0) else 0.0
    path = env.path("in.u")
    env.write(path, dns_cells(env, big, lr1, nscal, 1, h, data))
    d = s.readdns(path)
    path = env.path("out0.f00001")
    field.writenek(path, d)
    r = field.readnek(path)
    env.eq("sizes", [r.ndim, r.nel, list(r.lr1), list(r.var)], [3, 1, list(lr1), [3, 3, 0, 0, nscal]])
    env.eq("settings", [r.wdsz, r.endian], [8, "big" if big else "little"])
    env.check("time to 13 decimals", abs(r.time - h["time"]) <= abs(h["time"]) * 1e-13 + 1e-300)
    for iz, iy, ix in product(range(nz), range(ny), range(nx)):
        for i in range(3):
            env.eq(f"coordinate {i}", r.elem[0].pos[i, iz, iy, ix], d.elem[0].pos[i, iz, iy, ix])
            env.eq(f"velocity {i}", r.elem[0].vel[i, iz, iy, ix], d.elem[0].vel[i, iz, iy, ix])
        for i in range(nscal):
            env.eq(f"scalar {i}", r.elem[0].scal[i, iz, iy, ix], d.elem[0].scal[i, iz, iy, ix])


TO_RE2 = [("rea", "re2"), ("rea", "re2", "re2")]
TO_REA = [("re2", "rea"), ("re2", "rea", "re2")]
FIELD = [("rea", "field", "re2"), ("re2", "field", "rea"), ("field", "re2", "field")]
BOTH = ("little", "big")
SCENARIOS = {
    "rea_re2": (meshes, dict(chains=TO_RE2, ndim=2, nel=2, nbc=1, verts=[(1, 2)], faces=[(0, 0, 1)], edges=[(1, 3)], endians=BOTH)),
    "rea_re2_3d": (meshes, dict(chains=TO_RE2, ndim=3, nel=2, nbc=2, verts=[(0, 6)], faces=[(1, 1, 5)], edges=[(0, 11)])),
    "rea_re2_fields": (meshes, dict(chains=TO_RE2[:1], ndim=2, nel=1, nbc=3, faces=[(0, 0, 2), (0, 2, 2)])),
    "re2_rea": (meshes, dict(chains=TO_REA, ndim=2, nel=2, nbc=1, verts=[(0, 1)], faces=[(1, 0, 3)], edges=[(0, 0)], endians=BOTH)),
    "re2_rea_3d": (meshes, dict(chains=TO_REA, ndim=3, nel=2, nbc=2, verts=[(1, 4)], faces=[(0, 0, 4)], edges=[(1, 8)])),
    "no_conditions": (meshes, dict(chains=TO_RE2 + TO_REA, ndim=2, nel=2, nbc=0, verts=[(0, 1)], edges=[(1, 2)])),
    "field": (meshes, dict(chains=FIELD, ndim=2, nel=2, nbc=1, verts=[(0, 3), (1, 1)], faces=[(0, 0, 0)], edges=[(1, 1)], endians=BOTH)),
    "field_3d": (meshes, dict(chains=FIELD, ndim=3, nel=1, nbc=1, verts=[(0, 3), (0, 5)], edges=[(0, 9)])),
    "box": (box, dict(chains=TO_RE2 + TO_REA + FIELD, nx=2, ny=1)),
    "box_fields": (box, dict(chains=TO_RE2 + TO_REA, nx=1, ny=2, nbc=2)),
    "extruded": (box, dict(chains=TO_RE2 + TO_REA + FIELD, nx=2, ny=1, layers=2)),
    "field_as_mesh": (field_as_mesh, dict(ndim=2, nel=1, orders=[[1]])),
    "field_as_mesh_two": (field_as_mesh, dict(ndim=2, nel=2, orders=[[1, 2], [2, 1]])),
    "field_as_mesh_3d": (field_as_mesh, dict(ndim=3, nel=2, orders=[[1, 2], [2, 1]])),
    "double_single": (precisions, dict(ndim=2, wdsz=8)),
    "single_double": (precisions, dict(ndim=3, wdsz=4)),
    "simson": (simson, dict(lr1=(4, 2, 4), nscal=0, modes=[(0, 0), (1, 1)])),
    "simson_scalar": (simson, dict(lr1=(2, 3, 4), nscal=1, modes=[(1, 0)])),
}
