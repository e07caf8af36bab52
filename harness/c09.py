"""C09: the writers leave the data they are given alone."""

from .c06 import CURV, bits_mesh
from .common import fill, hexa, mesh, perms, same_snapshot, set_bc, set_elmap, snapshot

RBC = ["", "E", "P", "W", "SYM", "v", "con"]


def twice(env, d, writer, exact=True):
    """two files written from the same data are the same, and the data does not change"""
    before = snapshot(env, d)
    p, q = env.path("one.f00001"), env.path("two.f00001")
    writer(p, d)
    same_snapshot(env, "after writing", before, snapshot(env, d))
    writer(q, d)
    same_snapshot(env, "after writing again", before, snapshot(env, d))
    if exact:
        env.check("the same file again", env.same_cells(env.read(p), env.read(q)))


def field(env, ndim, lr1, nel, var, wdsz, mem):
    d = hexa(env, ndim, nel, list(lr1), list(var), 0, "float64" if mem == 64 else "float32")
    fill(env, d, mem)
    d.wdsz = wdsz
    d.endian = env.pick("endian", ("little", "big"))
    set_elmap(env, d, env.pick("elmap", perms(nel)))
    d.time = env.real("time", -1e6, 1e6)
    d.istep = env.int("istep", 0, 1000)
    twice(env, d, env.mod("neksuite.field").writenek, exact=ndim == 2)


def field_with_conditions(env):
    """a field that also carries a mesh's conditions and curvature"""
    d = hexa(env, 3, 2, [2, 2, 2], [3, 3, 0, 0, 0], 1)
    for ie, el in enumerate(d.elem):
        el.pos[...] = env.arr(env.bits(f"pos{ie}", (3, 2, 2, 2)), "float64")
        set_bc(el, 0, 0, env.string(f"t{ie}", RBC), ie + 1, 1)
        el.ccurv[ie] = env.string(f"c{ie}", CURV)
        el.curv[ie, 0] = env.bit(f"r{ie}")
    twice(env, d, env.mod("neksuite.field").writenek, exact=False)


def re2(env, stale=False, **k):
    d = bits_mesh(env, **k)
    if stale:
        # a count that is out of date, and other settings of any kind
        d.ncurv = env.int("count", 0, 30)
        d.istep = env.int("istep", 0, 1000)
        d.wdsz = env.pick("wdsz", (4, 8))
        set_elmap(env, d, env.pick("elmap", perms(d.nel)[-2:]))
    d.endian = env.pick("endian", ("little", "big"))
    d.time = env.real("time", 0.0, 10.0)
    twice(env, d, env.mod("neksuite.mesh").writere2)


def rea(env, ndim, nel, nbc, faces, edges, stale=False):
    d = mesh(env, ndim, nel, nbc)
    for ie, el in enumerate(d.elem):
        el.pos[0:ndim, ...] = env.reals(f"p{ie}", (ndim, ndim - 1, 2, 2), 0.5, 90.0)
        for ib in range(nbc):
            for f in range(2 * ndim):
                set_bc(el, ib, f, env.string(f"t{ie}_{ib}_{f}", RBC if (ie, ib, f) == faces[0] else RBC[:3]) if (ie, ib, f) in faces else "W", ie + 1, f + 1)
                if (ie, ib, f) in faces:
                    for j in range(5):
                        el.bcs[ib, f][3 + j] = env.real(f"q{ie}_{ib}_{f}_{j}", 0.5, 90.0)
    for ie, f in edges:
        el = d.elem[ie]
        el.ccurv[f] = env.string(f"c{ie}_{f}", CURV)
        el.curv[f, 0] = env.real(f"r{ie}_{f}", 0.5, 90.0)
    if not stale:
        d.update_ncurv()
    else:
        d.ncurv = env.int("count", 0, 30)
        d.endian = env.pick("endian", ("little", "big", "unknown"))
    set_elmap(env, d, env.pick("elmap", perms(nel)[-2:]))
    twice(env, d, env.mod("neksuite.mesh").writerea, exact=False)


V = (3, 3, 1, 1, 2)
SCENARIOS = {}
for _w in (4, 8):
    for _m in (32, 64):
        SCENARIOS[f"field_3d_{_w}_{_m}"] = (field, dict(ndim=3, lr1=(2, 3, 2), nel=2, var=V, wdsz=_w, mem=_m))
        SCENARIOS[f"field_2d_{_w}_{_m}"] = (field, dict(ndim=2, lr1=(3, 2, 1), nel=2, var=(2, 2, 1, 1, 1), wdsz=_w, mem=_m))
SCENARIOS.update({
    "field_three": (field, dict(ndim=3, lr1=(2, 2, 2), nel=3, var=(0, 3, 0, 0, 0), wdsz=4, mem=64)),
    "field_conditions": (field_with_conditions, {}),
    "re2_2d": (re2, dict(ndim=2, nel=2, nbc=1, sym_faces=[(0, 0, 0), (1, 0, 3)], sym_edges=[(0, 1)])),
    "re2_3d": (re2, dict(ndim=3, nel=1, nbc=2, sym_faces=[(0, 0, 5), (0, 1, 4)], sym_edges=[(0, 11)])),
    "re2_single": (re2, dict(ndim=3, nel=2, nbc=1, dtype="float32", sym_faces=[(0, 0, 5)], sym_edges=[(1, 2)])),
    "re2_none": (re2, dict(ndim=2, nel=2, nbc=0, sym_edges=[(0, 0), (1, 3)])),
    "rea_2d": (rea, dict(ndim=2, nel=2, nbc=1, faces=[(0, 0, 0), (1, 0, 3)], edges=[(0, 1)])),
    "rea_3d": (rea, dict(ndim=3, nel=2, nbc=1, faces=[(0, 0, 5), (1, 0, 4)], edges=[(1, 9)])),
    "rea_fields": (rea, dict(ndim=2, nel=1, nbc=3, faces=[(0, 0, 0), (0, 1, 1), (0, 2, 2)], edges=[])),
    "rea_stale": (rea, dict(ndim=2, nel=2, nbc=1, faces=[], edges=[(0, 0), (1, 3)], stale=True)),
    "re2_stale": (re2, dict(ndim=2, nel=2, nbc=1, sym_faces=[], sym_edges=[(1, 3)], stale=True)),
    "re2_stale_3d": (re2, dict(ndim=3, nel=2, nbc=2, sym_faces=[], sym_edges=[(1, 11)], stale=True)),
    "rea_none": (rea, dict(ndim=2, nel=2, nbc=0, faces=[], edges=[(0, 0)])),
})


def grid(env, ndim, lr1, var, down):
    """the VTK grid of a field (what the file would hold is checked by C15)"""
    from vsym.stubs import WRITTEN

    d = hexa(env, ndim, 2, list(lr1), list(var))
    fill(env, d)
    set_elmap(env, d, env.pick("elmap", perms(2)))
    d.time = env.real("time", -1e6, 1e6)
    before = snapshot(env, d)
    vtk = env.mod("vtksuite")
    if down:
        vtk.hexa2vtk(d, True)
        same_snapshot(env, "after converting", before, snapshot(env, d))
    del WRITTEN[:]
    vtk.writevtk("field.vtp", d)
    same_snapshot(env, "after writing", before, snapshot(env, d))
    vtk.writevtk("other.f00001", d)
    same_snapshot(env, "after writing again", before, snapshot(env, d))
    (a, _), (b, _) = WRITTEN
    for name, x, y in [("points", a.points, b.points)] + [(v.name, v.data, w.data) for v, w in zip(a.point_data.arrays, b.point_data.arrays)]:
        env.eq(f"the same {name} again", list(x.reshape(-1)), list(y.reshape(-1)))


SCENARIOS.update({
    "vtk_3d": (grid, dict(ndim=3, lr1=(2, 2, 2), var=V, down=False)),
    "vtk_3d_down": (grid, dict(ndim=3, lr1=(3, 3, 3), var=(3, 3, 1, 0, 1), down=True)),
    "vtk_2d": (grid, dict(ndim=2, lr1=(3, 2, 1), var=(2, 2, 1, 1, 1), down=True)),
})
SCENARIOS["re2_many"] = (re2, dict(ndim=3, nel=7, nbc=2, sym_faces=[], sym_edges=[(6, 11)]))
SCENARIOS["rea_many"] = (rea, dict(ndim=2, nel=7, nbc=2, faces=[(6, 1, 3)], edges=[(5, 2)]))
SCENARIOS["field_many"] = (field, dict(ndim=3, lr1=(2, 2, 2), nel=3, var=(3, 3, 1, 1, 11), wdsz=8, mem=64))
