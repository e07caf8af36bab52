"""C23: extruding a 2D mesh stacks one copy of it per layer, with matching conditions and curvature."""

from .boxes import grid
from .common import bookkeeping, get_bc, perms, same_snapshot, set_bc, set_elmap, snapshot, vertex


def flat_mesh(env, n, nbc, periodic=(), curved=(), free=(), inner=True, maps=False, types=("E", "P", "W", "v", "")):
    """a 2D mesh with arbitrary vertices"""
    d = grid(env, *n, nbc=nbc, periodic=periodic, inner=inner)
    for e, el in enumerate(d.elem):
        el.pos[0:2, ...] = env.arr(env.reals(f"p{e}", (2, 1, 2, 2), -50.0, 50.0))
    for e, edge in curved:
        el = d.elem[e]
        el.ccurv[edge] = env.string(f"c{e}_{edge}", ["", "m", "C"])
        for j in range(5):
            el.curv[edge, j] = env.real(f"cv{e}_{edge}_{j}")
    for b, e, f in free:
        set_bc(d.elem[e], b, f, env.string(f"t{b}_{e}_{f}", list(types)), e + 1, f + 1, env.int(f"g{b}_{e}_{f}", 1, d.nel), env.int(f"h{b}_{e}_{f}", 1, 4))
        for i in range(3):
            d.elem[e].bcs[b, f][5 + i] = env.real(f"x{b}_{e}_{f}_{i}")
    d.update_ncurv()
    if maps:
        set_elmap(env, d, env.pick("map", perms(d.nel)))
    return d


def heights(env, nz):
    z = [env.real("z0", -10.0, 10.0)]
    for k in range(nz):
        z.append(z[-1] + env.real(f"dz{k}", 0.01, 5.0))
    return z


def layers(env, before, r, z, bc1, bc2, internal, nbc):
    """what the extruded mesh must be"""
    nz, nel2 = len(z) - 1, before["meta"][1]
    env.eq("three dimensions", [r.ndim, list(r.lr1), list(r.var)], [3, [2, 2, 2], [3, 0, 0, 0, 0]])
    env.eq("number of elements", r.nel, nel2 * nz)
    env.eq("number of condition fields", r.nbc, nbc)
    env.eq("other metadata", [r.time, r.istep, r.wdsz, r.endian], before["meta"][6:])
    bookkeeping(env, r, own_index=False, data=True)
    for k in range(nz):
        for i in range(nel2):
            e = k * nel2 + i
            el, src = r.elem[e], before["elem"][i]
            L = f"element {e + 1}: "
            env.eq(L + "shape", tuple(el.pos.shape), (3, 2, 2, 2))
            xy = src["pos"]  # (3, 1, 2, 2) raveled
            for v in range(8):
                iv = v % 4
                at = {0: 0, 1: 1, 2: 3, 3: 2}[iv]
                env.eq(L + f"vertex {v + 1}", vertex(el, v), [xy[at], xy[4 + at], z[k + v // 4]])
            cv, cc = src["curv"], src["ccurv"]
            for edge in range(12):
                got = [el.curv[edge, j] for j in range(5)]
                if edge >= 8:
                    env.eq(L + f"edge {edge + 1} is straight", el.ccurv[edge], "")
                    continue
                t = cc[edge % 4]
                env.eq(L + f"curvature of edge {edge + 1}", el.ccurv[edge], t)
                par = cv[5 * (edge % 4) : 5 * (edge % 4) + 5]
                env.check(L + f"parameters of edge {edge + 1}", env.any([
                    t == "",
                    env.all([t == "C"] + [env.equal(x, y) for x, y in zip(got, par)]),
                    env.all([t == "m", got[0] == par[0], got[1] == par[1], got[2] == z[k + edge // 4]])]))
            for b in range(nbc):
                for f in range(4):
                    old, got = src["bcs"][b][f], get_bc(el, b, f)
                    L2 = L + f"condition {b} of face {f + 1}: "
                    drop = env.all([old[0] == "E"] + ([False] if internal else []))
                    linked = env.any([old[0] == "E", old[0] == "P"])
                    copy = env.all([env.equal(got[0], old[0]), got[1] == e + 1, got[2] == f + 1, env.any([env.all([linked, got[3] == old[3] + k * nel2]), env.all([env.not_(linked), got[3] == old[3]])]), got[4] == old[4]] + [env.equal(x, y) for x, y in zip(got[5:], old[5:])])
                    if internal:
                        env.check(L2 + "that of the original", env.any([copy, env.all([old[0] == "", got[0] == ""])]))
                    else:
                        env.check(L2 + "that of the original, without internal ones", env.any([env.all([drop, got[0] == ""]), env.all([old[0] == "", got[0] == ""]), env.all([env.not_(drop), copy])]))
                for f, up in ((4, -1), (5, 1)):
                    got = get_bc(el, b, f)
                    L2 = L + f"condition {b} of face {f + 1}: "
                    other = 10 - f + 0  # 1-based number of the opposite face
                    if 0 <= k + up < nz:
                        if internal:
                            env.eq(L2 + "next layer", got[:5], ["E", e + 1, f + 1, e + up * nel2 + 1, other])
                        else:
                            env.eq(L2 + "nothing", got[0], "")
                    else:
                        t = (bc1 if up < 0 else bc2)[b]
                        env.eq(L2 + "type", got[0], t)
                        env.eq(L2 + "own numbers", got[1:3], [e + 1, f + 1])
                        env.eq(L2 + "partner", got[3:5], [i + 1 + (nz - 1) * nel2 if up < 0 else i + 1, other] if t == "P" else [0, 0])


ENDS = [(None, None), (["P"], ["P"]), (["W"], ["O"]), (["v"], ["SYM"])]


def extrude(env, n, nz, nbc=1, ends=ENDS[:1], internal=(True,), **k):
    d = flat_mesh(env, n, nbc, **k)
    z = heights(env, nz)
    bc1, bc2 = env.pick("ends", ends)
    if bc1 is not None and len(bc1) != nbc:
        bc1, bc2 = bc1 * nbc, bc2 * nbc
    inner = env.pick("internal", internal)
    before = snapshot(env, d)
    zs = list(z)
    kw = {} if inner else {"internal_bcs": False}
    if bc1 is not None:
        kw.update(bc1=bc1, bc2=bc2)
    r = env.mod("meshtools").extrude(d, z, **kw)
    same_snapshot(env, "the 2D mesh is unchanged", before, snapshot(env, d))
    env.eq("the heights are unchanged", z, zs)
    p = ["P"] * nbc
    layers(env, before, r, z, bc1 or p, bc2 or p, inner, nbc)
    for el in r.elem:
        env.check("no element is shared with the 2D mesh", all(el is not x for x in d.elem))
    # the arrays are not shared either
    r.elem[0].pos[0, 0, 0, 0] = 1234.0
    for b in range(nbc):
        set_bc(r.elem[0], b, 0, "X", 7, 7, 7, 7)
    r.elem[0].curv[0, 0] = 1234.0
    same_snapshot(env, "nothing is shared with the 2D mesh", before, snapshot(env, d))


def refuse(env, what):
    m = env.mod("meshtools")
    d = flat_mesh(env, (2, 1), 1)
    kw = {}
    if what == "3d":
        d = m.extrude(d, [0.0, 1.0])
    elif what == "order":
        d = env.mod("core").HexaData(2, 1, [3, 3, 1], [2, 0, 0, 0, 0], 1)
    elif what == "geometry":
        d = env.mod("core").HexaData(2, 1, [2, 2, 1], [0, 2, 0, 0, 0], 1)
    else:
        ends = env.pick("ends", [(["P"], ["W"]), (["W"], ["P"]), (None, ["W"]), (["W"], None)])
        kw = {k: v for k, v in zip(("bc1", "bc2"), ends) if v is not None}
    env.check("refused", env.raises(ValueError, lambda: m.extrude(d, [0.0, 1.0, 3.0], **kw)) is not None)


def extruded_box(env, n, nz, nbc, periodic):
    """extruding a sound mesh gives a sound mesh"""
    crd = [[0.0], [0.0]]
    for i in range(2):
        for k in range(n[i]):
            crd[i].append(crd[i][-1] + env.real(f"d{i}_{k}", 0.5, 2.0))
    d = grid(env, *n, nbc=nbc, xs=crd[0], ys=crd[1], periodic=periodic)
    r = env.mod("meshtools").extrude(d, [0.5 * k for k in range(nz + 1)], ["W"] * nbc, ["v"] * nbc)
    bookkeeping(env, r, data=True)
    env.check("connected", r.check_connectivity())
    env.check("complete", r.check_bcs_present())


SCENARIOS = {
    "one": (extrude, dict(n=(1, 1), nz=1, ends=ENDS, internal=(True, False))),
    "layers": (extrude, dict(n=(1, 1), nz=3, ends=ENDS, internal=(True, False), periodic=(0,))),
    "row": (extrude, dict(n=(2, 1), nz=2, ends=ENDS, internal=(True, False), periodic=(1,))),
    "square": (extrude, dict(n=(2, 2), nz=2, internal=(True, False))),
    "free": (extrude, dict(n=(2, 1), nz=2, free=[(0, 0, 1), (0, 1, 2)], internal=(True, False))),
    "free_fields": (extrude, dict(n=(2, 1), nz=2, nbc=2, free=[(1, 1, 3), (0, 0, 0)], ends=ENDS[1:3], internal=(True, False))),
    "mixed_ends": (extrude, dict(n=(1, 1), nz=2, nbc=3, ends=[(["P", "W", "t"], ["P", "O", "I"])], internal=(True, False))),
    "no_fields": (extrude, dict(n=(2, 1), nz=2, nbc=0, internal=(True, False))),
    "curved": (extrude, dict(n=(1, 1), nz=2, curved=[(0, 0), (0, 1), (0, 2), (0, 3)])),
    "curved_two": (extrude, dict(n=(2, 1), nz=3, curved=[(0, 1), (1, 3)], internal=(False,))),
    "maps": (extrude, dict(n=(3, 1), nz=2, maps=True)),
    "no_inner": (extrude, dict(n=(2, 1), nz=2, inner=False)),
    "refuse_3d": (refuse, dict(what="3d")),
    "refuse_order": (refuse, dict(what="order")),
    "refuse_geometry": (refuse, dict(what="geometry")),
    "refuse_ends": (refuse, dict(what="ends")),
    "sound": (extruded_box, dict(n=(2, 2), nz=2, nbc=1, periodic=(0,))),
    "sound_fields": (extruded_box, dict(n=(2, 1), nz=3, nbc=2, periodic=(1,))),
    "big": (extrude, dict(n=(3, 3), nz=4, ends=ENDS, internal=(True, False), periodic=(0, 1)), {"cost": 5}),
    "curved_all": (extrude, dict(n=(2, 1), nz=2, curved=[(e, i) for e in range(2) for i in range(4)][:6]), {"tier": "thorough", "cost": 9}),
    "free_four": (extrude, dict(n=(2, 1), nz=2, free=[(0, 0, 1), (0, 1, 2), (0, 0, 0), (0, 1, 3)]), {"cost": 9}),
}
SCENARIOS["twelve"] = (extrude, dict(n=(4, 3), nz=5, free=[(0, 11, 3)], internal=(True, False), periodic=(1,)))
SCENARIOS["hundreds"] = (extrude, dict(n=(10, 10), nz=3, free=[(0, 99, 3)], internal=(True, False), periodic=(1,)), {"cost": 4})
SCENARIOS["hundreds_curved"] = (extrude, dict(n=(10, 10), nz=2, curved=[(99, 2), (0, 1)]), {"cost": 4})
