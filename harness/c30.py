"""C30: any sequence of operations leaves a mesh whose books balance.

The operations and their options are inputs: every sequence of the given length is
explored, and for each of them the sizes, curvature and parameters are unknowns."""

from itertools import product

from .c06 import kept
from .common import bookkeeping, dist2, face_centre, get_bc, set_bc

TRANSFORMS = ("map", "map_straight", "rotate", "extrude_p", "extrude_w", "extrude_n", "refine")


class State:
    def __init__(self, env, nx, ny, sides, nbc, internal=True, w=None):
        self.env, self.nbc, self.sides, self.ny = env, nbc, sides, ny
        self.w = env.real("w", 0.5, 2.0) if w is None else w
        self.step, self.history, self.merges, self.nx = 0, [], 0, nx
        if sides == "circle":
            # the mesh of a disc; what is merged later is a box that does not touch it
            self.d = env.mod("meshtools").gen_circle(self.w, 0.6 * self.w, 1, 1, bl_fun=lambda x: x, curvature_fun=lambda x: x, bc=["W", "t"][:nbc], var=self.fields(), internal_bcs=internal)
            self.sides, self.nx = ("W",) * 4, 30
        else:
            self.d = self.box(0, nx, internal)

    def fields(self):
        return [2, 2, 1, 0, 0] if self.nbc == 1 else [2, 2, 1, 1, 0] if self.nbc == 2 else [2, 0, 1, 0, 0]

    def box(self, i, n, internal):
        """columns i to i + n of the rectangle"""
        m = self.env.mod("meshtools")
        kw = {}
        for side, s in zip(("xmin", "xmax", "ymin", "ymax"), self.sides):
            kw["bcs_" + side] = [s] * self.nbc if isinstance(s, str) else list(s)[: self.nbc]
        return m.gen_box(n, self.ny, i * self.w, (i + n) * self.w, 0.0, float(self.ny), var=self.fields(), internal_bcs=internal, **kw)

    def transform(self, op, d):
        m = self.env.mod("meshtools")
        if op.startswith("map"):
            straight = op == "map_straight"
            return m.map2D(d, lambda x, y: (2.0 * x + 0.25 * y, 1.5 * y), curvature=not straight, boundary_curvature=not straight)
        if op == "rotate":
            m.rotate_2d(d, 0.5, -0.25, 0.5)
            return d
        if op == "extrude_p":
            return m.extrude(d, [0.0, 1.0, 2.5])
        if op == "extrude_w":
            return m.extrude(d, [0.0, 1.0], bc1=["W", "t"][: self.nbc], bc2=["O", "O"][: self.nbc])
        if op == "refine":
            # splits the second of three columns (the map changes x to 2 x + y / 4)
            def right(x, y, p):
                return x - p

            w = self.w * (2.0 if any(t.startswith("map") for t in self.history[:-1]) else 1.0)
            h = 0.125 if w is not self.w else 0.0
            return m.extrude_refine(d, [0.0, 0.5, 1.0, 1.75, 2.5], fun=[right], funpar=[1.5 * w + h])
        return m.extrude(d, [-1.0, 0.5], bc1=["W", "t"][: self.nbc], bc2=["O", "O"][: self.nbc], internal_bcs=False)

    def curve(self, e, edge):
        el = self.d.elem[e]
        el.ccurv[edge] = self.env.string("ccurv", ["", "m", "C"])
        for j in range(3):
            el.curv[edge, j] = self.env.real(f"curv{j}", 2.0, 5.0) if j < 2 else 0.0
        self.d.update_ncurv()

    def apply(self, op):
        env, d = self.env, self.d
        m = env.mod("meshtools")
        self.step += 1
        if op in TRANSFORMS:
            self.history.append(op)
            self.d = self.transform(op, d)
        elif op == "merge":
            other = self.box(self.nx + self.merges, 1, True)
            for t in self.history:
                other = self.transform(t, other)
            self.merges += 1
            d.merge(other)
        elif op == "merge_far":
            other = self.box(self.nx + 40 + self.merges, 1, True)
            for t in self.history:
                other = self.transform(t, other)
            d.merge(other, ignore_empty=False)
        elif op == "keep_first":
            m.keep_elements(d, list(range(d.nel - 1)), "con")
        elif op == "keep_some":
            m.keep_elements(d, [i for i in range(d.nel - 1, -1, -1) if i != 1], "W")
        elif op == "keep_all":
            m.keep_elements(d, list(range(d.nel)))
        elif op == "curve_up":
            # upright edges
            d.elem[1].ccurv[8 + d.nel % 4] = "s"
            d.elem[1].curv[8 + d.nel % 4, 0] = 3.0
            d.elem[-1].ccurv[9] = env.string("upright", ["", "m"])
            d.elem[-1].curv[9, :3] = 0.25
            d.update_ncurv()
        elif op == "delete":
            m.delete_internal_bcs(d)
        elif op == "generate":
            m.generate_internal_bcs(d)
        else:
            raise KeyError(op)


def balanced(env, d, L, outer=True):
    bookkeeping(env, d, L, data=True)
    nf = 2 * d.ndim
    for ie, el in enumerate(d.elem):
        for b, f in product(range(d.nbc), range(nf)):
            bc = get_bc(el, b, f)
            where = f"{L}: face {f + 1} of element {ie + 1} in field {b}"
            if bc[0] != "":
                env.eq(where + " names its own element and face", [bc[1], bc[2]], [ie + 1, f + 1])
            if bc[0] == "E" or bc[0] == "P":
                g, h = env.conc_int(bc[3]), env.conc_int(bc[4])
                other = get_bc(d.elem[g - 1], b, h - 1)
                env.eq(where + f" ({bc[0]}) is pointed back at", [other[0], other[3], other[4]], [bc[0], ie + 1, f + 1])


def joined(env, d, L):
    """what is connected touches"""
    nf = 2 * d.ndim
    for ie, el in enumerate(d.elem):
        for f in range(nf):
            bc = get_bc(el, 0, f) if d.nbc else [""]
            if bc[0] == "E":
                g, h = env.conc_int(bc[3]), env.conc_int(bc[4])
                p, q = face_centre(el, f, d.ndim), face_centre(d.elem[g - 1], h - 1, d.ndim)
                for i in range(3):
                    env.close(f"{L}: faces {f + 1} of {ie + 1} and {h} of {g} touch ({i})", p[i], q[i], 1e-6)


def stored(env, d):
    """the mesh survives an .re2 file"""
    m = env.mod("neksuite.mesh")
    d.var = [d.ndim, 0, 0, 0, 0]
    path = env.path("sequence.re2")
    m.writere2(path, d)
    r = m.readre2(path)
    env.eq("read back: sizes", [r.ndim, r.nel, len(r.elem)], [d.ndim, d.nel, d.nel])
    if d.nbc:
        kept(env, "read back: ", d, r, d.ndim, d.nel, d.nbc, True)


def run(env, ops, nx=2, ny=1, sides=("W", "O", "SYM", "W"), nbc=1, internal=True, curved=(0, 2), store=True, w=None):
    s = State(env, nx, ny, sides, nbc, internal, w)
    if curved:
        s.curve(*curved)
    balanced(env, s.d, "the start")
    done = []
    for k, choice in enumerate(ops):
        choice = [choice] if isinstance(choice, str) else [o for o in choice if s.d.ndim == 2 or not o.startswith(("map", "extrude", "refine"))]
        op = env.pick(f"op{k}", choice)
        done.append(op)
        s.apply(op)
        balanced(env, s.d, " ".join(done))
    joined(env, s.d, " ".join(done))
    if store:
        stored(env, s.d)


ANY = ("merge", "merge_far", "keep_first", "keep_some", "delete", "generate", "map", "map_straight", "rotate", "extrude_p", "extrude_w", "extrude_n")
LAST = ("merge", "keep_some", "generate", "extrude_p")
PER = dict(sides=("P", "P", "W", "SYM"), nbc=2, curved=(1, 0))
PERY = dict(sides=("W", "v", "P", "P"), ny=2, nbc=1, curved=(0, 1))
NONE = dict(nbc=0, curved=(0, 2))
NOGEN = tuple(o for o in ANY if o != "generate")
CIRC = ("merge", "keep_some", "keep_first", "delete", "generate", "map", "map_straight", "rotate", "extrude_p", "extrude_n")
LAST_C = ("merge", "keep_some", "generate", "map", "extrude_p")
SCENARIOS = {
    # without the internal connections that the generator can make
    "unconnected": (run, dict(ops=(ANY, ("generate", "merge", "extrude_w", "keep_some")), internal=False)),
    "no_fields": (run, dict(ops=(NOGEN, NOGEN), **NONE)),
    "circle": (run, dict(ops=(CIRC, CIRC), sides="circle", w=1.25, curved=None)),
    "circle_fields": (run, dict(ops=(CIRC, LAST_C), sides="circle", w=1.25, curved=None, nbc=2, internal=False)),
    "refined": (run, dict(ops=("refine", ("rotate", "delete", "generate", "keep_some", "merge_far"), ("rotate", "delete", "generate", "keep_first", "merge_far")), nx=3, w=1.0, curved=None)),
    "refined_later": (run, dict(ops=(("map_straight", "delete", "keep_all", "merge"), "refine", ("delete", "keep_some")), nx=3, w=1.0, curved=None)),
    "upright": (run, dict(ops=("extrude_w", "curve_up", ("keep_first", "keep_some", "merge", "delete", "rotate"), ("keep_all", "merge_far")))),
    "periodic_y": (run, dict(ops=(ANY, LAST), **PERY)),
}
for _o in ANY:
    SCENARIOS[f"{_o}_first"] = (run, dict(ops=(_o, ANY, LAST)))
    SCENARIOS[f"periodic_{_o}"] = (run, dict(ops=(_o, ANY), **PER))
    T = {"tier": "thorough", "cost": 5, "budget": 800}
    SCENARIOS[f"{_o}_of_four"] = (run, dict(ops=(_o, ANY, ANY, LAST), curved=None), T)
    SCENARIOS[f"{_o}_three"] = (run, dict(ops=(_o, ANY, LAST), nx=3, ny=2, nbc=2), T)
    SCENARIOS[f"periodic_{_o}_of_three"] = (run, dict(ops=(_o, ANY, ANY), **PER), T)
