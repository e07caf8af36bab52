"""What a harness sees.  The same harness function runs in two worlds:

* SymEnv: inputs are solver variables, pymech is the symbolic-execution copy of
  the repository source, files are virtual; `check` registers an assertion.
* ConcEnv: inputs come from a dictionary (a solver model), pymech is the real
  package, files are real files in a scratch directory; `check` is evaluated.
"""

import importlib
import math
import os
import struct
import sys

import numpy as np

FMT_SIZE = {"d": 8, "f": 4, "i": 4, "q": 8}


class CheckFailed(Exception):
    pass


class AssumptionFailed(BaseException):
    pass


class Cut:
    """stands for a mesh of n elements of which only the first few exist: every
    loop over n counts to `visited` instead"""

    def __init__(self, n, visited):
        self.n, self.visited = n, visited

    def range(self, a):
        if all(isinstance(x, (int, np.integer)) for x in a) and self.n in a:
            return range(*[self.visited if x == self.n else x for x in a])
        return None


class _Base:
    """helpers common to both worlds"""

    def mod(self, name):
        return importlib.import_module("pymech." + name)

    def pick(self, name, seq):
        """one element of a concrete sequence: every element is explored"""
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        i = self.int(name, 0, len(seq) - 1)
        return seq[self.conc_int(i)]

    def flag(self, name):
        return self.pick(name, [False, True])

    def reals(self, name, shape, lo=-100.0, hi=100.0):
        """array of independent reals"""
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(shape):
            a[ix] = self.real(name + "".join(f"_{i}" for i in ix), lo, hi)
        return a

    def bits(self, name, shape, w=64, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(shape):
            a[ix] = self.bit(name + "".join(f"_{i}" for i in ix), w, **k)
        return a

    def scalars_cells(self, values, code, big=False):
        out = []
        for v in values:
            out += self.cells(v, code, big)
        return out


class Scoped(_Base):
    """an environment whose inputs and labels carry a tag, so that scenarios can follow one another"""

    def __init__(self, env, tag):
        self.env, self.tag = env, tag

    def __getattr__(self, name):
        return getattr(self.env, name)

    def real(self, name, *a, **k):
        return self.env.real(self.tag + name, *a, **k)

    def angle(self, name, *a, **k):
        return self.env.angle(self.tag + name, *a, **k)

    def int(self, name, *a, **k):
        return self.env.int(self.tag + name, *a, **k)

    def bit(self, name, *a, **k):
        return self.env.bit(self.tag + name, *a, **k)

    def string(self, name, *a, **k):
        return self.env.string(self.tag + name, *a, **k)

    def chars(self, name, *a, **k):
        return self.env.chars(self.tag + name, *a, **k)

    def check(self, label, *a, **k):
        return self.env.check(f"{self.tag}: {label}", *a, **k)

    def eq(self, label, *a, **k):
        return self.env.eq(f"{self.tag}: {label}", *a, **k)

    def close(self, label, *a, **k):
        return self.env.close(f"{self.tag}: {label}", *a, **k)


class SymEnv(_Base):
    sym = True

    def __init__(self, c):
        from . import arrays, core, files, npfuncs, shims

        self.c = c
        self.core, self.arrays, self.files = core, arrays, files
        self.np = shims.MODULES["numpy"]
        self.math = shims.math_shim

    # -- inputs -----------------------------------------------------------
    def _in(self, name, kind, term, extra=None):
        if name in self.c.inputs:
            raise RuntimeError("duplicate input " + name)
        self.c.inputs[name] = (kind, term, extra)

    def real(self, name, lo=-100.0, hi=100.0):
        import z3

        t = z3.Real(name)
        self._in(name, "real", t, (lo, hi))
        if lo is not None:
            self.c.assert_(t >= self.core.qval(lo))
        if hi is not None:
            self.c.assert_(t <= self.core.qval(hi))
        return self.core.SReal(t)

    def angle(self, name):
        """any angle, with its cosine and sine"""
        import z3

        c, s = self.real(name + "_c", -1.0, 1.0), self.real(name + "_s", -1.0, 1.0)
        self.c.assert_(c.t * c.t + s.t * s.t == 1)
        t = z3.Real(self.c.fresh(name))
        self.c.memo[("trig", t.get_id())] = (t, (c.t, s.t))
        return self.core.SReal(t), c, s

    def int(self, name, lo, hi):
        import z3

        t = z3.Int(name)
        self._in(name, "int", t, (lo, hi))
        self.c.assert_(t >= lo)
        self.c.assert_(t <= hi)
        return self.core.SInt(t)

    def bit(self, name, w=64, finite=False, nonan=False):
        import z3

        t = z3.BitVec(name, w)
        self._in(name, f"bits{w}", t)
        e, m = (11, 52) if w == 64 else (8, 23)
        exp = z3.Extract(m + e - 1, m, t)
        full = z3.BitVecVal((1 << e) - 1, e)
        if finite:
            self.c.assert_(exp != full)
        elif nonan:
            self.c.assert_(z3.Or(exp != full, z3.Extract(m - 1, 0, t) == 0))
        return self.core.SBits(t, w)

    def string(self, name, table):
        import z3

        if len(table) == 1:
            return table[0]
        t = z3.Int(name)
        self._in(name, "str", t, (0, len(table) - 1))
        self.c.assert_(t >= 0)
        self.c.assert_(t < len(table))
        return self.core.SStr(t, table)

    def chars(self, name, n):
        """any string of n characters"""
        from .chars import CharStr

        codes = []
        for i in range(n):
            t = self.int(f"{name}_{i}", 1, 0x10FFFF).t
            self.c.assert_(self.core.z3.Or(t < 0xD800, t > 0xDFFF))
            codes.append(t)
        return CharStr(codes) if codes else ""

    def codes(self, s):
        from .chars import codes_of

        return [self.core.SInt(c) if not isinstance(c, int) else c for c in codes_of(s)]

    def conc_int(self, i):
        return i.__index__() if isinstance(i, self.core.Sym) else int(i)

    # -- logic ------------------------------------------------------------
    def assume(self, cond):
        self.c.assume(cond if isinstance(cond, self.core.SBool) else bool(cond) if not isinstance(cond, self.arrays.SymArray) else self.all([cond]))

    def assume_that(self, *conds):
        for x in conds:
            self.assume(x)

    def all(self, conds):
        import z3

        return self.core.SBool(z3.And(*[self._zb(x) for x in conds] or [z3.BoolVal(True)]))

    def any(self, conds):
        import z3

        return self.core.SBool(z3.Or(*[self._zb(x) for x in conds] or [z3.BoolVal(False)]))

    def not_(self, c):
        import z3

        return self.core.SBool(z3.Not(self._zb(c)))

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def ite(self, c, a, b):
        return self.core.ite(c, a, b)

    def _zb(self, x):
        if isinstance(x, self.arrays.SymArray):
            import z3

            return z3.And(*[self.core.zb(e) for e in x.ravel_raw()])
        return self.core.zb(x)

    def check(self, label, cond, strong=None):
        self.c.add_check(label, self._zb(cond), None if strong is None else self._zb(strong))

    def eq(self, label, a, b):
        """exact equality of values (numbers, strings, arrays)"""
        self.check(label, self.equal(a, b))

    def equal(self, a, b):
        import z3

        S = self.core
        aa, ba = isinstance(a, (list, tuple, np.ndarray)), isinstance(b, (list, tuple, np.ndarray))
        if aa and ba:
            la, lb = flat(a), flat(b)
            if len(la) != len(lb):
                return False
            return self.all([self.equal(x, y) for x, y in zip(la, lb)])
        if isinstance(a, S.SBits) or isinstance(b, S.SBits):
            if isinstance(a, (S.SReal, S.SInt)) or isinstance(b, (S.SReal, S.SInt)):
                return a == b
            a, b = S.SBits.unify(a, b)
            return S.SBool(a.bv == b.bv)
        if isinstance(a, np.floating) and type(b) in (int, float):
            # not in the precision of the numpy scalar
            return float(a) == b
        if isinstance(b, np.floating) and type(a) in (int, float):
            return a == float(b)
        r = a == b
        if r is NotImplemented:
            return False
        return r

    def close(self, label, a, b, tol=1e-9):
        """equality up to rounding: |a-b| <= tol (tol absolute)"""
        for i, (x, y) in enumerate(zip(flat(a), flat(b), strict=True)):
            if isinstance(x, np.floating) and isinstance(y, (float, int)):
                x, y = float(x), float(y)
            d = x - y
            if not isinstance(d, self.core.Sym):
                self.check(label, bool(abs(d) <= tol))
                continue
            ok = self.core.SBool
            import z3

            t = self.core.zr(d)
            q = self.core.qval(tol)
            s = self.core.qval(max(tol * 1000, 1e-3))
            self.c.add_check(label, z3.And(t <= q, t >= -q), z3.And(t <= s, t >= -s), exact=(t == 0))

    def raises(self, exc, fn):
        try:
            fn()
        except exc as e:
            return e
        return None

    # -- arrays -----------------------------------------------------------
    def arr(self, v, dtype="float64"):
        return self.arrays.SymArray.from_obj(v, self.arrays.norm_dtype(dtype))

    def f32(self, v):
        return self.arrays.coerce_scalar(v, np.dtype("f4"))

    def f64(self, v):
        return self.arrays.coerce_scalar(v, np.dtype("f8"))

    def huge(self, n, visited):
        self.c.sparse = Cut(n, visited)

    def logs(self, limit, free=0, lo=0.0, hi=0.0):
        """leave a path after so many logarithms of symbolic values; the first `free` of them
        are any number between lo and hi, standing for any earlier history of a loop"""
        self.c.logs = (limit, free, lo, hi)

    # -- files ------------------------------------------------------------
    def Path(self, s):
        from . import shims

        return shims.pathlib_shim.Path(s)

    def path(self, name):
        return "/scratch/" + name

    def cells(self, v, code, big=False):
        S = self.core
        if isinstance(v, S.Sym):
            if isinstance(v, S.SBits):
                v = v.cast(32 if code == "f" else 64)
            elif isinstance(v, S.SInt) and code in "fd":
                v = S.SReal(i=v.t)
            c = [(v, code, i) for i in range(FMT_SIZE[code])]
        else:
            c = list(struct.pack("<" + code, v))
        return c[::-1] if big else c

    def text_cells(self, s):
        return self.files.as_cells(self.files.encode_text(s))

    def write(self, path, cells):
        self.files.VFS[path] = list(cells)

    def read(self, path):
        v = self.files.VFS[path]
        if isinstance(v, str):
            return self.text_cells(v)
        return list(v)

    def write_text(self, path, s):
        self.files.VFS[path] = s

    def exists(self, path):
        return path in self.files.VFS

    def text(self, path):
        from . import files

        v = self.files.VFS[path]
        return v if isinstance(v, str) else files.decode_cells(v)

    def parse_int(self, s):
        from . import text

        return text.parse_int(s) if text.has_tokens(s) else int(s)

    def parse_float(self, s):
        from . import text

        return text.parse_float(s) if text.has_tokens(s) else float(s)

    def limit(self, path, n):
        """the file is cut after n bytes"""
        self.files.VFS_LIMIT[path] = n

    def size(self, path):
        return len(self.read(path))

    def same_cells(self, a, b):
        if len(a) != len(b):
            return False
        import z3

        return self.core.SBool(z3.And(*[self.files.cells_equal(x, y) for x, y in zip(a, b)]))

    def num(self, cells, code, big=False):
        """value of cells decoded as a struct code"""
        return self.files.read_scalar(list(cells), "f" if code in "fd" else "i", FMT_SIZE[code], big)


class ConcEnv(_Base):
    sym = False

    def __init__(self, values, scratch):
        self.values = values
        self.scratch = scratch
        self.np = np
        self.math = math
        self.failures = []
        self.nchecks = 0
        self.undo = []

    def _v(self, name):
        if name not in self.values:
            raise AssumptionFailed(f"no value for input {name}")
        return self.values[name]

    def real(self, name, lo=-100.0, hi=100.0):
        return np.float64(self._v(name))

    def angle(self, name):
        t = np.arctan2(self.real(name + "_s"), self.real(name + "_c"))
        return t, np.cos(t), np.sin(t)

    def int(self, name, lo, hi):
        return int(self._v(name))

    def bit(self, name, w=64, finite=False, nonan=False):
        u = int(self._v(name))
        return np.array([u], dtype=f"u{w // 8}").view(f"f{w // 8}")[0]

    def string(self, name, table):
        return table[0] if len(table) == 1 else table[int(self._v(name))]

    def chars(self, name, n):
        return "".join(chr(self.int(f"{name}_{i}", 1, 0x10FFFF)) for i in range(n))

    def codes(self, s):
        return [ord(c) for c in s]

    def conc_int(self, i):
        return int(i)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise AssumptionFailed("assumption does not hold")

    def assume_that(self, *conds):
        for x in conds:
            self.assume(x)

    def all(self, conds):
        return all(bool(np.all(x)) for x in conds)

    def any(self, conds):
        return any(bool(np.all(x)) for x in conds)

    def not_(self, c):
        return not bool(np.all(c))

    def implies(self, a, b):
        return not bool(np.all(a)) or bool(np.all(b))

    def ite(self, c, a, b):
        return a if c else b

    def check(self, label, cond, strong=None):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self.failures.append(label)

    def eq(self, label, a, b):
        self.nchecks += 1
        if not self.equal(a, b):
            self.failures.append(f"{label}: got {short(a)}, expected {short(b)}")

    def equal(self, a, b):
        if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
            la, lb = flat(a), flat(b)
            return len(la) == len(lb) and all(self.equal(x, y) for x, y in zip(la, lb))
        if isinstance(a, np.floating) and isinstance(b, np.floating):
            if a.dtype != b.dtype:
                a, b = np.float64(a), np.float64(b)
            if np.isnan(a) and np.isnan(b):
                return bool(np.isnan(a) and np.isnan(b)) and a.tobytes() == b.tobytes()
            return a.tobytes() == b.tobytes() if (a == 0 and b == 0) else bool(a == b)
        if isinstance(a, np.floating) and type(b) in (int, float):
            # not in the precision of the numpy scalar
            return float(a) == b
        if isinstance(b, np.floating) and type(a) in (int, float):
            return a == float(b)
        return bool(np.all(a == b))

    def close(self, label, a, b, tol=1e-9):
        for x, y in zip(flat(a), flat(b), strict=True):
            self.nchecks += 1
            if isinstance(x, np.floating) and isinstance(y, (float, int, np.floating)):
                # not in the precision of the numpy scalar
                x, y = float(x), float(y)
            if not abs(x - y) <= tol:
                self.failures.append(f"{label}: got {x!r}, expected {y!r}")
                return

    def raises(self, exc, fn):
        try:
            fn()
        except exc as e:
            return e
        return None

    def arr(self, v, dtype="float64"):
        return np.array(v, dtype=dtype)

    def logs(self, limit, free=0, lo=0.0, hi=0.0):
        pass

    def huge(self, n, visited):
        """same substitution as in the symbolic world, made in the real modules"""
        import itertools

        cut = Cut(n, visited)

        def rng(*a):
            r = cut.range(a)
            return range(*a) if r is None else r

        def rep(x, *n):
            r = cut.range(n) if n else None
            return (x for _ in r) if r is not None else itertools.repeat(x, *n)

        for m in ("core", "neksuite.mesh", "neksuite.field"):
            m = self.mod(m)
            for name, f in (("range", rng), ("repeat", lambda n: rep(None, n))):
                if name == "repeat" and name not in vars(m):
                    continue
                had, old = name in vars(m), vars(m).get(name)
                setattr(m, name, f)
                self.undo.append(lambda m=m, name=name, had=had, old=old: setattr(m, name, old) if had else delattr(m, name))

    def f32(self, v):
        with np.errstate(all="ignore"):
            return np.float32(v)

    def f64(self, v):
        return np.float64(v)

    def Path(self, s):
        import pathlib

        return pathlib.Path(s)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def cells(self, v, code, big=False):
        dt = {"d": "f8", "f": "f4", "i": "i4", "q": "i8"}[code]
        with np.errstate(all="ignore"):
            return list(np.array(v).astype((">" if big else "<") + dt).tobytes())

    def text_cells(self, s):
        return list(s.encode())

    def write(self, path, cells):
        with open(path, "wb") as f:
            f.write(bytes(cells))

    def read(self, path):
        with open(path, "rb") as f:
            return list(f.read())

    def write_text(self, path, s):
        with open(path, "w", newline="") as f:
            f.write(s)

    def exists(self, path):
        return os.path.exists(path)

    def text(self, path):
        with open(path) as f:
            return f.read()

    def parse_int(self, s):
        return int(s)

    def parse_float(self, s):
        return float(s)

    def limit(self, path, n):
        with open(path, "r+b") as f:
            f.truncate(int(n))

    def size(self, path):
        return os.path.getsize(path)

    def same_cells(self, a, b):
        return list(a) == list(b)

    def num(self, cells, code, big=False):
        dt = {"d": "f8", "f": "f4", "i": "i4", "q": "i8"}[code]
        return np.frombuffer(bytes(cells), dtype=(">" if big else "<") + dt)[0]


def flat(a):
    if isinstance(a, np.ndarray):
        if type(a) is not np.ndarray and hasattr(a, "ravel_raw"):
            return a.ravel_raw()
        return list(a.reshape(-1))
    if isinstance(a, (list, tuple)):
        return [y for x in a for y in flat(x)]
    return [a]


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."
