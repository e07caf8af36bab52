"""Path-exploring symbolic execution core: context, decisions and scalar values.

One *path* of a harness is one Python execution of the real pymech source in
which symbolic values stand for the inputs.  Every time the execution needs the
truth value of a symbolic condition, or a concrete integer for a symbolic one,
the context decides which way to go (asking the solver which ways are feasible)
and remembers the other way for a later re-execution.
"""

import math
import os
import time
from fractions import Fraction

import numpy as np
import z3


class Unsupported(BaseException):
    """The engine cannot model an operation; the path is inconclusive."""


class PathAbort(BaseException):
    """The current path is infeasible or out of budget."""


class AssumeFailed(PathAbort):
    pass


class Budget(PathAbort):
    pass


def qval(x):
    """Exact z3 real value of a python number."""
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported("non finite number mixed with a symbolic one")
    n, d = x.as_integer_ratio()
    return z3.Q(n, d) if d != 1 else z3.RealVal(n)


# ---------------------------------------------------------------------------
# context
# ---------------------------------------------------------------------------
class Ctx:
    """State of the exploration of one scenario."""

    cur = None

    def __init__(self, seed=1, query_ms=20000, max_decisions=30000):
        self.seed = seed
        self.query_ms = query_ms
        self.max_decisions = max_decisions
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions_total = 0
        self.deadline = None

    # -- one path -----------------------------------------------------------
    def start_path(self, prefix):
        Ctx.cur = self
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.solver.set("random_seed", self.seed)
        self.conds = []
        self.model = None
        self.inputs = {}  # name -> (kind, term or table)
        self.fresh_n = 0
        self.checks = []
        self.approx = []  # notes on over-approximations made on this path
        self.tokens = []
        self.memo = {}
        self.sparse = None

    def fresh(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def note(self, msg):
        if msg not in self.approx:
            self.approx.append(msg)

    def _check(self, *extra):
        if self.deadline and time.monotonic() > self.deadline:
            raise Budget("time budget of the scenario exhausted")
        t = time.monotonic()
        r = self.solver.check(*extra)
        self.solver_s += time.monotonic() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
        return r

    def assert_(self, cond):
        self.solver.add(cond)
        self.conds.append(cond)
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None

    def assume(self, cond):
        if isinstance(cond, SBool):
            cond = cond.t
        if cond is True or (not isinstance(cond, z3.ExprRef) and cond):
            return
        if not isinstance(cond, z3.ExprRef):
            raise AssumeFailed()
        self.assert_(cond)
        if len(self.trace) >= len(self.prefix) and self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise AssumeFailed()
            if r == z3.sat:
                self.model = self.solver.model()

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise AssumeFailed()
            if r == z3.unknown:
                raise Unsupported("solver returned unknown for a path condition")
            self.model = self.solver.model()
        return self.model

    def decide(self, cond):
        """Truth value of a z3 condition on this path (forking when both are possible)."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        hit = self.memo.get(("d", key))
        if hit is None:
            c2 = _without_positive_factors(c, self.inputs)
            if c2 is not None:
                if z3.is_true(c2):
                    return True
                if z3.is_false(c2):
                    return False
                c = c2
                key = c.get_id()
                hit = self.memo.get(("d", key))
        if hit is not None:
            return hit[1]
        i = len(self.trace)
        if i >= self.max_decisions:
            raise Budget("too many decisions on one path")
        if i < len(self.prefix):
            e = self.prefix[i]
            self.trace.append(e)
            val = e if isinstance(e, bool) else e == "T"
            if isinstance(e, bool):
                self.assert_(c if val else z3.Not(c))
            self.memo[("d", key)] = (c, val)
            return val
        self.decisions_total += 1
        sides = {True: None, False: None}
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise AssumeFailed()
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            first = z3.is_true(v)
            sides[first] = True
            r = self._check(z3.Not(c) if first else c)
            sides[not first] = r != z3.unsat
            if r == z3.unknown:
                self.note("branch feasibility unknown: both sides explored")
        else:
            first = True
            sides[True] = self._check(c) != z3.unsat
            sides[False] = self._check(z3.Not(c)) != z3.unsat
        if not sides[first]:
            first = not first
        val = first
        if sides[not val]:
            self.pending.append(self.trace + [not val])
            self.trace.append(val)
            self.assert_(c if val else z3.Not(c))
        elif nonlinear(c):  # implied by the path condition: not added to it
            self.trace.append("T" if val else "F")
        else:
            self.trace.append(val)
            self.assert_(c if val else z3.Not(c))
        self.memo[("d", key)] = (c, val)
        return val

    def concretise(self, term):
        """Pin an integer term to one value, leaving the others for later paths."""
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        key = ("c", t.get_id())
        hit = self.memo.get(key)
        if hit is not None:
            return hit[1]
        i = len(self.trace)
        # candidate values are tried in an order that re-execution reproduces
        n = 0
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                v, taken = self.prefix[i]
                self.trace.append((v, taken))
                self.assert_(t == v if taken else t != v)
                if taken:
                    self.memo[key] = (t, v)
                    return v
                n += 1
                continue
            self.decisions_total += 1
            m = self.get_model()
            v = m.eval(t, model_completion=True).as_long()
            if self._check(t != v) != z3.unsat:
                self.pending.append(self.trace + [(v, False)])
            self.trace.append((v, True))
            self.assert_(t == v)
            self.memo[key] = (t, v)
            return v

    # -- assertions ---------------------------------------------------------
    def add_check(self, label, cond, strong=None, exact=None):
        """`exact` implies `cond` (tried first, cheaper); a failure of `strong` is a failure by a wide margin"""
        self.checks.append((label, cond, strong, exact))


def nonlinear(t):
    """does a term multiply unknowns?"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind() if z3.is_app(x) else None
        ch = x.children()
        if k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(y) and not z3.is_int_value(y) for y in ch) > 1 or k == z3.Z3_OP_POWER:
            return True
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            return True
        todo.extend(ch)
    return False


def ctx():
    c = Ctx.cur
    if c is None:
        raise RuntimeError("no symbolic context")
    return c


# ---------------------------------------------------------------------------
# scalar values
# ---------------------------------------------------------------------------
class Sym:
    """Base class of symbolic scalars."""

    __array_ufunc__ = None
    __slots__ = ()

    # the numpy scalar API that the code under test may use
    def item(self):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def tolist(self):
        return self

    def ravel(self):
        from .arrays import box

        return box(self).ravel()

    def __array__(self, dtype=None, copy=None):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def tofile(self, f, *a, **k):
        from .arrays import box

        box(self).tofile(f)

    def byteswap(self, inplace=False):
        from .arrays import box

        return box(self).byteswap()

    def tobytes(self):
        from .arrays import box

        return box(self).tobytes()

    def astype(self, dtype, **k):
        from .arrays import coerce_scalar, norm_dtype

        dt = norm_dtype(dtype)
        r = coerce_scalar(self, dt)
        if isinstance(r, SReal) and dt.itemsize == 4:
            r = SReal(r._t, r.i, r.sq, 32)
        return r

    def min(self, *a, **k):
        return self

    max = min
    mean = min


def sbool(x):
    if isinstance(x, SBool):
        return x
    return SBool(x)


def zb(x):
    """z3 Bool of a python/symbolic truth value."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (SInt, SReal)):
        return (x != 0).t
    return z3.BoolVal(bool(x))


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t if isinstance(t, z3.ExprRef) else z3.BoolVal(bool(t))

    def __bool__(self):
        return ctx().decide(self.t)

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SBool(z3.And(self.t, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SBool(z3.Or(self.t, zb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.t, zb(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return SBool(self.t == zb(o))
        return self._i() == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def all(self, *a, **k):
        return self

    any = all


def is_int_like(x):
    return isinstance(x, (int, np.integer, SInt, SBool)) and not isinstance(x, Fraction)


def zi(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return x._i().t
    return z3.IntVal(int(x))


def _arr(op, a, b):
    """Binary operation where one operand is an array."""
    from .arrays import box

    return op(a if isinstance(a, np.ndarray) else box(a), b if isinstance(b, np.ndarray) else box(b))


def isnumber(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction))


class SNum(Sym):
    """Shared arithmetic dispatch for SInt and SReal."""

    __slots__ = ()

    def _bin(self, o, name, rev=False):
        if isinstance(o, np.ndarray):
            import operator as op

            f = {"add": op.add, "sub": op.sub, "mul": op.mul, "div": op.truediv,
                 "floordiv": op.floordiv, "mod": op.mod, "pow": op.pow}[name]
            return _arr(f, o, self) if rev else _arr(f, self, o)
        if isinstance(o, (complex, np.complexfloating)) or isinstance(o, SCplx):
            a, b = SCplx.of(self), SCplx.of(o)
            if rev:
                a, b = b, a
            return getattr(a, {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__"}[name])(b)
        if isinstance(o, SBits):
            o = o.to_real()
        if not (isnumber(o) or isinstance(o, (SInt, SReal, SBool))):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and not math.isfinite(float(o)):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return _arith(a, b, name)

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        return self._bin(o, "mul")

    def __rmul__(self, o):
        return self._bin(o, "mul", True)

    def __truediv__(self, o):
        return self._bin(o, "div")

    def __rtruediv__(self, o):
        return self._bin(o, "div", True)

    def __floordiv__(self, o):
        return self._bin(o, "floordiv")

    def __rfloordiv__(self, o):
        return self._bin(o, "floordiv", True)

    def __mod__(self, o):
        return self._bin(o, "mod")

    def __rmod__(self, o):
        return self._bin(o, "mod", True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None):
        return self._bin(o, "pow")

    def __rpow__(self, o):
        return self._bin(o, "pow", True)

    def __pos__(self):
        return self

    def __lt__(self, o):
        return compare(self, o, "lt")

    def __le__(self, o):
        return compare(self, o, "le")

    def __gt__(self, o):
        return compare(self, o, "gt")

    def __ge__(self, o):
        return compare(self, o, "ge")

    def __eq__(self, o):
        return compare(self, o, "eq")

    def __ne__(self, o):
        return compare(self, o, "ne")

    def __bool__(self):
        return bool(self != 0)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    # numpy's object ufuncs look these up
    def sqrt(self):
        return sym_sqrt(self)

    def cos(self):
        return sym_trig(self)[0]

    def sin(self):
        return sym_trig(self)[1]

    def tan(self):
        c, s = sym_trig(self)
        return s / c

    def hypot(self, o):
        return sym_sqrt(self * self + o * o)

    def square(self):
        return self * self

    def fabs(self):
        return abs(self)

    def is_integer(self):
        return True if isinstance(self, SInt) else SBool(z3.IsInt(self.t))

    def __str__(self):
        return format(self, "")

    def __repr__(self):
        return f"<{type(self).__name__} {self.t}>"


class SInt(SNum):
    __slots__ = ("t", "nominal")

    def __init__(self, t, nominal="int64"):
        self.t = t if isinstance(t, z3.ExprRef) else z3.IntVal(int(t))
        self.nominal = nominal

    @property
    def dtype(self):
        return np.dtype(self.nominal)

    def __neg__(self):
        return SInt(-self.t)

    def __abs__(self):
        return SInt(z3.If(self.t >= 0, self.t, -self.t))

    def __index__(self):
        return ctx().concretise(self.t)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def __and__(self, o):
        return self.__index__() & o

    def __rand__(self, o):
        return self.__index__() & o

    def __lshift__(self, o):
        return self.__index__() << o

    def __rshift__(self, o):
        return self.__index__() >> o

    def __format__(self, spec):
        from .text import format_sym

        return format_sym(self, spec)

    def bit_length(self):
        return self.__index__().bit_length()


class SReal(SNum):
    """A real number; `i` is its integer-valued term when it is known to be integral;
    `sq` = (k, u): the value is k*sqrt(u)."""

    __slots__ = ("_t", "i", "sq", "w")

    def __init__(self, t=None, i=None, sq=None, w=64):
        self._t = t
        self.i = i
        self.sq = sq
        self.w = w

    @property
    def dtype(self):
        return np.dtype("f4" if self.w == 32 else "f8")

    @property
    def t(self):
        if self._t is None:
            if self.i is not None:
                self._t = z3.ToReal(self.i)
            else:
                k, u = self.sq
                c = ctx()
                key = ("sqrt", u.get_id())
                hit = c.memo.get(key)
                if hit is None:
                    y = z3.Real(c.fresh("sqrt"))
                    c.assert_(z3.And(y >= 0, y * y == u))
                    hit = c.memo[key] = (u, y)
                self._t = qval(k) * hit[1] if k != 1 else hit[1]
        return self._t

    def __neg__(self):
        if self.i is not None:
            return SReal(i=-self.i)
        return SReal(-self.t)

    def __abs__(self):
        if self.sq is not None:
            return SReal(sq=(abs(self.sq[0]), self.sq[1]))
        if self.i is not None:
            return SReal(i=z3.If(self.i >= 0, self.i, -self.i))
        return SReal(z3.If(self.t >= 0, self.t, -self.t))

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        return self.trunc_int().__index__()

    def trunc_int(self):
        if self.i is not None:
            return SInt(self.i)
        return SInt(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __trunc__(self):
        return self.trunc_int()

    def __floor__(self):
        return SInt(self.i) if self.i is not None else SInt(z3.ToInt(self.t))

    def __ceil__(self):
        return SInt(self.i) if self.i is not None else SInt(-z3.ToInt(-self.t))

    def floor(self):
        return SReal(i=z3.ToInt(self.t)) if self.i is None else self

    def ceil(self):
        return SReal(i=-z3.ToInt(-self.t)) if self.i is None else self

    def rint(self):
        return self.__round__(0)

    def __round__(self, n=None):
        if self.i is not None:
            return SInt(self.i) if n is None else self
        # ties are not modelled exactly: they are excluded
        p = 10 ** (n or 0)
        v = self.t * p
        ctx().assume(v - z3.ToReal(z3.ToInt(v)) != z3.Q(1, 2))
        r = z3.ToInt(v + z3.Q(1, 2))
        if n is None:
            return SInt(r)
        return SReal(i=r) if n == 0 else SReal(z3.ToReal(r) / p)

    def __hash__(self):
        t = z3.simplify(self.t)
        if self.i is not None:
            return hash(float(SInt(self.i).__index__()))
        if z3.is_rational_value(t):
            return hash(float(t.as_fraction()))
        raise Unsupported("hash of a symbolic real")

    def __float__(self):
        t = z3.simplify(self.t)
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        if self.i is not None:
            return float(SInt(self.i).__index__())
        raise Unsupported("native float() of a symbolic real")

    def __format__(self, spec):
        from .text import format_sym

        return format_sym(self, spec)


def mkreal(t):
    return SReal(t)


def zr(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.ToReal(x._i().t)
    if isinstance(x, SBits):
        return x.to_real().t
    return qval(x)


def _intterm(x):
    """integer term of an integral value, or None"""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return x._i().t
    if isinstance(x, SReal):
        return x.i
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)) and float(x).is_integer():
        return z3.IntVal(int(x))
    return None


def _arith(a, b, name):
    ints = is_int_like(a) and is_int_like(b)
    ia, ib = _intterm(a), _intterm(b)
    if name in ("add", "sub", "mul") and ia is not None and ib is not None:
        t = ia + ib if name == "add" else ia - ib if name == "sub" else ia * ib
        return SInt(t) if ints else SReal(i=t)
    if name == "add" or name == "sub":
        if isnumber(a) and a == 0 and name == "add":
            return b if not isinstance(b, SInt) else SReal(i=b.t)
        if isnumber(b) and b == 0:
            return a if not isinstance(a, SInt) else SReal(i=a.t)
        x, y = zr(a), zr(b)
        return SReal(x + y if name == "add" else x - y)
    if name == "mul":
        for p, q in ((a, b), (b, a)):
            if isnumber(p):
                if p == 1:
                    return q if not isinstance(q, SInt) else SReal(i=q.t)
                if p == 0:
                    return 0.0
                if isinstance(q, SReal) and q.sq is not None and p > 0:
                    return SReal(sq=(Fraction(p) * q.sq[0], q.sq[1]))
        return SReal(zr(a) * zr(b))
    if name == "div":
        if isnumber(b):
            if b == 0:
                raise ZeroDivisionError("division by zero")
            if b == 1 and not isinstance(a, (SInt, SBool)):
                return a
            if isinstance(a, SReal) and a.sq is not None and b > 0:
                return SReal(sq=(a.sq[0] / Fraction(b), a.sq[1]))
            if ib is not None and ia is not None:
                # keep integrality when the division is exact for this path
                return SReal(zr(a) / qval(b))
            return SReal(zr(a) * qval(1 / Fraction(b)))
        d = zr(b)
        if bool(SBool(d == 0)):
            raise ZeroDivisionError("division by zero")
        n = zr(a)
        q = _cancel(n, d)
        return SReal(n / d if q is None else q)
    if name in ("floordiv", "mod"):
        if ia is not None and ib is not None:
            d = z3.simplify(ib)
            if not z3.is_int_value(d):
                d = z3.IntVal(ctx().concretise(d))
            v = d.as_long()
            if v == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if v > 0:
                q = ia / d
                r = ia % d
            else:
                q = (-ia) / z3.IntVal(-v)
                r = ia - q * d
            t = q if name == "floordiv" else r
            return SInt(t) if ints else SReal(i=t)
        q = z3.ToInt(zr(a) / zr(b))
        if name == "floordiv":
            return SReal(i=q)
        return SReal(zr(a) - z3.ToReal(q) * zr(b))
    if name == "pow":
        if isnumber(b):
            bf = float(b)
            if bf == 0.5:
                return sym_sqrt(a)
            if bf.is_integer() and 0 <= bf <= 64:
                n = int(bf)
                if n == 0:
                    return 1 if ints else 1.0
                if n == 2 and isinstance(a, SReal) and a.sq is not None:
                    return SReal(qval(a.sq[0] ** 2) * a.sq[1])
                r = a
                for _ in range(n - 1):
                    r = r * a
                return r
            if bf.is_integer() and bf < 0:
                return 1.0 / _arith(a, -b, "pow")
            if bf == -0.5:
                return 1.0 / sym_sqrt(a)
        if isinstance(b, SInt):
            return _arith(a, b.__index__(), "pow") if isinstance(a, Sym) else a ** b.__index__()
        raise Unsupported("power")
    raise Unsupported(name)


_FLIP = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}


def _cmp(x, y, op):
    if op == "lt":
        return x < y
    if op == "le":
        return x <= y
    if op == "gt":
        return x > y
    if op == "ge":
        return x >= y
    if op == "eq":
        return x == y
    return x != y


def compare(a, b, op):
    if isinstance(b, np.ndarray):
        import operator

        return _arr(getattr(operator, op), a, b)
    if isinstance(b, SBits):
        return b._compare(a, _FLIP[op])
    if isinstance(b, SCplx):
        return compare(SCplx.of(a), b, op)
    if not (isnumber(b) or isinstance(b, (SInt, SReal, SBool))):
        return NotImplemented
    if isinstance(b, (float, np.floating)) and not math.isfinite(float(b)):
        f = float(b)
        if math.isnan(f):
            return op == "ne"
        return {"lt": f > 0, "le": f > 0, "gt": f < 0, "ge": f < 0, "eq": False, "ne": True}[op]
    ia, ib = _intterm(a), _intterm(b)
    if ia is not None and ib is not None:
        return SBool(_cmp(ia, ib, op))
    sa = a.sq if isinstance(a, SReal) else None
    sb = b.sq if isinstance(b, SReal) else None
    if sa is not None and a._t is None or sb is not None and b._t is None:
        if sa is not None and sb is not None:
            return SBool(_cmp(qval(sa[0] ** 2) * sa[1], qval(sb[0] ** 2) * sb[1], op))
        if sa is not None and isnumber(b):
            fb = Fraction(b)
            if fb < 0:
                return op in ("gt", "ge", "ne")
            return SBool(_cmp(qval(sa[0] ** 2) * sa[1], qval(fb * fb), op))
        if sb is not None and isnumber(a):
            return compare(b, a, _FLIP[op])
        # sqrt against a general real
        if sa is None:
            return compare(b, a, _FLIP[op])
        y = zr(b)
        x2 = qval(sa[0] ** 2) * sa[1]
        neg = op in ("gt", "ge", "ne")
        return SBool(z3.If(y < 0, z3.BoolVal(neg), _cmp(x2, y * y, op)))
    return SBool(_cmp(zr(a), zr(b), op))


# ---------------------------------------------------------------------------
def ite(c, a, b):
    """if-then-else on values"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    t = z3.simplify(c.t)
    if z3.is_true(t):
        return a
    if z3.is_false(t):
        return b
    if a is b:
        return a
    t2 = _without_positive_factors(t, ctx().inputs)
    if t2 is not None:
        t = t2
        if z3.is_true(t):
            return a
        if z3.is_false(t):
            return b
    if isinstance(a, SBits) or isinstance(b, SBits):
        a, b = SBits.unify(a, b)
        return SBits(z3.If(t, a.bv, b.bv), a.w)
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return SBool(z3.If(t, zb(a), zb(b)))
    if is_int_like(a) and is_int_like(b):
        return SInt(z3.If(t, zi(a), zi(b)))
    if isinstance(a, SReal) and isinstance(b, SReal) and a.sq is not None and b.sq is not None:
        if a._t is None and b._t is None:
            return SReal(sq=(Fraction(1), z3.If(t, qval(a.sq[0] ** 2) * a.sq[1], qval(b.sq[0] ** 2) * b.sq[1])))
    ia, ib = _intterm(a), _intterm(b)
    if ia is not None and ib is not None:
        return SReal(i=z3.If(t, ia, ib))
    if (isnumber(a) or isinstance(a, (SInt, SReal))) and (isnumber(b) or isinstance(b, (SInt, SReal))):
        return SReal(z3.If(t, zr(a), zr(b)))
    return a if bool(SBool(t)) else b


def sym_min(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.minimum(a, b)
    return ite(sbool(a <= b) if not isinstance(a <= b, SBool) else a <= b, a, b)


def sym_max(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.maximum(a, b)
    c = a >= b
    return ite(c if isinstance(c, SBool) else SBool(c), a, b)


def sym_sqrt(a):
    if isinstance(a, SBits):
        a = a.to_real()
    if not isinstance(a, Sym):
        return np.sqrt(float(a))
    u = zr(a)
    us = z3.simplify(u)
    if z3.is_rational_value(us):
        return np.float64(math.sqrt(us.as_fraction()))
    # the code never takes the root of a negative number on a path that matters
    r = _root_of_square(us)
    if r is not None:
        return r
    if bool(SBool(u < 0)):
        return np.float64("nan")
    return SReal(sq=(Fraction(1), u))


def monomials(t, limit=200):
    """[(coefficient, {id: (variable, exponent)})] of a small polynomial, else None"""
    size = {}

    def bound(x):
        """how many monomials it can have"""
        i = x.get_id()
        if i in size:
            return size[i]
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            n = 1 if x.num_args() == 0 and x.is_real() else None
        elif k == z3.Z3_OP_ANUM:
            n = 1
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            n = 0
            for c in x.children():
                m = bound(c)
                n = None if m is None or n is None else n + m
        elif k == z3.Z3_OP_MUL:
            n = 1
            for c in x.children():
                m = bound(c)
                n = None if m is None or n is None else n * m
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction().denominator == 1 and 0 < x.arg(1).as_fraction() <= 8:
            m = bound(x.arg(0))
            n = None if m is None else m ** int(x.arg(1).as_fraction())
        elif k == z3.Z3_OP_DIV and z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction() != 0:
            n = bound(x.arg(0))
        else:
            n = None
        if n is not None and n > limit:
            n = None
        size[i] = n
        return n

    if bound(t) is None:
        return None
    m = z3.simplify(t, som=True)
    out = []
    for term in (m.children() if z3.is_add(m) else [m]):
        c, vs, todo = Fraction(1), {}, [(term, 1)]
        while todo:
            f, e = todo.pop()
            k = f.decl().kind()
            if z3.is_rational_value(f):
                c *= f.as_fraction() ** e
            elif k == z3.Z3_OP_UNINTERPRETED:
                v, n = vs.get(f.get_id(), (f, 0))
                vs[f.get_id()] = (v, n + e)
            elif k == z3.Z3_OP_MUL:
                todo += [(x, e) for x in f.children()]
            elif k == z3.Z3_OP_POWER and z3.is_rational_value(f.arg(1)) and f.arg(1).as_fraction().denominator == 1 and f.arg(1).as_fraction() > 0:
                todo.append((f.arg(0), e * int(f.arg(1).as_fraction())))
            else:
                return None
        if c != 0:
            out.append((c, vs))
    return out


def _without_positive_factors(c, inputs):
    """a comparison of products, divided by the inputs known to be positive that all terms share"""
    if z3.is_not(c):
        r = _without_positive_factors(c.arg(0), inputs)
        return None if r is None else z3.simplify(z3.Not(r))
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or not z3.is_arith(c.arg(0)) or not c.arg(0).is_real():
        return None
    ms = monomials(c.arg(0) - c.arg(1))
    if not ms:
        return None
    common = dict(ms[0][1])
    for _c, vs in ms[1:]:
        for i in list(common):
            n = min(common[i][1], vs.get(i, (None, 0))[1])
            if n:
                common[i] = (common[i][0], n)
            else:
                del common[i]
    for i, (v, _n) in list(common.items()):
        inp = inputs.get(v.decl().name())
        if not (inp and inp[0] == "real" and inp[2] and inp[2][0] is not None and inp[2][0] > 0):
            del common[i]
    if not common:
        return None
    terms = []
    for q, vs in ms:
        terms.append(_product(q, {i: (v, n - common.get(i, (None, 0))[1]) for i, (v, n) in vs.items()}))
    d = terms[0] if len(terms) == 1 else z3.Sum(terms)
    op = {z3.Z3_OP_LE: d <= 0, z3.Z3_OP_GE: d >= 0, z3.Z3_OP_LT: d < 0, z3.Z3_OP_GT: d > 0, z3.Z3_OP_EQ: d == 0}[k]
    return z3.simplify(op)


def _product(c, vs):
    fs = [v for v, n in vs.values() for _ in range(n)]
    t = qval(c)
    if not fs:
        return t
    p = fs[0]
    for f in fs[1:]:
        p = p * f
    return p if c == 1 else t * p


def _root_of_square(us):
    """sqrt(c * x**2n), with a rational root of c good to more digits than a double has"""
    ms = monomials(us)
    if ms is None:
        return None
    if not ms:
        return np.float64(0.0)
    if len(ms) != 1:
        return None
    c, vs = ms[0]
    if c < 0 or any(n % 2 for _v, n in vs.values()):
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        root = Fraction(a, b)
    else:
        k = 1 << 70
        root = Fraction(math.isqrt(c.numerator * k * k // c.denominator), k)
    if not vs:
        return np.float64(float(root))
    for v, n in vs.values():
        if (n // 2) % 2 and not bool(SBool(v >= 0)):
            root = -root
    return SReal(_product(root, {i: (v, n // 2) for i, (v, n) in vs.items()}))


def _cancel(x, d):
    """x / d for a monomial d that divides every term of x (d is not zero), else None"""
    dm = monomials(d)
    if not dm or len(dm) != 1:
        return None
    dc, dv = dm[0]
    xm = monomials(x)
    if xm is None:
        return None
    out = []
    for c, vs in xm:
        q = {}
        for i, (_v, n) in dv.items():
            if vs.get(i, (None, 0))[1] < n:
                return None
        for i, (v, n) in vs.items():
            k = n - dv.get(i, (None, 0))[1]
            if k:
                q[i] = (v, k)
        out.append(_product(c / dc, q))
    if not out:
        return qval(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


def sym_trig(a):
    """(cos, sin) of a symbolic angle: a point of the unit circle, same angle same point."""
    c = ctx()
    t = z3.simplify(zr(a))
    if z3.is_rational_value(t):
        f = float(t.as_fraction())
        return np.float64(math.cos(f)), np.float64(math.sin(f))
    neg = z3.simplify(-t)
    for k, tt, sg in ((t, t, 1), (neg, neg, -1)):
        hit = c.memo.get(("trig", k.get_id()))
        if hit is not None:
            co, si = hit[1]
            return SReal(co), SReal(si) if sg == 1 else SReal(-si)
    co, si = z3.Real(c.fresh("cos")), z3.Real(c.fresh("sin"))
    c.assert_(co * co + si * si == 1)
    c.memo[("trig", t.get_id())] = (t, (co, si))
    hook = getattr(c, "trig_hook", None)
    if hook:
        hook(t, co, si)
    else:
        c.note("cos/sin of a symbolic angle: arbitrary point of the unit circle")
    return SReal(co), SReal(si)


# ---------------------------------------------------------------------------
# float bit patterns
# ---------------------------------------------------------------------------
_narrow = z3.Function("f64_to_f32", z3.BitVecSort(64), z3.BitVecSort(32))
_widen = z3.Function("f32_to_f64", z3.BitVecSort(32), z3.BitVecSort(64))
_real64 = z3.Function("f64_value", z3.BitVecSort(64), z3.RealSort())


def _push(f, inv, bv):
    """apply a cast through if-then-else, cancelling casts that are inverse"""
    if z3.is_app(bv) and bv.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = bv.children()
        return z3.If(c, _push(f, inv, a), _push(f, inv, b))
    if inv is not None and z3.is_app(bv) and bv.decl().eq(inv):
        return bv.children()[0]
    return f(bv)


def _unwrap(x):
    from .arrays import unwrap

    return unwrap(x)


class SBits(Sym):
    """An IEEE float known by its bit pattern (width 32 or 64)."""

    __slots__ = ("bv", "w")

    def __init__(self, bv, w):
        self.bv = bv
        self.w = w

    @property
    def dtype(self):
        return np.dtype("f4" if self.w == 32 else "f8")

    @staticmethod
    def of(x, w=64):
        if isinstance(x, SBits):
            return x
        if isnumber(x):
            x = _unwrap(x)
            if w == 32:
                return SBits(z3.BitVecVal(int(np.float32(x).view(np.uint32)), 32), 32)
            return SBits(z3.BitVecVal(int(np.float64(x).view(np.uint64)), 64), 64)
        raise Unsupported("mixing a bit pattern with a symbolic real")

    @staticmethod
    def unify(a, b):
        wa = a.w if isinstance(a, SBits) else None
        wb = b.w if isinstance(b, SBits) else None
        w = max(x for x in (wa, wb) if x)
        a = SBits.of(a, w)
        b = SBits.of(b, w)
        return a.cast(w), b.cast(w)

    def cast(self, w):
        if w == self.w:
            return self
        if w == 32:
            return SBits(_push(_narrow, _widen, self.bv), 32)
        # f32 -> f64 is injective, so narrowing cancels it (not the converse)
        return SBits(_push(_widen, None, self.bv), 64)

    def key(self):
        """signed integer with the same order as the (non-NaN) float; both zeros map to 0"""
        w = self.w
        sign = z3.Extract(w - 1, w - 1, self.bv) == 1
        mag = z3.ZeroExt(1, z3.Extract(w - 2, 0, self.bv))
        return z3.If(sign, -mag, mag)

    def _compare(self, o, op):
        if isinstance(o, np.ndarray):
            import operator

            return _arr(getattr(operator, op), self, o)
        if isinstance(o, (SInt, SReal)):
            return compare(self.to_real(), o, op)
        if not (isnumber(o) or isinstance(o, SBits)):
            return NotImplemented
        a, b = SBits.unify(self, o)
        return SBool(_cmp(a.key(), b.key(), op))

    def __lt__(self, o):
        return self._compare(o, "lt")

    def __le__(self, o):
        return self._compare(o, "le")

    def __gt__(self, o):
        return self._compare(o, "gt")

    def __ge__(self, o):
        return self._compare(o, "ge")

    def __eq__(self, o):
        return self._compare(o, "eq")

    def __ne__(self, o):
        return self._compare(o, "ne")

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def __bool__(self):
        return bool(self != 0.0)

    def to_real(self):
        c = ctx()
        b = self.cast(64).bv
        v = z3.simplify(b)
        if z3.is_bv_value(v):
            f = float(np.uint64(v.as_long()).view(np.float64))
            return SReal(qval(f))
        c.note("arithmetic on a bit pattern: value modelled by an uninterpreted function")
        return SReal(_real64(b))

    def trunc_int(self):
        return self.to_real().trunc_int()

    def __int__(self):
        raise Unsupported("int of a float bit pattern")

    def __float__(self):
        v = z3.simplify(self.cast(64).bv)
        if z3.is_bv_value(v):
            return float(np.uint64(v.as_long()).view(np.float64))
        raise Unsupported("native float() of a symbolic float")

    def __neg__(self):
        w = self.w
        return SBits(self.bv ^ z3.BitVecVal(1 << (w - 1), w), w)

    def __abs__(self):
        w = self.w
        return SBits(self.bv & z3.BitVecVal((1 << (w - 1)) - 1, w), w)

    def _via(name):
        def f(self, o):
            if isinstance(o, np.ndarray):
                import operator

                return _arr(getattr(operator, name.replace("__", "").replace("r", "", 1) if name.startswith("__r") else name.replace("__", "")), self, o)
            # exact identities that leave the bits alone
            if name in ("__mul__", "__rmul__", "__truediv__") and isnumber(o) and o == 1:
                return self
            return getattr(self.to_real(), name)(o)

        return f

    __add__ = _via("__add__")
    __radd__ = _via("__radd__")
    __sub__ = _via("__sub__")
    __rsub__ = _via("__rsub__")
    __mul__ = _via("__mul__")
    __rmul__ = _via("__rmul__")
    __truediv__ = _via("__truediv__")
    __rtruediv__ = _via("__rtruediv__")
    __pow__ = _via("__pow__")

    def __pos__(self):
        return self

    def __format__(self, spec):
        from .text import format_sym

        return format_sym(self.to_real(), spec)

    def __repr__(self):
        return f"<SBits{self.w} {self.bv}>"

    __str__ = __repr__


class SCplx(Sym):
    """complex number with symbolic parts"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def dtype(self):
        return np.dtype("c16")

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @staticmethod
    def of(x):
        if isinstance(x, SCplx):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SCplx(x.real, x.imag)
        return SCplx(x, 0.0)

    def _ok(o):
        return isnumber(o) or isinstance(o, (complex, np.complexfloating, SInt, SReal, SBits, SCplx))

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            import operator

            return _arr(operator.add, self, o)
        o = SCplx.of(o)
        return SCplx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = SCplx.of(o)
        return SCplx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return SCplx.of(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            import operator

            return _arr(operator.mul, self, o)
        o = SCplx.of(o)
        return SCplx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isnumber(o) or isinstance(o, (SReal, SInt)):
            return SCplx(self.re / o, self.im / o)
        raise Unsupported("complex division")

    def __neg__(self):
        return SCplx(-self.re, -self.im)

    def conjugate(self):
        return SCplx(self.re, -self.im)

    conj = conjugate

    def __eq__(self, o):
        o = SCplx.of(o)
        return SBool(z3.And(zb(self.re == o.re), zb(self.im == o.im)))

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None


class SStr(Sym):
    """A string drawn from a finite table (index term `t`)."""

    __slots__ = ("t", "table")

    def __init__(self, t, table):
        self.t = t
        self.table = list(table)

    def conc(self):
        return self.table[ctx().concretise(self.t)]

    def eq_term(self, o):
        if isinstance(o, SStr):
            return z3.Or(*[z3.And(self.t == i, o.t == j) for i, a in enumerate(self.table) for j, b in enumerate(o.table) if a == b] or [z3.BoolVal(False)])
        if not isinstance(o, str):
            return z3.BoolVal(False)
        return z3.Or(*[self.t == i for i, a in enumerate(self.table) if a == o] or [z3.BoolVal(False)])

    def __eq__(self, o):
        return SBool(self.eq_term(o))

    def __ne__(self, o):
        return SBool(z3.Not(self.eq_term(o)))

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return bool(self != "")

    def __len__(self):
        return len(self.conc())

    def __str__(self):
        return self.conc()

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __getitem__(self, k):
        return self.conc()[k]

    def __contains__(self, x):
        return x in self.conc()

    def __iter__(self):
        return iter(self.conc())

    def __add__(self, o):
        return self.conc() + str(o)

    def __radd__(self, o):
        return str(o) + self.conc()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.conc(), name)

    def truncated(self, n):
        return SStr(self.t, [s[:n] for s in self.table])

    def __repr__(self):
        return f"<SStr {self.t} of {self.table}>"


def is_sym(x):
    return isinstance(x, Sym)
