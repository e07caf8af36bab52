"""Arrays of possibly symbolic values: an ndarray subclass of dtype object that
remembers the numpy dtype the real program would have (its *nominal* dtype)."""

import copy as _copy
import functools
import re

import numpy as np
import z3

from . import core
from .core import (SBits, SBool, SCplx, SInt, SReal, SStr, Sym, Unsupported, ctx,
                   is_int_like, isnumber, ite, sym_max, sym_min, sym_sqrt, zb, zi)


# ---------------------------------------------------------------------------
# dtypes
# ---------------------------------------------------------------------------
def norm_dtype(dt):
    if dt is None:
        return np.dtype("f8")
    if isinstance(dt, np.dtype):
        return dt
    from .shims import FloatShim, IntShim, BoolShim

    if dt is IntShim:
        dt = int
    elif dt is FloatShim:
        dt = float
    elif dt is BoolShim:
        dt = bool
    return np.dtype(dt)


def is_swapped(dt):
    return dt.byteorder == ">" or bool(dt.fields and any(f[0].byteorder == ">" for f in dt.fields.values()))


def _writable(base):
    """concrete numpy scalars that can be written to a virtual file (numpy crashes on
    scalar types that have a second base class)"""

    class C(base):
        def tofile(self, f, *a, **k):
            box(self).tofile(f)

        def astype(self, dt, **k):
            return wrap(base.astype(self, norm_dtype(dt), **k))

        def byteswap(self, inplace=False):
            return box(self).byteswap()

    return C


CF64 = _writable(np.float64)
CF32 = _writable(np.float32)


def wrap(x):
    """an element of an array, as the scalar the program sees"""
    if type(x) is np.float64 or type(x) is float:
        return CF64(x)
    if type(x) is np.float32:
        return CF32(x)
    return x


def unwrap(x):
    """the same value as numpy's own scalars"""
    if type(x) is CF64:
        return np.float64(x)
    if type(x) is CF32:
        return np.float32(x)
    if type(x) in (list, tuple):
        return type(x)(unwrap(e) for e in x)
    return x


def coerce_scalar(v, dt):
    """value stored when `v` is assigned into an array of dtype dt"""
    k = dt.kind
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v[()]
    if isinstance(v, np.ndarray) and v.size == 1 and k != "O":
        # numpy accepts size one arrays in some assignments
        v = np.ndarray.ravel(v)[0]
    if k == "f":
        w = dt.itemsize * 8
        if isinstance(v, SBits):
            return v.cast(w) if w in (32, 64) else v
        if isinstance(v, SInt):
            return SReal(i=v.t)
        if isinstance(v, SBool):
            return SReal(i=v._i().t)
        if isinstance(v, SReal):
            if w == 32 and v.i is None:
                ctx().note("rounding of a symbolic real to single precision is not modelled")
            return v
        if isinstance(v, Sym):
            raise TypeError(f"cannot store {type(v).__name__} as float")
        if isinstance(v, str):
            from .text import has_tokens, parse_float

            if has_tokens(v):
                return parse_float(v)
        if isinstance(v, (bytes, bytearray)):
            v = float(v)
        return dt.newbyteorder("=").type(unwrap(v))
    if k in "iu":
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return v._i()
        if isinstance(v, (SReal, SBits)):
            return v.trunc_int()
        if isinstance(v, str):
            from .text import has_tokens, parse_int

            if has_tokens(v):
                return parse_int(v)
        return dt.newbyteorder("=").type(int(v))
    if k == "b":
        if isinstance(v, SBool):
            return v
        if isinstance(v, Sym):
            return SBool((v != 0).t) if isinstance(v, (SInt, SReal, SBits)) else bool(v)
        return np.bool_(v)
    if k == "c":
        return v if isinstance(v, Sym) else np.complex128(v)
    if k == "U":
        n = dt.itemsize // 4
        if isinstance(v, SStr):
            return v.truncated(n)
        if isinstance(v, bytes):
            v = v.decode("ascii")
        return str(v)[:n].rstrip("\0")
    if k == "S":
        n = dt.itemsize
        if isinstance(v, SStr):
            v = v.conc()
        if isinstance(v, str):
            v = v.encode("ascii")
        from .files import SymBytes

        if isinstance(v, SymBytes):
            return v[:n]
        return bytes(v)[:n].rstrip(b"\0")
    if k == "V":
        raise Unsupported("void scalar")
    return v


class SymRecord:
    """One element of an array with a structured dtype (mutable, like a np.void view)."""

    __slots__ = ("dt", "v")

    def __init__(self, dt, vals=None):
        self.dt = dt
        if vals is None:
            vals = [zero_of(dt.fields[n][0]) for n in dt.names]
        self.v = list(vals)

    @property
    def dtype(self):
        return self.dt

    def _ix(self, k):
        if isinstance(k, str):
            return self.dt.names.index(k)
        if isinstance(k, slice):
            raise TypeError("record slice")
        return int(k)

    def __getitem__(self, k):
        if isinstance(k, list):
            return SymRecord(np.dtype([(n, self.dt.fields[n][0]) for n in k]), [self[n] for n in k])
        return wrap(self.v[self._ix(k)])

    def __setitem__(self, k, val):
        i = self._ix(k)
        self.v[i] = coerce_scalar(val, self.dt.fields[self.dt.names[i]][0])

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter([wrap(x) for x in self.v])

    def item(self, *a):
        return tuple(self.v) if not a else self.v[a[0]]

    tolist = item

    def copy(self):
        return SymRecord(self.dt, self.v)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def assign(self, o):
        if isinstance(o, SymRecord):
            o = list(o.v)
        elif isinstance(o, np.void):
            o = list(o.item())
        elif isinstance(o, (tuple, list)):
            o = list(o)
        else:
            o = [o] * len(self.v)
        if len(o) != len(self.v):
            raise ValueError("could not assign tuple of length %d to structure with %d fields" % (len(o), len(self.v)))
        self.v = [coerce_scalar(x, self.dt.fields[n][0]) for x, n in zip(o, self.dt.names)]

    def __eq__(self, o):
        if isinstance(o, (SymRecord, tuple, np.void)):
            o = list(o.v) if isinstance(o, SymRecord) else list(o)
            return SBool(z3.And(*[zb(a == b) for a, b in zip(self.v, o)])) if len(o) == len(self.v) else False
        return NotImplemented

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def __repr__(self):
        return f"<rec {self.v}>"


def zero_of(dt):
    k = dt.kind
    if k == "U":
        return ""
    if k == "S":
        return b""
    if k == "b":
        return np.bool_(False)
    if dt.names:
        return SymRecord(dt)
    if k == "O":
        return 0
    return dt.newbyteorder("=").type(0)


def _plain_index(k):
    """turn index components that hold object arrays into real integer arrays"""
    def one(x):
        if isinstance(x, SymArray):
            if x.nominal.kind == "b":
                return np.array([bool(e) for e in x.ravel_raw()], dtype=bool).reshape(x.shape)
            return np.array([e.__index__() for e in x.ravel_raw()], dtype=np.intp).reshape(x.shape)
        if isinstance(x, (SInt,)):
            return x.__index__()
        if isinstance(x, SReal):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        if isinstance(x, SBool):
            return np.bool_(bool(x))
        if isinstance(x, list):
            return [one(e) for e in x]
        return x

    if isinstance(k, tuple):
        return tuple(one(x) for x in k)
    return one(k)


class SymArray(np.ndarray):
    """object array with a nominal dtype"""

    __array_priority__ = 1000

    def __new__(cls, shape, nominal):
        a = np.ndarray.__new__(cls, shape, dtype=object)
        a.nominal = nominal
        a.swap = False
        return a

    def __array_finalize__(self, obj):
        self.nominal = getattr(obj, "nominal", None) or np.dtype("f8")
        self.swap = getattr(obj, "swap", False)

    # -- construction ---------------------------------------------------
    @staticmethod
    def filled(shape, nominal, maker):
        a = SymArray(shape, nominal)
        flat = a.reshape_raw(-1)
        for i in range(flat.shape[0]):
            np.ndarray.__setitem__(flat, i, maker())
        return a

    @staticmethod
    def from_list(values, nominal):
        a = SymArray((len(values),), nominal)
        for i, v in enumerate(values):
            if nominal.names:
                r = SymRecord(nominal)
                r.assign(v)
                v = r
            else:
                v = coerce_scalar(v, nominal)
            np.ndarray.__setitem__(a, i, v)
        return a

    @staticmethod
    def from_obj(o, nominal=None):
        """np.array(o, dtype)"""
        if isinstance(o, SymArray):
            if nominal is None or nominal == o.nominal:
                return o.copy()
            return o.astype(nominal)
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                shape, vals = o.shape, list(o.ravel())
            else:
                nominal = nominal or o.dtype
                shape, vals = o.shape, [x for x in o.ravel()]
        else:
            shape, vals = _nested(o)
        if nominal is None:
            nominal = infer_dtype(vals)
        a = SymArray.from_list(vals, nominal)
        return a.reshape(shape)

    # -- metadata -------------------------------------------------------
    @property
    def dtype(self):
        return self.nominal

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype")

    @property
    def itemsize(self):
        return self.nominal.itemsize

    @property
    def nbytes(self):
        return self.nominal.itemsize * self.size

    def ravel_raw(self):
        """flat list of the elements, unwrapped"""
        return list(self.view(np.ndarray).reshape(-1))

    def reshape_raw(self, n):
        return np.ndarray.reshape(self, n)

    # -- access ---------------------------------------------------------
    def __getitem__(self, k):
        if self.nominal.names and isinstance(k, str):
            i = self.nominal.names.index(k)
            raw = self.view(np.ndarray)
            out = SymArray(self.shape, self.nominal.fields[k][0])
            for ix in np.ndindex(self.shape):
                np.ndarray.__setitem__(out, ix, raw[ix].v[i])
            out.flags.writeable = False  # a copy: writing through would be lost
            return out
        r = np.ndarray.__getitem__(self, _plain_index(k))
        if isinstance(r, SymArray):
            return r
        return wrap(r)

    def __setitem__(self, k, v):
        if self.nominal.names and isinstance(k, str):
            raw = self.view(np.ndarray)
            if isinstance(v, (np.ndarray, list)):
                v = np.broadcast_to(np.asarray(v, dtype=object), self.shape)
                for ix in np.ndindex(self.shape):
                    raw[ix][k] = v[ix]
            else:
                for ix in np.ndindex(self.shape):
                    raw[ix][k] = v
            return
        k = _plain_index(k)
        if self.nominal.names:
            tgt = np.ndarray.__getitem__(self.view(np.ndarray), k)
            if isinstance(tgt, SymRecord):
                tgt.assign(v)
                return
            if isinstance(v, np.ndarray):
                v = v.view(np.ndarray) if isinstance(v, SymArray) else v
                v = np.broadcast_to(v, tgt.shape)
                snap = [v[ix].copy() if isinstance(v[ix], SymRecord) else v[ix] for ix in np.ndindex(tgt.shape)]
                for ix, x in zip(np.ndindex(tgt.shape), snap):
                    tgt[ix].assign(x)
            else:
                for ix in np.ndindex(tgt.shape):
                    tgt[ix].assign(v)
            return
        if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim > 0):
            src = v if isinstance(v, SymArray) else SymArray.from_obj(v, None if _has_sym(v) else self.nominal) if not isinstance(v, np.ndarray) else v
            raw = src.view(np.ndarray) if isinstance(src, SymArray) else np.asarray(src)
            out = np.empty(raw.shape, dtype=object)
            for ix in np.ndindex(raw.shape):
                out[ix] = coerce_scalar(raw[ix], self.nominal)
            np.ndarray.__setitem__(self, k, out)
            return
        val = coerce_scalar(v, self.nominal)
        kk = k if isinstance(k, tuple) else (k,)
        if len(kk) == self.ndim and all(isinstance(i, (int, np.integer)) for i in kk):
            np.ndarray.__setitem__(self, kk, val)
            return
        cell = np.empty((), dtype=object)
        cell[()] = val
        np.ndarray.__setitem__(self, k, cell)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def item(self, *a):
        r = np.ndarray.item(self, *a)
        return r

    def __contains__(self, x):
        return bool((self == x).any())

    @property
    def flat(self):
        return _Flat(self)

    @property
    def T(self):
        return self.transpose()

    # -- copies ---------------------------------------------------------
    def copy(self, order="C"):
        r = np.ndarray.copy(self, order)
        if self.nominal.names:
            f = r.view(np.ndarray)
            for ix in np.ndindex(r.shape):
                f[ix] = f[ix].copy()
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self, SymArray)
        t = a[0] if a else k.get("dtype") or k.get("type")
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return np.ndarray.view(self, t)
        dt = norm_dtype(t)
        if dt == self.nominal:
            return np.ndarray.view(self, SymArray)
        if dt.newbyteorder("=") == self.nominal.newbyteorder("=") and dt.byteorder in "<>" or (
            dt.kind == self.nominal.kind and dt.itemsize == self.nominal.itemsize
        ):
            # same type, other byte order: the bytes are reinterpreted
            r = self.copy()
            r.nominal = dt.newbyteorder("=")
            r.swap = self.swap != (is_swapped(dt) != is_swapped(self.nominal))
            return r
        if self.ndim >= 1:
            from .files import frombuffer_cells

            cells = array_cells(self)
            return frombuffer_cells(cells, dt)
        raise Unsupported("view as another dtype")

    def newbyteorder(self, *a):
        raise AttributeError("newbyteorder was removed from the ndarray class in NumPy 2.0")

    def astype(self, dtype, *a, **k):
        dt = norm_dtype(dtype)
        out = SymArray(self.shape, dt.newbyteorder("="))
        src, dst = self.view(np.ndarray), out.view(np.ndarray)
        if self.swap:
            raise Unsupported("astype of a byteswapped array")
        for ix in np.ndindex(self.shape):
            if dt.names:
                rec = SymRecord(dt)
                rec.assign(src[ix])
                dst[ix] = rec
            else:
                dst[ix] = coerce_scalar(src[ix], out.nominal)
        if is_swapped(dt):
            out.nominal = dt
        return out

    def byteswap(self, inplace=False):
        if inplace:
            self.swap = not self.swap
            return self
        r = self.copy()
        r.swap = not self.swap
        return r

    # -- output ---------------------------------------------------------
    def tofile(self, f, sep="", format="%s"):
        if sep:
            raise Unsupported("text tofile")
        f.write_cells(array_cells(self))

    def tobytes(self, order="C"):
        from .files import SymBytes

        return SymBytes.make(array_cells(self))

    def tolist(self):
        r = np.ndarray.tolist(self)
        return _tolist(r)

    # -- reductions -----------------------------------------------------
    def _red(self, f, axis, keepdims=False, nominal=None, empty=None):
        raw = self.view(np.ndarray)
        nominal = nominal or self.nominal
        if axis is None:
            axes = tuple(range(self.ndim))
        elif isinstance(axis, (tuple, list)):
            axes = tuple(int(a) % self.ndim for a in axis)
        else:
            axes = (int(axis) % self.ndim,)
        rest = [d for d in range(self.ndim) if d not in axes]
        shape = [self.shape[d] for d in rest]
        moved = raw.transpose(rest + list(axes)).reshape(shape + [int(np.prod([self.shape[d] for d in axes]))])
        out = SymArray(tuple(shape), nominal)
        for ix in np.ndindex(*shape):
            vals = list(moved[ix])
            if not vals:
                if empty is None:
                    raise ValueError("zero-size array to reduction operation which has no identity")
                v = empty
            else:
                v = f(vals)
            np.ndarray.__setitem__(out, ix, v)
        if keepdims:
            out = out.reshape([1 if d in axes else n for d, n in enumerate(self.shape)])
        if out.ndim == 0:
            return wrap(np.ndarray.__getitem__(out, ()))
        return out

    def min(self, axis=None, out=None, keepdims=False, **k):
        r = self._red(lambda v: functools.reduce(sym_min, v), axis, keepdims)
        return _store(out, r)

    def max(self, axis=None, out=None, keepdims=False, **k):
        r = self._red(lambda v: functools.reduce(sym_max, v), axis, keepdims)
        return _store(out, r)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        nom = self.nominal if self.nominal.kind != "b" else np.dtype("i8")
        r = self._red(lambda v: functools.reduce(lambda a, b: a + b, [_num(x) for x in v]), axis, keepdims, nom, empty=zero_of(nom))
        return _store(out, r)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        r = self._red(lambda v: functools.reduce(lambda a, b: a * b, v), axis, keepdims, empty=self.nominal.type(1))
        return _store(out, r)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        r = self._red(lambda v: functools.reduce(lambda a, b: a + b, v) / float(len(v)), axis, keepdims,
                      self.nominal if self.nominal.kind in "fc" else np.dtype("f8"))
        return _store(out, r)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return self._red(lambda v: _unlit(z3.And(*[zb(x) for x in v])), axis, keepdims, np.dtype(bool), empty=np.bool_(True))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return self._red(lambda v: _unlit(z3.Or(*[zb(x) for x in v])), axis, keepdims, np.dtype(bool), empty=np.bool_(False))

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def argmin(self, axis=None, **k):
        return _arg(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **k):
        return _arg(self, axis, lambda a, b: a > b)

    def dot(self, o):
        return (self * o).sum()

    def round(self, decimals=0, out=None):
        return self.map(lambda x: round_val(x, decimals))

    def fill(self, v):
        self[...] = v

    def nonzero(self):
        m = np.array([bool(x) for x in self.ravel_raw()], dtype=bool).reshape(self.shape)
        return m.nonzero()

    def map(self, f, nominal=None):
        out = SymArray(self.shape, nominal or self.nominal)
        src, dst = self.view(np.ndarray), out.view(np.ndarray)
        for ix in np.ndindex(self.shape):
            dst[ix] = f(src[ix])
        return out

    def conj(self):
        return self.map(lambda x: x.conjugate())

    @property
    def real(self):
        return self.map(lambda x: x.real, np.dtype("f8"))

    @property
    def imag(self):
        return self.map(lambda x: x.imag, np.dtype("f8"))

    # -- truth and conversion --------------------------------------------
    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.ravel_raw()[0])

    def __int__(self):
        return self._scalar().__int__()

    def __float__(self):
        return float(self._scalar())

    def __index__(self):
        if self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self._scalar().__index__()

    def _scalar(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.ravel_raw()[0]

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self._scalar(), spec)
        return f"<array {self.shape}>"

    def __str__(self):
        return f"<array {self.shape} {self.nominal}>"

    __repr__ = __str__

    # -- operators that numpy would run as real ufuncs ---------------------
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        kw.pop("where", None) if kw.get("where", True) is True else None
        kw.pop("casting", None)
        dt = kw.pop("dtype", None)
        arrs = [x if isinstance(x, np.ndarray) else box(x) for x in inputs]
        if any(getattr(a, "swap", False) for a in arrs):
            raise Unsupported("arithmetic on byteswapped data")
        if method == "__call__":
            if name in _UF2 and len(arrs) == 2:
                f = _UF2[name]
                raws = [raw(a) for a in arrs]
                b = np.broadcast(*raws)
                res = np.empty(b.shape, dtype=object)
                r0, r1 = np.broadcast_arrays(*raws)
                for ix in np.ndindex(b.shape):
                    res[ix] = f(r0[ix], r1[ix])
                res = res.view(SymArray)
                res.nominal = result_dtype(name, arrs)
            elif name in _UF1 and len(arrs) == 1:
                f = _UF1[name]
                r0 = raw(arrs[0])
                res = np.empty(r0.shape, dtype=object)
                for ix in np.ndindex(r0.shape):
                    res[ix] = f(r0[ix])
                res = res.view(SymArray)
                res.nominal = result_dtype(name, arrs)
            elif not any(isinstance(e, Sym) for a in arrs for e in raw(a).reshape(-1)):
                # all concrete: the real ufunc
                real = [np.array(list(raw(a).reshape(-1)), dtype=nominal_of(a)).reshape(a.shape) for a in arrs]
                r = ufunc(*real, **kw)
                res = tuple(SymArray.from_obj(x) for x in r) if isinstance(r, tuple) else SymArray.from_obj(np.asarray(r))
                if isinstance(res, tuple):
                    return res
            else:
                raise Unsupported(f"ufunc {name} on symbolic values")
            if res.nominal.kind in "fiu" and dt is None:
                nom = res.nominal
                rr = res.view(np.ndarray)
                for ix in np.ndindex(res.shape):
                    v = rr[ix]
                    if type(v) is not nom.type and not isinstance(v, Sym) and not isinstance(v, nom.type):
                        rr[ix] = nom.type(unwrap(v))
            if out is not None:
                o = out[0]
                o[...] = res
                return o
            if res.ndim == 0:
                return wrap(res.view(np.ndarray)[()])
            return res
        if method == "reduce":
            a = arrs[0]
            axis = kw.get("axis", 0)
            kd = kw.get("keepdims", False)
            m = {"add": "sum", "minimum": "min", "maximum": "max", "multiply": "prod",
                 "logical_and": "all", "logical_or": "any", "bitwise_and": "all", "bitwise_or": "any",
                 "fmin": "min", "fmax": "max"}.get(name)
            if m is None:
                raise Unsupported(f"{name}.reduce")
            r = getattr(a, m)(axis=axis, keepdims=kd)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        if method == "outer":
            a, b = arrs
            return ufunc(a.reshape(a.shape + (1,) * b.ndim), b)
        if method == "accumulate":
            a = arrs[0]
            if a.ndim != 1:
                raise Unsupported("accumulate")
            vals = a.ravel_raw()
            f = _UF2[name]
            acc = []
            for v in vals:
                acc.append(v if not acc else f(acc[-1], v))
            return SymArray.from_list(acc, a.nominal)
        if method == "at":
            a, idx = inputs[0], inputs[1]
            f = _UF2[name]
            for i in np.atleast_1d(_plain_index(idx)):
                a[i] = f(a[i], inputs[2] if len(inputs) > 2 else None)
            return None
        raise Unsupported(f"ufunc method {method}")

    def __array_function__(self, func, types, args, kwargs):
        from .npfuncs import FUNCS

        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        r = super().__array_function__(func, types, args, kwargs)
        nom = _first_nominal(args)

        def fix(x):
            if isinstance(x, SymArray):
                if nom is not None:
                    x.nominal = nom
                return x
            return x

        if isinstance(r, tuple):
            return tuple(fix(x) for x in r)
        if isinstance(r, list):
            return [fix(x) for x in r]
        return fix(r)


class _Flat:
    def __init__(self, a):
        self.a = a

    def __iter__(self):
        return iter([wrap(x) for x in self.a.ravel_raw()])

    def __len__(self):
        return self.a.size

    def __getitem__(self, k):
        return self.a.ravel()[k]

    def __setitem__(self, k, v):
        idx = np.arange(self.a.size).reshape(self.a.shape)
        pos = np.atleast_1d(idx.ravel()[k])
        vals = [v] * len(pos) if not isinstance(v, (list, tuple, np.ndarray)) else list(v)
        for n, p in enumerate(pos):
            self.a[np.unravel_index(p, self.a.shape)] = vals[n % len(vals)]


def _store(out, r):
    if out is not None:
        out[...] = r
        return out
    return r


def _unlit(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return np.bool_(True)
    if z3.is_false(t):
        return np.bool_(False)
    return SBool(t)


def _num(x):
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, np.bool_):
        return int(x)
    return x


def _tolist(r):
    if isinstance(r, list):
        return [_tolist(x) for x in r]
    if isinstance(r, np.generic):
        return r.item()
    return r


def _arg(a, axis, better):
    def f(v):
        best, bi = v[0], 0
        for i in range(1, len(v)):
            c = better(v[i], best)
            best = ite(c, v[i], best) if isinstance(c, SBool) else (v[i] if c else best)
            bi = ite(c, i, bi) if isinstance(c, SBool) else (i if c else bi)
        return bi if isinstance(bi, Sym) else np.int64(bi)

    return a._red(f, axis, False, np.dtype("i8"))


def _has_sym(o):
    if isinstance(o, Sym):
        return True
    if isinstance(o, SymArray):
        return True
    if isinstance(o, (list, tuple)):
        return any(_has_sym(x) for x in o)
    return False


def _nested(o):
    """shape and flat values of nested sequences"""
    if isinstance(o, SymArray):
        return o.shape, o.ravel_raw()
    if isinstance(o, np.ndarray):
        return o.shape, list(o.reshape(-1))
    if isinstance(o, (list, tuple, range)) or (hasattr(o, "__iter__") and not isinstance(o, (str, bytes, Sym, SymRecord, np.void))):
        parts = [_nested(x) for x in o]
        if not parts:
            return (0,), []
        s0 = parts[0][0]
        if any(p[0] != s0 for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(parts),) + tuple(s0), [v for p in parts for v in p[1]]
    return (), [o]


def infer_dtype(vals):
    kinds = set()
    for v in vals:
        if isinstance(v, (SBits, SReal)):
            kinds.add("f4" if isinstance(v, SBits) and v.w == 32 else "f8")
        elif isinstance(v, SCplx):
            kinds.add("c16")
        elif isinstance(v, SBool):
            kinds.add("?")
        elif isinstance(v, SInt):
            kinds.add("i8")
        elif isinstance(v, SStr):
            kinds.add("U8")
        elif isinstance(v, SymRecord):
            return v.dt
        else:
            kinds.add(np.asarray(v).dtype.str)
    if not kinds:
        return np.dtype("f8")
    return functools.reduce(np.promote_types, [np.dtype(k) for k in kinds])


def raw(a):
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    if a.dtype == object:
        return a
    o = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(a.shape):
        o[ix] = a[ix]
    return o


def nominal_of(a):
    return a.nominal if isinstance(a, SymArray) else a.dtype


def box(x):
    """0-d array holding x"""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        return SymArray.from_obj(x)
    if isinstance(x, (SBits, SReal, SCplx, SInt, SBool)):
        nom = x.dtype if not isinstance(x, SBool) else np.dtype(bool)
    elif isinstance(x, SStr):
        nom = np.dtype("U8")
    elif isinstance(x, SymRecord):
        nom = x.dt
    elif x is None:
        nom = np.dtype("O")
    else:
        nom = np.asarray(x).dtype
    a = SymArray((), nom)
    a.view(np.ndarray)[()] = x
    a.weak = not isinstance(x, np.generic)
    return a


def result_dtype(name, arrs):
    if name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and",
                "logical_or", "logical_not", "isfinite", "isnan", "isinf"):
        return np.dtype(bool)
    noms = [nominal_of(a) for a in arrs]
    strong = [n for a, n in zip(arrs, noms) if not (a.ndim == 0 and getattr(a, "weak", False))]
    if any(n.kind in "OUSV" for n in noms):
        return np.dtype("O")
    if strong and len(strong) < len(noms):
        base = functools.reduce(np.promote_types, strong)
        if all(n.kind in "biu" or (n.kind == "f" and base.kind in "fc") for n in noms):
            r = base
        else:
            r = functools.reduce(np.promote_types, noms)
    else:
        r = functools.reduce(np.promote_types, noms)
    if name in ("true_divide", "divide", "sqrt", "sin", "cos", "hypot", "arctan2") and r.kind in "biu":
        r = np.dtype("f8")
    return r


def round_val(x, n=0):
    if isinstance(x, SBits):
        x = x.to_real()
    if isinstance(x, SReal):
        return x.__round__(n)
    if isinstance(x, Sym):
        return x
    return np.round(x, n)


def _logic(f):
    def g(a, b):
        return _unlit(f(zb(a), zb(b)))

    return g


def _eq(a, b):
    r = a == b
    if r is NotImplemented:
        return False
    return r


def _div(a, b):
    if isinstance(b, (int, np.integer, float)) and not isinstance(b, np.floating) and b == 0 and not isinstance(a, Sym):
        return np.float64(unwrap(a)) / np.float64(unwrap(b))
    return a / b


_UF2 = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "true_divide": _div,
    "divide": _div,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "power": lambda a, b: a ** b,
    "float_power": lambda a, b: a ** b,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": _eq,
    "not_equal": lambda a, b: a != b,
    "minimum": sym_min,
    "maximum": sym_max,
    "fmin": sym_min,
    "fmax": sym_max,
    "logical_and": _logic(z3.And),
    "logical_or": _logic(z3.Or),
    "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b,
    "hypot": lambda a, b: sym_sqrt(a * a + b * b),
}


def _trig(i, f):
    def g(x):
        if isinstance(x, Sym):
            return core.sym_trig(x)[i]
        return f(x)

    return g


_UF1 = {
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "square": lambda a: a * a,
    "sqrt": lambda a: sym_sqrt(a),
    "cos": _trig(0, np.cos),
    "sin": _trig(1, np.sin),
    "logical_not": lambda a: _unlit(z3.Not(zb(a))),
    "invert": lambda a: ~a,
    "conjugate": lambda a: a.conjugate(),
    "rint": lambda a: round_val(a),
    "floor": lambda a: a.floor() if isinstance(a, SReal) else np.floor(a),
    "ceil": lambda a: a.ceil() if isinstance(a, SReal) else np.ceil(a),
    "isfinite": lambda a: True if isinstance(a, Sym) else np.isfinite(a),
    "isnan": lambda a: False if isinstance(a, Sym) else np.isnan(a),
    "isinf": lambda a: False if isinstance(a, Sym) else np.isinf(a),
    "reciprocal": lambda a: 1.0 / a,
    "sign": lambda a: ite(a > 0, 1.0, ite(a < 0, -1.0, 0.0)) if isinstance(a, Sym) else np.sign(a),
}


def _first_nominal(args):
    for a in args:
        if isinstance(a, SymArray):
            return a.nominal
        if isinstance(a, (list, tuple)):
            n = _first_nominal(a)
            if n is not None:
                return n
    return None


# ---------------------------------------------------------------------------
# bytes of arrays
# ---------------------------------------------------------------------------
def scalar_cells(v, dt, swap=False):
    """cells (LE order unless swap) of value v stored with dtype dt"""
    k = dt.kind
    n = dt.itemsize
    if k == "S":
        from .files import SymBytes

        if isinstance(v, SymBytes):
            c = list(v.cells)
        else:
            c = list(v)
        return (c + [0] * n)[:n]
    if isinstance(v, Sym):
        fmt = {("f", 8): "d", ("f", 4): "f", ("i", 4): "i", ("i", 8): "q", ("i", 2): "h"}.get((k, n))
        if fmt is None:
            raise Unsupported(f"bytes of symbolic {dt}")
        if isinstance(v, SInt) and k == "f":
            v = SReal(i=v.t)
        cells = [(v, fmt, i) for i in range(n)]
    else:
        cells = list(dt.newbyteorder("=").type(unwrap(v)).tobytes())
    return cells[::-1] if swap else cells


def array_cells(a):
    dt = a.nominal
    out = []
    sw = a.swap != is_swapped(dt)
    rawv = a.ravel_raw()
    if dt.names:
        for r in rawv:
            for x, nme in zip(r.v, dt.names):
                f = dt.fields[nme][0]
                out += scalar_cells(x, f, a.swap != (f.byteorder == ">") and f.kind != "S")
        return out
    for v in rawv:
        out += scalar_cells(v, dt, sw)
    return out
