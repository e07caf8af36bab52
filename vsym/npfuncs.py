"""Replacements of numpy functions for arrays of symbolic values, and the numpy shim."""

import functools

import numpy as np
import z3

from . import core
from .arrays import (SymArray, SymRecord, _has_sym, _nested, _plain_index, _unlit, box, infer_dtype, nominal_of,
                     norm_dtype, raw, round_val, unwrap, wrap, zero_of)
from .core import SBits, SBool, SCplx, SInt, SReal, Sym, Unsupported, ctx, ite, sym_max, sym_min, sym_sqrt, zb

FUNCS = {}


def impl(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g

    return deco


def A(x):
    return x if isinstance(x, SymArray) else SymArray.from_obj(x)


@impl(np.concatenate)
def concatenate(seq, axis=0, out=None, **k):
    seq = [A(s) for s in seq]
    if axis is None:
        seq = [s.ravel() for s in seq]
        axis = 0
    noms = [s.nominal for s in seq]
    nom = noms[0] if noms[0].names else functools.reduce(np.promote_types, noms)
    r = np.concatenate([raw(s) for s in seq], axis=axis).view(SymArray)
    r.nominal = nom
    r = r.copy()
    if not nom.names:
        r = r.astype(nom)
    return r


def _stacker(f):
    def g(seq, *a, **k):
        seq = [A(s) for s in seq]
        noms = [s.nominal for s in seq]
        nom = noms[0] if noms[0].names else functools.reduce(np.promote_types, noms)
        r = f([raw(s) for s in seq], *a, **k).view(SymArray)
        r.nominal = nom
        return r.copy() if nom.names else r.astype(nom)

    return g


for _f in (np.stack, np.vstack, np.hstack, np.column_stack, np.dstack):
    FUNCS[_f] = _stacker(_f)


@impl(np.append)
def append(a, v, axis=None):
    a, v = A(a), A(v)
    if axis is None:
        return concatenate((a.ravel(), v.ravel()))
    return concatenate((a, v), axis)


@impl(np.copy)
def copy(a, *k, **kw):
    return A(a).copy()


@impl(np.min, np.amin)
def amin(a, axis=None, out=None, **k):
    return A(a).min(axis, out, **k)


@impl(np.max, np.amax)
def amax(a, axis=None, out=None, **k):
    return A(a).max(axis, out, **k)


@impl(np.sum)
def sum_(a, axis=None, dtype=None, out=None, **k):
    return A(a).sum(axis, dtype, out, **k)


@impl(np.prod)
def prod(a, axis=None, dtype=None, out=None, **k):
    return A(a).prod(axis, dtype, out, **k)


@impl(np.mean, np.average)
def mean(a, axis=None, *r, **k):
    k.pop("dtype", None)
    return A(a).mean(axis, **k)


@impl(np.all)
def all_(a, axis=None, **k):
    return A(a).all(axis)


@impl(np.any)
def any_(a, axis=None, **k):
    return A(a).any(axis)


@impl(np.count_nonzero)
def count_nonzero(a, axis=None, **k):
    return A(a).map(lambda x: _unlit(zb(x != 0)) if not isinstance(x, (SBool, np.bool_)) else x, np.dtype(bool)).sum(axis)


@impl(np.ptp)
def ptp(a, axis=None, **k):
    return A(a).ptp(axis)


@impl(np.argmin)
def argmin(a, axis=None, **k):
    return A(a).argmin(axis)


@impl(np.argmax)
def argmax(a, axis=None, **k):
    return A(a).argmax(axis)


@impl(np.round, np.around)
def round_(a, decimals=0, out=None):
    return A(a).round(decimals)


@impl(np.array_equal)
def array_equal(a, b, equal_nan=False):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    return (a == b).all()


@impl(np.array_equiv)
def array_equiv(a, b):
    return (A(a) == A(b)).all()


@impl(np.isclose)
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = A(a), A(b)
    d = abs(a - b)
    return d <= (atol + rtol * abs(b))


@impl(np.allclose)
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(r.all() if isinstance(r, SymArray) else r)


@impl(np.where)
def where(c, *xy):
    c = A(c)
    if not xy:
        return c.nonzero()
    x, y = A(xy[0]), A(xy[1])
    rc, rx, ry = np.broadcast_arrays(raw(c), raw(x), raw(y))
    out = SymArray(rc.shape, np.promote_types(x.nominal, y.nominal))
    o = out.view(np.ndarray)
    for ix in np.ndindex(rc.shape):
        v = rc[ix]
        o[ix] = ite(v if isinstance(v, SBool) else SBool(zb(v)), rx[ix], ry[ix])
    return out if out.ndim else wrap(o[()])


@impl(np.nonzero)
def nonzero(a):
    return A(a).nonzero()


@impl(np.argwhere)
def argwhere(a):
    return np.transpose(A(a).nonzero())


@impl(np.flatnonzero)
def flatnonzero(a):
    return A(a).ravel().nonzero()[0]


@impl(np.linalg.norm)
def norm(x, ord=None, axis=None, keepdims=False):
    x = A(x)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    s = (x * x).sum(axis=axis, keepdims=keepdims)
    if isinstance(s, SymArray):
        return s.map(sym_sqrt, np.dtype("f8"))
    return sym_sqrt(s)


@impl(np.dot, np.inner, np.vdot, np.matmul)
def dot(a, b, **k):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 2 and b.ndim == 1:
        return SymArray.from_list([(a[i] * b).sum() for i in range(a.shape[0])], np.promote_types(a.nominal, b.nominal))
    if a.ndim == 1 and b.ndim == 2:
        return SymArray.from_list([(a * b[:, j]).sum() for j in range(b.shape[1])], np.promote_types(a.nominal, b.nominal))
    if a.ndim == 2:
        r = SymArray((a.shape[0],) + b.shape[1:], np.promote_types(a.nominal, b.nominal))
        bb = b.reshape(b.shape[0], -1)
        rr = r.reshape(a.shape[0], -1)
        for i in range(a.shape[0]):
            for j in range(bb.shape[1]):
                rr[i, j] = (a[i] * bb[:, j]).sum()
        return r
    raise Unsupported("dot")


@impl(np.tensordot)
def tensordot(a, b, axes=2):
    raise Unsupported("tensordot")


@impl(np.cross)
def cross(a, b, **k):
    a, b = A(a), A(b)
    if a.shape == (3,) and b.shape == (3,):
        return SymArray.from_list([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], np.dtype("f8"))
    if a.shape == (2,) and b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    raise Unsupported("cross")


@impl(np.linspace)
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    sp = ctx().sparse
    if sp is not None and not isinstance(num, Sym) and num == sp.n:
        return SymArray.from_obj(np.linspace(start, stop, num, endpoint, dtype=norm_dtype(dtype) if dtype is not None else None)[:sp.visited])
    if isinstance(num, Sym):
        num = num.__index__()
    if any(isinstance(v, Sym) for v in (start, stop)):
        n = num - 1 if endpoint else num
        vals = [start + (stop - start) * k / n if n else start for k in range(num)]
        return SymArray.from_list(vals, norm_dtype(dtype) if dtype is not None else np.dtype("f8"))
    r = np.linspace(start, stop, num, endpoint, dtype=norm_dtype(dtype) if dtype is not None else None)
    a = SymArray.from_obj(r)
    if retstep:
        return a, (stop - start) / (num - 1 if endpoint else num)
    return a


@impl(np.arange)
def arange(*a, dtype=None, **k):
    if any(isinstance(x, Sym) for x in a):
        a = [x.__index__() if isinstance(x, SInt) else x for x in a]
    return SymArray.from_obj(np.arange(*a, dtype=norm_dtype(dtype) if dtype is not None else None))


def _shape(s):
    if isinstance(s, (int, np.integer, SInt)):
        s = (s,)
    r = []
    for x in s:
        if isinstance(x, (SReal, float, np.floating)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        r.append(x.__index__())
    return tuple(r)


def _creator(val):
    def g(shape, dtype=None, order="C", **k):
        nom = norm_dtype(dtype)
        if nom.kind == "O":
            return np.empty(_shape(shape), dtype=object)
        shp = _shape(shape)
        if nom.names:
            return SymArray.filled(shp, nom, lambda: SymRecord(nom))
        z = zero_of(nom) if not val else nom.type(1)
        return SymArray.filled(shp, nom, lambda: z)

    return g


zeros = _creator(0)
ones = _creator(1)


def empty(shape, dtype=None, order="C", **k):
    # uninitialised memory: values nobody can rely on
    nom = norm_dtype(dtype)
    if nom.kind == "f":
        c = ctx()

        def mk():
            return SReal(z3.Real(c.fresh("uninit")))

        return SymArray.filled(_shape(shape), nom, mk)
    return zeros(shape, dtype)


def full(shape, fill_value, dtype=None, order="C", **k):
    nom = norm_dtype(dtype) if dtype is not None else box(fill_value).nominal
    a = zeros(shape, nom)
    a[...] = fill_value
    return a


def _like(f):
    def g(a, *args, dtype=None, shape=None, **k):
        a = A(a)
        return f(shape if shape is not None else a.shape, *args, dtype=dtype if dtype is not None else a.nominal)

    return g


FUNCS[np.zeros_like] = _like(zeros)
FUNCS[np.ones_like] = _like(ones)
FUNCS[np.empty_like] = _like(empty)
FUNCS[np.full_like] = _like(full)


def array(o, dtype=None, copy=True, ndmin=0, **k):
    nom = norm_dtype(dtype) if dtype is not None else None
    if nom is not None and nom.kind == "O":
        r = np.empty(len(o), dtype=object)
        r[:] = o
        return r
    r = SymArray.from_obj(o, nom)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def asarray(o, dtype=None, **k):
    if isinstance(o, SymArray) and (dtype is None or norm_dtype(dtype) == o.nominal):
        return o
    return array(o, dtype)


def atleast_1d(o):
    o = asarray(o)
    return o.reshape(1) if o.ndim == 0 else o


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype)


def from_any_lift(f):
    """call a numpy function with symbolic scalars/lists boxed as arrays"""

    @functools.wraps(f)
    def g(*a, **k):
        conv = False

        def c(x):
            nonlocal conv
            if isinstance(x, Sym):
                conv = True
                return box(x)
            if isinstance(x, (list, tuple)) and _has_sym(x):
                conv = True
                if any(isinstance(e, np.ndarray) for e in x):
                    return type(x)(c(e) for e in x)
                return SymArray.from_obj(x)
            return unwrap(x)

        a2 = [c(x) for x in a]
        k2 = {n: c(x) for n, x in k.items()}
        if "dtype" in k2:
            k2["dtype"] = norm_dtype(k2["dtype"])
        anysym = conv or any(isinstance(x, SymArray) for x in a2)
        if not anysym and f not in FUNCS:
            r = f(*a2, **k2)
        elif f in FUNCS:
            r = FUNCS[f](*a2, **k2)
        else:
            r = f(*a2, **k2)
        if isinstance(r, SymArray) and r.ndim == 0:
            return wrap(r.view(np.ndarray)[()])
        if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype.kind in "fiubcUSV":
            return SymArray.from_obj(r) if not r.dtype.names else r
        if isinstance(r, tuple):
            return tuple(SymArray.from_obj(x) if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "fc" else x for x in r)
        return wrap(r) if isinstance(r, np.generic) else r

    return g


@impl(np.unique)
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = A(a)
    if axis is not None or return_inverse or return_counts:
        raise Unsupported("np.unique variant")
    vals = a.ravel_raw()
    order = _argsort(vals)
    uniq, idx = [], []
    for i in order:
        if uniq and bool(vals[i] == uniq[-1]):
            idx[-1] = min(idx[-1], i)
            continue
        uniq.append(vals[i])
        idx.append(i)
    u = SymArray.from_list(uniq, a.nominal)
    if return_index:
        return u, np.array(idx, dtype=np.intp)
    return u


def _argsort(vals):
    return sorted(range(len(vals)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(vals[i] < vals[j]) else (1 if bool(vals[j] < vals[i]) else i - j)))


@impl(np.argsort)
def argsort(a, axis=-1, **k):
    a = A(a)
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    return np.array(_argsort(a.ravel_raw()), dtype=np.intp)


@impl(np.sort)
def sort(a, axis=-1, **k):
    a = A(a).copy()
    v = a.ravel_raw()
    if a.ndim != 1:
        raise Unsupported("sort nd")
    return SymArray.from_list([v[i] for i in _argsort(v)], a.nominal)


def _sort_method(self, axis=-1, **k):
    self[...] = sort(self)


def _argsort_method(self, axis=-1, **k):
    return argsort(self)


SymArray.sort = _sort_method
SymArray.argsort = _argsort_method


@impl(np.cumsum)
def cumsum(a, axis=None, **k):
    return np.add.accumulate(A(a))


SymArray.cumsum = lambda self, axis=None, **k: cumsum(self)


@impl(np.diff)
def diff(a, n=1, axis=-1, **k):
    a = A(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


@impl(np.clip)
def clip(a, lo, hi, **k):
    return np.minimum(np.maximum(A(a), lo), hi)


@impl(np.isin)
def isin(a, b, **k):
    a = A(a)
    bv = A(list(b) if isinstance(b, (set, frozenset)) else b).ravel_raw()
    return a.map(lambda x: _unlit(z3.Or(*[zb(x == y) for y in bv] or [z3.BoolVal(False)])), np.dtype(bool))


@impl(np.fft.irfft2)
def irfft2(a, s=None, axes=(-2, -1), **k):
    a = A(a)
    ax0, ax1 = axes
    s = tuple(int(x) for x in s) if s is not None else (a.shape[ax0], 2 * (a.shape[ax1] - 1))
    r = _c2c(a, s[0], ax0)
    return _irfft(r, s[1], ax1)


@impl(np.fft.irfft)
def irfft(a, n=None, axis=-1, **k):
    a = A(a)
    return _irfft(a, n or 2 * (a.shape[axis] - 1), axis)


@impl(np.fft.ifft)
def ifft(a, n=None, axis=-1, **k):
    a = A(a)
    return _c2c(a, n or a.shape[axis], axis)


@impl(np.fft.irfftn)
def irfftn(a, s=None, axes=None, **k):
    return irfft2(a, s, axes if axes is not None else (-2, -1))


def _fit(vals, n):
    return (list(vals) + [0.0] * n)[:n]


def _c2c(a, n, axis):
    """inverse complex DFT along axis, cropped or padded to n"""
    m = np.moveaxis(raw(a), axis, -1)
    out = np.empty(m.shape[:-1] + (n,), dtype=object)
    w = np.exp(2j * np.pi * np.arange(n) / n)
    for ix in np.ndindex(m.shape[:-1]):
        x = _fit(m[ix], n)
        for j in range(n):
            acc = SCplx(0.0, 0.0)
            for kk in range(n):
                acc = acc + SCplx.of(x[kk]) * complex(w[(j * kk) % n])
            out[ix + (j,)] = SCplx(acc.re / n, acc.im / n)
    r = np.moveaxis(out, -1, axis).view(SymArray)
    r.nominal = np.dtype("c16")
    return r


def _irfft(a, n, axis):
    m = np.moveaxis(raw(a), axis, -1)
    out = np.empty(m.shape[:-1] + (n,), dtype=object)
    nh = n // 2 + 1
    for ix in np.ndindex(m.shape[:-1]):
        x = [SCplx.of(v) for v in _fit(m[ix], nh)]
        for j in range(n):
            acc = x[0].re
            for kk in range(1, nh):
                ph = 2 * np.pi * ((j * kk) % n) / n
                if 2 * kk == n:
                    acc = acc + x[kk].re * float(np.cos(ph))
                else:
                    acc = acc + 2.0 * (x[kk].re * float(np.cos(ph)) - x[kk].im * float(np.sin(ph)))
            out[ix + (j,)] = acc / n if isinstance(acc, Sym) else np.float64(acc / n)
    r = np.moveaxis(out, -1, axis).view(SymArray)
    r.nominal = np.dtype("f8")
    return r


def frombuffer(buf, dtype=float, count=-1, offset=0, **k):
    from .files import PartBytes, as_cells, frombuffer_cells

    dt = norm_dtype(dtype)
    if isinstance(buf, PartBytes) and count is not None and count.__index__() >= 0:
        offset, count = offset.__index__(), count.__index__()
        buf = buf.need(offset + count * dt.itemsize)
        if buf is None:
            raise ValueError("buffer is smaller than requested size")
        a = frombuffer_cells(buf[offset:], dt)
        a.flags.writeable = False
        return a
    cells = as_cells(buf)
    if offset:
        cells = cells[offset.__index__():]
    count = -1 if count is None else count.__index__()
    if count >= 0:
        if len(cells) < count * dt.itemsize:
            raise ValueError("buffer is smaller than requested size")
        cells = cells[: count * dt.itemsize]
    elif len(cells) % dt.itemsize:
        raise ValueError("buffer size must be a multiple of element size")
    a = frombuffer_cells(cells, dt)
    a.flags.writeable = False
    return a


def fromfile(f, dtype=float, count=-1, sep="", offset=0, **k):
    from .files import as_cells, frombuffer_cells, open_virtual

    dt = norm_dtype(dtype)
    if not hasattr(f, "read_cells"):
        f = open_virtual(f, "rb")
    if offset:
        f.seek(offset, 1)
    count = count.__index__()
    cells = as_cells(f.read(-1 if count < 0 else count * dt.itemsize))
    n = len(cells) // dt.itemsize
    return frombuffer_cells(cells[: n * dt.itemsize], dt)


def allclose_scalar(a, b, **k):
    return allclose(a, b, **k)


class NumpyShim:
    """what `import numpy as np` gives to the code under test"""

    def __init__(self):
        self._cache = {}
        self._over = {
            "zeros": zeros, "ones": ones, "empty": empty, "full": full, "array": array, "asarray": asarray,
            "asanyarray": asarray, "ascontiguousarray": asarray, "linspace": linspace, "arange": arange,
            "frombuffer": frombuffer, "fromfile": fromfile, "fromiter": fromiter, "atleast_1d": atleast_1d,
            "dtype": norm_dtype_public, "ndarray": np.ndarray, "linalg": Sub(np.linalg), "fft": Sub(np.fft),
            "testing": np.testing, "float64": FloatType("float64"), "isscalar": lambda x: isinstance(x, Sym) or np.isscalar(x),
            "ndim": lambda x: 0 if isinstance(x, Sym) else np.ndim(x),
            "size": lambda x: 1 if isinstance(x, Sym) else np.size(x), "shape": lambda x: () if isinstance(x, Sym) else np.shape(x),
            "meshgrid": meshgrid,
        }
        self._over["float64"] = np.float64
        self._over["float32"] = np.float32
        for nm in ("float64", "float32", "int32", "int64", "double", "single", "intp", "int_"):
            self._over[nm] = scalar_type(getattr(np, nm))

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        hit = self._cache.get(name)
        if hit is not None:
            return hit
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            v = UfuncShim(v)
        elif callable(v) and not isinstance(v, type):
            v = from_any_lift(v)
        self._cache[name] = v
        return v


def FloatType(n):
    return getattr(np, n)


def norm_dtype_public(x, *a, **k):
    if a or k:
        return np.dtype(x, *a, **k)
    return norm_dtype(x)


class _ScalarMeta(type):
    def __call__(cls, x=0, *a):
        from .arrays import coerce_scalar

        if isinstance(x, np.ndarray) and x.ndim:
            return asarray(x, cls.real)
        if isinstance(x, (list, tuple)):
            return array(x, cls.real)
        return wrap(coerce_scalar(x, np.dtype(cls.real)))

    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            dt = getattr(o, "dtype", None)
            return dt is not None and dt == np.dtype(cls.real)
        return type.__instancecheck__(cls.real, o)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


_scalar_cache = {}


def scalar_type(t):
    """np.float64 and friends: callable on symbolic values, usable as a dtype"""
    if t in _scalar_cache:
        return _scalar_cache[t]
    s = _ScalarMeta(t.__name__, (), {"real": t, "dtype": np.dtype(t)})
    _scalar_cache[t] = s
    return s


class UfuncShim:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        return from_any_lift(self.f)(*a, **k)

    def reduce(self, a, axis=0, **k):
        return self.f.reduce(A(a), axis=axis, **k)

    def outer(self, a, b):
        return self.f.outer(A(a), A(b))

    def accumulate(self, a, **k):
        return self.f.accumulate(A(a), **k)

    def at(self, *a):
        return self.f.at(*a)


class Sub:
    def __init__(self, mod):
        self._m = mod

    def __getattr__(self, n):
        v = getattr(self._m, n)
        return from_any_lift(v) if callable(v) and not isinstance(v, type) else v


def meshgrid(*xi, **k):
    r = np.meshgrid(*[raw(A(x)) for x in xi], **k)
    out = []
    for x, m in zip(xi, r):
        v = m.view(SymArray)
        v.nominal = A(x).nominal
        out.append(v)
    return out


def reshape(a, shape, order="C", **k):
    a = A(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    return a.reshape(tuple(x.__index__() for x in shape), order=order)


FUNCS[np.reshape] = reshape


@impl(np.isreal)
def isreal(a):
    return True


@impl(np.real)
def real(a):
    return A(a).real


@impl(np.size)
def size(a, axis=None):
    return A(a).size if axis is None else A(a).shape[axis]


@impl(np.shape)
def shape(a):
    return A(a).shape


@impl(np.ndim)
def ndim(a):
    return A(a).ndim


@impl(np.broadcast_to)
def broadcast_to(a, shape, **k):
    a = A(a)
    r = np.broadcast_to(raw(a), shape).view(SymArray)
    r.nominal = a.nominal
    return r


@impl(np.copyto)
def copyto(dst, src, **k):
    dst[...] = src


@impl(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(r.all() if isinstance(r, SymArray) else r)


@impl(np.einsum)
def einsum(*a, **k):
    raise Unsupported("einsum")


@impl(np.median)
def median(*a, **k):
    raise Unsupported("median")
