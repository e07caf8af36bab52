"""Builtins and standard-library modules as the code under test sees them."""

import builtins
import io
import itertools
import math
import os
import pathlib
import struct
import sys
import types

import numpy as np
import z3

from . import chars, core, files, text
from .core import SBits, SBool, SInt, SReal, SStr, Sym, Unsupported, ctx
from .files import SymBytes, open_virtual


# ---------------------------------------------------------------------------
# int, float, bool as callables and types
# ---------------------------------------------------------------------------
class _IntMeta(type):
    def __call__(cls, x=0, *a, **k):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return x._i()
        if isinstance(x, (SReal, SBits)):
            return x.trunc_int()
        if isinstance(x, SymBytes):
            return text.parse_int(x.decode())
        if isinstance(x, str) and text.has_tokens(x):
            return text.parse_int(x)
        if isinstance(x, SStr):
            x = x.conc()
        if isinstance(x, chars.CharStr):
            return chars.to_int(x)
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype.kind != "U":
            return cls(x.reshape(-1)[0], *a, **k)
        return int(x, *a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (int, SInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SInt))

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(int, metaclass=_IntMeta):
    pass


IntShim.__name__ = "int"


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, SReal):
            return x
        if isinstance(x, SBits):
            return x.cast(64)
        if isinstance(x, SInt):
            return SReal(i=x.t)
        if isinstance(x, SBool):
            return SReal(i=x._i().t)
        if isinstance(x, SymBytes):
            return text.parse_float(x.decode())
        if isinstance(x, str) and text.has_tokens(x):
            return text.parse_float(x)
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype.kind != "U":
            return cls(x.reshape(-1)[0])
        return float(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (float, SReal)) or (isinstance(o, SBits) and o.w == 64)

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SReal))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatShim(float, metaclass=_FloatMeta):
    pass


FloatShim.__name__ = "float"


class _BoolMeta(type):
    def __call__(cls, x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, (SInt, SReal, SBits)):
            return x != 0
        return bool(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SBool))


class BoolShim(int, metaclass=_BoolMeta):
    pass


BoolShim.__name__ = "bool"


class _StrMeta(type):
    def __call__(cls, x="", *a, **k):
        if isinstance(x, SymBytes):
            return x.decode()
        if isinstance(x, (SStr, chars.CharStr)):
            return x
        if isinstance(x, chars.CharPath):
            return x.text()
        if isinstance(x, Sym):
            return format(x, "")
        return str(x, *a, **k) if a or k else str(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (str, SStr, chars.CharStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (str, SStr))

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)


class StrShim(str, metaclass=_StrMeta):
    pass


StrShim.__name__ = "str"


def sh_isinstance(o, t):
    if isinstance(t, tuple):
        return any(sh_isinstance(o, x) for x in t)
    if isinstance(o, Sym):
        if t in (np.floating, np.inexact):
            return isinstance(o, (SReal, SBits))
        if t in (np.integer, np.signedinteger):
            return isinstance(o, SInt)
        if t in (np.number, np.generic):
            return isinstance(o, (SReal, SBits, SInt))
        import numbers

        if t in (numbers.Number, numbers.Real):
            return isinstance(o, (SReal, SBits, SInt))
        if t in (numbers.Integral,):
            return isinstance(o, SInt)
    return isinstance(o, t)


def sh_min(*a, **k):
    return _mm(builtins.min, core.sym_min, a, k)


def sh_max(*a, **k):
    return _mm(builtins.max, core.sym_max, a, k)


def _mm(nat, sym, a, k):
    if k:
        return nat(*a, **k)
    vals = list(a) if len(a) > 1 else list(a[0])
    if any(isinstance(v, Sym) or (isinstance(v, np.ndarray) and v.size == 1) for v in vals):
        vals2 = [v.reshape(-1)[0] if isinstance(v, np.ndarray) and v.size == 1 else v for v in vals]
        if any(isinstance(v, Sym) for v in vals2):
            r = vals2[0]
            for v in vals2[1:]:
                r = sym(r, v)
            return r
    return nat(vals)


def sh_abs(x):
    return abs(x)


def sh_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sh_round(x, n=None):
    if isinstance(x, SBits):
        x = x.to_real()
    return x.__round__(n) if isinstance(x, Sym) else (round(x) if n is None else round(x, n))


def sh_len(x):
    if isinstance(x, files.PartBytes):
        return x.n
    return len(x)


def sh_range(*a):
    c = core.Ctx.cur
    if c is not None and c.sparse is not None:
        r = c.sparse.range(a)
        if r is not None:
            return r
    return range(*[x.__index__() if isinstance(x, SInt) else x for x in a])


def sh_any(it):
    for x in it:
        if bool(x):
            return True
    return False


def sh_all(it):
    for x in it:
        if not bool(x):
            return False
    return True


def sh_print(*a, **k):
    pass


def sh_pow(a, b, m=None):
    return pow(a, b) if m is None else pow(a, b, m)


def sh_bytes(*a, **k):
    if a and isinstance(a[0], SymBytes):
        return a[0]
    if a and isinstance(a[0], (list, tuple)) and any(not isinstance(x, int) for x in a[0]):
        raise Unsupported("bytes() of symbolic values")
    return bytes(*a, **k)


class _BytesMeta(type):
    def __call__(cls, *a, **k):
        return sh_bytes(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, bytes)

    def __subclasscheck__(cls, c):
        return issubclass(c, bytes)


class BytesShim(bytes, metaclass=_BytesMeta):
    pass


# -- rewritten operations ------------------------------------------------------
def sx_mod(a, b):
    if isinstance(a, (str, bytes)) and not isinstance(a, SStr):
        vals = b if isinstance(b, tuple) else (b,)
        if any(isinstance(v, Sym) for v in vals):
            return text.sym_percent(a, b)
        if isinstance(a, str):
            return a % b
    return a % b


def sx_encode(obj, *a, **k):
    if isinstance(obj, str) and text.has_tokens(obj):
        return files.encode_text(obj)
    return obj.encode(*a, **k)


def sx_join(obj, it):
    if isinstance(obj, bytes):
        parts = list(it)
        if any(isinstance(p, SymBytes) for p in parts):
            cells = []
            for i, p in enumerate(parts):
                if i:
                    cells += list(obj)
                cells += files.as_cells(p)
            return SymBytes.make(cells)
        return obj.join(parts)
    if isinstance(obj, str):
        return obj.join([p.conc() if isinstance(p, SStr) else p for p in it])
    return obj.join(it)


# ---------------------------------------------------------------------------
# modules
# ---------------------------------------------------------------------------
class Mod(types.ModuleType):
    def __init__(self, name, base, over):
        super().__init__(name)
        self.__dict__["_base"] = base
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


def _m1(native, sym):
    def f(x):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, SBits):
            x = x.to_real()
        if isinstance(x, Sym):
            return sym(x)
        return native(x)

    return f


def _unsup(name):
    def f(x):
        raise Unsupported(name)

    return f


def _msqrt(x):
    r = core.sym_sqrt(x)
    if not isinstance(r, Sym) and np.isnan(r):
        raise ValueError("math domain error")
    return r


def _atan(x):
    c = ctx()
    key = ("atan", z3.simplify(core.zr(x)).get_id())
    hit = c.memo.get(key)
    if hit is None:
        c.note("atan of a symbolic value: uninterpreted")
        hit = c.memo[key] = (core.zr(x), SReal(z3.Real(c.fresh("atan"))))
    return hit[1]


def _log(x):
    """some real t with 1 - 1/x <= t <= x - 1, as the logarithm is"""
    c = ctx()
    y = core.zr(x)
    n = c.memo["logs"] = c.memo.get("logs", 0) + 1
    limit, free, lo, hi = getattr(c, "logs", None) or (None, 0, 0, 0)
    if limit is not None and n > limit:
        raise core.AssumeFailed()
    if not bool(x > 0):
        raise ValueError("math domain error")
    if n <= free:
        t = SReal(z3.Real(c.fresh("free")))
        c.assume(core.SBool(z3.And(t.t >= core.zr(lo), t.t <= core.zr(hi))))
        return t
    key = ("log", z3.simplify(y).get_id())
    hit = c.memo.get(key)
    if hit is None:
        c.note("log of a symbolic value: any t with 1 - 1/x <= t <= x - 1")
        t = z3.Real(c.fresh("log"))
        c.assume(core.SBool(z3.And(t <= y - 1, t * y >= y - 1)))
        hit = c.memo[key] = (y, SReal(t))
    return hit[1]


def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    m = core.sym_max(rel_tol * core.sym_max(abs(a), abs(b)), abs_tol)
    return d <= m


def _hypot(*a):
    if any(isinstance(x, Sym) for x in a):
        s = a[0] * a[0]
        for x in a[1:]:
            s = s + x * x
        return core.sym_sqrt(s)
    return math.hypot(*a)


def _dist(p, q):
    return _hypot(*[a - b for a, b in zip(p, q)])


def _mprod(it, start=1):
    r = start
    for x in it:
        r = r * x
    return r


math_shim = Mod("math", math, {
    "sqrt": _m1(math.sqrt, _msqrt),
    "cos": _m1(math.cos, lambda x: core.sym_trig(x)[0]),
    "sin": _m1(math.sin, lambda x: core.sym_trig(x)[1]),
    "tan": _m1(math.tan, lambda x: core.sym_trig(x)[1] / core.sym_trig(x)[0]),
    "atan": _m1(math.atan, _atan),
    "fabs": _m1(math.fabs, abs),
    "floor": _m1(math.floor, lambda x: x.__floor__()),
    "ceil": _m1(math.ceil, lambda x: x.__ceil__()),
    "trunc": _m1(math.trunc, lambda x: x.__trunc__()),
    "isnan": _m1(math.isnan, lambda x: False),
    "isinf": _m1(math.isinf, lambda x: False),
    "isfinite": _m1(math.isfinite, lambda x: True),
    "log": _m1(math.log, _log),
    "log10": _m1(math.log10, _unsup("log10")),
    "exp": _m1(math.exp, _unsup("exp")),
    "acos": _m1(math.acos, _unsup("acos")),
    "asin": _m1(math.asin, _unsup("asin")),
    "isclose": _isclose,
    "hypot": _hypot,
    "dist": _dist,
    "fsum": lambda it: sh_sum(it),
    "prod": _mprod,
    "pow": lambda a, b: a ** b,
})


def _calc(fmt):
    return struct.calcsize(fmt)


def _fields(fmt):
    """(order, [(code, size)]) of a struct format"""
    order = "@"
    if fmt and fmt[0] in "@=<>!":
        order, fmt = fmt[0], fmt[1:]
    out = []
    num = ""
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ""
        if ch in "sx":
            out.append((ch, n))
        else:
            size = struct.calcsize("<" + ch) if order != "@" else struct.calcsize(ch)
            out += [(ch, size)] * n
    return order, out


def sh_unpack(fmt, buf):
    fmt = fmt.decode() if isinstance(fmt, bytes) else fmt
    if isinstance(buf, files.PartBytes):
        n = struct.calcsize(fmt)
        c = buf.need(n)
        if c is None or bool(buf.n > n):
            raise struct.error(f"unpack requires a buffer of {n} bytes")
        buf = SymBytes.make(c)
    if not isinstance(buf, SymBytes):
        return struct.unpack(fmt, buf)
    if len(buf) != struct.calcsize(fmt):
        raise struct.error(f"unpack requires a buffer of {struct.calcsize(fmt)} bytes")
    order, fl = _fields(fmt)
    big = order in ">!"
    out, pos = [], 0
    for code, size in fl:
        cells = buf.cells[pos:pos + size]
        pos += size
        if code == "x":
            continue
        if code == "s":
            out.append(SymBytes.make(cells))
        else:
            kind = "f" if code in "fd" else "i" if code in "bhilqn" else "u"
            v = files.read_scalar(cells, kind, size, big)
            if not isinstance(v, Sym):
                v = v.item()
            elif isinstance(v, SBits):
                v = v.cast(64)
            out.append(v)
    return tuple(out)


def sh_pack(fmt, *vals):
    if not any(isinstance(v, Sym) for v in vals):
        return struct.pack(fmt, *vals)
    order, fl = _fields(fmt)
    big = order in ">!"
    vals = list(vals)
    cells = []
    for code, size in fl:
        if code == "x":
            cells += [0] * size
            continue
        v = vals.pop(0)
        if isinstance(v, Sym):
            if code in "fd" and isinstance(v, SInt):
                v = SReal(i=v.t)
            if code == "f" and isinstance(v, SBits):
                v = v.cast(32)
            if code == "d" and isinstance(v, SBits):
                v = v.cast(64)
            cc = [(v, "i" if code == "l" and size == 4 else code, i) for i in range(size)]
            cells += cc[::-1] if big else cc
        else:
            cells += list(struct.pack((order if order != "@" else "=") + (f"{size}s" if code == "s" else code), v))
    return SymBytes.make(cells)


class SStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def unpack(self, b):
        return sh_unpack(self.format, b)

    def pack(self, *v):
        return sh_pack(self.format, *v)

    def unpack_from(self, b, offset=0):
        return sh_unpack(self.format, b[offset:offset + self.size])

    def iter_unpack(self, b):
        for o in range(0, len(b), self.size):
            yield self.unpack(b[o:o + self.size])


struct_shim = Mod("struct", struct, {
    "unpack": sh_unpack,
    "pack": sh_pack,
    "unpack_from": lambda fmt, b, offset=0: sh_unpack(fmt, b[offset:offset + struct.calcsize(fmt)]),
    "iter_unpack": lambda fmt, b: SStruct(fmt).iter_unpack(b),
    "Struct": SStruct,
})


class _BRMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, files.SymFile) and o.readable()


class BufferedReaderShim(metaclass=_BRMeta):
    pass


class _BWMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, files.SymFile) and o.writable()


class BufferedWriterShim(metaclass=_BWMeta):
    pass


class _IOBMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (files.SymFile, io.IOBase))


class IOBaseShim(metaclass=_IOBMeta):
    pass


class BytesIOShim(files.SymFile):
    def __init__(self, initial=b""):
        super().__init__("<bytesio>", "w+b", files.as_cells(initial))

    def getvalue(self):
        return SymBytes.make(list(self.cells))

    getbuffer = getvalue


io_shim = Mod("io", io, {
    "BufferedReader": BufferedReaderShim, "BufferedWriter": BufferedWriterShim, "IOBase": IOBaseShim,
    "BufferedIOBase": IOBaseShim, "RawIOBase": IOBaseShim, "BytesIO": BytesIOShim, "open": open_virtual,
})


class VPath(pathlib.PurePosixPath):
    def __new__(cls, *a):
        if len(a) == 1 and isinstance(a[0], chars.CharPath):
            return a[0]
        if len(a) == 1 and isinstance(a[0], chars.CharStr):
            return chars.CharPath(a[0])
        return super().__new__(cls, *a)

    def open(self, mode="r", *a, **k):
        return open_virtual(str(self), mode)

    def exists(self):
        return str(self) in files.VFS

    is_file = exists

    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()

    def write_bytes(self, b):
        with self.open("wb") as f:
            return f.write(b)

    def read_text(self, *a, **k):
        with self.open() as f:
            return f.read()

    def write_text(self, s, *a, **k):
        with self.open("w") as f:
            return f.write(s)

    def stat(self):
        return types.SimpleNamespace(st_size=_size(str(self)))

    def resolve(self):
        return self

    def expanduser(self):
        return self


def _arbitrary(p):
    return isinstance(p, (chars.CharStr, chars.CharPath))


def _text(p):
    return p.text() if isinstance(p, chars.CharPath) else p


def _size(p):
    c = files.VFS[files.path_of(p)]
    n = len(c) if not isinstance(c, str) else len(files.encode_bytes(c))
    lim = files.VFS_LIMIT.get(files.path_of(p))
    return n if lim is None else lim


pathlib_shim = Mod("pathlib", pathlib, {"Path": VPath, "PosixPath": VPath, "PurePath": VPath})
ospath_shim = Mod("os.path", os.path, {
    "exists": lambda p: not _arbitrary(p) and files.path_of(p) in files.VFS,
    "isfile": lambda p: not _arbitrary(p) and files.path_of(p) in files.VFS,
    "splitext": lambda p: chars.splitext(_text(p)) if _arbitrary(p) else os.path.splitext(p),
    "basename": lambda p: chars.basename(_text(p)) if _arbitrary(p) else os.path.basename(p),
    "dirname": lambda p: chars.dirname(_text(p)) if _arbitrary(p) else os.path.dirname(p),
    "getsize": _size,
})


def _refuse(*a, **k):
    raise Unsupported("file system operation")


os_shim = Mod("os", os, {
    "path": ospath_shim, "remove": _refuse, "unlink": _refuse, "rename": _refuse, "replace": _refuse,
    "open": _refuse, "fstat": _refuse, "stat": lambda p: types.SimpleNamespace(st_size=_size(p)),
    "system": _refuse, "fspath": lambda p: _text(p) if _arbitrary(p) else os.fspath(p),
})


def _repeat(obj, times=None):
    if times is None:
        return itertools.repeat(obj)
    c = ctx()
    if c.sparse is not None:
        r = c.sparse.range((times,))
        if r is not None:
            return (obj for _ in r)
    return itertools.repeat(obj, times.__index__())


itertools_shim = Mod("itertools", itertools, {"repeat": _repeat})


class Logger:
    """pymech's logger is observable only on stderr: dropped"""

    def __init__(self):
        self.level = 0

    def _log(self, *a, **k):
        pass

    debug = info = warning = warn = error = critical = exception = log = _log

    def setLevel(self, *a):
        pass

    def isEnabledFor(self, lvl):
        return False

    def addHandler(self, *a):
        pass


MODULES = {}


def install_modules():
    from . import xr
    from .npfuncs import NumpyShim

    if MODULES:
        return
    MODULES.update({
        "numpy": NumpyShim(), "math": math_shim, "struct": struct_shim, "io": io_shim, "os": os_shim,
        "os.path": ospath_shim, "pathlib": pathlib_shim, "itertools": itertools_shim,
        "re": chars.re_shim,
    })
    MODULES.update(xr.modules())


def shim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in MODULES:
        return MODULES[name]
    if level == 0 and "." in name and name.split(".")[0] in MODULES:
        root = MODULES[name.split(".")[0]]
        if not fromlist:
            return root
        m = root
        for part in name.split(".")[1:]:
            m = getattr(m, part)
        return m
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d.update({
        "int": IntShim, "float": FloatShim, "bool": BoolShim, "str": StrShim, "bytes": BytesShim,
        "isinstance": sh_isinstance, "min": sh_min, "max": sh_max, "sum": sh_sum, "round": sh_round,
        "range": sh_range, "any": sh_any, "all": sh_all, "open": open_virtual, "print": sh_print,
        "__import__": shim_import, "__sx_mod__": sx_mod, "__sx_encode__": sx_encode, "__sx_join__": sx_join,
    })
    return d
