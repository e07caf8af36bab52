"""Virtual files: binary content is a list of cells, text content is a str with placeholders."""

import io
import os

import numpy as np
import z3

from . import core
from .core import SBits, SInt, SReal, Sym, Unsupported, ctx

VFS = {}


class SymBytes(bytes):
    """bytes whose content is partly symbolic; `cells` holds ints, (value, fmt, byte) or ('txt', token, k)"""

    @staticmethod
    def make(cells):
        if all(isinstance(c, int) for c in cells):
            return bytes(cells)
        b = bytes.__new__(SymBytes, [c if isinstance(c, int) else 0xFF for c in cells])
        b.cells = list(cells)
        return b

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes.make(self.cells[k])
        c = self.cells[k.__index__()]
        if isinstance(c, int):
            return c
        return SInt(z3.BV2Int(cell_bv(c)))

    def __iter__(self):
        return iter([self[i] for i in range(len(self.cells))])

    def __add__(self, o):
        return SymBytes.make(self.cells + as_cells(o))

    def __radd__(self, o):
        return SymBytes.make(as_cells(o) + self.cells)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return False
        oc = as_cells(o)
        if len(oc) != len(self.cells):
            return False
        r = z3.And(*[cells_equal(a, b) for a, b in zip(self.cells, oc)])
        return core.SBool(r)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            raise Unsupported("bytes.split with a separator")
        out, cur = [], []
        ws = b" \t\n\r\x0b\x0c"
        for c in self.cells:
            if isinstance(c, int) and c in ws:
                if cur:
                    out.append(SymBytes.make(cur))
                cur = []
            else:
                cur.append(c)
        if cur:
            out.append(SymBytes.make(cur))
        return out

    def _strip(self, left, right, chars=None):
        ws = chars if chars is not None else b" \t\n\r\x0b\x0c"
        c = list(self.cells)
        if left:
            while c and isinstance(c[0], int) and c[0] in ws:
                c.pop(0)
        if right:
            while c and isinstance(c[-1], int) and c[-1] in ws:
                c.pop()
        return SymBytes.make(c)

    def strip(self, chars=None):
        return self._strip(True, True, chars)

    def lstrip(self, chars=None):
        return self._strip(True, False, chars)

    def rstrip(self, chars=None):
        return self._strip(False, True, chars)

    def decode(self, *a, **k):
        out = []
        for c in self.cells:
            if isinstance(c, int):
                out.append(chr(c))
            elif c[0] == "txt":
                out.append(c[1])
            else:
                raise Unsupported("decoding symbolic binary data")
        return "".join(out)

    def ljust(self, n, fill=b" "):
        return SymBytes.make(self.cells + list(fill) * max(0, n - len(self.cells)))

    def rjust(self, n, fill=b" "):
        return SymBytes.make(list(fill) * max(0, n - len(self.cells)) + self.cells)

    def startswith(self, p, *a):
        n = len(p)
        return len(self.cells) >= n and bool(SymBytes.make(self.cells[:n]) == p)

    def hex(self, *a):
        raise Unsupported("hex of symbolic bytes")

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        return f"<SymBytes {len(self.cells)}>"


class PartBytes(bytes):
    """what is left of a file that ends early: the first n of `full`, 0 <= n < len(full)"""

    @staticmethod
    def make_part(full, n):
        b = bytes.__new__(PartBytes, b"?")
        b.full, b.n, b.whole = full, n, None
        return b

    def trim(self):
        if self.whole is None:
            self.whole = SymBytes.make(self.full[: self.n.__index__()])
        return self.whole

    def need(self, k):
        """the first k cells, or None if there are fewer"""
        if self.whole is not None:
            c = as_cells(self.whole)
            return c[:k] if len(c) >= k else None
        return self.full[:k] if k < len(self.full) and bool(self.n >= k) else None

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and isinstance(k.stop, int) and k.stop >= 0 and (k.start or 0) >= 0:
            c = self.need(k.stop)
            if c is not None:
                return SymBytes.make(c[k.start or 0:])
        return self.trim()[k]

    def __iter__(self):
        return iter(self.trim())

    def __len__(self):
        return len(self.trim())

    def __bool__(self):
        return bool(self.n > 0)

    def __add__(self, o):
        return self.trim() + o

    def __radd__(self, o):
        return o + self.trim()

    def __eq__(self, o):
        if isinstance(o, bytes) and not isinstance(o, (SymBytes, PartBytes)) and o == b"":
            return not bool(self.n > 0)
        if isinstance(o, bytes) and len(o) >= len(self.full):
            return False
        return self.trim() == o

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def __repr__(self):
        return "<PartBytes>"


for _n in ("split", "strip", "lstrip", "rstrip", "decode", "ljust", "rjust", "startswith", "hex"):
    setattr(PartBytes, _n, lambda self, *a, _n=_n, **k: getattr(self.trim(), _n)(*a, **k))


def encode_text(s, *a, **k):
    from .text import BASE

    cells = []
    for ch in s:
        if ord(ch) >= BASE:
            cells.append(("txt", ch, 0))
        else:
            cells += list(ch.encode("utf-8"))
    return SymBytes.make(cells)


def as_cells(b):
    if isinstance(b, PartBytes):
        b = b.trim()
    if isinstance(b, SymBytes):
        return list(b.cells)
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    if isinstance(b, memoryview):
        return list(bytes(b))
    from .arrays import SymArray, array_cells, box

    if isinstance(b, SymArray):
        return array_cells(b)
    if isinstance(b, np.ndarray) or isinstance(b, np.generic):
        return list(b.tobytes())
    if isinstance(b, Sym):
        return array_cells(box(b))
    raise TypeError(f"a bytes-like object is required, not '{type(b).__name__}'")


def value_bv(v, fmt):
    """bit pattern of a value stored with a struct code"""
    c = ctx()
    if fmt in "df":
        w = 64 if fmt == "d" else 32
        if isinstance(v, SBits):
            return v.cast(w).bv
        if isinstance(v, (SReal, SInt)):
            t = core.zr(v)
            if fmt == "f":
                c.note("bytes of a symbolic real: uninterpreted")
            f = z3.Function(f"bits_{fmt}", z3.RealSort(), z3.BitVecSort(w))
            return f(t)
    if isinstance(v, SInt):
        return z3.Int2BV(v.t, {"i": 32, "q": 64, "h": 16}[fmt])
    raise Unsupported("bytes of a value")


def cell_bv(c):
    if isinstance(c, int):
        return z3.BitVecVal(c, 8)
    if c[0] == "txt":
        raise Unsupported("byte of a printed number")
    v, fmt, k = c
    b = value_bv(v, fmt)
    return z3.Extract(8 * k + 7, 8 * k, b)


def same_value(a, b):
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, SBits) and isinstance(b, SBits) and a.w == b.w:
        return a.bv == b.bv
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.t == b.t
    if isinstance(a, (SInt, SReal)) and isinstance(b, (SInt, SReal)):
        return core.zr(a) == core.zr(b)
    return None


def cells_equal(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    if not isinstance(a, int) and not isinstance(b, int):
        if a[0] == "txt" or b[0] == "txt":
            if a[0] == b[0]:
                if a[1] == b[1]:
                    return z3.BoolVal(True)
                (t1, k1), (t2, k2) = ctx().tokens[ord(a[1]) - 0xF0000], ctx().tokens[ord(b[1]) - 0xF0000]
                if t1.kind == t2.kind and t1.n == t2.n and t1.p == t2.p and t1.style == t2.style and k1 == k2:
                    e = same_value(t1.val, t2.val)
                    if e is not None:
                        return e
            return z3.BoolVal(False)
        if a[1] == b[1] and a[2] == b[2]:
            e = same_value(a[0], b[0])
            if e is not None:
                return e
    elif (not isinstance(a, int) and a[0] == "txt") or (not isinstance(b, int) and b[0] == "txt"):
        return z3.BoolVal(False)
    return cell_bv(a) == cell_bv(b)


def read_scalar(cells, kind, size, big):
    """value of `size` cells read as dtype kind/size with the given byte order"""
    if big:
        cells = cells[::-1]
    if all(isinstance(c, int) for c in cells):
        raw = bytes(cells)
        return np.frombuffer(raw, dtype="<" + {"f": "f", "i": "i", "u": "u", "b": "b"}.get(kind, kind) + str(size))[0]
    fmt = {("f", 8): "d", ("f", 4): "f", ("i", 4): "i", ("i", 8): "q", ("i", 2): "h"}.get((kind, size))
    c0 = cells[0]
    if fmt and not isinstance(c0, int) and c0[0] != "txt" and c0[1] == fmt and c0[2] == 0:
        v = c0[0]
        if all(not isinstance(c, int) and c[0] is v and c[1] == fmt and c[2] == k for k, c in enumerate(cells)):
            if isinstance(v, SBits) or not isinstance(v, SInt) or kind == "i":
                return v
            return SReal(i=v.t)
    bv = z3.simplify(z3.Concat(*[cell_bv(c) for c in cells[::-1]])) if size > 1 else cell_bv(cells[0])
    if kind == "f":
        return SBits(bv, 8 * size)
    return SInt(z3.BV2Int(bv, is_signed=(kind == "i")))


def frombuffer_cells(cells, dt):
    from .arrays import SymArray, SymRecord

    if dt.names:
        n = dt.itemsize
        recs = []
        for o in range(0, len(cells), n):
            vals = []
            for nm in dt.names:
                f, off = dt.fields[nm][:2]
                vals.append(_read_field(cells[o + off:o + off + f.itemsize], f))
            recs.append(SymRecord(dt, vals))
        a = SymArray((len(recs),), dt)
        raw = a.view(np.ndarray)
        for i, r in enumerate(recs):
            raw[i] = r
        return a
    n = dt.itemsize
    nom = dt
    a = SymArray((len(cells) // n,), nom)
    raw = a.view(np.ndarray)
    for i in range(len(cells) // n):
        raw[i] = _read_field(cells[i * n:(i + 1) * n], dt)
    return a


def _read_field(cells, f):
    if f.kind == "S":
        return SymBytes.make(cells).rstrip(b"\0")
    if f.kind in "fiu":
        return read_scalar(cells, f.kind, f.itemsize, f.byteorder == ">")
    if f.kind == "V":
        return SymBytes.make(cells)
    raise Unsupported(f"reading dtype {f}")


# ---------------------------------------------------------------------------
class SymFile:
    """binary file object"""

    def __init__(self, name, mode, cells):
        self.name = name
        self.mode = mode
        self.cells = cells
        self.pos = len(cells) if "a" in mode else 0
        self.closed = False
        self.limit = VFS_LIMIT.get(name)
        self.ended = False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return self.mode[0] in "wax" or "+" in self.mode

    def seekable(self):
        return True

    def read_cells(self, n=-1):
        self._chk()
        end = len(self.cells)
        if self.limit is not None:
            want = end if n is None or n < 0 else min(self.pos + n, end)
            if self.ended or not bool(self.limit >= want):
                # the true position is now the end of the file; staying behind `want` keeps every later read empty
                if self.ended or not bool(self.limit > self.pos):
                    self.ended = True
                    return []
                self.ended = True
                r = PartBytes.make_part(self.cells[self.pos:want], self.limit - self.pos)
                self.pos = want
                return r
        if n is None or n < 0:
            stop = end
        else:
            stop = min(end, self.pos + n)
        r = self.cells[self.pos:stop]
        self.pos = max(self.pos, stop) if stop >= self.pos else self.pos
        return r

    def read(self, n=-1):
        if not self.readable():
            raise io.UnsupportedOperation("read")
        if isinstance(n, (float, np.floating, SReal)):
            raise TypeError("argument should be integer or None, not 'float'")
        c = self.read_cells(-1 if n is None else n.__index__())
        return c if isinstance(c, PartBytes) else SymBytes.make(c)

    read1 = read

    def readinto(self, b):
        raise Unsupported("readinto")

    def peek(self, n=0):
        return SymBytes.make(self.cells[self.pos:self.pos + max(n, 1)])

    def readline(self):
        if self.limit is not None:
            raise Unsupported("readline of a truncated file")
        c = self.cells[self.pos:]
        k = next((i for i, x in enumerate(c) if x == 10), len(c) - 1)
        return SymBytes.make(self.read_cells(k + 1))

    def write(self, b):
        if not self.writable():
            raise io.UnsupportedOperation("write")
        c = as_cells(b)
        self.write_cells(c)
        return len(c)

    def writelines(self, lines):
        for ln in lines:
            self.write(ln)

    def write_cells(self, c):
        self._chk()
        if not self.writable():
            raise io.UnsupportedOperation("write")
        if self.pos > len(self.cells):
            self.cells.extend([0] * (self.pos - len(self.cells)))
        self.cells[self.pos:self.pos + len(c)] = c
        self.pos += len(c)

    def seek(self, off, whence=0):
        off = off.__index__()
        if self.limit is not None:
            if self.ended and (whence != 1 or off < 0) or whence == 2:
                raise Unsupported("seek in a truncated file")
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.cells) + off
        if self.pos < 0:
            raise OSError("Invalid argument")
        return self.pos

    def tell(self):
        if self.ended:
            raise Unsupported("tell in a truncated file")
        return self.pos

    def flush(self):
        pass

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.cells[n:]

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        raise Unsupported("line iteration of a binary file")

    def __del__(self):
        pass


class SymText(io.StringIO):
    """text file object"""

    def __init__(self, name, mode, content):
        super().__init__(content)
        self.name = name
        self.mode = mode
        if "a" in mode:
            self.seek(0, 2)

    def _sync(self):
        if not self.closed and self.mode[0] in "wax+":
            VFS[self.name] = self.getvalue()

    def flush(self):
        self._sync()

    def close(self):
        self._sync()
        super().close()


VFS_LIMIT = {}


def path_of(p):
    if isinstance(p, (str, bytes)):
        return p if isinstance(p, str) else p.decode()
    return os.fspath(p)


def open_virtual(file, mode="r", *a, **k):
    from .chars import CharPath, CharStr

    if isinstance(file, (CharStr, CharPath)):
        raise FileNotFoundError(2, "No such file or directory", "<path>")
    name = path_of(file)
    binary = "b" in mode
    if mode[0] == "r":
        if name not in VFS:
            raise FileNotFoundError(2, "No such file or directory", name)
        content = VFS[name]
        if binary:
            if isinstance(content, str):
                content = VFS[name] = list(encode_bytes(content))
            return SymFile(name, mode, content)
        if not isinstance(content, str):
            content = SymBytes.make(content)
            content = content.decode("utf-8") if isinstance(content, SymBytes) else content.decode()
        return SymText(name, mode, content)
    if mode[0] == "x" and name in VFS:
        raise FileExistsError(17, "File exists", name)
    if binary:
        cells = VFS.get(name) if mode[0] == "a" else None
        if not isinstance(cells, list):
            cells = []
        VFS[name] = cells
        return SymFile(name, mode, cells)
    content = VFS.get(name, "") if mode[0] == "a" else ""
    if not isinstance(content, str):
        raise Unsupported("appending text to binary")
    VFS[name] = content
    return SymText(name, mode, content)


def encode_bytes(s):
    b = encode_text(s)
    return as_cells(b)
