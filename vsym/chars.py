"""Strings of arbitrary characters (of a given length), pathlib paths made from
them, and regular expressions matched against them."""

import genericpath
import re
import sys
import types

import z3

try:
    from re import _compiler, _parser
    from re import _constants as C
except ImportError:  # pragma: no cover
    import sre_compile as _compiler
    import sre_constants as C
    import sre_parse as _parser

from .core import SBool, SInt, Sym, Unsupported, ctx, zb

ALL = "".join(map(chr, list(range(1, 0xD800)) + list(range(0xE000, sys.maxunicode + 1))))
_SETS = {}


def intervals(points):
    """sorted code points -> intervals; a run broken only by the surrogates counts as one"""
    out = []
    for p in points:
        if out and (p == out[-1][1] + 1 or (out[-1][1] == 0xD7FF and p == 0xE000)):
            out[-1][1] = p
        else:
            out.append([p, p])
    return out


def charset(key, pred):
    if key not in _SETS:
        _SETS[key] = intervals([ord(c) for c in ALL if pred(c)])
    return _SETS[key]


def regset(key, rx):
    if key not in _SETS:
        _SETS[key] = intervals([ord(c) for c in rx.findall(ALL)])
    return _SETS[key]


def member(code, ivs):
    """formula: the code point is in the set"""
    if isinstance(code, int):
        return z3.BoolVal(any(a <= code <= b for a, b in ivs))
    n = sum(b - a + 1 for a, b in ivs)
    if n > len(ALL) // 2:
        # a large set is written as the complement
        comp, prev = [], 1
        for a, b in ivs:
            if a > prev:
                comp.append((prev, a - 1))
            prev = b + 1
        if prev <= sys.maxunicode:
            comp.append((prev, sys.maxunicode))
        return z3.Not(member(code, comp))
    return z3.Or(*[code == a if a == b else z3.And(code >= a, code <= b) for a, b in ivs] or [z3.BoolVal(False)])


def codes_of(s):
    if isinstance(s, CharStr):
        return s.codes
    if isinstance(s, str):
        return [ord(c) for c in s]
    return None


def same(a, b):
    if len(a) != len(b):
        return z3.BoolVal(False)
    return z3.And(*[x == y if not (isinstance(x, int) and isinstance(y, int)) else z3.BoolVal(x == y) for x, y in zip(a, b)] or [z3.BoolVal(True)])


def make(codes):
    codes = list(codes)
    if all(isinstance(c, int) for c in codes):
        return "".join(map(chr, codes))
    return CharStr(codes)


def fork(cond):
    return bool(SBool(cond))


class CharStr(Sym):
    """a string whose characters are code-point terms"""

    __slots__ = ("codes",)

    def __init__(self, codes):
        self.codes = list(codes)

    def __len__(self):
        return len(self.codes)

    def __bool__(self):
        return bool(self.codes)

    def __iter__(self):
        return iter([make([c]) for c in self.codes])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return make(self.codes[k])
        return make([self.codes[k.__index__()]])

    def __eq__(self, o):
        o = codes_of(o)
        return False if o is None else SBool(same(self.codes, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else ~r

    def __hash__(self):
        raise Unsupported("hash of an arbitrary string")

    def __add__(self, o):
        o = codes_of(o)
        if o is None:
            return NotImplemented
        return make(self.codes + o)

    def __radd__(self, o):
        o = codes_of(o)
        if o is None:
            return NotImplemented
        return make(o + self.codes)

    def __contains__(self, x):
        return self.find(x) >= 0

    def __str__(self):
        return "<characters>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<characters>"

    def __fspath__(self):
        raise Unsupported("the path of an arbitrary string")

    def encode(self, *a, **k):
        raise Unsupported("encoding an arbitrary string")

    # -- searching: the position is decided, one path for each ---------------
    def _at(self, i, x):
        return same(self.codes[i:i + len(x)], x)

    def startswith(self, p, start=None, end=None):
        s = self.codes[slice(start, end)]
        ps = p if isinstance(p, tuple) else (p,)
        return SBool(z3.Or(*[same(s[:len(q)], codes_of(q)) for q in ps] or [z3.BoolVal(False)]))

    def endswith(self, p, start=None, end=None):
        s = self.codes[slice(start, end)]
        ps = p if isinstance(p, tuple) else (p,)
        return SBool(z3.Or(*[same(s[len(s) - len(q):], codes_of(q)) for q in ps if len(q) <= len(s)] or [z3.BoolVal(False)]))

    def find(self, x, start=None, end=None):
        return self._find(codes_of(x), start, end, False)

    def rfind(self, x, start=None, end=None):
        return self._find(codes_of(x), start, end, True)

    def _find(self, x, start, end, back):
        a, b, _ = slice(start, end).indices(len(self.codes))
        pos = list(range(a, b - len(x) + 1))
        for i in reversed(pos) if back else pos:
            if fork(self._at(i, x)):
                return i
        return -1

    def index(self, x, *a):
        i = self.find(x, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, x, *a):
        i = self.rfind(x, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, x):
        n, i = 0, 0
        while True:
            j = self.find(x, i)
            if j < 0:
                return n
            n, i = n + 1, j + len(x)

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("splitting an arbitrary string at white space")
        out, s = [], self
        while maxsplit:
            i = s.find(sep)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(sep):]
            maxsplit -= 1
        return out + [s]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("splitting an arbitrary string at white space")
        out, s = [], self
        while maxsplit:
            i = s.rfind(sep)
            if i < 0:
                break
            out.insert(0, s[i + len(sep):])
            s = s[:i]
            maxsplit -= 1
        return [s] + out

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if bool(self.endswith(p)) else self

    def _stripped(self, chars, left, right):
        key = ("strip", chars)
        ivs = charset(key, (lambda c: c in chars) if chars is not None else str.isspace)
        a, b = 0, len(self.codes)
        while left and a < b and fork(member(self.codes[a], ivs)):
            a += 1
        while right and b > a and fork(member(self.codes[b - 1], ivs)):
            b -= 1
        return self[a:b]

    def strip(self, chars=None):
        return self._stripped(chars, True, True)

    def lstrip(self, chars=None):
        return self._stripped(chars, True, False)

    def rstrip(self, chars=None):
        return self._stripped(chars, False, True)

    # -- classes of characters ------------------------------------------------
    def _every(self, name):
        if not self.codes:
            return False
        ivs = charset(name, getattr(str, name))
        return SBool(z3.And(*[member(c, ivs) for c in self.codes]))

    def isdigit(self):
        return self._every("isdigit")

    def isdecimal(self):
        return self._every("isdecimal")

    def isnumeric(self):
        return self._every("isnumeric")

    def isalpha(self):
        return self._every("isalpha")

    def isalnum(self):
        return self._every("isalnum")

    def isspace(self):
        return self._every("isspace")

    def isascii(self):
        return SBool(z3.And(*[z3.BoolVal(c < 128) if isinstance(c, int) else c < 128 for c in self.codes] or [z3.BoolVal(True)]))

    # letters beyond those that have to do with ASCII become some other letter
    def _cased(self, f):
        out = []
        tab = {}
        for a in ALL:
            b = f(a)
            if b != a and len(b) == 1 and (ord(a) < 128 or ord(b) < 128):
                tab[ord(a)] = ord(b)
        for c in self.codes:
            if isinstance(c, int):
                b = f(chr(c))
                if len(b) != 1:
                    raise Unsupported("case of a letter that becomes two")
                out.append(ord(b))
                continue
            key = ("case", f.__name__, c.get_id())
            m = ctx().memo
            if key not in m:
                t = z3.Int(ctx().fresh("case"))
                ctx().assert_(t >= 1)
                special = z3.Or(*[c == a for a in tab])
                ctx().assert_(z3.And(*[z3.Implies(c == a, t == b) for a, b in tab.items()]))
                ctx().assert_(z3.Implies(z3.And(c < 128, z3.Not(special)), t == c))
                ctx().assert_(z3.Implies(z3.And(c >= 128, z3.Not(special)), t >= 128))
                m[key] = (c, t)
            out.append(m[key][1])
        return CharStr(out)

    def lower(self):
        return self._cased(str.lower)

    def upper(self):
        return self._cased(str.upper)

    def casefold(self):
        return self._cased(str.casefold)

    def replace(self, a, b, count=-1):
        if len(a) == 1 and len(b) == 1:
            out = []
            x, y = codes_of(a)[0], codes_of(b)[0]
            for c in self.codes:
                out.append(z3.If(c == x, z3.IntVal(y) if isinstance(y, int) else y, c) if not isinstance(c, int) else (y if c == x else c))
            return make(out)
        parts = self.split(a, count)
        r = parts[0]
        for p in parts[1:]:
            r = r + b + p
        return r

    def conc(self):
        raise Unsupported("the characters of an arbitrary string")


def to_int(s):
    """int() of an arbitrary string: a number or ValueError"""
    ok = Pattern(re.compile(r"\s*[+-]?\d(_?\d)*\s*")).accepts(s.codes, "fullmatch")
    if not fork(ok):
        raise ValueError("invalid literal for int()")
    return SInt(z3.Int(ctx().fresh("int_of")))


# ---------------------------------------------------------------------------
# regular expressions
# ---------------------------------------------------------------------------
class Match:
    def __init__(self, s):
        self.string = s

    def __bool__(self):
        return True

    def __getattr__(self, name):
        raise Unsupported("details of a match of an arbitrary string")


class Pattern:
    """re.Pattern, which also takes arbitrary strings"""

    def __init__(self, rx):
        self.rx = rx
        self.tree = None

    def __getattr__(self, name):
        return getattr(self.rx, name)

    def _parse(self):
        if self.tree is None:
            self.tree = _parser.parse(self.rx.pattern, self.rx.flags & ~re.UNICODE if self.rx.flags & re.ASCII else self.rx.flags)
        return self.tree

    def _set(self, node, flags):
        """characters one node accepts, found with the real engine"""
        key = ("re", repr(node), flags)
        if key not in _SETS:
            st = _parser.State()
            st.flags = flags
            st.str = self.rx.pattern
            sub = _parser.SubPattern(st, [node])
            regset(key, _compiler.compile(sub, flags))
        return _SETS[key]

    def accepts(self, codes, how="match"):
        """formula: the pattern matches"""
        T = z3.BoolVal(True)
        n = len(codes)
        tree = self._parse()
        flags = tree.state.flags
        starts = {0: T} if how != "search" else {i: T for i in range(n + 1)}
        ends = self._seq(list(tree), codes, starts, flags)
        if how == "fullmatch":
            return ends.get(n, z3.BoolVal(False))
        return z3.Or(*ends.values()) if ends else z3.BoolVal(False)

    def _join(self, out, more):
        for p, c in more.items():
            out[p] = z3.Or(out[p], c) if p in out else c
        return out

    def _seq(self, nodes, codes, at, flags):
        for nd in nodes:
            at = self._node(nd, codes, at, flags)
            if not at:
                break
        return at

    def _node(self, nd, codes, at, flags):
        op, av = nd
        n = len(codes)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            ivs = self._set(nd, flags)
            out = {}
            for p, c in at.items():
                if p < n:
                    f = z3.simplify(z3.And(c, member(codes[p], ivs)))
                    if not z3.is_false(f):
                        self._join(out, {p + 1: f})
            return out
        if op == C.BRANCH:
            out = {}
            for alt in av[1]:
                self._join(out, self._seq(list(alt), codes, at, flags))
            return out
        if op == C.SUBPATTERN:
            _g, add, rem, sub = av
            return self._seq(list(sub), codes, at, (flags | add) & ~rem)
        if getattr(C, "ATOMIC_GROUP", None) is not None and op == C.ATOMIC_GROUP or op == getattr(C, "POSSESSIVE_REPEAT", 0):
            raise Unsupported("possessive pattern")
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            cur, out = dict(at), {}
            for _ in range(lo):
                cur = self._seq(list(sub), codes, cur, flags)
            self._join(out, cur)
            k = lo
            while cur and k < (n + lo + 1 if hi == C.MAXREPEAT else hi):
                nxt = self._seq(list(sub), codes, cur, flags)
                cur = {p: c for p, c in nxt.items() if p > min(cur)}
                self._join(out, cur)
                k += 1
            return out
        if op == C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and not (flags & re.MULTILINE and av == C.AT_BEGINNING):
                return {p: c for p, c in at.items() if p == 0}
            if av == C.AT_END_STRING:
                return {p: c for p, c in at.items() if p == n}
            if av == C.AT_END and not flags & re.MULTILINE:
                out = {}
                for p, c in at.items():
                    if p == n:
                        out[p] = c
                    elif p == n - 1:
                        out[p] = z3.And(c, zb(SBool(z3.BoolVal(codes[p] == 10) if isinstance(codes[p], int) else codes[p] == 10)))
                return out
            raise Unsupported("pattern anchor")
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                raise Unsupported("look-behind")
            out = {}
            for p, c in at.items():
                e = self._seq(list(sub), codes, {p: z3.BoolVal(True)}, flags)
                f = z3.Or(*e.values()) if e else z3.BoolVal(False)
                out[p] = z3.And(c, f if op == C.ASSERT else z3.Not(f))
            return out
        raise Unsupported(f"pattern element {op}")

    def _do(self, how, s, *a):
        if isinstance(s, CharStr):
            if a:
                raise Unsupported("matching from a position")
            return Match(s) if fork(self.accepts(s.codes, how)) else None
        return getattr(self.rx, how)(s, *a)

    def match(self, s, *a):
        return self._do("match", s, *a)

    def fullmatch(self, s, *a):
        return self._do("fullmatch", s, *a)

    def search(self, s, *a):
        return self._do("search", s, *a)


def _compile(p, flags=0):
    return p if isinstance(p, Pattern) else Pattern(re.compile(p, flags))


def _fn(name):
    def f(p, s, *a, flags=0, **k):
        if isinstance(s, CharStr):
            return getattr(_compile(p, *(a or (flags,))), name)(s)
        return getattr(re, name)(p.rx if isinstance(p, Pattern) else p, s, *a, **({"flags": flags} if flags else {}), **k)

    return f


re_shim = types.ModuleType("re")
re_shim.__dict__.update({k: v for k, v in vars(re).items() if not k.startswith("__")})
re_shim.__dict__.update({"compile": _compile, "match": _fn("match"), "fullmatch": _fn("fullmatch"), "search": _fn("search"), "Pattern": Pattern})
for _n in ("sub", "subn", "split", "findall", "finditer"):
    setattr(re_shim, _n, lambda p, *a, _n=_n, **k: getattr(re, _n)(p.rx if isinstance(p, Pattern) else p, *a, **k))


# ---------------------------------------------------------------------------
# paths
# ---------------------------------------------------------------------------
def splitext(p):
    return genericpath._splitext(p, "/", None, ".")


def basename(p):
    return p[p.rfind("/") + 1:]


def dirname(p):
    i = p.rfind("/") + 1
    head = p[:i]
    if head and not bool(head == "/" * len(head)):
        head = head.rstrip("/")
    return head


class CharPath:
    """pathlib.Path of an arbitrary string"""

    def __init__(self, s):
        parts = s.split("/")
        self.root = "/" if len(s) and bool(s[0] == "/") else ""
        self.parts_ = [x for x in parts if len(x) and not bool(x == ".")]

    @property
    def name(self):
        return self.parts_[-1] if self.parts_ else ""

    @property
    def suffix(self):
        return self._ext()[1]

    @property
    def stem(self):
        return self._ext()[0]

    def _ext(self):
        n = self.name
        i = n.rfind(".")
        if 0 < i < len(n) - 1:
            return n[:i], n[i:]
        return n, ""

    @property
    def suffixes(self):
        n = self.name
        if len(n) and bool(n[len(n) - 1:] == "."):
            return []
        n = n.lstrip(".")
        return ["." + x for x in n.split(".")[1:]]

    def text(self):
        if not self.parts_:
            return self.root or "."
        r = self.root
        for i, x in enumerate(self.parts_):
            r = r + ("/" if i else "") + x
        return r

    as_posix = text

    def __str__(self):
        return "<path>"

    def __fspath__(self):
        return "<path>"

    def open(self, *a, **k):
        raise FileNotFoundError(2, "No such file or directory", "<path>")

    def __getattr__(self, name):
        raise Unsupported("path attribute " + name)
