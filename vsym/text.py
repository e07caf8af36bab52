"""Text rendering and parsing of symbolic numbers.

A formatted symbolic number becomes a run of private-use characters, one per
column, so that ordinary str slicing, splitting and concatenation in the code
under test act on the real column layout.  int() and float() recognise the runs.
"""

import re

import z3

from .core import SBits, SBool, SInt, SReal, SStr, Unsupported, ctx, qval, zb

BASE = 0xF0000
_SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(z)?(#)?(0)?(\d+)?([_,])?(?:\.(\d+))?([a-zA-Z%])?$", re.S)


class Tok:
    __slots__ = ("kind", "val", "n", "p", "style", "var", "lead", "parsed")

    def __init__(self, kind, val, n, p=None, style=None, var=False):
        self.kind = kind
        self.val = val
        self.n = n
        self.p = p
        self.style = style
        self.var = var
        self.parsed = None


def has_tokens(s):
    return any(ord(ch) >= BASE for ch in s)


def _emit(tok):
    c = ctx()
    out = []
    for k in range(tok.n):
        out.append(chr(BASE + len(c.tokens)))
        c.tokens.append((tok, k))
    return "".join(out)


def cell_of(ch):
    """(token, position) for a placeholder character, None for an ordinary one"""
    o = ord(ch)
    if o < BASE:
        return None
    return ctx().tokens[o - BASE]


def provable(cond):
    c = ctx()
    s = z3.simplify(cond)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    key = ("prov", s.get_id(), len(c.conds))
    hit = c.memo.get(key)
    if hit is not None:
        return hit[1]
    if c.model is not None and z3.is_false(c.model.eval(s, model_completion=True)):
        r = False
    else:
        r = c._check(z3.Not(s)) == z3.unsat
    c.memo[key] = (s, r)
    return r


def max_digits(t):
    """smallest k such that |t| < 10**k is certain (up to 19)"""
    lo = 1
    for k in range(1, 20):
        if provable(z3.And(t < 10**k, t > -(10**k))):
            return k
    raise Unsupported("unbounded integer in text")


def format_sym(v, spec):
    if isinstance(v, SBits):
        v = v.to_real()
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported(f"format spec {spec!r}")
    fill, align, sign, _z, _alt, zero, width, _comma, prec, typ = m.groups()
    width = int(width) if width else 0
    if isinstance(v, SInt) and (typ in (None, "d", "i", "n")):
        return _fmt_int(v, width, zero, align, sign)
    if typ is None and isinstance(v, SReal):
        if v.i is not None or True:
            return _emit(Tok("r", v, 24, var=True))
    if typ in ("e", "E", "f", "F", "g", "G"):
        if isinstance(v, SInt):
            v = SReal(i=v.t)
        return _fmt_float(v, width, int(prec) if prec is not None else 6, typ, align, sign)
    if isinstance(v, SReal) and typ in ("d", "i"):
        raise ValueError(f"Unknown format code '{typ}' for object of type 'float'")
    raise Unsupported(f"format spec {spec!r}")


def _fmt_int(v, width, zero, align, sign):
    c = ctx()
    t = z3.simplify(v.t)
    if z3.is_int_value(t):
        return format(t.as_long(), ("0" if zero else "") + (str(width) if width else ""))
    nonneg = provable(t >= 0)
    d = max_digits(t)
    need = d if nonneg else d + 1
    if zero and width and nonneg and need <= width:
        return "0" * (width - need) + _emit(Tok("z", v, need))
    if width and need <= width and align in (None, ">"):
        return " " * (width - need) + _emit(Tok("i", v, need))
    # the width may overflow (or there is none): the number of digits decides the layout
    if not nonneg:
        nonneg = c.decide(t >= 0)
    a = t if nonneg else -t
    k = 1
    while not c.decide(a < 10**k):
        k += 1
        if k > 19:
            raise Unsupported("unbounded integer in text")
    n = k + (0 if nonneg else 1)
    s = _emit(Tok("i", v, n))
    pad = max(0, width - n)
    if align == "<":
        return s + " " * pad
    if align == "^":
        return " " * (pad // 2) + s + " " * (pad - pad // 2)
    return ("0" if zero else " ") * pad + s


def _fmt_float(v, width, p, typ, align, sign):
    body = (p + 2 if p > 0 else 1) + 4
    if typ in "eE":
        n = body + 1
        if width >= n and align in (None, ">"):
            return " " * (width - n) + _emit(Tok("e", v, n, p, typ))
        ctx_var = Tok("e", v, n, p, typ, var=True)
        return _emit(ctx_var)
    if typ in "fF":
        n = max(width, p + 12)
        return _emit(Tok("f", v, n, p, typ, var=True))
    return _emit(Tok("g", v, max(width, p + 7), p, typ, var=True))


def sym_percent(fmt, args):
    """the % operator on strings with symbolic arguments"""
    isb = isinstance(fmt, bytes)
    f = fmt.decode("latin-1") if isb else fmt
    if isinstance(args, dict):
        raise Unsupported("% with a mapping")
    vals = list(args) if isinstance(args, tuple) else [args]
    out = []
    pos = 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\d+))?[hlL]?([a-zA-Z%])", f):
        out.append(f[pos:m.start()])
        pos = m.end()
        flags, w, prec, typ = m.groups()
        if typ == "%":
            out.append("%")
            continue
        if w == "*":
            raise Unsupported("%*")
        if not vals:
            raise TypeError("not enough arguments for format string")
        v = vals.pop(0)
        if not isinstance(v, (SInt, SReal, SBits, SBool)):
            if isinstance(v, SStr):
                v = v.conc()
            out.append(("%" + flags + (w or "") + ("." + prec if prec else "") + typ) % (v,))
            continue
        if isinstance(v, SBool):
            v = v._i()
        align = "<" if "-" in flags else ""
        zero = "0" if "0" in flags else ""
        if typ in "di":
            if isinstance(v, (SReal, SBits)):
                v = v.trunc_int()
            out.append(format_sym(v, align + zero + (w or "") + "d"))
        elif typ in "eEfFgG":
            out.append(format_sym(v, align + zero + (w or "") + "." + (prec or "6") + typ))
        elif typ in "sr":
            out.append(format(format_sym(v, ""), (">" + w if w and not align else align + (w or "")) if w else ""))
        else:
            raise Unsupported(f"%{typ}")
    out.append(f[pos:])
    if vals:
        raise TypeError("not all arguments converted during string formatting")
    s = "".join(out)
    if isb:
        from .files import encode_text

        return encode_text(s)
    return s


# ---------------------------------------------------------------------------
def _runs(s):
    """split into ('lit', text) and ('tok', token, first, last) pieces"""
    out = []
    for ch in s:
        cell = cell_of(ch)
        if cell is None:
            if out and out[-1][0] == "lit":
                out[-1][1] += ch
            else:
                out.append(["lit", ch])
        else:
            tok, k = cell
            if out and out[-1][0] == "tok" and out[-1][1] is tok and out[-1][3] == k - 1:
                out[-1][3] = k
            else:
                out.append(["tok", tok, k, k])
    return out


def _digit_cells(tok, first, last):
    """characters of part of an integer token: ' ', '-' or digit terms"""
    c = ctx()
    t = tok.val.t
    neg = c.decide(t < 0)
    a = -t if neg else t
    k = 1
    while not c.decide(a < 10**k):
        k += 1
    cells = [z3.simplify((a / 10**j) % 10) for j in range(k - 1, -1, -1)]
    if neg:
        cells = ["-"] + cells
    pad = "0" if tok.kind == "z" else " "
    cells = [pad] * (tok.n - len(cells)) + cells
    return cells[first:last + 1]


def _strip_lit(runs):
    runs = [list(r) for r in runs]
    while runs and runs[0][0] == "lit":
        runs[0][1] = runs[0][1].lstrip()
        if runs[0][1]:
            break
        runs.pop(0)
    while runs and runs[-1][0] == "lit":
        runs[-1][1] = runs[-1][1].rstrip()
        if runs[-1][1]:
            break
        runs.pop()
    return runs


def _whole(runs):
    return len(runs) == 1 and runs[0][0] == "tok" and runs[0][2] == 0 and runs[0][3] == runs[0][1].n - 1


def parse_int(s, base=10):
    runs = _strip_lit(_runs(s))
    if _whole(runs) and runs[0][1].kind in "iz":
        return SInt(runs[0][1].val.t)
    if any(r[0] == "tok" and r[1].kind not in "iz" for r in runs):
        raise ValueError("invalid literal for int() with base 10")
    cells = []
    for r in runs:
        if r[0] == "lit":
            cells += list(r[1])
        else:
            cells += _digit_cells(r[1], r[2], r[3])
    return _from_digits(cells)


def _from_digits(cells):
    cells = list(cells)
    while cells and isinstance(cells[0], str) and cells[0].isspace():
        cells.pop(0)
    while cells and isinstance(cells[-1], str) and cells[-1].isspace():
        cells.pop()
    neg = False
    if cells and isinstance(cells[0], str) and cells[0] in "+-":
        neg = cells.pop(0) == "-"
    if not cells:
        raise ValueError("invalid literal for int() with base 10: ''")
    t = z3.IntVal(0)
    for ch in cells:
        if isinstance(ch, str):
            if not ch.isdigit():
                raise ValueError("invalid literal for int() with base 10")
            ch = z3.IntVal(int(ch))
        t = t * 10 + ch
    return SInt(z3.simplify(-t if neg else t))


def rounded(v, p, key=None):
    """value read back from v printed with p+1 significant digits"""
    c = ctx()
    if isinstance(v, SInt):
        v = SReal(i=v.t)
    done = c.memo.get(("rounded", v.t.get_id()))
    if done is not None and done[1] <= p:
        return v
    hit = c.memo.get(("round", v.t.get_id(), p))
    if hit is not None:
        return hit[1]
    if v.i is not None and provable(z3.And(v.i < 10 ** (p + 1), v.i > -(10 ** (p + 1)))):
        r = v
    else:
        r = SReal(z3.Real(c.fresh("printed")))
        x = v.t
        ax = z3.If(x >= 0, x, -x)
        e = qval(0.5) * z3.Q(1, 10**p) * ax
        c.assert_(z3.And(r.t - x <= e, x - r.t <= e))
        c.memo[("rounded", r.t.get_id())] = (r.t, p)
    c.memo[("round", v.t.get_id(), p)] = (v.t, r)
    return r


def _tok_float(tok):
    if tok.kind in "iz":
        return SReal(i=tok.val.t)
    if tok.kind == "r":
        return tok.val
    if tok.kind in "eg":
        return rounded(tok.val, tok.p if tok.kind == "e" else max(tok.p - 1, 0))
    # fixed point: absolute precision
    c = ctx()
    key = ("fix", tok.val.t.get_id(), tok.p)
    hit = c.memo.get(key)
    if hit is None:
        r = z3.Real(c.fresh("printed"))
        e = z3.Q(1, 2 * 10**tok.p)
        c.assert_(z3.And(r - tok.val.t <= e, tok.val.t - r <= e))
        hit = c.memo[key] = (tok.val.t, SReal(r))
    return hit[1]


def parse_float(s):
    c = ctx()
    runs = _strip_lit(_runs(s))
    if _whole(runs):
        return _tok_float(runs[0][1])
    toks = [r for r in runs if r[0] == "tok"]
    if toks and all(r[1].kind in "iz" for r in toks) and all(r[0] == "tok" or r[1].strip().isdigit() for r in runs):
        return SReal(i=parse_int(s).t)
    ftoks = [r for r in toks if r[1].kind not in "iz"]
    if len(ftoks) >= 2 and sum(1 for r in ftoks if r[2] <= 2 <= r[3]) >= 2:
        raise ValueError("could not convert string to float")  # two decimal points
    if len(runs) == 1 and runs[0][1].kind == "e" and runs[0][2] == 1 and runs[0][3] == runs[0][1].n - 1:
        # only the sign column is missing
        tok = runs[0][1]
        r = _tok_float(tok)
        return -r if c.decide(tok.val.t < 0) else r
    c.note("a printed number was cut or merged with another: arbitrary value")
    return SReal(z3.Real(c.fresh("havoc")))
