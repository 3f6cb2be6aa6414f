"""Symbolic values inside ordinary Python strings: registered tokens.

A token is  U+E000 <id> U+E001  ; C().tokens[id] = (value, format spec).
"""
from __future__ import annotations
import re
from .core import C, SymInt, SymBool, Sym

A, Z = "\ue000", "\ue001"
TOK = re.compile("\ue000(\\d+)\ue001")


def key_of(v):
    from .flt import SymFloat
    if isinstance(v, SymInt):
        return ("i",) + v.bits
    if isinstance(v, SymBool):
        return ("b", v.f)
    if isinstance(v, SymFloat):
        return ("f", tuple(sorted((b, k) for b, (x, k) in v.terms.items())), v.const,
                key_of(v.den) if v.den is not None else None)
    return ("o", id(v))


def token(v, spec):
    c = C()
    k = (key_of(v), spec)
    i = c.tokmap.get(k)
    if i is None:
        i = len(c.tokens)
        c.tokens[i] = (v, spec)
        c.tokmap[k] = i
    return "%s%d%s" % (A, i, Z)


def has_token(s):
    return isinstance(s, str) and str.__contains__(s, A)


def parts(s):
    """Split into list of str / (value, spec)."""
    s = str.__str__(s)
    out = []
    pos = 0
    for m in TOK.finditer(s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        out.append(C().tokens[int(m.group(1))])
        pos = m.end()
    if pos < len(s):
        out.append(s[pos:])
    return out


def as_int(s, base=10):
    """int(str, base) for strings with tokens; None if not understood."""
    from .symstr import SymStr, decimal, digit_value
    if isinstance(s, SymStr):
        if base == 10:
            return decimal(s)
        v = 0
        for c in s.cps:
            d = digit_value(c, base) if isinstance(c, Sym) else int(chr(c), base)
            if d is None:
                return None
            v = (v << (1 if base == 2 else 4)) | d
        return v
    t = s.strip()
    neg = False
    if t[:1] in "+-" and t[:1]:
        neg = t[0] == "-"
        t = t[1:]
    pre = None
    if t[:2].lower() in ("0x", "0b", "0o"):
        pre = t[1].lower()
        t = t[2:]
    m = TOK.fullmatch(t)
    if not m:
        # concatenation of fixed-width digit tokens, e.g. 02x 02x
        toks = parts(t)
        if base == 16 and toks:
            v = 0
            for p in toks:
                if isinstance(p, tuple):
                    if p[1] not in ("02x", "02X"):
                        return None
                    v = v * 256 + p[0]
                else:
                    v = v * 16 ** len(p) + int(p, 16)
            return -v if neg else v
        return None
    v, spec = C().tokens[int(m.group(1))]
    if not isinstance(v, (SymInt, SymBool)):
        return None
    sp = spec.lstrip("<>^=0123456789 ")
    kind = {"": "d", "d": "d", "n": "d", "x": "x", "X": "x", "#x": "#x", "#X": "#x", "b": "b", "#b": "#b",
            "o": "o", "#o": "#o"}.get(sp)
    ok = (base == 10 and kind == "d" and pre is None) \
        or (base == 16 and ((kind == "x" and pre in (None, "x")) or (kind == "#x" and pre is None))) \
        or (base == 2 and ((kind == "b" and pre in (None, "b")) or (kind == "#b" and pre is None))) \
        or (base == 0 and ((kind == "d" and pre is None) or (kind == "#x" and pre is None) or (kind == "x" and pre == "x")))
    if not ok:
        return None
    return -v if neg else v


def as_float(s):
    from .flt import tofloat
    t = s.strip()
    neg = False
    if t[:1] == "-":
        neg = True
        t = t[1:]
    m = TOK.fullmatch(t)
    if not m:
        return None
    v, spec = C().tokens[int(m.group(1))]
    v = tofloat(v)
    return -v if neg else v


_CONV = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])")


def percent(fmt, args):
    """str % args with symbolic values -> via format()."""
    single = not isinstance(args, (tuple, dict))
    seq = [args] if single else args
    it = iter(seq) if not isinstance(seq, dict) else None

    def rep(m):
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            return "%"
        v = seq[key] if key is not None else next(it)
        w = width or ""
        if conv in "sra":
            s = repr(v) if conv == "r" else str(v)
            if prec:
                s = s[:int(prec)]
            return s.rjust(int(w)) if w and "-" not in flags else (s.ljust(int(w)) if w else s)
        if not isinstance(v, Sym):
            return m.group(0).replace("(%s)" % key, "") % v if key else m.group(0) % v
        sp = ("<" if "-" in flags else "") + ("+" if "+" in flags else "") + ("#" if "#" in flags else "") + \
             ("0" if "0" in flags else "") + w + ("." + prec if prec else "") + ("d" if conv in "iu" else conv)
        if conv == "c":
            sp = "c"
        from .flt import SymFloat, tofloat
        if conv in "eEfFgG" and isinstance(v, (SymInt, SymBool)):
            v = tofloat(v)
        if conv in "diuoxX" and isinstance(v, SymFloat):
            v = v.__trunc__()
        return format(v, sp)
    return _CONV.sub(rep, fmt)
