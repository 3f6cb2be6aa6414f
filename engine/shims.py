"""Builtins and standard-library stand-ins seen by the instrumented code."""
from __future__ import annotations
import builtins
import os
import math as _math
import json as _json
import struct as _struct
import types
from fractions import Fraction as Fr
from . import core, text, byts, flt, symstr
from .core import C, SymInt, SymBool, Sym, mk, mkbool, int_eq, sb_or, sb_and, sb_not, bounds, i_ite
from .byts import SymBytes, SymByteArray, bmk, items, isbytes
from .flt import SymFloat, tofloat


def issym(x):
    return isinstance(x, Sym)


def deepsym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, tuple):
        return any(deepsym(e) for e in x)
    return False


# ------------------------------------------------------------------ classes

class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        try:
            return issubclass(o, cls._real) or any(b is cls for b in getattr(o, "__mro__", ()))
        except TypeError:
            return False

    def __eq__(cls, o):
        return cls is o or o is cls._base

    def __hash__(cls):
        return hash(cls._base)

    def __repr__(cls):
        return repr(cls._base)

    def __getattr__(cls, n):
        return getattr(cls._base, n)


class IntProxy(metaclass=_Meta):
    _real = (int, SymInt, SymBool)
    _base = int

    def __new__(cls, x=0, *a, **k):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymFloat):
            return x.__trunc__()
        if text.has_token(x):
            base = a[0] if a else k.get("base", 10)
            r = text.as_int(x, base)
            if r is None:
                raise core.Unsupported("int() of a text with symbolic parts")
            return r
        if isinstance(x, SymBytes):
            return int(byts.sx_decode(x, "ascii", "strict"), *a, **k)
        return int(x, *a, **k)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if isinstance(b, SymBytes) or (isinstance(b, (list, tuple)) and any(issym(e) for e in b)):
            l = items(b)
            if byteorder == "big":
                l = l[::-1]
            bits = []
            for e in l:
                bits.extend(core.sext(core.tobits(e), 9)[:8])
            if not bits:
                return 0
            return mk(bits if signed else bits + [0])
        return int.from_bytes(b, byteorder, signed=signed)

    @staticmethod
    def bit_count(x):
        return x.bit_count()

    @staticmethod
    def bit_length(x):
        return x.bit_length()

    @staticmethod
    def to_bytes(x, *a, **k):
        return x.to_bytes(*a, **k)


class BoolProxy(metaclass=_Meta):
    _real = (bool, SymBool)
    _base = bool

    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return x.truth()
        return bool(x)


class FloatProxy(metaclass=_Meta):
    _real = (float, SymFloat)
    _base = float

    def __new__(cls, x=0.0):
        if isinstance(x, (SymInt, SymBool, SymFloat)):
            return tofloat(x)
        if text.has_token(x):
            r = text.as_float(x)
            if r is None:
                raise core.Unsupported("float() of a text with symbolic parts")
            return r
        return float(x)


class BytesProxy(metaclass=_Meta):
    _real = (bytes, SymBytes)
    _base = bytes

    def __new__(cls, x=b"", *a, **k):
        if isinstance(x, SymByteArray):
            return bmk(x.bs)
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return bytes(C().concretize(x, "bytes(n)"))
        if isinstance(x, (str, int, bytes, bytearray, memoryview)):
            return bytes(x, *a, **k)
        l = list(x)
        for e in l:
            if isinstance(e, SymInt):
                lo, hi = bounds(e)
                if (lo < 0 or hi > 255) and bool(sb_or(e < 0, e > 255)):
                    raise ValueError("bytes must be in range(0, 256)")
            elif isinstance(e, int) and not 0 <= e <= 255:
                raise ValueError("bytes must be in range(0, 256)")
        return bmk(l)

    @staticmethod
    def fromhex(s):
        if text.has_token(s):
            out = []
            for w in text.parts(s):
                if isinstance(w, tuple):
                    if w[1] != "02x":
                        raise ValueError("fromhex of symbolic text")
                    out.append(w[0])
                else:
                    out.extend(bytes.fromhex(w))
            return bmk(out)
        return bytes.fromhex(s)

    @staticmethod
    def join(sep, it):
        return byts.sx_join(sep, it)


class ByteArrayProxy(metaclass=_Meta):
    _real = (bytearray, SymByteArray)
    _base = bytearray

    def __new__(cls, x=b"", *a, **k):
        if isinstance(x, (str,)):
            return SymByteArray(bytes(x, *a, **k))
        if isinstance(x, int):
            return SymByteArray([0] * x)
        if isinstance(x, SymInt):
            return SymByteArray([0] * C().concretize(x))
        return SymByteArray(items(x) if isbytes(x) else list(x))

    @staticmethod
    def fromhex(s):
        return SymByteArray(bytes.fromhex(s))


class MemViewProxy(metaclass=_Meta):
    _real = (memoryview, SymBytes)
    _base = memoryview

    def __new__(cls, x):
        if isinstance(x, SymBytes):
            return x
        return memoryview(x)


_TYPEMAP = {int: IntProxy, bool: BoolProxy, float: FloatProxy, bytes: BytesProxy, bytearray: ByteArrayProxy,
            SymInt: IntProxy, SymBool: BoolProxy, SymFloat: FloatProxy, SymBytes: BytesProxy,
            SymByteArray: ByteArrayProxy, symstr.SymStr: str}


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            t = type(a[0])
            return _TYPEMAP.get(t, t)
        return type(*a, **k)

    def __getattr__(cls, n):
        return getattr(type, n)


class TypeProxy(metaclass=_TypeMeta):
    pass


for _p in (IntProxy, BoolProxy, FloatProxy, BytesProxy, ByteArrayProxy, MemViewProxy):
    _p.__name__ = _p.__qualname__ = _p._base.__name__
TypeProxy.__name__ = TypeProxy.__qualname__ = "type"


# ------------------------------------------------------------------ functions

def sx_hex(x):
    if isinstance(x, (SymInt, SymBool)):
        if bounds(x)[0] < 0 and bool(x < 0):
            return "-" + text.token(-x, "#x")
        return text.token(x, "#x")
    return hex(x)


def sx_bin(x):
    if isinstance(x, (SymInt, SymBool)):
        return text.token(x, "#b")
    return bin(x)


def sx_oct(x):
    if isinstance(x, (SymInt, SymBool)):
        return text.token(x, "#o")
    return oct(x)


def sx_chr(x):
    if isinstance(x, SymInt):
        return text.token(x, "c")
    return chr(x)


def sx_ord(x):
    if text.has_token(x):
        p = text.parts(x)
        if len(p) == 1 and isinstance(p[0], tuple) and p[0][1] == "c":
            return p[0][0]
    if isinstance(x, SymBytes):
        return x.bs[0]
    return ord(x)


class LazyRange:
    """range with a symbolic end: the end is decided step by step while iterating."""

    def __init__(self, a, n):
        self.a, self.n = a, n

    def fix(self):
        return range(self.a, C().concretize(self.n, "range"))

    def __iter__(self):
        i = self.a
        while i < self.n:
            yield i
            i += 1
        if i > self.a:
            C().concretize(self.n, "range")

    def __len__(self):
        return len(self.fix())

    def __getitem__(self, k):
        return self.fix()[k]

    def __reversed__(self):
        return reversed(self.fix())

    def __contains__(self, x):
        return bool(sb_and(x >= self.a, x < self.n))

    def __eq__(self, o):
        return self.fix() == (o.fix() if isinstance(o, LazyRange) else o)

    def __getattr__(self, k):
        return getattr(self.fix(), k)


def _rng(*a):
    if len(a) == 1 and isinstance(a[0], SymInt):
        return LazyRange(0, a[0])
    if len(a) == 2 and isinstance(a[1], SymInt) and isinstance(a[0], int):
        return LazyRange(a[0], a[1])
    return range(*[C().concretize(v, "range") if isinstance(v, (SymInt, SymBool)) else v for v in a])


class _RangeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (range, LazyRange))

    def __call__(cls, *a):
        return _rng(*a)


class RangeProxy(metaclass=_RangeMeta):
    pass


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sx_pow(a, b, m=None):
    if m is None:
        return a ** b
    if any(issym(v) for v in (a, b, m)):
        raise core.Unsupported('pow')
    return pow(a, b, m)


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


# ------------------------------------------------------------------ instrumentation helpers

def sx_in(x, c):
    if isinstance(c, SymBytes):
        return c.__contains__(x)
    if isinstance(c, (dict, set, frozenset, list, tuple, type({}.keys()), type({}.values()))):
        if deepsym(x):
            return sb_or(*[sx_eq(x, e) for e in list(c)])
        for e in c:
            if isinstance(e, Sym) or (isinstance(e, tuple) and deepsym(e)):
                break
        else:
            return x in c
        return sb_or(*[sx_eq(x, e) for e in list(c)])
    if isinstance(c, range) and isinstance(x, (SymInt, SymBool)):
        if len(c) == 0:
            return False
        r = sb_and(x >= min(c), x <= max(c))
        if abs(c.step) != 1:
            r = sb_and(r, ((x - c.start) % abs(c.step)) == 0)
        return r
    if isinstance(c, (bytes, bytearray)) and issym(x):
        if isinstance(x, SymBytes):
            return SymBytes(list(c)).__contains__(x)
        return sb_or(*[sx_eq(x, e) for e in c])
    return x in c


def sx_notin(x, c):
    return sb_not_b(sx_in(x, c))


def sb_not_b(v):
    return v.not_() if isinstance(v, SymBool) else not v


def sx_eq(a, b):
    """== lifted without forking for tuples."""
    if isinstance(a, tuple) and isinstance(b, tuple) and (deepsym(a) or deepsym(b)):
        if len(a) != len(b):
            return False
        return sb_and(*[sx_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


def sx_is(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a if b else a.not_()
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b if a else b.not_()
    return a is b


STREQ = []      # symbolic comparison of texts (set by env.make_symenv)


def sx_same(a, b):
    if isinstance(a, str) and isinstance(b, str) and (text.has_token(a) or text.has_token(b)):
        return STREQ[0](str.__str__(a), str.__str__(b))
    return a == b


def sx_differ(a, b):
    if isinstance(a, str) and isinstance(b, str) and (text.has_token(a) or text.has_token(b)):
        return sb_not_b(STREQ[0](str.__str__(a), str.__str__(b)))
    return a != b


def sx_isnot(a, b):
    return sb_not_b(sx_is(a, b))


def find_key(d, k):
    """Key object of d equal to k (forking), or k itself."""
    if not deepsym(k):
        for e in d:
            if deepsym(e):
                break
        else:
            return k
        if k in d and not deepsym(k):
            for e in d:
                if e is k or (not deepsym(e) and e == k):
                    return e
    cands = []
    for e in list(d):
        if e is k:
            return e
        if type(e) is str and not isinstance(k, str):
            continue
        r = sx_eq(k, e)
        if r is False:
            continue
        if r is True:
            return e
        cands.append((e, r))
    if len(cands) > 12:
        # one fork on membership, then one per candidate
        pass
    for e, r in cands:
        if bool(r):
            return e
    return k


def table(o, i):
    """o[i] for a sequence and a SymInt index."""
    n = len(o)
    lo, hi = bounds(i)
    if lo < 0 and bool(i < 0):
        v = C().concretize(i, "negative index")
        return o[v]
    if hi >= n and bool(i >= n):
        raise IndexError("index out of range")
    i = core.renorm(i)
    if isinstance(i, int):
        return o[i]
    vals = list(o)
    if not all(type(v) is int and v >= 0 for v in vals):
        v = C().concretize(i, "table")
        return o[v]
    bits = core.tobits(i)[:-1]
    k = max(1, (n - 1).bit_length())
    bits = bits[:k] + [0] * (k - len(bits))
    base = vals[0]
    d = [(vals[1 << j] ^ base) if (1 << j) < n else 0 for j in range(k)]
    w = max(v.bit_length() for v in vals) or 1
    dev = []
    for v in range(n):
        a = base
        for j in range(k):
            if v >> j & 1:
                a ^= d[j]
        if a != vals[v]:
            dev.append((v, a ^ vals[v]))
    c = C()
    if len(dev) <= 24:
        out = [base >> b & 1 for b in range(w)]
        for j in range(k):
            for b in range(w):
                if d[j] >> b & 1:
                    out[b] ^= bits[j]
        for v, delta in dev:
            eq = 1
            for j in range(k):
                eq = c.and_(eq, bits[j] if v >> j & 1 else bits[j] ^ 1)
            for b in range(w):
                if delta >> b & 1:
                    out[b] ^= eq
        return mk(out + [0])
    memo = {}

    def tree(lev, seg):
        key = tuple(seg)
        if all(s == seg[0] for s in seg):
            return [seg[0] >> b & 1 for b in range(w)]
        if (lev, key) in memo:
            return memo[(lev, key)]
        h = 1 << lev
        a = tree(lev - 1, seg[:h])
        if len(seg) > h:
            b2 = tree(lev - 1, seg[h:])
            r = [c.ite(bits[lev], y, x) for x, y in zip(a, b2)]
        else:
            r = a
        memo[(lev, key)] = r
        return r
    return mk(tree(k - 1, vals) + [0])


def sx_getitem(o, i):
    if isinstance(o, dict):
        if deepsym(i) or any(deepsym(k) for k in o):
            kk = find_key(o, i)
            if deepsym(kk) and not any(kk is e for e in o):
                if hasattr(type(o), "__missing__"):
                    return o[kk]
                raise KeyError(i)
            return dict.__getitem__(o, kk) if not hasattr(type(o), "__missing__") else o[kk]
        return o[i]
    if isinstance(i, (SymInt, SymBool)):
        if isinstance(o, (list, tuple, bytes, bytearray, range)):
            return table(o, i if isinstance(i, SymInt) else (i._i()))
        if isinstance(o, str):
            return o[C().concretize(i, "str index")]
    return o[i]


def sx_key(o, k):
    """Normalised key for a store  o[k] = v."""
    if isinstance(o, dict):
        if deepsym(k) or any(deepsym(e) for e in o):
            return find_key(o, k)
        return k
    if isinstance(o, list) and isinstance(k, (SymInt, SymBool)):
        return C().concretize(k, "list store")
    return k


_MISSING = object()


def sx_call(o, name, *a, **k):
    """obj.name(*a, **k) for method names that C code would mishandle."""
    if isinstance(o, dict):
        syms = (a and deepsym(a[0])) or any(deepsym(e) for e in o)
        if name == "get" and a:
            if syms:
                kk = find_key(o, a[0])
                if deepsym(kk) and not any(kk is e for e in o):
                    return a[1] if len(a) > 1 else k.get("default")
                return o.get(kk, *a[1:])
        elif name in ("pop", "setdefault") and a:
            if syms:
                kk = find_key(o, a[0])
                present = any(kk is e or (not deepsym(e) and not deepsym(kk) and e == kk) for e in o)
                if name == "pop":
                    if not present:
                        if len(a) > 1:
                            return a[1]
                        raise KeyError(a[0])
                    return o.pop(kk)
                if present:
                    return o[kk]
                o[kk] = a[1] if len(a) > 1 else None
                return o[kk]
        elif name == "update":
            src = dict(*a, **k)
            if any(deepsym(e) for e in src) or any(deepsym(e) for e in o):
                for kk, v in src.items():
                    o[find_key(o, kk)] = v
                return None
    elif isinstance(o, (set, frozenset)):
        if name in ("add", "discard", "remove") and a and (deepsym(a[0]) or any(deepsym(e) for e in o)):
            kk = find_key({e: 1 for e in o}, a[0])
            return getattr(o, name)(kk)
    elif isinstance(o, (bytes, bytearray)):
        if name == "join":
            return byts.sx_join(o, a[0])
        if any(isinstance(x, (SymBytes, SymInt)) for x in a):
            return getattr(SymBytes(list(o)), name)(*a, **k)
    elif isinstance(o, str):
        if name == "join":
            return o.join(a[0])
        if name == "count" and text.has_token(o):
            p = text.parts(o)
            if len(p) == 1 and isinstance(p[0], tuple) and p[0][1] in ("b", "#b") and a[0] == "1":
                return p[0][0].bit_count()
    elif isinstance(o, int):
        if name == "to_bytes":
            return o.to_bytes(*a, **k)
    elif isinstance(o, types.ModuleType) or isinstance(o, type):
        pass
    elif name == "write" and a and isinstance(a[0], SymBytes):
        raise core.Unsupported("binary write of symbolic bytes")
    return getattr(o, name)(*a, **k)


CALLS = {"join", "get", "update", "setdefault", "pop", "add", "discard", "remove", "count", "find", "rfind", "index",
         "startswith", "endswith"}


def sx_mod(a, b):
    if isinstance(a, str):
        if deepsym(b) or (isinstance(b, dict) and any(deepsym(v) for v in b.values())):
            return text.percent(a, b)
        return a % b
    return a % b


class NoMerge(Exception):
    pass


def sx_mergeable(t):
    return isinstance(t, (SymBool, SymInt))


def _cond(t):
    if isinstance(t, SymInt):
        t = t.truth()
    return t


def merge1(c, a, b):
    if a is b:
        return a
    if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(C().ite(c.f, core.form_of(a), core.form_of(b)))
        if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
            raise NoMerge
        return i_ite(c, a, b)
    if isinstance(a, (float, SymFloat)) and isinstance(b, (float, SymFloat)):
        if isinstance(a, float) and isinstance(b, float) and a == b:
            return a
        r = flt.f_ite(c, a, b)
        if r is None:
            raise NoMerge
        return r
    if type(a) is type(b) and isinstance(a, (str, type(None), bytes)) and a == b:
        return a
    raise NoMerge


def sx_merge(t, A, B):
    c = _cond(t)
    if not isinstance(c, SymBool):
        return A if c else B
    f = C().deep(c.f)
    if f in (0, 1):
        return A if f else B
    return tuple(merge1(c, a, b) for a, b in zip(A, B))


def sx_ifexp(t, fa, fb):
    if not isinstance(t, (SymBool, SymInt)):
        return fa() if t else fb()
    c = _cond(t)
    if not isinstance(c, SymBool):
        return fa() if c else fb()
    f = C().deep(c.f)
    if f in (0, 1):
        return fa() if f else fb()
    n = len(C().trace)
    try:
        a = fa()
        b = fb()
        return merge1(c, a, b)
    except Exception:
        return fa() if bool(c) else fb()


# ------------------------------------------------------------------ json / math / struct

def jkey(k):
    if isinstance(k, str):
        return jstr(k)
    if isinstance(k, SymBool):
        return '"%s"' % text.token(k, "jb")
    if isinstance(k, (SymInt,)):
        return '"%s"' % text.token(k, "")
    if isinstance(k, SymFloat):
        return '"%s"' % text.token(k, "r")
    if k is True:
        return '"true"'
    if k is False:
        return '"false"'
    if k is None:
        return '"null"'
    if isinstance(k, int):
        return '"%d"' % k
    if isinstance(k, float):
        return '"%s"' % _json.dumps(k)
    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)


def jstr(s, ensure_ascii=False):
    if text.has_token(s):
        out = []
        for p in text.parts(s):
            if isinstance(p, tuple):
                out.append(text.token(p[0], "j" + p[1]) if p[1] == "c" else text.token(*p))
            else:
                out.append(_json.dumps(p, ensure_ascii=ensure_ascii)[1:-1])
        return '"%s"' % "".join(out)
    return _json.dumps(s, ensure_ascii=ensure_ascii)


def hassym(o):
    if isinstance(o, Sym):
        return True
    if isinstance(o, dict):
        return any(hassym(k) or hassym(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return any(hassym(e) for e in o)
    return text.has_token(o)


def jdumps(o, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None,
           indent=None, separators=None, default=None, sort_keys=False, **kw):
    if not hassym(o):
        return _json.dumps(o, skipkeys=skipkeys, ensure_ascii=ensure_ascii, allow_nan=allow_nan, cls=cls,
                           indent=indent, separators=separators, default=default, sort_keys=sort_keys, **kw)
    if separators is None:
        separators = (", ", ": ") if indent is None else (",", ": ")
    isep, ksep = separators
    if indent is not None and not isinstance(indent, str):
        indent = " " * indent

    def enc(v, lev):
        if isinstance(v, str):
            return jstr(v, ensure_ascii)
        if isinstance(v, SymBool):
            return text.token(v, "jb")
        if isinstance(v, SymInt):
            return text.token(v, "")
        if isinstance(v, SymFloat):
            return text.token(v, "r")
        if isinstance(v, dict):
            if not v:
                return "{}"
            it = v.items()
            if sort_keys:
                it = sorted(it)
            body = []
            for k, e in it:
                body.append(jkey(k) + ksep + enc(e, lev + 1))
            return wrap("{", body, "}", lev)
        if isinstance(v, (list, tuple)):
            if not v:
                return "[]"
            return wrap("[", [enc(e, lev + 1) for e in v], "]", lev)
        if v is None or isinstance(v, (bool, int, float)):
            return _json.dumps(v, allow_nan=allow_nan)
        if default is not None:
            return enc(default(v), lev)
        raise TypeError("Object of type %s is not JSON serializable" % type(v).__name__)

    def wrap(l, body, r, lev):
        if indent is None:
            return l + isep.join(body) + r
        nl = "\n" + indent * (lev + 1)
        return l + nl + (isep + nl).join(body) + "\n" + indent * lev + r
    return enc(o, 0)


def jdump(o, fp, **k):
    fp.write(jdumps(o, **k))


class _JEnc(_json.JSONEncoder):
    def encode(self, o):
        if not hassym(o):
            return super().encode(o)
        return jdumps(o, ensure_ascii=self.ensure_ascii, indent=self.indent,
                      separators=(self.item_separator, self.key_separator), sort_keys=self.sort_keys,
                      default=self.default if type(self).default is not _json.JSONEncoder.default else None)


json_shim = types.ModuleType("json")
json_shim.__dict__.update({k: v for k, v in _json.__dict__.items() if not k.startswith("__")})
json_shim.dumps = jdumps
json_shim.dump = jdump
json_shim.JSONEncoder = _JEnc

math_shim = types.ModuleType("math")
math_shim.__dict__.update({k: v for k, v in _math.__dict__.items() if not k.startswith("__")})


def _m(name, f):
    real = getattr(_math, name)

    def g(*a, **k):
        if any(isinstance(x, Sym) for x in a):
            return f(*a, **k)
        return real(*a, **k)
    g.__name__ = name
    setattr(math_shim, name, g)


_m("floor", lambda x: x.__floor__())
_m("ceil", lambda x: x.__ceil__())
_m("trunc", lambda x: x.__trunc__())
_m("fabs", lambda x: abs(tofloat(x)))
_m("isnan", lambda x: False)
_m("isinf", lambda x: False)
_m("isfinite", lambda x: True)
_m("ldexp", lambda x, e: x * 2.0 ** e)
_m("log2", lambda x: _math.log2(C().concretize(x)))


def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if bool(a == b):
        return True
    d = abs(a - b)
    A, B = abs(a), abs(b)
    m = A if bool(A >= B) else B
    return sb_or(d <= m * rel_tol, d <= abs_tol)


_m("isclose", _isclose)

struct_shim = types.ModuleType("struct")
struct_shim.__dict__.update({k: v for k, v in _struct.__dict__.items() if not k.startswith("__")})
_SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "?": 1, "c": 1, "x": 1}


def _unpack(fmt, buf):
    if not isinstance(buf, SymBytes):
        return _struct.unpack(fmt, buf)
    f = fmt
    order = "little"
    if f[:1] in "<>!=@":
        order = "big" if f[0] in ">!" else "little"
        f = f[1:]
    out = []
    pos = 0
    num = ""
    for ch in f:
        if ch.isdigit():
            num += ch
            continue
        if ch == " ":
            continue
        n = int(num) if num else 1
        num = ""
        if ch == "s":
            out.append(bmk(buf.bs[pos:pos + n]))
            pos += n
            continue
        if ch not in _SZ:
            raise core.Unsupported("struct %s" % fmt)
        for _ in range(n):
            seg = bmk(buf.bs[pos:pos + _SZ[ch]])
            pos += _SZ[ch]
            if ch == "x":
                continue
            if ch == "c":
                out.append(seg)
            elif ch == "?":
                out.append(IntProxy.from_bytes(seg, "big") != 0)
            else:
                out.append(IntProxy.from_bytes(seg, order, signed=ch.islower()))
    if pos != len(buf):
        raise _struct.error("unpack requires a buffer of %d bytes" % pos)
    return tuple(out)


struct_shim.unpack = _unpack


def _unpack_from(fmt, buf, offset=0):
    n = _struct.calcsize(fmt)
    seg = buf[offset:offset + n]
    if len(seg) < n:
        raise _struct.error("unpack_from requires a buffer of at least %d bytes" % n)
    return _unpack(fmt, seg)


struct_shim.unpack_from = _unpack_from

SHIMS = {"json": json_shim, "math": math_shim, "struct": struct_shim}
_real_import = builtins.__import__


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMS:
        return SHIMS[name]
    return _real_import(name, globals, locals, fromlist, level)


FILES = {}      # real path -> symbolic contents


class SymFile:
    """A file opened for reading bytes whose contents are symbolic."""

    def __init__(self, name, data):
        self.name, self.mode, self.data, self.pos, self.closed = name, "rb", data, 0, False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("read of closed file")
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        r = self.data[self.pos:end] if end > self.pos else b""
        self.pos = max(end, self.pos)
        return r

    read1 = read

    def readinto(self, buf):
        r = self.read(len(buf))
        buf[:len(r)] = r
        return len(r)

    def tell(self):
        return self.pos

    def seek(self, off, how=0):
        self.pos = max(0, (0, self.pos, len(self.data))[how] + off)
        return self.pos

    def readable(self):
        return True

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sx_open(path, mode="r", *a, **k):
    if FILES and isinstance(path, (str, os.PathLike)):
        d = FILES.get(os.path.realpath(path))
        if d is not None:
            if "b" in mode and not set(mode) & set("wax+"):
                return SymFile(path, d)
            if set(mode) & set("wx"):
                del FILES[os.path.realpath(path)]
    return open(path, mode, *a, **k)


FUNCS = set()


def sx_enter(name):
    FUNCS.add(name)


def make_builtins():
    b = dict(builtins.__dict__)
    b.update(int=IntProxy, bool=BoolProxy, float=FloatProxy, bytes=BytesProxy, bytearray=ByteArrayProxy,
             memoryview=MemViewProxy, type=TypeProxy, hex=sx_hex, bin=sx_bin, oct=sx_oct, chr=sx_chr, ord=sx_ord,
             range=RangeProxy, sum=sx_sum, pow=sx_pow, open=sx_open, __import__=sx_import,
             _sx_in=sx_in, _sx_same=sx_same, _sx_differ=sx_differ, _sx_notin=sx_notin, _sx_is=sx_is, _sx_isnot=sx_isnot, _sx_getitem=sx_getitem,
             _sx_key=sx_key, _sx_call=sx_call, _sx_mod=sx_mod, _sx_mergeable=sx_mergeable,
             _sx_merge=sx_merge, _sx_enter=sx_enter, _sx_ifexp=sx_ifexp)
    return b
