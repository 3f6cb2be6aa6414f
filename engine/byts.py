"""Symbolic bytes of concrete length; every byte is an int or an 8-bit SymInt."""
from __future__ import annotations
from .core import C, SymInt, SymBool, Sym, mk, int_eq, sb_and, sb_not, tobits, sext, new_uint, mkbool
from . import core, text


def bmk(bs):
    """bytes if all concrete, else SymBytes."""
    if all(isinstance(b, int) for b in bs):
        return bytes(bs)
    return SymBytes(bs)


def items(x):
    if isinstance(x, SymBytes):
        return x.bs
    return list(x)


def new_bytes(name, n):
    c = C()
    c.inputs[name] = ("bytes", n)
    out = []
    for i in range(n):
        sh = 8 * (n - 1 - i)
        out.append(mk([c.new_input(name, sh + k) for k in range(8)] + [0]))
    return SymBytes(out)


def isbytes(x):
    return isinstance(x, (bytes, bytearray, memoryview, SymBytes))


class SymBytes(Sym):
    __slots__ = ("bs",)

    def __init__(self, bs):
        self.bs = list(bs)

    def __len__(self):
        return len(self.bs)

    def __bool__(self):
        return bool(self.bs)

    def __iter__(self):
        return iter(list(self.bs))

    def __getitem__(self, i):
        if isinstance(i, slice):
            def cv(v):
                return C().concretize(v, "slice") if isinstance(v, (SymInt, SymBool)) else v
            n = len(self.bs)
            a, b, s = i.start, i.stop, i.step
            # clamp a symbolic bound beyond the buffer without enumerating it
            if isinstance(b, SymInt) and bool(b >= n):
                b = n
            if isinstance(a, SymInt) and bool(a >= n):
                a = n
            return self.mk(self.bs[cv(a):cv(b):cv(s)])
        if isinstance(i, (SymInt, SymBool)):
            i = C().concretize(i, "index")
        return self.bs[i]

    def mk(self, l):
        return bmk(l)

    def _cmpbytes(self, o):
        o = items(o)
        if len(o) != len(self.bs):
            return False
        return sb_and(*[int_eq(a, b) if not (isinstance(a, int) and isinstance(b, int)) else a == b
                        for a, b in zip(self.bs, o)])

    def __eq__(self, o):
        if not isbytes(o):
            return False
        return self._cmpbytes(o)

    def __ne__(self, o):
        if not isbytes(o):
            return True
        return sb_not(self._cmpbytes(o))

    def __lt__(self, o):
        for a, b in zip(self.bs, items(o)):
            if bool(a == b):
                continue
            return a < b
        return len(self.bs) < len(o)

    def __hash__(self):
        return 0x5EED

    def __add__(self, o):
        if not isbytes(o):
            return NotImplemented
        return self.mk(self.bs + list(items(o)))

    def __radd__(self, o):
        if not isbytes(o):
            return NotImplemented
        return self.mk(list(items(o)) + self.bs)

    def __mul__(self, n):
        return self.mk(self.bs * int(n))

    __rmul__ = __mul__

    def __contains__(self, x):
        if isbytes(x):
            return self.find(x) >= 0
        for b in self.bs:
            if bool(b == x):
                return True
        return False

    def find(self, sub, start=0, end=None):
        n = len(self.bs)
        if isinstance(sub, (int, SymInt)):
            sub = [sub]
        else:
            sub = items(sub)
        start = 0 if start is None else int(start)
        end = n if end is None else int(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        end = min(end, n)
        m = len(sub)
        for i in range(start, end - m + 1):
            if bool(sb_and(*[_eq(self.bs[i + k], sub[k]) for k in range(m)])):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        n = len(self.bs)
        sub = [sub] if isinstance(sub, (int, SymInt)) else items(sub)
        end = n if end is None else min(int(end), n)
        m = len(sub)
        for i in range(end - m, int(start) - 1, -1):
            if bool(sb_and(*[_eq(self.bs[i + k], sub[k]) for k in range(m)])):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub, start=0, end=None):
        sub = bytes([sub]) if isinstance(sub, int) else sub
        c, i = 0, start
        while True:
            i = self.find(sub, i, end)
            if i < 0:
                return c
            c += 1
            i += max(1, len(sub))

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        s = self.bs[start:end]
        p = items(p)
        if len(p) > len(s):
            return False
        return bool(sb_and(*[_eq(a, b) for a, b in zip(s, p)]))

    def endswith(self, p):
        p = items(p)
        if len(p) > len(self.bs):
            return False
        return bool(sb_and(*[_eq(a, b) for a, b in zip(self.bs[len(self.bs) - len(p):], p)]))

    def removeprefix(self, p):
        return self.mk(self.bs[len(p):]) if self.startswith(p) else self

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, b"", b""
        return self.mk(self.bs[:i]), sep, self.mk(self.bs[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise core.Unsupported("split whitespace of symbolic bytes")
        out, i = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(self.mk(self.bs[i:j]))
            i = j + len(sep)
        out.append(self.mk(self.bs[i:]))
        return out

    def lstrip(self, chars=None):
        chars = items(chars if chars is not None else b" \t\n\r\x0b\x0c")
        i = 0
        while i < len(self.bs) and any(bool(_eq(self.bs[i], c)) for c in chars):
            i += 1
        return self.mk(self.bs[i:])

    def rstrip(self, chars=None):
        chars = items(chars if chars is not None else b" \t\n\r\x0b\x0c")
        i = len(self.bs)
        while i > 0 and any(bool(_eq(self.bs[i - 1], c)) for c in chars):
            i -= 1
        return self.mk(self.bs[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def join(self, parts):
        return sx_join(self, parts)

    def hex(self, sep=None, *a):
        return (sep or "").join(format(b, "02x") for b in self.bs)

    def tobytes(self):
        return self

    def cast(self, *a):
        return self

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    @property
    def nbytes(self):
        return len(self.bs)

    def decode(self, encoding="utf-8", errors="strict"):
        return sx_decode(self, encoding, errors)

    def __repr__(self):
        return "SymBytes[%d]" % len(self.bs)

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bytes__(self):
        return bytes(C().concretize(b, "bytes()") if not isinstance(b, int) else b for b in self.bs)


def _eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return int_eq(a, b)


class SymByteArray(SymBytes):
    """Mutable variant."""
    __slots__ = ()

    def mk(self, l):
        return SymByteArray(l)

    def append(self, b):
        self.bs.append(b)

    def extend(self, o):
        self.bs.extend(items(o))

    def clear(self):
        self.bs.clear()

    def pop(self, i=-1):
        return self.bs.pop(i)

    def insert(self, i, b):
        self.bs.insert(i, b)

    def reverse(self):
        self.bs.reverse()

    def copy(self):
        return SymByteArray(self.bs)

    def __iadd__(self, o):
        self.bs.extend(items(o))
        return self

    def __delitem__(self, i):
        if isinstance(i, slice):
            f = lambda v: C().concretize(v, "slice") if isinstance(v, (SymInt, SymBool)) else v
            i = slice(f(i.start), f(i.stop), f(i.step))
        elif isinstance(i, SymInt):
            i = C().concretize(i)
        del self.bs[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            f = lambda v: C().concretize(v, "slice") if isinstance(v, (SymInt, SymBool)) else v
            self.bs[slice(f(i.start), f(i.stop), f(i.step))] = items(v)
        else:
            self.bs[i] = v

    def __deepcopy__(self, memo):
        return SymByteArray(self.bs)

    __copy__ = copy


def sx_join(sep, parts):
    out = []
    first = True
    s = items(sep)
    for p in parts:
        if not isbytes(p):
            raise TypeError("sequence item: expected a bytes-like object")
        if not first:
            out.extend(s)
        first = False
        out.extend(items(p))
    return bmk(out)


def bmk_text(cps):
    """Text of code points (ints or SymInts)."""
    return "".join(chr(c) if isinstance(c, int) else text.token(c, "c") for c in cps)


def sx_decode(sb, encoding, errors):
    from .symstr import smk
    t = _decode(sb, encoding, errors)
    return smk(t)


def _decode(sb, encoding, errors):
    enc = encoding.lower().replace("_", "-")
    bs = sb.bs
    if enc in ("latin-1", "iso-8859-1", "latin1"):
        return bs
    if enc == "ascii":
        for i, b in enumerate(bs):
            if bool(b >= 0x80):
                if errors == "strict":
                    raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
                raise core.Unsupported("decode errors=%s" % errors)
        return bs
    if enc not in ("utf-8", "utf8"):
        raise core.Unsupported("decode %s" % encoding)
    cps = []
    i, n = 0, len(bs)

    def bad():
        if errors == "strict":
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid byte (symbolic)")
        raise core.Unsupported("decode errors=%s" % errors)

    def cont(j):
        return j < n and bool((bs[j] & 0xC0) == 0x80)
    while i < n:
        b = bs[i]
        if bool(b < 0x80):
            cps.append(b)
            i += 1
        elif bool(b < 0xC2):
            return bad()
        elif bool(b < 0xE0):
            if not cont(i + 1):
                return bad()
            cps.append(((b & 0x1F) << 6) | (bs[i + 1] & 0x3F))
            i += 2
        elif bool(b < 0xF0):
            if not cont(i + 1) or not cont(i + 2):
                return bad()
            cp = ((b & 0x0F) << 12) | ((bs[i + 1] & 0x3F) << 6) | (bs[i + 2] & 0x3F)
            if bool(cp < 0x800) or bool((cp & ~0x7FF) == 0xD800):
                return bad()
            cps.append(cp)
            i += 3
        elif bool(b < 0xF5):
            if not (cont(i + 1) and cont(i + 2) and cont(i + 3)):
                return bad()
            cp = ((b & 7) << 18) | ((bs[i + 1] & 0x3F) << 12) | ((bs[i + 2] & 0x3F) << 6) | (bs[i + 3] & 0x3F)
            if bool(cp < 0x10000) or bool(cp > 0x10FFFF):
                return bad()
            cps.append(cp)
            i += 4
        else:
            return bad()
    return cps
