"""Strings of fixed length whose characters are symbolic (paths). Looks like the text of its character tokens to C code."""
from . import core
from .byts import bmk_text
from .core import sb_and, sb_or, int_eq, Sym


def smk(cps):
    cps = tuple(cps)
    return SymStr(cps) if any(isinstance(c, Sym) for c in cps) else "".join(map(chr, cps))


def cps_of(s):
    """Code points of a str (SymStr, text with character tokens, plain)."""
    if isinstance(s, SymStr):
        return s.cps
    from . import text
    if text.has_token(s):
        out = []
        for p in text.parts(s):
            if isinstance(p, tuple):
                if p[1] != "c":
                    raise core.Unsupported("text with a number inside a symbolic path")
                out.append(p[0])
            else:
                out.extend(map(ord, p))
        return tuple(out)
    return tuple(map(ord, s))


def _eq(a, b):
    return sb_and(*[int_eq(x, y) if isinstance(x, Sym) or isinstance(y, Sym) else x == y for x, y in zip(a, b)])


def digits(v, n, k, upper=False):
    """The n digits of k bits of a non-negative integer, most significant first."""
    b = list(v.bits[:-1]) + [0] * (n * k - len(v.bits) + 1)
    out = []
    for i in range(n - 1, -1, -1):
        d = b[i * k:i * k + k]
        if all(x in (0, 1) for x in d):
            out.append(ord("0123456789ABCDEF"[sum(x << j for j, x in enumerate(d))] if upper else
                           "0123456789abcdef"[sum(x << j for j, x in enumerate(d))]))
            continue
        if k == 1:
            out.append(core.mk([d[0], 0, 0, 0, 1, 1, 0]))
            continue
        x = core.mk(d + [0])
        c = core.i_ite(x < 10, x + 48, x + (55 if upper else 87))
        DIGITS[c.bits] = x
        out.append(c)
    return smk(out)


SPACE = [chr(c) for c in range(0x110000) if chr(c).isspace()]
DIGITS = {}       # character bits -> the digit it shows


def digit_value(c, base):
    """Value of one symbolic character as a digit, None if not known to be one."""
    if base == 2 and tuple(c.bits[1:]) == (0, 0, 0, 1, 1, 0):
        return core.mk([c.bits[0], 0])
    if base == 16:
        if c.bits in DIGITS:
            return DIGITS[c.bits]
        if tuple(c.bits[1:]) == (0, 0, 0, 1, 1, 0):
            return core.mk([c.bits[0], 0])
    return None


def decimal(s):
    """int(s) of a text with 7-bit symbolic characters: white space around, a sign, digits with single underscores between them."""
    if any(isinstance(c, Sym) and len(c.bits) > 8 or not isinstance(c, Sym) and c > 127 for c in s.cps):
        return None
    bad = ValueError("invalid literal for int() with base 10: %r" % str.__str__(s))
    cs = cps_of(s.strip())
    one = lambda c, a, b: bool(sb_and(c >= a, c <= b)) if isinstance(c, Sym) else a <= c <= b
    neg = False
    if cs and (one(cs[0], 43, 43) or one(cs[0], 45, 45)):
        neg = one(cs[0], 45, 45)
        cs = cs[1:]
    v, last = 0, False
    for c in cs:
        if one(c, 48, 57):
            v, last = v * 10 + (c - 48), True
        elif last and one(c, 95, 95):
            last = False
        else:
            raise bad
    if not last:
        raise bad
    return -v if neg else v


_RANGES = {}


def ranges(name, top):
    """Ranges of the code points below top whose character has the property."""
    k = (name, top)
    if k not in _RANGES:
        out = []
        for c in range(min(top, 0x110000)):
            if getattr(chr(c), name)():
                if out and out[-1][1] == c - 1:
                    out[-1][1] = c
                else:
                    out.append([c, c])
        _RANGES[k] = out
    return _RANGES[k]


class SymStr(str):
    def __new__(cls, cps):
        o = str.__new__(cls, bmk_text(cps))
        o.cps = tuple(cps)
        return o

    def __len__(self):
        return len(self.cps)

    def __bool__(self):
        return bool(self.cps)

    def __iter__(self):
        return iter([smk([c]) for c in self.cps])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return smk(self.cps[i])
        return smk([self.cps[i]])

    def __add__(self, o):
        return smk(self.cps + cps_of(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return smk(cps_of(o) + self.cps) if isinstance(o, str) else NotImplemented

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        b = cps_of(o)
        return len(b) == len(self.cps) and _eq(self.cps, b)

    def __ne__(self, o):
        r = self == o
        return r.not_() if isinstance(r, core.SymBool) else not r

    def __hash__(self):
        raise core.Unsupported("hash of a symbolic string")

    def __str__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        if spec:
            raise core.Unsupported("format of a symbolic string")
        return str.__str__(self)

    def _at(self, sub, i):
        return bool(_eq(self.cps[i:i + len(sub)], sub))

    def _span(self, start, end):
        return range(len(self.cps))[slice(start, end)], slice(start, end).indices(len(self.cps))

    def find(self, sub, start=None, end=None):
        s = cps_of(sub)
        a, b, _ = slice(start, end).indices(len(self.cps))
        for i in range(a, b - len(s) + 1):
            if self._at(s, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s = cps_of(sub)
        a, b, _ = slice(start, end).indices(len(self.cps))
        for i in range(b - len(s), a - 1, -1):
            if self._at(s, i):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub):
        n = i = 0
        if len(sub) == 1:
            for e in self.cps:
                r = int_eq(e, ord(sub)) if isinstance(e, Sym) else e == ord(sub)
                n = n + (r._i() if isinstance(r, core.SymBool) else int(r))
            return n
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += len(sub)

    def startswith(self, p, start=None, end=None):
        t = self[slice(start, end)] if (start, end) != (None, None) else self
        if isinstance(p, tuple):
            return any(t.startswith(x) for x in p)
        s = cps_of(p)
        return len(s) <= len(t) and bool(_eq(cps_of(t)[:len(s)], s))

    def endswith(self, p, start=None, end=None):
        t = self[slice(start, end)] if (start, end) != (None, None) else self
        if isinstance(p, tuple):
            return any(t.endswith(x) for x in p)
        s = cps_of(p)
        return len(s) <= len(t) and bool(_eq(cps_of(t)[len(t) - len(s):], s))

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1:
                raise core.Unsupported("split of a symbolic string at white space")
            out, w = [], []
            for c in self.cps:
                if self._one(c, SPACE):
                    if w:
                        out.append(smk(w))
                    w = []
                else:
                    w.append(c)
            return out + ([smk(w)] if w else [])
        out, s = [], self
        while maxsplit != 0 and isinstance(s, SymStr):
            i = s.find(sep)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(sep):]
            maxsplit -= 1
        return out + (s.split(sep, maxsplit) if not isinstance(s, SymStr) else [s])

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise core.Unsupported("split of a symbolic string at white space")
        out, s = [], self
        while maxsplit != 0 and isinstance(s, SymStr):
            i = s.rfind(sep)
            if i < 0:
                break
            out.insert(0, s[i + len(sep):])
            s = s[:i]
            maxsplit -= 1
        return (s.rsplit(sep, maxsplit) if not isinstance(s, SymStr) else [s]) + out

    def _one(self, c, chars):
        if not isinstance(c, Sym):
            return chr(c) in chars
        top = 1 << (len(c.bits) - 1)
        return bool(sb_or(*[int_eq(c, ord(x)) for x in chars if ord(x) < top]))

    def lstrip(self, chars=None):
        chars = SPACE if chars is None else chars
        i = 0
        while i < len(self.cps) and self._one(self.cps[i], chars):
            i += 1
        return smk(self.cps[i:])

    def rstrip(self, chars=None):
        chars = SPACE if chars is None else chars
        i = len(self.cps)
        while i > 0 and self._one(self.cps[i - 1], chars):
            i -= 1
        return smk(self.cps[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, a, b, n=-1):
        out, i, k = [], 0, 0
        s, t = cps_of(a), cps_of(b)
        if not s:
            raise core.Unsupported("replace of an empty string")
        while i < len(self.cps):
            if k != n and i + len(s) <= len(self.cps) and self._at(s, i):
                out.extend(t)
                i += len(s)
                k += 1
            else:
                out.append(self.cps[i])
                i += 1
        return smk(out)

    def _case(self, name):
        out = []
        for c in self.cps:
            if not isinstance(c, Sym):
                out.extend(map(ord, getattr(chr(c), name)()))
            elif len(c.bits) <= 8:
                a, d = (97, -32) if name == "upper" else (65, 32)
                out.append(core.i_ite(sb_and(c >= a, c <= a + 25), c + d, c))
            else:
                raise core.Unsupported("str.%s of a symbolic string" % name)
        return smk(out)

    def upper(self):
        return self._case("upper")

    def lower(self):
        return self._case("lower")

    def _every(self, name, empty):
        """All characters have the property, decided over the ranges of code points that have it."""
        if not self.cps:
            return empty
        ok = []
        for c in self.cps:
            if not isinstance(c, Sym):
                ok.append(getattr(chr(c), name)())
            else:
                ok.append(sb_or(*[sb_and(c >= a, c <= b) for a, b in ranges(name, 1 << (len(c.bits) - 1))]))
        return bool(sb_and(*ok))

    def isascii(self):
        return self._every("isascii", True)

    def isprintable(self):
        return self._every("isprintable", True)

    def isspace(self):
        return self._every("isspace", False)

    def isalnum(self):
        return self._every("isalnum", False)

    def isalpha(self):
        return self._every("isalpha", False)

    def isdigit(self):
        return self._every("isdigit", False)

    def isdecimal(self):
        return self._every("isdecimal", False)

    def isnumeric(self):
        return self._every("isnumeric", False)

    def __mul__(self, n):
        return smk(self.cps * n)

    __rmul__ = __mul__

    def __reduce__(self):
        raise core.Unsupported("pickling a symbolic string")


def _un(name):
    def f(self, *a, **k):
        raise core.Unsupported("str.%s of a symbolic string" % name)
    return f


for _n in dir(str):
    if not _n.startswith("__") and _n not in SymStr.__dict__:
        setattr(SymStr, _n, _un(_n))
for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__mod__", "__rmod__"):
    setattr(SymStr, _n, _un(_n))
