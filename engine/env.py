"""Harness environments.

The same harness function runs
  * symbolically (SymEnv) on the instrumented code: inputs are solver variables,
    every check becomes an obligation discharged by the SMT solver;
  * concretely (ConcEnv) on the untouched code: inputs come from a model.
"""
from __future__ import annotations
import importlib
import json
import math
import os
import re
from fractions import Fraction as Fr
from . import guard

PAIRS = "\x00pairs"


class CheckFailed(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class BaseEnv:
    symbolic = False

    def __init__(self, params, tier, tmp):
        self.params = params
        self.tier = tier
        self.tmp = tmp
        self.covers = set()
        self.obs = {}
        self.nfile = 0

    def imp(self, name):
        return importlib.import_module(name)

    def cover(self, label):
        self.covers.add(label)

    def workdir(self):
        self.nfile += 1
        d = os.path.join(self.tmp, "w%d" % self.nfile)
        os.makedirs(d)
        return d

    # bit-field reference extraction from a byte sequence (independent of the repository)
    def field(self, buf, pos, n, signed=False):
        raise NotImplementedError

    def observe(self, label, v):
        self.obs[label] = v

    def eq(self, a, b, label):
        """Deep equality obligation."""
        raise NotImplementedError

    def read(self, path):
        with open(path, "r", encoding="utf-8", newline="") as f:
            return f.read()

    def put(self, path, data):
        """A file with these (possibly symbolic) bytes."""
        with open(path, "wb") as f:
            f.write(bytes(data))

    def writes(self):
        """What has been deleted, created or opened for writing so far: [(operation, path, inside the scratch directory?)]"""
        return list(guard.LOG)

    def again(self, pairs):
        """The same equalities once more, stated in the solver's own theories (symbolic runs only)."""

    def listing(self, d):
        out = []
        for base, _, files in os.walk(d):
            for f in files:
                out.append(os.path.relpath(os.path.join(base, f), d))
        return sorted(out)


# ------------------------------------------------------------------------------ concrete

class ConcEnv(BaseEnv):
    def __init__(self, params, tier, tmp, model):
        super().__init__(params, tier, tmp)
        self.model = {k: int(v) for k, v in model.items()}
        self.failed = []
        self.passed = 0

    def bytes(self, name, n):
        v = self.model.get(name, 0)
        return (v & ((1 << (8 * n)) - 1)).to_bytes(n, "big")

    def uint(self, name, nbits):
        return self.model.get(name, 0) & ((1 << nbits) - 1)

    def sint(self, name, nbits):
        v = self.uint(name, nbits)
        return v - (1 << nbits) if v >> (nbits - 1) else v

    def bool(self, name):
        return bool(self.model.get(name, 0) & 1)

    def choice(self, name, seq):
        seq = list(seq)
        v = self.uint(name, max(1, (len(seq) - 1).bit_length()))
        if v >= len(seq):
            raise AssumeFailed(name)
        return seq[v]

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        if c:
            self.passed += 1
        else:
            self.failed.append(label)

    def fail(self, label):
        self.failed.append(label)

    def close(self, a, ref, tol, label):
        try:
            if isinstance(a, bool) or not isinstance(a, (int, float)):
                ok = False
            elif isinstance(a, float) and not math.isfinite(a):
                ok = False
            else:
                ok = abs(Fr(a) - Fr(ref)) <= Fr(tol)
        except Exception:
            ok = False
        self.check(ok, label)

    def eq(self, a, b, label):
        self.check(_deq(a, b), label)

    def same(self, a, b):
        """Deep equality as a condition."""
        return _deq(a, b)

    def field(self, buf, pos, n, signed=False):
        v = 0
        for i in range(pos, pos + n):
            v = v * 2 + ((buf[i >> 3] >> (7 - (i & 7))) & 1)
        if signed and n and v >> (n - 1):
            v -= 1 << n
        return v

    def ite(self, c, a, b):
        return a if c else b

    def all(self, cs):
        return all(cs)

    def any(self, cs):
        return any(cs)

    def inv(self, c):
        return not c

    def lin(self, const, *terms):
        v = Fr(const)
        for x, k in terms:
            v += x * Fr(k)
        return v

    def text(self, cps):
        return "".join(chr(c) for c in cps)

    def fork_int(self, x):
        return int(x)

    def string(self, cps):
        """Text of code points that can be taken apart (searched, cut)."""
        return "".join(map(chr, cps))

    def outside(self, what):
        """The code does something that the harness does not model."""
        raise AssumeFailed(what)

    def json(self, s):
        return json.loads(s, object_pairs_hook=_pairs)

    def keyint(self, k):
        """Integer value of a decimal JSON key."""
        return int(k) if re.fullmatch(r"-?\d+", k) else None

    def cells(self, line, sep=","):
        """[(text, number)] of a separated row; number None when it is not one; NaN as float nan."""
        out = []
        for c in line.split(sep):
            out.append((len(c), _num(c), _frac_digits(c)))
        return out

    def numbers(self, s):
        """The numbers of a text, in order."""
        return [int(Fr(x)) if Fr(x).denominator == 1 else Fr(x) for x in re.findall(r"\d+(?:\.\d+)?", s)]

    def isnan(self, v):
        return isinstance(v, float) and math.isnan(v)

    def build(self, fields):
        """bytes from [(value, nbits)], zero padded to a byte."""
        acc = n = 0
        for v, w in fields:
            acc = (acc << w) | (int(v) & ((1 << w) - 1))
            n += w
        pad = -n % 8
        return (acc << pad).to_bytes((n + pad) // 8, "big")

    def hexwords(self, s):
        """Values of space separated 0x.. words; None when the text has another form."""
        if not isinstance(s, str):
            return None
        if s == "":
            return []
        ws = s.split(" ")
        if not all(re.fullmatch(r"0[xX][0-9a-fA-F]+", w) for w in ws):
            return None
        return [int(w, 16) for w in ws]

    def cat(self, *bs):
        return b"".join(bytes(b) for b in bs)


def _pairs(p):
    d = {}
    for k, v in p:
        if k in d:
            raise ValueError("duplicate key %r" % k)
        d[k] = v
    return d


def _num(c):
    try:
        if re.fullmatch(r"\s*[+-]?\d+\s*", c):
            return int(c)
        return float(c)
    except ValueError:
        return None


def _frac_digits(c):
    c = c.strip()
    return len(c.split(".")[1]) if "." in c else 0


def _deq(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_deq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(_deq(a[k], b[k]) for k in a) or (
            set(a) == set(b) and all(_deq(a[k], b[k]) for k in a))
    return a == b


# ------------------------------------------------------------------------------ symbolic

def make_symenv():
    from . import core, text, byts, flt, shims, symstr
    from .core import (C, SymInt, SymBool, Sym, sb_and, sb_or, sb_not, form_of, mk, mkbool, int_eq, i_ite)
    from .flt import SymFloat
    from .byts import SymBytes, bmk, items, isbytes

    class SymEnv(BaseEnv):
        symbolic = True

        def bytes(self, name, n):
            if n == 0:
                return b""
            return byts.new_bytes(name, n)

        def once(self, key, make):
            """A name stands for one variable per path."""
            tab = self.__dict__.setdefault("vars", {})
            if key not in tab:
                if key[0] in C().inputs:
                    raise RuntimeError("input %r declared twice" % key[0])
                tab[key] = make()
            return tab[key]

        def uint(self, name, nbits):
            return self.once((name, "u", nbits), lambda: core.new_uint(name, nbits))

        def sint(self, name, nbits):
            def make():
                c = C()
                c.inputs[name] = ("uint", nbits)
                return mk([c.new_input(name, i) for i in range(nbits)])
            return self.once((name, "s", nbits), make)

        def bool(self, name):
            def make():
                c = C()
                c.inputs[name] = ("uint", 1)
                return SymBool([c.new_input(name, 0)])
            return self.once((name, "b", 1), make)

        def choice(self, name, seq):
            seq = list(seq)
            w = max(1, (len(seq) - 1).bit_length())
            x = core.new_uint(name, w)
            self.assume(x < len(seq))
            return seq[C().concretize(x, "choice")]

        def assume(self, c):
            if isinstance(c, SymInt):
                c = c.truth()
            if not isinstance(c, SymBool):
                if not c:
                    raise core.Infeasible()
                return
            ctx = C()
            f = ctx.deep(c.f)
            if f == 1:
                return
            if f == 0:
                raise core.Infeasible()
            if not ctx.ev(f):
                r, m = ctx.query([f])
                if r != "sat":
                    if r == "unknown":
                        ctx.incomplete.append("solver unknown at an assumption")
                    raise core.Infeasible()
                # keep the previous values where possible
                ctx.set_model(m)
            c.assert_side(True)

        def check(self, c, label):
            if isinstance(c, SymInt):
                c = c.truth()
            self.oblige(label, sb_not(c) if isinstance(c, SymBool) else (not c))

        def fail(self, label):
            self.oblige(label, True)

        def oblige(self, label, neg):
            ctx = C()
            if neg is None or neg is False:
                ctx.checks.append((label, 0))
                return
            f = 1 if neg is True else ctx.deep(neg.f)
            if f != 1 and f and ctx.wide([f]) and not ctx.wide([neg.f]):
                f = neg.f
            ctx.checks.append((label, f))

        def close(self, a, ref, tol, label):
            if not isinstance(a, (int, float, SymInt, SymFloat)) or isinstance(a, bool):
                return self.oblige(label, True)
            if isinstance(ref, Fr):
                ref = SymFloat({}, ref)
                if isinstance(a, float):
                    return self.oblige(label, not (math.isfinite(a) and abs(Fr(a) - ref.const) <= Fr(tol)))
                if isinstance(a, int):
                    return self.oblige(label, not abs(Fr(a) - ref.const) <= Fr(tol))
            self.oblige(label, flt.close_negation(a, ref, tol))

        def eq(self, a, b, label):
            r = seq(a, b)
            self.check(r, label)

        def again(self, pairs):
            """(value, spec) with a bit-vector spec, or (value, spec, resolution, tolerance) for a scaled one; spec = (function of bv, signed?)."""
            from . import second
            from fractions import Fraction as F
            eqs, xs, sc = [], [], []
            for p in pairs:
                a, (fn, signed) = p[0], p[1]
                if len(p) == 2:
                    if isinstance(a, (int, SymInt)) and not isinstance(a, bool):
                        eqs.append((a, fn, signed))
                elif isinstance(a, SymFloat) and a.den is None and len(a.terms) == 1:
                    (x, k), = a.terms.values()
                    lo, hi = core.bounds(x)
                    xs.append((x, fn, signed))
                    sc.append((F(lo), F(hi), F(a.const), F(k), F(a.err), F(p[2]), F(p[3])))
                elif isinstance(a, (int, SymInt)) and p[2] == 1:
                    eqs.append((a, fn, signed))
            if second.equal(eqs) is False and all(f == 0 for _, f in C().checks):
                C().incomplete.append("the solver's own theories disagree with the normal form")
            if second.equal(xs):
                second.scaled(sc)

        def field(self, buf, pos, n, signed=False):
            bits = []
            bs = items(buf)
            for i in range(pos, pos + n):
                b = bs[i >> 3]
                k = 7 - (i & 7)
                if isinstance(b, int):
                    bits.append((b >> k) & 1)
                else:
                    t = core.tobits(b)
                    bits.append(t[k] if k < len(t) else t[-1])
            return core.from_bits_msb(bits, signed)

        def ite(self, c, a, b):
            if not isinstance(c, SymBool):
                return a if c else b
            return i_ite(c, a, b)

        def all(self, cs):
            return sb_and(*list(cs))

        def any(self, cs):
            return sb_or(*list(cs))

        def inv(self, c):
            return sb_not(c)

        def lin(self, const, *terms):
            t = {}
            k0 = Fr(const)
            for x, k in terms:
                k = Fr(k)
                if isinstance(x, SymBool):
                    x = x._i()
                if isinstance(x, SymInt):
                    if x.bits in t:
                        t[x.bits] = (x, t[x.bits][1] + k)
                    else:
                        t[x.bits] = (x, k)
                else:
                    k0 += x * k
            if not t:
                return k0
            return SymFloat(t, k0)

        def text(self, cps):
            return byts.bmk_text(cps)

        def same(self, a, b):
            return seq(a, b)

        def string(self, cps):
            return symstr.smk(cps)

        def outside(self, what):
            raise core.Unsupported(what)

        def put(self, path, data):
            bs = items(data)
            with open(path, "wb") as f:
                f.write(bytes(len(bs)))
            shims.FILES[os.path.realpath(path)] = data

        def fork_int(self, x):
            return C().concretize(x, "harness") if isinstance(x, (SymInt, SymBool)) else int(x)

        def json(self, s):
            return JP(s).top()

        def keyint(self, k):
            return text.as_int(k) if text.has_token(k) else (int(k) if re.fullmatch(r"-?\d+", k) else None)

        def cells(self, line, sep=","):
            out = []
            for c in line.split(sep):
                if text.has_token(c):
                    out.append(cell(c))
                else:
                    out.append((len(c), _num(c), _frac_digits(c)))
            return out

        def numbers(self, s):
            out = []
            for p in text.parts(s):
                if isinstance(p, tuple):
                    out.append(p[0])
                else:
                    out.extend(Fr(x) for x in re.findall(r"\d+(?:\.\d+)?", p))
            return [int(x) if isinstance(x, Fr) and x.denominator == 1 else x for x in out]

        def isnan(self, v):
            return isinstance(v, float) and math.isnan(v)

        def build(self, fields):
            bits = []
            for v, w in fields:
                if isinstance(v, SymBool):
                    v = v._i()
                if isinstance(v, SymInt):
                    t = core.sext(core.tobits(v), w)
                    bits.extend(reversed(t[:w]))
                else:
                    v = int(v)
                    bits.extend((v >> i) & 1 for i in range(w - 1, -1, -1))
            bits.extend([0] * (-len(bits) % 8))
            return bmk([core.from_bits_msb(bits[i:i + 8]) for i in range(0, len(bits), 8)])

        def hexwords(self, s):
            if not isinstance(s, str):
                return None
            if s == "":
                return []
            out = []
            for w in s.split(" "):
                if text.has_token(w):
                    v = text.as_int(w, 16)
                    if v is None:
                        return None
                elif re.fullmatch(r"0[xX][0-9a-fA-F]+", w):
                    v = int(w, 16)
                else:
                    return None
                out.append(v)
            return out

        def cat(self, *bs):
            out = []
            for b in bs:
                out.extend(items(b))
            return bmk(out)

    _SPEC = re.compile(r"([<>=^]?)([+ -]?)(#?)(0?)(\d*)(?:\.(\d+))?([a-zA-Z%]?)$")

    def cell(c):
        """Formatted single token cell: (width, value, fraction digits)."""
        c2 = c.strip("\n")
        p = text.parts(c2)
        lead = 0
        neg = False
        while p and isinstance(p[0], str) and p[0].strip(" -") == "":
            lead += len(p[0])
            neg = "-" in p[0]
            p = p[1:]
        trail = 0
        while p and isinstance(p[-1], str) and p[-1].strip() == "":
            trail += len(p[-1])
            p = p[:-1]
        if len(p) != 1 or not isinstance(p[0], tuple):
            return (-1, None, 0)
        v, spec = p[0]
        m = _SPEC.match(spec)
        if not m:
            return (-1, None, 0)
        w = int(m.group(5) or 0)
        prec = int(m.group(6)) if m.group(6) else (6 if m.group(7) in ("f", "F") else 0)
        if m.group(7) not in ("f", "F", "d", "", "n"):
            return (-1, None, 0)
        if m.group(7) in ("f", "F") and isinstance(v, SymFloat):
            v = SymFloat(dict(v.terms), v.const, v.err + Fr(1, 2 * 10 ** prec), v.den)
        if w == 0 and lead + trail:
            w = len(c2) - lead - trail        # padded afterwards (rjust and the like count the token's characters)
        return (w + lead + trail, -v if neg else v, prec)

    def seq(a, b):
        """Deep symbolic equality -> bool / SymBool."""
        isb = lambda v: isinstance(v, (bool, SymBool))
        if isb(a) != isb(b):
            return False
        if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
            return int_eq(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else a == b
        if isinstance(a, (int, float, SymInt, SymFloat)) and isinstance(b, (int, float, SymInt, SymFloat)):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return a == b
            return a == b
        if isbytes(a) and isbytes(b):
            A, B = items(a), items(b)
            if len(A) != len(B):
                return False
            return sb_and(*[seq(x, y) for x, y in zip(A, B)])
        if isinstance(a, str) and isinstance(b, str):
            a, b = str.__str__(a), str.__str__(b)
            if a == b:
                return True
            if text.has_token(a) or text.has_token(b):
                return streq(a, b)
            return False
        if type(a) is not type(b):
            return False
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return False
            return sb_and(*[seq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict):
            if len(a) != len(b):
                return False
            ka, kb = list(a), list(b)
            if not any(shims.deepsym(k) or text.has_token(k) for k in ka + kb):
                if set(ka) != set(kb):
                    return False
                return sb_and(*[seq(a[k], b[k]) for k in ka])
            return sb_and(*[sb_and(seq(x, y), seq(a[x], b[y])) for x, y in zip(ka, kb)])
        return a == b

    def units(s):
        out = []
        for p in text.parts(s):
            if isinstance(p, tuple):
                out.append(p)
            else:
                out.extend(p)
        return out

    def streq(a, b):
        A, B = units(a), units(b)
        if len(A) != len(B):
            return False
        cs = []
        for x, y in zip(A, B):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if x[1].lstrip("j") != y[1].lstrip("j"):
                    return False
                cs.append(seq(x[0], y[0]))
            elif isinstance(x, tuple) or isinstance(y, tuple):
                t, ch = (x, y) if isinstance(x, tuple) else (y, x)
                if t[1] not in ("c", "jc"):
                    return False
                cs.append(seq(t[0], ord(ch)))
            elif x != y:
                return False
        return sb_and(*cs)

    shims.STREQ[:] = [streq]

    class JP:
        """JSON with symbolic tokens."""

        def __init__(self, s):
            self.s = s
            self.i = 0

        def ws(self):
            while self.i < len(self.s) and self.s[self.i] in " \t\r\n":
                self.i += 1

        def top(self):
            v = self.val()
            self.ws()
            if self.i != len(self.s):
                raise ValueError("trailing JSON data")
            return v

        def ch(self):
            if self.i >= len(self.s):
                raise ValueError("unterminated JSON")
            return self.s[self.i]

        def val(self):
            self.ws()
            c = self.ch()
            if c == "{":
                self.i += 1
                d = {}
                self.ws()
                if self.ch() == "}":
                    self.i += 1
                    return d
                while True:
                    self.ws()
                    k = self.str()
                    self.ws()
                    self.exp(":")
                    if k in d:
                        raise ValueError("duplicate key")
                    d[k] = self.val()
                    self.ws()
                    if self.ch() == "}":
                        self.i += 1
                        return d
                    self.exp(",")
            if c == "[":
                self.i += 1
                l = []
                self.ws()
                if self.ch() == "]":
                    self.i += 1
                    return l
                while True:
                    l.append(self.val())
                    self.ws()
                    if self.ch() == "]":
                        self.i += 1
                        return l
                    self.exp(",")
            if c == '"':
                return self.str()
            m = text.TOK.match(self.s, self.i)
            if m:
                self.i = m.end()
                v, spec = C().tokens[int(m.group(1))]
                if spec in ("", "r", "jb", "d"):
                    if spec == "r" and isinstance(v, (SymInt, SymBool)):
                        v = flt.tofloat(v)
                    return v
                raise ValueError("token %r in JSON value position" % spec)
            if c == "-" and text.TOK.match(self.s, self.i + 1):
                self.i += 1
                return -self.val()
            m = re.compile(r"-?\d+(\.\d+)?([eE][+-]?\d+)?|true|false|null|NaN|-?Infinity").match(self.s, self.i)
            if not m:
                raise ValueError("bad JSON at %d: %r" % (self.i, self.s[self.i:self.i + 20]))
            self.i = m.end()
            t = m.group(0)
            return json.loads(t)

        def exp(self, c):
            if self.ch() != c:
                raise ValueError("expected %r at %d" % (c, self.i))
            self.i += 1

        def str(self):
            self.exp('"')
            j = self.i
            while True:
                if self.ch() == "\\":
                    self.i += 2
                    continue
                if self.s[self.i] == '"':
                    break
                self.i += 1
            raw = self.s[j:self.i]
            self.i += 1
            out = []
            for p in text.parts(raw):
                if isinstance(p, tuple):
                    out.append(text.token(p[0], "c" if p[1] == "jc" else p[1]))
                else:
                    out.append(json.loads('"%s"' % p))
            return "".join(out)

    return SymEnv


def ev_obj(o):
    """Value of an observed object under the current model of the path."""
    from . import core, text
    from .core import C, SymInt, SymBool
    from .flt import SymFloat
    from .byts import SymBytes
    c = C()
    if isinstance(o, SymBool):
        return bool(c.ev(o.f))
    if isinstance(o, SymInt):
        return c.ev_int(o)
    if isinstance(o, SymFloat):
        return o.evalf()
    if isinstance(o, SymBytes):
        return "hex:" + bytes(c.ev_int(b) for b in o.bs).hex()
    if isinstance(o, (bytes, bytearray)):
        return "hex:" + bytes(o).hex()
    if isinstance(o, str):
        if text.has_token(o):
            out = []
            for p in text.parts(o):
                if isinstance(p, tuple):
                    v = ev_obj(p[0])
                    sp = p[1]
                    if sp in ("c", "jc"):
                        out.append(chr(v) if sp == "c" else json.dumps(chr(v), ensure_ascii=False)[1:-1])
                    elif sp == "jb":
                        out.append("true" if v else "false")
                    elif sp == "bool":
                        out.append(str(bool(v)))
                    elif sp == "r":
                        out.append(repr(float(v)))
                    else:
                        out.append(format(v, sp))
                else:
                    out.append(p)
            return "".join(out)
        return o
    if isinstance(o, dict):
        return {str(ev_obj(k)): ev_obj(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [ev_obj(e) for e in o]
    if isinstance(o, float) and math.isnan(o):
        return "nan"
    if o is None or isinstance(o, (bool, int, float)):
        return o
    return str(type(o).__name__)


def obs_match(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_match(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(obs_match(a[k], b[k]) for k in a)
    return a == b
