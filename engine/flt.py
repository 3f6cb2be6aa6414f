"""Symbolic floats: exact affine combinations of symbolic ints plus a rounding-error bound.

value(float) = const + sum coef_i * int_i + e,   |e| <= err
All coefficients are exact rationals of the doubles used by the code.
"""
from __future__ import annotations
from fractions import Fraction as Fr
import math
from . import core
from .core import (SymInt, SymBool, Sym, C, bounds, mk, mkbool, i_add, i_mul, i_neg,
                   i_sub, i_shr, int_lt, int_eq, sb_not, i_divmod_const)

U = Fr(1, 2 ** 53)


class SymFloat(Sym):
    __slots__ = ("terms", "const", "err", "den")

    def __init__(self, terms, const=Fr(0), err=Fr(0), den=None):
        self.terms = terms        # dict bits-tuple -> (SymInt, Fraction)
        self.const = const
        self.err = err
        self.den = den            # None or SymFloat denominator (a ratio)

    # ---- helpers -----------------------------------------------------------------
    def range(self):
        lo = hi = self.const
        for x, k in self.terms.values():
            a, b = bounds(x)
            if k >= 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def maxabs(self):
        lo, hi = self.range()
        return max(abs(lo), abs(hi)) + self.err

    def dyadic_exact(self):
        """True if every possible value is exactly a double (no rounding possible)."""
        g = self.const.denominator
        for _, k in self.terms.values():
            g = max(g, k.denominator) if (g & (g - 1)) == 0 and (k.denominator & (k.denominator - 1)) == 0 else 0
            if g == 0:
                return False
        if g & (g - 1):
            return False
        lo, hi = self.range()
        return max(abs(lo), abs(hi)) * g <= 2 ** 53 and self.err == 0

    def rounded(self, extra=Fr(0)):
        self.err += extra
        if not self.dyadic_exact():
            self.err += U * self.maxabs() + Fr(1, 2 ** 1074)
        return self

    def evalf(self):
        c = C()
        v = self.const
        for x, k in self.terms.values():
            v += k * c.ev_int(x)
        if self.den is not None:
            d = self.den.evalf_exact()
            return float(v / d) if d else float("nan")
        return float(v)

    def evalf_exact(self):
        c = C()
        v = self.const
        for x, k in self.terms.values():
            v += k * c.ev_int(x)
        return v

    def scaled_int(self):
        """(SymInt N, D): exact value = N / D."""
        d = self.const.denominator
        for _, k in self.terms.values():
            d = d * k.denominator // math.gcd(d, k.denominator)
        n = int(self.const * d)
        for x, k in self.terms.values():
            n = i_add(n, i_mul(x, int(k * d))) if not isinstance(n, int) or n else i_mul(x, int(k * d))
        return n, d

    # ---- arithmetic ------------------------------------------------------------------
    def __add__(self, o):
        return binop(self, o, "+")

    def __radd__(self, o):
        return binop(o, self, "+")

    def __sub__(self, o):
        return binop(self, o, "-")

    def __rsub__(self, o):
        return binop(o, self, "-")

    def __mul__(self, o):
        return binop(self, o, "*")

    def __rmul__(self, o):
        return binop(o, self, "*")

    def __truediv__(self, o):
        return binop(self, o, "/")

    def __rtruediv__(self, o):
        return binop(o, self, "/")

    def __neg__(self):
        return SymFloat({b: (x, -k) for b, (x, k) in self.terms.items()}, -self.const, self.err, self.den)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __lt__(self, o):
        return cmp(self, o, "<")

    def __le__(self, o):
        return cmp(self, o, "<=")

    def __gt__(self, o):
        return cmp(self, o, ">")

    def __ge__(self, o):
        return cmp(self, o, ">=")

    def __eq__(self, o):
        return cmp(self, o, "==")

    def __ne__(self, o):
        return sb_not(cmp(self, o, "=="))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 0x5EED

    def __float__(self):
        raise_conc(self)
        return float(conc(self))

    def __int__(self):
        return self.__trunc__()

    def __trunc__(self):
        if bool(self < 0):
            return -((-self).__floor__())
        return self.__floor__()

    def __floor__(self):
        if self.den is None:
            n, d = self.scaled_int()
            if self.err == 0 or Fr(1, d) > self.err * 4:
                if isinstance(n, int):
                    return n // d
                if d == 1:
                    return n
                return i_divmod_const(n, d)[0]
        return math.floor(conc(self))

    def __floor__f(self):
        return tofloat(self.__floor__())

    def __ceil__(self):
        return -((-self).__floor__())

    def __round__(self, n=None):
        if n is None:
            # banker's rounding; exact only away from ties
            if self.den is None:
                N, d = self.scaled_int()
                if d == 1 and self.err == 0:
                    return N
            return round(conc(self))
        r = SymFloat(dict(self.terms), self.const, self.err + Fr(1, 2) * Fr(1, 10 ** max(n, 0)), self.den)
        return r

    def is_integer(self):
        return bool(tofloat(self.__floor__()) == self)

    def __format__(self, spec):
        from . import text
        return text.token(self, spec or "r")

    def __repr__(self):
        from . import text
        return text.token(self, "r")

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic")


def raise_conc(x):
    C().incomplete.append("symbolic float concretised")


def conc(x):
    """Concretise a symbolic float by concretising its integers."""
    v = x.const
    for s, k in x.terms.values():
        v += k * C().concretize(s, "float")
    if x.den is not None:
        d = conc_exact(x.den)
        return float(v / d)
    return float(v)


def conc_exact(x):
    v = x.const
    for s, k in x.terms.values():
        v += k * C().concretize(s, "float")
    return v


def tofloat(x):
    """SymFloat / float from any number."""
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymBool):
        x = x._i()
    if isinstance(x, SymInt):
        r = SymFloat({x.bits: (x, Fr(1))})
        return r.rounded()
    if isinstance(x, bool):
        return float(x)
    if isinstance(x, (int, float)):
        return float(x)
    return None


def lift(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return None
        return SymFloat({}, Fr(x))
    return None


def simp(f):
    if not f.terms and f.den is None:
        v = f.const
        r = float(v)
        return r
    return f


def _addterms(a, b, sign):
    t = dict(a)
    for k, (x, c) in b.items():
        if k in t:
            nc = t[k][1] + sign * c
            if nc == 0:
                del t[k]
            else:
                t[k] = (x, nc)
        else:
            t[k] = (x, sign * c)
    return t


def binop(a, b, op):
    fa, fb = tofloat(a), tofloat(b)
    if fa is None or fb is None:
        return NotImplemented
    if isinstance(fa, float) and isinstance(fb, float):
        return {"+": lambda: fa + fb, "-": lambda: fa - fb, "*": lambda: fa * fb, "/": lambda: fa / fb}[op]()
    # nan / inf constants absorb
    for v in (fa, fb):
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
            return float("nan")
    if op == "/" and isinstance(fb, float) and fb == 0.0:
        raise ZeroDivisionError("float division by zero")
    A, B = lift(fa), lift(fb)
    if A.den is not None or B.den is not None:
        if op == "*" and B.den is None and not B.terms:
            r = SymFloat({k: (x, c * B.const) for k, (x, c) in A.terms.items()}, A.const * B.const, A.err * abs(B.const), A.den)
            return r
        return binop(_concf(A), _concf(B), op)
    if op in "+-":
        s = 1 if op == "+" else -1
        r = SymFloat(_addterms(A.terms, B.terms, s), A.const + s * B.const, A.err + B.err)
        return simp(r.rounded())
    if op == "*":
        if A.terms and B.terms:
            # try integer product when both are pure integers
            if len(A.terms) == 1 and len(B.terms) == 1 and A.const == 0 and B.const == 0:
                (xa, ka), = A.terms.values()
                (xb, kb), = B.terms.values()
                p = i_mul(xa, xb)
                if isinstance(p, int):
                    return simp(SymFloat({}, Fr(p) * ka * kb, A.err * B.maxabs() + B.err * A.maxabs()).rounded())
                return SymFloat({p.bits: (p, ka * kb)}, Fr(0), A.err * B.maxabs() + B.err * A.maxabs()).rounded()
            return binop(A, _concf(B), op)
        if A.terms:
            A, B = B, A
        k = A.const
        if k == 0 and A.err == 0:
            return 0.0
        err = B.err * abs(k) + A.err * B.maxabs()
        r = SymFloat({b: (x, c * k) for b, (x, c) in B.terms.items()}, B.const * k, err)
        return simp(r.rounded())
    # division
    if not B.terms:
        k = B.const
        err = A.err / abs(k)
        r = SymFloat({b: (x, c / k) for b, (x, c) in A.terms.items()}, A.const / k, err)
        return simp(r.rounded())
    if B.err == 0 and A.err == 0:
        z = cmp(B, 0.0, "==")
        if bool(z):
            raise ZeroDivisionError("float division by zero")
        return SymFloat(dict(A.terms), A.const, Fr(0), B)
    return binop(A, _concf(B), op)


def _concf(x):
    if isinstance(x, SymFloat):
        if not x.terms and x.den is None:
            return float(x.const)
        return conc(x)
    return x


def cmp(a, b, op):
    if isinstance(a, (str, bytes, type(None), dict, list, tuple)) or isinstance(b, (str, bytes, type(None), dict, list, tuple)):
        if op == "==":
            return False
        return NotImplemented
    fa, fb = tofloat(a), tofloat(b)
    if fa is None or fb is None:
        return False if op == "==" else NotImplemented
    for v, o in ((fa, 1), (fb, -1)):
        if isinstance(v, float):
            if math.isnan(v):
                return False
            if math.isinf(v):
                # compare finite symbolic against +-inf
                pos = (v > 0)
                a_is_inf = o == 1
                lt = (not pos) if a_is_inf else pos       # a < b ?
                return {"<": lt, "<=": lt, ">": not lt, ">=": not lt, "==": False}[op]
    A, B = lift(fa), lift(fb)
    # ratios: |num/den| style comparisons against a constant
    if A.den is not None or B.den is not None:
        return _cmp_ratio(A, B, op)
    d = SymFloat(_addterms(A.terms, B.terms, -1), A.const - B.const, A.err + B.err)
    return _sign(d, op)


def _cmp_ratio(A, B, op):
    flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}
    if A.den is None:
        return _cmp_ratio(B, A, flip[op])
    if B.den is not None or B.terms:
        return cmp(_concf(A), _concf(B), op)
    den = A.den
    k = B.const
    num = SymFloat(dict(A.terms), A.const)
    kd = SymFloat({b: (x, c * k) for b, (x, c) in den.terms.items()}, den.const * k)
    d = SymFloat(_addterms(num.terms, kd.terms, -1), num.const - kd.const)
    C().imprecise = True      # exact-rational comparison of a rounded quotient
    if bool(_sign(SymFloat(dict(den.terms), den.const), ">")):
        return _sign(d, op)
    return _sign(d, flip[op])


def _sign(d, op):
    """SymBool of (d op 0)."""
    if not d.terms:
        if d.err == 0 or abs(d.const) > d.err:
            v = d.const
            return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0}[op]
    lo, hi = d.range()
    e = d.err
    if hi + e < 0:
        return op in ("<", "<=")
    if lo - e > 0:
        return op in (">", ">=")
    if e != 0:
        n, dd = d.scaled_int()
        # |n/dd| minimal non-zero magnitude is 1/dd: rounding cannot flip the sign if err < 1/dd,
        # except for equality with zero
        if not (Fr(1, dd) > e):
            C().imprecise = True
    n, dd = d.scaled_int()
    if isinstance(n, int):
        return {"<": n < 0, "<=": n <= 0, ">": n > 0, ">=": n >= 0, "==": n == 0}[op]
    if op == "<":
        return int_lt(n, 0)
    if op == ">=":
        return sb_not(int_lt(n, 0))
    if op == ">":
        return int_lt(0, n)
    if op == "<=":
        return sb_not(int_lt(0, n))
    return int_eq(n, 0)


def f_ite(cond, a, b):
    A, B = tofloat(a), tofloat(b)
    A = lift(A)
    B = lift(B)
    if A is None or B is None or A.den is not None or B.den is not None:
        return None
    # cond ? A : B  ==  sum ite(cond, ka*xa, 0) ...   keep as terms over masked ints
    t = {}
    const = Fr(0)
    f = cond.f

    def put(x, k):
        if isinstance(x, int):
            nonlocal const
            const += k * x
            return
        if x.bits in t:
            nk = t[x.bits][1] + k
            if nk == 0:
                del t[x.bits]
            else:
                t[x.bits] = (x, nk)
        else:
            t[x.bits] = (x, k)
    c = C()
    one = core.SymInt((f, 0)) if f not in (0, 1) else f
    notone = core.SymInt((f ^ 1, 0)) if f not in (0, 1) else 1 - f
    for x, k in A.terms.values():
        put(core.i_ite(cond, x, 0), k)
    for x, k in B.terms.values():
        put(core.i_ite(cond, 0, x), k)
    put(one, A.const)
    put(notone, B.const)
    return SymFloat(t, const, max(A.err, B.err))


def bitwise(d):
    """The same affine combination over single bits: equal values built from different integers cancel."""
    const = d.const
    w = {}
    for x, k in d.terms.values():
        b = core.tobits(x)
        n = len(b)
        for i, f in enumerate(b):
            if f == 0:
                continue
            c = k * (1 << i) if i < n - 1 else -k * (1 << i)
            if f & 1:               # 1 - f'
                const += c
                f ^= 1
                c = -c
                if f == 0:
                    continue
            w[f] = w.get(f, 0) + c
    t = {}
    for f, c in w.items():
        if c:
            t[(f, 0)] = (core.SymInt((f, 0)), c)
    return SymFloat(t, const, d.err)


def close_negation(a, b, tol):
    """Return None if |a-b| <= tol is certain, else a SymBool/True that is *implied possible* (|a-b| > tol).

    Uses the exact affine difference; the rounding error bound is subtracted from the tolerance.
    """
    fa, fb = tofloat(a), tofloat(b)
    if fa is None or fb is None:
        return True
    tol = Fr(tol)
    if isinstance(fa, float) and isinstance(fb, float):
        if math.isnan(fa) or math.isnan(fb):
            return None if (math.isnan(fa) and math.isnan(fb)) else True
        return None if abs(Fr(fa) - Fr(fb)) <= tol else True
    if any(isinstance(v, float) and not math.isfinite(v) for v in (fa, fb)):
        return True
    A, B = lift(fa), lift(fb)
    if A.den is not None or B.den is not None:
        return True
    d = SymFloat(_addterms(A.terms, B.terms, -1), A.const - B.const, Fr(0))
    err = A.err + B.err
    lo, hi = d.range()
    if max(abs(lo), abs(hi)) + err <= tol:
        return None
    r = bitwise(d)
    lo, hi = r.range()
    if max(abs(lo), abs(hi)) + err <= tol:
        return None
    if len(r.terms) <= len(d.terms):
        d = r
    t = tol - err
    if t < 0:
        t = Fr(0)
    n, dd = d.scaled_int()
    lim = int(t * dd)
    if isinstance(n, int):
        return None if abs(n) <= lim else True
    return core.sb_or(int_lt(lim, n), int_lt(n, -lim))
