"""Second statement of an obligation in Z3's own bit-vector and arithmetic theories.

Most equalities between a decoded field and the specified bits are literally identical in the engine's canonical form. For the checks that
consist of such equalities only, the specification is written down once more as a bit-vector term over the whole input (Extract, SignExt,
shifts, a CRC register), the value that the code computed is translated bit by bit, and Z3 decides under the path condition whether the two
can differ. This does not go through the engine's arithmetic or normal form."""
from __future__ import annotations
import time
import z3
from . import core
from .core import C, SymInt, tobits


def inputs(ctx, width):
    tab = {}

    def bv(name):
        if name not in tab:
            kind, n = ctx.inputs[name]
            tab[name] = z3.BitVec(name, 8 * n if kind == "bytes" else n)
        return tab[name]
    return bv


class Second:
    def __init__(self):
        self.ctx = C()
        self.bv = inputs(self.ctx, None)
        self.memo = {}

    def lit(self, l):
        e = None
        while l:
            low = l & -l
            l ^= low
            name, bit = self.ctx.names[low.bit_length() - 2]
            v = z3.Extract(bit, bit, self.bv(name))
            e = v if e is None else e ^ v
        return e

    def form(self, f):
        """One-bit vector of a form."""
        ctx, memo = self.ctx, self.memo
        ctx.struct(f)
        stack = [f]
        while stack:
            g = stack[-1]
            if g in memo:
                stack.pop()
                continue
            lits, lin, _ = ctx.smemo[g]
            todo = [x for l in lits for x in l if x not in memo]
            if todo:
                stack.extend(todo)
                continue
            e = self.lit(lin & ~1) if lin > 1 else None
            for a, b in lits:
                v = memo[a] & memo[b]
                e = v if e is None else e ^ v
            if e is None:
                e = z3.BitVecVal(lin & 1, 1)
            elif lin & 1:
                e = ~e
            memo[g] = e
            stack.pop()
        return memo[f]

    def value(self, x, w):
        """w-bit two's complement vector of an int of the code."""
        if not isinstance(x, SymInt):
            return z3.BitVecVal(int(x), w)
        b = list(tobits(x))
        if len(b) > w:
            return None
        b += [b[-1]] * (w - len(b))
        t = [self.form(f) for f in reversed(b)]
        return z3.Concat(*t) if len(t) > 1 else t[0]

    def solve(self, conds, ms, theory="QF_BV"):
        ctx = self.ctx
        s = z3.SolverFor(theory)
        s.set("timeout", ms)
        if theory == "QF_BV":
            for f in ctx.constraints:
                s.add(self.form(f) == 1)
        s.add(z3.Or(conds))
        t0 = time.perf_counter()
        r = s.check()
        st = ctx.stats
        st.queries += 1
        st.solver_s += time.perf_counter() - t0
        if r == z3.unsat:
            st.unsat += 1
            st.second += len(conds)
        elif r == z3.sat:
            st.sat += 1
        return r


def equal(pairs, ms=20000):
    """pairs: (value of the code, spec(bv) -> bit vector, signed?). True / False / None (the solver gave no answer)."""
    s = Second()
    conds = []
    for a, spec, signed in pairs:
        t = spec(s.bv)
        t = (z3.SignExt if signed else z3.ZeroExt)(2, t)
        v = s.value(a, t.size())
        if v is None:
            # wider than the field: compare in the wider width
            w = len(tobits(a))
            t = (z3.SignExt if signed else z3.ZeroExt)(w - t.size(), t)
            v = s.value(a, w)
        conds.append(v != t)
    if not conds:
        return True
    r = s.solve(conds, ms)
    return True if r == z3.unsat else False if r == z3.sat else None


def scaled(items, ms=20000):
    """items: (SymFloat of the code with one integer term, resolution, tolerance): whatever the integer is within its range, the value is near."""
    s = Second()
    conds = []
    q = lambda f: z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    for i, (lo, hi, const, coef, err, res, tol) in enumerate(items):
        v = z3.Real("v%d" % i)
        d = q(const) + q(coef - res) * v
        conds.append(z3.And(v >= q(lo), v <= q(hi), z3.Or(d > q(tol - err), d < -q(tol - err))))
    if not conds:
        return True
    r = s.solve(conds, ms, "QF_LRA")
    return True if r == z3.unsat else False if r == z3.sat else None
