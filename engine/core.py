"""Core of the symbolic engine: propositional terms, path context, SymBool and SymInt.

A *form* is an affine combination over GF(2) of atoms, stored as a Python int:
bit 0 is the constant 1, bit i+1 is atom i.  Atoms are input bits or AND nodes
(hash-consed) over two constant-free forms.  Everything an integer operation
needs (xor, and, add, mux) is expressed with forms, so linear facts (CRC,
shifts, masks) stay canonical and the rest is sent to the SMT solver.
"""
from __future__ import annotations
import os
import time
import z3

INF_PATHS = 10 ** 9


class PathAbort(BaseException):
    """Path cannot go on (assumption false / infeasible / budget)."""


class Infeasible(PathAbort):
    pass


class Budget(PathAbort):
    pass


class Unsupported(PathAbort):
    """Operation outside the encoded fragment: the path is reported unresolved."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.concretisations = 0
        self.presolved = 0
        self.rebased = 0
        self.badmodels = 0
        self.second = 0           # obligations stated once more in z3's own theories

    def as_dict(self):
        return dict(self.__dict__)


XCHECK = bool(os.environ.get("VERIF_XCHECK"))
AUX = 1 << 28                 # numbers of defined constants start here


class _Z:
    """Thin layer over the z3 C API; handles live as long as the (short-lived) process."""

    def __init__(self):
        from z3 import z3core

        class L:
            """Raw entry points of the C API."""
        for n in ("mk_bool_sort", "mk_true", "mk_false", "inc_ref", "mk_const", "mk_int_symbol", "mk_xor", "mk_eq", "mk_not",
                  "mk_and", "mk_or", "solver_assert", "model_get_num_consts", "model_get_const_decl", "model_get_const_interp",
                  "get_bool_value", "get_symbol_int", "get_decl_name"):
            w = getattr(z3core, "Z3_" + n)
            raw = w.__defaults__[-1].f if w.__defaults__ else w
            setattr(L, "Z3_" + n, staticmethod(raw))
        c = z3.main_ctx().ref()
        self.L, self.c = L, c
        self.sort = L.Z3_mk_bool_sort(c)
        self.pysort = z3.BoolSort()          # keeps the sort alive
        self.pair = z3core.Ast * 2
        self.Ast = z3core.Ast
        self._t = self.keep(L.Z3_mk_true(c))
        self._f = self.keep(L.Z3_mk_false(c))

    def keep(self, a):
        self.L.Z3_inc_ref(self.c, a)
        return a

    def true(self):
        return self._t

    def false(self):
        return self._f

    def const(self, i):
        L, c = self.L, self.c
        return self.keep(L.Z3_mk_const(c, L.Z3_mk_int_symbol(c, i), self.sort))

    def xor(self, a, b):
        return self.keep(self.L.Z3_mk_xor(self.c, a, b))

    def eq(self, a, b):
        return self.keep(self.L.Z3_mk_eq(self.c, a, b))

    def not_(self, a):
        return self.keep(self.L.Z3_mk_not(self.c, a))

    def and_(self, a, b):
        return self.keep(self.L.Z3_mk_and(self.c, 2, self.pair(a, b)))

    def or_(self, xs):
        arr = (self.Ast * len(xs))(*xs)
        return self.keep(self.L.Z3_mk_or(self.c, len(xs), arr))

    def all_(self, xs):
        if len(xs) == 1:
            return xs[0]
        arr = (self.Ast * len(xs))(*xs)
        return self.keep(self.L.Z3_mk_and(self.c, len(xs), arr))

    def add(self, s, a):
        self.L.Z3_solver_assert(self.c, s, a)

    def true_consts(self, m):
        L, c = self.L, self.c
        out = []
        for k in range(L.Z3_model_get_num_consts(c, m)):
            d = L.Z3_model_get_const_decl(c, m, k)
            v = L.Z3_model_get_const_interp(c, m, d)
            if v and L.Z3_get_bool_value(c, v) == 1:
                out.append(L.Z3_get_symbol_int(c, L.Z3_get_decl_name(c, d)))
        return out


Z = _Z()


class Ctx:
    """All state of one path execution."""

    def __init__(self, prefix=(), model=None, stats=None, limits=None):
        self.defs = []            # atom -> None (input) or (formA, formB)
        self.names = []           # atom -> (varname, bit) for inputs
        self.andmap = {}
        self.andmask = 0
        self.basis = {}           # pivot bit index -> row
        self.pivmask = 0
        self.basis_ver = 0
        self.constraints = []     # forms asserted true (reduced at assert time)
        self.zcount = 0           # constraints already given to z3
        self.solver = None
        self.zvars = {}
        self.zmemo = {}
        self.naux = 0
        self.smemo = {}
        self.sopen = {}
        self.init_model = model or {}   # varname -> int value, initial assignment
        self.asg = 1
        self.asg_n = 0
        self.prefix = list(prefix)
        self.trace = []           # decisions taken
        self.pending = []         # alternatives (prefix, model)
        self.inputs = {}          # varname -> ("uint", nbits, first atom) / ("bytes", n, first atom)
        self.stats = stats or Stats()
        self.lim = limits or {}
        self.incomplete = []      # reasons why this path is not exhaustive
        self.imprecise = False
        self.memo_deep = {}
        self.memo_ver = -1
        self.tokens = {}          # token id -> (value, spec)
        self.tokmap = {}
        self.t_end = None
        self.nconc = 0
        self.funcs = set()
        self.checks = []          # (label, SymBool/bool negation)
        self.covers = set()

    # ---- atoms ---------------------------------------------------------------
    def new_input(self, name, bit):
        i = len(self.defs)
        self.defs.append(None)
        self.names.append((name, bit))
        return 1 << (i + 1)

    def and_(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        ca, cb = a & 1, b & 1
        pa, pb = a & ~1, b & ~1
        if pa == pb:
            # (x^ca)&(x^cb)
            return a if ca == cb else 0
        k = (pa, pb) if pa < pb else (pb, pa)
        at = self.andmap.get(k)
        if at is None:
            i = len(self.defs)
            self.defs.append(k)
            self.names.append(None)
            at = 1 << (i + 1)
            self.andmap[k] = at
            self.andmask |= at
        r = at
        if ca:
            r ^= pb
        if cb:
            r ^= pa
        if ca and cb:
            r ^= 1
        return r

    def or_(self, a, b):
        return a ^ b ^ self.and_(a, b)

    def ite(self, c, a, b):
        if a == b:
            return a
        return self.and_(c, a ^ b) ^ b

    # ---- reduction under the path condition -------------------------------------
    def reduce(self, f):
        t = f & self.pivmask
        if t:
            basis = self.basis
            while t:
                low = t & -t
                f ^= basis[low]
                t = f & self.pivmask
        return f

    def deep(self, f, depth=0):
        f = self.reduce(f)
        t = f & self.andmask
        if not t:
            return f
        if self.memo_ver != self.basis_ver:
            self.memo_deep = {}
            self.memo_ver = self.basis_ver
        memo = self.memo_deep
        if depth > 220:
            return f
        out = f
        while t:
            low = t & -t
            t ^= low
            r = memo.get(low)
            if r is None:
                a, b = self.defs[low.bit_length() - 2]
                r = self.reduce(self.and_(self.deep(a, depth + 1), self.deep(b, depth + 1)))
                memo[low] = r
            if r != low:
                out ^= low ^ r
        if out != f:
            out = self.reduce(out)
        return out

    def _add_row(self, row):
        """row == 0 on this path (row already reduced)."""
        body = row & ~1
        if body == 0:
            if row:
                raise Infeasible()
            return
        piv = 1 << (body.bit_length() - 1)
        for p, r in self.basis.items():
            if r & piv:
                self.basis[p] = r ^ row
        self.basis[piv] = row
        self.pivmask |= piv
        self.basis_ver += 1

    def assert_form(self, f):
        f = self.deep(f)
        if f == 1:
            return
        if f == 0:
            raise Infeasible()
        self.constraints.append(f)
        self._add_row(f ^ 1)

    # ---- model -------------------------------------------------------------------
    def ext_model(self):
        n = len(self.defs)
        i = self.asg_n
        asg = self.asg
        while i < n:
            d = self.defs[i]
            if d is None:
                name, bit = self.names[i]
                v = (self.init_model.get(name, 0) >> bit) & 1
            else:
                v = ((d[0] & asg).bit_count() & 1) and ((d[1] & asg).bit_count() & 1)
            if v:
                asg |= 1 << (i + 1)
            i += 1
        self.asg = asg
        self.asg_n = n

    def ev(self, f):
        if self.asg_n < len(self.defs):
            self.ext_model()
        return (f & self.asg).bit_count() & 1

    def set_model(self, model):
        self.init_model = model
        self.asg = 1
        self.asg_n = 0

    def model_ok(self):
        return all(self.ev(c) for c in self.constraints)

    # ---- z3 (through the C API: building terms dominates otherwise) ------------------------
    def split(self, f):
        """f as XOR of conjunctions (pairs of forms, polarity chosen to shorten the rest) and a linear rest."""
        lits = []
        am = self.andmask
        t = f & am
        while t:
            at = 1 << (t.bit_length() - 1)
            a, b = self.defs[t.bit_length() - 2]
            g = f ^ at
            n = g.bit_count()
            ca = cb = 0
            h = g ^ b
            k = h.bit_count()
            if k < n:
                g, n, ca = h, k, 1
            h = g ^ a
            if h.bit_count() < n:
                g, cb = h, 1
            if ca and cb:
                g ^= 1
            lits.append((a ^ ca, b ^ cb))
            f = g
            t = f & am
        return lits, f

    def struct(self, f):
        """Memoised split of f and, recursively, its parts: (lits, linear rest, wide?)."""
        memo = self.smemo
        r = memo.get(f)
        if r is not None:
            return r
        stack = [f]
        while stack:
            g = stack[-1]
            if g in memo:
                stack.pop()
                continue
            part = self.sopen.get(g)
            if part is None:
                part = self.sopen[g] = self.split(g)
                todo = [x for l in part[0] for x in l if x not in memo]
                if todo:
                    stack.extend(todo)
                    continue
            w = part[1].bit_count() > self.WIDE or any(memo[x][2] for l in part[0] for x in l)
            memo[g] = (part[0], part[1], w)
            del self.sopen[g]
            stack.pop()
        return memo[f]

    def encode(self, f, memo, leaf, name):
        """z3 term of a form; leaf translates linear rests."""
        self.struct(f)
        sm = self.smemo
        stack = [f]
        while stack:
            g = stack[-1]
            if g in memo:
                stack.pop()
                continue
            lits, lin, _ = sm[g]
            todo = [x for l in lits for x in l if x not in memo]
            if todo:
                stack.extend(todo)
                continue
            e = leaf(lin & ~1) if lin > 1 else None
            for a, b in lits:
                v = name(Z.and_(memo[a], memo[b]))
                e = v if e is None else Z.xor(e, v)
            if e is None:
                e = Z.true() if lin & 1 else Z.false()
            elif lin & 1:
                e = Z.not_(e)
            memo[g] = e
            stack.pop()
        return memo[f]

    def zform(self, f):
        return self.encode(f, self.zmemo, self.zlin, self.name_of)

    def zlin(self, l):
        e = None
        zvars = self.zvars
        while l:
            low = l & -l
            l ^= low
            v = zvars.get(low)
            if v is None:
                v = zvars[low] = Z.const(low.bit_length())
            e = v if e is None else Z.xor(e, v)
        return e

    def sync(self):
        if self.solver is None:
            self.solver = z3.SolverFor("QF_FD")
            self.zs = self.solver.solver
        while self.zcount < len(self.constraints):
            Z.add(self.zs, self.zform(self.constraints[self.zcount]))
            self.zcount += 1

    # ---- change of basis ---------------------------------------------------------------
    WIDE = 16

    def wide(self, forms):
        return any(self.struct(f)[2] for f in forms)

    def basis_query(self, forms, anyof, want_model, ms, cons=None):
        """The same query over fresh variables for a basis of the linear parts that occur (exact: the basis elements are independent
        functions of the inputs, so every assignment of them is realised by some input)."""
        t0 = time.perf_counter()
        keep = ~(self.andmask | 1)
        cons = self.constraints if cons is None else cons
        parts = set()
        seen = set()
        need = list(cons) + list(forms)
        while need:
            g = need.pop()
            if g in seen:
                continue
            seen.add(g)
            lits, lin, _ = self.struct(g)
            if lin > 1:
                parts.add(lin & ~1)
            for l in lits:
                need.extend(l)
        rows = {}                     # pivot -> [vector, combination of basis elements]
        expr = {}
        pivs = 0
        nb = 0
        for l in sorted(parts, key=lambda v: (v.bit_count(), v)):
            v, comb = l, 0
            t = v & pivs
            while t:
                p = t & -t
                t ^= p
                v ^= rows[p][0]
                comb ^= rows[p][1]
            if v == 0:
                expr[l] = comb
                continue
            expr[l] = 1 << nb
            comb ^= 1 << nb
            nb += 1
            p = v & -v
            for r in rows.values():
                if r[0] & p:
                    r[0] ^= v
                    r[1] ^= comb
            rows[p] = [v, comb]
            pivs |= p
        s = z3.SolverFor("QF_FD")
        s.set("timeout", ms)
        ys = [Z.const(k) for k in range(nb)]

        def leaf(l):
            e = None
            t = expr[l]
            while t:
                b = t & -t
                t ^= b
                v = ys[b.bit_length() - 1]
                e = v if e is None else Z.xor(e, v)
            return e

        memo = {}

        def enc(f):
            return self.encode(f, memo, leaf, lambda e: e)

        for f in cons:
            Z.add(s.solver, enc(f))
        zs = [enc(f) for f in forms]
        if anyof:
            zs = [Z.or_(zs)]
        for z in zs:
            Z.add(s.solver, z)
        r = s.check()
        st = self.stats
        st.queries += 1
        st.rebased += 1
        m = None
        if r == z3.sat and want_model:
            yv = 0
            for i in Z.true_consts(s.model().model):
                if i < nb:
                    yv |= 1 << i
            self.ev(1)
            x = self.asg & keep & ~pivs
            new = x
            for p, (v, comb) in rows.items():
                if ((comb & yv).bit_count() + (v & x).bit_count()) & 1:
                    new |= p
            m = {}
            names = self.names
            while new:
                low = new & -new
                new ^= low
                nm = names[low.bit_length() - 2]
                if nm is not None:
                    m[nm[0]] = m.get(nm[0], 0) | (1 << nm[1])
        st.solver_s += time.perf_counter() - t0
        if r == z3.sat:
            st.sat += 1
            return "sat", m
        if r == z3.unsat:
            st.unsat += 1
            return "unsat", None
        return "unknown", None

    def query(self, forms, want_model=True):
        """sat(path and all forms)?  Returns ('sat', model) / ('unsat', None) / ('unknown', None)."""
        return self.ask(forms, False, want_model)

    def query_any(self, forms, want_model=True):
        """sat(path and at least one form)?"""
        return self.ask(forms, True, want_model)

    def ask(self, forms, anyof, want_model):
        ms = int(self.lim.get("query_ms", 60000))
        order = [self.basis_query, self.plain_query]
        if not (self.wide(forms) or self.wide(self.constraints)):
            order.reverse()
        else:
            narrow = [c for c in self.constraints if not self.wide([c])]
            if len(narrow) < len(self.constraints) and not self.wide(forms):
                # fewer constraints: unsatisfiable stays unsatisfiable
                r, m = self.basis_query(forms, anyof, False, min(ms, 5000), narrow)
                if r == "unsat":
                    return r, m
        for q, t in ((order[0], min(ms, 5000)), (order[1], min(ms, 15000)), (order[0], ms)):
            r, m = q(forms, anyof, want_model, t)
            if r == "sat" and m is not None and not self.verify(m, forms, anyof):
                self.stats.badmodels += 1
                r = "unknown"
            if r == "unsat" and XCHECK:
                r2, m2 = self.basis_query(forms, anyof, True, ms)
                if r2 == "sat":
                    raise RuntimeError("solver disagreement")
            if r != "unknown":
                return r, m
            self.tick()
        self.stats.unknown += 1
        return "unknown", None

    def verify(self, m, forms, anyof):
        """Does the model satisfy the path and the query?  (evaluated independently of the solver)"""
        keep = self.init_model
        self.ext_model()
        old = (self.asg, self.asg_n)
        self.set_model(m)
        ok = self.model_ok() and (any if anyof else all)(self.ev(f) for f in forms)
        self.init_model = keep
        self.asg, self.asg_n = old
        return ok

    def plain_query(self, forms, anyof, want_model, ms):
        self.sync()
        self.solver.set("timeout", ms)
        zs = [self.zform(f) for f in forms]
        return self.zquery([Z.or_(zs)] if anyof else zs, want_model)

    def zquery(self, zs, want_model=True):
        """Decided under an assumption literal; nothing is ever popped."""
        t0 = time.perf_counter()
        q = self.name_of(Z.all_(zs))
        r = self.solver.check(self.boolref(q))
        m = None
        if r == z3.sat and want_model:
            m = self.extract(self.solver.model())
        st = self.stats
        st.queries += 1
        st.solver_s += time.perf_counter() - t0
        if r == z3.sat:
            st.sat += 1
            return "sat", m
        if r == z3.unsat:
            st.unsat += 1
            return "unsat", None
        return "unknown", None

    @staticmethod
    def boolref(a):
        return z3.BoolRef(a, z3.main_ctx())

    def name_of(self, e):
        """A fresh constant defined as e."""
        self.naux += 1
        v = Z.const(AUX + self.naux)
        Z.add(self.zs, Z.eq(v, e))
        return v

    def extract(self, zm):
        # inputs the solver does not mention are 0
        model = {}
        names = self.names
        for i in Z.true_consts(zm.model):
            if i > AUX:
                continue
            nm = names[i - 2]
            if nm is not None:
                model[nm[0]] = model.get(nm[0], 0) | (1 << nm[1])
        return model

    # ---- linear presolve ---------------------------------------------------------------
    def presolve(self, sb, side):
        """Tries to satisfy one side of a branch by flipping inputs that occur only linearly.

        Only ever used to find a model (checked against every constraint); an infeasible side is
        always decided by the solver."""
        if side != sb.neg:
            goals = [[self.deep(g) for g in sb.conj]]
        else:
            goals = [[self.deep(g) ^ 1] for g in sb.conj[:4]]
        big = max((g.bit_count() for gs in goals for g in gs), default=0)
        if big < 40:
            return None
        used = 0
        seen = 0
        todo = 0
        for c in self.constraints:
            todo |= c & self.andmask
        for gs in goals:
            for g in gs:
                todo |= g & self.andmask
        while todo:
            low = todo & -todo
            seen |= low
            a, b = self.defs[low.bit_length() - 2]
            used |= a | b
            todo |= (a | b) & self.andmask
            todo &= ~seen
        free = 0
        for i, d in enumerate(self.defs):
            if d is None:
                free |= 1 << (i + 1)
        free &= ~used
        for pv, row in self.basis.items():
            if not pv & free:
                free &= ~row
        free &= ~self.pivmask
        for gs in goals:
            rows = []
            ok = True
            for g in gs:
                g ^= 1                       # want g == 0
                for pv, r in rows:
                    if g & pv:
                        g ^= r
                t = g & free
                if not t:
                    if g == 0:
                        continue
                    if not self.ev(g):
                        continue             # holds already and does not depend on free inputs
                    ok = False
                    break
                pv = 1 << (t.bit_length() - 1)
                rows = [(p, r ^ g if r & pv else r) for p, r in rows]
                rows.append((pv, g))
            if not ok:
                continue
            self.ev(1)
            asg = self.asg
            for pv, g in rows:
                asg &= ~pv
            new = asg
            for pv, g in rows:
                if (g & asg).bit_count() & 1:
                    new |= pv
            # pivots of the basis follow
            for pv, row in self.basis.items():
                if pv & ~self.andmask:
                    new &= ~pv
                    if (row & new).bit_count() & 1:
                        new |= pv
            m = {}
            for i, nm in enumerate(self.names):
                if nm is not None and (new >> (i + 1)) & 1:
                    m[nm[0]] = m.get(nm[0], 0) | (1 << nm[1])
            keep = self.init_model
            self.ext_model()
            old = (self.asg, self.asg_n)
            self.set_model(m)
            good = self.model_ok() and bool(self.ev(sb.f)) == side
            self.init_model = keep
            self.asg, self.asg_n = old
            if good:
                self.stats.presolved += 1
                return m
        return None

    # ---- decisions ------------------------------------------------------------------
    def tick(self):
        if self.t_end is not None and time.time() > self.t_end:
            raise Budget("time")

    def decide(self, sb):
        """Branch on a SymBool; returns a Python bool and records the choice."""
        st = self.stats
        st.decisions += 1
        f = sb.quick()
        if f in (0, 1):
            return bool(f)
        f = self.deep(sb.f)
        if f in (0, 1):
            return bool(f)
        k = len(self.trace)
        if k < len(self.prefix):
            side = self.prefix[k]
            if not isinstance(side, bool):
                raise RuntimeError("nondeterministic replay")
            self.trace.append(side)
            sb.assert_side(side)
            return side
        self.tick()
        if k > self.lim.get("max_depth", 4000):
            raise Budget("depth")
        side = bool(self.ev(f))
        m = self.presolve(sb, not side)
        if m is not None:
            r = "sat"
        else:
            if sb.neg == side:      # the other side makes the whole conjunction true
                r, m = self.query([self.deep(g) for g in sb.conj])
            else:
                r, m = self.query([f ^ 1 if side else f])
        if r == "sat":
            self.pending.append((self.trace + [not side], m))
        elif r == "unknown":
            self.incomplete.append("solver unknown at a branch")
        self.trace.append(side)
        sb.assert_side(side)
        return side

    def concretize(self, x, why=""):
        """Fork over all feasible values of SymInt x; returns a Python int."""
        x = renorm(x)
        if isinstance(x, int):
            return x
        self.stats.concretisations += 1
        n = 0
        while True:
            k = len(self.trace)
            if k < len(self.prefix):
                ent = self.prefix[k]
                if isinstance(ent, bool):
                    raise RuntimeError("nondeterministic replay")
                v, take = ent
                self.trace.append((v, take))
                eq = int_eq(x, v)
                if isinstance(eq, bool):
                    if eq != take:
                        raise Infeasible()
                else:
                    eq.assert_side(take)
                if take:
                    return v
                n += 1
                x = renorm(x)
                if isinstance(x, int):
                    return x
                continue
            self.tick()
            v = self.ev_int(x)
            eq = int_eq(x, v)
            if isinstance(eq, bool):
                return v
            f = self.deep(eq.f)
            if f == 1:
                return v
            r, m = self.query([f ^ 1])
            if r == "sat":
                if n >= self.lim.get("max_conc", 300):
                    self.incomplete.append("concretisation limit %s" % why)
                else:
                    self.pending.append((self.trace + [(v, False)], m))
            elif r == "unknown":
                self.incomplete.append("solver unknown at concretisation")
            self.trace.append((v, True))
            eq.assert_side(True)
            return v

    def ev_int(self, x):
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, SymBool):
            return self.ev(x.f)
        v = 0
        b = x.bits
        for i in range(len(b) - 1):
            if self.ev(b[i]):
                v |= 1 << i
        if self.ev(b[-1]):
            v -= 1 << (len(b) - 1)
        return v


class _Box:
    ctx: Ctx = None


BOX = _Box()


def C() -> Ctx:
    return BOX.ctx


# ================================================================================ SymBool

class Sym:
    """Marker base class of all symbolic scalars."""
    __slots__ = ()


class SymBool(Sym):
    """neg XOR (AND of conj)."""
    __slots__ = ("conj", "neg", "_f")

    def __init__(self, conj, neg=False):
        self.conj = conj
        self.neg = neg
        self._f = None

    @property
    def f(self):
        if self._f is None:
            c = C()
            # balanced and-chain in order
            acc = 1
            for g in self.conj:
                acc = c.and_(acc, g)
                if acc == 0:
                    break
            self._f = acc ^ 1 if self.neg else acc
        return self._f

    def quick(self):
        """Constant if cheaply decidable, else None."""
        c = C()
        allone = True
        for g in self.conj:
            g = c.reduce(g)
            if g == 0:
                return 1 if self.neg else 0
            if g != 1:
                allone = False
        if allone:
            return 0 if self.neg else 1
        return None

    def assert_side(self, side):
        c = C()
        if side != self.neg:       # conjunction is true
            for g in self.conj:
                c.assert_form(g)
        else:
            if len(self.conj) == 1:
                c.assert_form(self.conj[0] ^ 1)
            else:
                c.assert_form(self.f if side else self.f ^ 1)

    def __bool__(self):
        return C().decide(self)

    def not_(self):
        return SymBool(self.conj, not self.neg)

    # as an int
    def _i(self):
        return mk([self.f, 0])

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(int(bool(self)))

    def __hash__(self):
        return 0x5EED

    def __repr__(self):
        from . import text
        return text.token(self, "bool")

    __str__ = __repr__

    def __format__(self, spec):
        from . import text
        return text.token(self, spec or "bool")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic")


def mkbool(f):
    if f == 0:
        return False
    if f == 1:
        return True
    c = C()
    g = c.reduce(f)
    if g in (0, 1):
        return bool(g)
    return SymBool([g])


def form_of(x):
    """Form of the truth value of x (bool / SymBool / int / SymInt), without forking."""
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, SymInt):
        return x.truth().f if isinstance(x.truth(), SymBool) else int(x.truth())
    return 1 if x else 0


def sb_not(x):
    if isinstance(x, SymBool):
        return x.not_()
    return not x


def sb_and(*xs):
    conj = []
    for x in xs:
        if isinstance(x, SymBool):
            if not x.neg:
                conj.extend(x.conj)
            else:
                conj.append(x.f)
        elif not x:
            return False
    if not conj:
        return True
    if any(g == 0 for g in conj):
        return False
    conj = [g for g in conj if g != 1]
    if not conj:
        return True
    return SymBool(conj)


def sb_or(*xs):
    r = sb_and(*[sb_not(x) for x in xs])
    return sb_not(r)


# ================================================================================ SymInt

def mk(bits):
    """SymInt (or int) from two's-complement bit forms, LSB first, last = sign."""
    c = C()
    if c.pivmask:
        pm = c.pivmask
        bits = [c.reduce(b) if b & pm else b for b in bits]
    n = len(bits)
    while n > 1 and bits[n - 1] == bits[n - 2]:
        n -= 1
    bits = bits[:n]
    if all(b < 2 for b in bits):
        v = 0
        for i in range(n - 1):
            if bits[i]:
                v |= 1 << i
        if bits[n - 1]:
            v -= 1 << (n - 1)
        return v
    return SymInt(tuple(bits))


def renorm(x):
    if isinstance(x, SymInt):
        c = C()
        return mk([c.deep(b) for b in x.bits])
    if isinstance(x, SymBool):
        return renorm(x._i())
    return x


def ibits(v):
    """bit forms of a Python int (minimal width)."""
    n = (v.bit_length() if v >= 0 else (~v).bit_length()) + 1
    return [(v >> i) & 1 for i in range(n)]


def tobits(x):
    if isinstance(x, SymInt):
        return list(x.bits)
    if isinstance(x, SymBool):
        return [x.f, 0]
    return ibits(int(x))


def sext(b, n):
    if len(b) >= n:
        return b
    return list(b) + [b[-1]] * (n - len(b))


def add_bits(a, b, cin=0):
    n = max(len(a), len(b)) + 1
    a = sext(a, n)
    b = sext(b, n)
    c = C()
    and_ = c.and_
    out = []
    cy = cin
    for i in range(n):
        x, y = a[i], b[i]
        xc = x ^ cy
        out.append(xc ^ y)
        if i + 1 < n:
            cy = and_(xc, y ^ cy) ^ cy
    return out


def inv_bits(a):
    return [x ^ 1 for x in a]


def isint(x):
    return isinstance(x, (int, SymInt, SymBool))


def i_add(a, b):
    if isinstance(b, int) and b == 0 and isinstance(a, SymInt):
        return a
    if isinstance(a, int) and a == 0 and isinstance(b, SymInt):
        return b
    return mk(add_bits(tobits(a), tobits(b)))


def i_sub(a, b):
    if isinstance(b, int) and b == 0 and isinstance(a, SymInt):
        return a
    return mk(add_bits(tobits(a), inv_bits(tobits(b)), 1))


def i_neg(a):
    return mk(add_bits([0], inv_bits(tobits(a)), 1))


def i_mul(a, b):
    if isinstance(a, int) and not isinstance(b, int):
        a, b = b, a
    if isinstance(b, (int, bool)):
        b = int(b)
        if b == 0:
            return 0
        neg = b < 0
        b = abs(b)
        A = tobits(a)
        acc = [0]
        first = True
        i = 0
        # non-adjacent form to keep the number of adders low
        while b:
            if b & 1:
                d = 2 - (b & 3)
                b -= d
                sh = [0] * i + A
                if d == 1:
                    acc = sh if first else add_bits(acc, sh)
                else:
                    acc = add_bits(acc, inv_bits(sh), 1)
                first = False
            b >>= 1
            i += 1
        r = mk(acc)
        return i_neg(r) if neg else r
    # symbolic * symbolic, two's complement
    A, B = tobits(a), tobits(b)
    if len(A) < len(B):
        A, B = B, A
    c = C()
    acc = [0]
    for i, bb in enumerate(B):
        if bb == 0:
            continue
        pp = [0] * i + [c.and_(x, bb) for x in A]
        if i == len(B) - 1:
            acc = add_bits(acc, inv_bits(pp), 1)
        else:
            acc = add_bits(acc, pp)
    return mk(acc)


def i_bitop(a, b, op):
    A, B = tobits(a), tobits(b)
    n = max(len(A), len(B))
    A, B = sext(A, n), sext(B, n)
    c = C()
    if op == "&":
        return mk([c.and_(x, y) for x, y in zip(A, B)])
    if op == "|":
        return mk([c.or_(x, y) for x, y in zip(A, B)])
    return mk([x ^ y for x, y in zip(A, B)])


def i_shl(a, k):
    if not isinstance(k, int):
        k = renorm(k)
    if isinstance(k, (SymInt, SymBool)):
        lo, hi = bounds(k)
        if hi > 4096:
            k = C().concretize(k, "shift")
            return i_shl(a, k)
        if lo < 0 and bool(k < 0):
            raise ValueError("negative shift count")
        cur = tobits(a)
        c = C()
        for i, kb in enumerate(tobits(k)[:-1]):
            if kb == 0:
                continue
            sh = [0] * (1 << i) + cur
            cu = sext(cur, len(sh))
            cur = [c.ite(kb, s, u) for s, u in zip(sh, cu)]
        return mk(cur)
    if k < 0:
        raise ValueError("negative shift count")
    return mk([0] * k + tobits(a))


def i_shr(a, k):
    if not isinstance(k, int):
        k = renorm(k)
    if isinstance(k, (SymInt, SymBool)):
        lo, hi = bounds(k)
        if lo < 0 and bool(k < 0):
            raise ValueError("negative shift count")
        cur = tobits(a)
        c = C()
        for i, kb in enumerate(tobits(k)[:-1]):
            if kb == 0:
                continue
            d = 1 << i
            sh = cur[d:] if d < len(cur) else [cur[-1]]
            sh = sext(sh, len(cur))
            cur = [c.ite(kb, s, u) for s, u in zip(sh, cur)]
        return mk(cur)
    if k < 0:
        raise ValueError("negative shift count")
    A = tobits(a)
    return mk(A[k:] if k < len(A) else [A[-1]])


def bounds(x):
    """Conservative [lo, hi]."""
    if isinstance(x, (int, bool)):
        return int(x), int(x)
    b = tobits(x)
    lo = hi = 0
    for i in range(len(b) - 1):
        if b[i] == 1:
            lo |= 1 << i
            hi |= 1 << i
        elif b[i] != 0:
            hi |= 1 << i
    s = b[-1]
    w = 1 << (len(b) - 1)
    if s == 1:
        lo -= w
        hi -= w
    elif s != 0:
        lo -= w
    return lo, hi


def int_eq(a, b):
    A, B = tobits(a), tobits(b)
    n = max(len(A), len(B))
    A, B = sext(A, n), sext(B, n)
    c = C()
    conj = []
    seen = set()
    for x, y in zip(A, B):
        g = c.reduce(x ^ y ^ 1)
        if g == 0:
            return False
        if g != 1 and g not in seen:
            seen.add(g)
            conj.append(g)
    if not conj:
        return True
    return SymBool(conj)


def int_lt(a, b):
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if ha < lb:
        return True
    if la >= hb:
        return False
    d = add_bits(tobits(a), inv_bits(tobits(b)), 1)
    return mkbool(d[-1])


def i_divmod_const(a, d):
    """Python floor divmod by a positive/negative int constant."""
    if d == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if d < 0:
        q, r = i_divmod_const(i_neg(a), -d)
        return q, i_neg(r)
    if d & (d - 1) == 0:
        k = d.bit_length() - 1
        return i_shr(a, k), i_bitop(a, d - 1, "&")
    lo, hi = bounds(a)
    off = 0
    if lo < 0:
        m = (-lo + d - 1) // d
        off = m
        a = i_add(a, m * d)
    A = tobits(a)
    c = C()
    rem = [0, 0]
    q = [0] * len(A)
    for i in range(len(A) - 2, -1, -1):
        rem = [A[i]] + rem
        t = add_bits(rem, inv_bits(ibits(d)), 1)
        ge = t[-1] ^ 1
        q[i] = ge
        w = d.bit_length() + 1
        t = sext(t, w)[:w]
        r = sext(rem, w)[:w]
        rem = [c.ite(ge, x, y) for x, y in zip(t, r)]
        rem[-1] = 0
    Q, R = mk(q + [0]), mk(rem)
    if off:
        Q = i_sub(Q, off)
    return Q, R


def i_ite(cond, a, b):
    """cond: SymBool/bool."""
    if not isinstance(cond, SymBool):
        return a if cond else b
    f = C().deep(cond.f)
    if f in (0, 1):
        return a if f else b
    A, B = tobits(a), tobits(b)
    n = max(len(A), len(B))
    A, B = sext(A, n), sext(B, n)
    c = C()
    return mk([c.ite(f, x, y) for x, y in zip(A, B)])


def _num(op):
    """binary operator factory: int results when both ints, defers to float otherwise."""
    return op


class SymInt(Sym):
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits

    # arithmetic --------------------------------------------------------------
    def __add__(self, o):
        if isint(o):
            return i_add(self, o)
        return _fl(self, o, "+")

    def __radd__(self, o):
        if isint(o):
            return i_add(o, self)
        return _fl(o, self, "+")

    def __sub__(self, o):
        if isint(o):
            return i_sub(self, o)
        return _fl(self, o, "-")

    def __rsub__(self, o):
        if isint(o):
            return i_sub(o, self)
        return _fl(o, self, "-")

    def __mul__(self, o):
        if isint(o):
            return i_mul(self, o)
        if isinstance(o, (str, bytes, list, tuple)):
            return o * C().concretize(self, "repeat")
        return _fl(self, o, "*")

    def __rmul__(self, o):
        if isint(o):
            return i_mul(o, self)
        if isinstance(o, (str, bytes, list, tuple)):
            return o * C().concretize(self, "repeat")
        return _fl(o, self, "*")

    def __truediv__(self, o):
        return _fl(self, o, "/")

    def __rtruediv__(self, o):
        return _fl(o, self, "/")

    def __divmod__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = C().concretize(o, "divisor")
        if isinstance(o, int):
            return i_divmod_const(self, o)
        return NotImplemented

    def __rdivmod__(self, o):
        d = C().concretize(self, "divisor")
        return divmod(o, d)

    def __floordiv__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = C().concretize(o, "divisor")
        if isinstance(o, int):
            return i_divmod_const(self, o)[0]
        r = _fl(self, o, "/")
        return r.__floor__f() if r is not NotImplemented else r

    def __mod__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = C().concretize(o, "divisor")
        if isinstance(o, int):
            return i_divmod_const(self, o)[1]
        return NotImplemented

    def __rfloordiv__(self, o):
        return o // C().concretize(self, "divisor")

    def __rmod__(self, o):
        return o % C().concretize(self, "divisor")

    def __pow__(self, o, m=None):
        if isinstance(o, (SymInt, SymBool)):
            o = C().concretize(o, "exponent")
        if m is not None:
            raise Unsupported("pow mod")
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return C().concretize(self, "pow") ** o

    def __rpow__(self, o):
        if o == 2 and isinstance(o, int) and bounds(self)[0] >= 0:
            return i_shl(1, self)
        return o ** C().concretize(self, "exponent")

    def __neg__(self):
        return i_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        s = mkbool(self.bits[-1])
        return i_ite(s, i_neg(self), self)

    def __invert__(self):
        return mk(inv_bits(self.bits))

    def __and__(self, o):
        return i_bitop(self, o, "&") if isint(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return i_bitop(self, o, "|") if isint(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return i_bitop(self, o, "^") if isint(o) else NotImplemented

    __rxor__ = __xor__

    def __lshift__(self, o):
        return i_shl(self, o) if isint(o) else NotImplemented

    def __rlshift__(self, o):
        return i_shl(o, self)

    def __rshift__(self, o):
        return i_shr(self, o) if isint(o) else NotImplemented

    def __rrshift__(self, o):
        return i_shr(o, self)

    # comparisons -------------------------------------------------------------
    def __eq__(self, o):
        if isint(o):
            return int_eq(self, o)
        return _flcmp(self, o, "==")

    def __ne__(self, o):
        if isint(o):
            return sb_not(int_eq(self, o))
        r = _flcmp(self, o, "==")
        return sb_not(r)

    def __lt__(self, o):
        if isint(o):
            return int_lt(self, o)
        return _flcmp(self, o, "<")

    def __ge__(self, o):
        if isint(o):
            return sb_not(int_lt(self, o))
        return _flcmp(self, o, ">=")

    def __gt__(self, o):
        if isint(o):
            return int_lt(o, self)
        return _flcmp(self, o, ">")

    def __le__(self, o):
        if isint(o):
            return sb_not(int_lt(o, self))
        return _flcmp(self, o, "<=")

    def truth(self):
        """SymBool for self != 0."""
        r = int_eq(self, 0)
        return sb_not(r)

    def __bool__(self):
        return bool(self.truth())

    def __hash__(self):
        return 0x5EED

    def __index__(self):
        return C().concretize(self, "index")

    def __int__(self):
        return C().concretize(self, "int()")

    def __float__(self):
        return float(C().concretize(self, "float()"))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    # int methods ---------------------------------------------------------------
    def bit_count(self):
        b = list(self.bits)
        if b[-1] != 0:
            a = abs(self)
            if isinstance(a, int):
                return a.bit_count()
            b = list(a.bits)
        items = [[x, 0] for x in b[:-1] if x != 0]
        if not items:
            return 0
        while len(items) > 1:
            nxt = []
            for i in range(0, len(items) - 1, 2):
                s = add_bits(items[i], items[i + 1])
                while len(s) > 2 and s[-1] == s[-2]:
                    s.pop()
                nxt.append(s)
            if len(items) % 2:
                nxt.append(items[-1])
            items = nxt
        return mk(items[0])

    def bit_length(self):
        a = abs(self)
        if isinstance(a, int):
            return a.bit_length()
        r = 0
        for i, f in enumerate(a.bits[:-1]):
            r = i_ite(mkbool(f), i + 1, r)
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .byts import SymBytes
        lo, hi = bounds(self)
        if not signed and lo < 0 and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if hi >> (8 * length) and bool((self >> (8 * length)) != 0):
            raise OverflowError("int too big to convert")
        bs = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == "big":
            bs.reverse()
        return SymBytes(bs)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def __repr__(self):
        from . import text
        return text.token(self, "")

    __str__ = __repr__

    def __format__(self, spec):
        from . import text
        if text.has_token(spec):          # a width that is itself symbolic
            spec = "".join(p if isinstance(p, str) else format(C().concretize(p[0], "format width"), p[1]) for p in text.parts(spec))
        w = spec[1:-1]
        if spec[-1:] in ("b", "x", "X") and spec[:1] == "0" and w.isdigit():   # digits, one character each
            k = 1 if spec[-1] == "b" else 4
            n = int(w)
            if self.bits[-1] == 0 and len(self.bits) - 1 <= n * k and (k == 1 or n > 2):
                from .symstr import digits
                return digits(self, n, k, spec[-1] == "X")
        return text.token(self, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic")


def _fl(a, b, op):
    from . import flt
    return flt.binop(a, b, op)


def _flcmp(a, b, op):
    from . import flt
    return flt.cmp(a, b, op)


# SymBool delegates arithmetic to SymInt -------------------------------------------
def _deleg(name):
    def m(self, *a):
        i = self._i()
        if isinstance(i, int):
            r = getattr(i, name)(*a)
            if r is NotImplemented and len(a) == 1 and isinstance(a[0], (SymInt, SymBool)):
                return getattr(mkforced(i), name)(*a)
            return r
        return getattr(i, name)(*a)
    m.__name__ = name
    return m


def mkforced(v):
    return SymInt(tuple(ibits(v)))


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ "
           "__floordiv__ __mod__ __rfloordiv__ __rmod__ __pow__ __rpow__ __neg__ __pos__ __abs__ __invert__ "
           "__lshift__ __rlshift__ __rshift__ __rrshift__ __lt__ __le__ __gt__ __ge__ "
           "bit_count bit_length to_bytes __divmod__ __rdivmod__ __round__ __trunc__").split():
    setattr(SymBool, _n, _deleg(_n))


def _sb_eq(self, o):
    if isinstance(o, bool):
        return self if o else self.not_()
    if isint(o):
        return int_eq(self, o)
    return _flcmp(self._i(), o, "==") if not isinstance(o, (str, bytes, type(None), list, tuple, dict)) else False


def _sb_ne(self, o):
    return sb_not(_sb_eq(self, o))


def _sb_bit(op):
    def m(self, o):
        if isinstance(o, (bool, SymBool)):
            a, b = self.f, form_of(o)
            c = C()
            return mkbool(c.and_(a, b) if op == "&" else c.or_(a, b) if op == "|" else a ^ b)
        if isint(o):
            return i_bitop(self, o, op)
        return NotImplemented
    return m


SymBool.__eq__ = _sb_eq
SymBool.__ne__ = _sb_ne
SymBool.__and__ = SymBool.__rand__ = _sb_bit("&")
SymBool.__or__ = SymBool.__ror__ = _sb_bit("|")
SymBool.__xor__ = SymBool.__rxor__ = _sb_bit("^")


# ================================================================================ inputs

def new_uint(name, nbits):
    c = C()
    first = len(c.defs)
    c.inputs[name] = ("uint", nbits)
    return mk([c.new_input(name, i) for i in range(nbits)] + [0])


def from_bits_msb(bits, signed=False):
    """Integer from a list of forms, MSB first."""
    b = list(reversed(bits))
    if not signed:
        b.append(0)
    return mk(b)
