"""Loads modules of the repository with AST instrumentation (regenerated from source on every run)."""
from __future__ import annotations
import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys
from . import shims

PFX = "_sx_"


def _name(n):
    return ast.Name(PFX + n, ast.Load())


def _call(n, *args):
    return ast.Call(_name(n), list(args), [])


class Pure(ast.NodeVisitor):
    OK = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Attribute, ast.operator, ast.unaryop, ast.Load,
          ast.Compare, ast.cmpop)

    @classmethod
    def expr(cls, e):
        for n in ast.walk(e):
            if not isinstance(n, cls.OK):
                return False
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                return False
            if isinstance(n, ast.Compare) and (len(n.ops) != 1 or isinstance(n.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot))):
                return False
        return True

    @classmethod
    def block(cls, stmts, names):
        for s in stmts:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and cls.expr(s.value):
                names.add(s.targets[0].id)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and cls.expr(s.value):
                names.add(s.target.id)
            elif isinstance(s, ast.If) and cls.expr(s.test):
                if not cls.block(s.body, names) or not cls.block(s.orelse, names):
                    return False
            elif isinstance(s, ast.Pass):
                pass
            else:
                return False
        return True


class Tr(ast.NodeTransformer):
    def __init__(self, modname=""):
        self.mod = modname
        self.qual = []
        self.fn = 0
        self.cls = 0
        self.tmp = 0
        self.globals_decl = set()

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.fn += 1
        self.qual.append(n.name)
        n.body = self._body(n.body)
        mark = ast.Expr(_call("enter", ast.Constant(self.mod + "." + ".".join(self.qual))))
        doc = bool(n.body) and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
            and isinstance(n.body[0].value.value, str)
        n.body.insert(1 if doc else 0, mark)
        self.qual.pop()
        self.fn -= 1
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Lambda(self, n):
        self.fn += 1
        self.generic_visit(n)
        self.fn -= 1
        return n

    def visit_ClassDef(self, n):
        saved, self.fn = self.fn, 0
        self.qual.append(n.name)
        self.generic_visit(n)
        self.qual.pop()
        self.fn = saved
        return n

    def visit_AnnAssign(self, n):
        # keep annotations untouched
        if n.value is not None:
            n.value = self.visit(n.value)
        if isinstance(n.target, ast.Subscript):
            n.target = self.visit(n.target)
        return n

    def visit_arg(self, n):
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]
            m = {ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}.get(type(op))
            if m in ("is", "isnot"):
                c = n.comparators[0]
                if not any(isinstance(x, ast.Constant) and isinstance(x.value, bool) for x in (n.left, c)):
                    return n
            if m:
                return ast.copy_location(_call(m, n.left, n.comparators[0]), n)
            if isinstance(op, (ast.Eq, ast.NotEq)) and not any(isinstance(x, ast.Constant) and not isinstance(x.value, str) for x in (n.left, n.comparators[0])):
                return ast.copy_location(_call("same" if isinstance(op, ast.Eq) else "differ", n.left, n.comparators[0]), n)
        return n

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            self.generic_visit(n)
            sl = n.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(ast.Name("slice", ast.Load()), [sl.lower or none, sl.upper or none, sl.step or none], [])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return n
            return ast.copy_location(_call("getitem", n.value, sl), n)
        if isinstance(n.ctx, ast.Store) and not isinstance(n.slice, ast.Slice) and isinstance(n.value, (ast.Name, ast.Attribute)):
            self.generic_visit(n)
            import copy
            v = copy.deepcopy(n.value)
            for x in ast.walk(v):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            n.slice = _call("key", v, n.slice)
            return n
        self.generic_visit(n)
        return n

    def visit_AugAssign(self, n):
        # target subscripts keep native semantics (key normalised)
        n.value = self.visit(n.value)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], _call("mod", ast.Name(n.target.id, ast.Load()), n.value)), n)
        if isinstance(n.target, ast.Subscript):
            n.target = self.visit_Subscript(n.target)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call("mod", n.left, n.right), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in shims.CALLS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
            return ast.copy_location(
                ast.Call(_name("call"), [f.value, ast.Constant(f.attr)] + n.args, n.keywords), n)
        return n

    def visit_IfExp(self, n):
        ok = self.fn > 0 and Pure.expr(n.body) and Pure.expr(n.orelse)
        self.generic_visit(n)
        if not ok:
            return n
        lam = lambda e: ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), e)
        return ast.copy_location(_call("ifexp", n.test, lam(n.body), lam(n.orelse)), n)

    def visit_If(self, n):
        names = set()
        ok = self.fn > 0 and Pure.block(n.body, names) and Pure.block(n.orelse, names) and names
        if not ok:
            self.generic_visit(n)
            return n
        import copy
        self.tmp += 1
        t = "%st%d" % (PFX, self.tmp)
        sa, sb, ss = t + "a", t + "b", t + "s"
        vs = sorted(names)
        both = _assigned(n.body) & _assigned(n.orelse)
        keep = [v for v in vs if v not in both]
        used_in = _loads(n.body) | _loads(n.orelse)
        keep = sorted(set(keep) | (used_in & names))
        L = lambda v: ast.Name(v, ast.Load())
        S = lambda v: ast.Name(v, ast.Store())
        tup = lambda l, c: ast.Tuple([ast.Name(v, c) for v in l], c)
        orig_body, orig_else = copy.deepcopy(n.body), copy.deepcopy(n.orelse)
        th = self._body(copy.deepcopy(n.body))
        el = self._body(copy.deepcopy(n.orelse))
        test = self.visit(n.test)
        restore = [ast.Assign([tup(keep, ast.Store())], L(ss))] if keep else []
        restore2 = [ast.Assign([tup(keep, ast.Store())], L(ss))] if keep else []
        tr = [ast.Assign([S(ss)], tup(keep, ast.Load()))] if keep else [ast.Assign([S(ss)], ast.Constant(None))]
        tr += th
        tr += [ast.Assign([S(sa)], tup(vs, ast.Load()))]
        tr += restore
        tr += el
        tr += [ast.Assign([S(sb)], tup(vs, ast.Load()))]
        tr += [ast.Assign([tup(vs, ast.Store())], _call("merge", L(t), L(sa), L(sb)))]
        fb_body = self._body(orig_body) or [ast.Pass()]
        fb_else = self._body(orig_else)
        plain = ast.If(L(t), fb_body, fb_else)
        import copy as _c
        handler = ast.ExceptHandler(ast.Name("Exception", ast.Load()), None,
                                    [ast.If(ast.Compare(L(ss), [ast.IsNot()], [ast.Constant(None)]), restore2 or [ast.Pass()], []),
                                     _c.deepcopy(plain)])
        tr0 = [ast.Assign([S(ss)], ast.Constant(None)), ast.Try(tr, [handler], [], [])]
        res = [ast.Assign([S(t)], test), ast.If(_call("mergeable", L(t)), tr0, [_c.deepcopy(plain)])]
        for r in res:
            ast.copy_location(r, n)
        return res


def _assigned(stmts):
    """Names definitely assigned by the block."""
    out = set()
    for s in stmts:
        if isinstance(s, ast.Assign):
            out.add(s.targets[0].id)
        elif isinstance(s, ast.If):
            out |= _assigned(s.body) & _assigned(s.orelse)
    return out


def _loads(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


def instrument(src, path, modname=""):
    tree = ast.parse(src, path)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


LOADED = {}      # module -> (path, sha1)


class Loader(importlib.abc.Loader):
    def __init__(self, path, builtins_):
        self.path = path
        self.b = builtins_

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            raw = f.read()
        LOADED[module.__name__] = (self.path, hashlib.sha1(raw).hexdigest())
        code = instrument(raw.decode("utf-8"), self.path, module.__name__)
        module.__dict__["__builtins__"] = self.b
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root
        self.b = shims.make_builtins()

    def find_spec(self, fullname, path=None, target=None):
        if fullname in STDLIB:
            return importlib.util.spec_from_file_location(fullname, STDLIB[fullname], loader=Loader(STDLIB[fullname], self.b))
        rel = fullname.replace(".", "/")
        for cand, pkg in ((os.path.join(self.root, rel, "__init__.py"), True), (os.path.join(self.root, rel + ".py"), False)):
            if os.path.isfile(cand):
                return importlib.util.spec_from_file_location(
                    fullname, cand, loader=Loader(cand, self.b),
                    submodule_search_locations=[os.path.dirname(cand)] if pkg else None)
        d = os.path.join(self.root, rel)
        if os.path.isdir(d) and any(f.endswith(".py") for f in os.listdir(d)):
            # namespace package (e.g. tests/)
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [d]
            return spec
        return None


# modules of the standard library executed symbolically too (values of settings pass through them as text)
STDLIB = {"configparser": os.path.join(os.path.dirname(os.__file__), "configparser.py")}


def install(root="/repo"):
    sys.dont_write_bytecode = True
    for n in STDLIB:
        sys.modules.pop(n, None)
    f = Finder(root)
    sys.meta_path.insert(0, f)
    return f
