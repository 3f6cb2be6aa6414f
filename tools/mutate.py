"""mutate.py list OUT.json | test IN.json OUT.json | check IN.json OUT.json [N SEED]: small mutations of /repo's sources.
'test' keeps the mutants that the repository's tests do not notice, 'check' runs the checks that encode the mutated function on them
(cheapest first, until one reports a violation). All in scratch copies under /tmp."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
FILES = """utilities/RTCM_utilities.py utilities/bits.py converter_top.py run_conversion.py sub_decoders/RTCM_BASE.py sub_decoders/RTCM_MSM.py
sub_decoders/RTCM_EPH.py printer_top.py printers/margo_printer.py printers/json_printer.py decoder_top.py controls.py gnss_types/ephemeris.py
gnss_types/data_class_methods.py gnss_types/observables.py gnss_types/base_station.py""".split()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.Div: "*"}


def mutants(f):
    src = open(os.path.join(R, f), newline="").read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    out = []

    def add(node, new, kind, fn):
        s, e = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        out.append({"file": f, "fn": fn, "kind": kind, "line": node.lineno, "s": s, "e": e, "old": b[s:e].decode(), "new": new})

    def logcall(n):
        t = ast.unparse(n)
        return t.startswith(("logger.", "print(", "raise "))

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            name = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                name = (fn + "." if fn else "") + ch.name
            if isinstance(ch, (ast.Expr, ast.Raise, ast.Assert)) and (logcall(ch) or isinstance(getattr(ch, "value", None), ast.Constant)):
                continue
            if isinstance(ch, ast.JoinedStr) and "width" not in ast.unparse(ch) and "10" not in ast.unparse(ch):
                continue
            seg = lambda n: b[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
            if isinstance(ch, (ast.Assign, ast.AugAssign, ast.Delete, ast.Break, ast.Continue)) or isinstance(ch, ast.Expr):
                if fn and not isinstance(node, ast.ClassDef):
                    add(ch, "pass", "del", name)
            if isinstance(ch, ast.Compare) and len(ch.ops) == 1 and type(ch.ops[0]) in CMP:
                add(ch, "%s %s %s" % (seg(ch.left), CMP[type(ch.ops[0])], seg(ch.comparators[0])), "cmp", name)
            if isinstance(ch, ast.BinOp) and type(ch.op) in BIN:
                add(ch, "(%s) %s (%s)" % (seg(ch.left), BIN[type(ch.op)], seg(ch.right)), "bin", name)
            if isinstance(ch, ast.BoolOp):
                o = " or " if isinstance(ch.op, ast.And) else " and "
                add(ch, "(" + o.join("(%s)" % seg(v) for v in ch.values) + ")", "bool", name)
                for i in range(len(ch.values)):
                    o2 = " and " if isinstance(ch.op, ast.And) else " or "
                    add(ch, "(" + o2.join("(%s)" % seg(v) for k, v in enumerate(ch.values) if k != i) + ")", "drop", name)
            if isinstance(ch, ast.UnaryOp) and isinstance(ch.op, (ast.Not, ast.USub)) and not isinstance(ch.operand, ast.Constant):
                add(ch, "(%s)" % seg(ch.operand), "not", name)
            if isinstance(ch, ast.Constant) and fn:
                if isinstance(ch.value, bool):
                    add(ch, str(not ch.value), "const", name)
                elif isinstance(ch.value, int):
                    add(ch, str(ch.value + 1), "const", name)
                    if ch.value > 1:
                        add(ch, str(ch.value - 1), "const", name)
                elif isinstance(ch.value, float):
                    add(ch, repr(ch.value * 1.001 + 1e-30), "const", name)
                elif isinstance(ch.value, str) and 0 < len(ch.value) < 20 and not isinstance(node, ast.Expr):
                    add(ch, repr(ch.value + "x"), "str", name)
            if isinstance(ch, ast.Attribute) and ch.attr in ("getbitu", "getbits"):
                add(ch, seg(ch.value) + (".getbits" if ch.attr == "getbitu" else ".getbitu"), "sign", name)
            if isinstance(ch, ast.Return) and ch.value is not None and fn and not isinstance(ch.value, ast.Constant):
                add(ch, "return None", "ret", name)
            if isinstance(ch, ast.If):
                add(ch.test, "False", "if", name)
                add(ch.test, "True", "if", name)
            if isinstance(ch, ast.ExceptHandler) and ch.type is not None:
                add(ch.type, "ZeroDivisionError", "exc", name)
            walk(ch, name)

    walk(tree, "")
    return out


def apply(m, root):
    p = os.path.join(root, m["file"])
    b = open(os.path.join(R, m["file"]), "rb").read()
    n = b[:m["s"]] + m["new"].encode() + b[m["e"]:]
    compile(n, p, "exec")
    open(p, "wb").write(n)


class Pool:
    def __init__(self, n):
        import queue
        self.q = queue.Queue()
        self.d = []
        for i in range(n):
            d = tempfile.mkdtemp(prefix="mutw")
            subprocess.check_call(["cp", "-a", R, d + "/r"])
            self.d.append(d)
            self.q.put(d + "/r")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for d in self.d:
            shutil.rmtree(d)

    def run(self, m, f):
        r = self.q.get()
        try:
            try:
                apply(m, r)
            except SyntaxError:
                return None
            return f(m, r)
        finally:
            shutil.copyfile(os.path.join(R, m["file"]), os.path.join(r, m["file"]))
            self.q.put(r)


def test(m, r):
    e = dict(os.environ, PYTHONPATH="/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0")
    try:
        c = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-p", "bool_results", "--rootdir=" + r, "--timeout=60", "-o",
                            "junit_family=xunit2", "."], cwd=r, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        return c.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def hit(m, fn):
    """Does the encoded function fn (module.qualname) touch the mutated place? Class bodies and module level: any function of it."""
    q = m["file"][:-3].replace("/", ".") + "." + m["fn"] if m["fn"] else m["file"][:-3].replace("/", ".")
    if q.endswith(".__init__"):
        return fn == q
    return fn == q or fn.startswith(q + ".") or q.startswith(fn + ".")


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        ms = [m for f in FILES for m in mutants(f)]
        json.dump(ms, open(sys.argv[2], "w"), indent=0)
        print(len(ms))
    elif cmd == "test":
        ms = json.load(open(sys.argv[2]))
        with Pool(8) as p, ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda m: p.run(m, test), ms))
        sv = [m for m, r in zip(ms, rs) if r]
        json.dump(sv, open(sys.argv[3], "w"), indent=0)
        print(len(ms), len(sv))
    elif cmd == "check":
        ms = json.load(open(sys.argv[2]))
        if len(sys.argv) > 4:
            random.Random(int(sys.argv[5])).shuffle(ms)
            ms = ms[:int(sys.argv[4])]
        cost = {}
        for f in sorted(os.listdir(os.path.join(V, "evidence"))):
            if f.startswith("C") and f.endswith(".json"):
                e = json.load(open(os.path.join(V, "evidence", f)))
                cost[e["property"]] = [e["wall_s"], e["coverage"]["functions_encoded"]]
        budget, jobs, par = (os.environ.get(k, d) for k, d in (("MUT_BUDGET", "40"), ("MUT_JOBS", "1"), ("MUT_PAR", "8")))
        log = open(sys.argv[3], "a")

        def chk(m, r):
            ps = [c for c in sorted(cost, key=lambda c: cost[c][0]) if any(hit(m, x) for x in cost[c][1])]
            ev = tempfile.mkdtemp(prefix="mutev")
            tried = []
            for c in ps[:int(os.environ.get("MUT_MAX", "99"))]:
                o = subprocess.run([V + "/check.sh", c, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=ev, VERIF_JOBS=jobs, VERIF_BUDGET=budget),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                tried.append("%s:%d%s" % (c, o.returncode, "i" if "unresolved" in o.stdout or "incomplete" in o.stdout.lower() else ""))
                if o.returncode == 1:
                    break
            shutil.rmtree(ev)
            m["res"] = tried
            m["killed"] = tried[-1].endswith(":1") or ":1" in tried[-1] if tried else False
            log.write(json.dumps(m) + "\n")
            log.flush()
            return m["killed"]

        with Pool(int(par)) as p, ThreadPoolExecutor(int(par)) as ex:
            rs = list(ex.map(lambda m: p.run(m, chk), ms))
        print(len(ms), sum(1 for r in rs if r))


main()
