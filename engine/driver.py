"""Check driver: explores every path of every task, one forked process per path."""
from __future__ import annotations
import argparse
import collections
import importlib
import json
import os
import pickle
import random
import selectors
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Replayer:
    def __init__(self, sock, tier, tmp):
        self.sock = sock
        self.tier = tier
        self.tmp = tmp
        self.n = 0

    def __call__(self, params, model):
        self.n += 1
        for attempt in range(3):
            try:
                c = socket.socket(socket.AF_UNIX)
                c.settimeout(120)
                c.connect(self.sock)
                f = c.makefile("rw", encoding="utf-8")
                f.write(json.dumps({"params": params, "tier": self.tier, "tmp": self.tmp,
                                    "model": {k: str(v) for k, v in model.items()}}) + "\n")
                f.flush()
                line = f.readline()
                c.close()
                if line:
                    return json.loads(line)
            except (OSError, ValueError):
                time.sleep(0.2)
        return {"status": "noreply", "failed": [], "obs": {}, "covers": []}


class _Alarm(BaseException):
    pass


def full_model(ctx):
    """Values of all inputs under the current assignment of the path."""
    ctx.ext_model()
    m = {}
    for i, nm in enumerate(ctx.names):
        if nm is not None and (ctx.asg >> (i + 1)) & 1:
            m[nm[0]] = m.get(nm[0], 0) | (1 << nm[1])
    return m


def run_path(mod, params, prefix, model, tier, tmp, replayer, path_s, seed):
    """Executes one path symbolically and discharges its obligations (runs in a child process)."""
    from engine import core, env as E, guard, shims
    SymEnv = E.make_symenv()
    stats = core.Stats()
    ctx = core.Ctx(prefix, model, stats, getattr(mod, "LIMITS", {}))
    core.BOX.ctx = ctx
    shims.FUNCS.clear()
    shims.FILES.clear()
    ctx.t_end = time.time() + path_s
    wtmp = tempfile.mkdtemp(prefix="vsym", dir=tmp)
    env = SymEnv(params, tier, wtmp)
    res = {"status": "ok", "violation": None, "unresolved": [], "incomplete": [], "checks": 0, "discharged": 0,
           "validated": 0, "sample": None}
    exc = None

    def on_alarm(*_):
        raise core.Budget("path wall clock")
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, path_s + 5)
    t0 = time.time()
    guard.begin(wtmp)
    try:
        getattr(mod, params["fn"])(env)
    except core.Infeasible:
        res["status"] = "infeasible"
    except core.Budget as b:
        res["status"] = "budget"
        res["unresolved"].append("path budget exhausted (%s)" % b)
    except core.Unsupported as u:
        res["status"] = "unsupported"
        res["unresolved"].append("outside the encoded fragment: %s" % u)
    except E.CheckFailed:
        pass
    except BaseException as ex:  # noqa
        exc = "%s: %s" % (type(ex).__name__, ex)
        res["trace"] = traceback.format_exc()[-4000:]
        res["status"] = "exception"
    signal.setitimer(signal.ITIMER_REAL, 0)
    guard.end()
    res["exec_s"] = time.time() - t0
    shutil.rmtree(wtmp, ignore_errors=True)

    def viol(m, r):
        res["violation"] = {"module": mod.__name__, "params": params, "tier": tier,
                            "model": {k: str(v) for k, v in m.items()}, "failed": r["failed"][:20], "exc": r.get("exc", "")}

    def attempt(m):
        """Replay on the real code; True when it breaks the property there."""
        r = replayer(params, m)
        if r["failed"]:
            viol(m, r)
            return True
        return False

    def sample(k):
        """Diverse solver models of an unresolved path, replayed on the real code."""
        rnd = random.Random(seed * 7919 + len(prefix))
        ins = [i for i, n in enumerate(ctx.names) if n is not None]
        for _ in range(k):
            pick = rnd.sample(ins, min(len(ins), 14))
            fs = [(1 << (i + 1)) ^ rnd.getrandbits(1) for i in pick]
            r, m = "unsat", None
            while fs:
                r, m = ctx.query(fs)
                if r == "sat":
                    break
                fs = fs[: len(fs) // 2]
            if r == "sat" and attempt(m):
                return True
        return False

    try:
        if res["status"] == "infeasible":
            pass
        elif res["status"] in ("budget", "unsupported", "exception"):
            done = False
            try:
                done = attempt(full_model(ctx))
                if not done and not exc:
                    done = sample(6)
            except core.PathAbort:
                pass
            if not done and exc:
                res["unresolved"].append("exception only in the symbolic run: " + exc)
                sample(6)
        else:
            live = [(l, f) for l, f in ctx.checks]
            res["checks"] = len(live)
            ctx.lim = dict(ctx.lim)
            ctx.t_end = None
            base_model = full_model(ctx)
            # constant failures first
            if any(f == 1 for _, f in live):
                if not attempt(base_model):
                    res["unresolved"].append("not reproduced: " + "; ".join(sorted({l for l, f in live if f == 1})[:4]))
                    sample(6)
                live = [(l, f) for l, f in live if f != 1]
            res["rewritten"] = sum(1 for l, f in live if f == 0)
            res["discharged"] += res["rewritten"]
            live = [(l, f) for l, f in live if f != 0]
            tries = 0
            while live and res["violation"] is None:
                r, m = ctx.query_any([f for _, f in live])
                if r == "unsat":
                    res["discharged"] += len(live)
                    break
                if r == "unknown":
                    res["unresolved"].append("solver unknown on %d obligations" % len(live))
                    sample(6)
                    break
                if attempt(m):
                    break
                # not reproduced: drop what this model claims, keep the rest
                ctx.set_model(m)
                bad = [(l, f) for l, f in live if ctx.ev(f)]
                res["unresolved"].append("not reproduced: " + "; ".join(sorted({l for l, _ in bad})[:4]))
                live = [(l, f) for l, f in live if not ctx.ev(f)]
                tries += 1
                if tries > 6:
                    res["unresolved"].append("too many unreproduced counterexamples")
                    break
            if res["violation"] is None:
                ctx.set_model(base_model)
                exp = {k: E.ev_obj(v) for k, v in env.obs.items()}
                r = replayer(params, base_model)
                if r["failed"]:
                    viol(base_model, r)
                elif r["status"] != "ok":
                    res["unresolved"].append("validation run: %s %s" % (r["status"], r.get("exc", "")[-300:]))
                else:
                    bad = [k for k in exp if not E.obs_match(exp[k], r["obs"].get(k))]
                    if bad or set(exp) != set(r["obs"]):
                        k = bad[0] if bad else "keys"
                        res["unresolved"].append("encoding and real run disagree on %s: %r vs %r"
                                                 % (bad[:3], str(exp.get(k))[:200], str(r["obs"].get(k))[:200]))
                    else:
                        res["validated"] = 1
                        res["sample"] = {"task": params, "model": {k: hex(v)[:130] for k, v in base_model.items()},
                                         "observed": {k: str(v)[:160] for k, v in list(exp.items())[:6]}}
    except core.PathAbort as p:
        res["unresolved"].append("aborted while deciding: %s" % p)
    res["pending"] = ctx.pending
    res["incomplete"] = ctx.incomplete
    res["imprecise"] = ctx.imprecise
    res["stats"] = stats.as_dict()
    res["funcs"] = sorted(shims.FUNCS)
    res["covers"] = sorted(env.covers)
    res["atoms"] = len(ctx.defs)
    res["replays"] = replayer.n
    res["depth"] = len(ctx.trace)
    return res


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def is_known(v, known):
    for k in known:
        if k.get("fn") == v["params"].get("fn") and set(v["failed"]) <= set(k["labels"]):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or max(2, (os.cpu_count() or 4)))
    ap.add_argument("--only", default=None)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop, tier = a.property, a.tier
    t_start = time.time()
    os.environ["PYTHONUTF8"] = "1"
    sys.dont_write_bytecode = True
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    sock = os.path.join(tmp, "s")
    modname = "harness.%s" % prop.lower()
    cenv = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
    srv_log = open(os.path.join(tmp, "server.log"), "w")
    server = subprocess.Popen([PY, os.path.join(HERE, "concrete.py"), "serve", sock, REPO, modname],
                              stdout=srv_log, stderr=srv_log, env=cenv, start_new_session=True, cwd=tmp)
    code = 2
    try:
        code = explore(a, prop, tier, seed, t_start, tmp, sock, modname, server)
    finally:
        try:
            os.killpg(server.pid, signal.SIGKILL)
        except OSError:
            pass
        server.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def explore(a, prop, tier, seed, t_start, tmp, sock, modname, server):
    from engine import core, loader, env as E
    import z3
    os.chdir(tmp)
    real_stdout = os.dup(1)

    def say(s):
        os.write(real_stdout, (s + "\n").encode())
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not a.verbose:
        os.dup2(fd, 2)
    core.BOX.ctx = core.Ctx()
    loader.install(REPO)
    mod = importlib.import_module(modname)
    fatal = None
    try:
        for m in getattr(mod, "MODULES", ()):
            importlib.import_module(m)
    except BaseException:  # noqa
        fatal = traceback.format_exc()
    t_load = time.time() - t_start
    for _ in range(200):
        if os.path.exists(sock):
            break
        if server.poll() is not None:
            break
        time.sleep(0.05)
    if not os.path.exists(sock):
        say("the code in %s does not import:\n%s" % (REPO, open(os.path.join(tmp, "server.log")).read()[-2000:]))
        return 2
    tasks = mod.TASKS(tier)
    if a.only:
        tasks = [t for t in tasks if a.only in json.dumps(t)]
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3000)
    path_s = getattr(mod, "PATH_S", {}).get(tier, 100 if tier == "quick" else 600)
    t_end = t_start + budget
    known = load_known(prop)
    order = list(range(len(tasks)))
    random.Random(seed).shuffle(order)
    queue = collections.deque((i, (), None) for i in order)
    sel = selectors.DefaultSelector()
    running = {}
    agg = collections.Counter()
    tot = core.Stats()
    funcs, covers, samples = set(), set(), []
    unresolved, incomplete = [], []
    violation = None
    known_hit = {}
    slow = []
    per_task = collections.Counter()
    timed_out = False

    def spawn(item):
        i, prefix, model = item
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = run_path(mod, tasks[i], prefix, model, tier, tmp, Replayer(sock, tier, tmp),
                               min(path_s, max(5, t_end - time.time())), seed)
            except BaseException:  # noqa
                res = {"status": "crash", "trace": traceback.format_exc(), "pending": [], "stats": {}, "funcs": [],
                       "covers": [], "unresolved": ["engine crash: " + traceback.format_exc()[-600:]], "incomplete": [],
                       "checks": 0, "discharged": 0, "validated": 0, "violation": None, "sample": None}
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        os.set_blocking(r, False)
        running[r] = (pid, item, bytearray(), time.time())
        sel.register(r, selectors.EVENT_READ)

    while (queue or running) and violation is None:
        if time.time() > t_end and not timed_out:
            timed_out = True
        if timed_out:
            if queue:
                unresolved.append("time budget of %.0f s used up with %d paths unexplored" % (budget, len(queue)))
                queue.clear()
            if time.time() > t_end + 15:
                for r, (pid, item, _, _) in list(running.items()):
                    os.kill(pid, signal.SIGKILL)
                    unresolved.append("path killed at the end of the time budget: %s" % json.dumps(tasks[item[0]]))
                break
        while queue and len(running) < a.jobs:
            # depth first within a task, tasks in turn
            spawn(queue.popleft())
        for key, _ in sel.select(timeout=1.0):
            r = key.fd
            pid, item, buf, t0 = running[r]
            try:
                d = os.read(r, 1 << 20)
            except BlockingIOError:
                continue
            if d:
                buf.extend(d)
                continue
            sel.unregister(r)
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            i = item[0]
            agg["paths"] += 1
            per_task[i] += 1
            try:
                res = pickle.loads(bytes(buf))
            except Exception:
                agg["crash"] += 1
                unresolved.append("path process died: %s" % json.dumps(tasks[i]))
                continue
            agg[res["status"]] += 1
            for k in ("checks", "discharged", "validated"):
                agg[k] += res[k]
            agg["rewritten"] += res.get("rewritten", 0)
            agg["replays"] += res.get("replays", 0)
            agg["atoms"] = max(agg["atoms"], res.get("atoms", 0))
            if res.get("imprecise"):
                agg["imprecise_paths"] += 1
            for k, v in res["stats"].items():
                setattr(tot, k, getattr(tot, k) + v)
            funcs.update(res["funcs"])
            covers.update(res["covers"])
            slow.append((round(time.time() - t0, 2), tasks[i]))
            if len(slow) > 400:
                slow.sort(key=lambda x: -x[0])
                del slow[50:]
            if res["sample"] and len(samples) < 6 and (len(samples) == 0 or per_task[i] == 1):
                samples.append(res["sample"])
            for u in res["unresolved"]:
                if res["violation"] is None:
                    unresolved.append("%s | %s" % (u, json.dumps(tasks[i])))
                    if a.verbose:
                        say("UNRESOLVED %s\n  %s\n%s" % (u, json.dumps(tasks[i]), res.get("trace", "")))
            for u in res["incomplete"]:
                incomplete.append("%s | %s" % (u, json.dumps(tasks[i])))
            if res["violation"] is not None:
                k = is_known(res["violation"], known)
                if k:
                    known_hit[k["what"]] = k
                elif a.keep_going:
                    say("VIOLATED %s %s" % (json.dumps(tasks[i]), res["violation"]["failed"][:4]))
                else:
                    violation = res["violation"]
                    break
            for p, m in res["pending"]:
                queue.append((i, p, m))
    for r, (pid, _, _, _) in running.items():
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
    missing = [] if (violation or a.only) else sorted(set(getattr(mod, "COVERS", lambda t: [])(tier)) - covers)
    wall = time.time() - t_start
    exhaustive = not (unresolved or incomplete or missing or violation or fatal)
    slow.sort(key=lambda x: -x[0])
    srcs = {p: h for (p, h) in loader.LOADED.values()}
    cov = {
        "states": agg["paths"], "transitions": tot.decisions + tot.concretisations,
        "traces_validated_against_impl": agg["validated"], "samples": samples,
        "tasks": len(tasks), "paths_by_outcome": {k: agg[k] for k in ("ok", "infeasible", "budget", "unsupported", "exception", "crash") if agg[k]},
        "obligations": agg["checks"], "discharged": agg["discharged"],
        "discharged_by_solver_query": agg["discharged"] - agg["rewritten"],
        "discharged_by_normal_form": agg["rewritten"], "confirmed_in_bit_vector_or_real_theory": tot.second, "feasible_by_linear_presolve": tot.presolved, "queries_after_change_of_basis": tot.rebased,
        "solver_models_rejected": tot.badmodels,
        "solver": "z3 %s (QF_FD: propositional CDCL with xor/and definitions)" % z3.get_version_string(),
        "queries": tot.queries, "queries_sat": tot.sat, "queries_unsat": tot.unsat, "queries_unknown": tot.unknown,
        "solver_s": round(tot.solver_s, 2), "max_propositional_atoms": agg["atoms"],
        "functions_encoded": sorted(funcs), "sources": {os.path.relpath(p, REPO): h for p, h in sorted(srcs.items())},
        "bounds": getattr(mod, "BOUNDS", ""), "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "reachability_witnesses": sorted(covers), "missing_witnesses": missing,
        "exhaustive": exhaustive, "unresolved": unresolved[:40], "unresolved_count": len(unresolved),
        "incomplete": incomplete[:20], "concrete_replays": agg["replays"],
        "slowest_tasks": [[s, t] for s, t in slow[:5]],
    }
    if fatal:
        cov["fatal"] = fatal[-2000:]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not a.only:
        with open(os.path.join(evdir, prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
    for what in sorted(known_hit):
        say("KNOWN-FINDING: property=%s %s" % (prop, what))
    say("%s %s: %d tasks, %d paths, %d obligations (%d discharged), %d queries, %.1f s solver, %d validated on the real code, %.1f s"
        % (prop, tier, len(tasks), agg["paths"], agg["checks"], agg["discharged"], tot.queries, tot.solver_s, agg["validated"], wall))
    if violation:
        rp = os.path.join(evdir, "replay-%s.json" % prop)
        with open(rp, "w", encoding="utf-8") as f:
            json.dump(violation, f, indent=1)
        for l in violation["failed"][:6]:
            say("  broken: %s" % l)
        say("  task: %s" % json.dumps(violation["params"]))
        say("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    for u in sorted(set(unresolved))[:10]:
        say("  unresolved: %s" % u[:400])
    for u in sorted(set(incomplete))[:5]:
        say("  incomplete: %s" % u[:300])
    if missing:
        say("  not reached: %s" % ", ".join(missing))
    if fatal:
        say("  " + fatal[-1500:])
    if not exhaustive:
        say("  the exploration was not exhaustive; nothing explored breaks the property")
        if os.environ.get("VERIF_STRICT"):
            return 3
    return 0


if __name__ == "__main__":
    main()
