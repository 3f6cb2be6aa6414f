"""Runs harnesses on the untouched repository code with concrete inputs (replay and validation).

Usage: python concrete.py serve SOCKET REPO MODULE      (fork server)
       python concrete.py replay FILE                   (one counterexample, human readable)
"""
import importlib
import json
import os
import shutil
import signal
import socket
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LIMIT = 60


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run(mod, req):
    from engine import env as E, guard
    tmp = tempfile.mkdtemp(prefix="vconc", dir=req.get("tmp"))
    out = {"status": "ok", "failed": [], "obs": {}, "covers": [], "exc": ""}
    e = E.ConcEnv(req["params"], req["tier"], tmp, req["model"])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    guard.begin(tmp)
    try:
        getattr(mod, req["params"]["fn"])(e)
    except E.AssumeFailed:
        out["status"] = "assume"
    except Hang:
        out["status"] = "exc"
        out["failed"].append("does not finish within %d s" % LIMIT)
    except BaseException as ex:  # noqa
        out["status"] = "exc"
        out["exc"] = traceback.format_exc()[-3000:]
        out["failed"].append("raised %s: %s" % (type(ex).__name__, str(ex)[:200]))
    finally:
        signal.alarm(0)
        guard.end()
        shutil.rmtree(tmp, ignore_errors=True)
    out["failed"] = e.failed + out["failed"]
    if out["status"] == "assume":
        out["failed"] = []
    out["obs"] = {k: obs(v) for k, v in e.obs.items()}
    out["covers"] = sorted(e.covers)
    out["passed"] = e.passed
    return out


def obs(o):
    if isinstance(o, (bytes, bytearray)):
        return "hex:" + bytes(o).hex()
    if isinstance(o, dict):
        return {str(obs(k)): obs(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [obs(x) for x in o]
    if isinstance(o, float) and o != o:
        return "nan"
    if o is None or isinstance(o, (str, bool, int, float)):
        return o
    return type(o).__name__


def serve(sock_path, repo, modname):
    sys.dont_write_bytecode = True
    sys.path[:0] = [repo, VERIF]
    quiet()
    os.chdir(tempfile.gettempdir())
    mod = importlib.import_module(modname)
    for m in getattr(mod, "MODULES", ()):
        importlib.import_module(m)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(sock_path)
    s.listen(64)
    while True:
        c, _ = s.accept()
        pid = os.fork()
        if pid == 0:
            s.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                f = c.makefile("rw", encoding="utf-8")
                req = json.loads(f.readline())
                res = run(mod, req)
                f.write(json.dumps(res) + "\n")
                f.flush()
            finally:
                os._exit(0)
        c.close()


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    sys.stdout = open(os.devnull, "w")


def replay(path):
    with open(path, encoding="utf-8") as f:
        r = json.load(f)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.dont_write_bytecode = True
    sys.path[:0] = [repo, VERIF]
    mod = importlib.import_module(r["module"])
    for m in getattr(mod, "MODULES", ()):
        importlib.import_module(m)
    keep = os.dup(1)
    quiet()
    res = run(mod, r)
    os.write(keep, (json.dumps(res, indent=1) + "\n").encode())
    return 1 if res["failed"] else 0


if __name__ == "__main__":
    if sys.argv[1] == "serve":
        serve(*sys.argv[2:5])
    else:
        sys.exit(replay(sys.argv[2]))
