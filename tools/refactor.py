#!/usr/bin/env python3
"""Behaviour-preserving edits, applied to a scratch copy of /repo; every check has to stay quiet.

  tools/refactor.py NAME [PROPERTY ...]     NAME is a module tools/refactors/NAME.py with EDITS,
                                            a list of (file, old text, new text)
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load(name):
    p = os.path.join(HERE, "refactors", name + ".py")
    sp = importlib.util.spec_from_file_location(name, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.EDITS


def main():
    name, props = sys.argv[1], sys.argv[2:]
    tmp = tempfile.mkdtemp(prefix="refac_")
    repo = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in load(name):
            p = os.path.join(repo, f)
            s = open(p, encoding="utf-8").read()
            n = s.count(old)
            if n != 1:
                print(f"{name}: {f}: text found {n} times:\n{old[:200]}")
                return 2
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        e = dict(os.environ, PYTHONPATH="/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "bool_results", "--rootdir=" + repo,
                            "--timeout=60", "-o", "junit_family=xunit2", "."], cwd=repo, env=e, capture_output=True, text=True)
        print(f"{name}: tests: {t.stdout.strip().splitlines()[-1:]}", flush=True)
        if not props:
            props = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
        bad = 0
        for c in props:
            ev = os.path.join(tmp, "ev")
            env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=ev)
            os.makedirs(ev, exist_ok=True)
            r = subprocess.run([os.path.join(VERIF, "check.sh"), c, "quick"], cwd=VERIF, env=env,
                               capture_output=True, text=True)
            last = r.stdout.strip().splitlines()
            flag = "ok " if r.returncode == 0 else "BAD"
            info = ""
            try:
                e = json.load(open(os.path.join(ev, c + ".json")))
                info = json.dumps(e.get("coverage", {}).get("unresolved", ""))[:400]
            except Exception as ex:  # noqa
                info = f"(evidence: {ex})"
            print(f"{name}: {c}: {flag} rc={r.returncode} {info} {[x for x in last if 'VIOLATION' in x or 'unresolved' in x.lower()][:3]}",
                  flush=True)
            if r.returncode:
                bad += 1
                print("\n".join(last[-6:]), r.stderr[-800:])
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.exit(main())
