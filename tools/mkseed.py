"""mkseed.py SPECFILE: create seeded/<id>/ from a Python spec listing (id, property, file, old, new, needs, breaks, demo)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.check_call(["cp", "-a", "/repo", w + "/r"])
    for f, old, new in s["edits"]:
        p = os.path.join(w, "r", f)
        t = open(p, newline="").read()
        if t.count(old) != 1:
            sys.exit("%s: %d matches in %s for %r" % (s["id"], t.count(old), f, old))
        open(p, "w", newline="").write(t.replace(old, new))
    d = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    o = os.path.join(V, "seeded", s["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(d)
    open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
