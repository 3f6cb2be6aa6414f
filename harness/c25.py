"""C25: exactly the sources that the user names are converted."""
import ast
import builtins
import contextlib
import io
import os
import re
import sys
from harness.c22 import SETTINGS
from harness.common import frame
from harness.conv import MODS, message

MODULES = MODS + ["run_conversion"]
BOUNDS = ("task 'listed': lists of 1..4 paths (absolute, relative, with '..' or doubled separators), each freely an existing file, a folder, missing, a link to a file or a dangling "
          "link, the same file twice; task 'folder': a folder with 0..3 (12, 120) sources and other files, folder names with every special character of patterns, other extensions, and "
          "every answer of the user of up to 5 (thorough: 6) characters out of digits, blanks, letters and punctuation; task 'main': the whole program on a "
          "folder or a list")
OUTSIDE = ("hidden files, folders that are called like a source, extensions with pattern characters, answers with '_', '+' or control characters, folders that change while the program asks")
ASSUMPTIONS = ["os.path, glob and open act as documented (real calls in a scratch directory)", "the answer is what input() returns"]
ALPHA = "0123456789 ax.-,"        # 16 characters
NAMES = ["in", "in[1]", "a*b", "q?", "x[", "[!a]", "two words", "d.rtcm3", "]", "**", "{a}", "\u00e9\u4e2d", "-o"]


def TASKS(tier):
    q = tier == "quick"
    t = [{"fn": "listed", "n": n, "cwd": c} for n in (1, 2, 3) for c in (0, 1)]
    if not q:
        t.append({"fn": "listed", "n": 4, "cwd": 1})
    for ln in range(0, 4 if q else 6):
        for k in (1, 2, 3):
            t.append({"fn": "folder", "name": "in", "files": k, "ans": [None] * ln, "ext": "rtcm3"})
    t += [{"fn": "folder", "name": n, "files": 2, "ans": [None], "ext": "rtcm3"} for n in NAMES]
    t += [{"fn": "folder", "name": n, "files": 0, "ans": [None], "ext": "rtcm3"} for n in NAMES[:3]]
    t += [{"fn": "folder", "name": "in", "files": 3, "ans": [None], "ext": e} for e in ("rtcm", "bin", "RTCM3", "3", "tar.gz")]
    for a in ([None, None, " ", None], ["1", None, None], [None, None, None, " ", "1"], [None, "0"], ["1", None, " ", None, None], ["0", None]):
        t.append({"fn": "folder", "name": "in", "files": 12, "ans": a, "ext": "rtcm3"})
    t.append({"fn": "folder", "name": "in", "files": 120, "ans": [None, None, None], "ext": "rtcm3"})
    t += [{"fn": "main", "case": c, "argv": v} for c in ("folder", "list", "ext", "gone") for v in (0, 1)]
    return t


def COVERS(tier):
    return ["a file", "no file", "a folder in the list", "a link", "selected", "not numbers", "number outside the list", "nothing offered", "main"]


@contextlib.contextmanager
def answering(env, rc, text, asked):
    """input() gives this answer; what the program prints is collected."""
    def inp(prompt=""):
        asked.append(prompt)
        return text

    class In:
        def readline(self, *a):
            asked.append("")
            return text + "\n"
    out, old_in, old_fn = io.StringIO(), sys.stdin, builtins.input
    sys.stdin, builtins.input, rc.input = In(), inp, inp
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        sys.stdin, builtins.input = old_in, old_fn
        if "input" in vars(rc):
            del rc.input


def touch(p, text="x"):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def listed(env):
    P = env.params
    d = os.path.realpath(env.workdir())
    touch(d + "/far/target.rtcm3")
    rc = env.imp("run_conversion")
    args, want = [], []
    for i in range(P["n"]):
        kind = env.choice("kind%d" % i, ["file", "missing", "dir", "link", "dangling", "again"])
        full = d + "/in/s%d.rtcm3" % i
        os.makedirs(d + "/in", exist_ok=True)
        ok = kind in ("file", "link")
        if kind == "file":
            touch(full)
            env.cover("a file")
        elif kind == "dir":
            if P["n"] == 1:
                env.assume(False)
            os.makedirs(full)
            touch(full + "/inside.rtcm3")
            env.cover("a folder in the list")
        elif kind == "link":
            os.symlink(d + "/far/target.rtcm3", full)
            env.cover("a link")
        elif kind == "dangling":
            os.symlink(d + "/far/none.rtcm3", full)
        elif kind == "again":
            full, ok = d + "/in/s0.rtcm3", bool(want) and want[0] == d + "/in/s0.rtcm3"
        else:
            env.cover("no file")
        if ok:
            want.append(full)
        form = env.choice("form%d" % i, ["plain", "odd"] if i == 0 else ["plain"])
        rel = "s" + full.rsplit("/s", 1)[1]
        if P["cwd"]:
            args.append(rel if form == "plain" else "./../in//" + rel)
        else:
            args.append(full if form == "plain" else d + "//in/./../in/" + rel)
    cwd = os.getcwd()
    os.chdir(d + "/in")
    asked = []
    try:
        with answering(env, rc, "1", asked):
            got = rc.make_list_of_source_files(args, "rtcm3")
    finally:
        os.chdir(cwd)
    env.check(not asked, "no questions")
    env.check(list(got) == want, "the existing files of the list, in order, as absolute paths")


def numbers(ks):
    """The entered numbers; None when the answer is something else. ks: indices into ALPHA (concrete or symbolic)."""
    words = [[]]
    for k in ks:
        if k == 10:
            words.append([])
        else:
            words[-1].append(k)
    out = []
    for w in words:
        neg = bool(w) and bool(w[0] == 14)
        if neg:
            w = w[1:]
        if not w:
            return None
        v = 0
        for k in w:
            if not k < 10:
                return None
            v = v * 10 + k
        out.append(-v if neg else v)
    return out


def folder(env):
    P = env.params
    d = os.path.realpath(env.workdir())
    fld = os.path.join(d, P["name"])
    ext = P["ext"]
    os.makedirs(fld)
    have = [os.path.join(fld, "s%d.%s" % (i, ext)) for i in range(P["files"])]
    for p in have:
        touch(p)
    for p in ("note.txt", "s0.%s.bak" % ext, "s1.x" + ext, "s2" + ext, "sub/deep." + ext, ext + ".txt"):
        touch(os.path.join(fld, p))
    touch(os.path.join(d, "beside." + ext))
    # folders that the name would match if it were a pattern
    for p in ("in1", "aXb", "qq", "x", "b", "xx"):
        if p != P["name"]:
            touch(os.path.join(d, p, "wrong." + ext))
    cps, ks = [], []
    for i, c in enumerate(P["ans"]):
        if c is not None:
            cps.append(ord(c))
            ks.append(ALPHA.index(c))
            continue
        k = env.uint("k%d" % i, 4)
        ks.append(k)
        # digits 0..9, then the rest of the alphabet
        v = 48 + k
        for j in range(10, 16):
            v = env.ite(k == j, ord(ALPHA[j]), v)
        cps.append(v)
    ans = env.string(cps)
    rc = env.imp("run_conversion")
    asked = []
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with answering(env, rc, ans, asked) as out:
            got = rc.make_list_of_source_files([P["name"] if len(P["ans"]) % 2 else fld], ext)
    finally:
        os.chdir(cwd)
    if not have:
        env.check(list(got) == [] and not asked, "nothing to choose from")
        env.cover("nothing offered")
        return
    env.check(len(asked) == 1, "the user is asked once")
    shown = {}
    for line in out.getvalue().splitlines():
        m = re.match(r"^\s*(\d+)\s*:\s*(.+?)\s*$", line)
        if m:
            shown[int(m.group(1))] = ast.literal_eval(m.group(2))
    env.check(sorted(shown) == list(range(1, len(have) + 1)) and sorted(shown.values()) == sorted(have), "the sources of the folder are offered, numbered from 1")
    nums = numbers(ks)
    want = []
    if nums is None:
        env.cover("not numbers")
    else:
        for v in nums:
            if v >= 1 and v <= len(have):
                want.append(shown.get(env.fork_int(v)))
                env.cover("selected")
            else:
                env.cover("number outside the list")
    env.check(list(got) == want, "exactly the sources whose numbers were entered, in this order")


def main(env):
    P = env.params
    d = os.path.realpath(env.workdir())
    touch(d + "/run/defaults.ini", SETTINGS)
    rc = env.imp("run_conversion")
    data = frame(env, message(env, 1077, "m", 1))
    names = ["a.rtcm3", "b.rtcm3", "c.rtcm3", "d.bin", "e.bin"]
    for n in names:
        touch(d + "/in/" + n)
        env.put(d + "/in/" + n, data)
    ans, opt = "1", ""
    case = P["case"]
    pick = [bool(env.bool("pick%d" % i)) for i in range(3)]
    if case == "folder":
        src, ans = [d + "/in"], " ".join(str(i + 1) for i in range(3) if pick[i])
    elif case == "ext":
        src, opt, ans = [d + "/in"], "-ext bin ", " ".join(str(i + 1) for i in range(3) if pick[i])
    elif case == "list":
        src = [d + "/in/" + n for n, p in zip(("c.rtcm3", "d.bin", "a.rtcm3"), pick) if p]
        env.assume(bool(src))
    else:
        src = [d + "/in/none.rtcm3", "../in/e.bin"]
    asked = []
    cwd, argv = os.getcwd(), sys.argv
    os.chdir(d + "/run")
    line = "-o JSON " + opt + " ".join(src)
    try:
        with answering(env, rc, ans, asked) as out:
            if P["argv"]:
                sys.argv = ["run_conversion.py"] + line.split(" ")
                rc.main()
            else:
                rc.main(line)
    finally:
        os.chdir(cwd)
        sys.argv = argv
    if case in ("folder", "ext"):
        shown = {}
        for ln in out.getvalue().splitlines():
            m = re.match(r"^\s*(\d+)\s*:\s*('.+')\s*$", ln)
            if m:
                shown[int(m.group(1))] = ast.literal_eval(m.group(2))
        src = [shown.get(int(a)) for a in ans.split(" ") if a and int(a) in shown]
        env.check(sorted(shown.values()) == sorted(d + "/in/" + n for n in names if n.endswith(".bin" if case == "ext" else ".rtcm3")), "offered sources")
    elif case == "gone":
        src = [d + "/in/e.bin"]
    want = sorted(os.path.splitext(s)[0] + "-JSON" for s in src)
    made = sorted(d + "/in/" + n for n in os.listdir(d + "/in") if os.path.isdir(d + "/in/" + n))
    env.check(made == want, "exactly the chosen sources are converted")
    env.check(all(os.path.isfile(w + "/MSM7/GPS-MSM7-1077.json") for w in want), "each of them has its output")
    env.check(sorted(os.listdir(d + "/run")) == ["defaults.ini"], "nothing elsewhere")
    env.cover("main")
