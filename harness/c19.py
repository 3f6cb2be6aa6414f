"""C19: only the work folder of a source file is deleted or written."""
import os
import shutil
from harness.common import frame
from harness.conv import MODS, message

MODULES = MODS + ["run_conversion"]
FMT = ("MARGO", "JSON", "JSON-B", "JARGO")
BOUNDS = ("task 'name': every absolute source path of 2..7 characters (thorough: 9), each character any 7-bit code, in longer tasks with a fixed lead and "
          "characters of 16 bits; every state of the folder (absent, old folder, a file in its place) and failures of the removal and the creation; the file system "
          "is a stand-in; task 'main': the whole program in a scratch directory, with file names, neighbours, old output, links and formats chosen freely")
OUTSIDE = "names that begin with two dots or end with a dot; paths longer than the bound; source files that share their stem; file systems that change while the program runs"
ASSUMPTIONS = ["os.path's functions are executed, os and shutil calls that reach the file system are stand-ins (task 'name') or real calls in a scratch directory that "
               "an audit hook confines (task 'main')"]


def TASKS(tier):
    q = tier == "quick"
    t = []
    for n in range(2, 8 if q else 10):
        t.append({"fn": "name", "lead": "/", "n": n - 1, "bits": 7, "fmt": FMT[n % 4], "tail": ""})
    t += [{"fn": "name", "lead": lead, "n": n, "bits": 16, "fmt": FMT[i % 4], "tail": tail}
          for i, (lead, n, tail) in enumerate([("/data/site.d/", 4, ""), ("/a.b/", 3, ".rtcm3"), ("/d/x", 3, "y.rtcm3"), ("/d/.", 3, ""), ("/d/", 2, ".tar.gz"),
                                              ("/d/a-MARGO", 3, ""), ("/d/a", 2, "-MARGO.rtcm3")])]
    for i, f in enumerate(FMT):
        for kind in (0, 1, 2):
            t.append({"fn": "main", "fmt": f, "kind": kind})
    return t


def COVERS(tier):
    return ["old folder removed", "new folder", "a file in the way", "removal fails", "creation fails", "no extension", "leading dot", "main", "main old output"]


def stem(p):
    """The path without the extension of its last component (leading dots are no extension)."""
    k = p.rfind("/") + 1
    d = p.rfind(".")
    if d > k:
        for i in range(k, d):
            if p[i:i + 1] != ".":
                return p[:d]
    return p


class Fs:
    """One folder that the program may touch; everything it does is recorded."""

    def __init__(self, env, want, src):
        self.env, self.want, self.src, self.ops = env, want, src, []
        self.state = env.choice("state", ["absent", "dir", "file"])
        self.full = self.state == "dir"
        self.rm_bad, self.mk_bad = bool(env.bool("rm_bad")), bool(env.bool("mk_bad"))

    def op(self, name, p):
        self.ops.append((name, p))
        self.env.eq(p, self.want, "%s touches nothing but the work folder" % name)
        return bool(self.env.same(p, self.want))

    def is_want(self, p):
        return bool(self.env.same(p, self.want))

    def isdir(self, p):
        if self.is_want(p):
            return self.state == "dir"
        if bool(self.env.same(p, self.src)):
            return False
        return bool(self.env.bool("other"))

    def isfile(self, p):
        if self.is_want(p):
            return self.state == "file"
        if bool(self.env.same(p, self.src)):
            return True
        return bool(self.env.bool("other"))

    def exists(self, p):
        if self.is_want(p):
            return self.state != "absent"
        if bool(self.env.same(p, self.src)):
            return True
        return bool(self.env.bool("other"))

    def islink(self, p):
        return False

    def rmtree(self, p, ignore_errors=False, onerror=None, *, onexc=None, dir_fd=None):
        if not self.op("rmtree", p):
            return
        if onerror is not None or onexc is not None:
            self.env.outside("rmtree with a handler")
        if self.state != "dir" or self.rm_bad:
            self.env.cover("removal fails")
            if ignore_errors:
                return
            raise OSError("removal")
        self.state, self.full = "absent", False
        self.env.cover("old folder removed")

    def makedirs(self, p, mode=0o777, exist_ok=False):
        if not self.op("makedirs", p):
            return
        if self.state == "file" or (self.state == "dir" and not exist_ok):
            self.env.cover("a file in the way")
            raise FileExistsError("in the way")
        if self.mk_bad:
            self.env.cover("creation fails")
            raise OSError("creation")
        self.state = "dir"
        self.env.cover("new folder")

    def mkdir(self, p, mode=0o777, *, dir_fd=None):
        self.makedirs(p)

    def other(self, name):
        def f(p, *a, **k):
            self.op(name, p)
            self.env.outside(name)
        return f

    def __enter__(self):
        rep = [(os.path, "isdir", self.isdir), (os.path, "isfile", self.isfile), (os.path, "exists", self.exists), (os.path, "lexists", self.exists),
               (os.path, "islink", self.islink), (shutil, "rmtree", self.rmtree), (os, "makedirs", self.makedirs), (os, "mkdir", self.mkdir)]
        rep += [(os, n, self.other(n)) for n in ("remove", "unlink", "rmdir", "removedirs", "rename", "replace", "renames", "truncate", "symlink", "link", "listdir",
                                                 "scandir", "walk", "stat", "lstat", "chmod")]
        rep += [(shutil, n, self.other(n)) for n in ("move", "copy", "copy2", "copyfile", "copytree")]
        self.saved = [(m, n, getattr(m, n)) for m, n, _ in rep]
        for m, n, f in rep:
            setattr(m, n, f)
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


def name(env):
    P = env.params
    cs = [env.uint("c%d" % i, P["bits"]) for i in range(P["n"])]
    for c in cs:
        env.assume(c != 0)
        if P["bits"] > 7:
            env.assume((c >> 11) != 0x1B)
            env.assume((c >> 8) != 0xE0)
    src = env.string(list(map(ord, P["lead"])) + cs + list(map(ord, P["tail"])))
    # a regular file: no empty, '.' or '..' component, no separator at its end
    for i in range(len(src)):
        if src[i:i + 1] == "/":
            env.assume(i + 1 < len(src))
            env.assume(src[i + 1:i + 2] != "/")
            for d in (".", ".."):
                if src[i + 1:i + 1 + len(d)] == d:
                    env.assume(i + 1 + len(d) < len(src))
                    env.assume(src[i + 1 + len(d):i + 2 + len(d)] != "/")
    # names that begin with two dots or end with one: where their extension begins is a matter of taste
    k = src.rfind("/") + 1
    env.assume(src[len(src) - 1:] != ".")
    if src[k:k + 2] == "..":
        env.assume(False)
    st = stem(src)
    want = st + "-" + P["fmt"]
    rc = env.imp("run_conversion")
    fs = Fs(env, want, src)
    old, bad = fs.state, False
    with fs:
        got = rc.create_work_folder(src, P["fmt"])
        log = rc.make_log_file_name(src)
    made = fs.state == "dir" and not fs.full
    env.check((got is not None) == made, "a result exactly when there is a new empty folder")
    if got is not None:
        env.eq(got, want, "the work folder is named after source and format")
    if old == "absent" and not fs.mk_bad or old == "dir" and not fs.rm_bad and not fs.mk_bad:
        env.check(made, "the folder is made when nothing fails")
    if old == "file":
        env.check(fs.state == "file", "a file in its place stays")
    if old == "dir" and fs.rm_bad:
        env.check(fs.full and fs.state == "dir", "a folder that cannot be removed stays")
    env.eq(log, st[st.rfind("/") + 1:] + "-log.txt", "the log file is named after the source")
    if len(st) == len(src):
        env.cover("no extension")
    k = src.rfind("/") + 1
    if src[k:k + 1] == ".":
        env.cover("leading dot")
    env.check(all(ok for _, _, ok in env.writes()), "nothing outside the scratch directory")


INI = """[MARGO]
HCA = true
LOCK_TIME = true
[JSON]
ENABLE_PRETTY_VIEW = false
ENABLE_HDR_DATA = true
ENABLE_AUX_DATA = true
[TIME]
GPS2UTC : 18
[LITERALS]
""" + "".join("R%d : %d\n" % (i, i % 7) for i in range(1, 25))

NAMES = [["a.rtcm3", "b.rtcm3"], ["a.b.rtcm3", "a.rtcm3"], ["noext", ".hidden"]]


def spill(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def look(d, skip):
    """{path: text or link target} of everything outside the folders 'skip'."""
    out = {}
    for b, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if os.path.join(b, x) not in skip]
        for x in ds:
            p = os.path.join(b, x)
            out[p] = "->" + os.readlink(p) if os.path.islink(p) else "dir"
        for f in fs:
            p = os.path.join(b, f)
            out[p] = "->" + os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


def main(env):
    P = env.params
    fmt = P["fmt"]
    d = os.path.realpath(env.workdir())
    rc = env.imp("run_conversion")
    spill(d + "/run/defaults.ini", INI)
    names = NAMES[P["kind"]]
    data = env.cat(frame(env, message(env, 1077, "m", 1)), frame(env, message(env, 1019, "e", 0)), frame(env, message(env, 1005, "s", 0)))
    srcs = [d + "/in/" + n for n in names]
    work = [os.path.splitext(s)[0] + "-" + fmt for s in srcs]
    for s in srcs:
        spill(s, "")
        env.put(s, data)
    # neighbours: other outputs, folders that are called like the source, files of the user
    spill(d + "/in/a/keep.txt", "1")
    spill(d + "/in/a-OTHER/keep.txt", "2")
    spill(d + "/in/" + fmt + "/keep.txt", "3")
    spill(d + "/in/a-%s2/keep.txt" % fmt, "4")
    spill(d + "/far/GPS/keep.txt", "5")
    spill(d + "/run/GPS/keep.txt", "6")
    for f in FMT:
        if f != fmt:
            spill(d + "/in/a-%s/EPH/keep.txt" % f, "7")
    old = bool(env.bool("old"))
    if old:
        spill(work[0] + "/GPS/old.obs", "old")
        spill(work[0] + "/x/y/z", "old")
        os.symlink(d + "/far", work[0] + "/link")
    before = look(d, set(work))
    n = len(env.writes())
    cwd = os.getcwd()
    os.chdir(d + "/run")
    try:
        rc.main("-o %s %s" % (fmt, " ".join(srcs)))
    finally:
        os.chdir(cwd)
    ops = env.writes()[n:]
    for op, p, ok in ops:
        env.check(any(p == w or p.startswith(w + "/") for w in work), "%s only in the work folder" % op)
    env.check(bool(ops), "something is written")
    after = look(d, set(work))
    env.check(sorted(before) == sorted(after), "nothing else appears or disappears")
    env.check(all(before[p] == after.get(p) for p in before), "nothing else changes")
    for s, w in zip(srcs, work):
        have = env.listing(w)
        env.check(len(have) > 1 and not any("old" in h for h in have) and not os.path.lexists(w + "/link"), "new contents of the work folder")
        lg = os.path.basename(os.path.splitext(s)[0]) + "-log.txt"
        env.check(lg in have, "log file")
    env.cover("main")
    if old:
        env.cover("main old output")
