"""C22: conversion of a file: every byte, every message, in order; faults end it cleanly."""
import os
from harness.common import fixed, frame
from harness.conv import MODS, converter, message
from harness.stream import safe

MODULES = MODS + ["run_conversion", "logger"]
BOUNDS = ("task 'order': files of 0..13000 bytes (thorough: up to 60000) with symbolic contents, up to 1.1 MB with fixed contents, and a recording converter that returns 0..3 messages per chunk and blocks or nothing "
          "under free flags (first two chunks); task 'fault': any one call of the converter (parse, decode, print, statistics) raises, at any position within the first "
          "chunks, an error, an interrupt or an exit; task 'missing': the source cannot be opened; task 'main': the whole program on one or several files "
          "with symbolic contents, with and without junk, undecodable messages, missing files, blocked work folders, additional settings and old output; its files equal those of a converter that has the same settings and "
          "gets the bytes in one piece")
OUTSIDE = "faults while the converter is being released, and read faults of the file system"
ASSUMPTIONS = ["os.path, open and shutil act as documented"]


def TASKS(tier):
    q = tier == "quick"
    t = []
    for n in ((0, 1, 2, 4095, 4096, 4097, 8192, 9000, 13000) if q else (0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000, 60000)):
        t.append({"fn": "order", "n": n, "free": False})
        if n == 13000:
            t += [{"fn": "order", "n": k, "free": True} for k in (65536, 70001, 1100000)]
        if n in (1, 4096, 4097):
            t.append({"fn": "order", "n": n, "free": True})
    for kind in ("error", "assert", "interrupt", "memory", "exit"):
        for what in ("parse", "decode", "print", "stat"):
            for n in (3000, 9000):
                t.append({"fn": "fault", "kind": kind, "what": what, "n": n})
    t.append({"fn": "missing", "dir": 0})
    t.append({"fn": "missing", "dir": 1})
    for mode in ("MARGO", "JSON", "JSON-B", "JARGO"):
        for files in (["clean"], ["junk"], ["bad"], ["empty"], ["clean", "junk", "clean"], ["gone", "clean"], ["bad", "gone", "clean"], ["unknown", "bad"],
                      ["blocked", "clean"], ["junk", "blocked", "clean"],
                      ["empty", "clean", "bad", "gone", "junk", "unknown", "blocked", "clean", "clean", "empty", "junk", "clean"]):
            t.append({"fn": "main", "mode": mode, "files": files, "add": len(files) == 1 and files[0] != "bad"})
    return t


def COVERS(tier):
    return ["in order", "nothing decoded", "fault error", "fault interrupt", "fault exit", "not opened", "main clean", "main junk", "main bad", "main gone", "main empty",
            "main unknown", "main blocked"]


class Stop(BaseException):
    """Like SystemExit."""


class Stat:
    decoding_attempts = parsing_errors = decoding_errors = printing_attempts = printing_errors = 0


class Recorder:
    """Stands in for a converter and records what is asked of it."""

    def __init__(self, env, nmsg, none, fault=None):
        self.env, self.nmsg, self.none, self.fault = env, nmsg, none, fault
        self.log = []
        self.count = {}
        self.chunks = []

    def hit(self, what):
        k = self.count.get(what, 0)
        self.count[what] = k + 1
        if self.fault and self.fault[0] == what and self.fault[1] == k:
            self.log.append(("fault",))
            raise self.fault[2]

    def parse_bytes(self, buf):
        self.hit("parse")
        c = len(self.chunks)
        self.chunks.append(buf)
        self.log.append(("parse", c))
        return [("msg", c, i) for i in range(self.nmsg(c))]

    def decode(self, msg):
        self.hit("decode")
        self.log.append(("decode",) + msg[1:])
        return None if self.none(*msg[1:]) else ("block",) + msg[1:]

    def print(self, block):
        self.hit("print")
        self.log.append(("print",) + block[1:])

    def get_statistics(self):
        self.hit("stat")
        return Stat()

    def release(self):
        self.log.append(("release",))


def program(env, nchunk, nmsg, none):
    """Expected record without faults."""
    out = []
    for c in range(nchunk):
        out.append(("parse", c))
        for i in range(nmsg(c)):
            out.append(("decode", c, i))
            if not none(c, i):
                out.append(("print", c, i))
    return out


def plain(n):
    return bytes((i * 7 + i // 251) % 256 for i in range(n))


def order(env):
    n = env.params["n"]
    p = os.path.join(env.workdir(), "a.rtcm3")
    free = env.params["free"]
    data = plain(n) if free else env.bytes("data", n)
    env.put(p, data)
    memo = {}

    def nmsg(c):
        if ("n", c) not in memo:
            memo["n", c] = env.fork_int(env.uint("n%d" % c, 2)) if free and c < 2 else (c + 1) % 3
        return memo["n", c]

    def none(c, i):
        if (c, i) not in memo:
            memo[c, i] = bool(env.bool("none%d_%d" % (c, i))) if free and c < 2 and i < 2 else (c + i) % 2 == 0
        return memo[c, i]
    r = Recorder(env, nmsg, none)
    env.check(env.imp("run_conversion").decode_rtcm_file(p, r) is True, "the conversion of the file succeeds")
    env.eq(env.cat(*r.chunks), data, "every byte of the file is offered once, in order")
    env.check(all(len(c) for c in r.chunks), "no empty chunks")
    env.check(r.log == program(env, len(r.chunks), nmsg, none) + [("release",)], "decode every message, print every block, release once, in this order")
    env.cover("in order")
    if n and all(x[0] != "print" for x in r.log):
        env.cover("nothing decoded")


def fault(env):
    what, kind, n = env.params["what"], env.params["kind"], env.params["n"]
    p = os.path.join(env.workdir(), "a.rtcm3")
    env.put(p, plain(n))
    at = env.fork_int(env.uint("at", 3))
    nmsg = lambda c: 1 + (c + 1) % 2
    flags = {}

    def none(c, i):
        if (c, i) not in flags:
            flags[c, i] = bool(env.bool("none%d_%d" % (c, i)))
        return flags[c, i]
    ex = {"error": ValueError("x"), "assert": AssertionError("y"), "interrupt": KeyboardInterrupt(), "memory": MemoryError(), "exit": Stop()}[kind]
    r = Recorder(env, nmsg, none, (what, at, ex))
    fn = env.imp("run_conversion").decode_rtcm_file
    try:
        res = fn(p, r)
    except Stop:
        res = "stopped"
        env.check(kind == "exit", "only an exit may pass")
    fired = ("fault",) in r.log
    env.check(r.log.count(("release",)) == 1 and r.log[-1] == ("release",), "the converter is released once, at the end")
    env.check(res == ("stopped" if kind == "exit" else False) if fired else res is True, "the result tells whether the conversion was completed")
    if fired:
        k = r.log.index(("fault",))
        env.check(r.log[k:] == [("fault",), ("release",)], "nothing more is converted after a fault")
        env.check(r.log[:k] == program(env, len(r.chunks), nmsg, none)[:k], "everything before the fault was converted")
        env.cover("fault " + kind)
    else:
        env.check(r.log[:-1] == program(env, len(r.chunks), nmsg, none), "all converted")


def missing(env):
    d = env.workdir()
    p = d if env.params["dir"] else os.path.join(d, "none.rtcm3")
    r = Recorder(env, lambda c: 1, lambda c, i: False)
    env.check(env.imp("run_conversion").decode_rtcm_file(p, r) is False, "a source that cannot be read is reported")
    env.check(r.log == [("release",)], "nothing converted, converter released")
    env.cover("not opened")


SETTINGS = """[MARGO]
HCA = false
LOCK_TIME = false
[JSON]
ENABLE_PRETTY_VIEW = false
ENABLE_HDR_DATA = true
ENABLE_AUX_DATA = true
[TIME]
GPS2UTC : 18
[LITERALS]
""" + "".join("R%d : %d\n" % (i, (i * 5) % 14 - 7) for i in range(1, 25))


ADD = """[MARGO]
HCA = %s
[JSON]
ENABLE_AUX_DATA = %s
[TIME]
GPS2UTC : 17
[LITERALS]
R3 : 4
"""


def reference(env, mode, data, hca, aux, shift, r3):
    """The files a converter with the same settings writes, for the same bytes in one piece."""
    wd = env.workdir()
    lit = {i: (i * 5) % 14 - 7 for i in range(1, 25)}
    lit[3] = r3
    c = converter(env, mode, wd, margo={"half_cycle_enable": hca, "lock_time_enable": False, "gps_utc_shift": shift, "glo_lit_tab": lit},
                  jsonc={"enable_pretty_view": False, "enable_hdr_data": True, "enable_aux_data": aux})
    for m in c.parse_bytes(data):
        b = c.decode(m)
        if b is not None:
            c.print(b)
    c.release()
    return {f: env.read(os.path.join(wd, f)) for f in env.listing(wd)}


def contents(env, kind, k):
    """(bytes, errors?); in a long list of files the contents are fixed from the third on."""
    if k > 2:
        return fixed(env, k, lambda e: _contents(e, kind, k))
    return _contents(env, kind, k)


def _contents(env, kind, k):
    good = frame(env, message(env, 1077, "f%dg" % k, k))
    if kind == "clean":
        return env.cat(good, frame(env, message(env, 1019, "f%de" % k, k))), False
    if kind == "junk":
        return env.cat(good, safe(env, "f%dj" % k, 5), frame(env, message(env, 1087, "f%dr" % k, 0))), True
    if kind == "bad":
        return env.cat(good, frame(env, env.build([(1074, 12), (env.uint("f%dx" % k, 20), 20)])), good), True
    if kind == "unknown":
        return env.cat(good, frame(env, env.build([(1001, 12), (env.uint("f%dx" % k, 20), 20)])), good), False
    return b"", False


def main(env):
    mode, files = env.params["mode"], env.params["files"]
    d = env.workdir()
    rc = env.imp("run_conversion")
    with open(os.path.join(d, "defaults.ini"), "w") as f:
        f.write(SETTINGS)
    src = []
    for k, kind in enumerate(files):
        p = os.path.join(d, "s%d.rtcm3" % k)
        src.append(p)
        if kind != "gone":
            data, err = contents(env, kind, k)
            env.put(p, data)
        if kind == "blocked":
            # a file where the work folder should be
            with open(os.path.join(d, "s%d-%s" % (k, mode)), "w") as f:
                f.write("in the way")
        if kind == "clean":
            old = os.path.join(d, "s%d-%s" % (k, mode), "GPS")
            os.makedirs(old)
            with open(os.path.join(old, "old.obs"), "w") as f:
                f.write("old")
    keep = os.path.join(d, "s0-OTHER")
    os.makedirs(keep)
    with open(os.path.join(keep, "mine.txt"), "w") as f:
        f.write("mine")
    cwd = os.getcwd()
    hca, aux, shift, r3, opt = False, True, 18, (3 * 5) % 14 - 7, ""
    if env.params["add"]:
        hca, aux, shift, r3 = bool(env.bool("hca")), bool(env.bool("aux")), 17, 4
        with open(os.path.join(d, "more.ini"), "w") as f:
            f.write(ADD % (hca, aux))
        opt = "-i more.ini "
    os.chdir(d)
    try:
        rc.main("-o %s %s%s" % (mode, opt, " ".join(src)))
    finally:
        os.chdir(cwd)
    have = env.listing(d)
    env.check("s0-OTHER/mine.txt" in have, "files outside the work folder stay")
    for k, kind in enumerate(files):
        w = "s%d-%s" % (k, mode)
        mine = [f[len(w) + 1:] for f in have if f.startswith(w + "/")]
        if kind == "gone":
            env.check(not mine, "no output for a missing file")
            env.cover("main gone")
            continue
        if kind == "blocked":
            env.check(w in have and env.read(os.path.join(d, w)) == "in the way", "a file in place of the work folder stays")
            env.cover("main blocked")
            continue
        env.check("GPS/old.obs" not in mine, "old output is removed")
        log = "s%d-log.txt" % k
        env.check(log in mine, "log file")
        if log not in mine:
            continue
        text = env.read(os.path.join(d, w, log))
        data, err = contents(env, kind, k)
        ok, bad = text.count("Finished without errors."), text.count("Finished with errors.")
        env.check((ok, bad) == ((0, 1) if err else (1, 0)), kind + ": the report tells whether there were errors")
        out = [f for f in mine if f != log]
        ref = reference(env, mode, data, hca, aux, shift, r3)
        env.check(sorted(out) == sorted(ref) and bool(ref) == (kind != "empty"), kind + ": output files")
        for f in ref:
            if f in out:
                env.eq(env.read(os.path.join(d, w, f)), ref[f], kind + ": contents of " + f)
        env.cover("main " + kind)
    lg = env.imp("logger").LOGGER_CF
    env.check(not lg.ready, "the log is closed")
