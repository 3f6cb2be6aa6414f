"""C26: the log of a source tells its own conversion, completely and in order."""
import contextlib
import io
import os
from harness.c22 import SETTINGS, Recorder, _contents, plain
from harness.conv import MODS, converter

MODULES = MODS + ["run_conversion", "logger"]
BOUNDS = ("task 'records': every sequence of 4 (thorough: 5) steps out of opening one of two logs, closing, and records of the levels debug, info, warning, error, progress, with messages of free "
          "characters; longer sequences with fixed steps; task 'progress': files of 1..13000 bytes (thorough: 60000), statistics of 20 free bits each after each chunk; task 'main': the whole program on "
          "one to five sources with junk, undecodable messages, missing settings, or a log that cannot be made")
OUTSIDE = "faults while the log is written; messages with line breaks"
ASSUMPTIONS = ["the standard library's logging module acts as documented (executed)"]
LEVELS = ("debug", "info", "warning", "error", "progress")
STEPS = ("open a", "open b", "close") + LEVELS


def TASKS(tier):
    q = tier == "quick"
    t = [{"fn": "records", "steps": s, "free": 3 if q else 4} for s in STEPS]
    for s in (["open a", "info", "close", "open b", "warning", "close", "open a", "error", "close"], ["open a", "progress", "close", "open a", "progress", "close", "info"],
              ["info", "open b", "close", "close", "error", "open a", "debug", "warning", "info"], ["open a"] + ["info", "progress", "error"] * 20,
              ["open a", "error", "close", "open b", "error", "close"] * 8 + ["open a", "info", "warning"]):
        t.append({"fn": "records", "steps": s, "free": 0})
        t.append({"fn": "records", "steps": s, "free": 1})
    for n in ((1, 100, 4096, 4097, 8192, 13000) if q else (1, 2, 100, 4095, 4096, 4097, 8191, 8192, 12289, 20000, 60000)):
        t.append({"fn": "progress", "n": n})
    for mode in ("MARGO", "JSON", "JSON-B", "JARGO"):
        for files in (["clean", "junk"], ["bad", "empty", "clean"], ["unknown", "bad", "junk", "clean", "unknown"]):
            t.append({"fn": "main", "mode": mode, "files": files, "case": ""})
    t += [{"fn": "main", "mode": "JSON", "files": ["clean", "junk", "bad"], "case": c} for c in ("no settings", "long name", "dirs")]
    return t


def COVERS(tier):
    return ["before opening", "after closing", "in the file", "console only", "second log", "opened again", "progress", "main", "main no settings", "main long name"]


@contextlib.contextmanager
def console():
    out = io.StringIO()
    with contextlib.redirect_stderr(out), contextlib.redirect_stdout(io.StringIO()):
        yield out


HEAD = "New log file was created.\n-------------------------\n"


def records(env):
    d = env.workdir()
    rc, lg = env.imp("run_conversion"), env.imp("logger").LOGGER_CF
    steps = env.params["steps"]
    steps = [steps] if isinstance(steps, str) else list(steps)
    n = len(steps) + env.params["free"]
    files, now, screen = {}, None, []
    try:
        with console() as out:
            for i in range(n):
                s = steps[i] if i < len(steps) else env.choice("step%d" % i, STEPS)
                if s.startswith("open"):
                    env.assume(now is None)
                    now = s[-1] + ".txt"
                    env.cover("opened again" if now in files else "second log" if files else "in the file")
                    rc.init_logger(os.path.join(d, now))
                    files[now] = [HEAD]
                elif s == "close":
                    lg.deinit()
                    if now:
                        env.cover("after closing")
                    now = None
                else:
                    if i < 6 or i >= n - 2:
                        c = [env.uint("c%d_%d" % (i, j), 7) for j in range(2)]
                        for x in c:
                            env.assume(x >= 32)
                            env.assume(x != 127)
                        msg = "m%d " % i + env.text(c)
                    else:
                        msg = "m%d 100%% {x} %%s" % i
                    getattr(lg, s)(msg)
                    line = "RTCMDEC:" + s.upper() + ": " + msg + "\n"
                    if now is None:
                        env.cover("before opening")
                        continue
                    if s != "debug":
                        files[now].append(line)
                    if s not in ("debug", "info"):
                        screen.append(line)
                        env.cover("console only")
    finally:
        lg.deinit()
    env.check(env.listing(d) == sorted(files), "the log files")
    for f, want in files.items():
        if f in env.listing(d):
            env.eq(env.read(os.path.join(d, f)), "".join(want), "every record once, in order, in the log that is open")
    env.eq(out.getvalue(), "".join(screen), "warnings and above on the console")


class Counts:
    def __init__(self, v):
        self.decoding_attempts, self.parsing_errors, self.decoding_errors, self.printing_errors, self.printing_attempts = v


class Counting(Recorder):
    def get_statistics(self):
        k = len(self.chunks)
        return Counts([self.env.uint("s%d_%d" % (k, j), 20) for j in range(5)])


def lines_with(text, what):
    return [x for x in text.split("\n") if what in x]


def progress(env):
    n = env.params["n"]
    d = env.workdir()
    rc, lg = env.imp("run_conversion"), env.imp("logger").LOGGER_CF
    src = os.path.join(d, "a.rtcm")
    env.put(src, plain(n))
    r = Counting(env, lambda c: 1, lambda c, i: False)
    with console() as out:
        rc.init_logger(os.path.join(d, "log.txt"))
        try:
            ok = rc.decode_rtcm_file(src, r)
        finally:
            lg.deinit()
    env.check(ok is True, "converted")
    for text in (env.read(os.path.join(d, "log.txt")), out.getvalue()):
        rec = lines_with(text, "%")
        env.check(len(rec) == len(r.chunks), "one progress record per chunk")
        done = 0
        for k, (line, c) in enumerate(zip(rec, r.chunks), 1):
            done += len(c)
            v = env.numbers(line)
            env.check(len(v) == 5, "share, messages and three error counts")
            if len(v) != 5:
                return
            env.check(abs(v[0] * n - 100 * done) * 1000 <= 6 * n, "share of the file that is converted")
            for j, what in enumerate(("messages", "parsing errors", "decoding errors", "printing errors")):
                env.eq(v[1 + j], env.uint("s%d_%d" % (k, j), 20), what)
    env.cover("progress")


def main(env):
    mode, files, case = env.params["mode"], env.params["files"], env.params["case"]
    d = os.path.realpath(env.workdir())
    rc, lg = env.imp("run_conversion"), env.imp("logger").LOGGER_CF
    with open(os.path.join(d, "defaults.ini"), "w") as f:
        f.write("" if case == "no settings" else SETTINGS)
    src, data = [], []
    for k, kind in enumerate(files):
        stem = "src" + "abcdefg"[k]
        if case == "long name" and k == 1:
            stem += "x" * (255 - len("-" + mode) - len(stem))
        sub = os.path.join(d, "sub%d" % k) if case == "dirs" else d
        os.makedirs(sub, exist_ok=True)
        p = os.path.join(sub, (stem if case != "dirs" else "same") + ".r")
        b = _contents(env, kind, k)[0]
        env.put(p, b)
        src.append(p)
        data.append(b)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with console():
            rc.main("-o %s %s" % (mode, " ".join(src)))
    finally:
        os.chdir(cwd)
    env.check(not lg.ready, "the log is closed")
    for k, p in enumerate(src):
        stem = os.path.splitext(p)[0]
        log = os.path.join(stem + "-" + mode, os.path.basename(stem) + "-log.txt")
        if len(os.path.basename(log)) > 255:
            env.check(len(env.listing(stem + "-" + mode)) > 0, "converted without a log")
            env.cover("main long name")
            continue
        env.check(os.path.isfile(log), "a log for each source")
        if not os.path.isfile(log):
            continue
        text = env.read(log)
        for q in src:
            env.check((q in text) == (q == p and case != "no settings"), "the log mentions its own source and no other")
        if case == "no settings":
            env.check(len(lines_with(text, ":ERROR:")) == 1 and not lines_with(text, "Finished"), "the log says why nothing was converted")
            env.check(len(env.listing(stem + "-" + mode)) == 1, "nothing converted")
            env.cover("main no settings")
            continue
        c = converter(env, mode, env.workdir(), margo={"half_cycle_enable": False, "lock_time_enable": False, "gps_utc_shift": 18,
                                                       "glo_lit_tab": {i: (i * 5) % 14 - 7 for i in range(1, 25)}})
        for m in c.parse_bytes(data[k]):
            x = c.decode(m)
            if x is not None:
                c.print(x)
        c.release()
        st = c.get_statistics()
        rec = lines_with(text, "%")
        env.check(len(rec) == (1 if len(data[k]) else 0), "progress")
        for line in rec:
            env.eq(env.numbers(line), [100, st.decoding_attempts, st.parsing_errors, st.decoding_errors, st.printing_errors], "the counts of this source")
        err = bool(st.parsing_errors or st.decoding_errors or st.printing_errors)
        last = text.rstrip("\n").split("\n")[-1]
        env.check(last.endswith("Finished with errors." if err else "Finished without errors."), "the last record is the result")
        env.check(text.count("Finished") == 1, "one result")
    env.cover("main")
