"""C17: each mode sends each kind of message to its own output, and to no other."""
from harness.common import frame
from harness.conv import (MODS, BASES, EPHS, MSMS, SUPPORTED, class_name, converter, is_msm, json_path, message, msm_msg, obs_paths, split)

MODULES = MODS
BOUNDS = ("task 'route': each of the 64 message numbers in each of the four modes, contents symbolic; task 'mix': sequences of 4..6 messages of different "
          "kinds, incl. undecodable and unknown ones, in the four modes on the same messages: JARGO's files are MARGO's plus those of JSON for the "
          "non-MSM messages, character by character; task 'again': a second converter in another folder writes the same files; "
          "task 'beside': two converters of the same or of different modes take turns, each in its own folder")
OUTSIDE = "several converters writing into the same folder"
ASSUMPTIONS = []
MODES = ("MARGO", "JSON", "JSON-B", "JARGO")


def TASKS(tier):
    q = tier == "quick"
    t = []
    for i, num in enumerate(MSMS + EPHS + BASES):
        for mode in MODES:
            t.append({"fn": "route", "num": num, "mode": mode, "v": i})
    seqs = [[1077, 1019, 1005], [1087, 1020, 1230, 1087], [1097, 1045, 1097, 1046, 1033], [1124, 1042, 1006, 1124], [1111, 1044, 1008, 1113],
            [1131, 1041, 1007, 1131, 1029], [1107, 1013, 1107, 1019], [1072, 1087, 1073, 1087, 1005, 1019]]
    for k, s in enumerate(seqs):
        for bad in (False, True):
            t.append({"fn": "mix", "nums": s, "bad": bad, "v": k})
        for mode in MODES if not q else (MODES[k % 4], MODES[(k + 1) % 4]):
            t.append({"fn": "again", "nums": s, "mode": mode, "v": k})
        for mode in MODES if not q else (MODES[(k + 2) % 4], MODES[(k + 3) % 4]):
            for other in (mode, MODES[(MODES.index(mode) + k % 3 + 1) % 4]):
                t.append({"fn": "beside", "nums": s, "mode": mode, "other": other, "v": k})
    return t


def COVERS(tier):
    return [m + " " + k for m in MODES for k in ("MSM", "EPH", "BASE")] + ["mix", "again", "beside"]


def one(env, num, tag, v):
    """(payload, MARGO files)"""
    if is_msm(num):
        pin = msm_msg(env, num, tag, v)
        if "hc_indc" in pin.sgn:
            env.assume(pin.sgn["hc_indc"][0] == v % 2)
        return pin.payload, obs_paths(pin)
    return message(env, num, tag, v), []


def outputs(num, mode, obs):
    if mode == "MARGO":
        return obs
    if mode == "JARGO" and is_msm(num):
        return obs
    return [json_path(num)]


def route(env):
    num, mode, v = env.params["num"], env.params["mode"], env.params["v"]
    wd = env.workdir()
    c = converter(env, mode, wd)
    p, obs = one(env, num, "m", v)
    b = c.decode(frame(env, p))
    if num not in SUPPORTED[mode]:
        env.check(b is None, "%d is not converted in mode %s" % (num, mode))
    else:
        env.check(type(b).__name__ == class_name(num, mode == "JSON-B"), "%d in mode %s: kind of data" % (num, mode))
    if b is not None:
        c.print(b)
    c.release()
    have = env.listing(wd)
    env.check(have == sorted(outputs(num, mode, obs)), "%d in mode %s: output files" % (num, mode))
    env.cover(mode + " " + ("MSM" if is_msm(num) else "EPH" if num in EPHS else "BASE"))


def convert(env, mode, data):
    wd = env.workdir()
    c = converter(env, mode, wd, margo={"half_cycle_enable": True, "lock_time_enable": True})
    for p in data:
        b = c.decode(frame(env, p))
        if b is not None:
            c.print(b)
    c.release()
    return {f: env.read(wd + "/" + f) for f in env.listing(wd)}


def contents(env):
    nums, v = env.params["nums"], env.params["v"]
    out = []
    for i, n in enumerate(nums):
        p, _ = one(env, n, "m%d_" % i, v + i)
        if is_msm(n):
            g, m = split(n)
            if g == "R":
                t = env.field(p, 27, 27)
                env.assume(env.all([t >= 10800000, t < 86400000, env.field(p, 24, 3) < 7]))
            else:
                env.assume(env.field(p, 24, 30) < 604000000)
        out.append(p)
        if env.params.get("bad") and i % 2 == 0:
            out.append(env.build([(nums[-1 - i], 12), (env.uint("x%d" % i, 12), 12)]))
            out.append(env.build([(1001 + i, 12), (env.uint("y%d" % i, 28), 28)]))
    return out


def mix(env):
    data = contents(env)
    got = {m: convert(env, m, data) for m in MODES}
    msm = {f for f in got["JSON"] if f.startswith("MSM")}
    want = dict(got["MARGO"])
    want.update({f: t for f, t in got["JSON"].items() if f not in msm})
    env.check(sorted(got["JARGO"]) == sorted(want), "JARGO: MSM as MARGO, the others as JSON")
    for f, t in want.items():
        if f in got["JARGO"]:
            env.eq(got["JARGO"][f], t, "JARGO: contents of " + f)
    env.check(sorted(got["JSON"]) == sorted(got["JSON-B"]) == sorted({json_path(n) for n in env.params["nums"]}), "JSON and JSON-B: a file per number")
    env.check(all(f.endswith(".obs") for f in got["MARGO"]), "MARGO: observables only")
    env.cover("mix")


def again(env):
    data = contents(env)
    a = convert(env, env.params["mode"], data)
    b = convert(env, env.params["mode"], data)
    env.check(sorted(a) == sorted(b) and len(a) > 0, "the same files")
    for f in a:
        env.eq(b.get(f), a[f], "the same contents of " + f)
    env.cover("again")


def beside(env):
    """Two converters that take turns write what each would write alone."""
    data = contents(env)
    mode, other = env.params["mode"], env.params["other"]
    alone = [convert(env, m, data) for m in (mode, other)]
    wd = [env.workdir(), env.workdir()]
    cs = [converter(env, m, w, margo={"half_cycle_enable": True, "lock_time_enable": True}) for m, w in zip((mode, other), wd)]
    for p in data:
        bs = [c.decode(frame(env, p)) for c in cs]
        for c, b in zip(cs, bs):
            if b is not None:
                c.print(b)
    for c in cs:
        c.release()
    for w, a in zip(wd, alone):
        env.check(env.listing(w) == sorted(a) and len(a) > 0, "the same files beside another conversion")
        for f in a:
            if f in env.listing(w):
                env.eq(env.read(w + "/" + f), a[f], "the same contents of " + f)
    env.cover("beside")
