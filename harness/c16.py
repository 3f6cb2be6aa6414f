"""C16: JSON files hold exactly the decoded data, in order, as one valid JSON document per message number."""
import dataclasses
from harness.c08 import char
from harness.common import fixed, frame
from harness.conv import MODS, BASES, EPHS, MSMS, class_name, converter, is_msm, json_path, message, msm_msg, split
from harness.msm import SIGNALS

MODULES = MODS
BOUNDS = ("modes JSON and JSON-B; task 'one': each of the 64 message numbers with symbolic contents, all 8 settings of the header, auxiliary and "
          "pretty-view controls; task 'many': sequences of 2..5 messages of equal and different numbers, the same message again, all 64 numbers twice; task 'grid': MSM messages with several "
          "satellites, signals and gaps; task 'rows': 200..300 messages, the middle ones with fixed contents; task 'none': nothing decoded, nothing written; task 'fault': the output folder of one kind of messages cannot be made; task 'again': the folder holds longer files of an earlier conversion; strings of 7-bit characters, all of them "
          "symbolic; task 'wide': texts (1029, 1007) of 1..5 characters of every UTF-8 width, symbolic and fixed")
OUTSIDE = "longer texts of characters beyond 7 bits"
ASSUMPTIONS = ["IEEE-754 doubles are written so that they read back as the same value (Python's repr)"]


def TASKS(tier):
    q = tier == "quick"
    t = []
    for i, num in enumerate(MSMS + EPHS + BASES):
        for bare in (False, True):
            if not q or is_msm(num) is False or (i + bare) % 2 == 0 or num in (1077, 1087, 1123):
                t.append({"fn": "one", "num": num, "bare": bare, "v": i})
    seqs = [[1077, 1077], [1019, 1077, 1019], [1005, 1006, 1005, 1006], [1087, 1077, 1087, 1077, 1019], [1020, 1020, 1020], [1029, 1029], [1033, 1007, 1008, 1033],
            [1013, 1013], [1230, 1230, 1005], [1123, 1122, 1121, 1123], [1074, 1075, 1076, 1077, 1074], [1045, 1046, 1045]]
    for s in seqs:
        for bare in (False, True):
            t.append({"fn": "many", "nums": s, "bare": bare})
    for num in ((1077, 1084, 1095, 1111, 1122, 1133) if q else MSMS):
        for bare in (False, True):
            t.append({"fn": "grid", "num": num, "bare": bare, "v": num % 11})
    t += [{"fn": "many", "nums": s, "bare": b, "same": True} for b in (False, True) for s in ([1077, 1077], [1019, 1005, 1019, 1005], MSMS + EPHS + BASES + BASES + EPHS + MSMS)]
    for w in ([2], [3], [4], [1, 2], [3, 1, 4], [2, 3, 4], [4, 4, 1, 3, 2]):
        t += [{"fn": "wide", "w": w, "num": n, "pretty": len(w) % 2 == 0, "lit": l} for n in (1029, 1007) for l in (0, 1)]
    for ns, n in (([1077], 260), ([1019], 300), ([1005, 1006], 280), ([1087, 1123, 1029], 270), ([1033, 1020, 1111, 1013], 200)):
        t += [{"fn": "rows", "nums": ns, "n": n, "bare": b} for b in (False, True)]
    t += [{"fn": "none", "bare": b} for b in (False, True)]
    for bad, ns in (("EPH", [1019, 1077, 1020, 1019, 1005, 1077]), ("BASE", [1077, 1019, 1006, 1019, 1029, 1077]), ("MSM7", [1077, 1019, 1087, 1076, 1005, 1019])):
        t += [{"fn": "fault", "bad": bad, "nums": ns, "bare": b} for b in (False, True)]
    t += [{"fn": "again", "nums": ns, "bare": b} for b in (False, True) for ns in ([1077], [1019, 1005], [1029, 1087, 1013, 1123])]
    return t


def COVERS(tier):
    return ["bare MSM", "scaled MSM", "block", "same number twice", "nothing written", "pretty view", "all numbers twice", "wide characters", "many entries", "failing output", "earlier files"]


def snapshot(env, o):
    """Plain copy of what a data block holds, in the shape JSON gives it."""
    if dataclasses.is_dataclass(o):
        return {f.name: snapshot(env, getattr(o, f.name)) for f in dataclasses.fields(o)}
    if isinstance(o, dict):
        return {str(k): snapshot(env, v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [snapshot(env, v) for v in o]
    return o


def slots(env, o):
    return {s: snapshot(env, getattr(o, s)) for s in type(o).__slots__}


def expected(env, b, num, bare, hdr, aux):
    """(key or None, value)"""
    if not is_msm(num):
        return None, snapshot(env, b)
    if bare:
        v = {"sat": slots(env, b.sat), "sgn": slots(env, b.sgn)}
        if hdr:
            v["hdr"] = slots(env, b.hdr)
        if aux:
            v["aux"] = slots(env, b.atr)
        return b.time, v
    v = {"obs": slots(env, b.obs)}
    if hdr:
        v["hdr"] = slots(env, b.hdr)
    if aux:
        v["aux"] = slots(env, b.aux)
    return b.hdr.time + b.hdr.day * 86400000, v


def convert(env, bare, payloads, hdr, aux, pretty, bad=None, old=None):
    wd = env.workdir()
    if old:  # the folder holds the files of an earlier conversion
        c = converter(env, "JSON-B" if bare else "JSON", wd)
        for _, p in old:
            c.print(c.decode(frame(env, p)))
        c.release()
    errors = 0
    if bad:  # a file where the folder for this kind of messages should be
        with open(wd + "/" + bad, "w") as f:
            f.write("x")
    c = converter(env, "JSON-B" if bare else "JSON", wd, jsonc={"enable_hdr_data": hdr, "enable_aux_data": aux, "enable_pretty_view": pretty})
    exp = {}
    for num, p in payloads:
        b = c.decode(frame(env, p))
        env.check(type(b).__name__ == class_name(num, bare), "%d decodes" % num)
        if b is None:
            return None
        if bad and json_path(num).startswith(bad + "/"):
            errors += 1
        else:
            exp.setdefault(num, []).append(expected(env, b, num, bare, hdr, aux))
        c.print(b)
    c.release()
    env.check(env.listing(wd) == sorted([json_path(n) for n in exp] + ([bad] if bad else [])), "one file per message number, nothing else")
    for num, rows in exp.items():
        path = wd + "/" + json_path(num)
        if json_path(num) not in env.listing(wd):
            continue
        try:
            doc = env.json(env.read(path))
        except ValueError as ex:
            env.fail("%d: the file is valid JSON (%s)" % (num, ex))
            continue
        env.check(isinstance(doc, list) and len(doc) == len(rows) + 1, "%d: a list of a head and one entry per message" % num)
        if not isinstance(doc, list) or len(doc) != len(rows) + 1:
            continue
        env.eq(doc[0], {"source_type": class_name(num, bare)}, "%d: head entry" % num)
        for d, (key, want) in zip(doc[1:], rows):
            if key is None:
                same(env, d, want, str(num))
                continue
            env.check(isinstance(d, dict) and len(d) == 1, "%d: one epoch per entry" % num)
            if not isinstance(d, dict) or len(d) != 1:
                continue
            k, = d
            env.eq(env.keyint(k), key, "%d: epoch" % num)
            same(env, d[k], want, str(num))
    s = c.get_statistics()
    env.eq((s.printing_attempts, s.printing_errors), (len(payloads), errors), "all printed")
    return wd


def same(env, got, want, lab):
    """Deep comparison; keys may be symbolic (announced message numbers) and are compared in order."""
    if isinstance(want, dict):
        ok = isinstance(got, dict) and len(got) == len(want)
        env.check(ok, lab + ": same entries")
        if not ok:
            return
        if set(got) == set(want):
            for k in want:
                same(env, got[k], want[k], lab + "." + (k if isinstance(k, str) and len(k) < 25 else "?"))
        else:
            env.eq(list(got), list(want), lab + ": keys")
            for a, b in zip(got.values(), want.values()):
                same(env, a, b, lab)
    elif isinstance(want, list):
        ok = isinstance(got, list) and len(got) == len(want)
        env.check(ok, lab + ": same length")
        if ok:
            for a, b in zip(got, want):
                same(env, a, b, lab)
    else:
        env.eq(got, want, lab)


def controls(env):
    return [bool(env.bool(n)) for n in ("hdr", "aux", "pretty")]


def one(env):
    num, bare, v = env.params["num"], env.params["bare"], env.params["v"]
    h, a, p = controls(env)
    if convert(env, bare, [(num, message(env, num, "m", v))], h, a, p):
        env.cover("block" if not is_msm(num) else "bare MSM" if bare else "scaled MSM")
        if p:
            env.cover("pretty view")


def many(env):
    nums = env.params["nums"]
    if env.params.get("same"):
        first = {n: (n, message(env, n, "m%d_" % n, n % 5)) for n in set(nums)}
        if convert(env, env.params["bare"], [first[n] for n in nums], True, False, False):
            env.cover("all numbers twice")
        return
    pays = [(n, message(env, n, "m%d_" % i, i, n=1 + i % 3)) for i, n in enumerate(nums)]
    if convert(env, env.params["bare"], pays, True, True, len(nums) % 2 == 0):
        if len(set(nums)) < len(nums):
            env.cover("same number twice")


def grid(env):
    num, bare, v = env.params["num"], env.params["bare"], env.params["v"]
    g, _ = split(num)
    ns = min(3, len(SIGNALS[g]))
    nsat = 3
    cells = [(i, j) for i in range(nsat) for j in range(ns) if (i + 2 * j + v) % 3]
    m = msm_msg(env, num, "m", v, nsat=nsat, nsig=ns, cells=cells)
    convert(env, bare, [(num, m.payload)], True, True, False)


def rows(env):
    """Many messages, with fixed contents except at both ends."""
    nums, n = env.params["nums"], env.params["n"]
    pays = []
    for k in range(n):
        num = nums[k % len(nums)]
        mk = lambda e: message(e, num, "m%d_" % k, k % 5, n=1 + k % 3)
        pays.append((num, mk(env) if k < 2 or k > n - 3 else fixed(env, k, mk)))
    if convert(env, env.params["bare"], pays, n % 3 == 0, n % 4 == 0, n % 7 == 0):
        env.cover("many entries")


LIT = {1: "\u007f", 2: "\u03a9", 3: "\u2014", 4: "\U0001f6f0"}


def wide(env):
    """Texts with characters of every width in UTF-8, symbolic or fixed ones."""
    num = env.params["num"]
    by = []
    for i, w in enumerate(env.params["w"]):
        by += list(LIT[w].encode()) if env.params["lit"] else char(env, "c%d" % i, w)[1]
    by = [(len(by), 8)] + [(b, 8) for b in by]
    pay = [(num, 12), (env.uint("id", 52), 52)] + by if num == 1029 else [(num, 12), (env.uint("id", 12), 12)] + by + [(env.uint("s", 8), 8)]
    if convert(env, False, [(num, env.build(pay))] * 2, True, True, env.params["pretty"]):
        env.cover("wide characters")


def fault(env):
    """The folder of one kind of messages cannot be made: the files of the others are valid and complete all the same."""
    nums = env.params["nums"]
    pays = [(n, message(env, n, "m%d_" % i, i, n=1 + i % 3)) for i, n in enumerate(nums)]
    if convert(env, env.params["bare"], pays, True, False, len(nums) % 2 == 0, env.params["bad"]):
        env.cover("failing output")


def again(env):
    """A conversion into a folder with the files of an earlier one, longer ones, replaces them."""
    nums = env.params["nums"]
    new = [(n, message(env, n, "m%d_" % i, i, n=1 + i % 3)) for i, n in enumerate(nums)]
    old = [(n, fixed(env, i, lambda e: message(e, n, "o%d_" % i, i))) for i, n in enumerate(nums * 2)]
    if convert(env, env.params["bare"], new, True, False, len(nums) % 2 == 0, old=old):
        env.cover("earlier files")


def none(env):
    """No decodable message: no files."""
    wd = env.workdir()
    c = converter(env, "JSON-B" if env.params["bare"] else "JSON", wd)
    n = env.uint("n", 12)
    b = c.decode(frame(env, env.build([(n, 12), (env.uint("r", 12), 12)])))
    env.check(b is None, "nothing decoded")
    c.release()
    env.check(env.listing(wd) == [], "nothing written")
    env.cover("nothing written")
