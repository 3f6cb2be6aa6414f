"""C18: a decoded block depends on its own message only."""
import dataclasses
from harness.common import decoder, fixed, frame
from harness.conv import MODS, BASES, EPHS, MSMS, class_name, converter, cut, is_msm, message, msm_msg, split
from harness.msm import SIGNALS, Msg
from harness.c10 import flags, pick

MODULES = MODS
BOUNDS = ("raw and scaled decoding; task 'after': each of the 64 message numbers after a history of one (thorough: two) messages out of {same number, other "
          "systems and kinds, undecodable, unknown, empty MSM}, contents of all of them symbolic, also messages without satellites, entries or characters and with missing values after full ones; task 'keep': the block of an earlier message "
          "while later ones of the same number are decoded; task 'deep': 300 messages with fixed contents in between; task 'own': the holder of a block changes it, the message is decoded again; task "
          "'print': every mode prints a block twice, the block stays the same")
OUTSIDE = "other histories longer than the bound; several decoders in different threads"
ASSUMPTIONS = []
MODES = ("MARGO", "JSON", "JSON-B", "JARGO")
HIST = ("same", "other", "cut", "unknown", "empty", "short", "sibling")


def TASKS(tier):
    q = tier == "quick"
    t = []
    nums = MSMS + EPHS + BASES
    for i, num in enumerate(nums):
        for bare in (False, True):
            hs = [(h,) for h in (HIST if not q else [HIST[(i + 3 * k + bare) % 7] for k in range(3)])]
            if not q:
                hs += [(HIST[(i + k) % 7], HIST[(i + 2 * k + 1) % 7]) for k in range(6)]
            for h in hs:
                t.append({"fn": "after", "num": num, "bare": bare, "hist": h, "v": i})
            if num not in EPHS and num not in (1005, 1006):
                for h in ("same", "sibling") if is_msm(num) or not q else ("same",):
                    t.append({"fn": "after", "num": num, "bare": bare, "hist": (h,), "v": i, "shape": "empty"})
            if is_msm(num):
                t.append({"fn": "after", "num": num, "bare": bare, "hist": ("same",), "v": i, "shape": "free"})
            t.append({"fn": "keep", "num": num, "bare": bare, "v": i})
            t.append({"fn": "own", "num": num, "bare": bare, "v": i})
        for mode in (MODES if not q else (MODES[i % 4], MODES[(i + 1) % 4])):
            if mode != "MARGO" or is_msm(num):
                t.append({"fn": "print", "num": num, "mode": mode, "v": i})
    for i, num in enumerate(nums):
        if not q or i % 4 == 0 or num in BASES:
            t.append({"fn": "deep", "num": num, "bare": i % 2 == 0, "v": i, "n": 300, "same": False})
            t.append({"fn": "deep", "num": num, "bare": i % 2 == 1, "v": i, "n": 300, "same": True})
    return t


def COVERS(tier):
    return ["after " + h for h in HIST] + ["keep", "own", "deep", "empty message after a full one", "free message after a full one", "print " + MODES[0], "print " + MODES[1], "print " + MODES[2], "print " + MODES[3]]


def snap(o, d=0):
    """Contents of a block as plain nested containers."""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return [type(o).__name__] + [(f.name, snap(getattr(o, f.name), d + 1)) for f in dataclasses.fields(o)]
    if isinstance(o, dict):
        return ["{}"] + [(k, snap(v, d + 1)) for k, v in o.items()]
    if isinstance(o, (list, tuple, set, frozenset)):
        return ["[]"] + [snap(v, d + 1) for v in o]
    names = names_of(o)
    if names:
        return [type(o).__name__] + [(s, snap(getattr(o, s, None), d + 1)) for s in names]
    return o


def names_of(o):
    """Attributes of an object of the code under test."""
    if type(o).__module__.split(".")[0] in ("builtins", "engine"):
        return []
    if dataclasses.is_dataclass(o):
        return [f.name for f in dataclasses.fields(o)]
    s = [n for c in type(o).__mro__ for n in (c.__dict__.get("__slots__") or ()) if isinstance(n, str)]
    return s + sorted(getattr(o, "__dict__", {}))


def spoil(o, seen=None):
    """Change every container of a block in place."""
    seen = set() if seen is None else seen
    if id(o) in seen or o is None or isinstance(o, (str, bytes, int, float, bool)):
        return
    seen.add(id(o))
    if isinstance(o, dict):
        for v in list(o.values()):
            spoil(v, seen)
        o.clear()
        o["spoilt"] = 1
    elif isinstance(o, list):
        for v in o:
            spoil(v, seen)
        o.append(-1)
    elif isinstance(o, set):
        o.add(-1)
    else:
        names = names_of(o)
        for n in names:
            v = getattr(o, n, None)
            spoil(v, seen)
            if isinstance(v, (int, float, str)) or v is None:
                try:
                    setattr(o, n, -77)
                except Exception:
                    pass


def make(env, num, tag, v, wide=True, shape=None):
    if is_msm(num):
        g, m = split(num)
        if shape == "empty":  # no satellites
            return Msg(env, g, m, [], pick(g, 1, v), [], hdr=flags(v), tag=tag).payload
        if shape == "free":  # values valid or marked as missing
            return msm_msg(env, num, tag, v, free=True).payload
        ns = min(2, len(SIGNALS[g]))
        m = msm_msg(env, num, tag, v, nsat=2, nsig=ns) if wide else msm_msg(env, num, tag, v)
        return m.payload
    return message(env, num, tag, v, n=0 if shape == "empty" else 1 + v % 3)


def past(env, num, kind, k, v):
    t = "h%d_" % k
    if kind == "same":
        return make(env, num, t, v + 1)
    if kind == "short":
        return make(env, num, t, v + 4, wide=False)
    if kind == "other":
        return make(env, (1077, 1020, 1006, 1125, 1033, 1083, 1230)[(v + k) % 7], t, v)
    if kind == "sibling":
        if is_msm(num):
            g, m = split(num)
            return make(env, num - m + (m + v) % 7 + 1, t, v + 2)
        return make(env, (EPHS + BASES)[v % 15], t, v)
    if kind == "cut":
        return cut(env, num, t, 3 + v % 3)
    if kind == "unknown":
        return env.build([((1001, 1012, 1300, 4095)[v % 4], 12), (env.uint(t + "x", 36), 36)])
    num = num if is_msm(num) else 1077
    g, m = split(num)
    return Msg(env, g, m, [], pick(g, 1, v), [], hdr=flags(v), tag=t).payload


def after(env):
    num, bare, hist, v = (env.params[x] for x in ("num", "bare", "hist", "v"))
    f = frame(env, make(env, num, "m", v, shape=env.params.get("shape")))
    b = decoder(env, bare).decode(f)
    env.check(type(b).__name__ == class_name(num, bare), "%d decodes" % num)
    ref = snap(b)
    env.check(isinstance(ref, list) and (not is_msm(num) or all(isinstance(x[1], list) for x in ref[1:] if x[0] in ("hdr", "obs", "sat", "sgn"))),
              "%d: contents" % num)
    d = decoder(env, bare)
    for k, h in enumerate(hist):
        d.decode(frame(env, past(env, num, h, k, v)))
    got = d.decode(f)
    env.eq(snap(got), ref, "%d after %s" % (num, "+".join(hist)))
    env.eq(snap(d.decode(f)), ref, "%d repeated" % num)
    env.cover("after " + hist[0])
    if env.params.get("shape"):
        env.cover(env.params["shape"] + " message after a full one")


def keep(env):
    num, bare, v = (env.params[x] for x in ("num", "bare", "v"))
    d = decoder(env, bare)
    a = d.decode(frame(env, make(env, num, "a", v)))
    ref = snap(a)
    b = d.decode(frame(env, make(env, num, "b", v + 1)))
    d.decode(frame(env, cut(env, num, "c")))
    d.decode(frame(env, make(env, num, "d", v + 2, wide=False)))
    env.check(a is not None and b is not None and a is not b, "%d: a block of its own" % num)
    env.eq(snap(a), ref, "%d: an earlier block stays as it was" % num)
    env.cover("keep")


def deep(env):
    """After hundreds of messages (fixed contents) of the same number or of all kinds: the same result; the first block unchanged."""
    num, bare, v, n = (env.params[x] for x in ("num", "bare", "v", "n"))
    f = frame(env, make(env, num, "m", v))
    ref = snap(decoder(env, bare).decode(f))
    d = decoder(env, bare)
    first = d.decode(f)
    nums = [num] if env.params["same"] else MSMS + EPHS + BASES
    held = []
    for k in range(n):
        m = nums[(k + v) % len(nums)]
        p = fixed(env, k, lambda e: cut(e, m, "c", 3) if k % 9 == 4 else make(e, m, "h%d_" % k, v + k % 7, wide=k % 2 == 0))
        b = d.decode(frame(env, p))
        env.check((b is None) == (k % 9 == 4), "filler decodes")
        if k in (0, 1, n // 2, n - 1) and b is not None:
            held.append((b, snap(b)))
    env.eq(snap(d.decode(f)), ref, "%d after a long history" % num)
    env.eq(snap(first), ref, "%d: the first block stays" % num)
    for b, r in held:
        env.eq(snap(b), r, "blocks of the history stay")
    env.cover("deep")


def own(env):
    num, bare, v = (env.params[x] for x in ("num", "bare", "v"))
    d = decoder(env, bare)
    f = frame(env, make(env, num, "a", v))
    a = d.decode(f)
    ref = snap(a)
    spoil(a)
    env.eq(snap(d.decode(f)), ref, "%d: blocks share nothing" % num)
    env.cover("own")


def print_(env):
    num, mode, v = (env.params[x] for x in ("num", "mode", "v"))
    wd = env.workdir()
    c = converter(env, mode, wd, margo={"half_cycle_enable": True, "lock_time_enable": True}, jsonc={"enable_hdr_data": True, "enable_aux_data": True})
    b = c.decode(frame(env, make(env, num, "a", v)))
    env.check(b is not None, "%d decodes" % num)
    if b is None:
        return
    ref = snap(b)
    c.print(b)
    env.eq(snap(b), ref, "%d: printing leaves the block as it is (%s)" % (num, mode))
    c.print(b)
    c.release()
    for f in env.listing(wd):
        if f.endswith(".obs"):
            lines = env.read(wd + "/" + f).split("\n")
            env.check(len(lines) == 5, "two rows")
            if len(lines) == 5:
                env.eq(lines[3], lines[2], "printed twice, two equal rows")
    env.cover("print " + mode)


globals()["print"] = print_
