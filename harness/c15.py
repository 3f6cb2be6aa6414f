"""C15: MARGO rows carry GPS time of week."""
from harness.conv import MODS, converter, run
from harness.c10 import flags, locks, pick, usual
from harness.c14 import LIT, conv
from harness.msm import GNSS, Msg

MODULES = MODS
BOUNDS = ("task 'row': every epoch of the week of each system (GLONASS: every day 0..6, every time of day up to 86400999 ms) and, for GLONASS, every "
          "GPS-UTC difference of -64..127 s (quick: for MSM7, 10..25 s for the others), through MARGO and JARGO, MSM types 1..7; task 'pair': two epochs of two systems in one conversion")
OUTSIDE = "GLONASS day of week 7 (unknown), times of day beyond a leap second, week times beyond the week"
ASSUMPTIONS = []
DAY, WEEK = 86400000, 604800000


def TASKS(tier):
    q = tier == "quick"
    t = []
    for i, g in enumerate(GNSS):
        for m in ((1, 4, 7) if q and g not in "RB" else range(1, 8)):
            for mode in (("MARGO", "JARGO")[(i + m) % 2],) if q else ("MARGO", "JARGO"):
                for lo, hi in ([(x, x + 23) for x in range(-64, 128, 24)] if g == "R" and (m == 7 or not q) else [(10, 25)]):
                    t.append({"fn": "row", "gnss": g, "msm": m, "mode": mode, "lo": lo, "hi": hi})
    for a in GNSS:
        for b in "RB" if q else GNSS:
            t.append({"fn": "pair", "a": a, "b": b})
    return t


def COVERS(tier):
    return ["unchanged", "BeiDou", "BeiDou wraps", "GLONASS", "GLONASS wraps"]


def message(env, g, msm, tag, shift):
    """One-cell message and its GPS time of week."""
    pin = locks(msm, 1, 1)
    pin[("hc_indc", 0)] = 0
    m = Msg(env, g, msm, [3], pick(g, 1, 0), [(0, 0)], hdr=flags(1), pin=pin, tag=tag)
    usual(env, m, [0], [0])
    t = m.hdr["time"]
    if g == "R":
        tod, day = t & 0x7FFFFFF, t >> 27
        env.assume(env.all([day < 7, tod < DAY + 1000]))
        w = tod + day * DAY - (10800 - shift) * 1000
        return m, env.ite(w < 0, w + WEEK, w), w < 0
    env.assume(t < WEEK)
    if g == "B":
        return m, env.ite(t + 14000 >= WEEK, t + 14000 - WEEK, t + 14000), t + 14000 >= WEEK
    return m, t, False


def row(env):
    g, msm, mode = env.params["gnss"], env.params["msm"], env.params["mode"]
    shift = 18
    if g == "R":
        lo, hi = env.params["lo"], env.params["hi"]
        s = env.uint("shift", 8)
        env.assume(s <= hi - lo)
        shift = env.fork_int(s) + lo
    m, w, wrap = message(env, g, msm, "", shift)
    env.check(env.all([w >= 0, w < WEEK]), "GPS time is inside the week")
    if conv(env, mode, env.workdir(), False, False, [m], [w], extra={"gps_utc_shift": shift}):
        if g == "B" or g == "R":
            n = "BeiDou" if g == "B" else "GLONASS"
            env.cover(n + " wraps" if wrap else n)
        else:
            env.cover("unchanged")


def pair(env):
    a, b = env.params["a"], env.params["b"]
    m1, w1, _ = message(env, a, 4, "a", 18)
    m2, w2, _ = message(env, b, 4 if a != b else 5, "b", 18)
    conv(env, "MARGO", env.workdir(), False, False, [m1, m2, m1], [w1, w2, w1])
