"""C24: carrier frequencies of MARGO files, GLONASS frequency channels."""
from harness.conv import MODS, split
from harness.c10 import flags, locks, usual
from harness.c14 import MAXSAT, conv, week
from harness.msm import GNSS, SIGNALS, Msg, number

MODULES = MODS
BOUNDS = ("task 'signals': every signal with a defined code of every system (each satellite column of the header, one observed satellite); task 'channels': "
          "every pair of GLONASS satellite 1..24 and channel -7..6, the four FDMA signals, MSM2..MSM7; task 'flat': all satellites on one channel, or all but one; task 'change': two conversions with different "
          "channel tables do not influence each other; observables symbolic")
OUTSIDE = "channel numbers outside -7..6"
ASSUMPTIONS = ["IEEE-754 doubles; printed values compared with the exact rational within half a unit of the last printed digit plus 1e-6"]


def TASKS(tier):
    q = tier == "quick"
    t = []
    for i, g in enumerate(GNSS):
        for m in ((2, 5, 7) if q else range(1, 8)):
            t.append({"fn": "signals", "gnss": g, "msm": m, "v": i + m})
    for m in ((5, 7) if q else range(2, 8)):
        for k in range(14):
            t.append({"fn": "channels", "msm": m, "k": k})
    for k in range(3 if q else 14):
        t.append({"fn": "change", "k": k})
    # tables with the same channel for all satellites, and all but one
    for k in range(-7, 7):
        t.append({"fn": "flat", "k": k, "but": None})
        t.append({"fn": "flat", "k": k, "but": 1 + (k + 7) * 5 % 24})
    return t


def COVERS(tier):
    return ["signals " + g for g in GNSS] + ["channels", "change", "flat"]


def msg(env, g, msm, sats, sigs, v, tag=""):
    cells = [(i, j) for i in range(len(sats)) for j in range(len(sigs))]
    pin = locks(msm, len(cells), v)
    for c in range(len(cells)):
        pin[("hc_indc", c)] = 0
    m = Msg(env, g, msm, sats, sigs, cells, hdr=flags(v), pin=pin, tag=tag)
    usual(env, m, range(len(cells)), range(len(sats)))
    week(env, m)
    return m


def signals(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    m = msg(env, g, msm, [1 + v % MAXSAT[g]], sorted(SIGNALS[g]), v)
    if conv(env, "MARGO", env.workdir(), False, False, [m]):
        env.cover("signals " + g)


def table(k):
    return {s: (s * 3 + k) % 14 - 7 for s in range(1, 25)}


def channels(env):
    msm, k = env.params["msm"], env.params["k"]
    lit = table(k)
    # (two messages, so that all 24 satellites fit into 64 cells each)
    ms = [msg(env, "R", msm, list(range(a, a + 12)), [2, 3, 8, 9] if a == 1 or msm < 5 else [2, 8], k, "m%d_" % a) for a in (1, 13)]
    if conv(env, "MARGO", env.workdir(), False, False, ms, lit=lit, extra={"glo_lit_tab": lit}):
        env.cover("channels")


def flat(env):
    """All satellites on the same channel, or all but one, which has any channel."""
    k, but = env.params["k"], env.params["but"]
    lit = {s: k for s in range(1, 25)}
    if but:
        lit[but] = env.fork_int(env.uint("ch", 4)) - 7
        env.assume(lit[but] < 7)
    m = msg(env, "R", 5, [but or 3, 24 if but != 24 else 5], [2, 8], k + 7)
    if conv(env, "MARGO", env.workdir(), False, False, [m], lit=lit, extra={"glo_lit_tab": dict(lit)}):
        env.cover("flat")


def change(env):
    k = env.params["k"]
    m = msg(env, "R", 7, [2, 9, 24], [2, 3, 8, 9], k)
    a, b = table(k), table(k + 5)
    ok = conv(env, "MARGO", env.workdir(), False, False, [m], lit=a, extra={"glo_lit_tab": a})
    ok = conv(env, "JARGO", env.workdir(), False, False, [m], lit=b, extra={"glo_lit_tab": b}) and ok
    ok = conv(env, "MARGO", env.workdir(), False, False, [m]) and ok
    if ok:
        env.cover("change")
