"""C10: MSM4..MSM7 observables in physical units."""
from fractions import Fraction as Fr
from harness.common import MODS, decoder, frame
from harness.c09 import spread
from harness.msm import (GNSS, SGN, SAT, SIGNALS, C_MS, STEER, CLKEXT, INDC, INTR, Msg, invalid, lock_time, number)

MODULES = MODS
BOUNDS = ("MSM4..MSM7 of all 7 systems. Task 'grid': every defined signal of the system x several satellites (up to 64 cells, all 64 satellite "
          "positions over the tasks), every field symbolic except that values are present and lock-time codes are fixed; task 'pair': two cells "
          "(two satellites x one signal or one satellite x two signals), every validity marker free; task 'focus': one of up to four cells "
          "free; task 'lock': every lock-time code; task 'lead': every header field free; task 'empty'")
OUTSIDE = "signal identifiers without a defined code in the repository's tables"
ASSUMPTIONS = ["IEEE-754 double arithmetic; lengths compared with the exact rational within 1 micrometre, rates within 1 micrometre/s"]
TOL = Fr(1, 10 ** 6)


def TASKS(tier):
    t = []
    q = tier == "quick"
    for msm in (4, 5, 6, 7):
        for gi, g in enumerate(GNSS):
            r = gi + 2 * msm
            for v in (range(3) if q else range(6)):
                t.append({"fn": "grid", "gnss": g, "msm": msm, "v": 7 * r + 11 * v})
            for sh in (r % 2,) if q else (0, 1):
                t.append({"fn": "pair", "gnss": g, "msm": msm, "shape": sh, "v": r})
            for fo in (r % 3,) if q else range(3):
                t.append({"fn": "focus", "gnss": g, "msm": msm, "focus": fo, "v": r + 1})
            if not q or gi in (msm % 7, (msm + 3) % 7):
                t.append({"fn": "lock", "gnss": g, "msm": msm, "v": r})
                t.append({"fn": "lead", "gnss": g, "msm": msm, "v": r})
            t.append({"fn": "empty", "gnss": g, "msm": msm})
    return t


def COVERS(tier):
    return ["%s MSM%d" % (f, m) for m in (4, 5, 6, 7) for f in ("grid", "pair", "focus", "lock", "lead", "empty")] + \
        ["no rough range", "no fine range", "no fine phase", "half cycle"]


def header(env, got, m):
    h = m.hdr
    num = number(m.gnss, m.msm)
    env.check(type(got).__name__ == "ObservablesMSM", "%d decodes" % num)
    if got is None:
        return False
    env.eq(got.atr.msg_number, num, "message number")
    env.eq(got.atr.gnss, m.gnss, "system")
    env.eq(got.atr.subset, "MSM%d" % m.msm, "message type")
    glo = m.gnss == "R"
    env.eq(got.hdr.time, h["time"] & 0x7FFFFFF if glo else h["time"], "time")
    env.eq(got.hdr.day, h["time"] >> 27 if glo else 0, "day of week")
    env.eq(tuple(got.hdr.sats), tuple(m.sats), "satellite list")
    a = got.aux
    for n in ("rs_id", "MMB", "IODS"):
        env.eq(getattr(a, n), h[n], n)
    for n, tab in (("clk_steer", STEER), ("clk_ext", CLKEXT), ("smth_indc", INDC), ("smth_intr", INTR)):
        d = getattr(a, n)
        env.eq(d["code"], h[n], n + " code")
        env.check(env.any([env.all([h[n] == i, d["val"] == s]) for i, s in enumerate(tab)]), n + " meaning")
    want = {SIGNALS[m.gnss][s][0]: SIGNALS[m.gnss][s][1] for s in m.sigs} if m.sats else {}
    env.check(set(got.hdr.signals) == set(want), "signal list")
    for s, f in want.items():
        if s in got.hdr.signals:
            env.close(got.hdr.signals[s], Fr(f), Fr(1, 10 ** 6), "carrier " + s)
    return True


def entry(env, table, m, i, j, valid, value, tol, lab):
    """table[signal][satellite] is there exactly when valid, and has the value."""
    sig, sat = SIGNALS[m.gnss][m.sigs[j]][0], m.sats[i]
    here = sig in table and sat in table[sig]
    lab = "%s of cell %d,%d" % (lab, i, j)
    env.check(valid if here else env.inv(valid), lab + (" is valid" if here else " may be left out"))
    if here:
        if tol is None:
            env.eq(table[sig][sat], value, lab)
        else:
            env.close(table[sig][sat], value, tol, lab)


def exact(env, m, table, lab):
    names = {SIGNALS[m.gnss][m.sigs[j]][0]: [] for j in range(len(m.sigs))}
    for i, j in m.cells:
        names[SIGNALS[m.gnss][m.sigs[j]][0]].append(m.sats[i])
    ok = all(s in names and set(table[s]) <= set(names[s]) for s in table)
    env.check(ok, lab + ": nothing outside the cell mask")


def observables(env, got, m):
    wid = {n: w for n, w, _ in SGN[m.msm]}
    high = m.msm in (6, 7)
    o = got.obs
    for n in ("rng", "phs", "dpl", "c2n", "ltm", "hca"):
        exact(env, m, getattr(o, n), n)
    for c, (i, j) in enumerate(m.cells):
        ms, rough = m.sat["rng_ms"][i], m.sat["rng_rough"][i]
        rok = ms != 255
        fine = m.sgn["rng_fine"][c]
        entry(env, o.rng, m, i, j, env.all([rok, fine != invalid(wid["rng_fine"])]),
              env.lin(0, (ms, C_MS), (rough, C_MS / 1024), (fine, C_MS / (1 << (29 if high else 24)))), TOL, "pseudorange")
        ph = m.sgn["phase_fine"][c]
        entry(env, o.phs, m, i, j, env.all([rok, ph != invalid(wid["phase_fine"])]),
              env.lin(0, (ms, C_MS), (rough, C_MS / 1024), (ph, C_MS / (1 << (31 if high else 29)))), TOL, "phase range")
        if m.msm in (5, 7):
            rr, rf = m.sat["phase_rate_rough"][i], m.sgn["phase_rate_fine"][c]
            entry(env, o.dpl, m, i, j, env.all([rr != invalid(14), rf != invalid(15)]), env.lin(0, (rr, 1), (rf, Fr(1, 10000))), TOL,
                  "phase range rate")
        entry(env, o.c2n, m, i, j, True, env.lin(0, (m.sgn["c2n"][c], Fr(1, 16) if high else 1)), TOL, "C/N0")
        entry(env, o.ltm, m, i, j, True, lock_time(env, m.msm, m.sgn["lock_time"][c]), None, "lock time")
        entry(env, o.hca, m, i, j, True, m.sgn["hc_indc"][c] != 0, None, "half-cycle flag")
    if m.msm in (4, 6):
        env.check(len(o.dpl) == 0, "no rates in MSM%d" % m.msm)


def run(env, m, cover):
    got = decoder(env, False).decode(frame(env, m.payload))
    if header(env, got, m):
        observables(env, got, m)
        env.observe("time", got.hdr.time)
        env.observe("rng", [v for t in got.obs.rng.values() for v in t.values()])
        env.cover("%s MSM%d" % (cover, m.msm))
    return got


def markers(msm):
    return [(n, w, k) for k, tab in (("sat", SAT), ("sgn", SGN)) for n, w, s in tab[msm] if s]


def usual(env, m, cells, sats):
    """Assume the values of these cells and satellites are present."""
    for n, w, s in SAT[m.msm]:
        for i in sats:
            if n == "rng_ms":
                env.assume(m.sat[n][i] != 255)
            elif s:
                env.assume(m.sat[n][i] != invalid(w))
    for n, w, s in SGN[m.msm]:
        for c in cells:
            if s:
                env.assume(m.sgn[n][c] != invalid(w))


def flags(v):
    """The enumerated header fields, fixed (they are free in 'lead')."""
    return {"clk_steer": v % 4, "clk_ext": (v // 4) % 4, "smth_indc": (v // 3) % 2, "smth_intr": v % 8}


def locks(msm, n, v):
    top = 1024 if msm in (6, 7) else 16
    return {("lock_time", i): (37 * i + 11 * v + 64 * (i % 11)) % top for i in range(n)}


def pick(g, n, v):
    s = sorted(SIGNALS[g])
    return sorted(s[(v + 3 * i) % len(s)] for i in range(n)) if n < len(s) else s


def grid(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    sigs = sorted(SIGNALS[g])
    per = {4: 100, 5: 75, 6: 70, 7: 60}[msm]
    ns = max(1, min(64 // len(sigs), 12))
    sats = sorted({(v + 23 * i) % 64 + 1 for i in range(ns)})
    n = len(sats) * len(sigs)
    cells = spread(n, min(n, per), v) if v % 3 else spread(n, (2 * n + 2) // 3, v)
    cells = [(c // len(sigs), c % len(sigs)) for c in cells]
    m = Msg(env, g, msm, sats, sigs, cells, hdr=flags(v), pin=locks(msm, len(cells), v))
    usual(env, m, range(len(cells)), range(len(sats)))
    run(env, m, "grid")


def pair(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    if env.params["shape"]:
        m = Msg(env, g, msm, [1 + v % 40, 64 - v % 20], pick(g, 1, v), [(0, 0), (1, 0)], hdr=flags(v), pin=locks(msm, 2, v))
    else:
        m = Msg(env, g, msm, [1 + v % 64], pick(g, 2, v), [(0, 0), (0, 1)], hdr=flags(v), pin=locks(msm, 2, v))
    run(env, m, "pair")


def focus(env):
    g, msm, v, fo = (env.params[x] for x in ("gnss", "msm", "v", "focus"))
    cells = [[(0, 0), (1, 1)], [(0, 1), (1, 0), (1, 1)], [(0, 0), (0, 1), (1, 1)]][v % 3]
    fo = fo % len(cells)
    m = Msg(env, g, msm, [2 + v % 30, 33 + v % 30], pick(g, 2, v), cells, hdr=flags(v), pin=locks(msm, len(cells), v))
    usual(env, m, [i for i in range(len(cells)) if i != fo], [1 - cells[fo][0]])
    got = run(env, m, "focus")
    if got is None:
        return
    if m.sat["rng_ms"][cells[fo][0]] == 255:
        env.cover("no rough range")
    elif m.sgn["rng_fine"][fo] == invalid({n: w for n, w, _ in SGN[msm]}["rng_fine"]):
        env.cover("no fine range")
    elif m.sgn["phase_fine"][fo] == invalid({n: w for n, w, _ in SGN[msm]}["phase_fine"]):
        env.cover("no fine phase")
    elif m.sgn["hc_indc"][fo] == 1:
        env.cover("half cycle")


def lock(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    m = Msg(env, g, msm, [1 + v % 64], pick(g, 1, v), [(0, 0)], hdr=flags(v))
    usual(env, m, [0], [0])
    run(env, m, "lock")


def lead(env):
    """Every header field free."""
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    m = Msg(env, g, msm, [1 + v % 64], pick(g, 1, v), [(0, 0)], pin=locks(msm, 1, v))
    usual(env, m, [0], [0])
    run(env, m, "lead")


def empty(env):
    m = Msg(env, env.params["gnss"], env.params["msm"], [], pick(env.params["gnss"], 2, 1), [], hdr=flags(env.params["msm"]))
    got = decoder(env, False).decode(frame(env, m.payload))
    if header(env, got, m):
        env.check(not any(getattr(got.obs, n) for n in ("rng", "phs", "dpl", "c2n", "ltm", "hca")), "no observables")
        env.cover("empty MSM%d" % m.msm)
