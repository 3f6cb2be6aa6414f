"""C14: MARGO observation files."""
from fractions import Fraction as Fr
from harness.common import frame
from harness.common import fixed
from harness.conv import MODS, NAMES, MSMS, converter, msm_msg, run, split
from harness.c10 import flags, locks, pick, usual
from harness.msm import C_MS, GNSS, SAT, SGN, SIGNALS, Msg, invalid, lock_time, number

MODULES = MODS
BOUNDS = ("modes MARGO and JARGO; task 'one': each of the 49 MSM numbers, several satellites and signals with gaps, values symbolic and present, "
          "half-cycle and lock-time controls free; task 'gaps': one or two cells, every validity marker, half-cycle flag and control free; task "
          "'edge': satellites at and beyond the last column of each system; task 'many': sequences of 2..5 messages of equal and different "
          "numbers and different satellites, also with the folder of one system that cannot be made, and into a folder with longer files of an earlier conversion; task 'full': all satellites of the table in one message; task 'rows': 140..300 messages (thorough 1100), the middle ones with fixed contents; default GLONASS frequency channels (others: C24)")
OUTSIDE = "output files that cannot be created one by one (whole folders are inside); message times outside the week (C15)"
ASSUMPTIONS = ["IEEE-754 doubles; printed values compared with the exact rational within half a unit of the last printed digit plus 1e-6"]
MAXSAT = {"G": 32, "R": 24, "E": 36, "S": 38, "Q": 5, "B": 37, "I": 14}
FORM = {"C": (15, 3), "L": (15, 4), "D": (15, 3), "S": (15, 2), "T": (10, 3), "A": (4, 0)}
IDS = "CLDSTA"
LIT = {1: 1, 2: -4, 3: 5, 4: 6, 5: 1, 6: -4, 7: 5, 8: 6, 9: -2, 10: -7, 11: 0, 12: -1, 13: -2, 14: -7, 15: 0, 16: -1, 17: 4, 18: -3, 19: 3,
       20: 2, 21: 4, 22: -3, 23: 3, 24: 2}
SLOP = Fr(1, 10 ** 6)


def TASKS(tier):
    q = tier == "quick"
    t = []
    for i, num in enumerate(MSMS):
        for mode in (("MARGO", "JARGO")[i % 2],) if q else ("MARGO", "JARGO"):
            t.append({"fn": "one", "num": num, "mode": mode, "v": i})
    for i, num in enumerate(MSMS):
        t.append({"fn": "gaps", "num": num, "v": i, "n": 1})
        if not q or i % 3 == 0:
            t.append({"fn": "gaps", "num": num, "v": i, "n": 2})
    for i, g in enumerate(GNSS):
        for m in ((i % 7 + 1,) if q else range(1, 8)):
            t.append({"fn": "edge", "gnss": g, "msm": m, "v": i})
    seqs = [[1077, 1077, 1077], [1077, 1087, 1077, 1087], [1074, 1077, 1074], [1097, 1107, 1117, 1127, 1137], [1084, 1084], [1071, 1072, 1073, 1071],
            [1125, 1124, 1125], [1136, 1136, 1132]]
    for s in seqs:
        for v in ((0,) if q else range(4)):
            t.append({"fn": "many", "nums": s, "v": v})
    t += [{"fn": "many", "nums": s, "v": 3 + i, "same": True} for i, s in enumerate([[1077, 1077, 1077], [1084, 1071, 1084, 1071], [1123, 1123]])]
    for i, g in enumerate(GNSS):
        for m in ((3 + i % 5, 1 + i % 7) if q else range(1, 8)):
            t.append({"fn": "full", "gnss": g, "msm": m, "v": i})
    t += [{"fn": "rows", "nums": ns, "n": n, "v": i} for i, (ns, n) in enumerate([([1077], 300), ([1084], 260), ([1123, 1122, 1121], 270),
                                                                                 ([1074, 1085, 1096, 1107, 1111, 1122, 1133], 140), ([1125], 1100 if not q else 260)])]
    t += [{"fn": "many", "nums": MSMS + MSMS[::-1], "v": 0, "same": True}]
    t += [{"fn": "many", "nums": s, "v": i, "same": True, "bad": b} for i, (b, s) in enumerate([("G", [1077, 1087, 1077, 1087]), ("R", [1097, 1087, 1097, 1124, 1084, 1097]),
                                                                                             ("B", [1127, 1071, 1071])])]
    t += [{"fn": "many", "nums": s, "v": i, "old": True} for i, s in enumerate([[1077], [1084, 1077], [1123, 1123, 1095]])]
    return t


def COVERS(tier):
    return ["one", "gap", "ambiguous phase left out", "ambiguous phase shown", "lock time file", "indicator file", "beyond the last column",
            "satellite sets differ", "all satellites", "many rows", "failing output", "earlier files"]


def carrier(g, sig, sat, lit=LIT):
    f = Fr(str(SIGNALS[g][sig][1]))
    if g == "R":
        f += (Fr(9, 16) if SIGNALS[g][sig][0][0] == "1" else Fr(7, 16)) * lit[sat]
    return f


def header(env, g, sig, kind, lines, lab, lit=LIT):
    w, fr = FORM[kind]
    n = MAXSAT[g]
    if len(lines) < 2:
        return env.fail(lab + ": two header lines")
    env.check(lines[0] == "%10d," % IDS.index(kind) + ",".join("%*d" % (w, s) for s in range(1, n + 1)), lab + ": header line 1")
    w, fr = max(w, 9), max(fr, 4)
    c = env.cells(lines[1])
    env.check(len(c) == n + 1, lab + ": header line 2 has a frequency per column")
    if len(c) != n + 1:
        return
    env.check(c[0][0] == 10 and all(x[0] == w and x[2] == fr for x in c[1:]) and c[0][2] == fr, lab + ": header line 2 format")
    tol = Fr(1, 2 * 10 ** fr) + SLOP
    env.close(c[0][1], Fr(str(SIGNALS[g][sig][1])), tol, lab + ": centre frequency")
    for s in range(1, n + 1):
        env.close(c[s][1], carrier(g, sig, s, lit), tol, lab + ": frequency of satellite %d" % s)


def values(env, m, hc, lt, lit=LIT):
    """{(kind, signal id): {satellite: (may be shown, must be shown, value)}} after the RTCM definitions."""
    wid = {n: w for n, w, _ in SGN[m.msm]}
    high = m.msm in (6, 7)
    out = {}

    def put(kind, c, ok, val):
        i, j = m.cells[c]
        must = ok
        if m.msm in (2, 3) and kind in "LAT":
            # left open (see C11): what becomes of the other values of an MSM2/MSM3 cell that lacks one
            must = env.all([ok] + [m.sgn[n][c] != invalid(wid[n]) for n in ("rng_fine", "phase_fine") if n in wid])
        out.setdefault((kind, m.sigs[j]), {})[m.sats[i]] = (ok, must, val)
    for c, (i, j) in enumerate(m.cells):
        sat = m.sats[i]
        rough = m.sat["rng_rough"][i]
        ms = m.sat["rng_ms"][i] if m.msm > 3 else None
        rok = ms != 255 if m.msm > 3 else True
        lead = [(rough, C_MS / 1024)] + ([(ms, C_MS)] if ms is not None else [])
        if "rng_fine" in wid:
            f = m.sgn["rng_fine"][c]
            put("C", c, env.all([rok, f != invalid(wid["rng_fine"])]), env.lin(0, *lead, (f, C_MS / (1 << (29 if high else 24)))))
        lam = Fr(299792458) / (carrier(m.gnss, m.sigs[j], sat, lit) * 10 ** 6) if sat <= MAXSAT[m.gnss] else Fr(1)
        if "phase_fine" in wid:
            f = m.sgn["phase_fine"][c]
            h = m.sgn["hc_indc"][c]
            put("L", c, env.all([rok, f != invalid(wid["phase_fine"]), env.any([hc, h == 0])]),
                env.lin(0, *[(x, k / lam) for x, k in lead + [(f, C_MS / (1 << (31 if high else 29)))]]))
            if hc:
                put("A", c, True, h)
            if lt:
                put("T", c, True, env.lin(0, (lock_time(env, m.msm, m.sgn["lock_time"][c]), Fr(1, 1000))))
        if "c2n" in wid:
            put("S", c, True, env.lin(0, (m.sgn["c2n"][c], Fr(1, 16) if high else 1)))
        if "phase_rate_fine" in wid:
            rr, rf = m.sat["phase_rate_rough"][i], m.sgn["phase_rate_fine"][c]
            put("D", c, env.all([rr != invalid(14), rf != invalid(15)]), env.lin(0, (rr, -1 / lam), (rf, Fr(-1, 10000) / lam)))
    return out


def row(env, line, m, kind, sig, exp, when, lab):
    g = m.gnss
    w, fr = FORM[kind]
    c = env.cells(line)
    n = MAXSAT[g]
    env.check(len(c) == n + 1, lab + ": a column per satellite")
    if len(c) != n + 1:
        return
    env.check(c[0][0] == 10, lab + ": time column")
    if when is not None:
        env.eq(c[0][1], when, lab + ": time")
    env.check(all(x[0] == w and (x[2] == fr or env.isnan(x[1])) for x in c[1:]), lab + ": number format")
    for s in range(1, n + 1):
        v = c[s][1]
        ok, must, val = exp.get(s, (False, False, 0))
        here = not env.isnan(v)
        env.check(ok if here else env.inv(must), lab + ": satellite %d %s" % (s, "has a value" if here else "may be left out"))
        if here:
            env.close(v, val, Fr(1, 2 * 10 ** fr) + SLOP, lab + ": value of satellite %d" % s)


def fname(g, msm, kind, sig):
    return "%s/%s%s%s_MSM%d.obs" % (NAMES[g], g, kind, SIGNALS[g][sig][0], msm)


def conv(env, mode, wd, hc, lt, msgs, times=None, lit=LIT, maybe=False, extra=None, bad=None, old=False):
    """Convert; check every file. maybe: a file without any value may be missing. bad: the system whose folder cannot be made. old: an earlier
    conversion left longer files of the same names."""
    if old:
        c = converter(env, mode, wd, margo=dict({"half_cycle_enable": hc, "lock_time_enable": lt}, **(extra or {})))
        run(env, c, [m.payload for m in msgs * 2])
        c.release()
    if bad:
        with open(wd + "/" + NAMES[bad], "w") as f:
            f.write("x")
    c = converter(env, mode, wd, margo=dict({"half_cycle_enable": hc, "lock_time_enable": lt}, **(extra or {})))
    out = run(env, c, [m.payload for m in msgs])
    env.check(all(type(b).__name__ == "ObservablesMSM" for b in out), "all messages decode")
    c.release()
    if any(b is None for b in out):
        return False
    files = {}
    for k, m in enumerate(msgs):
        if m.gnss == bad:
            continue
        for (kind, sig), exp in values(env, m, hc, lt, lit).items():
            files.setdefault((m.gnss, m.msm, kind, sig), []).append((k, m, exp))
    names = {fname(*f): f for f in files}
    have = env.listing(wd)
    env.check(all(x in names or bad and x == NAMES[bad] for x in have), "no file without data")
    for n, f in names.items():
        rows = files[f]
        lab = "%s%s MSM%d" % (f[2], SIGNALS[f[0]][f[3]][0], f[1])
        if n not in have:
            if maybe:
                for _, m, exp in rows:
                    env.check(env.all([env.inv(x[1]) for x in exp.values()]), lab + ": missing only without data")
            else:
                env.fail(lab + ": file is missing")
            continue
        t = env.read(wd + "/" + n)
        env.check(t[-1:] == "\n", lab + ": lines end")
        lines = t.split("\n")[:-1]
        header(env, f[0], f[3], f[2], lines, lab, lit)
        env.check(len(lines) == 2 + len(rows), lab + ": one row per message")
        if len(lines) == 2 + len(rows):
            for ln, (k, m, exp) in zip(lines[2:], rows):
                row(env, ln, m, f[2], f[3], exp, times[k] if times else None, lab)
        if f[2] == "T":
            env.cover("lock time file")
        if f[2] == "A":
            env.cover("indicator file")
    s = c.get_statistics()
    env.eq((s.decoding_attempts, s.decoding_errors, s.printing_attempts, s.printing_errors), (len(msgs), 0, len(msgs), sum(m.gnss == bad for m in msgs)), "counters")
    return True


def week(env, m):
    """Keep the epoch inside a week and away from its end (C15 has the conversion); returns the printed GPS time, if plain."""
    t = m.hdr["time"]
    if m.gnss == "R":
        env.assume(env.all([t & 0x7FFFFFF >= 10800000, t & 0x7FFFFFF < 86400000, t >> 27 < 7]))
        return None
    env.assume(t < 604000000)
    return t + 14000 if m.gnss == "B" else t


def one(env):
    num, mode, v = env.params["num"], env.params["mode"], env.params["v"]
    g, msm = split(num)
    hc, lt = bool(env.bool("hc")), bool(env.bool("lt"))
    ns = min(2 + v % 2, len(SIGNALS[g]))
    nsat = 2 + v % 2
    cells = [(i, j) for i in range(nsat) for j in range(ns) if (i + 2 * j + v) % 4]
    m = msm_msg(env, num, "m", v, nsat=nsat, nsig=ns, cells=cells)
    week(env, m)
    for c in range(2, len(m.cells)):
        if "hc_indc" in m.sgn:
            env.assume(m.sgn["hc_indc"][c] == (c + v) % 2)
    if conv(env, mode, env.workdir(), hc, lt, [m]):
        env.cover("one")
        if "hc_indc" in m.sgn and m.sgn["hc_indc"][0] == 1:
            env.cover("ambiguous phase shown" if hc else "ambiguous phase left out")


def gaps(env):
    num, v, n = env.params["num"], env.params["v"], env.params["n"]
    g, msm = split(num)
    hc, lt = bool(env.bool("hc")), bool(env.bool("lt"))
    if n == 1:
        m = msm_msg(env, num, "m", v, free=True)
    elif v % 2:
        m = msm_msg(env, num, "m", v, nsat=2, nsig=1, free=True)
    else:
        m = msm_msg(env, num, "m", v, nsat=1, nsig=2, free=True)
    week(env, m)
    if conv(env, "MARGO", env.workdir(), hc, lt, [m], maybe=True):
        env.cover("gap")


def edge(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    top = MAXSAT[g]
    sats = [top, top + 1, 64]
    sigs = pick(g, 2, v)
    cells = [(i, j) for i in range(len(sats)) for j in range(len(sigs))]
    pin = locks(msm, len(cells), v)
    for c in range(len(cells)):
        pin[("hc_indc", c)] = (c + v) % 2
    m = Msg(env, g, msm, sats, sigs, cells, hdr=flags(v), pin=pin)
    usual(env, m, range(len(m.cells)), range(len(sats)))
    week(env, m)
    if conv(env, "MARGO", env.workdir(), bool(env.bool("hc")), bool(env.bool("lt")), [m]):
        env.cover("beyond the last column")


def full(env):
    """Every satellite of the table, and those beyond it, in one message."""
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    sats = list(range(1, min(64, MAXSAT[g] + 3) + 1))
    m = plain_msg(env, g, msm, sats, pick(g, 1, v), v, "m")
    if conv(env, "MARGO", env.workdir(), v % 2 == 0, v % 3 == 0, [m], [week(env, m)]):
        env.cover("all satellites")


def plain_msg(env, g, msm, sats, sigs, v, tag):
    cells = [(i, j) for i in range(len(sats)) for j in range(len(sigs))]
    pin = locks(msm, len(cells), v)
    for c in range(len(cells)):
        pin[("hc_indc", c)] = (c + v) % 3 == 0
    m = Msg(env, g, msm, sats, sigs, cells, hdr=flags(v), pin=pin, tag=tag)
    usual(env, m, range(len(cells)), range(len(sats)))
    week(env, m)
    return m


def rows(env):
    """Many messages, with fixed contents except at both ends."""
    nums, n, v = env.params["nums"], env.params["n"], env.params["v"]
    msgs, times = [], []
    for k in range(n):
        g, msm = split(nums[k % len(nums)])
        mk = lambda e: plain_msg(e, g, msm, sorted({1 + (k + v) % MAXSAT[g], 1 + 7 * k % MAXSAT[g]}), pick(g, 1, v), v, "m%d_" % k)
        m = mk(env) if k < 2 or k > n - 3 else fixed(env, k, mk)
        msgs.append(m)
        times.append(week(env, m))
    if conv(env, "JARGO" if v % 2 else "MARGO", env.workdir(), v % 2 == 0, False, msgs, times):
        env.cover("many rows")


def many(env):
    nums, v = env.params["nums"], env.params["v"]
    msgs = []
    times = []
    first = {}
    for k, num in enumerate(nums):
        if env.params.get("same") and num in first:
            msgs.append(msgs[first[num]])
            times.append(times[first[num]])
            continue
        first[num] = k
        g, msm = split(num)
        sats = sorted({1 + (5 * k + v + 2 * i) % min(14, MAXSAT[g]) for i in range(1 + k % 3)})
        sigs = pick(g, 1 + k % 2, v)
        cells = [(i, j) for i in range(len(sats)) for j in range(len(sigs))]
        pin = locks(msm, len(cells), v)
        for c in range(len(cells)):
            pin[("hc_indc", c)] = (c + v + k) % 3 == 0
        m = Msg(env, g, msm, sats, sigs, cells, hdr=flags(v + k), pin=pin, tag="m%d_" % k)
        usual(env, m, range(len(m.cells)), range(len(sats)))
        times.append(week(env, m))
        msgs.append(m)
    if conv(env, "JARGO" if v % 2 else "MARGO", env.workdir(), v % 2 == 0, True, msgs, times, bad=env.params.get("bad"), old=env.params.get("old")):
        env.cover("satellite sets differ")
        if env.params.get("old"):
            env.cover("earlier files")
        if env.params.get("bad"):
            env.cover("failing output")
