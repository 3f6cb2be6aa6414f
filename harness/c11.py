"""C11: MSM1..MSM3 observables in physical units."""
from fractions import Fraction as Fr
from harness.common import MODS, decoder, frame
from harness.c09 import spread
from harness.c10 import TOL, entry, exact, flags, header, locks, pick, usual
from harness.msm import GNSS, SIGNALS, C_MS, Msg, invalid, lock_time

MODULES = MODS
BOUNDS = ("MSM1..MSM3 of all 7 systems. Task 'grid': every defined signal x several satellites, values present; task 'pair': two cells, every "
          "marker free; task 'three': three cells of two satellites, every marker free; task 'lock': every lock-time code; task 'lead': every "
          "header field free; task 'empty'")
OUTSIDE = ("signal identifiers without a defined code in the repository's tables; whether MSM3 keeps the phase of a cell whose own code range "
           "is marked invalid (left open)")
ASSUMPTIONS = ["IEEE-754 double arithmetic; lengths compared with the exact rational within 1 micrometre"]


def TASKS(tier):
    t = []
    q = tier == "quick"
    for msm in (1, 2, 3):
        for gi, g in enumerate(GNSS):
            r = gi + 2 * msm
            for v in (range(4) if q else range(6)):
                t.append({"fn": "grid", "gnss": g, "msm": msm, "v": 7 * r + 11 * v})
            for sh in (0, 1):
                t.append({"fn": "pair", "gnss": g, "msm": msm, "shape": sh, "v": r})
            for sh in (r % 3,) if q else (0, 1, 2):
                t.append({"fn": "three", "gnss": g, "msm": msm, "shape": sh, "v": r + 1})
            if not q or gi in (msm % 7, (msm + 3) % 7):
                t.append({"fn": "lock", "gnss": g, "msm": msm, "v": r})
                t.append({"fn": "lead", "gnss": g, "msm": msm, "v": r})
            t.append({"fn": "empty", "gnss": g, "msm": msm})
    return t


def COVERS(tier):
    return ["%s MSM%d" % (f, m) for m in (1, 2, 3) for f in ("grid", "pair", "three", "lock", "lead", "empty")] + \
        ["no code range", "no phase range"]


def observables(env, got, m):
    o = got.obs
    for n in ("rng", "phs", "dpl", "c2n", "ltm", "hca"):
        exact(env, m, getattr(o, n), n)
    for c, (i, j) in enumerate(m.cells):
        rough = m.sat["rng_rough"][i]
        code = True
        if m.msm in (1, 3):
            fine = m.sgn["rng_fine"][c]
            code = fine != invalid(15)
            entry(env, o.rng, m, i, j, code, env.lin(0, (rough, C_MS / 1024), (fine, C_MS / (1 << 24))), TOL, "pseudorange")
        if m.msm in (2, 3):
            ph = m.sgn["phase_fine"][c]
            sig, sat = SIGNALS[m.gnss][m.sigs[j]][0], m.sats[i]
            here = sig in o.phs and sat in o.phs[sig]
            lab = " of cell %d,%d" % (i, j)
            if here:
                env.check(ph != invalid(22), "phase range is valid" + lab)
                env.close(o.phs[sig][sat], env.lin(0, (rough, C_MS / 1024), (ph, C_MS / (1 << 29))), TOL, "phase range" + lab)
            else:
                env.check(env.any([ph == invalid(22), env.inv(code)]), "phase range may be left out" + lab)
            for tab, val, n in ((o.ltm, lock_time(env, m.msm, m.sgn["lock_time"][c]), "lock time"),
                                (o.hca, m.sgn["hc_indc"][c] != 0, "half-cycle flag")):
                if sig in tab and sat in tab[sig]:
                    env.eq(tab[sig][sat], val, n + lab)
                else:
                    env.check(not here, n + " may be left out" + lab)
    env.check(len(o.dpl) == 0 and len(o.c2n) == 0, "no rates and no C/N0 in MSM%d" % m.msm)
    if m.msm == 1:
        env.check(len(o.phs) == 0 and len(o.ltm) == 0 and len(o.hca) == 0, "code ranges only in MSM1")
    if m.msm == 2:
        env.check(len(o.rng) == 0, "no code ranges in MSM2")


def run(env, m, cover):
    got = decoder(env, False).decode(frame(env, m.payload))
    if header(env, got, m):
        observables(env, got, m)
        env.observe("rng", [v for t in got.obs.rng.values() for v in t.values()])
        env.observe("phs", [v for t in got.obs.phs.values() for v in t.values()])
        env.cover("%s MSM%d" % (cover, m.msm))
    return got


def grid(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    sigs = sorted(SIGNALS[g])
    ns = max(1, min(64 // len(sigs), 12))
    sats = sorted({(v + 23 * i) % 64 + 1 for i in range(ns)})
    n = len(sats) * len(sigs)
    cells = range(n) if v % 3 else spread(n, (2 * n + 2) // 3, v)
    cells = [(c // len(sigs), c % len(sigs)) for c in cells]
    m = Msg(env, g, msm, sats, sigs, cells, hdr=flags(v), pin=locks(msm, len(cells), v))
    usual(env, m, range(len(cells)), range(len(sats)))
    run(env, m, "grid")


def pair(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    if env.params["shape"]:
        m = Msg(env, g, msm, [1 + v % 40, 64 - v % 20], pick(g, 1, v), [(0, 0), (1, 0)], hdr=flags(v), pin=locks(msm, 2, v))
    else:
        m = Msg(env, g, msm, [1 + v % 64], pick(g, 2, v), [(0, 0), (0, 1)], hdr=flags(v), pin=locks(msm, 2, v))
    if run(env, m, "pair") is None:
        return
    if msm in (1, 3) and m.sgn["rng_fine"][0] == invalid(15):
        env.cover("no code range")
    if msm in (2, 3) and m.sgn["phase_fine"][0] == invalid(22):
        env.cover("no phase range")


def three(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    cells = [[(0, 0), (0, 1), (1, 1)], [(0, 1), (1, 0), (1, 1)], [(0, 0), (0, 1), (1, 0)]][env.params["shape"]]
    m = Msg(env, g, msm, [2 + v % 30, 33 + v % 30], pick(g, 2, v), cells, hdr=flags(v), pin=locks(msm, 3, v))
    run(env, m, "three")


def lock(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    m = Msg(env, g, msm, [1 + v % 64], pick(g, 1, v), [(0, 0)], hdr=flags(v))
    usual(env, m, [0], [0])
    run(env, m, "lock")


def lead(env):
    g, msm, v = env.params["gnss"], env.params["msm"], env.params["v"]
    m = Msg(env, g, msm, [1 + v % 64], pick(g, 1, v), [(0, 0)], pin=locks(msm, 1, v))
    usual(env, m, [0], [0])
    run(env, m, "lead")


def empty(env):
    m = Msg(env, env.params["gnss"], env.params["msm"], [], pick(env.params["gnss"], 2, 1), [], hdr=flags(env.params["msm"]))
    got = decoder(env, False).decode(frame(env, m.payload))
    if header(env, got, m):
        env.check(not any(getattr(got.obs, n) for n in ("rng", "phs", "dpl", "c2n", "ltm", "hca")), "no observables")
        env.cover("empty MSM%d" % m.msm)
