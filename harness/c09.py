"""C09: MSM messages decode bit for bit (integer output)."""
from harness.common import MODS, decoder, frame
from harness.msm import GNSS, SAT, SGN, HDR, number

MODULES = MODS
BOUNDS = ("all 49 MSM numbers; every header, satellite and signal field symbolic. Masks: (a) symbolic windows of 8 satellite and 6 signal "
          "positions (all windows of the 64/32 positions in the thorough tier, rotating in quick) with a fully symbolic cell mask, for "
          "every number of satellites <= 3, signals <= 2, cells <= 4; (b) fixed masks of up to 64 x 1, 2 x 32, 8 x 8 with 1..64 cells; "
          "(c) messages without satellites")
OUTSIDE = "other combinations of masks"
ASSUMPTIONS = ["the frame checksum was verified before"]

WIN = [(1, 1, 1), (2, 1, 2), (1, 2, 2), (2, 2, 3), (2, 2, 2), (3, 2, 4)]
SHAPES = [(3, 4, 7), (64, 1, 40), (1, 32, 20), (8, 8, 60), (5, 3, 15), (2, 32, 34), (10, 6, 1)]
MORE = [(64, 1, 64), (2, 32, 64), (32, 2, 33), (16, 4, 64), (21, 3, 50), (12, 5, 31), (1, 32, 32), (4, 16, 9), (7, 9, 63), (64, 1, 2),
        (6, 10, 47), (9, 7, 22), (31, 2, 62), (3, 3, 5), (13, 4, 29)]


def nbytes(msm, k, m, c):
    return (169 + k * m + k * sum(w for _, w, _ in SAT[msm]) + c * sum(w for _, w, _ in SGN[msm]) + 7) // 8


def spread(total, n, seed):
    """n distinct positions out of total, deterministic, irregular."""
    pool, out, x = list(range(total)), [], 12345 + 7919 * seed
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7FFFFFFF
        out.append(pool.pop((x >> 8) % len(pool)))
    return sorted(out)


def TASKS(tier):
    t = []
    q = tier == "quick"
    for msm in range(1, 8):
        for gi, g in enumerate(GNSS):
            r = gi + 3 * msm
            win = [(WIN[r % 3], r), (WIN[3 + r % 3], r + 5), (WIN[(r + 1) % 3], r + 8)] if q else [(w, r + i + 6 * v) for i, w in enumerate(WIN) for v in range(5)]
            for (k, m, c), v in win:
                t.append({"fn": "window", "gnss": g, "msm": msm, "k": k, "m": m, "c": c, "sat0": v * 7 % 57, "sgn0": v * 5 % 27})
            fixed = [SHAPES[(r + i) % 7] for i in (0, 2, 3, 5)] + [MORE[(r + i) % 15] for i in (0, 4, 7, 11)] if q else SHAPES + MORE
            for k, m, c in fixed:
                if nbytes(msm, k, m, c) <= 1023:
                    t.append({"fn": "fixed", "gnss": g, "msm": msm, "k": k, "m": m, "c": c})
            t.append({"fn": "empty", "gnss": g, "msm": msm})
    return t


def COVERS(tier):
    return ["MSM%d" % i for i in range(1, 8)] + ["window", "empty"]


def popcount(env, x, n):
    s = 0
    for i in range(n):
        s = s + ((x >> i) & 1)
    return s


def rev(env, x, n):
    """Bit 0 of the result is the first transmitted bit."""
    return env.field(env.build([((x >> i) & 1, 1) for i in range(n)]), 0, n)


def common(env, got, num, gnss, msm, f):
    env.check(type(got).__name__ == ("BareObservablesMSM4567" if msm > 3 else "BareObservablesMSM123"), "%d decodes" % num)
    if got is None:
        return False
    env.eq(got.atr.msg_number, num, "message number")
    env.eq(got.atr.gnss, gnss, "system")
    env.eq(got.atr.subset, "MSM%d" % msm, "message type")
    for n, _ in HDR:
        if n[0] != "_":
            env.eq(getattr(got.hdr, n), f[n], "header " + n)
            env.observe(n, getattr(got.hdr, n))
    if gnss == "R":
        env.eq(got.time, f["time"] & 0x7FFFFFF, "time of day")
        env.eq(got.day, f["time"] >> 27, "day of week")
    else:
        env.eq(got.time, f["time"], "time of week")
        env.eq(got.day, 0, "day of week")
    return True


def window(env):
    k, m, c = (env.params[x] for x in "kmc")
    sat, sgn = env.uint("satwin", 8), env.uint("sgnwin", 6)
    cell = env.uint("cellmask", k * m)
    env.assume(popcount(env, sat, 8) == k)
    env.assume(popcount(env, sgn, 6) == m)
    env.assume(popcount(env, cell, k * m) == c)
    bare(env, sat << (56 - env.params["sat0"]), sgn << (26 - env.params["sgn0"]), cell)
    env.cover("window")


def fixed(env):
    k, m, c = (env.params[x] for x in "kmc")
    seed = env.params["msm"] * 10 + GNSS.index(env.params["gnss"])
    bare(env, sum(1 << i for i in spread(64, k, seed)), sum(1 << i for i in spread(32, m, seed)),
         sum(1 << i for i in spread(k * m, c, seed)))


def bare(env, sat, sgn, cell):
    gnss, msm, k, m, c = (env.params[x] for x in ("gnss", "msm", "k", "m", "c"))
    num = number(gnss, msm)
    f = {n: env.uint(n, w) for n, w in HDR}
    rows = [(num, 12)] + [(f[n], w) for n, w in HDR] + [(sat, 64), (sgn, 32), (cell, k * m)]
    S = {n: [(env.sint if s else env.uint)("%s%d" % (n, i), w) for i in range(k)] for n, w, s in SAT[msm]}
    G = {n: [(env.sint if s else env.uint)("%s%d" % (n, i), w) for i in range(c)] for n, w, s in SGN[msm]}
    for n, w, _ in SAT[msm]:
        rows += [(v, w) for v in S[n]]
    for n, w, _ in SGN[msm]:
        rows += [(v, w) for v in G[n]]
    got = decoder(env, True).decode(frame(env, env.build(rows)))
    if not common(env, got, num, gnss, msm, f):
        return
    env.eq(got.hdr.sat_mask, rev(env, sat, 64), "satellite mask")
    env.eq(got.hdr.sgn_mask, rev(env, sgn, 32), "signal mask")
    env.eq(got.hdr.cell_mask, rev(env, cell, k * m), "cell mask")
    for n, v in S.items():
        env.eq(tuple(getattr(got.sat, n)), tuple(v), "satellite data " + n)
    for n, v in G.items():
        env.eq(tuple(getattr(got.sgn, n)), tuple(v), "signal data " + n)
        env.observe(n, getattr(got.sgn, n)[-1])
    env.cover("MSM%d" % msm)


def empty(env):
    """A message without satellites is valid and carries the header only."""
    gnss, msm = env.params["gnss"], env.params["msm"]
    num = number(gnss, msm)
    f = {n: env.uint(n, w) for n, w in HDR}
    sgn = env.uint("sgnmask", 32)
    pay = env.build([(num, 12)] + [(f[n], w) for n, w in HDR] + [(0, 64), (sgn, 32)])
    got = decoder(env, True).decode(frame(env, pay))
    if common(env, got, num, gnss, msm, f):
        env.eq(got.hdr.sat_mask, 0, "satellite mask")
        env.eq(got.hdr.sgn_mask, rev(env, sgn, 32), "signal mask")
        env.cover("empty")
