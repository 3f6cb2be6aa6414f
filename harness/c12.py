"""C12: a message whose contents do not agree with its length yields no data, one attempt and one error, and leaves no trace."""
from harness.common import MODS, decoder, frame
from harness.c09 import nbytes as msm_bytes, popcount, spread
from harness.ephspec import SPEC, nbytes as eph_bytes
from harness.c10 import flags, locks
from harness.msm import GNSS, HDR, SAT, SGN, SIGNALS, Msg, number

MODULES = MODS
BOUNDS = ("frames with a correct checksum and any payload: all ephemerides at lengths 2..full+1 (quick: a selection below); 1005/1006 at lengths 2..30; "
          "longer ones up to 1023 bytes at listed lengths; 1007/1008/1033/1029/1013/1230 with the length/count fields themselves symbolic at payload lengths 2..24 (1013: 2..64), and with fixed counts up to 255 (long messages up to 1023 bytes) at lengths around the right one; MSM: "
          "truncated headers of every length, fixed masks at lengths around the right one, fixed lengths with symbolic mask windows, "
          "more than 64 cells, no cells; every signal number the system does not use, alone and beside one in use, raw and scaled; payloads of 0 and 1 bytes; a message with free contents decoded after each of them")
OUTSIDE = "text that is not UTF-8 in scaled mode (rejected; not decided here); other combinations of masks and lengths"
ASSUMPTIONS = ["the frame is one that the parser extracted: its buffer has the length its header gives"]


def TASKS(tier):
    q = tier == "quick"
    t = []
    k = 0
    for num in sorted(SPEC):
        n = eph_bytes(num)
        for bare in (True, False):
            ls = sorted({2, 3, n // 3 + k % 5, n // 2, n - 5, n - 4, n - 3, n - 2, n - 1, n, n + 1}) if q else range(2, n + 3)
            t += [{"fn": "eph", "num": num, "n": l, "bare": bare} for l in ls]
            k += 1
    for bare in (True, False):
        for num in (1005, 1006):
            t += [{"fn": "point", "num": num, "n": l, "bare": bare} for l in range(2, 26 if q else 60)]
        for num in (1007, 1008, 1029):
            t += [{"fn": "strings", "num": num, "n": l, "bare": bare} for l in (list(range(2, 15)) + [40] if q else range(2, 40))]
        t += [{"fn": "strings", "num": 1033, "n": l, "bare": bare} for l in range(2, 12 if q else 15)]
        t += [{"fn": "sched", "n": l, "bare": bare} for l in (list(range(2, 25)) + [27, 28, 31, 33, 34, 35, 60, 121, 122] if q else range(2, 130))]
        t += [{"fn": "bias", "n": l, "bare": bare} for l in range(2, 16)]
        for n in (0, 1):
            t.append({"fn": "tiny", "n": n, "bare": bare})
        # long messages
        for i, ls in enumerate([[255, 255, 255, 200, 49], [250, 0, 250, 250, 243], [100, 100, 100, 100, 100], [0, 0, 0, 0, 255], [255, 0, 0, 0, 0]]):
            for d in ((-2, -1, 0, 1, 2) if q else (-100, -9, -3, -2, -1, 0, 1, 2, 3, 9, 100)):
                if 9 + sum(ls) + d < 1024:
                    t.append({"fn": "long", "num": 1033, "lens": ls, "d": d, "bare": bare})
        for num, k in ((1007, 1), (1008, 2), (1029, 1)):
            for ls in ([255] * k, [128] * k, [127] * k):
                for d in (-1, 0, 1, 500):
                    t.append({"fn": "long", "num": num, "lens": ls, "d": d, "bare": bare})
        for num in (1005, 1006):
            t += [{"fn": "point", "num": num, "n": l, "bare": bare} for l in (148, 256 + 19, 256 + 21, 531, 533, 1023)]
        t += [{"fn": "bias", "n": l, "bare": bare} for l in (260, 266, 268, 1023)]
        t += [{"fn": "sched", "n": l, "bare": bare} for l in (123, 124, 150, 256 + 9, 256 + 13, 378, 1023)]
        t += [{"fn": "eph", "num": num, "n": l, "bare": bare} for num in sorted(SPEC) for l in (255, 256, 1023)]
    for msm in range(1, 8):
        for gi, g in enumerate(GNSS):
            r = gi + 2 * msm
            for bare in ((r % 2 == 0,) if q else (True, False)):
                for n in ((2, 3 + r % 8, 12 + r % 9, 21) if q else range(2, 22)):
                    t.append({"fn": "head", "gnss": g, "msm": msm, "n": n, "bare": bare})
                for shape in ([(3, 2, 4)] if q else [(3, 2, 4), (1, 1, 1), (7, 2, 14)]):
                    for d in ((-9, -3, -1 - r % 2, 1 + r % 3) if q else (-30, -12, -8, -4, -3, -2, -1, 1, 2, 3, 4, 9)):
                        t.append({"fn": "length", "gnss": g, "msm": msm, "k": shape[0], "m": shape[1], "c": shape[2], "d": d, "bare": bare})
                if not q or r % 4 == 0:
                    for shape in ((16, 4, 64), (32, 2, 64), (64, 1, 64), (40, 1, 40), (20, 3, 50)):
                        for d in (-2, -1, 1, 2) if not q else (-1 - r % 3, 1 + r % 2):
                            t.append({"fn": "length", "gnss": g, "msm": msm, "k": shape[0], "m": shape[1], "c": shape[2], "d": d, "bare": bare})
                t.append({"fn": "many", "gnss": g, "msm": msm, "v": r, "bare": bare})
                t.append({"fn": "nocell", "gnss": g, "msm": msm, "v": r, "bare": bare})
                t.append({"fn": "emptylong", "gnss": g, "msm": msm, "v": r, "bare": bare})
            t.append({"fn": "signal", "gnss": g, "msm": msm, "v": r})
            if not q or r % 3 == 0:
                for sh in (((2, 1), (1, 2)) if q else ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2))):
                    for c in range(1, sh[0] * sh[1] + 1):
                        t.append({"fn": "masks", "gnss": g, "msm": msm, "k": sh[0], "m": sh[1], "c": c, "v": r})
    return t


def COVERS(tier):
    return ["too short", "complete", "count and length agree", "count and length differ", "MSM masks agree", "MSM masks differ", "more than 64 cells",
            "no cells", "tiny", "signal without a code", "signal without a code, raw"]


def same(env, top, n):
    """The decoder still decodes a following message (n messages were attempted before, e errors)."""
    x = env.sint("nextx", 38)
    pay = env.build([(1005, 12), (env.uint("nextid", 12), 12), (0, 10), (x, 38), (0, 80)])
    got = top.decode(frame(env, pay))
    env.check(type(got).__name__ == "BaseRP", "the next message decodes")
    if got is not None:
        env.eq(got.bsID, env.uint("nextid", 12), "the next message's station")


def judge(env, pay, bare, valid, lab):
    """valid: the contents agree with the length."""
    top = decoder(env, bare)
    got = top.decode(frame(env, pay))
    if got is None:
        env.check(env.inv(valid), lab + ": refused only when inconsistent")
        env.eq((top.dec_attempts, top.dec_errors), (1, 1), lab + ": one attempt, one error")
    else:
        env.check(valid, lab + ": accepted only when consistent")
        env.eq((top.dec_attempts, top.dec_errors), (1, 0), lab + ": one attempt, no error")
    same(env, top, 1)
    env.eq(top.dec_attempts, 2, "two attempts after the next message")
    env.eq(top.dec_errors, 1 if got is None else 0, "errors after the next message")
    return got


def eph(env):
    num, n = env.params["num"], env.params["n"]
    pay = env.build([(num, 12), (env.uint("p", 8 * n - 12), 8 * n - 12)])
    judge(env, pay, env.params["bare"], n >= eph_bytes(num), str(num))
    env.cover("complete" if n >= eph_bytes(num) else "too short")


def point(env):
    num, n = env.params["num"], env.params["n"]
    pay = env.build([(num, 12), (env.uint("p", 8 * n - 12), 8 * n - 12)])
    judge(env, pay, env.params["bare"], n == (19 if num == 1005 else 21), str(num))


def count(got, env):
    env.cover("count and length differ" if got is None else "count and length agree")


def strings(env):
    """Every byte symbolic; in scaled mode the bytes are 7-bit characters (the counts 0..127)."""
    num, n, bare = env.params["num"], env.params["n"], env.params["bare"]
    if bare:
        pay = env.build([(num, 12), (env.uint("p", 8 * n - 12), 8 * n - 12)])
    else:
        head = {1007: 3, 1008: 3, 1033: 3, 1029: 8}[num]
        f = [(num, 12)] + [(env.uint("h%d" % i, 4 if i == 1 else 8), 4 if i == 1 else 8) for i in range(1, min(n, head))]
        f += [(env.uint("c%d" % i, 7), 8) for i in range(head, n)]
        pay = env.build(f)
    top = decoder(env, bare)
    got = top.decode(frame(env, pay))
    ok = []
    for lens in parts(n - {1007: 5, 1008: 6, 1033: 9, 1029: 9}[num], {1007: 1, 1008: 2, 1033: 5, 1029: 1}[num]):
        pos, c = (3 if num != 1029 else 8), []
        for i, l in enumerate(lens):
            c.append(env.field(pay, 8 * pos, 8) == l)
            pos += 1 + l + (1 if i == 0 and num != 1029 else 0)
        assert pos == n
        ok.append(env.all(c))
    if got is None:
        for c in ok:
            env.check(env.inv(c), "%d: refused only when counts and length differ" % num)
    else:
        env.check(env.any(ok), "%d: accepted only when counts and length agree" % num)
    env.eq((top.dec_attempts, top.dec_errors), (1, 1 if got is None else 0), "%d: counted" % num)
    same(env, top, 1)
    env.eq((top.dec_attempts, top.dec_errors), (2, 1 if got is None else 0), "%d: counted after the next message" % num)
    count(got, env)


def long(env):
    """Long strings, the first and the last byte of each symbolic; the payload d bytes longer than the strings need."""
    num, lens, d, bare = (env.params[x] for x in ("num", "lens", "d", "bare"))
    f = [(num, 12), (env.uint("id", 52 if num == 1029 else 12), 52 if num == 1029 else 12)]
    for i, l in enumerate(lens):
        f += [(l, 8)] + [(env.uint("c%d_%d" % (i, j), 7) if j in (0, l - 1) else 65 + (i + j) % 57, 8) for j in range(l)]
        if i == 0 and num != 1029:
            f += [(env.uint("setup", 8), 8)]
    got = judge(env, env.build(clip(f, sum(w for _, w in f) + 8 * d)), bare, d == 0, "long %d" % num)
    count(got, env)


def parts(total, k):
    """All ways to write total as an ordered sum of k counts."""
    if total < 0:
        return
    if k == 1:
        if total < 256:
            yield (total,)
        return
    for a in range(total + 1):
        for r in parts(total - a, k - 1):
            yield (a,) + r


def sched(env):
    n, bare = env.params["n"], env.params["bare"]
    rows = max(0, (8 * n - 70) // 29)
    f = [(1013, 12), (env.uint("a", 45), 45), (env.uint("nm", 5), 5), (env.uint("leap", 8), 8)]
    for i in range(rows):
        f += [(1001 + 3 * i, 12), (env.uint("s%d" % i, 1), 1), (env.uint("t%d" % i, 16), 16)]
    f = clip(f, 8 * n)
    pay = env.build(f)
    nm = env.uint("nm", 5)
    size = lambda k: (70 + 29 * k + 7) // 8
    if n >= 9:
        ok = env.any([nm == k for k in range(1, 32) if size(k) == n] + ([nm == 0] if size(rows) == n else []))
    else:
        ok = False
    got = judge(env, pay, bare, ok, "1013")
    count(got, env)


def clip(f, bits):
    """Cut or pad [(value, width)] to this many bits."""
    out, left = [], bits
    for v, w in f:
        if w > left:
            if left:
                out.append((v >> (w - left), left))
            left = 0
            break
        out.append((v, w))
        left -= w
    return out + ([(0, left)] if left else [])


def bias(env):
    n = env.params["n"]
    pay = env.build([(1230, 12), (env.uint("p", 8 * n - 12), 8 * n - 12)])
    ok = env.any([env.field(pay, 28, 4) == m for m in range(16) if 4 + 2 * bin(m).count("1") == n]) if n >= 4 else False
    got = judge(env, pay, env.params["bare"], ok, "1230")
    count(got, env)


def tiny(env):
    n = env.params["n"]
    pay = env.build([(env.uint("p", 8), 8)] if n else [])
    top = decoder(env, env.params["bare"])
    got = top.decode(frame(env, pay))
    env.check(got is None, "no data from a payload without a message number")
    same(env, top, 1)
    env.cover("tiny")


# ------------------------------------------------------------------------------ MSM

def plain(env, gnss, msm):
    """Header fields; the enumerated ones fixed."""
    f = [(number(gnss, msm), 12)]
    for n, w in HDR:
        f.append((1 if n in ("clk_steer", "clk_ext", "smth_indc", "smth_intr") else env.uint(n, w), w))
    return f


def head(env):
    n = env.params["n"]
    f = clip(plain(env, env.params["gnss"], env.params["msm"]) + [(env.uint("rest", 96), 96)], 8 * n)
    judge(env, env.build(f), env.params["bare"], False, "cut header")
    env.cover("too short")


def masks_of(g, k, m, c, v):
    sg = sorted(SIGNALS[g])
    while len(sg) < m:
        sg.append(sg[-1] + 1)
    sgn = sum(1 << (32 - s) for s in [sg[(v + i) % len(sg)] for i in range(m)])
    return sum(1 << i for i in spread(64, k, v)), sgn, sum(1 << i for i in spread(k * m, c, v))


def length(env):
    g, msm, k, m, c, d, bare = (env.params[x] for x in ("gnss", "msm", "k", "m", "c", "d", "bare"))
    sat, sgn, cell = masks_of(g, k, m, c, GNSS.index(g) + msm)
    n = msm_bytes(msm, k, m, c)
    f = plain(env, g, msm) + [(sat, 64), (sgn, 32), (cell, k * m)]
    body = 8 * (n + 40) - sum(w for _, w in f)
    f.append((env.uint("body", body), body))
    judge(env, env.build(clip(f, 8 * (n + d))), bare, False, "wrong length")


def many(env):
    """More than 64 cells announced."""
    g, msm, v, bare = (env.params[x] for x in ("gnss", "msm", "v", "bare"))
    k, m = [(33, 2), (22, 3), (64, 2), (13, 5), (3, 22), (64, 32), (9, 8), (17, 4)][v % 8]
    sat, sgn = sum(1 << i for i in spread(64, k, v)), sum(1 << i for i in spread(32, m, v))
    c = 2 + v % 3
    cell = sum(1 << i for i in spread(k * m, c, v))
    f = plain(env, g, msm) + [(sat, 64), (sgn, 32), (cell, k * m), (env.uint("body", 64), 64)]
    n = min(1023, msm_bytes(msm, k, m, c))
    judge(env, env.build(clip(f, 8 * n)), bare, False, "more than 64 cells")
    env.cover("more than 64 cells")


def nocell(env):
    """Satellites but not a single cell."""
    g, msm, v, bare = (env.params[x] for x in ("gnss", "msm", "v", "bare"))
    k, m = [(1, 1), (2, 1), (3, 2), (1, 0), (4, 0)][v % 5]
    sat, sgn, _ = masks_of(g, k, m, 0, v)
    f = plain(env, g, msm) + [(sat, 64), (sgn, 32), (0, k * m)] + [(env.uint("b%d" % i, 36), 36) for i in range(k)]
    judge(env, env.build(clip(f, 8 * msm_bytes(msm, k, m, 0))), bare, False, "no cells")
    env.cover("no cells")


def emptylong(env):
    """No satellites, yet more bytes than the header."""
    g, msm, v, bare = (env.params[x] for x in ("gnss", "msm", "v", "bare"))
    f = plain(env, g, msm) + [(0, 64), (masks_of(g, 1, 1, 1, v)[1], 32), (env.uint("more", 96), 96)]
    judge(env, env.build(clip(f, 8 * (22 + 1 + v % 9))), bare, False, "bytes after an empty message")


def signal(env):
    """A signal number for which the system has no signal, alone or beside one it has: no values, not even under the other signal."""
    g, msm, v = (env.params[x] for x in ("gnss", "msm", "v"))
    none = [s for s in range(1, 33) if s not in SIGNALS[g]]
    k = env.fork_int(env.uint("which", 5))
    env.assume(k < len(none))
    known = sorted(SIGNALS[g])[v % len(SIGNALS[g])]
    sigs = [none[k]] if (k + v) % 4 == 0 else sorted([none[k], known])
    sats = [1 + v % 20, 30]
    cells = [(i, j) for i in range(len(sats)) for j in range(len(sigs)) if k % 2 or sigs[j] == none[k]]
    m = Msg(env, g, msm, sats, sigs, cells, hdr=flags(v), pin=locks(msm, len(cells), v))
    bare = bool(env.bool("raw"))
    judge(env, m.payload, bare, bare, "signal %d of %s" % (none[k], g))
    env.cover("signal without a code, raw" if bare else "signal without a code")


def masks(env):
    """The right length for k satellites, m signals, c cells; the masks symbolic in a window: accepted exactly when they need that length."""
    g, msm, k, m, c, v = (env.params[x] for x in ("gnss", "msm", "k", "m", "c", "v"))
    n = msm_bytes(msm, k, m, c)
    sat, sgn = env.uint("satwin", 4), env.uint("sgnwin", 3)
    env.assume(sat != 0)
    env.assume(sgn != 0)
    f = plain(env, g, msm) + [(sat << (60 - v * 3 % 60), 64), (sgn << (29 - v % 29), 32)]
    body = 8 * n - sum(w for _, w in f)
    f.append((env.uint("body", body), body))
    pay = env.build(f)
    ks, ms = popcount(env, sat, 4), popcount(env, sgn, 3)
    ok = []
    for a in range(1, 5):
        for b in range(1, 4):
            cm = popcount(env, env.field(pay, 169, a * b), a * b) if a * b <= body else 0
            for cc in range(1, a * b + 1):
                if msm_bytes(msm, a, b, cc) == n:
                    ok.append(env.all([ks == a, ms == b, cm == cc]))
    got = judge(env, pay, True, env.any(ok), "masks")
    env.cover("MSM masks differ" if got is None else "MSM masks agree")
