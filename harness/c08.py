"""C08: descriptors, texts and announcement lists of any length (1007, 1008, 1013, 1029, 1033)."""
from fractions import Fraction as Fr
from harness.common import MODS, decoder, frame, fields

MODULES = MODS
BOUNDS = ("string lengths: all combinations of 0..2 (1007/1008/1033), all lengths 0..255 in single strings (1033 in quick: a selection) and long combinations, with every byte symbolic; "
          "scaled texts: code points of every UTF-8 width, symbolic; 1013: 0..31 announcements with the count given, 0..279 with the count left 0, a number announced twice")
OUTSIDE = "scaled output of byte strings that are not UTF-8"
ASSUMPTIONS = ["IEEE-754 double arithmetic for the announcement interval"]

LAYOUT = {1007: (["descr"], 40), 1008: (["descr", "serialNumber"], 48),
          1033: (["descr", "serialNumber", "rcvDescriptor", "rcvFWVersion", "rcvSerNum"], 72)}
CLASS = {1007: "BaseAD", 1008: "BaseADSN", 1033: "BaseADSNRC", 1013: "BaseSP", 1029: "BaseTS"}


def TASKS(tier):
    q = tier == "quick"
    t = []
    for bare in (True, False):
        for a in (0, 1, 2, 3):
            t.append({"fn": "descr", "num": 1007, "bare": bare, "lens": [a]})
            for b in (0, 1, 2, 3):
                t.append({"fn": "descr", "num": 1008, "bare": bare, "lens": [a, b]})
        import itertools
        for c in itertools.product((0, 2) if q else (0, 1, 2), repeat=5):
            t.append({"fn": "descr", "num": 1033, "bare": bare, "lens": list(c)})
        for n in range(4, 256):
            t.append({"fn": "descr", "num": 1007, "bare": bare, "lens": [n]})
            t.append({"fn": "descr", "num": 1008, "bare": bare, "lens": [3, n] if n % 2 else [n, n // 3]})
            t.append({"fn": "text", "bare": bare, "w": [1] * n})
        for ls in ([255, 255, 255, 200, 49], [255, 255, 255, 249, 0], [200] * 5, [0, 255, 0, 255, 0], [128] * 5, [127, 128, 129, 64, 63]):
            t.append({"fn": "descr", "num": 1033, "bare": bare, "lens": ls})
        for w in ([2] * 127, [3] * 85, [4] * 63, [1, 2, 3, 4] * 25):
            t.append({"fn": "text", "bare": bare, "w": w})
        for n in ((31, 32, 63, 64, 100, 127, 128, 254, 255) if q else range(4, 256)):
            for i in range(5):
                t.append({"fn": "descr", "num": 1033, "bare": bare, "lens": [n if i == j else 2 + j for j in range(5)]})
        for n in range(0, 32):
            t.append({"fn": "sched", "bare": bare, "n": n, "given": True})
            t.append({"fn": "sched", "bare": bare, "n": n, "given": False})
        for n in (1, 2, 3):
            t.append({"fn": "sched", "bare": bare, "n": n, "given": True, "symid": True})
        for n in (32, 33, 63, 64, 65, 127, 128, 255, 256, 279) if q else range(32, 280):
            t.append({"fn": "sched", "bare": bare, "n": n, "given": False})
        for n, d in ((2, 1), (3, 2), (9, 4), (31, 30)):
            t.append({"fn": "sched", "bare": bare, "n": n, "given": True, "dup": d})
        for w in ([], [1], [2], [3], [4], [1, 2], [2, 1], [3, 4], [4, 4], [1, 1, 1], [2, 3, 4, 1]):
            t.append({"fn": "text", "bare": bare, "w": w})
    return t


def COVERS(tier):
    return ["1007", "1008", "1033", "1013", "1029", "empty string"]


def char(env, name, w):
    """A symbolic code point that takes w bytes in UTF-8, and its bytes."""
    cp = env.uint(name, {1: 7, 2: 11, 3: 16, 4: 21}[w])
    if w == 1:
        return cp, [cp]
    if w == 2:
        env.assume(cp >= 0x80)
        return cp, [0xC0 | (cp >> 6), 0x80 | (cp & 63)]
    if w == 3:
        env.assume(cp >= 0x800)
        env.assume((cp >> 11) != 0x1B)
        return cp, [0xE0 | (cp >> 12), 0x80 | ((cp >> 6) & 63), 0x80 | (cp & 63)]
    env.assume(cp >= 0x10000)
    env.assume(cp <= 0x10FFFF)
    return cp, [0xF0 | (cp >> 18), 0x80 | ((cp >> 12) & 63), 0x80 | ((cp >> 6) & 63), 0x80 | (cp & 63)]


def string(env, name, n, bare):
    """n-byte string: (bytes, what the output has to show)."""
    if bare:
        b = [env.uint("%s%d" % (name, i), 8) for i in range(n)]
        return b, b
    cps = [env.uint("%s%d" % (name, i), 7) for i in range(n)]
    return cps, cps


def same(env, got, exp, bare, label):
    if bare:
        w = env.hexwords(got)
        env.check(w is not None, label + ": hexadecimal words")
        if w is not None:
            env.eq(w, list(exp), label)
    else:
        env.eq(got, env.text(exp), label)
    env.observe(label, got)
    if not exp:
        env.cover("empty string")


def descr(env):
    num, bare, lens = env.params["num"], env.params["bare"], env.params["lens"]
    names, bits = LAYOUT[num]
    bs, setup = env.uint("bs", 12), env.uint("setup", 8)
    f = [(num, 12), (bs, 12)]
    exp = []
    for i, (nm, n) in enumerate(zip(names, lens)):
        raw, want = string(env, nm, n, bare)
        f += [(n, 8)] + [(b, 8) for b in raw]
        if i == 0:
            f += [(setup, 8)]
        exp.append((nm, n, want))
    pay = env.build(f)
    assert len(pay) * 8 == bits + 8 * sum(lens)
    got = decoder(env, bare).decode(frame(env, pay))
    env.check(type(got).__name__ == CLASS[num], "%d decodes" % num)
    if got is None:
        return
    env.eq(got.msgNum, num, "msgNum")
    env.eq(got.bsID, bs, "bsID")
    env.eq(got.setupID, setup, "setupID")
    for nm, n, want in exp:
        env.eq(getattr(got, nm + "Length"), n, nm + " length")
        same(env, getattr(got, nm), want, bare, nm)
    env.check(len(fields(got)) == 3 + 2 * len(exp), "fields of the block")
    env.cover(str(num))


def text(env):
    bare = env.params["bare"]
    by, cps = [], []
    for i, w in enumerate(env.params["w"]):
        c, b = char(env, "c%d" % i, w)
        cps.append(c)
        by += b
    bs, mjd, sec, nch = env.uint("bs", 12), env.uint("mjd", 16), env.uint("sec", 17), env.uint("nch", 7)
    pay = env.build([(1029, 12), (bs, 12), (mjd, 16), (sec, 17), (nch, 7), (len(by), 8)] + [(b, 8) for b in by])
    got = decoder(env, bare).decode(frame(env, pay))
    env.check(type(got).__name__ == CLASS[1029], "1029 decodes")
    if got is None:
        return
    for k, v in (("msgNum", 1029), ("bsID", bs), ("modifiedJulianDay", mjd), ("daySec", sec), ("charNum", nch), ("unitsNum", len(by))):
        env.eq(getattr(got, k), v, k)
    same(env, got.message, by if bare else cps, bare, "message")
    env.cover("1029")


def sched(env):
    bare, n = env.params["bare"], env.params["n"]
    bs, mjd, sec, leap = env.uint("bs", 12), env.uint("mjd", 16), env.uint("sec", 17), env.uint("leap", 8)
    ids = [env.uint("id%d" % i, 12) if env.params.get("symid") else 1001 + 7 * i for i in range(n)]
    if env.params.get("symid"):
        for i in range(n):
            for j in range(i):
                env.assume(ids[i] != ids[j])
    if env.params.get("dup"):  # the entry number "dup" names the first entry's message again
        ids[env.params["dup"]] = ids[0]
    it = [(ids[i], env.uint("s%d" % i, 1), env.uint("t%d" % i, 16)) for i in range(n)]
    f = [(1013, 12), (bs, 12), (mjd, 16), (sec, 17), (n if env.params["given"] else 0, 5), (leap, 8)]
    for i, s, t in it:
        f += [(i, 12), (s, 1), (t, 16)]
    pay = env.build(f)
    got = decoder(env, bare).decode(frame(env, pay))
    env.check(type(got).__name__ == CLASS[1013], "1013 decodes")
    if got is None:
        return
    for k, v in (("msgNum", 1013), ("bsID", bs), ("modifiedJulianDay", mjd), ("daySec", sec), ("leapSec", leap)):
        env.eq(getattr(got, k), v, k)
    last = dict((k, e) for k, e in enumerate(it))
    if env.params.get("dup"):
        last[0] = last.pop(env.params["dup"])
    env.check(len(got.shedule) == len(last), "number of announcements")
    for (k, g), (i, s, t) in zip(sorted(got.shedule.items()) if env.params.get("dup") else got.shedule.items(), last.values()):
        env.eq(k, i, "announced message")
        env.eq(g[0], s if bare else s == 1, "sync flag")
        if bare:
            env.eq(g[1], t, "interval")
        else:
            env.close(g[1], env.lin(0, (t, Fr(1, 10))), Fr(1, 10 * 4096), "interval")
        env.observe("t%s" % i if isinstance(i, int) and not env.params.get("symid") else "t", g[1])
    env.cover("1013")
