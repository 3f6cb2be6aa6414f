"""C06: scaled ephemerides are the physical values."""
from fractions import Fraction as Fr
from harness.common import MODS, decoder, frame, fields
from harness.ephspec import SPEC, CLASS, payload, raw, res, terms

MODULES = MODS
BOUNDS = "each of the 7 ephemeris messages, every payload bit after the message number symbolic; standard length and 1, 7, 300 surplus bytes"
OUTSIDE = "other surplus lengths (C05)"
ASSUMPTIONS = ["IEEE-754 double arithmetic; scaled values compared with the exact rational within one unit in 2^50 of the field's range"]


def TASKS(tier):
    return [{"fn": "scaled", "num": n, "extra": e} for n in sorted(SPEC) for e in (0, 1, 7, 300)]


def COVERS(tier):
    return [str(n) for n in SPEC]


def scaled(env):
    num = env.params["num"]
    pay = payload(env, num, env.params["extra"])
    got = decoder(env, False).decode(frame(env, pay))
    env.check(got is not None and type(got).__name__ == CLASS[num], "%d decodes to its data block" % num)
    if got is None:
        return
    t, more = terms(num, env.params["extra"]), []
    for name, v, s, w in raw(env, pay, num):
        g = getattr(got, name, None)
        lab = "%d.%s" % (num, name)
        if s == "slot":
            env.eq(g, v - 7, lab)
        elif s == "tk":
            env.eq(g, 3600 * (v >> 7) + 60 * ((v >> 1) & 63) + 30 * (v & 1), lab)
        elif s == "1":
            env.eq(g, v, lab)
            more.append((g, t[name]))
        else:
            r = res(s)
            env.close(g, env.lin(0, (v, r)), r * Fr(1, 2 ** 18), lab)
            more.append((g, t[name], r, r * Fr(1, 2 ** 18)))
        env.observe(name, g)
    env.again(more)
    env.cover(str(num))
