"""C05: ephemeris messages decode field by field as RTCM lays them out (integer output)."""
from harness.common import MODS, decoder, frame, fields
from harness.ephspec import SPEC, CLASS, payload, raw, nbytes, terms

MODULES = MODS
BOUNDS = "each of the 7 ephemeris messages, every payload bit after the message number symbolic; payloads of the standard length and (listed lengths) up to 960 bytes longer"
OUTSIDE = "other surplus lengths"
ASSUMPTIONS = ["the frame checksum was verified before (C01, C03)"]


def TASKS(tier):
    ex = (0, 1, 2, 3, 4, 8, 60, 200, 900) if tier == "quick" else list(range(0, 40)) + list(range(40, 961, 40))
    return [{"fn": "bare", "num": n, "extra": e} for n in sorted(SPEC) for e in ex]


def COVERS(tier):
    return [str(n) for n in SPEC]


def bare(env):
    num = env.params["num"]
    pay = payload(env, num, env.params["extra"])
    top = decoder(env, True)
    got = top.decode(frame(env, pay))
    env.check(got is not None and type(got).__name__ == CLASS[num], "%d decodes to its data block" % num)
    if got is None:
        return
    vals = raw(env, pay, num)
    names = fields(got)
    env.check(sorted(names) == sorted(v[0] for v in vals), "%d: the block carries exactly the message's fields" % num)
    for name, v, _, _ in vals:
        env.eq(getattr(got, name, None), v, "%d.%s" % (num, name))
        env.observe(name, getattr(got, name, None))
    t = terms(num, env.params["extra"])
    env.again([(getattr(got, name, None), t[name]) for name, _, _, _ in vals])
    env.eq((top.dec_attempts, top.dec_errors), (1, 0), "counted as decoded")
    env.cover(str(num))
