"""C07: station reference points (1005, 1006) and GLONASS biases (1230)."""
from fractions import Fraction as Fr
from harness.common import MODS, decoder, frame, fields

MODULES = MODS
BOUNDS = "1005, 1006, 1230 in raw and scaled form; every payload bit after the message number symbolic; for 1230 all 16 signal masks"
OUTSIDE = "payload lengths other than the standard ones (rejected, see C12)"
ASSUMPTIONS = ["IEEE-754 double arithmetic; scaled values compared with the exact rational within 2^-12 of the resolution",
               "the 'undefined' bias code of 1230 is passed on like a value"]
QC = ["UNDEF", "CORRECTED", "NOT CORRECTED", "RESERVED"]


def TASKS(tier):
    t = [{"fn": "refpoint", "num": n, "bare": b} for n in (1005, 1006) for b in (True, False)]
    return t + [{"fn": "bias", "bare": b, "mask": m} for b in (True, False) for m in range(16)]


def COVERS(tier):
    return ["1005", "1006", "1230"]


def refpoint(env):
    num, bare = env.params["num"], env.params["bare"]
    n = 152 if num == 1005 else 168
    pay = env.build([(num, 12), (env.uint("p", n - 12), n - 12)])
    top = decoder(env, bare)
    got = top.decode(frame(env, pay))
    env.check(type(got).__name__ == ("BaseRP" if num == 1005 else "BaseRPH"), "%d decodes" % num)
    if got is None:
        return
    F = lambda p, w, s=False: env.field(pay, p, w, s)
    exp = {"msgNum": F(0, 12), "bsID": F(12, 12), "ITRF_Year": F(24, 6)}
    flags = {"GPS_OK": F(30, 1), "GLO_OK": F(31, 1), "GAL_OK": F(32, 1), "isVirtual": F(33, 1), "singleOsc": F(72, 1)}
    xyz = {"refPoint_X": F(34, 38, True), "refPoint_Y": F(74, 38, True), "refPoint_Z": F(114, 38, True)}
    if num == 1006:
        xyz["height"] = F(152, 16)
    qc = F(112, 2)
    for k, v in exp.items():
        env.eq(getattr(got, k), v, k)
    if bare:
        for k, v in list(flags.items()) + list(xyz.items()):
            env.eq(getattr(got, k), v, k)
        env.eq(got.QC_bias, qc, "QC_bias")
    else:
        for k, v in flags.items():
            env.eq(getattr(got, k), v == 1, k)
        for k, v in xyz.items():
            env.close(getattr(got, k), env.lin(0, (v, Fr(1, 10000))), Fr(1, 10000 * 4096), k)
        env.eq(got.QC_bias, QC[env.fork_int(qc)], "QC_bias")
    names = sorted(list(exp) + list(flags) + list(xyz) + ["QC_bias"])
    env.check(sorted(fields(got)) == names, "fields of the block")
    for k in names:
        env.observe(k, getattr(got, k))
    env.eq((top.dec_attempts, top.dec_errors), (1, 0), "counted as decoded")
    env.cover(str(num))


def bias(env):
    bare, mask = env.params["bare"], env.params["mask"]
    n = bin(mask).count("1")
    vals = [env.sint("v%d" % i, 16) for i in range(n)]
    bs, ind = env.uint("bs", 12), env.uint("ind", 1)
    pay = env.build([(1230, 12), (bs, 12), (ind, 1), (env.uint("r", 3), 3), (mask, 4)] + [(v, 16) for v in vals])
    got = decoder(env, bare).decode(frame(env, pay))
    env.check(type(got).__name__ == "BaseGLBS", "1230 decodes")
    if got is None:
        return
    env.eq(got.msgNum, 1230, "msgNum")
    env.eq(got.bsID, bs, "bsID")
    env.eq(got.isCorrected, ind if bare else ind == 1, "isCorrected")
    it = iter(vals)
    env.check(sorted(got.correction) == sorted(got.validity) == ["1C", "1P", "2C", "2P"], "signals")
    for i, s in enumerate(["1C", "1P", "2C", "2P"]):
        on = mask >> (3 - i) & 1
        v = next(it) if on else 0
        env.eq(got.validity[s], on if bare else bool(on), "validity of " + s)
        if bare:
            env.eq(got.correction[s], v, "bias of " + s)
        else:
            env.close(got.correction[s], env.lin(0, (v, Fr(1, 50))), Fr(1, 50 * 4096), "bias of " + s)
        env.observe(s, got.correction[s])
    env.cover("1230")
