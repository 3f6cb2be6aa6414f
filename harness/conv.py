"""Converters and messages with symbolic contents, for the properties about whole conversions."""
from harness.common import frame
from harness.c10 import flags, locks, pick, usual
from harness.ephspec import SPEC, CLASS as ECLASS, payload
from harness.msm import BASE, GNSS, SIGNALS, Msg, number

MODS = ["converter_top", "controls", "printers", "printer_top", "decoder_top", "sub_decoders", "gnss_types"]
MSMS = [number(g, m) for g in GNSS for m in range(1, 8)]
EPHS = [1019, 1020, 1041, 1042, 1044, 1045, 1046]
BASES = [1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230]
SUPPORTED = {"MARGO": set(MSMS), "JSON": set(MSMS + EPHS + BASES), "JSON-B": set(MSMS + EPHS + BASES), "JARGO": set(MSMS + EPHS + BASES)}
NAMES = {"G": "GPS", "R": "GLN", "E": "GAL", "S": "SBS", "Q": "QZS", "B": "BDS", "I": "NAVIC"}
BCLASS = {1005: "BaseRP", 1006: "BaseRPH", 1007: "BaseAD", 1008: "BaseADSN", 1013: "BaseSP", 1029: "BaseTS", 1033: "BaseADSNRC",
          1230: "BaseGLBS"}
_B = {1005: "RefPoint", 1006: "RefPointHeight", 1007: "AntDesc", 1008: "AntDescSer", 1013: "SysPar", 1029: "TextStr", 1033: "AntAndRcvDesc",
      1230: "GloBias"}
_E = {1019: "GPS", 1020: "GLN", 1041: "NAVIC", 1042: "BDS", 1044: "QZS", 1045: "GAL", 1046: "GAL"}


def is_msm(num):
    return num in MSMS


def split(num):
    """MSM number -> (system, type)."""
    g = [x for x in GNSS if BASE[x] < num <= BASE[x] + 7][0]
    return g, num - BASE[g]


def json_path(num):
    if is_msm(num):
        g, m = split(num)
        return "MSM%d/%s-MSM%d-%d.json" % (m, NAMES[g], m, num)
    if num in EPHS:
        return "EPH/%s-EPH-%d.json" % (_E[num], num)
    return "BASE/%s-%d.json" % (_B[num], num)


def class_name(num, bare):
    if is_msm(num):
        if not bare:
            return "ObservablesMSM"
        return "BareObservablesMSM4567" if split(num)[1] > 3 else "BareObservablesMSM123"
    return ECLASS[num] if num in EPHS else BCLASS[num]


def obs_paths(m):
    """MARGO files of a message whose values are all present."""
    kinds = {1: "C", 2: "L", 3: "CL", 4: "CLS", 5: "CLDS", 6: "CLS", 7: "CLDS"}[m.msm]
    used = {m.sigs[j] for _, j in m.cells}
    return sorted("%s/%s%s%s_MSM%d.obs" % (NAMES[m.gnss], m.gnss, k, SIGNALS[m.gnss][s][0], m.msm) for s in used for k in kinds)


def converter(env, mode, wd, margo=None, jsonc=None):
    ct, co = env.imp("converter_top"), env.imp("controls")
    pr = env.imp("printers")
    mc, jc = pr.MargoControls(), pr.JSONControls()
    for k, v in (margo or {}).items():
        setattr(mc, k, v)
    for k, v in (jsonc or {}).items():
        setattr(jc, k, v)
    conv = ct.ConverterFactory(mode)(wd, co.BoxWithConverterControls(mc, jc))
    env.check(conv is not None, "a converter for mode " + mode)
    return conv


def msm_msg(env, num, tag="", v=0, nsat=1, nsig=1, hdr=None, cells=None, free=False):
    g, m = split(num)
    sats = sorted({1 + (3 * v + 2 * i) % 14 for i in range(nsat)}) if g != "Q" else sorted({1 + (v + 2 * i) % 5 for i in range(nsat)})
    sigs = pick(g, nsig, v)
    cells = cells or [(i, j) for i in range(len(sats)) for j in range(len(sigs))]
    h = dict(flags(v))
    h.update(hdr or {})
    pin = locks(m, len(cells), v)
    x = Msg(env, g, m, sats, sigs, cells, hdr=h, tag=tag, pin=pin)
    if not free:
        usual(env, x, range(len(x.cells)), range(len(sats)))
    return x


def message(env, num, tag="", v=0, n=2):
    """A valid payload of this message number with symbolic contents (7-bit characters in strings)."""
    u = lambda name, w: env.uint(tag + name, w)
    if is_msm(num):
        return msm_msg(env, num, tag, v).payload
    if num in EPHS:
        return payload(env, num, 0) if not tag else env.build([(num, 12), (u("p", 8 * _size(num) - 12), 8 * _size(num) - 12)])
    if num in (1005, 1006):
        b = 152 if num == 1005 else 168
        return env.build([(num, 12), (u("a", 100), 100), (v % 4, 2), (u("b", b - 114), b - 114)])
    if num in (1007, 1008, 1033):
        k = {1007: 1, 1008: 2, 1033: 5}[num]
        f = [(num, 12), (u("id", 12), 12)]
        for i in range(k):
            ln = (n + i) % 3
            f += [(ln, 8)] + [(u("c%d_%d" % (i, j), 7), 8) for j in range(ln)]
            if i == 0:
                f += [(u("setup", 8), 8)]
        return env.build(f)
    if num == 1029:
        return env.build([(num, 12), (u("id", 52), 52), (n, 8)] + [(u("c%d" % j, 7), 8) for j in range(n)])
    if num == 1013:
        f = [(num, 12), (u("id", 45), 45), (n, 5), (u("leap", 8), 8)]
        for i in range(n):
            f += [(1005 + 7 * i + v, 12), (u("s%d" % i, 1), 1), (u("t%d" % i, 16), 16)]
        return env.build(f)
    if num == 1230:
        m = (5 + v) % 16 if n else 0
        # (the 'undefined' code is passed on like a value, with a warning; both are explored in C07)
        return env.build([(num, 12), (u("id", 12), 12), (u("ind", 1), 1), (0, 3), (m, 4)] +
                         [(u("b%d" % i, 15), 16) for i in range(bin(m).count("1"))])
    raise ValueError(num)


def _size(num):
    return (sum(f[1] for f in SPEC[num]) + 7) // 8


def cut(env, num, tag="", n=3):
    """A payload of this number that is too short for it."""
    return env.build([(num, 12), (env.uint(tag + "x", 8 * n - 12), 8 * n - 12)])


def run(env, conv, payloads):
    """Decode and print; returns the blocks."""
    out = []
    for p in payloads:
        b = conv.decode(frame(env, p))
        out.append(b)
        if b is not None:
            conv.print(b)
    return out
