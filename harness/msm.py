"""MSM1..MSM7 after RTCM 10403.3 section 3.5.16, independent of the repository."""
from fractions import Fraction as Fr

GNSS = "GRESQBI"
BASE = {"G": 1070, "R": 1080, "E": 1090, "S": 1100, "Q": 1110, "B": 1120, "I": 1130}
C_MS = Fr(299792458, 1000)        # metres per light millisecond

# satellite block: (name, width, signed); signal block likewise
SAT = {
    7: [("rng_ms", 8, 0), ("ext_info", 4, 0), ("rng_rough", 10, 0), ("phase_rate_rough", 14, 1)],
    6: [("rng_ms", 8, 0), ("rng_rough", 10, 0)],
    5: [("rng_ms", 8, 0), ("ext_info", 4, 0), ("rng_rough", 10, 0), ("phase_rate_rough", 14, 1)],
    4: [("rng_ms", 8, 0), ("rng_rough", 10, 0)],
    3: [("rng_rough", 10, 0)], 2: [("rng_rough", 10, 0)], 1: [("rng_rough", 10, 0)],
}
SGN = {
    7: [("rng_fine", 20, 1), ("phase_fine", 24, 1), ("lock_time", 10, 0), ("hc_indc", 1, 0), ("c2n", 10, 0), ("phase_rate_fine", 15, 1)],
    6: [("rng_fine", 20, 1), ("phase_fine", 24, 1), ("lock_time", 10, 0), ("hc_indc", 1, 0), ("c2n", 10, 0)],
    5: [("rng_fine", 15, 1), ("phase_fine", 22, 1), ("lock_time", 4, 0), ("hc_indc", 1, 0), ("c2n", 6, 0), ("phase_rate_fine", 15, 1)],
    4: [("rng_fine", 15, 1), ("phase_fine", 22, 1), ("lock_time", 4, 0), ("hc_indc", 1, 0), ("c2n", 6, 0)],
    3: [("rng_fine", 15, 1), ("phase_fine", 22, 1), ("lock_time", 4, 0), ("hc_indc", 1, 0)],
    2: [("phase_fine", 22, 1), ("lock_time", 4, 0), ("hc_indc", 1, 0)],
    1: [("rng_fine", 15, 1)],
}
HDR = [("rs_id", 12), ("time", 30), ("MMB", 1), ("IODS", 3), ("_res", 7), ("clk_steer", 2), ("clk_ext", 2), ("smth_indc", 1),
       ("smth_intr", 3)]

L1, L2, L5 = 1575.42, 1227.60, 1176.45
E5B, E5, E6, B1, B3 = 1207.14, 1191.795, 1278.75, 1561.098, 1268.52
# signal id -> (RINEX observation code, carrier in MHz)
SIGNALS = {
    "G": {2: ("1C", L1), 3: ("1P", L1), 4: ("1W", L1), 8: ("2C", L2), 9: ("2P", L2), 10: ("2W", L2), 15: ("2S", L2), 16: ("2L", L2),
          17: ("2X", L2), 22: ("5I", L5), 23: ("5Q", L5), 24: ("5X", L5), 30: ("1S", L1), 31: ("1L", L1), 32: ("1X", L1)},
    "R": {2: ("1C", 1602.0), 3: ("1P", 1602.0), 8: ("2C", 1246.0), 9: ("2P", 1246.0)},
    "E": {2: ("1C", L1), 3: ("1A", L1), 4: ("1B", L1), 5: ("1X", L1), 6: ("1Z", L1), 8: ("6C", E6), 9: ("6A", E6), 10: ("6B", E6),
          11: ("6X", E6), 12: ("6Z", E6), 14: ("7I", E5B), 15: ("7Q", E5B), 16: ("7X", E5B), 18: ("8I", E5), 19: ("8Q", E5),
          20: ("8X", E5), 22: ("5I", L5), 23: ("5Q", L5), 24: ("5X", L5)},
    "S": {2: ("1C", L1), 22: ("5I", L5), 23: ("5Q", L5), 24: ("5X", L5)},
    "Q": {2: ("1C", L1), 9: ("6S", E6), 10: ("6L", E6), 11: ("6X", E6), 15: ("2S", L2), 16: ("2L", L2), 17: ("2X", L2), 22: ("5I", L5),
          23: ("5Q", L5), 24: ("5X", L5), 30: ("1S", L1), 31: ("1L", L1), 32: ("1X", L1)},
    "B": {2: ("2I", B1), 3: ("2Q", B1), 4: ("2X", B1), 8: ("6I", B3), 9: ("6Q", B3), 10: ("6X", B3), 14: ("7I", E5B), 15: ("7Q", E5B),
          16: ("7X", E5B)},
    "I": {8: ("9A", 2492.028), 22: ("5A", L5)},
}

# DF407, table 3.5-75: first code of a segment -> (multiplier, addend)
DF407 = [(64, 2, -64), (96, 4, -256), (128, 8, -768), (160, 16, -2048), (192, 32, -5120), (224, 64, -12288), (256, 128, -28672),
         (288, 256, -65536), (320, 512, -147456), (352, 1024, -327680), (384, 2048, -720896), (416, 4096, -1572864),
         (448, 8192, -3407872), (480, 16384, -7340032), (512, 32768, -15728640), (544, 65536, -33554432), (576, 131072, -71303168),
         (608, 262144, -150994944), (640, 524288, -318767104), (672, 1048576, -671088640)]


def lock_time(env, msm, code):
    """Minimum lock time in ms (DF402 / DF407)."""
    if msm in (6, 7):
        v = code
        for first, m, a in DF407:
            v = env.ite(code >= first, m * code + a, v)
        v = env.ite(code == 704, 67108864, v)
        return env.ite(code > 704, 0, v)
    v = 0
    for c in range(1, 16):
        v = env.ite(code == c, 16 * (1 << c), v)
    return v


STEER = ["OFF", "ON", "UNDEF", "UNDEF"]
CLKEXT = ["INTERNAL", "EXT-LOCK", "EXT-UNLOCK", "UNDEF"]
INDC = ["UNDEF", "DVRG-FREE"]
INTR = ["NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+", "UNLIM"]


def number(gnss, msm):
    return BASE[gnss] + msm


class Msg:
    """An MSM message with symbolic contents. sats/sigs: 1-based numbers; cells: set of (sat index, sig index)."""

    def __init__(self, env, gnss, msm, sats, sigs, cells, hdr=None, tag="", pin=None):
        self.gnss, self.msm = gnss, msm
        self.sats, self.sigs = list(sats), list(sigs)
        self.cells = [(i, j) for i in range(len(self.sats)) for j in range(len(self.sigs)) if (i, j) in set(map(tuple, cells))]
        hdr = hdr or {}
        pin = pin or {}
        self.hdr = {}
        f = [(number(gnss, msm), 12)]
        for n, w in HDR:
            v = hdr[n] if n in hdr else env.uint(tag + n, w)
            self.hdr[n] = v
            f.append((v, w))
        sm = 0
        for s in self.sats:
            sm |= 1 << (64 - s)
        gm = 0
        for s in self.sigs:
            gm |= 1 << (32 - s)
        f += [(sm, 64), (gm, 32)]
        self.cell_bits = [1 if (i, j) in self.cells else 0 for i in range(len(self.sats)) for j in range(len(self.sigs))]
        f += [(b, 1) for b in self.cell_bits]
        self.sat = {}
        for n, w, sg in SAT[msm]:
            self.sat[n] = [pin.get((n, i), pin.get(n)) if (n, i) in pin or n in pin else
                           (env.sint if sg else env.uint)("%s%s_%d" % (tag, n, i), w) for i in range(len(self.sats))]
            f += [(v, w) for v in self.sat[n]]
        self.sgn = {}
        for n, w, sg in SGN[msm]:
            self.sgn[n] = [pin.get((n, i), pin.get(n)) if (n, i) in pin or n in pin else
                           (env.sint if sg else env.uint)("%s%s_%d" % (tag, n, i), w) for i in range(len(self.cells))]
            f += [(v, w) for v in self.sgn[n]]
        self.nbits = sum(w for _, w in f)
        self.payload = env.build(f)

    @property
    def sat_mask(self):
        return sum(1 << (s - 1) for s in self.sats)

    @property
    def sgn_mask(self):
        return sum(1 << (s - 1) for s in self.sigs)

    @property
    def cell_mask(self):
        return sum(b << k for k, b in enumerate(self.cell_bits))


def invalid(width):
    return -(1 << (width - 1))
