"""Ephemeris messages after RTCM 10403.3, tables 3.5-21 ff.: field, width, kind (u unsigned, s two's complement,
m sign-magnitude, - reserved) and resolution (pN: 2^-N, xN: times N, 1: as is, e10: 1e-10)."""
from fractions import Fraction as Fr

_KEPLER_GPS = """crs 16 s p5; delta_n 16 s p43; m0 32 s p31; cuc 16 s p29; e 32 u p33; cus 16 s p29; sqrt_a 32 u p19; te 16 u x16;
 cic 16 s p29; omega0 32 s p31; cis 16 s p29; i0 32 s p31; crc 16 s p5; w 32 s p31; omega_dot 24 s p43;"""
_KEPLER_GAL = _KEPLER_GPS.replace("te 16 u x16", "te 14 u x60")
_GAL = """msgNum 12 u 1; satNum 6 u 1; weekNum 12 u 1; IODnav 10 u 1; SISA 8 u 1; i_dot 14 s p43; tc 14 u x60; af2 6 s p59; af1 21 s p46;
 af0 31 s p34;""" + _KEPLER_GAL

_TEXT = {
    1019: """msgNum 12 u 1; satNum 6 u 1; weekNum 10 u 1; URA 4 u 1; L2_Codes 2 u 1; i_dot 14 s p43; IODE 8 u 1; tc 16 u x16; af2 8 s p55;
 af1 16 s p43; af0 22 s p31; IODC 10 u 1;""" + _KEPLER_GPS + """ TGD 8 s p31; SVH 6 u 1; L2P_Data 1 u 1; Fit 1 u 1""",
    1020: """msgNum 12 u 1; satNum 6 u 1; frqSloNum 5 u slot; Cn 1 u 1; AlmHAI 1 u 1; P1 2 u 1; tk 12 u tk; BnMSB 1 u 1; P2 1 u 1; tb 7 u x900;
 dotXn 24 m p20; xn 27 m p11; dotDotXn 5 m p30; dotYn 24 m p20; yn 27 m p11; dotDotYn 5 m p30; dotZn 24 m p20; zn 27 m p11;
 dotDotZn 5 m p30; P3 1 u 1; gamma_n 11 m p40; P 2 u 1; ln3 1 u 1; tauN 22 m p30; delta_tauN 5 m p30; En 5 u 1; P4 1 u 1; Ft 4 u 1;
 Nt 11 u 1; M 2 u 1; auxDataOK 1 u 1; Na 11 u 1; tauC 32 m p31; N4 5 u 1; tauGPS 22 m p30; ln5 1 u 1; - 7 - -""",
    1041: """msgNum 12 u 1; satNum 6 u 1; weekNum 10 u 1; af0 22 s p31; af1 16 s p43; af2 8 s p55; URA 4 u 1; tc 16 u x16; TGD 8 s p31;
 delta_n 22 s p41; IODEC 8 u 1; - 10 - -; L5_Flag 1 u 1; S_Flag 1 u 1; cuc 15 s p28; cus 15 s p28; cic 15 s p28; cis 15 s p28; crc 15 s p4;
 crs 15 s p4; i_dot 14 s p43; m0 32 s p31; te 16 u x16; e 32 u p33; sqrt_a 32 u p19; omega0 32 s p31; w 32 s p31; omega_dot 22 s p41;
 i0 32 s p31; - 4 - -""",
    1042: """msgNum 12 u 1; satNum 6 u 1; weekNum 13 u 1; URAI 4 u 1; i_dot 14 s p43; AODE 5 u 1; tc 17 u x8; af2 11 s p66; af1 22 s p50;
 af0 24 s p33; AODC 5 u 1; crs 18 s p6; delta_n 16 s p43; m0 32 s p31; cuc 18 s p31; e 32 u p33; cus 18 s p31; sqrt_a 32 u p19; te 17 u x8;
 cic 18 s p31; omega0 32 s p31; cis 18 s p31; i0 32 s p31; crc 18 s p6; w 32 s p31; omega_dot 24 s p43; TGD1 10 s e10; TGD2 10 s e10;
 SVH 1 u 1""",
    1044: """msgNum 12 u 1; satNum 4 u 1; tc 16 u x16; af2 8 s p55; af1 16 s p43; af0 22 s p31; IODE 8 u 1;""" + _KEPLER_GPS + """
 i_dot 14 s p43; L2_Codes 2 u 1; weekNum 10 u 1; URA 4 u 1; SVH 6 u 1; TGD 8 s p31; IODC 10 u 1; Fit 1 u 1""",
    1045: _GAL + """ E5a_BGD 10 s p32; E5a_SHS 2 u 1; E5a_DVS 1 u 1; - 7 - -""",
    1046: _GAL + """ E5a_BGD 10 s p32; E5b_BGD 10 s p32; E5b_SHS 2 u 1; E5b_DVS 1 u 1; E1_SHS 2 u 1; E1_DVS 1 u 1; - 2 - -""",
}
CLASS = {1019: "EphGPS", 1020: "EphGLO", 1041: "EphNAVIC", 1042: "EphBDS", 1044: "EphQZS", 1045: "EphGALF", 1046: "EphGALI"}
BITS = {1019: 488, 1020: 360, 1041: 482, 1042: 511, 1044: 485, 1045: 496, 1046: 504}


def _parse(t):
    out = []
    for e in t.replace("\n", " ").split(";"):
        n, w, k, s = e.split()
        out.append((n, int(w), k, s))
    return out


SPEC = {k: _parse(v) for k, v in _TEXT.items()}
for _k, _v in SPEC.items():
    assert sum(f[1] for f in _v) == BITS[_k], (_k, sum(f[1] for f in _v))


def nbytes(num):
    return (BITS[num] + 7) // 8


def payload(env, num, extra=0):
    """Payload with every bit after the message number symbolic."""
    n = 8 * (nbytes(num) + extra)
    return env.build([(num, 12), (env.uint("p", n - 12), n - 12)])


def raw(env, pay, num):
    """[(field, raw value, resolution)] of a payload."""
    pos = 0
    out = []
    for name, w, k, s in SPEC[num]:
        if k == "u":
            v = env.field(pay, pos, w)
        elif k == "s":
            v = env.field(pay, pos, w, True)
        elif k == "m":
            m = env.field(pay, pos + 1, w - 1)
            v = env.ite(env.field(pay, pos, 1) == 1, -m, m)
        pos += w
        if k != "-":
            out.append((name, v, s, w))
    return out


def res(s):
    if s == "1":
        return Fr(1)
    if s[0] == "p":
        return Fr(1, 2 ** int(s[1:]))
    if s[0] == "x":
        return Fr(int(s[1:]))
    return Fr(1, 10 ** int(s[1:]))


def terms(num, extra=0):
    """{field: (bit-vector term over the payload input, signed?)}: the layout once more, for env.again."""
    n = 8 * (nbytes(num) + extra)
    out = {}
    pos = 0
    for name, w, k, _ in SPEC[num]:
        def term(bv, low=n - pos - w, w=w, k=k):
            import z3
            if low + w > n - 12:  # the message number
                return z3.BitVecVal(num, 12)
            x = z3.Extract(low + w - 1, low, bv("p"))
            if k != "m":
                return x
            m = z3.ZeroExt(1, z3.Extract(w - 2, 0, x))
            return z3.If(z3.Extract(w - 1, w - 1, x) == 1, -m, m)
        if k != "-":
            out[name] = (term, k in "sm")
        pos += w
    return out
