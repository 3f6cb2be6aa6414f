"""Shared reference definitions, written from RTCM 10403 and independent of the repository."""

POLY = 0x1864CFB


def crc_rem(nbits):
    """x^(24+i) mod P for i < nbits, as 24-bit integers."""
    out = []
    r = POLY & 0xFFFFFF
    for _ in range(nbits):
        out.append(r)
        r <<= 1
        if r >> 24:
            r ^= POLY
    return out


_REM = crc_rem(8 * 1100)


def crc24q(env, data):
    """Reference CRC-24Q: remainder of data(x) * x^24 modulo the generator, as an integer."""
    n = len(data)
    acc = 0
    for i in range(n):
        b = data[i]
        base = 8 * (n - 1 - i)
        if isinstance(b, int):
            for k in range(8):
                if (b >> k) & 1:
                    acc = acc ^ _REM[base + k]
        else:
            for k in range(8):
                acc = acc ^ (-((b >> k) & 1) & _REM[base + k])
    return acc


def frame(env, payload):
    """A valid transport frame around the payload."""
    n = len(payload)
    head = env.cat(bytes([0xD3, n >> 8, n & 255]), payload)
    return env.cat(head, env.build([(crc24q(env, head), 24)]))


MODS = ["decoder_top", "sub_decoders", "gnss_types"]


def decoder(env, bare):
    """Top level decoder with all sub-decoders, as the converters build it."""
    top = env.imp("decoder_top").DecoderTop()
    sd = env.imp("sub_decoders")
    for cls in (sd.SubdecoderMSM4567, sd.SubdecoderMSM123, sd.SubdecoderEph, sd.SubdecoderBaseStationData):
        if not top.register_decoder(cls(bare).io):
            raise RuntimeError("decoder not registered")
    return top


def isa(env, obj, name):
    """Is obj an instance of the data class with this name (checked by class name)?"""
    return type(obj).__name__ == name


def fields(obj):
    import dataclasses
    return [f.name for f in dataclasses.fields(obj)]


class Fixed:
    """Like env, but its inputs are fixed values derived from their names: filler for long histories."""

    def __init__(self, env, salt=0):
        self._env, self._salt = env, salt

    def __getattr__(self, n):
        return getattr(self._env, n)

    def uint(self, name, nbits):
        x = 0
        for i in range(0, nbits, 16):
            h = 40503 * (self._salt + 1) + i
            for c in name:
                h = (h * 1000003 ^ ord(c)) & 0xFFFFFFFF
            h = (h ^ (h >> 13)) * 0x5BD1E995 & 0xFFFFFFFF
            x = (x << 16) | ((h ^ (h >> 15)) & 0xFFFF)
        return x & ((1 << nbits) - 1)

    def sint(self, name, nbits):
        x = self.uint(name, nbits)
        return x - (1 << nbits) if x >> (nbits - 1) else x

    def bool(self, name):
        return self.uint(name, 1) == 1

    def bytes(self, name, n):
        return bytes(self.uint("%s.%d" % (name, i), 8) for i in range(n))

    def assume(self, c):
        if c is False:
            raise Unlucky


class Unlucky(Exception):
    """Fixed values that an assumption excludes: take another salt."""


def fixed(env, salt, make):
    """make(filler environment), with the first salt from this one on that satisfies its assumptions."""
    for k in range(100):
        try:
            return make(Fixed(env, salt + 1000 * k))
        except Unlucky:
            pass
    raise ValueError("no fixed values")
