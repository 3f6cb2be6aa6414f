"""C03: the frame check is CRC-24Q."""
from harness.common import crc24q

MODULES = ["utilities.CRC24Q", "decoder_top"]
BOUNDS = "every byte string of the listed lengths (quick: 0..259, 1000..1029 and a selection between, thorough: all 0..1029), all bits symbolic"
OUTSIDE = "longer strings (no frame is longer than 1029 bytes)"
ASSUMPTIONS = ["integers are unbounded as in Python"]


def TASKS(tier):
    ls = list(range(0, 260)) + list(range(260, 1000, 37)) + [511, 512, 513] + list(range(1000, 1030))
    if tier != "quick":
        ls = list(range(0, 1030))
    return [{"fn": "crc", "n": n} for n in ls] + [
        {"fn": "frame_crc", "n": n, "zero": z} for n in (0, 1, 2, 3, 21, 255, 256, 700, 1023)
        for z in ((0, 7) if tier == "quick" else (0, 1, 4, 6, 7))]


def COVERS(tier):
    return ["crc", "accepted", "rejected"]


def crc(env):
    n = env.params["n"]
    data = env.bytes("d", n)
    got = env.imp("utilities.CRC24Q").CRC24Q.calc(data)
    env.eq(got, crc24q(env, data), "CRC-24Q of %d bytes" % n)
    if 0 < n <= SECOND:
        env.again([(got, (lambda bv: register(bv("d"), n), False))])
    env.observe("crc", got)
    env.cover("crc")


SECOND = 2


def register(d, n):
    """The 24-bit shift register of CRC-24Q, as a bit-vector term."""
    import z3
    r = z3.BitVecVal(0, 24)
    for k in range(8 * n - 1, -1, -1):
        top = z3.Extract(23, 23, r) ^ z3.Extract(k, k, d)
        r = (r << 1) ^ z3.If(top == 1, z3.BitVecVal(0x864CFB, 24), z3.BitVecVal(0, 24))
    return r


def frame_crc(env):
    """A frame with an arbitrary payload and an arbitrary CRC field is accepted exactly when the field is the CRC."""
    n = env.params["n"]
    z = env.params["zero"]
    # one bit of every payload byte is 0, so that no payload byte looks like a preamble
    body = env.build([(0 if i % 8 == 7 - z else env.uint("p%d" % i, 1), 1) for i in range(8 * n)])
    crc = env.bytes("c", 3)
    top = env.imp("decoder_top").DecoderTop()
    fr = env.cat(bytes([0xD3, n >> 8, n & 255]), body, crc)
    good = crc24q(env, fr[:n + 3]) == env.field(crc, 0, 24)
    env.assume(env.all([b != 0xD3 for b in crc]))
    got = top.catch_message(fr)
    env.check(good if len(got) == 1 else env.inv(good), "accepted exactly when the CRC matches")
    if got:
        env.check(len(got) == 1, "one message")
        env.eq(got[0], fr, "the frame itself")
        env.cover("accepted")
    else:
        env.cover("rejected")
    env.observe("n", len(got))
