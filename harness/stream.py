"""Byte streams and the reference frame scanner (RTCM 10403 transport layer)."""
from harness.common import crc24q, frame


def scan(env, data):
    """Reference scanner over a complete byte string -> ([(start, end)], parse errors, waiting position).

    A frame is 0xD3, six zero bits, a ten bit payload length, the payload and its CRC-24Q. Every byte that cannot
    start a frame that checks is dropped, one at a time; a candidate that is not complete yet ends the scan.
    Dropped bytes between two frames count as one parse error, however many there are."""
    n = len(data)
    out = []
    errs = 0
    dirty = False
    i = 0
    while i < n:
        if not (data[i] == 0xD3):
            dirty = True
            i += 1
            continue
        if i + 1 < n and not (data[i + 1] < 4):
            dirty = True
            i += 1
            continue
        if n - i < 6:
            break
        ln = ((data[i + 1] & 3) << 8) + data[i + 2]
        if ln + 6 > n - i:
            break
        ln = env.fork_int(ln)
        if crc24q(env, data[i:i + 3 + ln]) == env.field(data, 8 * (i + 3 + ln), 24):
            out.append((i, i + ln + 6))
            if dirty and len(out) > 1:
                errs += 1
            dirty = False
            i += ln + 6
        else:
            dirty = True
            i += 1
    return out, errs, i


def safe(env, name, k, z=0):
    """k arbitrary bytes none of which is 0xD3 (bit z is 0)."""
    return env.build([(0 if i % 8 == 7 - z else env.uint("%s_%d" % (name, i), 1), 1) for i in range(8 * k)]) if k else b""


def calm(n, salt=0):
    """A fixed valid frame of payload length n without a further 0xD3."""
    for k in range(1000):
        p = bytes((17 * (i + 1) * (salt + 3) + 31 * k + (i >> 3)) % 211 for i in range(n))
        f = frame(_CONC, p)
        if 0xD3 not in f[1:]:
            return f
    raise ValueError


class _Conc:
    @staticmethod
    def cat(*b):
        return b"".join(b)

    @staticmethod
    def build(fs):
        (v, w), = fs
        return v.to_bytes(w // 8, "big")


_CONC = _Conc()


def segments(env, segs):
    """Byte stream from a list of segments; also returns the frames that were put in as a whole."""
    parts = []
    whole = []
    pos = 0
    for j, s in enumerate(segs):
        kind = s[0]
        nm = "s%d" % j
        if kind == "junk":
            b = env.bytes(nm, s[1])
        elif kind == "safe":
            b = safe(env, nm, s[1])
        elif kind == "lit":
            b = bytes.fromhex(s[1])
        elif kind == "frame":
            b = frame(env, env.bytes(nm, s[1]))
            whole.append((pos, pos + len(b)))
        elif kind == "calm":
            b = calm(s[1], j)
            whole.append((pos, pos + len(b)))
        elif kind == "zero":
            b = bytes(s[1])
        elif kind == "many":
            # s[2] fixed frames of payload length s[1]
            b = b"".join([calm(s[1], j)] * s[2])
            whole += [(pos + i * (s[1] + 6), pos + (i + 1) * (s[1] + 6)) for i in range(s[2])]
        elif kind == "bad":
            # a frame of safe bytes whose checksum is wrong
            n = s[1]
            head = env.cat(bytes([0xD3, n >> 8, n & 255]), safe(env, nm, n))
            c = env.bytes(nm + "c", 3)
            env.assume(env.all([x != 0xD3 for x in c]))
            env.assume(crc24q(env, head) != env.field(c, 0, 24))
            b = env.cat(head, c)
        elif kind == "nest":
            # a frame with a wrong checksum whose payload contains a valid frame
            a, n, z = s[1], s[2], s[3]
            inner = frame(env, env.bytes(nm, n))
            tot = a + len(inner) + z
            head = env.cat(bytes([0xD3, tot >> 8, tot & 255]), safe(env, nm + "a", a), inner, safe(env, nm + "z", z))
            c = env.bytes(nm + "c", 3)
            env.assume(env.all([x != 0xD3 for x in c]))
            env.assume(crc24q(env, head) != env.field(c, 0, 24))
            b = env.cat(head, c)
        elif kind == "trunc":
            n, k = s[1], s[2]
            b = env.cat(bytes([0xD3, n >> 8, n & 255]), safe(env, nm, k))
        else:
            raise ValueError(kind)
        parts.append(b)
        pos += len(b)
    return env.cat(*parts), whole


def feed(top, data, cuts):
    """Feeds data in the pieces given by the cut positions; returns the messages in order."""
    out = []
    pts = [0] + list(cuts) + [len(data)]
    for a, b in zip(pts, pts[1:]):
        out.extend(top.catch_message(data[a:b]))
    return out
