"""C04: bit fields are read exactly, and a read that leaves the buffer is refused."""
MODULES = ["utilities"]
BOUNDS = ("buffers of 0..20 bytes with every bit symbolic; start position and length symbolic (quick: buffers up to 6 bytes, all "
          "starts/lengths incl. invalid ones; plus widths up to 130 at selected starts in a 20 byte buffer, selected widths and starts in buffers of 300, 1029 and 4000 bytes); reversal: every width up to 128 of a 128-bit symbolic value")
OUTSIDE = "other starts and widths in buffers longer than 20 bytes; fields wider than 130 bits"
ASSUMPTIONS = ["a field ending inside the last byte of the buffer is inside the buffer"]


def TASKS(tier):
    t = []
    nb = (0, 1, 2, 3, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8, 10)
    for n in nb:
        for s in range(-2, 8 * n + 3):
            t.append({"fn": "read", "n": n, "s": s, "lens": list(range(-2, 8 * n - s + 10))})
    starts = (0, 3, 7, 8, 24, 36, 85, 149) if tier == "quick" else range(0, 161)
    for s in starts:
        t.append({"fn": "read", "n": 20, "s": s, "lens": list(range(-1, 132))})
    # the longest frame, and beyond
    for n, ss in ((1029, (0, 24, 4095, 4096, 8191, 8192, 8193, 8100, 8103, 8231, 8232)), (300, (2047, 2048, 2040, 2300, 2399)), (4000, (31990, 16385))):
        for s in ss:
            t.append({"fn": "read", "n": n, "s": s, "lens": [0, 1, 2, 7, 8, 9, 12, 16, 20, 24, 32, 33, 63, 64, 65, 127, 128, 129]})
    for w in range(1, 129):
        t.append({"fn": "rev", "w": w})
    return t


def COVERS(tier):
    return ["read", "refused", "reversed"]


def read(env):
    n, s = env.params["n"], env.params["s"]
    U = env.imp("utilities")
    buf = env.bytes("b", n)
    more = []
    for ln in env.params["lens"]:
        ok = 1 <= ln <= 128 and s >= 0 and s + ln <= 8 * n
        for signed in (False, True):
            f = U.Bits.getbits if signed else U.Bits.getbitu
            try:
                v = f(buf, s, ln)
            except U.ExceptionBitsError:
                env.check(not ok, "a field inside the buffer is readable (start %d, length %d of %d bytes)" % (s, ln, n))
                env.cover("refused")
                continue
            env.check(ok, "a field outside the buffer is refused (start %d, length %d of %d bytes)" % (s, ln, n))
            if ok:
                env.eq(v, env.field(buf, s, ln, signed), "value of the field (start %d, length %d, %s)"
                       % (s, ln, "signed" if signed else "unsigned"))
                more.append((v, (lambda bv, ln=ln: slice_(bv("b"), 8 * n - s - ln, ln), signed)))
                env.observe("v%d%d" % (ln, signed), v)
                env.cover("read")
    env.again(more)


def slice_(b, low, n):
    """n bits of the buffer, as a bit-vector term."""
    import z3
    return z3.Extract(low + n - 1, low, b)


def flip(b, low, n):
    import z3
    return z3.Concat(*[z3.Extract(low + i, low + i, b) for i in range(n)]) if n > 1 else z3.Extract(low, low, b)


def rev(env):
    w = env.params["w"]
    U = env.imp("utilities")
    x = env.uint("x", 128)
    more = []
    for ofs in (0, 1, 17, 64):
        if ofs + w > 128:
            continue
        exp = 0
        for i in range(w):
            exp = exp | (((x >> (ofs + i)) & 1) << (w - 1 - i))
        got = U.Bits.revbitu(x, w, ofs)
        env.eq(got, exp, "reversed %d bits" % w)
        env.eq(U.Bits.revbits(x, w, ofs), env.ite(x >> ofs & 1 == 1, exp - (1 << w), exp), "reversed signed %d bits" % w)
        more.append((got, (lambda bv, ofs=ofs: flip(bv("x"), ofs, w), False)))
        more.append((U.Bits.revbits(x, w, ofs), (lambda bv, ofs=ofs: flip(bv("x"), ofs, w), True)))
        if ofs == 0:  # the offset may be left out
            env.eq(U.Bits.revbitu(x, w), got, "reversed %d bits" % w)
            env.eq(U.Bits.revbits(x, w), U.Bits.revbits(x, w, 0), "reversed signed %d bits" % w)
    env.again(more)
    env.observe("r", got)
    env.cover("reversed")
