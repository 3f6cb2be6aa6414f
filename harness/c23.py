"""C23: message numbers are classified and dispatched to the responsible sub-decoder; data blocks to the responsible sub-printer."""
from harness.common import frame
from harness.conv import MODS, BASES, EPHS, MSMS, class_name, split
from harness.ephspec import SPEC

MODULES = MODS + ["utilities"]
BOUNDS = ("task 'subset': every number of 0..65535; task 'dispatch': every message number 0..4095, two stand-in sub-decoders that implement a free part of their subset "
          "and answer with the right kind of block, a wrong one, nothing, or one of five exceptions; task 'register': incomplete registrations are refused; "
          "task 'printer': every data block type, stand-in sub-printers with free type sets that succeed, fail an assertion or are absent")
OUTSIDE = "sub-decoders registered for overlapping numbers"
ASSUMPTIONS = []
EG = {1019: "G", 1020: "R", 1041: "I", 1042: "B", 1044: "Q", 1045: "E", 1046: "E"}
ANSWERS = ("right", "wrong", "none", "ValueError", "IndexError", "AssertionError", "KeyError", "Own")


def TASKS(tier):
    t = [{"fn": "subset", "w": w} for w in (12, 16)]
    for a in ANSWERS:
        for s in ("EPH", "BASE", "MSM47O", "MSM13O"):
            t.append({"fn": "dispatch", "subset": s, "answer": a})
    t.append({"fn": "register"})
    for f in ("MARGO", "JSON", "JARGO"):
        for k in range(16):
            t.append({"fn": "printer", "format": f, "k": k})
    return t


def COVERS(tier):
    return ["MSM", "ephemeris", "legacy", "no class", "dispatched", "not dispatched", "refused", "printed", "print failed", "no printer"]


def expected(num):
    if num in EG:
        return EG[num], "EPH"
    if num in MSMS:
        g, m = split(num)
        return g, "MSM%d" % m
    for i, b in enumerate((1001, 1009)):
        if b <= num <= b + 3:
            return "GR"[i], "LEG%d" % (num - b + 1)
    return "", ""


KNOWN = sorted(list(EG) + MSMS + [1001, 1002, 1003, 1004, 1009, 1010, 1011, 1012])


def subset(env):
    u = env.imp("utilities")
    num = env.uint("num", env.params["w"])
    g, s = u.getSubset(num)
    want = [n for n in KNOWN if expected(n) == (g, s)]
    if (g, s) == ("", ""):
        env.check(env.all([num != n for n in KNOWN]), "every known number has its class")
        env.cover("no class")
    else:
        env.check(env.any([num == n for n in want]), "class %s/%s" % (g, s))
        env.cover("ephemeris" if s == "EPH" else "MSM" if s.startswith("MSM") else "legacy")


class Own(Exception):
    pass


NUMS = {"EPH": EPHS, "BASE": BASES, "MSM47O": [n for n in MSMS if split(n)[1] > 3], "MSM13O": [n for n in MSMS if split(n)[1] < 4]}


def dispatch(env):
    sub, ans = env.params["subset"], env.params["answer"]
    dt, gt = env.imp("decoder_top"), env.imp("gnss_types")
    top = dt.DecoderTop()
    own = NUMS[sub]
    bare = ans == "right"
    seen = []
    calls = {"other": 0}
    io = dt.SubDecoderInterface(sub, bare)
    gone = {own[0], own[len(own) // 2]} if bool(env.bool("part")) else set()
    io.actual_messages = set(own) - gone
    extra = bool(env.bool("extra"))
    if extra:
        # a number outside the subset's specification is not the sub-decoder's business
        io.actual_messages |= {1300}
    num = env.uint("num", 12)
    payload = env.build([(num, 12), (env.uint("r", 20), 20)])
    fr = frame(env, payload)

    def decode(buf):
        seen.append(buf)
        if ans in ("ValueError", "IndexError", "AssertionError", "KeyError"):
            raise {"ValueError": ValueError, "IndexError": IndexError, "AssertionError": AssertionError, "KeyError": KeyError}[ans]("x")
        if ans == "Own":
            raise Own()
        if ans == "none":
            return None
        if ans == "wrong":
            return ["not a block"]
        k = env.fork_int(num)
        b = getattr(gt, class_name(k, bare))
        try:
            calls["b"] = b()
        except TypeError:
            calls["b"] = b.__new__(b)
        return calls["b"]

    def other(buf):
        calls["other"] += 1
        return None
    io.decode = decode
    io2 = dt.SubDecoderInterface("BASE" if sub == "EPH" else "EPH")
    io2.decode = other
    io2.actual_messages = set(NUMS["BASE" if sub == "EPH" else "EPH"])
    env.check(top.register_decoder(io) is True and top.register_decoder(io2) is True, "registered")
    got = top.decode(fr)
    mine = sorted(set(own) - gone)
    if seen:
        env.check(env.any([num == n for n in mine]), "called for its own numbers only")
        env.check(len(seen) == 1 and calls["other"] == 0, "one sub-decoder, one call")
        env.eq(seen[0], fr, "the whole message is handed over")
        env.check((top.dec_attempts, top.dec_errors) == (1, 0 if ans == "right" else 1), "%s: counted" % ans)
        env.check(got is calls.get("b") if ans == "right" else got is None, "%s: result" % ans)
        env.cover("dispatched")
    else:
        env.check(env.all([num != n for n in mine]), "called for each of its numbers")
        env.check(got is None and top.dec_attempts == calls["other"], "nothing decoded")
        env.cover("not dispatched")


def register(env):
    dt, pt = env.imp("decoder_top"), env.imp("printer_top")
    top = dt.DecoderTop()
    io = dt.SubDecoderInterface("EPH")
    env.check(top.register_decoder(None) is False, "not an interface")
    io.actual_messages = {1019}
    env.check(top.register_decoder(io) is False, "no decode method")
    io = dt.SubDecoderInterface("EPH")
    io.decode = lambda b: None
    env.check(top.register_decoder(io) is False, "no messages")
    env.check(len(top.decoders) == 0, "nothing registered")
    p = pt.PrinterTop()
    s = pt.SubPrinterInterface()
    s.print, s.close, s.actual_spec = (lambda b: None), (lambda: None), {int}
    env.check(p.add_subprinter(s) is False, "no format")
    p.format = "JSON"
    env.check(p.add_subprinter(object()) is False, "not an interface")
    for miss in ("print", "close", "spec"):
        s = pt.SubPrinterInterface()
        if miss != "print":
            s.print = lambda b: None
        if miss != "close":
            s.close = lambda: None
        if miss != "spec":
            s.actual_spec = {int}
        env.check(p.add_subprinter(s) is False, "no " + miss)
    env.check(not p.ready, "nothing registered")
    p.format = "NOPE"
    env.check(not p.exist, "unknown format")
    env.cover("refused")


def printer(env):
    pt, gt = env.imp("printer_top"), env.imp("gnss_types")
    fmt, k = env.params["format"], env.params["k"]
    names = sorted({class_name(n, b) for n in MSMS + EPHS + BASES for b in (False, True)})
    types = [getattr(gt, n) for n in names]
    p = pt.PrinterTop()
    p.format = fmt
    got = {0: [], 1: []}
    closed = []
    fail = bool(env.bool("fail"))
    has = [bool(env.bool("has%d" % i)) for i in range(2)]
    t = types[k % len(types)]
    for i in range(2):
        s = pt.SubPrinterInterface()
        s.data_spec = pt.SubPrinterInterface.make_specs(fmt)
        s.actual_spec = {x for j, x in enumerate(types) if j % 2 == i and (x is not t or has[i])} | {int}

        def pr(b, i=i):
            got[i].append(b)
            if fail:
                raise AssertionError("no")
        s.print = pr
        s.close = lambda i=i: closed.append(i)
        env.check(p.add_subprinter(s) is True, "registered")
    b = t.__new__(t)
    p.print(b)
    p.print(5)
    spec = {"MARGO": {"ObservablesMSM"}, "JSON": set(names),
            "JARGO": {n for n in names if not n.startswith(("Obs", "Bare"))}}[fmt]
    i = (k % len(types)) % 2
    on = has[i] and t.__name__ in spec
    env.check(len(got[i]) == (1 if on else 0) and all(x is b for x in got[i]) and not got[1 - i], "the responsible sub-printer gets the block, once")
    env.check((p.attempts, p.errors) == ((1, 1 if fail else 0) if on else (0, 0)), "counted")
    p.close()
    env.check(sorted(closed) == [0, 1], "all sub-printers are closed")
    env.cover("no printer" if not on else "print failed" if fail else "printed")
