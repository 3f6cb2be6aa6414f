"""C13: the statistics count what happened."""
import os
from harness.common import fixed, frame
from harness.conv import MODS, SUPPORTED, EPHS, converter, cut, json_path, message, msm_msg
from harness.stream import safe

MODULES = MODS
BOUNDS = ("number: a frame of 2..3 payload bytes with all 4096 message numbers, in every mode; history: every sequence of 3 (thorough: 4) events "
          "out of {decodable ephemeris, station, MSM message, undecodable message, unknown number, junk bytes} and out of {MSM message, frame of two bytes, empty frame, frame with a wrong checksum, junk bytes}, contents symbolic, through "
          "parse_bytes/decode/print; long histories of 270..540 events, mostly with fixed contents; failure: sequences in which an output folder or a single output file of a message cannot be created")
OUTSIDE = "outputs that fail after they have been opened"
ASSUMPTIONS = ["the file system behaves as the sandbox's does"]
KINDS = "EBMCUJ"
SHORT = "MTZKJ"
WRONG = bytes.fromhex("d3000401020304000000")        # a frame with a wrong checksum


def TASKS(tier):
    q = tier == "quick"
    t = [{"fn": "number", "mode": m, "n": n} for m in ("MARGO", "JSON", "JSON-B", "JARGO") for n in (2, 3)]
    t.append({"fn": "unknown"})
    import itertools
    k = 0
    for seq in itertools.product(KINDS, repeat=3 if q else 4):
        k += 1
        for mode in ((["MARGO", "JSON", "JSON-B", "JARGO"][k % 4],) if q else ("MARGO", "JSON", "JSON-B", "JARGO")):
            t.append({"fn": "history", "mode": mode, "seq": "".join(seq), "v": k})
    for k, seq in enumerate(itertools.product(SHORT, repeat=4)):
        if not set(seq) & set("TZK") or q and k % 2 and seq[0] in "JK":
            continue
        t.append({"fn": "history", "mode": ["MARGO", "JSON", "JSON-B", "JARGO"][k % 4], "seq": "".join(seq), "v": k})
    for mode in ("JSON", "JSON-B", "JARGO"):
        for bad in ("EPH", "BASE"):
            for seq in ("EBE", "BEB", "EEB", "BBE"):
                t.append({"fn": "failure", "mode": mode, "bad": bad, "seq": seq})
    for mode in ("JSON", "JSON-B", "JARGO"):
        for bad, seq in (("EPH/GPS-EPH-1019.json", "EBEB"), ("BASE/RefPointHeight-1006.json", "BBE")):
            t.append({"fn": "failure", "mode": mode, "bad": bad, "seq": seq})
    for mode in ("MARGO", "JARGO"):
        for bad, seq in (("GPS", "MGMG"), ("GLN", "GMMGG"), ("GPS/GC1C_MSM7.obs", "MMGM"), ("GLN/RL1C_MSM7.obs", "GMG")):
            t.append({"fn": "failure", "mode": mode, "bad": bad, "seq": seq})
    t += [{"fn": "failure", "mode": "JARGO", "bad": b, "seq": "EMGBMEG"} for b in ("GPS", "GLN", "EPH", "BASE", "GPS/GL1C_MSM7.obs")]
    t += [{"fn": "failure", "mode": m, "bad": b, "seq": "EMGBMEG"} for m in ("JSON", "JSON-B") for b in ("MSM7", "EPH")]
    for mode in ("MARGO", "JSON", "JSON-B", "JARGO"):
        for seq in ("EBMCUJ" * 50, "E" * 300, "C" * 300, "JM" * 270, "U" * 290 + "MC", "M" * 300, "B" * 270 + "J" * 10, "TJ" * 140, "KZ" * 270, "ZMTK" * 70):
            if q and len(t) % 2 and seq[0] in "EB":
                continue
            t.append({"fn": "history", "mode": mode, "seq": seq, "v": len(seq) % 7, "long": True})
    return t


def COVERS(tier):
    return ["supported number", "other number", "parse error", "decoding error", "print error", "clean"]


def stats(env, c, want, lab):
    s = c.get_statistics()
    env.eq((s.decoding_attempts, s.decoding_errors, s.parsing_errors, s.printing_attempts, s.printing_errors), want, lab)


def number(env):
    mode, n = env.params["mode"], env.params["n"]
    c = converter(env, mode, env.workdir())
    num = env.uint("num", 12)
    b = c.decode(frame(env, env.build([(num, 12), (env.uint("rest", 8 * n - 12), 8 * n - 12)])))
    env.check(b is None, "no data")
    s = c.get_statistics()
    sup = env.any([num == k for k in sorted(SUPPORTED[mode])])
    if s.decoding_attempts == 1:
        env.check(sup, "only supported numbers are attempts")
        env.cover("supported number")
        stats(env, c, (1, 1, 0, 0, 0), "one attempt, one error")
    else:
        env.check(env.inv(sup), "every supported number is an attempt")
        env.cover("other number")
        stats(env, c, (0, 0, 0, 0, 0), "nothing counted")


def unknown(env):
    """A mode that does not exist gives no converter."""
    co, pr = env.imp("controls"), env.imp("printers")
    box = co.BoxWithConverterControls(pr.MargoControls(), pr.JSONControls())
    for m in ("RINEX", "", "json", "MARGO ", "JSON-C"):
        env.check(env.imp("converter_top").ConverterFactory(m)(env.workdir(), box) is None, "no converter for %r" % m)


def event(env, kind, i, v):
    t = "e%d_" % i
    if kind == "E":
        num = EPHS[(v + i) % 7]
        return num, message(env, num, t, v)
    if kind == "B":
        num = (1005, 1006, 1008, 1230, 1013)[(v + i) % 5]
        return num, message(env, num, t, v)
    if kind == "M":
        num = (1077, 1084, 1095, 1106, 1111, 1122, 1133)[(v + i) % 7]
        return num, message(env, num, t, v)
    if kind == "C":
        num = (1019, 1005, 1077, 1123, 1046, 1230, 1029)[(v + i) % 7]
        return num, cut(env, num, t)
    return (1001, 1004, 1012, 4094, 1057, 1300, 1070, 1078)[(v + i) % 8], None


def history(env):
    mode, seq, v = env.params["mode"], env.params["seq"], env.params["v"]
    c = converter(env, mode, env.workdir())
    sup = SUPPORTED[mode]
    att = err = par = pat = 0
    dirty = synced = False
    data = []
    for i, k in enumerate(seq):
        if k in "KZ":
            data.append((None, None, WRONG) if k == "K" else (k, 1150, frame(env, b"")))
            continue
        if k == "T":
            data.append((k, 1001, frame(env, env.build([(1001, 12), (env.uint("t%d" % i, 4) if i < 4 else 5, 4)]))))
            continue
        if k == "J":
            data.append((None, None, safe(env, "j%d" % i, 3 + i % 20)))
            continue
        if env.params.get("long") and 1 < i < len(seq) - 3:
            # fixed contents, except at both ends
            num, pay = fixed(env, i % 11, lambda e: event(e, k, i % 11, v))
            data.append((k, num, frame(env, pay if pay is not None else cut(fixed(env, i, lambda e: e), num, "e", 5))))
            continue
        num, pay = event(env, k, i, v)
        if pay is None:
            pay = cut(env, num, "e%d_" % i, 5)
        data.append((k, num, frame(env, pay)))
    for k, num, raw in data:
        if k is None:
            dirty = dirty or synced
        msgs = c.parse_bytes(raw)
        if k is None:
            env.check(len(msgs) == 0, "no message in junk")
            continue
        env.check(len(msgs) == 1, "the parser finds the frame")
        if len(msgs) != 1:
            return
        par += 1 if dirty and synced else 0
        dirty, synced = False, True
        b = c.decode(msgs[0])
        if b is not None:
            c.print(b)
        if num in sup:
            att += 1
            if k == "C":
                err += 1
            else:
                pat += 1
        stats(env, c, (att, err, par, pat, 0), "counts after event " + k)
    c.release()
    stats(env, c, (att, err, par, pat, 0), "counts at the end")
    for x, lab in ((par, "parse error"), (err, "decoding error")):
        if x:
            env.cover(lab)
    if not par and not err:
        env.cover("clean")


NUM = {"E": 1019, "B": 1006, "M": 1077, "G": 1087}


def failure(env):
    """The folder of one kind of output, or one file, cannot be created: every print of it is an attempt and an error, the others go on."""
    mode, bad, seq = env.params["mode"], env.params["bad"], env.params["seq"]
    wd = env.workdir()
    if "/" in bad:
        os.makedirs(wd + "/" + bad)
    else:
        with open(wd + "/" + bad, "w") as f:
            f.write("x")
    c = converter(env, mode, wd)
    pat = per = 0
    rows = {}
    for i, k in enumerate(seq):
        num = NUM[k]
        if k in "MG":
            m = msm_msg(env, num, "e%d_" % i, 0)
            if k == "G":
                env.assume(env.all([m.hdr["time"] & 0x7FFFFFF >= 10800000, m.hdr["time"] & 0x7FFFFFF < 86400000, m.hdr["time"] >> 27 < 7]))
            p = m.payload
        else:
            p = message(env, num, "e%d_" % i, i)
        b = c.decode(frame(env, p))
        c.print(b)
        obs = k in "MG" and mode in ("MARGO", "JARGO")
        outs = ["%s/%s%s1C_MSM7.obs" % ("GPS" if k == "M" else "GLN", "G" if k == "M" else "R", x) for x in "CLDS"] if obs else [json_path(num)]
        pat += 1
        per += any(o == bad or o.startswith(bad + "/") for o in outs)
        for o in outs:
            if o != bad and not o.startswith(bad + "/"):
                rows[o] = rows.get(o, 0) + 1
        stats(env, c, (i + 1, 0, 0, pat, per), "counts with a failing output")
    c.release()
    stats(env, c, (len(seq), 0, 0, pat, per), "counts with a failing output at the end")
    have = env.listing(wd)
    for o, n in rows.items():
        env.check(o in have, "the other outputs are written")
        if o in have and o.endswith(".json"):
            env.check(len(env.json(env.read(wd + "/" + o))) == n + 1, "the other output is complete")
        elif o in have:
            env.check(len(env.read(wd + "/" + o).split("\n")) == n + 3, "the other output is complete")
    if per:
        env.cover("print error")
