"""C01: exactly the frames of the byte stream come out, in order, byte for byte."""
from harness.stream import scan, segments
from harness.c02 import HUGE, FLOOD

MODULES = ["decoder_top"]
BOUNDS = ("(a) every byte string of the lengths listed (quick: 0..9, thorough: 0..12), all bits symbolic; (b) streams made of junk, valid "
          "frames of payload lengths 0..1023 with symbolic contents, corrupted, truncated and nested frames, up to ~4 kB; (c) three streams "
          "of up to 90 kB, mostly of fixed frames, with one pause at the listed places")
OUTSIDE = "fully unconstrained strings longer than the bound; in longer streams the bytes outside valid frames are 'safe' (not 0xD3) except where listed"
ASSUMPTIONS = ["the stream is offered in one piece, or with one pause at the listed places (C02 covers divisions in general)"]
LIMITS = {"max_conc": 1100}


def TASKS(tier):
    t = []
    for n in range(0, 10 if tier == "quick" else 13):
        t.append({"fn": "free", "n": n})
    S = [
        [["frame", 0]], [["frame", 1]], [["frame", 1023]], [["frame", 1022]],
        [["frame", 255], ["frame", 256], ["frame", 257]],
        [["frame", 511], ["frame", 512], ["frame", 1023], ["frame", 1023]],
        [["frame", n] for n in (0, 1, 2, 3, 4, 5, 6, 7)],
        [["junk", 2], ["frame", 4], ["junk", 2], ["frame", 3]],
        [["frame", 2], ["junk", 3], ["frame", 5]],
        [["frame", 2], ["junk", 1], ["frame", 5], ["junk", 1], ["frame", 0]],
        [["safe", 300], ["frame", 40], ["safe", 1], ["frame", 20], ["safe", 1100], ["frame", 1023]],
        [["frame", 8], ["bad", 12], ["frame", 9]],
        [["frame", 8], ["bad", 300], ["bad", 1023], ["frame", 9], ["bad", 5], ["frame", 1]],
        [["bad", 3], ["frame", 9], ["frame", 10]],
        [["frame", 8], ["nest", 0, 5, 0], ["frame", 3]],
        [["frame", 8], ["nest", 7, 30, 11], ["frame", 3]],
        [["nest", 300, 200, 100], ["frame", 3], ["nest", 1, 2, 3]],
        [["frame", 3], ["trunc", 40, 7], ["calm", 20], ["calm", 30], ["frame", 5]],
        [["frame", 3], ["trunc", 1023, 500], ["calm", 600], ["frame", 30]],
        [["trunc", 60, 2], ["calm", 20], ["calm", 30], ["frame", 31]],
        [["frame", 3], ["trunc", 1023, 5]],
        [["frame", 6], ["lit", "d3"], ["frame", 6], ["lit", "d3d3"], ["frame", 4], ["lit", "d300"], ["calm", 300]],
        [["frame", 6], ["lit", "d304"], ["frame", 6], ["lit", "d3fc"], ["frame", 4], ["lit", "d303"], ["calm", 1023]],
        [["frame", 6], ["lit", "d3"]],
        [["frame", 6], ["lit", "d30000"]],
        [["frame", 6], ["lit", "00"], ["frame", 6], ["lit", "ff00ff"], ["frame", 6]],
        [["frame", 2]] * 40,
        [["frame", 2], ["safe", 1]] * 20,
    ]
    if tier != "quick":
        S += [[["junk", 4], ["frame", 3], ["junk", 3], ["frame", 2]], [["frame", 2], ["junk", 6], ["frame", 9]]]
        S += [[["frame", n], ["frame", 3]] for n in range(0, 1024)]
        S += [[["frame", 3], ["bad", n], ["frame", 3]] for n in range(0, 1024, 7)]
        S += [[["frame", 3], ["nest", a, b, c], ["frame", 3]] for a in (0, 1, 2, 100) for b in (0, 1, 19, 600) for c in (0, 1, 2, 90)]
        S += [[["frame", 3], ["trunc", L, k], ["calm", 20], ["calm", L + 3]] for L in (10, 30, 200, 1000) for k in (0, 1, 3, 9)]
    t += [{"fn": "stream", "segs": s} for s in S]
    # the same with a pause: what is not complete at the pause has to wait
    for n in range(2, 8):
        for c in range(1, n):
            t.append({"fn": "free", "n": n, "cut": c})
    W = [[["safe", 2], ["frame", 6], ["safe", 1], ["frame", 3]], [["frame", 3], ["lit", "11d3"], ["frame", 4]],
         [["frame", 2], ["trunc", 14, 2], ["calm", 6], ["calm", 7]], [["bad", 4], ["frame", 2], ["frame", 0]]]
    for s in W:
        for c in range(1, 30):
            t.append({"fn": "stream", "segs": s, "cut": c})
    # far more than one frame at once, with and without a nearly complete frame waiting
    for s in HUGE + [FLOOD]:
        for c in (None, 1, 7, 500, 1023, 1026, 1027, 1028, 4096, 5119, 5121, 8192):
            t.append({"fn": "stream", "segs": s, "cut": c})
    return t


def COVERS(tier):
    return ["no frame", "one frame", "three frames or more", "parse error", "no parse error", "waiting", "pause"]


def run(env, data):
    top = env.imp("decoder_top").DecoderTop()
    cut = env.params.get("cut")
    if cut is None:
        got = top.catch_message(data)
    else:
        got = list(top.catch_message(data[:cut]))
        exp, errs, wait = scan(env, data[:cut])
        env.check(len(got) == len(exp), "number of frames before the pause")
        env.eq(top.parse_errors, errs, "number of parse errors before the pause")
        got += top.catch_message(data[cut:])
        env.cover("pause")
    exp, errs, wait = scan(env, data)
    if env.check(len(got) == len(exp), "number of frames"):
        pass
    for i, (a, b) in enumerate(exp[:len(got)]):
        env.eq(got[i], data[a:b], "frame %d" % i)
    env.eq(top.parse_errors, errs, "number of parse errors")
    env.observe("frames", [len(g) for g in got])
    env.observe("errors", top.parse_errors)
    env.cover("no frame" if not exp else ("one frame" if len(exp) == 1 else ("three frames or more" if len(exp) > 2 else "two frames")))
    env.cover("parse error" if errs else "no parse error")
    if wait < len(data):
        env.cover("waiting")
    return got, exp


def free(env):
    run(env, env.bytes("d", env.params["n"]))


def stream(env):
    data, whole = segments(env, env.params["segs"])
    run(env, data)
