"""C02: how the stream is cut into pieces does not matter."""
from harness.stream import scan, segments, feed

MODULES = ["decoder_top"]
BOUNDS = ("(a) every byte string of length <= 7 (thorough 10), all bits symbolic, delivered byte by byte, and with one or two cuts at every place; "
          "(b) structured streams (valid, corrupted, truncated frames, junk, stray preambles) with one cut at every place, with "
          "two cuts at symbolic places in the short ones, and in equal pieces of 1..4096 bytes; empty pieces included; "
          "(c) three streams of up to 90 kB, mostly of fixed frames, in listed divisions")
OUTSIDE = "unconstrained strings longer than the bound; more than two cuts at arbitrary places in the long streams"
ASSUMPTIONS = []
LIMITS = {"max_conc": 1100}

STREAMS = [
    [["frame", 4], ["frame", 2]],
    [["safe", 2], ["frame", 3], ["safe", 3], ["frame", 0], ["lit", "d3"], ["frame", 1]],
    [["frame", 2], ["lit", "d3d3"], ["frame", 2], ["lit", "d300"], ["calm", 8]],
    [["frame", 3], ["bad", 4], ["frame", 3]],
    [["frame", 3], ["trunc", 14, 2], ["calm", 6], ["calm", 7]],
    [["frame", 3], ["nest", 2, 3, 1], ["frame", 3]],
    [["frame", 3], ["safe", 1], ["trunc", 12, 3]],
    [["frame", 1], ["lit", "d304"], ["frame", 1], ["lit", "d3fc00"], ["frame", 1], ["lit", "00d3"]],
    [["frame", 1], ["junk", 2], ["frame", 1]],
]
LONG = [
    [["frame", 1023], ["safe", 5], ["frame", 1023], ["frame", 255], ["frame", 256]],
    [["safe", 1500], ["frame", 600], ["bad", 700], ["frame", 1000], ["trunc", 1020, 30], ["calm", 500], ["calm", 700]],
]
# much longer than any one frame: nothing may depend on how much arrives at once or has arrived before
HUGE = [
    [["frame", 1023], ["many", 300, 14], ["frame", 5], ["many", 1023, 6], ["frame", 40], ["safe", 2], ["frame", 3]],
    [["frame", 3], ["zero", 9000], ["safe", 3], ["frame", 20], ["zero", 4200], ["frame", 2], ["many", 1023, 5], ["frame", 1]],
]
FLOOD = [["frame", 2], ["many", 1023, 33], ["frame", 9], ["many", 14, 1000], ["safe", 1], ["frame", 4], ["many", 250, 130], ["frame", 3]]


def size(segs):
    n = 0
    for s in segs:
        n += {"frame": lambda: s[1] + 6, "calm": lambda: s[1] + 6, "bad": lambda: s[1] + 6, "safe": lambda: s[1], "junk": lambda: s[1],
              "zero": lambda: s[1], "many": lambda: (s[1] + 6) * s[2],
              "lit": lambda: len(s[1]) // 2, "trunc": lambda: s[2] + 3, "nest": lambda: s[1] + s[2] + s[3] + 12}[s[0]]()
    return n


def TASKS(tier):
    t = []
    q = tier == "quick"
    for n in range(1, 8 if q else 10):
        t.append({"fn": "free", "n": n, "cuts": "each"})
        t.append({"fn": "free", "n": n, "cuts": "empty"})
        for c in range(0, n + 1):
            t.append({"fn": "free", "n": n, "cuts": [c]})
    for n in (6,) if q else (6, 7, 8):
        for a in range(1, n):
            for b in range(a, n):
                t.append({"fn": "free", "n": n, "cuts": [a, b]})
    for s in STREAMS:
        for c in range(0, size(s) + 1):
            t.append({"fn": "stream", "segs": s, "cuts": [c]})
        for step in (1, 2, 3, 5, 7):
            t.append({"fn": "stream", "segs": s, "cuts": list(range(step, size(s), step))})
        t.append({"fn": "stream", "segs": s, "cuts": "empty"})
        t.append({"fn": "two", "segs": s, "from": 1, "step": 4 if q else 1})
    for s in LONG:
        for step in (1, 64, 100, 512, 1000, 1023, 1024, 1029, 4096):
            t.append({"fn": "stream", "segs": s, "cuts": list(range(step, size(s), step))})
        for c in range(1, size(s), 401 if q else 11):
            t.append({"fn": "stream", "segs": s, "cuts": [c]})
    for s in HUGE:
        n = size(s)
        for c in ([n], [1028], [1027], [1], [5, n - 1], [1027, 1027 + 4096], [1000, 5096, 9192], [n - 3], list(range(4096, n, 4096)),
                  list(range(1024, n, 1024)), list(range(8192, n, 8192))):
            t.append({"fn": "stream", "segs": s, "cuts": c})
    for c in ([], [4096], [1000, 1000 + 65536], list(range(4096, size(FLOOD), 4096))):
        t.append({"fn": "stream", "segs": FLOOD, "cuts": c})
    return t


def COVERS(tier):
    return ["frames", "no frames", "parse error", "frame over a cut"]


def run(env, data, cuts):
    top = env.imp("decoder_top").DecoderTop()
    if cuts == "each":
        cuts = list(range(1, len(data)))
    elif cuts == "empty":
        cuts = sorted(list(range(0, len(data) + 1, 2)) * 2)
    got = feed(top, data, cuts)
    exp, errs, _ = scan(env, data)
    env.check(len(got) == len(exp), "number of frames")
    for i, (a, b) in enumerate(exp[:len(got)]):
        env.eq(got[i], data[a:b], "frame %d" % i)
        if any(a < c < b for c in cuts):
            env.cover("frame over a cut")
    env.eq(top.parse_errors, errs, "number of parse errors")
    env.observe("frames", [len(g) for g in got])
    env.observe("errors", top.parse_errors)
    env.cover("frames" if exp else "no frames")
    if errs:
        env.cover("parse error")


def free(env):
    run(env, env.bytes("d", env.params["n"]), env.params["cuts"])


def stream(env):
    data, _ = segments(env, env.params["segs"])
    run(env, data, env.params["cuts"])


def two(env):
    data, _ = segments(env, env.params["segs"])
    pos = list(range(env.params["from"], len(data), env.params["step"]))
    a = env.choice("cut1", pos)
    b = env.choice("cut2", pos)
    env.assume(a < b)
    run(env, data, [a, b])
