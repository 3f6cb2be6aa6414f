"""C20: settings come from the ini files as written, completely or not at all."""
import os
from harness.conv import MODS

MODULES = MODS
BOUNDS = ("task 'full': every GPS-UTC difference of -128..127 and every channel number of -128..127 of all 24 GLONASS satellites, all spellings of the switches, any key case; "
          "task 'lack': a complete file without one free key or section; task 'over': a second file with any subset of the switches, sections and channel entries "
          "over a complete first one; task 'twice': sequences of three additional files; task 'void': empty, missing or incomplete first files, then a second one")
OUTSIDE = "values that are not of the expected kind (text for a number), which end the program with an error"
ASSUMPTIONS = ["the standard library's configparser is executed symbolically as well"]
SW = [("MARGO", "HCA"), ("MARGO", "LOCK_TIME"), ("JSON", "ENABLE_PRETTY_VIEW"), ("JSON", "ENABLE_HDR_DATA"), ("JSON", "ENABLE_AUX_DATA")]
YES, NO = ("true", "True", "yes", "on", "1", "YES"), ("false", "no", "off", "0", "False", "OFF")


def TASKS(tier):
    q = tier == "quick"
    t = [{"fn": "full", "spell": s, "case": c} for s in range(6) for c in range(3)]
    t += [{"fn": "lack", "what": w, "k": k} for w in ("key", "section", "channel") for k in range(2 if q else 6)]
    t += [{"fn": "over", "k": k} for k in range(6 if q else 24)]
    t += [{"fn": "twice", "k": k} for k in range(4 if q else 16)]
    t += [{"fn": "void", "kind": k, "then": n} for k in ("empty", "missing", "no literals", "no json", "comment") for n in (0, 1)]
    return t


def COVERS(tier):
    return ["full", "lack key", "lack section", "lack channel", "over", "twice", "void"]


def word(env, name, spell):
    v = bool(env.bool(name))
    return v, (YES if v else NO)[spell % 6]


def write(env, secs, case=0, order=0):
    """secs: {section: {key: text}} -> path"""
    p = os.path.join(env.workdir(), "x.ini")
    out = []
    names = list(secs)
    if order:
        names.reverse()
    for s in names:
        out.append("[%s]\n# comment\n" % s)
        for i, (k, v) in enumerate(secs[s].items()):
            k = (k, k.lower(), k.capitalize())[case]
            out.append("%s %s %s\n" % (k, "=:"[i % 2], v))
    with open(p, "w", encoding="utf-8") as f:
        f.write("".join(out))
    return p


def default(env, tag="", spell=0, free=True):
    """(sections, expected values)"""
    num = lambda n: env.sint(tag + n, 8) if free else len(n) * 3 % 11 - 5
    secs = {"MARGO": {}, "JSON": {}, "TIME": {}, "LITERALS": {}}
    exp = {}
    for s, k in SW:
        if free:
            exp[k], secs[s][k] = word(env, tag + k, spell)
        else:
            exp[k] = (spell + len(k) + len(tag)) % 2 == 0
            secs[s][k] = (YES if exp[k] else NO)[spell % 6]
        spell += 1
    v = num("shift")
    exp["GPS2UTC"], secs["TIME"]["GPS2UTC"] = v, "%s" % format(v, "d")
    for i in range(1, 25):
        v = num("lit%d" % i) if free else (i * 5 + len(tag)) % 14 - 7
        exp[i], secs["LITERALS"]["R%d" % i] = v, format(v, "d")
    return secs, exp


def control(env):
    return env.imp("controls").ConverterControls()


def margo(env, m, exp, lab):
    env.check(m is not None, lab + ": MARGO settings")
    if m is None:
        return
    env.check(m.half_cycle_enable is exp["HCA"] and m.lock_time_enable is exp["LOCK_TIME"], lab + ": MARGO switches")
    env.eq(m.gps_utc_shift, exp["GPS2UTC"], lab + ": GPS-UTC")
    env.check(sorted(m.glo_lit_tab) == list(range(1, 25)), lab + ": a channel per GLONASS satellite")
    for i in range(1, 25):
        env.eq(m.glo_lit_tab.get(i), exp[i], lab + ": channel of R%d" % i)


def js(env, j, exp, lab):
    env.check(j is not None, lab + ": JSON settings")
    if j is not None:
        env.check(j.enable_pretty_view is exp["ENABLE_PRETTY_VIEW"] and j.enable_hdr_data is exp["ENABLE_HDR_DATA"] and
                  j.enable_aux_data is exp["ENABLE_AUX_DATA"], lab + ": JSON switches")


def agree(env, c, mok, jok, exp, lab):
    """Settings of both kinds are there when complete, and as written; the box holds them when both are."""
    if mok:
        margo(env, c.MARGO, exp, lab)
    else:
        env.check(c.MARGO is None, lab + ": no MARGO settings")
    if jok:
        js(env, c.JSON, exp, lab)
    else:
        env.check(c.JSON is None, lab + ": no JSON settings")
    b = c.boxed_controls
    env.check((b is not None) == (mok and jok), lab + ": box only with both")
    if b is not None and mok and jok:
        margo(env, b.MARGO, exp, lab + " (box)")
        js(env, b.JSON, exp, lab + " (box)")


def full(env):
    secs, exp = default(env, spell=env.params["spell"])
    c = control(env)
    agree(env, c, False, False, exp, "before")
    c.init_from_file(write(env, secs, env.params["case"], env.params["spell"] % 2))
    agree(env, c, True, True, exp, "complete")
    env.cover("full")


def lack(env):
    what, k = env.params["what"], env.params["k"]
    secs, exp = default(env, spell=k, free=False)
    if what == "channel":
        n = env.fork_int(env.uint("gone", 5))
        env.assume(n < 24)
        del secs["LITERALS"]["R%d" % (n + 1)]
        ok = (False, True)
    elif what == "key":
        keys = SW + [("TIME", "GPS2UTC")]
        n = env.fork_int(env.uint("gone", 3))
        env.assume(n < len(keys))
        s, key = keys[n]
        del secs[s][key]
        ok = (s == "JSON", s != "JSON")
    else:
        n = env.fork_int(env.uint("gone", 2))
        s = list(secs)[n]
        del secs[s]
        ok = (s == "JSON", s != "JSON")
    c = control(env)
    c.init_from_file(write(env, secs))
    agree(env, c, ok[0], ok[1], exp, "incomplete")
    # a later file does not make up for it, and does not harm the other kind
    c.update_from_file(write(env, {"LITERALS": {"R7": "-3"}, "JSON": {"ENABLE_AUX_DATA": "yes"}} if what != "section" else {"TIME": {"GPS2UTC": "5"}}))
    if what != "section":
        exp[7], exp["ENABLE_AUX_DATA"] = -3, True
    else:
        exp["GPS2UTC"] = 5
    agree(env, c, ok[0], ok[1], exp, "incomplete, then more")
    env.cover("lack " + what)


def patch(env, k, tag, exp):
    """A partial second file under free flags."""
    secs = {}
    for i, (s, key) in enumerate(SW):
        if (i + k) % 2 == 0 and bool(env.bool(tag + "has" + key)):
            exp[key], t = word(env, tag + key, i + k)
            secs.setdefault(s, {})[key] = t
    if k % 3 == 0:
        exp["GPS2UTC"] = env.sint(tag + "shift", 8)
        secs.setdefault("TIME", {})["GPS2UTC"] = format(exp["GPS2UTC"], "d")
    for i in range(1, 25):
        if (i * 7 + k) % 5 == 0:
            exp[i] = env.sint(tag + "lit%d" % i, 8)
            secs.setdefault("LITERALS", {})["R%d" % i] = format(exp[i], "d")
    return secs


def over(env):
    k = env.params["k"]
    secs, exp = default(env, free=False)
    c = control(env)
    c.init_from_file(write(env, secs))
    old = c.boxed_controls
    exp1 = dict(exp)
    c.update_from_file(write(env, patch(env, k, "p", exp), k % 3))
    agree(env, c, True, True, exp, "overlaid")
    if old is not None:
        margo(env, old.MARGO, exp1, "settings handed out before")
    env.cover("over")


def twice(env):
    k = env.params["k"]
    secs, exp = default(env, free=False)
    for s, key in SW:
        exp[key] = False
        secs[s][key] = "no"
    c = control(env)
    c.init_from_file(write(env, secs))
    for n in range(3):
        s = {}
        for i, (sec, key) in enumerate(SW):
            if (i + k + n) % 3 == 0:
                exp[key], t = word(env, "s%d%s" % (n, key), n)
                s.setdefault(sec, {})[key] = t
        i = (k * 3 + n * 5) % 24 + 1
        exp[i] = env.sint("s%dlit" % n, 8)
        s.setdefault("LITERALS", {})["R%d" % i] = format(exp[i], "d")
        c.update_from_file(write(env, s))
        agree(env, c, True, True, exp, "after file %d" % (n + 2))
        c.update_from_file(os.path.join(env.workdir(), "none.ini"))
        agree(env, c, True, True, exp, "a missing file changes nothing")
    env.cover("twice")


def void(env):
    kind, then = env.params["kind"], env.params["then"]
    secs, exp = default(env, free=False)
    c = control(env)
    ok = (False, False)
    if kind == "missing":
        p = os.path.join(env.workdir(), "none.ini")
    elif kind in ("empty", "comment"):
        p = os.path.join(env.workdir(), "e.ini")
        with open(p, "w") as f:
            f.write("" if kind == "empty" else "# nothing\n\n")
    else:
        part = dict(secs)
        del part["LITERALS" if kind == "no literals" else "JSON"]
        ok = (kind == "no json", kind == "no literals")
        p = write(env, part)
    c.init_from_file(p)
    agree(env, c, ok[0], ok[1], exp, kind)
    if then:
        c.update_from_file(write(env, {"MARGO": {"HCA": "on"}, "JSON": {"ENABLE_HDR_DATA": "off"}} if ok[0] or ok[1] else secs))
        if ok[0] or ok[1]:
            exp["HCA"], exp["ENABLE_HDR_DATA"] = True, False
        agree(env, c, ok[0], ok[1], exp, kind + ", then more")
    env.cover("void")
