"""C21: comparison and copies of data blocks."""
import dataclasses
from fractions import Fraction as Fr
from harness.common import decoder, frame
from harness.conv import MODS, BASES, EPHS, class_name, message
from harness.c18 import spoil

MODULES = MODS
BOUNDS = ("all 15 ephemeris and station data blocks. Task 'same': decoded (raw) from symbolic messages, compared with copies and with a second decoding; "
          "task 'field': one field of a decoded raw block, or of a block of fixed floats, replaced by a free value: integers (any), floats (any pair of multiples of 1/1024 within +-1/32, for the comparison itself +-8, thorough +-512; tolerances "
          "1/1024, 0.5 and the default), texts, other types, every field; task 'inner': one entry of an inner container replaced, added or removed; task 'kinds': blocks of "
          "different kinds; task 'copy': independence of copies; task 'items'")
OUTSIDE = "infinite values; float pairs within a factor of two of the tolerance; MSM blocks (they have no such methods)"
ASSUMPTIONS = ["IEEE-754 doubles"]
NUMS = EPHS + BASES


def TASKS(tier):
    q = tier == "quick"
    t = []
    for i, num in enumerate(NUMS):
        for bare in (False, True):
            t.append({"fn": "copy", "num": num, "bare": bare, "v": i})
        t.append({"fn": "same", "num": num, "bare": True, "v": i})
        t.append({"fn": "field", "num": num, "bare": True, "v": i})
        t.append({"fn": "field", "num": num, "bare": False, "v": i})
        t.append({"fn": "kinds", "num": num})
        t.append({"fn": "items", "num": num})
        t.append({"fn": "inner", "num": num, "v": i})
    for tol in ("default", "0.0009765625", "0.5"):
        t.append({"fn": "float_", "tol": tol})
    return t


def COVERS(tier):
    return ["same", "copy", "integer differs", "integer equal", "text", "float equal", "float differs", "type differs", "kinds", "inner"]


def block(env, num, bare, tag, v):
    return decoder(env, bare).decode(frame(env, message(env, num, tag, v, n=2)))


def same(env):
    num, bare, v = env.params["num"], env.params["bare"], env.params["v"]
    a = block(env, num, bare, "m", v)
    b = block(env, num, bare, "m", v)
    env.check(a is not None, "%d decodes" % num)
    if a is None:
        return
    for o, lab in ((a, "itself"), (a.copy(), "a copy"), (a.deepcopy(), "a deep copy"), (b, "a second decoding")):
        env.check(a.compare(o) is True, "%d equals %s" % (num, lab))
        env.check(o.compare(a) is True, "%d equals %s, the other way round" % (num, lab))
    env.cover("same")


def fields(o):
    return [f.name for f in dataclasses.fields(o)]


def copy(env):
    num, bare, v = env.params["num"], env.params["bare"], env.params["v"]
    a = block(env, num, bare, "m", v)
    if a is None:
        return env.fail("%d decodes" % num)
    for how in ("copy", "deepcopy"):
        c = getattr(a, how)()
        env.check(type(c) is type(a) and c is not a, how + ": a new block of the same kind")
        for n in fields(a):
            env.eq(getattr(c, n), getattr(a, n), "%s: field %s" % (how, n))
        ref = [getattr(a, n) for n in fields(a)]
        if how == "deepcopy":
            ref = [list(x.items()) if isinstance(x, dict) else list(x) if isinstance(x, list) else x for x in ref]
            spoil(c)
        else:
            for n in fields(c):
                setattr(c, n, -5)
        now = [getattr(a, n) for n in fields(a)]
        if how == "deepcopy":
            now = [list(x.items()) if isinstance(x, dict) else list(x) if isinstance(x, list) else x for x in now]
        env.eq(now, ref, how + ": the original does not change with it")
    env.cover("copy")


def verdict(env, a, b, want, lab, **kw):
    try:
        r = a.compare(b, **kw)
    except Exception as ex:
        return env.fail("%s: %s instead of a verdict" % (lab, type(ex).__name__))
    if r:
        env.check(want, lab + ": reported equal")
    else:
        env.check(env.inv(want), lab + ": reported different")
    return r


def field(env):
    num, bare, v = env.params["num"], env.params["bare"], env.params["v"]
    if bare:
        a = block(env, num, bare, "m", v)
        if a is None:
            return env.fail("%d decodes" % num)
    else:
        a = getattr(env.imp("gnss_types"), class_name(num, False))()
        for i, n in enumerate(fields(a)):
            if isinstance(getattr(a, n), (int, float)):
                setattr(a, n, (i + 1) * 0.37)
    names = fields(a)
    k = env.fork_int(env.uint("which", 6))
    env.assume(k < len(names))
    n = names[k]
    b = a.copy()
    x = getattr(a, n)
    if isinstance(x, bool):
        setattr(b, n, not x)
        verdict(env, a, b, False, "%s flipped" % n)
    elif isinstance(x, str):
        setattr(b, n, x + "!")
        verdict(env, a, b, False, "%s longer" % n)
        setattr(b, n, x)
        verdict(env, a, b, True, "%s equal" % n)
        env.cover("text")
    elif isinstance(x, dict):
        c = dict(x)
        c["more"] = 1
        setattr(b, n, c)
        verdict(env, a, b, False, "%s with another entry" % n)
        verdict(env, b, a, False, "%s with another entry" % n)
    elif isinstance(x, (list, tuple, set)):
        setattr(b, n, type(x)(list(x) + [5]))
        verdict(env, a, b, False, "%s with another entry" % n)
        verdict(env, b, a, False, "%s with another entry" % n)
    elif bare:
        y = env.sint("y", 40)
        setattr(b, n, y)
        r = verdict(env, a, b, x == y, "%s" % n)
        verdict(env, b, a, x == y, "%s" % n)
        env.cover("integer equal" if r else "integer differs")
    else:
        p, q = env.sint("p", 6), env.sint("q", 6)
        pair(env, a, b, n, p, q, None)
        setattr(b, n, float("nan"))
        verdict(env, a, b, False, "%s is not a number" % n)
        verdict(env, b, a, False, "%s is not a number, the other way round" % n)
        verdict(env, b, b.copy(), True, "%s is not a number in both" % n)
        setattr(a, n, 0.0)
        setattr(b, n, 0.0)
        verdict(env, a, b, True, "%s zero" % n)
    for other in ("text", None, [1], {"a": 1}):
        if not isinstance(x, type(other)):
            setattr(b, n, other)
            verdict(env, a, b, False, "%s of another type" % n)
    env.cover("type differs")


def pair(env, a, b, n, p, q, tol):
    """Fields of p/1024 and q/1024: clearly inside and clearly outside the tolerance (relative to the reference, absolute for a tiny one)."""
    setattr(a, n, p / 1024)
    setattr(b, n, q / 1024)
    r = a.compare(b) if tol is None else a.compare(b, tol)
    t = Fr(tol if tol is not None else 1e-15)
    d = env.ite(p < q, q - p, p - q)
    m = env.ite(q < 0, -q, q)
    if tol is None:
        # any two different multiples of 1/1024 differ by more than the default tolerance
        env.check(p == q if r else p != q, "%s: floats" % n)
    else:
        den = int(1 / t)
        # r is true only if |p-q| < 2 t |q| (or both tiny), and is true if |p-q| < t/2 |q|
        if r:
            env.check(env.any([d * den < 2 * m, env.all([m * den <= 2 * 1024, d * den < 2 * 1024])]), "%s: reported equal" % n)
        else:
            env.check(env.inv(env.any([p == q, d * den * 2 < m])), "%s: reported different" % n)
    env.cover("float equal" if r else "float differs")
    return r


def float_(env):
    tol = env.params["tol"]
    g = env.imp("gnss_types")
    w = 14 if env.tier == "quick" else 20
    p, q = env.sint("p", w), env.sint("q", w)
    pair(env, g.EphGPS(), g.EphGPS(), "af0" if hasattr(g.EphGPS(), "af0") else fields(g.EphGPS())[-1], p, q, None if tol == "default" else float(tol))


def kinds(env):
    g = env.imp("gnss_types")
    a = getattr(g, class_name(env.params["num"], False))()
    for other in sorted({class_name(n, False) for n in NUMS}):
        b = getattr(g, other)()
        verdict(env, a, b, type(a) is type(b), "%s and %s" % (type(a).__name__, other))
    for o in (None, 5, "x", {}):
        verdict(env, a, o, False, "not a block")
    env.cover("kinds")


def items(env):
    g = env.imp("gnss_types")
    a = getattr(g, class_name(env.params["num"], False))()
    n = fields(a)
    env.check([k for k, _ in a.items()] == n, "items names every field in order")
    env.check(all(v is getattr(a, k) for k, v in a.items()), "items gives the values")
    env.check(a.len() == len(n), "number of fields")


def inner(env):
    num, v = env.params["num"], env.params["v"]
    a = block(env, num, True, "m", v)
    if a is None:
        return env.fail("%d decodes" % num)
    for n in fields(a):
        x = getattr(a, n)
        if isinstance(x, dict) and x:
            k = list(x)[-1]
            b = a.deepcopy()
            y = getattr(b, n)
            if isinstance(y[k], dict):
                kk = list(y[k])[-1]
                old = y[k][kk]
                new = env.sint("y_" + n, 20)
                y[k][kk] = new
                if not isinstance(old, str):
                    verdict(env, a, b, old == new, "%s: inner value" % n)
            elif not isinstance(y[k], (str, bool)):
                old = y[k]
                new = env.sint("y_" + n, 20)
                y[k] = new
                if isinstance(old, list):
                    verdict(env, a, b, False, "%s: inner value" % n)
                else:
                    verdict(env, a, b, old == new, "%s: inner value" % n)
            if isinstance(x[k], (list, tuple)) and x[k]:
                kind = type(x[k])
                for i in range(len(x[k])):
                    new = env.sint("z%d_%s" % (i, n), 20)
                    b = a.deepcopy()
                    getattr(b, n)[k] = kind([new if j == i else w for j, w in enumerate(x[k])])
                    verdict(env, a, b, x[k][i] == new, "%s: part of an inner entry" % n)
                for w, lab in ((kind(list(x[k]) + [env.sint("zz_" + n, 20)]), "longer"), (kind(list(x[k])[:-1]), "shorter"), (kind(), "empty")):
                    b = a.deepcopy()
                    getattr(b, n)[k] = w
                    verdict(env, a, b, False, "%s: %s inner entry" % (n, lab))
                    verdict(env, b, a, False, "%s: %s inner entry" % (n, lab))
            b = a.deepcopy()
            del getattr(b, n)[k]
            verdict(env, a, b, False, "%s: entry missing" % n)
            verdict(env, b, a, False, "%s: entry missing" % n)
    env.cover("inner")
