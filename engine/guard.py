"""Keeps what the code under test deletes or writes inside the scratch directory of the run (an audit hook; nothing the code does evades it).

guard.begin(root) ... guard.end(): operations below root pass, all others are refused with PermissionError; both are recorded in LOG.
"""
import os
import sys

LOG = []        # (operation, absolute path, allowed)
_root = None
_busy = False
_hooked = False
_W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ONE = {"os.mkdir": (0, 2), "os.rmdir": (0, 1), "os.remove": (0, 1), "os.truncate": (0, None), "os.chmod": (0, 2), "os.chown": (0, 3),
       "shutil.rmtree": (0, 1), "shutil.chown": (0, None), "os.utime": (0, 3), "os.setxattr": (0, None), "os.removexattr": (0, None)}
TWO = {"os.rename": (0, 2, 1, 3), "os.link": (None, None, 1, 3), "os.symlink": (None, None, 1, 2), "shutil.move": (0, None, 1, None),
       "shutil.copyfile": (None, None, 1, None), "shutil.copytree": (None, None, 1, None)}
NEVER = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.startfile", "os.kill", "os.killpg")


def _abs(p, fd):
    if isinstance(p, int):
        return None
    p = os.fsdecode(p) if not isinstance(p, str) else str.__str__(p)
    if isinstance(fd, int) and fd >= 0 and not p.startswith("/"):
        try:
            p = os.path.join(os.readlink("/proc/self/fd/%d" % fd), p)
        except OSError:
            pass
    p = os.path.abspath(p)
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


def inside(p, root):
    return p == root or p.startswith(root + "/")


def _hook(ev, args):
    global _busy
    if _root is None or _busy:
        return
    if ev == "open":
        if isinstance(args[0], int) or not args[2] & _W or args[0] == os.devnull:
            return
        ps = [(args[0], None)]
    elif ev in ONE:
        i, j = ONE[ev]
        ps = [(args[i], args[j] if j is not None and j < len(args) else None)]
    elif ev in TWO:
        a, x, b, y = TWO[ev]
        ps = [(args[b], args[y] if y is not None and y < len(args) else None)]
        if a is not None:
            ps.append((args[a], args[x] if x is not None and x < len(args) else None))
    elif ev in NEVER:
        LOG.append((ev, "?", False))
        raise PermissionError("%s is not allowed here" % ev)
    else:
        return
    _busy = True
    try:
        for p, fd in ps:
            q = _abs(p, fd)
            if q is None:
                continue
            ok = inside(q, _root)
            LOG.append((ev, q, ok))
            if not ok:
                raise PermissionError("%s outside the scratch directory: %s" % (ev, q))
    finally:
        _busy = False


def begin(root):
    global _root, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    del LOG[:]
    _root = os.path.realpath(root)


def end():
    global _root
    _root = None
