"""ctypes control of the LD_PRELOAD disk seam (sim/shim.c)."""
import ctypes
import errno as _errno
import hashlib
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "shim.c")

OPENW, WRITE, RENAME, UNLINK, MKDIR, RMDIR = 1, 2, 4, 8, 16, 32
TRUNC, LINK, CLOSEW, OPENR, READ, MMAP, FSYNC = 64, 128, 256, 512, 1024, 2048, 4096
MUT = OPENW | WRITE | RENAME | UNLINK | MKDIR | RMDIR | TRUNC | LINK
KINDS = {
    OPENW: "open-write", WRITE: "write", RENAME: "rename", UNLINK: "unlink",
    MKDIR: "mkdir", RMDIR: "rmdir", TRUNC: "truncate", LINK: "link", CLOSEW: "close",
    OPENR: "open-read", READ: "read", MMAP: "mmap", FSYNC: "fsync",
}
CRASH_BEFORE, CRASH_AFTER, CRASH_PARTIAL, ERR, ERR_PARTIAL, SHORT = 1, 2, 3, 4, 5, 6
ACTIONS = {
    "crash_before": CRASH_BEFORE, "crash_after": CRASH_AFTER,
    "crash_partial": CRASH_PARTIAL, "err": ERR, "err_partial": ERR_PARTIAL,
    "short": SHORT,
}
FENCED = 1 << 20


def lib_path():
    h = hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:16]
    return os.path.join(os.path.dirname(HERE), "build", "shim-%s.so" % h)


def build():
    out = lib_path()
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    subprocess.run(
        ["gcc", "-O2", "-w", "-fPIC", "-shared", "-o", tmp, SRC, "-ldl"], check=True
    )
    os.replace(tmp, out)
    return out


class Rec(ctypes.Structure):
    _fields_ = [
        ("kind", ctypes.c_int), ("ret", ctypes.c_int64), ("err", ctypes.c_int),
        ("size", ctypes.c_int64), ("fault", ctypes.c_int),
        ("path", ctypes.c_char * 232), ("path2", ctypes.c_char * 232),
    ]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.sh_reset.argtypes = [ctypes.c_char_p]
        _lib.sh_rule.argtypes = [
            ctypes.c_int, ctypes.c_char_p, ctypes.c_int64, ctypes.c_int,
            ctypes.c_int, ctypes.c_int, ctypes.c_int64,
        ]
        for f in ("sh_fired", "sh_seen", "sh_stat"):
            getattr(_lib, f).restype = ctypes.c_int64
        _lib.sh_space.argtypes = [ctypes.c_int64]
        _lib.sh_wall.argtypes = [ctypes.c_int64]
        _lib.sh_log.restype = ctypes.POINTER(Rec)
    return _lib


def start(root, rules=(), space=None, fence=True):
    """Begin observing (and faulting) this process's file operations under root.
    rules: dicts {kinds, sub, nth, action, errno, sticky, limit}."""
    l = lib()
    l.sh_reset(os.fsencode(root))
    for r in rules:
        l.sh_rule(
            r.get("kinds", MUT), os.fsencode(r.get("sub", "")), r.get("nth", 1),
            ACTIONS[r["action"]], r.get("errno", _errno.EIO), int(r.get("sticky", 0)),
            r.get("limit", 0),
        )
    if space is not None:
        l.sh_space(space)
    l.sh_activate(1, int(fence))


def wall(base):
    """wall clock of this process while observed: starts at this second"""
    lib().sh_wall(int(base))


def stop():
    lib().sh_activate(0, 0)


def mutops():
    return lib().sh_stat(0)


def readops():
    return lib().sh_stat(1)


def fired(i):
    return lib().sh_fired(i)


def seen(i):
    return lib().sh_seen(i)


def stat(name):
    return lib().sh_stat({"mut": 0, "read": 1, "short": 2, "fenced": 3, "enospc": 4, "log": 5}[name])


def log():
    l = lib()
    n = l.sh_stat(5)
    if not n:
        return []
    p = l.sh_log()
    out = []
    for i in range(n):
        r = p[i]
        out.append((r.kind, os.fsdecode(r.path), os.fsdecode(r.path2), r.size, r.ret, r.err, r.fault))
    return out


def pause():
    """leave the simulated process's own operations: no faults, no log"""
    lib().sh_activate(0, 0)


def resume(fence=True):
    lib().sh_activate(1, int(fence))
