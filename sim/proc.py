"""Simulated process incarnations: forked from the warmed parent, so a crash is a
real process death and only what reached the disk survives."""
import ctypes
import gc
import os
import pickle
import random
import select
import signal
import sys
import tempfile
import time
import traceback

from sim import cov

_now = time.monotonic  # real clock (bound before the seams are installed or outside a sim)


class SeededNames:
    def __init__(self, seed):
        self.rng = random.Random(seed)

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


def seed_process(seed):
    """Pin every in-process randomness source."""
    random.seed(seed)
    tempfile._name_sequence = SeededNames(seed)
    m = sys.modules.get("torch")
    if m is not None:
        m.manual_seed(seed & 0x7FFFFFFF)
    m = sys.modules.get("numpy")
    if m is not None:
        m.random.seed(seed & 0x7FFFFFFF)


_exit_report = None
_libc = ctypes.CDLL(None)


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG


def report_and_exit(obj):
    """Called in a simulated process to end it at once with a result."""
    _exit_report(obj)


def fork_run(fn, timeout=120.0, seed=0, quiet=True):
    """Run fn() in a forked child. Returns ('ok', value) | ('exc', text, type) |
    ('died', status) | ('hang', None)."""
    global _exit_report
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            die_with_parent()
            gc.disable()

            def send(obj):
                cov.dump()
                data = pickle.dumps(obj)
                mv = memoryview(data)
                while mv:
                    n = os.write(w, mv)
                    mv = mv[n:]
                os._exit(0)

            _exit_report = lambda obj: send(("ok", obj))
            if quiet:
                dn = os.open(os.devnull, os.O_WRONLY)
                if os.environ.get("VERIF_DEBUG") is None:
                    os.dup2(dn, 2)
                    os.dup2(dn, 1)
            if os.environ.get("VERIF_DEBUG"):
                import faulthandler

                faulthandler.dump_traceback_later(8, exit=True)
            seed_process(seed)
            try:
                v = ("ok", fn())
            except BaseException as e:  # noqa: BLE001 - reported to the parent
                v = ("exc", traceback.format_exc()[-6000:], type(e).__name__)
            send(v)
        except BaseException:
            traceback.print_exc()
            code = 98
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = _now() + timeout
    hang = False
    while True:
        left = end - _now()
        if left <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hang = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hang:
        return ("hang", None)
    data = b"".join(chunks)
    if not data:
        return ("died", st)
    try:
        return pickle.loads(data)
    except Exception:
        return ("died", st)
