"""Warmed interpreter with its own string-hash seed; forks one simulated process per
request.  Started by properties that compare processes with different hash seeds."""
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _recv(s, n):
    b = b""
    while len(b) < n:
        c = s.recv(n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def send(s, obj):
    d = pickle.dumps(obj)
    s.sendall(struct.pack(">I", len(d)) + d)


def recv(s):
    (n,) = struct.unpack(">I", _recv(s, 4))
    return pickle.loads(_recv(s, n))


def start(ctx, hashseed, module):
    """-> (socket path, Popen)"""
    path = os.path.join(ctx.scratch, "srv-%s" % hashseed)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_CHILD="1")
    p = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from sim import server; server.main(%r, %r, %r)"
                          % (HERE, path, module, ctx.fx)], env=env, cwd=HERE, preexec_fn=_pdeath)
    return path, p


def _pdeath():
    import ctypes

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def wait(path, p, timeout=120):
    t = time.monotonic()
    while not os.path.exists(path):
        if p.poll() is not None:
            raise RuntimeError("server for %s ended with %s" % (path, p.returncode))
        if time.monotonic() - t > timeout:
            raise RuntimeError("server did not start")
        time.sleep(0.05)


def request(path, obj):
    s = socket.socket(socket.AF_UNIX)
    s.connect(path)
    send(s, obj)
    r = recv(s)
    s.close()
    if r[0] != "ok":
        raise RuntimeError(r[1])
    return r[1]


def main(path, module, fx):
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    from sim import kernel

    kernel.SOURCE_PREFIX = os.path.join(repo, "mergekit") + "/"
    kernel.install()
    import importlib

    mod = importlib.import_module(module)
    mod.server_init(fx)
    import gc

    gc.collect()
    gc.freeze()
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + ".tmp")
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    os.rename(path + ".tmp", path)
    while True:
        c, _ = srv.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            _pdeath()
            try:
                srv.close()
                req = recv(c)
                try:
                    r = ("ok", mod.serve(req))
                except BaseException:
                    import traceback

                    r = ("exc", traceback.format_exc())
                send(c, r)
            finally:
                os._exit(0)
        c.close()
