"""Run one tool operation as one simulated process: seeded scheduler, disk seam,
faults; the outcome is reported to the surviving parent."""
import os
import signal

from sim import kernel, mergework as mw, proc, shim, tools

CRASHED = "crash"
KEEP = []


_listdir, _scandir = os.listdir, os.scandir


class _Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop()

    def close(self):
        self.clear()


def surroundings(seed):
    """what differs between any two processes without anyone's doing: order of hash maps and directories, date"""
    import hashlib

    def key(name):
        return hashlib.blake2b(b"%d " % seed + os.fsencode(name), digest_size=8).digest()

    mw.VOCAB_ORDER[0] = seed
    kernel.EPOCH[0] = 1.7e9 + seed * 1e6
    shim.wall(kernel.EPOCH[0])

    def listdir(path="."):
        return sorted(_listdir(path), key=key)

    def scandir(path="."):
        return _Scan(sorted(_scandir(path), key=lambda e: key(e.name)))

    os.listdir, os.scandir = listdir, scandir


def sim_process(fn, root, rules=(), space=None, sched=None, trace=None, seed=0, timeout=80.0, want_log=False, after=None,
                max_steps=400000, **simkw):
    """fn() in a forked simulated process. -> {'outcome': ok|exc|crash|stuck|died|hang, ...}"""

    def child():
        surroundings(seed)
        sim = kernel.Sim(sched or {"mode": "random", "seed": 0, "p": 0.0, "p_line": 0.0, "lines": False}, trace,
                         on_stuck=lambda why, live: proc.report_and_exit(pack("stuck", "%s %s" % (why, live))),
                         max_steps=max_steps, **simkw)

        def pack(outcome, text=None, etype=None, value=None):
            shim.stop()
            r = {
                "outcome": outcome, "text": text, "etype": etype, "value": value,
                "fired": [shim.fired(i) for i in range(len(rules))],
                "short": shim.stat("short"), "enospc": shim.stat("enospc"), "fenced": shim.stat("fenced"),
                "mutops": shim.stat("mut"), "readops": shim.stat("read"), "steps": sim.steps,
                "switches": sim.switches, "simtime": sim.now, "digest": sim.digest(), "trace": list(sim.trace),
                "preempts": sim.preempts, "max_threads": sim.max_threads,
            }
            if want_log or r["fenced"]:
                r["log"] = shim.log()
            if after is not None:
                r["after"] = after()
            return r

        def body():
            try:
                v = fn()
            except BaseException as e:  # noqa: BLE001
                KEEP.append(e)  # what its frames refer to lives until the process ends
                sim.process_exit()
                raise
            sim.process_exit()
            return v

        shim.start(root, rules, space)
        try:
            v = sim.run(body)
        except BaseException as e:  # noqa: BLE001
            import traceback

            return pack("exc", traceback.format_exc()[-2500:], type(e).__name__)
        return pack("ok", value=v)

    r = proc.fork_run(child, timeout=timeout, seed=seed)
    if r[0] == "ok":
        return r[1]
    if r[0] == "hang":
        return {"outcome": "hang", "text": "no end within %ds of real time" % timeout}
    if r[0] == "died" and os.WIFEXITED(r[1]) and os.WEXITSTATUS(r[1]) == 137:
        return {"outcome": CRASHED}
    if r[0] == "died" and os.WIFSIGNALED(r[1]):
        return {"outcome": "died", "text": "killed by signal %s" % signal.Signals(os.WTERMSIG(r[1])).name}
    raise RuntimeError("simulated process failed: %r" % (r,))


def run_op(ctx, spec, d, out, cache=None, tmp=None, lazy=True, models_dir=None, **kw):
    """One tool invocation below run directory d."""
    tmp = tmp or os.path.join(d, "t")
    os.makedirs(tmp, exist_ok=True)

    def fn():
        tools.do_op(spec, models_dir or ctx.fx["models"], out, cache, lazy=lazy)

    def pre():
        mw.use_tmp(tmp)
        return fn()

    return sim_process(pre, kw.pop("root", d), **kw)


def keep_weights(src, dst):
    """keep the weight files of an output, for building an earlier output of the same layout"""
    import shutil

    if os.path.isdir(dst) or not os.path.isdir(src):
        return
    t = "%s.%d" % (dst, os.getpid())
    os.makedirs(t)
    for n in sorted(os.listdir(src)):
        if n.endswith((".safetensors", ".bin", ".index.json")):
            shutil.copyfile(os.path.join(src, n), os.path.join(t, n))
    try:
        os.rename(t, dst)
    except OSError:
        tools.rmtree(t)


def reference_weights(ctx, spec):
    return os.path.join(ctx.scratch, "ref", mw.ref_key(spec)) + ".d"


def reference(ctx, spec, d):
    """Fault-free outcome in a clean simulated process (cached): observation, op log."""
    import pickle

    rd = os.path.join(ctx.scratch, "ref")
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, mw.ref_key(spec))
    if os.path.exists(p):
        with open(p, "rb") as f:
            return pickle.load(f)
    # always the same path length and name, so that paths do not matter
    work = os.path.join(d, "w")
    os.makedirs(work)
    out = os.path.join(work, "out")
    tools.write_inputs(spec, ctx.fx["models"], out)
    r = run_op(ctx, spec, work, out, cache=os.path.join(work, "cache"), seed=5, want_log=True,
               sched={"mode": "random", "seed": 0, "p": 0.0, "p_line": 0.0, "lines": False})
    if r["outcome"] == "ok":
        mw.normalise(work)
        r["obs"] = tools.observe(spec, out)
        keep_weights(out, p + ".d")
        r["log"] = [(k, os.path.relpath(a, work)) for k, a, b, *_ in r["log"] if k & (shim.MUT | shim.OPENR | shim.READ | shim.MMAP)]
    tools.rmtree(work)
    with open("%s.%d" % (p, os.getpid()), "wb") as f:
        pickle.dump(r, f)
    os.replace("%s.%d" % (p, os.getpid()), p)
    return r


def pick_op(log, frac, by_class, mask=shim.MUT):
    """Choose one logged operation: -> 1-based position among operations of `mask`."""
    idx = [i for i, (k, _) in enumerate([e for e in log if e[0] & mask])]
    ops = [e for e in log if e[0] & mask]
    if not ops:
        return 0, None
    if by_class:
        classes = {}
        for i, (k, a) in zip(idx, ops):
            classes.setdefault((k, os.path.basename(a) if k != shim.WRITE else os.path.basename(a)), []).append(i)
        keys = sorted(classes)
        x = frac * len(keys)
        c = classes[keys[int(x)]]
        i = c[int((x - int(x)) * len(c))]
    else:
        i = idx[int(frac * len(idx))]
    return i + 1, ops[i]
