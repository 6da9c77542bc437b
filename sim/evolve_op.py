"""mergekit-evolve as one operation: conversion of the inputs, candidates merged and evaluated on a simulated cluster, best one merged.

The optimiser proposes seeded candidates; the evaluation harness scores a candidate by its weights and notes what it was given.
"""
import hashlib
import json
import os

RUN = None


def install():
    import torch

    from sim import fakeray

    fakeray.install(simple_evaluate, fmin2)
    torch.cpu.empty_cache = lambda: None
    import mergekit.evo.strategy  # noqa: F401
    import mergekit.scripts.evolve  # noqa: F401


def side(out):
    return out.rstrip("/") + ".evolve"


def gen(rng, lora):
    method = rng.choice(["linear", "ties", "slerp", "task_arithmetic"])
    ms = ["@m0", "@m1", "@m2"][: rng.choice([2, 2, 3])]
    rng.shuffle(ms)
    g = {"merge_method": method, "layer_granularity": rng.choice([0, 2])}
    if method in ("ties", "task_arithmetic"):
        g["base_model"] = rng.choice(ms)
    if lora and rng.random() < lora:
        ms = ["@m0+@lora%d" % rng.randrange(2) if m == "@m0" and g.get("base_model") != m else m for m in ms]
    g["models"] = ms
    return {"genome": g, "cands": [rng.getrandbits(16) for _ in range(rng.choice([1, 1, 2]))], "gpus": rng.choice([1, 2]),
            "args": ["--strategy", rng.choice(["pool", "buffered", "serial"]), "--reshard" if rng.random() < 0.8 else "--no-reshard"]}


class Run:
    def __init__(self, spec, storage):
        self.spec, self.storage, self.seen = spec, storage, []


def simple_evaluate(model=None, model_args=None, tasks=None, **kw):
    from sim import mergework as mw, tensors

    path = model_args["pretrained"]
    w = tensors.load_dir(path)
    t = hashlib.sha256(json.dumps(sorted((k, str(v)) for k, v in w.items())).encode())
    side_files = sorted(k for k in mw.tree(path) if not k.endswith(mw.WEIGHT_EXT))
    RUN.seen.append((t.hexdigest()[:16], side_files))
    for k, name in enumerate(("evaluated.json", "evaluated_tokenizer.json")):
        with open(os.path.join(RUN.storage, name), "w") as f:
            json.dump(sorted(x[k] for x in RUN.seen), f)
    v = int(t.hexdigest()[:8], 16) / 2.0**32
    return {"results": {n if isinstance(n, str) else n["task"]: {"acc,none": v} for n in ["t1"]}}


class _Es:
    class result:
        pass


def fmin2(f, parallel_objective=None, x0=None, sigma0=None, options=None, callback=None, **kw):
    import numpy as np

    es = _Es()
    es.result = _Es.result()
    es.result.fbest, es.result.xbest, es.result.evaluations = float("inf"), x0, 0
    xs = []
    for s in RUN.spec["cands"]:
        xs.append(x0 + np.random.RandomState(s).uniform(0.01, 0.3, size=x0.shape).astype(x0.dtype))
    for x, c in zip(xs, parallel_objective([x.copy() for x in xs])):
        if c < es.result.fbest:
            es.result.fbest, es.result.xbest = c, x
    es.result.evaluations = len(xs)
    es.result.xfavorite, es.result.stds = x0, x0
    callback(es)
    return es.result.xbest, es


def do(spec, conf, out):
    """conf: path of the configuration"""
    global RUN

    import mergekit.scripts.evolve as evolve
    from sim import fakeray

    st = side(out)
    RUN = Run(spec, st)
    os.makedirs(out, exist_ok=True)
    os.makedirs(st, exist_ok=True)
    # the final model goes to the directory under observation
    if not os.path.islink(os.path.join(st, "final_model")):
        os.symlink(os.path.abspath(out), os.path.join(st, "final_model"))
    fakeray.init_cluster(8, spec["gpus"], 1)
    evolve.main.main([conf, "--storage-path", st, "--num-gpus", str(spec["gpus"]), "--no-merge-cuda", "--random-seed", "7"] + spec["args"],
                     standalone_mode=False)
