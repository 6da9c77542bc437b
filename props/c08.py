"""C08: concurrent readers get exactly the stored tensors."""
import os
import threading

PROP = "C08"
RULE = (
    "A run = 1-3 checkpoints in random layouts (single or sharded, safetensors or .bin, eager or lazy unpickling, files "
    "renamed after saving, tensors that are strided views, share storage, are scalars or empty) read by 1-4 simulated "
    "threads in a seeded order and interleaving, with read errors and an unreadable file injected in part of the runs. "
    "Every read must return the stored dtype, shape and bytes or, for a name that is missing or a file hit by an "
    "error, report it; afterwards the process's unpickling functions must be the original ones. "
    "Non-trivial when there are at least two reads. Distinct = context-switch/history digest."
)
REAL = ["mergekit.io.lazy_tensor_loader, loader, lazy_unpickle, io.tasks (LoaderCache, LoadTensor)", "torch.load, safetensors, zipfile, real files"]
STUB = ["thread scheduling and locks (seeded)", "file reads of the faulted operation"]
ASSUMPTIONS = ["dtypes for which torch.save uses the v2 tensor layout (no float8, no unsigned 16/32/64 bit)",
               "preemption at mergekit source lines and lock operations, not inside torch"]
RUNS = {"quick": 5200, "thorough": 60000}
BUDGET = {"quick": 80, "thorough": 700}
DTYPES = ["float32", "float32", "float16", "bfloat16", "int64", "int8", "uint8", "bool", "float64", "int32"]
SHAPES = [[4], [2, 3], [3, 4], [1], [], [0], [0, 3], [2, 2, 2], [5, 1]]
HOWS = ["plain", "plain", "plain", "share", "share_t", "share_head", "share_tail", "share_flat", "view_t", "view_slice", "view_row", "expand", "step"]


def prepare(ctx):
    from sim import mergework as mw

    mw.import_all()
    import mergekit.io.tasks  # noqa: F401


def gen(rng, i, tier):
    from sim.sched import gen_sched

    cks = []
    for c in range(rng.choice([1, 1, 2, 2, 3])):
        n = rng.randrange(1, 9)
        fmt = rng.choice(["bin", "bin", "safetensors"])
        ts = [{"name": rng.choice(["t%d", "model.layers.%d.w", "n.%d"]) % k, "dtype": rng.choice(DTYPES), "shape": rng.choice(SHAPES),
               "how": rng.choice(HOWS) if fmt == "bin" else "plain", "seed": rng.getrandbits(20), "shard": rng.randrange(4)} for k in range(n)]
        cks.append({"fmt": fmt, "layout": rng.choice(["single", "sharded", "sharded"]), "lazy": rng.random() < 0.6, "tensors": ts,
                    "rename": rng.random() < 0.4, "order": rng.getrandbits(16), "both": rng.random() < 0.1})
    nth = rng.choice([1, 2, 2, 3, 4])
    ops = []
    for _ in range(rng.randrange(2, 16)):
        c = rng.randrange(len(cks))
        k = rng.random()
        o = {"th": rng.randrange(nth), "ck": c, "i": rng.randrange(16),
             "op": "get" if k < 0.5 else "task" if k < 0.68 else "open" if k < 0.75 else "missing" if k < 0.85 else "alias" if k < 0.93 else "flush"}
        o["x"] = rng.randrange(4)
        ops.append(o)
    fault = None
    if rng.random() < 0.25:
        fault = {"kind": rng.choice(["read", "read", "corrupt", "gone"]), "frac": rng.random(), "ck": rng.randrange(len(cks)), "errno": rng.choice([5, 13, 24, 12])}
        if fault["kind"] == "gone":
            cks[fault["ck"]]["both"] = False  # then the other format is legitimately the model
    return {"cks": cks, "nth": nth, "ops": ops, "fault": fault, "sched": gen_sched(rng)}


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops)):
        yield dict(case, ops=ops[:k] + ops[k + 1 :])
    if case["fault"]:
        yield dict(case, fault=None)
    for c, ck in enumerate(case["cks"]):
        for k in range(len(ck["tensors"])):
            if len(ck["tensors"]) > 1:
                yield dict(case, cks=case["cks"][:c] + [dict(ck, tensors=ck["tensors"][:k] + ck["tensors"][k + 1 :])] + case["cks"][c + 1 :])
        if ck["layout"] != "single":
            yield dict(case, cks=case["cks"][:c] + [dict(ck, layout="single")] + case["cks"][c + 1 :])
        if ck["rename"] or ck["both"]:
            yield dict(case, cks=case["cks"][:c] + [dict(ck, rename=False, both=False)] + case["cks"][c + 1 :])
    if case["nth"] > 1:
        yield dict(case, nth=case["nth"] - 1)


def make(ck):
    """name -> tensor"""
    import torch

    out, last = {}, None
    for t in ck["tensors"]:
        g = torch.Generator().manual_seed(t["seed"])
        dt = getattr(torch, t["dtype"])
        shp = t["shape"]

        def fresh(s):
            x = torch.randint(0, 120, s, generator=g)
            return (x % 2 == 0) if dt == torch.bool else x.to(dt)

        how = t["how"]
        if how == "view_t" and len(shp) == 2:
            x = fresh(shp[::-1]).t()
        elif how == "view_slice" and len(shp) == 2:
            x = fresh([shp[0] + 2, shp[1] + 3])[1 : 1 + shp[0], 2 : 2 + shp[1]]
        elif how == "view_row" and shp:
            x = fresh([3] + shp)[1]
        elif how == "expand" and shp:
            x = fresh(shp[1:]).expand(shp)
        elif how == "step" and shp:
            x = fresh([shp[0] * 2 + 1] + shp[1:])[1::2][: shp[0]]
        elif how == "share" and last is not None:
            x = last
        elif how == "share_t" and last is not None:
            x = last.t() if last.dim() <= 2 else last.transpose(0, 1)
        elif how == "share_head" and last is not None and last.dim():
            x = last[:1]
        elif how == "share_tail" and last is not None and last.dim():
            x = last[last.shape[0] // 2 :]
        elif how == "share_flat" and last is not None and last.is_contiguous():
            x = last.reshape(-1)
        else:
            x = fresh(shp)
        last = x
        out[t["name"]] = x
    return out


def write(ck, d):
    import json
    import random

    import torch
    from safetensors.torch import save_file

    from sim import models

    os.makedirs(d)
    sd = make(ck)
    names = list(sd)
    random.Random(ck["order"]).shuffle(names)
    ext = ck["fmt"]
    prefix = "model" if ext == "safetensors" else "pytorch_model"

    def put(part, f):
        p = os.path.join(d, f)
        q = os.path.join(d, "zz-%d.%s" % (len(part), ext)) if ck["rename"] else p
        if ext == "safetensors":
            save_file({k: v.contiguous() for k, v in part.items()}, q, metadata={"format": "pt"})
        else:
            torch.save(part, q)
        if q != p:
            os.rename(q, p)

    files = []
    if ck["layout"] == "single":
        put({k: sd[k] for k in names}, "%s.%s" % (prefix, ext))
        files = ["%s.%s" % (prefix, ext)]
    else:
        sh = {}
        for t in ck["tensors"]:
            sh.setdefault(t["shard"], []).append(t["name"])
        wm = {}
        for j, (s, ns) in enumerate(sorted(sh.items())):
            f = "%s-%05d-of-%05d.%s" % (prefix, j + 1, len(sh), ext)
            put({k: sd[k] for k in names if k in ns}, f)
            files.append(f)
            wm.update({k: f for k in ns})
        with open(os.path.join(d, "%s.%s.index.json" % (prefix, ext)), "w") as fp:
            json.dump({"metadata": {}, "weight_map": wm}, fp)
    if ck["both"] and ext == "safetensors":
        # a second, older checkpoint in the other format next to it: safetensors takes precedence
        torch.save({k: torch.zeros(1) for k in names}, os.path.join(d, "pytorch_model.bin"))
    with open(os.path.join(d, "config.json"), "w") as fp:
        json.dump(models.llama_config(), fp)
    return sd, files


def run(case, ctx, d, trace):
    import pickle

    import torch

    from mergekit.common import ModelReference
    from mergekit.io.lazy_tensor_loader import LazyTensorLoader
    from mergekit.io.loader import TensorLoader
    from mergekit.io.tasks import LoaderCache, LoadTensor
    from mergekit.options import MergeOptions

    from sim import oprun, shim
    from sim.tensors import tkey

    inp = os.path.join(d, "in")
    os.makedirs(inp)
    stored, files = [], []
    for c, ck in enumerate(case["cks"]):
        sd, fs = write(ck, os.path.join(inp, "c%d" % c))
        stored.append({k: tkey(v) for k, v in sd.items()})
        files.append(fs)
    f = case["fault"]
    rules, touched = [], None
    if f:
        touched = f["ck"] % len(stored)
        fs = files[touched]
        p = os.path.join(inp, "c%d" % touched, fs[int(f["frac"] * len(fs))])
        if f["kind"] == "corrupt":
            n = os.path.getsize(p)
            os.truncate(p, int(n * (f["frac"] * 7 % 1)))
        elif f["kind"] == "gone":
            os.unlink(p)
        else:
            rules = [{"kinds": shim.OPENR | shim.READ | shim.MMAP, "sub": "/in/c%d/" % touched, "nth": 1 + int(f["frac"] * 40), "action": "err", "errno": f["errno"]}]
    res = []

    def originals():
        import torch.nn

        return (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor, torch.nn.Module.register_parameter, torch.load,
                torch.nn.Module.register_buffer)

    def body():
        before = originals()
        loaders = {}
        LoaderCache().setup(MergeOptions(lazy_unpickle=case["cks"][0]["lazy"]))
        for c, ck in enumerate(case["cks"]):
            try:
                loaders[c] = LazyTensorLoader.from_disk(os.path.join(inp, "c%d" % c), lazy_unpickle=ck["lazy"])
            except Exception as e:
                loaders[c] = e

        def one(o):
            c = o["ck"]
            names = list(stored[c])
            name = names[o["i"] % len(names)]
            want = stored[c][name]
            ck = case["cks"][c]
            if o["op"] == "flush":
                loaders[c].flush()
                return None
            if o["op"] == "missing":
                which = o["x"]
                if which == 0:
                    try:
                        x = loaders[c].get_tensor("no.such.tensor")
                    except KeyError:
                        return None
                    return "a missing name returned %s" % (tkey(x) if x is not None else None,)
                if which == 1:
                    x = loaders[c].get_tensor("no.such.tensor", raise_on_missing=False)
                elif which == 2:
                    x = LoadTensor(model=ModelReference.parse(os.path.join(inp, "c%d" % c)), tensor="no.such.tensor", optional=True).execute()
                else:
                    try:
                        x = LoadTensor(model=ModelReference.parse(os.path.join(inp, "c%d" % c)), tensor="no.such.tensor").execute()
                    except RuntimeError:
                        return None
                    return "a required missing tensor returned %r" % (x,)
                return None if x is None else "a missing name returned %s" % (tkey(x),)
            if o["op"] == "alias":
                other = names[(o["i"] * 7 + 3) % len(names)]
                if o["i"] % 3 == 0:
                    # both present: the name itself wins
                    if o["x"] < 2:
                        x = loaders[c].get_tensor(name, aliases=[other, "nope"])
                    else:
                        x = LoadTensor(model=ModelReference.parse(os.path.join(inp, "c%d" % c)), tensor=name, **{("aliases", "tied_names")[o["x"] - 2]: (other,)}).execute()
                elif o["x"] < 2:
                    x = loaders[c].get_tensor("nope", aliases=["nope2", name, other])
                else:
                    x = LoadTensor(model=ModelReference.parse(os.path.join(inp, "c%d" % c)), tensor="nope", **{("aliases", "tied_names")[o["x"] - 2]: ("nope2", name, other)}).execute()
            elif o["op"] == "task":
                x = LoadTensor(model=ModelReference.parse(os.path.join(inp, "c%d" % c)), tensor=name, device=(None, "cpu")[o["x"] % 2]).execute()
            elif o["op"] == "open":
                p = os.path.join(inp, "c%d" % c, LazyTensorLoader.from_disk(os.path.join(inp, "c%d" % c)).index.tensor_paths[name])
                l = TensorLoader.get(p, use_lazy_unpickle=o["x"] < 2)
                if name not in l.keys():
                    return "%s not listed in %s" % (name, p)
                x = l.get_tensor(name)
            else:
                x = loaders[c].get_tensor(name, **({} if o["x"] else {"device": "cpu"}))
            if x is None:
                return "%s: stored tensor reported as missing" % name
            got = tkey(x)
            return None if got == want else "%s/%s: read %s, stored %s" % (ck["fmt"], name, got, want)

        def reader(k):
            for o in case["ops"]:
                if o["th"] % case["nth"] != k:
                    continue
                if isinstance(loaders[o["ck"]], Exception):
                    res.append((o, "exc", repr(loaders[o["ck"]])))
                    continue
                try:
                    res.append((o, "ok", one(o)))
                except Exception as e:  # noqa: BLE001
                    import traceback

                    res.append((o, "exc", traceback.format_exc()[-1200:]))

        ths = [threading.Thread(target=reader, args=(k,)) for k in range(1, case["nth"])]
        for th in ths:
            th.start()
        reader(0)
        for th in ths:
            th.join()
        after = originals()
        return res, [n for n, a, b in zip(("pickle.Unpickler", "pickle.load", "torch._utils._rebuild_tensor", "Module.register_parameter", "torch.load", "Module.register_buffer"), before, after) if a is not b]

    r = oprun.sim_process(body, d, rules=rules, sched=case["sched"], trace=trace, seed=3)
    hit = bool(f) and (f["kind"] != "read" or sum(r.get("fired", [0])) > 0)
    v, nok, nexc = None, 0, 0
    if r["outcome"] != "ok":
        if r["outcome"] == "died" and f and f["kind"] == "corrupt":
            pass  # a shrunk memory map may fault (SIGBUS): the read did not return anything
        else:
            v = {"cls": r["outcome"], "msg": str(r.get("text"))[-1500:]}
    else:
        got, changed = r["value"]
        for o, st, msg in got:
            if st == "ok":
                nok += 1
                if msg:
                    v = {"cls": "wrong-data" if "read" in msg else "missing-name", "msg": "%s by thread %d: %s" % (o["op"], o["th"], msg)}
            else:
                nexc += 1
                if not (hit and (o["ck"] == touched or f["kind"] == "read")):
                    v = v or {"cls": "spurious-failure", "msg": "%s by thread %d: %s" % (o["op"], o["th"], msg)}
        if changed and v is None:
            v = {"cls": "patched-globals", "msg": "left replaced after reading: %s" % changed}
    return {
        "v": v, "sig": r.get("digest"), "nontrivial": nok > 1, "faults": {"preemption": r.get("preempts", 0), **({f["kind"]: int(hit)} if f else {})},
        "probes": {"reads_ok": nok, "reads_failed": nexc, "threads": case["nth"], "lazy": sum(c["lazy"] and c["fmt"] == "bin" for c in case["cks"])},
        "sample": {"checkpoints": [(c["fmt"], c["layout"], "lazy" if c["lazy"] else "eager", len(c["tensors"])) for c in case["cks"]], "threads": case["nth"],
                   "ops": [o["op"] for o in case["ops"]], "fault": f and f["kind"]},
        "digest": r.get("digest"), "steps": r.get("steps", 0), "switches": r.get("switches", 0), "simtime": r.get("simtime", 0), "trace": r.get("trace"),
    }
