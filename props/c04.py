"""C04: a finalized output holds exactly the tensors that were saved."""
import json
import os
import threading

PROP = "C04"
RULE = (
    "A run = 1-4 caller threads saving a random set of tensors (dtypes, zero-size and scalar shapes, "
    "non-contiguous views, tensors sharing memory, cloned tensors changed after the call) into one real output "
    "writer with a random shard limit, format and background mode, then finalisation, under one seeded "
    "schedule; the directory is re-read by an independent parser. Non-trivial when at least two shards or two "
    "concurrent threads were involved. Distinct = event-log digests."
)
REAL = ["mergekit.io.tensor_writer", "safetensors and torch serialisation", "real files on tmpfs", "stdlib ThreadPoolExecutor on simulated locks"]
STUB = ["thread scheduling, locks, clock"]
ASSUMPTIONS = [
    "each tensor name is saved once", "a tensor saved without cloning is not modified by the caller until finalisation",
    "preemption happens between source lines of mergekit, at synchronisation operations and around file serialisation",
]
RUNS = {"quick": 5250, "thorough": 100000}
BUDGET = {"quick": 55, "thorough": 700}


def prepare(ctx):
    from sim import tensors

    tensors.install()
    import mergekit.io.tensor_writer  # noqa: F401


DTYPES = ["float32", "float16", "bfloat16", "int64", "uint8", "bool", "float64", "int32"]


def gen(rng, i, tier):
    from sim.sched import gen_sched

    n = rng.choice([1, 2, 3, 6, 10, 16])
    ts = []
    for k in range(n):
        t = {
            "name": rng.choice(["w.%d", "model.layers.%d.weight", "é.%d"]) % k,
            "dtype": rng.choice(DTYPES), "shape": rng.choice([[4], [3, 5], [0], [], [2, 0, 3], [16, 8], [1], [64]]),
            "how": rng.choice(["plain", "plain", "plain", "view", "alias", "clone", "alias_clone", "param"]),
            "seed": rng.getrandbits(30),
        }
        t["thread"] = rng.randrange(4)
        ts.append(t)
    asy = rng.random() < 0.6
    return {
        "tensors": ts, "nthreads": rng.choice([1, 1, 2, 3, 4]),
        "limit": rng.choice([-1, 0, 1, 16, 64, 100, 256, 512, 10**9]),
        "safe": rng.random() < 0.65, "base": rng.choice([None, None, None, "adapter_model"]),
        "async": asy, "wt": rng.choice([1, 1, 2, 3]), "mode": rng.choice(["finalize", "finalize", "with"]),
        "sched": gen_sched(rng), "cpus": 4,
    }


def shrink(case):
    ts = case["tensors"]
    if len(ts) > 1:
        for k in range(len(ts)):
            yield dict(case, tensors=ts[:k] + ts[k + 1 :])
    if case["nthreads"] > 1:
        yield dict(case, nthreads=case["nthreads"] - 1)
    for k, t in enumerate(ts):
        if t["how"] != "plain" or t["shape"] != [4] or t["dtype"] != "float32":
            yield dict(case, tensors=ts[:k] + [dict(t, how="plain", shape=[4], dtype="float32")] + ts[k + 1 :])


def make_tensors(ts):
    """-> list of (name, tensor, clone flag, key)"""
    import torch

    from sim.tensors import tkey

    out, base = [], None
    for t in ts:
        g = torch.Generator().manual_seed(t["seed"])
        dt = getattr(torch, t["dtype"])
        shp = t["shape"]

        def fresh(s):
            x = torch.randint(0, 200, s, generator=g)
            return (x % 2 == 0) if dt == torch.bool else x.to(dt)

        how = t["how"]
        if how == "view" and len(shp) == 2:
            x = fresh([shp[1], shp[0]]).t()
        elif how.startswith("alias") and base is not None:
            x = base
        elif how == "alias":
            x = fresh(shp)
        elif how == "view" and shp and shp[0] > 1:
            x = fresh([shp[0] * 2] + shp[1:])[::2]
        else:
            x = fresh(shp)
        if how == "param" and dt.is_floating_point:
            x = torch.nn.Parameter(x)
        if how in ("plain", "alias"):
            base = x
        out.append((t["name"], x, "clone" in how, tkey(x)))
    return out


def check_dir(d, expected, prefix, ext, limit, index_required=None):
    """-> violation or None; returns also shard count"""
    from sim import tensors

    total = {}
    index = os.path.join(d, "%s.%s.index.json" % (prefix, ext))
    names = sorted(os.listdir(d))
    if os.path.exists(index):
        try:
            idx = json.load(open(index))
        except ValueError as e:
            return {"cls": "index", "msg": "index unreadable: %s" % e}, 0
        files = sorted(set(idx["weight_map"].values()))
        n = len(files)
        want = ["%s-%05d-of-%05d.%s" % (prefix, k + 1, n, ext) for k in range(n)]
        if files != want:
            return {"cls": "numbering", "msg": "index refers to %s, expected %s" % (files, want)}, n
        if names != sorted(want + [os.path.basename(index)]):
            return {"cls": "stray-files", "msg": "directory holds %s, expected %s" % (names, want)}, n
    else:
        idx = None
        files = ["%s.%s" % (prefix, ext)]
        n = 1
        if names != files:
            return {"cls": "stray-files", "msg": "directory holds %s, expected %s" % (names, files)}, n
    for f in files:
        try:
            got, meta = tensors.read_file(os.path.join(d, f))
        except tensors.Unloadable as e:
            return {"cls": "shard-unreadable", "msg": str(e)}, n
        if ext == "safetensors" and meta.get("format") != "pt":
            return {"cls": "metadata", "msg": "%s lacks format metadata: %r" % (f, meta)}, n
        for k, v in got.items():
            if k in total:
                return {"cls": "duplicate", "msg": "%s is in two shards" % k}, n
            total[k] = v
            if idx is not None and idx["weight_map"].get(k) != f:
                return {"cls": "index", "msg": "%s is in %s but the index says %s" % (k, f, idx["weight_map"].get(k))}, n
        size = sum(tensors.nbytes(v) for v in got.values())
        if limit > 0 and len(got) > 1 and size > limit:
            return {"cls": "shard-limit", "msg": "%s holds %d tensors, %d bytes > limit %d" % (f, len(got), size, limit)}, n
        if not got:
            return {"cls": "empty-shard", "msg": "%s holds no tensor" % f}, n
    if total != expected:
        miss = sorted(set(expected) - set(total))
        extra = sorted(set(total) - set(expected))
        diff = sorted(k for k in total if k in expected and total[k] != expected[k])
        return {"cls": "content", "msg": "missing %s, extra %s, different %s" % (miss, extra, [(k, expected[k], total[k]) for k in diff][:3])}, n
    if idx is not None:
        sz = sum(tensors.nbytes(v) for v in expected.values())
        if idx["metadata"].get("total_size") != sz:
            return {"cls": "total-size", "msg": "index total_size %r, tensors hold %d bytes" % (idx["metadata"].get("total_size"), sz)}, n
        if set(idx["weight_map"]) != set(expected):
            return {"cls": "index", "msg": "index lists %s" % sorted(set(idx["weight_map"]) ^ set(expected))}, n
    return None, n


def run(case, ctx, d, trace):
    import torch

    from mergekit.io.tensor_writer import TensorWriter

    from sim import kernel, proc, tensors
    from sim.sched import stats

    items = make_tensors(case["tensors"])
    expected = {n: k for n, _, _, k in items}
    outd = os.path.join(d, "out")
    info = {"shards": 0}
    live = tensors.LIVE
    live["now"] = live["max"] = 0

    def out(v):
        r = stats(sim)
        r.update(
            v=v, sig=r["digest"], nontrivial=info["shards"] > 1 or sim.max_threads > 1,
            faults={"preemption": sim.preempts},
            probes={"multi_shard": int(info["shards"] > 1), "concurrent_writes": int(live["max"] > 1),
                    "shared_memory": sum(t["how"].startswith("alias") for t in case["tensors"])},
            sample={"tensors": [(t["name"], t["dtype"], t["shape"], t["how"]) for t in case["tensors"]],
                    "limit": case["limit"], "async": case["async"], "threads": case["nthreads"], "shards": info["shards"]},
        )
        return r

    def on_stuck(why, live_):
        proc.report_and_exit(out({"cls": "nontermination", "msg": "%s %s" % (why, live_)}))

    sim = kernel.Sim(case["sched"], trace, on_stuck=on_stuck)
    errs = []

    def body():
        w = TensorWriter(
            outd, max_shard_size=case["limit"], safe_serialization=case["safe"],
            override_basename=case["base"], use_async=case["async"], max_write_threads=case["wt"],
        )

        def save(k):
            try:
                for t, (name, x, clone, _) in zip(case["tensors"], items):
                    if t["thread"] % case["nthreads"] != k:
                        continue
                    w.save_tensor(name, x, clone=clone)
                    if clone and t["how"] == "clone" and x.numel():
                        with torch.no_grad():
                            x.zero_()
            except BaseException as e:  # noqa: BLE001
                errs.append(e)

        def all_threads():
            ths = [threading.Thread(target=save, args=(k,)) for k in range(1, case["nthreads"])]
            for th in ths:
                th.start()
            save(0)
            for th in ths:
                th.join()

        if case["mode"] == "with":
            with w:
                all_threads()
        else:
            all_threads()
            w.finalize()
        if live["now"]:
            errs.append(RuntimeError("a background write is still running after finalisation"))
        sim.process_exit()

    try:
        sim.run(body)
    except Exception as e:
        import traceback

        return out({"cls": "exception:" + type(e).__name__, "msg": traceback.format_exc()[-1500:]})
    if errs:
        return out({"cls": "exception:" + type(errs[0]).__name__, "msg": repr(errs[0])})
    prefix = case["base"] or ("model" if case["safe"] else "pytorch_model")
    v, info["shards"] = check_dir(outd, expected, prefix, "safetensors" if case["safe"] else "bin", case["limit"])
    sim.log("files", tuple(sorted((f, os.path.getsize(os.path.join(outd, f))) for f in os.listdir(outd))))
    if v is None and live["max"] > (case["wt"] if case["async"] else case["nthreads"]):
        v = {"cls": "write-threads", "msg": "%d writes at once, %d allowed" % (live["max"], case["wt"])}
    return out(v)
