"""C15: the merged result does not depend on execution order."""
import os

PROP = "C15"
RULE = (
    "A run = the task graph of one real merge (planned in memory or to disk; also raw checkpoint merges and adapter "
    "extraction), executed by the real Executor and then in several seeded orders that respect the dependencies (random, "
    "depth first, breadth first, one operation as late or as early as possible), keeping every intermediate value. Every "
    "intermediate and final value and the written tensors must equal those of the default order, and no value that was "
    "final or still had another reader may change after it was computed. For methods with random sampling each operation "
    "draws from its own seeded generator. Non-trivial when the graph has at least two merge operations and an order "
    "differs from the default. Distinct = (tool, method, order kinds, options, graph)."
)
REAL = ["planner, tasks, merge methods, tokenizer building, loaders, tensor writer", "Executor for the default order", "real files"]
STUB = ["the order of task execution in the compared runs"]
ASSUMPTIONS = ["operations that sample randomly get a generator of their own in every order"]
RUNS = {"quick": 1800, "thorough": 24000}
BUDGET = {"quick": 80, "thorough": 720}
ORDERS = ["random", "random", "lifo", "fifo", "reverse", "late", "early"]


def prepare(ctx):
    import torch

    from sim import mergework as mw, tools

    tools.import_tools()
    d = mw.fixtures(ctx)
    mw.more_fixtures(ctx)
    tools.extra_fixtures(ctx)
    # two names, one storage
    import shutil

    shutil.copytree(d + "/m2", d + "/m9")
    p = d + "/m9/pytorch_model.bin"
    sd = torch.load(p)
    sd["lm_head.weight"] = sd["model.embed_tokens.weight"]
    for k in list(sd):
        if ".1." in k and "mlp" in k:
            sd[k] = sd[k.replace(".1.", ".0.")]
    torch.save(sd, p)


def gen(rng, i, tier):
    from sim import mergework as mw, tools

    t = rng.choice(["merge"] * 12 + ["raw", "raw", "lora"])
    if t == "merge":
        pool = rng.choice([("m0", "m1", "m2", "m3", "m5"), ("m0", "m1", "m2", "m3", "m9"), ("m0", "m9", "m2"), ("m0", "m1", "m4", "m2"), mw.AUTO])
        spec = {"tool": t, "options": mw.gen_options(rng), "config": mw.gen_config(rng, pool=pool, slices=0.55, tokenizers=rng.random() < 0.8)}
        mw.enrich(rng, spec["config"])
    else:
        spec = tools.gen_op(rng, (t,))
        if t == "raw" and rng.random() < 0.7:
            m = rng.choice(["task_arithmetic", "ties", "linear", "nuslerp", "sce", "model_stock", "passthrough", "karcher"])
            fs = ["@raw/r0.safetensors", "@raw/r1.safetensors", "@raw/r2.bin"]
            rng.shuffle(fs)
            needs, lo, hi, gp, mp, _ = mw.METHODS[m]
            n = min(hi, rng.choice([lo, lo + 1]))
            spec["config"] = {"merge_method": m, "models": [
                {"model": f, "parameters": {k: rng.choice(v) for k, v in mp.items()}} for f in fs[: min(n, 2 if needs else 3)]]}
            if needs:
                spec["config"]["base_model"] = fs[2]
            if gp:
                spec["config"]["parameters"] = {k: rng.choice(v) for k, v in gp.items()}
    return {
        "spec": spec, "disk": t != "merge" or rng.random() < 0.6, "keep_loaders": rng.random() < 0.5,
        "orders": [{"kind": rng.choice(ORDERS), "seed": rng.getrandbits(32)} for _ in range(rng.choice([2, 3, 4]))],
    }


def shrink(case):
    o = case["orders"]
    for k in range(len(o)):
        if len(o) > 1:
            yield dict(case, orders=o[:k] + o[k + 1 :])
    if case["keep_loaders"]:
        yield dict(case, keep_loaders=False)
    if case["disk"] and case["spec"]["tool"] == "merge":
        yield dict(case, disk=False)
    s = case["spec"]
    for k, v in (("async_write", False), ("lazy_unpickle", False), ("out_shard_size", 10**9), ("clone_tensors", False)):
        if s["options"].get(k) != v:
            yield dict(case, spec=dict(s, options=dict(s["options"], **{k: v})))
    c = s.get("config", {})
    for k in ("tokenizer", "tokenizer_source", "chat_template", "out_dtype"):
        if k in c:
            yield dict(case, spec=dict(s, config={a: b for a, b in c.items() if a != k}))


def vhash(v):
    """content hash of any value a task returns"""
    import hashlib

    import torch

    if isinstance(v, torch.Tensor):
        t = v.detach().contiguous().reshape(-1)
        b = t.view(torch.uint8).numpy().tobytes() if t.numel() else b""
        return hashlib.sha1(b + str((v.dtype, tuple(v.shape))).encode()).hexdigest()[:20]
    if isinstance(v, dict):
        return ("d", tuple(sorted((str(k), vhash(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(vhash(x) for x in v))
    if v is None or isinstance(v, (int, float, str, bool)):
        return v
    if hasattr(v, "permutations") and hasattr(v, "tokenizer"):
        return ("tok", vhash(v.permutations), vhash(v.original_vocabs), vhash(v.tokenizer.get_vocab()), str(v.tokenizer.chat_template))
    return type(v).__name__


def plan(spec, mdir, out, disk, state):
    """-> list of target tasks"""
    from mergekit.io.tasks import LoaderCache
    from mergekit.options import MergeOptions
    from sim import mergework as mw

    o = MergeOptions(**dict(spec["options"], quiet=True))
    LoaderCache().setup(options=o)
    state["options"] = o
    if spec["tool"] == "raw":
        from mergekit.scripts.merge_raw_pytorch import RawPyTorchMergeConfig, plan_flat_merge

        return plan_flat_merge(RawPyTorchMergeConfig.model_validate(mw.subst(spec["config"], mdir)), out, False, False, o)
    if spec["tool"] == "lora":
        from mergekit.common import ModelReference
        from mergekit.scripts.extract_lora import plan_extraction

        def ref(x):
            return ModelReference.model_validate(mw.subst(x, mdir))

        return plan_extraction(
            base_model_ref=ref(spec["base"]), model_ref=ref(spec["model"]), modules_to_save=[], out_path=out, options=o,
            max_rank=int(spec["args"][1]), embed_lora="--embed-lora" in spec["args"]).tasks
    from mergekit.architecture import get_architecture_info
    from mergekit.config import MergeConfiguration
    from mergekit.merge import _model_out_config
    from mergekit.plan import MergePlanner

    cfg = MergeConfiguration.model_validate(mw.subst(spec["config"], mdir))
    arch = get_architecture_info(cfg, o)
    p = MergePlanner(cfg, arch, options=o, out_model_config=_model_out_config(cfg, arch))
    return p.plan_to_disk(out) if disk else p.plan_in_memory()


def topo(n, deps, kind, rng):
    """an order of 0..n-1 that respects deps"""
    users = [[] for _ in range(n)]
    left = [0] * n
    for i in range(n):
        for j in deps[i]:
            users[j].append(i)
        left[i] = len(deps[i])
    ready = [i for i in range(n) if not left[i]]
    if kind in ("random", "late", "early"):
        rng.shuffle(ready)
    pick = rng.randrange(n)
    anc, st = set(), [pick]
    while st:
        x = st.pop()
        if x not in anc:
            anc.add(x)
            st.extend(deps[x])
    out = []
    while ready:
        if kind == "lifo":
            i = ready.pop()
        elif kind == "fifo":
            i = ready.pop(0)
        elif kind == "reverse":
            i = ready.pop(ready.index(max(ready)))
        else:
            c = ready
            if kind == "late":
                c = [x for x in ready if x != pick] or ready
            elif kind == "early":
                c = [x for x in ready if x in anc] or ready
            i = rng.choice(c)
            ready.remove(i)
        out.append(i)
        for u in users[i]:
            left[u] -= 1
            if not left[u]:
                ready.append(u)
    return out


def in_order(uni, order, deps, watch=None):
    """Executes the tasks in `order`, keeping all values. -> values, hashes at creation"""
    import torch

    vals, hs = {}, {}
    for pos, i in enumerate(order):
        t = uni.tasks[i]
        torch.manual_seed(1000 + i)
        kw = {k: vals[j] for k, j in uni.task_arguments[i].items()}
        vals[i] = t.execute(**kw)
        hs[i] = vhash(vals[i])
        if watch is not None:
            watch(i, order[:pos], vals, hs)
    return vals, hs


def name(uni, i):
    t = uni.tasks[i]
    for a in ("tensor_name", "tensor", "name"):
        if isinstance(getattr(t, a, None), str):
            return "%s(%s)" % (type(t).__name__, getattr(t, a))
    w = getattr(t, "weight_info", None) or getattr(t, "output_weight", None)
    return "%s(%s)" % (type(t).__name__, getattr(w, "name", "") or i)


def run(case, ctx, d, trace):
    from sim import oprun

    def fn():
        return body(case, ctx, d)

    r = oprun.sim_process(fn, d, seed=3, trace=trace)
    if r["outcome"] != "ok":
        v = {"cls": "fails-" + r["outcome"], "msg": "%s: %s" % (r["outcome"], str(r.get("text"))[-1500:])}
        x = {"n": 0, "merges": 0, "moved": 0, "rejected": 0}
    else:
        x = r["value"]
        v = x["v"]
    c = case["spec"].get("config", {})
    m = c.get("merge_method", case["spec"]["tool"])
    return {
        "v": v, "sig": "%s/%s/%s/%s/%s" % (case["spec"]["tool"], m, [o["kind"] for o in case["orders"]], case["disk"], x.get("shape")),
        "nontrivial": x["merges"] > 1 and x["moved"] > 0, "faults": {"reordered_operations": x["moved"]},
        "probes": {"tasks": x["n"], "orders": len(case["orders"]), "shared_values": x.get("shared", 0), "rejected": x["rejected"],
                   "with_tokenizer": int("tokenizer" in str(c)), "sampling_method": x.get("rnd", 0), m: 1},
        "sample": {"tool": case["spec"]["tool"], "method": m, "orders": [o["kind"] for o in case["orders"]], "tasks": x["n"]},
        "digest": r.get("digest"), "steps": x["n"] * (1 + len(case["orders"])), "switches": 0, "simtime": r.get("simtime", 0),
    }


def body(case, ctx, d):
    import random
    import shutil

    from mergekit.graph import Executor, TaskUniverse
    from mergekit.io.tasks import LoaderCache
    from sim import mergework as mw, tensors, tools

    spec, mdir = case["spec"], ctx.fx["models"]
    out = os.path.join(d, "out")
    mw.use_tmp(d)
    st = {}
    res = {"v": None, "n": 0, "merges": 0, "moved": 0, "rejected": 0}
    try:
        targets = plan(spec, mdir, out, case["disk"], st)
    except Exception as e:  # noqa: BLE001 - a rejected configuration has no orders to compare
        res["rejected"] = 1
        res["shape"] = type(e).__name__
        return res
    names = tools.LORA_NAMES if spec["tool"] == "lora" else None

    def written():
        if not case["disk"]:
            return None
        w = tensors.load_dir(out, names) if names else tensors.load_dir(out)
        shutil.rmtree(out)
        return w

    rnd = mw.METHODS.get(spec.get("config", {}).get("merge_method"), (0,) * 6)[5]
    ex = Executor(targets)
    uni = ex.universe
    n = len(uni.tasks)
    deps = [sorted(set(uni.task_arguments[i].values())) for i in range(n)]
    users = [[] for _ in range(n)]
    for i in range(n):
        for j in deps[i]:
            users[j].append(i)
    tset = {h._index for h in ex.targets}
    default = [h._index for h in ex.schedule.tasks]
    res.update(n=n, merges=sum("Merge" in type(t).__name__ or "GTA" in type(t).__name__ or "Decomp" in type(t).__name__ or hasattr(t, "gather_tensors") or hasattr(t, "tensors") for t in uni.tasks),
               shared=sum(len(u) > 1 for u in users), rnd=int(bool(rnd)), shape="%d/%d" % (n, sum(map(len, deps))))
    base, why = {}, None
    try:
        if rnd:
            in_order(uni, default, deps)
            if case["disk"]:
                shutil.rmtree(out)
        else:
            for h, v in ex._run(quiet=True):
                base[h._index] = vhash(v)
            base_w = written()
    except tensors.Unloadable:
        raise
    except Exception as e:  # noqa: BLE001
        why = e
    if why is None and not rnd and set(base) != tset:
        res["v"] = {"cls": "targets", "msg": "the default order delivered %d of %d targets" % (len(base), len(tset))}
        return res

    def fresh():
        LoaderCache().setup(options=st["options"])
        if spec["tool"] == "raw":
            from mergekit.scripts.merge_raw_pytorch import SimpleLoaderCache

            SimpleLoaderCache().loaders.clear()

    if why is not None:
        # the merge itself is refused: every order must refuse it too
        res["rejected"] = 1
        res["shape"] = type(why).__name__
        for o in case["orders"]:
            fresh()
            try:
                in_order(uni, topo(n, deps, o["kind"], random.Random(o["seed"])), deps)
            except Exception:  # noqa: BLE001
                continue
            res["v"] = {"cls": "outcome", "msg": "the default order fails (%r), order %s succeeds" % (why, o)}
            break
        return res
    ref = None
    for k, o in enumerate([None] + case["orders"]):
        order = default if o is None else topo(n, deps, o["kind"], random.Random(o["seed"]))
        res["moved"] += sum(a != b for a, b in zip(order, default))
        if not case["keep_loaders"]:
            fresh()
        vals, hs = in_order(uni, order, deps)
        w = written()
        bad = [i for i in order if vhash(vals[i]) != hs[i]]
        del vals
        msg = None
        if ref is None:
            ref = (hs, w)
            if not rnd:
                df = [i for i in base if base[i] != hs[i]]
                if df:
                    msg = ("values", "Executor and a plain execution of its own order differ in %s" % [name(uni, i) for i in df][:4])
                elif base_w != w:
                    msg = ("written", "Executor and a plain execution of its own order wrote different tensors: %s" % mw.diff_weights(base_w, w))
        else:
            df = [i for i in order if hs[i] != ref[0][i]]
            if df:
                msg = ("values", "order %s: %d of %d values differ from the default order, first %s" % (o, len(df), n, [name(uni, i) for i in df][:4]))
            elif w != ref[1]:
                msg = ("written", "order %s wrote different tensors: %s" % (o, mw.diff_weights(ref[1], w)))
        if msg is None and bad:
            msg = blame(uni, order, deps, users, tset, fresh)
            if case["disk"]:
                shutil.rmtree(out, ignore_errors=True)
        if msg:
            res["v"] = {"cls": msg[0], "msg": msg[1]}
            break
    return res


def blame(uni, order, deps, users, tset, fresh):
    """which operation altered a value another one may read later"""
    found = []

    def anc(i):
        s, st = set(), [i]
        while st:
            x = st.pop()
            if x not in s:
                s.add(x)
                st.extend(deps[x])
        return s

    def watch(i, done, vals, hs):
        for j in done:
            h = vhash(vals[j])
            if h != hs[j]:
                a = anc(i)
                others = [u for u in users[j] if u not in a]
                if j in tset or others:
                    found.append((i, j, others))
                hs[j] = h

    fresh()
    in_order(uni, order, deps, watch)
    if not found:
        return None
    i, j, others = found[0]
    return "altered", "%s altered the value of %s, which %s may read later" % (
        name(uni, i), name(uni, j), "the caller" if j in tset else name(uni, others[0]))
