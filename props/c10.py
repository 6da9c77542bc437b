"""C10: merges are reproducible."""
import os
import sys

PROP = "C10"
RULE = (
    "A run = one merge (or other tool invocation) executed twice from the same inputs, options and seed: once in the "
    "base process, once in a process with another string-hash seed, output directory, write mode and thread "
    "schedule. All output files must be byte-identical (same tensors when the second run is multi-device). "
    "Non-trivial when the merge has at least two models. Distinct = (tool, method, layout, hash seed, write mode)."
)
REAL = ["mergekit tools end to end in several interpreters", "serialisation, real files"]
STUB = ["thread scheduling, locks, clock; devices of the multi-device executor"]
ASSUMPTIONS = ["same machine, library versions and one math thread", "a random seed is given when the method samples"]
RUNS = {"quick": 1400, "thorough": 20000}
BUDGET = {"quick": 80, "thorough": 720}
SEEDS = [1, 77, 4242]
TOOLW = ["merge"] * 7 + ["yaml", "moe", "raw", "lora", "surgeon", "fill", "multi", "multi", "evolve", "legacy"]


def prepare(ctx):
    from sim import mergework as mw, server, tools

    tools.import_tools()
    mw.fixtures(ctx, lora=True)
    mw.more_fixtures(ctx)
    tools.extra_fixtures(ctx)
    ctx.fx["srv"] = [server.start(ctx, s, "props.c10") for s in SEEDS]
    for path, p in ctx.fx["srv"]:
        server.wait(path, p)
    ctx.fx["srv"] = [path for path, _ in ctx.fx["srv"]]


def server_init(fx):
    from sim import tools

    tools.import_tools()


def gen(rng, i, tier):
    from sim import mergework as mw, tools
    from sim.sched import gen_sched

    t = rng.choice(TOOLW)
    pool = rng.choice([("m0", "m1", "m2", "m3", "m5")] * 3 + [("m0", "m1", "m4", "m2"), mw.AUTO])
    spec = tools.gen_op(rng, (t,), lora=0.1, pool=pool)
    return {
        "spec": spec, "server": rng.randrange(len(SEEDS)), "sched": gen_sched(rng, lines=rng.random() < 0.1),
        "async": rng.random() < 0.5, "wt": rng.choice([1, 2, 3]),
        "multi": rng.choice([0, 0, 0, 1, 2, 3]) if t in ("merge", "yaml") else 0,
    }


def shrink(case):
    s = case["spec"]
    if case["multi"]:
        yield dict(case, multi=0)
    if case["async"]:
        yield dict(case, **{"async": False})
    for k, v in (("write_model_card", False), ("copy_tokenizer", False), ("out_shard_size", 10**9), ("lazy_unpickle", False), ("low_cpu_memory", False)):
        if s["options"].get(k) != v:
            yield dict(case, spec=dict(s, options=dict(s["options"], **{k: v})))
    c = s.get("config", {})
    for k in ("tokenizer", "tokenizer_source", "chat_template", "out_dtype"):
        if k in c:
            yield dict(case, spec=dict(s, config={a: b for a, b in c.items() if a != k}))


def job(req):
    """runs in whichever interpreter: one tool invocation, then digests of everything written"""
    from sim import mergework as mw, oprun, tools, toygraph

    spec, work, mdir = req["spec"], req["work"], req["models"]
    out = os.path.join(work, "out")
    os.makedirs(work)
    tools.write_inputs(spec, mdir, out)
    tmp = os.path.join(work, "t")
    os.makedirs(tmp)

    def fn():
        sys.argv = ["mergekit"]
        mw.use_tmp(tmp)
        if req.get("devices"):
            toygraph.install_fake_devices(req["devices"])
        tools.do_op(spec, mdir, out, os.path.join(work, "cache"))

    r = oprun.sim_process(fn, work, sched=req["sched"], seed=req["seed"])
    res = {k: r.get(k) for k in ("outcome", "text", "digest", "steps", "switches", "simtime", "preempts")}
    if r["outcome"] == "ok":
        mw.normalise(*[work] * (spec["tool"] in ("multi", "evolve")))  # only these refer to what they wrote themselves
        o = tools.observe(spec, out)
        res["weights"], res["why"] = o["weights"], o["why"]
        res["tree"] = {k: v for k, v in mw.tree(out).items()}
        sd = tools.side_dirs(out)["stages"]
        if os.path.isdir(sd):
            res["tree"].update({"stages/" + k: v for k, v in mw.tree(sd).items()})
    return res


serve = job


def run(case, ctx, d, trace):
    from sim import mergework as mw, server

    spec = case["spec"]
    base = {"mode": "random", "seed": 0, "p": 0.0, "p_line": 0.0, "lines": False}
    a = job({"spec": dict(spec, options=dict(spec["options"], async_write=False)), "work": os.path.join(d, "a"), "models": ctx.fx["models"], "sched": base, "seed": 11})
    o2 = dict(spec["options"], async_write=case["async"], write_threads=case["wt"])
    if case["multi"]:
        o2["multi_gpu"] = True
    b = server.request(ctx.fx["srv"][case["server"]], {
        "spec": dict(spec, options=o2), "work": os.path.join(d, "bb", "x%d" % case["server"]), "models": ctx.fx["models"],
        "sched": case["sched"], "seed": 12 + case["server"], "devices": case["multi"]})
    v = None
    m = spec.get("config", {}).get("merge_method", spec["tool"])
    if a["outcome"] != "ok":
        v = None if b["outcome"] == a["outcome"] else {"cls": "outcome", "msg": "base run: %s; second run %s" % (str(a["text"])[-900:], b["outcome"])}
    elif b["outcome"] != "ok":
        v = {"cls": "outcome", "msg": "base run succeeded; second run %s: %s" % (b["outcome"], str(b["text"])[-1500:])}
    elif case["multi"]:
        if not mw.METHODS.get(m, (0,) * 6)[5] and a["weights"] != b["weights"]:
            v = {"cls": "tensors", "msg": "%s, multi-device: %s" % (m, mw.diff_weights(a["weights"], b["weights"]) if b["weights"] else b["why"])}
    elif a["weights"] != b["weights"]:
        v = {"cls": "tensors", "msg": "%s: %s" % (m, mw.diff_weights(a["weights"], b["weights"]) if b["weights"] else b["why"])}
    elif a["tree"] != b["tree"]:
        df = sorted(k for k in set(a["tree"]) | set(b["tree"]) if a["tree"].get(k) != b["tree"].get(k))
        v = {"cls": "bytes", "msg": "%s: same tensors, but files differ: %s" % (m, df)}
    return {
        "v": v, "sig": "%s/%s/%d/%s/%d/%s" % (spec["tool"], m, case["server"], case["async"], case["multi"], mw.ref_key(spec)),
        "nontrivial": a["outcome"] == "ok", "faults": {"hash_seed": 1, "preemption": b.get("preempts") or 0, "background_writes": int(case["async"])},
        "probes": {"ok": int(a["outcome"] == "ok"), "rejected": int(a["outcome"] != "ok"), "multi_device": int(bool(case["multi"])), spec["tool"]: 1},
        "sample": {"tool": spec["tool"], "method": m, "hash_seed": SEEDS[case["server"]], "files": len(a.get("tree") or ())},
        "digest": b.get("digest"), "steps": b.get("steps") or 0, "switches": b.get("switches") or 0, "simtime": b.get("simtime") or 0,
    }
