"""C05: a reported success means complete output; every failed write is reported."""
import errno
import os

PROP = "C05"
RULE = (
    "A run = one tool invocation (merge through the library or command line, mixture-of-experts, raw checkpoint "
    "merge, adapter extraction, tokenizer transplant, fill-missing, multi-stage merge, or a bare output writer with "
    "concurrent savers) as a simulated process in which one or more file operations fail (error, partial-then-error, "
    "full disk) or are cut short (in some runs over an earlier output in the same place), chosen by seed over the operations of the fault-free run. If the tool reports "
    "success, the output must equal the fault-free one; it "
    "must always end. Non-trivial when a fault fired. Distinct = (tool, fault kind, operation class, outcome, write mode)."
)
REAL = ["mergekit tools end to end", "safetensors/torch/transformers serialisation", "real files"]
STUB = ["errors of file calls are injected at the libc boundary", "thread scheduling, locks, clock"]
ASSUMPTIONS = [
    "faults are those of modifying file calls below libc (open for writing, write, rename, unlink, mkdir, truncate, link)",
    "close() does not fail",
]
RUNS = {"quick": 3000, "thorough": 40000}
BUDGET = {"quick": 80, "thorough": 720}

TOOLW = ["merge"] * 5 + ["yaml", "moe", "raw", "lora", "surgeon", "fill", "legacy", "multi", "multi", "evolve", "vision"] + ["writer"] * 5
TOK_FILES = {
    "tokenizer_config.json", "special_tokens_map.json", "tokenizer.json", "tokenizer.model", "added_tokens.json",
    "merges.txt", "chat_template.jinja", "generation_config.json", "chat_template.json", "video_preprocessor_config.json", "vocab.json",
}


def prepare(ctx):
    from sim import mergework as mw, tools

    tools.import_tools()
    mw.fixtures(ctx, lora=True)
    tools.extra_fixtures(ctx)


def gen_fault(rng):
    k = rng.choice(["err", "err", "err", "err_partial", "enospc", "enospc", "short", "two", "sticky"])
    return {
        "kind": k, "frac": rng.random(), "frac2": rng.random(), "by_class": rng.random() < 0.6,
        "errno": rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.ENOMEM]),
        "kinds": rng.choice(["any", "any", "any", "write", "rename", "open", "mkdir", "unlink"]),
    }


def gen(rng, i, tier):
    from sim import tools
    from sim.sched import gen_sched

    t = rng.choice(TOOLW)
    # a bounded pool of specs, so that fault-free references are shared between runs
    import random

    pool = 60 if tier == "quick" else 600
    prng = random.Random("C05/%d" % rng.randrange(pool))
    if t == "writer":
        from props import c04

        c = c04.gen(prng, 0, tier)
        spec = {"tool": "writer", "w": {k: c[k] for k in ("tensors", "nthreads", "limit", "safe", "base", "async", "wt", "mode")}}
    elif t == "vision":
        # the only models with side files copied along
        from sim import mergework as mw

        spec = tools.gen_op(prng, ("merge",), families=0, pool=mw.FAMILIES["vision"])
    else:
        spec = tools.gen_op(prng, (t,), lora=0.15)
        if prng.random() < 0.5:
            spec["options"]["async_write"] = True
    f = gen_fault(rng)
    prior = "none"
    if rng.random() < (0.9 if f["kinds"] == "unlink" else 0.15):
        prior = rng.choice(["st1", "stN", "bin1", "binN", "same", "same-smaller", "twin", "twin"])
    return {"spec": spec, "fault": f, "prior": prior, "pseed": rng.getrandbits(16), "sched": gen_sched(rng, lines=rng.random() < 0.15)}


def shrink(case):
    f = case["fault"]
    if case.get("prior", "none") != "none":
        yield dict(case, prior="none")
    if f["kind"] == "two":
        yield dict(case, fault=dict(f, kind="err"))
    if f["kind"] not in ("err",):
        yield dict(case, fault=dict(f, kind="err"))
    s = case["spec"]
    if s["tool"] == "writer":
        ts = s["w"]["tensors"]
        for k in range(len(ts)):
            if len(ts) > 1:
                yield dict(case, spec=dict(s, w=dict(s["w"], tensors=ts[:k] + ts[k + 1 :])))
    else:
        for k, v in (("async_write", False), ("write_model_card", False), ("copy_tokenizer", False), ("out_shard_size", 10**9)):
            if s["options"].get(k) != v:
                yield dict(case, spec=dict(s, options=dict(s["options"], **{k: v})))


def writer_body(w, out):
    """concurrent savers on one writer; any exception is re-raised to the caller"""
    import threading

    from mergekit.io.tensor_writer import TensorWriter

    from props.c04 import make_tensors

    items = make_tensors(w["tensors"])
    tw = TensorWriter(out, max_shard_size=w["limit"], safe_serialization=w["safe"], override_basename=w["base"],
                      use_async=w["async"], max_write_threads=w["wt"])
    errs = []

    def save(k):
        try:
            for t, (name, x, clone, _) in zip(w["tensors"], items):
                if t["thread"] % w["nthreads"] == k:
                    tw.save_tensor(name, x, clone=clone)
        except BaseException as e:  # noqa: BLE001
            errs.append(e)

    def go():
        ths = [threading.Thread(target=save, args=(k,)) for k in range(1, w["nthreads"])]
        for th in ths:
            th.start()
        save(0)
        for th in ths:
            th.join()
        if errs:
            raise errs[0]

    if w["mode"] == "with":
        with tw:
            go()
    else:
        go()
        tw.finalize()


def expected_writer(w):
    from props.c04 import make_tensors

    return {n: k for n, _, _, k in make_tensors(w["tensors"])}


def observe_writer(w, out):
    from sim import tensors

    prefix = w["base"] or ("model" if w["safe"] else "pytorch_model")
    ext = "safetensors" if w["safe"] else "bin"
    try:
        return tensors.load_dir(out, ["%s.%s.index.json" % (prefix, ext), "%s.%s" % (prefix, ext)]), None
    except tensors.Unloadable as e:
        return None, str(e)


def make_rules(f, log):
    from sim import oprun, shim

    if f["kinds"] == "unlink" and f["kind"] in ("err", "two", "sticky"):
        # removing what an earlier output left behind
        return [{"kinds": shim.UNLINK, "nth": 1 + int(f["frac"] * 3), "action": "err", "errno": f["errno"], "sticky": f["kind"] == "sticky"}], (shim.UNLINK, "")
    mask = {"any": shim.MUT, "write": shim.WRITE, "rename": shim.RENAME, "open": shim.OPENW, "mkdir": shim.MKDIR, "unlink": shim.UNLINK}[f["kinds"]]
    if not any(k & mask for k, _ in log):
        mask = shim.MUT
    nth, op = oprun.pick_op(log, f["frac"], f["by_class"], mask)
    kind = f["kind"]
    rules, space = [], None
    if kind in ("err", "two", "sticky"):
        rules.append({"kinds": mask, "nth": nth, "action": "err", "errno": f["errno"], "sticky": kind == "sticky"})
        if kind == "two":
            n2, _ = oprun.pick_op(log, f["frac2"], f["by_class"], shim.MUT)
            rules.append({"kinds": shim.MUT, "nth": n2, "action": "err", "errno": f["errno"]})
    elif kind == "err_partial":
        rules.append({"kinds": shim.WRITE, "nth": oprun.pick_op(log, f["frac"], f["by_class"], shim.WRITE)[0], "action": "err_partial", "errno": f["errno"]})
    elif kind == "short":
        rules.append({"kinds": shim.WRITE, "nth": oprun.pick_op(log, f["frac"], f["by_class"], shim.WRITE)[0], "action": "short", "sticky": f["frac2"] < 0.3,
                      "limit": 1 + int(f["frac2"] * 4)})
    return rules, op


def ref_of(case, ctx, d):
    from sim import oprun

    return oprun.reference(ctx, case["spec"], d)


def run(case, ctx, d, trace):
    from sim import mergework as mw, oprun, shim, tools

    spec, f = case["spec"], case["fault"]
    work = os.path.join(d, "w")
    out = os.path.join(work, "out")
    writer = spec["tool"] == "writer"
    if writer:
        expected = expected_writer(spec["w"])
        os.makedirs(work + "0")
        r0 = oprun.sim_process(lambda: writer_body(spec["w"], os.path.join(work + "0", "out")), work + "0", want_log=True, seed=5)
        if r0["outcome"] != "ok":
            return {"v": {"cls": "fault-free-failure", "msg": str(r0.get("text"))[-1500:]}, "sig": "x"}
        log = [(k, os.path.relpath(a, work + "0")) for k, a, *_ in r0["log"] if k & shim.MUT]
        fault_free_files = None
    else:
        ref = ref_of(case, ctx, d)
        if ref["outcome"] != "ok":
            return {"v": {"cls": "fault-free-failure", "msg": "%s without faults: %s" % (ref["outcome"], str(ref.get("text"))[-1500:])}, "sig": "x"}
        expected, fault_free_files, log = ref["obs"]["weights"], ref["obs"]["files"], [e for e in ref["log"] if e[0] & shim.MUT]
    os.makedirs(work, exist_ok=True)
    if case.get("prior", "none") != "none" and (writer or spec["tool"] not in ("multi", "evolve")):
        from props import c06

        twin = os.path.join(work + "0", "out") if writer else oprun.reference_weights(ctx, spec)
        if case["prior"] == "twin" and os.path.isdir(twin):
            c06.make_twin(twin, out, spec, case["pseed"])
        else:
            c06.make_prior(case["prior"], case["pseed"], out, spec, expected or {})
    rules, op = make_rules(f, log)
    space = None
    if f["kind"] == "enospc":
        total = sum(1 for k, _ in log if k & shim.WRITE)
        # a disk that fills up somewhere in the run: bytes of a random prefix of writes
        space = int(f["frac"] * 14000) if total else 0
    if writer:
        r = oprun.sim_process(lambda: writer_body(spec["w"], out), work, rules=rules, space=space, sched=case["sched"], trace=trace, seed=5)
    else:
        tools.write_inputs(spec, ctx.fx["models"], out)
        r = oprun.run_op(ctx, spec, work, out, cache=os.path.join(work, "cache"), rules=rules, space=space,
                         sched=case["sched"], trace=trace, seed=5)
    fired = sum(r.get("fired", [])) + r.get("enospc", 0)
    hit = fired > 0
    v = None
    if r["outcome"] in ("stuck", "hang"):
        v = {"cls": "nontermination", "msg": "%s: %s" % (r["outcome"], r["text"])}
    elif r["outcome"] == "died":
        v = {"cls": "killed", "msg": r["text"]}
    elif r["outcome"] == "ok":
        if writer:
            got, why = observe_writer(spec["w"], out)
            if got != expected:
                v = bad(f, op, "weights", why if got is None else mw.diff_weights(expected, got))
        else:
            mw.normalise(work)
            obs = tools.observe(spec, out)
            v = compare(ref["obs"], obs, f, op)
            for name, so in (ref["obs"].get("stages") or {}).items():
                v = v or compare(so, obs["stages"][name], f, op)
    elif r["outcome"] == "exc" and not hit:
        v = {"cls": "spurious-failure", "msg": "no error was injected but it failed: " + r["text"][-1200:]}
    elif r["outcome"] == "exc" and f["kind"] == "short":
        v = {"cls": "short-write-failure", "msg": "a short write made it fail: " + r["text"][-1200:]}
    mode = "async" if (spec["w"]["async"] if writer else spec["options"]["async_write"]) else "sync"
    opc = "%s %s" % (shim.KINDS.get(op[0]), os.path.basename(op[1])) if op else "-"
    return {
        "v": v, "sig": "%s/%s/%s/%s/%s" % (spec["tool"], f["kind"], opc, r["outcome"], mode), "nontrivial": hit,
        "faults": {f["kind"]: int(hit), "preemption": r.get("preempts", 0)},
        "probes": {"reported_error": int(r["outcome"] == "exc"), "survived": int(hit and r["outcome"] == "ok"), spec["tool"]: 1},
        "sample": {"tool": spec["tool"], "fault": f["kind"], "at": opc, "outcome": r["outcome"], "error": r.get("etype")},
        "digest": r.get("digest"), "steps": r.get("steps", 0), "switches": r.get("switches", 0), "simtime": r.get("simtime", 0),
        "trace": r.get("trace"),
    }


def bad(f, op, what, msg):
    return {"cls": "success-" + what, "msg": "success was reported although %s hit %s: %s" % (f["kind"], op, msg)}


def compare(ref, obs, f, op):
    from sim import mergework as mw

    if ref["weights"] is not None or obs["weights"] is not None:
        if obs["weights"] is None:
            return bad(f, op, "weights", obs["why"])
        if obs["weights"] != ref["weights"]:
            return bad(f, op, "weights", mw.diff_weights(ref["weights"], obs["weights"]))
    for k, h in ref["files"].items():
        if obs["files"].get(k) != h:
            return bad(f, op, "files", "%s %s" % (k, "differs" if k in obs["files"] else "is missing"))
    return None
