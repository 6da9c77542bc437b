"""C07: rerunning after any crash or failure gives the same result as a fresh run."""
import errno
import os

PROP = "C07"
RULE = (
    "A run = up to three attempts of one tool invocation (merges with adapters and an adapter cache, all other writers, "
    "multi-stage merges with and without lazy resume) in the same directories, each attempt killed or failed at a seeded "
    "file operation, optionally over an earlier output of another layout, followed by one undisturbed attempt. That one "
    "must succeed and its weights (in both loader orders), stage outputs and accompanying files must equal those of a "
    "fresh run. Non-trivial when an attempt died or failed. Distinct = (tool, prior layout, operation classes, kinds of death)."
)
REAL = ["mergekit tools end to end, adapter merging (transformers, peft)", "safetensors/torch serialisation", "real files, real process death"]
STUB = ["the point of death or error (libc boundary)", "thread scheduling, locks, clock"]
ASSUMPTIONS = ["process death, not power loss: completed system calls survive, a write may be torn",
               "the same command is rerun (same configuration, options and directories)"]
RUNS = {"quick": 2600, "thorough": 30000}
BUDGET = {"quick": 80, "thorough": 720}
TOOLW = ["merge"] * 4 + ["loramerge"] * 5 + ["yaml", "moe", "raw", "lora", "surgeon", "fill", "fill", "legacy", "evolve", "evolve"] + ["multi"] * 5
PRIORS = ["none", "none", "none", "st1", "stN", "bin1", "binN", "leftover"]


def prepare(ctx):
    from props import c05

    c05.prepare(ctx)


def gen(rng, i, tier):
    import random

    from sim import tools
    from sim.sched import gen_sched

    t = rng.choice(TOOLW)
    prng = random.Random("C07/%d" % rng.randrange(60 if tier == "quick" else 600))
    if t == "loramerge":
        spec = tools.gen_op(prng, ("merge", "yaml"), lora=1.0, pool=("m0", "m1", "m3"), slices=0.2)
        if prng.random() < 0.5:
            spec["options"]["lora_merge_dtype"] = prng.choice(["bfloat16", "float32"])
    elif t == "multi":
        spec = tools.gen_op(prng, (t,), lora=prng.choice([0.0, 0.6]))
    else:
        spec = tools.gen_op(prng, (t,), lora=0.4 if t == "evolve" else 0.1)
    atts = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        atts.append({
            "act": rng.choice(["crash_before", "crash_after", "crash_partial", "crash_before", "crash_after", "err", "err_partial", "sticky"]),
            "at": rng.choice(["frac", "frac", "frac", "cache", "rename", "config", "tail", "tok"]),
            "frac": rng.random(), "nth": rng.randrange(1, 9), "by_class": rng.random() < 0.5,
            "errno": rng.choice([errno.EIO, errno.ENOSPC]), "sched": gen_sched(rng, lines=False),
        })
    return {"spec": spec, "prior": rng.choice(PRIORS), "pseed": rng.getrandbits(16), "atts": atts,
            "lazy": rng.random() < 0.8, "sched": gen_sched(rng, lines=False)}


def shrink(case):
    from props import c05

    a = case["atts"]
    for k in range(len(a)):
        if len(a) > 1:
            yield dict(case, atts=a[:k] + a[k + 1 :])
    if case["prior"] != "none":
        yield dict(case, prior="none")
    for k, f in enumerate(a):
        if f["act"] != "crash_before":
            yield dict(case, atts=a[:k] + [dict(f, act="crash_before")] + a[k + 1 :])
    for c in c05.shrink(dict(case, fault={"kind": "err"})):
        yield {k: x for k, x in c.items() if k != "fault"}


def make_rules(f, log):
    from sim import oprun, shim

    act = "err" if f["act"] == "sticky" else f["act"]
    x = {"action": act, "errno": f["errno"]}
    if f["act"] == "sticky":
        x["sticky"] = True
    at = f["at"]
    if at == "cache" and any("cache" in p for k, p in log):
        return [dict(x, kinds=shim.MUT, sub="/cache/", nth=1 + int(f["frac"] * sum("cache" in p for k, p in log)))], ("cache", "")
    if at == "rename":
        return [dict(x, kinds=shim.RENAME | shim.UNLINK, nth=f["nth"])], (at, "")
    if at == "config":
        return [dict(x, kinds=shim.OPENW | shim.WRITE, sub="config", nth=f["nth"])], (at, "")
    if at == "tok":
        t = [(k, p) for k, p in log if "token" in os.path.basename(p)]
        return [dict(x, kinds=shim.MUT, sub="token", nth=1 + int(f["frac"] * len(t)))], (at, t[int(f["frac"] * len(t))][1] if t else "")
    nth, op = oprun.pick_op(log, f["frac"] if at != "tail" else 1 - f["frac"] * 0.2, f["by_class"] and at != "tail", shim.MUT)
    return [dict(x, kinds=shim.MUT, nth=nth)], op


def diff_obs(spec, exp, got, look):
    """-> None or a message: how the observed result differs from the expected one"""
    from sim import mergework as mw

    if got["weights"] is None:
        return "unloadable", "output cannot be loaded: %s" % got["why"]
    if got["weights"] != exp["weights"]:
        return "weights", "output differs from a fresh run: %s" % mw.diff_weights(exp["weights"], got["weights"])
    for w, why in look:
        if w != exp["weights"]:
            return "weights", "output seen by a loader preferring a single file differs: %s" % (why or mw.diff_weights(exp["weights"], w))
    bad = sorted(k for k, v in exp["files"].items() if got["files"].get(k) != v)
    if bad:
        return "files", "accompanying files differ from a fresh run: %s" % [(k, "missing" if k not in got["files"] else "different") for k in bad][:4]
    for name, o in (exp.get("stages") or {}).items():
        g = got["stages"][name]
        if g["weights"] != o["weights"]:
            return "stage-weights", "stage %s differs from a fresh run: %s" % (name, g["why"] or mw.diff_weights(o["weights"], g["weights"]))
        bad = sorted(k for k, v in o["files"].items() if g["files"].get(k) != v)
        if bad:
            return "stage-files", "files of stage %s differ from a fresh run: %s" % (name, bad[:4])
    return None


def run(case, ctx, d, trace):
    from props import c05, c06
    from sim import mergework as mw, oprun, shim, tools

    spec = case["spec"]
    ref = oprun.reference(ctx, spec, d)
    if ref["outcome"] != "ok":
        return {"v": {"cls": "fault-free-failure", "msg": "%s without faults: %s" % (ref["outcome"], str(ref.get("text"))[-1500:])}, "sig": "x"}
    exp, log = ref["obs"], [e for e in ref["log"] if e[0] & shim.MUT]
    work = os.path.join(d, "w")
    out = os.path.join(work, "out")
    os.makedirs(work)
    if exp["weights"] is not None:
        c06.make_prior(case["prior"], case["pseed"], out, spec, exp["weights"])
    tools.write_inputs(spec, ctx.fx["models"], out)
    ops, outs, v = [], [], None
    kw = dict(cache=os.path.join(work, "cache"), lazy=case["lazy"], seed=5)
    for f in case["atts"]:
        rules, op = make_rules(f, log)
        r = oprun.run_op(ctx, spec, work, out, rules=rules, sched=f["sched"], **kw)
        ops.append("%s %s" % (shim.KINDS.get(op[0], op[0]), os.path.basename(op[1])) if op else "-")
        outs.append(r["outcome"])
        if r["outcome"] in ("stuck", "hang", "died"):
            v = {"cls": r["outcome"], "msg": str(r.get("text"))}
            break
    fin = {}
    if v is None:
        mw.normalise(work)
        fin = oprun.run_op(ctx, spec, work, out, sched=case["sched"], trace=trace, **kw)
        where = "after attempts %s at %s (prior %s)" % (outs, ops, case["prior"])
        if fin["outcome"] != "ok":
            v = {"cls": "rerun-fails", "msg": "%s the undisturbed rerun fails: %s %s" % (where, fin["outcome"], str(fin.get("text"))[-900:])}
        else:
            got = tools.observe(spec, out)
            if exp["weights"] is not None:
                x = diff_obs(spec, exp, got, c06.look(out, spec))
            else:
                x = diff_obs(spec, dict(exp, weights={}, files={}), dict(got, weights={}, files={}), [])
            if x:
                v = {"cls": "rerun-differs-" + x[0], "msg": "%s %s; files %s" % (where, x[1], sorted(os.listdir(out)) if os.path.isdir(out) else None)}
    bad = [o for o in outs if o != "ok"]
    return {
        "v": v, "sig": "%s/%s/%s/%s" % (spec["tool"], case["prior"], ops, [f["act"] if o != "ok" else "-" for f, o in zip(case["atts"], outs)]),
        "nontrivial": bool(bad),
        "faults": {k: sum(f["act"] == k and o != "ok" for f, o in zip(case["atts"], outs)) for k in {f["act"] for f in case["atts"]}},
        "probes": {"crashed": outs.count("crash"), "failed": outs.count("exc"), "undisturbed": outs.count("ok"), spec["tool"]: 1,
                   "several_bad_attempts": int(len(bad) > 1), "with_adapters": int("+@lora" in str(spec))},
        "sample": {"tool": spec["tool"], "prior": case["prior"], "attempts": [(f["act"], o, p) for f, o, p in zip(case["atts"], outs, ops)]},
        "digest": fin.get("digest"), "steps": fin.get("steps", 0), "switches": fin.get("switches", 0), "simtime": fin.get("simtime", 0), "trace": fin.get("trace"),
    }
