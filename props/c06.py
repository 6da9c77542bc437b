"""C06: a crash never leaves a partial model that looks complete."""
import errno
import os

PROP = "C06"
RULE = (
    "A run = one tool invocation or bare output writer as a simulated process, into an empty directory or over an "
    "earlier model (any format, one file or shards, same or other tensor names, leftovers of an earlier crash), that "
    "dies at a seeded file operation (before it, after it, or part-way through a write), is interrupted, or fails with "
    "an I/O error there. The surviving directory is then read by an independent loader in both usual precedence orders: "
    "it must be unloadable, exactly the new model, or exactly the earlier one. Without a crash it must be the new one. "
    "Non-trivial when the process died or failed. Distinct = (tool, prior layout, operation class, kind of death, verdict)."
)
REAL = ["mergekit tools end to end, TensorWriter", "safetensors/torch serialisation", "real files, real process death"]
STUB = ["the point of death (libc boundary)", "thread scheduling, locks, clock"]
ASSUMPTIONS = ["process death, not power loss: completed system calls survive, a write may be torn",
               "loaders look for <name>.safetensors[.index.json] before pytorch_model.bin[.index.json]"]
RUNS = {"quick": 3200, "thorough": 40000}
BUDGET = {"quick": 80, "thorough": 720}
TOOLW = ["merge"] * 4 + ["yaml", "moe", "raw", "lora", "surgeon", "fill", "fill", "multi"] + ["writer"] * 8
PRIORS = ["none", "none", "st1", "stN", "stN", "bin1", "binN", "same", "leftover", "same-smaller", "twin", "twin", "twin"]


def prepare(ctx):
    from props import c05

    c05.prepare(ctx)


def gen(rng, i, tier):
    import random

    from sim import tools
    from sim.sched import gen_sched

    t = rng.choice(TOOLW)
    prng = random.Random("C06/%d" % rng.randrange(60 if tier == "quick" else 600))
    if t == "writer":
        from props import c04

        c = c04.gen(prng, 0, tier)
        spec = {"tool": "writer", "w": {k: c[k] for k in ("tensors", "nthreads", "limit", "safe", "base", "async", "wt", "mode")}}
    else:
        spec = tools.gen_op(prng, (t,), lora=0.1)
    f = {
        "act": rng.choice(["crash_before", "crash_after", "crash_partial", "crash_before", "crash_after", "err", "body"]),
        "at": rng.choice(["frac", "frac", "rename", "rename", "unlink", "index", "tail"]),
        "frac": rng.random(), "nth": rng.randrange(1, 8), "by_class": rng.random() < 0.5, "errno": rng.choice([errno.EIO, errno.ENOSPC]),
    }
    return {"spec": spec, "prior": rng.choice(PRIORS), "pseed": rng.getrandbits(16), "fault": f, "sched": gen_sched(rng, lines=rng.random() < 0.15)}


def shrink(case):
    from props import c05

    if case["prior"] != "none":
        yield dict(case, prior="none")
        yield dict(case, prior="st1")
    f = case["fault"]
    if f["act"] not in ("crash_before", "body"):
        yield dict(case, fault=dict(f, act="crash_before"))
    for c in c05.shrink(dict(case, fault={"kind": "err"})):
        yield dict(c, fault=f)


def names_of(spec):
    """(prefix) weight file names this output is looked up by"""
    if spec["tool"] == "lora":
        return ["adapter_model"]
    if spec["tool"] == "writer" and spec["w"]["base"]:
        return [spec["w"]["base"]]
    return ["model", "pytorch_model"]


def orders(spec):
    ns = names_of(spec)
    if len(ns) == 1:
        st, bn = ns[0] + ".safetensors", ns[0] + ".bin"
        if spec["tool"] == "writer":
            x = st if spec["w"]["safe"] else bn
            return [[x + ".index.json", x], [x, x + ".index.json"]]
    else:
        st, bn = "model.safetensors", "pytorch_model.bin"
    return [[st + ".index.json", st, bn + ".index.json", bn], [st, st + ".index.json", bn, bn + ".index.json"]]


def look(d, spec):
    """-> list of (weights|None, why) for each loader order"""
    from sim import tensors

    r = []
    for o in orders(spec):
        try:
            r.append((tensors.load_dir(d, o), None))
        except tensors.Unloadable as e:
            r.append((None, str(e)))
    return r


def make_twin(src, out, spec, seed):
    """an earlier output of the same tool and layout with other values, as when a merge is run again"""
    import torch
    from safetensors import safe_open
    from safetensors.torch import save_file

    from sim import tensors

    os.makedirs(out, exist_ok=True)
    g = torch.Generator().manual_seed(seed)

    def other(t):
        if t.dtype.is_floating_point:
            return (t.float() + 1 + torch.rand(t.shape, generator=g)).to(t.dtype)
        return t

    for n in sorted(os.listdir(src)):
        a, b = os.path.join(src, n), os.path.join(out, n)
        if n.endswith(".safetensors"):
            with safe_open(a, "pt") as f:
                meta = f.metadata()
                sd = {k: other(f.get_tensor(k)) for k in f.keys()}
            save_file(sd, b, metadata=meta)
        elif n.endswith(".bin"):
            torch.save({k: other(t).clone() for k, t in torch.load(a).items()}, b)
        else:
            with open(a, "rb") as f, open(b, "wb") as h:
                h.write(f.read())
    for o in orders(spec):
        try:
            return tensors.load_dir(out, o)
        except tensors.Unloadable:
            pass
    return None


def make_prior(kind, seed, out, spec, expected):
    """an earlier model in the output directory -> its weights"""
    import random

    import torch

    from sim import models, tensors

    if kind in ("none", "twin"):
        return None
    os.makedirs(out, exist_ok=True)
    rng = random.Random(seed)
    prefix = names_of(spec)[0]
    safe = spec["w"]["safe"] if spec["tool"] == "writer" else spec.get("options", {}).get("safe_serialization", True)
    if kind == "leftover":
        for k in range(rng.randrange(1, 4)):
            with open(os.path.join(out, "%s-%d.safetensors" % (prefix, k + 1)), "wb") as f:
                f.write(b"\1" * rng.randrange(40))
        return None
    names = [n for n in expected if n != "x.extra" and (rng.random() < 0.9 or len(expected) < 3)]
    if not names:
        names = ["x.extra"]
    if rng.random() < 0.3:
        names.append("x.extra")
    g = torch.Generator().manual_seed(seed)
    sd = {n: torch.randn(5, generator=g) for n in names}
    if kind in ("same", "same-smaller"):
        ext = "safetensors" if safe else "bin"
        nsh = 1 if kind == "same-smaller" else rng.randrange(1, len(names) + 1)
        layout = "single" if nsh == 1 else "sharded"
    else:
        ext = "safetensors" if kind.startswith("st") else "bin"
        layout = "single" if kind.endswith("1") else "sharded"
        nsh = min(len(names), rng.choice([2, 3, 4]))
        if nsh < 2:
            layout = "single"
    if len(names_of(spec)) > 1:
        prefix = "model" if ext == "safetensors" else "pytorch_model"
    elif spec["tool"] == "writer":
        ext = "safetensors" if safe else "bin"
    models.save_shards(out, sd, layout, ext, nsh, prefix=prefix)
    return {n: tensors.tkey(v) for n, v in sd.items()}


def make_rules(f, log):
    from sim import oprun, shim

    if f["act"] == "body":
        return [], None
    act = f["act"]
    if f["at"] in ("rename", "unlink", "index"):
        r = {"kinds": {"rename": shim.RENAME, "unlink": shim.UNLINK, "index": shim.OPENW | shim.WRITE | shim.RENAME}[f["at"]], "nth": f["nth"], "action": act, "errno": f["errno"]}
        if f["at"] == "index":
            r["sub"] = ".index.json"
            r["nth"] = 1 + f["nth"] % 4
        return [r], (f["at"], "")
    nth, op = oprun.pick_op(log, f["frac"] if f["at"] == "frac" else 1 - f["frac"] * 0.2, f["by_class"] and f["at"] == "frac", shim.MUT)
    return [{"kinds": shim.MUT, "nth": nth, "action": act, "errno": f["errno"]}], op


class Interrupted(BaseException):
    pass


def writer_run(w, out, f):
    """like c05.writer_body, but for act 'body' the code using the writer fails half-way"""
    from props import c05

    if f["act"] != "body":
        return c05.writer_body(w, out)
    from mergekit.io.tensor_writer import TensorWriter

    from props.c04 import make_tensors

    items = make_tensors(w["tensors"])
    stop = int(f["frac"] * len(items))
    with TensorWriter(out, max_shard_size=w["limit"], safe_serialization=w["safe"], override_basename=w["base"],
                      use_async=w["async"], max_write_threads=w["wt"]) as tw:
        for k, (name, x, clone, _) in enumerate(items):
            if k == stop:
                raise Interrupted()
            tw.save_tensor(name, x, clone=clone)


def run(case, ctx, d, trace):
    from props import c05
    from sim import mergework as mw, oprun, shim, tools

    spec, f = case["spec"], case["fault"]
    work = os.path.join(d, "w")
    out = os.path.join(work, "out")
    writer = spec["tool"] == "writer"
    if f["act"] == "body" and not writer:
        f = dict(f, act="crash_before")
    if writer:
        expected = c05.expected_writer(spec["w"])
        os.makedirs(work + "0")
        r0 = oprun.sim_process(lambda: c05.writer_body(spec["w"], os.path.join(work + "0", "out")), work + "0", want_log=True, seed=5)
        if r0["outcome"] != "ok":
            return {"v": {"cls": "fault-free-failure", "msg": str(r0.get("text"))[-1500:]}, "sig": "x"}
        log = [(k, os.path.relpath(a, work + "0")) for k, a, *_ in r0["log"] if k & shim.MUT]
        stages = {}
    else:
        ref = oprun.reference(ctx, spec, d)
        if ref["outcome"] != "ok":
            return {"v": {"cls": "fault-free-failure", "msg": "%s without faults: %s" % (ref["outcome"], str(ref.get("text"))[-1500:])}, "sig": "x"}
        expected, log = ref["obs"]["weights"], [e for e in ref["log"] if e[0] & shim.MUT]
        stages = {k: o["weights"] for k, o in (ref["obs"].get("stages") or {}).items()}
    os.makedirs(work)
    twin = oprun.reference_weights(ctx, spec) if not writer else os.path.join(work + "0", "out")
    if case["prior"] == "twin" and os.path.isdir(twin):
        old = make_twin(twin, out, spec, case["pseed"])
    else:
        old = make_prior(case["prior"] if spec["tool"] not in ("multi",) or expected else "none", case["pseed"], out, spec, expected or {})
    rules, op = make_rules(f, log)
    if writer:
        r = oprun.sim_process(lambda: writer_run(spec["w"], out, f), work, rules=rules, sched=case["sched"], trace=trace, seed=5)
    else:
        tools.write_inputs(spec, ctx.fx["models"], out)
        r = oprun.run_op(ctx, spec, work, out, cache=os.path.join(work, "cache"), rules=rules, sched=case["sched"], trace=trace, seed=5)
    v, verdict = None, set()
    died = r["outcome"] == oprun.CRASHED
    if r["outcome"] in ("stuck", "hang", "died"):
        v = {"cls": r["outcome"], "msg": str(r.get("text"))}

    def judge(where, dd, new, old_):
        for (got, why), o in zip(look(dd, spec), orders(spec)):
            if got is None:
                verdict.add("unloadable")
                if r["outcome"] == "ok" and new:
                    return {"cls": "success-unloadable", "msg": "%s: success was reported but the output cannot be loaded: %s (prior %s; files %s)" % (where, why, case["prior"], sorted(os.listdir(dd)) if os.path.isdir(dd) else None)}
            elif got == new:
                verdict.add("new")
            elif got == old_:
                verdict.add("old")
                if r["outcome"] == "ok":
                    return {"cls": "success-old", "msg": "%s: success was reported but the directory still loads as the earlier model (prior %s; files %s)" % (where, case["prior"], sorted(os.listdir(dd)))}
            else:
                msg = "%s: after %s at %s (prior %s) the directory loads as a model that is neither the new nor the earlier one: vs new %s" % (
                    where, r["outcome"], op, case["prior"], mw.diff_weights(new or {}, got))
                if old_:
                    msg += "; vs earlier %s" % mw.diff_weights(old_, got)
                return {"cls": "partial-model", "msg": msg + "; files %s" % sorted(os.listdir(dd))}
        return None

    if v is None:
        v = judge("output", out, expected, old)
    sd = tools.side_dirs(out)["stages"]
    for name, w in stages.items():
        v = v or judge("stage " + name, os.path.join(sd, name), w, None)
    opc = "%s %s" % (shim.KINDS.get(op[0], op[0]), os.path.basename(op[1])) if op else "-"
    return {
        "v": v, "sig": "%s/%s/%s/%s/%s" % (spec["tool"], case["prior"], opc, f["act"] if r["outcome"] != "ok" else "done", sorted(verdict)),
        "nontrivial": r["outcome"] != "ok",
        "faults": {f["act"]: int(r["outcome"] != "ok"), "preemption": r.get("preempts", 0)},
        "probes": {"crashed": int(died), "failed": int(r["outcome"] == "exc"), "completed": int(r["outcome"] == "ok"), spec["tool"]: 1,
                   **{"saw_" + x: 1 for x in verdict}, "over_earlier_model": int(old is not None)},
        "sample": {"tool": spec["tool"], "prior": case["prior"], "death": f["act"], "at": opc, "outcome": r["outcome"], "verdict": sorted(verdict)},
        "digest": r.get("digest"), "steps": r.get("steps", 0), "switches": r.get("switches", 0), "simtime": r.get("simtime", 0), "trace": r.get("trace"),
    }
