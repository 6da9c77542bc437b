"""C14: inputs are never modified and nothing is written elsewhere."""
import errno
import hashlib
import os
import random
import shutil

PROP = "C14"
RULE = (
    "A run = a seeded history of one to three invocations of any of nine tools, one after the other, sharing an output "
    "directory (fresh, or holding an earlier model) or not, on private copies of the inputs (plain files or the hub cache's "
    "link layout; absolute or relative paths; sometimes with a file missing), each invocation undisturbed, killed or failed "
    "at a seeded modifying file operation, or hit by read errors. After every invocation the inputs (contents, links, "
    "modes, times) and everything else outside the output, cache, and temporary directories must be untouched, and every "
    "modifying file operation the process issued must have had its target below those. Non-trivial when something was "
    "written. Distinct = (tools, layout, operation classes hit, outcomes)."
)
REAL = ["mergekit tools end to end, adapter merging (transformers, peft)", "safetensors/torch serialisation", "real files, real process death"]
STUB = ["errors and death are injected at the libc boundary", "thread scheduling, locks, clock"]
ASSUMPTIONS = ["the output directory is not itself an input", "no entry of the output directory links to an input before the run"]
RUNS = {"quick": 3000, "thorough": 40000}
BUDGET = {"quick": 80, "thorough": 720}
TOOLW = ["merge"] * 5 + ["loramerge"] * 4 + ["yaml", "moe", "moe", "raw", "lora", "surgeon", "surgeon", "fill", "fill", "multi", "multi", "multi", "legacy", "evolve"]


def prepare(ctx):
    from sim import mergework as mw, tools

    tools.import_tools()
    mw.fixtures(ctx, lora=True)
    mw.more_fixtures(ctx)
    tools.extra_fixtures(ctx)


def gen_fault(rng):
    k = rng.choice(["none", "none", "crash_before", "crash_after", "crash_partial", "err", "err_partial", "sticky", "enospc", "read", "read"])
    return {"act": k, "at": rng.random(), "nth": rng.randrange(1, 30), "sub": rng.choice(["", "", "", "", "model", "config", "token", "cache", "index"]),
            "errno": rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES, errno.EEXIST, errno.EXDEV, errno.ENOENT])}


def gen(rng, i, tier):
    from sim import mergework as mw, tools
    from sim.sched import gen_sched

    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        t = rng.choice(TOOLW)
        if t == "loramerge":
            spec = tools.gen_op(rng, ("merge", "yaml"), lora=1.0, pool=("m0", "m1", "m3"), slices=0.2)
        elif t in ("merge", "yaml"):
            pool = rng.choice([("m0", "m1", "m2", "m3", "m5")] * 4 + [("m0", "m1", "m4", "m2"), mw.AUTO])
            spec = tools.gen_op(rng, (t,), pool=pool, multi=0.2)
        elif t == "multi":
            spec = tools.gen_op(rng, (t,), lora=rng.choice([0.0, 0.5]))
        else:
            spec = tools.gen_op(rng, (t,))
        if t in ("merge", "yaml", "loramerge") and rng.random() < 0.25:
            spec["config"]["chat_template"] = rng.choice(["chatml", "auto", "alpaca"])
        ops.append({"spec": spec, "fault": gen_fault(rng), "sched": gen_sched(rng, lines=False), "lazy": rng.random() < 0.7})
    return {
        "ops": ops, "shared": rng.random() < 0.8, "links": rng.random() < 0.35, "rel": rng.random() < 0.25, "slash": rng.random() < 0.15,
        "prior": rng.choice(["none"] * 5 + ["st1", "stN", "bin1", "leftover"]), "missing": rng.random() < 0.2, "mseed": rng.getrandbits(20),
        "nest": rng.choice([None, None, None, "cache", "out", "both"]),
    }


def shrink(case):
    for k in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:k] + case["ops"][k + 1 :])
    for k, v in (("links", False), ("rel", False), ("slash", False), ("missing", False), ("prior", "none"), ("nest", None)):
        if case.get(k) != v:
            yield dict(case, **{k: v})
    for k, o in enumerate(case["ops"]):
        if o["fault"]["act"] != "none":
            yield dict(case, ops=case["ops"][:k] + [dict(o, fault=dict(o["fault"], act="none"))] + case["ops"][k + 1 :])
        for n, v in (("async_write", False), ("write_model_card", False), ("copy_tokenizer", False), ("out_shard_size", 10**9), ("lazy_unpickle", False)):
            if o["spec"]["options"].get(n) != v:
                s = dict(o["spec"], options=dict(o["spec"]["options"], **{n: v}))
                yield dict(case, ops=case["ops"][:k] + [dict(o, spec=s)] + case["ops"][k + 1 :])


def _strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, list):
        for v in x:
            yield from _strings(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from _strings(v)


def copy_inputs(case, fx, dst):
    used = sorted({p[1:] for o in case["ops"] for s in _strings({k: v for k, v in o["spec"].items() if k != "options"})
                   for p in s.split("+") if p.startswith("@")})
    for m in used:
        src, d = os.path.join(fx, m), os.path.join(dst, m)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if os.path.isdir(src):
            shutil.copytree(src, d)
        else:
            shutil.copy(src, d)
    if case["missing"]:
        rng = random.Random(case["mseed"])
        fs = sorted(os.path.join(r, f) for r, _, ff in os.walk(dst) for f in ff)
        os.unlink(rng.choice(fs))
    if case["links"]:
        # as in the hub cache: files are links to blobs elsewhere
        blobs = os.path.join(os.path.dirname(dst), "hub", "blobs")
        os.makedirs(blobs)
        for k, (r, f) in enumerate(sorted((r, f) for r, _, ff in os.walk(dst) for f in ff)):
            b = os.path.join(blobs, "%04x" % k)
            os.rename(os.path.join(r, f), b)
            os.symlink(os.path.relpath(b, r), os.path.join(r, f))


def snapshot(w, allowed):
    """everything below w outside the allowed directories"""
    o = {}

    def rec(d):
        for e in sorted(os.scandir(d), key=lambda e: e.name):
            if e.path in allowed:
                continue
            st = e.stat(follow_symlinks=False)
            rel = os.path.relpath(e.path, w)
            if e.is_symlink():
                o[rel] = ("link", os.readlink(e.path))
            elif e.is_dir():
                o[rel] = ("dir", st.st_mode)
                rec(e.path)
            else:
                with open(e.path, "rb") as f:
                    o[rel] = ("file", hashlib.sha256(f.read()).hexdigest()[:16], st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino)

    rec(w)
    return o


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append("%s created" % k)
        elif k not in b:
            out.append("%s deleted" % k)
        elif a[k] != b[k]:
            what = "contents" if a[k][0] == "file" == b[k][0] and a[k][1] != b[k][1] else "metadata"
            out.append("%s modified (%s)" % (k, what))
    return out


def rules_of(f):
    from sim import shim

    a = f["act"]
    if a in ("none", "enospc"):
        return []
    if a == "read":
        return [{"kinds": shim.OPENR | shim.READ | shim.MMAP, "action": "err", "nth": f["nth"] * 2, "errno": f["errno"], "sub": "/models/", "sticky": int(f["at"] < 0.3)}]
    x = {"kinds": shim.MUT, "action": "err" if a == "sticky" else a, "nth": f["nth"] if f["at"] < 0.8 else f["nth"] * 4, "errno": f["errno"], "sub": f["sub"]}
    if a == "sticky":
        x["sticky"] = 1
    return [x]


def run(case, ctx, d, trace):
    from props import c06
    from sim import mergework as mw, oprun, shim, tools, toygraph

    w = os.path.join(d, "w")
    os.makedirs(w)
    mdir = os.path.join(w, "models")
    copy_inputs(case, ctx.fx["models"], mdir)
    inputs = set(os.listdir(mdir))
    nest = case.get("nest")  # which directories live among the input models
    cwd = os.path.join(w, "cwd")
    for s in ("cwd", "conf", "t", "t/tmp", "cwd/model", "outx"):
        os.makedirs(os.path.join(w, s))
    for s in ("cwd/model.safetensors", "cwd/config.json", "cwd/README.md", "cwd/tokenizer.json", "outx/model.safetensors", "out.txt"):
        with open(os.path.join(w, s), "w") as f:
            f.write("precious")
    v, r, outs, wrote, hits, foreign = None, {}, [], 0, [], None
    for k, o in enumerate(case["ops"]):
        spec = o["spec"]
        name = "out" if case["shared"] else "out%d" % k
        out = os.path.join(mdir if nest in ("out", "both") else w, name)
        conf = os.path.join(w, "conf", str(k))
        os.makedirs(conf)
        if k == 0 and case["prior"] != "none":
            import torch

            c06.make_prior(case["prior"], case["mseed"], out, spec, {"model.a": torch.zeros(2), "model.b": torch.ones(2)})
        m = os.path.relpath(mdir, cwd) if case["rel"] else mdir
        target = os.path.relpath(out, cwd) if case["rel"] else out
        if case["slash"] and spec["tool"] not in ("multi", "evolve"):
            target += "/"
        tools.write_inputs(spec, m, out, work=conf)
        cache = mdir if nest in ("cache", "both") else os.path.join(w, "cache")

        def allowed():
            a = {out, *tools.side_dirs(out).values(), cache, os.path.join(w, "t")}
            if cache == mdir:
                a.discard(mdir)
                a |= {os.path.join(mdir, x) for x in os.listdir(mdir) if x not in inputs}
            return a

        before = snapshot(w, allowed())
        known = set(before)

        def fn():
            os.chdir(cwd)
            toygraph.install_fake_devices(2)
            mw.use_tmp(os.path.join(w, "t"))
            tools.do_op(spec, m, target, cache, work=conf, lazy=o["lazy"])

        r = oprun.sim_process(fn, d, rules=rules_of(o["fault"]), space=int(o["fault"]["at"] * 6000) if o["fault"]["act"] == "enospc" else None,
                              sched=o["sched"], trace=trace if k == len(case["ops"]) - 1 else None, seed=5, want_log=True)
        outs.append(r["outcome"])
        if r["outcome"] in ("stuck", "hang", "died"):
            return {"v": {"cls": r["outcome"], "msg": str(r.get("text"))[-900:]}, "sig": "x"}
        hits += [shim.KINDS.get(e[0], "?") + " " + _cls(e[1]) for e in r.get("log", []) if e[6]][:2]
        x = diff(before, snapshot(w, allowed()))
        where = "%s (%s, after %s, %s)" % (spec["tool"], o["fault"]["act"], outs[:-1], r["outcome"])
        if x:
            what = "input" if any(y.startswith(("models", "hub")) for y in x) else "elsewhere"
            v = {"cls": what, "msg": "%s: %s" % (where, ", ".join(x[:5]))}
            break
        def new_entry(p):
            """something of its own in a cache directory which also holds input models"""
            return cache == mdir and p.startswith(mdir + "/") and p[len(mdir) + 1 :].split("/")[0] not in inputs

        stray, own = [], allowed()
        for kind, a, b, *_ in r.get("log", []):
            if not kind & shim.MUT:
                continue
            wrote += 1
            for p in (a, b):
                # making an existing directory changes nothing
                if p and not any(p == q or p.startswith(q + "/") for q in own) and not new_entry(p) and not (kind & ~shim.FENCED == shim.MKDIR and os.path.isdir(p)):
                    if kind & ~shim.FENCED != shim.LINK or p == b:
                        stray.append("%s %s" % (shim.KINDS.get(kind & ~shim.FENCED, kind), os.path.relpath(p, w) if p.startswith(w) else p))
        if stray:
            v = {"cls": "stray", "msg": "%s: file operations outside the output, caches and temporary directory: %s" % (where, sorted(set(stray))[:5])}
            break
    return {
        "v": v, "sig": "%s/%s%s%s/%s/%s/%s" % ("+".join(o["spec"]["tool"] for o in case["ops"]), "L" if case["links"] else "", "R" if case["rel"] else "", "S" if case["shared"] else "",
                                               case["prior"], sorted(set(hits)), outs),
        "nontrivial": wrote > 0,
        "faults": {a: sum(o["fault"]["act"] == a and t != "ok" for o, t in zip(case["ops"], outs)) for a in {o["fault"]["act"] for o in case["ops"]} - {"none"}},
        "probes": {"modifying_operations": wrote, "killed": outs.count("crash"), "failed": outs.count("exc"), "completed": outs.count("ok"),
                   "linked_inputs": int(case["links"]), "directories_among_inputs": int(bool(nest)), "relative_paths": int(case["rel"]), "several_runs_into_one_output": int(case["shared"] and len(outs) > 1)},
        "sample": {"tools": [o["spec"]["tool"] for o in case["ops"]], "outcomes": outs, "faults": [o["fault"]["act"] for o in case["ops"]], "hit": hits[:3]},
        "digest": r.get("digest"), "steps": r.get("steps", 0), "switches": r.get("switches", 0), "simtime": r.get("simtime", 0), "trace": r.get("trace"),
    }


def _cls(p):
    b = os.path.basename(p)
    return "".join("#" if c.isdigit() else c for c in b)[:40]
