"""C12: results do not depend on what the process did before."""
import errno
import re
import os
import shutil

PROP = "C12"
RULE = (
    "A run = one simulated process performing two to five operations (all tools; repeated, with other options, failing "
    "by I/O error, interrupted inside a task, rejected, or abandoned half-way through the library interface) while inputs "
    "are replaced between them (new values, other file layout or format, other layers or vocabulary; by rename or in "
    "place). Each operation's outcome, weights and files must equal those of the same operation run alone in a fresh "
    "process on the inputs as they are then. Non-trivial when at least two operations ran. Distinct = (tools and kinds of "
    "disturbance in order, what changed)."
)
REAL = ["mergekit tools end to end", "serialisation, real files"]
STUB = ["failures (libc boundary, one task)", "thread scheduling, locks, clock"]
ASSUMPTIONS = ["a random seed is given when the method samples", "inputs change only between operations"]
RUNS = {"quick": 1400, "thorough": 20000}
BUDGET = {"quick": 80, "thorough": 720}
RUN_TIMEOUT = 120
MUTABLE = ["m0", "m1", "m2", "m3", "m5", "m6", "m7", "m8"]
NVAR = 4
TOOLW = ["merge"] * 10 + ["yaml", "moe", "raw", "raw", "lora", "lora", "surgeon", "fill", "multi", "legacy"]


def prepare(ctx):
    import random

    from sim import mergework as mw, models, tools

    tools.import_tools()
    d = mw.fixtures(ctx, lora=True)
    mw.more_fixtures(ctx)
    tools.extra_fixtures(ctx)
    rng = random.Random(5)
    for m in MUTABLE:
        auto = m in mw.AUTO
        kw = dict(arch=("HeliumForCausalLM", "helium"), extra={"head_dim": models.HID // models.HEADS}) if auto else {}
        for k in range(1, NVAR):
            a = dict(layout=rng.choice(["single", "sharded"]), fmt=rng.choice(["safetensors", "bin"]))
            if k == 2:
                a["layers"] = 3
            if k == 3 and not auto:
                a.update(vocab=models.VOCAB + 2, words=models.BASE_WORDS[:4] + ["<x>", "yy"] + models.BASE_WORDS[4:])
            models.save_model("%s/%s.v%d" % (d, m, k), 100 + 10 * int(m[1:]) + k, **a, **kw)
    for r in ("r0", "r1"):
        from safetensors.torch import load_file, save_file

        sd = load_file("%s/raw/%s.safetensors" % (d, r))
        os.makedirs(d + "/raw.v1", exist_ok=True)
        save_file({n: x * 3 for n, x in reversed(list(sd.items()))}, "%s/raw.v1/%s.safetensors" % (d, r), metadata={"format": "pt"})
    shutil.copy(d + "/raw/r2.bin", d + "/raw.v1/r2.bin")
    models.save_lora(d + "/lora0.v1", d + "/m0", 70)
    # other models and adapters with the same names, in another directory
    b = models.save_model(d + "/alt/m0", 81)
    models.save_model(d + "/alt/m1", 82, base_sd=b, layout="sharded")
    for k in (0, 1):
        models.save_lora(d + "/alt/lora%d" % k, d + "/m0", 83 + k)


def gen_spec(prng):
    from sim import mergework as mw, tools

    t = prng.choice(TOOLW)
    pool = prng.choice([("m0", "m1", "m2", "m3", "m5")] * 3 + [("m0", "m1")] * 2 + [mw.AUTO] * 2)
    kw = {}
    if t in ("merge", "yaml"):
        kw["lora"] = prng.choice([0.0, 0.0, 0.7])
    s = tools.gen_op(prng, (t,), pool=pool, **kw)
    if has_lora(s) and prng.random() < 0.6:
        s["options"]["lora_merge_dtype"] = prng.choice(["bfloat16", "float16", "float32"])
    return s


def has_lora(s):
    return re.search(r"\+@(alt/)?lora", str(s)) is not None


def namesake(s, rng):
    """the same operation on models of the same names in another directory"""
    import json

    t = json.dumps(s)
    for n in ("@m0", "@m1", "@lora0", "@lora1"):
        if rng.random() < 0.5:
            t = re.sub(n + r"\b", "@alt/" + n[1:], t)
    return json.loads(t)


def gen(rng, i, tier):
    import copy
    import random

    from sim import mergework as mw
    from sim.sched import gen_sched

    n = rng.choice([2, 2, 3, 3, 4, 5])
    specs = [gen_spec(random.Random("C12/%d" % rng.randrange(60 if tier == "quick" else 800))) for _ in range(n)]
    ops = []
    shared = rng.random() < 0.5
    for k in range(n):
        s = specs[k]
        if k and rng.random() < 0.5:
            s = copy.deepcopy(ops[rng.randrange(k)]["spec"])
            for key in rng.sample(["safe_serialization", "lazy_unpickle", "async_write", "clone_tensors", "low_cpu_memory", "copy_tokenizer", "random_seed"], rng.randrange(0, 3)):
                s["options"][key] = (8 if s["options"][key] == 7 else 7) if key == "random_seed" else not s["options"][key]
            if has_lora(s) and rng.random() < 0.5:
                s["options"]["lora_merge_dtype"] = rng.choice(["bfloat16", "float32", "float16"])
        if k and s["tool"] in ("merge", "yaml", "lora") and rng.random() < (0.6 if has_lora(s) else 0.15):
            s = namesake(s, rng)
        ch = {}
        if k:
            ms = sorted({x for x in _models(s) if x in MUTABLE})
            for m in ms:
                if rng.random() < 0.5:
                    ch[m] = rng.choice([0, 1, 1, 2, 3] if len(ms) > 1 else [0, 1, 2, 3])
            if ch and rng.random() < 0.4:
                v = rng.choice([1, 2])
                ch = {m: v for m in ms}
            if s["tool"] == "raw" and rng.random() < 0.5:
                ch["raw"] = rng.choice([0, 1])
        bad = None
        if k < n - 1 and rng.random() < 0.45:
            bad = {"kind": rng.choice(["write", "read", "interrupt", "abandon", "abandon_keep", "reject"]), "nth": 1 + int(rng.expovariate(0.08)), "errno": errno.EIO}
        ops.append({"spec": s, "change": ch, "how": rng.choice(["rename", "inplace"]), "bad": bad})
    if shared and any(has_lora(o["spec"]) for o in ops):
        for o in ops:
            o["change"].pop("m0", None)  # base of the adapters in the kept cache (F16)
    case = {"ops": ops, "shared": shared, "sched": gen_sched(rng, lines=False)}
    if rng.random() < 0.04:
        # one adapter merge, the adapter is retrained in place, the same merge again with the same adapter cache
        s = random.Random("C12/stale%d" % rng.randrange(8))
        spec = {"tool": "merge", "options": dict(mw.gen_options(s), random_seed=7),
                "config": {"merge_method": "linear", "models": [{"model": "@m0+@lora0", "parameters": {"weight": 1.0}}, {"model": "@m1", "parameters": {"weight": 0.5}}], "dtype": "float32"}}
        case = {"ops": [{"spec": spec, "change": {}, "how": "rename", "bad": None}, {"spec": spec, "change": {"lora0": 1}, "how": "rename", "bad": None}],
                "shared": True, "adapter_changed": True, "sched": case["sched"]}
    elif rng.random() < 0.06:
        # the same merge on an adapter and models of the same names elsewhere, with the same adapter cache
        s = random.Random("C12/alt%d" % rng.randrange(8))
        spec = {"tool": "merge", "options": dict(mw.gen_options(s), random_seed=7),
                "config": {"merge_method": "linear", "models": [{"model": "@m0+@lora%d" % s.randrange(2), "parameters": {"weight": 1.0}}, {"model": "@m1", "parameters": {"weight": 0.5}}], "dtype": "float32"}}
        other = spec
        while other == spec:
            other = namesake(spec, rng)
        both = [spec, other]
        rng.shuffle(both)
        case = {"ops": [{"spec": x, "change": {}, "how": "rename", "bad": None} for x in both], "shared": True, "sched": case["sched"]}
    return case


def _models(s):
    from sim import mergework as mw

    out = []
    for r in mw._refs({k: v for k, v in s.items() if k != "options"}):
        for p in r.split("+"):
            out.append(p.lstrip("@").split("/")[0])
    return out


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops) - 1, -1, -1):
        if len(ops) > 1:
            yield dict(case, ops=ops[:k] + ops[k + 1 :])
    for k, o in enumerate(ops):
        if o["bad"]:
            yield dict(case, ops=ops[:k] + [dict(o, bad=None)] + ops[k + 1 :])
        for m in o["change"]:
            yield dict(case, ops=ops[:k] + [dict(o, change={a: b for a, b in o["change"].items() if a != m})] + ops[k + 1 :])


def install(src, fx, m, v, how):
    """put variant v of input m in place"""
    s = os.path.join(fx, m if v == 0 else "%s.v%d" % (m, v))
    t = os.path.join(src, m)
    if how == "rename" or not os.path.isdir(t):
        shutil.copytree(s, t + ".new")
        if os.path.isdir(t):
            os.rename(t, t + ".old")
            shutil.rmtree(t + ".old")
        os.rename(t + ".new", t)
        return
    for f in os.listdir(t):
        if not os.path.exists(os.path.join(s, f)):
            os.unlink(os.path.join(t, f))
    for f in os.listdir(s):
        with open(os.path.join(s, f), "rb") as a, open(os.path.join(t, f), "r+b" if os.path.exists(os.path.join(t, f)) else "wb") as b:
            b.write(a.read())
            b.truncate()


def fresh(ctx, spec, state, fx, d):
    """the operation alone in a fresh process on inputs in `state` (cached)"""
    import pickle

    from sim import mergework as mw, oprun, tools

    used = sorted(set(_models(spec)) | ({"m0"} if has_lora(spec) else set()))
    key = mw.ref_key([spec, {m: state.get(m, 0) for m in used}])
    rd = os.path.join(ctx.scratch, "ref")
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, key)
    if os.path.exists(p):
        with open(p, "rb") as f:
            return pickle.load(f)
    work = os.path.join(d, "w")
    od = os.path.join(work, "op0")
    os.makedirs(od)
    for m in used:
        install(os.path.join(work, "models"), fx, m, state.get(m, 0), "rename")
    out = os.path.join(od, "out")
    tools.write_inputs(spec, os.path.join(work, "models"), out)
    r = oprun.run_op(ctx, spec, work, out, cache=os.path.join(work, "cache"), seed=5, models_dir=os.path.join(work, "models"))
    r = {"outcome": r["outcome"], "text": r.get("text"), "etype": r.get("etype")}
    if r["outcome"] == "ok":
        mw.normalise(od, work)
        r["obs"] = tools.observe(spec, out)
    tools.rmtree(work)
    with open("%s.%d" % (p, os.getpid()), "wb") as f:
        pickle.dump(r, f)
    os.replace("%s.%d" % (p, os.getpid()), p)
    return r


KEEP = []


def abandon(spec, mdir, cache, nth, keep):
    """start the merge through the library and stop consuming after nth values"""
    from sim import mergework as mw

    import yaml
    from mergekit.architecture import get_architecture_info
    from mergekit.config import MergeConfiguration
    from mergekit.graph import Executor
    from mergekit.io.tasks import LoaderCache
    from mergekit.merge import _model_out_config
    from mergekit.options import MergeOptions
    from mergekit.plan import MergePlanner

    cfg = MergeConfiguration.model_validate(yaml.safe_load(yaml.safe_dump(mw.subst(spec["config"], mdir))))
    opt = MergeOptions(**dict(spec["options"], quiet=True, lora_merge_cache=cache))
    arch = get_architecture_info(cfg, opt)
    LoaderCache().setup(options=opt)
    oc = _model_out_config(cfg, arch)
    ex = Executor(MergePlanner(cfg, arch, options=opt, out_model_config=oc).plan_in_memory(), math_device="cpu", storage_device="cpu")
    it = ex.run(quiet=True)
    for _ in range(nth):
        if next(it, None) is None:
            break
    if keep:
        KEEP.append(it)
    else:
        it.close()


def do_sequence(case, work, fx):
    from sim import mergework as mw, shim, tools

    mdir = os.path.join(work, "models")
    res = []
    nrule = sum(bool(o["bad"] and o["bad"]["kind"] in ("write", "read")) for o in case["ops"])
    for k, o in enumerate(case["ops"]):
        shim.pause()
        for m, v in o["change"].items():
            install(mdir, fx, m, v, o["how"])
        shim.resume()
        od = os.path.join(work, "op%d" % k)
        out = os.path.join(od, "out")
        cache = os.path.join(work, "cache" if case["shared"] else "cache%d" % k)
        spec, bad = o["spec"], o["bad"]
        before = [shim.fired(i) for i in range(nrule)]
        try:
            if bad and bad["kind"].startswith("abandon") and "config" in spec and spec["tool"] in ("merge", "yaml"):
                abandon(spec, mdir, cache, bad["nth"], bad["kind"] == "abandon_keep")
                r = "abandoned"
            elif bad and bad["kind"] == "reject" and spec["tool"] == "merge":
                c = dict(spec["config"], merge_method="no_such_method")
                tools.do_op(dict(spec, config=c), mdir, out, cache, work=od)
                r = "ok"
            elif bad and bad["kind"] == "interrupt":
                from mergekit.io.tasks import LoadTensor

                orig, n = LoadTensor.execute, [0]

                def execute(self, *a, **kw):
                    n[0] += 1
                    if n[0] == bad["nth"]:
                        raise KeyboardInterrupt()
                    return orig(self, *a, **kw)

                LoadTensor.execute = execute
                try:
                    tools.do_op(spec, mdir, out, cache, work=od)
                finally:
                    LoadTensor.execute = orig
                r = "ok"
            else:
                tools.do_op(spec, mdir, out, cache, work=od)
                r = "ok"
            text = None
        except BaseException as e:  # noqa: BLE001
            import traceback

            r, text = "exc", "%s\n%s" % (type(e).__name__, traceback.format_exc()[-1500:])
        fired = any(shim.fired(i) > b for i, b in enumerate(before))
        res.append((r, text, fired))
    return res


def run(case, ctx, d, trace):
    from sim import mergework as mw, oprun, shim, tools

    fx = ctx.fx["models"]
    state, refs = {}, []
    for o in case["ops"]:
        state.update(o["change"])
        refs.append((fresh(ctx, o["spec"], state, fx, d), dict(state)))
    work = os.path.join(d, "w")
    mdir = os.path.join(work, "models")
    used = set()
    for o in case["ops"]:
        used |= set(_models(o["spec"])) | ({"m0"} if has_lora(o["spec"]) else set())
    for m in sorted(used):
        install(mdir, fx, m, 0, "rename")
    rules = []
    for k, o in enumerate(case["ops"]):
        od = os.path.join(work, "op%d" % k)
        os.makedirs(od)
        tools.write_inputs(o["spec"], mdir, os.path.join(od, "out"))
        b = o["bad"]
        if b and b["kind"] == "write":
            rules.append({"kinds": shim.MUT, "sub": "/op%d/" % k, "nth": b["nth"], "action": "err", "errno": b["errno"]})
        elif b and b["kind"] == "read":
            rules.append({"kinds": shim.OPENR | shim.READ | shim.MMAP, "sub": "/models/", "nth": b["nth"], "action": "err", "errno": b["errno"]})
    tmp = os.path.join(work, "t")
    os.makedirs(tmp)

    def fn():
        mw.use_tmp(tmp)
        return do_sequence(case, work, fx)

    r = oprun.sim_process(fn, d, rules=rules, sched=case["sched"], trace=trace, seed=6)
    v, outs = None, []
    if r["outcome"] != "ok":
        v = {"cls": "process-" + r["outcome"], "msg": str(r.get("text"))[-1500:]}
    else:
        outs = r["value"]
        for k, (o, (oc, text, fired), (ref, st)) in enumerate(zip(case["ops"], outs, refs)):
            hist = "operation %d (%s %s) after %s" % (k, o["spec"]["tool"], o["spec"].get("config", {}).get("merge_method", ""), [
                (p["spec"]["tool"], x[0], (p["bad"] or {}).get("kind"), p["change"]) for p, x in zip(case["ops"][:k], outs)])
            hist += ", inputs changed before it: %s (%s)" % (o["change"], o["how"])
            disturbed = fired or (o["bad"] and o["bad"]["kind"] in ("interrupt", "abandon", "abandon_keep", "reject"))
            cls = "stale-adapter-cache" if case.get("adapter_changed") else None
            if oc == "abandoned" or (oc == "exc" and disturbed):
                continue
            if oc != ref["outcome"]:
                v = {"cls": cls or "outcome", "msg": "%s: %s here, %s in a fresh process: %s" % (hist, oc, ref["outcome"], str(text or ref.get("text"))[-700:])}
                break
            if oc == "ok":
                mw.normalise(os.path.join(work, "op%d" % k), work)
                got = tools.observe(o["spec"], os.path.join(work, "op%d" % k, "out"))
                e = ref["obs"]
                if e["weights"] != got["weights"]:
                    v = {"cls": cls or "weights", "msg": "%s: weights differ from a fresh process: %s" % (hist, mw.diff_weights(e["weights"] or {}, got["weights"] or {}))}
                    break
                bad = sorted(x for x in set(e["files"]) | set(got["files"]) if e["files"].get(x) != got["files"].get(x))
                if bad:
                    v = {"cls": cls or "files", "msg": "%s: files differ from a fresh process: %s" % (hist, bad[:5])}
                    break
                for name, so in (e.get("stages") or {}).items():
                    if so["weights"] != got["stages"][name]["weights"]:
                        v = {"cls": cls or "stage-weights", "msg": "%s: stage %s differs" % (hist, name)}
                if v:
                    break
    kinds = [(o["bad"] or {}).get("kind", "-") for o in case["ops"]]
    return {
        "v": v, "sig": str([(o["spec"]["tool"], k, sorted(o["change"].items())) for o, k in zip(case["ops"], kinds)]),
        "nontrivial": len(outs) > 1,
        "faults": {**{k: kinds.count(k) for k in set(kinds) if k != "-"}, "input_change": sum(len(o["change"]) for o in case["ops"])},
        "probes": {"ops_ok": sum(x[0] == "ok" for x in outs), "ops_failed": sum(x[0] == "exc" for x in outs),
                   "ops_abandoned": sum(x[0] == "abandoned" for x in outs), "after_change_ok": sum(bool(o["change"]) and x[0] == "ok" for o, x in zip(case["ops"], outs)),
                   "ref_failures": sum(f[0]["outcome"] != "ok" for f in refs)},
        "sample": {"ops": [(o["spec"]["tool"], k, o["change"], x[0]) for o, k, x in zip(case["ops"], kinds, outs)]},
        "digest": r.get("digest"), "steps": r.get("steps", 0), "switches": r.get("switches", 0), "simtime": r.get("simtime", 0), "trace": r.get("trace"),
    }
