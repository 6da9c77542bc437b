"""C09: damaged or unreadable inputs are never silently merged."""
import errno
import json
import os
import random
import shutil

PROP = "C09"
RULE = (
    "A run = one tool invocation on a private copy of its inputs with a seeded damage: a weight file deleted, emptied or "
    "truncated at any offset; a storage inside a pickled file cut short; an index deleted, truncated or pointing to a wrong or missing file; a required tensor "
    "removed (with or without its index entry); a configuration, adapter or tokenizer file deleted or truncated; or one or "
    "all reads, opens or mappings failing from a seeded point of the run on. The tool must fail, or have produced exactly "
    "the weights and files of the run on intact inputs. Non-trivial when the damaged file was touched by the tool. "
    "Distinct = (tool, damage, file class, outcome)."
)
REAL = ["mergekit tools end to end, adapter merging (transformers, peft)", "safetensors/torch readers", "real files"]
STUB = ["read errors are injected at the libc boundary", "thread scheduling, locks, clock"]
ASSUMPTIONS = [
    "damage is detectable: file contents are not replaced by other well-formed contents",
    "tensors an architecture definition marks optional, and tensors of inferred architectures, may legitimately be absent",
]
RUNS = {"quick": 3000, "thorough": 40000}
BUDGET = {"quick": 80, "thorough": 720}
TOOLW = ["merge"] * 9 + ["loramerge"] * 4 + ["yaml", "moe", "moe", "raw", "raw", "lora", "surgeon", "surgeon", "fill", "fill", "multi", "experts", "evolve", "legacy"]
DAMAGE = ["delete", "truncate", "truncate", "empty", "droptensor", "droptensor", "droptensor_index", "badindex", "badindex", "short",
          "fault", "fault", "fault", "fault", "fault"]


def prepare(ctx):
    from sim import mergework as mw, tools

    tools.import_tools()
    mw.fixtures(ctx, lora=True)
    mw.more_fixtures(ctx)
    tools.extra_fixtures(ctx)


def gen(rng, i, tier):
    from sim import mergework as mw, tools
    from sim.sched import gen_sched

    t = rng.choice(TOOLW)
    prng = random.Random("C09/%d" % rng.randrange(80 if tier == "quick" else 800))
    if t == "loramerge":
        spec = tools.gen_op(prng, ("merge",), lora=1.0, pool=("m0", "m1", "m3"), slices=0.1)
    elif t == "experts":
        spec = tools.gen_op(prng, ("merge",), families=0, pool=mw.FAMILIES["experts"], methods=prng.choice([None, ["passthrough"], ["passthrough"]]))
    else:
        pool = prng.choice([("m0", "m1", "m2", "m3", "m5")] * 4 + [("m0", "m1", "m4", "m2"), mw.AUTO])
        spec = tools.gen_op(prng, (t,), pool=pool) if t not in ("multi", "evolve") else tools.gen_op(prng, (t,), lora=0.4 if t == "evolve" else 0)
    k = rng.choice(DAMAGE) if t != "experts" else rng.choice(DAMAGE + ["dropexpert"] * 9)
    dm = {"kind": k, "frac": rng.random(), "frac2": rng.random(), "what": rng.choice(["weights", "weights", "weights", "index", "config", "tokenizer", "adapter", "any"])}
    if k == "fault":
        dm.update(kinds=rng.choice(["any", "open", "read", "mmap"]), sticky=rng.random() < 0.3, by_class=rng.random() < 0.6,
                  errno=rng.choice([errno.EIO, errno.EIO, errno.EACCES, errno.ENOENT, errno.ESTALE, errno.ENOMEM]))
    return {"spec": spec, "damage": dm, "sched": gen_sched(rng, lines=False)}


def shrink(case):
    s = case["spec"]
    dm = case["damage"]
    if dm.get("sticky"):
        yield dict(case, damage=dict(dm, sticky=False))
    for k, v in (("async_write", False), ("write_model_card", False), ("copy_tokenizer", False), ("out_shard_size", 10**9), ("lazy_unpickle", False)):
        if s["options"].get(k) != v:
            yield dict(case, spec=dict(s, options=dict(s["options"], **{k: v})))


def classify(f):
    b = os.path.basename(f)
    if b.endswith(".index.json"):
        return "index"
    if b.startswith("adapter_"):
        return "adapter"
    if b.endswith((".safetensors", ".bin")):
        return "weights"
    if b == "config.json":
        return "config"
    if "token" in b:
        return "tokenizer"
    return "other"


def copy_models(spec, fx, dst):
    used = sorted(set(_names(spec)))
    for m in used:
        os.makedirs(os.path.dirname(os.path.join(dst, m)), exist_ok=True)
        if os.path.isdir(os.path.join(fx, m)):
            shutil.copytree(os.path.join(fx, m), os.path.join(dst, m))
        else:
            shutil.copy(os.path.join(fx, m), os.path.join(dst, m))
    return used


def _names(s):
    from sim import mergework as mw

    out = []
    for r in mw._refs({k: v for k, v in s.items() if k != "options"}):
        out += [p.lstrip("@") for p in r.split("+")]
    return out


def files_of(root):
    out = []
    for r, ds, fs in os.walk(root):
        ds.sort()
        out += [os.path.relpath(os.path.join(r, f), root) for f in sorted(fs)]
    return out


def load_file(p):
    import torch
    from safetensors.torch import load_file as lf

    return lf(p) if p.endswith(".safetensors") else torch.load(p)


def save_file(sd, p):
    import torch
    from safetensors.torch import save_file as sf

    if p.endswith(".safetensors"):
        sf(sd, p, metadata={"format": "pt"})
    else:
        torch.save(sd, p)


def cut_record(p, fr):
    """one storage of a pickled checkpoint becomes shorter than its tensor; the archive stays well-formed"""
    import zipfile

    with zipfile.ZipFile(p) as z:
        recs = [(i, z.read(i)) for i in z.infolist()]
    data = [k for k, (i, b) in enumerate(recs) if "/data/" in i.filename and len(b) >= 8]
    k = data[int(fr * len(data))]
    i, b = recs[k]
    short = b[: int(fr * 997) % 2 * 4 or len(b) - 4]
    recs[k] = (i, short)
    with zipfile.ZipFile(p, "w", zipfile.ZIP_STORED) as z:
        for i, b in recs:
            z.writestr(i.filename, b)
    return "storage %s shortened to %d bytes" % (recs[k][0].filename, len(short))


def drop_expert(mdir, fr, fr2):
    """all or some of the tensors of one expert of a checkpoint with one tensor per expert are gone from files and index"""
    ms = [m for m in sorted(os.listdir(mdir)) if m.startswith("mx")]
    root = os.path.join(mdir, ms[int(fr * len(ms))])
    kinds = [("w1", "w2", "w3"), ("w1", "w3"), ("w2",), ("w1",)][int(fr2 * 997) % 4]
    e = int(fr2 * 4)
    layer = int(fr * 997) % 2

    def hit(n):
        return "layers.%d." % layer in n and any("experts.%d.%s." % (e, w) in n for w in kinds)

    for f in files_of(root):
        p = os.path.join(root, f)
        if f.endswith(".index.json"):
            j = json.load(open(p))
            j["weight_map"] = {n: v for n, v in j["weight_map"].items() if not hit(n)}
            json.dump(j, open(p, "w"))
        elif f.endswith((".safetensors", ".bin")):
            sd = load_file(p)
            save_file({n: v for n, v in sd.items() if not hit(n)}, p)
    return f, "expert %d of layer %d lacks %s in %s" % (e, layer, ",".join(kinds), os.path.basename(root))


OPTIONAL = ("lm_head", "rotary_emb", "coder.embed_tokens")


def apply(dm, mdir, spec):
    """damages the private inputs; -> (relative path, description) or None"""
    k, fr, fr2 = dm["kind"], dm["frac"], dm["frac2"]
    fs = files_of(mdir)
    if spec["tool"] == "fill" and k in ("droptensor", "droptensor_index", "badindex"):
        k = "truncate"  # absent tensors are what this tool is for

    def choose(c):
        c = c or [f for f in fs if classify(f) == "weights"]
        return c[int(fr * len(c))]

    if k == "short":
        ws = [f for f in fs if f.endswith(".bin") and classify(f) == "weights"]
        if ws:
            f = choose(ws)
            return f, cut_record(os.path.join(mdir, f), fr2)
        k = "truncate"
    want = [f for f in fs if dm["what"] == "any" or classify(f) == dm["what"]]
    if k == "badindex":
        ix = [f for f in fs if classify(f) == "index"]
        if not ix:
            k = "truncate"
        else:
            f = choose(ix)
            p = os.path.join(mdir, f)
            j = json.load(open(p))
            wm = j["weight_map"]
            names = [n for n in sorted(wm) if not any(o in n for o in OPTIONAL)]
            n = names[int(fr2 * len(names))]
            others = sorted(set(wm.values()) - {wm[n]})
            how = ["gone", "wrong", "partial"][int(fr2 * 997) % 3]
            if how == "gone":
                wm[n] = wm[n].replace("0000", "0009")
            elif how == "wrong" and others:
                wm[n] = others[int(fr2 * len(others))]
            else:
                del wm[n]
                if "helium" in open(os.path.join(os.path.dirname(p), "config.json")).read():
                    return None
            json.dump(j, open(p, "w"))
            return f, "%s index entry of %s" % (how, n)
    if k in ("droptensor", "droptensor_index"):
        ws = [f for f in fs if classify(f) in (("weights", "adapter") if dm["what"] == "adapter" else ("weights",)) and f.endswith((".safetensors", ".bin"))]
        if dm["what"] == "adapter":
            ws = [f for f in ws if "adapter" in f] or ws
        f = choose(ws)
        p = os.path.join(mdir, f)
        sd = load_file(p)
        names = [n for n in sorted(sd) if not any(o in n for o in OPTIONAL)]
        cfg = os.path.join(os.path.dirname(p), "config.json")
        if not names or os.path.exists(cfg) and "helium" in open(cfg).read():
            return None
        n = names[int(fr2 * len(names))]
        sd.pop(n)
        save_file(sd, p)
        if k == "droptensor_index":
            for ix in os.listdir(os.path.dirname(p)):
                if ix.endswith(".index.json"):
                    q = os.path.join(os.path.dirname(p), ix)
                    j = json.load(open(q))
                    j["weight_map"].pop(n)
                    json.dump(j, open(q, "w"))
        return f, "tensor %s removed" % n
    if k == "dropexpert":
        return drop_expert(mdir, fr, fr2)
    f = choose(want)
    p = os.path.join(mdir, f)
    n = os.path.getsize(p)
    if k == "delete":
        os.unlink(p)
        return f, "deleted"
    to = 0 if k == "empty" else min(n - 1, int(fr2 * n)) if fr2 < 0.8 else n - 1 - int((fr2 - 0.8) * 40)
    os.truncate(p, max(0, to))
    return f, "truncated from %d to %d bytes" % (n, to)


def one(ctx, spec, d, rules=(), dm=None, **kw):
    """copy inputs, damage them, run"""
    from sim import oprun, tools

    work = os.path.join(d, "w")
    mdir = os.path.join(work, "models")
    os.makedirs(mdir)
    copy_models(spec, ctx.fx["models"], mdir)
    what = apply(dm, mdir, spec) if dm and dm["kind"] != "fault" else None
    out = os.path.join(work, "o", "out")
    os.makedirs(os.path.dirname(out))
    tools.write_inputs(spec, mdir, out)
    r = oprun.run_op(ctx, spec, work, out, cache=os.path.join(work, "cache"), models_dir=mdir, rules=rules, seed=5, want_log=True, **kw)
    return r, what, work, out


def reference(ctx, spec, d):
    import pickle

    from sim import mergework as mw, shim, tools

    rd = os.path.join(ctx.scratch, "ref9")
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, mw.ref_key(spec))
    if os.path.exists(p):
        with open(p, "rb") as f:
            return pickle.load(f)
    r, _, work, out = one(ctx, spec, d)
    if r["outcome"] == "ok":
        mw.normalise(work)
        r["obs"] = tools.observe(spec, out)
        r["log"] = [(k, os.path.relpath(a, work)) for k, a, b, *_ in r["log"] if k & (shim.OPENR | shim.READ | shim.MMAP)]
    tools.rmtree(work)
    with open("%s.%d" % (p, os.getpid()), "wb") as f:
        pickle.dump(r, f)
    os.replace("%s.%d" % (p, os.getpid()), p)
    return r


def make_rules(f, log):
    from sim import oprun, shim

    mask = {"any": shim.OPENR | shim.READ | shim.MMAP, "open": shim.OPENR, "read": shim.READ, "mmap": shim.MMAP}[f["kinds"]]
    log = [e for e in log if e[1].startswith(("models", "cache"))]
    if not any(k & mask for k, _ in log):
        mask = shim.OPENR | shim.READ | shim.MMAP
    nth, op = oprun.pick_op([e for e in log if e[0] & mask], f["frac"], f["by_class"], mask)
    # the same position among operations on that very file
    same = [e for e in log if e[0] & mask]
    n = sum(1 for e in same[:nth] if e[1] == op[1])
    return [{"kinds": mask, "sub": op[1], "nth": n, "action": "err", "errno": f["errno"], "sticky": f["sticky"]}], op


def run(case, ctx, d, trace):
    from props import c05
    from sim import mergework as mw, shim, tools

    spec, dm = case["spec"], case["damage"]
    ref = reference(ctx, spec, d)
    if ref["outcome"] != "ok":
        return {"v": {"cls": "fault-free-failure", "msg": "%s with intact inputs: %s" % (ref["outcome"], str(ref.get("text"))[-1500:])}, "sig": "x"}
    rules, op = make_rules(dm, ref["log"]) if dm["kind"] == "fault" else ([], None)
    r, what, work, out = one(ctx, spec, d, rules, dm, sched=case["sched"], trace=trace)
    desc = "%s %s: %s" % (shim.KINDS[op[0]], op[1], errno.errorcode[dm["errno"]]) if op else "%s %s" % what if what else "no damage"
    f = op[1] if op else what[0] if what else "-"
    hit = sum(r.get("fired") or [0]) > 0 if op else bool(what)
    touched = hit and (bool(op) or any(f in a for k, a, *_ in r.get("log") or ()))
    v = None
    if r["outcome"] in ("stuck", "hang"):
        v = {"cls": "nontermination", "msg": "%s: %s %s" % (desc, r["outcome"], r["text"])}
    elif r["outcome"] == "died":
        v = {"cls": "killed", "msg": "%s: %s" % (desc, r["text"])}
    elif r["outcome"] == "ok":
        mw.normalise(work)
        obs = tools.observe(spec, out)
        best = spec["tool"] in ("merge", "yaml", "multi", "legacy") and spec["options"].get("copy_tokenizer") or spec["tool"] == "evolve"
        if what and dm["kind"] == "delete" and classify(f) == "tokenizer":
            best = True  # tokenizer_config.json is an optional part of a model
        for a, b in [(ref["obs"], obs)] + [(o, obs["stages"][n]) for n, o in (ref["obs"].get("stages") or {}).items()]:
            v = v or compare(a, b if spec["tool"] != "fill" else dict(b, files=a["files"]), desc, best)  # fill copies other files unread
    cls = dm["kind"] if dm["kind"] != "fault" else "fault-" + dm["kinds"]
    return {
        "v": v, "sig": "%s/%s/%s/%s/%s" % (spec["tool"], cls, os.path.basename(f), r["outcome"], r.get("etype")), "nontrivial": bool(touched),
        "faults": {cls: int(hit)},
        "probes": {"reported_error": int(r["outcome"] == "exc"), "unaffected": int(hit and r["outcome"] == "ok"), "file_" + classify(f): 1, spec["tool"]: 1,
                   "with_adapters": int("+@lora" in str(spec))},
        "sample": {"tool": spec["tool"], "damage": desc, "outcome": r["outcome"], "error": r.get("etype")},
        "digest": r.get("digest"), "steps": r.get("steps", 0), "switches": r.get("switches", 0), "simtime": r.get("simtime", 0), "trace": r.get("trace"),
    }


def compare(ref, obs, desc, best):
    from props import c05
    from sim import mergework as mw

    def bad(what, m):
        return {"cls": "success-" + what, "msg": "success was reported with damaged inputs (%s): %s" % (desc, m)}

    if ref["weights"] is not None or obs["weights"] is not None:
        if obs["weights"] is None:
            return bad("weights", obs["why"])
        if obs["weights"] != ref["weights"]:
            return bad("weights", mw.diff_weights(ref["weights"], obs["weights"]))
    for k, h in ref["files"].items():
        if best and (os.path.basename(k) in c05.TOK_FILES or k == "(evaluated_tokenizer.json)"):
            continue
        if obs["files"].get(k) != h:
            return bad("files", "%s %s" % (k, "differs" if k in obs["files"] else "is missing"))
    return None
