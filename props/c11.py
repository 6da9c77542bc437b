"""C11: multi-stage merges run in order, once, and resume without skipping work."""
import errno
import os
import random

PROP = "C11"
RULE = (
    "A run = one multi-stage configuration (random stage graph, document order, names, adapters on stages, tokenizers, "
    "slices) given to mergekit-multimerge. Valid graphs: killed or failed zero to three times at seeded file operations "
    "and resumed, then every stage and the final output must equal those of running the stages one by one in fresh "
    "processes; each stage's files must be written once, after those of the stages it refers to; rerunning lazily "
    "changes nothing, rerunning with --no-lazy gives the same. Cyclic, duplicate or ambiguous graphs must be refused with "
    "no file written. Non-trivial when two stages depend on each other, an attempt died, or a graph was refused. "
    "Distinct = (graph shape, document order, kinds and places of death, refusal kind)."
)
REAL = ["mergekit-multimerge and the merges it runs", "serialisation, real files, real process death"]
STUB = ["the point of death or error (libc boundary)", "thread scheduling, locks, clock"]
ASSUMPTIONS = ["process death, not power loss", "the same command is rerun"]
RUNS = {"quick": 1800, "thorough": 20000}
BUDGET = {"quick": 80, "thorough": 720}
BAD = ["cycle", "self", "longcycle", "duplicate", "unnamed", "noout"]
NAMES = ["alpha", "beta", "gamma", "delta", "s1", "s10", "base", "union", "linear", "m0", "1b", "x-y", "stage.one", "stage two", "stage_two", "S1", "stage-one"]


def prepare(ctx):
    from sim import mergework as mw, tools

    tools.import_tools(["multi"])
    mw.fixtures(ctx, lora=True)


def gen_docs(rng):
    from sim import tools

    docs = tools.gen_stages(rng, n=rng.choice([1, 2, 2, 3, 3, 4]), tokenizers=rng.random() < 0.4, lora=rng.choice([0.0, 0.0, 0.6]))
    if rng.random() < 0.35:
        old = [d["name"] for d in docs if "name" in d]
        new = rng.sample(NAMES, len(old))
        mp = dict(zip(old, new))
        docs = [_rename(d, mp) for d in docs]
        for d in docs:
            if "name" in d:
                d["name"] = mp[d["name"]]
    if rng.random() < 0.2:
        ns = [d["name"] for d in docs if "name" in d]
        d = rng.choice(docs)
        e = rng.choice(d["models"]) if "models" in d else None
        if e and e["model"] in ns and d["merge_method"] != "slerp":
            e["model"] += "+@lora0"
    if rng.random() < 0.2:
        d = rng.choice(docs)
        # a stage as the source of the tokenizer
        refs = [r for r in _strings(d) if r in [x.get("name") for x in docs] and r != d.get("name")]
        if refs:
            d.pop("tokenizer", None)
            d["tokenizer_source"] = rng.choice(refs)
    return docs


def _rename(x, mp):
    if isinstance(x, str):
        return mp.get(x, x)
    if isinstance(x, list):
        return [_rename(v, mp) for v in x]
    if isinstance(x, dict):
        return {k: _rename(v, mp) if k in ("models", "base_model", "slices", "sources", "model", "tokenizer_source") else v for k, v in x.items()}
    return x


def refs_of(d):
    """model references of a document, by its meaning"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("model", "base_model") and isinstance(v, str):
                    out.append(v)
                elif k == "tokenizer_source" or k == "source":
                    if isinstance(v, str) and v not in ("union", "base"):
                        out.append(v)
                else:
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk({k: v for k, v in d.items() if k != "name"})
    return [r.split("+")[0] for r in out]


def _strings(x):
    return refs_of(x)


def deps_of(docs):
    names = {d["name"] for d in docs if "name" in d}
    return {d.get("name"): sorted(set(refs_of(d)) & names) for d in docs}


def topo(docs):
    dp, out = deps_of(docs), []
    left = dict(dp)
    while left:
        r = [n for n in left if all(x in out for x in left[n])]
        if not r:
            return None
        r.sort(key=str)
        out.append(r[0])
        del left[r[0]]
    return out


def gen(rng, i, tier):
    from sim import mergework as mw
    from sim.sched import gen_sched

    prng = random.Random("C11/%d" % rng.randrange(70 if tier == "quick" else 900))
    docs = gen_docs(prng)
    spec = {"tool": "multi", "options": mw.gen_options(prng), "docs": docs, "long": prng.choice([0, 0, prng.randrange(1, 99)])}
    case = {"spec": spec, "bad": None, "sched": gen_sched(rng, lines=False), "atts": [], "after": rng.choice(["lazy", "nolazy", None, None])}
    if rng.random() < 0.22:
        import copy

        docs = copy.deepcopy(docs)
        b = rng.choice(BAD)
        named = [d for d in docs if "name" in d]
        if b in ("cycle", "longcycle") and len(named) < 2:
            b = "self"
        if b == "self":
            d = rng.choice(named)
            _point(rng, d, d["name"])
        elif b == "cycle":
            a, c = rng.sample(named, 2)
            _point(rng, a, c["name"])
            _point(rng, c, a["name"])
        elif b == "longcycle":
            rng.shuffle(named)
            for k, d in enumerate(named):
                _point(rng, d, named[(k + 1) % len(named)]["name"])
        elif b == "duplicate":
            d = copy.deepcopy(rng.choice(named))
            docs.insert(rng.randrange(len(docs) + 1), d)
        elif b == "unnamed":
            for _ in range(2 - sum("name" not in d for d in docs)):
                d = copy.deepcopy(rng.choice(named))
                d.pop("name")
                docs.insert(rng.randrange(len(docs) + 1), d)
        elif b == "noout":
            if all("name" in d for d in docs):
                d = copy.deepcopy(rng.choice(named))
                d.pop("name")
                docs.append(d)
        case["bad"] = b
        case["spec"] = dict(spec, docs=docs)
    else:
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            case["atts"].append({
                "act": rng.choice(["crash_before", "crash_after", "crash_partial", "err", "sticky"]),
                "at": rng.choice(["frac", "frac", "frac", "rename", "config", "tail", "cache", "tok"]), "frac": rng.random(), "nth": rng.randrange(1, 9),
                "by_class": rng.random() < 0.4, "errno": rng.choice([errno.EIO, errno.ENOSPC]), "sched": gen_sched(rng, lines=False)})
        if rng.random() < 0.2:
            # a complete merge is redone from scratch, and that dies
            for a in case["atts"]:
                a["lazy"] = rng.random() < 0.3
            case["atts"].insert(0, {"act": "none", "sched": gen_sched(rng, lines=False)})
    return case


def _point(rng, d, name):
    """make document d refer to stage `name`"""
    slots = []
    for e in d.get("models", []):
        slots.append((e, "model"))
    for s in d.get("slices", []):
        for e in s["sources"]:
            slots.append((e, "model"))
    if d["merge_method"] == "slerp":
        slots = slots[1:]
    e, k = rng.choice(slots)
    e[k] = name


def shrink(case):
    a = case["atts"]
    for k in range(len(a)):
        yield dict(case, atts=a[:k] + a[k + 1 :])
    if case["after"]:
        yield dict(case, after=None)
    s = case["spec"]
    for k, v in (("async_write", False), ("write_model_card", False), ("copy_tokenizer", False), ("out_shard_size", 10**9), ("lazy_unpickle", False)):
        if s["options"].get(k) != v:
            yield dict(case, spec=dict(s, options=dict(s["options"], **{k: v})))
    if not case["bad"]:
        dp = deps_of(s["docs"])
        for d in s["docs"]:
            if len(s["docs"]) > 1 and not any(d.get("name") in x for x in dp.values()):
                yield dict(case, spec=dict(s, docs=[x for x in s["docs"] if x is not d]))


def by_hand(ctx, spec, d):
    """every stage in a process of its own, in an order that respects the references (cached)"""
    import pickle

    from sim import mergework as mw, oprun, shim, tools

    rd = os.path.join(ctx.scratch, "hand")
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, mw.ref_key(spec))
    if os.path.exists(p):
        with open(p, "rb") as f:
            return pickle.load(f)
    res = {"why": None}
    work = os.path.join(d, "w")
    out = os.path.join(work, "out")
    sd = tools.side_dirs(out)["stages"]
    os.makedirs(sd)
    tmp = os.path.join(d, "t")
    os.makedirs(tmp)
    docs = {x.get("name"): x for x in tools.docs_of(spec)}
    for n in topo(spec["docs"]):
        doc = _paths({k: v for k, v in docs[n].items() if k != "name"}, set(docs) - {None}, sd)
        o = dict(spec["options"], quiet=True)
        to = os.path.join(sd, n) if n is not None else out

        def fn(doc=doc, to=to):
            from mergekit.config import MergeConfiguration
            from mergekit.merge import MergeOptions, run_merge

            mw.use_tmp(tmp)
            run_merge(MergeConfiguration.model_validate(mw.subst(doc, ctx.fx["models"])), to, MergeOptions(lora_merge_cache=os.path.join(work, "cache"), **o))

        r = oprun.sim_process(fn, d, seed=5)
        if r["outcome"] != "ok":
            res["why"] = "stage %s: %s" % (n, str(r.get("text"))[-700:])
            break
    if res["why"] is None:
        mw.normalise(work)
        res["obs"] = tools.observe(spec, out)
    tools.rmtree(work)
    tools.rmtree(tmp)
    if res["why"] is None:
        os.makedirs(work)
        tools.write_inputs(spec, ctx.fx["models"], out)
        r = oprun.run_op(ctx, spec, work, out, cache=os.path.join(work, "cache"), seed=5, want_log=True)
        res["log"] = [(k, os.path.relpath(a, work)) for k, a, b, *_ in r.get("log") or () if k & shim.MUT]
        tools.rmtree(work)
    with open("%s.%d" % (p, os.getpid()), "wb") as f:
        pickle.dump(res, f)
    os.replace("%s.%d" % (p, os.getpid()), p)
    return res


def _paths(x, names, sd):
    """stage names in model positions -> their directories"""
    def ref(v):
        a, *b = v.split("+")
        return "+".join([os.path.join(sd, a) if a in names else a] + b)

    if isinstance(x, list):
        return [_paths(v, names, sd) for v in x]
    if isinstance(x, dict):
        o = {}
        for k, v in x.items():
            if k in ("model", "base_model", "path") and isinstance(v, str):
                o[k] = ref(v)
            elif k in ("tokenizer_source", "source") and isinstance(v, str) and v not in ("union", "base"):
                o[k] = ref(v)
            else:
                o[k] = _paths(v, names, sd)
        return o
    return x


SKIP = {"README.md", "mergekit_config.yml"}


def compare(spec, exp, out):
    from sim import mergework as mw, tools

    got = tools.observe(spec, out)
    pairs = [(n, o, got["stages"][n]) for n, o in exp["stages"].items()]
    if exp["weights"] is not None:
        pairs.append(("final output", exp, got))
    for n, a, b in pairs:
        if b["weights"] is None:
            return "%s cannot be loaded: %s" % (n, b["why"])
        if a["weights"] != b["weights"]:
            return "%s differs from running the stages by hand: %s" % (n, mw.diff_weights(a["weights"], b["weights"]))
        bad = sorted(k for k, h in a["files"].items() if k not in SKIP and b["files"].get(k) != h)
        if bad:
            return "files of %s differ from running the stages by hand: %s" % (n, bad[:4])
    return None


def order_check(spec, log, work, out):
    """-> None or what is wrong with the order in which stage directories were written"""
    from sim import shim, tools

    sd = tools.side_dirs(out)["stages"]
    span, confs = {}, {}
    dirs = {(os.path.join(sd, d["name"]) if "name" in d else out): d.get("name") for d in spec["docs"]}
    for pos, (k, a, b, *_) in enumerate(log):
        if not k & shim.MUT:
            continue
        for p in (a, b):
            for dr, n in dirs.items():
                if p.startswith(dr + "/"):
                    lo, hi = span.get(n, (pos, pos))
                    span[n] = (lo, pos)
                    if k == shim.OPENW and os.path.basename(p) == "config.json" and p == a:
                        confs[n] = confs.get(n, 0) + 1
    for d in spec["docs"]:
        n = d.get("name")
        if n not in span:
            return "stage %s was not run" % n
        if confs.get(n, 0) != 1:
            return "stage %s was completed %d times" % (n, confs.get(n, 0))
    for n, dp in deps_of(spec["docs"]).items():
        for x in dp:
            if span[x][1] > span[n][0]:
                return "stage %s was written before stage %s, which it refers to, was complete" % (n, x)
    return None


def run(case, ctx, d, trace):
    from sim import mergework as mw, oprun, shim, tools

    spec = case["spec"]
    work = os.path.join(d, "w")
    out = os.path.join(work, "out")
    shape = "%d/%s" % (len(spec["docs"]), sorted((len(x) for x in deps_of(spec["docs"]).values()))) + "/" + ",".join(str(x.get("name", "-"))[:1] for x in spec["docs"])
    ops, outs, v, r = [], [], None, {}
    linked = sum(bool(x) for x in deps_of(spec["docs"]).values())
    if case["bad"]:
        os.makedirs(work)
        tools.write_inputs(spec, ctx.fx["models"], out)
        r = refuse(ctx, case, spec, work, out, trace)
        files = [f for f in mw.tree(work) if f not in ("multi.yml", "config.yml")]
        if r["outcome"] != "exc":
            v = {"cls": "accepted-" + case["bad"], "msg": "a %s stage graph was not refused: %s %s" % (case["bad"], r["outcome"], r.get("text"))}
        elif files:
            v = {"cls": "late-refusal", "msg": "a %s stage graph was refused only after files were written: %s" % (case["bad"], files[:5])}
        outs.append(r["outcome"])
    else:
        ref = by_hand(ctx, spec, d)
        if ref["why"]:
            # refused by hand as well (e.g. incompatible tokenizers): must not succeed
            os.makedirs(work)
            tools.write_inputs(spec, ctx.fx["models"], out)
            r = oprun.run_op(ctx, spec, work, out, cache=os.path.join(work, "cache"), seed=5, sched=case["sched"], trace=trace)
            outs.append(r["outcome"])
            if r["outcome"] != "exc":
                v = {"cls": "outcome", "msg": "%s, but running by hand fails: %s" % (r["outcome"], ref["why"])}
        else:
            os.makedirs(work)
            v, r = valid(case, ctx, spec, work, out, ref, ops, outs, trace)
    bad = [o for o in outs if o in ("crash", "exc")]
    return {
        "v": v, "sig": "%s/%s/%s/%s/%s" % (shape, case["bad"], ops, outs, case["after"]),
        "nontrivial": bool(bad) or linked > 0,
        "faults": {k: sum(f["act"] == k and o in ("crash", "exc") for f, o in zip(case["atts"], outs)) for k in {f["act"] for f in case["atts"]}},
        "probes": {"crashed": outs.count("crash"), "refused": int(bool(case["bad"])), "stages": len(spec["docs"]), "dependent_stages": linked,
                   "stage_with_adapter": int(any("+@lora" in x and not x.startswith("@") for x in _all_strings(spec["docs"]))), "several_bad_attempts": int(len(bad) > 1)},
        "sample": {"stages": [[x.get("name"), y] for x, y in zip(spec["docs"], [deps_of(spec["docs"])[x.get("name")] for x in spec["docs"]])],
                   "bad": case["bad"], "attempts": [(f["act"], o, p) for f, o, p in zip(case["atts"], outs, ops)]},
        "digest": r.get("digest"), "steps": r.get("steps", 0), "switches": r.get("switches", 0), "simtime": r.get("simtime", 0), "trace": r.get("trace"),
    }


def _all_strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, list):
        for v in x:
            yield from _all_strings(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from _all_strings(v)


def refuse(ctx, case, spec, work, out, trace):
    from sim import mergework as mw, oprun, tools

    if case["bad"] != "noout":
        return oprun.run_op(ctx, spec, work, out, cache=os.path.join(work, "cache"), seed=5, sched=case["sched"], trace=trace)

    def fn():
        from mergekit.scripts.multimerge import main

        tmp = os.path.join(os.path.dirname(work), "t")
        os.makedirs(tmp, exist_ok=True)
        mw.use_tmp(tmp)
        main.main([os.path.join(work, "multi.yml"), "-I", tools.side_dirs(out)["stages"]] + tools._opts(dict(spec["options"], quiet=True)), standalone_mode=False)

    return oprun.sim_process(fn, os.path.dirname(work), seed=5, sched=case["sched"], trace=trace)


def valid(case, ctx, spec, work, out, ref, ops, outs, trace):
    from props import c07
    from sim import mergework as mw, oprun, tools

    tools.write_inputs(spec, ctx.fx["models"], out)
    kw = dict(cache=os.path.join(work, "cache"), lazy=True, seed=5)
    for f in case["atts"]:
        rules, op = c07.make_rules(f, ref["log"]) if f["act"] != "none" else ([], None)
        r = oprun.run_op(ctx, spec, work, out, rules=rules, sched=f["sched"], **dict(kw, lazy=f.get("lazy", True)))
        ops.append(os.path.basename(op[1]) if op else "-")
        outs.append(r["outcome"])
        if r["outcome"] in ("stuck", "hang", "died"):
            return {"cls": r["outcome"], "msg": str(r.get("text"))}, r
    mw.normalise(work)
    r = oprun.run_op(ctx, spec, work, out, sched=case["sched"], trace=trace, want_log=True, **kw)
    where = "after attempts %s at %s" % (outs, ops)
    if r["outcome"] != "ok":
        return {"cls": "fails", "msg": "%s multimerge fails: %s %s" % (where, r["outcome"], str(r.get("text"))[-900:])}, r
    x = compare(spec, ref["obs"], out)
    if x:
        return {"cls": "differs", "msg": "%s %s" % (where, x)}, r
    if not case["atts"]:
        x = order_check(spec, r["log"], work, out)
        if x:
            return {"cls": "order", "msg": x}, r
    if case["after"]:
        before = _stat(work)
        r2 = oprun.run_op(ctx, spec, work, out, want_log=True, **dict(kw, lazy=case["after"] == "lazy"))
        if r2["outcome"] != "ok":
            return {"cls": "fails", "msg": "%s rerun (%s) fails: %s" % (where, case["after"], str(r2.get("text"))[-900:])}, r
        if case["after"] == "lazy" and _stat(work) != before:
            return {"cls": "redone", "msg": "a lazy rerun of a complete multi-stage merge wrote %s" % sorted(set(_stat(work).items()) ^ set(before.items()))[:3]}, r
        x = compare(spec, ref["obs"], out)
        if x:
            return {"cls": "differs", "msg": "rerun (%s) %s" % (case["after"], x)}, r
        if case["after"] == "nolazy":
            x = order_check(spec, r2["log"], work, out)
            if x:
                return {"cls": "order", "msg": "rerun: " + x}, r
    return None, r


def _stat(work):
    """identity of every output file"""
    o = {}
    for root, _, fs in os.walk(work):
        for f in fs:
            p = os.path.join(root, f)
            if "/out" in p:
                s = os.stat(p)
                o[os.path.relpath(p, work)] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return o
