"""C13: evolutionary search evaluates every candidate exactly once and always answers."""
import hashlib
import json
import os
import random
import sys

PROP = "C13"
RULE = (
    "A run = one evaluation strategy (pool on disk, pool in memory, buffered, serial; called directly, by several clients, or "
    "through mergekit-evolve with a simulated optimiser) on a simulated cluster with seeded resources, evaluating batches of "
    "candidates with seeded merge and evaluation times and seeded mishaps: invalid genotypes, merges or evaluations that "
    "raise, connection errors, worker death before, during or after the work. Every batch must end within the simulated time "
    "its work can take, answer each candidate in its position with its own score (an invalid one with no score), raise only "
    "if one of its candidates really failed, merge and evaluate each candidate once, stay within the configured number of "
    "GPUs, and leave no merged model and no reserved resources behind. Non-trivial when candidates overlapped or failed. "
    "Distinct = (strategy, resources, sequence of merge and evaluation starts and ends)."
)
REAL = ["mergekit.evo strategies, actors, helpers and genome", "mergekit-evolve's main loop", "in some runs real merges, on disk and in memory", "asyncio event loop"]
STUB = ["ray (tasks, actors, resources, placement groups, retries)", "lm_eval (scores derived from the merged model)", "cma (seeded candidates)",
        "in most runs the merge itself", "thread scheduling, locks, clock"]
ASSUMPTIONS = ["the simulated cluster follows ray's documented semantics", "serial evaluation is limited by the cluster's resources only",
               "a worker that dies leaves its files behind", "a candidate whose merge or evaluation raises may fail the whole batch, loudly"]
RUNS = {"quick": 6000, "thorough": 80000}
BUDGET = {"quick": 80, "thorough": 720}


def prepare(ctx):
    from sim import fakeray, mergework as mw

    mw.fixtures(ctx, lora=True)
    fakeray.install(simple_evaluate, fmin2)
    import torch

    torch.cpu.empty_cache = lambda: None
    import mergekit.evo.strategy  # noqa: F401
    import mergekit.scripts.evolve  # noqa: F401


MISHAPS = ["invalid", "merge_raise", "merge_oserror", "merge_conn", "merge_die", "merge_die_late", "eval_raise", "eval_metric", "eval_die", "eval_die_late"]


def gen(rng, i, tier):
    from sim.sched import gen_sched

    gpus = rng.choice([1, 1, 2, 2, 3, 4])
    strategy = rng.choice(["pool", "pool", "buffered", "buffered", "buffered", "serial", "serial"])
    impl = rng.choice(["stub"] * 9 + ["real"])
    if strategy == "pool" and rng.random() < 0.12:
        impl = "memory"
    method = rng.choice(["linear", "ties", "slerp", "task_arithmetic", "dare_ties"])
    g = {"models": rng.choice([["@m0", "@m1"], ["@m0", "@m1", "@m3"]]), "merge_method": method, "layer_granularity": rng.choice([0, 1, 2])}
    if method in ("ties", "task_arithmetic", "dare_ties") or rng.random() < 0.2:
        g["base_model"] = "@m0" if rng.random() < 0.7 or method in ("slerp", "linear") else "@m3"
    if method != "slerp" and rng.random() < 0.3:
        g["smooth"] = True
    if method != "slerp" and rng.random() < 0.3:
        g["filters"] = rng.choice([["self_attn"], ["self_attn", "mlp"]])
    if method == "slerp" and rng.random() < 0.5:
        g.pop("base_model", None)
    if impl == "real" and rng.random() < 0.5:
        # an adapter, merged by whichever worker needs it first
        g["models"] = ["@m0+@lora0" if m == "@m0" and g.get("base_model") != m else m for m in g["models"]]
    n = rng.choice([1, 2, 3, 4, 5, 7]) if impl == "stub" else rng.choice([1, 2, 3])
    trouble = rng.random() < 0.65
    cands = []
    for k in range(n):
        c = {"seed": rng.getrandbits(30), "mt": rng.choice([0.0, 1.0, 5.0, 30.0]), "et": rng.choice([0.0, 1.0, 5.0, 60.0]), "mishap": None, "k": 1}
        if rng.random() < 0.05:
            c[rng.choice(["mt", "et"])] = 300.0
        if trouble and rng.random() < 0.4:
            c["mishap"] = rng.choice(MISHAPS)
            c["k"] = rng.choice([1, 1, 1, 2, 9])
        cands.append(c)
    if n > 2 and rng.random() < 0.1:
        cands[-1] = dict(cands[0])
    if n > 1 and impl == "stub" and rng.random() < 0.15:
        cands[-1] = dict(cands[rng.randrange(n - 1)], near=True, mishap=None)  # a search that converges
    main = impl != "memory" and rng.random() < 0.2 or impl == "memory" and rng.random() < 0.3
    nb = rng.choice([1, 1, 2, 3])
    cuts = sorted(rng.sample(range(1, n), min(nb - 1, n - 1)))
    return {
        "strategy": strategy, "impl": impl, "genome": g, "gpus": gpus, "num_gpus": rng.choice([gpus, gpus, max(1, gpus - 1)]), "cpus": rng.choice([gpus + 1, 2 * gpus, 8]),
        "cands": cands, "cuts": cuts, "main": main, "stop": rng.choice([None, None, 0, 1]) if main else None, "quiet": rng.random() < 0.5,
        "clients": strategy == "buffered" and not main and rng.random() < 0.4, "single": rng.random() < 0.2, "gap": rng.choice([0, 0, 0.5, 40]),
        "tasks": rng.choice([["t1"], [{"name": "t1", "weight": 0.5, "metric": "acc,none"}, {"name": "t2", "weight": -2.0, "metric": "ppl"}]]),
        "cseed": rng.getrandbits(20), "sched": dict(gen_sched(rng, lines=rng.random() < 0.7), p_time=0.0),
    }


def shrink(case):
    n = len(case["cands"])
    for k in range(n):
        if n > 1:
            yield dict(case, cands=case["cands"][:k] + case["cands"][k + 1 :], cuts=[c - (c > k) for c in case["cuts"] if 0 < c - (c > k) < n - 1])
    if case["cuts"]:
        yield dict(case, cuts=case["cuts"][:-1])
    for k, c in enumerate(case["cands"]):
        for f, v in (("mishap", None), ("k", 1), ("mt", 1.0), ("et", 1.0)):
            if c[f] != v:
                yield dict(case, cands=case["cands"][:k] + [dict(c, **{f: v})] + case["cands"][k + 1 :])
    for f, v in (("main", False), ("clients", False), ("single", False), ("gap", 0), ("stop", None), ("tasks", ["t1"])):
        if case[f] != v:
            yield dict(case, **{f: v})
    if case["gpus"] > 1:
        yield dict(case, gpus=case["gpus"] - 1, num_gpus=min(case["num_gpus"], case["gpus"] - 1))


# --- the simulated world of one run -------------------------------------------
W = None


class World:
    def __init__(self, case, storage):
        self.case = case
        self.storage = storage
        self.plan = {}  # candidate key -> its mishap and times
        self.n = {}
        self.active = {"merge": 0, "eval": 0}
        self.peak = {"merge": 0, "eval": 0, "dirs": 0}
        self.events = []
        self.times = []
        self.wrong = []
        self.armed = False
        self.digests = {}

    def count(self, what, key):
        self.n[what, key] = self.n.get((what, key), 0) + 1
        return self.n[what, key]

    def ask(self, idx):
        """candidates handed to the strategy"""
        import time

        self.times += [(time.monotonic(), +1, 0)] * sum(self.case["cands"][k]["mishap"] != "invalid" or self.case["main"] for k in idx)

    def tick(self, what, d):
        import time

        self.times.append((time.monotonic(), -1 if what == "merge" and d > 0 else 0, d))

    def idle(self, limit):
        """longest time a candidate waited to be merged although a GPU was free"""
        worst = waiting = running = 0
        since = None
        for t, w, r in self.times:
            if since is not None:
                worst = max(worst, t - since)
            waiting += w
            running += r
            free = waiting > 0 and running < limit
            since = None if not free else t if since is None else since
        return worst

    def enter(self, what, key):
        self.tick(what, 1)
        self.active[what] += 1
        self.peak[what] = max(self.peak[what], self.active[what])
        self.events.append((what, key[:4]))
        if what == "merge" and os.path.isdir(self.storage):
            self.peak["dirs"] = max(self.peak["dirs"], len(os.listdir(self.storage)))

    def leave(self, what, key):
        self.tick(what, -1)
        self.active[what] -= 1
        self.events.append(("/" + what, key[:4]))


def key_of(cfg):
    return hashlib.sha256(cfg.to_yaml().encode()).hexdigest()[:12]


def value(tag, task):
    return int(hashlib.sha256(("%s/%s" % (tag, task)).encode()).hexdigest()[:6], 16) / 1e4


def results_of(tag):
    return {t if isinstance(t, str) else t["name"]: {"acc,none" if isinstance(t, str) else t["metric"]: value(tag, t if isinstance(t, str) else t["name"])} for t in W.case["tasks"]}


def answer_of(tag):
    r = results_of(tag)
    s = 0
    for t in W.case["tasks"]:
        t = {"name": t} if isinstance(t, str) else t
        s += r[t["name"]][t.get("metric", "acc,none")] * t.get("weight", 1.0)
    return {"score": s, "results": r}


class slow_dirs:
    """shared directories are slow: between looking for a directory and creating it another worker may do the same"""

    def __enter__(self):
        import tempfile
        import time

        real = tempfile.mkdtemp

        def mkdtemp(suffix=None, prefix=None, dir=None):
            if dir and "lora" in os.fspath(dir):
                time.sleep(0.5)
            return real(suffix, prefix, dir)

        if not hasattr(tempfile, "_slow"):
            tempfile.mkdtemp, tempfile._slow = mkdtemp, True

    def __exit__(self, *a):
        pass


def do_merge(cfg, out_path, options, **kw):
    """stands in for run_merge in the merge helper"""
    import time

    from sim import fakeray

    key = key_of(cfg)
    if not W.armed:
        if W.case["impl"] == "real":
            REAL_MERGE(cfg, out_path, options=options, **kw)
        return
    p = W.plan.get(key)
    if p is None:
        W.wrong.append("a configuration of no candidate was merged")
        raise RuntimeError("unknown candidate")
    n = W.count("merge", key)
    bad = p["mishap"] if n <= p["k"] else None
    W.enter("merge", key)
    with open(os.path.join(out_path, "model.safetensors"), "w") as f:
        f.write("part")
    time.sleep(p["mt"] / 2)
    if bad == "merge_die":
        W.leave("merge", key)
        fakeray.die()
    if bad in ("merge_raise", "merge_oserror", "merge_conn"):
        W.leave("merge", key)
        raise {"merge_raise": RuntimeError, "merge_oserror": OSError, "merge_conn": ConnectionError}[bad]("injected")
    if W.case["impl"] == "real":
        with slow_dirs():
            REAL_MERGE(cfg, out_path, options=options, **kw)
    time.sleep(p["mt"] / 2)
    with open(os.path.join(out_path, "cand.json"), "w") as f:
        json.dump({"key": key}, f)
    W.leave("merge", key)
    if bad == "merge_die_late":
        fakeray.die()


def weights_tag(path):
    from sim import mergework as mw

    return hashlib.sha256(json.dumps(sorted((k, str(v)) for k, v in mw.observe(path)["weights"].items())).encode()).hexdigest()[:12]


def params_tag(model):
    import torch

    h = hashlib.sha256()
    for n, p in sorted(model.named_parameters()):
        h.update(n.encode() + p.detach().contiguous().view(torch.uint8).numpy().tobytes())
    return h.hexdigest()[:12]


def simple_evaluate(model=None, model_args=None, tasks=None, **kw):
    import time

    from sim import fakeray

    memory = not isinstance(model, str)
    if memory:
        tag = params_tag(model.model)
        if not W.armed:
            W.last_tag = tag
            return {"results": results_of(tag)}
        key = W.digests.get(tag, "?")
    else:
        path = model_args["pretrained"]
        with open(os.path.join(path, "cand.json")) as f:
            key = json.load(f)["key"]
        tag = weights_tag(path) if W.case["impl"] == "real" else key
    p = W.plan.get(key)
    if p is None:
        W.wrong.append("a model that is no candidate's merge was evaluated")
        raise RuntimeError("unknown candidate")
    n = W.count("eval", key)
    bad = p["mishap"] if n <= p["k"] else None
    W.enter("eval", key)
    time.sleep(p["et"])
    if bad == "eval_die":
        W.leave("eval", key)
        fakeray.die()
    if bad == "eval_raise":
        W.leave("eval", key)
        raise RuntimeError("injected")
    if memory:
        if params_tag(model.model) != tag:
            W.wrong.append("the model of a candidate changed while it was evaluated")
    elif not os.path.exists(os.path.join(path, "cand.json")):
        W.wrong.append("the merged model of a candidate was removed while it was evaluated")
    W.leave("eval", key)
    r = results_of(tag)
    if bad == "eval_metric":
        return {"results": {t: {} for t in r}}
    if bad == "eval_die_late":
        fakeray.die()
    return {"results": r}


class _Es:
    class result:
        pass


def fmin2(f, parallel_objective=None, x0=None, sigma0=None, options=None, callback=None, **kw):
    """the simulated optimiser: proposes the run's candidates, batch by batch"""
    es = _Es()
    es.result = _Es.result()
    es.result.fbest, es.result.xbest, es.result.evaluations = float("inf"), x0, 0
    W.batches = []
    for b, idx in enumerate(batches(W.case)):
        if W.case["stop"] == b:
            raise KeyboardInterrupt
        xs = [W.genotypes[k] for k in idx]
        W.asked = list(W.asked) + [idx]
        W.ask(idx)
        costs = parallel_objective([x.copy() for x in xs])
        W.costs.append(list(costs))
        for x, c in zip(xs, costs):
            if c < es.result.fbest:
                es.result.fbest, es.result.xbest = c, x
        es.result.evaluations += len(xs)
        es.result.xfavorite, es.result.stds = x0, x0
        callback(es)
    return es.result.xbest, es


def batches(case):
    cuts = [0] + case["cuts"] + [len(case["cands"])]
    return [list(range(a, b)) for a, b in zip(cuts, cuts[1:]) if b > a]


def world(case, ctx, d):
    """runs in the simulated process"""
    global W, REAL_MERGE
    import threading
    import time

    import numpy as np
    import torch

    import mergekit.evo.actors as actors
    import mergekit.evo.helpers as helpers
    import mergekit.scripts.evolve as evolve
    from mergekit.evo import strategy as st
    from mergekit.evo.config import EvolMergeConfiguration
    from mergekit.evo.genome import InvalidGenotypeError, ModelGenome
    from mergekit.options import MergeOptions
    from sim import fakeray, mergework as mw

    storage = os.path.join(d, "storage")
    merged = os.path.join(storage, "merged")
    os.makedirs(storage)
    W = World(case, merged)
    REAL_MERGE = helpers.run_merge
    helpers.run_merge = do_merge
    conf = {"genome": mw.subst(case["genome"], ctx.fx["models"]), "tasks": case["tasks"]}
    config = EvolMergeConfiguration.model_validate(conf)
    genome = ModelGenome(config.genome)
    options = MergeOptions(device="cpu", quiet=True, random_seed=3, write_model_card=True, copy_tokenizer=False, async_write=False,
                           lora_merge_cache=os.path.join(storage, "lora"))
    ref_options = options.model_copy(update={"lora_merge_cache": os.path.join(d, "ref-lora")})
    x0 = genome.initial_genotype().view(-1).numpy()
    W.genotypes, W.asked, W.costs = [], [], []
    want, hard = [], []
    steps = 0.0
    for c in case["cands"]:
        r = np.random.RandomState(c["seed"] % (2**31))
        bad = c["mishap"]
        if bad == "invalid" and case["main"]:
            bad = None
        if bad == "invalid":
            W.genotypes.append(np.zeros((2, 3)))
            want.append({"score": None, "results": None})
            hard.append(False)
            continue
        x = x0 + r.uniform(0.01, 0.3, size=x0.shape).astype(x0.dtype)
        if c.get("near"):
            x[0] += 1e-4
        W.genotypes.append(x)
        cfg = genome.genotype_merge_config(x)
        key = key_of(cfg)
        c = dict(c, mishap=bad)
        if key in W.plan and W.plan[key]["mishap"] is None and bad is not None:
            c["mishap"] = bad = None
        W.plan[key] = c
        tag = key
        if case["impl"] == "real":
            t = os.path.join(d, "ref-" + key)
            REAL_MERGE(cfg, t, options=ref_options)
            tag = weights_tag(t)
        elif case["impl"] == "memory":
            e = actors.InMemoryMergeEvaluator.cls(config, genome, options, model_storage_path=merged)
            e.evaluate_genotype(x)
            tag = W.last_tag
            W.digests[tag] = key
        want.append(answer_of(tag))
        if case["impl"] == "memory":
            h = bad in ("eval_raise", "eval_metric", "eval_die", "eval_die_late")
        elif case["strategy"] == "pool":
            h = bad is not None
        else:
            # tasks are retried three times after worker death, merges also after connection errors
            h = bad in ("merge_raise", "merge_oserror", "eval_raise", "eval_metric", "eval_die_late") or bad is not None and c["k"] > 3
        hard.append(h)
        steps += (c["mt"] + c["et"]) * (1 + min(c["k"], 4) * (bad is not None))
    n = len(case["cands"])
    deadline = time.monotonic() + steps * 1.01 + 10 * n + 60 + case["gap"] * n
    W.armed = True
    cl = fakeray.init_cluster(case["cpus"], case["gpus"], case["cseed"], deadline)
    got, err = {}, {}
    v = None
    out = {"failed": [k for k in range(n) if hard[k]]}

    def bad(cls, msg):
        return {"cls": cls, "msg": "%s strategy, %d GPUs: %s" % (case["strategy"] + ("/memory" if case["impl"] == "memory" else ""), case["num_gpus"], msg)}

    memory = {"in_memory": True} if case["impl"] == "memory" else {}
    final = None
    try:
        if case["main"]:
            import yaml

            cf = os.path.join(d, "evolve.yml")
            with open(cf, "w") as f:
                yaml.safe_dump(conf, f)

            def fin(cfg, path, opts=None, **kw):
                nonlocal final
                final = (key_of(cfg), path)

            evolve.run_merge = fin
            try:
                evolve.main.main([cf, "--strategy", case["strategy"], "--storage-path", storage, "--num-gpus", str(case["num_gpus"]), "--no-merge-cuda",
                                  "--no-reshard"] + (["--in-memory"] if memory else []), standalone_mode=False)
            except fakeray.RayError as e:
                err[len(W.asked) - 1] = e
            for b, cs in enumerate(W.costs):
                got[b] = [{"score": -c} for c in cs]
        else:
            cls = {"pool": st.ActorPoolEvaluationStrategy, "buffered": st.BufferedRayEvaluationStrategy, "serial": st.SerialEvaluationStrategy}[case["strategy"]]
            s = cls(config, genome, options, num_gpus=case["num_gpus"], model_storage_path=merged, **memory)

            def one(b, idx):
                cl.drivers.add(threading.get_ident())
                W.ask(idx)
                try:
                    if len(idx) == 1 and case["single"]:
                        got[b] = [s.evaluate_genotype(W.genotypes[idx[0]])]
                    else:
                        got[b] = s.evaluate_genotypes([W.genotypes[k] for k in idx])
                except fakeray.RayError as e:
                    err[b] = e
                except fakeray.Stalled:
                    got[b] = "stalled"

            if case["clients"]:
                ts = []
                for b, idx in enumerate(batches(case)):
                    ts.append(threading.Thread(target=one, args=(b, idx), daemon=True))
                    ts[-1].start()
                    time.sleep(case["gap"])
                for t in ts:
                    t.join()
            else:
                for b, idx in enumerate(batches(case)):
                    one(b, idx)
                    if got.get(b) == "stalled":
                        break
                    if case["gap"]:
                        time.sleep(case["gap"])
    except fakeray.Stalled:
        v = bad("stalled", "no answer within the time all the work can take (%d candidates)" % n)
    if v is None:
        v = judge(case, got, err, want, hard, bad)
    if v is None and not cl.idle(deadline):
        v = bad("stalled", "work is still pending long after the answers")
    if v is None and W.wrong:
        v = bad("corrupt", W.wrong[0])
    clean = cl.crashes == 0 and not any(c["mishap"] == "merge_conn" for c in W.plan.values())
    if v is None:
        for (what, key), m in sorted(W.n.items()):
            reqs = sum(key_of(genome.genotype_merge_config(x)) == key for x in W.genotypes if x.ndim == 1)
            if W.plan[key]["mishap"] is None and m > reqs:
                v = bad("repeated", "a candidate was %s %d times" % ({"merge": "merged", "eval": "evaluated"}[what], m))
    limit = case["gpus"] if case["strategy"] == "serial" else case["num_gpus"]
    if v is None and max(W.peak["merge"], W.peak["eval"]) > limit:
        v = bad("concurrency", "%d merges and %d evaluations ran at once" % (W.peak["merge"], W.peak["eval"]))
    if v is None and case["strategy"] == "buffered" and clean and len(err) == 0:
        idle = W.idle(min(case["gpus"], limit))
        if idle > 4:
            v = bad("idle", "a candidate waited %.1f s to be merged although a GPU was free" % idle)
    if v is None and W.peak["dirs"] > limit * (2 if case["strategy"] == "buffered" else 1) + cl.crashes:
        v = bad("storage", "%d merged models were kept at once" % W.peak["dirs"])
    if v is None and not memory:
        left = sorted(os.listdir(merged)) if os.path.isdir(merged) else []
        if len(left) > cl.crashes:
            v = bad("leftover", "%d merged models were not removed: outcomes %s" % (len(left), {k: c["mishap"] for k, c in enumerate(case["cands"])}))
    actors_hold = case["num_gpus"] if case["strategy"] == "pool" else 0
    if v is None and cl.free["GPU"] + actors_hold < case["gpus"] and not cl.crashes:
        v = bad("resources", "%g GPUs are still reserved after all work ended" % (case["gpus"] - actors_hold - cl.free["GPU"]))
    if v is None and case["main"] and not err:
        ok = [(c["score"], k) for b, idx in enumerate(W.asked) if b in got for c, k in zip(got[b], idx)]
        best = key_of(genome.genotype_merge_config(W.genotypes[max(ok)[1]] if ok else x0))
        if final is None or final[0] != best:
            v = bad("best", "the final model is not that of the best candidate")
        bc = os.path.join(storage, "best_config.yaml")
        if ok and (not os.path.exists(bc) or hashlib.sha256(open(bc, "rb").read()).hexdigest()[:12] != best):
            v = bad("best", "best_config.yaml is not that of the best candidate")
    out.update(v=v, events=W.events, peak=W.peak, crashes=cl.crashes, time=time.monotonic(), raised=len(err), free=dict(cl.free), clean=clean,
               errs={b: str(e)[:200] for b, e in err.items()})
    return out


def judge(case, got, err, want, hard, bad):
    tainted = False
    for b, idx in enumerate(batches(case)):
        g = got.get(b)
        fails = [k for k in idx if hard[k]]
        if g == "stalled":
            return bad("stalled", "batch %s got no answer within the time all the work can take; mishaps %s" % (idx, [case["cands"][k]["mishap"] for k in idx]))
        if b in err:
            if not fails and not (tainted and case["strategy"] == "pool"):
                return bad("raised", "batch %s raised although no candidate failed: %s; mishaps %s" % (idx, str(err[b])[:300], [case["cands"][k]["mishap"] for k in idx]))
            tainted = True
            if case["main"]:
                return None
            continue
        if g is None:
            if case["main"] and (case["stop"] is not None and b >= case["stop"]):
                continue
            return bad("unanswered", "batch %s was not answered" % (idx,))
        if len(g) != len(idx):
            return bad("count", "%d results for %d candidates" % (len(g), len(idx)))
        for pos, (k, r) in enumerate(zip(idx, g)):
            w = want[k]
            if hard[k] and r.get("score") is None:
                continue
            if r.get("score") != w["score"] or ("results" in r and r["results"] != w["results"]):
                other = [j for j, x in enumerate(want) if x["score"] == r.get("score")]
                return bad("wrong", "candidate %d (%s) got %s%s" % (k, case["cands"][k]["mishap"], r, ", which is the result of candidate %s" % other if other else ""))
        tainted = tainted or bool(fails)
    return None


def run(case, ctx, d, trace):
    from sim import mergework as mw, oprun

    w = os.path.join(d, "w")
    t = os.path.join(d, "t")
    os.makedirs(w)
    os.makedirs(t)

    def fn():
        mw.use_tmp(t)
        return world(case, ctx, w)

    r = oprun.sim_process(fn, d, sched=case["sched"], trace=trace, seed=5, max_steps=3000000)
    o = r.get("value") or {}
    v = o.get("v")
    if r["outcome"] == "stuck":
        v = {"cls": "stalled", "msg": "%s strategy: %s" % (case["strategy"], str(r.get("text"))[-600:])}
    elif r["outcome"] != "ok":
        v = {"cls": r["outcome"], "msg": "%s strategy: %s" % (case["strategy"], str(r.get("text"))[-1500:])}
    ev = o.get("events") or []
    peak = o.get("peak") or {}
    mis = [c["mishap"] for c in case["cands"] if c["mishap"]]
    return {
        "v": v, "sig": "%s/%s/%s/%s/%s" % (case["strategy"], case["impl"], case["num_gpus"], case["main"], hashlib.sha256(repr(_order(ev)).encode()).hexdigest()[:10]),
        "nontrivial": bool(mis) or max(peak.get("merge", 0), peak.get("eval", 0)) > 1,
        "faults": {m: mis.count(m) for m in set(mis)},
        "probes": {"candidates": len(case["cands"]), "worker_deaths": o.get("crashes", 0), "batches_that_raised": o.get("raised", 0), "overlapping": int(peak.get("merge", 0) > 1 or peak.get("eval", 0) > 1),
                   case["strategy"] + "/" + case["impl"]: 1, "whole_evolve_command": int(case["main"]), "concurrent_clients": int(case["clients"])},
        "sample": {"strategy": case["strategy"], "impl": case["impl"], "gpus": case["num_gpus"], "mishaps": [c["mishap"] for c in case["cands"]], "events": ev[:12]},
        "digest": r.get("digest"), "steps": r.get("steps", 0), "switches": r.get("switches", 0), "simtime": r.get("simtime", 0), "trace": r.get("trace"),
    }


def _order(ev):
    ids = {}
    return [(w, ids.setdefault(k, len(ids))) for w, k in ev]
