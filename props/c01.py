"""C01: parallel multi-device execution equals serial execution."""
import threading

PROP = "C01"
RULE = (
    "A run = one random task graph (leading / per-device / parallel islands / trailing, random value "
    "types, priorities, groups, targets) executed by the real parallel executor on 1-5 simulated devices "
    "under one seeded schedule; non-trivial when at least two worker threads interleaved. Distinct = "
    "distinct event-log digests."
)
REAL = [
    "mergekit.multigpu_executor", "mergekit.graph (universe, schedule, executor)",
    "stdlib ThreadPoolExecutor/Queue/Event/Condition on simulated locks",
]
STUB = ["accelerator devices (CPU tensors behind torch.accelerator / torch.cuda.Stream stand-ins)", "clock", "lock and thread primitives"]
ASSUMPTIONS = [
    "per-device duplicated work depends only on main-thread or other duplicated work",
    "preemption happens between source lines of mergekit and at synchronisation operations",
    "devices are simulated on the CPU: stream ordering of a real accelerator is not modelled",
]
RUNS = {"quick": 6000, "thorough": 120000}
BUDGET = {"quick": 55, "thorough": 700}


def prepare(ctx):
    import mergekit.graph  # noqa: F401
    import mergekit.multigpu_executor  # noqa: F401

    from sim import toygraph

    toygraph.task_class()


def gen(rng, i, tier):
    from sim import toygraph
    from sim.sched import gen_sched

    big = rng.random() < 0.15
    nodes = toygraph.gen_graph(
        rng,
        n_par=rng.randint(0, 24 if big else 9),
        n_lead=rng.choice([0, 1, 1, 2, 4]),
        n_trail=rng.choice([0, 0, 1, 1, 3]),
        n_pg=rng.choice([0, 0, 0, 1, 2]),
        edge_p=rng.choice([0.15, 0.3, 0.6]),
    )
    mid = rng.random() < 0.04 and toygraph.add_middle(rng, nodes)
    uids = [n["uid"] for n in nodes]
    if not uids:
        nodes = [{"uid": 0, "kind": "par", "deps": [], "ty": "int", "prio": 0, "group": None, "accel": False}]
        uids = [0]
    targets = [u for u in uids if rng.random() < rng.choice([0.2, 0.6, 1.0])] or [uids[-1]]
    rng.shuffle(targets)
    return {
        "nodes": nodes, "targets": targets, "devices": rng.choice([1, 2, 2, 3, 5]),
        "explicit": rng.random() < 0.5, "storage": rng.random() < 0.6, "mid": mid,
        "cpus": rng.choice([1, 4]), "sched": gen_sched(rng),
    }


def shrink(case):
    from sim import toygraph

    for n in reversed(case["nodes"]):
        nn, tt = toygraph.drop_node(case["nodes"], case["targets"], n["uid"])
        if nn and tt:
            yield dict(case, nodes=nn, targets=tt)
    if len(case["targets"]) > 1:
        for t in case["targets"]:
            yield dict(case, targets=[x for x in case["targets"] if x != t])
    if case["devices"] > 1:
        yield dict(case, devices=case["devices"] - 1)


def run(case, ctx, d, trace):
    import torch

    from mergekit.multigpu_executor import MultiGPUExecutor

    from sim import kernel, proc, toygraph
    from sim.sched import stats

    toygraph.install_fake_devices(case["devices"])
    nodes, targets = case["nodes"], case["targets"]
    rec = toygraph.Recorder({n["uid"]: n for n in nodes})
    toygraph.REC = rec
    rec.expected = {u: toygraph.plain(v) for u, v in toygraph.evaluate(nodes).items()}
    tasks = toygraph.build(nodes)
    need = toygraph.closure(nodes, targets)
    res = {}

    def out(v):
        r = stats(sim)
        r.update(
            v=v, sig=r["digest"], nontrivial=sim.max_threads >= 3 and sim.switches > 3,
            probes={"graphs": 1, "tasks_run": len(rec.runs), "early_timers": sim.early_timers,
                    "middle": int(bool(case.get("mid"))), "multi_device": int(case["devices"] > 1), "preemptions": sim.preempts},
            faults={"preemption": sim.preempts, "early-timer": sim.early_timers},
            sample={"graph": [(n["uid"], n["kind"], n["deps"]) for n in nodes], "targets": targets,
                    "devices": case["devices"], "switches": sim.switches},
        )
        return r

    def on_stuck(why, live):
        proc.report_and_exit(out({"cls": "nontermination", "msg": "%s; live threads %s" % (why, live)}))

    sim = kernel.Sim(case["sched"], trace, on_stuck=on_stuck, cpu_count=case["cpus"])

    def place(node, args):
        """an accelerator refuses operands that live on another device"""
        if node["accel"]:
            on = {str(t.device) for t in toygraph.tensors_in(args)}
            if len(on) > 1:
                rec.bad.append("accelerated task %d got inputs on different devices: %s" % (node["uid"], sorted(on)))

    rec.place = place
    refused = []

    def body():
        rec.main = threading.get_ident()
        try:
            ex = MultiGPUExecutor(
                targets=[tasks[t] for t in targets],
                num_gpus=case["devices"] if case["explicit"] else None,
                storage_device=torch.device("cpu") if case["storage"] else None,
            )
        except RuntimeError as e:
            if not case.get("mid"):
                raise
            refused.append(str(e))
            return []
        got = []
        for task, value in ex.run(quiet=True):
            got.append((task.uid, toygraph.plain(value)))
            if case["storage"]:
                for t in toygraph.tensors_in(value):
                    if t.device.type != "cpu" or t.device.index is not None:
                        rec.bad.append("result of task %d was left on %s" % (task.uid, t.device))
        sim.process_exit()
        return got

    try:
        got = sim.run(body)
    except Exception as e:
        import traceback

        return out({"cls": "exception:" + type(e).__name__, "msg": traceback.format_exc()[-1500:]})
    if refused:
        return out(None)
    for u, v in got:
        sim.log("result", u, repr(v))
    for u, _ in rec.runs:
        sim.log("ran", u)
    if rec.bad:
        return out({"cls": "input", "msg": rec.bad[0]})
    counts = {}
    for u, v in got:
        counts[u] = counts.get(u, 0) + 1
        if v != rec.expected.get(u, "?"):
            return out({"cls": "wrong-result", "msg": "target %d gave %r, serial evaluation gives %r" % (u, v, rec.expected.get(u))})
    for t in targets:
        if counts.get(t, 0) != 1:
            return out({"cls": "target-count", "msg": "target %d delivered %d times" % (t, counts.get(t, 0))})
    if set(counts) != set(targets):
        return out({"cls": "extra-target", "msg": "delivered %s, requested %s" % (sorted(counts), sorted(targets))})
    ex = {}
    for u, _ in rec.runs:
        ex[u] = ex.get(u, 0) + 1
    for u in need:
        n = rec.spec[u]
        c = ex.get(u, 0)
        lo, hi = (1, case["devices"]) if n.get("pg") else (1, 1)
        if not lo <= c <= hi:
            return out({"cls": "exec-count", "msg": "task %d (%s) ran %d times" % (u, n["kind"], c)})
    if set(ex) - need:
        return out({"cls": "exec-extra", "msg": "tasks %s ran but are not needed" % sorted(set(ex) - need)})
    return out(None)
