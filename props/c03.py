"""C03: intermediate results live exactly as long as they are needed."""
import random
import threading
import weakref

from props import c01

PROP = "C03"
RULE = (
    "A run = one random task graph executed by the real serial executor (optionally with some values supplied "
    "as already computed) or by the parallel executor under a seeded schedule, with the consumer abandoning the "
    "run or a task failing at a random point in some runs; every value carries weakly referenced leaves whose "
    "lifetime is checked whenever the next piece of work starts. Non-trivial when at least one value had to be "
    "kept across another task and one had to be released before the end. Distinct = event-log digests."
)
REAL = ["mergekit.graph (universe, schedule, executor)", "mergekit.multigpu_executor", "stdlib pools and queues on simulated locks"]
STUB = c01.STUB
ASSUMPTIONS = [
    "CPython reference counting: a value is released when the executor drops its last reference",
    "the most recently delivered target may stay referenced until the next delivery",
    "in parallel mode only values private to one device's island are required to be released early",
]
RUNS = {"quick": 6000, "thorough": 120000}
BUDGET = {"quick": 55, "thorough": 700}
prepare = c01.prepare


def gen(rng, i, tier):
    from sim import toygraph
    from sim.sched import gen_sched

    par = rng.random() < 0.4
    types = ["box", "bdict", "blist", "btuple", "none"]
    if par:
        nodes = toygraph.gen_graph(
            rng, n_par=rng.randint(1, 12), n_lead=rng.choice([0, 1, 2]), n_trail=rng.choice([0, 1, 2]),
            n_pg=rng.choice([0, 0, 1]), edge_p=rng.choice([0.3, 0.6]), types=types,
        )
    else:
        nodes = toygraph.gen_graph(
            rng, n_par=rng.randint(1, 22), n_lead=0, n_trail=0, n_pg=0,
            edge_p=rng.choice([0.15, 0.3, 0.6]), types=types, islands=rng.choice([1, 2, 4]),
        )
    uids = [n["uid"] for n in nodes if not n.get("pg")]
    targets = [u for u in uids if rng.random() < rng.choice([0.1, 0.3, 0.7])] or [uids[-1]]
    rng.shuffle(targets)
    case = {
        "nodes": nodes, "targets": targets, "mode": "par" if par else "serial",
        "devices": rng.choice([1, 2, 3]), "storage": True, "explicit": True, "cpus": 4,
        "sched": gen_sched(rng), "cached": [], "stop": None, "fail": None,
        "handles": rng.random() < 0.5, "reversed_edges": rng.random() < 0.3,
    }
    if not par:
        if rng.random() < 0.4:
            case["cached"] = [u for u in uids if rng.random() < 0.25]
        k = rng.random()
        if k < 0.2:
            case["stop"] = rng.randint(1, len(targets))
        elif k < 0.4:
            case["fail"] = rng.choice(uids)
    return case


def shrink(case):
    for c in c01.shrink(case):
        if c["mode"] == "par" and not any(n["kind"] == "par" for n in c["nodes"]):
            continue
        ok = {n["uid"] for n in c["nodes"]}
        yield dict(c, cached=[u for u in c["cached"] if u in ok], fail=c["fail"] if c["fail"] in ok else None)
    for u in case["cached"]:
        yield dict(case, cached=[x for x in case["cached"] if x != u])


def run(case, ctx, d, trace):
    import torch

    from mergekit.graph import Executor, TaskUniverse
    from mergekit.multigpu_executor import MultiGPUExecutor

    from sim import kernel, proc, toygraph
    from sim.sched import stats

    nodes, targets = case["nodes"], case["targets"]
    spec = {n["uid"]: n for n in nodes}
    cached = set(case["cached"])
    # needed work given cached values
    need, todo = set(), list(targets)
    while todo:
        u = todo.pop()
        if u in need:
            continue
        need.add(u)
        if u not in cached:
            todo.extend(spec[u]["deps"])
    runs_needed = need - cached
    consumers = {u: [m for m in runs_needed if u in spec[m]["deps"]] for u in need}
    trail_deps = {x for n in nodes if n["kind"] == "trail" for x in n["deps"]}

    leaves = {}  # (uid, thread) -> [weakref]
    done = {}  # thread -> set of finished uids
    current = {}  # thread -> uid running
    bad = []
    stat = {"released": 0, "kept": 0, "checks": 0}
    counts = {}
    got = []

    def mk(uid):
        return toygraph.Box(uid * 7919 + 1)

    def value(uid):
        k = spec[uid]["ty"]
        bs = [mk(uid) for _ in range(3)]
        leaves[(uid, threading.get_ident())] = [weakref.ref(b) for b in bs]
        if k == "box":
            leaves[(uid, threading.get_ident())] = [weakref.ref(bs[0])]
            return bs[0]
        if k == "bdict":
            return {"x": bs[0], "y": [bs[1], {"z": bs[2]}]}
        if k == "blist":
            return [bs[0], (bs[1], bs[2])]
        if k == "btuple":
            return (bs[0], [bs[1]], {"k": bs[2]})
        leaves[(uid, threading.get_ident())] = []
        return None

    def expect(uid):
        t = spec[uid]["ty"]
        b = ("b", uid * 7919 + 1)
        return {
            "box": b, "none": None,
            "bdict": ("d", (("x", b), ("y", ("l", (b, ("d", (("z", b),))))))),
            "blist": ("l", (b, ("u", (b, b)))),
            "btuple": ("u", (b, ("l", (b,)), ("d", (("k", b),)))),
        }[t]

    def alive(key):
        return [r for r in leaves[key] if r() is not None]

    def sweep(th, now_uid):
        """th is about to run now_uid (None: finished)"""
        fin = done.setdefault(th, set())
        for (u, t2) in list(leaves):
            if t2 != th or u not in fin:
                continue
            stat["checks"] += 1
            if case["mode"] == "par":
                if spec[u]["kind"] != "par" or u in targets or u in trail_deps:
                    continue
            elif got and got[-1][0] == u:
                continue  # the delivery in progress may still refer to it
            cons = consumers[u]
            if all(c in fin for c in cons):
                if alive((u, th)):
                    bad.append("value of task %d is still held when task %s starts although all its consumers %s have run" % (u, now_uid, cons))
                elif leaves[(u, th)]:
                    stat["released"] += 1
            else:
                stat["kept"] += 1

    def execute(self, **kw):
        th = threading.get_ident()
        prev = current.get(th)
        if prev is not None:
            done.setdefault(th, set()).add(prev)
        sweep(th, self.uid)
        current[th] = self.uid
        counts[self.uid] = counts.get(self.uid, 0) + 1
        if self.uid in cached:
            bad.append("task %d was recomputed although its value was supplied" % self.uid)
        for i, dep in enumerate(spec[self.uid]["deps"]):
            a = kw.pop("arg%d" % i, "missing")
            if toygraph.plain(a) != expect(dep):
                bad.append("task %d received %r for its input %d" % (self.uid, toygraph.plain(a), dep))
            del a
        if case["fail"] == self.uid:
            raise toygraph.Boom(self.uid)
        return value(self.uid)

    T = toygraph.task_class()
    T.execute = execute
    tasks = toygraph.build(nodes)

    def out(v):
        r = stats(sim)
        r.update(
            v=v, sig=r["digest"], nontrivial=bool(stat["released"] and stat["kept"]),
            faults={"abandoned-run": int(case["stop"] is not None), "task-failure": int(case["fail"] in counts),
                    "preemption": sim.preempts},
            probes=dict(stat, parallel=int(case["mode"] == "par"), cached=len(cached)),
            sample={"graph": [(n["uid"], n["deps"]) for n in nodes], "targets": targets, "mode": case["mode"], "cached": sorted(cached)},
        )
        return r

    def on_stuck(why, live):
        proc.report_and_exit(out({"cls": "nontermination", "msg": why}))

    sim = kernel.Sim(case["sched"], trace, on_stuck=on_stuck)

    def serial():
        if case["handles"] or cached:
            uni = TaskUniverse([tasks[t] for t in targets])
            cv = {}
            for u in sorted(cached):
                h = uni.get_handle(tasks[u])
                if h is not None:
                    cv[h] = value(u)
            ex = Executor([uni.get_handle(tasks[t]) for t in targets], cached_values=cv or None)
            del cv
        else:
            ex = Executor([tasks[t] for t in targets])
        g = ex.run(quiet=True)
        n = 0
        for task, v in g:
            got.append((task.uid, toygraph.plain(v)))
            del v
            n += 1
            if case["stop"] == n:
                break
        g.close()
        del g
        ex.cached_values = None
        return ex

    def parallel():
        ex = MultiGPUExecutor(
            targets=[tasks[t] for t in targets], num_gpus=case["devices"], storage_device=torch.device("cpu")
        )
        for task, v in ex.run(quiet=True):
            got.append((task.uid, toygraph.plain(v)))
            del v
        sim.process_exit()
        return ex

    failed = None
    try:
        if case["mode"] == "par":
            toygraph.install_fake_devices(case["devices"])
            ex = sim.run(parallel)
        else:
            ex = serial()
    except toygraph.Boom:
        failed = "boom"
    except Exception as e:
        import traceback

        return out({"cls": "exception:" + type(e).__name__, "msg": traceback.format_exc()[-1500:]})
    for g in got:
        sim.log("result", *g)
    for u, c in counts.items():
        sim.log("ran", u, c)
    if bad:
        return out({"cls": bad[0].split(" ")[0] + ("-late" if "still held" in bad[0] else "-bad"), "msg": bad[0]})
    if case["mode"] == "serial":
        # everything must be gone once the run is over, however it ended
        left = sorted({u for (u, t) in leaves if u not in cached and alive((u, t))})
        if left:
            return out({"cls": "leak", "msg": "values of tasks %s survive the end of the run (%s)" % (left, failed or case["stop"])})
    if failed is None and case["stop"] is None:
        if case["fail"] in runs_needed:
            return out({"cls": "failure-lost", "msg": "task %s failed but the run completed" % case["fail"]})
        exp = sorted(t for t in targets if t not in cached)
        if sorted(u for u, _ in got if u not in cached) != exp:
            return out({"cls": "target-count", "msg": "delivered %s, requested %s" % (sorted(u for u, _ in got), exp)})
        for u in runs_needed:
            c = counts.get(u, 0)
            if c != 1 and not spec[u].get("pg"):
                return out({"cls": "exec-count", "msg": "task %d ran %d times" % (u, c)})
    if set(counts) - runs_needed:
        return out({"cls": "exec-extra", "msg": "tasks %s ran without being needed" % sorted(set(counts) - runs_needed)})
    for u, v in got:
        if v != expect(u):
            return out({"cls": "wrong-result", "msg": "target %d gave %r" % (u, v)})
    return out(None)
