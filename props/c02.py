"""C02: failures in parallel execution surface, and the run always terminates."""
import threading

from props import c01

PROP = "C02"
RULE = (
    "A run = one random task graph executed by the real parallel executor under one seeded schedule with "
    "injected faults: tasks raising (ordinary, OS, memory, non-Exception errors) in any stage, an interrupt "
    "of the calling thread at a random point, or a failing thread start; non-trivial when a fault actually "
    "fired. Distinct = distinct event-log digests."
)
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = [
    "an interrupt is delivered to the calling thread between source lines of mergekit or while it waits",
    "after an interrupt only non-daemon threads count as left behind (they would keep the process alive)",
]
RUNS = {"quick": 6000, "thorough": 120000}
BUDGET = {"quick": 55, "thorough": 700}
prepare = c01.prepare


def gen(rng, i, tier):
    case = c01.gen(rng, i, tier)
    while case["mid"]:
        case = c01.gen(rng, i, tier)
    uids = [n["uid"] for n in case["nodes"]]
    kind = rng.choice(["task", "task", "task", "tasks", "interrupt", "interrupt", "threads", "none"])
    f = {"kind": kind, "fail": {}}
    if kind == "task":
        f["fail"] = {str(rng.choice(uids)): rng.choice(["boom", "boom", "os", "mem", "base"])}
    elif kind == "tasks":
        f["fail"] = {str(u): rng.choice(["boom", "os"]) for u in uids if rng.random() < 0.3}
    elif kind == "interrupt":
        f["at"] = rng.choice([rng.randint(1, 30), rng.randint(1, 200), rng.randint(1, 800)])
    elif kind == "threads":
        f["at"] = rng.randint(1, 5)
    case["fault"] = f
    return case


def shrink(case):
    f = case["fault"]
    for c in c01.shrink(case):
        ok = {str(n["uid"]) for n in c["nodes"]}
        yield dict(c, fault=dict(f, fail={u: k for u, k in f["fail"].items() if u in ok}))
    if len(f["fail"]) > 1:
        for u in f["fail"]:
            yield dict(case, fault=dict(f, fail={k: v for k, v in f["fail"].items() if k != u}))
    if f.get("at", 0) > 1:
        for x in (1, f["at"] // 2, f["at"] - 1):
            yield dict(case, fault=dict(f, at=x))


def run(case, ctx, d, trace):
    import torch

    from mergekit.multigpu_executor import MultiGPUExecutor

    from sim import kernel, proc, toygraph
    from sim.sched import stats

    toygraph.install_fake_devices(case["devices"])
    nodes, targets, f = case["nodes"], case["targets"], case["fault"]
    rec = toygraph.Recorder({n["uid"]: n for n in nodes})
    toygraph.REC = rec
    rec.expected = {u: toygraph.plain(v) for u, v in toygraph.evaluate(nodes).items()}
    rec.fail = {int(u): k for u, k in f["fail"].items()}
    tasks = toygraph.build(nodes)

    def out(v):
        r = stats(sim)
        fired = {
            "task-failure": len(rec.raised), "interrupt": sim.interrupt_fired,
            "thread-start-failure": sim.start_failures, "early-timer": sim.early_timers,
            "preemption": sim.preempts,
        }
        r.update(
            v=v, sig=r["digest"],
            nontrivial=bool(rec.raised or sim.interrupt_fired or sim.start_failures),
            faults=fired,
            probes={"failed_in_" + rec.spec[u]["kind"]: 1 for u in rec.raised},
            sample={"graph": [(n["uid"], n["kind"], n["deps"]) for n in nodes], "targets": targets,
                    "fault": f, "raised": rec.raised},
        )
        return r

    def on_stuck(why, live):
        proc.report_and_exit(out({"cls": "nontermination", "msg": "%s; live threads %s; fault %s" % (why, live, f)}))

    sim = kernel.Sim(
        case["sched"], trace, on_stuck=on_stuck, cpu_count=case["cpus"],
        interrupt=f["at"] if f["kind"] == "interrupt" else None,
        thread_limit=f["at"] if f["kind"] == "threads" else None,
        max_steps=150000,
    )

    box = {}

    def body():
        rec.main = threading.get_ident()
        got = []
        try:
            ex = MultiGPUExecutor(
                targets=[tasks[t] for t in targets],
                num_gpus=case["devices"] if case["explicit"] else None,
                storage_device=torch.device("cpu") if case["storage"] else None,
            )
            for task, value in ex.run(quiet=True):
                got.append((task.uid, toygraph.plain(value)))
        except BaseException as e:  # noqa: BLE001
            box["exc"] = e
        interrupted = sim.interrupt_fired
        sim.process_exit()
        if not interrupted:
            sim.drain()
        return got

    got = sim.run(body)
    exc = box.get("exc")
    sim.log("exc", type(exc).__name__, str(exc)[:80])
    for u, v in got:
        sim.log("result", u, repr(v))
    kinds = {"boom": toygraph.Boom, "os": OSError, "mem": MemoryError, "base": toygraph.BaseBoom}
    allowed = tuple(kinds[rec.fail[u]] for u in rec.raised)
    if sim.interrupt_fired:
        allowed += (KeyboardInterrupt,)
    if sim.start_failures:
        allowed += (RuntimeError,)
    if allowed:
        if exc is None:
            return out({"cls": "failure-lost", "msg": "fault fired (%s; tasks %s raised) but the run completed normally delivering %d results" % (f, rec.raised, len(got))})
        if not isinstance(exc, allowed):
            return out({"cls": "wrong-error", "msg": "fault %s (tasks %s raised) surfaced as %r" % (f, rec.raised, exc)})
        if rec.raised and not sim.interrupt_fired and not sim.start_failures:
            uid = getattr(exc, "uid", None)
            if uid is None:
                uid = int(str(exc).rsplit("injected ", 1)[-1]) if "injected " in str(exc) else None
            if uid not in rec.raised:
                return out({"cls": "wrong-error", "msg": "error %r is not one of the failures of tasks %s" % (exc, rec.raised)})
    else:
        if exc is not None:
            return out({"cls": "spurious-error", "msg": "no fault fired but the run raised %r" % (exc,)})
        if sorted(u for u, _ in got) != sorted(targets):
            return out({"cls": "target-count", "msg": "delivered %s, requested %s" % (sorted(u for u, _ in got), sorted(targets))})
    if rec.bad:
        return out({"cls": "input", "msg": rec.bad[0]})
    return out(None)
