"""Check driver: seeded search over simulated runs, minimisation, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

_clock = time.monotonic


class Ctx:
    """What a property module gets: scratch space and fixtures."""

    def __init__(self, scratch, tier, seed):
        self.scratch = scratch
        self.tier = tier
        self.seed = seed
        self.fx = {}

    def rundir(self, tag):
        d = os.path.join(self.scratch, "runs", tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d


def run_seed(seed, prop, i):
    return int.from_bytes(
        hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()[:7], "big"
    )


def gen_case(mod, seed, i, tier):
    rng = random.Random(run_seed(seed, mod.PROP, i))
    case = mod.gen(rng, i, tier)
    case["_i"] = i
    case["_seed"] = run_seed(seed, mod.PROP, i)
    return case


def execute(mod, ctx, case, trace=None, tag="x", timeout=None):
    """One simulated run in its own forked process -> result dict."""
    from sim import proc

    tag = "%s-%d" % (tag, os.getpid())
    d = ctx.rundir(tag)
    timeout = timeout or getattr(mod, "RUN_TIMEOUT", 90.0)
    try:
        r = proc.fork_run(
            lambda: mod.run(case, ctx, d, trace), timeout=timeout, seed=case["_seed"] & 0x7FFFFFFF
        )
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r[0] == "ok":
        return r[1]
    if r[0] == "hang":
        return {"v": {"cls": "hang", "msg": "simulated run did not end within %ds of real time" % timeout}}
    if r[0] == "exc":
        return {"error": r[1]}
    return {"error": "run process died with status %r" % (r[1],)}


def worker(mod, ctx, seed, tier, w, nw, total, out_fd, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from sim import proc

    proc.die_with_parent()
    for i in range(w, total, nw):
        if _clock() > deadline:
            break
        case = gen_case(mod, seed, i, tier)
        t0 = _clock()
        res = execute(mod, ctx, case, tag="w%d" % w)
        res["i"] = i
        res["wall"] = _clock() - t0
        if res.get("trace") is not None and not res.get("v"):
            res["trace_len"] = len(res["trace"])
            del res["trace"]
        data = pickle.dumps(res)
        os.write(out_fd, len(data).to_bytes(4, "big"))
        mv = memoryview(data)
        while mv:
            n = os.write(out_fd, mv)
            mv = mv[n:]
    os._exit(0)


def search(mod, ctx, seed, tier, total, budget, nw, stop_on_violation=True):
    deadline = _clock() + budget
    pids, fds, bufs = [], {}, {}
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(mod, ctx, seed, tier, w, nw, total, wfd, deadline)
            except BaseException:
                import traceback

                traceback.print_exc()
            finally:
                os._exit(97)
        os.close(wfd)
        pids.append(pid)
        fds[r] = w
        bufs[r] = b""
    results = []
    stop_at = None
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for r in rl:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del fds[r]
                continue
            bufs[r] += b
            while len(bufs[r]) >= 4:
                n = int.from_bytes(bufs[r][:4], "big")
                if len(bufs[r]) < 4 + n:
                    break
                res = pickle.loads(bufs[r][4 : 4 + n])
                bufs[r] = bufs[r][4 + n :]
                results.append(res)
                if res.get("v") and stop_on_violation and stop_at is None:
                    if not mod_known(mod, res["v"]):
                        stop_at = _clock()
        if stop_at is not None:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            break
    for p in pids:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    for r in list(fds):
        os.close(r)
    return results


# --- known findings ---------------------------------------------------------
def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            e = json.loads(line)
            if e.get("property") == prop and e.get("status") == "known":
                out.append(e)
    return out


def mod_known(mod, v):
    for e in load_known(mod.PROP):
        m = e.get("match", {})
        if m and all(v.get(k) == x for k, x in m.items()):
            return e
    return None


# --- minimisation -----------------------------------------------------------
def minimise(mod, ctx, case, trace, cls, budget):
    end = _clock() + budget
    tries = [0]

    def fails(c, tr):
        if _clock() > end:
            return None
        tries[0] += 1
        r = execute(mod, ctx, c, tr, tag="min")
        if r.get("v") and r["v"]["cls"] == cls:
            return r
        return None

    best, btrace = case, trace
    changed = True
    while changed and _clock() < end:
        changed = False
        for c in mod.shrink(best) if hasattr(mod, "shrink") else ():
            if _clock() > end:
                break
            r = fails(c, btrace)
            if r is None and btrace is not None:
                r = fails(c, None)
                if r is not None:
                    btrace = r.get("trace")
            if r is not None:
                best = c
                changed = True
                break
    # ddmin over the schedule trace
    if btrace:
        n = 2
        while len(btrace) >= 1 and _clock() < end:
            size = max(1, len(btrace) // n)
            done = False
            for k in range(0, len(btrace), size):
                cand = btrace[:k] + btrace[k + size :]
                if fails(best, cand) is not None:
                    btrace = cand
                    n = max(n - 1, 2)
                    done = True
                    break
                if _clock() > end:
                    break
            if not done:
                if size == 1:
                    break
                n = min(n * 2, len(btrace))
    return best, btrace, tries[0]


def write_replay(prop, seed, case, trace, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-run%d.json" % (prop, seed, case["_i"]))
    with open(path, "w") as f:
        json.dump(
            {"property": prop, "seed": seed, "case": case, "schedule": trace, "violation": v},
            f, indent=1, sort_keys=True, default=str,
        )
    return path


# --- main -------------------------------------------------------------------
def make_scratch():
    for base in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(base)
            if os.access(base, os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
                return tempfile.mkdtemp(prefix="verif-", dir=base)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="verif-")


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--digests", help="write per-run digests to this file (determinism proof)")
    ap.add_argument("--one", type=int, help="run one index and print the result")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = _clock()

    sys.path.insert(0, REPO)
    from sim import kernel

    kernel.SOURCE_PREFIX = os.path.join(REPO, "mergekit") + "/"
    kernel.install()
    mod = importlib.import_module("props." + a.prop.lower())
    scratch = make_scratch()
    os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
    os.makedirs(os.environ["TMPDIR"])
    tempfile.tempdir = None
    os.environ["HF_HOME"] = os.path.join(scratch, "hf")
    rc = 2
    try:
        rc = _main(a, mod, scratch, tier, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _main(a, mod, scratch, tier, seed, t0):
    prop = mod.PROP
    ctx = Ctx(scratch, tier, seed)
    print("check %s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    from sim import cov

    cov.start()
    mod.prepare(ctx)
    import gc

    gc.collect()
    gc.freeze()
    prep = _clock() - t0
    nw = a.workers or min(8, os.cpu_count() or 4)

    if a.replay:
        rp = json.load(open(a.replay))
        r = execute(mod, ctx, rp["case"], rp["schedule"])
        if r.get("v"):
            print("replayed: %s: %s" % (r["v"]["cls"], r["v"]["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay did not fail:", {k: r[k] for k in r if k != "trace"})
        return 0 if "error" not in r else 2
    if a.one is not None:
        case = gen_case(mod, seed, a.one, tier)
        r = execute(mod, ctx, case)
        print(json.dumps(case, default=str)[:3000])
        print({k: r[k] for k in r if k != "trace"})
        if r.get("error"):
            print(r["error"])
        return 0

    total = a.runs or mod.RUNS[tier]
    budget = a.budget or getattr(mod, "BUDGET", {"quick": 45, "thorough": 700})[tier]
    s0 = _clock()
    results = search(mod, ctx, seed, tier, total, budget, nw, not a.keep_going)
    dur = _clock() - s0
    results.sort(key=lambda r: r["i"])
    if a.digests:
        with open(a.digests, "w") as f:
            for r in results:
                f.write("%d %s %s\n" % (r["i"], r.get("digest"), (r.get("v") or {}).get("cls")))
    errors = [r for r in results if "error" in r]
    viol = [r for r in results if r.get("v")]
    rc = 0
    unrepro = 0
    printed_known = set()
    reported = 0
    for r in viol:
        e = mod_known(mod, r["v"])
        if e:
            if e["id"] not in printed_known:
                printed_known.add(e["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]), flush=True)
            continue
        case = gen_case(mod, seed, r["i"], tier)
        v, trace = r["v"], r.get("trace")
        print("run %d violates %s: %s: %s" % (r["i"], prop, v["cls"], v["msg"]), flush=True)
        ok = False
        for _ in range(1 if v["cls"] == "hang" else 4):
            again = execute(mod, ctx, case, trace, tag="re")
            if again.get("v") and again["v"]["cls"] == v["cls"]:
                ok = True
                break
        if not ok:
            unrepro += 1
            print("  not reproduced on re-execution; not reported", flush=True)
            continue
        if reported == 0:
            mb = 60 if tier == "quick" else 240
            if v["cls"] == "hang":
                mb = 0
            case2, trace2, tries = minimise(mod, ctx, case, trace, v["cls"], mb)
            fin = execute(mod, ctx, case2, trace2, tag="fin")
            if not (fin.get("v") and fin["v"]["cls"] == v["cls"]):
                case2, trace2, fin = case, trace, again
            path = write_replay(prop, seed, case2, trace2, fin["v"])
            print("  minimised in %d runs: %s: %s" % (tries, fin["v"]["cls"], fin["v"]["msg"]))
            print("  schedule preemptions: %d" % len(trace2 or []))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        reported += 1
        rc = 1
        if reported and not a.keep_going:
            break
        if reported > 20:
            break
    if errors and rc == 0:
        # an exception of the harness itself is an error of the check, never a pass
        for r in errors[:3]:
            print("HARNESS-ERROR run %d: %s" % (r["i"], r["error"][-3000:]))
        rc = 3
    write_evidence(mod, tier, seed, results, dur, prep, _clock() - t0, reported, unrepro, len(errors), total)
    good = [r for r in results if "error" not in r]
    print(
        "%s: %d runs in %.1fs (prep %.1fs), %d distinct, %d violations, %d errors"
        % (prop, len(good), dur, prep, len({r.get("sig") for r in good}), len(viol), len(errors)),
        flush=True,
    )
    return rc


def _sum(results, key):
    tot = {}
    for r in results:
        for k, n in (r.get(key) or {}).items():
            tot[k] = tot.get(k, 0) + n
    return dict(sorted(tot.items()))


def write_evidence(mod, tier, seed, results, dur, prep, wall, reported, unrepro, nerr, total):
    good = [r for r in results if "error" not in r]
    nontriv = {r.get("sig") for r in good if r.get("nontrivial", True)}
    hours = max(dur, 1e-9) / 3600
    cov = {
        "evaluations": len(good),
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": [r["sample"] for r in good if r.get("sample") is not None][:3]
        or [{"run": r["i"], "sig": r.get("sig")} for r in good[:3]],
        "planned_runs": total,
        "runs_per_hour": round(len(good) / hours),
        "seeds_per_hour": round(len(good) / hours),
        "simulated_seconds": round(sum(r.get("simtime", 0) for r in good), 3),
        "scheduling_points": sum(r.get("steps", 0) for r in good),
        "context_switches": sum(r.get("switches", 0) for r in good),
        "distinct_interleavings": len({r.get("digest") for r in good if r.get("digest")}),
        "interleaving_measure": "sha256 over the sequence of (from-thread, to-thread, point) context switches and recorded history events of a run",
        "faults_injected": _sum(good, "faults"),
        "probes": _sum(good, "probes"),
        "components_real": mod.REAL,
        "components_stubbed": mod.STUB,
        "prep_s": round(prep, 2),
        "unreproduced": unrepro,
        "harness_errors": nerr,
    }
    ev = {
        "property": mod.PROP, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2),
        "violations": reported,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % mod.PROP)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, mod.PROP + ".json"))
