"""Swarm-style schedule specifications."""


def gen_sched(rng, lines=None):
    mode = rng.choice(["random", "random", "random", "pct", "pct", "coarse"])
    s = {"mode": mode, "seed": rng.getrandbits(48)}
    if mode == "random":
        s["p"] = rng.choice([0.02, 0.1, 0.3, 0.6])
        s["p_line"] = rng.choice([0.0, 0.01, 0.05, 0.2])
    elif mode == "pct":
        s["d"] = rng.choice([1, 2, 3, 5, 8])
        s["n"] = rng.choice([200, 800, 3000, 10000])
    else:
        s["p"] = rng.choice([0.1, 0.4])
    s["p_time"] = rng.choice([0.0, 0.0, 0.002, 0.02])
    s["lines"] = rng.random() < 0.85 if lines is None else lines
    return s


def stats(sim):
    return {
        "digest": sim.digest(), "steps": sim.steps, "switches": sim.switches,
        "simtime": sim.now, "trace": list(sim.trace) if sim.trace_in is None else [
            list(k) + [v] for k, v in sim.trace_in.items()
        ],
    }
