"""Random task graphs made of small mergekit Tasks, with a trivial reference
evaluator.  Used by the executor properties."""
import threading
from typing import Any, Dict, List, Optional, Tuple

REC = None  # recorder of the current run


class Recorder:
    def __init__(self, spec):
        self.spec = spec  # uid -> node dict
        self.runs = []  # (uid, thread ident, device)
        self.bad = []
        self.expected = {}
        self.fail = {}
        self.raised = []
        self.main = threading.get_ident()
        self.on_exec = None
        self.place = None


class Boom(Exception):
    def __init__(self, uid):
        super().__init__("injected failure in task %d" % uid)
        self.uid = uid


class BaseBoom(BaseException):
    pass


def plain(v):
    """A comparable copy of a value."""
    import torch

    if isinstance(v, torch.Tensor):
        return ("t", str(v.dtype), tuple(v.shape), tuple(v.reshape(-1).tolist()))
    if isinstance(v, dict):
        return ("d", tuple(sorted((str(k), plain(x)) for k, x in v.items())))
    if isinstance(v, list):
        return ("l", tuple(plain(x) for x in v))
    if isinstance(v, tuple):
        return ("u", tuple(plain(x) for x in v))
    if hasattr(v, "tag"):
        return ("b", v.tag)
    return v


_dev_cls = None


def dev_class():
    """A tensor that carries a simulated placement: `.device` and `.to(device=)`
    behave as on a machine with that many accelerators, data stay on the CPU."""
    global _dev_cls
    if _dev_cls is None:
        import torch

        class DevTensor(torch.Tensor):
            sim_device = None

            @property
            def device(self):
                return self.sim_device or torch.device("cpu")

            def to(self, *a, **k):
                dev = k.pop("device", None)
                a = list(a)
                if dev is None and a and isinstance(a[0], (torch.device, str)):
                    dev = a.pop(0)
                k.pop("non_blocking", None)
                out = self.as_subclass(torch.Tensor)
                if a or k:
                    out = out.to(*a, **k)
                return place(out, torch.device(dev) if dev is not None else self.device)

            def cpu(self):
                return self.to(device="cpu")

        _dev_cls = DevTensor
    return _dev_cls


def place(t, dev):
    import torch

    r = t.as_subclass(torch.Tensor).detach().clone().as_subclass(dev_class())
    r.sim_device = dev
    return r


def default_device():
    import torch

    return torch.get_default_device()


def tensors_in(v):
    import torch

    if isinstance(v, torch.Tensor):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from tensors_in(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from tensors_in(x)


def used_device(args):
    for t in tensors_in(args):
        return t.device
    return None


def on_device(v, dev):
    import torch

    if isinstance(v, torch.Tensor):
        return place(v, dev)
    if isinstance(v, dict):
        return {k: on_device(x, dev) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(on_device(x, dev) for x in v)
    return v


class Box:
    """weak-referenceable opaque value"""

    __slots__ = ("tag", "__weakref__")

    def __init__(self, tag):
        self.tag = tag


def compute(node, args):
    """The pure function every toy task computes (args: list of values)."""
    import torch

    acc = node["uid"] * 1000003 + 17
    for a in args:
        acc = (acc * 31 + (hash(_num(a)) & 0xFFFF)) % 1000000007
    k = node["ty"]
    if k == "int":
        return acc
    if k == "none":
        return None
    if k == "tensor":
        return torch.tensor([acc % 65536, node["uid"]], dtype=torch.float32)
    if k == "dict":
        return {"a": torch.tensor([acc % 4096], dtype=torch.int64), "b": [acc, (acc, None)]}
    if k == "list":
        return [torch.tensor(acc % 997), acc]
    if k == "box":
        return Box(acc)
    return (acc, torch.tensor([1.5, acc % 1021]))


def _num(v):
    import torch

    if v is None:
        return 3
    if isinstance(v, int):
        return v
    if isinstance(v, torch.Tensor):
        return sum(int(x) * (i + 7) for i, x in enumerate(v.reshape(-1).tolist()))
    if isinstance(v, dict):
        return sum(_num(v[k]) * (i + 3) for i, k in enumerate(sorted(v)))
    if isinstance(v, (list, tuple)):
        return sum(_num(x) * (i + 5) for i, x in enumerate(v))
    if isinstance(v, Box):
        return v.tag
    return 11


def make_task_class():
    from mergekit.graph import Task

    class ToyTask(Task[Any]):
        uid: int
        deps: Tuple[Any, ...]
        main_only: bool = False
        per_gpu: bool = False
        accel: bool = False
        prio: int = 0
        group: Optional[str] = None

        def arguments(self) -> Dict[str, Task]:
            return {"arg%d" % i: d for i, d in enumerate(self.deps)}

        def execute(self, **kw) -> Any:
            r = REC
            node = r.spec[self.uid]
            args = [kw["arg%d" % i] for i in range(len(self.deps))]
            r.runs.append((self.uid, threading.get_ident()))
            if len(kw) != len(self.deps):
                r.bad.append("task %d got %d arguments, has %d dependencies" % (self.uid, len(kw), len(self.deps)))
            for d, a in zip(node["deps"], args):
                if plain(a) != r.expected[d]:
                    r.bad.append("task %d received a wrong value for its input %d: %r" % (self.uid, d, plain(a)))
            if r.on_exec is not None:
                r.on_exec(self.uid, args)
            if r.place is not None:
                r.place(node, args)
            if node.get("main") and threading.get_ident() != r.main:
                r.bad.append("main-thread-only task %d ran on another thread" % self.uid)
            f = r.fail.get(self.uid)
            if f:
                r.raised.append(self.uid)
                if f == "mem":
                    raise MemoryError("injected %d" % self.uid)
                if f == "os":
                    raise OSError(28, "injected %d" % self.uid)
                if f == "base":
                    raise BaseBoom("injected %d" % self.uid)
                raise Boom(self.uid)
            v = compute(node, args)
            return on_device(v, used_device(args) or default_device()) if r.place is not None else v

        def __hash__(self):
            return hash(("toy", self.uid))

        def __eq__(self, other):
            return isinstance(other, ToyTask) and self.uid == other.uid

        def priority(self) -> int:
            return self.prio

        def group_label(self):
            return self.group

        def uses_accelerator(self) -> bool:
            return self.accel

        def main_thread_only(self) -> bool:
            return self.main_only

        def duplicate_per_gpu(self) -> bool:
            return self.per_gpu

    return ToyTask


_cls = None


def task_class():
    global _cls
    if _cls is None:
        _cls = make_task_class()
    return _cls


TYPES = ["int", "none", "tensor", "dict", "list", "tuple", "box"]


def gen_graph(rng, n_par, n_lead, n_trail, n_pg, edge_p=0.3, types=TYPES, islands=None):
    """nodes in topological order. Leading: main-only over leading; per-gpu over
    leading/per-gpu; parallel over leading/per-gpu/parallel (within its island);
    trailing: main-only over anything, only used by trailing."""
    nodes = []

    def add(kind, pool, minp=0):
        if kind == "trail" and rng.random() < 0.4:
            deps = list(pool)  # e.g. finalising a model: everything at once
        else:
            deps = [u for u in pool if rng.random() < edge_p][:6]
        if minp and not deps and pool:
            deps = [rng.choice(pool)]
        rng.shuffle(deps)
        n = {
            "uid": len(nodes), "kind": kind, "deps": deps, "ty": rng.choice(types),
            "prio": rng.choice([0, 0, 0, -5, 5, 100, -1000]),
            "group": rng.choice([None, None, "a", "b", "zz"]),
            "accel": rng.random() < 0.4,
        }
        if kind in ("lead", "trail"):
            n["main"] = True
        if kind == "pg":
            n["pg"] = True
        nodes.append(n)
        return n["uid"]

    lead, pg, trail = [], [], []
    for _ in range(n_lead):
        lead.append(add("lead", lead))
    for _ in range(n_pg):
        pg.append(add("pg", lead + pg))
    k = islands or rng.randint(1, max(1, n_par))
    par = [[] for _ in range(k)]
    allpar = []
    for _ in range(n_par):
        j = rng.randrange(k)
        pool = par[j][-4:] + [u for u in lead + pg if rng.random() < 0.5]
        u = add("par", pool)
        par[j].append(u)
        allpar.append(u)
    for _ in range(n_trail):
        pool = [u for u in allpar + lead + pg if rng.random() < 0.7] + trail
        trail.append(add("trail", pool, 1))
    # per-gpu work nobody uses is not scheduled work
    used = {d for n in nodes for d in n["deps"]}
    for u in pg:
        if u not in used and allpar:
            nodes[allpar[-1]]["deps"].append(u)
    return nodes


def add_middle(rng, nodes):
    """Main-thread work in the middle of parallel work: must be refused (or done right)."""
    par = [n["uid"] for n in nodes if n["kind"] == "par"]
    if not par:
        return False
    deps = [rng.choice(par)] + [u for u in par if rng.random() < 0.2]
    u = len(nodes)
    nodes.append({"uid": u, "kind": "mid", "deps": sorted(set(deps)), "ty": "int", "prio": 0,
                  "group": None, "accel": False, "main": True})
    nodes.append({"uid": u + 1, "kind": "par", "deps": [u], "ty": "int", "prio": 0, "group": None, "accel": False})
    if rng.random() < 0.5:
        nodes.append({"uid": u + 2, "kind": "trail", "deps": [u, u + 1], "ty": "int", "prio": 0,
                      "group": None, "accel": False, "main": True})
    return True


def evaluate(nodes):
    vals = {}
    for n in nodes:
        vals[n["uid"]] = compute(n, [vals[d] for d in n["deps"]])
    return vals


def build(nodes):
    T = task_class()
    tasks = {}
    for n in nodes:
        tasks[n["uid"]] = T(
            uid=n["uid"], deps=tuple(tasks[d] for d in n["deps"]),
            main_only=bool(n.get("main")), per_gpu=bool(n.get("pg")),
            accel=n["accel"], prio=n["prio"], group=n["group"],
        )
    return tasks


def closure(nodes, targets):
    need, todo = set(), list(targets)
    by = {n["uid"]: n for n in nodes}
    while todo:
        u = todo.pop()
        if u in need:
            continue
        need.add(u)
        todo.extend(by[u]["deps"])
    return need


def drop_node(nodes, targets, uid):
    """Graph without node uid (edges to it removed), renumbering nothing."""
    out = []
    for n in nodes:
        if n["uid"] == uid:
            continue
        m = dict(n)
        m["deps"] = [d for d in n["deps"] if d != uid]
        out.append(m)
    return out, [t for t in targets if t != uid]


def install_fake_devices(n):
    """n simulated accelerators backed by the CPU, at the torch seam."""
    import contextlib

    import torch

    torch.accelerator.current_accelerator = lambda *a, **k: torch.device("cpu")
    torch.accelerator.device_count = lambda: n
    torch.accelerator.is_available = lambda: True
    torch.cpu.device_count = lambda: n

    class FakeStream:
        def __init__(self, device=None, **kw):
            self.device = device

        def synchronize(self):
            pass

        def wait_stream(self, other):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    torch.cuda.Stream = FakeStream
    torch.cuda.stream = lambda s: contextlib.nullcontext(s)
    torch.cpu.synchronize = lambda device=None: None
