"""A simulated cluster: the parts of ray (and lm_eval, cma) mergekit-evolve uses.

Tasks and actors are simulated threads of one process under the seeded scheduler;
durations pass on the simulated clock. Semantics follow ray: arguments that are
references are resolved before a task starts (a failed one fails the task), tasks
wait for their resources, a task blocked in get() gives its CPUs back, worker
death is retried up to max_retries, application errors only as asked, actors run
their calls in submission order (async actors concurrently on an event loop),
placement groups reserve resources until they are removed. Worker death is modelled
by a worker thread that never runs again, so none of its cleanup happens."""
import asyncio
import asyncio.base_events
import copy
import functools
import inspect
import pickle
import random
import sys
import threading
import time
import types

from sim import kernel

C = None  # the cluster of this process


class RayError(Exception):
    pass


class RayTaskError(RayError):
    pass


class WorkerCrashedError(RayError):
    pass


class RayActorError(RayError):
    pass


class Stalled(BaseException):
    """The driver waited longer than the run can legitimately take."""


class Died(BaseException):
    pass


class ObjectRef:
    def __init__(self):
        self.done = False
        self.value = self.error = None
        self.callbacks = []

    def complete(self, value=None, error=None):
        with C.cv:
            if self.done:
                return
            self.value, self.error, self.done = value, error, True
            cbs, self.callbacks = self.callbacks, []
            C.cv.notify_all()
        for cb in cbs:
            cb()

    def result(self):
        if self.error is not None:
            raise self.error
        return transfer(self.value)

    def __await__(self):
        loop = asyncio.get_running_loop()
        f = loop.create_future()

        def fin():
            if f.done():
                return
            if self.error is not None:
                f.set_exception(self.error)
            else:
                f.set_result(transfer(self.value))

        def ready():
            loop.call_soon_threadsafe(fin)

        with C.cv:
            now = self.done
            if not now:
                self.callbacks.append(ready)
        if now:
            loop.call_soon(fin)
        return f.__await__()


def transfer(v):
    """objects travel between processes by value"""
    if isinstance(v, (type(None), str, int, float, bool)):
        return v
    try:
        return pickle.loads(pickle.dumps(v))
    except Exception:
        return copy.copy(v)


class Cluster:
    def __init__(self, cpus, gpus, seed, deadline=None):
        self.cv = threading.Condition()
        self.free = {"CPU": float(cpus), "GPU": float(gpus)}
        self.total = dict(self.free)
        self.rng = random.Random(seed)
        self.deadline = deadline
        self.running = 0  # tasks and actor calls not finished
        self.local = threading.local()
        self.crashes = 0
        self.drivers = {threading.get_ident()}
        self.peak = 0.0

    def take(self, req, pool=None):
        """wait until req fits in pool (the cluster's free resources, or a placement group's)"""
        with self.cv:
            while True:
                p = self.free if pool is None else pool.free
                if pool is not None and pool.removed:
                    raise WorkerCrashedError("placement group was removed")
                if (pool is None or pool.ready) and all(p.get(k, 0) >= v for k, v in req.items()):
                    break
                self.cv.wait()
            for k, v in req.items():
                p[k] -= v
            if pool is None:
                self.peak = max(self.peak, self.total["GPU"] - self.free["GPU"])

    def give(self, req, pool=None):
        with self.cv:
            p = self.free if pool is None or pool.removed else pool.free
            for k, v in req.items():
                p[k] += v
            self.cv.notify_all()

    def idle(self, timeout):
        end = time.monotonic() + timeout
        with self.cv:
            while self.running and time.monotonic() < end:
                self.cv.wait(end - time.monotonic())
            return not self.running


def init_cluster(*a, **k):
    global C
    C = Cluster(*a, **k)
    return C


class atomic:
    """Work of another process: nothing in this one can interleave with it."""

    def __enter__(self):
        self.t = kernel._cur()[1]
        if self.t is not None:
            self.t.nopreempt += 1

    def __exit__(self, *a):
        if self.t is not None:
            self.t.nopreempt -= 1


def die():
    """The worker process running the current task or actor ends here."""
    w = C.local.worker
    C.crashes += 1
    w["died"] = True
    with C.cv:
        C.cv.notify_all()
    t = kernel._cur()[1]
    t.nopreempt = 0
    never = threading.Condition()
    with never:
        while True:
            never.wait()


def worker(fn):
    """Run fn in a worker process. -> ('ok', v) | ('exc', e) | ('died', None)"""
    w = {"died": False, "out": None, "held": None}
    parent = getattr(C.local, "held", None)

    def body():
        C.local.worker = w
        C.local.held = parent
        try:
            with atomic():
                w["out"] = ("ok", fn())
        except Exception as e:  # noqa: BLE001
            w["out"] = ("exc", e)
        with C.cv:
            C.cv.notify_all()

    threading.Thread(target=body, daemon=True).start()
    with C.cv:
        while not w["died"] and w["out"] is None:
            C.cv.wait()
    return w["out"] if w["out"] is not None else ("died", None)


def deps(a, k):
    return [x for x in list(a) + list(k.values()) if isinstance(x, ObjectRef)]


def resolve(a, k):
    for r in deps(a, k):
        with C.cv:
            while not r.done:
                C.cv.wait()
        if r.error is not None:
            return None, None, r.error
    f = lambda x: transfer(x.value) if isinstance(x, ObjectRef) else x  # noqa: E731
    return [f(x) for x in a], {n: f(x) for n, x in k.items()}, None


class RemoteFunction:
    def __init__(self, fn, **opts):
        self.fn, self.opts = fn, opts
        functools.update_wrapper(self, fn)

    def options(self, **o):
        return RemoteFunction(self.fn, **dict(self.opts, **o))

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly.")

    def remote(self, *a, **k):
        ref = ObjectRef()
        a = [x if isinstance(x, ObjectRef) else C_arg(x) for x in a]
        with C.cv:
            C.running += 1
        threading.Thread(target=self._task, args=(ref, a, k), daemon=True).start()
        return ref

    def _task(self, ref, a, k):
        try:
            aa, kk, err = resolve(a, k)
            if err is not None:
                ref.complete(error=err)
                return
            o = self.opts
            req = {"CPU": float(o.get("num_cpus", 1)), "GPU": float(o.get("num_gpus", 0) or 0)}
            strat = o.get("scheduling_strategy")
            pool = strat.placement_group if strat is not None else None
            left = o.get("max_retries", 3)
            retry = tuple(o.get("retry_exceptions") or ())
            while True:
                try:
                    C.take(req, pool)
                except WorkerCrashedError as e:
                    ref.complete(error=e)
                    return
                C.local.held = (req, pool)
                try:
                    what, v = worker(lambda: self.fn(*aa, **kk))
                finally:
                    C.local.held = None
                    C.give(req, pool)
                if what == "ok":
                    ref.complete(value=v)
                    return
                if left != 0 and (what == "died" or (retry and isinstance(v, retry))):
                    left -= 1
                    continue
                if what == "died":
                    ref.complete(error=WorkerCrashedError("the worker died"))
                else:
                    e = RayTaskError("%s: %s" % (type(v).__name__, v))
                    e.__cause__ = v
                    ref.complete(error=e)
                return
        finally:
            with C.cv:
                C.running -= 1
                C.cv.notify_all()


def C_arg(x):
    try:
        import numpy as np

        return x.copy() if isinstance(x, np.ndarray) else x
    except ImportError:
        return x


class SimLoop(asyncio.base_events.BaseEventLoop):
    """An event loop on the simulated clock."""

    def __init__(self):
        super().__init__()
        self._cv2 = threading.Condition()
        self._woken = False
        self._selector = self

    def select(self, timeout):
        with self._cv2:
            if not self._woken and (timeout is None or timeout > 0):
                self._cv2.wait(timeout)
            self._woken = False
        return []

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        with self._cv2:
            self._woken = True
            self._cv2.notify_all()


class ActorMethod:
    def __init__(self, actor, name):
        self.actor, self.name = actor, name

    def remote(self, *a, **k):
        return self.actor._call(self.name, [C_arg(x) for x in a], k)


class ActorHandle:
    def __init__(self, cls, a, k, opts):
        self._queue = []
        self._dead = None
        self._cls, self._opts = cls, opts
        self._async = any(inspect.iscoroutinefunction(f) for _, f in inspect.getmembers(cls))
        self._loop = None
        # references in the arguments are resolved; everything else travels by reference (read-only)
        threading.Thread(target=self._main, args=(a, k), daemon=True).start()

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return ActorMethod(self, name)

    def _call(self, name, a, k):
        ref = ObjectRef()
        with C.cv:
            if self._dead:
                ref.value, ref.error, ref.done = None, self._dead, True
                return ref
            background = name == "process_queue"
            C.running += not background
            self._queue.append((ref, name, a, k, background))
            C.cv.notify_all()
        if self._loop is not None:
            self._loop.call_soon_threadsafe(self._pump)
        return ref

    def _fin(self, ref, background, **kw):
        with C.cv:
            C.running -= not background
        ref.complete(**kw)

    def _main(self, a, k):
        req = {"CPU": float(self._opts.get("num_cpus", 0)), "GPU": float(self._opts.get("num_gpus", 0) or 0)}
        C.take(req)
        what, inst = worker(lambda: self._cls(*a, **k))
        if what != "ok":
            self._kill(RayActorError("the actor died in its constructor: %r" % (inst,)))
            C.give(req)
            return
        if self._async:
            self._inst = inst
            loop = SimLoop()
            loop.call_soon(self._pump)
            self._loop = loop
            try:
                asyncio.set_event_loop(loop)
                loop.run_forever()
            finally:
                self._kill(RayActorError("event loop ended"))
            return
        while True:
            with C.cv:
                while not self._queue:
                    C.cv.wait()
                ref, name, aa, kk, bg = self._queue.pop(0)
            ra, rk, err = resolve(aa, kk)
            if err is not None:
                self._fin(ref, bg, error=err)
                continue
            C.local.held = None
            what, v = worker(lambda: getattr(inst, name)(*ra, **rk))
            if what == "ok":
                self._fin(ref, bg, value=v)
            elif what == "exc":
                e = RayTaskError("%s: %s" % (type(v).__name__, v))
                e.__cause__ = v
                self._fin(ref, bg, error=e)
            else:
                C.give(req)
                self._kill(RayActorError("the actor died"), (ref, bg))
                return

    def _pump(self):
        with C.cv:
            q, self._queue = self._queue, []
        for ref, name, a, k, bg in q:
            self._loop.create_task(self._coro(ref, name, a, k, bg))

    async def _coro(self, ref, name, a, k, bg):
        try:
            for r in deps(a, k):
                await r
            ra, rk, err = resolve(a, k)
            v = await getattr(self._inst, name)(*ra, **rk)
        except Exception as e:  # noqa: BLE001
            x = RayTaskError("%s: %s" % (type(e).__name__, e))
            x.__cause__ = e
            self._fin(ref, bg, error=x)
            return
        self._fin(ref, bg, value=v)

    def _kill(self, err, cur=None):
        with C.cv:
            self._dead = err
            q, self._queue = self._queue, []
        for ref, bg in ([cur] if cur else []) + [(x[0], x[4]) for x in q]:
            self._fin(ref, bg, error=err)


class RemoteClass:
    def __init__(self, cls, **opts):
        self.cls, self.opts = cls, opts

    def options(self, **o):
        return RemoteClass(self.cls, **dict(self.opts, **o))

    def remote(self, *a, **k):
        return ActorHandle(self.cls, a, k, self.opts)


def remote(*args, **opts):
    def wrap(x):
        return RemoteClass(x, **opts) if isinstance(x, type) else RemoteFunction(x, **opts)

    if args and not opts:
        return wrap(args[0])
    return wrap


def _limit(left):
    """what a driver may wait at most"""
    if threading.get_ident() in C.drivers and C.deadline is not None:
        x = C.deadline - time.monotonic()
        left = x if left is None else min(left, x)
        if x <= 0:
            raise Stalled()
    return left


def _wait_done(r, timeout=None):
    """with C.cv held"""
    end = None if timeout is None else time.monotonic() + timeout
    while not r.done:
        left = None if end is None else end - time.monotonic()
        if left is not None and left <= 0:
            return False
        C.cv.wait(_limit(left))
    return True


def get(refs, timeout=None):
    one = isinstance(refs, ObjectRef)
    held = getattr(C.local, "held", None)
    if held is not None:
        C.give({"CPU": held[0]["CPU"]}, held[1])
    try:
        rs = [refs] if one else list(refs)
        for r in rs:
            if not isinstance(r, ObjectRef):
                raise ValueError("Invalid type of object refs: %r" % (r,))
        with C.cv:
            for r in rs:
                if not _wait_done(r, timeout):
                    raise TimeoutError("Get timed out")
                if r.error is not None:
                    break
    finally:
        if held is not None:
            C.take({"CPU": held[0]["CPU"]}, held[1])
    out = [r.result() for r in rs]
    return out[0] if one else out


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    refs = list(refs)
    if len(set(map(id, refs))) != len(refs):
        raise ValueError("Wait requires a list of unique object refs.")
    if not refs:
        return [], []
    if num_returns <= 0 or num_returns > len(refs):
        raise ValueError("Invalid number of objects to return %d." % num_returns)
    end = None if timeout is None else time.monotonic() + timeout
    with C.cv:
        while sum(r.done for r in refs) < num_returns:
            left = None if end is None else end - time.monotonic()
            if left is not None and left <= 0:
                break
            C.cv.wait(_limit(left))
        done = [r for r in refs if r.done]
    pick = set(map(id, C.rng.sample(done, min(num_returns, len(done)))))
    return [r for r in refs if id(r) in pick], [r for r in refs if id(r) not in pick]


def put(v):
    r = ObjectRef()
    r.complete(value=v)
    return r


class ActorPool:
    """ray.util.ActorPool, after its published implementation"""

    def __init__(self, actors):
        self._idle_actors = list(actors)
        self._future_to_actor = {}
        self._index_to_future = {}
        self._next_task_index = 0
        self._next_return_index = 0
        self._pending_submits = []

    def map(self, fn, values):
        while self.has_next():
            try:
                self.get_next(timeout=0, ignore_if_timedout=True)
            except TimeoutError:
                pass
        for v in values:
            self.submit(fn, v)

        def gen():
            while self.has_next():
                yield self.get_next()

        return gen()

    def map_unordered(self, fn, values):
        while self.has_next():
            try:
                self.get_next_unordered(timeout=0)
            except TimeoutError:
                pass
        for v in values:
            self.submit(fn, v)

        def gen():
            while self.has_next():
                yield self.get_next_unordered()

        return gen()

    def submit(self, fn, value):
        if self._idle_actors:
            actor = self._idle_actors.pop()
            future = fn(actor, value)
            self._future_to_actor[future] = (self._next_task_index, actor)
            self._index_to_future[self._next_task_index] = future
            self._next_task_index += 1
        else:
            self._pending_submits.append((fn, value))

    def has_next(self):
        return bool(self._future_to_actor)

    def has_free(self):
        return len(self._idle_actors) > 0 and len(self._pending_submits) == 0

    def pop_idle(self):
        return self._idle_actors.pop() if self.has_free() else None

    def push(self, actor):
        self._return_actor(actor)

    def get_next(self, timeout=None, ignore_if_timedout=False):
        if not self.has_next():
            raise StopIteration("No more results to get")
        if self._next_return_index >= self._next_task_index:
            raise ValueError("It is not allowed to call get_next() after get_next_unordered().")
        future = self._index_to_future[self._next_return_index]
        late = False
        if timeout is not None:
            res, _ = wait([future], timeout=timeout)
            if not res:
                if not ignore_if_timedout:
                    raise TimeoutError("Timed out waiting for result")
                late = True
        else:
            with C.cv:
                _wait_done(future)
        del self._index_to_future[self._next_return_index]
        self._next_return_index += 1
        _, a = self._future_to_actor.pop(future)
        self._return_actor(a)
        if late:
            raise TimeoutError("Timed out waiting for result. The task has been ignored.")
        return get(future)

    def get_next_unordered(self, timeout=None, ignore_if_timedout=False):
        if not self.has_next():
            raise StopIteration("No more results to get")
        res, _ = wait(list(self._future_to_actor), num_returns=1, timeout=timeout)
        if not res:
            raise TimeoutError("Timed out waiting for result")
        future = res[0]
        i, a = self._future_to_actor.pop(future)
        self._return_actor(a)
        del self._index_to_future[i]
        self._next_return_index = max(self._next_return_index, i + 1)
        return get(future)

    def _return_actor(self, actor):
        self._idle_actors.append(actor)
        if self._pending_submits:
            self.submit(*self._pending_submits.pop(0))


class PlacementGroup:
    def __init__(self, bundles):
        self.req = {}
        for b in bundles:
            for k, v in b.items():
                self.req[k] = self.req.get(k, 0.0) + v
        self.free = {"CPU": 0.0, "GPU": 0.0}
        self.ready = self.removed = False
        threading.Thread(target=self._reserve, daemon=True).start()

    def _reserve(self):
        C.take(self.req)
        with C.cv:
            if self.removed:
                pass
            else:
                for k, v in self.req.items():
                    self.free[k] = self.free.get(k, 0.0) + v
                self.ready = True
                C.cv.notify_all()
                return
        C.give(self.req)


def placement_group(bundles, strategy="PACK", **kw):
    return PlacementGroup(bundles)


def remove_placement_group(pg):
    with C.cv:
        if pg.removed:
            return
        pg.removed = True
        if pg.ready:
            for k, v in pg.free.items():
                C.free[k] += v
        C.cv.notify_all()


class PlacementGroupSchedulingStrategy:
    def __init__(self, placement_group, **kw):
        self.placement_group = placement_group


def nothing(*a, **k):
    return None


def install(simple_evaluate, fmin2):
    """put the simulated packages into sys.modules"""
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m

    ray = mod("ray", remote=remote, get=get, wait=wait, put=put, ObjectRef=ObjectRef, init=nothing, shutdown=nothing, is_initialized=lambda: True,
              kill=nothing, cancel=nothing)
    ray.__path__ = []
    u = mod("ray.util", ActorPool=ActorPool, placement_group=placement_group, remove_placement_group=remove_placement_group)
    u.__path__ = []
    mod("ray.util.queue")
    mod("ray.util.scheduling_strategies", PlacementGroupSchedulingStrategy=PlacementGroupSchedulingStrategy)
    mod("ray.exceptions", RayError=RayError, RayTaskError=RayTaskError, WorkerCrashedError=WorkerCrashedError, RayActorError=RayActorError, GetTimeoutError=TimeoutError)

    class TaskManager:
        def __init__(self, include_path=None, **kw):
            pass

    class HFLM:
        def __init__(self, pretrained=None, **kw):
            self.model = pretrained

    class LM:
        pass

    class VLLM:
        pass

    class Task:
        def download(self, *a, **k):
            pass

    class ConfigurableTask(Task):
        def download(self, *a, **k):
            pass

    l = mod("lm_eval", simple_evaluate=simple_evaluate)
    l.__path__ = []
    mod("lm_eval.tasks", TaskManager=TaskManager)
    mod("lm_eval.api").__path__ = []
    mod("lm_eval.api.model", LM=LM)
    mod("lm_eval.api.task", Task=Task, ConfigurableTask=ConfigurableTask)
    mod("lm_eval.api.metrics")
    mod("lm_eval.models").__path__ = []
    mod("lm_eval.models.huggingface", HFLM=HFLM)
    mod("lm_eval.models.vllm_causallms", VLLM=VLLM)

    class CMAEvolutionStrategy:
        pass

    mod("cma", fmin2=fmin2, CMAEvolutionStrategy=CMAEvolutionStrategy)
