"""A simulated `ray`: one process, discrete-event time, every delay and failure drawn from Choices.

Modelled: actors (placement by resources, boot, constructor, FIFO method queue, termination when the last handle
is dropped or on kill), plain remote functions, put/get/wait/kill/init/shutdown, the object store (arguments and
results are pickled with protocol 5; arrays come back read-only, as from ray), worker environment variables.
Faults: process crash (booting, idle, mid-task), boot failure, task error before the code runs, error raised
inside the task code (by `inject`), stall for ever, lost result object.
"""
import heapq
import os
import pickle
import sys
import types

from . import simclock
from .core import HarnessError, Violation

cluster = None          # the active Cluster, one per simulated run


class RayError(Exception):
    pass


class RayActorError(RayError):
    pass


class ActorDiedError(RayActorError):
    pass


class ActorUnavailableError(RayActorError):
    pass


class WorkerCrashedError(RayError):
    pass


class ObjectLostError(RayError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


class TaskCancelledError(RayError):
    pass


class RayTaskError(RayError):
    def __init__(self, cause_text, cause=None):
        super().__init__(cause_text)
        self.cause = cause


def _task_error(exc):
    try:
        cls = type("RayTaskError(%s)" % type(exc).__name__, (RayTaskError, type(exc)), {
            "__init__": lambda self, t, c: (Exception.__init__(self, t), setattr(self, "cause", c))[0]})
        return cls(repr(exc), exc)
    except Exception:
        return RayTaskError(repr(exc), exc)


def _ser(obj):
    bufs = []
    try:
        data = pickle.dumps(obj, protocol=5, buffer_callback=bufs.append)
    except (pickle.PicklingError, AttributeError, TypeError):
        import cloudpickle
        bufs = []
        data = cloudpickle.dumps(obj, protocol=5, buffer_callback=bufs.append)
    return data, [bytes(b.raw()) for b in bufs]


def _de(s):
    return pickle.loads(s[0], buffers=s[1])


class ObjectRef:
    _n = 0

    def __init__(self):
        ObjectRef._n += 1
        self.id = ObjectRef._n

    def __hash__(self):
        return hash(self.id)

    def __eq__(self, o):
        return isinstance(o, ObjectRef) and o.id == self.id

    def __repr__(self):
        return f"ObjectRef({self.id})"

    def hex(self):
        return f"{self.id:032x}"

    def __reduce__(self):
        return (_ref_by_id, (self.id,))


def _ref_by_id(i):
    r = ObjectRef.__new__(ObjectRef)
    r.id = i
    return r


class _Arg:
    """Placeholder for a top-level ObjectRef argument."""

    def __init__(self, i):
        self.i = i


class _Task:
    def __init__(self, tid, ref, name, payload):
        self.tid, self.ref, self.name, self.payload = tid, ref, name, payload
        self.tags = set()


class _Actor:
    def __init__(self, aid, cls, ctor, cpus, gpus, epoch):
        self.aid, self.cls, self.ctor, self.cpus, self.gpus = aid, cls, ctor, cpus, gpus
        self.state = "pending"       # pending booting ready dead
        self.queue = []
        self.running = None
        self.inst = None
        self.overlay = None
        self.held = False
        self.in_scope = True
        self.epoch = epoch
        self.booted_at = None


class ActorHandle:
    def __init__(self, aid, cl):
        self.__dict__["_aid"] = aid
        self.__dict__["_cl"] = cl

    def __getattr__(self, name):
        if name.startswith("__") and name not in ("__ray_terminate__", "__ray_ready__"):
            raise AttributeError(name)
        return _Method(self, name)

    def __del__(self):
        cl = self.__dict__.get("_cl")
        if cl is not None and cl is cluster:
            cl.handle_dropped(self.__dict__["_aid"])


class _Method:
    def __init__(self, handle, name):
        self.h, self.name = handle, name

    def remote(self, *a, **k):
        return self.h._cl.submit(self.h._aid, self.name, a, k)

    def options(self, **_):
        return self


class ActorClass:
    def __init__(self, cls, opts):
        self._cls, self._opts = cls, dict(opts)
        self.__name__ = cls.__name__
        self.__doc__ = cls.__doc__

    def options(self, **o):
        d = dict(self._opts)
        d.update(o)
        return ActorClass(self._cls, d)

    def remote(self, *a, **k):
        return _need().create(self._cls, self._opts, a, k)

    def __call__(self, *a, **k):
        raise TypeError("Actors cannot be instantiated directly.")


class RemoteFunction:
    def __init__(self, fn, opts):
        self._fn, self._opts = fn, dict(opts)
        self.__name__ = fn.__name__

    def options(self, **o):
        d = dict(self._opts)
        d.update(o)
        return RemoteFunction(self._fn, d)

    def remote(self, *a, **k):
        cl = _need()
        fn = self._fn
        holder = type(fn.__name__, (), {"call": staticmethod(fn)})
        h = cl.create(holder, dict({"num_cpus": 1}, **self._opts), (), {})
        return h.call.remote(*a, **k)

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly.")


def remote(*args, **opts):
    def deco(x):
        return ActorClass(x, opts) if isinstance(x, type) else RemoteFunction(x, opts)
    if args and not opts and len(args) == 1:
        return deco(args[0])
    return deco


def _need():
    if cluster is None:
        raise HarnessError("ray used outside a simulated run")
    if not cluster.up:
        cluster.init()
    return cluster


class Cluster:
    """The simulated cluster of one run.

    cfg keys: boot=(lo,hi) seconds, dur=(lo,hi) seconds, p (fault probability per opportunity), kinds (set of
    fault kinds allowed), budget (max faults), max_events, max_time.
    """

    def __init__(self, run, cfg):
        self.run, self.ch = run, run.ch
        self.cfg = dict(boot=(0.05, 3.0), dur=(0.005, 1.0), p=0.0, kinds=(), budget=0,
                        max_events=20000, max_time=1e7, call_cost=2e-5, lazy=0.02)
        self.cfg.update(cfg)
        self.cpus = self.cfg.get("cpu_count")
        self.now = 0.0
        self.heap = []
        self.seq = 0
        self.up = False
        self.epoch = 0
        self.actors = {}
        self.store = {}
        self.errs = {}
        self.ncreated = 0
        self.ntasks = 0
        self.free = {}
        self.total = {}
        self.worker = None          # (actor, task, t0, dur) while worker code runs
        self.extra = 0.0
        self.last_fault = 0.0
        self.nfaults = 0
        self.failed_limit = None
        self.driver_env = None
        self.inits = 0
        self.runtime_env = {}
        self.nevents = 0
        self.ncalls = 0
        self.max_alive = 0
        self.limit_hits = 0
        self.barren = 0         # tasks in a row that did no work
        self.nsteps = 0         # cluster events
        self.nacts = 0          # calls of the driver other than polling
        self.idle = (0, -1)     # polls in a row that saw nothing happen, and the state they saw

    # ---------------------------------------------------------------- clock
    def clock(self, tick=True):
        if tick:
            self.now_tick()
        return self.now + self.extra

    def now_tick(self):
        if self.worker is not None:
            self.extra += 1e-4
        else:
            self.now += 1e-6

    def sleep(self, dt):
        if self.worker is not None:
            self.extra += max(0.0, dt)
        else:
            self._limit()
            self.advance(self.now + max(0.0, dt))

    def _limit(self):
        if self.failed_limit is None and self.worker is None and (
                self.nevents > self.cfg["max_events"] or self.now > self.cfg["max_time"]):
            self.failed_limit = ("no_progress", f"not finished after {self.nevents} simulated events, "
                                 f"{self.now:.0f} simulated seconds "
                                 f"({self.now - self.last_fault:.0f} s after the last fault)")
        if self.failed_limit is not None:
            self.limit_hits += 1
            raise Violation(*self.failed_limit)
        self.nevents += 1
        if self.worker is None:
            self.ncalls += 1
            if self.cfg.get("interrupt") is not None and self.ncalls == self.cfg["interrupt"]:
                self.fired("interrupt", f"driver call {self.ncalls}")
                raise KeyboardInterrupt("injected")

    def at(self, t, fn, *a):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, fn, a))

    def step(self):
        t, _, fn, a = heapq.heappop(self.heap)
        self.now = max(self.now, t)
        self.nevents += 1
        self.nsteps += 1
        fn(*a)

    def advance(self, t):
        while self.heap and self.heap[0][0] <= t:
            self.step()
        self.now = max(self.now, t)

    def log(self, msg):
        self.run.log(f"{self.now:.6f} {msg}")

    # ---------------------------------------------------------------- faults
    def fault_ok(self, kind):
        if kind == "stall" and self.run.faults.get("stall", 0) >= self.cfg.get("max_stalls", 3):
            return False
        return kind in self.cfg["kinds"] and self.nfaults < self.cfg["budget"]

    def fired(self, kind, detail=""):
        self.nfaults += 1
        self.last_fault = self.now
        self.run.fault(kind, detail)

    def inject(self, kind, label):
        """Called by code seams while worker code runs: should this call fail now?"""
        if self.worker is None or not self.fault_ok(kind):
            return False
        if self.ch.flag(f"{kind}:{label}", self.cfg["p"]):
            self.fired(kind, f"{label} t{self.worker[1].tid}")
            return True
        return False

    # ---------------------------------------------------------------- lifecycle
    def init(self, num_cpus=None, num_gpus=None, runtime_env=None, **_):
        if self.up:
            raise RuntimeError("Maybe you called ray.init twice by accident?")
        self.up = True
        self.inits += 1
        self.epoch += 1
        n = num_cpus if num_cpus is not None else (self.cpus or 8)
        self.total = {"CPU": float(n), "GPU": float(num_gpus or 0)}
        self.free = dict(self.total)
        self.runtime_env = dict((runtime_env or {}).get("env_vars", {}))
        self.now += self.ch.log("init", 0.5, 4.0)
        self.log(f"init cpus={n} gpus={num_gpus}")
        return {"node_ip_address": "127.0.0.1"}

    def shutdown(self):
        if not self.up:
            return
        self.log("shutdown")
        for a in list(self.actors.values()):
            if a.state != "dead":
                a.state = "dead"
                a.inst = None
                a.queue = []
                a.running = None
        self.up = False
        self.heap = []
        self.store = {}
        self.errs = {}

    def alive(self):
        return [a for a in self.actors.values() if a.state != "dead"]

    def create(self, cls, opts, a, k):
        self._limit()
        self.nacts += 1
        self.now += self.cfg["call_cost"]
        self.ncreated += 1
        act = _Actor(self.ncreated, cls, _ser((a, k)), float(opts.get("num_cpus", 1) or 0),
                     float(opts.get("num_gpus", 0) or 0), self.epoch)
        self.actors[act.aid] = act
        self.log(f"create A{act.aid}:{cls.__name__} cpu={act.cpus:.4f} gpu={act.gpus:.4f}")
        self.run.probe("actors_created")
        self.place()
        return ActorHandle(act.aid, self)

    def place(self):
        eps = 1e-4
        for a in self.actors.values():
            if a.state == "pending" and a.cpus <= self.free["CPU"] + eps and a.gpus <= self.free["GPU"] + eps:
                self.free["CPU"] -= a.cpus
                self.free["GPU"] -= a.gpus
                a.held = True
                a.state = "booting"
                d = self.ch.log("boot", *self.cfg["boot"])
                self.at(self.now + d, self.boot, a)
        n = sum(1 for a in self.actors.values() if a.held)
        self.max_alive = max(self.max_alive, n)

    def boot(self, a):
        if a.state != "booting":
            return
        if self.fault_ok("boot_crash") and self.ch.flag("boot_crash", self.cfg["p"]):
            self.fired("boot_crash", f"A{a.aid}")
            self.die(a, "crashed while starting")
            return
        try:
            args, kw = _de(a.ctor)
            a.inst = self.in_worker(a, _Task(0, None, "__init__", None), lambda: a.cls(*args, **kw))
        except (Violation, HarnessError):
            raise
        except Exception as e:
            self.log(f"A{a.aid} constructor raised {type(e).__name__}")
            self.die(a, f"constructor raised {e!r}")
            return
        a.state = "ready"
        a.booted_at = self.now
        self.log(f"ready A{a.aid}")
        self.run.order.append(("r", a.aid))
        if self.fault_ok("crash") and self.ch.flag("life", self.cfg["p"]):
            self.at(self.now + self.ch.log("life.t", 0.001, 100.0), self.crash, a)
        self.next_task(a)

    def crash(self, a):
        if a.state == "dead" or a.epoch != self.epoch or not self.up:
            return
        self.fired("crash", f"A{a.aid} " + (f"task t{a.running.tid}" if a.running else "idle"))
        if a.running is None:
            self.run.probe("crash_idle")
        else:
            self.run.probe("crash_busy")
        self.die(a, "worker process crashed")

    def die(self, a, why):
        if a.state == "dead":
            return
        a.state = "dead"
        a.inst = None
        if a.held:
            self.free["CPU"] += a.cpus
            self.free["GPU"] += a.gpus
            a.held = False
        lost = ([a.running] if a.running else []) + a.queue
        a.running, a.queue = None, []
        for t in lost:
            self.finish_err(t, ActorDiedError(f"The actor died unexpectedly before finishing this task: {why}"))
        self.log(f"dead A{a.aid} ({why})")
        self.run.order.append(("d", a.aid))
        if self.up:
            self.place()

    def handle_dropped(self, aid):
        a = self.actors.get(aid)
        if a is None or not a.in_scope:
            return
        a.in_scope = False
        if a.state in ("pending",) and not a.queue:
            a.state = "dead"
        elif a.state == "ready" and a.running is None and not a.queue:
            # asynchronous in ray; the process goes away a little later
            self.at(self.now + 0.01, self.die_scope, a)

    def die_scope(self, a):
        if a.state != "dead":
            self.die(a, "handle out of scope")

    # ---------------------------------------------------------------- tasks
    def submit(self, aid, name, a, k):
        self._limit()
        self.nacts += 1
        self.now += self.cfg["call_cost"]
        self.ntasks += 1
        ref = ObjectRef()
        act = self.actors[aid]
        aa = tuple(_Arg(x.id) if isinstance(x, ObjectRef) else x for x in a)
        kk = {n: (_Arg(x.id) if isinstance(x, ObjectRef) else x) for n, x in k.items()}
        t = _Task(self.ntasks, ref, name, _ser((aa, kk)))
        t.keep = [x for x in list(a) + list(k.values()) if isinstance(x, ObjectRef)]
        self.log(f"submit t{t.tid} A{aid}.{name}")
        if act.epoch != self.epoch:
            raise RayActorError("actor belongs to another session")
        if act.state == "dead":
            self.finish_err(t, ActorDiedError("The actor is dead."))
        else:
            act.queue.append(t)
            if act.state == "ready":
                self.next_task(act)
        return ref

    def next_task(self, a):
        if a.state != "ready" or a.running is not None:
            return
        if not a.queue:
            if not a.in_scope:
                self.die(a, "handle out of scope")
            return
        t = a.queue.pop(0)
        a.running = t
        # start after a small dispatch latency
        self.at(self.now + self.ch.log("dispatch", 0.0005, 0.05), self.start, a, t)

    def start(self, a, t):
        if a.state != "ready" or a.running is not t:
            return
        self.log(f"start t{t.tid} A{a.aid}")
        self.run.order.append(("s", a.aid))
        p = self.cfg["p"]
        if self.fault_ok("task_error") and self.ch.flag("task_error", p):
            self.fired("task_error", f"t{t.tid}")
            self.at(self.now + 0.001, self.end, a, t, None, RayTaskError("injected: arguments could not be fetched"))
            return
        d = self.ch.log("dur", *self.cfg["dur"])
        try:
            args, kw = _de(t.payload)
            args = tuple(self.value(x.i) if isinstance(x, _Arg) else x for x in args)
            kw = {n: (self.value(x.i) if isinstance(x, _Arg) else x) for n, x in kw.items()}
            fn = getattr(a.inst, t.name)
            out, err = None, None
            try:
                out = self.in_worker(a, t, lambda: fn(*args, **kw))
            except (Violation, HarnessError):
                raise
            except Exception as e:
                err = _task_error(e)
        except RayError as e:
            out, err = None, e
        if "work" not in t.tags:        # no band detection or indexing in this task
            d = min(d, 0.002)
            self.barren += 1
            if self.barren > 1000:      # nothing but idle tasks for a long time: the idle workers get slower
                d = min(5.0, 0.002 * 2 ** ((self.barren - 1000) // 100))
        else:
            self.barren = 0
        d += self.extra
        self.extra = 0.0
        if err is None:
            out = _ser(out)
        if self.fault_ok("crash") and self.ch.flag("crash_mid", p):
            self.at(self.now + d * self.ch.pick("crash_mid.f", [0.5, 0.0, 0.1, 0.99]), self.crash, a)
        elif "stallable" in t.tags and self.fault_ok("stall") and self.ch.flag("stall", p):
            self.fired("stall", f"t{t.tid} A{a.aid}")
            return                       # never ends, until killed
        self.at(self.now + d, self.end, a, t, out, err)

    def in_worker(self, a, t, fn):
        if self.worker is not None:
            raise HarnessError("nested worker execution")
        env = os.environ
        snap = env._data.copy()
        if a.overlay is None:
            a.overlay = dict(self.runtime_env)
        for k, v in a.overlay.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        used = env._data.copy() if a.overlay else snap
        self.worker = (a, t)
        self.extra = 0.0
        try:
            return fn()
        finally:
            self.worker = None
            if env._data != used:            # the worker changed its own environment: keep that for its next task
                for k in set(env._data) | set(used):
                    if env._data.get(k) != used.get(k):
                        a.overlay[env.decodekey(k)] = (env.decodevalue(env._data[k]) if k in env._data else None)
            if env._data != snap:            # and give the driver's back
                for k in set(env._data) | set(snap):
                    if env._data.get(k) != snap.get(k):
                        if k in snap:
                            env[env.decodekey(k)] = env.decodevalue(snap[k])
                        else:
                            del env[env.decodekey(k)]

    def end(self, a, t, out, err):
        if a.state != "ready" or a.running is not t:
            return
        a.running = None
        if err is not None:
            self.finish_err(t, err)
        elif self.fault_ok("lost") and self.ch.flag("lost", self.cfg["p"]):
            self.fired("lost", f"t{t.tid}")
            self.finish_err(t, ObjectLostError("injected: the object is lost"))
        else:
            self.store[t.ref.id] = out
        self.log(f"end t{t.tid} A{a.aid}" + (" error" if err is not None else ""))
        self.run.order.append(("e", a.aid))
        self.next_task(a)

    def finish_err(self, t, err):
        self.errs[t.ref.id] = err

    # ---------------------------------------------------------------- objects
    def value(self, i):
        if i in self.errs:
            raise self.errs[i]
        if i not in self.store:
            raise HarnessError("argument reference is not ready (task dependencies are not modelled)")
        return _de(self.store[i])

    def ready(self, r):
        return r.id in self.store or r.id in self.errs

    def pause(self):
        if self.ch.flag("driver_pause", self.cfg["lazy"]):
            self.advance(self.now + self.ch.log("driver_pause.t", 0.01, 5.0))

    def put(self, obj):
        if isinstance(obj, ObjectRef):
            raise TypeError("Calling 'put' on an ray.ObjectRef is not allowed.")
        self._limit()
        self.nacts += 1
        self.now += self.cfg["call_cost"]
        r = ObjectRef()
        self.store[r.id] = _ser(obj)
        return r

    def get(self, refs, timeout=None):
        self._limit()
        self.now += self.cfg["call_cost"]
        if isinstance(refs, list):
            return [self.get(r, timeout=timeout) for r in refs]
        if not isinstance(refs, ObjectRef):
            raise ValueError(f"Invalid type of object refs, {type(refs)}, is given.")
        end = None if timeout is None else self.now + timeout
        while not self.ready(refs):
            if self.heap and (end is None or self.heap[0][0] <= end):
                self.step()
                self._limit()
            elif end is not None:
                self.now = end
                raise GetTimeoutError("Get timed out")
            else:
                self.deadlock(f"get({refs})")
        if refs.id in self.errs:
            raise self.errs[refs.id]
        return _de(self.store[refs.id])

    def deadlock(self, what):
        self.failed_limit = ("deadlock", f"{what} can never complete: nothing is running or will run")
        self._limit()

    def wait(self, refs, num_returns=1, timeout=None, fetch_local=True):
        if not isinstance(refs, list):
            raise TypeError(f"wait() expected a list of ray.ObjectRef, got {type(refs)}")
        if timeout is not None and timeout < 0:
            raise ValueError("The 'timeout' argument must be nonnegative.")
        for r in refs:
            if not isinstance(r, ObjectRef):
                raise TypeError("wait() expected a list of ray.ObjectRef")
        self._limit()
        self.now += self.cfg["call_cost"]
        mark = (self.nsteps, self.nacts)
        idle = self.idle[0] + 1 if self.idle[1] == mark else 0
        self.idle = (idle, mark)
        calm = 200 if self.barren <= 1000 else 20
        if idle <= calm:
            self.pause()
        if len(refs) == 0:
            return [], []
        if len(refs) != len(set(refs)):
            raise ValueError("Wait requires a list of unique ray_waitables.")
        if num_returns <= 0:
            raise ValueError("Invalid number of objects to return %d." % num_returns)
        if num_returns > len(refs):
            raise ValueError("num_returns cannot be greater than the number of ray_waitables provided to ray.wait.")
        end = None if timeout is None else self.now + int(timeout * 1000) / 1000.0
        while True:
            done = [r for r in refs if self.ready(r)]
            if len(done) >= num_returns:
                break
            if self.heap and (end is None or self.heap[0][0] <= end):
                self.step()
                self._limit()
            elif end is not None:
                # a driver that polls and polls while nothing happens is descheduled for longer and longer
                late = 0.0 if idle <= calm else 1.0 if idle <= 2000 else 10.0 if idle <= 5000 else 100.0
                if late and self.heap:
                    late = min(late, max(0.0, self.heap[0][0] - end - 1e-3))
                self.now = max(self.now, end + late)
                break
            else:
                self.deadlock("wait")
        done = [r for r in refs if self.ready(r)][:num_returns]
        ds = set(done)
        return done, [r for r in refs if r not in ds]

    def kill(self, h, no_restart=True):
        if not isinstance(h, ActorHandle):
            raise ValueError("ray.kill() only supported for actors.")
        self._limit()
        self.nacts += 1
        self.now += self.cfg["call_cost"]
        a = self.actors[h._aid]
        self.log(f"kill A{a.aid}")
        self.run.probe("kills")
        if a.state in ("pending", "booting"):
            self.run.probe("killed_while_starting")
        elif a.running is not None:
            self.run.probe("killed_while_busy")
        self.at(self.now + self.ch.log("kill.t", 0.0005, 0.05), self.die, a, "killed")


def current_task():
    return cluster.worker[1] if cluster is not None and cluster.worker is not None else None


def tag(name):
    t = current_task()
    if t is not None:
        t.tags.add(name)


def make_module():
    m = types.ModuleType("ray")
    m.__version__ = "2.59.0-sim"
    m.__path__ = []
    m.remote = remote
    m.init = lambda *a, **k: (cluster or _noc()).init(**k)
    m.shutdown = lambda *a, **k: cluster.shutdown() if cluster is not None else None
    m.is_initialized = lambda: bool(cluster is not None and cluster.up)
    m.put = lambda o, **k: _need().put(o)
    m.get = lambda r, timeout=None, **k: _need().get(r, timeout=timeout)
    m.wait = lambda r, **k: _need().wait(r, **k)
    m.kill = lambda h, **k: _need().kill(h, **k)
    m.cluster_resources = lambda: dict(_need().total)
    m.available_resources = lambda: dict(_need().free)
    m.ObjectRef = ObjectRef
    m.method = lambda *a, **k: (a[0] if a and callable(a[0]) else (lambda f: f))
    m.get_gpu_ids = lambda: []
    ex = types.ModuleType("ray.exceptions")
    for c in (RayError, RayActorError, ActorDiedError, ActorUnavailableError, WorkerCrashedError, ObjectLostError,
              GetTimeoutError, RayTaskError, TaskCancelledError):
        setattr(ex, c.__name__, c)
    m.exceptions = ex
    ac = types.ModuleType("ray.actor")
    ac.ActorHandle = ActorHandle
    m.actor = ac
    return m, ex, ac


def _noc():
    raise HarnessError("ray.init outside a simulated run")


def install():
    m, ex, ac = make_module()
    sys.modules["ray"] = m
    sys.modules["ray.exceptions"] = ex
    sys.modules["ray.actor"] = ac
    return m


def begin(run, cfg):
    global cluster
    ObjectRef._n = 0
    cluster = Cluster(run, cfg)
    simclock.active = cluster
    return cluster


def finish():
    global cluster
    c = cluster
    cluster = None
    simclock.active = None
    return c
