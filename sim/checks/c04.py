"""C04: a distributed call leaves nothing behind, whether it returns, raises or is interrupted."""
import copy
import os

import numpy as np

from .. import dist, sci, scratch, simcl, simray
from ..core import HarnessError, Violation

LOAD = dict(ray=True, cl=True)
LEVEL = "exploration"
RUNS = {"quick": 1100, "thorough": 100000}
CPU_LIMIT = 150
RULE = ("a run is a history of 1-3 distributed calls on the same inputs and indexer - undisturbed, with transient "
        "worker failures, with a failure that persists, or interrupted in the driver at a random call to ray, a fifth of the "
        "histories with GPUs - each "
        "followed by checks of the environment, the cluster and the inputs, then one sequential call; non-trivial: at "
        "least two calls or one call that raised; distinct: digest of the event log")
ORDER = "digest of the order of worker-ready / task-start / task-end / worker-death events"
REAL = ["index_pats_distributed, GPUWorker/CPUWorker bodies, EBSDIndexer, band detection (CPU and GPU), triplet voting, "
        "os.environ"]
STUB = ["ray (discrete-event simulation)", "clocks", "os.cpu_count", "pyopencl and the devices, subject to CUDA_VISIBLE_DEVICES"]
ASSUME = []


def prepare():
    dist.prepare()


def prewarm():
    dist.prewarm()


def _snapshot(w):
    s = {"env": dict(os.environ)}
    p = w.call.get("patsin")
    if p is not None:
        a = p.patterns if hasattr(p, "patterns") else p
        s["pats"] = np.array(a)
    if w.file:
        s["file"] = open(w.pf.path, "rb").read()
    if "phaselist" in w.call:
        s["phaselist"] = list(w.call["phaselist"])
    if "PC" in w.call:
        s["PC"] = np.array(w.call["PC"])
    return s


def _compare(a, b, when):
    for k in a:
        if k == "env":
            if a[k] != b[k]:
                d = {x: (a[k].get(x), b[k].get(x)) for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)}
                raise Violation("environment", f"{when}: environment changed: {d}")
        elif isinstance(a[k], np.ndarray):
            if not sci.same(a[k], b[k]):
                raise Violation("inputs", f"{when}: the caller's {k} was modified")
        elif a[k] != b[k]:
            raise Violation("inputs", f"{when}: the caller's {k} was modified")


def run(run):
    from pyebsdindex import ebsd_index
    ch = run.ch
    w = dist.gen(ch, maxn=6)
    t = dist.timing(ch)
    env0 = os.environ.get("CUDA_VISIBLE_DEVICES")
    cuda = ch.pick("CUDA_VISIBLE_DEVICES", [None, "0", "1,2", ""])
    dist.build(w)
    w.cuda = w.gpus is not None and ch.flag("nvidia.env", 0.7)
    if w.cuda and cuda is not None:
        w.call.pop("gpu_id", None)                 # it counts the visible devices
    ncalls = ch.int("ncalls", 1, 3)
    run.case = dict(dist.describe(w), cuda=cuda, ncalls=ncalls)
    raised = 0
    try:
        if cuda is None:
            os.environ.pop("CUDA_VISIBLE_DEVICES", None)
        else:
            os.environ["CUDA_VISIBLE_DEVICES"] = cuda
        either = w.cuda and cuda is not None       # (some of) the devices may be hidden
        for c in range(ncalls):
            mode = ch.pick("mode", ["clean", "transient", "persistent", "interrupt", "storm"], [3, 2, 2, 3, 1])
            f = dict(kinds=set(), p=0.0, budget=0)
            if mode == "transient":
                f = dist.faults(ch, many=False)
            if mode == "storm":
                f = dict(kinds={ch.pick("storm", ["crash", "task_error", "boot_crash"])}, p=1.0, budget=10 ** 9)
            if mode == "interrupt":
                f["interrupt"] = ch.int("interrupt.at", 1, 60)
            if mode == "persistent":
                if ch.flag("persistent.cpu", 0.4):
                    dist._poison_cpu = True
                else:
                    dist._poison = np.array(w.pats[w.span[0]])
            run.log(f"call {c} {mode}")
            before = _snapshot(w)
            d = dist.device_faults(ch, w) if mode == "transient" else {}
            dev = dist.begin_gpu(run, w, **d)
            cl = simray.begin(run, dist.cluster_cfg(w, t, max_time=dist.bounds(w, t, 20) + 2e4, max_events=10 ** 6, **f))
            out = err = None
            try:
                out = dist.call(w)
            except (Violation, HarnessError):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
                raised += 1
                run.log(f"raised {type(e).__name__}")
                run.probe("call_raised_" + mode)
            finally:
                up, alive = cl.up, [a.aid for a in cl.alive()]
                run.simtime += cl.now
                simray.finish()
                dist._poison, dist._poison_cpu = None, False
            dev.verify("the call")
            either = either or dev.nfaults > 0
            when = f"call {c} ({mode}, {'raised ' + type(err).__name__ if err is not None else 'returned'})"
            _compare(before, _snapshot(w), when)
            if up:
                raise Violation("cluster", f"{when}: the cluster is still running with workers {alive}")
            if alive:
                raise Violation("cluster", f"{when}: workers {alive} are still alive")
            if err is None:
                dist.verify(run, w, out, when, either)
            elif mode in ("clean", "transient") and not dev.lost:
                raise Violation("repeat", f"{when}: {err!r}")
        # the same indexer, sequentially
        if "ebsd_indexer_obj" in w.call:
            a = w.call["ebsd_indexer_obj"]
            s, e = w.span
            dist.begin_gpu(run, w)
            got = ebsd_index.index_pats(patsin=w.pats[s:e].copy(), ebsd_indexer_obj=a)
            try:
                dist.verify(run, w, got if not w.ret else got + (a,), "sequential indexing afterwards", w.cuda and cuda is not None)
            except Violation as v:
                raise Violation("repeat", v.msg)
    finally:
        dist.settle(w)
        if env0 is None:
            os.environ.pop("CUDA_VISIBLE_DEVICES", None)
        else:
            os.environ["CUDA_VISIBLE_DEVICES"] = env0
    run.nontrivial = ncalls > 1 or raised > 0


def cleanup():
    dist._poison, dist._poison_cpu = None, False
    simray.finish()
    simcl.end()
    scratch.drop()
