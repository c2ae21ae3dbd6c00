"""C02: worker failures never lose, repeat or misplace a result; a persistent failure raises."""
import numpy as np

from .. import dist, scratch, simcl, simray
from ..core import HarnessError, Violation

LOAD = dict(ray=True, cl=True)
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 150000}
CPU_LIMIT = 150
RULE = ("a run is one distributed indexing call on a simulated cluster with a random subset of fault kinds, a fault "
        "probability per opportunity and a budget of faults, in a fifth of the runs with GPUs whose calls fail or which are lost, "
        "(or one failure that persists on every attempt); "
        "non-trivial: at least one fault fired during the call; distinct: digest of the event log")
ORDER = "digest of the order of worker-ready / task-start / task-end / worker-death events"
REAL = ["index_pats_distributed driver loop, GPUWorker/CPUWorker bodies, EBSDIndexer, band detection, triplet voting, "
        "pattern file readers, with a GPU also opencl.band_detect_cl, openclparam and the kernels"]
STUB = ["ray (discrete-event simulation with crash, boot failure, task error, lost result, stall and out-of-memory "
        "faults)", "clocks", "os.cpu_count", "pyopencl and the devices (sim/simcl.py)"]
ASSUME = ["up to 5 faults in a call must be absorbed; beyond that the call may raise, but never return a wrong result",
          "after a failure of the device a record may be that of the device or that of the CPU; a call on a lost device may raise",
          "a CPU (indexing) worker that hangs without dying is outside the property"]


def prepare():
    dist.prepare()


def prewarm():
    dist.prewarm()


def run(run):
    ch = run.ch
    persist = ch.pick("persistent", [None, "bands", "index", "boot_crash", "task_error", "crash", "lost"],
                      [14, 2, 1, 1, 1, 1, 1])
    w = dist.gen(ch)
    t = dist.timing(ch)
    f = dist.faults(ch)
    if persist in ("bands", "index"):
        if ch.flag("alone", 0.7):
            f["budget"] = 0
    elif persist:
        f = dict(kinds={persist}, p=1.0, budget=10 ** 9)
    d = dist.device_faults(ch, w)
    dist.build(w)
    run.case = dict(dist.describe(w), persistent=persist, kinds=sorted(f["kinds"]), p=f["p"], budget=f["budget"], device=str(d))
    if persist == "bands":
        i = ch.int("poison", w.span[0], w.span[1] - 1)
        dist._poison = np.array(w.pats[i])
    dist._poison_cpu = persist == "index"
    b = f["budget"] if f["budget"] < 100 else 20
    dev = dist.begin_gpu(run, w, **d)
    cl = simray.begin(run, dist.cluster_cfg(w, t, max_time=dist.bounds(w, t, b) + 2e4, max_events=10 ** 6, **f))
    out = err = None
    try:
        out = dist.call(w)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        err = e
        run.log(f"call raised {type(e).__name__}")
    finally:
        run.simtime = cl.now
        simray.finish()
        dist.settle(w)
        dist._poison, dist._poison_cpu = None, False
    dist.probes(run, w, cl)
    nfaults = cl.nfaults + dev.nfaults
    run.nontrivial = nfaults > 0
    dev.verify("the call")
    if err is not None:
        run.probe("call_raised")
        if nfaults <= 5 and not dev.lost:
            raise Violation("gave_up", f"the call raised {err!r} after only {nfaults} fault(s): {run.faults}")
        return
    if persist:
        hit = run.faults.get("persistent", 0) if persist in ("bands", "index") else cl.nfaults
        if hit > 0:
            raise Violation("persistent", f"returned normally although {persist} failed on every attempt")
    dist.verify(run, w, out, f"after {nfaults} fault(s)", either=dev.nfaults > 0)


def cleanup():
    dist._poison, dist._poison_cpu = None, False
    simray.finish()
    simcl.end()
    scratch.drop()
