"""C03: a distributed call finishes once failures stop, however slow workers are and whatever the CPU count."""
from .. import dist, scratch, simcl, simray
from ..core import HarnessError, Violation

LOAD = dict(ray=True, cl=True)
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 60000}
CPU_LIMIT = 150
RULE = ("a run is one distributed indexing call with chunk times up to 500 s and worker start-up times up to 300 s "
        "(simulated), 1-12 CPUs, a fifth with 1-3 GPUs, and at most 5 worker failures; it must return within 60 times the serial cost of the "
        "work plus 4000 s; non-trivial: some chunk or start took longer than 10 s, or a fault fired; distinct: digest of the event log")
ORDER = "digest of the order of worker-ready / task-start / task-end / worker-death events"
REAL = ["index_pats_distributed driver loop, GPUWorker/CPUWorker bodies, EBSDIndexer, band detection (CPU and GPU), triplet voting"]
STUB = ["ray (discrete-event simulation; resources enforced as by ray's scheduler)", "clocks", "os.cpu_count", "pyopencl and the devices (sim/simcl.py)"]
ASSUME = ["bound on simulated time: 60 x (every chunk and every start one after the other) + 4000 s"]


def prepare():
    dist.prepare()


def prewarm():
    dist.prewarm()


def run(run):
    ch = run.ch
    slow = ch.flag("slow", 0.7)
    w = dist.gen(ch, maxn=8, forms=["array", "up1"], allow_start=False)
    t = dist.timing(ch, slow=slow)
    f = dict(kinds=set(), p=0.0, budget=0)
    if ch.flag("faulty", 0.6):
        f = dist.faults(ch, many=False)
    if t["dur"][1] > 200 and w.chunk and w.n / w.chunk > 4:
        w.chunk = max(w.chunk, -(-w.n // 4))
    dist.build(w)
    run.case = dict(dist.describe(w), dur=t["dur"], boot=t["boot"], kinds=sorted(f["kinds"]), budget=f["budget"])
    dev = dist.begin_gpu(run, w)
    lim = dist.bounds(w, t, f["budget"])
    cl = simray.begin(run, dist.cluster_cfg(w, t, max_time=lim, max_events=10 ** 6, **f))
    try:
        out = dist.call(w)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation("gave_up", f"raised {e!r} after {cl.nfaults} fault(s)")
    finally:
        run.simtime = cl.now
        simray.finish()
        dist.settle(w)
    dist.probes(run, w, cl)
    run.nontrivial = cl.nfaults > 0 or t["dur"][1] > 10 or t["boot"][1] > 10
    if cl.now > 2000:
        run.probe("simulated_over_2000s")
    dev.verify("the call")
    if out is None:
        raise Violation("result", "returned None")


def cleanup():
    simray.finish()
    simcl.end()
    scratch.drop()
