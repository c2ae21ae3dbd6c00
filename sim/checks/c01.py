"""C01: distributed indexing == sequential indexing for every worker schedule (no faults)."""
from .. import dist, scratch, simcl, simray

LOAD = dict(ray=True, cl=True)
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 100000}
CPU_LIMIT = 150
RULE = ("a run is one distributed indexing call of a random workload (1-14 patterns, input form, sub-range, chunk "
        "size, CPU count, phases, vendor; a fifth on a machine with 1-3 GPUs) on a simulated cluster whose start-up times, task durations and driver "
        "pauses come from the seed; non-trivial: at least two chunks or two workers were in play; distinct: digest of the event log")
ORDER = "digest of the order of worker-ready / task-start / task-end / worker-death events"
REAL = ["index_pats_distributed driver loop, GPUWorker/CPUWorker bodies, EBSDIndexer, band detection, triplet voting "
        "(numba), pattern file readers, h5py; with a GPU also opencl.band_detect_cl, openclparam and the kernels"]
STUB = ["ray (discrete-event simulation: placement by CPU/GPU resources, actor boot, FIFO task queues, pickled arguments "
        "and results)", "clocks", "os.cpu_count", "pyopencl and the devices (sim/simcl.py), CUDA_VISIBLE_DEVICES as on NVIDIA"]
ASSUME = ["one-pattern-at-a-time sequential indexing is the reference (on a GPU: all at once, on a device that works in order)", "floats compared to 1e-5 relative "
          "(vectorised reductions round differently with the batch size), integers exactly"]


def prepare():
    dist.prepare()


def prewarm():
    dist.prewarm()


def run(run):
    ch = run.ch
    w = dist.gen(ch)
    t = dist.timing(ch)
    dist.build(w)
    run.case = dist.describe(w)
    dev = dist.begin_gpu(run, w)
    cl = simray.begin(run, dist.cluster_cfg(w, t, max_time=dist.bounds(w, t), max_events=400000))
    try:
        out = dist.call(w)
        run.simtime = cl.now
    finally:
        simray.finish()
        dist.settle(w)
    dist.probes(run, w, cl)
    run.nontrivial = cl.ncreated >= 3 or cl.ntasks >= 4
    dev.verify("the call")
    dist.verify(run, w, out)


def cleanup():
    simray.finish()
    simcl.end()
    scratch.drop()
