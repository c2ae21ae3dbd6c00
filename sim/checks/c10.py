"""C10: averaging spread over several GPU workers gives the whole-scan average, every tile once, whichever worker fails."""
from .. import scratch, sci, simcl, simray
from ..core import Violation
from . import c11

LOAD = dict(ray=True, cl=True)
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 50000}
CPU_LIMIT = 150
RULE = ("a run builds a scan (10 file layouts, maps of 1x1 to 9x8 patterns of 2x2 to 9x9 pixels) and makes 1-4 calls of "
        "calcnlpar, calcsigma and opt_lambda on one object whose tiles are worked by 6 GPU workers on a simulated cluster "
        "(device memory from 256 bytes to 200 kB); the simulator draws start, dispatch and task times, the order of the "
        "completions, worker crashes while starting, idle and busy, failing starts, failing tasks, lost results, failing "
        "device calls in driver and workers, loss of the device, work-item orders and the contents of unwritten memory; "
        "failures strike up to 3 times, often, or for ever; results are compared with the averaging formula over the whole "
        "scan; distinct: digest of calls, worker schedule, kernels and failures; non-trivial: several tiles, or a failure")
ORDER = "digest of the calls, the order of worker starts and completions, kernels and failures"
REAL = ["pyebsdindex.opencl.nlpar_clray (driver and workers), nlpar_cl, openclparam, nlpar_cpu, ebsd_pattern, the kernels of "
        "clnlpar.cl (compiled for the host), numpy, h5py and HDF5, the file system"]
STUB = ["ray (sim/simray.py)", "pyopencl and the device (sim/simcl.py, sim/clrt.c)"]
ASSUME = c11.ASSUME + ["a worker that has accepted a task ends it or dies (the driver has no time limit for a tile)",
                       "the methods of one worker run one at a time, their effects on files appear at the start of the task"]
KINDS = ["crash", "boot_crash", "task_error", "lost"]


def prepare():
    c11.warm()


class Workers(c11.Local):
    modes = (["none", "worker", "op", "lost", "kind", "persistent"], [4, 5, 2, 1, 1, 1])
    maxop = 250

    def __init__(self, run):
        from pyebsdindex.opencl import nlpar_clray
        self.NLPAR = nlpar_clray.NLPAR
        self.discrete = 0.9
        self.run = run
        ch = run.ch
        dur = ch.pick("dur.hi", [1.0, 0.05, 8.0, 40.0], [3, 2, 1, 1])
        boot = ch.pick("boot.hi", [3.0, 0.3, 30.0], [3, 2, 1])
        self.cl = simray.begin(run, dict(dur=(min(0.005, dur), dur), boot=(0.05, boot), cpu_count=8, max_time=3e6,
                                         max_events=10 ** 6))
        self.persist = None

    def keeps_sigma(self, gpus, gid):
        return all(g["unified"] for g in gpus)      # (if there is a discrete one, the others are not used)

    def arm(self, mode):
        cl, ch = self.cl, self.run.ch
        cl.nfaults = 0
        cl.cfg.update(kinds=(), p=0.0, budget=0)
        self.persist = None
        if mode == "worker":
            kinds = [k for k in KINDS if ch.flag("kind." + k, 0.5)] or [ch.pick("kind", KINDS)]
            cl.cfg.update(kinds=set(kinds), p=ch.pick("p", [0.15, 0.05, 0.4, 1.0], [4, 3, 2, 1]),
                          budget=ch.pick("budget", [3, 1, 2, 40], [3, 2, 2, 1]))
        elif mode == "persistent":
            self.persist = ch.pick("kind", KINDS)
            cl.cfg.update(kinds={self.persist}, p=1.0, budget=10 ** 9)

    def faults(self, s):
        return s.nfaults - s.empties + self.cl.nfaults

    def may_raise(self, s):
        return s.driver_faults > 0 or s.lost or self.faults(s) >= 4

    def must_raise(self):
        if self.persist and self.cl.nfaults:
            return f"{self.persist} struck every attempt"


def run(run):
    try:
        c11.history(run, Workers)
    finally:
        if simray.cluster is not None:
            run.simtime = simray.cluster.now
            if simray.cluster.max_alive:
                run.probe("workers")
        simray.finish()
        simcl.end()


def cleanup():
    simray.finish()
    scratch.drop()
