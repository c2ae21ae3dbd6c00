"""C09: the parallel denoising kernels give the same result for every number of threads and every interleaving."""
import os

import numpy as np

from .. import files, nl, sci, scratch, simpar
from ..core import Violation

LOAD = dict(ray=False, par=True)
LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 40000}
CPU_LIMIT = 120
RULE = ("a run denoises, estimates the noise of, or optimises lambda for a random small scan (1x1 to 5x5 patterns of 2x2 to "
        "4x4 pixels, chunked or not) with one simulated thread and then under 4 other schedules: 2-8 threads, and "
        "statement-by-statement turns, random bursts, or a thread stopped at 1-6 chosen statements while others go on; "
        "distinct: digest of schedules and results; non-trivial: at least two threads took turns inside a kernel")
ORDER = "digest of the thread switches (statement number, thread) of every schedule"
REAL = ["pyebsdindex.nlpar_cpu and ebsd_pattern; the statements of the parallel kernels, run by the Python interpreter"]
STUB = ["numba's compilation and threads: kernels with parallel=True are rewritten so that a seeded scheduler chooses "
        "the thread after every statement (sim/simpar.py); numba.typed.Dict"]
ASSUME = ["one statement is atomic, except that a[i] += x reads, gives way, and writes; the loads and stores inside other "
          "statements are not torn apart",
          "iterations are dealt to threads in contiguous blocks; names assigned in a parallel body are private to a thread and "
          "names that are only accumulated are reductions, as numba defines",
          "rounding of reductions is not a difference (1e-5 relative; one unit in a stored pattern)"]


def prepare():
    pass


def work(pf, op, kw, sigma, d, sched):
    """One execution under one schedule: what a user can see of it."""
    from pyebsdindex.nlpar_cpu import NLPAR
    simpar.sched = sched
    out = {}
    o = NLPAR(pf.arg, searchradius=kw["searchradius"], **nl.geometry_kw(pf))
    if op in ("sigma", "both"):
        out["sigma"] = np.asarray(o.calcsigma(chunksize=kw["sigchunk"], saturation_protect=kw["saturation_protect"]))
    if op == "both":
        o.sigma = out["sigma"].copy()
    if op == "nlpar" and sigma is not None:
        o.sigma = sigma.copy()
    if op in ("nlpar", "both"):
        k = {n: v for n, v in kw.items() if n != "sigchunk"}
        path = o.calcnlpar(verbose=0, fileout=os.path.join(d, "out" + files.EXT[pf.fmt]), **k)
        out["patterns"] = pf.stored(path)[0].astype(np.float64)
        out["noise"] = np.asarray(o.sigma)
    if op == "lambda":
        out["lambda"] = np.asarray(o.opt_lambda(chunksize=kw["chunksize"], saturation_protect=kw["saturation_protect"],
                                                verbose=0), dtype=np.float64)
        out["noise"] = np.asarray(o.sigma)
    return out


def attempt(*a):
    try:
        with sci.quiet():
            return work(*a), None
    except Violation:
        raise
    except Exception as e:
        return None, f"{type(e).__name__}: {str(e)[:200]}"


TOL = {"sigma": (1e-5, 0), "noise": (1e-5, 0), "patterns": (0, 1.01), "lambda": (1e-3, 1e-3)}


def run(run):
    ch = run.ch
    d = scratch.fresh()
    fmt = ch.pick("fmt", ["up2", "up1"])
    pf = nl.make_scan(ch, "a.", d, "a", fmt, maxrows=5, maxcols=5, maxpx=4)
    op = ch.pick("op", ["nlpar", "sigma", "both", "lambda"], [5, 3, 2, 2])
    kw = nl.params(ch, "p.", pf.nrows)
    kw["searchradius"] = ch.int("sr", 0, 2, default=1)
    kw["sigchunk"] = ch.int("sigchunk", 0, pf.nrows, default=0)
    kw["saturation_protect"] = not ch.flag("nosat", 0.4)
    sigma = None
    if op == "nlpar" and ch.flag("given", 0.6):
        hi = float(np.iinfo(pf.data.dtype).max)
        sigma = (np.random.default_rng(ch.subseed("sv")).uniform(0.02, 0.3, (pf.nrows, pf.ncols)) * hi).astype(np.float32)
    run.case = {"scan": [pf.nrows, pf.ncols, pf.H, pf.W], "op": op, "sigma": sigma is not None, **kw}
    run.log(repr(run.case))
    s0 = simpar.stats["steps"]
    ref, err = attempt(pf, op, kw, sigma, d, simpar.Sequential())
    steps = simpar.stats["steps"] - s0
    if err:
        run.probe("sequential_failed")        # not a matter of schedules
        run.log(err)
        return
    run.probe("op_" + op)
    run.simtime += steps * 1e-6
    for k in range(4):
        lab = f"s{k}."
        n = ch.pick(lab + "threads", [2, 3, 8, 5])
        mode = ch.pick(lab + "mode", ["preempt", "burst", "lock"], [3, 3, 1])
        pts = []
        if mode == "preempt":
            pts = [ch.int(lab + "at", 0, max(1, steps), default=0) for _ in range(ch.int(lab + "npre", 1, 6))]
        s = simpar.Seeded(n, mode, ch.subseed(lab + "seed"), pts)
        got, err = attempt(pf, op, kw, sigma, d, s)
        run.fault("threads_" + str(n))
        run.fault("schedule_" + mode)
        run.log(f"{lab} {n} threads, {mode}, {s.switches} switches {s.trace[:50]} {err or ''}")
        run.order.append(tuple(s.trace))
        if s.switches:
            run.nontrivial = True
        where = f"{n} threads, {mode}" + (f" at statements {sorted(set(pts))}" if pts else "") + f"; {run.case}"
        if err:
            raise Violation("schedule", f"fails under some schedules only: {err}; {where}")
        for name, a in got.items():
            b = ref[name]
            rt, at = TOL[name]
            if a.shape != b.shape or not np.allclose(a, b, rtol=rt, atol=at, equal_nan=True):
                w = np.argwhere(~np.isclose(a, b, rtol=rt, atol=at, equal_nan=True)) if a.shape == b.shape else []
                raise Violation("schedule", f"{name} depends on the schedule: {len(w)} values differ, the first at "
                                f"{w[0].tolist() if len(w) else '-'}; {where}")


def cleanup():
    scratch.drop()
