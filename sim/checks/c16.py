"""C16: band detection on a failing GPU gives the bands of the CPU; on a working one they do not depend on how it works."""
import copy

import numpy as np

from .. import ix, sci, simcl
from ..core import Violation

LOAD = dict(ray=False, cl=True)
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 60000}
CPU_LIMIT = 150
RULE = ("a run is a history of 1-4 calls of find_bands, or of index_pats, on one detector (pattern sizes, dtypes, batch sizes "
        "1-40, chunk sizes 1-528 and -1, Radon sizes, numbers of bands, mask fractions, backgrounds, with and without a "
        "shared OpenCL environment); the simulator draws the order of the work items and, where items share memory, their "
        "interleaving, what unwritten device memory holds, when queued commands run, and failures of single calls or the "
        "loss of the device at a sampled call; distinct: digest of the calls, kernels and failures; non-trivial: a failure "
        "fired, or a batch was cut into chunks")
ORDER = "digest of the calls, their kernels and failures"
REAL = ["pyebsdindex.opencl.band_detect_cl and openclparam, band_detect, the kernels of clkernels.cl (compiled for the host, "
        "each work item runs as device code), the EBSDIndexer around them"]
STUB = ["pyopencl and the device (sim/simcl.py, sim/clrt.c)"]
ASSUME = ["a device does not misalign vector accesses", "a failed device call is reported to the caller by pyopencl",
          "results of a working GPU need not be those of the CPU (the convolutions pad differently)"]

SHAPES = [(14, 16), (20, 24), (17, 19), (24, 20), (16, 16)]
KINDS = ["alloc", "platform", "context", "build", "queue", "launch", "sync", "flush", "copy", "fill"]


def prepare():
    warm(ix.compile_all)


def prewarm():
    warm(ix.prewarm)


def warm(f):
    with simcl.plain(), sci.quiet():
        try:
            f()
        except (Exception, SystemExit):
            pass               # for the runs to find


def detector(ch, shape):
    from pyebsdindex.opencl import band_detect_cl
    kw = dict(nTheta=ch.pick("nTheta", [36, 45, 30, 60]), nRho=ch.pick("nRho", [30, 20, 27, 40]),
              nBands=ch.pick("nBands", [6, 3, 9, 5]), tSigma=ch.pick("tSigma", [1.0, None, 1.6]),
              rSigma=ch.pick("rSigma", [1.0, None, 1.5]), rhoMaskFrac=ch.pick("rhoMask", [0.1, 0.25, -0.1, 2]))
    with sci.quiet():
        b = band_detect_cl.BandDetect(patDim=np.array(shape), **kw)
    return b, kw


def patterns(ch, n, shape, kind):
    if kind in ("uint8", "uint16", "float32"):
        p = sci.make_patterns(n, shape, ch.subseed("data"), kind)
    else:
        p = sci.make_patterns(n, shape, ch.subseed("data"), "uint8").astype(kind)
    special = ch.pick("special", ["no", "blank", "allblank", "negative", "saturated"], [8, 2, 1, 1, 1])
    if special == "blank":
        p[ch.int("blank", 0, n - 1)] = 3
    elif special == "allblank":
        p[:] = 7
    elif special == "negative" and p.dtype.kind in "fi":
        p = (p - p.mean()).astype(p.dtype)
    elif special == "saturated":
        p[:] = np.minimum(p, np.percentile(p, 60).astype(p.dtype))
    return p


def plan(ch):
    """The failures of one call."""
    f = ch.pick("fault", ["none", "op", "lost", "kind"], [2, 4, 2, 1])
    if f == "none":
        return {}
    if f == "kind":
        return {(KINDS[ch.int("fault.kind", 0, len(KINDS) - 1)], ch.int("fault.n", 1, 4)): 1}
    return {("op" if f == "op" else f, ch.int("fault.op", 1, 45)): 1}


def arm(s, p):
    """Count calls and failures of this API call from zero."""
    s.cfg["plan"] = p
    s.seen, s.op, s.nfaults, s.lost = {}, 0, 0, False


def settle(run):
    """The failures so far belong to calls that have been judged."""
    for i, e in enumerate(run.events):
        if e.startswith("FAULT gpu"):
            run.events[i] = "." + e


def diff(a, b):
    if sci.same(a, b):
        return None
    if a.shape != b.shape or a.dtype != b.dtype:
        return f"{a.shape} {a.dtype} instead of {b.shape} {b.dtype}"
    names = [n for n in a.dtype.names if not sci.same(a[n], b[n])]
    rows = sorted({int(i) for n in names for i in
                   np.nonzero((~((a[n] == b[n]) | ((a[n] != a[n]) & (b[n] != b[n]))))
                              .reshape(a.shape[0], -1).any(axis=1))[0]})
    return f"{names} of patterns {rows[:8]} ({len(rows)} of {a.shape[0]})"


def run(run):
    ch = run.ch
    mode = ch.pick("mode", ["bands", "index"], [5, 1])
    env = ch.pick("device", [dict(), dict(unified=False), dict(group=1024)], [2, 1, 1])
    gpus = [env] * ch.pick("ngpu", [1, 2], [3, 1])
    try:
        (find_bands if mode == "bands" else index)(run, gpus)
    finally:
        simcl.end()


def make(ch):
    shape = SHAPES[ch.int("shape", 0, len(SHAPES) - 1)]
    b, kw = detector(ch, shape)
    if ch.flag("background", 0.2):
        bg = sci.make_patterns(3, shape, ch.subseed("bg"), "uint8").astype(np.float32)
        with sci.quiet():
            b.collect_background(patsIn=bg)
        if b.backgroundsub is not None and ch.flag("bg.f64", 0.5):
            b.backgroundsub = b.backgroundsub.astype(np.float64)
    return b, kw, shape


def resize(ch, b):
    """The same detector, set up for patterns of another size."""
    shape = SHAPES[ch.int("shape", 0, len(SHAPES) - 1)]
    with sci.quiet():
        b.backgroundsub = None
        b.band_detect_setup(patDim=np.array(shape), rSigma=b.rSigma, tSigma=b.tSigma)
    return shape


def find_bands(run, gpus):
    from pyebsdindex import band_detect
    from pyebsdindex.opencl import openclparam
    ch = run.ch
    made = [make(ch)]
    s = simcl.session(run, gpus=gpus)
    held = None
    ncalls = ch.int("calls", 1, 4)
    hist = []
    for c in range(ncalls):
        if c and ch.flag("other", 0.3):           # another detector, with the same OpenCL environment
            made.append(make(ch))
        i = ch.int("detector", 0, len(made) - 1)
        if c and ch.flag("resize", 0.15):
            made[i] = made[i][:2] + (resize(ch, made[i][0]),)
        b, kw, shape = made[i]
        n = ch.pick("n", [5, 1, 2, 15, 16, 17, 33, 40], [3, 3, 2, 1, 2, 2, 1, 1])
        kind = ch.pick("dtype", ["uint8", "uint16", "float32", "float64", "int32", "int16"], [5, 3, 4, 1, 1, 1])
        p = patterns(ch, n, shape, kind)
        if n == 1 and ch.flag("two", 0.5):
            p = p[0]
        elif ch.flag("sliced", 0.2):
            p = np.repeat(p, 2, axis=0)[::2]
        chunk = ch.pick("chunk", [528, -1, 1, 3, 8, 16, 17], [2, 2, 1, 2, 2, 2, 2])
        shared = ch.pick("clparams", ["none", "held", "fresh"], [2, 3, 1])
        arm(s, plan(ch) if ch.flag("env.fault", 0.1) and shared == "fresh" else {})
        keep = p.copy()
        what = f"call {c} ({n} {kind} patterns {shape}, chunksize {chunk}, {kw})"
        run.log(f"find_bands n={n} {kind} chunk={chunk} clparams={shared}")
        with sci.quiet():
            try:
                clp = None
                if shared != "none":
                    if shared == "fresh" or held is None:
                        held = openclparam.OpenClParam()
                        if ch.flag("queue", 0.5):
                            try:
                                held.get_queue()
                            except Exception:
                                pass            # the user's own call: it may raise
                    clp = held
                settle(run)
                arm(s, plan(ch))
                got = b.find_bands(p, clparams=clp, chunksize=chunk, gpu_id=ch.pick("gpu_id", [None, 0, 1, 5]))
            except (Exception, SystemExit) as e:
                raise Violation("raised", f"{what} raised {type(e).__name__}: {e}, device failures: {s.nfaults}")
        s.verify(what)
        fired = dict(s.seen), s.nfaults, s.lost
        if not np.array_equal(p, keep, equal_nan=p.dtype.kind == "f"):
            raise Violation("input", f"{what} changed the patterns it was given")
        # what was to come
        kinds = {k.split()[1] for k in run.events if k.startswith("FAULT")} if s.nfaults else set()
        run.log(f"  failures {s.nfaults}, kernels {sum(v[0] for v in s.kernels.values())}")
        hist.append((n, kind, chunk, shared, s.nfaults, sorted(kinds)))
        with sci.quiet():
            cpu = band_detect.BandDetect.find_bands(b, keep.copy(), chunksize=-1)
        ok = []
        if fired[1]:
            ok.append(("CPU band detection", cpu))
        if not fired[1] or kinds <= {"gpu_platform"}:
            ok.append(("GPU band detection in one piece, in order", reference(run, b, keep, chunk)))
        ds = [(w, diff(got, r)) for w, r in ok]
        if all(d for _, d in ds):
            raise Violation("fallback" if fired[1] else "bands",
                            f"{what}, device failures: {fired[1]}: differs from " + "; ".join(f"{w}: {d}" for w, d in ds))
        run.nontrivial |= fired[1] > 0 or 0 < chunk < n
        settle(run)
    run.order = [hist, sorted((k, v[0]) for k, v in s.kernels.items()), s.order]
    run.case = dict(settings=repr(kw), shape=shape, history=[repr(h) for h in hist], work_items=s.items, accesses=s.accesses)


def reference(run, b, p, chunk):
    """Bands from a device that works through everything in order, zeroed memory, a new environment, another chunk size."""
    with simcl.plain() as r, sci.quiet():
        n = 1 if p.ndim == 2 else p.shape[0]
        other = n if 0 < chunk < n else max(1, n // 2)
        out = b.find_bands(p.copy(), chunksize=other)
        r.verify("reference")
    return out


def index(run, gpus):
    ch = run.ch
    st = ix.settings(ch, vendors=False)
    shape = ix.SHAPES[ch.int("shape", 0, 3)]
    n = ch.pick("n", [3, 1, 7, 17], [3, 1, 2, 1])
    kind = ch.pick("dtype", ["uint8", "uint16", "float32"])
    p = sci.make_patterns(n, shape, ch.subseed("data"), kind)
    chunk = ch.pick("chunk", [512, 1, 2, 16, -1])
    s = simcl.session(run, gpus=gpus)
    obj = ix.fresh(st, shape)
    hist = []
    for c in range(ch.int("calls", 1, 2)):
        arm(s, plan(ch))
        what = f"index_pats call {c} ({n} {kind} patterns {shape}, chunksize {chunk})"
        run.log(f"index_pats n={n} {kind} chunk={chunk}")
        with sci.quiet():
            try:
                got = obj.index_pats(patsin=p.copy(), chunksize=chunk)
            except (Exception, SystemExit) as e:
                raise Violation("raised", f"{what} raised {type(e).__name__}: {e}, device failures: {s.nfaults}")
        s.verify(what)
        fired = s.nfaults
        kinds = {k.split()[1] for k in run.events if k.startswith("FAULT")} if fired else set()
        hist.append((n, kind, chunk, fired, sorted(kinds)))
        ref = ix.fresh(st, shape)
        ok = []
        with simcl.plain() as r, sci.quiet():
            if fired:
                ref.bandDetectPlan.useCPU = True
                ok.append(("indexing with CPU band detection", ref.index_pats(patsin=p.copy())))
            if not fired or kinds <= {"gpu_platform"}:
                ref.bandDetectPlan.useCPU = False
                ok.append(("indexing in one piece", ref.index_pats(patsin=p.copy(), chunksize=-1)))
            r.verify("reference")
        ds = []
        for w, rr in ok:
            d = sci.close(got[0], rr[0], 1) or sci.close(got[1], rr[1], 0)
            ds.append((w, d))
        if all(d for _, d in ds):
            raise Violation("fallback" if fired else "bands",
                            f"{what}, device failures: {fired}: differs from " + "; ".join(f"{w}: {d}" for w, d in ds))
        run.nontrivial |= fired > 0 or 0 < chunk < n
        settle(run)
    run.order = [hist, sorted((k, v[0]) for k, v in s.kernels.items()), s.order]
    run.case = dict(shape=shape, history=[repr(h) for h in hist], work_items=s.items, accesses=s.accesses)
