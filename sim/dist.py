"""Workloads for distributed indexing, run on the simulated cluster, with one-pattern-at-a-time sequential indexing
as the reference. Shared by the checks of C01 to C04."""
import copy
import functools
import os

import numpy as np

from . import files, sci, scratch, simcl, simray
from .core import Violation

PCS = {"EDAX": [0.47, 0.68, 0.63], "BRUKER": [0.47, 0.32, 0.63], "OXFORD": [0.47, 0.68, 0.63],
       "KIKUCHIPY": [0.47, 0.32, 0.63], "EMSOFT": [1.5, 4.0, 15000.0, 600.0]}
SHAPES = [(24, 30), (34, 40)]
_poison = None            # (cluster-independent) pattern that makes band finding fail in every worker
_poison_cpu = False
_inject = ()              # fault kinds raised inside worker code


_depth = 0                # nested find_bands (the GPU one falls back on the CPU one)
RADONS = [(45, 60), (60, 90), (45, 90), (90, 180)]
GPUS = [[{}], [{}, {}], [dict(unified=False)], [dict(unified=False), {}], [{}, {}, {}]]


def set_mode(gpu):
    """The package as imported with or without a GPU: which band detection the indexing modules use."""
    from pyebsdindex import _ebsd_index_parallel, _ebsd_index_single, band_detect
    from pyebsdindex.opencl import band_detect_cl
    for m in (_ebsd_index_single, _ebsd_index_parallel):
        if hasattr(m, "band_detect"):
            m.band_detect = band_detect_cl if gpu else band_detect


def install_seams():
    """Fault points inside worker code: the public entry points of band detection and of band indexing."""
    from pyebsdindex import band_detect, tripletvote
    from pyebsdindex.opencl import band_detect_cl

    def wrap(cls, name, label, stallable):
        if not hasattr(cls, name):
            return
        orig = getattr(cls, name)

        @functools.wraps(orig)
        def seam(self, *a, **k):
            global _depth
            cl = simray.cluster
            if cl is not None and cl.worker is not None and not (_depth and label == "bands"):
                simray.tag("work")
                if stallable:
                    simray.tag("stallable")
                if cl.inject("oom_" + label, label):
                    raise MemoryError("injected")
                if label == "bands" and _poison is not None and a and _has(a[0], _poison):
                    cl.fired("persistent", "bands")
                    raise MemoryError("injected, on every attempt")
                if label == "index" and _poison_cpu:
                    cl.fired("persistent", "index")
                    raise MemoryError("injected, on every attempt")
            _depth += label == "bands"
            try:
                return orig(self, *a, **k)
            finally:
                _depth -= label == "bands"
        setattr(cls, name, seam)
    wrap(band_detect.BandDetect, "find_bands", "bands", True)
    if "find_bands" in vars(band_detect_cl.BandDetect):
        wrap(band_detect_cl.BandDetect, "find_bands", "bands", True)
    wrap(tripletvote.BandIndexer, "bandindex", "index", False)


def _has(pats, one):
    pats = np.asarray(pats)
    pats = pats.reshape((-1,) + pats.shape[-2:])
    return pats.shape[1:] == one.shape and bool((pats == one).all(axis=(1, 2)).any())


def _gently(f):
    try:
        with sci.quiet():
            f()
    except (Exception, SystemExit):
        pass               # for the runs to find


def prepare():
    install_seams()
    # compile every signature the workloads use
    from pyebsdindex import ebsd_index

    def one(p, **k):
        ebsd_index.index_pats(patsin=p, phaselist=["FCC", "BCC"], vendor="EDAX", **k)
        p.flags.writeable = False
        ebsd_index.index_pats(patsin=p, phaselist=["FCC", "BCC"], vendor="EDAX", **k)
    set_mode(False)
    for dt in ("float32", "uint16", "uint8"):
        one(sci.make_patterns(2, SHAPES[0], 1, dt))

    def gpu():
        with simcl.plain():
            one(sci.make_patterns(2, SHAPES[0], 1, "uint16"), nRho=45, nTheta=60)
            one(sci.make_patterns(2, SHAPES[0], 1, "uint8"), nRho=45, nTheta=60)
    set_mode(True)
    _gently(gpu)
    set_mode(False)


def prewarm():
    """One plain and one distributed call (arguments that went through the object store are read-only)."""
    from pyebsdindex import ebsd_index

    from .core import Choices, Run
    p = sci.make_patterns(1, SHAPES[0], 1, "float32")
    ebsd_index.index_pats(patsin=p, vendor="EDAX")
    run = Run(Choices(explicit={}))
    simray.begin(run, dict(cpu_count=2))
    try:
        ebsd_index.index_pats_distributed(patsin=p, vendor="EDAX", ncpu=1)
    finally:
        simray.finish()

    def gpu():
        with simcl.plain():
            ebsd_index.index_pats(patsin=sci.make_patterns(1, SHAPES[0], 1, "uint16"), vendor="EDAX", nRho=45, nTheta=60)
    set_mode(True)
    _gently(gpu)
    set_mode(False)


class Work:
    pass


def gen(ch, maxn=14, forms=None, allow_start=True, gpu=0.2):
    """Draw a workload. The first option of every choice is the plain case (used by the minimiser)."""
    w = Work()
    w.gpus = ch.pick("gpus", GPUS, [3, 3, 1, 2, 1]) if ch.flag("gpu", gpu) else None
    hi = ch.pick("n.hi", [maxn, 4, 3 * maxn], [5, 1, 2])
    w.n = ch.int("n", 1, hi, default=min(3, hi))
    w.shape = ch.pick("shape", SHAPES)
    w.dtype = ch.pick("dtype", ["float32", "uint16", "uint8"] if w.gpus is None else ["uint16", "uint8"])
    w.vendor = ch.pick("vendor", ["EDAX", "BRUKER", "OXFORD", "KIKUCHIPY", "EMSOFT"], [6, 1, 1, 1, 1])
    w.phases = ch.pick("phases", [["FCC"], ["FCC", "BCC"], ["BCC"]], [3, 3, 1])
    w.nbands = ch.pick("nBands", [9, 7, 8])
    w.setPC = ch.flag("setPC", 0.5) or w.vendor != "EDAX"
    w.tilt = ch.pick("tilt", [70.0, 60.0])
    if w.gpus is not None:      # (float patterns are quantised call by call on a GPU)
        forms = [f for f in forms if f in ("array", "up1")] if forms else ["array", "patterns", "dataset", "up1", "up2",
                                                                          "array2d", "dataset2d"]
    w.form = ch.pick("form", forms or ["array", "patterns", "dataset", "up1", "up2", "oh5", "kikuchi", "tfpat",
                                       "array2d", "dataset2d"], None if forms else [5, 2, 2, 2, 2, 2, 1, 1, 1, 1])
    if w.form in ("array2d", "dataset2d"):
        w.n = 1
    w.file = w.form in files.FORMATS
    w.obj = ch.pick("indexer_obj", ["none", "fresh", "used", "pathobj", "pathonly"],
                    [6, 4, 2, 1, 1])
    if w.obj in ("pathobj", "pathonly") and not w.file:
        w.obj = "fresh"
    w.chunk = ch.pick("chunksize", [1, 2, 3, 5, 7, 0, 100], [4, 5, 4, 3, 2, 1, 1])
    w.ncpu = ch.pick("ncpu", [2, 1, 3, 4, 6, -1, 0, 12], [3, 3, 3, 2, 2, 1, 1, 1])
    w.cores = ch.pick("cores", [4, 1, 2, 8, 3])
    w.start, w.count = 0, -1
    if allow_start and ch.flag("subrange", 0.35):
        w.start = ch.int("patstart", -w.n, w.n - 1, default=0)
        w.count = ch.int("npats", -1, w.n + 3, default=-1)
    w.verbose = ch.pick("verbose", [0, 1], [4, 1])
    w.keep_log = ch.flag("keep_log", 0.1)
    w.ret = ch.flag("return_obj", 0.3)
    w.seed = ch.subseed("data")
    w.early = ch.pick("earlyexit", [None, 6, 4], [3, 1, 1]) if w.obj != "none" else None
    w.radon, w.gpu_id, w.useCPU, w.cuda = (90, 180), None, False, False
    if w.gpus is not None:
        k = sum(not g.get("unified", True) for g in w.gpus) or len(w.gpus)     # discrete GPUs are preferred
        w.radon = ch.pick("radon", RADONS, [4, 3, 2, 1])
        w.gpu_id = ch.pick("gpu_id", [None, "first", "last", "int", "all"], [4, 1, 1, 2, 1])
        w.gpu_id = {"first": [0], "last": [k - 1], "int": k - 1, "all": list(range(k))[::-1]}.get(w.gpu_id)
        w.useCPU = w.obj != "none" and ch.flag("useCPU", 0.15)
        w.cuda = ch.flag("nvidia", 0.5) and "CUDA_VISIBLE_DEVICES" not in os.environ
        w.verbose = min(w.verbose, 1)
    s = w.start % w.n if w.start < 0 else w.start
    e = w.n if w.count <= 0 else min(w.n, s + w.count)
    w.span = (s, e)
    if w.form == "patterns" and w.span != (0, w.n):
        w.probe = "patterns_subrange"
    return w


def describe(w):
    return {k: getattr(w, k) for k in ("n", "shape", "dtype", "vendor", "phases", "form", "obj", "chunk", "ncpu",
                                       "cores", "start", "count") + (() if w.gpus is None else
                                                                     ("gpus", "gpu_id", "radon", "useCPU", "cuda"))}


def _kw(w):
    k = dict(phaselist=list(w.phases), vendor=w.vendor, nBands=w.nbands, sampleTilt=w.tilt)
    if w.setPC:
        k["PC"] = np.array(PCS[w.vendor])
    if w.gpus is not None:
        k.update(nRho=w.radon[0], nTheta=w.radon[1])
    return k


def build(w):
    """Create the patterns, the input object or file, the indexer and the reference."""
    set_mode(w.gpus is not None)
    with simcl.plain(gpus=w.gpus or []):
        return _build(w)


def _build(w):
    from pyebsdindex import ebsd_index, ebsd_pattern
    w.dir = scratch.fresh()
    w.h5 = None
    dt = w.dtype
    if w.form in ("up1",):
        dt = "uint8"
    elif w.form in ("up2", "tfpat"):
        dt = "uint16"
    elif w.form in ("oh5", "kikuchi") and dt == "float32":
        dt = "uint16"
    w.pats = sci.make_patterns(w.n, w.shape, w.seed, dt)
    w.call = {}
    if w.file:
        ncols = w.n if w.n < 4 or w.n % 2 else w.n // 2
        w.pf = files.make(w.form, w.dir, "scan", w.n // ncols, ncols, w.shape[0], w.shape[1], 0,
                          choice=1 if dt == "uint16" else 0, data=w.pats)
        w.call["filename"] = w.pf.arg
        w.filebytes = open(w.pf.path, "rb").read()
    elif w.form == "patterns":
        o = ebsd_pattern.EBSDPatterns()
        o.patterns = w.pats.copy()
        o.nPatterns = np.array(w.n)
        o.patternH, o.patternW = w.shape
        w.call["patsin"] = o
    elif w.form in ("dataset", "dataset2d"):
        import h5py
        w.h5 = h5py.File(os.path.join(w.dir, "in.h5"), "w")
        w.call["patsin"] = w.h5.create_dataset("p", data=w.pats if w.form == "dataset" else w.pats[0])
    elif w.form == "array2d":
        w.call["patsin"] = w.pats[0].copy()
    else:
        w.call["patsin"] = w.pats.copy()
    kw = _kw(w)
    w.call.update(patstart=w.start, npats=w.count, chunksize=w.chunk, ncpu=w.ncpu, verbose=w.verbose,
                  keep_log=w.keep_log, return_indexer_obj=w.ret)
    if w.gpu_id is not None:
        w.call["gpu_id"] = w.gpu_id
    if w.obj == "none":
        w.call.update({k: v for k, v in kw.items()})
    else:
        if w.obj == "pathonly":
            del w.call["filename"]
        if w.obj in ("pathobj", "pathonly"):
            ix = ebsd_index.EBSDIndexer(filename=w.pf.arg, tSigma=None, rSigma=None, rhoMaskFrac=0.1,
                                        nband_earlyexit=w.early, **kw)
        else:
            ix = ebsd_index.EBSDIndexer(tSigma=None, rSigma=None, rhoMaskFrac=0.1, patDim=w.shape,
                                        nband_earlyexit=w.early, **kw)
        if w.useCPU:
            ix.bandDetectPlan.useCPU = True
        if w.obj == "used":
            ebsd_index.index_pats(patsin=w.pats[:1].copy(), ebsd_indexer_obj=ix)
        w.call["ebsd_indexer_obj"] = ix
    w.exp = reference(w, cpu=w.useCPU)
    w.exp2 = None
    return w


_pristine = {}


def reference(w, cpu=False):
    """Sequential indexing with an indexer of the same settings: one pattern at a time, or (slow devices) all at once."""
    from pyebsdindex import ebsd_index
    kw = _kw(w)
    key = repr((w.gpus is None, w.shape, w.early, sorted(kw.items(), key=str)))
    if key not in _pristine:          # building one is slow; every run starts from its own copy
        if len(_pristine) > 60:
            _pristine.clear()
        _pristine[key] = ebsd_index.EBSDIndexer(tSigma=None, rSigma=None, rhoMaskFrac=0.1, patDim=w.shape,
                                                nband_earlyexit=w.early, **kw)
    ix = copy.deepcopy(_pristine[key])
    if cpu:
        ix.bandDetectPlan.useCPU = True
    d, b = [], []
    step = 1 if w.gpus is None or cpu else 16
    for i in range(w.span[0], w.span[1], step):
        x, y = ebsd_index.index_pats(patsin=w.pats[i:min(i + step, w.span[1])].copy(), ebsd_indexer_obj=ix)
        d.append(x)
        b.append(y)
    return np.concatenate(d, axis=1), np.concatenate(b, axis=0)


def begin_gpu(run, w, **k):
    """The device of the run (for CPU runs: a machine without one)."""
    return simcl.session(run, gpus=w.gpus or [], cuda=w.cuda, **k)


def device_faults(ch, w):
    """What fails on the device during one distributed call."""
    if w.gpus is None:
        return {}
    f = ch.pick("dev.fault", ["none", "op", "lost", "kind", "rate"], [4, 3, 2, 1, 2])
    if f == "none":
        return {}
    if f == "rate":
        kinds = [k for k in simcl.KINDS if ch.flag("dev.kind." + k, 0.4)] or ["launch"]
        return dict(kinds=set(kinds), p=ch.pick("dev.p", [0.02, 0.1, 0.5]), budget=ch.int("dev.budget", 1, 4))
    if f == "kind":
        return dict(plan={(simcl.KINDS[ch.int("dev.fault.kind", 0, len(simcl.KINDS) - 1)], ch.int("dev.fault.n", 1, 9)): 1})
    return dict(plan={(f, ch.int("dev.fault.op", 1, 200)): 1})


def settle(w):
    if w.h5 is not None:
        w.h5.close()
        w.h5 = None


def timing(ch, slow=False):
    """Time scales of the run: from instant to far slower than any polling or patience constant of the driver."""
    if slow:
        dur = ch.pick("dur.hi", [20.0, 0.05, 100.0, 500.0], [3, 2, 3, 1])
        boot = ch.pick("boot.hi", [3.0, 30.0, 300.0], [3, 2, 1])
        lo = ch.pick("dur.lo", [1.0, 0.01, 0.5], [2, 2, 1])          # share of dur.hi
        return dict(dur=(dur * lo, dur), boot=(0.05, boot))
    dur = ch.pick("dur.hi", [0.05, 1.0, 8.0, 40.0, 0.01], [3, 3, 1, 1, 1])
    boot = ch.pick("boot.hi", [0.3, 3.0, 30.0], [3, 3, 1])
    return dict(dur=(min(0.005, dur), dur), boot=(0.05, boot))


KINDS = ["crash", "boot_crash", "task_error", "lost", "stall", "oom_bands", "oom_index"]


def faults(ch, many=True):
    """Which faults may strike, how often, and how many in all (0..5, or up to 40)."""
    kinds = [k for k in KINDS if ch.flag("kind." + k, 0.45)]
    if not kinds:
        kinds = [ch.pick("kind", KINDS)]
    p = ch.pick("p", [0.15, 0.05, 0.4, 1.0], [4, 3, 2, 1])
    budget = ch.int("budget", 1, 5)
    if many and ch.flag("many", 0.15):
        budget = 40
    return dict(kinds=set(kinds), p=p, budget=budget)


def bounds(w, t, nfaults=0):
    """Generous ceiling on simulated time: every chunk processed one after the other, many times over."""
    nch = int(np.ceil(w.n / max(1, w.chunk or 1000)))
    work = (2 * nch + 2 * nfaults + 4) * t["dur"][1] + (2 * nch + nfaults + 14) * t["boot"][1]
    return 60.0 * work + 4000.0


def call(w, fn="distributed"):
    from pyebsdindex import ebsd_index
    return ebsd_index.index_pats_distributed(**w.call)


def verify(run, w, out, what="result", either=False):
    """The returned records against the reference. either: a failing device may have been replaced by the CPU."""
    if not isinstance(out, tuple) or len(out) != (3 if w.ret else 2):
        raise Violation("result", f"{what}: returned {type(out).__name__} of length "
                        f"{len(out) if isinstance(out, tuple) else '-'}")
    either = either and w.gpus is not None and not w.useCPU
    if either and w.exp2 is None:
        set_mode(True)
        with simcl.plain(gpus=w.gpus):
            w.exp2 = reference(w, cpu=True)
    bad = set()
    for name, k, ax in (("orientation data", 0, 1), ("band data", 1, 0)):
        m = sci.close(out[k], w.exp[k], ax)
        if not m:
            continue
        if either and out[k].shape == w.exp[k].shape and out[k].dtype == w.exp[k].dtype:
            bad |= sci.differ(out[k], w.exp[k], ax)[0]
        else:
            raise Violation("result", f"{what}: {name}: {m}")
    if bad:
        run.probe("records_from_cpu")
        sel = sorted(bad)
        for name, k, ax in (("orientation data", 0, 1), ("band data", 1, 0)):
            m = sci.close(np.take(out[k], sel, axis=ax), np.take(w.exp2[k], sel, axis=ax), ax)
            if m:
                raise Violation("result", f"{what}: {name}: {m} - neither from the device nor from the CPU (of patterns "
                                f"{sel[:8]})")


def cluster_cfg(w, t, **k):
    return dict(cpu_count=w.cores, dur=t["dur"], boot=t["boot"], **k)


def probes(run, w, cl):
    nch = int(np.ceil((w.span[1] - w.span[0]) / (w.chunk or 1000)))
    run.probe("chunks_%s" % ("1" if nch == 1 else "2-4" if nch < 5 else "5+"))
    run.probe("form_" + w.form)
    if w.gpus is not None:
        run.probe("gpu_used" if simcl.sim is not None and simcl.sim.nlaunch else "gpu_not_used")
    if w.span != (0, w.n):
        run.probe("subrange")
    if w.ncpu == 1:
        run.probe("one_cpu")
    if cl.ncreated > 2 * max(1, nch):
        run.probe("workers_replaced")
