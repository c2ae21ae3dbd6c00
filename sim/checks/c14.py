"""C14: what an indexer returns for a pattern does not depend on what it did before, nor on the rest of the batch."""
import os

import numpy as np

from .. import ix, sci, scratch
from ..core import Violation

LOAD = dict(ray=False)
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 60000}
CPU_LIMIT = 150
RULE = ("a run is a history of 2-7 calls on one indexer (module and method entry points, arrays of changing pattern sizes, "
        "single patterns, HDF5 datasets, pattern files, sub-ranges, batch sizes 1-14, chunk sizes 1-100, explicit pattern "
        "centres, changed numbers of bands, background subtraction, optimisations of the pattern centre in between); each "
        "result is compared to that of a fresh indexer of the same settings given one pattern at a time; distinct: digest "
        "of the history; non-trivial: the pattern size changed or a batch was cut into chunks")
ORDER = "digest of the sequence of calls and their arguments"
REAL = ["EBSDIndexer, index_pats, band detection, radon, triplet voting, pattern file readers, pattern-centre optimisation"]
STUB = ["nothing (the history of calls is drawn by the simulator; the random stream of the optimiser is seeded)"]
ASSUME = ["floats compare to rounding (1e-5), integers exactly",
          "a background collected by the caller is a setting: it is given to the fresh indexer too"]


def prepare():
    ix.compile_all()


prewarm = ix.prewarm


def run(run):
    from pyebsdindex import ebsd_index, ebsd_pattern, pcopt
    import h5py
    ch = run.ch
    d = scratch.fresh()
    s = ix.settings(ch)
    seed = ch.subseed("data")
    shapes = [ix.SHAPES[ch.int("shape0", 0, 3)], ix.SHAPES[ch.int("shape1", 0, 3)]]
    started = ch.pick("start", ["dims", "bare", "kw"], [3, 2, 1])
    if started == "kw":              # the first call makes the indexer
        obj = None
    else:
        obj = ix.fresh(s, shapes[0] if started == "dims" else None)
    hist = []
    back = None
    ncalls = ch.int("calls", 2, 7)
    h5 = []
    sizes = set()
    try:
        for c in range(ncalls):
            what = ch.pick("op", ["array", "method", "file", "dataset", "single", "object", "pso", "nm", "bands", "fileagain",
                                  "background"], [6, 5, 4, 2, 2, 1, 1, 1, 1, 2, 1])
            if obj is None and what in ("method", "pso", "nm", "bands", "fileagain", "background"):
                what = "array"
            shape = shapes[ch.int("shape", 0, 1)]
            if what == "fileagain":
                if obj.fID is None:
                    continue
                shape = obj.pats_seen.shape[-2:]
            n = ch.pick("n", [3, 1, 2, 6, 14], [3, 3, 3, 2, 1])
            if what in ("single",):
                n = 1
            chunk = ch.pick("chunk", [512, 1, 2, 3, 5, -1], [3, 3, 3, 2, 2, 1])
            dt = ch.pick("dtype", ["float32", "uint16", "uint8"])
            desc = (what, shape, n, chunk, dt)
            pats = sci.make_patterns(n, shape, seed + c, dt)
            cur = tuple(obj.bandDetectPlan.patDim) if obj is not None and obj.bandDetectPlan.patDim is not None else None
            if what not in ("background", "bands") and back is not None and \
                    tuple(back[1]) != tuple(shape):     # it is of no use for patterns of this size
                back = obj.bandDetectPlan.backgroundsub = None
            if what in ("pso", "nm"):
                if cur != shape:
                    run.probe("optimise_other_size")
                run.log(f"{desc}")
                np.random.seed(seed % 2 ** 31)
                if what == "pso":
                    pcopt.optimize_pso(pats[:1], obj, niter=2, nswarmparticles=5, verbose=0)
                else:
                    pcopt.optimize(pats[:1], obj)
                hist.append(what)
                continue
            if what == "bands":                  # the user asks for another number of bands
                nb = ch.pick("bands.n", [6, 9, 10, 8])
                run.log(f"nBands {nb}")
                obj.bandDetectPlan.nBands = nb
                s.kw["nBands"] = nb
                hist.append(f"nBands={nb}")
                continue
            if what == "background":
                if back is not None and ch.flag("back.off", 0.5):
                    back = obj.bandDetectPlan.backgroundsub = None
                else:
                    obj.bandDetectPlan.collect_background(patsIn=pats.astype(np.float32))
                    back = (obj.bandDetectPlan.backgroundsub.copy(), shape)
                run.log(f"background {shape} {back is not None}")
                hist.append("background")
                continue
            kw = dict(chunksize=chunk)
            pc = pcs = None
            span = (0, n)
            if ch.flag("sub", 0.3):
                a = ch.int("patstart", 0, n - 1)
                k = ch.int("npats", 1, n - a, default=n - a)
                if ch.flag("toend", 0.3):
                    k = -1
                kw.update(patstart=a, npats=k)
                span = (a, n if k < 0 else a + k)
            keep = pats.copy()
            if what == "fileagain":
                pats = obj.pats_seen
                n = len(pats)
                a = ch.int("fa.start", 0, n - 1)
                kw.update(patstart=a, npats=-1)
                span = (a, n)
                call = lambda: obj.index_pats(**kw)[:2]
            if what in ("method", "fileagain"):
                pc, pcs = ix.pattern_centre(ch, s, span[1] - span[0])
                if pc is not None:
                    kw["PC"] = pc
                    pckeep = np.array(pc)
            if what == "fileagain":
                pass
            elif what == "method":
                call = lambda: obj.index_pats(patsin=pats, **kw)[:2]
            else:
                if obj is not None:
                    kw["ebsd_indexer_obj"] = obj
                else:
                    kw.update({k: v for k, v in s.kw.items() if k != "nband_earlyexit"})
                    s.kw["nband_earlyexit"] = None
                kw["return_indexer_obj"] = True
                if what == "file":
                    pf, pats = ix.patfile(ch, d, f"f{c}", n, shape, seed + c)
                    keep = pats.copy()
                    kw["filename"] = pf.arg
                elif what == "dataset":
                    f = h5py.File(os.path.join(d, f"d{c}.h5"), "w")
                    h5.append(f)
                    kw["patsin"] = f.create_dataset("p", data=pats)
                elif what == "single":
                    kw.pop("patstart", 0), kw.pop("npats", 0)
                    span = (0, 1)
                    kw["patsin"] = pats[0]
                elif what == "object":
                    o = ebsd_pattern.EBSDPatterns()
                    o.patterns, o.nPatterns = pats, np.array(n)
                    o.patternH, o.patternW = shape
                    kw["patsin"] = o
                else:
                    kw["patsin"] = pats
                call = lambda: ebsd_index.index_pats(**kw)
            run.log(f"{desc} {span} {sorted(k for k in kw)}")
            run.order.append(desc)
            snap = ix.snapshot(obj) if obj is not None else None
            try:
                out = call()
            except Exception as e:
                from ..runner import _repo_frame
                raise Violation("raised", f"call {c} {desc} span {span} after {hist}: {e!r} at {_repo_frame(e.__traceback__)}; "
                                f"{s.kw}")
            if obj is None:
                obj = out[2]
            elif ix.snapshot(obj) != snap:
                raise Violation("settings", f"call {c} {desc} after {hist} changed the indexer: {snap} -> {ix.snapshot(obj)}")
            if what == "file":
                obj.pats_seen = pats
                pf_dim = shape
            if keep is not None and what != "fileagain" and not np.array_equal(keep, pats):
                raise Violation("inputs", f"call {c} {desc} after {hist} changed the patterns of the caller")
            if cur is not None and cur != tuple(shape):
                run.nontrivial = True
                run.probe("size_changed")
            if 0 < chunk < span[1] - span[0]:
                run.nontrivial = True
                run.probe("chunked")
            run.probe("op_" + what)
            if pc is not None and not np.array_equal(np.array(pc), pckeep):
                raise Violation("inputs", f"call {c} {desc} after {hist} changed the pattern centre of the caller")
            exp = ix.reference(s, pats[span[0]:span[1]], back[0] if back else None, pcs)
            m = ix.compare(out, exp)
            if m:
                raise Violation("result", f"call {c} {desc} span {span} after {hist}: {m}; {s.kw}")
            hist.append(f"{what}{tuple(shape)}x{n}")
            sizes.add(tuple(shape))
    finally:
        for f in h5:
            f.close()
    run.case = dict(settings={k: str(v) for k, v in s.kw.items()}, history=hist, start=started)


def cleanup():
    scratch.drop()
