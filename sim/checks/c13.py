"""C13: a call that is interrupted, anywhere, leaves the indexer and the caller's arrays as they were."""
import contextlib
import copy
import io
import os
import sys

import numpy as np

from .. import ix, sci, scratch
from ..core import Violation

LOAD = dict(ray=False)
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 60000}
CPU_LIMIT = 150
RULE = ("a run builds an indexer of random settings, gives it 0-2 earlier calls, then interrupts 1-3 calls (index_pats of the "
        "module and of the object on arrays, single patterns, pattern files and file objects, optimize, optimize_pso, "
        "update_file, collect_background), each at one point chosen among all the lines of the package the undisturbed "
        "call executes (half of the time among the distinct lines), by KeyboardInterrupt, MemoryError, OSError or an "
        "arithmetic error, with ordinary calls in between and afterwards; after each: settings and arguments as before, "
        "the next results those of a fresh indexer; distinct: digest of the calls and points of interruption; "
        "non-trivial: a call was interrupted")
ORDER = "digest of the calls and the lines at which they were interrupted"
REAL = ["EBSDIndexer, index_pats, band detection, radon, triplet voting, pattern file readers, pcopt"]
STUB = ["the exception (raised by the simulator at a line of the package, through sys.settrace)"]
ASSUME = ["an interruption happens between two lines of the package (compiled kernels and libraries are not cut in the middle)",
          "which file an interrupted call was reading is not a setting: later calls name their input"]
KINDS = [KeyboardInterrupt, MemoryError, OSError, FloatingPointError]


def prepare():
    ix.compile_all()


prewarm = ix.prewarm


class Cut(Exception):
    pass


def _package():
    import pyebsdindex
    return os.path.dirname(os.path.abspath(pyebsdindex.__file__)) + os.sep


class Lines:
    """Lines of the package that are executed; raises `exc` at number `at`."""

    def __init__(self, at=None, exc=None):
        self.pk = _package()
        self.at, self.exc = at, exc
        self.seen = []
        self.n = 0
        self.fired = None
        self.names = {}

    def name(self, code):
        f = code.co_filename
        if f not in self.names:
            self.names[f] = f[len(self.pk):] if f.startswith(self.pk) else None
        return self.names[f]

    def trace(self, frame, event, arg):
        return self.local if self.name(frame.f_code) is not None else None

    def local(self, frame, event, arg):
        if event == "line" and self.fired is None:
            k = self.n
            self.n += 1
            if self.at is None:
                self.seen.append((self.names[frame.f_code.co_filename], frame.f_lineno))
            elif k == self.at:
                self.fired = f"{self.names[frame.f_code.co_filename]}:{frame.f_lineno}"
                raise self.exc
        return self.local

    def __call__(self, f):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return f()
        finally:
            sys.settrace(old)


def run(run):
    from pyebsdindex import ebsd_index, ebsd_pattern, pcopt
    ch = run.ch
    d = scratch.fresh()
    s = ix.settings(ch)
    seed = ch.subseed("data")
    shapes = [ix.SHAPES[ch.int("shape0", 0, 3)], ix.SHAPES[ch.int("shape1", 0, 3)]]
    obj = ix.fresh(s, shapes[0] if ch.flag("dims", 0.7) else None)
    snap = ix.snapshot(obj)
    hist = []
    back = None                  # (background, shape) the user collected
    todo = ["calm"] * ch.int("before", 0, 2)
    for i in range(ch.int("cuts", 1, 3)):
        todo += ["cut"] + ["calm"] * ch.int("after", 1, 2)
    for c, mode in enumerate(todo):
        ops = ["array", "method", "single", "file", "fileobj", "pso", "nm", "update", "background"]
        what = ch.pick("op", ops, [5, 4, 1, 3, 2, 2, 2, 2, 1])
        if mode == "calm" and what in ("update", "background"):
            what = "method"
        shape = shapes[ch.int("shape", 0, 1)]
        n = 1 if what == "single" else ch.pick("n", [2, 1, 4])
        if what in ("pso", "nm"):
            n = ch.pick("n.opt", [1, 2])
        dt = ch.pick("dtype", ["float32", "uint16", "uint8"])
        pats = sci.make_patterns(n, shape, seed + c, dt)
        chunk = ch.pick("chunk", [512, 1, 2])
        if what == "update" and s.vendor != "EDAX":
            what = "array"
        if what == "background":
            obj.bandDetectPlan.backgroundsub = back = None
        pc = None
        pf = None
        if what in ("pso", "nm") and ch.flag("pc", 0.4):
            pc = np.array(ix.PCS[s.vendor]) * (1 + 0.02 * ch.int("pc.k", -2, 2, default=1))
        if what in ("file", "fileobj", "update"):
            pf, pats = ix.patfile(ch, d, f"f{c}", n, shape, seed + c)
        fo = None
        if what == "fileobj":
            a = pf.arg
            fo = ebsd_pattern.get_pattern_file_obj(list(a) if isinstance(a, (list, tuple)) else a)
        span = (0, n)
        kw = dict(chunksize=chunk)
        if n > 1 and what in ("array", "method", "file", "fileobj") and ch.flag("sub", 0.3):
            kw.update(patstart=1, npats=n - 1)
            span = (1, n)
        batch = ch.flag("batch", 0.5)
        pcs = None
        if what == "method":
            pc, pcs = ix.pattern_centre(ch, s, span[1] - span[0])
        kept = (pats.copy(), None if pc is None else np.array(pc))

        def call(obj, fo=fo):
            np.random.seed((seed + c) % 2 ** 31)
            if what == "method":
                return obj.index_pats(patsin=pats, PC=pc, **kw)[:2]
            if what == "pso":
                return pcopt.optimize_pso(pats, obj, PC0=pc, niter=2, nswarmparticles=5, verbose=0, batch=batch)
            if what == "nm":
                return pcopt.optimize(pats, obj, PC0=pc, batch=batch)
            if what == "update":
                return obj.update_file(pf.arg)
            if what == "background":
                return obj.bandDetectPlan.collect_background(patsIn=pats.astype(np.float32))
            k = dict(kw, ebsd_indexer_obj=obj)
            if what == "file":
                k["filename"] = pf.arg
            elif what == "fileobj":
                k["filename"] = fo
            else:
                k["patsin"] = pats[0] if what == "single" else pats
            return ebsd_index.index_pats(**k)[:2]
        desc = (what, shape, n, chunk, dt, span)
        out = None
        cut = None
        if mode == "cut":
            rec = Lines()
            twin = copy.deepcopy(obj)
            with contextlib.redirect_stdout(io.StringIO()):
                rec(lambda: call(twin, copy.deepcopy(fo)))
            u = ch.int("where", 0, 10 ** 6)
            k = min(len(rec.seen) - 1, u * len(rec.seen) // 10 ** 6)
            if ch.flag("distinct", 0.5):
                first = {}
                for i, e in enumerate(rec.seen):
                    first.setdefault(e, []).append(i)
                lines = sorted(first)
                occ = first[lines[min(len(lines) - 1, u * len(lines) // 10 ** 6)]]
                k = occ[ch.int("occurrence", 0, 3) % len(occ)]
            kind = ch.pick("exc", KINDS)
            cut = Lines(at=k, exc=kind("simulated"))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                out = cut(lambda: call(obj)) if cut else call(obj)
        except BaseException as e:
            if cut is None or cut.fired is None:
                from ..runner import _repo_frame
                if not isinstance(e, Exception):
                    raise
                raise Violation("raised", f"call {c} {desc} after {hist}: {e!r} at {_repo_frame(e.__traceback__)}; {s.kw}")
            if e is not cut.exc:
                run.probe("another_exception")
        where = cut.fired if cut else None
        run.log(f"{c} {mode} {desc} {where} {out is not None}")
        run.order.append((desc, where))
        tag = f"call {c} {desc}" + (f" interrupted by {kind.__name__} at {where}" if where else "") + f" after {hist}"
        if where:
            run.nontrivial = True
            run.fault(kind.__name__)
            run.probe("cut_" + what)
            if out is not None:
                run.probe("cut_survived")
        if what == "background":                 # the setting the call was to change
            obj.bandDetectPlan.backgroundsub = None
        now = ix.snapshot(obj)
        if now != snap:
            raise Violation("settings", f"{tag} changed the indexer: {snap} -> {now}")
        for a, b, nm in zip(kept, (pats, pc), ("patterns", "PC")):
            if a is not None and not np.array_equal(a, b):
                raise Violation("inputs", f"{tag} changed the {nm} of the caller")
        hist.append(f"{what}{shape}" + (f"!{where}" if where else ""))
        if out is None:
            continue
        if what in ("pso", "nm"):
            exp = call(ix.fresh(s, shape))
            if not np.allclose(out, exp, rtol=1e-5, atol=1e-6):
                raise Violation("result", f"{tag}: {out.tolist()}, a fresh indexer gives {exp.tolist()}; {s.kw}")
            continue
        if what == "update":
            continue
        m = ix.compare(out, ix.reference(s, pats[span[0]:span[1]], pcs=pcs))
        if m:
            raise Violation("result", f"{tag}: {m}; {s.kw}")
        if fo is not None and where:                 # the file object, used again
            np.random.seed(seed % 2 ** 31)
            again = ebsd_index.index_pats(filename=fo, ebsd_indexer_obj=obj)[:2]
            m = ix.compare(again, ix.reference(s, pats))
            if m:
                raise Violation("result", f"{tag}: file object used again: {m}")
    run.case = dict(settings={k: str(v) for k, v in s.kw.items()}, history=hist)


def cleanup():
    scratch.drop()
