"""C08: denoising a file under storage failures and process death: the input survives, success means complete, and a
rerun gives the undisturbed output."""
import os
import shutil

import numpy as np

from .. import files, iosim, nl, scratch
from ..core import Violation

LOAD = dict(ray=False, serial=True)
PRELOAD = True
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 80000}
CPU_LIMIT = 120
RULE = ("a run denoises a random small scan (10 file layouts, 1-10 chunks, noise on the fly or from calcsigma) once "
        "undisturbed and then up to three times with storage operations that fail, write only a part or end the process at "
        "random points, each time in the file state the previous attempt left; finally undisturbed, in a new process or "
        "with the same object after an error; distinct: digest of storage operations and faults; non-trivial: a fault hit "
        "and the rerun was compared")
ORDER = "digest of the storage operations and the faults that hit them"
REAL = ["pyebsdindex.nlpar_cpu and ebsd_pattern, kernels compiled by numba from their own source (serial, bounds-checked); "
        "numpy, h5py and HDF5; the file system"]
STUB = ["libc open/read/write/sendfile/ftruncate/close/unlink on the files of the run (fail or end the process on demand)"]
ASSUME = ["the process dies, the machine does not: completed writes survive",
          "a partial HDF5 output that the HDF5 library refuses to open is removed by the user before the rerun",
          "libhdf5 may crash when a write fails under it, and zero-fills behind a premature end of file: not held against "
          "the package"]


def prepare():
    nl.warm()


def action(pf, kw, ctor, calc, snap, rerun=False):
    from pyebsdindex.nlpar_cpu import NLPAR

    def fn():
        o = NLPAR(pf.arg, **ctor)

        def once():
            if calc:
                o.sigma = o.calcsigma(chunksize=calc)
            return str(o.calcnlpar(verbose=0, **kw))
        first = None
        try:
            out = once()
        except Exception as e:
            first = f"{type(e).__name__}", iosim._repo_where(e.__traceback__)
            if not rerun:
                return first, None
            iosim.lib().iof_arm(0)
            out = once()
        return first, out
    return fn


def run(run):
    ch = run.ch
    d = os.path.join(scratch.fresh(), "work")
    os.mkdir(d)
    fmt = ch.pick("fmt", nl.FORMATS)
    pf = nl.make_scan(ch, "a.", d, "a", fmt, maxrows=8, maxcols=5)
    if pf.fmt in files.RAW and ch.flag("ebsd", 0.1) and fmt == "tfpatback":
        with open(os.path.join(d, "a.ebsd"), "wb") as f:          # the companion file of a .pat
            f.write(b"x" * 9 + np.float64(0.25).tobytes() + b"y" * 37)
    ctor = nl.geometry_kw(pf)
    kw = nl.params(ch, "p.", pf.nrows)
    calc = ch.int("calc", 1, pf.nrows + 1) if ch.flag("calcs", 0.25) else 0
    if ch.flag("given", 0.4):
        kw["fileout"] = os.path.join(d, "out" + files.EXT[pf.fmt])
    run.case = {"scan": [pf.fmt, pf.nrows, pf.ncols, pf.H, pf.W], "kw": {k: v for k, v in kw.items() if k != "fileout"},
                "given": "fileout" in kw, "calcsigma": calc}
    run.log(repr(run.case))
    run.probe("fmt_" + fmt)
    src = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}

    def sources(label):
        for f, b in src.items():
            try:
                with open(os.path.join(d, f), "rb") as fh:
                    now = fh.read()
            except FileNotFoundError:
                now = None
            if now != b:
                raise Violation("source", f"{label}: the input file {f} has changed; {run.case}")

    def wipe():
        for f in os.listdir(d):
            if f not in src:
                os.unlink(os.path.join(d, f))

    def content(out):
        a, b = pf.stored(out)
        return a, b

    o = iosim.attempt(run, "undisturbed", d, action(pf, kw, ctor, calc, None))
    if o.kind != "ok" or o.value[0] is not None:
        raise Violation("error", f"undisturbed: {o.kind} {o.exc} {o.msg} {o.value and o.value[0]} at {o.where}; {run.case}")
    sources("undisturbed")
    out = o.value[1]
    good = content(out)
    counts = o.counts
    if ch.flag("clean", 0.7):
        wipe()
    h5 = pf.fmt in files.H5
    hit = False
    for k in range(ch.int("attempts", 1, 3)):
        kinds = [(c, "crash") for c in ("open", "read", "write", "close", "trunc", "copy")]
        if not ch.flag("die", 0.4):
            kinds = [x for x in iosim.WRITE_FAULTS if not (h5 and x == ("read", "EOF"))]
        plan = iosim.draw(ch, counts, kinds, label=f"f{k}")
        same = not h5 and ch.flag("sameobj", 0.5)
        label = f"attempt {k} with {plan}"
        o = iosim.attempt(run, f"attempt{k}", d, action(pf, kw, ctor, calc, None, rerun=same), plan, h5=h5)
        if o.kind == "signal" and not h5:
            raise Violation("crash", f"{label}: the process died with {o.msg}; {run.case}")
        sources(label)
        if o.fired:
            hit = True
        if o.kind == "exc":
            raise Violation("rerun", f"{label}: calling it again on the same object after the error fails: {o.exc} {o.msg} "
                            f"at {o.where}; {run.case}")
        if o.kind == "ok":
            first, out2 = o.value
            if out2 is not None:
                what = "a successful call" if first is None else f"a second call on the same object after {first[0]}"
                compare(run, pf, out2, good, f"{label}: {what}")
                if first is not None:
                    run.probe("same_object_rerun")
                    run.nontrivial = True
            else:
                run.probe("error_reported")
        else:
            run.probe("died")
        if o.libdead and o.kind != "ok":            # what libhdf5 leaves after that is not reproducible
            wipe()
    o = iosim.attempt(run, "rerun", d, action(pf, kw, ctor, calc, None))
    if h5 and (o.kind != "ok" or o.value[0] is not None):
        run.probe("partial_hdf5_refused")
        sources("rerun over a partial HDF5 output")
        wipe()
        o = iosim.attempt(run, "rerun2", d, action(pf, kw, ctor, calc, None))
    if o.kind != "ok" or o.value[0] is not None:
        raise Violation("rerun", f"the rerun without faults fails: {o.kind} {o.exc} {o.msg} {o.value and o.value[0]}; "
                        f"{run.case}")
    sources("rerun")
    compare(run, pf, o.value[1], good, "the rerun without faults")
    if hit:
        run.nontrivial = True


def compare(run, pf, out, good, what):
    try:
        a, b = pf.stored(out)
    except Exception as e:
        raise Violation("incomplete", f"{what}: the output cannot be read: {e!r}; {run.case}")
    if a.shape != good[0].shape or not np.array_equal(a, good[0]):
        bad = [] if a.shape != good[0].shape else np.flatnonzero((a != good[0]).reshape(len(a), -1).any(axis=1)).tolist()
        raise Violation("incomplete", f"{what} left an output that is not the undisturbed one: patterns {bad[:9]} of "
                        f"{pf.n}; {run.case}")
    if b != good[1]:
        raise Violation("incomplete", f"{what} left an output whose header differs; {run.case}")


def cleanup():
    scratch.drop()
