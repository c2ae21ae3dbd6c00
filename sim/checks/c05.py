"""C05: reading patterns returns exactly what was asked for, or fails, whatever the storage does."""
import os

import numpy as np

from .. import files, iosim, scratch
from ..core import Violation

LOAD = dict(ray=False)
PRELOAD = True
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 250000}
CPU_LIMIT = 90
RULE = ("a run builds one or two pattern files (16 layouts of 9 formats, random map and pattern size), then makes 1-4 "
        "reads (ranges, windows, whole file, also out of range) through one reader object, first undisturbed and "
        "compared with the bytes the file was built from, then again with the file cut at a random byte or with "
        "failing, short or early-ending storage operations at random points; distinct: digest of the operation log; "
        "non-trivial: at least one pattern was read")
ORDER = "digest of the sequence of storage operations, their outcome and the faults that hit them"
REAL = ["pyebsdindex.ebsd_pattern readers, numpy fromfile and its stdio buffering, h5py and HDF5, the file system"]
STUB = ["libc open/read/pread/close on the files of the run (may fail on demand), stdio streams over them"]
ASSUME = ["the independent builder in sim/files.py lays the formats out as real instruments do",
          "HDF5 containers: no early end of file below the HDF5 library (it reads such data as zeros)",
          "a storage fault is an error return, a short count or an early end of file; bytes that are returned are right"]


def prepare():
    pass


def make(ch, label, d, name, fmt=None):
    fmt = fmt or ch.pick(label + "fmt", files.FORMATS)
    rows = ch.int(label + "rows", 1, 5, default=2)
    cols = ch.int(label + "cols", 1, 6, default=3)
    if fmt.startswith("ebsp"):
        if fmt == "ebsp2nopos":
            cols = 1
    H = ch.pick(label + "H", [4, 1, 3, 8, 30])
    W = ch.pick(label + "W", [5, 2, 4, 9, 40])
    xs = ch.pick(label + "xstep", [0.5, 1.0, 0.125])
    return files.make(fmt, d, name, rows, cols, H, W, ch.subseed(label + "data"), choice=ch.int(label + "u16", 0, 1),
                      xstep=xs, ystep=ch.pick(label + "ystep", [0.5, 1.0, 0.25]))


def gen_request(ch, pf, label):
    """('all',) | ('range', s, c) | ('win', c0, r0, nc, nr)"""
    rows, cols = geometry(pf)
    k = ch.pick(label + "kind", ["all", "range", "win"], [2, 4, 4])
    if k == "all":
        return ("all",)
    wild = ch.flag(label + "wild", 0.12)
    if k == "range":
        s = ch.int(label + "s", -3 if wild else 0, pf.n + 2 if wild else pf.n - 1, default=0)
        c = ch.int(label + "c", -1, pf.n + 2, default=-1)
        return ("range", s, c)
    c0 = ch.int(label + "c0", -2 if wild else 0, cols + 1 if wild else cols - 1, default=0)
    r0 = ch.int(label + "r0", -2 if wild else 0, rows + 1 if wild else rows - 1, default=0)
    nc = ch.pick(label + "ncall", [-1, 0], [1, 2]) or ch.int(label + "nc", 1, cols + 1)
    nr = ch.pick(label + "nrall", [-1, 0], [1, 2]) or ch.int(label + "nr", 1, rows + 1)
    return ("win", c0, r0, nc, nr)


def geometry(pf, n=None):
    """Rows and columns as the reader will see them (some layouts store no geometry)."""
    if pf.fmt in ("up1v1", "up2v1", "h5", "ebsp2nopos") and not pf.rc:
        return pf.n if n is None else n, 1
    return pf.nrows, pf.ncols


def expected(pf, req, n=None):
    """Acceptable pattern index lists for the request; None stands for 'an error'. Requests that start outside the
    map may be refused, give nothing, or count from the end."""
    n = pf.n if n is None else n
    rows, cols = geometry(pf, n)
    if req[0] == "all":
        return [list(range(n))]
    if req[0] == "range":
        s, c = req[1], req[2]
        out = []
        if s < 0 or s >= n:
            out = [None, []]
            if s < 0:
                s += n
                if s < 0:
                    return out
        c = n - s if c == -1 else max(1, c)
        return out + [list(range(s, min(n, s + c)))]
    _, c0, r0, nc, nr = req
    out = []
    if not (0 <= c0 < cols and 0 <= r0 < rows):
        out = [None, []]
        c0 = c0 + cols if c0 < 0 else c0
        r0 = r0 + rows if r0 < 0 else r0
        if c0 < 0 or r0 < 0:
            return out
    nc = cols - c0 if nc < 0 else min(nc, cols - c0)
    nr = rows - r0 if nr < 0 else min(nr, rows - r0)
    return out + [[r * cols + c for r in range(r0, r0 + nr) for c in range(c0, c0 + nc)]]


def psc(req):
    if req[0] == "all":
        return [0, -1]
    if req[0] == "range":
        return [req[1], req[2]]
    return [[req[1], req[2]], [req[3], req[4]]]


def reads(pfs, steps, how, rc):
    """The action: what a user does, inside the child."""
    from pyebsdindex import ebsd_pattern as ep

    def fn():
        o = None
        out = []
        for k, (which, req, flt, arr, new) in enumerate(steps):
            pf = pfs[which]
            kw = dict(convertToFloat=flt, returnArrayOnly=arr)
            if req[0] != "all":
                kw["patStartCount"] = psc(req)
            if o is None or new:
                if how == "factory":
                    o = ep.get_pattern_file_obj(pf.arg)
                else:
                    cls = {"up": ep.UPFile, "eb": ep.EBSPFile, "tf": ep.TFPatFile, "oh": ep.EDAXOH5,
                           "ki": ep.KIKUCHIPYH5, "br": ep.BRUKERH5, "oi": ep.OXFORDOINA, "h5": ep.HDF5PatFile}[pf.fmt[:2]]
                    o = cls(pf.arg)
                    o.read_header()
                if pf.rc:
                    o.set_scan_rc((pf.nrows, pf.ncols))
                cur = which
            elif which != cur:
                kw["path"] = pf.arg
                cur = which
            got = o.read_data(**kw)
            if arr:
                out.append((got[0], got[1], None))
            else:
                out.append((got.patterns, got.xyLocations, (int(got.patternW), int(got.patternH),
                                                            np.array(got.nPatterns).astype(int).tolist())))
        return out
    return fn


def compare(pf, req, flt, got, sel, where):
    pats, xy, meta = got
    want = pf.data[sel] if len(sel) else pf.data[:0]
    if len(sel) == 0:
        if np.asarray(pats).size:
            return "patterns returned for a request outside the map"
        return None
    pats = np.asarray(pats)
    if pats.shape != want.shape:
        return f"{pats.shape} returned instead of {want.shape}"
    if pats.dtype != (np.float32 if flt else want.dtype):
        return f"dtype {pats.dtype} for stored {want.dtype}, convertToFloat={flt}"
    bad = np.nonzero((pats.astype(np.float64) != want).any(axis=(1, 2)))[0]
    if len(bad):
        i = int(bad[0])
        kind = "all zero" if not pats[i].any() else "one value" if (pats[i] == pats[i].flat[0]).all() else \
            "another pattern" if (pf.data == pats[i]).all(axis=(1, 2)).any() else "mixed up"
        return f"{len(bad)} of {len(sel)} patterns differ from the file, the first at {i} is {kind}"
    ref = pf.xy()
    if ref is not None:
        d = np.abs(np.asarray(xy, float) - ref[sel])
        if d.shape != (len(sel), 2) or not (d <= 1e-4).all():
            return f"positions {np.asarray(xy)[:3].tolist()} instead of {ref[sel][:3].tolist()}"
    if meta is not None:
        w, h, n = meta
        if (w, h) != (pf.W, pf.H) or int(np.prod(n)) != len(sel):
            return f"metadata {meta} for {len(sel)} patterns of {pf.W}x{pf.H}"
    return None


def far(run, ch, d):
    """A scan of more than 4 GB."""
    pf = files.make_far(ch, d)
    i = ch.pick("far.at", pf.held)
    flt, arr = ch.flag("float", 0.3), ch.flag("arr", 0.5)
    if ch.flag("far.win", 0.4) and pf.fmt != "up2v1":
        req = ("win", i % pf.ncols, i // pf.ncols, ch.int("far.nc", 1, 2), ch.int("far.nr", 1, 2))
    else:
        req = ("range", max(0, i - ch.int("far.before", 0, 1)), ch.int("far.c", 1, 3))
    sel = expected(pf, req)[-1]
    run.case = {"formats": [pf.fmt], "map": [pf.nrows, pf.ncols, pf.H, pf.W], "dtype": str(pf.dtype), "request": req}
    run.log(repr(run.case))
    run.probe("scan_over_4GB")
    o = iosim.attempt(run, "undisturbed", d, reads([pf], [(0, req, flt, arr, True)], "factory", None))
    if o.kind != "ok":
        raise Violation("read-fails", f"{o.kind} {o.exc}: {o.msg} at {o.where} without any fault; {run.case}")
    got = o.value[0]
    pf.data = {i: pf.pattern(i) for i in sel}
    want = np.stack([pf.data[i] for i in sel])
    pats = np.asarray(got[0])
    if pats.shape != want.shape or pats.dtype != (np.float32 if flt else want.dtype) or not np.array_equal(pats, want):
        raise Violation("wrong-data", f"patterns {sel} of a scan of {pf.n}: not what the file holds; {run.case}")
    if pf.xy() is not None and not (np.abs(np.asarray(got[1], float) - pf.xy()[sel]) <= 1e-3).all():
        raise Violation("wrong-data", f"positions of patterns {sel}: {np.asarray(got[1])[:3].tolist()}; {run.case}")
    run.nontrivial = True


def run(run):
    ch = run.ch
    d = scratch.fresh()
    if ch.flag("far", 0.012):
        return far(run, ch, d)
    pfs = [make(ch, "a.", d, "a")]
    if ch.flag("second", 0.25):
        fam = [f for f in files.FORMATS if f[:2] == pfs[0].fmt[:2]]
        pfs.append(make(ch, "b.", d, "b", ch.pick("b.fmt", fam)))
    for pf in pfs:
        pf.rc = pf.fmt in ("up1v1", "up2v1", "h5") and ch.flag("setrc", 0.5)
    how = ch.pick("how", ["factory", "class"])
    steps = []
    for k in range(ch.int("nread", 1, 4)):
        which = ch.int("which", 0, len(pfs) - 1)
        new = ch.flag("new", 0.3) or any(p.rc for p in pfs) or \
            pfs[which].fmt in ("up1v1", "up2v1", "h5", "ebsp2nopos") or \
            len({p.fmt for p in pfs} & {"oina", "oinaraw"}) == 2    # no geometry in the file; another dataset
        steps.append((which, gen_request(ch, pfs[which], f"q{k}."), ch.flag("float", 0.4), ch.flag("arr", 0.5), new))
    run.case = {"formats": [p.fmt for p in pfs], "maps": [[p.nrows, p.ncols, p.H, p.W] for p in pfs],
                "requests": [[s[0]] + list(s[1]) for s in steps], "how": how}
    run.log(repr(run.case))
    fn = reads(pfs, steps, how, None)
    cut = {}
    wild = any(None in expected(pfs[s[0]], s[1]) for s in steps)

    def judge(o, label, faulty):
        if o.kind == "signal":
            raise Violation("crash", f"{label}: the reader died with {o.msg}")
        if o.kind != "ok":
            if faulty or wild:
                run.probe("error_reported")
                return
            raise Violation("read-fails", f"{label}: {o.exc}: {o.msg} at {o.where} without any fault; {run.case}")
        for (which, req, flt, arr, new), got in zip(steps, o.value):
            pf = pfs[which]
            opts = expected(pf, req)
            if which in cut and pf.fmt in ("up1v1", "up2v1"):
                n = min(cut[which], pf.n)            # these layouts take the number of patterns from the file size
                opts = [x for m in {n, n + 1} if m <= pf.n for x in expected(pf, req, m)] \
                    if not pf.rc else opts
            msgs = [compare(pf, req, flt, got, sel, label) for sel in opts if sel is not None]
            if all(m is not None for m in msgs):
                raise Violation("wrong-data", f"{label}: {pf.fmt} {pf.nrows}x{pf.ncols} map of {pf.H}x{pf.W}, request "
                                f"{req}: {msgs[-1] if msgs else 'data instead of an error'}")
            run.nontrivial = run.nontrivial or any(sel for sel in opts)
    o = iosim.attempt(run, "undisturbed", d, fn)
    judge(o, "undisturbed", False)
    for pf in pfs:
        run.probe("fmt_" + pf.fmt)
    mode = ch.pick("disturb", ["fault", "cut", "none"], [6, 3, 1])
    if mode == "fault":
        kinds = iosim.READ_FAULTS
        if any(p.fmt in files.H5 for p in pfs):      # HDF5 itself takes an early end of file for unwritten zeros
            kinds = [k for k in kinds if k != ("read", "EOF")]
        plan = iosim.draw(ch, o.counts, kinds)
        o2 = iosim.attempt(run, "faulty", d, fn, plan)
        judge(o2, f"with {plan}", True)
    elif mode == "cut":
        k = ch.int("cutfile", 0, len(pfs) - 1)
        pf = pfs[k]
        size = os.path.getsize(pf.path)
        how = ch.pick("cutat", ["any", "pattern", "one", "byte"])
        if how != "any" and pf.fmt in files.RAW:
            i = ch.int("cutpat", 0, pf.n - 1)
            per = pf.H * pf.W * pf.data.dtype.itemsize
            at = pf.offs[i] + {"pattern": 0, "one": pf.data.dtype.itemsize, "byte": 1}[how]
            at = min(at + (per if how == "pattern" and ch.flag("cutend", 0.5) else 0), size - 1)
        else:
            at = ch.int("cut", 0, size - 1)
        os.truncate(pf.path, at)
        run.fault("truncate", f"{pf.fmt} at {at} of {size}")
        if pf.fmt in ("up1v1", "up2v1"):
            cut[k] = max(0, (at - 16)) // (pf.H * pf.W * pf.data.dtype.itemsize)
        o2 = iosim.attempt(run, "truncated", d, fn)
        judge(o2, f"with {pf.path.split('/')[-1]} cut at byte {at} of {size}", True)


def cleanup():
    scratch.drop()
