"""C06: writing patterns changes exactly the requested patterns, or fails, whatever the storage does."""
import copy
import mmap
import os
import re

import numpy as np

from .. import files, iosim, scratch
from ..core import Violation
from . import c05

LOAD = dict(ray=False)
PRELOAD = True
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 250000}
CPU_LIMIT = 90
RULE = ("a run builds a pattern file of a random layout and executes a random history of 1-6 range and tile writes "
        "(integer or float patterns, clipped or scaled; also on a copy made by copy_file, and to a file that does not "
        "exist yet), first undisturbed and then with failing, short or torn storage operations at random points; after "
        "every history the file is read back independently and compared with a dictionary model; distinct: digest of the "
        "operation log; non-trivial: at least one write was acknowledged")
ORDER = "digest of the sequence of storage operations, their outcome and the faults that hit them"
REAL = ["pyebsdindex.ebsd_pattern write_data, pat_writer, write_header, copy_file, pat_flt2int; numpy; h5py and HDF5; "
        "the file system"]
STUB = ["libc open/read/write/sendfile/ftruncate/close on the files of the run (may fail on demand), stdio streams over "
        "them"]
ASSUME = ["the patterns named by a write that raised may hold anything; everything else must be intact",
          "faults are reported by the operation they hit (no silently lost writes)",
          "libhdf5 zero-fills data lying behind a premature end of file and, after a failed flush, keeps the file open in the "
          "same process (later writes may be lost) or crashes: neither is held against the package"]

WRITABLE = ["up1", "up2", "up1v1", "up2v1", "ebsp1", "ebsp2", "ebsp2nopos", "ebsp4", "ebsp5", "tfpat", "tfpatback",
            "oh5", "kikuchi", "bruker", "oina", "h5"]


def prepare():
    pass


def gen_write(ch, pf, k):
    """(request, patterns, kwargs, expected values or None if an error is the only right answer, wild)"""
    rows, cols = c05.geometry(pf)
    lab = f"w{k}."
    req = None
    wild = ch.flag(lab + "wild", 0.1)
    if ch.flag(lab + "tile", 0.5):
        c0 = ch.int(lab + "c0", -2 if wild else 0, cols + 1 if wild else cols - 1, default=0)
        r0 = ch.int(lab + "r0", -2 if wild else 0, rows + 1 if wild else rows - 1, default=0)
        over = ch.flag(lab + "over", 0.15)
        nc = ch.int(lab + "nc", 1, max(1, cols - c0 + (2 if over else 0)))
        nr = ch.int(lab + "nr", 1, max(1, rows - r0 + (2 if over else 0)))
        if ch.flag(lab + "nc-1", 0.15) and c0 < cols:
            nc = -1
        if ch.flag(lab + "nr-1", 0.15) and r0 < rows:
            nr = -1
        req = ("win", c0, r0, nc, nr)
        wid = cols - c0 if nc < 0 else nc
        hei = rows - r0 if nr < 0 else nr
        m = max(1, wid * hei)
    else:
        s = ch.int(lab + "s", -3 if wild else 0, pf.n + 2 if wild else pf.n - 1, default=0)
        m = ch.int(lab + "m", 1, max(1, pf.n - s))
        c = m if ch.flag(lab + "cnt", 0.5) else -1
        if c == 1 and ch.flag(lab + "zero", 0.3):
            c = 0
        req = ("range", s, c)
    rng = np.random.default_rng([ch.subseed(lab + "data"), k])
    hi = np.iinfo(pf.data.dtype).max
    vals = rng.integers(0, int(hi), size=(m, pf.H, pf.W), endpoint=True).astype(pf.data.dtype)
    kind = ch.pick(lab + "kind", ["same", "float", "floatover", "scale", "fullscale"], [5, 2, 1, 1, 1])
    kw = {}
    arg = vals
    if kind == "float":
        arg = vals.astype(np.float32) + np.float32(0.25)
        arg = np.minimum(arg, hi)
    elif kind == "floatover":
        arg = (vals.astype(np.float64) - hi * 0.25) * 1.7
        vals = np.clip(arg, 0, hi).astype(pf.data.dtype)
    elif kind in ("scale", "fullscale"):
        arg = rng.random((m, pf.H, pf.W)).astype(np.float32) * (3.0 + rng.random()) + np.float32(0.125)
        arg *= (1 + np.arange(m, dtype=np.float32) % 3)[:, None, None]         # rows of different brightness
        kw["flt2int"] = kind
        if ch.flag(lab + "sv", 0.3):
            kw["scalevalue"] = 0.5
        mx = None
        if ch.flag(lab + "ms", 0.3):
            mx = kw["maxScale"] = float(arg.max() * 1.5)
        t = arg - arg.min() if kind == "fullscale" else arg.copy()
        t = t * (kw.get("scalevalue", 0.98) * hi / (mx or t.max()))
        vals = np.around(np.clip(t, 0, hi)).astype(pf.data.dtype)
    if ch.flag(lab + "head", 0.1):
        kw["writeHead"] = True
    kw["_tol"] = 1 if kind in ("scale", "fullscale") else 0
    kw["_obj"] = kind == "same" and ch.flag(lab + "obj", 0.3)
    kw["_2d"] = m == 1 and ch.flag(lab + "2d", 0.3)
    # which file positions get which of the m patterns
    if req[0] == "range":
        s = req[1]
        out_of = not 0 <= s < pf.n
        s2 = s + pf.n if s < 0 else s
        place = [(s2 + i, i) for i in range(m)] if 0 <= s2 and s2 + m <= pf.n else []
    else:
        out_of = not (0 <= c0 < cols and 0 <= r0 < rows) or c0 + wid > cols or r0 + hei > rows
        place = [((r0 + r) * cols + c0 + c, r * wid + c) for r in range(hei) for c in range(wid)
                 if 0 <= r0 + r < rows and 0 <= c0 + c < cols]
    return dict(req=req, arg=arg, kw=kw, vals=vals, place=place, wild=out_of)


def brief(e):
    """The error without addresses, times and scratch paths: runs must repeat exactly."""
    return f"{type(e).__name__}: {re.sub(r'[(].*', '', str(e), flags=re.S)[:80]}"


class Acks(list):
    """What the caller has been told so far, in memory that outlives the process."""

    def __init__(self, mem):
        super().__init__()
        self.mem = mem
        mem[:] = bytes(len(mem))

    def append(self, e):
        self.mem[len(self)] = 2 if e else 1
        super().append(e)


def history(pf, how, writes, target, d, acks):
    """The action. Returns one entry per step: None or the error."""
    from pyebsdindex import ebsd_pattern as ep

    def fn():
        res = Acks(acks)
        o = ep.get_pattern_file_obj(pf.arg)
        if pf.rc:
            o.set_scan_rc((pf.nrows, pf.ncols))
        if how != "inplace":
            if how in ("copy", "empty"):
                try:
                    o.copy_file(target if pf.fmt != "h5" else [target], **({"empty_data": True} if how == "empty" else {}))
                    res.append(None)
                except Exception as e:
                    res.append(brief(e))
                    return list(res)
            o = o.copy_obj()
            o.set_filepath(target)
        for w in writes:
            kw = {k: v for k, v in w["kw"].items() if not k.startswith("_")}
            arg = w["arg"].copy()
            if w["kw"]["_2d"]:
                arg = arg[0]
            if w["kw"]["_obj"]:
                e = ep.EBSDPatterns()
                e.patterns, e.nPatterns = arg if arg.ndim == 3 else arg[None], np.array(w["arg"].shape[0])
                arg = e
            try:
                o.write_data(newpatterns=arg, patStartCount=c05.psc(w["req"]), **kw)
                res.append(None)
            except Exception as e:
                res.append(brief(e))
        return list(res)
    return fn


def readback(pf, target):
    """The created file, through the package's reader (its layout is the package's choice)."""
    from pyebsdindex import ebsd_pattern as ep

    def fn():
        o = ep.get_pattern_file_obj([target, pf.arg[1]] if pf.fmt == "h5" else target)
        return o.read_data(returnArrayOnly=True)[0]
    return fn


def far(run, ch, d):
    """A scan of more than 4 GB: a few patterns are written; all else stays."""
    from pyebsdindex import ebsd_pattern as ep
    pf = files.make_far(ch, d)
    steps = []
    for k in range(ch.int("far.n", 1, 2)):
        i = ch.pick("far.at", pf.held + [ch.int("far.any", 0, pf.n - 1)])
        if ch.flag("far.win", 0.4) and pf.fmt != "up2v1":
            nc = min(ch.int("far.nc", 1, 2), pf.ncols - i % pf.ncols)
            nr = min(ch.int("far.nr", 1, 2), pf.nrows - i // pf.ncols)
            req = ("win", i % pf.ncols, i // pf.ncols, nc, nr)
        else:
            req = ("range", i, min(pf.n - i, ch.int("far.c", 1, 2)))
        sel = c05.expected(pf, req)[-1]
        v = np.random.default_rng([pf.seed, 77, k]).integers(1, int(np.iinfo(pf.dtype).max), 991).astype(pf.dtype)
        steps.append((req, sel, np.stack([np.resize(v + j, (pf.H, pf.W)) for j in range(len(sel))])))
    run.case = {"format": pf.fmt, "map": [pf.nrows, pf.ncols, pf.H, pf.W], "dtype": str(pf.dtype),
                "writes": [s[0] for s in steps]}
    run.log(repr(run.case))
    run.probe("scan_over_4GB")

    def fn():
        o = ep.get_pattern_file_obj(pf.arg)
        for req, sel, v in steps:
            o.write_data(newpatterns=v, patStartCount=c05.psc(req))
    o = iosim.attempt(run, "undisturbed", d, fn)
    if o.kind != "ok":
        raise Violation("write-fails", f"{o.kind} {o.exc}: {o.msg} at {o.where} without any fault; {run.case}")
    model = {i: v[j] for _, sel, v in steps for j, i in enumerate(sel)}
    bad = pf.strays(set(model))
    if bad:
        raise Violation("wrong-content", f"patterns {sorted(bad)[:4]} changed (-1: the file's size or shape), no write named "
                        f"them; {run.case}")
    for i, v in model.items():
        if pf.fmt in files.H5:
            import h5py
            with h5py.File(pf.path, "r") as h:
                g = h[pf.h5path][i]
        else:
            with open(pf.path, "rb") as h:
                h.seek(pf.offs[i])
                g = np.frombuffer(h.read(pf.per), pf.dtype).reshape(pf.H, pf.W)
        if not np.array_equal(g, v):
            raise Violation("wrong-content", f"pattern {i} of {pf.n} is not what was written; {run.case}")
    run.nontrivial = True


def run(run):
    ch = run.ch
    d = scratch.fresh()
    if ch.flag("far", 0.012):
        return far(run, ch, d)
    pf = c05.make(ch, "a.", d, "a", ch.pick("fmt", WRITABLE))
    pf.rc = pf.fmt in ("up1v1", "up2v1", "h5") and ch.flag("setrc", 0.6)
    how = ch.pick("how", ["inplace", "copy", "empty", "create"], [5, 2, 2, 2])
    writes = [gen_write(ch, pf, k) for k in range(ch.int("nwrite", 1, 6))]
    if how in ("empty", "create") and ch.flag("full", 0.7):      # as the denoiser does: the whole scan, in pieces
        rows, cols = c05.geometry(pf)
        writes = []
        r = 0
        while r < rows:
            k = ch.int("rowsat", 1, 3)
            w = gen_write(ch, pf, len(writes))
            k = min(k, rows - r)
            rng = np.random.default_rng([ch.subseed("fd"), r])
            v = rng.integers(0, 200, size=(k * cols, pf.H, pf.W)).astype(pf.data.dtype)
            w.update(req=("win", 0, r, cols, k) if r % 2 else ("range", r * cols, k * cols), arg=v, vals=v, wild=False,
                     place=[(r * cols + i, i) for i in range(k * cols)],
                     kw={"_tol": 0, "_obj": False, "_2d": False})
            writes.append(w)
            r += k
    run.case = {"format": pf.fmt, "map": [pf.nrows, pf.ncols, pf.H, pf.W], "how": how,
                "writes": [list(w["req"]) for w in writes]}
    run.log(repr(run.case))
    run.probe("fmt_" + pf.fmt)
    run.probe("how_" + how)
    target = pf.path if how == "inplace" else os.path.join(d, "out" + files.EXT[pf.fmt])
    src0 = open(pf.path, "rb").read()
    base = pf.stored()
    bytes0 = src0

    def judge(o, label, faulty):
        if o.kind == "signal" and faulty and pf.fmt in files.H5:
            run.probe("hdf5_library_died")        # libhdf5 itself crashes when a write fails under it: loud, not ours
            if how != "inplace" and open(pf.path, "rb").read() != src0:
                raise Violation("source", f"{label}: the source of the copy changed")
            return
        if o.kind == "signal":
            raise Violation("crash", f"{label}: the writer died with {o.msg}")
        if o.kind == "crash":
            run.probe("crashed")
            res = [None if a == 1 else "the process died" for a in
                   acks[:len(writes) + (how in ("copy", "empty"))]]
        elif o.kind != "ok":
            if faulty:
                run.probe("error_reported")
                if how != "inplace" and open(pf.path, "rb").read() != src0:
                    raise Violation("source", f"{label}: the source of the copy changed")
                return
            raise Violation("write-fails", f"{label}: {o.exc}: {o.msg} at {o.where} without any fault; {run.case}")
        else:
            res = list(o.value)
        if how != "inplace" and open(pf.path, "rb").read() != src0:
            raise Violation("source", f"{label}: the source of the copy changed")
        copied = True
        if how in ("copy", "empty"):
            e = res.pop(0)
            if e:
                if not faulty:
                    raise Violation("write-fails", f"{label}: copy_file: {e}; {run.case}")
                run.probe("copy_error_reported")
                return
            if not os.path.exists(target):
                raise Violation("copy", f"{label}: copy_file returned without making the file")
        model = {i: base[0][i] for i in range(pf.n)} if how in ("inplace", "copy") else \
            {i: (None if how == "empty" else np.zeros_like(base[0][0])) for i in range(pf.n)}
        tol = {}
        acked = 0
        broken = False
        for w, e in zip(writes, res):
            if e is None and broken:            # libhdf5 keeps the failed file open: nothing later can be relied upon
                for p, i in w["place"]:
                    model[p] = None
            elif e is None:
                acked += 1
                if w["wild"] and not w["place"]:
                    w["place"] = []
                for p, i in w["place"]:
                    model[p] = w["vals"][i]
                    tol[p] = w["kw"]["_tol"]
            else:
                if not faulty and not w["wild"]:
                    if how == "create" and pf.fmt in files.H5:
                        run.probe("hdf5_create_refused")
                        return
                    raise Violation("write-fails", f"{label}: write {w['req']}: {e}; {run.case}")
                run.probe("error_reported")
                broken = faulty and pf.fmt in files.H5 and not w["wild"]
                for p, i in w["place"]:
                    model[p] = None
                if faulty and how == "create":
                    copied = False           # creating the file failed half-way: its other patterns are undefined
        if acked and (acked == len(writes) or not faulty):
            run.nontrivial = True
        if not acked and how == "create":
            return
        if how == "create" and not copied and not all(any(p == q for w, e in zip(writes, res) if e is None
                                                          for q, _ in w["place"]) for p in range(pf.n)):
            return
        try:
            if how == "create":
                if not os.path.exists(target):
                    raise Violation("lost", f"{label}: {acked} writes acknowledged, no file made; {run.case}")
                rb = iosim.attempt(run, "readback", d, readback(pf, target))
                if rb.kind != "ok":
                    raise Violation("unreadable", f"{label}: the new file cannot be read: {rb.exc} {rb.msg} at {rb.where}; "
                                    f"{run.case}")
                pats, rest = rb.value, None
            else:
                pats, rest = pf.stored(target)
        except Violation:
            raise
        except Exception as e:
            if faulty and any(res) and pf.fmt in files.H5:
                run.probe("hdf5_unreadable_after_error")
                return
            raise Violation("damaged", f"{label}: the file has lost its shape: {e!r}; {run.case}")
        if pats.shape != base[0].shape:
            raise Violation("damaged", f"{label}: {pats.shape} patterns instead of {base[0].shape}; {run.case}")
        for p in range(pf.n):
            if model[p] is None:
                continue
            df = np.abs(pats[p].astype(np.int64) - model[p].astype(np.int64)).max()
            if df > tol.get(p, 0):
                last = [w["req"] for w, e in zip(writes, res) if e is None and any(q == p for q, _ in w["place"])]
                raise Violation("wrong-content", f"{label}: pattern {p} is not what was last "
                                f"{'written by ' + str(last[-1]) if last else 'there (no write named it)'}; steps: "
                                f"{res}; {run.case}")
        if rest is not None and rest != base[1] and how != "empty":
            raise Violation("header", f"{label}: header or positions changed; {run.case}")
        if rest is not None and how == "empty" and pf.fmt.startswith("up") and rest[0] != base[1][0]:
            raise Violation("header", f"{label}: header of the copy differs; {run.case}")

    acks = mmap.mmap(-1, 64)
    fn = history(pf, how, writes, target, d, acks)
    o = iosim.attempt(run, "undisturbed", d, fn)
    judge(o, "undisturbed", False)
    if ch.flag("faulty", 0.75):
        with open(pf.path, "wb") as f:
            f.write(bytes0)
        if how != "inplace" and os.path.exists(target):
            os.unlink(target)
        kinds = iosim.WRITE_FAULTS
        if ch.flag("crash", 0.25):
            kinds = [("write", "crash"), ("open", "crash"), ("close", "crash"), ("trunc", "crash"), ("copy", "crash")]
        if pf.fmt in files.H5:                 # libhdf5 fills what it cannot read with zeroes and says nothing
            kinds = [k for k in kinds if k != ("read", "EOF")]
        plan = iosim.draw(ch, o.counts, kinds)
        o2 = iosim.attempt(run, "faulty", d, fn, plan, h5=pf.fmt in files.H5)
        judge(o2, f"with {plan}", True)


def cleanup():
    scratch.drop()
