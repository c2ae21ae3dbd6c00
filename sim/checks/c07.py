"""C07: the denoised file is the whole-scan average, whatever the chunking and the history of the object."""
import os
import shutil

import numpy as np

from .. import files, iosim, nl, scratch
from ..core import Violation

LOAD = dict(ray=False, serial=True)
PRELOAD = True
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 60000}
CPU_LIMIT = 120
RULE = ("a run builds one or two scans (10 file layouts, maps of 1x1 to 9x8 patterns of 2x2 to 9x9 pixels) and makes 1-3 "
        "denoising calls on one object (random chunk size, search radius 0-4, weights, mask, saturation protection, "
        "noise estimated on the fly, taken from calcsigma or given), some with storage that reads and writes less than "
        "asked; every output file is compared with a plain whole-scan reference "
        "of the averaging formula; distinct: digest of calls and storage operations; non-trivial: a call cut the scan into several chunks")
ORDER = "digest of the calls, their storage operations and faults"
REAL = ["pyebsdindex.nlpar_cpu and ebsd_pattern; its kernels compiled by numba from their own source, without threads and "
        "with bounds checks; numpy, h5py and HDF5, the file system"]
STUB = ["the parallel loops of the kernels run as ordinary loops (C09 examines their interleavings)",
        "libc file operations (short counts on demand)"]
ASSUME = ["the saturation level is the same in every chunk: each row of the scans holds a saturated pixel (the package "
          "estimates it chunk by chunk)",
          "background subtraction is estimated per chunk by design and left off",
          "results may differ from the reference in the last unit (32-bit accumulation, truncation)"]


def prepare():
    nl.warm()


def job(steps, scans, ctor, first, snaps):
    """What a user does, in the child: one object, several calls."""
    from pyebsdindex.nlpar_cpu import NLPAR

    def fn():
        o = NLPAR(scans[first].arg, **ctor)
        res = []
        for st in steps:
            kw = dict(st["kw"])
            pf = scans[st["scan"]]
            try:
                if st["switch"]:
                    kw["filename"] = pf.arg
                    if st["sigma"] == "calc":
                        o.setfile(pf.arg)
                if st["mask"] is not None:
                    if st["switch"]:
                        o.setfile(pf.arg)
                    o.mask = st["mask"].copy()
                sig = None
                if st["sigma"] == "calc":
                    sig = o.calcsigma(chunksize=st["sigchunk"], saturation_protect=kw["saturation_protect"],
                                      automask=kw["automask"])
                    o.sigma = sig.copy()
                elif st["sigma"] == "scalar":
                    o.setfile(pf.arg)
                    o.sigma = st["value"]
                elif st["sigma"] == "array":
                    o.setfile(pf.arg)
                    o.sigma = st["value"].copy()
                out = o.calcnlpar(verbose=0, **kw)
                snap = os.path.join(snaps, str(len(res)))
                shutil.copyfile(out, snap)
                res.append(("ok", str(out), None if sig is None else np.asarray(sig), snap))
            except Exception as e:
                res.append(("exc", type(e).__name__ + ": " + str(e)[:150], iosim._repo_where(e.__traceback__)))
        return res
    return fn


def run(run):
    ch = run.ch
    d = os.path.join(scratch.fresh(), "work")
    snaps = os.path.join(os.path.dirname(d), "snaps")
    os.mkdir(d)
    os.mkdir(snaps)
    fmt = ch.pick("fmt", nl.FORMATS)
    scans = [nl.make_scan(ch, "a.", d, "a", fmt)]
    if ch.flag("two", 0.35):
        f2 = fmt if ch.flag("samefmt", 0.6) else ch.pick("fmt2", nl.FORMATS)
        if fmt in ("up2v1", "h5") or f2 in ("up2v1", "h5"):     # one geometry per object, given by the user
            p = scans[0]
            scans.append(files.make(fmt, d, "b", p.nrows, p.ncols, p.H, p.W, 7,
                                    data=np.ascontiguousarray(p.data[::-1, ::-1])))
        else:
            scans.append(nl.make_scan(ch, "b.", d, "b", f2))
    ctor = nl.geometry_kw(scans[0])
    if ch.flag("ctorsr", 0.5):
        ctor.update(searchradius=ch.int("c.sr", 0, 4, default=2), lam=0.9)
    first = ch.int("first", 0, len(scans) - 1, default=0)
    cur = first
    steps = []
    for k in range(ch.int("calls", 1, 3)):
        lab = f"s{k}."
        t = cur if k == 0 and ch.flag("here", 0.5) else ch.int(lab + "scan", 0, len(scans) - 1, default=cur)
        switch = t != cur or ch.flag(lab + "name", 0.3)
        fresh = t != cur or k == 0
        pf = scans[t]
        kw = nl.params(ch, lab, pf.nrows)
        st = dict(scan=t, switch=switch, kw=kw, sigma=None, mask=None, value=None)
        if fresh:
            kw["saturation_protect"] = not ch.flag(lab + "nosat", 0.3)
            kw["automask"] = not ch.flag(lab + "nomask", 0.25)
            if ch.flag(lab + "mask", 0.2):
                m = np.random.default_rng(ch.subseed(lab + "m")).random((pf.H, pf.W)) < 0.6
                m[0, 0] = True
                st["mask"] = m.astype(np.uint8)
            st["sigma"] = ch.pick(lab + "sigma", [None, "calc", "scalar", "array"], [5, 3, 1, 1])
            if st["sigma"] == "calc":
                st["sigchunk"] = ch.int(lab + "sigchunk", 0, pf.nrows + 1, default=0)
            if st["sigma"] in ("scalar", "array"):
                hi = float(np.iinfo(pf.data.dtype).max)
                v = np.random.default_rng(ch.subseed(lab + "sv")).uniform(0.02, 0.1, (pf.nrows, pf.ncols)) * hi
                st["value"] = v.astype(np.float32)
                if st["sigma"] == "scalar":
                    st["value"] = [float(v[0, 0]), np.float32(v[0, 0]), [float(v[0, 0])]][ch.int(lab + "svk", 0, 2)]
        else:
            prev = [s for s in steps if s["scan"] == t][-1]
            for key in ("saturation_protect", "automask"):
                kw[key] = prev["kw"][key]
            if ch.flag(lab + "reset", 0.3):
                kw["reset_sigma"] = True
        o = ch.pick(lab + "out", ["auto", "given", "stale", "same", "link"], [4, 4, 1, 1, 1])
        st["out"] = o
        target = os.path.join(d, f"out{k}" + files.EXT[pf.fmt])
        if o == "given" or o == "stale":
            kw["fileout"] = target
        if o == "stale" and pf.fmt in files.RAW:
            with open(target, "wb") as f:
                f.write(b"\xa5" * (os.path.getsize(pf.path) + 777))
        if o == "same":
            kw["fileout"] = os.path.join(d, "..", os.path.basename(d), os.path.basename(pf.path))
        if o == "link":
            kw["fileout"] = os.path.join(d, f"ln{k}" + files.EXT[pf.fmt])
            (os.symlink if ch.flag(lab + "sym", 0.5) else os.link)(pf.path, kw["fileout"])
        st["value_sigma"] = st["sigma"]
        steps.append(st)
        cur = t
    run.case = {"scans": [[p.fmt, p.nrows, p.ncols, p.H, p.W] for p in scans],
                "calls": [dict(scan=s["scan"], sigma=s["sigma"], out=s["out"], mask=s["mask"] is not None,
                               **{k: v for k, v in s["kw"].items() if k not in ("filename", "fileout")}) for s in steps]}
    run.log(repr(run.case))
    run.probe("fmt_" + fmt)
    src = [open(p.path, "rb").read() for p in scans]
    plan = []
    if ch.flag("benign", 0.3):
        plan = [iosim.Fault((c,), "short", ch.int("b.n" + c, 0, 30, default=0), ch.int("b.p" + c, 0, 999, default=500),
                            ch.flag("b.s" + c, 0.5)) for c in ("read", "write", "copy")]
    o = iosim.attempt(run, "history", d, job(steps, scans, ctor, first, snaps), plan)
    if o.kind != "ok":
        raise Violation("crash", f"the process ended with {o.kind} {o.msg}; {run.case}")
    for k, p in enumerate(scans):
        if open(p.path, "rb").read() != src[k]:
            raise Violation("source", f"input file {k} has changed; {run.case}")
    state = {}                  # scan -> sigma now held by the object
    masks = {}
    cur = first
    last = {}
    for k, (st, r) in enumerate(zip(steps, o.value)):
        pf, kw = scans[st["scan"]], st["kw"]
        if st["scan"] != cur:
            state.clear()
            masks.clear()
        cur = st["scan"]
        if st["mask"] is not None:
            masks[cur] = st["mask"].astype(bool)
        if cur not in masks:
            masks[cur] = nl.automask(pf.H, pf.W) if kw["automask"] else np.ones((pf.H, pf.W), bool)
        mask = masks[cur]
        if st["out"] in ("same", "link"):
            if r[0] != "exc":
                raise Violation("overwrite", f"call {k} accepted its input file as output; {run.case}")
            run.probe("refused_same_file")
            if st["sigma"] in ("scalar", "array") or st["sigma"] == "calc":
                state[cur] = None
            return                        # what the object holds after an error is not this property's business
        if r[0] != "ok":
            raise Violation("error", f"call {k}: {r[1]} at {r[2]}; {run.case}")
        if st["sigma"] == "calc":
            ref = nl.sigma_ref(pf.data, pf.nrows, pf.ncols, mask, kw["saturation_protect"])
            if r[2].shape != ref.shape or not np.allclose(r[2], ref, rtol=1e-4):
                raise Violation("sigma", f"call {k}: calcsigma(chunksize={st['sigchunk']}) is not the noise of the whole "
                                f"scan; {run.case}")
            state[cur] = ref
        elif st["sigma"] in ("scalar", "array"):
            state[cur] = np.zeros((pf.nrows, pf.ncols)) + np.asarray(st["value"], dtype=np.float64)
        if kw.get("reset_sigma"):
            state.pop(cur, None)
        if state.get(cur) is None:
            state[cur] = nl.sigma_ref(pf.data, pf.nrows, pf.ncols, mask, kw["saturation_protect"])
        last.update({q: kw[q] for q in ("diff_offset",) if q in kw})
        ref = nl.nlpar_ref(pf.data, pf.nrows, pf.ncols, mask, state[cur], kw["searchradius"], kw["lam"], kw["dthresh"],
                           kw["saturation_protect"], last.get("diff_offset", 0.0))
        ref = nl.store_ref(ref, pf.data.dtype, kw.get("rescale"))
        out = r[1]
        if "fileout" in kw and not os.path.samefile(out, kw["fileout"]):
            raise Violation("output", f"call {k} wrote {out} instead of the file asked for; {run.case}")
        try:
            got, rest = pf.stored(r[3])
        except Exception as e:
            raise Violation("output", f"call {k}: the output cannot be read: {e!r}; {run.case}")
        if got.shape != pf.data.shape:
            raise Violation("output", f"call {k}: {got.shape} patterns instead of {pf.data.shape}; {run.case}")
        tol = 1.01 + 3e-5 * float(np.iinfo(pf.data.dtype).max)
        df = np.abs(got.astype(np.float64) - ref).reshape(pf.n, -1).max(axis=1)
        if df.max() > tol:
            b = int(df.argmax())
            raise Violation("wrong-average", f"call {k}: pattern {b} (row {b // pf.ncols}, column {b % pf.ncols}) is off the "
                            f"whole-scan average by {df[b]:.0f}, {int((df > tol).sum())} of {pf.n} patterns wrong; "
                            f"{run.case}")
        run.maxdf = max(getattr(run, "maxdf", 0), df.max() / float(np.iinfo(pf.data.dtype).max))
        if rest != pf.stored()[1]:
            raise Violation("output", f"call {k}: the header or the positions differ from the input's; {run.case}")
        if 0 < kw["chunksize"] < pf.nrows:
            run.nontrivial = True


def cleanup():
    scratch.drop()
