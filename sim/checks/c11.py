"""C11: averaging on one GPU gives the whole-scan average, however the device cuts, orders and fails its work."""
import os

import numpy as np

from .. import files, nl, sci, scratch, simcl
from ..core import Violation

LOAD = dict(ray=False, cl=True)
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 60000}
CPU_LIMIT = 120
RULE = ("a run builds a scan (10 file layouts, maps of 1x1 to 9x8 patterns of 2x2 to 9x9 pixels) and makes 1-4 calls on one "
        "object, which may go to a second scan and back: calcsigma (neighbourhood 1-8), opt_lambda and calcnlpar (search radius 0-11, weights, mask, saturation "
        "protection, rescaling, noise estimated or given) on devices of 256 bytes to 200 kB; the simulator draws the order "
        "and interleaving of the work items, the contents of unwritten device memory, when queued commands run, launches "
        "of the averaging kernel that do nothing, failing device calls and the loss of the device; the results are compared "
        "with the averaging formula over the whole scan; distinct: digest of calls, kernels and failures; non-trivial: a "
        "call cut the scan into several tiles, or a failure fired")
ORDER = "digest of the calls, their kernels and failures"
REAL = ["pyebsdindex.opencl.nlpar_cl and openclparam, nlpar_cpu, ebsd_pattern, the kernels of clnlpar.cl (compiled for the "
        "host), numpy, h5py and HDF5, the file system"]
STUB = ["pyopencl and the device (sim/simcl.py, sim/clrt.c)"]
ASSUME = ["the saturation level is the same in every tile: every pattern holds a saturated pixel (the package estimates the "
          "level tile by tile)",
          "at the edges of the scan the GPU mirrors the search window where the CPU moves it: the reference does what the "
          "GPU does there", "a device does not misalign vector accesses, and reports failed calls",
          "results may differ from the reference in the last unit (32-bit accumulation, truncation)"]
KINDS = ["alloc", "platform", "context", "build", "queue", "launch", "sync", "flush", "copy", "fill"]


def prepare():
    warm()


def warm():
    from pyebsdindex.opencl import nlpar_cl
    d = scratch.fresh()
    with simcl.plain(), sci.quiet():
        try:
            pf = files.make("up1", d, "warm", 3, 3, 4, 4, 1)
            nlpar_cl.NLPAR(pf.path, searchradius=1).calcnlpar()
        except (Exception, SystemExit):
            pass               # for the runs to find
    scratch.drop()


def device(ch, discrete=0.3):
    """Devices from tiny ones, that hold a few patterns, to ones that hold the scan."""
    def one(lab):
        m = int(256 * 2 ** (ch.int(lab + "mem", 0, 96, default=60) / 10))
        return dict(max_alloc=m, mem=m * ch.pick(lab + "global", [16, 4, 2, 64]), unified=not ch.flag(lab + "discrete", discrete))
    return [one("g0.")] + ([one("g1.")] if ch.flag("two", 0.25) else [])


def arm(s, plan):
    s.cfg["plan"] = plan
    s.seen, s.op, s.nfaults, s.lost, s.empties, s.driver_faults = {}, 0, 0, False, 0, 0
    s.kernels = {}


def dark(pf):
    return not pf.data.reshape(pf.n, -1).any(axis=1).all()


def settle(run):
    """The failures so far belong to calls that have been judged."""
    for i, e in enumerate(run.events):
        if e.startswith("FAULT "):
            run.events[i] = "." + e


class Local:
    """One GPU, worked by the caller's own process."""

    def __init__(self, run):
        from pyebsdindex.opencl import nlpar_cl
        self.NLPAR = nlpar_cl.NLPAR
        self.discrete = 0.3

    modes = (["none", "op", "lost", "kind", "empty", "empties"], [4, 2, 1, 1, 2, 1])
    maxop = 120

    def keeps_sigma(self, gpus, gid):
        return True

    def arm(self, mode):
        pass

    def faults(self, s):
        return s.nfaults - s.empties

    def may_raise(self, s):
        return self.faults(s) > 0

    def must_raise(self):
        return None


class Known:
    """What the object holds, and what the scan's results are."""

    def __init__(self, pf, satprot):
        self.pf, self.satprot = pf, satprot
        self.mask, self.sigma, self.offset, self.sr, self.lam, self.dthresh = None, None, 0.0, None, None, None
        self._ref = None

    def switch(self, pf, automask):
        """Another scan: noise and mask of the one before do not apply."""
        self.pf, self.sigma, self._ref = pf, None, None
        self.mask = nl.automask(pf.H, pf.W) if automask else np.ones((pf.H, pf.W), bool)

    def ref(self):
        if self._ref is None:
            self._ref = nl.GpuRef(self.pf, self.mask, self.satprot)
        return self._ref


def check_sigma(got, want, what):
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-4):
        raise Violation("sigma", f"{what}: not the noise of the whole scan: {np.asarray(got).ravel()[:6]} for "
                        f"{want.ravel()[:6]}, {int((~np.isclose(got, want, rtol=1e-4)).sum()) if got.shape == want.shape else ''}"
                        f" of {want.size} wrong")


def check_average(pf, path, k, kw, what, empties, run):
    """`empties`: how many launches did nothing; a tile with four of them may be all zero."""
    rescale = kw.get("rescale")
    raw = k.ref().average(k.sigma, k.sr, k.lam, k.dthresh, k.offset)
    ref = k.ref().rescale(raw, pf.data.dtype, rescale)
    try:
        got, rest = pf.stored(path)
    except Exception as e:
        raise Violation("output", f"{what}: the output cannot be read: {e!r}")
    if got.shape != pf.data.shape:
        raise Violation("output", f"{what}: {got.shape} patterns instead of {pf.data.shape}")
    tol = 1.01 + 3e-5 * float(np.iinfo(pf.data.dtype).max)
    if rescale:                # the stretch enlarges what the averages are off
        tol = 1.01 + 3e-4 * float(np.iinfo(pf.data.dtype).max)
    df = np.abs(got.astype(np.float64) - ref).reshape(pf.n, -1).max(axis=1)
    bad = df > tol
    if rescale:                # nothing there to stretch
        bad &= raw.reshape(pf.n, -1).max(axis=1) > 0.01
    if empties >= 4 or empties and dark(pf):      # (a tile with a pattern that is zero always looks empty)
        zero = ~got.reshape(pf.n, -1).any(axis=1)
        if (bad & zero).any():
            run.probe("gave_up_on_tile")
        bad &= ~zero
    if bad.any():
        b = int(np.argmax(df * bad))
        raise Violation("wrong-average", f"{what}: pattern {b} (row {b // pf.ncols}, column {b % pf.ncols}) is off the "
                        f"whole-scan average by {df[b]:.0f}, {int(bad.sum())} of {pf.n} patterns wrong")
    if rest != pf.stored()[1]:
        raise Violation("output", f"{what}: the header or the positions differ from the input's")


def run(run):
    try:
        history(run)
    finally:
        simcl.end()


def history(run, back=Local):
    from pyebsdindex.opencl import nlpar_cl
    back = back(run)
    ch = run.ch
    d = scratch.fresh()
    fmt = ch.pick("fmt", nl.FORMATS)
    pf = nl.make_scan(ch, "a.", d, "a", fmt, each=True, dark=0.05)
    scans = [pf]
    if ch.flag("two", 0.3):
        if ch.flag("turned", 0.4) and pf.nrows * pf.ncols > 1 or nl.geometry_kw(pf):
            r, c = (pf.nrows, pf.ncols) if nl.geometry_kw(pf) else (pf.ncols, pf.nrows)
            scans.append(files.make(fmt, d, "b", r, c, pf.H, pf.W, 1, data=np.ascontiguousarray(pf.data[::-1, ::-1])))
        else:
            scans.append(nl.make_scan(ch, "b.", d, "b", fmt, each=True))
    gpus = device(ch, back.discrete)
    src = [open(q.path, "rb").read() for q in scans]
    k = Known(pf, not ch.flag("nosat", 0.3))
    automask = not ch.flag("nomask", 0.25)
    s = simcl.session(run, gpus=gpus, empty_kernels=("calcnlpar",))
    ctor = nl.geometry_kw(pf)
    if ch.flag("ctorsr", 0.5):
        ctor.update(searchradius=ch.int("c.sr", 0, 4, default=2), lam=0.9)
    k.sr, k.lam, k.dthresh = ctor.get("searchradius", 3), ctor.get("lam", 0.7), 0.0
    o = back.NLPAR(pf.arg, **ctor)
    scan = " and ".join(f"{fmt} scan {q.nrows}x{q.ncols} of {q.H}x{q.W}" for q in scans) + \
        f", devices of {[g['max_alloc'] for g in gpus]} bytes"
    run.log(scan)
    if ch.flag("mask", 0.2):
        m = np.random.default_rng(ch.subseed("m")).random((pf.H, pf.W)) < 0.6
        m[0, 0] = True
        o.mask = m.astype(np.uint8)
        k.mask = m
    else:
        k.mask = nl.automask(pf.H, pf.W) if automask else np.ones((pf.H, pf.W), bool)
    hist = []
    given = ch.pick("sigma", [None, "scalar", "array"], [4, 1, 1])
    if given:
        v = np.random.default_rng(ch.subseed("sv")).uniform(0.02, 0.1, (pf.nrows, pf.ncols)) * float(np.iinfo(pf.data.dtype).max)
        o.sigma = v.astype(np.float32)
        if given == "scalar":
            o.sigma = [float(v[0, 0]), np.float32(v[0, 0]), [float(v[0, 0])]][ch.int("svk", 0, 2)]
        k.sigma = np.zeros((pf.nrows, pf.ncols)) + np.asarray(o.sigma, dtype=np.float64)
    common = dict(saturation_protect=k.satprot, automask=automask)
    for c in range(ch.int("calls", 1, 4)):
        op = ch.pick("op", ["avg", "sigma", "lam"], [5, 2, 1])
        kw = dict(common, verbose=ch.pick("verbose", [0, 2]))
        if len(scans) > 1:
            new = scans[ch.int("scan", 0, 1)]
            if new is not pf:
                pf = new
                k.switch(pf, automask)
                hist.append("other scan")
                if op == "avg" and ch.flag("byname", 0.6):
                    kw["filename"] = pf.arg
                else:
                    o.setfile(pf.arg)
            elif op == "avg" and ch.flag("byname", 0.2):
                kw["filename"] = pf.arg
        gid = ch.pick("gpu_id", [None, 0, 1, 5], [3, 1, 1, 1])
        if gid is not None:
            kw["gpu_id"] = gid
        mode = ch.pick("fault", *back.modes)
        if mode in ("empty", "empties") and op != "avg":
            mode = "none"
        plan = {}
        s.cfg.update(kinds=(), p=0.0, budget=0)
        if mode in ("op", "lost"):
            plan = {(mode, ch.int("fault.op", 1, back.maxop, default=30)): 1}
        elif mode == "kind":
            plan = {(KINDS[ch.int("fault.kind", 0, len(KINDS) - 1)], ch.int("fault.n", 1, 6)): 1}
        elif mode == "empty":                     # few enough for every tile to get through
            s.cfg.update(kinds=("empty",), p=0.35, budget=3)
        elif mode == "empties":
            s.cfg.update(kinds=("empty",), p=ch.pick("fault.p", [0.5, 0.8, 1.0]), budget=10 ** 6)
        if op == "avg":
            p = nl.params(ch, "p.", pf.nrows)
            p.pop("chunksize")
            if ch.flag("bigsr", 0.08):
                p["searchradius"] = ch.int("sr", 5, 12)
            kw.update(p)
            if ch.flag("defaults", 0.2):
                for q in ("searchradius", "lam", "dthresh"):
                    kw.pop(q)
            if ch.flag("reset", 0.25):
                kw["reset_sigma"] = True
            if ch.flag("fileout", 0.4):
                kw["fileout"] = os.path.join(d, f"out{ch.int('outname', 0, 1)}" + files.EXT[fmt])
            k.sr = min(kw.get("searchradius", k.sr), 10)
            k.lam, k.dthresh = kw.get("lam", k.lam), kw.get("dthresh", k.dthresh)
            k.offset = kw.get("diff_offset", k.offset)
            fn = o.calcnlpar
        elif op == "sigma":
            kw["nn"] = ch.pick("nn", [1, 2, 3, 8], [4, 3, 1, 1])
            kw["return_nndist"] = ch.flag("nndist", 0.6)
            if ch.flag("norm", 0.5):
                kw["normalize_d"] = True
            fn = o.calcsigma
        else:
            kw.update(autoupdate=False, target_weights=[0.5, 0.34])
            kw.pop("verbose")
            fn = o.opt_lambda
        arm(s, plan)
        back.arm(mode)
        shown = {q: v for q, v in kw.items() if q not in ("fileout", "filename")}
        what = f"call {c} {op}({shown}) on a {scan}, given noise: {given}, calls before: {hist}"
        run.log(f"{op} {shown} fault={mode}")
        failed = None
        got = None
        with sci.quiet():
            try:
                got = fn(**kw)
            except (Exception, SystemExit) as e:
                failed = e
        s.verify(what)
        fired, empties = back.faults(s), s.empties
        nl_launches = s.kernels.get("calcnlpar", [0])[0] + empties
        hist.append((op, mode, fired, empties, failed is not None))
        if failed is not None and not back.may_raise(s):
            raise Violation("error", f"{what} raised {type(failed).__name__}: {failed} after {fired} failures, {empties} "
                            f"launches that did nothing")
        if failed is None and back.must_raise():
            raise Violation("silent", f"{what} returned although {back.must_raise()}")
        for q, b in zip(scans, src):
            if open(q.path, "rb").read() != b:
                raise Violation("source", f"{what}: the input file has changed")
        if op == "avg":
            if k.sigma is None or kw.get("reset_sigma"):
                k.sigma = k.ref().sigma(1)
            if kw.get("reset_sigma") and failed is not None:      # old or new, whichever it got to
                k.sigma = None
                o.sigma = None
        if failed is not None:
            run.probe("raised")
            settle(run)
            run.nontrivial = True
            continue
        if op == "sigma":
            sig = got[0] if kw["return_nndist"] else got
            nn = min(kw["nn"], 7)
            want = k.ref().sigma(nn)
            check_sigma(np.asarray(sig), want, what)
            if kw["return_nndist"]:
                dd, cc, tol = k.ref().distances(nn, kw.get("normalize_d", False))
                if got[1].shape != dd.shape or got[2].shape != dd.shape:
                    raise Violation("distances", f"{what}: shapes {got[1].shape}, {got[2].shape}")
                if not dark(pf):       # (the level of a dark tile is its own)
                    bad = (np.abs(got[1] - dd) > tol) | (np.abs(got[2] - cc) > 1e-3 * np.maximum(cc, 1))
                    if bad.any():
                        y, x, q = [int(v[0]) for v in np.nonzero(bad)]
                        raise Violation("distances", f"{what}: {int(bad.sum())} of {dd.size} distances or counts wrong, first at "
                                        f"row {y}, column {x}, neighbour {q}: {got[1][y, x, q]}, {got[2][y, x, q]} for "
                                        f"{dd[y, x, q]}, {cc[y, x, q]}")
            if back.keeps_sigma(gpus, gid):
                k.sigma = want
        elif op == "lam":
            with simcl.plain(gpus=[dict(max_alloc=1 << 24)]) as r, sci.quiet():
                o2 = nlpar_cl.NLPAR(pf.arg, **nl.geometry_kw(pf))
                o2.mask = None if k.mask is None else k.mask.astype(np.uint8)
                want = o2.opt_lambda(**{q: v for q, v in kw.items() if q != "gpu_id"})
                r.verify("reference")
            if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-3, atol=2e-4):
                raise Violation("lambda", f"{what}: {got} instead of {want}")
            if back.keeps_sigma(gpus, gid) or k.sigma is None:
                k.sigma = k.ref().sigma(1)
        else:
            if "fileout" in kw and not os.path.samefile(got, kw["fileout"]):
                raise Violation("output", f"{what} wrote {got} instead of the file asked for")
            if fired or mode != "empties":
                empties = min(empties, 3)
            check_average(pf, got, k, kw, what, empties, run)
            if nl_launches > 4 * pf.n:
                raise Violation("retry", f"{what}: {nl_launches} launches for {pf.n} patterns")
            if nl_launches > 1:
                run.nontrivial = True
                run.probe("tiles")
        run.nontrivial |= fired > 0
        settle(run)
    run.order = [list(run.order), hist, sorted((q, v[0]) for q, v in s.kernels.items()), s.order]
    run.case = dict(scan=scan, history=[repr(h) for h in hist], work_items=s.items, accesses=s.accesses)


def cleanup():
    scratch.drop()
