"""C15: exports of results: every point, in order, with the values given; failing storage is reported; the results
stay as they are."""
import os
import types

import numpy as np

from .. import iosim, scratch
from ..core import Violation

LOAD = dict(ray=False)
PRELOAD = True
LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 100000}
CPU_LIMIT = 90
RULE = ("a run exports one result map (1-3000 points, 1-3 phases, unindexed points) one to four times, as .ang and .oh5 in "
        "both versions, to new or already existing files, from writable or read-only arrays, then again with storage "
        "operations that fail or write only a part, and again without; every file of an export that returned is read back "
        "by independent readers; distinct: digest of storage operations and faults; non-trivial: at least two exports or "
        "a fault that hit")
ORDER = "digest of the storage operations and the faults that hit them"
REAL = ["pyebsdindex.ebsdfile, rotlib, the phase libraries; Python's text files, h5py and HDF5; the file system"]
STUB = ["libc file operations on the files of the run (fail on demand)", "indexer settings (a plain record)"]
ASSUME = ["libhdf5 may crash when a write fails under it; a crash is not a success, so it is not held against the package",
          "confidence and fit of an unindexed point may be written as given or as -1 and 0"]

PHASES = {}


def prepare():
    from pyebsdindex import rotlib
    from pyebsdindex.tripletvote import addphase
    for p in ("FCC", "BCC", "HCP"):
        PHASES[p] = addphase(libtype=p)
    rotlib.qu2eu(np.array([[1.0, 0, 0, 0], [0.5, 0.5, 0.5, 0.5]]))


DT = np.dtype([("quat", np.float64, 4), ("iq", np.float32), ("pq", np.float32), ("cm", np.float32), ("phase", np.int32),
               ("fit", np.float32), ("nmatch", np.int32), ("matchattempts", np.int32, 4), ("totvotes", np.int32)])


def make(ch):
    w = types.SimpleNamespace()
    hi = ch.pick("cols.hi", [8, 60], [3, 1])
    w.ncols = ch.int("cols", 1, hi, default=min(4, hi))
    w.nrows = ch.int("rows", 1, hi, default=min(3, hi))
    w.n = w.ncols * w.nrows
    if ch.flag("one", 0.06):
        w.n = w.ncols = w.nrows = 1
    w.phases = ch.pick("phases", [["FCC"], ["FCC", "BCC"], ["HCP"], ["BCC", "HCP", "FCC"]], [4, 3, 1, 2])
    rng = np.random.default_rng(ch.subseed("data"))
    d = np.zeros((len(w.phases) + 1, w.n), dtype=DT)
    d["phase"] = -1
    d["fit"] = 180.0
    for j in range(len(w.phases)):
        q = rng.normal(size=(w.n, 4))
        d["quat"][j] = q / np.linalg.norm(q, axis=1)[:, None]
        d["iq"][j] = rng.random(w.n) * 5
        d["pq"][j] = rng.random(w.n) * 4000
        ok = rng.random(w.n) < 0.85
        d["phase"][j] = np.where(ok, j, -1)
        d["cm"][j] = np.where(ok, rng.random(w.n), 0)
        d["fit"][j] = np.where(ok, rng.random(w.n) * 2, 180)
        d["nmatch"][j] = np.where(ok, 7, 0)
    if ch.flag("plain_quats", 0.2):            # the special cases of the Euler angles
        d["quat"][0, : w.n // 2 + 1] = [1, 0, 0, 0]
        d["quat"][0, w.n // 3: w.n // 2] = [0, 1, 0, 0]
    d[-1] = d[0]
    for j in range(1, len(w.phases)):
        b = d["fit"][j] < d["fit"][-1]
        d[-1, b] = d[j, b]
    w.data = d
    w.grid = ch.pick("grid", ["fid", "args", "none", "fidnone"], [4, 2, 1, 1])
    if w.grid == "args" and ch.flag("norows", 0.4):
        w.grid = "cols"
    w.step = (ch.pick("xstep", [1.0, 0.25, 2.5]), ch.pick("ystep", [1.0, 0.5]))
    fid = None
    if w.grid == "fid":
        fid = types.SimpleNamespace(xStep=w.step[0], yStep=w.step[1], nCols=w.ncols, nRows=w.nrows)
    if w.grid == "fidnone":                    # a file that does not tell its geometry
        fid = types.SimpleNamespace(xStep=0.0, yStep=0.0, nCols=None, nRows=None)
    w.shape = (w.ncols, w.nrows) if w.grid in ("fid", "args", "cols") else (1, w.n)
    w.kw = {}
    if w.grid in ("args", "cols"):
        w.kw["ncols"] = w.ncols
        if w.grid == "args":
            w.kw["nrows"] = w.nrows
    if w.grid in ("args", "cols", "none", "fidnone"):
        w.kw["xstep"], w.kw["ystep"] = w.step
    w.indexer = types.SimpleNamespace(PC=np.array([0.4718, 0.675, 0.63]), sampleTilt=70.0, camElev=5.3, fID=fid,
                                      phaseLib=[PHASES[p] for p in w.phases])
    if ch.flag("readonly", 0.15):
        w.data.flags.writeable = False
    return w


# ------------------------------------------------------------------ independent readers
def g_eu(e):
    a, b, c = e.T
    s, k = np.sin, np.cos
    return np.array([[k(a) * k(c) - s(a) * s(c) * k(b), s(a) * k(c) + k(a) * s(c) * k(b), s(c) * s(b)],
                     [-k(a) * s(c) - s(a) * k(c) * k(b), -s(a) * s(c) + k(a) * k(c) * k(b), k(c) * s(b)],
                     [s(a) * s(b), -k(a) * s(b), k(b)]])


def g_qu(q):
    w, x, y, z = q.T
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])


def differ(got, want, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return np.flatnonzero(~(np.abs(got - want) <= tol))


def points(w, cols, tol, what, phase0):
    """cols: name -> values read from a file."""
    best = w.data[-1]
    n = w.n
    for k, v in cols.items():
        if len(v) != n:
            raise Violation("points", f"{what}: {len(v)} values of {k} for {n} points")
    un = best["phase"] < 0
    bad = np.flatnonzero(~(np.abs(g_eu(np.stack([cols["e0"], cols["e1"], cols["e2"]], 1)) - g_qu(best["quat"]))
                           <= tol["e"]).all(axis=(0, 1)))
    if len(bad):
        raise Violation("values", f"{what}: orientation of points {bad[:6]} ({len(bad)} of {n}) is not the one given")
    nc = w.shape[0]
    for k, want in (("x", (np.arange(n) % nc) * w.step[0]), ("y", (np.arange(n) // nc) * w.step[1]), ("pq", best["pq"]),
                    ("iq", best["iq"]), ("phase", np.where(un, 0, best["phase"] + phase0))):
        if k in cols:
            bad = differ(cols[k], want, tol.get(k, 0))
            if len(bad):
                raise Violation("values", f"{what}: {k} of points {bad[:6]} ({len(bad)} of {n}) is "
                                f"{np.asarray(cols[k])[bad[:3]]}, not {np.asarray(want)[bad[:3]]}")
    for k, f, alt in (("ci", "cm", -1.0), ("fit", "fit", 0.0)):
        v = np.asarray(cols[k], dtype=float)
        ok = (np.abs(v - best[f]) <= tol[k]) | (un & (np.abs(v - alt) <= tol[k]))
        bad = np.flatnonzero(~ok)
        if len(bad):
            raise Violation("values", f"{what}: {k} of points {bad[:6]} ({len(bad)} of {n}) is {v[bad[:3]]}, not "
                            f"{best[f][bad[:3]]}")


def read_ang(w, path, what):
    with open(path, "rb") as f:
        raw = f.read().decode("utf-8")
    lines = raw.split("\r\n")
    if lines[-1] != "":
        raise Violation("truncated", f"{what}: the last line is not complete: {lines[-1]!r}")
    lines = lines[:-1]
    head = [x for x in lines if x.startswith("#")]
    rows = [x.split() for x in lines if not x.startswith("#")]
    if not head or "HEADER: End" not in head[-1]:
        raise Violation("truncated", f"{what}: the header does not end")
    h = {}
    for x in head:
        if ":" in x:
            a, b = x[1:].split(":", 1)
            h[a.strip()] = b.strip()
    for k, v in (("XSTEP", w.step[0]), ("YSTEP", w.step[1]), ("NCOLS_ODD", w.shape[0]), ("NCOLS_EVEN", w.shape[0]),
                 ("NROWS", w.shape[1])):
        if k not in h or abs(float(h[k]) - v) > 1e-6:
            raise Violation("header", f"{what}: {k} is {h.get(k)}, not {v}")
    names = [x.split(None, 2)[2].strip() for x in head if x.startswith("# MaterialName")]
    if sorted(names) != sorted(str(p.phasename) for p in w.indexer.phaseLib):
        raise Violation("header", f"{what}: phases {names}")
    if len(rows) != w.n:
        raise Violation("points", f"{what}: {len(rows)} rows for {w.n} points")
    if any(len(r) != 10 for r in rows):
        raise Violation("points", f"{what}: a row has {[len(r) for r in rows if len(r) != 10][0]} columns")
    t = np.array(rows, dtype=float)
    points(w, dict(e0=t[:, 0], e1=t[:, 1], e2=t[:, 2], x=t[:, 3], y=t[:, 4], pq=t[:, 5], ci=t[:, 6], phase=t[:, 7],
                   fit=t[:, 9]), dict(e=5e-5, x=1e-4, y=1e-4, pq=0.0501, ci=0.000501, fit=0.000501), what,
           0 if len(w.phases) == 1 else 1)


def read_oh5(w, path, what, version):
    import h5py
    try:
        f = h5py.File(path, "r")
    except OSError as e:
        raise Violation("truncated", f"{what}: the file cannot be opened: {e}")
    with f:
        def get(k):
            try:
                return f["Scan 1/EBSD/" + k][()]
            except (KeyError, OSError, RuntimeError) as e:
                raise Violation("truncated", f"{what}: {k} is missing or not readable: {e}")
        for k, v in (("nColumns", w.shape[0]), ("nRows", w.shape[1]), ("Step X", w.step[0]), ("Step Y", w.step[1]),
                     ("Pattern Center Calibration/x-star", 0.4718), ("Sample Tilt", 70.0)):
            g = get("Header/" + k)
            if g.shape != (1,) or abs(float(g[0]) - v) > 1e-5:
                raise Violation("header", f"{what}: {k} is {g}, not {v}")
        first = 1 if version == "8.6" else 0
        for j, p in enumerate(w.indexer.phaseLib):
            nm = get(f"Header/Phase/{j + first}/MaterialName")
            if nm[0].decode().rstrip("\0") != str(p.phasename):
                raise Violation("header", f"{what}: phase {j + first} is {nm}")
            if int(get(f"Header/Phase/{j + first}/SpaceGroupNumber")[0]) != int(p.spacegroup):
                raise Violation("header", f"{what}: space group of phase {j + first}")
        c = {k: get("Data/" + v) for k, v in dict(e0="Phi1", e1="Phi", e2="Phi2", x="X Position", y="Y Position",
                                                  pq="Pattern Quality", iq="IQ", ci="CI", phase="Phase", fit="Fit").items()}
        if "Version" not in f or "Manufacturer" not in f:
            raise Violation("truncated", f"{what}: the file ends before Version and Manufacturer")
        if c["phase"].dtype.kind not in "iu":
            raise Violation("values", f"{what}: phase is stored as {c['phase'].dtype}")
        points(w, c, dict(e=2e-5, x=1e-3, y=1e-3, pq=1e-2, iq=1e-4, ci=1e-5, fit=1e-4), what, first)


def read(w, kind, path, what):
    if not os.path.exists(path):
        raise Violation("truncated", f"{what}: there is no file")
    if kind == "ang":
        read_ang(w, path, what)
    else:
        read_oh5(w, path, what, kind)


# ------------------------------------------------------------------ a run
def export(w, kind, path):
    from pyebsdindex import ebsdfile
    if kind == "ang":
        ebsdfile.writeang(path, w.indexer, w.data, **w.kw)
    else:
        ebsdfile.writeoh5(path, w.indexer, w.data, version=kind, **w.kw)


def run(run):
    ch = run.ch
    d = os.path.join(scratch.fresh(), "work")
    os.mkdir(d)
    w = make(ch)
    before = w.data.copy()
    settings = repr(vars(w.indexer))
    kwb = repr(w.kw)
    jobs = []
    for i in range(ch.pick("exports", [1, 2, 3, 4], [2, 3, 2, 1])):
        kind = ch.pick("kind", ["ang", "8.6", "9.1"], [4, 4, 3])
        name = ch.pick("name", ["a", "b"]) + (".ang" if kind == "ang" else ".oh5")
        jobs.append((kind, os.path.join(d, name)))
    if ch.flag("garbage", 0.2):                # something longer is in the way
        with open(jobs[0][1], "wb") as f:
            f.write(b"old content\n" * 20000)
    run.case = dict(cols=w.ncols, rows=w.nrows, n=w.n, phases=w.phases, grid=w.grid,
                    exports=[(k, os.path.basename(p)) for k, p in jobs], readonly=not w.data.flags.writeable)
    run.log(repr(run.case))

    def action(todo):
        def fn():
            errs = []
            for k, p in todo:
                try:
                    export(w, k, p)
                    errs.append(None)
                except Exception as e:
                    errs.append((type(e).__name__, str(e)[:200], iosim._repo_where(e.__traceback__)))
                    break
            same = w.data.tobytes() == before.tobytes() and w.data.dtype == before.dtype
            return errs, same, repr(vars(w.indexer)) == settings and repr(w.kw) == kwb
        return fn

    def unchanged(v, what):
        if not v[1]:
            raise Violation("caller", f"{what}: the caller's results have been changed; {run.case}")
        if not v[2]:
            raise Violation("caller", f"{what}: the caller's settings have been changed; {run.case}")

    o = iosim.attempt(run, "undisturbed", d, action(jobs))
    if o.kind != "ok":
        raise Violation("error", f"undisturbed: {o.kind} {o.exc} {o.msg}; {run.case}")
    for i, e in enumerate(o.value[0]):
        if e is not None:
            raise Violation("error", f"undisturbed export {i + 1} ({jobs[i][0]}) raised {e}; {run.case}")
    unchanged(o.value, "undisturbed")
    last = {p: k for k, p in jobs}
    for p, k in last.items():
        read(w, k, p, f"undisturbed {k}, {run.case}")
    run.nontrivial = len(jobs) > 1
    for k in range(ch.int("attempts", 0, 3, default=0)):
        job = jobs[ch.int("job", 0, len(jobs) - 1)]
        o = iosim.attempt(run, f"count{k}", d, action([job]), quiet=True)
        if ch.flag("gone", 0.5):
            os.unlink(job[1])
        h5 = job[0] != "ang"
        plan = iosim.draw(ch, o.counts, [x for x in iosim.WRITE_FAULTS if not (h5 and x == ("read", "EOF"))], label=f"f{k}")
        o = iosim.attempt(run, f"attempt{k}", d, action([job]), plan, h5=h5)
        what = f"{job[0]} under {plan}"
        if o.fired:
            run.nontrivial = True
        if o.kind == "signal" and not h5:
            raise Violation("crash", f"{what}: {o.msg}; {run.case}")
        if o.kind == "exc":
            raise Violation("error", f"{what}: {o.exc} {o.msg}")
        if o.kind == "ok":
            unchanged(o.value, what)
            if o.value[0][0] is None:
                run.probe("returned_under_fault" if o.fired else "fault_not_met")
                read(w, job[0], job[1], f"{what} returned; {run.case}")
            else:
                run.probe("error_reported")
        o = iosim.attempt(run, f"again{k}", d, action([job]))
        if o.kind != "ok" or o.value[0][0] is not None:
            raise Violation("again", f"the export fails after an earlier one was hit by {plan}: {o!r} {o.value}; {run.case}")
        read(w, job[0], job[1], f"after {what}, again; {run.case}")


def cleanup():
    scratch.drop()
