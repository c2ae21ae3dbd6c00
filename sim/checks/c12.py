"""C12: pattern-centre optimisation keeps its promises whatever the stream of random numbers is."""
import contextlib
import io

import numpy as np

from .. import ix, sci
from ..core import Violation

LOAD = dict(ray=False)
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 150000}
CPU_LIMIT = 150
RULE = ("half of the runs drive the swarm optimiser with a generated objective (bowls in and out of the limits, plateaus, "
        "steps, NaN and infinite regions, failing at the n-th evaluation), particles 1-20, 1-25 iterations, 1-4 dimensions, "
        "two searches with one optimiser; the other half run optimize and optimize_pso on patterns (all vendor conventions, "
        "batch and joint, square and other patterns, blank patterns); the simulator draws every random number, with streams "
        "that are ordinary, at the ends of their range, clustered or repeated; distinct: digest of the evaluations; "
        "non-trivial: at least ten evaluations")
ORDER = "digest of the evaluated locations and their costs"
REAL = ["pyebsdindex.pcopt, scipy's Nelder-Mead, band detection and indexing of the patterns"]
STUB = ["numpy.random (every stream is drawn by the simulator)", "the objective, in the runs that generate one"]
ASSUME = ["normal draws are never all zero", "the search limits of an EMSOFT search are in the EDAX convention it is converted to"]


def prepare():
    ix.compile_all()


prewarm = ix.prewarm


class Stream:
    """numpy.random under the control of the run."""

    def __init__(self, ch):
        self.ch = ch
        self.rs = np.random.RandomState(ch.subseed("stream") % 2 ** 31)
        self.style = ch.pick("style", ["plain", "ends", "cluster", "repeat", "mixed"], [4, 2, 1, 1, 3])
        self.gen = np.random.Generator(np.random.PCG64(ch.subseed("gen")))
        self.last = {}

    def unit(self, size, kind):
        u = self.rs.random_sample(size)
        s = self.style
        if s == "mixed":
            s = ["plain", "ends", "cluster", "repeat"][self.rs.randint(4)]
        if s == "ends":
            pick = self.rs.random_sample(u.shape if size is not None else None) < 0.5
            e = np.where(self.rs.random_sample(u.shape if size is not None else None) < 0.5, 0.0, 1.0 - 2.0 ** -53)
            u = np.where(pick, e, u)
        elif s == "cluster":
            u = 0.5 + 1e-3 * (u - 0.5)
        elif s == "repeat":
            k = (kind, repr(size))
            u = self.last.setdefault(k, u)
        return np.array(u) if size is not None else float(u)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self.unit(size, "u")

    def random(self, size=None):
        return self.unit(size, "r")

    def rand(self, *size):
        return self.unit(size or None, "r")

    def normal(self, loc=0.0, scale=1.0, size=None):
        s = self.style
        v = self.rs.normal(size=size)
        if s in ("ends", "mixed") and self.rs.random_sample() < 0.5:
            v = v * np.where(self.rs.random_sample(np.shape(v)) < 0.2, 6.0, 1.0)
        return loc + scale * v

    def randn(self, *size):
        return self.normal(size=size or None)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    @contextlib.contextmanager
    def installed(self):
        names = dict(uniform=self.uniform, random=self.random, random_sample=self.random, rand=self.rand,
                     normal=self.normal, randn=self.randn, standard_normal=self.standard_normal,
                     default_rng=lambda *a, **k: self.gen)
        old = {n: getattr(np.random, n) for n in names}
        np.random.seed(self.ch.subseed("legacy") % 2 ** 31)
        for n, f in names.items():
            setattr(np.random, n, f)
        try:
            yield
        finally:
            for n, f in old.items():
                setattr(np.random, n, f)


class Boom(Exception):
    pass


def objective(ch, dims, lb, ub):
    """(function, description)"""
    kind = ch.pick("obj", ["bowl", "plateau", "steps", "waves", "nan", "inf", "allnan", "allinf", "negative", "corner"],
                   [4, 1, 2, 2, 2, 2, 1, 1, 2, 2])
    rs = np.random.RandomState(ch.subseed("obj.seed") % 2 ** 31)
    c = lb + (ub - lb) * rs.uniform(-0.3, 1.3, dims)
    if kind == "corner":
        c = np.where(rs.rand(dims) < 0.5, lb, ub)
    w = np.maximum(ub - lb, 1e-9)

    def f(x):
        r = float(np.sum(((x - c) / w) ** 2))
        if kind == "plateau":
            return 3.0
        if kind == "steps":
            return float(np.floor(5 * r))
        if kind == "waves":
            return r + float(np.sum(1 - np.cos(12 * (x - c) / w)))
        if kind == "nan":
            return r if (x - lb)[0] > 0.4 * w[0] else float("nan")
        if kind == "inf":
            return r if (x - lb)[-1] > 0.5 * w[-1] else float("inf")
        if kind == "allnan":
            return float("nan")
        if kind == "allinf":
            return float("inf")
        if kind == "negative":
            return r - 10.0
        return r
    return f, kind


def check_evals(evals, lb, ub, start, limit, best, loc, what):
    """evals: [(location, value)]. limit: the number of evaluations allowed."""
    if len(evals) > limit:
        raise Violation("count", f"{what}: {len(evals)} evaluations, {limit} expected at most")
    for i, (x, v) in enumerate(evals):
        if not (np.all(x >= lb) and np.all(x <= ub)):
            raise Violation("bounds", f"{what}: evaluation {i} at {x} is outside of {lb} .. {ub}")
    vals = np.array([v for x, v in evals])
    good = vals[vals < np.inf]
    if len(good) == 0:
        if best is not None and best < np.inf:
            raise Violation("best", f"{what}: cost {best} returned, evaluated {vals[:20]}")
        if not np.array_equal(loc, start):
            raise Violation("best", f"{what}: {loc} returned though no evaluation was finite; start {start}")
        return
    m = good.min()
    if best is not None and not np.float32(best) == np.float32(m):
        raise Violation("best", f"{what}: cost {best} returned, the best of {len(vals)} evaluations is {m}")
    if not any(v == m and np.array_equal(x, loc) for x, v in evals):
        raise Violation("best", f"{what}: {loc} returned, the best evaluation is {[x for x, v in evals if v == m][0]} ({m})")


def swarm(run):
    from pyebsdindex import pcopt
    ch = run.ch
    dims = ch.pick("dims", [3, 1, 2, 4], [5, 1, 1, 1])
    rs = np.random.RandomState(ch.subseed("box") % 2 ** 31)
    npart = ch.int("particles", 1, 20, default=5)
    opt = pcopt.PSOOpt(dimensions=dims, n_particles=npart, c1=ch.pick("c1", [2.05, 3.5, 0.0, 8.0]),
                       c2=ch.pick("c2", [2.05, 3.5, 0.0, 8.0]), w=ch.pick("w", [0.8, 0.1, 1.5]),
                       hyperparammethod=ch.pick("hyper", ["static", "auto"]),
                       early_exit=ch.pick("early", [None, 1e-4, 0.05, 10.0], [4, 2, 1, 1]))
    st = Stream(ch)
    held = []
    with st.installed():
        for c in range(ch.int("searches", 1, 3)):
            lb = rs.uniform(-3, 1, dims)
            ub = lb + rs.uniform(0.01, 4, dims) * (0.0 if ch.flag("point", 0.05) else 1.0)
            f, kind = objective(ch, dims, lb, ub)
            given = ch.pick("given", ["both", "bounds", "edge", "none"], [6, 1, 1, 1])
            start, bounds = lb + (ub - lb) * rs.uniform(0, 1, dims), (lb, ub)
            if given == "edge":
                start = np.where(rs.rand(dims) < 0.5, lb, ub)
            kw = dict(start=start.copy(), bounds=(lb.copy(), ub.copy()))
            if given == "bounds":
                del kw["start"]
                start = None
            if given == "none":
                kw = {}
                start, lb, ub = np.zeros(dims), -np.ones(dims), np.ones(dims)
                f, kind = objective(ch, dims, lb, ub)
            niter = ch.int("niter", 1, 25, default=3)
            fail = ch.int("fail", 1, npart * niter) if ch.flag("fails", 0.1) else None
            shaped = ch.flag("shaped", 0.3)
            evals = []

            def fun(x, tag=None):
                v = f(np.asarray(x, dtype=float).ravel())
                evals.append((np.array(x, dtype=float).ravel(), v))
                if fail == len(evals):
                    run.fault("objective_raises")
                    raise Boom()
                if tag != "t":
                    raise Violation("arguments", f"the objective got {tag!r}")
                return np.array([v]) if shaped else v
            out = None
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    out = opt.optimize(fun, niter=niter, verbose=ch.int("verbose", 0, 1), tag="t", **kw)
                except Boom:
                    pass
            what = f"search {c} ({kind}, {given}, {npart} particles, {niter} iterations, {dims} dimensions)"
            run.log(f"{what} {len(evals)} {out}")
            run.order.append([(x.tolist(), v) for x, v in evals[-5:]])
            if fail is not None and len(evals) >= fail and out is not None:
                raise Violation("swallowed", f"{what}: the objective failed but a result was returned")
            for k, a in (("start", start), ("bounds", (lb, ub))):
                if k in kw and a is not None and not np.array_equal(np.asarray(kw[k]), np.asarray(a)):
                    raise Violation("inputs", f"{what}: {k} changed")
            if out is None:
                continue
            if len(evals) >= 10:
                run.nontrivial = True
            run.probe("swarm_" + kind)
            if start is None:
                start = 0.5 * (lb + ub)
            best, loc = out
            check_evals(evals, lb, ub, start, npart * niter, best, np.asarray(loc), what)
            fs = f(start)
            if not np.isnan(fs) and not best <= fs:
                raise Violation("worse", f"{what}: cost {best} at {loc}, {fs} at the start {start}")
            held.append((loc, np.array(loc), what))
            for a, b, w in held:
                if not np.array_equal(a, b):
                    raise Violation("alias", f"{w}: the returned location changed afterwards")
    run.case = dict(kind="swarm", particles=npart, dims=dims, style=st.style)


def to_edax(PC, shape):
    """An EMSOFT pattern centre in the EDAX convention (both as Radon.radon2pole reads them)."""
    H, W = shape
    return np.array([(0.5 * W - PC[0]) / W, (0.5 * H + PC[1]) / H, PC[2] / PC[3] / min(H, W)])


def patterns(run):
    from pyebsdindex import pcopt
    ch = run.ch
    s = ix.settings(ch)
    shape = ch.pick("shape", ix.SHAPES)
    n = ch.int("n", 1, 4, default=1)
    pats = sci.make_patterns(n, shape, ch.subseed("data"), ch.pick("dtype", ["float32", "uint8", "uint16"]))
    if ch.flag("blank", 0.1):
        pats[ch.int("blank.i", 0, n - 1)] = 7
        run.probe("blank_pattern")
    single = n == 1 and ch.flag("2d", 0.3)
    obj = ix.fresh(s, shape)
    before = ix.snapshot(obj)
    batch = ch.flag("batch", 0.5)
    method = ch.pick("method", ["pso", "nm"], [3, 1])
    if method == "nm":
        n = min(n, 2)
        pats = pats[:n]
    pc0 = None
    if ch.flag("pc0", 0.6):
        pc0 = np.array(ix.PCS[s.vendor]) * (1 + 0.01 * ch.int("pc0.k", -3, 3, default=1))
    start = np.array(pc0 if pc0 is not None else obj.PC, dtype=float)
    em = s.vendor == "EMSOFT"
    st0 = to_edax(start, shape) if em else start
    kw = {}
    if pc0 is not None:
        kw["PC0"] = ch.pick("pc0.form", [lambda: pc0.copy(), lambda: pc0.tolist(), lambda: tuple(pc0.tolist())])()
    keep = repr(kw)
    records = []
    orig = getattr(pcopt, "_optfunction", None)

    def rec(PC_i, *a, **k):
        v = orig(PC_i, *a, **k)
        bd = k.get("banddat", a[1] if len(a) > 1 else None)
        if bd is not None:
            for x, y in zip(np.atleast_2d(np.array(PC_i, dtype=float)), np.ravel(v)):
                records.append((x.copy(), float(y), bd["aveloc"].copy()))
        return v
    limit = 0.2
    niter, npart = ch.pick("niter", [3, 1, 2, 8], [4, 2, 2, 1]), ch.pick("particles", [5, 8, 12, 2], [4, 2, 1, 1])
    if method == "pso":
        kw.update(niter=niter, nswarmparticles=npart, return_cost=ch.flag("cost", 0.7) or None, verbose=ch.int("verbose", 0, 1))
        kw["return_cost"] = bool(kw["return_cost"])
        if ch.flag("limit", 0.5):
            limit = ch.pick("limit.v", [0.05, np.array([0.1, 0.02, 0.05]), 0.0])
            kw["search_limit"] = limit
        if ch.flag("par", 0.2):
            kw["pswarmpar"] = {"c1": 2.0, "c2": 1.0, "w": 0.5}
    st = Stream(ch)
    what = f"{method} {s.vendor} {shape} n={n} batch={batch} {kw}"
    given = pats[0] if single else pats
    kept = pats.copy()
    if orig is not None:
        pcopt._optfunction = rec
    try:
        with st.installed(), contextlib.redirect_stdout(io.StringIO()):
            if method == "pso":
                out = pcopt.optimize_pso(given, obj, batch=batch, **kw)
            else:
                out = pcopt.optimize(given, obj, batch=batch, **kw)
    finally:
        if orig is not None:
            pcopt._optfunction = orig
    cost = None
    if kw.get("return_cost"):
        out, cost = out
    out = np.asarray(out)
    run.log(f"{what} -> {out.tolist()} {cost} {len(records)}")
    run.order.append([(x.tolist(), v) for x, v, b in records[-5:]])
    run.nontrivial = len(records) >= 10
    run.probe(f"{method}_{'batch' if batch else 'joint'}")
    run.probe("vendor_" + s.vendor)
    run.case = dict(kind=method, vendor=s.vendor, shape=shape, n=n, batch=batch, style=st.style, evaluations=len(records))
    if not np.array_equal(kept, pats) or (pc0 is not None and repr({k: kw[k] for k in ("PC0",)}) != keep):
        raise Violation("inputs", f"{what}: an argument changed")
    if ix.snapshot(obj) != before:
        raise Violation("settings", f"{what}: {before} -> {ix.snapshot(obj)}")
    want = ((n,) if batch else ()) + ((4,) if em else (3,))
    if out.shape != want:
        raise Violation("shape", f"{what}: result of shape {out.shape}, {want} expected")
    if cost is not None and np.shape(np.squeeze(cost)) != ((n,) if batch and n > 1 else ()):
        raise Violation("shape", f"{what}: costs of shape {np.shape(cost)}")
    if not records:
        return
    # the bands of each pattern, to tell whose evaluation it was
    groups = []
    plain = ix.fresh(s, shape).bandDetectPlan.find_bands(pats)["aveloc"]
    if batch:
        for i in range(n):
            mine = [(x, v) for x, v, b in records if b.shape[0] == 1 and np.allclose(b[0], plain[i], atol=1e-4)]
            groups.append((f"{what} pattern {i}", mine, out[i], None if cost is None else np.ravel(cost)[i]))
        alien = [1 for x, v, b in records if not any(b.shape[0] == 1 and np.allclose(b[0], p, atol=1e-4) for p in plain)]
        if alien:
            raise Violation("batch", f"{what}: {len(alien)} evaluations are not on the bands of one of the patterns")
        if len({p.tobytes() for p in plain}) < n:
            return                                        # twins (blank patterns) cannot be told apart
    else:
        for x, v, b in records:
            if b.shape != plain.shape or not np.allclose(b, plain, atol=1e-4):
                raise Violation("batch", f"{what}: an evaluation did not use the bands of all patterns")
        groups.append((what, [(x, v) for x, v, b in records], out, cost))
    for w, mine, pc, co in groups:
        if not mine:
            raise Violation("batch", f"{w}: no evaluation on the bands of this pattern")
        if em:
            if abs(pc[3] - start[3]) > 1e-9 * start[3]:
                raise Violation("convention", f"{w}: pixel size {pc[3]}, given {start[3]}")
            pc = to_edax(pc, shape)
        # the evaluated location the result stands for
        m = min(v for x, v in mine)
        near = [(x, v) for x, v in mine if np.allclose(x, pc, rtol=0, atol=1e-7 if em else 0)]
        if not near:
            raise Violation("best", f"{w}: {pc} was never evaluated (best {[x for x, v in mine if v == m][0]})")
        fs = [v for x, v in mine if np.allclose(x, st0, rtol=0, atol=1e-7)]
        if method == "pso":
            lb, ub = st0 - np.array(limit) - 1e-12, st0 + np.array(limit) + 1e-12
            check_evals(mine, lb, ub, st0, max(5, npart) * niter, co, near[0][0] if min(v for x, v in near) == m else pc, w)
            if not fs:
                raise Violation("start", f"{w}: the start {st0} was not evaluated")
        elif len(mine) < 590 and min(v for x, v in near) > m:
            raise Violation("best", f"{w}: {pc} ({near[0][1]}) returned, {m} was evaluated")
        if fs and min(v for x, v in near) > fs[0]:
            raise Violation("worse", f"{w}: cost {near[0][1]}, {fs[0]} at the start")


def run(run):
    from pyebsdindex import pcopt
    if run.ch.pick("part", ["swarm", "patterns"], [3, 2]) == "swarm" and hasattr(pcopt, "PSOOpt"):
        swarm(run)
    else:
        patterns(run)
