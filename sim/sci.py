"""The package under test, imported from /repo behind the simulated seams, and small shared workloads."""
import contextlib
import gc
import io
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def load(ray=True, cl=False, serial=False, par=False):
    """Install the seams, import the package from the current tree. Returns the package."""
    from . import simclock
    simclock.install()
    if ray:
        from . import simray
        simray.install()
    if cl:
        from . import simcl
        simcl.install()
    if serial:
        from . import nl
        nl.install()
    if par:
        from . import simpar
        simpar.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pyebsdindex
    assert os.path.realpath(pyebsdindex.__file__).startswith(os.path.realpath(REPO)), pyebsdindex.__file__
    gc.disable()
    return pyebsdindex


_base = None


def base_pattern():
    global _base
    if _base is None:
        import matplotlib.pyplot as plt
        p = plt.imread(os.path.join(REPO, "pyebsdindex/tests/data/al_sim_20kv/al_sim_20kv.png"))
        if p.ndim == 3:
            p = p[..., 0]
        _base = p.astype("float32")
    return _base


def make_patterns(n, shape, seed, dtype="float32"):
    """n distinct patterns of the given shape: the simulated Al pattern, shifted, scaled and with noise."""
    import numpy as np
    b = base_pattern()
    rng = np.random.default_rng(seed)
    H, W = shape
    out = np.empty((n, H, W), dtype=np.float64)
    for i in range(n):
        fy, fx = b.shape[0] / H, b.shape[1] / W
        yy = (np.arange(H) * fy + rng.integers(0, 8)) % b.shape[0]
        xx = (np.arange(W) * fx + rng.integers(0, 8)) % b.shape[1]
        im = b[np.ix_(yy.astype(int), xx.astype(int))].astype(np.float64)
        im = im * (0.6 + 0.4 * rng.random()) + 0.05 * rng.random((H, W)) + 0.1 * rng.random()
        if rng.random() < 0.15:
            im = 0.3 + 0.4 * rng.random((H, W))          # nothing to index
        out[i] = im
    if dtype == "float32":
        return out.astype(np.float32)
    if dtype == "uint16":
        return (out / out.max() * 60000).astype(np.uint16)
    if dtype == "uint8":
        return (out / out.max() * 250).astype(np.uint8)
    raise ValueError(dtype)


@contextlib.contextmanager
def quiet():
    """Swallow what the package prints (a caught print must not reach our own stdout)."""
    buf = io.StringIO()
    so = sys.stdout
    sys.stdout = buf
    try:
        yield buf
    finally:
        sys.stdout = so


def same(a, b):
    """Bitwise equality of (structured) arrays, NaN equal to NaN."""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.names:
        return all(same(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


RTOL, ATOL = 1e-5, 1e-6


def _eq(x, y):
    import numpy as np
    if x.dtype.kind in "fc":
        with np.errstate(all="ignore"):
            return (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= ATOL + RTOL * np.abs(y))
    return x == y


def close(a, b, axis):
    """None if two (structured) results agree: integers exactly, floats to rounding (vectorised reductions in the
    package round differently with the batch size); else where they differ along the pattern axis."""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if a.dtype != b.dtype:
        return f"dtype {a.dtype} instead of {b.dtype}"
    bad, names = differ(a, b, axis)
    if not bad:
        return None
    bad = sorted(bad)
    return f"{len(bad)} of {a.shape[axis]} patterns differ (first {bad[:6]}) in {names}"


def differ(a, b, axis):
    """(indices of the patterns, fields) that differ between two results of the same shape."""
    import numpy as np
    bad = set()
    names = []
    for n in (a.dtype.names or [None]):
        x, y = (a[n], b[n]) if n else (a, b)
        x = np.moveaxis(x, axis, 0).reshape(x.shape[axis], -1)
        y = np.moveaxis(y, axis, 0).reshape(y.shape[axis], -1)
        d = ~_eq(x, y).all(axis=1)
        if d.any():
            names.append(n)
            bad |= set(np.nonzero(d)[0].tolist())
    return bad, names
