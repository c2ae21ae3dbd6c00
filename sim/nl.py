"""NLPAR on the CPU: the parallel kernels compiled as ordinary bounds-checked loops (no threads: every run can fork), a
plain reference of the averaging formula, and random denoising jobs."""
import os

import numpy as np

from . import files

_done = False


def install():
    """Before the package is imported: numba functions of nlpar_cpu are compiled without threads and with bounds
    checks, cached apart from the real ones."""
    global _done
    if _done:
        return
    _done = True
    import numba

    def seam(real):
        def deco(*a, **kw):
            if a and callable(a[0]):
                return deco(**kw)(a[0])

            def wrap(fn):
                if not (kw.get("parallel") or fn.__module__.endswith("nlpar_cpu")):
                    return real(*a, **kw)(fn)
                k = dict(kw, parallel=False, boundscheck=True)
                home = numba.config.CACHE_DIR
                numba.config.CACHE_DIR = os.path.join(os.environ.get("HOME", "/tmp"), ".serial-kernels")
                try:
                    return real(*a, **k)(fn)
                finally:
                    numba.config.CACHE_DIR = home
            return wrap
        return deco
    numba.jit, numba.njit = seam(numba.jit), seam(numba.njit)


# ------------------------------------------------------------------ reference
def automask(H, W):
    """The pixels within 49 % of the smaller side around the pattern's centre."""
    r = min(H, W) * 0.98 * 0.5
    x = np.minimum(np.arange(W), W - np.arange(W)).astype(float)
    y = np.minimum(np.arange(H), H - np.arange(H)).astype(float)
    m = np.sqrt(y[:, None] ** 2 + x[None] ** 2) < np.float32(r)
    return np.roll(m, (H // 2, W // 2), axis=(0, 1))


def sigma_ref(data, rows, cols, mask, satprot, nn=1):
    """Noise of every pattern: the smallest distance to a neighbour."""
    P = data.reshape(rows, cols, -1).astype(np.float64)
    top = P.max()
    lim = np.float32(top) * np.float32(0.9961) if satprot else top + 1
    P = P[:, :, mask.ravel()]
    out = np.full((rows, cols), 1e24)
    for j in range(rows):
        for i in range(cols):
            for jj in range(max(0, j - nn), min(rows, j + nn + 1)):
                for ii in range(max(0, i - nn), min(cols, i + nn + 1)):
                    if (i, j) == (ii, jj):
                        continue
                    ok = (P[j, i] < lim) & (P[jj, ii] < lim)
                    d2 = ((P[j, i] - P[jj, ii])[ok] ** 2).sum()
                    if d2 >= 1e-3:
                        out[j, i] = min(out[j, i], d2 / (2 * (ok.sum() + 1e-12)))
    return np.sqrt(out)


def window(k, sr, n):
    """The 2 sr + 1 positions around k, moved inside [0, n) where it would leave it."""
    if n <= 2 * sr + 1:
        return range(0, n)
    a = min(max(k - sr, 0), n - 2 * sr - 1)
    return range(a, a + 2 * sr + 1)


def nlpar_ref(data, rows, cols, mask, sigma, sr, lam, dthresh, satprot, offset=0.0):
    P = data.reshape(rows, cols, -1).astype(np.float64)
    top = P.max()
    lim = np.float32(top) * np.float32(0.999) if satprot else top + 1
    M = P[:, :, mask.ravel()]
    s2 = np.asarray(sigma, dtype=np.float64) ** 2
    out = np.zeros_like(P)
    for j in range(rows):
        for i in range(cols):
            acc, tot = 0.0, 0.0
            for jj in window(j, sr, rows):
                for ii in window(i, sr, cols):
                    if (i, j) == (ii, jj):
                        w = 1.0 + offset
                    else:
                        ok = (M[j, i] < lim) & (M[jj, ii] < lim)
                        n2 = float(ok.sum())
                        d2 = ((M[j, i] - M[jj, ii])[ok] ** 2).sum()
                        v = s2[j, i] + s2[jj, ii]
                        d2 -= n2 * v
                        dn = v * np.sqrt(2 * n2)
                        d = d2 / dn if dn > 1e-8 else 1e6 * n2
                        w = np.exp(-max(d - dthresh, 0.0) / lam ** 2)
                    acc = acc + w * P[jj, ii]
                    tot += w
            out[j, i] = acc / tot
    return out.reshape(data.shape)


def store_ref(out, dtype, rescale):
    """The averaged patterns as they end up in a file of integers (before truncation)."""
    hi = np.iinfo(dtype).max
    if rescale:
        out = out - out.min(axis=(1, 2), keepdims=True)
        out = out * (hi / out.max(axis=(1, 2), keepdims=True))
    return np.clip(out, 0, hi)


# ------------------------------------------------------------------ random jobs
FORMATS = ["up1", "up2", "up2v1", "ebsp2", "ebsp5", "tfpatback", "oh5", "kikuchi", "bruker", "h5"]


def make_scan(ch, lab, d, name, fmt, maxrows=9, maxcols=8, maxpx=9, each=False, dark=0.0):
    """A scan file. Every row (`each`: every pattern) holds a saturated pixel, but for patterns that are all zero (`dark`: how
    often there are some)."""
    rows = ch.int(lab + "rows", 1, maxrows, default=4)
    cols = ch.int(lab + "cols", 1, maxcols, default=3)
    if fmt.startswith("ebsp"):
        rows, cols = max(2, rows), max(2, cols)
    H, W = ch.int(lab + "H", 2, maxpx, default=4), ch.int(lab + "W", 2, maxpx, default=min(5, maxpx))
    rng = np.random.default_rng(ch.subseed(lab + "px"))
    dt = files.dtype_of(fmt, ch.int(lab + "u16", 0, 1))
    hi = int(np.iinfo(dt).max)
    n = rows * cols
    kinds = rng.random((ch.int(lab + "grains", 1, 4, default=2), H, W))
    which = np.sort(rng.integers(0, len(kinds), n))
    amp = ch.pick(lab + "noise", [0.1, 0.02, 0.3])
    x = 0.05 + 0.6 * kinds[which] + amp * rng.random((n, H, W))
    data = np.floor(np.minimum(x, 0.98) * hi).astype(dt)
    if ch.flag(lab + "dup", 0.2) and n > 1:          # the same pattern stored twice in a row
        k = rng.integers(1, n)
        data[k] = data[k - 1]
    if each:
        data[np.arange(n), rng.integers(0, H, n), rng.integers(0, W, n)] = hi
        if dark and ch.flag(lab + "dark", dark):
            a = rng.integers(0, n)
            data[a:a + rng.integers(1, 6)] = 0
    for r in range(rows if not each else 0):
        data[r * cols + rng.integers(0, cols), rng.integers(0, H), rng.integers(0, W)] = hi
    return files.make(fmt, d, name, rows, cols, H, W, 2 * ch.int(lab + "shuffle", 0, 1) + 1 if fmt.startswith("ebsp") else 0,
                      data=data)


def params(ch, lab, rows):
    p = dict(chunksize=ch.int(lab + "chunk", 0, rows + 1, default=0),
             searchradius=ch.int(lab + "sr", 0, 4, default=1),
             lam=ch.pick(lab + "lam", [0.7, 0.5, 1.2, 3.0]),
             dthresh=ch.pick(lab + "dthresh", [0.0, 0.5], [3, 1]))
    if ch.flag(lab + "rescale", 0.2):
        p["rescale"] = True
    if ch.flag(lab + "off", 0.2):
        p["diff_offset"] = 0.35
    return p


def geometry_kw(pf):
    return dict(nrows=pf.nrows, ncols=pf.ncols) if pf.fmt in ("up2v1", "h5") else {}


def warm():
    """Compile the kernels. Whatever fails here is for the runs to judge."""
    from pyebsdindex.nlpar_cpu import NLPAR
    from . import scratch
    d = scratch.fresh()
    pf = files.make("up1", d, "warm", 3, 3, 4, 4, 1)
    for given in (True, False):
        try:
            o = NLPAR(pf.path, searchradius=1)
            if given:
                o.sigma = o.calcsigma()
            o.calcnlpar(chunksize=2, verbose=0, diff_offset=0.5)
        except Exception:
            pass
    scratch.drop()


# ------------------------------------------------------------------ the averaging as the GPU does it
def mirror(k, n):
    """Where the GPU looks for position k of n: positions off the scan are mirrored."""
    k = abs(k)
    k = k if k < n else 2 * n - k - 1
    return max(k, 0)


class GpuRef:
    """The whole scan in one piece: every position of a window counts, mirrored ones again."""

    def __init__(self, pf, mask, satprot):
        self.rows, self.cols, self.n = pf.nrows, pf.ncols, pf.n
        self.P = pf.data.reshape(pf.n, -1).astype(np.float64)
        self.shape, self.dtype = pf.data.shape, pf.data.dtype
        top = self.P.max()
        lim = np.float32(top) * np.float32(0.9961) if satprot else top + 1
        ok = ((self.P < lim) & mask.ravel()[None]).astype(np.float64)
        X = self.P * ok
        self.N = ok @ ok.T
        self.D = np.maximum(np.rint((X * X) @ ok.T + ok @ (X * X).T - 2 * X @ X.T), 0)   # integers: exact
        self.windows = {}

    def window(self, nn):
        """(n, (2 nn + 1) ** 2): the patterns at the positions around each pattern."""
        if nn not in self.windows:
            ys = np.array([[mirror(y + k, self.rows) for k in range(-nn, nn + 1)] for y in range(self.rows)])
            xs = np.array([[mirror(x + k, self.cols) for k in range(-nn, nn + 1)] for x in range(self.cols)])
            w = ys[:, None, :, None] * self.cols + xs[None, :, None, :]
            self.windows[nn] = w.reshape(self.n, -1)
        return self.windows[nn]

    def sigma(self, nn=1):
        w = self.window(nn)
        me = np.arange(self.n)[:, None]
        d, c = self.D[me, w], self.N[me, w]
        s = np.where((w != me) & (d > 1e-3), d / (2 * np.maximum(c, 1e-6)), 1e24)
        return np.sqrt(s.min(axis=1)).reshape(self.rows, self.cols)

    def distances(self, nn, normalize):
        """(distances, counts, how far a distance may be off)"""
        w = self.window(nn)
        me = np.arange(self.n)[:, None]
        d, c = self.D[me, w], self.N[me, w] + 1e-6
        d = np.where(w == me, 0.0, d)
        tol = 3e-5 * d + 1e-3
        if normalize:
            s2 = self.sigma(nn).ravel() ** 2
            v = s2[:, None] + s2[w]
            big = c > 1e-3
            f = v * np.sqrt(2 * c)
            tol = np.where(big, 3e-5 * (d + c * v) / f + 1e-4, tol)
            d = np.where(big, (d - c * v) / f, d)
        return [a.reshape(self.rows, self.cols, -1) for a in (d, c, tol)]

    def average(self, sigma, sr, lam, dthresh, offset=0.0):
        w = self.window(sr)
        me = np.arange(self.n)[:, None]
        d2, n2 = self.D[me, w], self.N[me, w]
        s2 = np.asarray(sigma, dtype=np.float64).ravel() ** 2
        v = s2[:, None] + s2[w]
        dn = v * np.sqrt(2 * n2)
        d = np.where(dn > 1e-8, (d2 - n2 * v) / np.maximum(dn, 1e-300), 1e6 * n2)
        d = np.where((w == me) | (d2 <= 1e-3), 0.0, d)
        wt = np.exp(-np.maximum(d - dthresh, 0.0) / lam ** 2) + offset * (w == me)
        W = np.zeros((self.n, self.n))
        np.add.at(W, (np.repeat(me, w.shape[1], axis=1), w), wt)
        return (W @ self.P / W.sum(axis=1, keepdims=True)).reshape(self.shape)

    def rescale(self, out, dtype, rescale):
        hi = np.iinfo(dtype).max
        if rescale:
            out = out - out.min(axis=(1, 2), keepdims=True)
            m = out.max(axis=(1, 2), keepdims=True)
            out = np.where(m > 0, out * (hi / np.where(m > 0, m, 1)), 0)
        return np.clip(out, 0, hi)
