"""Pattern files of every supported format, built independently of the package (struct / h5py), and read back the
same way: the oracle for the reading and writing checks."""
import os
import struct

import h5py
import numpy as np

FORMATS = ["up1", "up2", "up1v1", "up2v1", "ebsp1", "ebsp2", "ebsp2nopos", "ebsp4", "ebsp5", "tfpat", "tfpatback",
           "oh5", "kikuchi", "bruker", "oina", "oinaraw", "h5"]
RAW = FORMATS[:11]
H5 = FORMATS[11:]
EXT = {"up1": ".up1", "up2": ".up2", "up1v1": ".up1", "up2v1": ".up2", "ebsp1": ".ebsp", "ebsp2": ".ebsp",
       "ebsp2nopos": ".ebsp", "ebsp4": ".ebsp", "ebsp5": ".ebsp", "tfpat": ".pat", "tfpatback": ".pat",
       "oh5": ".oh5", "kikuchi": ".h5", "bruker": ".h5", "oina": ".h5oina", "oinaraw": ".h5oina", "h5": ".h5"}
VENDOR = {"up1": "EDAX", "up2": "EDAX", "up1v1": "EDAX", "up2v1": "EDAX", "oh5": "EDAX", "bruker": "BRUKER",
          "oina": "OXFORD", "kikuchi": "KIKUCHIPY"}


def dtype_of(fmt, choice=0):
    if fmt.startswith("up1"):
        return np.uint8
    if fmt.startswith("up2") or fmt.startswith("tfpat"):
        return np.uint16
    return np.uint16 if choice else np.uint8


class PatFile:
    """One pattern file on disk: fmt, map shape, pattern shape, the data it holds and where."""

    def __init__(self, fmt, path, data, nrows, ncols, xstep=0.5, ystep=0.5):
        self.fmt, self.path, self.nrows, self.ncols = fmt, path, nrows, ncols
        self.data = data
        self.n, self.H, self.W = data.shape
        self.xstep, self.ystep = xstep, ystep
        assert self.n == nrows * ncols

    @property
    def arg(self):
        """What to hand to the package as the file name."""
        return [self.path, "Scan 1/EBSD/Data/pats"] if self.fmt == "h5" else self.path

    def offset(self, i):
        """Byte offset of pattern i (raw formats)."""
        return self.offs[i]

    def xy(self):
        """Positions as stored / defined by the format; None where the format stores none."""
        c = np.arange(self.n) % self.ncols
        r = np.arange(self.n) // self.ncols
        if self.fmt in ("ebsp1", "ebsp2", "ebsp4", "ebsp5"):
            return np.column_stack([self.ex, self.ey])
        if self.fmt == "ebsp2nopos":
            return None
        if self.fmt.startswith("oina"):
            return np.column_stack([self.ex, self.ey])
        if self.fmt in ("h5", "up1v1", "up2v1"):
            return None                     # no geometry in the file
        return np.column_stack([(c - self.ncols * 0.5) * self.xstep, (r - self.nrows * 0.5) * self.ystep])

    def write(self):
        d, f = self.data, self.fmt
        es = d.dtype.itemsize
        per = self.H * self.W * es
        c = np.arange(self.n) % self.ncols
        r = np.arange(self.n) // self.ncols
        # beam positions as an instrument stores them: x grows, y falls
        self.ex = 10.0 + c * self.xstep
        self.ey = 7.0 - r * self.ystep
        out = None
        if f in ("up1", "up2"):
            out = bytearray(struct.pack("<4IB2IB2d", 3, self.W, self.H, 42, 0, self.ncols, self.nrows, 0,
                                        self.xstep, self.ystep))
            assert len(out) == 42
            self.offs = [42 + i * per for i in range(self.n)]
            out += d.tobytes()
        elif f in ("up1v1", "up2v1"):
            out = bytearray(struct.pack("<4I", 1, self.W, self.H, 16))
            self.offs = [16 + i * per for i in range(self.n)]
            out += d.tobytes()
        elif f.startswith("ebsp"):
            v = int(f[4])
            pos = not f.endswith("nopos")
            head = 9 if v >= 4 else 8
            nh = 6 if v >= 5 else 4
            foot = (16 if v < 2 else 18) if pos else (0 if v < 2 else 1)
            stride = 4 * nh + per + foot
            base = head + 8 * self.n + (8 if v >= 5 else 0)
            order = np.arange(self.n)
            if getattr(self, "shuffle", 0) % 2:       # patterns may lie in the file in any order
                order = np.random.default_rng(self.shuffle).permutation(self.n)
            place = np.argsort(order)
            starts = [base + int(place[i]) * stride for i in range(self.n)]
            out = bytearray(struct.pack("<q", -v))
            if v >= 4:
                out += b"\x01"
            out += struct.pack("<%dQ" % self.n, *starts)
            if v >= 5:                # the reader finds the end of the offset table by this word
                out += struct.pack("<2I", self.H, self.W)
            for i in order:
                out += struct.pack("<%dI" % nh, *([0] * (nh - 3)), self.H, self.W, per)
                out += d[i].tobytes()
                if pos:
                    if v >= 2:
                        out += b"\x01" + struct.pack("<d", self.ex[i]) + b"\x01" + struct.pack("<d", self.ey[i])
                    else:
                        out += struct.pack("<2d", self.ex[i], self.ey[i])
                elif v >= 2:
                    out += b"\x00"
            self.offs = [s + 4 * nh for s in starts]
        elif f.startswith("tfpat"):
            back = f == "tfpatback"
            out = bytearray(struct.pack("<5IhBh", 1, self.ncols, self.nrows, self.W, self.H, -1, 16, -1 if back else 0))
            assert len(out) == 25
            if back:
                self.background = (np.arange(self.H * self.W) % 999 + 1).astype(np.uint16).reshape(self.H, self.W)
                out += self.background.tobytes()
            self.offs = []
            for i in range(self.n):
                out += struct.pack("<2I", int(c[i]), int(r[i]))
                self.offs.append(len(out))
                out += d[i].tobytes()
            self.xstep = self.ystep = 1.0
        else:
            self._write_h5(d)
            return self
        with open(self.path, "wb") as fh:
            fh.write(out)
        return self

    def _write_h5(self, d):
        f = self.fmt
        kw = {}
        with h5py.File(self.path, "w") as h:
            s = lambda t: np.array([t.encode()])                     # noqa: E731
            g = h.create_group("Scan 1/EBSD/Data")
            hd = h.create_group("Scan 1/EBSD/Header")
            if f == "oh5":
                h["Manufacturer"] = s("EDAX")
                h["Version"] = s("OIM Analysis 8.6.00 x64")
                g.create_dataset("Pattern", data=d, **kw)
                hd["nColumns"], hd["nRows"] = np.array([self.ncols], np.int32), np.array([self.nrows], np.int32)
                hd["Grid Type"] = s("SqrGrid")
                hd["Step X"], hd["Step Y"] = np.array([self.xstep], "f4"), np.array([self.ystep], "f4")
                self.h5path = "Scan 1/EBSD/Data/Pattern"
            elif f == "kikuchi":
                h["manufacturer"] = s("kikuchipy")
                h["version"] = s("0.7.0")
                g.create_dataset("patterns", data=d, **kw)
                hd["n_columns"], hd["n_rows"] = np.array([self.ncols]), np.array([self.nrows])
                hd["grid_type"] = s("square")
                hd["step_x"], hd["step_y"] = np.array([self.xstep]), np.array([self.ystep])
                self.h5path = "Scan 1/EBSD/Data/patterns"
            elif f == "bruker":
                h["Manufacturer"] = np.bytes_("Bruker Nano")
                h["Version"] = np.bytes_("Esprit 2.X")
                g.create_dataset("RawPatterns", data=d, **kw)
                hd["NCOLS"], hd["NROWS"] = self.ncols, self.nrows
                hd["XSTEP"], hd["YSTEP"] = float(self.xstep), float(self.ystep)
                self.h5path = "Scan 1/EBSD/Data/RawPatterns"
            elif f.startswith("oina"):
                h["Format Version"] = s("5.0")
                h["Manufacturer"] = s("Oxford Instruments")
                nm = "Raw Patterns" if f == "oinaraw" else "Processed Patterns"
                g.create_dataset(nm, data=d, **kw)
                hd["X Cells"], hd["Y Cells"] = np.array([self.ncols]), np.array([self.nrows])
                hd["X Step"], hd["Y Step"] = np.array([self.xstep]), np.array([self.ystep])
                g["Beam Position X"], g["Beam Position Y"] = self.ex, self.ey
                self.h5path = "Scan 1/EBSD/Data/" + nm
            else:
                g.create_dataset("pats", data=d, **kw)
                self.h5path = "Scan 1/EBSD/Data/pats"
            h.create_group("Other/Notes")["text"] = np.arange(5)

    # ------------------------------------------------------------- read back
    def stored(self, path=None):
        """(patterns, everything else) now in the file. Raises ValueError if the file has lost its shape."""
        path = path or self.path
        if self.fmt in RAW:
            b = open(path, "rb").read()
            per = self.H * self.W * self.data.dtype.itemsize
            if len(b) < max(self.offs) + per:
                raise ValueError(f"file is {len(b)} bytes, its last pattern ends at {max(self.offs) + per}")
            pats = np.stack([np.frombuffer(b, self.data.dtype, self.H * self.W, o).reshape(self.H, self.W)
                             for o in self.offs])
            rest, last = [], 0
            for o in sorted(self.offs):
                rest.append(b[last:o])
                last = o + per
            rest.append(b[last:])
            return pats, rest
        rest = []
        with h5py.File(path, "r") as h:
            pats = h[self.h5path][()]

            def visit(name, obj):
                if isinstance(obj, h5py.Dataset) and name != self.h5path:
                    v = obj[()]
                    rest.append((name, v.tobytes() if hasattr(v, "tobytes") else repr(v)))
            h.visititems(visit)
        return pats, rest


def random_data(n, H, W, dtype, seed):
    """n patterns, all different, full range, no zero pixel (so that a zero-filled read is visible)."""
    rng = np.random.default_rng(seed)
    hi = np.iinfo(dtype).max
    d = rng.integers(1, int(hi), size=(n, H, W), endpoint=False).astype(dtype)
    flat = d.reshape(n, -1)
    for i in range(n):                      # the first pixels spell the index: no two patterns are equal
        flat[i, 0] = 1 + i % 250
        if flat.shape[1] > 1:
            flat[i, 1] = 1 + i // 250
    return d


def make(fmt, directory, name, nrows, ncols, H, W, seed, choice=0, data=None, xstep=0.5, ystep=0.5):
    path = os.path.join(directory, name + EXT[fmt])
    if data is None:
        data = random_data(nrows * ncols, H, W, dtype_of(fmt, choice), seed)
    pf = PatFile(fmt, path, data, nrows, ncols, xstep, ystep)
    pf.shuffle = seed
    return pf.write()


# ------------------------------------------------------------------ scans of more than 4 GB, as sparse files
FAR_FORMATS = ["up1", "up2", "up2v1", "ebsp1", "ebsp2", "ebsp4", "ebsp5", "tfpat", "tfpatback", "oh5", "kikuchi", "bruker"]


class Far:
    """A scan of more than 4 GB in a sparse file: a handful of patterns (next to the 2 GB and 4 GB marks and at the ends)
    hold data, the others are zero."""

    def __init__(self, fmt, path, seed, choice):
        self.fmt, self.path, self.seed = fmt, path, seed
        self.dtype = np.dtype(dtype_of(fmt, choice))
        self.H, self.W = 1500, 2000
        self.per = self.H * self.W * self.dtype.itemsize
        self.ncols = 19
        self.nrows = int(2.3 * 2 ** 31 / self.per / self.ncols) + 1
        self.n = self.nrows * self.ncols
        self.xstep, self.ystep = 0.5, 0.25
        rng = np.random.default_rng(seed)
        marks = [0, 2 ** 31 // self.per, 2 ** 32 // self.per, self.n - 2, int(rng.integers(0, self.n - 3))]
        self.held = sorted({m + k for m in marks for k in (0, 1) if m + k < self.n})
        self.rc = False
        self._write()

    arg = property(lambda self: self.path)

    def pattern(self, i):
        if i not in self.held:
            return np.zeros((self.H, self.W), self.dtype)
        t = np.random.default_rng([self.seed, i]).integers(1, int(np.iinfo(self.dtype).max), 997).astype(self.dtype)
        return np.resize(t, (self.H, self.W))

    def xy(self):
        c = np.arange(self.n) % self.ncols
        r = np.arange(self.n) // self.ncols
        if self.fmt.startswith("ebsp"):
            return np.column_stack([10.0 + c * self.xstep, 700.0 - r * self.ystep])
        if self.fmt == "up2v1":
            return None
        return np.column_stack([(c - self.ncols * 0.5) * self.xstep, (r - self.nrows * 0.5) * self.ystep])

    def _write(self):
        f, n, H, W, per = self.fmt, self.n, self.H, self.W, self.per
        if f in H5:
            s = lambda t: np.array([t.encode()])                     # noqa: E731
            with h5py.File(self.path, "w") as h:
                g, hd = h.create_group("Scan 1/EBSD/Data"), h.create_group("Scan 1/EBSD/Header")
                name = {"oh5": "Pattern", "kikuchi": "patterns", "bruker": "RawPatterns"}[f]
                ds = g.create_dataset(name, (n, H, W), self.dtype, chunks=(1, H, W))
                for i in self.held:
                    ds[i] = self.pattern(i)
                self.h5path = ds.name
                if f == "oh5":
                    h["Manufacturer"], h["Version"] = s("EDAX"), s("OIM Analysis 8.6.00 x64")
                    hd["nColumns"], hd["nRows"] = np.array([self.ncols], np.int32), np.array([self.nrows], np.int32)
                    hd["Grid Type"] = s("SqrGrid")
                    hd["Step X"], hd["Step Y"] = np.array([self.xstep], "f4"), np.array([self.ystep], "f4")
                elif f == "kikuchi":
                    h["manufacturer"], h["version"] = s("kikuchipy"), s("0.7.0")
                    hd["n_columns"], hd["n_rows"] = np.array([self.ncols]), np.array([self.nrows])
                    hd["grid_type"] = s("square")
                    hd["step_x"], hd["step_y"] = np.array([self.xstep]), np.array([self.ystep])
                else:
                    h["Manufacturer"], h["Version"] = np.bytes_("Bruker Nano"), np.bytes_("Esprit 2.X")
                    hd["NCOLS"], hd["NROWS"] = self.ncols, self.nrows
                    hd["XSTEP"], hd["YSTEP"] = self.xstep, self.ystep
            return
        pre, post, stride = {}, {}, per
        xy = self.xy()
        if f in ("up1", "up2"):
            head = struct.pack("<4IB2IB2d", 3, W, H, 42, 0, self.ncols, self.nrows, 0, self.xstep, self.ystep)
            first = 42
        elif f == "up2v1":
            head, first = struct.pack("<4I", 1, W, H, 16), 16
        elif f.startswith("tfpat"):
            back = f == "tfpatback"
            head = struct.pack("<5IhBh", 1, self.ncols, self.nrows, W, H, -1, 16, -1 if back else 0)
            if back:
                head += (np.arange(H * W) % 999 + 1).astype(np.uint16).tobytes()
            first, stride = len(head) + 8, per + 8
            pre = {i: struct.pack("<2I", i % self.ncols, i // self.ncols) for i in range(n)}
            self.xstep = self.ystep = 1.0
        else:
            v = int(f[4])
            nh = 6 if v >= 5 else 4
            stride = 4 * nh + per + (16 if v < 2 else 18)
            base = (9 if v >= 4 else 8) + 8 * n + (8 if v >= 5 else 0)
            first = base + 4 * nh
            head = struct.pack("<q", -v) + (b"\x01" if v >= 4 else b"") + \
                struct.pack("<%dQ" % n, *[base + i * stride for i in range(n)])
            if v >= 5:
                head += struct.pack("<2I", H, W)
            m = b"\x01" if v >= 2 else b""
            pre = {i: struct.pack("<%dI" % nh, *([0] * (nh - 3)), H, W, per) for i in range(n)}
            post = {i: m + struct.pack("<d", xy[i, 0]) + m + struct.pack("<d", xy[i, 1]) for i in range(n)}
        self.offs = [first + i * stride for i in range(n)]
        with open(self.path, "wb") as h:
            h.write(head)
            for i in range(n):
                if i in pre:
                    h.seek(self.offs[i] - len(pre[i]))
                    h.write(pre[i])
                if i in self.held:
                    h.seek(self.offs[i])
                    h.write(self.pattern(i).tobytes())
                if i in post:
                    h.seek(self.offs[i] + per)
                    h.write(post[i])
            h.truncate(max(h.tell(), self.offs[-1] + per))
        self.size = os.path.getsize(self.path)

    def strays(self, changed):
        """Indices of patterns other than those in `changed` that are not what they were; -1 for anything else."""
        bad = set()
        want = {i: self.pattern(i) for i in self.held if i not in changed}
        if self.fmt in H5:
            with h5py.File(self.path, "r") as h:
                ds = h[self.h5path]
                if ds.shape != (self.n, self.H, self.W):
                    return {-1}
                for i, p in want.items():
                    if not np.array_equal(ds[i], p):
                        bad.add(i)
                for k in range(ds.id.get_num_chunks()):
                    i = int(ds.id.get_chunk_info(k).chunk_offset[0])
                    if i not in changed and i not in want and ds[i].any():
                        bad.add(i)
            return bad
        if os.path.getsize(self.path) != self.size:
            bad.add(-1)
        with open(self.path, "rb") as h:
            def get(i):
                h.seek(self.offs[i])
                return np.frombuffer(h.read(self.per), self.dtype)
            for i, p in want.items():
                g = get(i)
                if g.size != p.size or not np.array_equal(g, p.ravel()):
                    bad.add(i)
            fd, at, offs = h.fileno(), 0, np.array(self.offs)
            try:
                while True:
                    at = os.lseek(fd, at, os.SEEK_DATA)
                    end = os.lseek(fd, at, os.SEEK_HOLE)
                    a = max(0, int(np.searchsorted(offs, at, "right")) - 1)
                    for i in range(a, int(np.searchsorted(offs, end, "left"))):
                        if i not in changed and i not in want and i not in bad:
                            lo, hi = max(at, self.offs[i]), min(end, self.offs[i] + self.per)
                            if lo < hi:
                                h.seek(lo)
                                if any(h.read(hi - lo)):
                                    bad.add(i)
                    at = end
            except OSError:                      # no more data (or no support for holes)
                pass
        return bad


def make_far(ch, d, formats=None):
    fmt = ch.pick("far.fmt", formats or FAR_FORMATS)
    return Far(fmt, os.path.join(d, "far" + EXT[fmt]), ch.subseed("far"), ch.int("far.u16", 0, 1))
