"""Indexers of random settings, fresh copies of them, and one-pattern-at-a-time references. Shared by C12 to C14."""
import copy
import os

import numpy as np

from . import files, sci

PCS = {"EDAX": [0.47, 0.68, 0.63], "BRUKER": [0.47, 0.32, 0.63], "OXFORD": [0.47, 0.68, 0.63],
       "KIKUCHIPY": [0.47, 0.32, 0.63], "EMSOFT": [1.5, 4.0, 15000.0, 600.0]}
SHAPES = [(24, 30), (34, 40), (30, 24), (32, 32)]


class S:
    """Settings of an indexer."""


def settings(ch, phases=None, vendors=True):
    s = S()
    s.vendor = ch.pick("vendor", list(PCS), [5, 1, 1, 1, 3]) if vendors else "EDAX"
    s.phases = ch.pick("phases", phases or [["FCC"], ["FCC", "BCC"], ["BCC"]], [3, 3, 1] if phases is None else None)
    s.kw = dict(phaselist=list(s.phases), vendor=s.vendor, nBands=ch.pick("nBands", [9, 7, 8]),
                sampleTilt=ch.pick("tilt", [70.0, 60.0]), camElev=ch.pick("elev", [5.3, 0.0]),
                tSigma=ch.pick("tSigma", [None, 1.0, 2.0], [4, 2, 1]), rSigma=ch.pick("rSigma", [None, 1.2], [3, 2]),
                rhoMaskFrac=ch.pick("rhoMask", [0.1, 0.15, 0.3]), nRho=ch.pick("nRho", [90, 60], [4, 1]),
                nTheta=ch.pick("nTheta", [180, 90], [4, 1]), nband_earlyexit=ch.pick("early", [None, 6, 4], [4, 1, 1]))
    if s.vendor != "EDAX" or ch.flag("setPC", 0.5):
        s.kw["PC"] = np.array(PCS[s.vendor])
    return s


_fresh = {}


def fresh(s, shape=None):
    """An indexer of these settings that has not been used (building one is slow, so copies of one)."""
    from pyebsdindex import ebsd_index
    key = repr((shape, sorted((k, repr(v)) for k, v in s.kw.items())))
    if key not in _fresh:
        if len(_fresh) > 80:
            _fresh.clear()
        k = {a: (b.copy() if isinstance(b, np.ndarray) else b) for a, b in s.kw.items()}
        _fresh[key] = ebsd_index.EBSDIndexer(patDim=shape, **k)
    return copy.deepcopy(_fresh[key])


def pattern_centre(ch, s, n, p=0.4):
    """(what a user passes as PC for n patterns, or None; the pattern centre of each pattern)"""
    if not ch.flag("pc", p):
        return None, None
    pc = np.array(PCS[s.vendor]) * (1 + 0.02 * ch.int("pc.k", -2, 2, default=1))
    form = ch.pick("pc.form", ["array", "list", "float32", "each"], [3, 1, 1, 2])
    if form == "list":
        return pc.tolist(), [pc] * n
    if form == "each":
        rows = np.array([pc * (1 + 0.01 * i) for i in range(n)], dtype=ch.pick("pc.dtype", [np.float32, np.float64]))
        return rows, [r.astype(np.float64) for r in rows]
    if form == "float32":
        pc = pc.astype(np.float32)
    return pc, [pc.astype(np.float64)] * n


def reference(s, pats, background=None, pcs=None):
    """Index pats one at a time with a fresh indexer."""
    ix = fresh(s, pats.shape[-2:])
    ix.bandDetectPlan.backgroundsub = background
    d, b = [], []
    for i in range(len(pats)):
        kw = {} if pcs is None else dict(PC=np.array(pcs[i]))
        x, y = ix.index_pats(patsin=pats[i:i + 1].copy(), **kw)[:2]
        d.append(x)
        b.append(y)
    return np.concatenate(d, axis=1), np.concatenate(b, axis=0)


def compare(out, exp):
    """None or what differs."""
    for name, a, b, ax in (("orientation data", out[0], exp[0], 1), ("band data", out[1], exp[1], 0)):
        m = sci.close(a, b, ax)
        if m:
            return f"{name}: {m}"
    return None


def snapshot(ix):
    """The settings of an indexer a user may rely on."""
    p = ix.bandDetectPlan
    return repr((ix.vendor, np.asarray(ix.PC).tolist(), np.asarray(ix.PC).dtype, ix.sampleTilt, ix.camElev, list(ix.phaselist),
                 [id(x) for x in ix.phaseLib], ix.PCcorrectMethod, ix.PCcorrectParam, p.nTheta, p.nRho, p.nBands,
                 p.rhoMaskFrac, p.nPhases, ix.nband_earlyexit,
                 None if p.backgroundsub is None else hash(np.asarray(p.backgroundsub).tobytes())))


def patfile(ch, d, name, n, shape, seed):
    """A pattern file; returns (argument to pass, patterns)."""
    fmt = ch.pick("ffmt", ["up1", "up2", "tfpat", "oh5", "kikuchi"], [4, 3, 1, 2, 1])
    dt = "uint8" if fmt == "up1" else "uint16"
    pats = sci.make_patterns(n, shape, seed, dt)
    pf = files.make(fmt, d, name, n, 1, shape[0], shape[1], 0, choice=1 if dt == "uint16" else 0, data=pats)
    return pf, pats


def compile_all():
    from pyebsdindex import ebsd_index
    for dt in ("float32", "uint16", "uint8"):
        p = sci.make_patterns(2, SHAPES[0], 1, dt)
        ebsd_index.index_pats(patsin=p, phaselist=["FCC", "BCC"], vendor="EDAX")


def prewarm():
    from pyebsdindex import ebsd_index
    p = sci.make_patterns(1, SHAPES[0], 1, "float32")
    ebsd_index.index_pats(patsin=p, vendor="EDAX")


