"""Decision streams, event log and violations shared by every simulation."""
import hashlib
import math


class Violation(Exception):
    """The property is broken. `cls` names the kind of breakage (the minimiser keeps it)."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class RunHang(BaseException):
    """The run spent its CPU budget without ending."""


class HarnessError(Exception):
    """The simulator was asked for something it does not model."""


class Choices:
    """Every decision of a run.

    Random mode: value = f(seed, key), independent of the order in which other decisions are drawn.
    Explicit mode (replay): values listed in `explicit`; every other decision takes its default.
    `taken` holds the non-default decisions of the run, in the order they were made.
    """

    def __init__(self, seed=None, explicit=None):
        self.seed = seed
        self.explicit = explicit
        self.n = {}
        self.taken = {}
        self.total = 0

    def _key(self, label):
        k = self.n.get(label, 0)
        self.n[label] = k + 1
        self.total += 1
        return f"{label}#{k}"

    def _u(self, key):
        h = hashlib.blake2b(f"{self.seed}|{key}".encode(), digest_size=8).digest()
        return int.from_bytes(h, "big") / 2.0 ** 64

    def _done(self, key, value, default):
        if value != default:
            self.taken[key] = value
        return value

    def flag(self, label, p):
        key = self._key(label)
        if self.explicit is not None:
            v = bool(self.explicit.get(key, False))
        else:
            v = self._u(key) < p
        return self._done(key, v, False)

    def int(self, label, lo, hi, default=None):
        key = self._key(label)
        d = lo if default is None else default
        if self.explicit is not None:
            v = int(self.explicit.get(key, d))
            v = max(lo, min(hi, v))
        else:
            v = lo + int(self._u(key) * (hi - lo + 1))
            v = min(v, hi)
        return self._done(key, v, d)

    def pick(self, label, options, weights=None):
        """Default is options[0]; the trace records the index."""
        key = self._key(label)
        n = len(options)
        if self.explicit is not None:
            i = max(0, min(n - 1, int(self.explicit.get(key, 0))))
        else:
            u = self._u(key)
            if weights is None:
                i = min(n - 1, int(u * n))
            else:
                s = float(sum(weights))
                acc = 0.0
                i = 0
                for i, w in enumerate(weights):
                    acc += w / s
                    if u < acc:
                        break
        self._done(key, i, 0)
        return options[i]

    def log(self, label, lo, hi):
        """Log-uniform float; default lo."""
        key = self._key(label)
        if self.explicit is not None:
            v = float(self.explicit.get(key, lo))
        else:
            v = round(lo * math.exp(self._u(key) * math.log(hi / lo)), 6) if hi > lo else lo
        return self._done(key, v, lo)

    def subseed(self, label):
        """An integer seed for a numpy generator (data, not schedule); fixed 0 by default."""
        return self.int(label, 0, 2 ** 31 - 1, default=0)


class Run:
    """What one simulated run hands back besides its verdict."""

    def __init__(self, ch):
        self.ch = ch
        self.events = []          # event log (strings): replay must reproduce it exactly
        self.faults = {}          # fault kind -> times it fired
        self.probes = {}          # rare condition -> times it was reached
        self.simtime = 0.0
        self.nontrivial = False
        self.case = {}            # description of the workload, for the evidence samples
        self.order = []           # interleaving signature

    def log(self, msg):
        self.events.append(msg)

    def fault(self, kind, detail=""):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.events.append(f"FAULT {kind} {detail}")

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def digest(self):
        h = hashlib.blake2b(digest_size=8)
        for e in self.events:
            h.update(e.encode())
            h.update(b"\n")
        return h.hexdigest()

    def order_digest(self):
        h = hashlib.blake2b(repr(self.order).encode(), digest_size=8)
        return h.hexdigest()
