"""Storage under the simulator's control: actions run in a forked child whose file operations below the run's scratch
directory pass through iofault.c; a plan says which operation fails and how. The child either reports its outcome or
"dies" in the middle of an operation; the parent then looks at the files."""
import ctypes
import os
import pickle
import signal
import struct
import traceback

from .core import HarnessError, Violation

CLASSES = ["open", "read", "write", "close", "trunc", "sync", "unlink", "copy"]
ACTIONS = ["none", "EIO", "ENOSPC", "short", "torn", "EOF", "crash", "EACCES", "EMFILE", "ENOENT"]
C = {n: i for i, n in enumerate(CLASSES)}
A = {n: i for i, n in enumerate(ACTIONS)}
ALL = (1 << len(CLASSES)) - 1
_lib = None


class _Log(ctypes.Structure):
    _fields_ = [("cls", ctypes.c_uint8), ("act", ctypes.c_uint8), ("asked", ctypes.c_int64), ("ret", ctypes.c_int64)]


def lib():
    global _lib
    if _lib is None:
        if not os.environ.get("LD_PRELOAD"):
            raise HarnessError("iofault.so is not loaded")
        _lib = ctypes.CDLL(os.environ["LD_PRELOAD"])
        _lib.iof_log.restype = ctypes.POINTER(_Log)
        for f in ("iof_nops", "iof_count", "iof_fired"):
            getattr(_lib, f).restype = ctypes.c_int64
    return _lib


class Outcome:
    """kind: 'ok' (value), 'exc' (type, msg, where), 'crash', 'hang'"""

    def __init__(self, kind, value=None, exc=None, msg="", where=None):
        self.kind, self.value, self.exc, self.msg, self.where = kind, value, exc, msg, where
        self.ops = []
        self.fired = []
        self.libdead = False

    def __repr__(self):
        return f"{self.kind} {self.exc or ''} {self.msg[:120]}"


class Fault:
    """One entry of a plan: the nth operation of the classes in `on` meets `act`; sticky faults keep failing."""

    def __init__(self, on, act, nth, permille=500, sticky=False):
        self.on, self.act, self.nth, self.permille, self.sticky = on, act, nth, permille, sticky

    def __repr__(self):
        return f"{self.act}@{'|'.join(self.on)}#{self.nth}{' sticky' if self.sticky else ''} {self.permille}"


def _repo_where(tb):
    from .runner import _repo_frame
    return _repo_frame(tb)


def attempt(run, label, directory, fn, plan=(), cpu=60, quiet=False, h5=False):
    """Run fn() in a child with the plan armed. Logs the operations and the outcome in the run's event log. With h5,
    nothing after the first failed write is logged: what libhdf5 does from there on depends on its heap."""
    L = lib()
    L.iof_clear()
    L.iof_dir(os.path.realpath(directory).encode())
    for f in plan:
        mask = sum(1 << C[c] for c in f.on) if f.on != "any" else ALL
        L.iof_plan(mask, A[f.act], int(f.nth), int(f.permille), int(f.sticky))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            os.close(r)

            def dead(*a):
                os._exit(97)
            signal.signal(signal.SIGPROF, dead)
            signal.setitimer(signal.ITIMER_PROF, cpu)
            L.iof_arm(1)
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("exc", type(e).__name__, str(e), _repo_where(e.__traceback__),
                       [c.__name__ for c in type(e).__mro__], traceback.format_exc()[-1500:])
            L.iof_arm(0)
            b = pickle.dumps(out, protocol=5)
            b = struct.pack("<Q", len(b)) + b
            while b:
                b = b[os.write(w, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    got = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        got += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    L.iof_arm(0)                         # a child killed by a signal did not get to it
    code = os.waitstatus_to_exitcode(st)
    if code == 77:
        o = Outcome("crash")
    elif code == 97:
        o = Outcome("hang")
    elif code == 0 and len(got) >= 8:
        v = pickle.loads(got[8:])
        if v[0] == "ok":
            o = Outcome("ok", v[1])
        else:
            o = Outcome("exc", exc=v[1], msg=v[2], where=v[3])
            o.mro, o.trace = v[4], v[5]
    elif code < 0:
        o = Outcome("signal", msg=f"signal {-code}")
    else:
        raise HarnessError(f"child ended with {code}")
    n = L.iof_nops()
    lg = L.iof_log()
    o.ops = [(CLASSES[lg[i].cls], ACTIONS[lg[i].act], lg[i].asked, lg[i].ret) for i in range(min(n, 100000))]
    o.nops = n
    o.counts = {c: L.iof_count(i) for c, i in C.items()}
    o.fired = [f for i, f in enumerate(plan) if L.iof_planfired(i)]
    if h5 and any(f.on[0] in ("write", "close", "trunc") for f in o.fired):
        k = next((i for i, q in enumerate(o.ops) if q[1] != "none"), len(o.ops))
        o.ops = o.ops[:k + 1]
        o.libdead = o.kind != "crash"
    if not quiet:
        run.log(f"{label}: {'failed' if o.libdead else o.kind} {'' if o.libdead else o.exc or ''}")
        for c, a, asked, ret in o.ops:
            run.log(f"  {c} {a if a != 'none' else ''} {asked} {ret}")
        run.order.append((label, 'failed' if o.libdead else o.kind, tuple((c, a) for c, a, _, _ in o.ops[:2000])))
        for f in [f for f in o.fired if not o.libdead or (o.ops and f.act == o.ops[-1][1] and o.ops[-1][0] in f.on)][:9]:
            run.fault(f"{f.act}:{'|'.join(f.on) if f.on != 'any' else 'any'}", f"{f!r}")
    if o.kind == "hang":
        raise Violation("hang", f"{label} did not end within {cpu} s of CPU time")
    return o


READ_FAULTS = [("read", "EIO"), ("read", "short"), ("read", "EOF"), ("open", "EMFILE"), ("open", "EACCES"),
               ("open", "ENOENT"), ("open", "EIO")]
WRITE_FAULTS = [("write", "ENOSPC"), ("write", "EIO"), ("write", "torn"), ("write", "short"), ("open", "EMFILE"),
                ("open", "EACCES"), ("close", "EIO"), ("trunc", "ENOSPC"), ("copy", "ENOSPC"), ("copy", "EIO"),
                ("copy", "torn"), ("copy", "short"), ("read", "EIO"), ("read", "EOF"), ("read", "short"),
                ("unlink", "EIO")]


def draw(ch, counts, kinds, label="f", crash=False, maxn=3):
    """Draw a plan against the operation counts of an undisturbed run of the same action."""
    kinds = [k for k in kinds if counts.get(k[0], 0) > 0]
    plan = []
    n = ch.pick(label + ".n", [1, 2, 3][:maxn], [6, 2, 1][:maxn])
    for _ in range(n):
        if not kinds:
            break
        c, a = ch.pick(label + ".kind", kinds)
        nth = ch.int(label + ".nth", 0, counts[c] - 1)
        pm = ch.int(label + ".part", 0, 999, default=500)
        sticky = a != "EOF" and ch.flag(label + ".sticky", 0.3)
        plan.append(Fault((c,), a, nth, pm, sticky))
    return plan
