"""A simulated `pyopencl`: one process, one device memory, the package's own kernels compiled by clang and run work item by
work item in a seeded order (clrt.c). Everything a device may do differently is drawn from Choices: the order of the work
items and, where two of them touch the same memory, every interleaving; the contents of memory nobody has written; when a
queued command runs; and failures of any call (allocation, transfer, build, launch, lost device) or launches that
silently do nothing.
"""
import contextlib
import ctypes
import hashlib
import os
import re
import subprocess
import sys
import tempfile
import types

import numpy as np

from .core import HarnessError, Violation

HERE = os.path.dirname(os.path.abspath(__file__))
CFLAGS = ["-x", "cl", "-w", "-fPIC", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize"]
HOOKS = ["-fsanitize=kernel-address", "-mllvm", "-asan-instrumentation-with-call-threshold=0", "-mllvm", "-asan-stack=0",
         "-mllvm", "-asan-globals=0"]

KINDS = ["alloc", "platform", "context", "build", "queue", "launch", "sync", "flush", "copy", "fill"]
sim = None              # the active device session, one per simulated run


class Error(Exception):
    pass


class MemoryError(Error):          # noqa: A001 (pyopencl's names)
    pass


class LogicError(Error):
    pass


class RuntimeError(Error):         # noqa: A001
    pass


class Stats(ctypes.Structure):
    _fields_ = ([(n, ctypes.c_uint64) for n in ("items", "oob_r", "oob_w", "conflicts", "switches", "wilds")]
                + [(n, ctypes.c_long) for n in ("f_off", "f_size")] + [("f_item", ctypes.c_uint64)]
                + [(n, ctypes.c_long) for n in ("f_write", "f_buf")]
                + [(n, ctypes.c_uint64) for n in ("c_a", "c_b")] + [(n, ctypes.c_long) for n in ("c_off", "c_write")]
                + [(n, ctypes.c_uint64) for n in ("involved", "accesses")])


def gap(msg):
    """The package catches what the device raises, so a call the simulator does not model is noted as well."""
    if sim is not None:
        sim.gap = sim.gap or msg
    return HarnessError(msg)


def _in_worker(tag=None):
    """Is this the code of a worker of the simulated cluster?"""
    m = sys.modules.get("sim.simray")
    if m is not None and tag:
        m.tag(tag)
    return m is not None and m.current_task() is not None


# ------------------------------------------------------------------ the compiled device
_rt = None
_arena = None
_progs = {}
_tmp = None


def _dir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="cl-", dir=os.environ.get("VERIF_SCRATCH") or None)
        import atexit
        import shutil
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def runtime():
    global _rt, _arena
    if _rt is None:
        so = os.path.join(_dir(), "clrt.so")
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "clrt.c"), "-lm"], check=True)
        _rt = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
        _rt.clrt_init.restype = ctypes.c_void_p
        _rt.clrt_size.restype = ctypes.c_uint64
        p = _rt.clrt_init()
        if not p:
            raise HarnessError("no memory for the simulated device")
        _arena = np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ctypes.c_uint8)), shape=(_rt.clrt_size(),))
        _rt.base = p
    return _rt


def compile_cl(src, options):
    """The kernels of an OpenCL source: {name: (function, argument types)}. Raises RuntimeError like a driver does."""
    rt = runtime()
    std = [o for o in options if o.startswith(("-cl-", "-D", "-I"))]
    key = hashlib.sha256((src + repr(std)).encode()).hexdigest()[:24]
    if key in _progs:
        return _progs[key]
    base = os.path.join(_dir(), key)
    with open(base + ".cl", "w") as f:
        f.write(f'#include "{HERE}/cldevice.h"\n#line 1\n' + src)
    r = subprocess.run(["clang", *CFLAGS, *std, "-O0", "-Xclang", "-disable-llvm-passes", "-cl-kernel-arg-info", "-S",
                        "-emit-llvm", base + ".cl", "-o", base + ".ll"], capture_output=True, text=True)
    if r.returncode:
        _progs[key] = RuntimeError("clBuildProgram failed: BUILD_PROGRAM_FAILURE\n" + r.stderr[-2000:])
        return _progs[key]
    subprocess.run(["clang", *CFLAGS, *std, *HOOKS, "-O1", "-c", base + ".cl", "-o", base + ".o"], check=True)
    subprocess.run(["gcc", "-shared", "-o", base + ".so", base + ".o"], check=True)
    ll = open(base + ".ll").read()
    meta = dict(re.findall(r"^(!\d+) = !\{(.*)\}$", ll, re.M))
    lib = ctypes.CDLL(base + ".so")
    out = {}
    for m in re.finditer(r"^define[^\n]*spir_kernel void @([\w.]+)\([^\n]*!kernel_arg_type (!\d+)", ll, re.M):
        out[m.group(1)] = (lib[m.group(1)], re.findall(r'!"([^"]*)"', meta[m.group(2)]))
    _progs[key] = out
    for e in (".cl", ".ll", ".o"):
        os.unlink(base + e)
    return out


# ------------------------------------------------------------------ the session
class Session:
    """cfg: gpus=[dict(mem, max_alloc, unified)], cuda (devices are subject to CUDA_VISIBLE_DEVICES), p (fault probability per opportunity), kinds, budget, plan {(kind, n): 1}
    (fail the n-th opportunity of a kind), order/junk/lag (None: drawn)."""

    JUNK = [0x7fc00000, 0xff800000, 0, 0x7f7fffff, 0xbf800000, 0x5a5a5a5a, 0x80808080]

    def __init__(self, run, cfg):
        runtime()
        self.run, self.ch = run, run.ch
        self.cfg = dict(gpus=[dict()], p=0.0, kinds=(), budget=0, plan={}, order=None, junk=None, lag=None, races=True,
                        lazy=0.3, empty_kernels=None, cuda=False)
        self.cfg.update(cfg)
        c = self.ch
        self.order = c.pick("cl.order", [0, 1, 2], [1, 1, 3]) if self.cfg["order"] is None else self.cfg["order"]
        self.junk = c.pick("cl.junk", self.JUNK) if self.cfg["junk"] is None else self.cfg["junk"]
        self.seed = c.subseed("cl.items")
        self.bufs = []                # live buffers, by offset
        self.devices = [Device(i, g) for i, g in enumerate(self.cfg["gpus"])]
        self.nlaunch = 0
        self.nfaults = 0
        self.seen = {}
        self.items = self.switches = self.conflicts = self.accesses = 0
        self.used = 0
        self.problem = None           # first access outside any buffer
        self.gap = None               # a call the simulator does not model
        self.lost = False
        self.kernels = {}
        self.races = self.cfg["races"]
        self.empties = 0
        self.driver_faults = 0        # failures outside of the workers of the simulated cluster
        self.op = 0

    # faults ------------------------------------------------------------
    def fail(self, kind):
        """Does this call fail? `plan` may hold (kind, n): the n-th call of a kind, ("op", n): the n-th call of any kind,
        ("lost", n): the device is gone from the n-th call on. (A launch that does nothing is no failing call.)"""
        k = self.seen[kind] = self.seen.get(kind, 0) + 1
        plan = self.cfg["plan"]
        if kind != "empty":
            self.op += 1
            if ("lost", self.op) in plan and not self.lost:
                self.lost = True
                self.nfaults += 1
                self.driver_faults += not _in_worker()
                self.run.fault("gpu_lost", f"at call {self.op} ({kind})")
            if self.lost:
                return True
        if kind != "empty" and ("op", self.op) in plan or (kind, k) in plan:
            pass
        elif kind in self.cfg["kinds"] and self.nfaults < self.cfg["budget"] and self.ch.flag("cl." + kind, self.cfg["p"]):
            pass
        else:
            return False
        self.nfaults += 1
        self.empties += kind == "empty"
        self.driver_faults += not _in_worker()
        self.run.fault("gpu_" + kind, f"#{k}" + (f" (call {self.op})" if kind != "empty" else ""))
        return True

    def check(self):
        if self.lost:
            raise RuntimeError("clFinish failed: OUT_OF_RESOURCES (device lost)")

    def verify(self, what):
        """After a call: did the device see anything it must not see?"""
        if self.gap:
            raise HarnessError(self.gap)
        if self.problem:
            raise Violation("device", f"{what}: {self.problem}")

    # memory ------------------------------------------------------------
    def alloc(self, size):
        if size <= 0:
            raise LogicError("create_buffer failed: INVALID_BUFFER_SIZE")
        if self.fail("alloc"):
            raise MemoryError("create_buffer failed: MEM_OBJECT_ALLOCATION_FAILURE")
        need = (size + 127) // 128 * 128
        gap = 256
        at = 4096
        for b in self.bufs:
            if b.off - gap - at >= need:
                break
            at = (b.off + b.size + gap + 127) // 128 * 128
        if at + need + gap > _rt.clrt_size():
            raise MemoryError("create_buffer failed: MEM_OBJECT_ALLOCATION_FAILURE (simulated device memory is full)")
        w = _arena[at - gap:at + need + gap]
        n = len(w) // 4 * 4
        w[:n].view(np.uint32)[:] = self.junk
        self.used = max(self.used, at + need + gap)
        return at

    def live(self):
        n = len(self.bufs)
        a = (ctypes.c_uint64 * n)(*[b.off for b in self.bufs])
        z = (ctypes.c_uint64 * n)(*[b.off + b.size for b in self.bufs])
        _rt.clrt_live(n, a, z)

    def launch(self, name, fn, types_, gsize, args):
        self.nlaunch += 1
        ints, fl = [], []
        for t, a in zip(types_, args):
            if t in ("float", "half"):
                fl.append(float(a))
            else:
                ints.append(int(a))
        g = (ctypes.c_uint64 * 3)(*gsize, *([1] * (3 - len(gsize))))
        st = Stats()
        self.live()
        rc = _rt.clrt_launch(ctypes.cast(fn, ctypes.c_void_p), len(ints), (ctypes.c_long * max(1, len(ints)))(*ints), len(fl),
                             (ctypes.c_float * max(1, len(fl)))(*fl), len(gsize), g, self.order, int(self.races),
                             ctypes.c_uint64((self.seed + 7919 * self.nlaunch) & 0xffffffffffff), ctypes.c_uint64(self.used),
                             ctypes.byref(st))
        if rc == 2:
            raise gap(f"kernel {name} has too many arguments for the simulated device")
        self.items += st.items
        self.switches += st.switches
        self.conflicts += st.conflicts > 0
        self.accesses += st.accesses
        k = self.kernels.setdefault(name, [0, 0, 0])
        k[0] += 1
        k[1] += st.items
        if st.conflicts:
            k[2] += 1
            self.run.probe("conflict_" + name)
        if st.oob_r or st.oob_w or st.wilds:
            if self.problem is None:
                what = "wrote" if st.f_write else "read"
                b = self.bufs[st.f_buf] if 0 <= st.f_buf < len(self.bufs) else None
                where = (f"{st.f_off} .. {st.f_off + st.f_size} of a buffer of {b.size} bytes" if b is not None
                         else f"far outside any buffer (offset {st.f_off})")
                self.problem = (f"kernel {name}, work item {st.f_item} of {'x'.join(map(str, gsize))} {what} bytes {where} "
                                f"({st.oob_r + st.oob_w + st.wilds} such accesses)")
            if rc:
                self.lost = True
                raise RuntimeError("clFinish failed: OUT_OF_RESOURCES (memory fault on the device)")


class Device:
    def __init__(self, i, g):
        self.name = f"simulated {i}"
        self.max_mem_alloc_size = int(g.get("max_alloc", 1 << 30))
        self.global_mem_size = int(g.get("mem", 1 << 32))
        self.host_unified_memory = bool(g.get("unified", True))
        self.max_work_group_size = g.get("group", 256)
        self.type = 4

    def get_info(self, what):
        return getattr(self, what)


class Platform:
    name = vendor = "simulated"

    def __init__(self, devs):
        self._d = devs

    def get_devices(self, device_type=None):
        if device_type not in (None, device_type_ns.GPU, device_type_ns.ALL):
            return []
        v = os.environ.get("CUDA_VISIBLE_DEVICES")
        if sim is None or not sim.cfg["cuda"] or v is None:
            return list(self._d)
        out = []                        # as NVIDIA's: in the order given, up to the first that does not exist
        for x in v.split(","):
            if not x.strip().isdigit() or int(x) >= len(self._d):
                break
            out.append(self._d[int(x)])
        return out


def get_platforms():
    if sim is None:                     # at import: there is a device
        return [Platform([Device(0, {})])]
    if sim.fail("platform") or not sim.devices:
        raise LogicError("clGetPlatformIDs failed: PLATFORM_NOT_FOUND_KHR")
    return [Platform(sim.devices)]


def _need():
    if sim is None:
        raise gap("OpenCL used outside a simulated run")
    return sim


class Context:
    def __init__(self, devices=None, **_):
        s = _need()
        if not devices:
            raise LogicError("create_context failed: INVALID_DEVICE")
        if s.fail("context"):
            raise RuntimeError("create_context failed: OUT_OF_HOST_MEMORY")
        self.devices = list(devices)


class Kernel:
    def __init__(self, prg, name):
        if name not in prg._k:
            raise AttributeError(f"'{name}' was not found as a program info attribute or as a kernel name")
        self.fn, self.types = prg._k[name]
        self.name = name

    def __call__(self, queue, gsize, lsize, *args, wait_for=None, global_offset=None, **_):
        s = _need()
        gsize = tuple(int(x) for x in gsize)
        if any(x <= 0 for x in gsize) or len(gsize) > 3:
            raise LogicError("clEnqueueNDRangeKernel failed: INVALID_GLOBAL_WORK_SIZE")
        if lsize is not None and any(g % int(x) for g, x in zip(gsize, lsize)):
            raise LogicError("clEnqueueNDRangeKernel failed: INVALID_WORK_GROUP_SIZE")
        if len(args) != len(self.types):
            raise LogicError(f"{self.name}: {len(self.types)} arguments expected, {len(args)} given")
        vals, keep = [], []
        for k, (t, a) in enumerate(zip(self.types, args)):
            if t.endswith("*"):
                if not isinstance(a, Buffer):
                    raise LogicError(f"when processing arg#{k + 1}: clSetKernelArg failed: INVALID_ARG_VALUE")
                a._use()
                vals.append(_rt.base + a.off)
                keep.append(a)
            else:
                size = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8,
                        "size_t": 8, "float": 4}.get(t)
                if size is None:
                    raise gap(f"kernel argument type {t}")
                if isinstance(a, np.ndarray) and a.size == 1:       # any buffer of the right size does
                    a = a.reshape(-1)[0]
                if not isinstance(a, np.generic):
                    raise LogicError(f"when processing arg#{k + 1}: a plain {type(a).__name__} has no OpenCL type")
                if a.nbytes != size:
                    raise LogicError(f"when processing arg#{k + 1} (1-based): clSetKernelArg failed: INVALID_ARG_SIZE")
                if (a.dtype.kind == "f") != (t == "float"):      # the bits are handed over as they are
                    a = a.view({"f": "i"}.get(a.dtype.kind, "f") + str(size))
                vals.append(a)
        if s.fail("launch"):
            raise RuntimeError("clEnqueueNDRangeKernel failed: OUT_OF_RESOURCES")
        _in_worker("work")
        empty = self.name in (s.cfg["empty_kernels"] or (self.name,)) and s.fail("empty")

        def go():
            if empty:
                s.run.log(f"kernel {self.name} did nothing")
                return
            s.launch(self.name, self.fn, self.types, gsize, vals)
        queue._put(go, keep)
        return Event()


class Event:
    def wait(self):
        pass


class Program:
    def __init__(self, ctx, src):
        self._src, self._k = src, {}
        self.context = ctx

    def build(self, options=(), **_):
        s = _need()
        if s.fail("build"):
            raise RuntimeError("clBuildProgram failed: OUT_OF_HOST_MEMORY")
        k = compile_cl(self._src, list(options))
        if isinstance(k, Exception):
            s.problem = s.problem or "kernel source does not compile: " + str(k)[-300:]
            raise k
        self._k = k
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Kernel(self, name)


class CommandQueue:
    def __init__(self, ctx, device=None, **_):
        s = _need()
        if s.fail("queue"):
            raise RuntimeError("create_queue failed: OUT_OF_HOST_MEMORY")
        self.context = ctx
        self.device = device or ctx.devices[0]
        self._pending = []
        self._broken = False
        self._s = s

    def _put(self, fn, keep=()):
        s = self._s
        s.check()
        self._pending.append((fn, keep))
        if not s.ch.flag("cl.lag", s.cfg["lazy"]):
            self._drain()

    def _drain(self):
        while self._pending:
            fn, _ = self._pending.pop(0)
            fn()

    def _sync(self):
        self._s.check()
        if self._s.fail("sync"):
            self._pending.clear()
            raise RuntimeError("clFinish failed: OUT_OF_RESOURCES")
        self._drain()

    def flush(self):
        if self._s.fail("flush"):
            raise RuntimeError("clFlush failed: OUT_OF_RESOURCES")

    def finish(self):
        self._sync()


class _Mem:
    __slots__ = ("off", "size")

    def __init__(self, off, size):
        self.off, self.size = off, size


class Buffer:
    def __init__(self, ctx, flags, size=0, hostbuf=None):
        s = _need()
        self.off = None
        if hostbuf is not None:
            h = np.asarray(hostbuf)
            if not h.flags["C_CONTIGUOUS"]:
                raise ValueError("ndarray is not contiguous")
            size = size or h.nbytes
        if not isinstance(size, (int, np.integer)):
            raise TypeError(f"incompatible constructor arguments: size is a {type(size).__name__}")
        self.size = int(size)
        s.check()
        self.off = s.alloc(self.size)
        self._s = s
        k = 0
        while k < len(s.bufs) and s.bufs[k].off < self.off:
            k += 1
        self._mem = _Mem(self.off, self.size)
        s.bufs.insert(k, self._mem)
        self._open = True
        if hostbuf is not None:
            _arena[self.off:self.off + h.nbytes] = h.reshape(-1).view(np.uint8) if h.ndim else np.frombuffer(h.tobytes(), np.uint8)

    def _use(self):
        if not self._open or self._s is not sim:
            raise LogicError("INVALID_MEM_OBJECT (buffer was released)")

    def _view(self):
        return _arena[self.off:self.off + self.size]

    def release(self):
        if not self._open:
            raise LogicError("clReleaseMemObject failed: trying to double-unref mem object")
        self._open = False          # the memory itself goes when the last queued command is through (see __del__)

    def __del__(self):
        m = getattr(self, "_mem", None)
        if m is not None and m in self._s.bufs:
            self._s.bufs.remove(m)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class LocalMemory:
    def __init__(self, n):
        raise gap("local memory is not modelled")


def enqueue_copy(queue, dest, src, is_blocking=True, wait_for=None, **_):
    s = _need()
    for x in (dest, src):
        if isinstance(x, Buffer):
            x._use()
    if s.fail("copy"):
        raise RuntimeError("clEnqueueReadBuffer failed: OUT_OF_RESOURCES")
    if isinstance(src, Buffer) and not isinstance(dest, Buffer):
        if not dest.flags["C_CONTIGUOUS"] or not dest.flags["WRITEABLE"]:
            raise ValueError("ndarray is not contiguous")
        if dest.nbytes > src.size:
            raise LogicError("clEnqueueReadBuffer failed: INVALID_VALUE")

        def go():
            dest.reshape(-1).view(np.uint8)[:] = src._view()[:dest.nbytes]
    elif isinstance(dest, Buffer) and not isinstance(src, Buffer):
        h = np.ascontiguousarray(src)
        if h.nbytes > dest.size:
            raise LogicError("clEnqueueWriteBuffer failed: INVALID_VALUE")

        def go():
            dest._view()[:h.nbytes] = h.reshape(-1).view(np.uint8)
    else:
        n = min(dest.size, src.size)

        def go():
            dest._view()[:n] = src._view()[:n]
    queue._put(go, (dest, src))
    if is_blocking:
        queue._sync()
    return Event()


def enqueue_fill_buffer(queue, mem, pattern, offset, size, wait_for=None):
    s = _need()
    mem._use()
    p = np.asarray(pattern)
    size, offset = int(size), int(offset)
    if size % p.nbytes or offset % p.nbytes or offset + size > mem.size or size <= 0:
        raise LogicError("clEnqueueFillBuffer failed: INVALID_VALUE")
    if s.fail("fill"):
        raise RuntimeError("clEnqueueFillBuffer failed: OUT_OF_RESOURCES")
    b = np.frombuffer(p.tobytes(), np.uint8)

    def go():
        mem._view()[offset:offset + size] = np.tile(b, size // p.nbytes)
    queue._put(go, (mem,))
    return Event()


def enqueue_barrier(queue, wait_for=None):
    return Event()


def enqueue_marker(queue, wait_for=None):
    return Event()


def enqueue_nd_range_kernel(queue, kernel, gsize, lsize, **_):
    raise gap("set_args style launches are not modelled")


device_type_ns = types.SimpleNamespace(GPU=4, CPU=2, ALL=0xFFFFFFFF)


def install():
    """Put the simulated module in the place of pyopencl, before the package is imported."""
    if isinstance(sys.modules.get("pyopencl"), types.ModuleType) and getattr(sys.modules["pyopencl"], "_simulated", False):
        return
    m = types.ModuleType("pyopencl")
    m._simulated = True
    for n in ("Error", "MemoryError", "LogicError", "RuntimeError", "get_platforms", "Context", "Kernel", "Event", "Program",
              "CommandQueue", "Buffer", "LocalMemory", "enqueue_copy", "enqueue_fill_buffer", "enqueue_barrier",
              "enqueue_marker", "enqueue_nd_range_kernel", "Device", "Platform"):
        setattr(m, n, globals()[n])
    m.device_type = device_type_ns
    m.mem_flags = types.SimpleNamespace(READ_WRITE=1, WRITE_ONLY=2, READ_ONLY=4, USE_HOST_PTR=8, ALLOC_HOST_PTR=16,
                                        COPY_HOST_PTR=32, HOST_WRITE_ONLY=128, HOST_READ_ONLY=256, HOST_NO_ACCESS=512)
    m.device_info = types.SimpleNamespace(MAX_WORK_GROUP_SIZE="max_work_group_size", MAX_MEM_ALLOC_SIZE="max_mem_alloc_size",
                                          GLOBAL_MEM_SIZE="global_mem_size", NAME="name",
                                          HOST_UNIFIED_MEMORY="host_unified_memory")
    m.VERSION = (2026, 1, 4)
    m.VERSION_TEXT = "2026.1.4"
    m.__version__ = m.VERSION_TEXT
    sys.modules["pyopencl"] = m


class Quiet:
    """The run as seen by a reference session: nothing is drawn or recorded."""

    class ch:
        flag = staticmethod(lambda l, p: False)
        pick = staticmethod(lambda l, o, w=None: o[0])
        int = staticmethod(lambda l, lo, hi, default=None: lo if default is None else default)
        subseed = staticmethod(lambda l: 0)

    def log(self, *a):
        pass

    order = []
    fault = probe = log


@contextlib.contextmanager
def plain(**cfg):
    """A device that works through everything in order, with zeroed memory, beside the one of the run."""
    global sim
    outer = sim
    sim = Session(Quiet(), dict(dict(order=0, junk=0, lag=0, lazy=0.0, races=False), **cfg))
    try:
        yield sim
    finally:
        sim = outer


def session(run, **cfg):
    global sim
    sim = Session(run, cfg)
    return sim


def end():
    global sim
    sim = None
