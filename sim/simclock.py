"""Clock seam. install() must run before the package (and anything binding these functions) is imported.
Outside a simulated run the real functions answer; inside one, the active simulation does."""
import os
import sys
import time
import timeit

_real = dict(time=time.time, sleep=time.sleep, perf_counter=time.perf_counter,
             monotonic=time.monotonic, cpu_count=os.cpu_count)
_REPO = os.sep + "pyebsdindex" + os.sep
active = None      # object with .clock() and .sleep(dt) and optional .cpus


def _read():
    """Simulated time moves a little at each reading by the package (and only by the package: readings by
    libraries depend on what they have cached in this process)."""
    return active.clock(_REPO in sys._getframe(2).f_code.co_filename)


def _time():
    return _real["time"]() if active is None else 1.7e9 + _read()


def _perf():
    return _real["perf_counter"]() if active is None else _read()


def _mono():
    return _real["monotonic"]() if active is None else _read()


def _sleep(dt):
    if active is None:
        _real["sleep"](dt)
    else:
        active.sleep(dt)


def _cpu_count():
    if active is not None and getattr(active, "cpus", None):
        return active.cpus
    return _real["cpu_count"]()


def install():
    time.time = _time
    time.perf_counter = _perf
    time.monotonic = _mono
    time.sleep = _sleep
    timeit.default_timer = _perf
    os.cpu_count = _cpu_count


def real_perf():
    return _real["perf_counter"]()


def real_time():
    return _real["time"]()
