#!/usr/bin/env python3
"""Write MANIFEST.json from the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": (T + "seeded schedules on a simulated ray cluster", "every worker schedule sampled from the seed gives the records of one-at-a-time sequential indexing; real driver and workers, simulated ray"),
    "C02": (T + "worker crashes, errors, stalls on a simulated ray cluster", "sampled fault sequences; results compared with the sequential reference; a call may raise only after more than 5 faults or when a fault persists"),
    "C03": (T + "liveness in simulated time", "sampled timings up to 500 s per chunk and 300 s per start, up to 5 faults; return required within a bound on simulated time"),
    "C04": (T + "histories of calls with failures and driver interrupts", "environment, cluster and inputs compared before and after every call of sampled histories"),
    "C05": (T + "read faults, truncation and short reads under the pattern readers", "sampled formats, ranges and I/O faults, real readers on real files behind an I/O fault layer"),
    "C06": (T + "write faults under the pattern writers", "sampled write sequences and I/O faults against an in-memory model of the file"),
    "C07": (T + "sampled chunkings and call histories of file denoising", "written file compared with a whole-scan reference of the averaging formula"),
    "C08": (T + "crash or I/O error at a sampled operation of file denoising", "source file unchanged, success only with complete output, rerun gives the undisturbed output"),
    "C09": (T + "interleavings of the parallel kernel iterations", "the kernels' own source run by a step-wise scheduler that decides every interleaving"),
    "C10": (T + "multi-worker GPU denoising on a simulated cluster and OpenCL device", "real driver and workers, real kernels compiled for the host"),
    "C11": (T + "GPU denoising on a simulated OpenCL device", "real driver and kernels (compiled for the host), empty results, memory sizes and failures injected"),
    "C12": (T + "swarm optimisation under simulated random streams", "every random draw decided by the simulator, invariants checked on every evaluation"),
    "C13": (T + "interrupts at a sampled point of a call", "indexer and inputs compared before and after; the next call compared with a fresh indexer"),
    "C14": (T + "sampled histories of calls on one indexer", "every call compared with a freshly built indexer, pattern by pattern"),
    "C15": (T + "write faults during export", "exported files parsed and compared; a call that returns under faults must have written a complete file"),
    "C16": (T + "OpenCL failures at a sampled step of band detection", "real GPU path and kernels on a simulated device, compared with CPU band detection"),
}
NA = {
    "C05": None, "C06": None, "C07": None, "C08": None, "C09": None, "C10": None, "C11": None, "C12": None,
    "C13": None, "C14": None, "C15": None, "C16": None,
    "C17": "a pure function of its arguments: no schedule, clock, fault or history for a simulation to decide",
    "C18": "a pure function of the detected bands: no schedule, clock, fault or history for a simulation to decide",
    "C19": "a pure function of its arguments: no schedule, clock, fault or history for a simulation to decide",
    "C20": "a pure function of its arguments: no schedule, clock, fault or history for a simulation to decide",
}
checks, na = [], []
for pid in ["C%02d" % i for i in range(1, 21)]:
    if os.path.exists(os.path.join(HERE, "sim", "checks", pid.lower() + ".py")):
        t, note = CHECKS[pid]
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}", "technique": t,
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid) or "no check built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is installed from /verif at import time."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
