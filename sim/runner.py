"""Drive a check: many seeded runs over several processes, minimise and replay failures, write evidence.

  python -m sim.runner check  C01            (VERIF_SEED, VERIF_TIER)
  python -m sim.runner replay FILE
  python -m sim.runner one    C01 SEED       (print the run's event log)
  python -m sim.runner selftest C01 N        (determinism: N seeds, two processes, two PYTHONHASHSEEDs)
internal: work, minimise
"""
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
perf = time.perf_counter


def module(pid):
    return importlib.import_module(f"sim.checks.{pid.lower()}")


# ------------------------------------------------------------------ one run
_hang = {"n": 0, "cb": None}


def _on_alarm(sig, frame):
    from .core import RunHang
    _hang["n"] += 1
    if _hang["n"] > 15 and _hang["cb"] is not None:
        _hang["cb"]()
        os._exit(3)
    raise RunHang()


def _repo_frame(tb):
    found = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(os.path.realpath(REPO) + os.sep):
            found = f"{os.path.relpath(fn, REPO)}:{tb.tb_lineno}"
        tb = tb.tb_next
    return found


def one_run(mod, seed=None, explicit=None, hang_cb=None):
    """Returns (run, verdict); verdict None or {'cls','msg'} or {'harness': text}."""
    import gc
    import random
    import numpy as np
    from .core import Choices, HarnessError, Run, RunHang, Violation
    from . import sci
    run = Run(Choices(seed=seed, explicit=explicit))
    run.log(f"seed {seed}")
    random.seed(12345)
    np.random.seed(12345)
    verdict = None
    limit = getattr(mod, "CPU_LIMIT", 60)
    _hang["n"] = 0

    def cb():
        if hang_cb:
            hang_cb(run)
    _hang["cb"] = cb
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, limit, 1.0)
    try:
        with sci.quiet():
            mod.run(run)
    except Violation as v:
        verdict = {"cls": v.cls, "msg": v.msg}
    except RunHang:
        verdict = {"cls": "hang", "msg": f"the run did not end within {limit} s of CPU time (normal: well under 1 s)"}
    except HarnessError:
        verdict = {"harness": traceback.format_exc()}
    except (Exception, SystemExit) as e:
        where = _repo_frame(e.__traceback__)
        if where is not None:
            verdict = {"cls": f"exception:{type(e).__name__}", "msg": f"{e!r} raised at {where}"}
        else:
            verdict = {"harness": traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        try:
            if hasattr(mod, "cleanup"):
                mod.cleanup()
        finally:
            from . import simclock
            simclock.active = None
    if verdict and "cls" in verdict and hasattr(mod, "context"):
        pass
    gc.collect(0)
    return run, verdict


def prepare(mod):
    import warnings
    warnings.simplefilter("ignore")
    from . import sci
    sci.load(**getattr(mod, "LOAD", {}))
    with sci.quiet():
        mod.prepare()


def record(seed, run, verdict, wall):
    r = {"seed": seed, "events": len(run.events), "digest": run.digest(), "order": run.order_digest(),
         "sim": run.simtime, "faults": run.faults, "probes": run.probes, "nt": bool(run.nontrivial), "wall": wall,
         "choices": run.ch.total}
    if verdict:
        r["verdict"] = verdict
        r["taken"] = run.ch.taken
    return r


def work(pid, out, base, start, stop, step, deadline):
    from . import simclock
    mod = module(pid)
    prepare(mod)
    end = perf() + deadline
    with open(out, "w") as f:
        f.write(json.dumps({"ready": True, "t": time.time()}) + "\n")
        f.flush()
        for i in range(start, stop, step):
            if perf() > end:
                f.write(json.dumps({"timeup": i}) + "\n")
                break
            seed = base + i
            t = perf()

            def hang(run):
                f.write(json.dumps(record(seed, run, {"cls": "hang", "msg": "the run did not end (CPU limit; the "
                                                      "code swallowed the interruption)"}, perf() - t)) + "\n")
                f.flush()
            run, v = one_run(mod, seed=seed, hang_cb=hang)
            r = record(seed, run, v, perf() - t)
            if i < 4 * step:
                r["case"] = run.case
            f.write(json.dumps(r, default=str) + "\n")
            f.flush()
            if v and not os.environ.get("VERIF_KEEP"):
                break
        f.write(json.dumps({"end": True, "t": simclock.real_time()}) + "\n")


HEAVY = ["_assign_bands_nb", "_orientation_quest_nb", "band_label_numba", "_tripvote_numba"]


def prewarm(pid, k, n):
    """Compile this process's share of the package's numba functions into the shared cache; the other functions run
    as plain Python here. Only a matter of speed: whatever goes wrong is left to the warm-up process."""
    import zlib
    from numba.core import dispatcher
    orig = dispatcher.Dispatcher._compile_for_args

    def mine(self, *a, **kw):
        name = self.py_func.__name__
        if _PKG in self.py_func.__code__.co_filename:
            ro = any(getattr(getattr(x, "flags", None), "writeable", True) is False for x in a)
            if name in HEAVY:
                who = HEAVY.index(name) + (4 if ro else 0)
            else:
                who = 2 + zlib.crc32(name.encode()) % 2 + (4 if ro else 0)
            if who % n != k:
                return self.py_func      # the dispatcher calls what it is given
        return orig(self, *a, **kw)
    dispatcher.Dispatcher._compile_for_args = mine
    mod = module(pid)
    from . import sci
    sci.load(**getattr(mod, "LOAD", {}))
    with sci.quiet():
        mod.prewarm()


_PKG = os.sep + "pyebsdindex" + os.sep


# ------------------------------------------------------------------ minimise / replay
def _try(mod, explicit):
    run, v = one_run(mod, explicit=explicit)
    return run, v


def minimise(pid, infile, outfile, deadline):
    mod = module(pid)
    prepare(mod)
    end = perf() + deadline
    rec = json.load(open(infile))
    cls = rec["verdict"]["cls"]
    cur = dict(rec["taken"])
    tries = 0

    def bad(d):
        nonlocal tries
        tries += 1
        run, v = _try(mod, d)
        if v and v.get("cls") == cls:
            return run, v
        return None
    r = bad(cur)
    ok = r is not None
    best = r
    if ok and cls != "hang":
        cur = {k: v for k, v in best[0].ch.taken.items()}
        # 1. ddmin: reset groups of decisions to their default
        n = 2
        while len(cur) >= 1 and perf() < end:
            keys = list(cur)
            size = max(1, len(keys) // n)
            chunks = [keys[i:i + size] for i in range(0, len(keys), size)]
            done = False
            for c in chunks:
                if perf() > end:
                    break
                cand = {k: v for k, v in cur.items() if k not in c}
                r = bad(cand)
                if r:
                    best = r
                    nxt = {k: v for k, v in r[0].ch.taken.items() if k in cand}
                    cur = nxt if len(nxt) <= len(cand) else cand
                    n = max(n - 1, 2)
                    done = True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(keys), n * 2)
        # 2. shrink values
        for k in list(cur):
            while perf() < end and isinstance(cur.get(k), (int, float)) and not isinstance(cur[k], bool) and cur[k] > 1:
                cand = dict(cur)
                cand[k] = cur[k] // 2 if isinstance(cur[k], int) else round(cur[k] / 2, 6)
                r = bad(cand)
                if not r:
                    break
                best = r
                cur = cand
    final = bad(cur)
    if final is None:
        cur, final = dict(rec["taken"]), bad(dict(rec["taken"]))
    out = {"property": pid, "seed": rec["seed"], "class": cls, "choices": cur,
           "reproduced_in_minimiser": final is not None, "original_choices": len(rec["taken"]),
           "minimised_choices": len(cur), "tries": tries}
    if final is not None:
        run, v = final
        out.update(message=v["msg"], digest=run.digest(), trace=run.events[-400:], case=run.case)
    else:
        out.update(message=rec["verdict"]["msg"], digest=rec["digest"], trace=[], case={}, choices=rec["taken"])
    json.dump(out, open(outfile, "w"), indent=1, default=str)


def replay(path, quiet=False):
    rec = json.load(open(path))
    mod = module(rec["property"])
    prepare(mod)

    def hang(run):
        print(f"REPLAY property={rec['property']} class=hang")
        print("VIOLATION-REPRODUCED" if rec["class"] == "hang" else "DIFFERENT")
        sys.stdout.flush()
    if rec["choices"] is None:
        run, v = one_run(mod, seed=rec["seed"], hang_cb=hang)
    else:
        run, v = one_run(mod, explicit=rec["choices"], hang_cb=hang)
    for e in run.events if not quiet else []:
        print("  ", e)
    print("verdict:", v)
    print("digest:", run.digest(), "recorded:", rec.get("digest"))
    if v and v.get("cls") == rec["class"]:
        print("VIOLATION-REPRODUCED" + (" (identical event log)" if run.digest() == rec.get("digest") else
                                        " (event log differs)"))
        return 1
    print("NOT-REPRODUCED")
    return 0


# ------------------------------------------------------------------ parent
def environment(scratch, hashseed="0"):
    env = dict(os.environ)
    env.update(HOME=scratch, PYTHONHASHSEED=hashseed, MPLBACKEND="Agg", RAY_USAGE_STATS_ENABLED="0",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), NUMBA_NUM_THREADS="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_THREADING_LAYER="workqueue", TMPDIR=scratch,
               PYTHONPATH=VERIF, VERIF_SCRATCH=scratch,
               NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), PYTHONWARNINGS="ignore")
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    env.pop("CUDA_VISIBLE_DEVICES", None)
    return env


def build_native(scratch, env):
    """The native parts of the simulator, compiled on every run (nothing is kept between runs)."""
    so = os.path.join(scratch, "iofault.so")
    src = os.path.join(HERE, "iofault.c")
    if os.path.exists(src):
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl", "-lpthread"], check=True)
        env["VERIF_IOFAULT"] = so


def spawn(args, env, mod, log):
    e = dict(env)
    if getattr(mod, "PRELOAD", False):
        e["LD_PRELOAD"] = env["VERIF_IOFAULT"]
    return subprocess.Popen([PY, "-W", "ignore", "-m", "sim.runner"] + [str(a) for a in args], env=e, cwd=VERIF,
                            stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def killall(procs):
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        p.wait()


def read_lines(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for ln in f:
                if ln.endswith("\n"):
                    try:
                        out.append(json.loads(ln))
                    except ValueError:
                        pass
    return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []


def check(pid):
    t0 = perf()
    w0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    mod = module(pid)
    nproc = min(os.cpu_count() or 4, 8)
    total = mod.RUNS[tier]
    wall = mod.WALL.get(tier) if hasattr(mod, "WALL") else {"quick": 240, "thorough": 3000}[tier]
    base = vseed * 10_000_000
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    env = environment(scratch)
    logf = open(os.path.join(scratch, "log.txt"), "w+")
    procs = []
    try:
        build_native(scratch, env)
        # compile once (numba cache in the scratch HOME), then fan out
        w = os.path.join(scratch, "warm.jsonl")
        if hasattr(mod, "prewarm"):
            pre = [spawn(["prewarm", pid, k, nproc], env, mod, logf) for k in range(nproc)]
            procs += pre
            end = perf() + 120
            while perf() < end and any(q.poll() is None for q in pre):
                time.sleep(0.1)
            if os.environ.get("VERIF_PHASES"):
                print("prewarm", round(perf() - t0, 1))
            killall(pre)
            procs.clear()
            logf.seek(0)
            logf.truncate()
        p = spawn(["work", pid, w, base, 0, mod.WARM if hasattr(mod, "WARM") else 2, 1, 600], env, mod, logf)
        procs.append(p)
        try:
            p.wait(timeout=500)
        except subprocess.TimeoutExpired:
            pass
        recs = [r for r in read_lines(w)]
        warm_ok = any("ready" in r for r in recs)
        bad = [r for r in recs if "verdict" in r]
        outs = [w]
        if not bad and warm_ok:
            first = mod.WARM if hasattr(mod, "WARM") else 2
            for k in range(nproc):
                o = os.path.join(scratch, f"w{k}.jsonl")
                outs.append(o)
                procs.append(spawn(["work", pid, o, base, first + k, total, nproc, wall], env, mod, logf))
            # one more process repeats the first seeds under another hash seed: event logs must agree
            envh = dict(env, PYTHONHASHSEED="4242")
            o = os.path.join(scratch, "det.jsonl")
            procs.append(spawn(["work", pid, o, base, 0, min(total, 24), 1, wall], envh, mod, logf))
            end = perf() + wall + 240
            while perf() < end and any(q.poll() is None for q in procs):
                time.sleep(0.2)
                if any(os.path.exists(x) and b'"verdict"' in open(x, "rb").read() for x in outs):
                    time.sleep(0.5)
                    break
        seen = {}
        ended = 0
        timeup = 0
        for o in outs:
            for r in read_lines(o):
                if "end" in r:
                    ended += 1
                if "timeup" in r:
                    timeup += 1
                if "seed" in r:
                    seen[r["seed"]] = r
        det = [r for r in read_lines(os.path.join(scratch, "det.jsonl")) if "seed" in r]
        killall(procs)
        if os.environ.get("VERIF_PHASES"):
            for o in outs + [os.path.join(scratch, "det.jsonl")]:
                print(os.path.basename(o), [round(r["t"] - w0, 1) for r in read_lines(o) if "t" in r],
                      len(read_lines(o)))
        runs = list(seen.values())
        bad = [r for r in runs if "verdict" in r]
        viol = sorted([r for r in bad if "cls" in r["verdict"]], key=lambda r: r["seed"])
        harness = [r for r in bad if "harness" in r["verdict"]]
        mism = [r["seed"] for r in det if r["seed"] in seen and r["digest"] != seen[r["seed"]]["digest"]]
        ndet = sum(1 for r in det if r["seed"] in seen)
        rc = 0
        replay_path = None
        if viol:
            rc = 1
            replay_path = report(pid, viol[0], scratch, env, mod, logf)
        elif harness or not warm_ok or (ended < len(outs) and not viol):
            rc = 2
            print(f"HARNESS-ERROR property={pid}: " + (harness[0]["verdict"]["harness"] if harness else
                                                        f"{len(outs) - ended} worker processes did not finish"))
            logf.flush()
            logf.seek(0)
            print(logf.read()[-3000:])
        evidence(pid, mod, tier, vseed, runs, perf() - t0, len(viol), mism, ndet, timeup, replay_path)
        if rc == 0:
            for k in known_findings():
                if k["property"] == pid:
                    print(f"KNOWN-FINDING: property={pid} {k['what']}")
            print(f"OK property={pid} runs={len(runs)} wall={perf() - t0:.0f}s")
        return rc
    finally:
        killall(procs)
        logf.close()
        shutil.rmtree(scratch, ignore_errors=True)


def report(pid, rec, scratch, env, mod, logf):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{rec['seed']}.json")
    if os.path.exists(path):
        os.remove(path)
    src = os.path.join(scratch, "fail.json")
    json.dump(rec, open(src, "w"))
    p = spawn(["minimise", pid, src, path, 90], env, mod, logf)
    try:
        p.wait(timeout=240)
    except subprocess.TimeoutExpired:
        killall([p])
    if not os.path.exists(path) or os.path.getsize(path) == 0:
        json.dump({"property": pid, "seed": rec["seed"], "class": rec["verdict"]["cls"], "choices": None,
                   "message": rec["verdict"]["msg"], "digest": rec["digest"]}, open(path, "w"), indent=1)
    out = json.load(open(path))
    e = dict(env)
    if getattr(mod, "PRELOAD", False):
        e["LD_PRELOAD"] = env["VERIF_IOFAULT"]
    try:
        q = subprocess.run([PY, "-W", "ignore", "-m", "sim.runner", "replay", path], env=e, cwd=VERIF,
                           capture_output=True, text=True, timeout=200)
        rep = "VIOLATION-REPRODUCED" in q.stdout
    except subprocess.TimeoutExpired:
        rep = out["class"] == "hang"
    out["replayed_in_fresh_process"] = rep
    json.dump(out, open(path, "w"), indent=1, default=str)
    print(f"seed {rec['seed']}: {out['class']}: {out['message']}")
    print(f"minimised from {len(rec['taken'])} to {len(out['choices'] or [])} decisions; replay in a fresh process "
          f"{'reproduces it' if rep else 'did NOT reproduce it'}; run: {PY} -m sim.runner replay {path}")
    for k, v in list((out["choices"] or {}).items())[:25]:
        print(f"   {k} = {v}")
    print(f"VIOLATION property={pid} replay={path}")
    sys.stdout.flush()
    return path


def evidence(pid, mod, tier, vseed, runs, wall, nviol, mism, ndet, timeup, replay_path):
    faults, probes = collections.Counter(), collections.Counter()
    for r in runs:
        faults.update(r["faults"])
        probes.update(r["probes"])
    cpu = sum(r["wall"] for r in runs)
    samples = [dict(seed=r["seed"], **{k: v for k, v in r["case"].items()}, faults=r["faults"], events=r["events"])
               for r in sorted(runs, key=lambda r: r["seed"]) if r.get("case")][:4]
    nt = [r for r in runs if r["nt"]]
    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(runs),
            "distinct_nontrivial": len({r["digest"] for r in nt}),
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs": len(runs),
            "runs_per_hour": round(len(runs) / max(wall, 1e-9) * 3600),
            "seeds": [min((r["seed"] for r in runs), default=0), max((r["seed"] for r in runs), default=0)],
            "simulated_seconds": round(sum(r["sim"] for r in runs), 1),
            "faults_injected": dict(sorted(faults.items())),
            "runs_with_faults": sum(1 for r in runs if r["faults"]),
            "probes": dict(sorted(probes.items())),
            "distinct_interleavings": len({r["order"] for r in runs}),
            "interleaving_measure": getattr(mod, "ORDER", "digest of the order of simulator events"),
            "decisions": sum(r["choices"] for r in runs),
            "events": sum(r["events"] for r in runs),
            "real_components": mod.REAL, "stub_components": mod.STUB,
            "determinism": {"seeds_run_twice": ndet, "other_PYTHONHASHSEED": True, "event_logs_differing": len(mism)},
            "stopped_by_wall_clock": timeup,
            "run_cpu_seconds": round(cpu, 1),
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 1), "violations": nviol,
    }
    if replay_path:
        ev["coverage"]["replay"] = replay_path
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, f"{pid}.json"), "w"), indent=1, default=str)


def with_scratch(pid, fn):
    """Run fn(env, mod) with a scratch HOME (for the command-line modes)."""
    mod = module(pid)
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    env = environment(scratch)
    try:
        build_native(scratch, env)
        if os.environ.get("VERIF_HOME"):        # development: reuse a numba cache
            env["HOME"] = os.environ["VERIF_HOME"]
            env["NUMBA_CACHE_DIR"] = os.path.join(env["HOME"], "nc")
        return fn(env, mod, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest(pid, n):
    def go(env, mod, scratch):
        with open(os.path.join(scratch, "log"), "w") as lf:
            ps = []
            for k, hs in enumerate(["0", "1", "777"]):
                e = dict(env, PYTHONHASHSEED=hs)
                if k == 0:
                    spawn(["work", pid, os.path.join(scratch, "x"), 1, 0, 2, 1, 900], e, mod, lf).wait()
                step = [1, 1, 3][k]
                for s in range(step):
                    ps.append(spawn(["work", pid, os.path.join(scratch, f"s{k}.{s}"), 5_000_000, s, n, step, 3000], e, mod, lf))
            for p in ps:
                p.wait()
        res = []
        for k, step in enumerate([1, 1, 3]):
            d = {}
            for s in range(step):
                for r in read_lines(os.path.join(scratch, f"s{k}.{s}")):
                    if "seed" in r:
                        d[r["seed"]] = r["digest"]
            res.append(d)
        diff = [s for s in res[0] if any(x.get(s) != res[0][s] for x in res[1:])]
        print(f"{pid}: {len(res[0])}/{len(res[1])}/{len(res[2])} runs, {len(diff)} event logs differ {diff[:5]}")
        if os.environ.get("V"):
            print(open(os.path.join(scratch, "log")).read()[-2000:])
        return 1 if diff else 0
    return with_scratch(pid, go)


def survey(pid, n, base=1):
    """Development: n seeds over all cores, carry on after violations, list them by class."""
    def go(env, mod, scratch):
        env["VERIF_KEEP"] = "1"
        t0 = perf()
        with open(os.path.join(scratch, "log"), "w") as lf:
            outs = [os.path.join(scratch, f"s{k}") for k in range(8)]
            ps = [spawn(["work", pid, o, base * 10_000_000, k, n, 8, 3000], env, mod, lf) for k, o in enumerate(outs)]
            for p in ps:
                p.wait()
        runs = [r for o in outs for r in read_lines(o) if "seed" in r]
        by = collections.defaultdict(list)
        faults, probes = collections.Counter(), collections.Counter()
        for r in runs:
            faults.update(r["faults"])
            probes.update(r["probes"])
            v = r.get("verdict")
            if v:
                by[v.get("cls") or "HARNESS"].append((r["seed"], v.get("msg") or v["harness"]))
        print(f"{pid}: {len(runs)} runs, {sum(r['wall'] for r in runs):.0f} cpu s, {perf() - t0:.0f} s; "
              f"nontrivial {sum(r['nt'] for r in runs)}; faults {dict(faults)}; probes {dict(sorted(probes.items()))}")
        for c, l in sorted(by.items()):
            print(f"== {c}: {len(l)}")
            msgs = collections.Counter(m[-300:] if c == "HARNESS" else m[:300] for _, m in l)
            for m, k in msgs.most_common(12):
                print(f"   {k:4d} {[s for s, x in l if (x[-300:] if c == 'HARNESS' else x[:300]) == m][:3]} {m}")
        if len(runs) < n:
            print(open(os.path.join(scratch, "log")).read()[-3000:])
        return 0
    return with_scratch(pid, go)


def main(a):
    if a[0] == "survey":
        return survey(a[1], int(a[2]), int(a[3]) if len(a) > 3 else 1)
    if a[0] == "check":
        return check(a[1])
    if a[0] == "work":
        return work(a[1], a[2], *[int(x) for x in a[3:7]], float(a[7]))
    if a[0] == "prewarm":
        return prewarm(a[1], int(a[2]), int(a[3]))
    if a[0] == "minimise":
        return minimise(a[1], a[2], a[3], float(a[4]))
    if a[0] == "selftest":
        return selftest(a[1], int(a[2]))
    if a[0] == "replay":
        if "VERIF_SCRATCH" in os.environ:
            return replay(a[1])
        pid = json.load(open(a[1]))["property"]
        return with_scratch(pid, lambda env, mod, s: spawn(["replay", os.path.abspath(a[1])], env, mod, None).wait())
    if a[0] == "one":
        if "VERIF_SCRATCH" in os.environ:
            mod = module(a[1])
            prepare(mod)
            for s in a[2:]:
                run, v = one_run(mod, seed=int(s))
                if len(a) == 3:
                    print("\n".join(run.events))
                    print("taken", run.ch.taken)
                print(s, "case", run.case, "faults", run.faults, "probes", run.probes, "sim", round(run.simtime, 2), "events", len(run.events))
                print("verdict", v)
            return 0
        return with_scratch(a[1], lambda env, mod, s: spawn(a, env, mod, None).wait())
    raise SystemExit(f"unknown mode {a[0]}")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
