"""The simulator's driver: seeded runs, one forked process each, search, minimisation, replay, evidence.

A run is a pure function of its plan (JSON) and the code under test.  The plan is a pure function of
(VERIF_SEED, property, run index, tier).  Every run happens in a process forked from a worker that has
imported qp and done nothing else, so no state passes from one run to another.
"""

import collections
import copy
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
RUN_TIMEOUT = 150  # wall seconds after which a run counts as making no progress
MEMORY = 4 << 30


class Violation(Exception):
    """The property does not hold.  sig names the kind of failure, for minimisation and known findings."""

    def __init__(self, sig, msg=""):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg = sig, str(msg)


class Ctx:
    """What a run records.  Nothing here influences the run."""

    def __init__(self, scratch, fs):
        self.dir, self.fs = scratch, fs
        self.events, self.hits, self.faults, self.states = [], collections.Counter(), collections.Counter(), set()
        self.steps, self.nontrivial = 0, False

    def log(self, *items):
        self.steps += 1
        self.events.append(" ".join(str(i) for i in items))

    def hit(self, name, n=1):
        self.hits[name] += n

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] += n
            self.nontrivial = True

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])

    def fail(self, sig, msg=""):
        raise Violation(sig, msg)

    def check(self, problem, sig, msg=""):
        """problem: None when all is well"""
        if problem:
            raise Violation(sig, f"{msg}: {problem}" if msg else problem)


class Scenario:
    """One property.  Subclasses: gen, run, and optionally simplify."""

    pid = None
    runs = {"quick": 200, "thorough": 5000}
    level = "exploration"
    rule = ""
    state_measure = ""
    real = "all of qp, numpy, scipy"
    stub = "none"
    assumptions = []
    lists = ("ops", "faults", "switches", "cuts", "stops")

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def run(self, plan, ctx):
        raise NotImplementedError

    def simplify(self, plan):
        """Further, scenario specific, candidates for minimisation."""
        return []

    def shrink(self, plan):
        for key in self.lists:
            ops = plan.get(key)
            if not ops:
                continue
            size = len(ops)
            while size:
                for start in range(0, len(ops), size):
                    cand = copy.deepcopy(plan)
                    del cand[key][start : start + size]
                    yield cand
                size //= 2
        yield from self.simplify(plan)


def load(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}").Scenario()


# ---------------------------------------------------------------- one run


def through_library(x):
    import qp

    root = os.path.dirname(os.path.abspath(qp.__file__)) + os.sep
    return any(f.filename.startswith(root) for f in traceback.extract_tb(x.__traceback__))


def _child(scen, plan, wfd, scratch):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    null = os.open(os.devnull, os.O_RDWR)
    # qp and its dependencies print; what they print is not part of a run
    os.dup2(null, 1)
    os.dup2(null, 2)
    from sim import ffs

    ctx = Ctx(scratch, ffs.FaultFS())
    out = {}
    try:
        scen.run(plan, ctx)
        out["status"] = "ok"
    except Violation as v:
        out.update(status="violation", sig=v.sig, msg=v.msg)
    except Exception as x:  # pylint: disable=broad-except
        if through_library(x) or not isinstance(x, (OSError, MemoryError, ImportError, AssertionError)):
            # nothing in a run raises on the unchanged tree: the library failed, or left something unusable
            out.update(status="violation", sig=f"unexpected-{type(x).__name__}", msg="".join(traceback.format_exception(x)[-4:])[-1200:])
        else:
            out.update(status="error", sig="harness", msg=traceback.format_exc())
    except BaseException:  # pylint: disable=broad-except
        out.update(status="error", sig="harness", msg=traceback.format_exc())
    try:
        h = hashlib.sha256("\n".join(ctx.events + [str(out.get("sig")), str(sorted(ctx.states))]).encode()).hexdigest()[:16]
        out.update(hash=h, steps=ctx.steps, hits=ctx.hits, faults=ctx.faults, states=sorted(ctx.states), nontrivial=ctx.nontrivial)
        if out["status"] != "ok":
            out["events"] = ctx.events[-400:]
        data = json.dumps(out, default=str).encode()
        while data:
            data = data[os.write(wfd, data) :]
    finally:
        os._exit(0)


def run_forked(scen, plan):
    scratch = tempfile.mkdtemp(prefix="qpsim-")
    rfd, wfd = os.pipe()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        os.setpgid(0, 0)
        _child(scen, plan, wfd, scratch)
    os.close(wfd)
    data, timed_out = b"", False
    while True:
        left = RUN_TIMEOUT - (time.monotonic() - t0)
        if left <= 0 or not select.select([rfd], [], [], left)[0]:
            timed_out = True
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        data += b
    os.close(rfd)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    base = dict(hash="", steps=0, hits={}, faults={}, states=[], nontrivial=False, events=[])
    if timed_out:
        return dict(base, status="violation", sig="no-progress", msg=f"the run did not end within {RUN_TIMEOUT} s of real time")
    try:
        return json.loads(data)
    except ValueError:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
            return dict(base, status="violation", sig="process-died", msg=f"the process died of signal {os.WTERMSIG(st)}")
        return dict(base, status="error", sig="harness", msg=f"child ended with status {st} and no result")


def make_plan(scen, seed, index, tier):
    plan = scen.gen(random.Random(f"{seed}:{scen.pid}:{index}"), tier, index)
    return json.loads(json.dumps(plan))


def worker_main(pid):
    """Reads one JSON request per line, answers each with one JSON line."""
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    from sim import sched

    sched.patch_threading()
    scen = load(pid)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import gc

    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        req = json.loads(line)
        plan = req.get("plan")
        try:
            if plan is None:
                plan = make_plan(scen, req["seed"], req["index"], req["tier"])
            res = run_forked(scen, plan)
        except Exception:  # pylint: disable=broad-except
            res = dict(status="error", sig="harness", msg=traceback.format_exc(), hash="", steps=0, hits={}, faults={}, states=[], nontrivial=False)
        if res["status"] != "ok" or req.get("want_plan"):
            res["plan"] = plan
        res["id"] = req["id"]
        out.write(json.dumps(res) + "\n")
        out.flush()


# ---------------------------------------------------------------- pool of workers


def worker_env(hashseed="0"):
    from sim import ffs

    env = dict(os.environ)
    env.update(
        LD_PRELOAD=ffs.build_shim(),
        PYTHONHASHSEED=str(hashseed),
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        OMP_THREAD_LIMIT="1",
        MKL_NUM_THREADS="1",
        ARROW_NUM_THREADS="1",
        NUMEXPR_MAX_THREADS="1",
        HDF5_USE_FILE_LOCKING="FALSE",
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=os.environ.get("PYTHONPATH") or VERIF,  # as set by check
    )
    return env


class Pool:
    def __init__(self, pid, n, hashseed="0"):
        env = worker_env(hashseed)
        self.procs = [
            subprocess.Popen([sys.executable, "-m", "sim", "--worker", pid], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=VERIF, text=True, bufsize=1)
            for _ in range(n)
        ]
        self.lock = threading.Lock()

    def map(self, requests, on_result, stop=lambda: False):
        """requests: iterator of dicts.  on_result(req, res) is called under a lock, in any order."""
        it = iter(enumerate(requests))

        def loop(p):
            while True:
                with self.lock:
                    if stop():
                        return
                    try:
                        i, req = next(it)
                    except StopIteration:
                        return
                try:
                    p.stdin.write(json.dumps(dict(req, id=i)) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except (BrokenPipeError, OSError):
                    line = ""
                res = json.loads(line) if line else dict(status="error", sig="harness", msg="worker ended", hash="", steps=0, hits={}, faults={}, states=[], nontrivial=False)
                with self.lock:
                    on_result(req, res)
                if not line:
                    return

        ts = [threading.Thread(target=loop, args=(p,)) for p in self.procs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def close(self):
        for p in self.procs:
            try:
                p.stdin.close()
            except OSError:
                pass
        for p in self.procs:
            try:
                p.wait(timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()


def minimise(scen, pool, plan, sig, budget):
    """Greedy: first candidate (in a fixed order) which fails the same way, again and again."""
    t0, tried = time.monotonic(), 0
    best, best_res = plan, None
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        cands = iter(scen.shrink(best))
        while time.monotonic() - t0 < budget:
            batch = []
            for c in cands:
                batch.append(c)
                if len(batch) == len(pool.procs):
                    break
            if not batch:
                break
            got = {}
            reqs = [dict(plan=c, k=k) for k, c in enumerate(batch)]
            pool.map(reqs, lambda q, r: got.__setitem__(q["k"], r))
            tried += len(batch)
            ok = [k for k in sorted(got) if got[k]["status"] == "violation" and got[k]["sig"] == sig]
            if ok:
                best, best_res, progress = batch[ok[0]], got[ok[0]], True
                break
    return best, best_res, tried


def size_of(plan):
    return len(json.dumps(plan))


# ---------------------------------------------------------------- known findings


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                fields = dict(f.split("=", 1) for f in line.split()[1:3])
                if fields["property"] == pid:
                    out[fields["signature"]] = line.split(None, 3)[3].strip()
    return out


# ---------------------------------------------------------------- a check


def check(pid, tier, seed, runs=None, workers=None, wall=None, hashes=None, replay_dir=None):
    t0 = time.monotonic()
    scen = load(pid)
    n = runs or scen.runs[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    wall = wall or (780 if tier == "quick" else 6 * 3600)
    known = known_findings(pid)
    print(f"{pid} tier={tier} seed={seed} runs={n} workers={workers}", flush=True)
    pool = Pool(pid, workers)
    results, bad, errors, seen_known, late = {}, {}, [], collections.Counter(), []

    def requests():
        for i in range(n):
            yield dict(index=i, seed=seed, tier=tier, want_plan=i < 3)
        for i in range(0, n, 37):  # a sample is run again, on whichever worker is free
            yield dict(index=i, seed=seed, tier=tier, again=True)

    redo = {}

    def on_result(req, res):
        i = req["index"]
        if res["status"] == "error":
            errors.append((i, res["msg"]))
        elif res["status"] == "violation" and res["sig"] in known:
            seen_known[res["sig"]] += 1
        elif res["status"] == "violation":
            bad.setdefault(i, res)
        if req.get("again"):
            redo[i] = res["hash"]
        else:
            results[i] = res

    def stop():
        if time.monotonic() - t0 > wall:
            late.append(1)
        return bool(late or errors or bad)

    pool.map(requests(), on_result, stop)
    search_s = time.monotonic() - t0
    rc = 0
    replay_path = None
    if errors and not bad:
        print(f"ERROR of the check itself in run {errors[0][0]}:\n{errors[0][1]}", flush=True)
        rc = 2
    elif bad:
        i = min(bad)
        res = bad[i]
        plan, sig = res["plan"], res["sig"]
        budget = 20 if sig == "no-progress" else 90 if tier == "quick" else 600
        best, best_res, tried = minimise(scen, pool, plan, sig, budget)
        best_res = best_res or res
        replay_dir = replay_dir or os.path.join(VERIF, "replays")
        os.makedirs(replay_dir, exist_ok=True)
        replay_path = os.path.join(replay_dir, f"{pid}-{seed}-{i}.json")
        doc = dict(
            property=pid, seed=seed, tier=tier, index=i, signature=sig, message=best_res["msg"], plan=best, hash=best_res["hash"], events=best_res.get("events", []),
            minimised=dict(from_bytes=size_of(plan), to_bytes=size_of(best), candidates=tried), original_plan=plan,
        )
        with open(replay_path, "w") as f:
            json.dump(doc, f, indent=1)
        # the file has to fail the same way in a fresh interpreter, with other hash randomisation
        again = subprocess.run([sys.executable, "-m", "sim", "--replay", replay_path, "--hashseed", "7"], cwd=VERIF, env=dict(os.environ), capture_output=True, text=True, check=False)
        doc["reproduced"] = again.returncode == 1
        with open(replay_path, "w") as f:
            json.dump(doc, f, indent=1)
        print(f"run {i}: {sig}: {best_res['msg']}")
        print(f"minimised {size_of(plan)} -> {size_of(best)} bytes with {tried} runs; replay in a fresh process reproduces it: {doc['reproduced']}")
        print(f"VIOLATION property={pid} replay={replay_path}", flush=True)
        rc = 1
    elif late:
        print(f"ERROR: only {len(results)} of {n} runs done within {wall} s", flush=True)
        rc = 2
    pool.close()
    for sig, text in known.items():
        print(f"KNOWN-FINDING: property={pid} {text} (signature {sig}, met in {seen_known[sig]} runs)")
    _evidence(scen, tier, seed, results, redo, bad, n, search_s, time.monotonic() - t0, workers, rc)
    if hashes:
        with open(hashes, "w") as f:
            for i in sorted(results):
                f.write(f"{i} {results[i]['hash']}\n")
    print(f"{pid}: {len(results)} runs in {search_s:.1f} s, exit {rc}", flush=True)
    return rc


def _evidence(scen, tier, seed, results, redo, bad, n, search_s, wall_s, workers, rc):
    faults, hits, states, keys, steps = collections.Counter(), collections.Counter(), set(), set(), 0
    for r in results.values():
        faults.update(r["faults"])
        hits.update(r["hits"])
        states.update(r["states"])
        steps += r["steps"]
        if r["nontrivial"]:
            keys.add(r["hash"])
    samples = [dict(index=i, plan=results[i]["plan"]) for i in sorted(results) if "plan" in results[i]][:2]
    mismatch = [i for i, h in redo.items() if i in results and results[i]["hash"] != h]
    doc = dict(
        property=scen.pid, tier=tier, seed=seed, level=scen.level,
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(keys), rule=scen.rule, samples=json.loads(json.dumps(samples))[:2],
            planned_runs=n, runs_per_hour=round(len(results) / max(search_s, 1e-9) * 3600), seeds_per_hour=round(len(results) / max(search_s, 1e-9) * 3600),
            simulated_time=dict(unit="logical steps (qp reads no clock; one step per scheduled operation)", steps=steps),
            faults_injected=dict(sorted(faults.items())), probes=dict(sorted(hits.items())),
            distinct_states=len(states), state_measure=scen.state_measure,
            components=dict(real=scen.real, stub=scen.stub), workers=workers,
            determinism=dict(runs_repeated_on_another_process=len(redo), different_event_log=len(mismatch)),
        ),
        assumptions=scen.assumptions, wall_s=round(wall_s, 2), violations=len(bad),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{scen.pid}.json"), "w") as f:
        json.dump(doc, f, indent=1)


def replay(path, hashseed="0"):
    with open(path) as f:
        doc = json.load(f)
    pool = Pool(doc["property"], 1, hashseed)
    out = []
    pool.map([dict(plan=doc["plan"])], lambda q, r: out.append(r))
    pool.close()
    r = out[0]
    if r["status"] == "violation":
        print("\n".join(r.get("events", [])))
        print(f"{r['sig']}: {r['msg']}")
        print(f"same signature: {r['sig'] == doc['signature']}; same event log: {r['hash'] == doc['hash']}")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1 if r["sig"] == doc["signature"] else 3
    print(f"no violation: {r['status']} {r.get('msg', '')}")
    return 0 if r["status"] == "ok" else 2
