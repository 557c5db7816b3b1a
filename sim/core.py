"""Simulation driver: seeded runs, worker pool, minimisation, replay, evidence.

A check module provides a subclass of Check. A *scenario* is a JSON value that, together with the
code in /repo, decides everything that happens in a run. It is generated from one integer seed.
"""
import hashlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DOLO_SIM_REPO", "/repo")
_real_time = time.time  # never patched: used by the driver only
_perf = time.perf_counter


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, msg, sig=None):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.sig = sig or kind


class Stuck(Exception):
    """A run could not be completed by the simulator (no verdict for this run)."""


class Ctx:
    """Per-run recorder."""

    def __init__(self):
        self.h = hashlib.sha1()
        self.log = []
        self.n_events = 0
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.nontrivial = False

    def ev(self, *items):
        line = json.dumps(items, default=str, ensure_ascii=True)
        self.h.update(line.encode())
        self.n_events += 1
        if len(self.log) < 400:
            self.log.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, key):
        if len(self.states) < 2000:
            self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def digest(self):
        return self.h.hexdigest()


class Check:
    ID = None
    LEVEL = "exploration"
    RULE = ""
    REAL = []
    STUBS = []
    STATE_MEASURE = "distinct event histories"
    ASSUMPTIONS = []
    RUNS = {"quick": 200, "thorough": 2000}
    SOFT_S = {"quick": 240, "thorough": 3000}
    MIN_RUNS = 10
    SHRINK_S = 60
    WORKERS = 8
    RECHECK = 25  # every n-th run is executed twice and its event log compared

    def setup(self, tier):
        pass

    def worker_setup(self):
        pass

    def fixed(self, tier):
        """Scenarios always run first (corner cases, reproducers of repaired defects)."""
        return []

    def generate(self, rng, tier):
        raise NotImplementedError

    def run(self, scenario, ctx):
        raise NotImplementedError

    def shrink(self, scenario):
        """Yield simpler scenarios. Default: drop elements of every list found under 'ops'."""
        yield from shrink_lists(scenario)

    def describe(self, scenario):
        return scenario


def shrink_lists(sc, keys=("ops", "sessions", "faults", "threads")):
    """Generic reductions: drop chunks of any list stored under one of the keys, at any depth."""
    paths = []

    def walk(v, path):
        if isinstance(v, dict):
            for k, w in v.items():
                if k in keys and isinstance(w, list) and w:
                    paths.append(path + [k])
                walk(w, path + [k])
        elif isinstance(v, list):
            for i, w in enumerate(v):
                walk(w, path + [i])

    walk(sc, [])
    for path in paths:
        tgt = sc
        for p in path:
            tgt = tgt[p]
        n = len(tgt)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                new = json.loads(json.dumps(sc))
                t = new
                for p in path[:-1]:
                    t = t[p]
                t[path[-1]] = tgt[:start] + tgt[start + size:]
                if len(t[path[-1]]) < n:
                    yield new
            if size == 1:
                break
            size = max(1, size // 2)


def run_once(check, scenario):
    """-> (ctx, None | Violation | Stuck)"""
    ctx = Ctx()
    scenario = json.loads(json.dumps(scenario))  # as when it is replayed: no two parts are the same object
    try:
        check.run(scenario, ctx)
        return ctx, None
    except Violation as v:
        ctx.ev("violation", v.kind)
        return ctx, v
    except Stuck as s:
        return ctx, s
    except Exception as e:
        # an error nobody expected, raised within the library: the operation failed where it must not
        tb = e.__traceback__
        files = [f.f_code.co_filename for f, _ in traceback.walk_tb(tb)]
        if files and any(f.startswith(REPO + os.sep) for f in files):
            v = Violation("unexpected-error", "".join(traceback.format_exception(e))[-1500:])
            ctx.ev("violation", v.kind)
            return ctx, v
        raise


def minimise(check, scenario, viol, budget_s):
    t0 = _real_time()
    best, bestv = scenario, viol
    tried = 0
    improved = True
    while improved and _real_time() - t0 < budget_s:
        improved = False
        for cand in check.shrink(best):
            if _real_time() - t0 > budget_s:
                break
            tried += 1
            try:
                _, v = run_once(check, cand)
            except Exception:
                continue
            if isinstance(v, Violation) and v.kind == bestv.kind:
                best, bestv = cand, v
                improved = True
                break
    return best, bestv, tried


def seed_of(verif_seed, index):
    return int.from_bytes(hashlib.sha256(f"{verif_seed}:{index}".encode()).digest()[:6], "big")


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e["property"] == prop]


def _freeze_jit_cache():
    """Forked processes read compiled code from the cache but never write it (numba's cache mixes up concurrent writers)."""
    if "numba.core.caching" in sys.modules:
        sys.modules["numba.core.caching"].Cache.save_overload = lambda self, sig, data: None


def _worker(check, w, n_workers, jobs, wfd, verif_seed, tier, deadline, known_sigs):
    out = os.fdopen(wfd, "w")
    stats = {"w": w, "runs": 0, "nontrivial": 0, "digests": [], "faults": Counter(), "probes": Counter(),
             "states": set(), "simtime": 0.0, "steps": 0, "stuck": 0, "rechecked": 0, "mismatch": 0,
             "samples": [], "known": Counter(), "complete": True, "maxrun": 0.0}

    def send(obj):
        out.write(json.dumps(obj, default=str) + "\n")
        out.flush()

    try:
        _freeze_jit_cache()
        check.worker_setup()
        done = []
        for index, scenario in jobs:
            if _real_time() > deadline:
                stats["complete"] = False
                break
            if scenario is None:
                scenario = check.generate(random.Random(seed_of(verif_seed, index)), tier)
            t0 = _perf()
            ctx, res = run_once(check, scenario)
            done.append(index)
            stats["maxrun"] = max(stats["maxrun"], _perf() - t0)
            stats["runs"] += 1
            d = ctx.digest()
            stats["digests"].append(d[:12])
            if ctx.nontrivial:
                stats["nontrivial"] += 1
            stats["faults"].update(ctx.faults)
            stats["probes"].update(ctx.probes)
            if len(stats["states"]) < 200000:
                stats["states"] |= ctx.states
            stats["simtime"] += ctx.simtime
            stats["steps"] += ctx.steps
            if len(stats["samples"]) < 1 and ctx.nontrivial and res is None:
                stats["samples"].append({"index": index, "scenario": check.describe(scenario),
                                         "events": ctx.log[:40], "faults": dict(ctx.faults)})
            if isinstance(res, Stuck):
                stats["stuck"] += 1
                stats.setdefault("stuck_msgs", []).append(f"{index}: {res}")
                continue
            if isinstance(res, Violation):
                if res.sig in known_sigs:
                    stats["known"][res.sig] += 1
                    continue
                done.pop()
                small, v, tried = minimise(check, scenario, res, check.SHRINK_S)
                ctx2, v2 = run_once(check, small)
                send({"type": "violation", "index": index, "scenario": small, "kind": v.kind, "msg": v.msg,
                      "digest": ctx2.digest(), "events": ctx2.log, "shrink_tried": tried, "before": done,
                      "original": scenario, "reproduced": isinstance(v2, Violation) and v2.kind == v.kind})
                break
            if check.RECHECK and index % check.RECHECK == 0 and scenario is not None and _real_time() < deadline:
                ctx2, res2 = run_once(check, scenario)
                stats["rechecked"] += 1
                if ctx2.digest() != d:
                    stats["mismatch"] += 1
                    stats.setdefault("mismatch_idx", []).append(index)
        stats["states"] = sorted(stats["states"])
        send({"type": "stats", **stats})
        out.close()
        os._exit(0)
    except BaseException:
        try:
            send({"type": "harness", "error": traceback.format_exc()[-4000:]})
            out.close()
        finally:
            os._exit(3)


def fresh_replay(check, scenario, timeout=240, prelude=()):
    """Run a scenario, after those of the prelude, in a forked child of this (warm, otherwise untouched) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        f = os.fdopen(w, "w")
        try:
            _freeze_jit_cache()
            check.worker_setup()
            run_prelude(check, prelude)
            ctx, v = run_once(check, scenario)
            f.write(json.dumps({"kind": getattr(v, "kind", None), "msg": str(v), "digest": ctx.digest()}))
        except BaseException:
            f.write(json.dumps({"kind": None, "msg": traceback.format_exc()[-2000:], "digest": None}))
        f.close()
        os._exit(0)
    os.close(w)
    data = b""
    end = _real_time() + timeout
    while True:
        rl, _, _ = select.select([r], [], [], max(0.1, end - _real_time()))
        if not rl:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except Exception:
        return {"kind": None, "msg": "no answer", "digest": None}


def run_prelude(check, prelude):
    """what the process did before"""
    for sc in prelude:
        try:
            run_once(check, sc)
        except Exception:
            pass


def find_prelude(check, v, scenario_of, budget_s=150):
    """A violation that depends on what the same process did before: the runs that have to come first, as few as possible. None if there are none."""
    end = _real_time() + budget_s

    def fails(pre):
        left = end - _real_time()
        return left > 5 and fresh_replay(check, v["original"], timeout=left, prelude=pre)["kind"] == v["kind"]

    before = v.get("before", [])
    k = 1
    while True:
        pre = [scenario_of(i) for i in before[-k:]]
        if fails(pre):
            break
        if k >= len(before) or _real_time() > end:
            return None
        k *= 2
    size = len(pre) // 2
    while size >= 1 and len(pre) > 1:
        for start in range(0, len(pre), size):
            cand = pre[:start] + pre[start + size:]
            if cand and fails(cand):
                pre = cand
                break
        else:
            size //= 2
            continue
        size = min(size, max(1, len(pre) // 2))
    return pre


def run_check(check, tier, verif_seed):
    t_start = _real_time()
    scratch = tempfile.mkdtemp(prefix=f"dolosim-{check.ID}-", dir=os.environ.get("DOLO_SIM_SCRATCH"))
    os.environ["DOLO_SIM_RUNDIR"] = scratch
    home = os.getcwd()
    os.chdir(scratch)
    code = 2
    try:
        code = _run_check(check, tier, verif_seed, t_start, scratch)
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def guarded_setup(check, tier):
    """-> (fixed scenarios, None), or (None, Violation) when the library fails in an operation every run starts from"""
    try:
        check.setup(tier)
        return list(check.fixed(tier)), None
    except Violation as v:
        return None, v
    except Exception as e:
        if any(f.f_code.co_filename.startswith(REPO + os.sep) for f, _ in traceback.walk_tb(e.__traceback__)):
            return None, Violation("setup-fails", "the fault-free run fails: " + "".join(traceback.format_exception(e))[-1500:])
        raise


def _setup_failed(check, tier, verif_seed, t_start, v):
    """The violation needs no schedule: the replay file says so."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check.ID}-seed{verif_seed}-setup.json")
    with open(path, "w") as f:
        json.dump({"property": check.ID, "verif_seed": verif_seed, "tier": tier, "run_index": None, "run_seed": None, "kind": v.kind, "message": str(v), "digest": None,
                   "scenario": {"setup": True}, "events": [], "shrink_attempts": 0, "replay_with": f"/opt/venv/bin/python sim/run.py replay {os.path.relpath(path, VERIF)}"}, f, indent=1)
    ev = {"property": check.ID, "tier": tier, "seed": verif_seed, "level": check.LEVEL,
          "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": check.RULE, "samples": [{"note": "the fault-free run, before any schedule, failed"}],
                       "components_real": check.REAL, "components_stub": check.STUBS},
          "assumptions": check.ASSUMPTIONS, "wall_s": round(_real_time() - t_start, 2), "violations": 1}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str, ensure_ascii=True)
    print(f"[{check.ID}] {v.kind}: {str(v)[:1500]}")
    print(f"VIOLATION property={check.ID} replay={path}", flush=True)
    return 1


def _run_check(check, tier, verif_seed, t_start, scratch):
    check.tier = tier
    print(f"[{check.ID}] seed={verif_seed} tier={tier}", flush=True)
    fixed, failed = guarded_setup(check, tier)
    if failed:
        return _setup_failed(check, tier, verif_seed, t_start, failed)
    t_setup = _real_time() - t_start
    n_runs = int(os.environ.get("DOLO_SIM_RUNS", check.RUNS[tier]))
    known = load_known(check.ID)
    known_sigs = {e["sig"] for e in known}
    jobs = [(-(i + 1), sc) for i, sc in enumerate(fixed)] + [(i, None) for i in range(n_runs)]
    W = min(check.WORKERS, os.cpu_count() or 1)
    deadline = _real_time() + float(os.environ.get("DOLO_SIM_SOFT_S", check.SOFT_S[tier]))
    hard = deadline + check.SHRINK_S + 240
    procs = {}
    for w in range(W):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in procs:
                try:
                    os.close(fd)
                except OSError:
                    pass
            signal.signal(signal.SIGINT, signal.default_int_handler)
            _worker(check, w, W, jobs[w::W], wr, verif_seed, tier, deadline, known_sigs)
            os._exit(0)
        os.close(wr)
        procs[r] = {"pid": pid, "buf": b"", "done": False}
    violations, stats, errors = [], [], []
    stop_at = None
    while procs:
        now = _real_time()
        if now > hard or (stop_at and now > stop_at):
            for fd, p in procs.items():
                try:
                    os.kill(p["pid"], signal.SIGKILL)
                except OSError:
                    pass
            if not stop_at:
                errors.append("workers exceeded the hard time limit")
        rl, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in rl:
            b = os.read(fd, 1 << 16)
            p = procs[fd]
            if b:
                p["buf"] += b
                continue
            os.close(fd)
            _, st = os.waitpid(p["pid"], 0)
            if st != 0 and not stop_at:
                errors.append(f"worker ended with status {st}")
            for line in p["buf"].decode(errors="replace").splitlines():
                try:
                    o = json.loads(line)
                except Exception:
                    continue
                if o["type"] == "violation":
                    violations.append(o)
                    if stop_at is None:
                        stop_at = _real_time() + 20
                elif o["type"] == "stats":
                    stats.append(o)
                else:
                    errors.append(o["error"])
            del procs[fd]
    # ---- merge
    tot = {k: sum(s[k] for s in stats) for k in ("runs", "nontrivial", "steps", "stuck", "rechecked", "mismatch")}
    simtime = sum(s["simtime"] for s in stats)
    faults, probes, knownc = Counter(), Counter(), Counter()
    states, digests = set(), set()
    samples = []
    for s in stats:
        faults.update(s["faults"])
        probes.update(s["probes"])
        knownc.update(s["known"])
        states |= set(s["states"])
        digests |= set(s["digests"])
        samples += s["samples"]
    complete = all(s["complete"] for s in stats) and not errors
    n_viol = 0
    code = 0
    replay_path = None
    if violations:
        violations.sort(key=lambda v: v["index"])
        confirmed = None
        for v in violations:
            for _ in range(2):
                rep = fresh_replay(check, v["scenario"])
                if rep["kind"] == v["kind"]:
                    break
            if rep["kind"] == v["kind"]:
                confirmed = v
                break
            rep2 = fresh_replay(check, v["original"])
            if rep2["kind"] == v["kind"]:
                v["scenario"], v["msg"], v["digest"] = v["original"], rep2["msg"], rep2["digest"]
                confirmed = v
                break
            errors.append(f"violation of run {v['index']} did not reproduce in a fresh process: {v['msg']} / {rep}")
        if not confirmed:
            table = dict(jobs)
            for v in violations[:2]:
                pre = find_prelude(check, v, lambda i: table[i] if table[i] is not None else check.generate(random.Random(seed_of(verif_seed, i)), tier))
                if pre:
                    v["prelude"], v["scenario"] = pre, v["original"]
                    rep = fresh_replay(check, v["scenario"], prelude=pre)
                    if rep["kind"] == v["kind"]:
                        v["msg"], v["digest"], confirmed = f"(after {len(pre)} other runs in the same process) " + rep["msg"], rep["digest"], v
                        break
        if confirmed:
            n_viol = len(violations)
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            replay_path = os.path.join(d, f"{check.ID}-seed{verif_seed}-run{confirmed['index']}.json")
            with open(replay_path, "w") as f:
                json.dump({"property": check.ID, "verif_seed": verif_seed, "tier": tier, "run_index": confirmed["index"],
                           "run_seed": seed_of(verif_seed, confirmed["index"]) if confirmed["index"] >= 0 else None,
                           "kind": confirmed["kind"], "message": confirmed["msg"], "digest": confirmed["digest"],
                           "scenario": confirmed["scenario"], "events": confirmed["events"], "prelude": confirmed.get("prelude", []),
                           "shrink_attempts": confirmed["shrink_tried"],
                           "replay_with": f"/opt/venv/bin/python sim/run.py replay {os.path.relpath(replay_path, VERIF)}"},
                          f, indent=1, default=str)
            print(f"[{check.ID}] {confirmed['kind']}: {confirmed['msg'][:1500]}")
            code = 1
    if code == 0 and errors:
        code = 2
    if code == 0 and tot["runs"] < min(check.MIN_RUNS, len(jobs)):
        errors.append(f"only {tot['runs']} runs completed in the time allowed")
        code = 2
    if code == 0 and tot["stuck"] > 0.2 * max(1, tot["runs"]):
        errors.append(f"{tot['stuck']} of {tot['runs']} runs gave no verdict: "
                      + str([m for s in stats for m in s.get('stuck_msgs', [])][:3]))
        code = 2
    wall = _real_time() - t_start
    search_wall = max(1e-3, wall - t_setup)
    ev = {
        "property": check.ID, "tier": tier, "seed": verif_seed, "level": check.LEVEL,
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": min(len(digests), tot["nontrivial"]),
            "rule": check.RULE,
            "samples": samples[:3] or [{"note": "no sample recorded"}],
            "planned_runs": len(jobs), "all_planned_runs_done": complete, "fixed_scenarios": len(fixed),
            "runs_per_hour": round(tot["runs"] / search_wall * 3600),
            "seeds_per_hour": round(max(0, tot["runs"] - len(fixed)) / search_wall * 3600),
            "simulated_steps": tot["steps"], "simulated_time_s": round(simtime, 3),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_event_histories": len(digests),
            "distinct_states": len(states), "state_measure": check.STATE_MEASURE,
            "no_verdict_runs": tot["stuck"],
            "determinism_recheck": {"runs_executed_twice": tot["rechecked"], "different_logs": tot["mismatch"]},
            "components_real": check.REAL, "components_stub": check.STUBS,
            "known_findings_seen": dict(knownc),
            "setup_s": round(t_setup, 1),
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": n_viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str, ensure_ascii=True)
    print(f"[{check.ID}] runs={tot['runs']}/{len(jobs)} nontrivial={tot['nontrivial']} distinct={len(digests)} states={len(states)} "
          f"faults={sum(faults.values())} stuck={tot['stuck']} mismatch={tot['mismatch']}/{tot['rechecked']} "
          f"setup={t_setup:.0f}s wall={wall:.0f}s maxrun={max([s['maxrun'] for s in stats] or [0]):.1f}s", flush=True)
    if tot["mismatch"]:
        print(f"[{check.ID}] note: runs whose second execution logged differently: "
              f"{[i for s in stats for i in s.get('mismatch_idx', [])][:20]}")
    for e in known:
        print(f"KNOWN-FINDING: property={check.ID} {e['what']}")
    for e in errors:
        print(f"[{check.ID}] HARNESS: {e}", file=sys.stderr)
    if code == 1:
        print(f"VIOLATION property={check.ID} replay={replay_path}", flush=True)
    return code


def run_replay(check, path):
    data = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix=f"dolosim-{check.ID}-")
    os.environ["DOLO_SIM_RUNDIR"] = scratch
    os.chdir(scratch)
    try:
        check.tier = data.get("tier", "quick")
        _, failed = guarded_setup(check, check.tier)
        if failed or data["scenario"] == {"setup": True}:
            print(f"{failed.kind}: {failed}\nVIOLATION property={check.ID} replay={path}" if failed else "no violation")
            return 1 if failed else 0
        check.worker_setup()
        run_prelude(check, data.get("prelude", []))
        ctx, v = run_once(check, data["scenario"])
        for line in ctx.log:
            print("  ", line)
        if isinstance(v, Violation):
            print(f"{v.kind}: {v.msg}")
            same = ctx.digest() == data.get("digest")
            print(f"kind {'as recorded' if v.kind == data['kind'] else 'differs: ' + data['kind']}; "
                  f"event log {'identical' if same else 'differs'} to the recorded one")
            print(f"VIOLATION property={check.ID} replay={path}")
            return 1
        print("no violation", v or "")
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
