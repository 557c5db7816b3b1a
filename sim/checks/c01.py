"""C01: the on-disk cache is transparent over every history of calls and restarts."""
import os
import shutil
import tempfile
import base64
import pickle

from .. import core, cachesim as cs, fs as simfs

KINDS = ["plain", "plain", "array", "big", "odd-raises", "falsy", "unpicklable", "key-raises", "type-raises", "os-raises", "mutates", "mutates"]


def enc(o):
    """Outcome as JSON, comparable across interpreters."""
    if o[0] == "exc":
        return list(o)
    v = o[1]
    if isinstance(v, cs.Opaque):
        return ["ok", "opaque", v.v]
    return ["ok", cs.canon(v)]


def exec_session(session, scenario, root):
    """One simulated process: decorates the functions, performs the calls. Returns outcomes and evaluation counts."""
    ctx = core.Ctx()
    fs = simfs.FS(root, ctx, bufsize=scenario["bufsize"])
    res = []
    home = os.getcwd()
    counts = []
    cs.POOL.clear()
    try:
        os.chdir(root)
        with simfs.Installed(fs):
            mod = cs.load_caching()
            cached = [mod.cachedondisk(cs.make_fun(f["name"], f["kind"], counts)) for f in scenario["funs"]]
            for op in session["ops"]:
                del counts[:]
                if op["op"] == "call":
                    got = cs.outcome(cached[op["f"]], op)
                    res.append({"got": enc(got), "n": len(counts)})
                elif op["op"] == "many":
                    bad = None
                    for v in cs.many(op["n"]):
                        o = {"args": [v], "kw": []}
                        f = scenario["funs"][op["f"]]
                        got, want = enc(cs.outcome(cached[op["f"]], o)), enc(cs.expect(f["name"], f["kind"], o)[1])
                        if got != want and bad is None:
                            bad = [cs.short(o), got, want]
                    res.append({"got": ["ok", bad], "n": len(counts)})
                elif op["op"] == "clear":
                    try:
                        mod.clear_cache(op["name"]) if op["name"] else mod.clear_cache()
                        res.append({"got": ["ok", None], "n": 0})
                    except Exception as e:
                        res.append({"got": ["exc", type(e).__name__, str(e)], "n": 0})
                elif op["op"] == "chdir":
                    with fs.harness():
                        os.makedirs(os.path.join(root, op["to"]), exist_ok=True)
                        os.chdir(os.path.join(root, op["to"]))
                    res.append({"got": ["ok", None], "n": 0})
    finally:
        os.chdir(home)
    return {"res": res, "points": fs.points, "escapes": fs.escapes}


class C01(core.Check):
    ID = "C01"
    RULE = ("A run is a history of sessions (simulated processes, on interpreters with three different hash seeds) of cached calls, "
            "clearings and directory changes; non-trivial when some call is repeated after a restart or two calls with different "
            "arguments of the same function occur.")
    REAL = ["dolo.misc.caching (cachedondisk, clear_cache, hashable)", "pickle", "numpy", "files on disk under a scratch folder"]
    STUBS = ["process restart: freshly executed module, or another interpreter", "shell (os.system)"]
    RUNS = {"quick": 14000, "thorough": 150000}
    SOFT_S = {"quick": 120, "thorough": 1500}
    STATE_MEASURE = "distinct (stored call set, last operation) pairs per function"

    def worker_setup(self):
        self.nodes = {}

    def node(self, seed):
        if seed not in self.nodes:
            self.nodes[seed] = cs.Node(seed)
        return self.nodes[seed]

    def fixed(self, tier):
        i = lambda v: {"op": "call", "f": 0, "args": [{"t": "int", "v": v}], "kw": []}
        nd = lambda sh: {"op": "call", "f": 0, "args": [{"t": "nd", "v": [1, 2, 3, 4], "dtype": "int64", "shape": sh}], "kw": []}
        s = {"op": "call", "f": 0, "args": [{"t": "str", "v": "a"}], "kw": []}
        base = {"funs": [{"name": "fun", "kind": "plain"}], "bufsize": 8192}
        return [dict(base, sessions=[{"hs": 0, "ops": [i(-1), i(-2)]}]),
                dict(base, sessions=[{"hs": 0, "ops": [nd([4]), nd([2, 2])]}]),
                dict(base, sessions=[{"hs": 1, "ops": [s]}, {"hs": 2, "ops": [s]}])] + [
                dict(base, funs=[{"name": n, "kind": "plain"} for n in names],
                     sessions=[{"hs": 0, "ops": [dict(i(1), f=k) for k in range(len(names))] * 2}, {"hs": h, "ops": [dict(i(1), f=k) for k in range(len(names))]}])
                for names in (cs.NAMES, cs.NAMES[::-1]) for h in (0, 1)] + [
                dict(base, funs=[{"name": "fun", "kind": k}], sessions=[{"hs": 0, "ops": [{"op": "many", "f": 0, "n": n}]}, {"hs": h, "ops": [{"op": "many", "f": 0, "n": m}, i(1)]}])
                for k, n, m, h in (("plain", 4000 if tier == "quick" else 30000, 4000, 0), ("array", 300, 600, 1))]

    def generate(self, rng, tier):
        n_funs = rng.choice([1, 1, 2, 3, 5])
        names = cs.gen_names(rng, n_funs)
        funs = [{"name": n, "kind": rng.choice(KINDS) if rng.random() < 0.5 else "plain"} for n in names]
        pool = cs.gen_calls(rng, rng.randint(2, 7), opaque=rng.random() < 0.2)
        sessions = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            ops = []
            away = False
            for _ in range(rng.randint(1, 8)):
                r = rng.random()
                if r < 0.9 or len(ops) == 0:
                    c = rng.choice(pool)
                    ops.append(cs.add_reuse(rng, {"op": "call", "f": rng.randrange(n_funs), "args": c["args"], "kw": c["kw"]}))
                elif r < 0.95:
                    ops.append({"op": "clear", "name": rng.choice(names + [None])})
                else:
                    ops.append({"op": "chdir", "to": "." if away else "elsewhere"})
                    away = not away
            sessions.append({"hs": rng.choice([0, 0, 0, 1, 2]), "ops": ops})
        return {"funs": funs, "sessions": sessions, "bufsize": rng.choice([16, 64, 8192])}

    def run(self, sc, ctx):
        root = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
        try:
            self._run(sc, ctx, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, ctx, root):
        stored = set()  # (directory, function, call) whose value must be in the cache
        seen = set()
        for si, session in enumerate(sc["sessions"]):
            if session["hs"] == 0:
                out = exec_session(session, sc, root)
            else:
                out = self.node(session["hs"]).ask({"session": session, "scenario": sc, "root": root})
                if "error" in out:
                    raise RuntimeError(out["error"])
            ctx.steps += out["points"]
            if si:
                ctx.fault("restart")
            cwd = "."
            ctx.ev("session", si, session["hs"])
            if out["escapes"]:
                raise core.Violation("touched-other-files", f"session {si} touched {out['escapes'][:3]}")
            for op, r in zip(session["ops"], out["res"]):
                if op["op"] == "chdir":
                    cwd = op["to"]
                    continue
                if op["op"] == "clear":
                    if r["got"][0] == "exc":
                        raise core.Violation("clear-raised", f"clear_cache({op['name']!r}) raised {r['got'][1:]}")
                    stored = {k for k in stored if not (k[0] == cwd and (op["name"] is None or k[1] == op["name"]))}
                    continue
                f = sc["funs"][op["f"]]
                if op["op"] == "many":
                    if r["got"][1]:
                        raise core.Violation("wrong-value", f"session {si}: among {op['n']} calls, {r['got'][1][0]} gave {str(r['got'][1][1])[:200]} but the function gives {str(r['got'][1][2])[:200]}")
                    done = max((k[3] for k in stored if k[:3] == (cwd, f["name"], "many")), default=0)
                    if r["n"] != max(0, op["n"] - done):
                        raise core.Violation("evaluated-again", f"session {si}: the function ran {r['n']} times for {op['n']} different calls, {done} of them made before")
                    stored.add((cwd, f["name"], "many", op["n"]))
                    ctx.ev("many", r["n"])
                    ctx.nontrivial = True
                    continue
                key, want = cs.expect(f["name"], f["kind"], op)
                where = f"session {si} (hash seed {session['hs']}): {f['name']}{cs.short(op)}"
                ctx.ev("call", f["name"], key[:200], r["got"], r["n"])
                wenc = enc(want)
                if r["got"] != wenc:
                    if r["got"][0] == "exc" and wenc[0] == "ok":
                        raise core.Violation("call-failed", f"{where} raised {r['got'][1:]}; the function returns a value")
                    raise core.Violation("wrong-value", f"{where} gave {str(r['got'])[:300]} but the function gives {str(wenc)[:300]}")
                k = (cwd, f["name"], key)
                opaque = cs.has_opaque(op["args"]) or cs.has_opaque(op["kw"])
                if k in stored and r["n"] != 0:
                    raise core.Violation("evaluated-again", f"{where} ran the function {r['n']} times although its value was stored by an earlier equal call")
                if k not in stored and r["n"] != 1 and cwd == "." and not opaque and (f["name"], key) not in seen:
                    raise core.Violation("evaluations", f"{where}: the function ran {r['n']} times for a call never made before")
                if k not in stored and want[0] == "exc" and r["n"] != 1:
                    raise core.Violation("exception-remembered", f"{where} raises but the function ran {r['n']} times")
                if want[0] == "ok" and not opaque and f["kind"] not in ("unpicklable",) and cwd == ".":
                    stored.add(k)
                others = [x for x in seen if x[0] == f["name"] and x[1] != key]
                if others or k in stored and si:
                    ctx.nontrivial = True
                seen.add((f["name"], key))
                ctx.probe("hit" if r["n"] == 0 else "evaluated")
                ctx.state((f["name"], tuple(sorted(stored))[:10], key, r["n"]))


CHECK = C01()
