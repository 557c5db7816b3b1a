"""C05: the disk dictionary returns the last value stored, or nothing, across crashes."""
import base64
import os
import pickle
import shutil
import tempfile

from .. import core, cachesim as cs, fs as simfs
from .c02 import gen_fault as crash_fault
from .c03 import gen_fault as error_fault

DICTS = [[".cache", "fun"], [".cache", "fun2"], [".cache", "un"], ["other", "fun"], ["a/b", "fun"], [".cache", "_fun"], [".cache", "Fun"], [".cache", "fun.a"],
         [".cache", "fun.b"], ["a", "fun"], ["a", "b"], [".cache2", "fun"], ["Other", "fun"], ["other ", "fun"], ["other.1", "fun"], ["other.2", "fun"]]


def value(spec):
    return cs.value_of("v", spec[0], [spec[1]], {})


def exec_session(session, sc, root):
    ctx = core.Ctx()
    fs = simfs.FS(root, ctx, simfs.Plan(session["faults"]), bufsize=sc["bufsize"])
    fs.proc = simfs.Proc(1000)
    out = []
    home = os.getcwd()
    dead = False
    cs.POOL.clear()
    try:
        os.chdir(root)
        with simfs.Installed(fs):
            mods = [cs.load_caching(), cs.load_caching()]  # two processes
            dicts = {}
            for op in session["ops"]:
                n0 = len(fs.fired)
                try:
                    inst = op.get("inst", 0)
                    d = dicts.get((op["d"], inst))
                    if d is None:
                        where, name = DICTS[op["d"]]
                        mod = mods[inst % 2]
                        d = mod.DiskDictionary(where, name) if op["d"] else mod.DiskDictionary()
                        dicts[op["d"], inst] = d
                    if op["op"] == "many":
                        for n, v in enumerate(cs.many(op["n"])):
                            if op["set"]:
                                d[(cs.build(v),)] = value(["plain", n])
                            else:
                                got = d.get((cs.build(v),))
                                if cs.canon(got) != cs.canon(value(["plain", n])):
                                    raise KeyError(f"{cs.canon(cs.build(v))}: {str(got)[:200]}")
                        out.append({"r": ["ok", None], "fired": []})
                        continue
                    key = tuple(cs.build(k) for k in op["key"])
                    if op["op"] == "set":
                        d[key] = value(op["v"])
                        r = ["ok", None]
                    else:
                        got = d.get(key)
                        r = ["ok", None if got is None else cs.canon(got)]
                except simfs.SimCrash:
                    r = ["crash"]
                except Exception as e:
                    r = ["exc", type(e).__name__, str(e)]
                if fs.proc.dead:
                    r = ["crash"]
                out.append({"r": r, "fired": [[f["op_hit"], f["kind"]] for f in fs.fired[n0:]]})
                if fs.proc.dead:
                    dead = True
                    break
    finally:
        os.chdir(home)
    return {"res": out, "dead": dead, "points": fs.points, "faults": dict(ctx.faults), "escapes": fs.escapes, "digest": ctx.digest(),
            "fired": [[f["op_hit"], f["kind"], f.get("errno"), f.get("at")] for f in fs.fired]}


class C05(core.Check):
    ID = "C05"
    LEVEL = "fault_enumeration"
    RULE = ("A run is a history of sessions (processes, on interpreters with three hash seeds) of stores and reads over several disk dictionaries, "
            "with crashes, torn or failing file operations; non-trivial when a fault fired, or a key is read in a later session than it was stored.")
    REAL = ["dolo.misc.caching.DiskDictionary", "pickle", "tempfile", "files on disk under a scratch folder"]
    STUBS = ["process kill", "disk errors", "restart: freshly executed module or another interpreter"]
    RUNS = {"quick": 12000, "thorough": 150000}
    SOFT_S = {"quick": 60, "thorough": 1200}
    STATE_MEASURE = "distinct (fault, operation, ordinal) and (key set stored, last operation) pairs"

    def worker_setup(self):
        self.nodes = {}

    def node(self, seed):
        if seed not in self.nodes:
            self.nodes[seed] = cs.Node(seed)
        return self.nodes[seed]

    def fixed(self, tier):
        i = lambda v: [{"t": "int", "v": v}]
        s = lambda v, kind: {"op": "set", "d": 0, "key": i(1), "v": [kind, v]}
        g = {"op": "get", "d": 0, "key": i(1)}
        out = []
        for at in range(0, 160):
            for fault in ({"kind": "crash", "at": at}, {"kind": "torn", "op": "write", "at": at, "k": 5},
                          {"kind": "error", "at": at, "errno": "EIO"}, {"kind": "short", "op": "write", "at": at, "k": 5, "errno": "ENOSPC"}):
                out.append({"bufsize": 64, "sessions": [
                    {"hs": 0, "ops": [s(1, "plain"), {"op": "set", "d": 0, "key": i(2), "v": ["plain", 9]}], "faults": []},
                    {"hs": 0, "ops": [s(2, "big"), g], "faults": [fault]},
                    {"hs": 0, "ops": [g, {"op": "get", "d": 0, "key": i(2)}, s(3, "plain"), g], "faults": []}]})
        many = lambda s: {"op": "many", "d": 0, "set": s, "n": 3000 if tier == "quick" else 30000}
        out.append({"bufsize": 8192, "sessions": [{"hs": 0, "ops": [many(True), many(False)], "faults": []}, {"hs": 1, "ops": [many(False)], "faults": []}]})
        for fam in cs.COLLIDING:
            ops = [{"op": "set", "d": 0, "key": [v], "v": ["plain", n]} for n, v in enumerate(fam)] + \
                  [{"op": "get", "d": 0, "key": [v]} for v in fam]
            out.append({"bufsize": 8192, "sessions": [{"hs": 0, "ops": ops, "faults": []}]})
            out.append({"bufsize": 8192, "sessions": [{"hs": 0, "ops": ops, "faults": []}, {"hs": 1, "ops": ops[len(fam):], "faults": []}]})
        return out

    def generate(self, rng, tier):
        pool = [c["args"] for c in cs.gen_calls(rng, rng.randint(2, 6))]
        ds = rng.sample(range(len(DICTS)), rng.choice([1, 1, 2, 3]))
        sessions = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops = []
            insts = rng.choice([[0], [0, 1], [0, 1, 2]])  # objects for the same dictionary, in two processes
            for _ in range(rng.randint(1, 7)):
                op = {"op": rng.choice(["set", "get"]), "d": rng.choice(ds), "key": rng.choice(pool), "inst": rng.choice(insts)}
                if op["op"] == "set":
                    op["v"] = [rng.choice(["plain", "array", "big", "falsy"]), rng.randint(0, 50)]
                ops.append(op)
            faults = []
            r = rng.random()
            if r < 0.3:
                faults = [crash_fault(rng)]
            elif r < 0.6:
                faults = [error_fault(rng) for _ in range(rng.choice([1, 1, 2]))]
            sessions.append({"hs": rng.choice([0, 0, 0, 1, 2]), "ops": ops, "faults": faults})
        return {"bufsize": rng.choice([16, 64, 512, 8192]), "sessions": sessions}

    def run(self, sc, ctx):
        root = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
        try:
            self._run(sc, ctx, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, ctx, root):
        allowed = {}  # register -> set of possible values (None: nothing)
        first = {}
        for si, session in enumerate(sc["sessions"]):
            if session["hs"] == 0:
                out = exec_session(session, sc, root)
            else:
                out = self.node(session["hs"]).ask({"mod": "c05", "session": session, "scenario": sc, "root": root})
                if "error" in out:
                    raise RuntimeError(out["error"])
            ctx.steps += out["points"]
            ctx.faults.update(out["faults"])
            ctx.ev("session", si, session["hs"], out["digest"], [[o["r"][:2], o["fired"]] for o in out["res"]])
            if si:
                ctx.fault("restart")
            for f in out["fired"]:
                ctx.state(tuple(f))
                ctx.nontrivial = True
            if out["escapes"]:
                raise core.Violation("touched-other-files", f"session {si} touched {out['escapes'][:3]}")
            for op, o in zip(session["ops"], out["res"]):
                if op["op"] == "many":
                    if o["r"][0] != "ok":
                        raise core.Violation("wrong-value", f"session {si}: {op['n']} keys {'stored' if op['set'] else 'read'}: {o['r']}")
                    continue
                reg = (op["d"], cs.call_key([cs.build(k) for k in op["key"]], {}))
                ok = allowed.setdefault(reg, {None})
                r, fired = o["r"], o["fired"]
                where = f"session {si}: {op['op']} {DICTS[op['d']]} {reg[1][:200]}"
                if op["op"] == "set":
                    v = cs.canon(value(op["v"]))
                    if r[0] == "ok":
                        allowed[reg] = {v}
                        first.setdefault(reg, si)
                    else:
                        if r[0] == "exc" and not fired:
                            raise core.Violation("store-failed", f"{where} raised {r[1:]} on a healthy disk")
                        allowed[reg] = ok | {v, None}
                else:
                    if r[0] == "exc":
                        if not fired:
                            raise core.Violation("read-failed", f"{where} raised {r[1:]} on a healthy disk")
                        continue
                    if r[0] == "ok" and r[1] not in ok and not (fired and r[1] is None):
                        kind = "lost" if r[1] is None else "wrong-value"
                        raise core.Violation(kind, f"{where} gave {str(r[1])[:200]}; possible values: {[str(x)[:100] for x in ok]}")
                    if first.get(reg, si) < si:
                        ctx.nontrivial = True
                    ctx.probe("read-value" if r[1:] and r[1] is not None else "read-nothing")
                ctx.state((tuple(sorted((k, len(v)) for k, v in allowed.items()))[:8], op["op"], r[0]))


CHECK = C05()
