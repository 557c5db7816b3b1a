"""C02: a crash while a value is being stored never poisons the on-disk cache."""
import os
import shutil
import tempfile

from .. import core, cachesim as cs, fs as simfs

KINDS = ["plain", "array", "big", "big", "big", "odd-raises", "falsy"]
NAMES = ["fun", "fun_b"]
OPS = [None, None, "open-w", "write", "write", "write", "rename", "close", "fsync", "unlink", "stat", "mkdir", "open-r", "read"]


def gen_fault(rng):
    op = rng.choice(OPS)
    at = rng.randint(0, 40) if op is None else (rng.randint(0, 12) if op in ("write", "read") else rng.randint(0, 3))
    if op == "write" and rng.random() < 0.6:
        return {"kind": "torn", "op": "write", "at": at, "k": rng.choice([0, 1, 2, 7, 15, 40, 200])}
    f = {"kind": "crash", "at": at}
    if op:
        f["op"] = op
    return f


class C02(core.Check):
    ID = "C02"
    LEVEL = "fault_enumeration"
    RULE = ("A run is a history of sessions of cached calls in which sessions end in a crash at a chosen file operation, inside the cached "
            "function, or with the files last written cut to a prefix; non-trivial when a crash fired and a later session made a call.")
    REAL = ["dolo.misc.caching", "pickle", "files on disk under a scratch folder"]
    STUBS = ["process kill: exception no code can handle usefully, buffers dropped, all further file operations refused", "restart: freshly executed module"]
    RUNS = {"quick": 16000, "thorough": 200000}
    SOFT_S = {"quick": 150, "thorough": 1500}
    STATE_MEASURE = "distinct (crash operation, ordinal, files present afterwards with size class)"

    def fixed(self, tier):
        call = {"op": "call", "f": 0, "args": [{"t": "int", "v": 1}], "kw": []}
        out = []
        # every file operation of a single store as crash point, then a restart with two equal calls
        for kind in ("plain", "big"):
            for at in range(0, 60 if kind == "plain" else 160):
                for fault in ({"kind": "crash", "at": at}, {"kind": "torn", "op": "write", "at": at, "k": 3}):
                    if at > 40 and kind == "plain":
                        continue
                    out.append({"funs": [{"name": "fun", "kind": kind}], "bufsize": 64,
                                "sessions": [{"ops": [call], "faults": [fault], "tear": None}, {"ops": [call, call], "faults": [], "tear": None}]})
        # every prefix length of a stored entry
        for k in list(range(0, 80)) + [100, 200, 400, 800]:
            out.append({"funs": [{"name": "fun", "kind": "plain" if k < 40 else "array"}], "bufsize": 8192,
                        "sessions": [{"ops": [call], "faults": [], "tear": k}, {"ops": [call, call], "faults": [], "tear": None}]})
        return out

    def generate(self, rng, tier):
        n_funs = rng.choice([1, 1, 2])
        funs = [{"name": n, "kind": rng.choice(KINDS)} for n in NAMES[:n_funs]]
        pool = cs.gen_calls(rng, rng.randint(1, 3))
        sessions = []
        n = rng.choice([2, 2, 3, 4, 5])
        for i in range(n):
            ops = []
            for _ in range(rng.randint(1, 5)):
                r = rng.random()
                c = rng.choice(pool)
                if r < 0.85 or not ops:
                    ops.append({"op": "call", "f": rng.randrange(n_funs), "args": c["args"], "kw": c["kw"]})
                elif r < 0.92:
                    ops.append({"op": "clear", "name": rng.choice([f["name"] for f in funs] + [None])})
                else:
                    ops.append({"op": "call", "f": rng.randrange(n_funs), "args": c["args"], "kw": c["kw"], "die": True})
            faults = [gen_fault(rng)] if i < n - 1 and rng.random() < 0.8 else []
            sessions.append({"ops": ops, "faults": faults,
                             "tear": rng.choice([0, 1, 5, 20, 50, 100, 500]) if i < n - 1 and rng.random() < 0.15 else None})
        return {"funs": funs, "sessions": sessions, "bufsize": rng.choice([16, 64, 512, 8192])}

    def run(self, sc, ctx):
        root = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
        home = os.getcwd()
        try:
            os.chdir(root)
            self._run(sc, ctx, root)
        finally:
            os.chdir(home)
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, ctx, root):
        stored = set()
        crashed_before = False
        for si, session in enumerate(sc["sessions"]):
            fs = simfs.FS(root, ctx, simfs.Plan(session["faults"]), bufsize=sc["bufsize"])
            fs.proc = simfs.Proc(1000 + si)
            before = snapshot(root)
            counts = []
            dead = False
            with simfs.Installed(fs):
                current = {}

                def hook(name):
                    if current.get("die"):
                        ctx.fault("crash:in-function")
                        fs.proc.dead = True
                        raise simfs.SimCrash()
                try:
                    mod = cs.load_caching()
                    cached = [mod.cachedondisk(cs.make_fun(f["name"], f["kind"], counts, hook)) for f in sc["funs"]]
                except simfs.SimCrash:
                    dead = True
                if not dead and fs.proc.dead:
                    dead = True
                for op in session["ops"]:
                    if dead:
                        break
                    del counts[:]
                    current.clear()
                    current.update(op)
                    if op["op"] == "clear":
                        stored = {k for k in stored if op["name"] is not None and k[0] != op["name"]}
                        try:
                            mod.clear_cache(op["name"]) if op["name"] else mod.clear_cache()
                        except simfs.SimCrash:
                            pass
                        except Exception as e:
                            if not fs.proc.dead:
                                raise core.Violation("clear-raised", f"session {si}: clear_cache raised {e!r}")
                        dead = fs.proc.dead
                        continue
                    f = sc["funs"][op["f"]]
                    key, want = cs.expect(f["name"], f["kind"], op)
                    k = (f["name"], key)
                    was = k in stored
                    stored.discard(k)
                    try:
                        got = cs.outcome(cached[op["f"]], op)
                    except simfs.SimCrash:
                        got = None
                    if fs.proc.dead:
                        dead = True
                        ctx.ev("died", si)
                        break
                    where = f"session {si} ({'after a crash' if crashed_before else 'no crash so far'}): {f['name']}{cs.short(op)}"
                    cs.check_outcome(got, want, where)
                    if was and counts:
                        raise core.Violation("evaluated-again", f"{where} ran the function again although an earlier call completed after the last crash")
                    if not was and not counts and crashed_before is False and si == 0 and k not in self_seen(sc, si, session, op):
                        raise core.Violation("evaluations", f"{where}: first call did not run the function")
                    if want[0] == "ok":
                        stored.add(k)
                    if crashed_before:
                        ctx.nontrivial = True
            if not dead and session["tear"] is not None:
                dead = True
            if dead:
                crashed_before = True
                # files changed by the dying process may be cut to a prefix, unless they were whole before
                if session["tear"] is not None:
                    for p, (size, mt) in snapshot(root).items():
                        if before.get(p) != (size, mt) and p.endswith(".pickle"):
                            with open(p, "r+b") as fh:
                                fh.truncate(min(session["tear"], max(0, size - 1)))
                            ctx.fault("torn-entry")
                            ctx.ev("tear", session["tear"])
                    stored = {k for k in stored if False}
                ctx.state((tuple((f["op_hit"], f["kind"]) for f in fs.fired), tuple(sorted(fs.op_count.items())),
                           tuple(sorted((s[0] // 32) for s in snapshot(root).values()))))
            for b in fs.escapes:
                raise core.Violation("touched-other-files", f"session {si}: {b}")


def self_seen(sc, si, session, op):
    seen = set()
    for o in session["ops"]:
        if o is op:
            break
        if o["op"] == "call":
            f = sc["funs"][o["f"]]
            seen.add((f["name"], cs.expect(f["name"], f["kind"], o)[0]))
    return seen


def snapshot(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            st = os.stat(p)
            out[p] = (st.st_size, st.st_mtime_ns)
    return out


CHECK = C02()
