"""C03: disk errors and concurrent callers never change what a cached call returns."""
import os
import shutil
import tempfile

from .. import core, cachesim as cs, fs as simfs, sched

KINDS = ["plain", "array", "big", "big", "odd-raises", "falsy", "os-raises", "unpicklable"]
NAMES = ["fun", "fun_b"]
ERRS = {"open-w": ["ENOSPC", "EACCES", "EROFS", "EMFILE", "EIO", "EDQUOT", "ENOENT"], "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
        "close": ["ENOSPC", "EIO"], "rename": ["ENOSPC", "EACCES", "EIO", "EXDEV"], "open-r": ["EACCES", "EMFILE", "EIO", "ENFILE", "EINTR"],
        "read": ["EIO", "ESTALE"], "mkdir": ["ENOSPC", "EACCES", "EROFS"], "stat": ["EACCES", "EIO"], "unlink": ["EACCES", "EBUSY", "EROFS"],
        "listdir": ["EACCES", "EIO", "EMFILE"], "fsync": ["EIO"], "truncate": ["EIO"], "utime": ["EACCES"], "chmod": ["EPERM"], "system": ["ENOMEM"],
        "rmdir": ["EACCES"]}


def gen_fault(rng):
    op = rng.choice(["open-w", "open-w", "write", "write", "write", "close", "rename", "open-r", "open-r", "read", "read", "mkdir", "stat",
                     "unlink", "listdir", "fsync"])
    at = rng.randint(0, 8) if op in ("write", "read", "stat") else rng.randint(0, 4)
    if op == "write" and rng.random() < 0.4:
        return {"kind": "short", "op": "write", "at": at, "k": rng.choice([0, 1, 5, 30]), "errno": rng.choice(["ENOSPC", "EIO"])}
    if op == "read" and rng.random() < 0.4:
        return {"kind": "short", "op": "read", "at": at, "k": rng.choice([1, 2, 7])}
    return {"kind": "error", "op": op, "at": at, "errno": rng.choice(ERRS[op])}


class C03(core.Check):
    ID = "C03"
    RULE = ("A run is one to three callers (threads of one process, or separate processes) making cached calls and clearings against a disk "
            "with injected errors, switched at file operations by the seeded scheduler; non-trivial when a fault fired or callers were "
            "switched inside a call.")
    REAL = ["dolo.misc.caching", "pickle", "tempfile", "files on disk under a scratch folder", "threads"]
    STUBS = ["disk errors", "scheduler decides who runs at each file operation / source line", "separate processes: separately executed modules with their own pid"]
    RUNS = {"quick": 9000, "thorough": 100000}
    SOFT_S = {"quick": 170, "thorough": 1500}
    STATE_MEASURE = "distinct (switch position in every thread) and (fault, operation ordinal) combinations"

    def fixed(self, tier):
        call = {"op": "call", "f": 0, "args": [{"t": "int", "v": 1}], "kw": []}
        out = []
        for op, errs in ERRS.items():
            for e in errs:
                out.append({"funs": [{"name": "fun", "kind": "big"}], "bufsize": 64, "mode": "threads", "grain": None, "switches": [], "start": 0,
                            "ops0": [], "actors": [{"ops": [call, call]}], "faults": [], "persistent": [{"op": op, "errno": e}], "vanish": None})
        return out

    def generate(self, rng, tier):
        n_funs = rng.choice([1, 1, 2])
        funs = [{"name": n, "kind": rng.choice(KINDS)} for n in NAMES[:n_funs]]
        pool = cs.gen_calls(rng, rng.randint(1, 3))
        n_act = rng.choice([1, 1, 2, 2, 3])
        actors = []
        for _ in range(n_act):
            ops = []
            for _ in range(rng.randint(1, 4)):
                c = rng.choice(pool)
                if rng.random() < 0.86 or not ops:
                    ops.append({"op": "call", "f": rng.randrange(n_funs), "args": c["args"], "kw": c["kw"]})
                else:
                    ops.append({"op": "clear", "name": rng.choice([f["name"] for f in funs] + [None])})
            actors.append({"ops": ops})
        faults, persistent, vanish = [], [], None
        r = rng.random()
        if r < 0.55:
            faults = [gen_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        elif r < 0.7:
            op = rng.choice(["open-w", "write", "mkdir", "open-r", "read", "rename", "unlink", "listdir"])
            persistent = [{"op": op, "errno": rng.choice(ERRS[op])}]
        if rng.random() < 0.12:
            vanish = rng.choice(["before", "during"])
        return {"funs": funs, "bufsize": rng.choice([16, 64, 512, 8192]), "mode": rng.choice(["threads", "processes"]),
                "grain": rng.choice([None, None, "line"]), "start": rng.randrange(n_act),
                "switches": sched.gen_switches(rng, 30, rng.choice([1, 2, 4, 8, 20, 60])) if n_act > 1 else [],
                "ops0": [], "actors": actors, "faults": faults, "persistent": persistent, "vanish": vanish}

    def run(self, sc, ctx):
        root = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
        home = os.getcwd()
        try:
            os.chdir(root)
            self._run(sc, ctx, root)
        finally:
            os.chdir(home)
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, ctx, root):
        n = len(sc["actors"])
        fs = simfs.FS(root, ctx, simfs.Plan(sc["faults"], sc["persistent"]), bufsize=sc["bufsize"])
        procs = [simfs.Proc(1000 + i) for i in range(n)]
        base = simfs.Proc(999)

        def proc_of():
            t = sched.current_thread()
            if t is None:
                return base
            return procs[t.idx] if sc["mode"] == "processes" else procs[0]
        fs.proc_of = proc_of
        fs.yield_cb = sched.yield_point
        counts = []
        switched = False
        cleared = any(o["op"] == "clear" for a in sc["actors"] for o in a["ops"])
        problems = []
        with simfs.Installed(fs), sched.SimLocks():
            mods = []
            n_mods = n if sc["mode"] == "processes" else 1
            for i in range(n_mods):
                try:
                    mod = cs.load_caching()
                    mods.append((mod, [mod.cachedondisk(cs.make_fun(f["name"], f["kind"], counts)) for f in sc["funs"]]))
                except Exception as e:
                    raise core.Violation("decoration-failed", f"decorating a function raised {e!r}")
            if sc["vanish"] == "before":
                with fs.harness():
                    shutil.rmtree(os.path.join(root, ".cache"), ignore_errors=True)
                ctx.fault("cache-directory-removed")

            def actor(i):
                mod, cached = mods[i % n_mods]

                def body():
                    for j, op in enumerate(sc["actors"][i]["ops"]):
                        if sc["vanish"] == "during" and i == 0 and j == 1:
                            with fs.harness():
                                shutil.rmtree(os.path.join(root, ".cache"), ignore_errors=True)
                            ctx.fault("cache-directory-removed")
                        if op["op"] == "clear":
                            try:
                                mod.clear_cache(op["name"]) if op["name"] else mod.clear_cache()
                            except Exception as e:
                                problems.append(core.Violation("clear-raised", f"caller {i}: clear_cache({op['name']!r}) raised {e!r}"))
                            continue
                        f = sc["funs"][op["f"]]
                        key, want = cs.expect(f["name"], f["kind"], op)
                        got = cs.outcome(cached[op["f"]], op)
                        ctx.ev("call", i, f["name"], key[:100], got[0])
                        try:
                            cs.check_outcome(got, want, f"caller {i}: {f['name']}{cs.short(op)} with faults {[(x['op_hit'], x.get('errno', x['kind'])) for x in fs.fired][:3]}")
                        except core.Violation as v:
                            problems.append(v)
                return body
            if n == 1:
                actor(0)()
            else:
                s = sched.Sched(ctx, sc["switches"], (core.REPO,) if sc["grain"] else (), sc["grain"] or "line", start=sc["start"])
                for t in s.run([actor(i) for i in range(n)]):
                    if t.exc is not None:
                        problems.append(core.Violation("call-failed", f"caller {t.idx} ended with {t.exc!r}"))
                switched = s.n_switch > 0
            if problems:
                raise problems[0]
            # faults stop: the cache works again
            fs.plan = simfs.Plan()
            for f in fs.fired:
                ctx.state((f["op_hit"], f.get("errno"), f["kind"], f.get("at")))
            mod, cached = mods[0]
            done = set()
            for a in sc["actors"]:
                for op in a["ops"]:
                    if op["op"] != "call":
                        continue
                    f = sc["funs"][op["f"]]
                    key, want = cs.expect(f["name"], f["kind"], op)
                    if (f["name"], key) in done:
                        continue
                    done.add((f["name"], key))
                    for k in range(2):
                        del counts[:]
                        got = cs.outcome(cached[op["f"]], op)
                        cs.check_outcome(got, want, f"after the faults: {f['name']}{cs.short(op)}")
                    if want[0] == "ok" and counts and f["kind"] != "unpicklable":
                        raise core.Violation("cache-stays-broken", f"after the faults stopped, {f['name']}{cs.short(op)} is evaluated at every call")
        if fs.escapes:
            raise core.Violation("touched-other-files", f"{fs.escapes[:2]}")
        ctx.nontrivial = bool(fs.fired) or switched or bool(sc["vanish"])


CHECK = C03()
