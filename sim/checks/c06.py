"""C06: clearing the cache removes exactly the named function's entries."""
import os
import shutil
import tempfile

from .. import core, cachesim as cs, fs as simfs

NAMES = ["fun", "fun2", "fun_b", "un", "f", "Fun", "_fun", "fun_", "__fun__", "FUN", "fun1", "<lambda>", "fun.b", "fun b", "fun*", "[fun]", "*", "pickle", "tmp", "-rf"]
HOSTILE = ["f*", "fu?", "*", "[a-z]*", "../victim", "..", "/", "", "fun; rm -rf victim", "fun.* ../victim/*", "$(touch x)", "`touch x`", "'", '"', "fun'",
           "a b", "fun\n", "-rf", "~", ".", "fun.", ".fun", "fun.*", "no_such_function", "fun|x", "fun&", "fun>victim/keep", "\x00", "é", "{fun,un}", "!", "fun\\"]
DECOYS = ["notes.txt", "victim/keep", "victim/fun.abc.pickle", ".cache/README", ".cache/fun.txt", ".cache/sub/fun.0.pickle", ".cache/.hidden",
          "fun", "fun.1.pickle", "un.pickle", ".cache/fun.backup.pickle/data", ".cache/un.0.pickle/fun.0.pickle"]


class C06(core.Check):
    ID = "C06"
    RULE = ("A run is a history of cached calls of functions with near-equal names, of clearings by ordinary and hostile names, of restarts and of "
            "removal errors, among other files; non-trivial when an entry existed at a clearing.")
    REAL = ["dolo.misc.caching (cachedondisk, clear_cache)", "files on disk under a scratch folder"]
    STUBS = ["shell and subprocess: stand-in that removes only inside the scratch folder and records everything else", "disk errors"]
    RUNS = {"quick": 9000, "thorough": 120000}
    SOFT_S = {"quick": 60, "thorough": 1200}
    STATE_MEASURE = "distinct (entries present, name cleared, fault) combinations"

    def fixed(self, tier):
        c = lambda f: {"op": "call", "f": f, "args": [{"t": "int", "v": 1}], "kw": []}
        out = []
        for name in NAMES + HOSTILE + [None]:
            fs_ = NAMES[:]
            ops = [c(i) for i in range(len(fs_))] + [{"op": "clear", "name": name}] + [c(i) for i in range(len(fs_))]
            out.append({"funs": fs_, "bufsize": 8192, "sessions": [{"ops": ops, "faults": []}], "missing": False})
        out.append({"funs": ["fun"], "bufsize": 8192, "sessions": [{"ops": [{"op": "clear", "name": None}, {"op": "clear", "name": "fun"}, c(0), c(0)], "faults": []}],
                    "missing": True})
        for at in range(4):
            out.append({"funs": ["fun", "un"], "bufsize": 8192, "missing": False, "sessions": [
                {"ops": [dict(c(0), args=[{"t": "int", "v": v}]) for v in range(4)] + [{"op": "clear", "name": "fun"}] + [dict(c(0), args=[{"t": "int", "v": v}]) for v in range(4)],
                 "faults": [{"kind": "error", "op": "unlink", "at": at, "errno": "EACCES"}]}]})
        for op in ("unlink", "listdir", "stat", "rmdir", "system"):
            for e in ("EACCES", "EBUSY", "EIO"):
                out.append({"funs": ["fun", "un"], "bufsize": 8192, "missing": False, "sessions": [
                    {"ops": [c(0), c(1), {"op": "clear", "name": "fun"}, c(0), c(1), {"op": "clear", "name": None}], "faults": [{"op": op, "errno": e}]}]})
        return out

    def generate(self, rng, tier):
        funs = rng.sample(NAMES, rng.randint(1, 5))
        pool = cs.gen_calls(rng, rng.randint(1, 3))
        sessions = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(2, 9)):
                if rng.random() < 0.68:
                    c = rng.choice(pool)
                    ops.append({"op": "call", "f": rng.randrange(len(funs)), "args": c["args"], "kw": c["kw"]})
                else:
                    ops.append({"op": "clear", "name": rng.choice(funs + [None]) if rng.random() < 0.6 else rng.choice(HOSTILE + NAMES)})
            faults = []
            if rng.random() < 0.25:
                faults = [{"op": rng.choice(["unlink", "unlink", "listdir", "rmdir"]), "errno": rng.choice(["EACCES", "EBUSY", "EIO", "ENOENT"])}]
            elif rng.random() < 0.2:  # the n-th removal only
                faults = [{"kind": "error", "op": "unlink", "at": rng.randrange(4), "errno": rng.choice(["EACCES", "EBUSY", "EIO", "ENOENT"])}]
            sessions.append({"ops": ops, "faults": faults})
        return {"funs": funs, "bufsize": 8192, "sessions": sessions, "missing": rng.random() < 0.1}

    def run(self, sc, ctx):
        root = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
        home = os.getcwd()
        try:
            os.chdir(root)
            self._run(sc, ctx, root)
        finally:
            os.chdir(home)
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, ctx, root):
        for d in DECOYS:
            p = os.path.join(root, d)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(d)
        stored, self.unsure, self.group = set(), set(), {}
        for si, session in enumerate(sc["sessions"]):
            fs = simfs.FS(root, ctx, simfs.Plan(), bufsize=sc["bufsize"])
            fs.proc = simfs.Proc(1000 + si)
            counts = []
            if si:
                ctx.fault("restart")
            with simfs.Installed(fs):
                mod = cs.load_caching()
                cached = [mod.cachedondisk(cs.make_fun(n, "plain", counts)) for n in sc["funs"]]
                if sc["missing"] and si == 0:
                    with fs.harness():
                        shutil.rmtree(os.path.join(root, ".cache"))
                    ctx.fault("cache-directory-removed")
                for oi, op in enumerate(session["ops"]):
                    del counts[:]
                    if op["op"] == "clear":
                        name = op["name"]
                        if stored:
                            ctx.nontrivial = True
                        once = [f for f in session["faults"] if "at" in f]
                        fs.plan = simfs.Plan(once, [f for f in session["faults"] if "at" not in f])
                        n0 = len(fs.fired)
                        try:
                            mod.clear_cache(name) if name is not None else mod.clear_cache()
                        except Exception as e:
                            raise core.Violation("clear-raised", f"session {si}: clear_cache({name!r}) raised {e!r} (faults {session['faults']})")
                        fs.plan = simfs.Plan()
                        failed = len(fs.fired) > n0
                        ctx.ev("clear", name, failed)
                        ctx.state((tuple(sorted(k[0] for k in stored)), name, failed))
                        if fs.escapes:
                            raise core.Violation("touched-other-files", f"session {si}: clear_cache({name!r}) touched {fs.escapes[:3]}")
                        # an empty name means: all functions, as does no name
                        gone = {k for k in stored if name in (None, "") or k[0] == name}
                        stored -= gone
                        if failed:  # these may or may not be there any more
                            self.unsure |= gone
                            if once and all(f["op_hit"] == "unlink" for f in fs.fired[n0:]):
                                # each failing removal leaves one entry at most
                                group = [len(fs.fired) - n0]
                                self.group.update({k: group for k in gone})
                        continue
                    n = sc["funs"][op["f"]]
                    key, want = cs.expect(n, "plain", op)
                    k = (n, key)
                    got = cs.outcome(cached[op["f"]], op)
                    where = f"session {si}: call {oi} {n}{cs.short(op)}"
                    cs.check_outcome(got, want, where)
                    if k in stored and counts:
                        raise core.Violation("removed-too-much", f"{where} was stored and not cleared, but is evaluated again; "
                                             f"cleared: {[o['name'] for o in session['ops'][:oi] if o['op'] == 'clear']}")
                    if k not in stored and k not in self.unsure and len(counts) != 1:
                        raise core.Violation("not-cleared", f"{where} was cleared or never made, but is answered from the cache; "
                                             f"cleared: {[o['name'] for o in session['ops'][:oi] if o['op'] == 'clear']}")
                    if k in self.unsure and k in self.group and not counts:
                        self.group[k][0] -= 1
                        if self.group[k][0] < 0:
                            raise core.Violation("not-cleared", f"{where} was cleared but is answered from the cache, as one entry could not be removed ({session['faults']})")
                    self.group.pop(k, None)
                    ctx.ev("call", n, key[:80], len(counts))
                    stored.add(k)
                    self.unsure.discard(k)
            if fs.escapes:
                raise core.Violation("touched-other-files", f"session {si}: {fs.escapes[:3]}")
            have = set()
            for d, dirs, files in os.walk(root):
                for f in files + dirs:
                    have.add(os.path.relpath(os.path.join(d, f), root))
            missing = [d for d in DECOYS if d not in have and not (sc["missing"] and d.startswith(".cache"))]
            names = [str(o.get("name")) for o in session["ops"] if o["op"] == "clear"]
            if missing:
                raise core.Violation("touched-other-files", f"session {si}: {missing} disappeared; cleared: {names}")
            for d in DECOYS:
                if d in have and open(os.path.join(root, d)).read() != d:
                    raise core.Violation("touched-other-files", f"session {si}: {d} was changed; cleared: {names}")
            extra = [h for h in have if h not in DECOYS and h not in (".cache", "victim", ".cache/sub")
                     and not (h.startswith(".cache/") and h.endswith((".pickle", ".tmp")) and h.count("/") == 1)]
            if extra:
                raise core.Violation("touched-other-files", f"session {si}: {extra} appeared; cleared: {names}")


CHECK = C06()
