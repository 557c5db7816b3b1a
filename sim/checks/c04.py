"""C04: the in-memory memoizer is transparent over every history and interleaving."""
from .. import core, cachesim as cs, sched

KINDS = ["plain", "plain", "array", "odd-raises", "falsy", "key-raises", "type-raises", "os-raises", "none", "mutates", "mutates"]
NAMES = ["fun", "fun_b"]


class Holder:
    """Object with a memoized method."""

    def __init__(self, tag):
        self.tag = tag


class C04(core.Check):
    ID = "C04"
    RULE = ("A run is one to three threads calling memoized functions or methods with near-equal arguments, changed-in-place arguments, raising and "
            "interrupted evaluations, switched at source lines or bytecodes of the memoizer; non-trivial when a call was answered from memory, "
            "an evaluation failed, or threads were switched inside a call.")
    REAL = ["dolo.misc.caching.memoized, hashable", "threads"]
    STUBS = ["scheduler decides who runs at each source line / bytecode of the memoizer and of the functions", "locks created by the code"]
    RUNS = {"quick": 8000, "thorough": 150000}
    SOFT_S = {"quick": 60, "thorough": 1200}
    STATE_MEASURE = "distinct combinations of source positions of all threads at a switch, and sets of remembered calls"

    def worker_setup(self):
        import numpy  # noqa: F401
        for sc in self.fixed("quick"):  # anything imported on first use is imported now; the interpreter instruments opcodes on first use
            core.run_once(self, sc)
            core.run_once(self, dict(sc, grain="opcode", actors=sc["actors"] * 2, switches=[[1, 0]] * 20))

    def fixed(self, tier):
        one = lambda *vs: {"n_funs": [{"name": "fun", "kind": "plain"}], "bind": None, "grain": "line", "start": 0, "switches": [],
                           "actors": [{"ops": [{"op": "call", "f": 0, "args": [v], "kw": []} for v in vs]}]}
        out = []
        for fam in cs.COLLIDING:
            out.append(one(*fam, *fam))
        out.append(dict(one(), actors=[{"ops": [{"op": "many", "f": 0, "n": 3000}, {"op": "many", "f": 0, "n": 3000}]}]))
        return out

    def generate(self, rng, tier):
        n_funs = rng.choice([1, 1, 2])
        funs = [{"name": n, "kind": rng.choice(KINDS) if rng.random() < 0.6 else "plain"} for n in NAMES[:n_funs]]
        pool = cs.gen_calls(rng, rng.randint(1, 6), opaque=rng.random() < 0.2)
        n_act = rng.choice([1, 2, 2, 3])
        actors = []
        for i in range(n_act):
            ops = []
            for _ in range(rng.randint(1, 6)):
                c = rng.choice(pool)
                op = {"op": "call", "f": rng.randrange(n_funs), "args": c["args"], "kw": c["kw"]}
                if rng.random() < 0.1:
                    op["die"] = rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit", "RuntimeError"])
                ops.append(cs.add_reuse(rng, op, i))
            actors.append({"ops": ops})
        return {"n_funs": funs, "bind": rng.choice([None, None, None, 0, 1]), "grain": rng.choice(["line", "opcode"]),
                "start": rng.randrange(n_act), "actors": actors,
                "switches": sched.gen_switches(rng, 40, rng.choice([1, 2, 5, 12, 40, 120])) if n_act > 1 else []}

    def run(self, sc, ctx):
        cs.POOL.clear()
        funs = sc["n_funs"]
        evals = {i: [] for i in range(len(sc["actors"]))}
        dying = {}
        me = lambda: (sched.current_thread().idx if sched.current_thread() else 0)
        with sched.SimLocks():
            mod = cs.load_caching()
            holders = [Holder("a"), Holder("b")]
            cached = []
            for f in funs:
                def make(f=f):
                    def fun(*args, **kwargs):
                        if args and isinstance(args[0], Holder):
                            args = args[1:]
                        evals[me()].append(f["name"])
                        d = dying.get(me())
                        if d:
                            raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit,
                                   "RuntimeError": RuntimeError}[d]("stopped")
                        if f["kind"] == "none":
                            return None
                        value = cs.value_of(f["name"], f["kind"], args, kwargs)
                        if f["kind"] == "mutates":
                            for a in list(args) + list(kwargs.values()):
                                if isinstance(a, list):
                                    a.append("used")
                                elif hasattr(a, "flatten") and getattr(a, "shape", ()):
                                    a[...] = 0
                        return value
                    fun.__name__ = f["name"]
                    return fun
                m = mod.memoized(make())
                if sc["bind"] is None:
                    cached.append(m)
                else:
                    cls = type("Owner", (Holder,), {f["name"]: m})
                    objs = [cls("a"), cls("b")]
                    cached.append([getattr(o, f["name"]) for o in objs])
            known = set()  # calls completed: (owner, function, key)
            problems = []

            def actor(i):
                def body():
                    for op in sc["actors"][i]["ops"]:
                        f = funs[op["f"]]
                        if op["op"] == "many":
                            del evals[i][:]
                            for v in cs.many(op["n"]):
                                o = {"args": [v], "kw": []}
                                got = cs.outcome(cached[op["f"]], o)
                                cs.check_outcome(got, cs.expect(f["name"], f["kind"], o)[1], f"among many calls, {cs.short(o)}")
                            if "many" in known and evals[i]:
                                raise core.Violation("evaluated-again", f"the function ran {len(evals[i])} times for {op['n']} calls made before")
                            known.add("many")
                            ctx.ev("many", len(evals[i]))
                            continue
                        owner = None
                        fn = cached[op["f"]]
                        if sc["bind"] is not None:
                            owner = (i + sc["bind"] + len(op["args"])) % 2
                            fn = fn[owner]
                        key, want = cs.expect(f["name"], f["kind"], op)
                        if f["kind"] == "none":
                            want = ("ok", None)
                        k = (owner, f["name"], key)
                        before = k in known
                        del evals[i][:]
                        opaque = cs.has_opaque(op["args"]) or cs.has_opaque(op["kw"])
                        if op.get("die") and not before and not opaque:
                            dying[i] = op["die"]
                        where = f"thread {i}: {f['name']}{cs.short(op)}"
                        try:
                            got = cs.outcome(fn, op)
                        except (KeyboardInterrupt, SystemExit) as e:
                            got = ("exc", type(e).__name__, str(e))
                        dying.pop(i, None)
                        n = len(evals[i])
                        ctx.ev("call", i, k[:2], key[:100], got[0], n)
                        if op.get("die") and not before and not opaque and n:
                            ctx.fault("stop-in-function:" + op["die"])
                            if got[:2] != ("exc", op["die"]):
                                problems.append(core.Violation("interrupt-lost", f"{where}: the function raised {op['die']} but the call gave {got}"))
                            continue
                        try:
                            cs.check_outcome(got, want, where)
                        except core.Violation as v:
                            problems.append(v)
                            return
                        if before and n and not opaque:
                            problems.append(core.Violation("evaluated-again", f"{where} ran the function although an equal call had completed before"))
                            return
                        if n > 1:
                            problems.append(core.Violation("evaluations", f"{where} ran the function {n} times"))
                            return
                        if got[0] == "ok":
                            known.add(k)
                        elif n == 0:
                            problems.append(core.Violation("exception-remembered", f"{where} raised {got} without running the function"))
                            return
                        if n == 0:
                            ctx.probe("hit")
                            ctx.nontrivial = True
                        else:
                            ctx.probe("evaluated")
                        if got[0] == "exc":
                            ctx.nontrivial = True
                        ctx.state(tuple(sorted(known, key=str))[:8])
                return body
            n = len(sc["actors"])
            if n == 1:
                actor(0)()
            else:
                s = sched.Sched(ctx, sc["switches"], (core.REPO,), sc["grain"], start=sc["start"])
                for t in s.run([actor(i) for i in range(n)]):
                    if t.exc is not None:
                        problems.append(core.Violation("call-failed", f"thread {t.idx} ended with {t.exc!r}"))
                ctx.nontrivial |= s.n_switch > 0
            if problems:
                raise problems[0]


CHECK = C04()
