"""C07: a simulation with a given seed is the same in every run and after any history."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import core, env, rng as simrng, world

SEEDS = [0, 1, 42, 43, 12345, 2 ** 31 - 1, 2 ** 32 - 1]


def call(w, c, seed=None):
    """one simulation described by c"""
    from dolo.algos.simulations import simulate
    e = w[c["entry"]]
    kw = {"N": c["N"], "T": c["T"], "seed": c["seed"] if seed is None else seed}
    r = np.random.RandomState(c["aux"])
    disc = e.discrete
    if c["s0"]:
        kw["s0"] = np.array([0.7 + r.random_sample()] + [0.1] * (len(e.model.symbols["states"]) - 1))
    if c["start"]:
        if disc:
            kw["i0"] = int(r.randint(e.dp().n_nodes)) if c["start"] == 1 else r.randint(0, e.dp().n_nodes, c["N"])
        elif e.dp().__class__.__name__ in ("AR1", "VAR1"):
            kw["m0"] = 0.01 * r.random_sample(e.n_m)
    if c["mode"] == "driving":
        if disc:
            kw["driving_process"] = r.randint(0, e.dp().n_nodes, (c["T"], c["N"]))
        else:
            kw["driving_process"] = 0.02 * r.randn(c["T"], c["N"], e.n_m)
    elif c["mode"] == "deterministic":
        kw["stochastic"] = False
    elif c["mode"] == "process" and not disc:
        kw["process"] = e.dp()
    return simulate(e.model, e.result if c["as_result"] else e.dr, **kw)


def digest(sim):
    h = hashlib.sha1()
    h.update(repr((sim.dims, sim.shape, str(sim.dtype))).encode())
    for d in sim.dims:
        h.update(repr([v if isinstance(v, str) else int(v) for v in sim.coords[d].data.tolist()]).encode())
    h.update(np.ascontiguousarray(sim.data).tobytes())
    return h.hexdigest()


def configs(names):
    out = []
    for i, n in enumerate(names):
        for mode in ("plain", "driving", "deterministic"):
            out.append({"entry": n, "N": 3, "T": 25, "seed": 42 + i, "aux": 7, "s0": i % 2, "start": i % 3, "mode": mode, "as_result": False})
    return out


class C07(core.Check):
    ID = "C07"
    RULE = ("A run is a simulation call (model, shocks, start, mode, seed) made after a seeded history: draws from and reseeding of every generator of the "
            "process, crafted generator states, other simulations and discretizations, clocks that stand still or jump. Its result must equal, bit for bit, that of the same call "
            "in another history (and in another interpreter with another hash seed, for fixed calls). Calls with different seeds must draw different shocks; "
            "calls without randomness must not depend on the seed. Non-trivial when the history drew random numbers.")
    REAL = ["simulate, processes and distributions drawn from, compiled chain simulation, decision rules, compiled model functions", "numpy's, Python's and numba's generators"]
    STUBS = ["clocks of the time module", "states of the generators before the call"]
    RUNS = {"quick": 3000, "thorough": 60000}
    SOFT_S = {"quick": 60, "thorough": 900}
    STATE_MEASURE = "distinct (entry, mode, kinds of history, clock) combinations"
    ASSUMPTIONS = ["'Whatever process' is covered by forked workers and one further interpreter with another hash seed on the same machine."]

    def setup(self, tier):
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        code = (f"import sys, json; sys.path[:0] = [{here!r}, {core.REPO!r}]\n"
                "import random, time; random.seed(); import numpy as np; np.random.seed()\n"
                "from sim import world; from sim.checks import c07\n"
                "w = world.build(solved=False)\n"
                "print('RES', json.dumps([c07.digest(c07.call(w, c)) for c in c07.configs(sorted(w))]))\n")
        child = subprocess.Popen([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED="4711", NUMBA_CACHE_DIR=os.path.join(os.environ["DOLO_SIM_RUNDIR"], "numba")), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.w = world.build()
        self.names = sorted(self.w)
        self.unsolved = sorted(n for n in self.w if not n.endswith(("solved", "perturbed")))
        self.refs = {}
        self.other = None
        try:
            out, err = child.communicate(timeout=400)
            for line in out.splitlines():
                if line.startswith("RES "):
                    self.other = json.loads(line[4:])
            self.other_err = err[-1500:]
        except subprocess.TimeoutExpired:
            child.kill()
            self.other_err = None  # no verdict

    def fixed(self, tier):
        out = [{"what": "other-interpreter", "i": i, "c": c} for i, c in enumerate(configs(self.unsolved))]
        for n in self.names:
            for mode in ("plain", "driving", "deterministic", "process"):
                for pre in (["np"], ["numba"], ["py"], ["self"], ["others"]):
                    out.append({"what": "repeat", "ops": pre, "clock": "real", "hseed": 5,
                                "c": {"entry": n, "N": 2, "T": 12, "seed": 42, "aux": 3, "s0": 0, "start": 0, "mode": mode, "as_result": True}})
                out.append({"what": "seeds", "ops": [], "clock": "real", "hseed": 5, "seed2": 43,
                            "c": {"entry": n, "N": 5, "T": 40, "seed": 42, "aux": 3, "s0": 0, "start": 0, "mode": mode, "as_result": True}})
        return out

    def generate(self, rng, tier):
        what = "repeat" if rng.random() < 0.85 else "seeds"
        c = {"entry": rng.choice(self.names), "N": rng.choice([1, 2, 3, 7]) if what == "repeat" else 5, "T": rng.choice([1, 2, 10, 30]) if what == "repeat" else 40,
             "seed": rng.choice(SEEDS), "aux": rng.randrange(4), "s0": rng.randint(0, 1), "start": rng.randint(0, 2),
             "mode": rng.choice(["plain", "plain", "plain", "driving", "deterministic", "process"]), "as_result": rng.random() < 0.5}
        ops = [rng.choice(["np", "np", "numba", "py", "self", "others", "others", "craft", "discretize", "draw"]) for _ in range(rng.randint(1, 4))]
        if what == "repeat" and rng.random() < 0.02:
            c.update(N=60, T=120)
        sc = {"what": what, "c": c, "ops": ops, "clock": rng.choice(env.CLOCK_MODES), "hseed": rng.randrange(10 ** 9)}
        if what == "seeds":
            sc["seed2"] = rng.choice([s for s in SEEDS if s != c["seed"]])
        return sc

    def history(self, sc, ctx):
        r = random.Random(sc["hseed"])
        for op in sc["ops"]:
            if op == "np":
                simrng.scramble(r)
            elif op == "craft":
                simrng.set_all(r.randrange(2 ** 31), [r.choice(simrng.EXTREMES) for _ in range(20)])
            elif op == "numba":
                simrng.scramble(r, 3)
            elif op == "py":
                random.seed(r.random())
                random.random()
            elif op == "self":
                call(self.w, dict(sc["c"], seed=r.choice(SEEDS), N=r.randint(1, 4)))
            elif op == "others":
                call(self.w, dict(sc["c"], entry=r.choice(self.names), seed=r.choice(SEEDS), N=r.randint(1, 4), T=r.randint(1, 20), start=0))
            elif op == "discretize":
                self.w[r.choice(self.names)].model.discretize()
            elif op == "draw":
                p = self.w[r.choice(self.names)].dp()
                p.simulate(r.randint(1, 3), r.randint(2, 20))
            ctx.fault("history-" + op)

    def attempt(self, c, seed=None):
        try:
            return call(self.w, c, seed)
        except Exception as e:
            raise core.Violation("raises", f"simulation {c} raised {e!r}")

    def run(self, sc, ctx):
        c = sc["c"]
        if sc["what"] == "other-interpreter":
            if self.other is None:
                if self.other_err is None:
                    raise core.Stuck("the second interpreter did not answer in time")
                raise core.Violation("other-interpreter-fails", f"the simulations of a second interpreter failed: {self.other_err}")
            d = digest(self.attempt(c))
            ctx.ev(d)
            ctx.nontrivial = True
            ctx.steps += 75
            if d != self.other[sc["i"]]:
                raise core.Violation("differs-between-processes", f"simulation {c} differs between two interpreters")
            return
        key = json.dumps(c, sort_keys=True)
        if key not in self.refs:
            if len(self.refs) > 4000:
                self.refs.clear()
            simrng.set_all(20260101)
            self.refs[key] = digest(self.attempt(c))
        ref = self.refs[key]
        simrng.set_all(sc["hseed"])
        with env.Clock(sc["clock"], sc["hseed"]) as ck:
            try:
                self.history(sc, ctx)
            except Exception as e:
                raise core.Violation("raises", f"history {sc['ops']} before {c} raised {e!r}")
            sim = self.attempt(c)
        ctx.simtime += min(ck.span, 1e6)
        if sc["clock"] != "real":
            ctx.fault("clock-" + sc["clock"])
        d = digest(sim)
        ctx.ev(d)
        ctx.steps += c["N"] * c["T"]
        ctx.nontrivial = bool(sc["ops"])
        ctx.state((c["entry"], c["mode"], tuple(sorted(set(sc["ops"]))), sc["clock"]))
        if d != ref:
            raise core.Violation("not-reproducible", f"simulation {c} gives another result after {sc['ops']} (clock {sc['clock']})")
        if sc["what"] == "seeds":
            other = self.attempt(c, sc["seed2"])
            ctx.ev(digest(other))
            e = self.w[c["entry"]]
            if c["mode"] in ("driving", "deterministic"):
                if digest(other) != d:
                    raise core.Violation("depends-on-seed", f"simulation {c} has no randomness but differs with seed {sc['seed2']}")
            else:
                cols = ["_i_m"] if "_i_m" in sim.V.data else e.model.symbols["exogenous"]
                a, b = sim.sel(V=cols).data, other.sel(V=cols).data
                if np.array_equal(a, b):
                    raise core.Violation("same-shocks", f"simulation {c} draws the same shocks with seed {sc['seed2']}")
                ctx.probe("seed-pairs")


CHECK = C07()
