"""C08: simulated paths obey the decision rule and the model's law of motion."""
import io
import json

import numpy as np

from .. import core, env, rng as simrng, world


class Recorder:
    """Notes what the processes' simulation methods return (outermost calls only)."""

    def __init__(self):
        from dolo.numeric import processes as P
        self.targets = []
        for c in ("MarkovChain", "AR1", "VAR1", "IIDProcess"):
            cls = getattr(P, c)
            for meth in ("simulate", "simulate_indices"):
                if meth in cls.__dict__:
                    self.targets.append((cls, meth, cls.__dict__[meth]))
        self.out, self.depth = [], 0

    def __enter__(self):
        for cls, meth, f in self.targets:
            def wrap(slf, *a, __f=f, __m=meth, **kw):
                self.depth += 1
                try:
                    r = __f(slf, *a, **kw)
                finally:
                    self.depth -= 1
                if self.depth == 0:
                    self.out.append((__m, slf, np.array(r)))
                return r
            setattr(cls, meth, wrap)
        return self

    def __exit__(self, *a):
        for cls, meth, f in self.targets:
            setattr(cls, meth, f)


class SeedSeam:
    """numpy.random.seed puts the generators in a state that delivers chosen numbers first."""

    def __init__(self, stream):
        self.stream = stream

    def __enter__(self):
        self.old = np.random.seed
        if self.stream:
            np.random.seed = lambda s=None: simrng.set_all(0 if s is None else int(s), self.stream)
        return self

    def __exit__(self, *a):
        np.random.seed = self.old


def close(a, b, tol):
    return np.abs(a - b) <= tol * (1 + np.abs(b))


class C08(core.Check):
    ID = "C08"
    RULE = ("A run is one simulation (or impulse response) of a model whose law of motion, definitions and mostly also decision rule are restated in the harness, with a seeded "
            "start, shock source and generator stream (seeded, or crafted to contain extreme numbers). Every date of every path in the returned array is checked against the reference; "
            "each path is simulated again alone on the same shocks. Non-trivial when there is more than one date.")
    REAL = ["simulate, response, processes drawn from, decision rules and their interpolation, compiled transition and definitions"]
    STUBS = ["numpy.random.seed (crafted streams)", "recorder around the processes' simulate methods"]
    RUNS = {"quick": 3000, "thorough": 60000}
    SOFT_S = {"quick": 60, "thorough": 900}
    STATE_MEASURE = "distinct (entry, shock source, start, shape, stream) combinations"
    ASSUMPTIONS = ["Decision rules solved by the library (not restated) are evaluated by the library itself for the reference."]

    def setup(self, tier):
        from dolo.algos import simulations
        from dolo.numeric.processes import MarkovChain
        self.sim = simulations
        self.w = world.build()
        self.names = sorted(self.w)
        self.cont = [n for n in self.names if not self.w[n].discrete]
        self.other_chain = {}
        for n, e in self.w.items():
            if e.discrete:
                k = e.dp().n_nodes
                P = np.roll(np.eye(k), 1, axis=1) * 0.7 + np.eye(k) * 0.3
                self.other_chain[n] = MarkovChain(P, np.array(e.dp().values))

    def worker_setup(self):
        for n in self.names:  # dispatch tables and compiled code are filled here, not within a run
            try:
                self.sim.simulate(self.w[n].model, self.w[n].dr, T=3)
            except Exception:
                pass  # the runs will tell

    def fixed(self, tier):
        out = []
        for n in self.names:
            for source in ("plain", "driving", "deterministic", "process"):
                for start in (0, 1, 2):
                    out.append({"entry": n, "N": 3, "T": 8, "seed": 42, "aux": 5, "s0": start, "start": start, "source": source, "stream": [], "as_result": True})
            out.append({"entry": n, "N": 400, "T": 25, "seed": 7, "aux": 5, "s0": 0, "start": 0, "source": "plain", "stream": [], "as_result": True})
        return out

    def generate(self, rng, tier):
        if rng.random() < 0.06:
            return {"what": "response", "entry": rng.choice(["normal-function", "normal-solved", "normal-perturbed", "mvnormal-function", "mvnormal-perturbed"]),
                    "T": rng.choice([2, 3, 20]), "var": rng.randint(0, 1), "impulse": rng.choice([0.01, -0.02, 0.0, 0.3])}
        stream = [] if rng.random() < 0.6 else [rng.choice(simrng.EXTREMES) for _ in range(rng.choice([3, 50, 200]))]
        return {"entry": rng.choice(self.names), "N": rng.choice([1, 2, 3, 6, 40]), "T": rng.choice([1, 2, 3, 12, 40]), "seed": rng.randrange(2 ** 32), "aux": rng.randrange(10 ** 6),
                "s0": rng.randint(0, 2), "start": rng.randint(0, 2), "source": rng.choice(["plain", "plain", "driving", "deterministic", "process"]), "stream": stream,
                "as_result": rng.random() < 0.3}

    def shrink(self, sc):
        for key, vals in (("T", (2, 3, 12)), ("N", (1, 2)), ("s0", (0,)), ("start", (0,)), ("stream", ([],))):
            for v in vals:
                if key in sc and sc[key] != v:
                    yield dict(sc, **{key: v})

    def run(self, sc, ctx):
        e = self.w[sc["entry"]]
        what = json.dumps(sc)[:400]
        if sc.get("what") == "response":
            return self.response(sc, e, what, ctx)
        N, T = sc["N"], sc["T"]
        r = np.random.RandomState(sc["aux"] % 2 ** 32)
        n_s = len(e.model.symbols["states"])
        kw = {"N": N, "T": T, "seed": sc["seed"]}
        s0 = np.array(e.model.calibration["states"])
        if sc["s0"]:
            s0 = s0 * (0.8 + 0.4 * r.random_sample((n_s,) if sc["s0"] == 1 else (N, n_s)))
            kw["s0"] = s0.copy()
        disc = e.discrete
        proc = e.dp()
        if sc["source"] == "process":
            proc = self.other_chain[sc["entry"]] if disc else proc
            kw["process"] = proc
        i0 = m0 = drv = None
        if sc["source"] == "driving":
            if disc:
                drv = r.randint(0, proc.n_nodes, (T, N))
            else:
                drv = 0.02 * r.randn(T, N, e.n_m)
            kw["driving_process"] = drv.copy()
        elif sc["start"]:
            if disc:
                i0 = int(r.randint(proc.n_nodes)) if sc["start"] == 1 else r.randint(0, proc.n_nodes, N)
                kw["i0"] = i0
            else:
                m0 = 0.02 * r.randn(e.n_m)
                kw["m0"] = m0.copy()
        if sc["source"] == "deterministic":
            kw["stochastic"] = False
        simrng.set_all(sc["seed"] ^ 0x77)
        try:
            with SeedSeam(sc["stream"]), Recorder() as rec:
                sim = self.sim.simulate(e.model, e.result if sc["as_result"] else e.dr, **kw)
        except Exception as ex:
            raise core.Violation("raises", f"{what}: raised {ex!r}")
        if sc["stream"]:
            ctx.fault("crafted-number", len(sc["stream"]))
        m, s, x, i_m = self.check(sim, e, proc, disc, N, T, s0, i0, m0, drv, what)
        ctx.ev(sim.data[:20].tolist() if sim.size < 2000 else float(np.nansum(sim.data)))
        ctx.steps += N * T
        ctx.nontrivial = T > 1
        ctx.state((sc["entry"], sc["source"], sc["s0"], sc["start"], N, T, bool(sc["stream"])))
        # the shocks are those drawn
        if drv is None and len(rec.out) == 1:
            meth, _, val = rec.out[0]
            want = i_m if meth == "simulate_indices" else m
            if want is not None and val.shape == want.shape and not np.array_equal(val, want):
                raise core.Violation("other-shocks", f"{what}: reported shocks are not those drawn from the process")
            ctx.probe("draws-compared")
        if disc and drv is None and sc["source"] != "deterministic" and T > 1:
            P = np.array(proc.transitions)
            p = P[i_m[:-1], i_m[1:]]
            if (p <= 0).any():
                t, n = np.argwhere(p <= 0)[0]
                raise core.Violation("impossible-transition", f"{what}: path {n} moves from shock {i_m[t, n]} to {i_m[t + 1, n]} at date {t}, probability 0")
        if disc and sc["source"] == "deterministic" and (i_m != i_m[0]).any():
            raise core.Violation("not-deterministic", f"{what}: the shock moves in a non-stochastic simulation")
        if N >= 400 and drv is None:
            self.law(m, i_m, proc, what, ctx)
        # paths do not influence each other
        if N > 1:
            for n in sorted({0, N - 1, int(r.randint(N))}):
                one = {"N": 1, "T": T, "s0": np.array(s0 if np.ndim(s0) == 1 else s0[n]), "driving_process": i_m[:, n:n + 1] if disc else np.ascontiguousarray(m[:, n:n + 1])}
                try:
                    alone = self.sim.simulate(e.model, e.dr, **one)
                except Exception as ex:
                    raise core.Violation("raises", f"{what}: path {n} alone raised {ex!r}")
                _, s1, x1, _ = self.check(alone, e, proc, disc, 1, T, one["s0"], None, None, one["driving_process"], what)
                if not (close(s1[:, 0], s[:, n], 1e-11).all() and close(x1[:, 0], x[:, n], 1e-11).all()):
                    raise core.Violation("paths-interact", f"{what}: path {n} is another when simulated alone on the same shocks")
                ctx.probe("paths-alone")

    def check(self, sim, e, proc, disc, N, T, s0, i0, m0, drv, what):
        sy = e.model.symbols
        if tuple(sim.dims) != ("T", "N", "V") or sim.shape[:2] != (T, N) or list(sim.coords["T"].data) != list(range(T)) or list(sim.coords["N"].data) != list(range(N)):
            raise core.Violation("shape", f"{what}: dims {sim.dims}, shape {sim.shape}")
        names = [str(v) for v in sim.coords["V"].data]
        if len(set(names)) != len(names):
            raise core.Violation("columns", f"{what}: columns {names}")
        want = sy["states"] + sy["controls"] + (["_i_m"] if disc else []) + (sy["exogenous"] + sy["auxiliaries"] if e.defs else [])
        missing = [v for v in want if v not in names]
        if missing:
            raise core.Violation("columns", f"{what}: columns {names} lack {missing}")
        get = lambda vs: np.stack([sim.data[:, :, names.index(v)] for v in vs], axis=2)
        s, x = get(sy["states"]), get(sy["controls"])
        i_m = m = None
        if disc:
            raw = sim.data[:, :, names.index("_i_m")]
            i_m = raw.astype(int)
            if not np.array_equal(raw, i_m) or i_m.min() < 0 or i_m.max() >= proc.n_nodes:
                raise core.Violation("index", f"{what}: shock indices {np.unique(raw).tolist()[:6]}")
            m = np.array(proc.values)[i_m]
            if e.defs and not np.array_equal(get(sy["exogenous"]), m):
                raise core.Violation("wrong-shock-value", f"{what}: exogenous columns are not the values of the shock index")
        else:
            if not all(v in names for v in sy["exogenous"]):
                raise core.Violation("columns", f"{what}: columns {names} lack the shocks")
            m = get(sy["exogenous"])
        if not np.isfinite(sim.data).all():
            raise core.Violation("not-finite", f"{what}: a simulated value is not finite")
        if drv is not None and not np.array_equal(i_m if disc else m, drv):
            raise core.Violation("other-shocks", f"{what}: reported shocks are not those supplied")
        if not np.array_equal(s[0], np.broadcast_to(s0, s[0].shape)):
            raise core.Violation("wrong-start", f"{what}: paths start at {s[0].tolist()[:3]} instead of {np.asarray(s0).tolist()[:3]}")
        if i0 is not None and (i_m[0] != i0).any():
            raise core.Violation("wrong-start", f"{what}: shock indices start at {i_m[0].tolist()[:5]} instead of {i0}")
        if m0 is not None and not close(m[0], m0[None, :], 1e-12).all():
            raise core.Violation("wrong-start", f"{what}: shocks start at {m[0].tolist()[:3]} instead of {m0.tolist()}")
        fm, fs, fx = (v.reshape(T * N, -1) for v in (m, s, x))
        fi = i_m.ravel() if disc else None

        def at(bad):
            k = int(np.argwhere(bad)[0][0])
            return k // N, k % N, k

        ref = e.rule(fi, fm, fs)
        if ref is not None:
            bad = (~close(fx, ref, 1e-9) & np.isfinite(ref)).any(axis=1)
            if bad.any():
                t, n, k = at(bad)
                raise core.Violation("wrong-control", f"{what}: controls {fx[k].tolist()} at date {t} of path {n}, the decision rule gives {ref[k].tolist()}")
        if disc:
            lib = np.zeros_like(fx)
            for i in np.unique(fi):
                lib[fi == i] = e.dr.eval_is(int(i), np.ascontiguousarray(fs[fi == i]))
        else:
            lib = np.array(e.dr.eval_ms(np.ascontiguousarray(fm), np.ascontiguousarray(fs)))
        bad = ~close(fx, lib, 1e-10).all(axis=1)
        if bad.any():
            t, n, k = at(bad)
            raise core.Violation("wrong-control", f"{what}: controls {fx[k].tolist()} at date {t} of path {n}, the decision rule gives {lib[k].tolist()}")
        if T > 1:
            nxt = e.transition(fm[:-N], fs[:-N], fx[:-N], fm[N:])
            bad = ~close(fs[N:], nxt, 1e-10).all(axis=1)
            if bad.any():
                t, n, k = at(bad)
                raise core.Violation("wrong-transition", f"{what}: states {fs[N + k].tolist()} at date {t + 1} of path {n}, the transition gives {nxt[k].tolist()}")
        if e.defs:
            for v, ref in e.auxiliaries(fm, fs, fx).items():
                got = sim.data[:, :, names.index(v)].ravel()
                bad = ~close(got, ref, 1e-10)
                if bad.any():
                    t, n, k = at(bad)
                    raise core.Violation("wrong-definition", f"{what}: {v} is {got[k]} at date {t} of path {n}, its definition gives {ref[k]}")
        return m, s, x, i_m

    def law(self, m, i_m, proc, what, ctx):
        """coarse: shocks used have the law of the process"""
        Z = 7.5
        if i_m is not None:
            P = np.array(proc.transitions)
            a, b = i_m[:-1].ravel(), i_m[1:].ravel()
            cnt = np.zeros(P.shape)
            np.add.at(cnt, (a, b), 1)
            n = cnt.sum(axis=1)[:, None]
            if (np.abs(cnt - n * P) > Z * np.sqrt(n * P * (1 - P)) + 12).any():
                raise core.Violation("wrong-law", f"{what}: transition counts {cnt.tolist()} for probabilities {P.tolist()}")
            return
        name = type(proc).__name__
        if name in ("AR1", "VAR1"):
            rho = np.atleast_2d(proc.ρ) * np.eye(m.shape[2])
            d = m - np.ravel(proc.μ)
            e = d[1:] - d[:-1] @ rho.T
            S = np.atleast_2d(proc.σ if name == "AR1" else proc.Σ)
        elif hasattr(proc, "points"):
            mu = proc.weights @ proc.points
            e, S = m - mu, (proc.points - mu).T @ (proc.weights[:, None] * (proc.points - mu))
        elif name == "UNormal":
            e, S = m - proc.μ, np.atleast_2d(proc.σ ** 2)
        elif name == "Normal":
            e, S = m - np.ravel(proc.Μ), np.atleast_2d(proc.Σ)
        else:
            return
        e = e.reshape(-1, e.shape[-1])
        n = len(e)
        sd = np.sqrt(np.diag(S))
        if (np.abs(e.mean(axis=0)) > Z * sd / np.sqrt(n)).any():
            raise core.Violation("wrong-law", f"{what}: innovations have mean {e.mean(axis=0).tolist()}")
        C = e.T @ e / n
        if (np.abs(C - S) > Z * np.sqrt((S ** 2 + np.outer(sd ** 2, sd ** 2)) / n)).any():
            raise core.Violation("wrong-law", f"{what}: innovations have covariance {C.tolist()}, declared {S.tolist()}")
        ctx.probe("law-tests")

    def response(self, sc, e, what, ctx):
        names = e.model.symbols["exogenous"]
        j = sc["var"] % len(names)
        T = sc["T"]
        try:
            with env.Consoles(io.StringIO()):
                irf = self.sim.response(e.model, e.result, names[j], T=T, impulse=sc["impulse"])
        except Exception as ex:
            raise core.Violation("raises", f"{what}: raised {ex!r}")
        if "N" in irf.coords:
            irf = irf.drop_vars("N")
        if tuple(irf.dims) != ("T", "V") or irf.shape[0] != T:
            raise core.Violation("shape", f"{what}: response has dims {irf.dims}, shape {irf.shape}")
        drv = np.zeros((T, 1, e.n_m))
        drv[1, 0, j] = sc["impulse"]
        sim = irf.expand_dims({"N": [0]}).transpose("T", "N", "V")
        self.check(sim, e, e.dp(), False, 1, T, np.array(e.model.calibration["states"]), None, None, drv, what)
        ctx.ev(irf.data.tolist())
        ctx.steps += T
        ctx.nontrivial = True
        ctx.state(("response", sc["entry"], j, T))


CHECK = C08()
