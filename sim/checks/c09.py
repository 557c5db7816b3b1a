"""C09: simulated Markov chains only make transitions of positive probability."""
import numpy as np

from .. import core, rng as simrng

KINDS = ["random", "sparse", "absorbing", "cycle", "identity", "tiny", "trailing-zeros", "leading-zeros", "deficit", "excess", "normalised", "tenths",
         "two-point", "duplicate-values", "ar1", "var1", "product", "normal-mc", "finite-mc", "onestate", "long-cycle", "long-band"]


def build(spec):
    """-> (transitions, values) as given to the library, plus the library's process when it builds it itself"""
    r = np.random.RandomState(spec["mseed"])
    k = spec["k"]
    kind = spec["kind"]
    from dolo.numeric.processes import MarkovChain, AR1, VAR1, ProductProcess
    from dolo.numeric.distribution import UNormal, FiniteDistribution
    if kind == "ar1":
        return AR1(ρ=float(r.choice([0.0, 0.5, 0.9, 0.99])), σ=0.01, μ=float(r.choice([0.0, 0.3]))).discretize(N=int(r.randint(2, 8)))
    if kind == "var1":
        return VAR1(ρ=float(r.choice([0.1, 0.9])), Σ=[[0.01, 0.002], [0.002, 0.02]], μ=[0.1, -0.2]).discretize(N=int(r.randint(2, 4)))
    if kind == "product":
        return ProductProcess(AR1(ρ=0.8, σ=0.01), MarkovChain([[0.9, 0.1], [0.0, 1.0]], [[1.0], [2.0]])).discretize(to="mc")
    if kind == "normal-mc":
        return UNormal(σ=0.1, μ=0.5).discretize(to="mc")
    if kind == "finite-mc":
        w = r.random_sample(k) * (r.random_sample(k) < 0.7)
        w[r.randint(k)] += 0.5
        return FiniteDistribution(r.random_sample((k, 2)), w / w.sum()).discretize(to="mc")
    if kind == "long-cycle":
        P = np.roll(np.eye(70 * min(k, 3)), 1, axis=1)
    elif kind == "long-band":
        P = sum(w * np.roll(np.eye(50 * min(k, 4)), j, axis=1) for j, w in ((-1, 0.2), (0, 0.5), (1, 0.1), (7, 0.2)))
    elif kind == "onestate":
        P = np.ones((1, 1))
    elif kind == "identity":
        P = np.eye(k)
    elif kind == "cycle":
        P = np.roll(np.eye(k), 1, axis=1)
    else:
        P = r.random_sample((k, k)) + 0.01
        if kind in ("sparse", "deficit", "excess", "normalised"):
            P = P * (r.random_sample((k, k)) < 0.5)
            P[np.arange(k), r.randint(0, k, k)] += 0.3
        if kind == "absorbing":
            P[0] = 0
            P[0, 0] = 1
        if kind == "trailing-zeros":
            for i in range(k):
                z = r.randint(1, k) if k > 1 else 0
                P[i, k - z:] = 0
        if kind == "leading-zeros":
            for i in range(k):
                z = r.randint(0, k)
                P[i, :z] = 0
        if kind == "tiny":
            P = P * 10.0 ** r.randint(-20, 1, (k, k))
            P[np.arange(k), r.randint(0, k, k)] += 1.0
        if kind == "two-point":
            P = P * 0
            for i in range(k):
                P[i, r.randint(k)] += 0.3
                P[i, r.randint(k)] += 0.7
        if kind == "tenths":
            P = P * 0
            for i in range(k):
                for _ in range(10):
                    P[i, r.randint(k)] += 0.1
        else:
            P = P / P.sum(axis=1)[:, None]
        if kind == "deficit":
            P = P * (1 - spec["eps"])
        if kind == "excess":
            P = P * (1 + spec["eps"])
    k = P.shape[0]
    V = r.random_sample((k, spec["d"]))
    if kind == "duplicate-values":
        V[:] = V[r.randint(0, k, k)]
    return MarkovChain(P, V)


class C09(core.Check):
    ID = "C09"
    RULE = ("A run is a chain (random, sparse, absorbing, rows summing to one only up to rounding, discretized processes), an initial state and a stream "
            "of numbers from the generators (seeded, or crafted to contain numbers next to 0 and 1 and ties with cumulated probabilities). Every step of "
            "every path is checked; long runs are also judged on frequencies, serial and cross-path dependence. Non-trivial when a transition happened "
            "or the stream was crafted.")
    REAL = ["simulate_markov_chain, simulate_mc_indices (compiled), MarkovChain.simulate, discretization of AR1, VAR1, products and distributions", "numpy's, Python's and numba's generators"]
    STUBS = ["state of the generators"]
    RUNS = {"quick": 10000, "thorough": 80000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct (kind of chain, size, entry point, stream, visited states) combinations"
    ASSUMPTIONS = ["Frequencies and dependence are judged with bounds above 7 standard errors: smaller distortions stay unseen."]

    def setup(self, tier):
        import dolo  # noqa
        from dolo.numeric import processes
        self.proc = processes
        processes.MarkovChain([[0.5, 0.5], [0.5, 0.5]], [[0.0], [1.0]]).simulate(2, 3)
        processes.simulate_markov_chain(np.zeros((2, 1)), np.ones((2, 2)) / 2, 2, 3, i0=1)

    def fixed(self, tier):
        out = []
        for kind in KINDS:
            for k in (2, 5):
                for ds in ([0.0], [1 - 2.0 ** -53], [2.0 ** -53], "ties", "ties-below"):
                    out.append({"kind": kind, "mseed": k, "k": k, "d": 1, "eps": 1e-12, "N": 3, "T": 12, "i0": "last", "entry": "simulate", "stream": ds, "seed": 3,
                                "stochastic": True})
            out.append({"kind": kind, "mseed": 1, "k": 3, "d": 1, "eps": 1e-12, "N": 20, "T": 1500, "i0": 0, "entry": "indices", "stream": [], "seed": 11, "stochastic": True})
            out.append({"kind": kind, "mseed": 4, "k": 3, "d": 1, "eps": 1e-12, "N": 120, "T": 500, "i0": "none", "entry": "simulate", "stream": [], "seed": 12, "stochastic": True})
            out.append({"kind": kind, "mseed": 1, "k": 3, "d": 2, "eps": 1e-12, "N": 3, "T": 10, "i0": "last", "entry": "simulate", "stream": [], "seed": 11, "stochastic": False})
        return out

    def generate(self, rng, tier):
        long_ = rng.random() < 0.25
        stream = [] if long_ else rng.choice([[], "ties", "ties-below", "ties-above", [rng.choice(simrng.EXTREMES) for _ in range(rng.randint(1, 40))],
                                             [rng.choice(simrng.EXTREMES + [rng.random()] * 5) for _ in range(200)]])
        return {"kind": rng.choice(KINDS), "mseed": rng.randrange(10 ** 6), "k": rng.choice([2, 2, 3, 4, 7, 12]), "d": rng.choice([1, 1, 2, 3]),
                "eps": rng.choice([1e-15, 1e-12, 1e-8, 3e-4, 2.0 ** -53]), "N": rng.choice([1, 2, 5, 12]) if not long_ else rng.choice([2, 10, 30, 80, 150]),
                "T": rng.choice([1, 2, 3, 10, 40]) if not long_ else rng.choice([500, 500, 2000]), "i0": rng.choice([0, "last", "rand", "vector", "none"]),
                "entry": rng.choice(["indices", "simulate", "simulate", "values"]), "stream": stream, "seed": rng.randrange(2 ** 31),
                "stochastic": rng.random() < 0.93}

    def shrink(self, sc):
        for key, vals in (("T", (2, 3, 10)), ("N", (1, 2)), ("k", (2, 3)), ("d", (1,)), ("i0", (0,))):
            for v in vals:
                if sc[key] != v and (not isinstance(sc[key], int) or v < sc[key]):
                    yield dict(sc, **{key: v})
        if isinstance(sc["stream"], list) and len(sc["stream"]) > 1:
            h = len(sc["stream"]) // 2
            yield dict(sc, stream=sc["stream"][:h])
            yield dict(sc, stream=sc["stream"][h:])

    def run(self, sc, ctx):
        simrng.set_all(sc["seed"] ^ 0x55AA)
        chain = build(sc)
        P, V = np.array(chain.transitions), np.array(chain.values)
        k = P.shape[0]
        N, T = sc["N"], sc["T"]
        what = f"chain {sc['kind']} with {k} states, N={N}, T={T}, i0={sc['i0']}, via {sc['entry']}, generator stream {str(sc['stream'])[:60]}"
        if (P < -1e-15).any():
            raise core.Stuck("negative transition probability from the discretization")
        i0 = {"last": k - 1, "rand": sc["seed"] % k, "vector": [(sc["seed"] + n) % k for n in range(N)], "none": None}.get(sc["i0"], sc["i0"])
        i0 = np.array(i0) if isinstance(i0, list) else i0
        stream = sc["stream"]
        if isinstance(stream, str):
            C = P.cumsum(axis=1)
            r = np.random.RandomState(sc["seed"] % 2 ** 32)
            off = {"ties": 0.0, "ties-below": -2.0 ** -53, "ties-above": 2.0 ** -53}[stream]
            cand = [min(max(c + off, 0.0), 1 - 2.0 ** -53) for c in C.ravel()] + simrng.EXTREMES[:4]
            stream = [float(r.choice(cand)) for _ in range(300)]
        simrng.set_all(sc["seed"], stream)
        if stream:
            ctx.fault("crafted-number", len(stream))
        ctx.steps += N * T
        entry = sc["entry"]
        vals = None
        try:
            if entry == "simulate":
                kw = {} if i0 is None else {"i0": i0}
                vals = np.array(chain.simulate(N, T, stochastic=sc["stochastic"], **kw))
                idx = None
            else:
                if not sc["stochastic"]:
                    return
                if entry == "values":
                    idx, vals = self.proc.simulate_markov_chain(chain.values, chain.transitions, N, T, i0=i0, return_values=True)
                else:
                    idx = self.proc.simulate_markov_chain(chain.values, chain.transitions, N, T, i0=i0)
                idx = np.array(idx)
        except Exception as e:
            raise core.Violation("raises", f"{what}: raised {e!r}")
        if not (np.array_equal(P, chain.transitions) and np.array_equal(V, chain.values)):
            raise core.Violation("chain-modified", f"{what}: simulating changed the chain itself")
        start = np.broadcast_to(np.asarray(0 if i0 is None else i0), (N,))
        dup = len({tuple(v) for v in V}) < k
        if idx is not None:
            if idx.shape != (T, N):
                raise core.Violation("shape", f"{what}: indices of shape {idx.shape}")
            if idx.min() < 0 or idx.max() >= k:
                raise core.Violation("out-of-range", f"{what}: state {int(idx.max())} of {k} at (t, n) = {[int(x) for x in np.argwhere((idx < 0) | (idx >= k))[0]]}")
            if vals is not None and not np.array_equal(vals, V[idx]):
                raise core.Violation("wrong-values", f"{what}: reported values are not those of the visited states")
        else:
            if vals.shape != (T, N, V.shape[1]):
                raise core.Violation("shape", f"{what}: values of shape {vals.shape}")
            if len(np.unique(V[:, 0])) == k:
                order = np.argsort(V[:, 0])
                idx = order[np.minimum(np.searchsorted(V[order, 0], vals[:, :, 0]), k - 1)]
                known = (V[idx] == vals).all(axis=2)
            else:
                match = (vals[:, :, None, :] == V[None, None, :, :]).all(axis=3)  # T,N,k
                idx, known = match.argmax(axis=2), match.any(axis=2)
            if not known.all():
                t, n = np.argwhere(~known)[0]
                raise core.Violation("foreign-value", f"{what}: value {vals[t, n]} at date {t} of path {n} is not a state's value")
            if dup:
                # only up to states of equal value: set of states compatible with the path so far
                for n in range(N):
                    poss = {int(start[n])} if match[0, n, start[n]] else set()
                    for t in range(T):
                        if t:
                            poss = {j for j in range(k) if match[t, n, j] and any((P[i, j] > 0 if sc["stochastic"] else i == j) for i in poss)}
                        if not poss:
                            raise core.Violation("impossible-transition", f"{what}: no states of positive probability explain path {n} at date {t}")
                ctx.ev("dup", vals.sum().item())
                ctx.nontrivial = True
                return
        if not np.array_equal(idx[0], start):
            raise core.Violation("wrong-start", f"{what}: starts in {idx[0].tolist()} instead of {start.tolist()}")
        ctx.ev(idx[:60].tolist())
        ctx.state((sc["kind"], k, entry, bool(stream), frozenset(idx.ravel().tolist())))
        if not sc["stochastic"]:
            if (idx != idx[0]).any():
                raise core.Violation("not-constant", f"{what}: a non-stochastic chain left its initial state")
            ctx.nontrivial = True
            return
        if T > 1:
            p = P[idx[:-1], idx[1:]]
            if (p <= 0).any():
                t, n = np.argwhere(p <= 0)[0]
                raise core.Violation("impossible-transition", f"{what}: path {n} goes from state {idx[t, n]} to {idx[t + 1, n]} (probability {P[idx[t, n], idx[t + 1, n]]}) at date {t}")
            ctx.nontrivial = True
        if T >= 500 and not stream:
            self.statistics(idx, P, what, ctx)

    def statistics(self, idx, P, what, ctx):
        k = P.shape[0]
        Q = P / P.sum(axis=1)[:, None]
        slack = abs(P.sum(axis=1) - 1).max()
        a, b = idx[:-1].ravel(), idx[1:].ravel()
        cnt = np.zeros((k, k))
        np.add.at(cnt, (a, b), 1)
        n_i = cnt.sum(axis=1)[:, None]
        dev = np.abs(cnt - n_i * Q)
        bound = 7 * np.sqrt(n_i * Q * (1 - Q)) + 12 + 2 * slack * n_i
        if (dev > bound).any():
            i, j = np.argwhere(dev > bound)[0]
            raise core.Violation("wrong-frequency", f"{what}: {int(cnt[i, j])} of {int(n_i[i, 0])} transitions from {i} go to {j}, probability {Q[i, j]}")
        ctx.probe("frequency-tests", k * k)
        # increments are martingale differences, independent across paths and dates
        for j in range(min(k, 3)) if k < 50 else (0, k // 2):
            q = Q[idx[:-1], j]
            e = (idx[1:] == j) - q
            v = q * (1 - q)
            T, N = e.shape
            for n in range(min(N - 1, 8)):
                var = (v[:, n] * v[:, n + 1]).sum()
                c = (e[:, n] * e[:, n + 1]).sum()
                ctx.probe("independence-tests")
                if abs(c) > 8 * np.sqrt(var) + 12:
                    raise core.Violation("paths-dependent", f"{what}: paths {n} and {n + 1} move together (correlation of moves to state {j}: {c / max(var ** 0.5, 1e-9):.1f} standard errors)")
            # moves of all paths at one date: their sum has the variance of independent moves
            if N > 1:
                d = e.sum(axis=1) ** 2 - (e ** 2).sum(axis=1)
                tot = v.sum(axis=1)
                ctx.probe("independence-tests")
                if abs(d.sum()) > 8 * np.sqrt(2 * (tot ** 2).sum()) + 64 * tot.max() + 12:
                    raise core.Violation("paths-dependent", f"{what}: paths move together (moves to state {j}: the sum over paths has variance {(e.sum(axis=1) ** 2).mean():.3g}, {(e ** 2).sum(axis=1).mean():.3g} when independent)")
            c = (e[1:] * e[:-1]).sum()
            var = (e[:-1] ** 2 * v[1:]).sum()
            if abs(c) > 8 * np.sqrt(var) + 12:
                raise core.Violation("dates-dependent", f"{what}: successive moves are correlated ({c / max(var ** 0.5, 1e-9):.1f} standard errors)")


CHECK = C09()
