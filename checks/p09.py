"""P09: MCMC trajectories."""
import itertools
import time

import numpy as np
from hypothesis import strategies as st

from pbt import gens, laws
from pbt.core import Facet, Violation, must_raise, sut

RULE = ("A case is a kernel, a chain type, an initial state or the default one, a length, a seed and possibly a time budget; it is non-trivial "
        "when the trajectory visits at least two different states (time budget: when the budget actually stops the run).")
ASSUMPTIONS = ["Initial states are lists of positive probability; time is simulated by a clock that advances with the random draws of the sampler, "
               "installed in the time module for the duration of the call.",
               "The default initialization may refuse with its own ValueError when a random set of the requested size is rarely admissible; it must "
               "not when its failure probability, computed from the minors, is below 1e-12."]


@st.composite
def chain_case(draw, nmax=9):
    N = draw(gens.sizes(1, nmax))
    mode = draw(st.sampled_from(["AED", "AD", "E", "Ek", "Eproj"]))
    c = {"N": N, "seed": draw(gens.seeds()), "basis": draw(st.sampled_from(gens.BASES)), "mode": mode}
    if mode == "Eproj":
        c["r"] = draw(st.integers(0 if N == 0 else 1, N))
        c["param"] = draw(st.sampled_from(["K", "K_eig_dec", "K_eig_thin", "A_zono"]))
    else:
        e = draw(st.sampled_from([st.floats(0.1, 10).map(lambda x: round(x, 3)), st.sampled_from([0.0, 0.5, 1.0, 4.0]), st.just(1.0)]))
        c["eig"] = draw(st.lists(e, min_size=N, max_size=N))
        c["param"] = draw(st.sampled_from(["L", "L_eig_dec", "K", "L_gram_factor"]))
        c["k"] = draw(st.integers(0, N))
    c["init"] = draw(st.sampled_from(["given", "given", "default"]))
    c["nb"] = draw(st.sampled_from([1, 2, 3, 10, 30, None, 60]))
    c["again"] = draw(st.booleans())
    c["fresh"] = draw(st.booleans())
    return c


@st.composite
def big_chain_case(draw):
    N = draw(gens.sizes(10, 45))
    mode = draw(st.sampled_from(["AED", "AD", "E", "Ek", "Eproj"]))
    c = {"N": N, "seed": draw(gens.seeds()), "basis": draw(st.sampled_from(gens.BASES)), "mode": mode, "big": True}
    if mode == "Eproj":
        c["r"] = draw(st.integers(1, N))
        c["param"] = draw(st.sampled_from(["K", "K_eig_dec", "K_eig_thin", "A_zono"]))
    else:
        lo, hi = draw(st.sampled_from([(0.5, 4), (1, 1), (1, 30), (0.05, 1)]))
        c["eig"] = [round(float(x), 4) for x in np.random.RandomState(c["seed"] + 3).uniform(lo, hi, N)]
        c["param"] = draw(st.sampled_from(["L", "L_eig_dec", "K", "L_gram_factor"]))
        c["k"] = draw(st.integers(0, N))
    c["init"] = draw(st.sampled_from(["given", "given", "default"]))
    c["nb"] = draw(st.one_of(st.none(), st.integers(1, 300)))
    c["again"], c["fresh"] = draw(st.booleans()), draw(st.booleans())
    return c


@st.composite
def long_chain_case(draw):
    """long trajectories of small states among many items"""
    N = draw(st.sampled_from([46, 64, 100, 127, 128, 129, 180, 255, 256, 257, 258, 300, 400]))
    mode = draw(st.sampled_from(["AED", "AD", "E", "Ek", "Eproj"]))
    c = {"N": N, "seed": draw(gens.seeds()), "basis": draw(st.sampled_from(gens.BASES)), "mode": mode, "big": True, "long": True}
    if mode == "Eproj":
        c["r"] = draw(st.integers(1, 10))
        c["param"] = draw(st.sampled_from(["K", "K_eig_dec", "K_eig_thin", "A_zono"]))
    else:
        top = 1.0 if mode[0] == "E" else draw(st.sampled_from([3.0, 10.0])) / N
        c["eig"] = [float("%.4g" % x) for x in top * np.random.RandomState(c["seed"] + 3).uniform(0.3, 1, N)]
        c["param"] = draw(st.sampled_from(["L", "L_eig_dec", "K", "L_gram_factor"]))
        c["k"] = draw(st.integers(1, 10))
    c["init"] = draw(st.sampled_from(["given", "given", "given", "default"]))
    c["nb"] = draw(st.sampled_from([301, 500, 999, 1000, 1001, 1024, 2000, 3000]))
    c["again"], c["fresh"] = False, draw(st.integers(0, 3)) == 0
    return c


def build(c):
    N = c["N"]
    if c["mode"] == "Eproj":
        kt, pr, params, M = gens.build_projection(dict(c))
        return (kt, pr, params), M
    e = np.array(c["eig"])
    Q = gens.orth(N, c["basis"], c["seed"])
    M = gens.sym((Q * e).dot(Q.T))
    p = c["param"]
    if p == "L":
        return ("likelihood", False, {"L": M.copy()}), M
    if p == "L_eig_dec":
        return ("likelihood", False, {"L_eig_dec": (e, Q)}), M
    if p == "K":
        return ("correlation", False, {"K": gens.sym((Q * (e / (1 + e))).dot(Q.T))}), M
    return ("likelihood", False, {"L_gram_factor": (Q * np.sqrt(e)).T.copy()}), M


def minor(M, S):
    S = list(S)
    return float(np.linalg.det(M[np.ix_(S, S)])) if S else 1.0


def size_of(c):
    return c["r"] if c["mode"] == "Eproj" else c["k"] if c["mode"] in ("E", "Ek") else None


def admissible_fraction(c, M, k):
    """probability that a uniformly chosen set of size k is admissible with a comfortable margin"""
    if len(M) > 12:
        rng = np.random.RandomState(1)
        return np.mean([minor(M, rng.permutation(len(M))[:k]) > 1e-7 for _ in range(150)])
    sets = list(itertools.combinations(range(len(M)), k))
    if len(sets) > 150:
        idx = np.random.RandomState(1).permutation(len(sets))[:150]
        sets = [sets[i] for i in idx]
    return np.mean([minor(M, S) > 1e-7 for S in sets])


def start_state(c, M, rng):
    k = size_of(c)
    if c.get("big") and k is not None:
        import scipy.linalg as la
        return la.qr(M * (0.3 + rng.rand(c["N"])), pivoting=True, mode="r")[1][:k].tolist()
    if c.get("long"):                    # sets of at most ten items, spread out
        return rng.permutation(c["N"])[:rng.randint(0, 11)].tolist()
    for _ in range(200):
        m = k if k is not None else rng.randint(0, c["N"] + 1)
        S = rng.permutation(c["N"])[:m].tolist()
        if minor(M, S) > 1e-6:
            return S
    return None


def call(d, c, **kw):
    k = size_of(c)
    if c["mode"] == "Ek":
        return d.sample_mcmc_k_dpp(size=k, **kw)
    if k is not None:
        kw["size"] = k
    return d.sample_mcmc(c["mode"][0] if c["mode"][0] == "E" else c["mode"], **kw)


def check_chain(c, M, chain, n, start=None):
    N, k = c["N"], size_of(c)
    if not isinstance(chain, list) or (n is not None and len(chain) != n):
        raise Violation("trajectory of length %r instead of %r" % (len(chain), n))
    sets = [laws.as_set(s, N, "state") for s in chain]
    if start is not None and sets[0] != tuple(sorted(start)):
        raise Violation("the trajectory starts at %r instead of %r" % (sets[0], start))
    diag = np.abs(np.diag(M))
    seen = set()
    for i, S in enumerate(sets):
        if k is not None and len(S) != k:
            raise Violation("state %r has size %d instead of %d" % (S, len(S), k))
        if S and S not in seen and minor(M, S) <= 1e-11 * np.prod(diag[list(S)]):
            raise Violation("state %r has probability zero (minor %.3g)" % (S, minor(M, S)))
        seen.add(S)
        if i:
            A, B = set(sets[i - 1]), set(S)
            if A == B:
                continue
            up, dn = len(B - A), len(A - B)
            ok = {"AED": [(1, 0), (0, 1), (1, 1)], "AD": [(1, 0), (0, 1)]}.get(c["mode"], [(1, 1)])
            if (up, dn) not in ok:
                raise Violation("%s chain moves from %r to %r" % (c["mode"], sets[i - 1], S))
    return sets


def run_chain(c):
    with sut("building the DPP"):
        b, M = build(c)
        d = gens.make_dpp(b)
    N = c["N"]
    rng = np.random.RandomState(c["seed"])
    k = size_of(c)
    execs, seen = 0, set()
    for rep in range(2 if c["again"] else 1):
        kw = {"random_state": c["seed"] + rep}
        start = None
        if c["init"] == "given":
            start = start_state(c, M, rng)
            if start is None:
                return {"nontrivial": False, "execs": execs, "tag": "no start"}
            kw["s_init"] = list(start)
        if c["nb"] is not None:
            kw["nb_iter"] = c["nb"]
        n = c["nb"] or 10
        before = [list(map(list, x)) for x in d.list_of_samples]
        s_in = kw.get("s_init")
        try:
            out = call(d, c, **kw)
        except ValueError as e:
            if start is None and "Initialization" in str(e):
                if len(d.list_of_samples) != len(before):
                    raise Violation("a refused call changed the list of samples")
                if k is None:
                    f = min(np.mean([minor(M, rng.permutation(N)[:rng.randint(1, N + 1)]) > 1e-7 for _ in range(80)]), 1)
                else:
                    f = admissible_fraction(c, M, k)
                if f > 0.3:
                    raise Violation("default initialization fails (%s) although a fraction %.2f of the sets is admissible" % (str(e)[:80], f))
                return {"nontrivial": False, "execs": 1, "tag": "refused"}
            raise Violation("%s chain raised ValueError: %s" % (c["mode"], e))
        except Exception as e:
            raise Violation("%s chain raised %s: %s" % (c["mode"], type(e).__name__, e))
        execs += 1
        if start is not None and s_in != start:
            raise Violation("the caller's initial state %r became %r" % (start, s_in))
        if len(d.list_of_samples) != len(before) + 1:
            raise Violation("%d entries in list_of_samples after %d runs" % (len(d.list_of_samples), len(before) + 1))
        chain = d.list_of_samples[-1]
        sets = check_chain(c, M, chain, n, start)
        seen.update(sets)
        if list(out) != list(chain[-1]):
            raise Violation("the call returned %r, the trajectory ends at %r" % (out, chain[-1]))
        if [list(map(list, x)) for x in d.list_of_samples[:-1]] != before:
            raise Violation("earlier trajectories were modified")
        if c["fresh"]:
            # continue from the last state, in a new object
            last = [int(x) for x in chain[-1]]
            d2 = gens.make_dpp(b)
            with sut("run continued from the last state"):
                call(d2, c, **dict(kw, s_init=list(last)))
            seen.update(check_chain(c, M, d2.list_of_samples[-1], n, last))
            execs += 1
    return {"nontrivial": len(seen) > 1, "execs": execs, "tag": c["mode"]}


# ---- time budgets
class Clock(object):
    """time advances with the draws of the generator"""

    def __init__(self, t0):
        self.t, self.t0 = 0, t0


class CountingRNG(np.random.RandomState):
    pass


def _wrap(name):
    f = getattr(np.random.RandomState, name)

    def g(self, *a, **k):
        self.clock.t += 1
        return f(self, *a, **k)
    g.__name__ = name
    return g


for _m in ("rand", "choice", "randint", "random_sample", "uniform", "permutation", "shuffle", "randn", "standard_normal", "normal", "binomial"):
    setattr(CountingRNG, _m, _wrap(_m))


class fake_time(object):
    NAMES = ("time", "perf_counter", "monotonic", "process_time")

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in self.NAMES}
        c = self.clock
        for n in self.NAMES:
            setattr(time, n, lambda: c.t0 + float(c.t))

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(time, n, f)
        return False


@st.composite
def budget_case(draw):
    c = draw(chain_case(6))
    c["nb"] = draw(st.integers(2, 40))
    c["init"] = "given"
    c["T"] = draw(st.one_of(st.integers(1, 60), st.just(10 ** 6), st.floats(0.5, 40).map(lambda x: round(x, 2)), st.just(1e-3)))
    c["t0"] = draw(st.sampled_from([0.0, 1e3, 1.7e9]))
    return c


def run_budget(c):
    with sut("building the DPP"):
        b, M = build(c)
        d = gens.make_dpp(b)
    start = start_state(c, M, np.random.RandomState(c["seed"]))
    if start is None:
        return {"nontrivial": False, "execs": 0, "tag": "no start"}

    def go(n, T):
        clock = Clock(c["t0"])
        rng = CountingRNG(c["seed"])
        rng.clock = clock
        kw = {"s_init": list(start), "nb_iter": n, "random_state": rng}
        if T is not None:
            kw["T_max"] = T
        with sut("run with T_max=%r" % (T,)), fake_time(clock):
            call(d, c, **kw)
        ch = d.list_of_samples[-1]
        return ch, clock.t
    n = c["nb"]
    full, _ = go(n, None)
    cost = [go(j, None)[1] for j in range(1, n + 1)]       # cost[j-1]: clock when a chain of j states is complete
    exp = n
    for j in range(2, n + 1):
        if cost[j - 1] > c["T"]:
            exp = j
            break
    got, t = go(n, c["T"])
    check_chain(c, M, got, None, start)
    if [tuple(x) for x in got] != [tuple(x) for x in full[:len(got)]]:
        raise Violation("with T_max=%r the trajectory %r is not the beginning of %r" % (c["T"], got, full))
    if len(got) < exp:
        raise Violation("T_max=%r stops the run after %d states, when %g time units have elapsed" % (c["T"], len(got), t))
    if len(got) > min(exp + 1, n):
        raise Violation("T_max=%r does not stop the run: %d states, %g time units elapsed; it was exceeded after %d states" % (c["T"], len(got), t, exp))
    return {"nontrivial": exp < n, "execs": n + 2, "tag": c["mode"] + ("/stopped" if exp < n else "/complete")}


# ---- refusals
@st.composite
def bad_case(draw):
    c = draw(chain_case(6))
    c["bad"] = draw(st.sampled_from(["mode", "proj_size", "proj_aed", "size>N", "size>rank", "negative", "zono"]))
    return c


def run_bad(c):
    b, M = build(c)
    d = gens.make_dpp(b)
    N, rank = c["N"], int(np.linalg.matrix_rank(M, tol=1e-9))
    proj = c["mode"] == "Eproj"
    kw = {"random_state": c["seed"]}
    w = c["bad"]
    if w == "mode":
        for m in ("foo", "aed", "", "GS", None):
            must_raise("sample_mcmc(%r)" % (m,), lambda: d.sample_mcmc(m, **kw))
    elif w == "zono":
        if c["param"] == "A_zono":
            return {"nontrivial": False}
        must_raise("mode zonotope without A_zono", lambda: d.sample_mcmc("zonotope", **kw))
    elif w in ("proj_size", "proj_aed") and proj:
        if w == "proj_aed":
            for m in ("AED", "AD"):
                must_raise("%s for a projection correlation kernel" % m, lambda: d.sample_mcmc(m, **kw))
        else:
            for k in range(0, N + 2):
                if k != rank:
                    must_raise("exchange chain of size %d, rank %d" % (k, rank), lambda: d.sample_mcmc_k_dpp(size=k, **kw))
                    must_raise("exchange chain of size %d, rank %d" % (k, rank), lambda: d.sample_mcmc("E", size=k, **kw))
    else:
        k = {"size>N": N + 1, "size>rank": rank + 1, "negative": -1}.get(w, N + 2)
        must_raise("exchange chain of size %d (N=%d, rank %d)" % (k, N, rank), lambda: d.sample_mcmc_k_dpp(size=k, **kw))
        must_raise("exchange chain of size %d (N=%d, rank %d)" % (k, N, rank), lambda: d.sample_mcmc("E", size=k, **kw))
    if d.list_of_samples:
        raise Violation("a refused call changed the list of samples")
    return {"nontrivial": True, "execs": 1, "tag": w}


FACETS = [
    Facet("chain", chain_case, run_chain, 10000, 100000, "trajectories"),
    Facet("many points", big_chain_case, run_chain, 600, 8000, "trajectories on 10 to 45 points, up to 300 iterations", cpu_limit=120),
    Facet("long", long_chain_case, run_chain, 150, 2500, "trajectories of 300 to 3000 states on 46 to 400 items", cpu_limit=120),
    Facet("budget", budget_case, run_budget, 1500, 15000, "time budgets with a simulated clock"),
    Facet("refusals", bad_case, run_bad, 1500, 6000, "inadmissible modes and sizes"),
]
