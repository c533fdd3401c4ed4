"""P02: exact sampling of generic finite DPPs."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gens, laws
from pbt.branch import Unsupported, walk
from pbt.core import Facet, Violation, derive, sut
from pbt.stats import check_mean

RULE = ("A case is a kernel (parametrization, basis structure, spectrum) and a sampling mode; it is non-trivial when N >= 2 and "
        "the kernel is not diagonal and at least two subsets have positive probability.")
ASSUMPTIONS = ["Exact enumeration replaces numpy's generator by one whose draws branch; draws themselves are trusted.",
               "Complete laws for N <= 5; for larger N path probabilities (LU sampler), inclusion frequencies (6.5 sigma); "
               "up to 110 items the same with Laplace functionals and the moments of the size, all known in closed form."]
MODES = ["GS", "GS_bis", "KuTa12", "Chol"]


def ref_law(K, L):
    return laws.law_from_K(K) if K is not None else laws.law_from_L(L)


@st.composite
def obj_case(draw, nmin=1, nmax=4):
    c = draw(gens.generic_case(nmin=nmin, nmax=nmax))
    c["mode"] = draw(st.sampled_from(MODES))
    return c


@st.composite
def scale_case(draw, nmin=2, nmax=4):
    """likelihood kernels of very small or very large scale, most often of low rank"""
    c = draw(gens.generic_case(nmin=nmin, nmax=nmax, params=("L", "L_eig_dec", "L_eig_thin", "L_gram_factor")))
    c["layout"] = None
    c["fail"] = 1e-6    # a numerically null eigenvalue may be selected with this probability
    x = draw(st.sampled_from([1e-9, 1e-6, 1e4, 1e6]))
    c["eig"] = [x * max(round(e, 1), 0.0) for e in c["eig"]]
    zero = draw(st.lists(st.booleans(), min_size=len(c["eig"]), max_size=len(c["eig"])))
    c["eig"] = [0.0 if z else e for z, e in zip(zero, c["eig"])]
    c["mode"] = draw(st.sampled_from(MODES))
    return c


def nontriv(K):
    return bool(len(K) >= 2 and np.abs(K - np.diag(np.diag(K))).max() > 1e-6)


def run_obj(c):
    b = gens.build_generic(c)
    N, K = c["N"], b[3]
    with sut("building a valid DPP"):
        gens.make_dpp(b)

    def draw(rng):
        d = gens.make_dpp(b)
        return laws.as_set(d.sample_exact(mode=c["mode"], random_state=rng), N)
    t = laws.law_from_K(K)
    n = laws.check_law(draw, t, "sample_exact(%s) of a DPP (%s)" % (c["mode"], c["param"]), c, tol=2e-6, fail=c.get("fail", 1e-9))
    return {"nontrivial": nontriv(K), "execs": n, "tag": c["param"] + "/" + c["mode"]}


@st.composite
def lu_case(draw, nmin=1, nmax=6):
    c = {"N": draw(gens.sizes(nmin, nmax)), "seed": draw(gens.seeds()), "skew": draw(st.sampled_from([0.0, 0.5, 1.0, 3.0])),
         "scale": draw(st.sampled_from([0.1, 0.5, 1.0, 5.0])), "rank": draw(st.integers(0, nmax)),
         "basis": draw(st.sampled_from(gens.BASES)), "signed": draw(st.booleans())}
    return c


def lu_kernel(c):
    N, rng = c["N"], np.random.RandomState(c["seed"])
    B = rng.randn(N, min(c["rank"], N)) * c["scale"]
    A = rng.randn(N, N) * c["skew"]
    L = B.dot(B.T) + (A - A.T)
    if c["signed"]:
        L = gens.orth(N, c["basis"], c["seed"]).T.dot(L).dot(gens.orth(N, c["basis"], c["seed"]))
    return L, L.dot(np.linalg.inv(np.eye(N) + L))


def run_lu(c):
    from dppy.exact_sampling import dpp_sampler_generic_kernel
    L, K = lu_kernel(c)
    N = c["N"]

    def draw(rng):
        s, _ = dpp_sampler_generic_kernel(K.copy(), rng)
        return laws.as_set(s, N)
    n = laws.check_law(draw, laws.law_from_L(L), "dpp_sampler_generic_kernel(%s kernel)" % ("non-symmetric" if c["skew"] else "symmetric"), c, tol=1e-7)
    return {"nontrivial": nontriv(K), "execs": n, "tag": "skew" if c["skew"] else "sym"}


@st.composite
def sel_case(draw):
    N = draw(st.integers(1, 6))
    m = draw(st.integers(1, N))
    return {"N": N, "m": m, "seed": draw(gens.seeds()), "p": draw(st.lists(gens.k_eig(), min_size=m, max_size=m))}


def run_sel(c):
    from dppy.exact_sampling import dpp_eig_vecs_selector
    V = gens.orth(c["N"], "haar", c["seed"])[:, :c["m"]]
    p = np.array(c["p"])

    def draw(rng):
        W = np.asarray(dpp_eig_vecs_selector(p.copy(), V.copy(), rng))
        if W.ndim != 2 or W.shape[0] != c["N"]:
            raise Violation("selected eigenvectors have shape %r" % (W.shape,))
        out = []
        for j in range(W.shape[1]):
            i = np.flatnonzero(np.all(np.abs(V - W[:, [j]]) < 1e-12, axis=0))
            if len(i) != 1:
                raise Violation("a selected column is not an eigenvector")
            out.append(int(i[0]))
        return laws.as_set(out, c["m"])
    t = {S: float(np.prod([p[i] if i in S else 1 - p[i] for i in range(c["m"])])) for S in laws.subsets(c["m"])}
    n = laws.check_law(draw, t, "eigenvector selection", c, tol=1e-9)
    return {"nontrivial": bool(np.sum((p > 0) & (p < 1)) >= 2), "execs": n}


# ---- larger kernels
@st.composite
def big_case(draw):
    c = draw(gens.generic_case(nmin=6, nmax=14))
    c["mode"] = draw(st.sampled_from(MODES))
    return c


def run_big(c):
    b = gens.build_generic(c)
    N, K, L = c["N"], b[3], b[4]
    n = 0
    if c["mode"] == "Chol":
        prng = np.random.RandomState(c["seed"])
        I = np.eye(N)
        for _ in range(6):
            def pick(p):
                p = np.maximum(np.asarray(p), 0)
                return int(prng.choice(len(p), p=p / p.sum()))
            try:
                with sut("drawing a sample along one path"):
                    s, pr = walk(lambda rng: gens.make_dpp(b).sample_exact(mode="Chol", random_state=rng), pick)
            except Unsupported:
                n = 0
                break
            n += 1
            S = laws.as_set(s, N)
            D = np.ones(N)
            D[list(S)] = 0
            ref = abs(np.linalg.det(K - np.diag(D)))
            if abs(pr - ref) > 1e-6 * ref + 1e-12:
                n = 0
                break
        if n:
            return {"nontrivial": nontriv(K), "execs": n, "tag": "Chol-path"}
        if N <= 9:  # decisions taken in another way, or a wrong law: enumerate it
            n = laws.check_law(lambda rng: laws.as_set(gens.make_dpp(b).sample_exact(mode="Chol", random_state=rng), N),
                               laws.law_from_K(K), "sample_exact(Chol) of a DPP (%s)" % c["param"], c, tol=2e-6)
            return {"nontrivial": nontriv(K), "execs": n, "tag": "Chol-law"}
    iu = np.triu_indices(N, 1)
    d = np.diag(K)
    pair = (np.outer(d, d) - K ** 2)[iu]

    def stat(rng, m):
        X = np.zeros((m, N))
        dpp = gens.make_dpp(b)
        for i in range(m):
            X[i, list(laws.as_set(dpp.sample_exact(mode=c["mode"], random_state=rng), N))] = 1
        return np.hstack([X, X[:, iu[0]] * X[:, iu[1]], X.sum(1)[:, None], X.sum(1)[:, None] ** 2])
    es2 = d.sum() ** 2 + d.sum() - (K ** 2).sum()
    with sut("sampling"):
        check_mean(stat, np.concatenate([d, pair, [d.sum(), es2]]), 1200, derive("p02big", c["seed"]), "inclusion probabilities, N=%d" % N, atol=2e-4)
    return {"nontrivial": nontriv(K), "execs": 1200, "tag": "stat/" + c["mode"]}


# ---- many items
@st.composite
def many_case(draw, nmin=15, nmax=110):
    c = draw(gens.many_case(nmin, nmax))
    c["mode"] = draw(st.sampled_from(MODES))
    return c


@st.composite
def hundreds_case(draw):
    c = draw(many_case(257, 300))
    c["mode"] = draw(st.sampled_from(["GS", "GS_bis", "Chol", "Chol"]))
    return c


def run_many(c, n=250):
    b = gens.build_generic(c)
    N, K = c["N"], b[3]
    if c["mode"] == "Chol":
        prng = np.random.RandomState(c["seed"])
        done = 0
        for _ in range(3):
            def pick(p):
                p = np.maximum(np.asarray(p), 0)
                return int(prng.choice(len(p), p=p / p.sum()))
            try:
                with sut("drawing a sample along one path"):
                    s, pr = walk(lambda rng: gens.make_dpp(b).sample_exact(mode="Chol", random_state=rng), pick)
            except Unsupported:
                done = 0
                break
            done += 1
            S = laws.as_set(s, N)
            D = np.ones(N)
            D[list(S)] = 0
            ref = abs(np.linalg.det(K - np.diag(D)))
            if abs(pr - ref) > 1e-5 * ref:
                done = 0
                break
        if done:
            return {"nontrivial": nontriv(K), "execs": done, "tag": "Chol-path"}
    d = np.clip(np.diag(K), 0, 1)
    tr, v = d.sum(), d.sum() - (K ** 2).sum()
    G = laws.tilts(N, 8, c["seed"] + 3, min(0.7, 1.0 / np.sqrt(1 + v)))
    lap = np.array([np.linalg.det(np.eye(N) - (1 - g)[:, None] * K) for g in G])
    lG = np.log(G)
    off = np.log(lap)

    def stat(rng, m):
        X = np.zeros((m, N))
        dpp = gens.make_dpp(b)
        for i in range(m):
            X[i, list(laws.as_set(dpp.sample_exact(mode=c["mode"], random_state=rng), N))] = 1
        return np.hstack([X, np.exp(X.dot(lG.T) - off), X.sum(1)[:, None] - tr, (X.sum(1)[:, None] - tr) ** 2])
    with sut("sampling"):
        check_mean(stat, np.concatenate([d, np.ones(len(G)), [0, v]]), n, derive("p02many", c["seed"]), "inclusion probabilities and Laplace functionals, N=%d" % N, confirm=5, z=4.5, z2=6.5, atol=1e-3)
    return {"nontrivial": nontriv(K), "execs": n, "tag": "stat/" + c["mode"]}


FACETS = [
    Facet("object", obj_case, run_obj, 3000, 30000, "law of FiniteDPP.sample_exact enumerated over all random outcomes, N<=4"),
    Facet("object5", lambda: obj_case(nmin=5, nmax=5), run_obj, 120, 2500, "the same with N=5"),
    Facet("scales", scale_case, run_obj, 600, 8000, "the same, likelihood kernels of scale 1e-9 to 1e8, most of low rank, N<=4"),
    Facet("lu", lu_case, run_lu, 2500, 25000, "law of dpp_sampler_generic_kernel enumerated, symmetric and non-symmetric K, N<=6"),
    Facet("lu9", lambda: lu_case(nmin=7, nmax=9), run_lu, 60, 800, "the same with 7<=N<=9"),
    Facet("selector", sel_case, run_sel, 400, 4000, "law of dpp_eig_vecs_selector"),
    Facet("large", big_case, run_big, 240, 4000, "6<=N<=14: path probability (LU) or inclusion frequencies"),
    Facet("many items", many_case, run_many, 120, 2500, "15<=N<=110: path probability (LU), inclusion probabilities, Laplace functionals", cpu_limit=300),
    Facet("hundreds", hundreds_case, lambda c: run_many(c, 80), 16, 300, "the same, 257<=N<=300", cpu_limit=600),
]
