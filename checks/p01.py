"""P01: exact sampling of projection DPPs."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gens, laws
from pbt.branch import Unsupported, walk
from pbt.core import Facet, Violation, derive, sut
from pbt.stats import check_mean

RULE = ("A case is a projection kernel (basis structure, rank, parametrization) and a sampling mode; it is non-trivial when "
        "0 < rank < N, i.e. the law is not a point mass.")
ASSUMPTIONS = ["Exact enumeration replaces numpy's generator by one whose draws branch; draws themselves are trusted.",
               "Kernels with N <= 5 are enumerated completely; for larger N single paths are checked against det(K_S)/r!."]

MODES = {"K": ["GS", "Chol", "Schur"], "K_eig_dec": ["GS", "GS_bis", "KuTa12", "Chol", "Schur"],
         "K_eig_thin": ["GS", "GS_bis", "KuTa12", "Chol", "Schur"], "A_zono": ["GS", "GS_bis", "KuTa12", "Chol", "Schur"]}


def target(K, r):
    t = {S: v for S, v in laws.law_from_K(K).items() if len(S) == r}
    z = sum(t.values())
    return {S: v / z for S, v in t.items()}


@st.composite
def obj_case(draw, nmax=4, nmin=1):
    c = draw(gens.projection_case(nmax=nmax, nmin=nmin))
    c["mode"] = draw(st.sampled_from(MODES[c["param"]]))
    return c


def run_obj(c):
    b = gens.build_projection(c)
    N, r, K = c["N"], c["r"], b[3]
    with sut("building a valid projection DPP"):
        gens.make_dpp(b)

    def draw(rng):
        d = gens.make_dpp(b)
        return laws.as_set(d.sample_exact(mode=c["mode"], random_state=rng), N)
    n = laws.check_law(draw, target(K, r), "sample_exact(%s) of a projection DPP (%s)" % (c["mode"], c["param"]), c)
    return {"nontrivial": 0 < r < N, "execs": n, "tag": c["param"] + "/" + c["mode"]}


DIRECT = ["kernel:GS", "kernel:Chol", "kernel:Schur", "eig:GS", "eig:GS_bis", "eig:KuTa12", "chol_factor", "chol_complex"]


@st.composite
def direct_case(draw, nmax=4, nmin=1):
    c = draw(gens.projection_case(nmax=nmax, params=("K",), nmin=nmin))
    c["fn"] = draw(st.sampled_from(DIRECT))
    c["pass_size"] = draw(st.booleans())
    return c


def direct_fn(c):
    """-> (draw(rng) -> list, K)"""
    from dppy import exact_sampling as es
    N, r = c["N"], c["r"]
    Q = gens.orth(N, c["basis"], c["seed"])
    V = Q[:, :r]
    K = gens.sym(V.dot(V.T))
    size = r if (c["pass_size"] and r) else None
    fn = c["fn"]
    if fn == "chol_complex":
        rng = np.random.RandomState(c["seed"])
        ph = np.exp(2j * np.pi * rng.rand(N))
        W = np.linalg.qr(V + 0.7j * rng.randn(N, r) * (np.abs(V) > 1e-9))[0][:, :r] if r else V.astype(complex)
        W = ph[:, None] * W
        K = W.dot(W.conj().T)
        K = (K + K.conj().T) / 2
    if fn.startswith("chol_"):
        def f(rng):
            s, T = es.proj_dpp_sampler_kernel_Chol(K.copy(), size, rng)
            T = np.tril(np.asarray(T))
            if T.shape != (len(s), len(s)) or (len(s) and not np.allclose(T.dot(T.conj().T), K[np.ix_(s, s)], atol=1e-7)):
                raise Violation("the factor returned with sample %r is not a Cholesky factor of K restricted to it" % (s,))
            return s
        return f, K
    kind, mode = fn.split(":")
    if kind == "kernel":
        return (lambda rng: es.proj_dpp_sampler_kernel(K.copy(), mode, size, random_state=rng)), K
    return (lambda rng: es.proj_dpp_sampler_eig(V.copy(), mode, size, random_state=rng)), K


def run_direct(c):
    f, K = direct_fn(c)
    N, r = c["N"], c["r"]

    def draw(rng):
        return laws.as_set(f(rng), N)
    n = laws.check_law(draw, target(K.real if c["fn"] != "chol_complex" else K, r) if c["fn"] != "chol_complex" else target_c(K, r),
                       c["fn"], c)
    return {"nontrivial": 0 < r < N, "execs": n, "tag": c["fn"]}


def target_c(K, r):
    import itertools
    t = {S: max(np.linalg.det(K[np.ix_(S, S)]).real, 0.) if S else 1. for S in itertools.combinations(range(len(K)), r)}
    z = sum(t.values())
    return {S: v / z for S, v in t.items()}


# ---- larger kernels: probability of single paths
@st.composite
def big_case(draw, nmin=6, nmax=40):
    if draw(st.booleans()):
        c = draw(obj_case(nmax=nmax, nmin=nmin))
    else:
        c = draw(direct_case(nmax=nmax, nmin=nmin))
    c["r"] = min(c["r"], draw(st.sampled_from([12, 12, 16, 24])))
    c["how"] = draw(st.sampled_from(["typical", "rare", "uniform"]))
    return c


def big_fn(c):
    if "mode" in c:
        b = gens.build_projection(c)
        return (lambda rng: gens.make_dpp(b).sample_exact(mode=c["mode"], random_state=rng)), b[3]
    return direct_fn(c)


suspicious = [0]


def run_big(c):
    f, K = big_fn(c)
    N, r = c["N"], c["r"]
    prng = np.random.RandomState(c["seed"] + 31)

    rel = [1.0]

    def pick(p):
        # at least as probable as 1e-4 relative to the likeliest path (below, rounding errors legitimately dominate)
        p = np.asarray(p, float)
        q = np.where(rel[0] * p / p.max() > 1e-4, p, 0.0)
        if c["how"] == "typical":
            i = int(prng.choice(len(p), p=q / q.sum()))
        elif c["how"] == "rare":
            i = int(np.argmin(np.where(q > 0, q, np.inf)))
        else:
            i = int(prng.choice(np.flatnonzero(q > 0)))
        rel[0] *= p[i] / p.max()
        return i
    n, bad = 0, None
    for _ in range(3):
        rel[0] = 1.0
        try:
            with sut("drawing a sample along one path of random outcomes"):
                s, p = walk(f, pick)
        except Unsupported:
            bad = "unsupported"
            break
        n += 1
        S = laws.as_set(s, N)
        if len(S) != r:
            raise Violation("sample of size %d from a projection kernel of rank %d" % (len(S), r))
        s = list(s)
        ref = np.linalg.slogdet(K[np.ix_(s, s)])[1].real - math.lgamma(r + 1) if r else 0.0
        if not abs(math.log(max(p, 1e-300)) - ref) < 1e-5:
            bad = "ordered path %r has probability %.6g instead of %.6g" % (s, p, math.exp(ref))
            break
    if bad:
        # another order of decisions may be legitimate: decide on the law (pair and single inclusion probabilities)
        iu = np.triu_indices(N, 1)
        d = np.diag(K).real
        pair = (np.outer(d, d) - np.abs(K) ** 2)[iu]
        keep = np.argsort(-np.minimum(pair, 1 - pair))[:60]

        def stat(rng, m):
            X = np.zeros((m, N))
            for i in range(m):
                X[i, list(laws.as_set(f(rng), N))] = 1
            P = X[:, iu[0][keep]] * X[:, iu[1][keep]]
            return np.hstack([X, P, X.sum(1)[:, None]])
        suspicious[0] += 1
        with sut("sampling"):
            check_mean(stat, np.concatenate([d, pair[keep], [r]]), 1500 if N > 40 or suspicious[0] > 4 else 12000, derive("p01big", c["seed"]),
                       "inclusion probabilities (%s)" % bad, atol=2e-4)
        n += 1500
    return {"nontrivial": 0 < r < N, "execs": n, "tag": c.get("mode") or c["fn"]}


FACETS = [
    Facet("object", obj_case, run_obj, 4000, 40000, "law of FiniteDPP.sample_exact enumerated, N<=4"),
    Facet("object5", lambda: obj_case(nmax=6, nmin=5), run_obj, 300, 4000, "the same with 5<=N<=6"),
    Facet("direct", direct_case, run_direct, 4000, 40000, "law of the low-level samplers enumerated, Cholesky factor checked on every path"),
    Facet("hundreds", lambda: big_case(257, 300), run_big, 240, 3000, "the same, 257<=N<=300", cpu_limit=200),
    Facet("large", big_case, run_big, 9000, 60000, "6<=N<=40, rank<=24: probability of sampled ordered paths against det(K_S)/r!"),
]
