"""P03: exact k-DPP sampling."""
import itertools
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import gens, laws
from pbt.branch import Unsupported, walk
from pbt.core import Facet, Violation, derive, must_raise, sut
from pbt.stats import check_mean

RULE = ("A case is a kernel (parametrization, basis structure, spectrum), a mode and a size k; it is non-trivial when at least two "
        "sets of size k have positive probability.")
ASSUMPTIONS = ["Exact enumeration replaces numpy's generator by one whose draws branch; draws themselves are trusted.",
               "k >= 1; kernels whose numerical rank is unambiguous: non-zero eigenvalues at least 1e-3 for complete laws, of any common magnitude for many items."]
MODES = ["GS", "GS_bis", "KuTa12"]
PARAMS = gens.K_PARAMS + gens.L_PARAMS


def rank_of(L):
    if not len(L):
        return 0
    e = np.linalg.eigvalsh(L)
    return int(np.sum(e > 1e-9 * e.max())) if e.max() > 1e-14 else 0


@st.composite
def obj_case(draw, nmin=1, nmax=4):
    c = draw(gens.generic_case(nmin=nmin, nmax=nmax, lt1=True, params=PARAMS))
    c["mode"] = draw(st.sampled_from(MODES))
    c["k"] = draw(st.integers(1, c["N"])) * draw(st.sampled_from([1] * 9 + [0]))
    return c


def run_obj(c):
    b = gens.build_generic(c)
    N, L = c["N"], b[4]
    r = rank_of(L)
    if r == 0:
        return {"nontrivial": False, "execs": 0, "tag": "zero kernel"}
    k = c["k"] and 1 + (c["k"] - 1) % r
    with sut("building a valid DPP"):
        gens.make_dpp(b)

    def draw(rng):
        d = gens.make_dpp(b)
        return laws.as_set(d.sample_exact_k_dpp(size=k, mode=c["mode"], random_state=rng), N)
    t = laws.law_k_from_L(L, k)
    n = laws.check_law(draw, t, "sample_exact_k_dpp(%d, %s) of a DPP (%s)" % (k, c["mode"], c["param"]), c, tol=2e-6)
    return {"nontrivial": sum(p > 1e-9 for p in t.values()) >= 2, "execs": n, "tag": "%s/%s" % (c["param"], c["mode"])}


@st.composite
def scale_case(draw, nmin=2, nmax=4):
    """likelihood kernels of very small or very large scale, often of low rank"""
    c = draw(gens.generic_case(nmin=nmin, nmax=nmax, params=("L", "L_eig_dec", "L_eig_thin", "L_gram_factor")))
    c["layout"] = None
    x = draw(st.sampled_from([1e-9, 1e-6, 1e4, 1e6]))
    zero = draw(st.lists(st.booleans(), min_size=len(c["eig"]), max_size=len(c["eig"])))
    c["eig"] = [0.0 if z else x * max(e, 0.1) for z, e in zip(zero, c["eig"])]
    c["mode"] = draw(st.sampled_from(MODES))
    c["k"] = draw(st.integers(1, c["N"]))
    return c


# ---- projection kernels
PROJ = {"K": ["GS", "Chol", "Schur"], "K_eig_dec": MODES, "K_eig_thin": MODES, "A_zono": MODES,
        "L": ["GS", "Chol", "Schur"], "L_eig_dec": MODES, "L_eig_thin": MODES, "L_gram_factor": ["GS", "Chol", "Schur"]}


@st.composite
def proj_case(draw, nmin=1, nmax=4):
    param = draw(st.sampled_from(sorted(PROJ)))
    kp = param if param in ("K", "K_eig_dec", "K_eig_thin", "A_zono") else {"L": "K", "L_eig_dec": "K_eig_dec", "L_eig_thin": "K_eig_thin", "L_gram_factor": "A_zono"}[param]
    c = draw(gens.projection_case(nmin=nmin, nmax=nmax, params=(kp,)))
    c["orig"] = c.pop("param")
    c["param"] = param
    c["mode"] = draw(st.sampled_from(PROJ[param]))
    c["k"] = draw(st.integers(1, nmax))
    return c


def build_proj(c):
    cc = dict(c, param=c["orig"], cond=0)
    kt, pr, params, K = gens.build_projection(cc)
    if c["param"] in ("K", "K_eig_dec", "K_eig_thin", "A_zono"):
        return (kt, pr, params, K)
    if c["param"] == "L_gram_factor":
        return ("likelihood", True, {"L_gram_factor": params["A_zono"]}, K)
    key = list(params)[0]
    return ("likelihood", True, {key.replace("K", "L"): params[key]}, K)


def run_proj(c):
    b = build_proj(c)
    N, r, K = c["N"], c["r"], b[3]
    corr = b[0] == "correlation"
    k = r if corr else 1 + (c["k"] - 1) % max(r, 1)
    if r == 0 or (corr and r == 0):
        return {"nontrivial": False, "execs": 0}
    with sut("building a valid projection DPP"):
        gens.make_dpp(b)

    def draw(rng):
        d = gens.make_dpp(b)
        return laws.as_set(d.sample_exact_k_dpp(size=k, mode=c["mode"], random_state=rng), N)
    t = laws.law_k_from_L(K, k)
    n = laws.check_law(draw, t, "sample_exact_k_dpp(%d, %s) of a projection DPP (%s, rank %d)" % (k, c["mode"], c["param"], r), c)
    return {"nontrivial": sum(p > 1e-9 for p in t.values()) >= 2, "execs": n, "tag": "%s/%s" % (c["param"], c["mode"])}


# ---- sizes that cannot be served
@st.composite
def refuse_case(draw):
    if draw(st.booleans()):
        c = draw(proj_case(nmin=1, nmax=6))
        c["kind"] = "proj"
    else:
        c = draw(gens.generic_case(nmin=1, nmax=7, lt1=True, params=PARAMS))
        c["mode"] = draw(st.sampled_from(MODES))
        c["kind"] = "generic"
    c["excess"] = draw(st.integers(1, 4))
    c["below"] = draw(st.booleans())
    return c


def run_refuse(c):
    N = c["N"]
    if c["kind"] == "proj":
        b = build_proj(c)
        r = c["r"]
        k = r + c["excess"]
        if b[0] == "correlation" and c["below"] and r > 1:
            k = max(1, r - c["excess"])
    else:
        b = gens.build_generic(c)
        r = rank_of(b[4])
        exact = c["param"] in ("K_eig_dec", "L_eig_dec", "L_eig_thin") or (c["param"] in ("K", "L") and c["basis"] == "diag") \
            or (c["param"] == "L_gram_factor" and c.get("layout") != "int" and c["d"] < N and np.all(np.array(c["eig"]) > 0))
        # the numerical rank of a matrix given in floating point is only unambiguous in the cases above
        k = (r if exact else N) + c["excess"]
    with sut("building a valid DPP"):
        d = gens.make_dpp(b)
    n0 = len(d.list_of_samples)
    for t in range(2):
        must_raise("sample_exact_k_dpp(size=%d) for a kernel of rank %d (%s)" % (k, r, c["param"]),
                   lambda: d.sample_exact_k_dpp(size=k, mode=c["mode"], random_state=np.random.RandomState(c["seed"] + t)))
    if len(d.list_of_samples) != n0:
        raise Violation("a refused size left a sample in the list of samples")
    return {"nontrivial": r >= 1, "execs": 2, "tag": c["kind"] + "/" + c["param"]}


# ---- low level
@st.composite
def low_case(draw):
    c = {"N": draw(gens.sizes(1, 5)), "seed": draw(gens.seeds()), "basis": draw(st.sampled_from(gens.BASES)),
         "fn": draw(st.sampled_from(["selector", "selector", "kernel:GS", "kernel:Chol", "kernel:Schur", "eig:GS", "eig:GS_bis", "eig:KuTa12"]))}
    c["r"] = draw(st.integers(1, c["N"]))
    c["k"] = draw(st.integers(1, c["r"]))
    c["eig"] = draw(st.lists(gens.l_eig(), min_size=c["r"], max_size=c["r"]))
    c["E"] = draw(st.sampled_from([None, 0, 1, 2]))
    return c


def run_low(c):
    from dppy import exact_sampling as es
    N, r, k = c["N"], c["r"], c["k"]
    V = gens.orth(N, c["basis"], c["seed"])[:, :r]
    if c["fn"] == "selector":
        e = np.array(c["eig"])
        rk = int(np.sum(e > 0))
        if rk == 0:
            return {"nontrivial": False, "execs": 0}
        k = 1 + (k - 1) % rk
        E = None if c["E"] is None else es.elementary_symmetric_polynomials(e, k + c["E"])

        def draw(rng):
            W = np.asarray(es.k_dpp_eig_vecs_selector(e.copy(), V.copy(), k, E_poly=E, random_state=rng))
            if W.shape != (N, k):
                raise Violation("selected eigenvectors have shape %r instead of %r" % (W.shape, (N, k)))
            out = [int(np.flatnonzero(np.all(np.abs(V - W[:, [j]]) < 1e-12, axis=0))[0]) for j in range(k)]
            return laws.as_set(out, r)
        t = laws.law_k_from_L(np.diag(e), k)
    else:
        kind, mode = c["fn"].split(":")
        K = gens.sym(V.dot(V.T))
        if kind == "kernel":
            f = lambda rng: es.proj_dpp_sampler_kernel(K.copy(), mode, k, random_state=rng)
        else:
            f = lambda rng: es.proj_dpp_sampler_eig(V.copy(), mode, k, random_state=rng)

        def draw(rng):
            return laws.as_set(f(rng), N)
        t = laws.law_k_from_L(K, k)
    n = laws.check_law(draw, t, "%s, k=%d of rank %d" % (c["fn"], k, r), c)
    return {"nontrivial": sum(p > 1e-9 for p in t.values()) >= 2, "execs": n, "tag": c["fn"]}


# ---- larger kernels
@st.composite
def big_case(draw):
    c = draw(gens.generic_case(nmin=6, nmax=11, lt1=True, params=PARAMS))
    c["mode"] = draw(st.sampled_from(MODES))
    c["k"] = draw(st.integers(1, 5))
    return c


def run_big(c):
    b = gens.build_generic(c)
    N, L = c["N"], b[4]
    r = rank_of(L)
    if r == 0:
        return {"nontrivial": False, "execs": 0}
    k = 1 + (c["k"] - 1) % r
    t = laws.law_k_from_L(L, k)
    iu = np.triu_indices(N, 1)
    S = list(t)
    p = np.array([t[s] for s in S])
    X0 = np.zeros((len(S), N))
    for i, s in enumerate(S):
        X0[i, list(s)] = 1
    F = np.hstack([X0, X0[:, iu[0]] * X0[:, iu[1]]])
    mean = p.dot(F)

    def stat(rng, m):
        X = np.zeros((m, N))
        dpp = gens.make_dpp(b)
        for i in range(m):
            s = laws.as_set(dpp.sample_exact_k_dpp(size=k, mode=c["mode"], random_state=rng), N)
            if len(s) != k:
                raise Violation("sample of size %d instead of %d" % (len(s), k))
            X[i, list(s)] = 1
        return np.hstack([X, X[:, iu[0]] * X[:, iu[1]]])
    with sut("sampling a k-DPP"):
        check_mean(stat, mean, 1000, derive("p03big", c["seed"]), "inclusion probabilities of the %d-DPP, N=%d" % (k, N), atol=2e-4)
    return {"nontrivial": k < r, "execs": 1000, "tag": c["param"] + "/" + c["mode"]}


# ---- selection of many eigenvectors: probability of single paths
@st.composite
def bigsel_case(draw, lo=6, hi=40, scales=(-3, 0, 0, 1, 4)):
    n = draw(st.integers(lo, hi))
    c = {"n": n, "k": draw(st.integers(1, n)), "seed": draw(gens.seeds()), "spread": draw(st.sampled_from([0.0, 0.3, 1.0, 2.0])), "scale": draw(st.sampled_from(list(scales))),
         "zeros": draw(st.integers(0, 3)), "E": draw(st.sampled_from([None, None, 0, 2])) if hi <= 40 else None, "how": draw(st.sampled_from(["typical", "uniform"]))}
    return c


def bigsel_eig(c):
    rng = np.random.RandomState(c["seed"])
    e = 10.0 ** (c["scale"] + c["spread"] * rng.randn(c["n"]))
    e[rng.permutation(c["n"])[:min(c["zeros"], c["n"] - c["k"])]] = 0.0
    return e


def esp(e, k):
    """k-th elementary symmetric polynomial, exactly"""
    E = [Fraction(1)] + [Fraction(0)] * k
    for x in e:
        x = Fraction(float(x))
        for j in range(k, 0, -1):
            E[j] += x * E[j - 1]
    return E[k]


def run_bigsel(c):
    from dppy import exact_sampling as es
    n, k = c["n"], c["k"]
    e = bigsel_eig(c)
    V = np.eye(n)
    prng = np.random.RandomState(c["seed"] + 1)

    def f(rng):
        E = None if c["E"] is None else es.elementary_symmetric_polynomials(e, k + c["E"])
        W = np.asarray(es.k_dpp_eig_vecs_selector(e.copy(), V.copy(), k, E_poly=E, random_state=rng))
        if W.shape != (n, k):
            raise Violation("selected eigenvectors have shape %r instead of %r" % (W.shape, (n, k)))
        return laws.as_set([int(j) for j in np.argmax(W, axis=0)], n)
    tot = esp(e, k)

    def pick(p):
        p = np.asarray(p, float)
        q = np.where(p > 0.02, p, 0.0) if c["how"] == "uniform" else p
        return int(prng.choice(np.flatnonzero(q > 0))) if c["how"] == "uniform" else int(prng.choice(len(q), p=q / q.sum()))
    bad, m = None, 0
    for _ in range(4):
        try:
            with sut("k_dpp_eig_vecs_selector along one path"):
                S, p = walk(f, pick)
        except Unsupported:
            bad = "unsupported"
            break
        m += 1
        if any(e[i] == 0 for i in S):
            raise Violation("an eigenvector of eigenvalue 0 was selected")
        ref = Fraction(1)
        for i in S:
            ref *= Fraction(float(e[i]))
        ref = float(ref / tot)
        if abs(p - ref) > 1e-7 * ref + 1e-13:
            bad = "selection %r has probability %.9g instead of %.9g" % (S, p, ref)
            break
    if bad:
        # another way of taking the decisions may be legitimate: decide on frequencies
        inc = np.array([float(Fraction(float(e[i])) * esp(np.delete(e, i), k - 1) / tot) for i in range(n)])

        def stat(rng, size):
            X = np.zeros((size, n))
            for t in range(size):
                X[t, list(f(rng))] = 1
            return X
        with sut("k_dpp_eig_vecs_selector"):
            check_mean(stat, inc, 8000, derive("p03sel", c["seed"]), "selection of eigenvectors, k=%d, n=%d (%s)" % (k, n, bad), atol=1e-4)
        m += 8000
    return {"nontrivial": 1 <= k < n, "execs": m, "tag": "path" if not bad else "frequencies"}


def run_manysel(c):
    """as run_bigsel, references in the log domain"""
    from dppy import exact_sampling as es
    n, k = c["n"], c["k"]
    e = bigsel_eig(c)
    V = np.eye(n)
    prng = np.random.RandomState(c["seed"] + 1)
    inc, tot = laws.log_selection(e, k)

    def f(rng):
        W = np.asarray(es.k_dpp_eig_vecs_selector(e.copy(), V.copy(), k, random_state=rng))
        if W.shape != (n, k):
            raise Violation("selected eigenvectors have shape %r instead of %r" % (W.shape, (n, k)))
        return laws.as_set([int(j) for j in np.argmax(W, axis=0)], n)

    def pick(p):
        p = np.asarray(p, float)
        return int(prng.choice(len(p), p=p / p.sum()))
    bad, m = None, 0
    for _ in range(2):
        try:
            with sut("k_dpp_eig_vecs_selector along one path"):
                S, p = walk(f, pick)
        except Unsupported:
            bad = "unsupported"
            break
        m += 1
        if any(e[i] == 0 for i in S):
            raise Violation("an eigenvector of eigenvalue 0 was selected")
        ref = np.exp(np.log(e[list(S)]).sum() - tot)
        if not abs(p - ref) <= 1e-7 * ref:
            bad = "selection %r has probability %.9g instead of %.9g" % (S, p, ref)
            break
    if bad:
        def stat(rng, size):
            X = np.zeros((size, n))
            for t in range(size):
                X[t, list(f(rng))] = 1
            return np.hstack([X, X.dot(np.arange(n) % 2)[:, None] ** 2])[:, :n]
        with sut("k_dpp_eig_vecs_selector"):
            check_mean(stat, inc, 2000, derive("p03msel", c["seed"]), "selection of eigenvectors, k=%d, n=%d (%s)" % (k, n, bad), z=4.5, atol=1e-4)
        m += 2000
    return {"nontrivial": 1 <= k < n, "execs": m, "tag": "path" if not bad else "frequencies"}


# ---- many items
@st.composite
def many_case(draw, nmin=12, nmax=120):
    c = draw(gens.many_case(nmin, nmax, lt1=True, powers=(-6, -2, 0, 0, 2, 5), params=PARAMS))
    c["mode"] = draw(st.sampled_from(MODES))
    c["kf"] = draw(st.one_of(st.sampled_from([0.02, 0.5, 0.9, 1.0]), st.floats(0, 1)))
    return c


@st.composite
def hundreds_case(draw):
    c = draw(many_case(257, 290))
    c["kf"] = draw(st.sampled_from([0.01, 0.03, 0.1, 0.2]))
    return c


def run_many(c, n=250):
    b = gens.build_generic(c)
    N, L = c["N"], b[4]
    e, V = np.linalg.eigh(L)
    e = np.maximum(e, 0)
    r = int(np.sum(e > 1e-9 * e[-1])) if e[-1] > 0 else 0
    if r == 0:
        return {"nontrivial": False, "execs": 0}
    e[e < 1e-13 * e[-1]] = 0
    k = max(1, min(r, int(round(c["kf"] * r))))
    p, tot = laws.log_selection(e, k)
    inc = (V ** 2).dot(p)
    G = laws.tilts(N, 8, c["seed"] + 3, min(0.7, 1.5 / np.sqrt(k)))
    lG = np.log(G)
    off = []
    for g in np.sqrt(G):
        u = np.linalg.eigvalsh(g[:, None] * L * g)
        u[u < 1e-13 * u[-1]] = 0
        off.append(laws.log_esp(u, k)[k] - tot)
    off = np.array(off)

    def stat(rng, m):
        X = np.zeros((m, N))
        dpp = gens.make_dpp(b)
        for i in range(m):
            s = laws.as_set(dpp.sample_exact_k_dpp(size=k, mode=c["mode"], random_state=rng), N)
            if len(s) != k:
                raise Violation("sample of size %d instead of %d" % (len(s), k))
            X[i, list(s)] = 1
        return np.hstack([X, np.exp(X.dot(lG.T) - off)])
    with sut("sampling a k-DPP"):
        check_mean(stat, np.concatenate([inc, np.ones(len(G))]), n, derive("p03many", c["seed"]), "inclusion probabilities and tilted means of the %d-DPP, N=%d" % (k, N), confirm=5, z=4.5, z2=6.5, atol=1e-3)
    return {"nontrivial": k < r, "execs": n, "tag": c["param"] + "/" + c["mode"]}


FACETS = [
    Facet("object", obj_case, run_obj, 3000, 30000, "law of sample_exact_k_dpp enumerated, N<=4, 1<=k<=rank"),
    Facet("object5", lambda: obj_case(nmin=5, nmax=6), run_obj, 200, 3000, "the same with 5<=N<=6"),
    Facet("scales", scale_case, run_obj, 600, 8000, "the same, likelihood kernels of scale 1e-9 to 1e8, many of low rank, N<=4"),
    Facet("projection", proj_case, run_proj, 2500, 20000, "projection correlation (k=rank) and likelihood (k<=rank) kernels"),
    Facet("refusal", refuse_case, run_refuse, 2500, 20000, "sizes above the rank (or different from it) raise ValueError; non-trivial when rank >= 1"),
    Facet("lowlevel", low_case, run_low, 1500, 15000, "eigenvector selection and projection samplers with a size, called directly"),
    Facet("selection of many", bigsel_case, run_bigsel, 1200, 15000, "6<=n<=40 eigenvalues: probability of sampled selections against the product of eigenvalues over the symmetric polynomial"),
    Facet("large", big_case, run_big, 200, 3000, "6<=N<=11: single and pair inclusion frequencies"),
    Facet("selection of hundreds", lambda: bigsel_case(41, 300, (-8, -3, 0, 1, 4, 8)), run_manysel, 120, 2500, "41<=n<=300 eigenvalues of any magnitude: probability of sampled selections", cpu_limit=200),
    Facet("many items", many_case, run_many, 120, 2500, "12<=N<=120, likelihoods of any magnitude: inclusion probabilities and tilted means", cpu_limit=300),
    Facet("hundreds", hundreds_case, lambda c: run_many(c, 80), 16, 300, "the same, 257<=N<=290", cpu_limit=600),
]
