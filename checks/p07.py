"""P07: BLESS dictionaries and ridge leverage score estimates."""
import itertools

import numpy as np
from hypothesis import strategies as st

from checks.p06 import Ev, EvDiag
from pbt import gens, laws
from pbt.branch import Unsupported, enumerate_law
from pbt.core import Facet, Violation, derive, sut

RULE = ("A case is a data set, a likelihood function, a regularization, an oversampling parameter and a dictionary or seed; it is "
        "non-trivial when the dictionary has at least one point and the kernel matrix is not diagonal.")
ASSUMPTIONS = ["Regularizations lie between 1e-3 and 1e3, dictionary probabilities in [0.02, q]; n <= 40 (estimates, contracts), n <= 5 (exact law).",
               "The ValueErrors announcing that no point was selected or that the effective dimension is below one are legitimate refusals; "
               "the reference law of a reduction step includes them."]
REFUSALS = ("No point selected", "Estimated deff is smaller than 1")


@st.composite
def data_case(draw, nmin=1, nmax=40):
    return {"n": draw(gens.sizes(nmin, nmax)), "d": draw(st.integers(1, 4)), "seed": draw(gens.seeds()),
            "kern": draw(st.sampled_from(["rbf", "lin", "poly"])), "scale": draw(st.sampled_from([0.2, 1.0, 5.0, 50.0])),
            "spread": draw(st.sampled_from([0.3, 1.0, 3.0])), "dup": draw(st.booleans()), "zero": draw(st.integers(0, 4)) == 0,
            "diag": draw(st.booleans()), "frozen": draw(st.booleans()), "ints": draw(st.integers(0, 5)) == 0}


def build(c):
    rng = np.random.RandomState(c["seed"])
    X = rng.randn(c["n"], c["d"]) * c["spread"]
    scale = c["scale"]
    if c.get("ints"):
        X = rng.randint(-2, 3, size=X.shape)
        if c["kern"] != "rbf":
            scale = int(np.ceil(scale))
    if c["dup"] and c["n"] > 1:
        X[-1] = X[0]
    if c["zero"]:
        X[c["n"] // 2] = 0.0
    ev = (EvDiag if c["diag"] else Ev)(c["kern"], scale, c.get("frozen", False))
    return ev, X, gens.sym(ev(X)), rng


def ref_scores(L, D, p, lam):
    """(k_ii - k_iD (K_DD + lam diag p)^-1 k_Di) / lam"""
    B = np.linalg.solve(L[np.ix_(D, D)] + lam * np.diag(p), L[D])
    return (np.diag(L) - np.einsum("di,di->i", L[D], B)) / lam


lam_st = st.one_of(st.sampled_from([1e-3, 0.1, 1.0, 1e3]), st.floats(-3, 3).map(lambda x: round(10 ** x, 6)))


@st.composite
def est_case(draw):
    c = draw(data_case())
    c["lam"] = draw(lam_st)
    c["q"] = draw(st.sampled_from([1.0, 2.0, 10.0]))
    c["D"] = draw(st.lists(st.integers(0, c["n"] - 1), min_size=1, max_size=c["n"], unique=True)) if draw(st.booleans()) else list(range(c["n"]))
    c["ones"] = draw(st.booleans())
    c["old"] = draw(st.sampled_from([1.0, 3.0, 100.0]))
    return c


def run_est(c):
    from dppy.bless import CentersDictionary, estimate_rls_bless
    ev, X, L, rng = build(c)
    D = np.array(sorted(c["D"]))
    p = np.ones(len(D)) if c["ones"] else rng.uniform(0.02, c["q"], len(D))
    lam = c["lam"]
    sub = rng.permutation(c["n"])[:1 + rng.randint(c["n"])]
    dic = CentersDictionary(idx=D, X=X[D], probs=p.copy(), lam=lam * c["old"], rls_oversample=c["q"])
    X0 = X.copy()
    with sut("estimate_rls_bless"):
        t = np.asarray(estimate_rls_bless(dic, X, ev, lam), float)
        ts = np.asarray(estimate_rls_bless(dic, X[sub], ev, lam), float)
    ref = ref_scores(L, D, p, lam)
    dg = np.diag(L)
    tol = 1e-7 * (1 + dg / lam) + 1e-10 * (np.abs(L).max() / lam) * (1 + np.abs(L).max() / (lam * p.min()))
    if t.shape != (c["n"],) or ts.shape != (len(sub),):
        raise Violation("estimates of shape %s and %s for %d and %d points" % (t.shape, ts.shape, c["n"], len(sub)))
    if not np.all(np.isfinite(t)) or not np.all(np.abs(t - ref) <= tol):
        i = int(np.argmax(np.abs(t - ref)))
        raise Violation("estimated score of point %d is %.9g instead of %.9g (regularization %g)" % (i, t[i], ref[i], lam))
    if not np.all(np.abs(ts - t[sub]) <= tol[sub]):
        raise Violation("the estimate of a point depends on which other points are evaluated")
    if np.any(t < -tol) or not np.all(t <= dg / lam + tol):
        raise Violation("an estimate lies outside [0, k_ii/lambda]")
    if c["ones"]:
        true = np.diag(np.linalg.solve(L + lam * np.eye(c["n"]), L))
        if np.any(t < true - tol):
            raise Violation("an estimate undershoots the true ridge leverage score: %r < %r" % (t, true))
        if len(D) == c["n"] and not np.all(np.abs(t - true) <= tol):
            raise Violation("with every point in the dictionary the estimates %r are not the true scores %r" % (t, true))
    if not np.array_equal(X, X0) or not np.array_equal(dic.X, X[D]) or not np.array_equal(dic.probs, p):
        raise Violation("estimate_rls_bless modified its inputs")
    return {"nontrivial": len(D) > 0 and c["n"] > 1, "execs": 2, "tag": "ones" if c["ones"] else "weights"}


# ---- exact law of a reduction step
@st.composite
def step_case(draw):
    c = draw(data_case(1, 5))
    c["lam"] = draw(st.sampled_from([0.05, 0.3, 1.0, 3.0]))
    c["ratio"] = draw(st.sampled_from([1.0, 1.5, 4.0]))
    c["q"] = draw(st.sampled_from([1.0, 1.2, 2.0, 5.0]))
    c["qarg"] = draw(st.sampled_from(["dict", "arg"]))
    c["D"] = draw(st.lists(st.integers(0, c["n"] - 1), min_size=1, max_size=c["n"], unique=True))
    return c


def run_step(c):
    from dppy.bless import CentersDictionary, reduce_lambda
    ev, X, L, rng = build(c)
    n, lam, q = c["n"], c["lam"], c["q"]
    D = np.array(sorted(c["D"]))
    p = rng.uniform(0.1, 1.0, len(D))
    dic = CentersDictionary(idx=D, X=X[D], probs=p, lam=lam * c["ratio"], rls_oversample=q if c["qarg"] == "dict" else q + 1)
    dg = np.diag(L)
    ucb = np.minimum(q * dg / (dg + lam), 1.0)
    est = np.maximum(ref_scores(L, D, p, lam), 0)
    probs = np.minimum(q * est, ucb)
    target = {}
    near = False
    for U in itertools.product([0, 1], repeat=n):
        w = np.prod([ucb[i] if U[i] else 1 - ucb[i] for i in range(n)])
        if w <= 0:
            continue
        I = [i for i in range(n) if U[i]]
        tot = sum(probs[i] / ucb[i] for i in I)
        near |= abs(tot - 1) < 1e-6
        if not I or tot < 1:
            target["refused"] = target.get("refused", 0) + w
            continue
        for V in itertools.product([0, 1], repeat=len(I)):
            w2 = w * np.prod([probs[i] / ucb[i] if v else 1 - probs[i] / ucb[i] for i, v in zip(I, V)])
            S = tuple(i for i, v in zip(I, V) if v)
            target[S if S else "refused"] = target.get(S if S else "refused", 0) + w2
    if near:
        return {"nontrivial": False, "execs": 0, "tag": "threshold"}

    def draw(r):
        try:
            if c["qarg"] == "dict":
                o = reduce_lambda(X, ev, dic, lam, r)
            else:
                o = reduce_lambda(X, ev, dic, lam, r, rls_oversample_parameter=q)
        except ValueError as e:
            if any(s in str(e) for s in REFUSALS):
                return "refused"
            raise Violation("reduce_lambda: %s" % e)
        check_dict(o, X, lam, q)
        S = laws.as_set(list(o.idx), n, "dictionary")
        if not np.all(np.abs(np.asarray(o.probs) - probs[np.asarray(o.idx)]) <= 1e-6):
            raise Violation("reported probabilities %r instead of %r" % (o.probs, probs[np.asarray(o.idx)]))
        return S
    with sut("reduce_lambda"):
        try:
            law, m, _ = enumerate_law(draw, max_paths=4000)
        except Unsupported as e:
            from pbt.stats import check_discrete
            check_discrete(draw, target, 2000, derive("p07", c["seed"]), "reduce_lambda")
            return {"nontrivial": True, "execs": 2000, "tag": "sampled"}
    laws.compare_laws(law, target, "reduce_lambda", tol=1e-6)
    return {"nontrivial": n > 1 and target.get("refused", 0) < 1 - 1e-9, "execs": m, "tag": "exact"}


def check_dict(o, X, lam, q, what="dictionary"):
    n = len(X)
    idx = np.asarray(o.idx)
    if idx.ndim != 1 or not np.issubdtype(idx.dtype, np.integer) or len(idx) == 0:
        raise Violation("%s: indices %r" % (what, o.idx))
    if len(set(idx.tolist())) != len(idx) or idx.min() < 0 or not idx.max() < n:
        raise Violation("%s: indices %r are repeated or out of range" % (what, idx))
    if np.asarray(o.X).shape != (len(idx), X.shape[1]) or not np.array_equal(o.X, X[idx]):
        raise Violation("%s: rows do not match the data points of its indices" % what)
    p = np.asarray(o.probs, float)
    if p.shape != (len(idx),) or not np.all(np.isfinite(p)) or np.any(p <= 0) or not np.all(p <= max(q, 1) * (1 + 1e-9)):
        raise Violation("%s: probabilities %r are not in (0, %g]" % (what, p, q))
    if lam is not None and not abs(o.lam - lam) <= 1e-9 * lam:
        raise Violation("%s: regularization %r instead of %r" % (what, o.lam, lam))
    if not abs(o.rls_oversample - q) <= 1e-12:
        raise Violation("%s: oversampling parameter %r instead of %r" % (what, o.rls_oversample, q))


# ---- recursive sampler
@st.composite
def bless_case(draw):
    c = draw(data_case())
    c["lam"] = draw(lam_st)
    c["q"] = draw(st.sampled_from([1.0, 2.0, 4.0, 10.0]))
    c["iters"] = draw(st.sampled_from([None, None, 1, 2, 3, 10]))
    c["what"] = draw(st.sampled_from(["bless", "bless", "size"]))
    c["k"] = draw(st.integers(1, 8))
    return c


def run_bless(c):
    from dppy.bless import bless, bless_size
    ev, X, L, rng = build(c)
    n, q = c["n"], c["q"]
    X0 = X.copy()
    ok = 0
    dg = np.diag(L)
    for s in range(3):
        r = np.random.RandomState(c["seed"] + s)
        if c["what"] == "bless":
            try:
                o = bless(X, ev, c["lam"], q, random_state=r, nb_iter_bless=c["iters"], verbose=False)
            except ValueError as e:
                if any(t in str(e) for t in REFUSALS):
                    continue
                raise Violation("bless: ValueError %s" % e)
            except Exception as e:
                raise Violation("bless raised %s: %s" % (type(e).__name__, e))
            lam = c["lam"]
            check_dict(o, X, lam, q)
        else:
            lam0 = dg.sum() / max(c["k"] - 1.0, c["k"] / 2.0)
            if lam0 < 2:
                return {"nontrivial": False, "execs": 0, "tag": "size/small"}
            try:
                lmax, lmin, o = bless_size(X, ev, c["k"], q, random_state=r, nb_iter_bless=None, verbose=False)
            except ValueError as e:
                if any(t in str(e) for t in REFUSALS):
                    continue
                raise Violation("bless_size: ValueError %s" % e)
            except Exception as e:
                raise Violation("bless_size raised %s: %s" % (type(e).__name__, e))
            if not (1 - 1e-9 <= lmin <= lmax * (1 + 1e-9) <= lam0 * (1 + 1e-6)):
                raise Violation("bless_size returned lam_min=%r, lam_max=%r (trace bound %r)" % (lmin, lmax, lam0))
            check_dict(o, X, None, q)
            lam = o.lam
            if not (1 - 1e-9 <= lam <= lam0 * (1 + 1e-9)):
                raise Violation("bless_size returned a dictionary of regularization %r" % lam)
            if lmin > 1 + 1e-9 and not (abs(lam - lmin) <= 1e-9 * lam and len(o.idx) >= 2 * q * (c["k"] + 1) * (1 - 1e-12)):
                raise Violation("bless_size stopped at %r with a dictionary of %d points" % (lmin, len(o.idx)))
            if lam0 <= 2:
                continue
        ok += 1
        # after a reduction step no probability exceeds the bound computed from the diagonal
        i = np.asarray(o.idx)
        u = np.minimum(q * dg[i] / (dg[i] + lam), 1.0)
        if not np.all(np.asarray(o.probs) <= u * (1 + 1e-9)):
            raise Violation("%s: probabilities %r above their bounds %r" % (c["what"], o.probs, u))
    if not np.array_equal(X, X0):
        raise Violation("the data were modified")
    return {"nontrivial": ok > 0 and n > 1, "execs": 3, "tag": "%s/%s" % (c["what"], "ok" if ok else "refused")}


@st.composite
def sat_case(draw):
    c = draw(data_case(1, 25))
    c["lam"] = draw(st.sampled_from([0.3, 1.0, 3.0]))
    c["kern"] = "rbf"
    return c


def run_sat(c):
    """with a huge oversampling parameter every point is kept with probability one and the estimates are the true scores"""
    from dppy.bless import bless, estimate_rls_bless
    ev, X, L, rng = build(c)
    with sut("bless with a huge oversampling parameter"):
        o = bless(X, ev, c["lam"], 1e7, random_state=c["seed"], verbose=False)
    if list(o.idx) != list(range(c["n"])) or not np.all(np.abs(np.asarray(o.probs) - 1) <= 1e-9):
        raise Violation("oversampling 1e7: dictionary %r with probabilities %r instead of every point with probability one" % (o.idx, o.probs))
    with sut("estimate_rls_bless"):
        t = estimate_rls_bless(o, X, ev, c["lam"])
    true = np.diag(np.linalg.solve(L + c["lam"] * np.eye(c["n"]), L))
    if not np.all(np.abs(t - true) <= 1e-6):
        raise Violation("estimates %r instead of the true scores %r" % (t, true))
    return {"nontrivial": c["n"] > 1, "execs": 2}


# ---- inclusion frequencies of the whole recursion: an accurate dictionary contains each point at least as often as its true score
FACETS = [
    Facet("estimates", est_case, run_est, 3000, 40000, "scores equal the closed form, bounds, dictionary of ones"),
    Facet("step", step_case, run_step, 300, 6000, "exact law of reduce_lambda"),
    Facet("recursion", bless_case, run_bless, 1500, 20000, "contract of the dictionaries of bless and bless_size"),
    Facet("saturated", sat_case, run_sat, 400, 4000, "huge oversampling parameter"),
]
