"""P19: Hermite, Laguerre and Jacobi ensembles follow their joint density."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

from pbt import ensembles as en
from pbt import gens
from pbt.core import Facet, Violation, derive, must_raise, sut
from pbt.stats import check_continuous, check_mean

RULE = "A case is an ensemble, a model (full or banded), beta, a number of points, reference parameters and a seed; it is non-trivial when there are at least two points and beta > 0."
ASSUMPTIONS = ["N <= 3: cdf of every order statistic from a grid quadrature of the joint density (error below 0.01), any beta in [0.1, 10].",
               "N <= 160: exact law of the trace (Hermite, Laguerre), of the dispersion (Hermite), exact means of log|Vandermonde|, log-products and elementary "
               "symmetric functions (Selberg, Aomoto), and for beta=2, N <= 12 the law of the extreme points; Kolmogorov-Smirnov or z tests at 1e-9 with confirmation.",
               "Banded models also with 257 to 400 points, and with shapes of the reference law up to 2000. Other reference parameters in [0.2, 10]; locations and scales over four decades."]


def r3(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 3))


@st.composite
def case(draw, nmin=1, nmax=3, betas=None):
    kind = draw(st.sampled_from(["hermite", "laguerre", "jacobi"]))
    model = draw(st.sampled_from(["full", "banded", "banded", "banded sizes"]))
    if kind == "hermite" and model == "banded sizes":
        model = "banded"
    N = draw(gens.sizes(nmin, nmax))
    if betas is not None:
        beta = draw(st.sampled_from(betas))
    elif model == "full":
        beta = draw(st.sampled_from([1, 2, 4]))
    else:
        beta = draw(st.one_of(st.sampled_from([1, 2, 4, 3, 6, 0.5, 1.0, 2.0]), r3(0.4, 10) if model == "banded sizes" else r3(0.1, 10), r3(0.4, 1)))
    c = {"kind": kind, "model": model, "N": N, "beta": beta, "seed": draw(gens.seeds()), "api": draw(st.sampled_from(["object", "object", "function"]))}
    if kind == "hermite" and model == "banded":
        c["par"] = {"loc": draw(st.one_of(st.sampled_from([0, 0.0, 1.5, -20]), r3(-5, 5))), "scale": draw(st.one_of(st.sampled_from([1, 2 ** 0.5, 0.01, 100]), r3(0.1, 5)))}
    elif kind == "laguerre":
        if model == "banded":
            c["par"] = {"shape": draw(st.one_of(st.sampled_from([1, 0.5, 2.0, 0.25]), r3(0.2, 1), r3(0.2, 10))), "scale": draw(st.one_of(st.sampled_from([1, 2.0, 0.01, 100]), r3(0.1, 5)))}
        else:
            c["M"] = N + draw(st.sampled_from([0, 0, 1, 2, 5, 12]))
            if model == "banded sizes" and draw(st.integers(0, 3)) == 0:
                c["over"] = {"shape": draw(r3(0.2, 5)), "scale": draw(r3(0.1, 5))}
    elif kind == "jacobi":
        if model == "banded":
            c["par"] = {k: draw(st.one_of(st.sampled_from([1, 0.5, 2.0, 0.25]), r3(0.2, 1), r3(0.2, 10))) for k in "ab"}
        else:
            c["M1"], c["M2"] = [N + draw(st.sampled_from([0, 0, 1, 2, 5, 12])) for _ in range(2)]
            if model == "banded sizes" and draw(st.integers(0, 3)) == 0:
                c["over"] = {"a": draw(r3(0.2, 5)), "b": draw(r3(0.1, 5))}
    return c


def reference(c):
    N, b = c["N"], c["beta"]
    if c["kind"] == "hermite":
        return en.Ref("hermite", **c["par"]) if "par" in c else en.Ref("hermite", loc=0.0, scale=np.sqrt(2.0))
    if c["kind"] == "laguerre":
        return en.Ref("laguerre", **c["par"]) if "par" in c else en.Ref("laguerre", shape=0.5 * b * (c["M"] - N + 1), scale=2.0)
    if "par" in c:
        return en.Ref("jacobi", **c["par"])
    return en.Ref("jacobi", a=0.5 * b * (c["M1"] - N + 1), b=0.5 * b * (c["M2"] - N + 1))


def label(c):
    s = "%s, beta=%r, %s model, N=%d" % (c["kind"], c["beta"], c["model"], c["N"])
    for k in ("par", "M", "M1", "M2", "over"):
        if k in c:
            s += ", %s=%r" % (k, c[k])
    return s


def sampler(c):
    """-> draw(rng) -> sorted points"""
    import dppy.beta_ensembles as be
    import dppy.random_matrices as rm
    N, b, what = c["N"], c["beta"], label(c)
    cls = {"hermite": be.HermiteEnsemble, "laguerre": be.LaguerreEnsemble, "jacobi": be.JacobiEnsemble}[c["kind"]]
    kw = {"size_N": N}
    kw.update(c.get("par", {}))
    kw.update(c.get("over", {}))  # the sizes prevail over the reference parameters
    for k, v in (("M", "size_M"), ("M1", "size_M1"), ("M2", "size_M2")):
        if k in c:
            kw[v] = c[k]
    if c["api"] == "function" and b > 0 and c["model"] != "banded sizes":
        if c["model"] == "full":
            f = {"hermite": lambda r: rm.hermite_sampler_full(N, beta=b, random_state=r),
                 "laguerre": lambda r: rm.laguerre_sampler_full(c["M"], N, beta=b, random_state=r),
                 "jacobi": lambda r: rm.jacobi_sampler_full(c["M1"], c["M2"], N, beta=b, random_state=r)}[c["kind"]]
        else:
            g = {"hermite": rm.mu_ref_normal_sampler_tridiag, "laguerre": rm.mu_ref_gamma_sampler_tridiag, "jacobi": rm.mu_ref_beta_sampler_tridiag}[c["kind"]]
            p = dict(c["par"])
            f = lambda r: g(beta=b, size=N, random_state=r, **p)
    else:
        with sut(what):
            ens = cls(beta=b)

        def f(r):
            ens.flush_samples()
            if c["model"] == "full":
                return ens.sample_full_model(random_state=r, **kw)
            return ens.sample_banded_model(random_state=r, **kw)
    lo, hi = {"hermite": (-np.inf, np.inf), "laguerre": (0, np.inf), "jacobi": (0, 1)}[c["kind"]]

    def draw(rng):
        with sut(what):
            x = np.asarray(f(rng))
        if x.shape != (N,) or x.dtype.kind != "f":
            raise Violation("%s: a sample has shape %s and type %s" % (what, x.shape, x.dtype))
        x = np.sort(x)
        t = 1e-9 * max(1.0, abs(x[-1])) if np.isfinite(x[-1]) else 0
        if not np.all(np.isfinite(x)) or x[0] < lo - t or x[-1] > hi + t:
            raise Violation("%s: points %r out of the support" % (what, x))
        return np.clip(x, lo, hi)
    return draw


class Draws(object):
    """iid samples for a seed, cached so that several statistics share them"""

    def __init__(self, draw):
        self.draw, self.cache, self.n = draw, {}, 0

    def get(self, rng, n, key):
        k = (key, n)
        if k not in self.cache:
            self.cache[k] = np.array([self.draw(rng) for _ in range(n)])
            self.n += n
        return self.cache[k]

    def stat(self, fun):
        def f(rng, n):
            key = int(rng.get_state()[1][0])
            return fun(self.get(rng, n, key))
        return f


def vander(X):
    N = X.shape[1]
    i, j = np.triu_indices(N, 1)
    d = np.abs(X[:, j] - X[:, i])
    return np.log(np.maximum(d, 1e-300)).sum(1)


def run_small(c, n=1500):
    ref, N, b = reference(c), c["N"], c["beta"]
    D = Draws(sampler(c))
    if N == 1:
        e, F = None, [ref.law.cdf]
    else:
        e, F = en.grid_law(ref, N, b, 400 if N == 2 else 90 if n < 5000 else 140)
        F = [en.interp_cdf(ref, N, b, f) for f in F]
    for i, f in enumerate(F):
        check_continuous(D.stat(lambda X, i=i: X[:, i]), f, n, derive("p19", c["seed"]), "%s, point %d" % (label(c), i + 1))
    common(c, ref, D, n)
    return {"nontrivial": N > 1, "execs": D.n, "tag": "%s %s" % (c["kind"], c["model"])}


def common(c, ref, D, n):
    N, b, what, seed = c["N"], c["beta"], label(c), derive("p19", c["seed"])
    tr = ref.trace_law(N, b)
    if tr is not None:
        check_continuous(D.stat(lambda X: X.sum(1)), tr.cdf, n, seed, what + ", sum of the points")
    else:
        m = min(N, 3)
        want = [en.aomoto(ref, N, b, k) for k in range(1, m + 1)]

        def esp(X):
            p = [X.sum(1), (X ** 2).sum(1), (X ** 3).sum(1)]
            e1, e2, e3 = p[0], (p[0] ** 2 - p[1]) / 2, (p[0] ** 3 - 3 * p[0] * p[1] + 2 * p[2]) / 6
            from math import comb
            return np.stack([e1 / comb(N, 1), e2 / max(comb(N, 2), 1), e3 / max(comb(N, 3), 1)][:m], 1)
        check_mean(D.stat(esp), want, n, seed, what + ", elementary symmetric means")
    if N > 1 and ref.kind == "hermite":
        s = ref.p["scale"]
        check_continuous(D.stat(lambda X: ((X - X.mean(1, keepdims=True)) ** 2).sum(1) / s ** 2), ss.chi2(N - 1 + b * N * (N - 1) / 2.0).cdf, n, seed, what + ", dispersion")
    if N > 1:
        check_mean(D.stat(vander), [ref.mean_logdet(N, b)], n, seed, what + ", log Vandermonde")
    if ref.kind != "hermite" and min(ref.p.get("shape", 9), ref.p.get("a", 9)) >= 0.4:
        check_mean(D.stat(lambda X: np.log(np.maximum(X, 1e-300)).sum(1)), [ref.mean_log(N, b)], n, seed, what + ", log product", z=8)
    if ref.kind == "jacobi" and ref.p["b"] >= 0.4:
        check_mean(D.stat(lambda X: np.log(np.maximum(1 - X, 1e-17)).sum(1)), [ref.mean_log1m(N, b)], n, seed, what + ", log product of 1-x", z=8)


def run_large(c):
    ref, N, b = reference(c), c["N"], c["beta"]
    D = Draws(sampler(c))
    n = 600
    common(c, ref, D, n)
    if b == 2 and N <= 12:
        e, F1, F2 = en.beta2_extreme(ref, N)
        for i, F in ((0, F1), (N - 1, F2)):
            check_continuous(D.stat(lambda X, i=i: X[:, i]), en.interp_cdf(ref, N, 2, F), n, derive("p19", c["seed"]), "%s, point %d" % (label(c), i + 1))
    return {"nontrivial": True, "execs": D.n, "tag": "%s %s" % (c["kind"], c["model"])}


def huge_case():
    """many points: a few decades of sizes, concentrated statistics"""
    return case(24, 160).map(lambda c: dict(c, beta=c["beta"] if c["model"] == "full" or c["seed"] % 4 else float(10 + c["seed"] % 90)))


@st.composite
def extreme_case(draw):
    """banded models: hundreds of points, or large shape parameters"""
    big = draw(st.booleans())
    c = draw(case(257, 400) if big else case(1, 40))
    if c["model"] == "full":
        c["model"] = "banded"
        for k in ("M", "M1", "M2", "over"):
            c.pop(k, None)
        keys = {"hermite": (), "laguerre": ("shape", "scale"), "jacobi": ("a", "b")}[c["kind"]]
        c["par"] = {k: draw(r3(0.2, 5)) for k in keys} if keys else {"loc": draw(r3(-5, 5)), "scale": draw(r3(0.1, 5))}
    if not big:
        if c["kind"] == "hermite":
            c["par"]["scale"] = draw(st.sampled_from([1e-6, 1e-3, 1e3, 1e6]))
        for k in ("shape", "a", "b"):
            if k in c.get("par", {}) and draw(st.integers(0, 3)):
                c["par"][k] = draw(r3(20, 2000))
        for k in ("M", "M1", "M2"):
            if k in c:
                c[k] += draw(st.integers(20, 1000))
    return c


def run_huge(c):
    ref = reference(c)
    D = Draws(sampler(c))
    common(c, ref, D, 500 if c["model"] != "full" else 150 if c["N"] <= 60 else 60)
    return {"nontrivial": True, "execs": D.n, "tag": "%s %s" % (c["kind"], c["model"])}


@st.composite
def iid_case(draw):
    c = draw(case(1, 12, betas=[0, 0.0]))
    c["api"] = "object"
    if c["model"] != "banded":
        c["model"] = "full" if c["kind"] == "hermite" else "banded"
        c.pop("M", None), c.pop("M1", None), c.pop("M2", None), c.pop("over", None)
        if c["kind"] == "laguerre":
            c["par"] = {"shape": draw(r3(0.2, 5)), "scale": draw(r3(0.2, 5))}
        if c["kind"] == "jacobi":
            c["par"] = {"a": draw(r3(0.2, 5)), "b": draw(r3(0.2, 5))}
    return c


def run_iid(c):
    ref, N = reference(c), c["N"]
    what = label(c)
    import dppy.beta_ensembles as be
    cls = {"hermite": be.HermiteEnsemble, "laguerre": be.LaguerreEnsemble, "jacobi": be.JacobiEnsemble}[c["kind"]]
    with sut(what):
        ens = cls(beta=c["beta"])
    kw = dict(c.get("par", {}), size_N=N)

    def draw(rng):
        with sut(what):
            x = ens.sample_full_model(size_N=N, random_state=rng) if c["model"] == "full" else ens.sample_banded_model(random_state=rng, **kw)
        if np.shape(x) != (N,):
            raise Violation("%s: a sample has shape %s" % (what, np.shape(x)))
        return np.asarray(x, float)
    D = Draws(draw)
    n = 800
    u = lambda X: ref.law.cdf(X)
    check_continuous(D.stat(lambda X: X[:, 0]), ref.law.cdf, n, derive("p19i", c["seed"]), what + ", first point")
    check_continuous(D.stat(lambda X: u(X).max(1)), lambda t: np.clip(t, 0, 1) ** N, n, derive("p19i", c["seed"]), what + ", largest point")
    if N > 1:
        check_mean(D.stat(lambda X: (u(X)[:, 0] - 0.5) * (u(X)[:, -1] - 0.5)), [0.0], n, derive("p19i", c["seed"]), what + ", correlation of two points")
    return {"nontrivial": N > 1, "execs": D.n, "tag": c["kind"]}


@st.composite
def params_case(draw):
    c = draw(case(1, 8))
    c["api"] = "object"
    return c


def run_params(c):
    """parameters recorded with a sample, as used by the rescaling and the plots"""
    import dppy.beta_ensembles as be
    N, b, what = c["N"], c["beta"], label(c)
    cls = {"hermite": be.HermiteEnsemble, "laguerre": be.LaguerreEnsemble, "jacobi": be.JacobiEnsemble}[c["kind"]]
    kw = dict(c.get("par", {}), size_N=N, **c.get("over", {}))
    for k, v in (("M", "size_M"), ("M1", "size_M1"), ("M2", "size_M2")):
        if k in c:
            kw[v] = c[k]
    pre = {"hermite": [{"loc": 3.0, "scale": 0.5}], "laguerre": [{"shape": 0.7, "scale": 0.3}, {"size_M": N + 9}], "jacobi": [{"a": 0.3, "b": 4.0}, {"size_M1": N + 8, "size_M2": N + 9}]}[c["kind"]] + [{}]
    with sut(what):
        e = cls(beta=b)
        # other samples first: their parameters must not linger
        for i in range(c["seed"] % 3):
            q = pre[(c["seed"] // 3 + i) % len(pre)]
            if b in (1, 2, 4) and (c["seed"] // 16 + i) % 2:
                e.sample_full_model(random_state=i, size_N=N + 3, **{k: v for k, v in {"laguerre": {"size_M": N + 7}, "jacobi": {"size_M1": N + 7, "size_M2": N + 5}}.get(c["kind"], {}).items()})
            else:
                e.sample_banded_model(random_state=i, size_N=N + 3, **q)
        (e.sample_full_model if c["model"] == "full" else e.sample_banded_model)(random_state=c["seed"], **kw)
    ref = reference(c)
    want = dict(ref.p, size_N=N)
    if c["kind"] == "laguerre":
        want["size_M"] = c["M"] if "M" in c else 2.0 / b * ref.p["shape"] + N - 1
    if c["kind"] == "jacobi":
        want["size_M1"] = c["M1"] if "M1" in c else 2.0 / b * ref.p["a"] + N - 1
        want["size_M2"] = c["M2"] if "M2" in c else 2.0 / b * ref.p["b"] + N - 1
    for k, v in want.items():
        if k not in e.params or not abs(float(e.params[k]) - v) <= 1e-9 * max(1, abs(v)):
            raise Violation("%s: parameter %s is %r instead of %r" % (what, k, e.params.get(k), v))
    return {"nontrivial": c["kind"] != "hermite" or "par" in c, "execs": 2, "tag": "%s %s" % (c["kind"], c["model"])}


@st.composite
def refuse_case(draw):
    return {"beta": draw(st.one_of(st.sampled_from([3, 0.5, 6, 1.5, 2.0001]), r3(0.1, 10).filter(lambda v: v not in (1.0, 2.0, 4.0)))),
            "neg": draw(st.sampled_from([-1, -0.5, -2, float("nan")])), "N": draw(st.integers(1, 6)), "seed": draw(gens.seeds()), "d": draw(st.integers(1, 3))}


def run_refuse(c):
    import dppy.beta_ensembles as be
    import dppy.random_matrices as rm
    N = c["N"]
    for cls, kw in ((be.HermiteEnsemble, {"size_N": N}), (be.LaguerreEnsemble, {"size_N": N, "size_M": N + 1}), (be.JacobiEnsemble, {"size_N": N, "size_M1": N, "size_M2": N + 2})):
        what = "%s(beta=%r)" % (cls.__name__, c["beta"])
        with sut(what):
            e = cls(beta=c["beta"])
        must_raise(what + ".sample_full_model", lambda: e.sample_full_model(random_state=c["seed"], **kw))
        if e.list_of_samples:
            raise Violation("%s: a refused call recorded a sample" % what)
        must_raise("%s(beta=%r)" % (cls.__name__, c["neg"]), lambda: cls(beta=c["neg"]))
    b = 2
    for f in (lambda: be.LaguerreEnsemble(b).sample_full_model(size_N=N + c["d"], size_M=N), lambda: be.LaguerreEnsemble(b).sample_banded_model(size_N=N + c["d"], size_M=N),
              lambda: be.JacobiEnsemble(b).sample_full_model(size_N=N + c["d"], size_M1=N, size_M2=N + 9), lambda: be.JacobiEnsemble(b).sample_full_model(size_N=N + c["d"], size_M1=N + 9, size_M2=N),
              lambda: be.JacobiEnsemble(b).sample_banded_model(size_N=N + c["d"], size_M1=N, size_M2=N + 9), lambda: be.JacobiEnsemble(b).sample_banded_model(size_N=N + c["d"], size_M1=N + 9, size_M2=N)):
        must_raise("sizes M < N", f)
    for f in (rm.mu_ref_normal_sampler_tridiag, lambda **k: rm.mu_ref_gamma_sampler_tridiag(shape=1.0, **k), lambda **k: rm.mu_ref_beta_sampler_tridiag(1.0, 1.0, **k)):
        for b in (0, -1.0):
            must_raise("tridiagonal sampler with beta=%r" % b, lambda: f(beta=b, size=N))
    return {"nontrivial": True, "execs": 18}


FACETS = [
    Facet("small", lambda: case(1, 3), run_small, 320, 4000, "law of every point, up to three points", cpu_limit=300),
    Facet("many draws", lambda: case(1, 3), lambda c: run_small(c, 12000), 120, 1200, "the same with 12000 draws", cpu_limit=600),
    Facet("large", lambda: case(4, 20), run_large, 200, 3000, "exact statistics, 4 to 20 points", cpu_limit=300),
    Facet("huge", huge_case, run_huge, 160, 2500, "exact statistics, 24 to 160 points", cpu_limit=300),
    Facet("extreme", extreme_case, run_huge, 80, 1200, "banded models: exact statistics, 257 to 400 points or shapes up to 2000", cpu_limit=300),
    Facet("iid", iid_case, run_iid, 60, 600, "beta=0: independent reference points", cpu_limit=200),
    Facet("parameters", params_case, run_params, 500, 5000, "parameters recorded with a sample"),
    Facet("refused", refuse_case, run_refuse, 60, 600, "unsupported parameters are refused"),
]
