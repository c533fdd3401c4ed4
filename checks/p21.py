"""P21: limiting densities and rescaling of the points."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens
from pbt.core import Facet, Violation, derive, sut

RULE = "A case is a limiting density with its parameters and arguments, or an ensemble with its parameters and a sample; every case is non-trivial but samples of one point."
ASSUMPTIONS = ["Integrals by Gauss-Legendre quadrature after an angular substitution (error below 1e-9); aspect ratios in [1, 50], radii and scales in [0.05, 20].",
               "Convergence of the moments: N between 100 and 160, first and second moments within 25/N of the limit's (fluctuations and corrections are O(1/N))."]


def r3(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 3))


def dens_case():
    q = st.one_of(st.sampled_from([1, 1, 2, 1.5]), r3(1, 5), r3(1, 50))
    return st.fixed_dictionaries({"kind": st.sampled_from(["semicircle", "mp", "mp", "wachter", "wachter"]), "R": st.one_of(st.sampled_from([2.0, 1, 2]), r3(0.05, 20)),
                                  "N": st.integers(1, 40), "c1": q, "c2": q, "sigma": st.one_of(st.just(1.0), st.just(1.0), r3(0.2, 3)),
                                  "default": st.booleans(), "seed": gens.seeds()})


GL = np.polynomial.legendre.leggauss(400)


def run_dens(c):
    import dppy.random_matrices as rm
    N = c["N"]
    k = c["kind"]
    if k == "semicircle":
        R = 2.0 if c["default"] else c["R"]
        f = (lambda x: rm.semi_circle_law(x)) if c["default"] else (lambda x: rm.semi_circle_law(x, R=R))
        lo, hi, m1, m2 = -R, R, 0.0, R * R / 4.0
        m3, cf = 0.0, (lambda x: 2 / (np.pi * R * R) * np.sqrt(R * R - x * x))
        what = "semi_circle_law, R=%r" % R
    elif k == "mp":
        M = c["c1"] * N if c["c1"] != int(c["c1"]) else int(c["c1"]) * N
        s = 1.0 if c["default"] else c["sigma"]
        f = (lambda x: rm.marcenko_pastur_law(x, M, N)) if c["default"] else (lambda x: rm.marcenko_pastur_law(x, M, N, sigma=s))
        r = N / float(M)
        lo, hi = s * s * (1 - np.sqrt(r)) ** 2, s * s * (1 + np.sqrt(r)) ** 2
        m1, m2, m3 = s ** 2, s ** 4 * (1 + r), s ** 6 * (1 + 3 * r + r * r)
        cf = lambda x: np.sqrt((hi - x) * (x - lo)) / (2 * np.pi * s * s * r * x)
        what = "marcenko_pastur_law, M=%r, N=%r, sigma=%r" % (M, N, s)
    else:
        M1, M2 = [v * N if v != int(v) else int(v) * N for v in (c["c1"], c["c2"])]
        f = lambda x: rm.wachter_law(x, M1, M2, N)
        a, b = M1 / float(N), M2 / float(N)
        h = a + b
        lo, hi = ((np.sqrt(a * (h - 1)) - np.sqrt(b)) / h) ** 2, ((np.sqrt(a * (h - 1)) + np.sqrt(b)) / h) ** 2
        m1 = a / h
        m2, m3 = m1 ** 2 + a * b / h ** 3, None
        cf = lambda x: h / (2 * np.pi) * np.sqrt((hi - x) * (x - lo)) / (x * (1 - x))
        what = "wachter_law, M1=%r, M2=%r, N=%r" % (M1, M2, N)
    lo, hi = min(lo, hi), max(lo, hi)
    t = 0.5 * np.pi * (GL[0] + 1)
    x = lo + (hi - lo) * np.sin(t / 2) ** 2
    x = np.clip(x, np.nextafter(lo, hi), np.nextafter(hi, lo))
    keep = x.copy()
    with sut(what):
        d = np.asarray(f(x), float)
    if not np.array_equal(x, keep):
        raise Violation("%s modified its argument" % what)
    if d.shape != x.shape or not np.all(np.isfinite(d)) or np.any(d < 0):
        raise Violation("%s: densities %r" % (what, d[:5]))
    w = GL[1] * 0.5 * np.pi * (hi - lo) * np.sin(t) / 2 * d
    for p, m in enumerate((1.0, m1, m2, m3)):
        if m is not None and not abs((w * x ** p).sum() - m) <= 1e-6 * max(1, abs(hi) ** p):
            raise Violation("%s: moment of order %d is %.9g instead of %.9g" % (what, p, (w * x ** p).sum(), m))
    # pointwise closed form, scalars, and outside the support
    rng = np.random.RandomState(c["seed"])
    for u in rng.rand(3):
        v = lo + (hi - lo) * (0.001 + 0.998 * u)
        with sut(what):
            g = float(f(v))
        if not abs(g - cf(v)) <= 1e-9 * max(1, cf(v)):
            raise Violation("%s: density %r at %r instead of %r" % (what, g, v, cf(v)))
    e = (hi - lo) * 1e-6 + 1e-12
    out = [lo - e, hi + e, lo - 1 - rng.rand(), hi + rng.rand(), hi + 10]
    if k != "semicircle":
        out += [0.0] if lo > 1e-9 else []
        out += [-0.5]
    if k == "wachter":
        out += [1.0] if hi < 1 - 1e-9 else []
        out = [v for v in out if v not in (0.0, 1.0)] + [v for v in out if v in (0.0, 1.0)]
    with sut(what):
        z = np.asarray(f(np.array(out)), float)
    if np.any(z != 0):
        raise Violation("%s: density %r out of the support at %r" % (what, z[z != 0][0], np.array(out)[z != 0][0]))
    return {"nontrivial": True, "execs": 5, "tag": k}


@st.composite
def norm_case(draw):
    from checks.p19 import case
    c = draw(case(1, 12))
    if draw(st.integers(0, 5)) == 0:
        c["beta"] = 0
        c["model"] = "banded" if c["kind"] != "hermite" else draw(st.sampled_from(["banded", "full"]))
        for k in ("M", "M1", "M2", "par", "over"):
            c.pop(k, None)
        if c["kind"] == "laguerre":
            c["par"] = {"shape": draw(r3(0.2, 5)), "scale": draw(r3(0.2, 5))}
        if c["kind"] == "jacobi":
            c["par"] = {"a": draw(r3(0.2, 5)), "b": draw(r3(0.2, 5))}
        if c["kind"] == "hermite" and c["model"] == "banded":
            c["par"] = {"loc": draw(r3(-5, 5)), "scale": draw(r3(0.2, 5))}
    c["cont"] = draw(st.sampled_from(["sample", "sample", "array", "list", "ints"]))
    return c


def make(c, seed):
    import dppy.beta_ensembles as be
    cls = {"hermite": be.HermiteEnsemble, "laguerre": be.LaguerreEnsemble, "jacobi": be.JacobiEnsemble}[c["kind"]]
    kw = dict(c.get("par", {}), size_N=c["N"], **c.get("over", {}))
    for k, v in (("M", "size_M"), ("M1", "size_M1"), ("M2", "size_M2")):
        if k in c:
            kw[v] = c[k]
    e = cls(beta=c["beta"])
    # earlier samples with other parameters must not matter
    e.sample_banded_model(random_state=1, size_N=3)
    (e.sample_full_model if c["model"] == "full" else e.sample_banded_model)(random_state=seed, **kw)
    return e


def affine(c):
    """advertised map x -> (x - s) / t"""
    N, b = c["N"], c["beta"]
    if c["kind"] == "hermite":
        s, t = (c["par"]["loc"], c["par"]["scale"] / np.sqrt(2)) if "par" in c else (0.0, 1.0)
        return s, t * (np.sqrt(b * N) if b > 0 else 1.0)
    if c["kind"] == "laguerre":
        t = c["par"]["scale"] / 2.0 if "par" in c else 1.0
        if b > 0:
            t *= b * (c["M"] if "M" in c else 2.0 / b * c["par"]["shape"] + N - 1)
        return 0.0, t
    return 0.0, 1.0


def run_norm(c):
    from checks.p19 import label
    what = label(c)
    with sut(what):
        e = make(c, c["seed"])
    x = np.array(e.list_of_samples[-1], float)
    p = e.list_of_samples[-1]
    if c["cont"] == "array":
        x = np.random.RandomState(c["seed"]).randn(2, 3)
        p = x.copy()
    elif c["cont"] == "list":
        p = x.tolist()
    elif c["cont"] == "ints":
        x = np.arange(5.0)
        p = np.arange(5)
    with sut(what + ", normalize_points"):
        y = np.asarray(e.normalize_points(p), float)
    if not np.array_equal(np.asarray(p, float), x):
        raise Violation("%s: normalize_points modified its argument" % what)
    s, t = affine(c)
    if y.shape != x.shape or not np.allclose(y, (x - s) / t, rtol=1e-9, atol=1e-9 * (1 + abs(s) / t)):
        raise Violation("%s: normalize_points gives %r instead of %r" % (what, y.ravel()[:3], ((x - s) / t).ravel()[:3]))
    with sut(what + ", normalize_points again"):
        y2 = np.asarray(e.normalize_points(p), float)
    if not np.array_equal(y, y2):
        raise Violation("%s: two calls of normalize_points differ" % what)
    return {"nontrivial": c["N"] > 1, "execs": 3, "tag": "%s %s beta%s" % (c["kind"], c["model"], ">0" if c["beta"] else "=0")}


@st.composite
def limit_case(draw):
    kind = draw(st.sampled_from(["hermite", "laguerre", "jacobi"]))
    model = draw(st.sampled_from(["full", "banded", "banded sizes"]))
    if kind == "hermite" and model == "banded sizes":
        model = "banded"
    N = draw(st.integers(100, 160))
    beta = draw(st.sampled_from([1, 2, 4])) if model == "full" else draw(st.one_of(st.sampled_from([1, 2, 4]), r3(1, 8)))
    c = {"kind": kind, "model": model, "N": N, "beta": beta, "seed": draw(gens.seeds())}
    if kind == "hermite" and model == "banded":
        c["par"] = {"loc": draw(r3(-5, 5)), "scale": draw(r3(0.2, 5))}
    if kind == "laguerre":
        M = N + draw(st.integers(0, 3 * N))
        if model == "banded":
            c["par"] = {"shape": 0.5 * beta * (M - N + 1), "scale": draw(r3(0.2, 5))}
        else:
            c["M"] = M
    if kind == "jacobi":
        M1, M2 = [N + draw(st.integers(0, 3 * N)) for _ in range(2)]
        if model == "banded":
            c["par"] = {"a": 0.5 * beta * (M1 - N + 1), "b": 0.5 * beta * (M2 - N + 1)}
        else:
            c["M1"], c["M2"] = M1, M2
    return c


def run_limit(c):
    from checks.p19 import label
    from scipy.integrate import quad
    import dppy.random_matrices as rm
    what = label(c)
    with sut(what):
        e = make(c, c["seed"])
        y = np.asarray(e.normalize_points(e.list_of_samples[-1]), float)
    N, P = c["N"], e.params
    if c["kind"] == "hermite":
        f, lo, hi = rm.semi_circle_law, -2.0, 2.0
    elif c["kind"] == "laguerre":
        r = N / float(P["size_M"])
        f, lo, hi = (lambda x: rm.marcenko_pastur_law(x, P["size_M"], N)), (1 - np.sqrt(r)) ** 2, (1 + np.sqrt(r)) ** 2
    else:
        f, lo, hi = (lambda x: rm.wachter_law(x, P["size_M1"], P["size_M2"], N)), 0.0, 1.0
    t = 0.5 * np.pi * (GL[0] + 1)
    x = lo + (hi - lo) * np.sin(t / 2) ** 2
    w = GL[1] * 0.5 * np.pi * (hi - lo) * np.sin(t) / 2 * f(x)
    span = (hi - lo)
    for p in (1, 2):
        got, want = (y ** p).mean(), (w * x ** p).sum()
        tol = 25.0 / N * max(1.0, hi) ** (p - 1) * span / 4.0
        if not abs(got - want) <= tol:
            raise Violation("%s: moment of order %d of the normalized points is %.4f, the limit's is %.4f" % (what, p, got, want))
    out = np.mean((y < lo - 0.35 * span) | (y > hi + 0.35 * span))
    if out > 0:
        raise Violation("%s: normalized points lie far out of the limiting support [%.3f, %.3f]: %r" % (what, lo, hi, (y.min(), y.max())))
    # cumulative law at a few points
    F = np.cumsum(w)
    for q in (0.2, 0.5, 0.8):
        v = np.interp(q, F, x)
        got = np.mean(y <= v)
        if not abs(got - q) <= 12.0 / N + 0.02:
            raise Violation("%s: fraction of normalized points below the limit's %.1f-quantile is %.3f" % (what, q, got))
    return {"nontrivial": True, "execs": 2, "tag": "%s %s" % (c["kind"], c["model"])}


FACETS = [
    Facet("densities", dens_case, run_dens, 2000, 20000, "integral, moments, closed form, support"),
    Facet("affine map", norm_case, run_norm, 1000, 10000, "normalize_points is the advertised affine map"),
    Facet("limits", limit_case, run_limit, 300, 4000, "moments and quantiles of normalized large samples", cpu_limit=200),
]
