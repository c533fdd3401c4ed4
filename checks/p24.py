"""P24: the Tracy-Widom distribution function."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import airy

from pbt import gens
from pbt.core import Facet, Violation, sut

RULE = "A case is a history of evaluations of the cumulative function on one object (arguments, shapes and quadrature orders), or a kernel with its arguments. Non-trivial: some argument in the bulk (-6, 3), or a kernel of rank at least two."
ASSUMPTIONS = ["The independent evaluation is a Fredholm determinant by Gauss-Legendre quadrature on [s, s + L] with the exact diagonal of the Airy kernel; it agrees with published values (F(-2) = 0.41322414).",
               "Agreement within 5e-6 (the code takes the diagonal by finite differences of step 1e-5) for orders >= 30 and arguments >= -40, and for orders 20-29 and arguments >= -10; orders below 20 are outside.",
               "Monotonicity and the bounds 0 and 1 within 1e-7."]

TOL = 5e-6
GL = np.polynomial.legendre.leggauss(120)


def ref(s):
    if s > 25:
        return 1.0
    L = max(16 - s, 6)
    x = s + L * (GL[0] + 1) / 2
    w = GL[1] * L / 2
    A, dA, _, _ = airy(x)
    D = x[:, None] - x
    np.fill_diagonal(D, 1.0)
    K = (np.outer(A, dA) - np.outer(dA, A)) / D
    np.fill_diagonal(K, dA ** 2 - x * A ** 2)
    return float(np.linalg.det(np.eye(len(x)) - np.sqrt(np.outer(w, w)) * K))


def arg():
    return st.one_of(st.floats(-6, 3), st.floats(-6, 3), st.floats(-10, 10), st.floats(-40, 40), st.sampled_from([0, -2, 1, -1.7710868, 100.0, 1000.0, -3, 3])).map(lambda v: v if isinstance(v, int) else round(v, 4))


def call():
    return st.fixed_dictionaries({"x": st.lists(arg(), min_size=1, max_size=8), "form": st.sampled_from(["scalar", "list", "array", "array", "tuple"]),
                                  "order": st.sampled_from([None, None, 50, 30, 25, 80, 20, 120, 63])})


def hist_case():
    return st.fixed_dictionaries({"calls": st.lists(call(), min_size=1, max_size=5)})


def run_hist(c):
    from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
    T = TracyWidom()
    pts, vals = [], []
    bulk = False
    for n, k in enumerate(c["calls"]):
        order = k["order"]
        xs = [v if (order or 50) >= 30 else max(v, -10) for v in k["x"]]
        if k["form"] == "scalar":
            xs = xs[:1]
            x = xs[0]
        else:
            x = {"list": list, "tuple": tuple, "array": lambda t: np.array(t, float)}[k["form"]](xs)
        keep = np.array(x, float)
        what = "call %d: cdf(%r, quad_order=%r) after orders %r" % (n, x, order, [q["order"] for q in c["calls"][:n]])
        with sut(what), np.errstate(all="ignore"):
            y = np.asarray(T.cdf(x) if order is None else T.cdf(x, quad_order=order), float)
            z = np.asarray(TracyWidom().cdf(x) if order is None else TracyWidom().cdf(x, quad_order=order), float)
        if not np.array_equal(keep, np.array(x, float)):
            raise Violation("%s modified its argument" % what)
        if y.size != len(xs):
            raise Violation("%s returned %d values" % (what, y.size))
        y = y.ravel()
        for v, f in zip(xs, y):
            bulk = bulk or -6 < v < 3
            r = ref(v)
            if not np.isfinite(f) or not abs(f - r) <= TOL:
                raise Violation("%s: value %r at %r, the Fredholm determinant is %.8f" % (what, f, v, r))
            if f < -1e-7 or f > 1 + 1e-7:
                raise Violation("%s: value %r at %r is not in [0, 1]" % (what, f, v))
        if not np.max(np.abs(y - z.ravel())) <= 1e-10:
            raise Violation("%s: %r, a new object gives %r" % (what, y, z))
        pts += list(xs)
        vals += list(y)
    o = np.argsort(pts, kind="stable")
    # the finite difference of the diagonal depends on the order of the quadrature: compare across orders within TOL only
    v = np.array(vals)[o]
    d = np.diff(v)
    if np.any(d < -TOL):
        raise Violation("history %r: values %r decrease at sorted arguments %r" % (c["calls"], v, np.array(pts, float)[o]))
    return dict(nontrivial=bulk, execs=2 * len(c["calls"]), tag="history")


def mono_case():
    return st.fixed_dictionaries({"lo": st.floats(-12, 6).map(lambda v: round(v, 3)), "step": st.sampled_from([1e-3, 0.01, 0.1, 0.5]), "order": st.sampled_from([50, 30, 40, 100])})


def run_mono(c):
    from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
    x = c["lo"] + c["step"] * np.arange(24)
    with sut("cdf(%r + %r k, %d)" % (c["lo"], c["step"], c["order"])):
        y = np.asarray(TracyWidom().cdf(x, quad_order=c["order"]), float)
    if np.any(np.diff(y) < -1e-9) or y.min() < -1e-9 or not y.max() <= 1 + 1e-9:
        raise Violation("cdf on %r + %r k with order %d is not a non-decreasing function in [0, 1]: %r" % (c["lo"], c["step"], c["order"], y))
    # single evaluations agree with the array
    with sut("cdf"):
        T = TracyWidom()
        s = [float(np.asarray(T.cdf(v, quad_order=c["order"])).ravel()[0]) for v in x[::6]]
    if not np.max(np.abs(np.array(s) - y[::6])) <= 1e-10:
        raise Violation("cdf at scalars %r gives %r, in an array %r" % (x[::6], s, y[::6]))
    return dict(nontrivial=x[0] < 3 and x[-1] > -6, execs=5, tag="monotone")


def ker_case():
    return st.fixed_dictionaries({"s": st.lists(st.floats(-8, 6).map(lambda v: round(v, 3)), min_size=1, max_size=4), "m": st.integers(2, 12), "seed": gens.seeds(),
                                  "x": st.floats(-8, 6).map(lambda v: round(v, 3)), "d": st.sampled_from([0.0, 1e-3, 0.1, 1.0, 3.0])})


def kai(x, y):
    A, dA, _, _ = airy(x)
    B, dB, _, _ = airy(y)
    return dA * dA - x * A * A if x == y else (A * dB - B * dA) / (x - y)


def run_ker(c):
    from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
    T = TracyWidom()
    with sut("airy_kernel(%r, %r)" % (c["x"], c["x"] + c["d"])):
        a, b = T.airy_kernel(c["x"], c["x"] + c["d"]), T.airy_kernel(c["x"] + c["d"], c["x"])
    r = kai(c["x"], c["x"] + c["d"])
    if not abs(a - r) <= 1e-5 * (1 + abs(r)) or not abs(b - r) <= 1e-5 * (1 + abs(r)):
        raise Violation("airy_kernel(%r, %r) = %r, %r in the other order, instead of %r" % (c["x"], c["x"] + c["d"], a, b, r))
    rng = np.random.RandomState(c["seed"])
    X = np.sort(rng.rand(c["m"])) * 0.95
    X = X + 1e-3 * np.arange(c["m"]) / c["m"]
    what = "kernel(%r) on %d points" % (c["s"], c["m"])
    with sut(what):
        phi, dphi = T.change_of_variable(np.array(c["s"]))
        P, D = np.asarray(phi(X)), np.asarray(dphi(X))
        K = np.asarray(T.kernel(np.array(c["s"]))(X))
        e = 1e-6
        num = (np.asarray(phi(X + e)) - np.asarray(phi(X - e))) / (2 * e)
        at0 = np.asarray(phi(np.zeros(1))).ravel()
    if not np.max(np.abs(at0 - np.array(c["s"]))) <= 1e-12:
        raise Violation("%s: the change of variables maps 0 to %r" % (what, at0))
    if P.shape != (len(c["s"]), c["m"]) or K.shape != (len(c["s"]), c["m"], c["m"]):
        raise Violation("%s: shapes %r, %r" % (what, P.shape, K.shape))
    if np.any(np.diff(P, axis=1) < 0) or not np.max(np.abs(num - D) / D) <= 1e-4:
        raise Violation("%s: the change of variables is not increasing or its derivative is wrong" % what)
    for i in range(len(c["s"])):
        W = np.array([[kai(P[i, p], P[i, q]) * np.sqrt(D[p] * D[q]) for q in range(c["m"])] for p in range(c["m"])])
        gap = min(np.diff(P[i]))
        if not np.max(np.abs(K[i] - W)) <= 1e-4 * (1 + np.abs(W).max()) + 1e-13 / gap * np.max(D):
            raise Violation("%s, s = %r: the kernel differs from the Airy kernel after the change of variables by %.3g" % (what, c["s"][i], np.max(np.abs(K[i] - W))))
    return dict(nontrivial=len(c["s"]) >= 2, execs=4, tag="kernel")


def fred_case():
    return st.fixed_dictionaries({"r": st.integers(1, 4), "deg": st.integers(0, 5), "m": st.integers(14, 60), "seed": gens.seeds(), "stack": st.integers(0, 3)})


def run_fred(c):
    """finite-rank kernels: det(I - sum f_i g_i) = det(delta_ij - <g_i, f_j>), exact for polynomials"""
    from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
    rng = np.random.RandomState(c["seed"])
    s = max(c["stack"], 1)
    f = rng.uniform(-1, 1, size=(s, c["r"], c["deg"] + 1))
    g = rng.uniform(-1, 1, size=(s, c["r"], c["deg"] + 1))
    H = 1.0 / (np.arange(c["deg"] + 1)[:, None] + np.arange(c["deg"] + 1) + 1)
    want = [float(np.linalg.det(np.eye(c["r"]) - g[k] @ H @ f[k].T)) for k in range(s)]
    k0 = lambda x, y, k: np.einsum("ia,xa,ib,yb->xy", f[k], np.vander(x, c["deg"] + 1, increasing=True), g[k], np.vander(y, c["deg"] + 1, increasing=True))
    kernel = (lambda x, y: k0(np.asarray(x), np.asarray(y), 0)) if c["stack"] == 0 else (lambda x, y: np.array([k0(np.asarray(x), np.asarray(y), k) for k in range(s)]))
    with sut("compute_quadrature(%d), fredholm_determinant" % c["m"]):
        x, w = TracyWidom.compute_quadrature(c["m"])
        d = np.asarray(TracyWidom.fredholm_determinant(kernel, x, w), float).ravel()
    x, w = np.asarray(x), np.asarray(w)
    if len(x) != c["m"] or np.any(x < 0) or not np.all(x <= 1) or np.any(w <= 0):
        raise Violation("compute_quadrature(%d) returned nodes %r and weights %r" % (c["m"], x, w))
    for p in range(2 * c["m"]):
        if not abs((w * x ** p).sum() - 1.0 / (p + 1)) <= 1e-11:
            raise Violation("compute_quadrature(%d) integrates x^%d to %.12g" % (c["m"], p, (w * x ** p).sum()))
    if d.size != s or not np.max(np.abs(d - want)) <= 1e-9 * (1 + np.max(np.abs(want))):
        raise Violation("fredholm_determinant of kernels of rank %d: %r instead of %r" % (c["r"], d, want))
    return dict(nontrivial=c["r"] >= 2, execs=2, tag="finite rank")


FACETS = [
    Facet("histories of evaluations", hist_case, run_hist, 400, 2500, "an argument in the bulk"),
    Facet("monotone", mono_case, run_mono, 300, 2000, "some argument in the bulk"),
    Facet("kernel and change of variables", ker_case, run_ker, 400, 3000, "several values of s"),
    Facet("Fredholm determinants of finite rank", fred_case, run_fred, 400, 3000, "rank >= 2"),
]
