"""P25: the kernel of the multivariate Jacobi ensemble."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens, jacobi
from pbt.core import Facet, Violation, sut

RULE = "A case is a number of points, Jacobi parameters in dimension 1 to 4 and evaluation points. Non-trivial: at least two points and parameters which are not all equal."
ASSUMPTIONS = ["References: monic three-term recurrences and Golub-Welsch quadrature; parameters in (-0.97, 8] in dimension one and [-1/2, 1/2] (borders included) above; N <= 300 (ordering alone: N <= 5000).",
               "Integrals by tensor Gauss-Jacobi rules, exact for the polynomials concerned, in dimension at most 3; relative tolerance 1e-6."]


def r(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 4))


def params():
    small = st.one_of(st.sampled_from([-0.5, 0.5, 0.0, -0.25, 0.25]), r(-0.5, 0.5), st.sampled_from([-0.4999, 0.4999]))
    big = st.one_of(small, r(-0.97, 3), r(0, 8), st.sampled_from([-0.5, 1.0, -0.75, -0.9]))
    return st.one_of(st.tuples(st.tuples(big, big)), st.lists(st.tuples(small, small), min_size=2, max_size=4).map(tuple), st.lists(st.tuples(small, small), min_size=2, max_size=2).map(tuple))


def case(nmax=60):
    cube = st.sampled_from([1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 26, 27, 28, 36])
    return st.fixed_dictionaries({"p": params(), "N": st.one_of(cube, st.integers(1, nmax)), "M": st.integers(1, 7), "M2": st.integers(1, 7), "seed": gens.seeds(),
                                  "border": st.booleans(), "aslist": st.booleans()})


def build(c):
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    p = np.array(c["p"], float)
    what = "MultivariateJacobiOPE(N=%d, jacobi_params=%r)" % (c["N"], p.tolist())
    with sut(what), np.errstate(all="ignore"):
        o = MultivariateJacobiOPE(c["N"], p.tolist() if c["aslist"] else p)
    return o, p, what


def points(rng, m, d, border):
    X = 1 - 2 * rng.beta(0.6, 0.6, size=(m, d))
    if border:
        k = rng.rand(m, d) < 0.25
        X[k] = rng.choice([-1.0, 1.0, 0.0], size=k.sum())
    return X


def close(a, b, scale, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * scale))


def run_eval(c):
    o, p, what = build(c)
    N, d = c["N"], len(p)
    idx = jacobi.order(N, d)
    if [tuple(int(v) for v in k) for k in np.asarray(o.ordering)] != [tuple(k) for k in idx]:
        raise Violation("%s: ordering %r instead of %r" % (what, list(o.ordering)[:12], idx[:12]))
    if o.N != N or o.dim != d or not np.allclose(o.jacobi_params, p, rtol=0, atol=0):
        raise Violation("%s: attributes N=%r, dim=%r, jacobi_params=%r" % (what, o.N, o.dim, o.jacobi_params))
    mass = np.prod([jacobi.mass1(a, b) for a, b in p])
    if not abs(o.mass_of_mu - mass) <= 1e-9 * mass:
        raise Violation("%s: mass %r instead of %r" % (what, o.mass_of_mu, mass))
    rng = np.random.RandomState(c["seed"])
    X, Y = points(rng, c["M"], d, c["border"]), points(rng, c["M2"], d, c["border"])
    keep = X.copy(), Y.copy()
    FX, FY = jacobi.phi(p, idx, X), jacobi.phi(p, idx, Y)
    with sut(what + ", eval_multiD_polynomials"):
        G = np.asarray(o.eval_multiD_polynomials(X), float)
        G1 = np.asarray(o.eval_multiD_polynomials(X[0]), float)
    s = np.abs(FX).max() + 1
    if G.shape != (len(X), N) or not close(np.abs(G), np.abs(FX), s):
        raise Violation("%s: polynomials at %r are %r instead of %r" % (what, X.tolist(), G.tolist(), FX.tolist()))
    # one and the same sign for each polynomial at all points
    if not close(G * np.sign(G[:1]) , FX * np.sign(FX[:1]), s) and np.all(np.abs(FX[0]) > 1e-6 * s):
        raise Violation("%s: polynomials at %r have inconsistent signs" % (what, X.tolist()))
    if not close(G1.ravel(), G[0], s, 1e-10):
        raise Violation("%s: polynomials at a single point %r differ from those at the same point in an array" % (what, X[0].tolist()))
    KXY, KXX = FX @ FY.T, FX @ FX.T
    sc = np.sqrt(np.outer(np.diag(KXX), (FY ** 2).sum(1)))
    sx = np.sqrt(np.outer(np.diag(KXX), np.diag(KXX)))
    m = min(len(X), len(Y))
    with sut(what + ", K"):
        res = [("K(X, Y)", o.K(X, Y), KXY, sc), ("K(X)", o.K(X), KXX, sx), ("K(X, X)", o.K(X, X), KXX, sx), ("K(X, copy of X)", o.K(X, X.copy()), KXX, sx),
               ("K(X, eval_pointwise)", o.K(X, eval_pointwise=True), np.diag(KXX), np.diag(sx)),
               ("K(X, X, eval_pointwise)", o.K(X, X, eval_pointwise=True), np.diag(KXX), np.diag(sx)),
               ("K(X, Y, eval_pointwise)", o.K(X[:m], Y[:m], eval_pointwise=True), np.diag(KXY[:m, :m]), np.diag(sc[:m, :m])),
               ("K(Y, X)", o.K(Y, X), KXY.T, sc.T)]
        one = [("K(x, y)", o.K(X[0], Y[0]), KXY[0, 0], sc[0, 0]), ("K(x)", o.K(X[0]), KXX[0, 0], sx[0, 0]), ("K(x, Y)", o.K(X[0], Y), KXY[0], sc[0])]
        w = np.asarray(o.eval_w(X[np.all(np.abs(X) < 1, axis=1)]), float)
    for name, got, want, scale in res:
        if not close(got, want, scale):
            raise Violation("%s: %s at X = %r, Y = %r is %r instead of %r" % (what, name, X.tolist(), Y.tolist(), np.asarray(got).tolist(), want.tolist()))
    for name, got, want, scale in one:
        if not close(np.ravel(got), np.ravel(want), np.ravel(scale)):
            raise Violation("%s: %s at x = %r, y or Y = %r is %r instead of %r" % (what, name, X[0].tolist(), Y.tolist(), got, want))
    K = np.asarray(o.K(X), float)
    if not np.array_equal(K, K.T) and not np.max(np.abs(K - K.T) / sx) <= 1e-13:
        raise Violation("%s: K(X) is not symmetric at %r" % (what, X.tolist()))
    Xi = X[np.all(np.abs(X) < 1, axis=1)]
    ww = np.prod((1 - Xi) ** p[:, 0] * (1 + Xi) ** p[:, 1], axis=1)
    if w.shape != ww.shape or not np.all(np.abs(w - ww) <= 1e-10 * ww):
        raise Violation("%s: weights %r instead of %r at %r" % (what, w, ww, Xi.tolist()))
    if len(Xi):
        with sut(what + ", eval_w"):
            w1 = float(np.ravel(o.eval_w(Xi[0]))[0])
        if not abs(w1 - ww[0]) <= 1e-10 * ww[0]:
            raise Violation("%s: weight %r at the single point %r instead of %r" % (what, w1, Xi[0].tolist(), ww[0]))
    if not (np.array_equal(keep[0], X) and np.array_equal(keep[1], Y)):
        raise Violation("%s: evaluation points were modified" % what)
    return dict(nontrivial=N >= 2 and len(set(p.ravel())) > 1, execs=14, tag="d=%d" % d)


def run_proj(c):
    """quadrature: orthonormality, reproducing property and trace through the public kernel"""
    p = c["p"]
    if len(p) > 3:
        c = dict(c, p=p[:3])
    o, p, what = build(c)
    N, d = c["N"], len(p)
    m = max(max(k) for k in jacobi.order(N, d)) + 1
    X, w = jacobi.tensor(p, m)
    with sut(what):
        F = np.asarray(o.eval_multiD_polynomials(X), float)
        tr = float((w * np.asarray(o.K(X, eval_pointwise=True), float)).sum())
    if not abs(tr - N) <= 1e-6 * N:
        raise Violation("%s: the diagonal of the kernel integrates to %r" % (what, tr))
    G = F.T @ (w[:, None] * F)
    if not np.max(np.abs(G - np.eye(N))) <= 1e-6:
        i, j = np.unravel_index(np.argmax(np.abs(G - np.eye(N))), G.shape)
        raise Violation("%s: inner product of the polynomials %r and %r is %r" % (what, o.ordering[i], o.ordering[j], G[i, j]))
    rng = np.random.RandomState(c["seed"])
    A, B = points(rng, c["M"], d, False), points(rng, c["M2"], d, False)
    with sut(what + ", K"):
        KA, KB, KAB = [np.asarray(v, float) for v in (o.K(A, X), o.K(X, B), o.K(A, B))]
        dA, dB = np.asarray(o.K(A, eval_pointwise=True)), np.asarray(o.K(B, eval_pointwise=True))
    L = (KA * w) @ KB
    if not np.all(np.abs(L - KAB) <= 1e-6 * np.sqrt(np.outer(dA, dB))):
        raise Violation("%s: K*K differs from K at %r, %r" % (what, A.tolist(), B.tolist()))
    return dict(nontrivial=N >= 2 and len(set(np.ravel(p))) > 1, execs=5, tag="d=%d" % d)


def ord_case():
    base = st.tuples(st.integers(1, 17), st.integers(1, 6)).filter(lambda t: t[0] ** t[1] <= 5000)
    return st.one_of(st.tuples(base, st.integers(-1, 1)).map(lambda t: {"d": t[0][1], "N": max(1, t[0][0] ** t[0][1] + t[1])}), st.fixed_dictionaries({"d": st.integers(1, 6), "N": st.integers(1, 3000)}))


def run_ord(c):
    from dppy import multivariate_jacobi_ope as mj
    N, d = c["N"], c["d"]
    with sut("compute_ordering(%d, %d)" % (N, d)):
        o = [tuple(int(v) for v in k) for k in np.asarray(mj.compute_ordering(N, d)).reshape(-1, d)]
    if o != [tuple(k) for k in jacobi.order(N, d)]:
        raise Violation("compute_ordering(%d, %d): %d multi-indices, first %r" % (N, d, len(o), o[:15]))
    return dict(nontrivial=N >= 2 and d >= 2, execs=1, tag="ordering")


FACETS = [
    Facet("evaluations against the recurrences", case, run_eval, 1500, 15000, "N >= 2 and distinct parameters"),
    Facet("many polynomials", lambda: st.tuples(case(), st.integers(61, 300)).map(lambda t: dict(t[0], N=t[1])), run_eval, 400, 4000, "distinct parameters"),
    Facet("orthonormality of many polynomials", lambda: st.tuples(case(), st.integers(61, 160)).map(lambda t: dict(t[0], N=t[1], p=t[0]["p"][:2])), run_proj, 200, 2000, "distinct parameters"),
    Facet("orthonormality and reproducing property", case, run_proj, 800, 8000, "N >= 2 and distinct parameters"),
    Facet("ordering", ord_case, run_ord, 500, 3000, "N, d >= 2"),
]
