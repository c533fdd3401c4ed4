"""P26: samples of the multivariate Jacobi ensemble."""
import numpy as np
from hypothesis import strategies as st

from checks.p19 import Draws, vander
from checks.p25 import params, r
from pbt import ensembles as en
from pbt import gens, jacobi
from pbt.core import Facet, Violation, derive, sut
from pbt.stats import check_continuous, check_mean, check_two_sample

RULE = "A case is a number of points with Jacobi parameters. Non-trivial: at least two points (laws), at least one multi-index of positive degree (bounds)."
ASSUMPTIONS = ["Domination is checked on a grid of 4001 Chebyshev points per coordinate, refined around its maximum; degrees up to 60.",
               "Joint laws: E prod_n g(x_n) = det of the matrix of g in the basis of the polynomials (Andreief) for exponentials of random low-degree polynomials, first and second moments of linear statistics, and the exact law of the extreme coordinates det(int_{x_i <= s} Phi Phi^T dmu), integrals by Gauss-Jacobi quadrature and by Gauss-Legendre panels in the angle.",
               "Chain rule: complete statistics for N <= 8, dimension <= 3, linear statistics and log|Vandermonde| for N <= 80 in dimension one, 40 in two, 30 in three; tridiagonal model: N <= 12 and 80; proposals up to dimension 6.",
               "Chain rule samples of the one dimensional ensemble are required for parameters >= -1/2; smaller parameters may be refused with ValueError (the ratio to the proposal is unbounded)."]


# ---------------------------------------------------------------- rejection bounds
def bound_case():
    return st.fixed_dictionaries({"p": params(), "N": st.one_of(st.integers(1, 60), st.sampled_from([1, 2, 9, 27]))})


GRID = np.cos(np.linspace(0, np.pi, 4001))


def sup_ratio(a, b, n):
    """sup over (-1, 1) of pi (1-x)^(a+1/2) (1+x)^(b+1/2) p_k(x)^2, k = 0..n; needs a, b >= -1/2"""
    def f(t):
        # in the angle, with half-angle forms that are accurate at the borders
        x = np.cos(t)
        with np.errstate(divide="ignore"):
            lw = (2 * a + 1) * np.log(np.abs(np.sin(t / 2))) if a > -0.5 else 0.0
            lw = lw + ((2 * b + 1) * np.log(np.abs(np.cos(t / 2))) if b > -0.5 else 0.0)
        return np.pi * np.exp(lw + (a + b + 1) * np.log(2.0))[..., None] * jacobi.polys(a, b, n, x.ravel()).reshape(x.shape + (n + 1,)) ** 2 if np.ndim(lw) else np.pi * np.exp((a + b + 1) * np.log(2.0)) * jacobi.polys(a, b, n, x.ravel()).reshape(x.shape + (n + 1,)) ** 2
    t = np.linspace(0, np.pi, 4001)
    v = f(t)
    best = v.max(0)
    for k in range(n + 1):
        i = int(np.argmax(v[:, k]))
        u = np.linspace(t[max(i - 1, 0)], t[min(i + 1, 4000)], 401)
        best[k] = max(best[k], f(u)[:, k].max())
    return best


def run_bound(c):
    from dppy import multivariate_jacobi_ope as mj
    p = np.array(c["p"], float)
    N, d = c["N"], len(p)
    what = "rejection bounds, N=%d, jacobi_params=%r" % (N, p.tolist())
    with sut(what), np.errstate(all="ignore"):
        o = mj.MultivariateJacobiOPE(N, p)
        B = np.asarray(o.rejection_bounds, float)
        B2 = np.asarray(mj.compute_rejection_bounds(o.jacobi_params, o.ordering, log_scale=False), float)
    if np.any(p < -0.5):
        return dict(nontrivial=False, execs=1, tag="bound out of range")
    idx = np.array(jacobi.order(N, d))
    if B.shape != (N,) or not np.all(np.isfinite(B)) or not np.allclose(B, B2, rtol=1e-8):
        raise Violation("%s: %r with the logarithmic formulas, %r without" % (what, B[:9], B2[:9]))
    S = np.ones(N)
    for i in range(d):
        S = S * sup_ratio(p[i, 0], p[i, 1], int(idx[:, i].max()))[idx[:, i]]
    if not np.all(S <= B * (1 + 1e-8)):
        k = int(np.argmax(S / B))
        raise Violation("%s: the bound of the multi-index %r is %r, the ratio reaches %r" % (what, tuple(idx[k]), B[k], S[k]))
    # a bound far above the supremum would not terminate in time
    lim = 60.0 * (4 + np.abs(p).max()) if d == 1 else 2.2 ** d
    if not np.all(B <= S * lim):
        k = int(np.argmax(B / S))
        raise Violation("%s: the bound of the multi-index %r is %r for a ratio of at most %r" % (what, tuple(idx[k]), B[k], S[k]))
    return dict(nontrivial=idx.max() > 0, execs=2, tag="bounds d=%d" % d)


# ---------------------------------------------------------------- laws
def pp(lo=-0.5, hi=0.5):
    return st.one_of(st.sampled_from([-0.5, 0.5, 0.0, -0.25]), r(lo, hi))


def law_case(kind):
    if kind == "tridiag":
        big = st.one_of(r(-0.9, 3), pp(), r(0, 12))
        return st.fixed_dictionaries({"p": st.tuples(st.tuples(big, big)), "N": st.sampled_from([1, 2, 3, 4, 5, 6, 8, 12]), "kind": st.just(kind), "seed": gens.seeds(), "nb": st.just(None)})
    p1 = st.one_of(st.tuples(pp(), pp()), st.tuples(pp(), pp()), st.tuples(pp(-0.5, 4), pp(-0.5, 4)))
    P = st.one_of(st.tuples(p1), st.tuples(st.tuples(pp(), pp()), st.tuples(pp(), pp())), st.tuples(st.tuples(pp(), pp()), st.tuples(pp(), pp())),
                  st.tuples(st.tuples(pp(), pp()), st.tuples(pp(), pp()), st.tuples(pp(), pp())))
    return st.fixed_dictionaries({"p": P, "N": st.sampled_from([2, 3, 4, 1, 5, 6, 8] if kind == "chain" else [1, 2, 3, 4, 9, 17, 30]), "kind": st.just(kind), "seed": gens.seeds(),
                                  "nb": st.sampled_from([None, None, 5000])})


_PANEL = np.polynomial.legendre.leggauss(40)


def extreme_cdf(p, idx, i, largest=True):
    """cdf of the largest (smallest) i-th coordinate of the projection DPP; also the first marginal"""
    a, b = p[i]
    n = idx[:, i].max()
    m = 161
    knots = np.linspace(0, np.pi, m)  # x = -cos t increasing
    M = np.zeros((m, n + 1, n + 1))
    for j in range(1, m):
        h = knots[j] - knots[j - 1]
        if (j == 1 and b < 0.5) or (j == m - 1 and a < 0.5) or (j == 1 and b != 0.5) or (j == m - 1 and a != 0.5):
            # algebraic behaviour t^(2b+1) at the border: substitute t = h s^q
            q = 1.0 / (2 * (b if j == 1 else a) + 2)
            s = (_PANEL[0] + 1) / 2
            u = h * s ** q
            du = h * q * s ** (q - 1) * _PANEL[1] / 2
            t = u if j == 1 else np.pi - u
            lt = u  # distance to the border
            near, far = (b, a) if j == 1 else (a, b)
            # 1 + x = 2 sin^2(t/2): weight (1+x)^b (1-x)^a sin t dt
            w = (2 * np.sin(lt / 2) ** 2) ** near * (2 * np.cos(lt / 2) ** 2) ** far * np.sin(lt) * du
            w = np.where(np.isfinite(w), w, 0.0)
        else:
            t = (knots[j] + knots[j - 1]) / 2 + h / 2 * _PANEL[0]
            w = (2 * np.sin(t / 2) ** 2) ** b * (2 * np.cos(t / 2) ** 2) ** a * np.sin(t) * h / 2 * _PANEL[1]
        F = jacobi.polys(a, b, n, -np.cos(t))
        M[j] = F.T @ (w[:, None] * F)
    C = np.cumsum(M, axis=0)
    others = np.delete(idx, i, axis=1)
    same = (others[:, None, :] == others[None, :, :]).all(-1) if others.shape[1] else np.ones((len(idx), len(idx)), bool)
    k = idx[:, i]
    G = C[:, k][:, :, k] * same
    marg = np.trace(G, axis1=1, axis2=2) / len(idx)
    if largest:
        f = np.linalg.det(G)
    else:
        f = 1 - np.linalg.det(np.eye(len(idx)) - G)
    err = np.max(np.abs(G[-1] - np.eye(len(idx))))
    assert err < 1e-5, err
    x = -np.cos(knots)
    # interpolate in the angle
    ip = lambda v: (lambda y: np.interp(np.arccos(-np.clip(y, -1, 1)), knots, np.maximum.accumulate(np.clip(v, 0, 1))))
    from scipy.interpolate import PchipInterpolator
    ip = lambda v: (lambda y, g=PchipInterpolator(knots, np.maximum.accumulate(np.clip(v, 0, 1))): g(np.arccos(-np.clip(y, -1, 1))))
    return ip(f), ip(marg)


def run_law(c, n=None):
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    p = np.array(c["p"], float)
    N, d = c["N"], len(p)
    kind = c["kind"]
    if kind == "chain" and d == 3:
        N = min(N, 4)
    idx = np.array(jacobi.order(N, d))
    what = {"tridiag": "sample()", "chain": "sample(tridiag_1D=False)", "proposal": "sample_chain_rule_proposal()"}[kind] + ", N=%d, jacobi_params=%r" % (N, p.tolist())
    with sut(what), np.errstate(all="ignore"):
        o = MultivariateJacobiOPE(N, p)
    kw = {} if c["nb"] is None else {"nb_trials_max": c["nb"]}

    def draw(rng):
        with sut(what):
            if kind == "proposal":
                x = np.asarray(o.sample_chain_rule_proposal(random_state=rng, **kw), float)
                shape = (d,)
            else:
                x = np.asarray(o.sample(random_state=rng, tridiag_1D=kind == "tridiag", **kw), float)
                shape = (N, d)
        if x.shape != shape or not np.all(np.abs(x) <= 1):
            raise Violation("%s: sample of shape %r: %r" % (what, x.shape, x))
        return x.reshape(-1, d)
    D = Draws(draw)
    n = n or {"tridiag": 3000, "proposal": 1500, "chain": 1200 if N <= 3 else 500}[kind]
    seed = derive(c)
    rng0 = np.random.RandomState(c["seed"])
    # a projection kernel allows the probability of borders to be 0
    for i in range(d):
        F, G = extreme_cdf(p, idx, i, True)
        if kind == "proposal":
            check_continuous(D.stat(lambda X, i=i: X[:, 0, i]), G, n, seed, what + ", coordinate %d" % i)
        else:
            check_continuous(D.stat(lambda X, i=i: X[:, :, i].max(1)), F, n, seed, what + ", largest coordinate %d" % i)
            F, _ = extreme_cdf(p, idx, i, False)
            check_continuous(D.stat(lambda X, i=i: X[:, :, i].min(1)), F, n, seed, what + ", smallest coordinate %d" % i)
            if kind == "chain":
                check_continuous(D.stat(lambda X, i=i: X[:, 0, i]), G, n, seed, what + ", coordinate %d of the first point" % i)
                check_continuous(D.stat(lambda X, i=i: X[:, -1, i]), G, n, seed, what + ", coordinate %d of the last point" % i)
    # multiplicative functionals
    m = int(idx.max()) + 14
    X, w = jacobi.tensor(p, m)
    Phi = jacobi.phi(p, idx, X)
    fs = []
    for _ in range(3):
        A, B, e = rng0.uniform(-1, 1, size=(d, d)), rng0.uniform(-1, 1, size=d), rng0.uniform(0.3, 0.9)
        fs.append(lambda Z, A=A, B=B, e=e: e * (np.einsum("...i,ij,...j->...", Z, A, Z) + Z @ B) / d)
    if kind == "proposal":
        kxx = (Phi ** 2).sum(1) / N
        means = [float((w * kxx * np.exp(f(X))).sum()) for f in fs]
        stat = lambda Z: np.array([np.exp(f(Z[:, 0])) for f in fs]).T
    else:
        means = [float(np.linalg.det(Phi.T @ ((w * np.exp(f(X)))[:, None] * Phi))) for f in fs]
        T = [Phi.T @ ((w * f(X))[:, None] * Phi) for f in fs]
        means += [float(np.trace(t)) for t in T]
        T2 = [float((w * f(X) ** 2 * (Phi ** 2).sum(1)).sum()) for f in fs]
        means += [T2[k] - float((T[k] * T[k]).sum()) + float(np.trace(T[k])) ** 2 for k in range(3)]
        stat = lambda Z: np.array([np.exp(f(Z).sum(1)) for f in fs] + [f(Z).sum(1) for f in fs] + [f(Z).sum(1) ** 2 for f in fs]).T
    check_mean(D.stat(stat), means, n, seed, what + ", multiplicative and linear statistics", z=4, z2=6.5, atol=1e-7)
    return dict(nontrivial=N >= 2, execs=D.n, tag="%s d=%d" % (kind, d))


def many_case():
    d1 = st.fixed_dictionaries({"p": st.tuples(st.one_of(st.tuples(pp(), pp()), st.tuples(pp(-0.5, 2), pp(-0.5, 2)))), "N": st.one_of(st.integers(9, 26), st.integers(27, 80)), "kind": st.just("chain")})
    d2 = st.fixed_dictionaries({"p": st.tuples(*[st.tuples(pp(), pp())] * 2), "N": st.integers(9, 40), "kind": st.just("chain")})
    d3 = st.fixed_dictionaries({"p": st.tuples(*[st.tuples(pp(), pp())] * 3), "N": st.integers(5, 30), "kind": st.just("chain")})
    t = st.fixed_dictionaries({"p": st.tuples(st.tuples(r(-0.9, 6), r(-0.9, 6))), "N": st.integers(13, 80), "kind": st.just("tridiag")})
    return st.tuples(st.one_of(d1, d2, d2, d3, t), gens.seeds()).map(lambda c: dict(c[0], seed=c[1]))


def run_many(c):
    """linear statistics of many points: expectation, variance (int f^2 K - int int f f K^2) and the expectation of a product"""
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    p = np.array(c["p"], float)
    N, d, tri = c["N"], len(p), c["kind"] == "tridiag"
    idx = np.array(jacobi.order(N, d))
    what = "%s, N=%d, jacobi_params=%r" % ("sample()" if tri else "sample(tridiag_1D=False)", N, p.tolist())
    with sut(what), np.errstate(all="ignore"):
        o = MultivariateJacobiOPE(N, p)

    def draw(rng):
        with sut(what):
            x = np.asarray(o.sample(random_state=rng, tridiag_1D=tri), float)
        if x.shape != (N, d) or not np.all(np.abs(x) <= 1):
            raise Violation("%s: sample of shape %r: %r" % (what, x.shape, x))
        return x
    D = Draws(draw)
    X, w = jacobi.tensor(p, int(idx.max()) + 12)
    Phi = jacobi.phi(p, idx, X)
    rng0 = np.random.RandomState(c["seed"])
    fs = [lambda Z, i=i: Z[..., i] for i in range(d)] + [lambda Z: (Z ** 2).sum(-1)]
    A, B = rng0.uniform(-1, 1, size=(d, d)), rng0.uniform(-1, 1, size=d)
    fs.append(lambda Z: np.einsum("...i,ij,...j->...", Z, A, Z) + Z @ B)
    ES, V, G = [], [], []
    for f in fs:
        T = Phi.T @ ((w * f(X))[:, None] * Phi)
        ES.append(float(np.trace(T)))
        V.append(float((w * f(X) ** 2 * (Phi ** 2).sum(1)).sum()) - float((T * T).sum()))
        G.append(float(np.linalg.det(Phi.T @ ((w * np.exp(0.5 * f(X) / d))[:, None] * Phi))) / np.exp(0.5 * ES[-1] / d))
    means = ES + V + G
    stat = lambda Z: np.array([f(Z).sum(1) for f in fs] + [(f(Z).sum(1) - e) ** 2 for f, e in zip(fs, ES)] + [np.exp(0.5 * (f(Z).sum(1) - e) / d) for f, e in zip(fs, ES)]).T
    if d == 1:
        ref = en.Ref("jacobi", a=p[0, 0] + 1, b=p[0, 1] + 1)
        want = ref.mean_logdet(N, 2) + N * (N - 1) / 2.0 * np.log(2.0)
        check_mean(D.stat(lambda Z: vander(Z[:, :, 0])), [want], 600 if tri else 160, derive(c), what + ", log Vandermonde")
    check_mean(D.stat(stat), means, 600 if tri else 160, derive(c), what + ", linear statistics", atol=1e-7, z2=7)
    return dict(nontrivial=True, execs=D.n, tag="%s d=%d" % (c["kind"], d))


def high_case():
    return st.integers(4, 6).flatmap(lambda d: st.fixed_dictionaries({"p": st.tuples(*[st.tuples(pp(), pp())] * d), "N": st.one_of(st.integers(1, 70), st.sampled_from([2 ** d, 2 ** d + 1])), "seed": gens.seeds()}))


def run_high(c):
    """proposals in dimension 4 to 6: coordinates and products of functions of the coordinates"""
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    p = np.array(c["p"], float)
    N, d = c["N"], len(p)
    idx = np.array(jacobi.order(N, d))
    what = "sample_chain_rule_proposal(), N=%d, jacobi_params=%r" % (N, p.tolist())
    with sut(what), np.errstate(all="ignore"):
        o = MultivariateJacobiOPE(N, p)

    def draw(rng):
        with sut(what):
            x = np.asarray(o.sample_chain_rule_proposal(random_state=rng), float)
        if x.shape != (d,) or not np.all(np.abs(x) <= 1):
            raise Violation("%s: sample %r" % (what, x))
        return x
    D = Draws(draw)
    t = np.random.RandomState(c["seed"]).uniform(-1, 1, size=(4, d))
    t[3] = 0
    E = np.ones((4, N))
    sq = np.ones(N)
    for i in range(d):
        x, w = jacobi.quad(p[i, 0], p[i, 1], 30)
        F = jacobi.polys(p[i, 0], p[i, 1], int(idx[:, i].max()), x) ** 2
        for j in range(3):
            E[j] *= ((w * np.exp(t[j, i] * x)) @ F)[idx[:, i]]
        E[3] *= ((w * x * x) @ F)[idx[:, i]]
    means = list(E[:3].mean(1)) + [float(E[3].mean())]
    stat = lambda X: np.concatenate([np.exp(X @ t[:3].T), (X ** 2).prod(1)[:, None]], 1)
    check_mean(D.stat(stat), means, 1500, derive(c), what + ", products of functions of the coordinates")
    return dict(nontrivial=N >= 2, execs=D.n, tag="d=%d" % d)


def small_case():
    return st.fixed_dictionaries({"p": st.tuples(st.tuples(r(-0.98, -0.51), r(-0.98, 3))), "swap": st.booleans(), "N": st.integers(1, 4), "seed": gens.seeds()})


def run_small(c):
    """below -1/2 the chain rule may be refused, but must not return samples of another law"""
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    p = np.array(c["p"], float)
    if c["swap"]:
        p = p[:, ::-1].copy()
    N = c["N"]
    what = "sample(tridiag_1D=False), N=%d, jacobi_params=%r" % (N, p.tolist())
    idx = np.array(jacobi.order(N, 1))
    with sut(what), np.errstate(all="ignore"):
        o = MultivariateJacobiOPE(N, p)
        try:
            o.sample(tridiag_1D=False, random_state=c["seed"])
        except ValueError:
            return dict(nontrivial=False, execs=1, tag="refused")
    D = Draws(lambda rng: np.asarray(o.sample(tridiag_1D=False, random_state=rng)))
    F, G = extreme_cdf(p, idx, 0, True)
    with sut(what):
        check_continuous(D.stat(lambda X: X[:, :, 0].max(1)), F, 400, c["seed"], what + ", largest point")
    return dict(nontrivial=True, execs=400, tag="accepted")


FACETS = [
    Facet("rejection bounds dominate", bound_case, run_bound, 250, 5000, "positive degrees"),
    Facet("proposals", lambda: law_case("proposal"), run_law, 40, 500, "N >= 2"),
    Facet("chain rule", lambda: law_case("chain"), run_law, 32, 400, "N >= 2", cpu_limit=120),
    Facet("tridiagonal model", lambda: law_case("tridiag"), run_law, 32, 400, "N >= 2"),
    Facet("many draws", lambda: st.one_of(law_case("proposal"), law_case("chain")), lambda c: run_law(dict(c, N=min(c["N"], 3)), 15000 if c["kind"] == "proposal" else 6000), 24, 300, "N >= 2", cpu_limit=600),
    Facet("many points", many_case, run_many, 96, 1500, "all", cpu_limit=300),
    Facet("proposals in high dimension", high_case, run_high, 40, 400, "N >= 2", cpu_limit=300),
    Facet("one dimension below -1/2", small_case, run_small, 20, 100, "accepted parameters"),
]
