"""P22: Gibbs sampling of beta ensembles with polynomial potential."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import gens, stats
from pbt.core import Facet, Violation, derive, sut

RULE = "A case is a potential of degree at most six (without quintic term where one samples) with an index and a state, a conditional density with its sampler, or a Gibbs chain. Non-trivial: the potential has degree at least four (polynomials), the density is not an elementary gamma or Gaussian (samplers), at least two points (chains)."
ASSUMPTIONS = ["Conditionals of the off-diagonal coefficients are log-concave up to the factor x^(shape-1), which holds for g_4 >= 0 with g_6 >= 0; potentials with g_6 > 0 > g_4 are not sampled by the Dev12 method on purpose and are outside.",
               "Laws of the samplers are compared with cumulative functions integrated on a grid of 20001 points; MALA is started from the target and must leave it invariant.",
               "Chains are compared with the beta ensemble by the Schwinger-Dyson equations of the joint density (batch means, threshold 4.5, then 6 standard errors and confirmation on a chain four times as long), for N = 1, 2 by the integrated marginals of extreme points, and for quadratic potentials by an independent tridiagonal model.",
               "MALA chains use potentials scaled so that the conditionals are comparable with the fixed step size 0.01."]


# ---------------------------------------------------------------- polynomials
def pot(degrees=(2, 4, 6), odd=True, quintic=False):
    c = st.integers(-6, 6)
    return st.sampled_from(degrees).flatmap(lambda d: st.tuples(*[
        (st.integers(1, 6) if k == d else st.just(0) if (k == 5 and not quintic) or (k % 2 and not odd) else st.one_of(st.just(0), c)) for k in range(1, d + 1)]))


def poly_case():
    e = st.integers(-5, 5)
    return st.integers(1, 7).flatmap(lambda n: st.fixed_dictionaries({
        "g": pot(degrees=(1, 2, 3, 4, 4, 5, 6, 6, 6), quintic=True), "N": st.just(n), "a": st.lists(e, min_size=n, max_size=n), "b": st.lists(st.integers(0, 5), min_size=n - 1, max_size=n - 1),
        "i": st.integers(1, n), "scale": st.sampled_from([1, 1, 2, 3, 7])}))


def trace_poly(g, a, b):
    """tr V(T) with T tridiagonal of diagonal a and products b of the off-diagonal entries; exact (Fractions)"""
    n = len(a)
    T = [[Fraction(0)] * n for _ in range(n)]
    for i in range(n):
        T[i][i] = Fraction(a[i])
        if i + 1 < n:
            T[i][i + 1], T[i + 1][i] = Fraction(1), Fraction(b[i])
    tot, P = Fraction(0), [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for gk in g:
        P = [[sum(P[i][l] * T[l][j] for l in range(max(0, j - 1), min(n, j + 2))) for j in range(n)] for i in range(n)]
        tot += gk * sum(P[i][i] for i in range(n))
    return tot


def run_poly(c):
    from dppy import beta_ensemble_polynomial_potential_core as core
    n, i, sc = c["N"], c["i"], c["scale"]
    a = [Fraction(v, sc) for v in c["a"]]
    b = [Fraction(v, sc) for v in c["b"]]
    V = np.poly1d(list(map(float, c["g"][::-1])) + [0.0])
    fa, fb = np.zeros((2, n + 3))
    fa[1:n + 1] = [float(v) for v in a]
    fb[1:n] = [float(v) for v in b]
    d = len(c["g"])
    for which in ("a", "b"):
        if which == "b" and i == n:
            continue
        what = "conditional of %s_%d, N=%d, g_1..=%r, a=%r, b=%r" % (which, i, n, c["g"], [float(v) for v in a], [float(v) for v in b])
        ka, kb, kV = fa.copy(), fb.copy(), V.coeffs.copy()
        with sut(what):
            f = core.polynomial_in_negative_log_conditional_a_coef if which == "a" else core.polynomial_in_negative_log_conditional_b_coef
            P = f(i, fa, fb, V)
        if not (np.array_equal(ka, fa) and np.array_equal(kb, fb) and np.array_equal(kV, V.coeffs)):
            raise Violation("%s: arguments were modified" % what)

        def tr(x):
            if which == "a":
                return trace_poly(c["g"], a[:i - 1] + [Fraction(x)] + a[i:], b)
            return trace_poly(c["g"], a, b[:i - 1] + [Fraction(x)] + b[i:])
        t0 = tr(0)
        for x in (-3, -2, -1, 1, 2, 3, 4):
            want = tr(x) - t0
            got = float(P(float(x)) - P(0.0))
            mag = 1 + sum(abs(float(v)) * abs(x) ** k for k, v in enumerate(P.coeffs[::-1])) + abs(float(want))
            if not abs(got - float(want)) <= 1e-9 * mag:
                raise Violation("%s: P(%d) - P(0) = %.12g whereas the trace of V(T) varies by %.12g" % (what, x, got, float(want)))
    return dict(nontrivial=d >= 4 and n >= 2, execs=1 + (i < n), tag="poly deg %d" % d)


# ---------------------------------------------------------------- samplers of the conditionals
def fl(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 4))


def samp_case():
    quart = st.fixed_dictionaries({"kind": st.just("quartic"), "p4": st.one_of(st.just(0.0), fl(0.05, 30)), "p3": st.one_of(st.just(0.0), fl(-1, 1)), "slack": fl(0, 20),
                                   "p1": fl(-30, 30), "shift": fl(-3, 3)})
    shp = st.sampled_from(["=1", "=1", "<1", ">1", "big", "other"]).flatmap(lambda k: {"=1": st.just(1.0), "<1": st.one_of(st.just(0.5), fl(0.1, 1)), ">1": fl(1, 1.2), "big": fl(1, 30), "other": st.sampled_from([1.5, 2.0, 4.0])}[k])
    p1 = st.sampled_from([0, 1, 1, 2, 3]).flatmap(lambda k: [fl(-20, 40), fl(-20, -0.05), fl(0, 3), fl(-3, 3)][k])
    p3p2 = st.sampled_from([0, 1, 1, 2, 3]).flatmap(lambda k: [st.just((0.0, 0.0)), st.tuples(st.just(0.0), fl(0.05, 30)), st.tuples(fl(0.05, 20), fl(0.05, 30)), st.tuples(fl(0.05, 20), st.just(0.0))][k])
    gam = st.fixed_dictionaries({"kind": st.just("gamma"), "shape": shp, "pp": p3p2, "p1": p1}).map(lambda c: {"kind": "gamma", "shape": c["shape"], "p3": c["pp"][0], "p2": c["pp"][1], "p1": c["p1"]})
    return st.tuples(st.sampled_from([0, 1, 1, 1]).flatmap(lambda k: gam if k else quart), gens.seeds()).map(lambda t: dict(t[0], seed=t[1]))


def num_cdf(logf, lo, hi, shape=None):
    """cdf on [lo, hi]; with shape, lo = 0 and the integrable singularity x^(shape-1) is removed by x = u^(1/min(shape,1))"""
    m = 20001
    if shape is None:
        x = np.linspace(lo, hi, m)
        l = logf(x)
        w = np.exp(l - l.max())
    else:
        p = 1.0 / min(shape, 1.0)
        u = np.linspace(0, hi ** (1 / p), m)
        x = u ** p
        with np.errstate(divide="ignore", invalid="ignore"):
            # x^(s-1) dx = p u^(p(s-1)+p-1) du = p u^(ps-1) du
            e = p * shape - 1
            l = np.where(u > 0, (e * np.log(u) if e > 1e-12 else 0.0), 0.0 if e <= 1e-12 else -np.inf) - logf(x)
        w = np.exp(l - l.max())
        x_ = u
        F = np.concatenate([[0], np.cumsum((w[1:] + w[:-1]) * np.diff(x_))])
        return lambda t: np.interp(np.maximum(np.asarray(t, float), 0) ** (1 / p), u, F / F[-1])
    F = np.concatenate([[0], np.cumsum((w[1:] + w[:-1]) * np.diff(x))])
    return lambda t: np.interp(t, x, F / F[-1])


def bracket(logf, x0, step, positive=False):
    """interval outside which the density is below exp(-45) of its largest value on a coarse search"""
    f0 = logf(x0)
    hi = x0 + step
    while logf(hi) > f0 - 45:
        hi = x0 + 2 * (hi - x0)
    if positive:
        return 0.0, hi
    lo = x0 - step
    while logf(lo) > f0 - 45:
        lo = x0 - 2 * (x0 - lo)
    return lo, hi


def run_samp(c, n=2500):
    from dppy import beta_ensemble_polynomial_potential_core as core
    if c["kind"] == "quartic":
        # convex: 12 p4 x^2 + 6 p3 x + 2 p2 >= 0; with p4 = 0 a Gaussian
        p4 = c["p4"]
        p3 = c["p3"] * p4
        p2 = (0.375 * p3 * p3 / p4 if p4 > 0 else 0.0) + c["slack"] + (0.1 if p4 == 0 else 0.0)
        P = np.poly1d([p4, p3, p2, c["p1"], 0.0])
        P = sum((np.poly1d([1, -c["shift"]]) ** k * v for k, v in enumerate(P.coeffs[::-1])), np.poly1d([0.0]))
        what = "sampler_exact_convex_quartic(P=%r)" % (list(np.round(P.coeffs, 5)),)
        r = P.deriv().roots
        r = r[np.abs(r.imag) < 1e-4].real
        m = min(r, key=lambda v: P(v))
        lo, hi = bracket(lambda x: -P(x), m, 1e-3)
        cdf = num_cdf(lambda x: -P(x), lo, hi)
        shape = None
    else:
        s, p3, p2, p1 = c["shape"], c["p3"], c["p2"], c["p1"]
        if p2 == 0 and p3 == 0:
            p1 = abs(p1) + 0.05
        P = np.poly1d([p3, p2, p1, 0.0])
        shape = s
        what = "sampler_exact_convex_quartic(P=%r, shape=%r)" % (list(P.coeffs), s)
        # mode of the density or a scale
        r = (np.poly1d([1, 0]) * P.deriv() - max(s - 1, s)).roots
        m = max(v.real for v in r if abs(v.imag) < 1e-9 and v.real > 0)
        r = s / m
        lo, hi = bracket(lambda x: (s - 1) * np.log(x) - P(x), m, m, True)
        cdf = num_cdf(lambda x: P(x), 0.0, hi, shape=s)
    keep = P.coeffs.copy()

    def draw(rng, n):
        with sut(what):
            x = np.empty(n)
            for j in range(n):
                v = core.sampler_exact_convex_quartic(P, random_state=rng) if shape is None else core.sampler_exact_convex_quartic(P, shape=shape, random_state=rng)
                v = np.asarray(v[0], float)
                if v.size != 1:
                    raise Violation("%s returned %r" % (what, v))
                x[j] = v.ravel()[0]
        return x
    stats.check_continuous(draw, cdf, n, derive(c), what, confirm=4)
    if not np.array_equal(keep, P.coeffs):
        raise Violation("%s modified the polynomial" % what)
    return dict(nontrivial=P.order > (2 if shape is None else 1), execs=n, tag="%s %s" % (c["kind"], "" if shape is None else "<1" if shape < 1 else "=1" if shape == 1 else ">1"))


def mala_case():
    return st.fixed_dictionaries({"p4": st.one_of(st.just(0.0), fl(0.05, 5)), "p3": fl(-3, 3), "p2": fl(-4, 4), "p1": fl(-4, 4), "p6": st.one_of(st.just(0.0), fl(0.02, 2)),
                                  "rel": st.sampled_from([0.3, 0.7, 1.0, 1.5]), "scale": st.sampled_from([1.0, 1.0, 0.003, 200.0]), "steps": st.integers(1, 6), "seed": gens.seeds()})


def run_mala(c, n=4000):
    from dppy import beta_ensemble_polynomial_potential_core as core
    p6, p4, p3, p2 = c["p6"], c["p4"], c["p3"], c["p2"]
    if p6 == 0 and p4 == 0:
        p3, p2 = 0.0, abs(p2) + 0.1
    sc = c.get("scale", 1.0)
    W = np.poly1d([p6, 0.0, p4, p3, p2, c["p1"], 0.0])
    r = W.deriv().roots
    r = r[np.abs(r.imag) < 1e-5].real
    m = sc * min(r, key=lambda v: W(v))
    P = np.poly1d(W.coeffs / sc ** np.arange(W.order, -1, -1.0))
    lo, hi = bracket(lambda x: -P(x), m, 0.05 * sc)
    cdf = num_cdf(lambda x: -P(x), lo, hi)
    grid = np.linspace(lo, hi, 20001)
    Fg = cdf(grid)
    sd = np.interp(0.84, Fg, grid) - np.interp(0.16, Fg, grid)
    sigma = float("%.4g" % (0.5 * sd * c["rel"]))
    what = "sampler_mala(V=%r, sigma=%r, nb_steps=%d)" % (list(np.round(P.coeffs, 5)), sigma, c["steps"])

    def draw(rng, n):
        x0 = np.interp(rng.rand(n), Fg, grid)
        with sut(what), np.errstate(over="ignore", invalid="ignore"):
            return np.array([core.sampler_mala(x, P, sigma=sigma, nb_steps=c["steps"], random_state=rng) for x in x0])
    stats.check_continuous(draw, cdf, n, derive(c), what + " started from its target", confirm=4)
    # it moves
    rng = np.random.RandomState(c["seed"])
    x = np.interp(rng.rand(40), Fg, grid)
    with sut(what), np.errstate(over="ignore", invalid="ignore"):
        y = np.array([core.sampler_mala(v, P, sigma=sigma, nb_steps=30, random_state=rng) for v in x])
    if np.all(x == y):
        raise Violation("%s never moves" % what)
    return dict(nontrivial=P.order > 2, execs=n, tag="mala")


# ---------------------------------------------------------------- Gibbs chains
BETAS = (2, 1, 0.5, 4, 3.3)


def gibbs_case(mode):
    g = {"exact": st.one_of(st.tuples(fl(-2, 2), fl(0, 2), st.just(0), fl(0.1, 2)), st.tuples(st.just(0), fl(0, 1), st.just(0), fl(0.1, 2))),
         "mala": st.one_of(st.tuples(fl(-1, 1), fl(-0.5, 1), fl(-1, 1), fl(0.1, 1)), st.tuples(fl(-1, 1), fl(0, 1), fl(-.5, .5), fl(0, 1), st.just(0), fl(0.1, 0.6)),
                           st.tuples(fl(-1, 1), fl(0.2, 1)), st.just((8 / 5., 1 / 5., -4 / 15., 1 / 20.)))}[mode]
    return st.fixed_dictionaries({"g": g, "beta": st.sampled_from(BETAS), "N": st.sampled_from([2, 3, 4, 2, 3, 1]) if mode == "exact" else st.sampled_from([2, 3, 2, 3, 1]),
                                  "seed": gens.seeds(), "mode": st.just(mode)})


def sd_stats(lam, beta, N, V):
    """columns with zero mean under exp(-beta N/2 sum V) |Delta|^beta: sum f' - beta N/2 sum f V' + beta sum_{i<j} (f_i - f_j)/(l_i - l_j)"""
    dV = V.deriv()(lam)
    out = []
    s = 1.0
    for k in range(4):
        f = lam ** k
        fp = k * lam ** (k - 1) if k else np.zeros_like(lam)
        r = fp.sum(0) - 0.5 * beta * N * (f * dV).sum(0)
        for i in range(N):
            for j in range(i):
                q = np.zeros(lam.shape[1])
                for l in range(k):
                    q = q + lam[i] ** l * lam[j] ** (k - 1 - l)
                r = r + beta * q
        out.append(r)
    # functions which are not polynomials
    s = lam.std() + 1e-12
    f, fp = np.tanh(lam / s), (1 - np.tanh(lam / s) ** 2) / s
    r = fp.sum(0) - 0.5 * beta * N * (f * dV).sum(0)
    for i in range(N):
        for j in range(i):
            d = lam[i] - lam[j]
            r = r + beta * np.where(np.abs(d) > 1e-9 * s, (f[i] - f[j]) / np.where(d == 0, 1, d), fp[i])
    out.append(r)
    return np.array(out).T


def batch_z(x, nb=25):
    m = len(x) // nb
    b = x[len(x) - m * nb:].reshape(nb, m, -1).mean(1)
    return b.mean(0) / (b.std(0, ddof=1) / np.sqrt(nb) + 1e-300), b.mean(0)


def run_gibbs(c):
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    N, beta, mode = c["N"], c["beta"], c["mode"]
    g = np.array(c["g"], float)
    if mode == "mala":
        # V(x) = W(x / s): conditionals on the scale of the fixed step 0.01
        s = 0.06
        g = g / s ** np.arange(1, len(g) + 1)
    V = np.poly1d(list(g[::-1]) + [0.0])
    what = "sample_mcmc, V=%r, beta=%r, N=%d, sample_exact_cond=%r" % (list(np.round(V.coeffs, 4)), beta, N, mode == "exact")
    n = {"exact": {1: 800, 2: 500, 3: 300, 4: 200}, "mala": {1: 180, 2: 90, 3: 50}}[mode].get(N, 150)
    burn = 12 if N < 5 else 30

    def chain(m, seed):
        with sut(what), np.errstate(over="ignore"):
            o = B(beta, V)
            x = o.sample_mcmc(N=N, nb_gibbs_passes=m + burn, sample_exact_cond=mode == "exact", nb_mala_steps=60, return_chain_of_eig_vals=True, random_state=seed)
        x = np.asarray(x)
        if x.shape != (N, m + burn) or not np.all(np.isfinite(x)):
            raise Violation("%s: chain of shape %r" % (what, x.shape))
        return x[:, burn:]
    x = chain(n, derive(c))
    z, mm = batch_z(sd_stats(x, beta, N, V))
    if np.any(np.abs(z) > 4.5):
        k = int(np.argmax(np.abs(z)))
        x = chain(6 * n, derive(c) // 2 + 3)
        z2, mm2 = batch_z(sd_stats(x, beta, N, V))
        if not abs(z2[k]) <= 6 and np.sign(z2[k]) == np.sign(z[k]):
            raise Violation("%s: the Schwinger-Dyson equation of the test function %d is not satisfied along the chain: mean %.4g, %.1f standard errors (before: %.1f)" % (what, k, mm2[k], z2[k], z[k]))
    return dict(nontrivial=N >= 2, execs=n, tag="gibbs %s N=%d" % (mode, N))


def many_case():
    g = st.one_of(st.tuples(fl(-2, 2), fl(0, 2), st.just(0), fl(0.1, 2)), st.tuples(st.just(0.0), fl(0, 1), st.just(0), fl(0.1, 2)), st.tuples(st.just(0.0), fl(0.1, 3)))
    return st.fixed_dictionaries({"g": g, "beta": st.sampled_from(BETAS), "N": st.integers(5, 20), "seed": gens.seeds(), "mode": st.just("exact")})


def quad_case():
    return st.fixed_dictionaries({"g1": st.one_of(st.just(0.0), fl(-2, 2)), "g2": fl(0.1, 3), "beta": st.sampled_from(BETAS), "N": st.one_of(st.sampled_from([2, 3, 4, 5, 6, 8, 1]), st.integers(9, 40)), "seed": gens.seeds()})


def run_quad(c):
    """quadratic potentials: passes are iid Hermite samples"""
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    N, beta, g1, g2 = c["N"], c["beta"], c["g1"], c["g2"]
    V = np.poly1d([g2, g1, 0.0])
    what = "sample_mcmc, V=%g x^2 + %g x, beta=%r, N=%d" % (g2, g1, beta, N)
    n = 1600 // N + 100 if N < 9 else 150

    def draw(rng, m):
        with sut(what):
            x = B(beta, V).sample_mcmc(N=N, nb_gibbs_passes=m, sample_exact_cond=True, return_chain_of_eig_vals=True, random_state=rng)
        return x
    def ref(rng, m):
        s2 = 1 / (beta * N * g2)
        A = -g1 / (2 * g2) + rng.randn(m, N) * np.sqrt(s2)
        T = np.zeros((m, N, N))
        i = np.arange(N)
        T[:, i, i] = A
        if N > 1:
            off = np.sqrt(rng.chisquare(beta * np.arange(N - 1, 0, -1), size=(m, N - 1)) * s2 / 2)
            T[:, i[:-1], i[1:]] = off
            T[:, i[1:], i[:-1]] = off
        return np.linalg.eigvalsh(T).T
    for name, f in (("largest point", lambda x: x.max(0)), ("sum of squares", lambda x: ((x + g1 / 2 / g2) ** 2).sum(0)), ("smallest gap", lambda x: np.diff(np.sort(x, 0), axis=0).min(0) if N > 1 else x[0])):
        stats.check_two_sample(lambda rng, m: f(draw(rng, m)), lambda rng, m: f(ref(rng, (30 if N < 9 else 10) * m)), n // 3, derive(c), "%s: %s against the Hermite ensemble" % (what, name), confirm=4)
    return dict(nontrivial=N >= 2, execs=n, tag="quadratic")


def ret_case():
    return st.fixed_dictionaries({"g": st.one_of(pot(degrees=(2, 4), odd=False).map(lambda t: tuple(abs(v) for v in t)), pot(degrees=(2, 4, 6)).filter(lambda t: len(t) < 6 or t[3] >= 0)),
                                  "beta": st.sampled_from(BETAS), "N": st.integers(1, 5), "passes": st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 120)), "exact": st.booleans(), "seed": gens.seeds(), "mala": st.integers(1, 5)})


def run_ret(c):
    """options returning the chain describe one and the same chain"""
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    V = np.poly1d(list(map(float, c["g"][::-1])) + [0.0])
    N, p = c["N"], c["passes"]
    ex = c["exact"] and len(c["g"]) <= 4 and not (len(c["g"]) > 2 and c["g"][2]) and min(c["g"][1::2]) >= 0
    what = "sample_mcmc, V=%r, beta=%r, N=%d, %d passes" % (list(V.coeffs), c["beta"], N, p)
    kw = dict(N=N, nb_gibbs_passes=p, sample_exact_cond=ex, nb_mala_steps=c["mala"], random_state=c["seed"])
    with sut(what):
        o = B(c["beta"], V)
        x = np.asarray(o.sample_mcmc(**kw))
        ch = np.asarray(o.sample_mcmc(return_chain_of_eig_vals=True, **kw))
        lm = np.asarray(B(c["beta"], V).sample_mcmc(return_chain_of_lambda_max=True, **kw))
        pre = np.asarray(o.sample_mcmc(return_chain_of_eig_vals=True, **dict(kw, nb_gibbs_passes=1)))
        g0 = round(np.random.RandomState(c["seed"] + 1).randn() * 4, 2)
        cst = np.asarray(B(c["beta"], V + g0).sample_mcmc(**kw))
    if x.shape != (N,) or ch.shape != (N, p) or lm.shape != (p,):
        raise Violation("%s: shapes %r, %r, %r" % (what, x.shape, ch.shape, lm.shape))
    sc = 1 + np.abs(ch).max()
    if not (np.allclose(np.sort(x), np.sort(ch[:, -1]), atol=1e-9 * sc) and np.allclose(lm, ch.max(0), atol=1e-9 * sc)):
        raise Violation("%s: the last sample %r, the chain %r and the chain of the largest points %r disagree" % (what, x, ch, lm))
    if not np.allclose(np.sort(cst), np.sort(x), atol=1e-6 * sc):
        raise Violation("%s: adding the constant %g to the potential changes the sample: %r instead of %r" % (what, g0, cst, x))
    if not np.allclose(pre[:, 0], ch[:, 0], atol=1e-9 * sc):
        raise Violation("%s: first pass depends on the number of passes" % what)
    if o.N != N:
        raise Violation("%s: attribute N = %r" % (what, o.N))
    if not np.all(np.isfinite(ch)):
        raise Violation("%s: %r" % (what, ch))
    return dict(nontrivial=N >= 2 and p >= 2, execs=4, tag="returns")


FACETS = [
    Facet("conditional polynomials are the trace of the potential", poly_case, run_poly, 1600, 16000, "degree >= 4 and N >= 2"),
    Facet("exact samplers of the conditionals", samp_case, run_samp, 280, 3600, "not an elementary law"),
    Facet("MALA leaves its target invariant", mala_case, run_mala, 32, 400, "degree > 2"),
    Facet("many draws of the conditionals", samp_case, lambda c: run_samp(c, 14000), 24, 400, "not an elementary law", cpu_limit=600),
    Facet("many steps of MALA", mala_case, lambda c: run_mala(dict(c, steps=1 + c["steps"] % 2), 20000), 20, 250, "degree > 2", cpu_limit=600),
    Facet("Gibbs chains with exact conditionals", lambda: gibbs_case("exact"), run_gibbs, 32, 400, "at least two points"),
    Facet("Gibbs chains with MALA", lambda: gibbs_case("mala"), run_gibbs, 24, 300, "at least two points"),
    Facet("Gibbs chains of many points", many_case, run_gibbs, 64, 800, "at least two points", cpu_limit=300),
    Facet("quadratic potentials give the Hermite ensemble", quad_case, run_quad, 32, 320, "at least two points"),
    Facet("returned chains", ret_case, run_ret, 40, 400, "several points and passes"),
]
