"""P23: equilibrium measures of polynomial potentials."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens
from pbt.core import Facet, Violation, derive, sut

RULE = "A case is a potential of a supported family with arguments. Non-trivial: not the quadratic potential."
ASSUMPTIONS = ["Coefficients in [1e-2, 50] (leading) and [-30, 30] (quadratic with quartic); monomials up to x^12 through the functions, up to x^6 through the class.",
               "Principal values by the alternating trapezoidal rule after x = m + r cos t on each interval of the support (spectral accuracy); relative tolerance 1e-6.",
               "The curvature constant of the rescaling is checked for supports made of one interval, for which its documented formula is stated."]

M = 400
TH = 2 * np.pi * np.arange(M) / M


def fl(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 4))


def lead():
    return st.one_of(st.sampled_from([1.0, 0.5, 0.25, 2.0]), fl(0.01, 1), fl(0.05, 50))


def case():
    mono = st.fixed_dictionaries({"kind": st.just("mono"), "m": st.integers(1, 6), "g": lead()})
    # "r%g": g2 in units of 2 sqrt(g4), whose value -1 is the limit between one and two cuts
    ratio = st.tuples(st.sampled_from([(-4, -2), (-2, -1.2), (-1.2, -1), (-1, -0.8), (-0.8, -0.5), (-0.5, 0), (0, 2), (2, 6)]), st.integers(1, 99)).map(
        lambda t: "r%g" % (t[0][0] + (t[0][1] - t[0][0]) * t[1] / 100))
    quart = st.tuples(lead(), st.one_of(fl(-5, 5), fl(-30, 30), ratio, ratio, ratio, st.sampled_from(["crit", "two", "near"]))).map(lambda t: {"kind": "quart", "g4": t[0], "g2": t[1]})
    deg = st.just({"kind": "ClItKr10"})
    return st.tuples(st.one_of(mono, quart, quart, quart, deg), gens.seeds(), st.sampled_from([1, 2, 4, 0.7]), st.integers(1, 12)).map(lambda t: dict(t[0], seed=t[1], beta=t[2], N=t[3]))


def describe(c):
    """potential V and the support predicted independently: list of intervals, or None"""
    if c["kind"] == "mono":
        V = np.poly1d([c["g"]] + [0.0] * (2 * c["m"]))
        # one-cut: (1/pi) int x V'(x) / sqrt(a^2 - x^2) = 2
        cm = np.prod([(2 * l - 1) / (2.0 * l) for l in range(1, c["m"] + 1)])
        a = (2 / (2 * c["m"] * c["g"] * cm)) ** (1.0 / (2 * c["m"]))
        return V, [(-a, a)], "V = %g x^%d" % (c["g"], 2 * c["m"])
    if c["kind"] == "ClItKr10":
        return np.poly1d([1 / 20, -4 / 15, 1 / 5, 8 / 5, 0]), [(-2.0, 2.0)], "V of ClItKr10"
    g4 = c["g4"]
    if isinstance(c["g2"], str) and c["g2"][0] == "r":
        c = dict(c, g2=float(c["g2"][1:]) * 2 * np.sqrt(g4))
    g2 = {"crit": -2 * np.sqrt(g4), "two": -4 * np.sqrt(g4), "near": -2.0001 * np.sqrt(g4)}.get(c["g2"], c["g2"])
    V = np.poly1d([g4, 0.0, g2, 0.0, 0.0])
    # moments: one-cut: 2 g2 a^2/2 + 4 g4 3 a^4/8 = 2; two-cut iff g2 <= -2 sqrt(g4)
    if g2 > -2 * np.sqrt(g4) * (1 - 1e-12):
        A = (-g2 + np.sqrt(g2 * g2 + 12 * g4)) / (3 * g4)   # 1.5 g4 A^2 + g2 A - 2 = 0, stable form below
        if g2 > 0:
            A = 4.0 / (g2 + np.sqrt(g2 * g2 + 12 * g4))
        a = np.sqrt(A)
        return V, [(-a, a)], "V = %r x^4 + %r x^2" % (g4, g2)
    lo, hi = [max((-g2 + s * 2 * np.sqrt(g4)) / (2 * g4), 0.0) for s in (-1, 1)]
    a, b = np.sqrt(hi), np.sqrt(lo)
    return V, [(-a, -b), (b, a)], "V = %r x^4 + %r x^2" % (g4, g2)


def functions(c, V, what):
    """(label, density, support) of every offer for this potential"""
    from dppy import beta_ensemble_polynomial_potential_core as core
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    out = []
    with sut(what):
        if c["kind"] == "mono":
            out.append(("equilibrium_x2m",) + tuple(core.equilibrium_x2m(c["m"], 2 * c["m"] * c["g"])))
        elif c["kind"] == "quart":
            out.append(("equilibrium_x2_x4",) + tuple(core.equilibrium_x2_x4(2 * V[2], 4 * V[4])))
        else:
            out.append(("equilibrium_ClItKr10",) + tuple(core.equilibrium_ClItKr10()))
        o = None
        if V.order <= 6:
            keep = V.coeffs.copy()
            o = B(c["beta"], V)
            out.append(("BetaEnsemblePolynomialPotential", o.equilibrium_density, o.support))
            if not np.array_equal(keep, V.coeffs):
                raise Violation("%s: constructor modified the potential" % what)
            W = V + round(float(np.random.RandomState(c["seed"] + 1).randn()) * 4, 2)
            keep = W.coeffs.copy()
            q = B(c["beta"], W)
            out.append(("BetaEnsemblePolynomialPotential of the potential plus a constant", q.equilibrium_density, q.support))
            if not np.array_equal(keep, W.coeffs):
                raise Violation("%s: constructor modified the potential" % what)
    return out, o


def run_dens(c):
    V, cuts, what = describe(c)
    dV = V.deriv()
    rng = np.random.RandomState(c["seed"])
    offers, o = functions(c, V, what)
    lo, hi = cuts[0][0], cuts[-1][1]
    sc = hi - lo
    for name, f, supp in offers:
        w = "%s, %s" % (what, name)
        if f is None or supp is None:
            raise Violation("%s: no density or no support is offered" % w)
        if not np.max(np.abs(np.asarray(supp, float) - [lo, hi])) <= 1e-7 * sc:
            raise Violation("%s: support %r instead of [%r, %r]" % (w, supp, lo, hi))
        # quadrature nodes on every interval
        nodes, weights = [], []
        for (u, v) in cuts:
            m, r = (u + v) / 2, (v - u) / 2
            x = np.clip(m + r * np.cos(TH), u, v)
            k = x.copy()
            with sut(w):
                d = np.asarray(f(x), float)
            if not np.array_equal(x, k):
                raise Violation("%s modified its argument" % w)
            if d.shape != x.shape or not np.all(np.isfinite(d)) or np.any(d < 0):
                raise Violation("%s: densities %r" % (w, d[:5]))
            nodes.append(x)
            weights.append(d * r * np.abs(np.sin(TH)) * np.pi / M)  # half of the circle
        mass = sum(q.sum() for q in weights)
        if not abs(mass - 1) <= 1e-6:
            raise Violation("%s: the density integrates to %.9g over the support" % (w, mass))
        # Euler-Lagrange on the support
        for n, (u, v) in enumerate(cuts):
            m, r = (u + v) / 2, (v - u) / 2
            for t in rng.randint(0, M // 2, size=6):
                x = m + r * np.cos(TH[t] + np.pi / M)
                g = sum((q / (x - y)).sum() for y, q in zip(nodes, weights))
                ref = np.abs(V.deriv().coeffs) @ np.abs(hi) ** np.arange(V.order - 1, -1, -1) + 1 / sc
                if not abs(2 * g - dV(x)) <= 1e-6 * ref * (1 if len(cuts) == 1 else 10):
                    raise Violation("%s: Euler-Lagrange condition fails at %r: V' = %.9g, twice the Hilbert transform of the density is %.9g" % (w, x, dV(x), 2 * g))
        # vanishes outside, and the effective potential is not smaller there
        out = list(hi + sc * np.array([1e-6, 0.01, 0.3, 5])) + list(lo - sc * np.array([1e-6, 0.01, 0.3, 5]))
        if len(cuts) == 2:
            out += [cuts[1][0] * s for s in (0.0, 0.5, -0.5, 0.99)]
        with sut(w):
            d = np.asarray(f(np.array(out)), float)
        if np.any(d != 0):
            raise Violation("%s: densities %r at %r outside the support" % (w, d, out))
        # scalars
        x = lo + sc * rng.rand()
        with sut(w):
            a, b = float(f(x)), float(np.asarray(f(np.array([x])))[0])
            s = np.asarray(f(np.array([[x, lo], [hi, x]])))
        if not abs(a - b) <= 1e-12 * (1 + abs(a)) or s.shape != (2, 2) or not abs(s[0, 0] - a) <= 1e-12 * (1 + abs(a)):
            raise Violation("%s: scalar and array evaluations at %r disagree: %r, %r, %r" % (w, x, a, b, s))
    return dict(nontrivial=V.order > 2, execs=len(offers) * 4, tag="%s %d cuts" % (c["kind"], len(cuts)))


def run_cdf(c):
    from dppy import beta_ensemble_polynomial_potential_core as core
    c = dict(c)
    if c["kind"] == "ClItKr10":
        c["kind"], c["m"], c["g"] = "mono", 3, 1.0
    if c["kind"] == "mono":
        c["m"] = 2 + c["m"] % 2
    V, cuts, what = describe(c)
    rng = np.random.RandomState(c["seed"])
    lo, hi = cuts[0][0], cuts[-1][1]
    sc = hi - lo
    with sut(what):
        if c["kind"] == "mono":
            F, supp = core.cdf_equilibrium_x2m(c["m"], 2 * c["m"] * c["g"])
            what += ", cdf_equilibrium_x2m"
        else:
            F, supp = core.cdf_equilibrium_x2_x4(2 * V[2], 4 * V[4])
            what += ", cdf_equilibrium_x2_x4"
    if not np.max(np.abs(np.asarray(supp, float) - [lo, hi])) <= 1e-7 * sc:
        raise Violation("%s: support %r instead of [%r, %r]" % (what, supp, lo, hi))

    # independent density: rho = (1/2pi) |h| sqrt(...)
    def rho(y):
        if len(cuts) == 1:
            t = (np.arange(64) + 0.5) * np.pi / 64
            z = hi * np.cos(t)
            dV = V.deriv()
            q = np.array([((dV(v) - dV(z)) / np.where(np.abs(v - z) < 1e-9 * sc, np.nan, v - z)) for v in y])
            h = np.nanmean(q, axis=1)
            return h * np.sqrt(np.maximum(hi * hi - y * y, 0)) / (2 * np.pi)
        return 4 * V[4] / (2 * np.pi) * np.abs(y) * np.sqrt(np.maximum((cuts[1][1] ** 2 - y * y) * (y * y - cuts[1][0] ** 2), 0))
    t = np.linspace(0, np.pi, 1201)
    xs, Fs, tot = [], [], 0.0
    for u, v in cuts:
        m, r = (u + v) / 2, (v - u) / 2
        y = m - r * np.cos(t)
        w = rho(y) * r * np.sin(t)
        # Simpson on pairs
        S = np.concatenate([[0], np.cumsum((w[0:-2:2] + 4 * w[1:-1:2] + w[2::2]) * (t[1] - t[0]) / 3)]) + tot
        xs.append(y[::2])
        Fs.append(S)
        tot = S[-1]
    x = np.concatenate([[lo - 10 * sc, lo - 1e-3 * sc]] + xs + [[hi + 1e-3 * sc, hi + 10 * sc]])
    want = np.concatenate([[0, 0]] + Fs + [[1, 1]])
    keep = x.copy()
    with sut(what):
        got = np.asarray(F(x), float)
    if not np.array_equal(x, keep):
        raise Violation("%s modified its argument" % what)
    if got.shape != x.shape or not np.max(np.abs(got - want)) <= 2e-6:
        k = int(np.argmax(np.abs(got - want))) if got.shape == x.shape else 0
        raise Violation("%s: F(%r) = %r instead of %.9g" % (what, x[k], got.ravel()[k], want[k]))
    # scalars (floats and integers), lists of lists are left to numpy
    for v in [lo + sc * rng.rand(), lo - 1.0, hi + 3.0, 0, 0.0, int(np.floor(hi)), -1, 1]:
        with sut("%s, scalar %r" % (what, v)):
            a, b = np.asarray(F(v), float), float(np.asarray(F(np.array([float(v)])))[0])
        if a.size != 1 or not abs(float(a.ravel()[0]) - b) <= 1e-12:
            raise Violation("%s: scalar and array evaluations at %r disagree: %r, %r" % (what, v, a, b))
    return dict(nontrivial=True, execs=9, tag="%s %d cuts" % (c["kind"], len(cuts)))


def resc_case():
    return st.fixed_dictionaries({"beta": st.sampled_from([1, 2, 4, 0.7]), "N": st.integers(1, 40), "x": fl(-5, 5), "before": st.lists(st.integers(1, 40), max_size=2), "base": case()})


def run_resc(c):
    b = dict(c["base"])
    if b["kind"] == "mono":
        b["m"] = 1 + b["m"] % 3
    V, cuts, what = describe(b)
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    N = c["N"]
    what = "rescale_largest_eig_val, %s, N=%d" % (what, N)
    with sut(what):
        o = B(c["beta"], V)
        for M in list(c.get("before", [])) + [N]:
            o.sample_mcmc(N=M, nb_gibbs_passes=1, nb_mala_steps=1, random_state=b["seed"])
        edge = cuts[-1][1]
        z = float(o.rescale_largest_eig_val(edge))
        y = float(o.rescale_largest_eig_val(edge + c["x"]))
        arr = np.asarray(o.rescale_largest_eig_val(np.array([edge, edge + c["x"]])))
    if not abs(z) <= 1e-6 * (1 + abs(y)) * N:
        raise Violation("%s: the right edge is mapped to %r" % (what, z))
    if arr.shape != (2,) or not np.allclose(arr, [z, y], rtol=1e-12, atol=1e-12):
        raise Violation("%s: scalar and array evaluations disagree" % what)
    if len(cuts) == 1:
        lo, hi = cuts[0]
        t = (np.arange(128) + 0.5) * np.pi / 128
        u = (lo + hi) / 2 + (hi - lo) / 2 * np.cos(t)
        dV = V.deriv()
        h = np.mean((dV(hi) - dV(u)) / (hi - u))
        cv = max(h * np.sqrt(hi - lo) / 2, 0) ** (2.0 / 3)   # pi rho ~ (h/2) sqrt(b - a) sqrt(b - x)
        want = N ** (2.0 / 3) * cv * c["x"]
        if not abs(y - want) <= 1e-6 * (abs(want) + N ** (2.0 / 3) * (1e-6 + abs(c["x"])) / (hi - lo) + 1e-6 * abs(hi) * cv * N):
            raise Violation("%s: %r above the right edge is mapped to %r instead of %r" % (what, c["x"], y, want))
    return dict(nontrivial=V.order > 2 and c["x"] != 0, execs=3, tag="rescale %d cuts" % len(cuts))


FACETS = [
    Facet("densities", case, run_dens, 400, 8000, "not the quadratic potential"),
    Facet("cumulative functions", case, run_cdf, 300, 6000, "all"),
    Facet("rescaling of the largest eigenvalue", resc_case, run_resc, 200, 4000, "not the quadratic potential and not the edge"),
]
