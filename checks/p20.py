"""P20: circular and Ginibre ensembles."""
import numpy as np
from hypothesis import strategies as st
from scipy import special
from scipy import stats as ss

from checks.p19 import Draws, vander
from pbt import ensembles as en
from pbt import gens
from pbt.core import Facet, Violation, derive, must_raise, sut
from pbt.stats import check_continuous, check_discrete, check_mean

RULE = "A case is an ensemble, a model, beta, a size, a way of sampling the matrix and a seed; it is non-trivial when there are at least two points and beta > 0."
ASSUMPTIONS = ["Circular beta ensemble: uniform determinant phase, uniform angle of a random point, exact means of log|Vandermonde| (Dyson) and of |power sums|^2, law of the "
               "gaps for at most 3 points (quadrature); KS or z tests at 1e-9 with confirmation, N <= 12, beta <= 10 (13 to 70 points with fewer draws, beta <= 60).",
               "Orthogonal and symplectic matrices: determinant classes and the laws of the extreme angles through the equivalent beta=2 Jacobi ensembles, N <= 9.",
               "Ginibre: Kostlan's law of the moduli, trace law, variance of tr A^2, N <= 12; counts of points in disks, N <= 70."]


def unit(z, N, what):
    z = np.asarray(z)
    if z.shape != (N,):
        raise Violation("%s: a sample has shape %s instead of %d points" % (what, z.shape, N))
    if not np.all(np.abs(np.abs(z) - 1) < 1e-7):
        raise Violation("%s: moduli %r" % (what, np.abs(z)))
    return z.astype(complex)


def pick(rng_key, X):
    r = np.random.RandomState(rng_key)
    return X[np.arange(len(X)), r.randint(X.shape[1], size=len(X))]


UNIF = ss.uniform(-np.pi, 2 * np.pi).cdf


def rot_gap_cdf(N, beta, M=400):
    """N=2, 3: law of the largest gap between consecutive points of the circular ensemble"""
    if N == 2:
        # sin^2(theta/2) ~ Beta((beta+1)/2, 1/2), theta uniform sign: largest gap = max(theta, 2 pi - theta)
        law = ss.beta((beta + 1) / 2.0, 0.5)
        return lambda g: np.where(g <= np.pi, 0.0, np.where(g >= 2 * np.pi, 1.0, 1 - law.cdf(np.sin(np.clip(g, np.pi, 2 * np.pi) / 2) ** 2)))
    h = 2 * np.pi / M
    t = (np.arange(M) + 0.5) * h
    a, b = t[:, None], t[None, :]
    # theta1=0, theta2=a, theta3=a+b with a, b, 2pi-a-b > 0
    c = 2 * np.pi - a - b
    ok = c > 1e-9
    with np.errstate(divide="ignore", invalid="ignore"):
        lw = beta * (np.log(np.sin(a / 2)) + np.log(np.sin(b / 2)) + np.log(np.abs(np.sin(c / 2))))
    W = np.where(ok, np.exp(np.where(ok, lw, -np.inf)), 0.0)
    g = np.maximum(np.maximum(a, b), c)[ok]
    w = W[ok]
    o = np.argsort(g)
    g, w = g[o], np.cumsum(w[o]) / w.sum()
    return lambda v: np.interp(v, g, w)


def gaps(Z):
    A = np.sort(np.mod(np.angle(Z), 2 * np.pi), axis=1)
    return np.diff(np.concatenate([A, A[:, :1] + 2 * np.pi], 1), axis=1)


def chord(Z):
    N = Z.shape[1]
    i, j = np.triu_indices(N, 1)
    return np.log(np.maximum(np.abs(Z[:, i] - Z[:, j]), 1e-300)).sum(1)


@st.composite
def circ_case(draw):
    model = draw(st.sampled_from(["banded", "banded", "QR", "Hermite"]))
    beta = draw(st.one_of(st.sampled_from([1, 2, 4]), st.integers(1, 10))) if model == "banded" else 2
    return {"model": model, "beta": beta, "N": draw(st.one_of(st.integers(1, 4), st.integers(1, 12))), "seed": draw(gens.seeds()),
            "api": draw(st.sampled_from(["object", "object", "function"]))}


def circ_sampler(c, npts):
    import dppy.beta_ensembles as be
    import dppy.random_matrices as rm
    N, b, m = c["N"], c["beta"], c["model"]
    what = "circular, beta=%r, %s, N=%d" % (b, m if m == "banded" else "full (%s)" % m, N)
    if c["api"] == "function" and b > 0:
        f = (lambda r: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=b, size=N, random_state=r)) if m == "banded" else \
            (lambda r: rm.circular_sampler_full(N, beta=b, haar_mode=m, random_state=r))
    else:
        with sut(what):
            e = be.CircularEnsemble(beta=b)

        def f(r):
            e.flush_samples()
            return e.sample_banded_model(size_N=N, random_state=r) if m == "banded" else e.sample_full_model(size_N=N, haar_mode=m, random_state=r)

    def draw(rng):
        with sut(what):
            z = f(rng)
        return unit(z, npts, what)
    return draw, what


@st.composite
def many_case(draw):
    model = draw(st.sampled_from(["banded", "QR", "Hermite"]))
    return {"model": model, "beta": draw(st.sampled_from([1, 2, 3, 4])) if model == "banded" else 2, "N": draw(st.sampled_from([3, 2, 4])), "seed": draw(gens.seeds()),
            "api": draw(st.sampled_from(["object", "function"]))}


def run_circ(c, n=2400):
    N, b = c["N"], c["beta"]
    draw, what = circ_sampler(c, N)
    D = Draws(draw)
    seed = derive("p20", c["seed"])
    check_continuous(D.stat(lambda Z: np.angle(np.prod(Z, axis=1))), UNIF, n, seed, what + ", phase of the determinant")
    check_continuous(D.stat(lambda Z: np.angle(pick(seed, Z))), UNIF, n, seed, what + ", angle of a random point")
    if N > 1:
        psi = special.digamma
        check_mean(D.stat(chord), [N / 2.0 * (psi(1 + b * N / 2.0) - psi(1 + b / 2.0))], n, seed, what + ", log Vandermonde")
        ks = [1] if b != 2 else [1, 2, 3]
        want = [N * (2.0 / b) / (N - 1 + 2.0 / b)] if b != 2 else [float(min(k, N)) for k in ks]
        check_mean(D.stat(lambda Z: np.stack([np.abs((Z ** k).sum(1)) ** 2 for k in ks], 1)), want, n, seed, what + ", squared modulus of the power sums")
    if N in (2, 3):
        check_continuous(D.stat(lambda Z: gaps(Z).max(1)), rot_gap_cdf(N, b), n, seed, what + ", largest gap")
    return {"nontrivial": N > 1, "execs": D.n, "tag": "beta=%d %s" % (b, c["model"])}


@st.composite
def huge_case(draw):
    model = draw(st.sampled_from(["banded", "banded", "QR", "Hermite", "ginibre"]))
    beta = draw(st.one_of(st.sampled_from([1, 2, 4]), st.integers(1, 10), st.integers(11, 60))) if model == "banded" else 2
    return {"model": model, "beta": beta, "N": draw(st.integers(13, 70)), "seed": draw(gens.seeds()), "api": draw(st.sampled_from(["object", "function"]))}


def run_huge(c):
    """13 to 70 points; the points are exchangeable once one is picked at random, so rotation invariance and two-point statistics decide"""
    import dppy.beta_ensembles as be
    import dppy.random_matrices as rm
    N, b = c["N"], c["beta"]
    seed, n = derive("p20h", c["seed"]), 250
    if c["model"] == "ginibre":
        what = "Ginibre, N=%d" % N
        e = be.GinibreEnsemble()

        def draw(rng):
            with sut(what):
                e.flush_samples()
                z = np.asarray(e.sample_full_model(size_N=N, random_state=rng) if c["api"] == "object" else rm.ginibre_sampler_full(N, random_state=rng))
            if z.shape != (N,) or not np.all(np.isfinite(z)):
                raise Violation("%s: sample %r" % (what, z))
            return z.astype(complex)
    else:
        draw, what = circ_sampler(c, N)
    D = Draws(draw)
    check_continuous(D.stat(lambda Z: np.angle(pick(seed, Z))), UNIF, n, seed, what + ", angle of a random point")
    check_continuous(D.stat(lambda Z: np.angle(np.prod(Z / np.abs(Z), axis=1))), UNIF, n, seed, what + ", phase of the determinant")
    check_continuous(D.stat(lambda Z: np.angle(Z.sum(1))), UNIF, n, seed, what + ", angle of the trace")
    if c["model"] == "ginibre":
        k = np.arange(1, N + 1)
        r2 = lambda Z: np.abs(Z) ** 2
        check_continuous(D.stat(lambda Z: r2(Z).sum(1)), ss.gamma(N * (N + 1) / 2.0).cdf, n, seed, what + ", sum of squared moduli")
        check_continuous(D.stat(lambda Z: r2(Z).max(1)), lambda t: np.prod(special.gammainc(k[None, :], np.maximum(np.asarray(t, float), 0).reshape(-1, 1)), axis=1), n, seed, what + ", largest modulus")
        check_mean(D.stat(lambda Z: np.log(np.maximum(np.abs(Z), 1e-300)).sum(1)), [0.5 * special.digamma(k).sum()], n, seed, what + ", log determinant")
        check_continuous(D.stat(lambda Z: np.abs(Z.sum(1)) ** 2 / N), ss.expon().cdf, n, seed, what + ", squared modulus of the trace")
        check_mean(D.stat(lambda Z: np.abs((Z ** 2).sum(1)) ** 2), [2.0 * N * N], n, seed, what + ", squared modulus of tr A^2", z=8)
        # disks: the counts are sums of independent Bernoulli variables
        t = N * np.array([0.2, 0.5, 0.9])
        p = special.gammainc(k[None, :], t[:, None])
        check_mean(D.stat(lambda Z: (r2(Z)[:, :, None] < t).sum(1)), p.sum(1), n, seed, what + ", points in a disk")
        check_mean(D.stat(lambda Z: ((r2(Z)[:, :, None] < t).sum(1) - p.sum(1)) ** 2), (p * (1 - p)).sum(1), n, seed, what + ", variance of the points in a disk")
        return {"nontrivial": True, "execs": D.n, "tag": "ginibre"}
    psi = special.digamma
    check_mean(D.stat(chord), [N / 2.0 * (psi(1 + b * N / 2.0) - psi(1 + b / 2.0))], n, seed, what + ", log Vandermonde")
    ks = [1] if b != 2 else [1, 2, 3, N - 1, N, N + 5]
    want = [N * (2.0 / b) / (N - 1 + 2.0 / b)] if b != 2 else [float(min(k, N)) for k in ks]
    check_mean(D.stat(lambda Z: np.stack([np.abs((Z ** k).sum(1)) ** 2 for k in ks], 1)), want, n, seed, what + ", squared modulus of the power sums")
    return {"nontrivial": True, "execs": D.n, "tag": c["model"]}


def orth_case():
    return st.fixed_dictionaries({"N": st.one_of(st.integers(1, 4), st.integers(1, 9)), "model": st.sampled_from(["QR", "Hermite"]), "beta": st.sampled_from([1, 1, 1, 4]),
                                  "seed": gens.seeds(), "api": st.sampled_from(["object", "function"])})


def classify(z, what):
    """real spectrum -> (number of -1, number of +1, sorted (1+cos theta)/2 of the conjugate pairs)"""
    r = np.abs(z.imag) < 1e-6
    plus, minus = int((r & (z.real > 0)).sum()), int((r & (z.real < 0)).sum())
    up = np.sort(z[~r & (z.imag > 0)])
    dn = np.sort(np.conj(z[~r & (z.imag < 0)]))
    if len(up) != len(dn) or (len(up) and not np.abs(np.sort(up.real) - np.sort(dn.real)).max() <= 1e-7):
        raise Violation("%s: eigenvalues %r are not closed under conjugation" % (what, z))
    return minus, plus, np.sort((1 + up.real) / 2)


def run_orth(c, n=1200):
    N, b = c["N"], c["beta"]
    seed = derive("p20o", c["seed"])
    if b == 4:
        c = dict(c, model="Hermite")
    draw, what = circ_sampler(c, N if b == 1 else 2 * N)
    cache = {}

    def get(rng, m):
        key = (int(rng.get_state()[1][0]), m)
        if key not in cache:
            cache[key] = [classify(draw(rng), what) for _ in range(m)]
        return cache[key]
    # classes: (dimension -1, dimension +1) -> (probability, Jacobi parameters, number of angles)
    if b == 4:
        cls = {(0, 0): (1.0, (1.5, 1.5), N)}
    elif N % 2:
        cls = {(0, 1): (0.5, (0.5, 1.5), N // 2), (1, 0): (0.5, (1.5, 0.5), N // 2)}
    else:
        cls = {(0, 0): (0.5, (0.5, 0.5), N // 2), (1, 1): (0.5, (1.5, 1.5), N // 2 - 1)}

    def nxt(rng):
        s = classify(draw(rng), what)
        return (s[0], s[1])
    if b == 1:
        check_discrete(nxt, {k: v[0] for k, v in cls.items()}, n // 3, seed, what + ", dimensions of the eigenspaces of -1 and 1")
    for k, (p, (a, bb), m) in cls.items():
        if m == 0:
            continue
        ref = en.Ref("jacobi", a=a, b=bb)
        e, F1, F2 = en.beta2_extreme(ref, m)
        for i, F in ((0, F1), (m - 1, F2)):
            def stat(rng, nn, i=i):
                x = [s[2][i] for s in get(rng, nn) if (s[0], s[1]) == k and len(s[2]) == m]
                return np.array(x)
            x = stat(np.random.RandomState(seed + 1), n)
            if len(x) < 50:
                raise Violation("%s: class %r of probability %g is met %d times in %d" % (what, k, p, len(x), n))
            check_continuous(stat, en.interp_cdf(ref, m, 2, F), n, seed + 1, "%s, extreme angle %d of class %r" % (what, i, k))
    if b == 1 and N > 1:
        def mom(rng, nn):
            out = []
            for s in get(rng, nn):
                t = 2 * (2 * s[2] - 1).sum() + s[1] - s[0]
                t2 = (2 * (2 * (2 * s[2] - 1) ** 2 - 1)).sum() + s[1] + s[0]
                out.append([t, t * t, t ** 4, t2])
            return np.array(out)
        check_mean(mom, [0.0, 1.0, 3.0, 1.0], n, seed + 2, what + ", moments of the traces of U and U^2", z2=7.5)
    if b == 4:
        def mom4(rng, nn):
            t = np.array([2 * (2 * s[2] - 1).sum() for s in get(rng, nn)])
            t2 = np.array([(2 * (2 * (2 * s[2] - 1) ** 2 - 1)).sum() for s in get(rng, nn)])
            return np.stack([t, t * t, t ** 4, t2], 1)
        check_mean(mom4, [0.0, 1.0, 3.0 if N > 1 else 2.0, -1.0], n, seed + 2, what + ", moments of the traces of U and U^2", z2=7.5)
    return {"nontrivial": N > 1 or b == 1, "execs": n // 3 + n, "tag": "beta=%d %s" % (b, c["model"])}


def gin_case():
    return st.fixed_dictionaries({"N": st.one_of(st.integers(1, 4), st.integers(1, 12)), "seed": gens.seeds(), "api": st.sampled_from(["object", "function"])})


def run_gin(c):
    import dppy.beta_ensembles as be
    import dppy.random_matrices as rm
    N = c["N"]
    what = "Ginibre, N=%d" % N
    with sut(what):
        e = be.GinibreEnsemble()

    def draw(rng):
        with sut(what):
            e.flush_samples()
            z = e.sample_full_model(size_N=N, random_state=rng) if c["api"] == "object" else rm.ginibre_sampler_full(N, random_state=rng)
        z = np.asarray(z)
        if z.shape != (N,) or not np.all(np.isfinite(z)):
            raise Violation("%s: sample %r" % (what, z))
        return z.astype(complex)
    D = Draws(draw)
    n = 800
    seed = derive("p20g", c["seed"])
    k = np.arange(1, N + 1)
    r2 = lambda Z: np.abs(Z) ** 2
    check_continuous(D.stat(lambda Z: r2(Z).sum(1)), ss.gamma(N * (N + 1) / 2.0).cdf, n, seed, what + ", sum of squared moduli")
    check_continuous(D.stat(lambda Z: r2(Z).max(1)), lambda t: np.prod(special.gammainc(k[None, :], np.maximum(np.asarray(t, float), 0).reshape(-1, 1)), axis=1), n, seed, what + ", largest modulus")
    check_continuous(D.stat(lambda Z: r2(Z).min(1)), lambda t: 1 - np.prod(special.gammaincc(k[None, :], np.maximum(np.asarray(t, float), 0).reshape(-1, 1)), axis=1), n, seed, what + ", smallest modulus")
    check_continuous(D.stat(lambda Z: np.abs(Z.sum(1)) ** 2 / N), ss.expon().cdf, n, seed, what + ", squared modulus of the trace")
    check_continuous(D.stat(lambda Z: np.angle(pick(seed, Z))), UNIF, n, seed, what + ", angle of a random point")
    check_continuous(D.stat(lambda Z: np.angle(Z.sum(1))), UNIF, n, seed, what + ", angle of the trace")
    check_continuous(D.stat(lambda Z: np.angle(np.prod(Z, axis=1))), UNIF, n, seed, what + ", angle of the determinant")
    check_mean(D.stat(lambda Z: np.abs((Z ** 2).sum(1)) ** 2), [2.0 * N * N], n, seed, what + ", squared modulus of tr A^2", z=8)
    check_mean(D.stat(lambda Z: np.log(np.maximum(np.abs(Z), 1e-300)).sum(1)), [0.5 * special.digamma(k).sum()], n, seed, what + ", log determinant")
    with sut("normalize_points"):
        e.sample_full_model(size_N=N, random_state=c["seed"])
        z = np.array(e.list_of_samples[-1])
        w = e.normalize_points(e.list_of_samples[-1])
    if not np.abs(w - z / np.sqrt(N)).max() <= 1e-12 or not np.abs(e.list_of_samples[-1] - z).max() <= 0:
        raise Violation("%s: normalize_points is not the division by the square root of N" % what)
    return {"nontrivial": N > 1, "execs": D.n, "tag": "N=%d" % N}


def iid_case():
    return st.fixed_dictionaries({"N": st.integers(1, 12), "model": st.sampled_from(["banded", "QR", "Hermite"]), "beta": st.just(0), "api": st.just("object"), "seed": gens.seeds()})


def run_iid(c):
    N = c["N"]
    draw, what = circ_sampler(c, N)
    D = Draws(draw)
    seed = derive("p20i", c["seed"])
    check_continuous(D.stat(lambda Z: np.angle(Z[:, 0])), UNIF, 800, seed, what + ", first point")
    check_continuous(D.stat(lambda Z: np.angle(np.prod(Z, axis=1))), UNIF, 800, seed, what + ", phase of the product")
    if N > 1:
        check_continuous(D.stat(lambda Z: np.angle(Z[:, 0] / Z[:, -1])), UNIF, 800, seed, what + ", angle between two points")
        check_continuous(D.stat(lambda Z: UNIF(np.angle(Z)).max(1)), lambda t: np.clip(t, 0, 1) ** N, 800, seed, what + ", largest angle")
    return {"nontrivial": N > 1, "execs": D.n, "tag": c["model"]}


def ref_case():
    return st.fixed_dictionaries({"beta": st.sampled_from([0.5, 2.0, 1.5, -1, -2, "2", None]), "full": st.sampled_from([3, 5, 6]), "g": st.sampled_from([0, 1, 4, 3, -2, 0.5]), "N": st.integers(1, 5)})


def run_ref(c):
    import dppy.beta_ensembles as be
    import dppy.random_matrices as rm
    must_raise("CircularEnsemble(beta=%r)" % (c["beta"],), lambda: be.CircularEnsemble(beta=c["beta"]))
    must_raise("GinibreEnsemble(beta=%r)" % c["g"], lambda: be.GinibreEnsemble(beta=c["g"]))
    must_raise("Ginibre banded model", lambda: be.GinibreEnsemble().sample_banded_model(size_N=3), NotImplementedError)
    for b, m in ((c["full"], "QR"), (c["full"], "Hermite"), (4, "QR"), (1, "foo"), (2, "qr"), (2, None)):
        e = be.CircularEnsemble(beta=b)
        must_raise("circular, beta=%r, haar_mode=%r" % (b, m), lambda: e.sample_full_model(size_N=c["N"], haar_mode=m))
        if e.list_of_samples:
            raise Violation("a refused call recorded a sample")
    must_raise("quindiagonal sampler, beta=0.5", lambda: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=0.5, size=c["N"]))
    must_raise("quindiagonal sampler, beta=0", lambda: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=0, size=c["N"]))
    return {"nontrivial": True, "execs": 11}


FACETS = [
    Facet("circular", circ_case, run_circ, 160, 3000, "circular beta ensemble and unitary matrices", cpu_limit=300),
    Facet("many draws", many_case, lambda c: run_circ(c, 14000), 24, 300, "the same for 2 to 4 points with 14000 draws", cpu_limit=600),
    Facet("orthogonal", orth_case, run_orth, 90, 1500, "orthogonal and symplectic matrices", cpu_limit=300),
    Facet("many orthogonal", lambda: st.fixed_dictionaries({"N": st.integers(1, 4), "model": st.sampled_from(["QR", "Hermite"]), "beta": st.sampled_from([1, 4]), "seed": gens.seeds(), "api": st.sampled_from(["object", "function"])}),
          lambda c: run_orth(c, 9000), 24, 300, "the same for matrices of size 1 to 4 with 9000 draws", cpu_limit=600),
    Facet("ginibre", gin_case, run_gin, 60, 1000, "Ginibre ensemble", cpu_limit=300),
    Facet("huge", huge_case, run_huge, 80, 1500, "13 to 70 points", cpu_limit=300),
    Facet("iid", iid_case, run_iid, 40, 400, "beta=0", cpu_limit=200),
    Facet("refused", ref_case, run_ref, 40, 400, "unsupported parameters are refused"),
]
