"""P18: Poissonized Plancherel measure, diagram geometry and limit shape."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy import special
from scipy import stats as ss

from pbt import gens, laws
from pbt.branch import Unsupported, enumerate_law
from pbt.core import Facet, Violation, derive, sut
from pbt.stats import check_discrete

RULE = "A case is an intensity with a seed, a partition, or a vector of arguments; it is non-trivial when the intensity exceeds 0.2, the partition has two distinct parts or more than two cells, or the arguments lie on both sides of 2."
ASSUMPTIONS = ["Exact law over partitions of at most 6 (enumeration of Poisson size and permutation); intensities up to 80 (400 for the size and the two-point functions) by the Toeplitz (Gessel) law of the "
               "first row and column, the Poisson law of the size and the discrete Bessel kernel, at significance 1e-9."]


def partitions(n, m=None):
    m = n if m is None else m
    if n == 0:
        yield ()
        return
    for k in range(min(n, m), 0, -1):
        for r in partitions(n - k, k):
            yield (k,) + r


def conj(p):
    return tuple(sum(1 for x in p if x > j) for j in range(p[0])) if p else ()


def dim(p):
    q = conj(p)
    h = 1
    for i, r in enumerate(p):
        for j in range(r):
            h *= r - j + q[j] - i - 1
    return math.factorial(sum(p)) // h


def draw_one(pp, rng, what):
    a, b = len(pp.list_of_samples), len(pp.list_of_young_diag)
    with sut(what):
        pp.sample(random_state=rng)
    if len(pp.list_of_samples) != a + 1 or len(pp.list_of_young_diag) != b + 1:
        raise Violation("%s: sample did not append one entry to each list" % what)
    d = [int(x) for x in pp.list_of_young_diag.pop()]
    s = list(pp.list_of_samples.pop())
    if any(x <= 0 for x in d) or any(x < y for x, y in zip(d, d[1:])):
        raise Violation("%s: %r is not a partition" % (what, d))
    if len(s) != len(d) or any(abs(x - (y - i + 0.5)) > 1e-12 for i, (x, y) in enumerate(zip(s, d), 1)):
        raise Violation("%s: sample %r is not that of the partition %r" % (what, s, d))
    return tuple(d)


def make(theta):
    from dppy.exotic_dpps import PoissonizedPlancherel
    with sut("PoissonizedPlancherel(%r)" % theta):
        return PoissonizedPlancherel(theta=theta)


def law_case():
    return st.fixed_dictionaries({"theta": st.one_of(st.sampled_from([0, 1, 0.5, 0.1, 2]), st.floats(0.01, 2).map(lambda v: round(v, 3))), "seed": gens.seeds()})


def run_law(c):
    th = c["theta"]
    pp = make(th)
    what = "PoissonizedPlancherel(%r)" % th
    nmax = 6
    target = {p: math.exp(-th) * th ** n * dim(p) ** 2 / math.factorial(n) ** 2 for n in range(nmax + 1) for p in partitions(n)}
    tail = max(ss.poisson.sf(nmax, th), 1e-12)

    def f(rng):
        try:
            return draw_one(pp, rng, what)
        except Violation as v:
            return ("BAD", v.msg)
    try:
        # the tail of the Poisson law is cut at 6: its mass is given to the last size
        law, m, _ = enumerate_law(f, max_paths=3000, poisson_tail=max(2 * tail, 1e-12))
        laws.compare_laws(law, target, what, tol=3 * tail + 1e-7)
        # sizes below the cut are exact
        for n in range(5):
            for p in partitions(n):
                if sum(law.get(q, 0) for q in partitions(n + 1)) and not abs(law.get(p, 0) - target[p]) <= 1e-9:
                    raise Violation("%s: P(%r)=%.9g instead of %.9g" % (what, p, law.get(p, 0), target[p]))
    except Unsupported:
        target["larger"] = max(0.0, 1 - sum(target.values()))
        m = 5000
        check_discrete(lambda r: (lambda d: d if sum(d) <= nmax else "larger")(draw_one(pp, r, what)), target, m, derive("p18", c["seed"]), what)
    return {"nontrivial": th > 0.2, "execs": m, "tag": "theta<=2"}


def row_cdf(th, kmax):
    """P(first row <= m), m = 0..kmax (Gessel)"""
    z = 2 * math.sqrt(th)
    I = special.ive(np.arange(kmax + 1), z)      # e^-z I_k
    out = [math.exp(-th)]
    for m in range(1, kmax + 1):
        T = I[np.abs(np.subtract.outer(np.arange(m), np.arange(m)))]
        s, ld = np.linalg.slogdet(T)
        out.append(math.exp(min(0.0, ld + m * z - th)) if s > 0 else 0.0)
    return np.array(out)


def bessel_kernel(th, x, y):
    z = 2 * math.sqrt(th)
    J = special.jv
    if x == y:
        a = int(round(x - 0.5))
        return float(sum(J(a + k, z) ** 2 for k in range(1, 200)))
    return math.sqrt(th) * (J(x - 0.5, z) * J(y + 0.5, z) - J(x + 0.5, z) * J(y - 0.5, z)) / (x - y)


def big_case():
    return st.fixed_dictionaries({"theta": st.one_of(st.sampled_from([3, 10, 50]), st.floats(2, 80).map(lambda v: round(v, 2)), st.integers(81, 400)), "seed": gens.seeds(),
                                  "x": st.integers(0, 100), "y": st.integers(1, 100)})


def run_big(c):
    th = c["theta"]
    pp = make(th)
    what = "PoissonizedPlancherel(%r)" % th
    n = 600 if th < 30 else 400 if th <= 80 else 200
    top = 2 * math.sqrt(th)
    x = c["x"] % max(2, int(top)) + 0.5
    y = x + 1 + c["y"] % max(2, int(top))
    # one stream of partitions per seed, several statistics of it
    def stat(fun, target, label):
        check_discrete(lambda r: fun(draw_one(pp, r, what)), target, n, derive("p18", c["seed"]), "%s, %s" % (what, label))
    # size
    lo, hi = int(ss.poisson.ppf(1e-7, th)), int(ss.poisson.isf(1e-7, th))
    width = max(1, (hi - lo) // 12)
    cells = {}
    for v in range(0, hi + 60):
        cells.setdefault(min(v, hi) // width, []).append(v)
    target = {k: float(sum(ss.poisson.pmf(v, th) for v in vs)) for k, vs in cells.items()}
    stat(lambda d: min(sum(d), hi) // width, target, "size")
    rows = th <= 80          # the Toeplitz determinants lose all their digits beyond
    if rows:
        # first row and first column
        kmax = int(top + 12 + 4 * th ** (1 / 6.0))
        F = row_cdf(th, kmax)
        pm = np.diff(np.concatenate([[0.0], F]))
        pm[pm < 1e-10] = 0
        pm[-1] += max(0.0, 1 - pm.sum())
        lump_lo = int(np.argmax(np.cumsum(pm) > 1e-5))
        t2 = {}
        for v, p in enumerate(pm):
            k = max(v, lump_lo)
            t2[k] = t2.get(k, 0) + p
        for v in range(kmax + 1):
            t2[max(v, lump_lo)] = max(t2[max(v, lump_lo)], 1e-11)
        clip = lambda v: max(min(v, kmax), lump_lo)
        stat(lambda d: clip(d[0] if d else 0), t2, "first row")
        stat(lambda d: clip(len(d)), t2, "number of rows")
    # two points of the determinantal process
    kxx, kyy, kxy = bessel_kernel(th, x, x), bessel_kernel(th, y, y), bessel_kernel(th, x, y)
    pxy = kxx * kyy - kxy ** 2
    t3 = {(1, 1): pxy, (1, 0): kxx - pxy, (0, 1): kyy - pxy, (0, 0): 1 - kxx - kyy + pxy}
    t3 = {k: max(v, 1e-11) for k, v in t3.items()}

    def pts(d):
        s = {v - i + 0.5 for i, v in enumerate(d, 1)}
        return (int(x in s), int(y in s))
    stat(pts, t3, "presence of %s and %s" % (x, y))
    return {"nontrivial": True, "execs": 4 * n, "tag": "theta in [%d, %d)" % (10 * (th // 10), 10 * (th // 10 + 1))}


def partition_st():
    row = st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 400))
    return st.lists(row, min_size=0, max_size=12).map(lambda v: sorted(v, reverse=True))


def run_geometry(c):
    from dppy.exotic_dpps_core import xy_young_ru
    p = c["p"]
    arr = np.array(p, dtype=int)
    keep = arr.copy()
    what = "xy_young_ru(%r)" % (p,)
    with sut(what):
        xy = np.asarray(xy_young_ru(arr), dtype=float)
    if not np.array_equal(arr, keep):
        raise Violation("%s modified its argument" % what)
    if xy.ndim != 2 or xy.shape[1] != 2 or len(xy) % 2 or not np.all(np.isfinite(xy)):
        raise Violation("%s has shape %s" % (what, xy.shape))
    # back to the French convention: u = x - y, v = x + y
    x, y = (xy[:, 0] + xy[:, 1]) / 2, (xy[:, 1] - xy[:, 0]) / 2
    got = set()
    for (x0, y0), (x1, y1) in zip(zip(x[::2], y[::2]), zip(x[1::2], y[1::2])):
        if x0 != x1 and y0 != y1:
            raise Violation("%s: the segment (%g,%g)-(%g,%g) is not along the axes" % (what, x0, y0, x1, y1))
        if any(v != round(v) for v in (x0, x1, y0, y1)):
            raise Violation("%s: non-integer corner" % what)
        x0, x1, y0, y1 = sorted((int(x0), int(x1))) + sorted((int(y0), int(y1)))
        for v in range(x0, x1):
            got.add(("h", v, y0))
        for v in range(y0, y1):
            got.add(("v", x0, v))
    want = set()
    for i, r in enumerate(p):
        for j in range(r):
            want.add(("h", j, i + 1))
            want.add(("v", j + 1, i))
    axes = {e for e in got if (e[0] == "h" and e[2] == 0) or (e[0] == "v" and e[1] == 0)}
    if got - axes != want:
        raise Violation("%s: the drawn edges miss %r and add %r" % (what, sorted(want - got)[:4], sorted(got - axes - want)[:4]))
    return {"nontrivial": len(set(p)) > 1 or sum(p) > 2, "execs": 1, "tag": "%d rows" % len(p)}


def shape_case():
    v = st.one_of(st.floats(-4, 4), st.sampled_from([0.0, 2.0, -2.0, 1.0, -1.0, 3.0]), st.floats(-1e3, 1e3))
    return st.fixed_dictionaries({"x": st.lists(v, min_size=0, max_size=12), "kind": st.sampled_from(["array", "ints", "2d", "list", "scalar", "float32"])})


def run_shape(c):
    from dppy.exotic_dpps_core import limit_shape
    x = c["x"]
    k = c["kind"]
    if k == "ints":
        a = np.array([int(round(v)) for v in x], dtype=int)
    elif k == "2d":
        a = np.array(x + x, dtype=float).reshape(2, len(x))
    elif k == "list":
        a = list(x)
    elif k == "scalar":
        a = x[0] if x else 0.5
    elif k == "float32":
        a = np.array(x, dtype=np.float32)
    else:
        a = np.array(x, dtype=float)
    keep = np.array(a, copy=True)
    what = "limit_shape(%r)" % (a,)
    with sut(what):
        w = limit_shape(a)
    if not np.array_equal(keep, np.asarray(a)):
        raise Violation("%s modified its argument" % what)
    v = np.asarray(a, dtype=float)
    w = np.asarray(w, dtype=float)
    if w.shape != v.shape:
        raise Violation("%s has shape %s" % (what, w.shape))
    u = np.clip(v, -2, 2)
    want = np.where(np.abs(v) >= 2, np.abs(v), 2 / np.pi * (u * np.arcsin(u / 2) + np.sqrt(4 - u ** 2)))
    tol = 1e-6 if k == "float32" else 1e-12
    if w.size and not np.max(np.abs(w - want) / np.maximum(1, np.abs(want))) <= tol:
        i = np.unravel_index(np.argmax(np.abs(w - want)), w.shape)
        raise Violation("%s: value %r instead of %r at %r" % (what, w[i], want[i], v[i]))
    return {"nontrivial": v.size > 0 and bool((np.abs(v) < 2).any() and (np.abs(v) >= 2).any()), "execs": 1, "tag": k}


def plot_case():
    return st.fixed_dictionaries({"theta": st.sampled_from([0, 0.3, 1, 5, 40]), "seed": gens.seeds()})


def run_plot(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    pp = make(c["theta"])
    d = []
    for s in range(2):
        with sut("sample"):
            pp.sample(random_state=c["seed"] + s)
        d.append((list(pp.list_of_young_diag[-1]), list(pp.list_of_samples[-1])))
    what = "PoissonizedPlancherel(%r), partition %r" % (c["theta"], d[-1][0])
    try:
        with sut(what + ", plot"):
            pp.plot()
        with sut(what + ", plot_diagram"):
            pp.plot_diagram()
        with sut(what + ", plot_diagram(normalization=True)"):
            if c["theta"]:
                pp.plot_diagram(normalization=True)
    finally:
        plt.close("all")
    if [(list(a), list(b)) for a, b in zip(pp.list_of_young_diag, pp.list_of_samples)] != d:
        raise Violation("%s: plotting changed the recorded samples" % what)
    return {"nontrivial": bool(d[-1][0]), "execs": 5}


# ---- large intensities: size, edge and bulk of single samples
def huge_case():
    return st.fixed_dictionaries({"theta": st.one_of(st.integers(400, 6000), st.floats(400, 12000).map(lambda v: round(v, 1)), st.sampled_from([4200, 5000, 12000, 17500])), "seed": gens.seeds()})


def run_huge(c):
    th = c["theta"]
    pp = make(th)
    what = "PoissonizedPlancherel(%r)" % th
    d = draw_one(pp, np.random.RandomState(c["seed"]), what)
    if not ss.poisson.cdf(sum(d), th) > 1e-10 or not ss.poisson.sf(sum(d) - 1, th) > 1e-10:
        raise Violation("%s: a partition of size %d" % (what, sum(d)))
    for name, v in (("first row", d[0]), ("first column", len(d))):
        t = (v - 2 * math.sqrt(th)) / th ** (1 / 6.0)
        if not -7.5 <= t <= 8:           # Tracy-Widom tails below 1e-13
            raise Violation("%s: %s of length %d (%.1f deviations)" % (what, name, v, t))
    # numbers of points above levels of the bulk: sums of independent Bernoulli variables of total variance about 1
    pts = np.array(d) - np.arange(len(d)) - 0.5
    for u in np.linspace(-1.9, 1.9, 20):
        x = u * math.sqrt(th)
        got = int((pts >= x).sum()) + max(0, int(math.floor(-x - len(d) + 0.5)))
        ref = (math.sqrt(4 - u * u) - u * math.acos(u / 2)) * math.sqrt(th) / math.pi
        if not abs(got - ref) <= 10:
            raise Violation("%s: %d points above %.2f, about %.1f expected" % (what, got, x, ref))
    return {"nontrivial": True, "execs": 1, "tag": "theta>4000" if th > 4000 else "theta<=4000"}


FACETS = [
    Facet("exact law", law_case, run_law, 64, 800, "law over partitions, small intensity", cpu_limit=200),
    Facet("large", big_case, run_big, 96, 2000, "size, first row and column, two-point statistics", cpu_limit=300),
    Facet("huge", huge_case, run_huge, 48, 600, "intensities of 400 to 17500: size, first row and column, counts in the bulk", cpu_limit=200),
    Facet("geometry", lambda: st.fixed_dictionaries({"p": partition_st()}), run_geometry, 1500, 20000, "edges drawn for a partition"),
    Facet("limit shape", shape_case, run_shape, 1500, 20000, "closed form of the limit shape"),
    Facet("plot", plot_case, run_plot, 24, 100, "plots work for every sample, and change nothing", cpu_limit=300),
]
