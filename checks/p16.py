"""P16: carries, descents, virtual descents and uniform permutations."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gens, laws
from pbt.branch import Unsupported, enumerate_law
from pbt.core import Facet, Violation, derive, must_raise, sut
from pbt.stats import check_discrete

RULE = ("A case is a process (permutation, carries in a base, descents, virtual descents with x_0), a size and a seed; it is non-trivial when the law has "
        "at least two outcomes.")
ASSUMPTIONS = ["Exact joint laws: permutations of at most 6 items, at most 5 digits / 4096 digit sequences, descents of at most 6 items, virtual descents "
               "with at most 4 positions; larger sizes through the laws of short windows and products at distance, at significance 1e-9.",
               "The virtual descent process numbers its positions from 0 (the code's convention); the two other processes from 1."]


def as_positions(s, lo, hi, what):
    s = list(s)
    for x in s:
        if isinstance(x, (bool, np.bool_)) or int(x) != x:
            raise Violation("%s: %r is not a position" % (what, x))
    if any(a >= b for a, b in zip(s, s[1:])):
        raise Violation("%s: positions %r are not increasing" % (what, s))
    if s and (s[0] < lo or s[-1] > hi):
        raise Violation("%s: positions %r out of {%d..%d}" % (what, s, lo, hi))
    return tuple(int(x) for x in s)


# ---------------------------------------------------------------- references
def carries_law(n, b):
    out = {}
    for d in itertools.product(range(b), repeat=n):
        tot, pos = 0, []
        for i, x in enumerate(d):
            if tot + x >= b:
                pos.append(i)
            tot = (tot + x) % b
        out[tuple(pos)] = out.get(tuple(pos), 0) + 1.0 / b ** n
    return out


def descents_law(n):
    out = {}
    for s in itertools.permutations(range(n)):
        k = tuple(i for i in range(1, n) if s[i - 1] > s[i])
        out[k] = out.get(k, 0) + 1.0 / math.factorial(n)
    return out


def virtual_law(n, x):
    D = {}
    for s in itertools.permutations(range(n + 1)):
        k = tuple(s[i] > s[i + 1] for i in range(n))
        D[k] = D.get(k, 0) + 1.0 / math.factorial(n + 1)
    out = {}
    for Y in itertools.product((0, 1), repeat=n + 1):
        py = x ** sum(Y) * (1 - x) ** (n + 1 - sum(Y))
        if py == 0:
            continue
        for X, p in D.items():
            k = tuple(i for i in range(n) if not Y[i] and (Y[i + 1] or X[i]))
            out[k] = out.get(k, 0) + p * py
    return out


def reference(c, n):
    """law over positions, range of positions"""
    if c["proc"] == "carries":
        return carries_law(n, c["base"]), 1, n - 1
    if c["proc"] == "descent":
        return descents_law(n), 1, n - 1
    return virtual_law(n, c["x0"]), 0, n - 1


def param(c):
    return {"carries": lambda: 0.5 * (1 - 1.0 / c["base"]), "descent": lambda: 0.5, "virtual": lambda: 0.5 * (1 - c["x0"] ** 2)}[c["proc"]]()


def make(c):
    from dppy.exotic_dpps import CarriesProcess, DescentProcess, VirtualDescentProcess
    with sut("constructor"):
        if c["proc"] == "carries":
            return CarriesProcess(c["base"])
        if c["proc"] == "descent":
            return DescentProcess()
        return VirtualDescentProcess(c["x0"])


def name(c):
    return {"carries": "carries in base %s" % c.get("base"), "descent": "descents", "virtual": "virtual descents with x_0=%s" % c.get("x0")}[c["proc"]]


def one(p, n, rng, lo, hi, what):
    m = len(p.list_of_samples)
    with sut(what):
        p.sample(size=n, random_state=rng)
    if len(p.list_of_samples) != m + 1:
        raise Violation("%s: sample did not append one entry" % what)
    return as_positions(p.list_of_samples.pop(), lo, hi, what)


@st.composite
def law_case(draw):
    proc = draw(st.sampled_from(["carries", "descent", "virtual", "virtual"]))
    c = {"proc": proc, "seed": draw(gens.seeds())}
    if proc == "carries":
        c["base"] = draw(st.sampled_from([2, 2, 3, 4, 5, 10, 16, 60]))
        c["n"] = draw(st.integers(1, {2: 6, 3: 5, 4: 5, 5: 4, 10: 3, 16: 2, 60: 2}[c["base"]]))
    elif proc == "descent":
        c["n"] = draw(st.integers(1, 6))
    else:
        c["x0"] = draw(st.one_of(st.sampled_from([0, 1, 0.5, 0.25, 0.0, 1.0]), st.floats(0, 1).map(lambda v: round(v, 3))))
        c["n"] = draw(st.integers(1, 4))
    return c


def run_law(c):
    p = make(c)
    n = c["n"]
    target, lo, hi = reference(c, n)
    what = "%s, size %d" % (name(c), n)
    with sut("_bernoulli_param"):
        b = p._bernoulli_param
    if not abs(b - param(c)) <= 1e-12:
        raise Violation("%s: advertised Bernoulli parameter %r instead of %r" % (what, b, param(c)))

    def f(rng):
        try:
            return one(p, n, rng, lo, hi, what)
        except Violation as v:
            return ("BAD", v.msg)
    try:
        law, m, _ = enumerate_law(f, max_paths=12000)
        laws.compare_laws(law, target, what, tol=1e-8)
        tag = c["proc"]
    except Unsupported:
        m = 4000
        check_discrete(lambda r: one(p, n, r, lo, hi, what), target, m, derive("p16", c["seed"]), what)
        tag = c["proc"] + " (frequencies)"
    return {"nontrivial": sum(v > 0 for v in target.values()) > 1, "execs": m, "tag": tag}


@st.composite
def window_case(draw):
    c = draw(law_case())
    c["n"] = draw(st.one_of(st.sampled_from([8, 12, 20, 33, 60]), st.integers(8, 300)))
    if c["proc"] == "carries":
        c["base"] = draw(st.one_of(st.sampled_from([2, 3, 10, 2 ** 16, 2 ** 31 - 1, 10 ** 9, 10 ** 12]), st.integers(2, 1000)))
    c["at"] = [draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 10 ** 6))]
    return c


def window_law(c):
    """joint law of (position i, position i+1) and of one position, from small enumerations (stationarity)"""
    p1 = param(c)
    if c["proc"] == "carries":
        b = c["base"]
        # carries at i, i+1: partial sums B0 > B1 > B2 (mod b), uniform and independent
        p11 = math.comb(b, 3) / b ** 3 if b >= 3 else 0.0
    elif c["proc"] == "descent":
        p11 = 1.0 / 6
    else:
        x = c["x0"]
        p11 = (1 - x) ** 2 * x * 0.5 + (1 - x) ** 3 / 6
    return p1, p11


def run_window(c):
    p = make(c)
    n = c["n"]
    what = "%s, size %d" % (name(c), n)
    lo, hi = (0, n - 1) if c["proc"] == "virtual" else (1, n - 1)
    p1, p11 = window_law(c)
    i = lo + c["at"][0] % (hi - lo)          # adjacent pair i, i+1
    far = [j for j in range(lo, hi + 1) if abs(j - i) > 1 and abs(j - i - 1) > 1]
    j = far[c["at"][1] % len(far)]
    pair = {(1, 1): p11, (1, 0): p1 - p11, (0, 1): p1 - p11, (0, 0): 1 - 2 * p1 + p11}
    target = {k + (z,): v * (p1 if z else 1 - p1) for k, v in pair.items() for z in (0, 1)}
    target = {k: (v if v > 1e-15 else 0.0) for k, v in target.items()}

    def draw(rng):
        s = set(one(p, n, rng, lo, hi, what))
        return (int(i in s), int(i + 1 in s), int(j in s))
    check_discrete(draw, target, 1500, derive("p16w", c["seed"]), what + ", presence of %d, %d and %d" % (i, i + 1, j))
    # average over all positions, one long draw
    m = 20000
    s = one(p, m, np.random.RandomState(c["seed"]), lo, m - 1, what)
    cnt = len(s)
    N = m if c["proc"] == "virtual" else m - 1
    var = N * (p1 * (1 - p1) + 2 * (p11 - p1 * p1)) + 1e-9
    if not abs(cnt - N * p1) <= 8 * math.sqrt(max(var, 1.0)) + 3:
        raise Violation("%s: %d positions among %d, expected %.1f" % (name(c), cnt, N, N * p1))
    return {"nontrivial": 0 < p1 < 1, "execs": 1501, "tag": c["proc"]}


# ---- every position and every adjacent pair of a longer process
def run_profile(c):
    from scipy import stats as ss
    p = make(c)
    n = c["n"]
    what = "%s, size %d" % (name(c), n)
    lo, hi = (0, n - 1) if c["proc"] == "virtual" else (1, n - 1)
    p1, p11 = window_law(c)
    ref = np.concatenate([np.full(hi - lo + 1, p1), np.full(hi - lo, p11)])
    lab = ["position %d" % i for i in range(lo, hi + 1)] + ["positions %d and %d" % (i, i + 1) for i in range(lo, hi)]

    def counts(m, seed):
        rng = np.random.RandomState(seed)
        cnt = np.zeros((m, hi - lo + 1), bool)
        for t in range(m):
            cnt[t, np.array(one(p, n, rng, lo, hi, what), int) - lo] = True
        return np.concatenate([cnt.sum(axis=0), (cnt[:, 1:] & cnt[:, :-1]).sum(axis=0)])

    def pv(k, m):
        q = np.clip(ref, 0, 1)
        return 2 * np.minimum(ss.binom.cdf(k, m, q), ss.binom.sf(k - 1, m, q))
    m = 300
    v = pv(counts(m, derive("p16f", c["seed"])), m)
    i = int(np.argmin(v))
    if v[i] < 1e-4:
        k2 = counts(4 * m, derive("p16f2", c["seed"]))
        v2 = pv(k2, 4 * m)
        if v2[i] < 1e-9:
            raise Violation("%s: %s with frequency %.4f instead of %.4f (p=%.1e, confirmation p=%.1e)" % (what, lab[i], k2[i] / (4.0 * m), ref[i], v[i], v2[i]))
    return {"nontrivial": 0 < p1 < 1, "execs": m, "tag": c["proc"]}


@st.composite
def perm_case(draw):
    return {"n": draw(st.integers(0, 6)), "big": draw(st.one_of(st.sampled_from([1, 2, 7, 20, 50, 200]), st.integers(1, 300))), "seed": draw(gens.seeds()), "at": draw(st.integers(0, 10 ** 6))}


def as_perm(s, n, what):
    s = np.asarray(s)
    if s.shape != (n,) or sorted(s.tolist()) != list(range(n)):
        raise Violation("%s returned %r" % (what, s.tolist()))
    return tuple(int(x) for x in s)


def run_perm(c):
    from dppy.exotic_dpps_core import uniform_permutation
    n = c["n"]
    what = "uniform_permutation(%d)" % n

    def f(rng):
        with sut(what):
            s = uniform_permutation(n, random_state=rng)
        return as_perm(s, n, what)

    def g(rng):
        try:
            return f(rng)
        except Violation as v:
            return ("BAD", v.msg)
    target = {s: 1.0 / math.factorial(n) for s in itertools.permutations(range(n))}
    try:
        law, m, _ = enumerate_law(g, max_paths=6000)
        laws.compare_laws(law, target, what, tol=1e-9)
    except Unsupported:
        m = 6000
        check_discrete(f, target, m, derive("p16p", c["seed"]), what)
    # larger permutations: joint law of the images of two places
    N = c["big"]
    what = "uniform_permutation(%d)" % N
    rng0 = np.random.RandomState(c["seed"])
    a = c["at"] % N
    b = (a + 1 + (c["at"] // N) % (N - 1)) % N if N > 1 else a
    blocks = min(N, 4)
    cell = lambda v: v * blocks // N
    size = np.bincount([cell(v) for v in range(N)], minlength=blocks)
    if N > 1:
        target = {(x, y): size[x] * (size[y] - (x == y)) / (N * (N - 1.0)) for x in range(blocks) for y in range(blocks)}
    else:
        target = {(0, 0): 1.0}

    def draw(rng):
        with sut(what):
            s = as_perm(uniform_permutation(N, random_state=rng), N, what)
        return (cell(s[a]), cell(s[b]))
    check_discrete(draw, target, 500, derive("p16b", c["seed"]), what + ", images of %d and %d" % (a, b))
    return {"nontrivial": n > 1, "execs": m + 500, "tag": n}


@st.composite
def edge_case(draw):
    return {"x0": draw(st.sampled_from([-1e-9, -0.5, 1.0000001, 2, float("nan"), float("inf"), -float("inf")])), "n": draw(st.integers(1, 3)),
            "base": draw(st.integers(2, 12)), "seed": draw(gens.seeds()), "x": draw(st.floats(0, 1))}


def run_edge(c):
    from dppy.exotic_dpps import CarriesProcess, DescentProcess, VirtualDescentProcess
    must_raise("VirtualDescentProcess(x_0=%r)" % c["x0"], lambda: VirtualDescentProcess(x_0=c["x0"]))
    for p, lo in ((CarriesProcess(c["base"]), 1), (DescentProcess(), 1), (VirtualDescentProcess(c["x"]), 0)):
        what = type(p).__name__
        for n in (1, c["n"], 50):
            with sut("%s.sample(size=%d)" % (what, n)):
                p.sample(size=n, random_state=c["seed"])
                str(p)
            as_positions(p.list_of_samples[-1], lo, n - 1, what)
        with sut(what):
            p.sample(random_state=c["seed"])
        as_positions(p.list_of_samples[-1], lo, 99, what)
    return {"nontrivial": True, "execs": 13}


FACETS = [
    Facet("joint law", law_case, run_law, 160, 1500, "exact joint law of the positions", cpu_limit=200),
    Facet("windows", window_case, run_window, 160, 3000, "adjacent pairs and distant positions of longer processes", cpu_limit=200),
    Facet("profile", window_case, run_profile, 96, 1500, "frequencies of every position and adjacent pair, sizes up to 300", cpu_limit=200),
    Facet("permutations", perm_case, run_perm, 120, 2000, "uniformity of the permutations"),
    Facet("edges", edge_case, run_edge, 100, 1000, "parameter ranges and small sizes"),
]
