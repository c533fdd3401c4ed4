"""P06: rejection-based exact samplers (vfx, alpha)."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gens, laws
from pbt.branch import Unsupported, enumerate_law
from pbt.core import Facet, Violation, derive, sut
from pbt.stats import check_discrete

RULE = ("A case is a likelihood function, a data set, sampler parameters and a sequence of requests; it is non-trivial when the "
        "kernel is not diagonal (exact) or, for statistical facets, when at least three sets have probability above 1%.")
ASSUMPTIONS = ["Exact facet: two points (three in the thorough tier); the law given acceptance at the first proposal is enumerated with "
               "the Poisson sizes truncated at tail 1e-6 and with-replacement draws enumerated up to order; proposals are taken to be iid.",
               "Statistical facets decide with p < 1e-9 and an independent confirmation: complete laws for N <= 6, the joint law of the numbers of points inside and outside a set for 12 to 40 points.",
               "Explicit ValueErrors of the dictionary construction on data with tiny effective dimension count as refusals; the generated "
               "data have effective dimension well above 1."]


class Rare(Exception):
    pass


class Ev(object):
    """likelihood function; log of calls is not kept, so objects can be copied"""

    def __init__(self, kern, scale, frozen=False):
        self.kern, self.scale, self.frozen = kern, scale, frozen

    def __call__(self, X, Y=None):
        X = np.atleast_2d(X)
        Y = X if Y is None else np.atleast_2d(Y)
        if self.kern == "rbf":
            K = gens.rbf(X, Y)
        elif self.kern == "lin":
            K = X.dot(Y.T)
        else:
            K = (1 + X.dot(Y.T)) ** 2
        K = self.scale * K
        if self.frozen:  # what the function returns belongs to the user (it may come from a cache)
            K.flags.writeable = False
        return K


class EvDiag(Ev):
    def diag(self, X):
        return np.array([self(x[None])[0, 0] for x in X])


@st.composite
def data_case(draw, nmin, nmax):
    c = {"N": draw(st.integers(nmin, nmax)), "seed": draw(gens.seeds()), "kern": draw(st.sampled_from(["rbf", "rbf", "lin", "poly"])),
         "scale": draw(st.sampled_from([2.0, 4.0, 8.0])), "d": draw(st.integers(1, 3)), "spread": draw(st.sampled_from([0.6, 1.0, 2.0])),
         "dup": draw(st.integers(0, 3)) == 0, "diag": draw(st.booleans()), "frozen": draw(st.booleans()), "ints": draw(st.integers(0, 4)) == 0}
    return c


def build(c):
    rng = np.random.RandomState(c["seed"])
    X = rng.randn(c["N"], c["d"]) * c["spread"]
    if c["kern"] != "rbf":
        X = X / np.maximum(np.linalg.norm(X, axis=1), 1e-3)[:, None] * rng.uniform(0.7, 1.3, (c["N"], 1))
    if c["dup"] and c["N"] > 1:
        X[-1] = X[0]
    scale = c["scale"] / (4 if c["kern"] == "poly" else 1)
    if c.get("ints"):  # integer data: the linear and polynomial kernels return integers
        X = np.random.RandomState(c["seed"]).randint(-1, 2, size=(c["N"], c["d"]))
        X[np.all(X == 0, axis=1), 0] = 1
        if c["kern"] != "rbf":
            scale = int(np.ceil(scale))
    ev = (EvDiag if c["diag"] else Ev)(c["kern"], scale, c.get("frozen", False))
    return ev, X, gens.sym(ev(X))


def deff(L):
    e = np.maximum(np.linalg.eigvalsh(L), 0)
    return float((e / (1 + e)).sum())


def funcs(c):
    return {"sq": lambda s: s * s, "id": lambda s: s, "two": lambda s: 2.0, "plus": lambda s: s + 0.5,
            "1e3": lambda s: 1e3 * s, "1e5": lambda s: 1e5 * s}[c["qf"]]


@st.composite
def exact_case(draw, nmin=2, nmax=2):
    c = draw(data_case(nmin, nmax))
    c["mode"] = draw(st.sampled_from(["vfx", "alpha"]))
    c["k"] = draw(st.sampled_from([None, None, 1]))
    c["qf"] = draw(st.sampled_from(["id", "two", "plus", "sq"] if nmax == 2 else ["id"]))
    c["over"] = draw(st.sampled_from([2.0, 4.0, 10.0]))
    c["warm"] = draw(st.sampled_from([1, 1, 12]))
    return c


def prepare(c, ev, X):
    """object with precomputed information (several seeds: dictionary construction may refuse)"""
    d = gens.make_dpp(("likelihood", False, {"L_eval_X_data": (ev, X)}))
    f = funcs(c)
    kw = dict(verbose=False)
    if c["mode"] == "vfx":
        kw.update(q_func=f, rls_oversample_dppvfx=c["over"], rls_oversample_bless=c["over"])
    else:
        kw.update(r_func=f, rls_oversample_alphadpp=c["over"], rls_oversample_bless=c["over"])
    err = None
    for t in range(12):
        r = np.random.RandomState(derive("p06", c["seed"], t))
        try:
            # several draws: the alpha sampler refines its bounds while it draws
            for _ in range(1 if c["mode"] == "vfx" else c.get("warm", 12)):
                if c["k"] is None:
                    d.sample_exact(mode=c["mode"], random_state=r, **kw)
                else:
                    d.sample_exact_k_dpp(size=c["k"], mode=c["mode"], random_state=r, max_iter_size_rejection=400, **kw)
            return d, kw
        except ValueError as e:
            err = e
    return err, kw


def run_exact(c):
    ev, X, L = build(c)
    N = c["N"]
    dd = deff(L)
    if dd < 1.05 or (c["k"] and dd < c["k"] + 0.2):
        return {"nontrivial": False, "execs": 0, "tag": "too small"}
    with sut("preparing the sampler"):
        d, kw = prepare(c, ev, X)
    if isinstance(d, ValueError):
        # with other functions than the default the proposals may be accepted too rarely
        if c["qf"] == "sq" and dd > 1.5 and c["over"] >= 4 and (not c["k"] or dd > c["k"] + 0.5):
            raise Violation("the %s sampler refused 12 times to sample (effective dimension %.2f): %s" % (c["mode"], dd, d))
        return {"nontrivial": False, "execs": 0, "tag": "refused"}
    kw["max_iter"] = 1
    if c["k"]:
        kw["max_iter_size_rejection"] = 1
        if c["mode"] == "alpha":
            kw["early_stop"] = True

    def draw(rng):
        dpp = copy.deepcopy(d)
        try:
            if c["k"] is None:
                s = dpp.sample_exact(mode=c["mode"], random_state=rng, **kw)
            else:
                s = dpp.sample_exact_k_dpp(size=c["k"], mode=c["mode"], random_state=rng, **kw)
        except ValueError as e:
            if "maximum number of rejections" in str(e):
                return "rejected"
            raise Violation("%s sampler: %s" % (c["mode"], e))
        return laws.as_set(s, N)
    what = "%s sampler, k=%s" % (c["mode"], c["k"])
    try:
        law, n, lost = enumerate_law(draw, max_paths=60000 if N > 2 else 9000, poisson_tail=1e-6 if N == 2 else 3e-4, multiset=True)
    except Unsupported:
        return {"nontrivial": False, "execs": 0, "tag": "not enumerable"}
    rej = law.pop("rejected", 0.0)
    t = laws.law_k_from_L(L, c["k"]) if c["k"] else laws.law_from_L(L)
    laws.compare_laws(law, t, what, tol=2e-5 if N == 2 else 2e-2)
    return {"nontrivial": bool(np.abs(L - np.diag(np.diag(L))).max() > 1e-6), "execs": n, "tag": "%s/k=%s" % (c["mode"], c["k"]),
            "note": "acceptance probability of one proposal %.3f" % (1 - rej)}


# ---- repeated draws, histories mixing the samplers; statistical decision
def requests():
    return st.tuples(st.sampled_from(["vfx", "alpha"]), st.sampled_from([None, None, 1, 2]))


@st.composite
def stat_case(draw):
    c = draw(data_case(3, 6))
    c["hist"] = [list(r) for r in draw(st.lists(requests(), min_size=0, max_size=3))]
    c["final"] = list(draw(requests()))
    c["qf"] = draw(st.sampled_from(["sq", "sq", "id", "two"]))
    c["over"] = draw(st.sampled_from([3.0, 4.0, 10.0]))
    c["deep"] = draw(st.booleans())
    c["fresh"] = draw(st.integers(0, 2)) == 0
    if c["fresh"]:
        c["hist"], c["qf"] = [], "sq"
        c["final"][0] = draw(st.sampled_from(["alpha", "alpha", "vfx"]))
    return c


@st.composite
def intense_case(draw):
    """large intensities: every point is proposed hundreds of times or more"""
    c = draw(stat_case())
    c["fresh"] = False
    c["qf"] = draw(st.sampled_from(["1e3", "1e3", "1e5"]))
    c["hist"] = c["hist"][:1]
    return c


def call(d, mode, k, rng, kw):
    if k is None:
        return d.sample_exact(mode=mode, random_state=rng, **kw)
    return d.sample_exact_k_dpp(size=k, mode=mode, random_state=rng, **kw)


def run_stat(c, n=700):
    ev, X, L = build(c)
    N = c["N"]
    dd = deff(L)
    mode, k = c["final"]
    if dd < 1.4 or (k and dd < k + 0.4):
        return {"nontrivial": False, "execs": 0, "tag": "too small"}
    with sut("building the DPP"):
        d = gens.make_dpp(("likelihood", False, {"L_eval_X_data": (ev, X)}))
    f = funcs(c)

    def kws(m, kk):
        kw = {"verbose": False, "rls_oversample_bless": c["over"]}
        if m == "vfx":
            kw.update(q_func=f, rls_oversample_dppvfx=c["over"])
        else:
            kw.update(r_func=f, rls_oversample_alphadpp=c["over"])
        if kk:
            kw["max_iter_size_rejection"] = 400
        return kw
    rng = np.random.RandomState(c["seed"] + 2)
    refused, ok = 0, 0
    for m, kk in c["hist"] + [[mode, k]]:
        for t in range(8):
            n0 = len(d.list_of_samples)
            try:
                s = laws.as_set(call(d, m, kk, rng, kws(m, kk)), N)
            except ValueError as e:
                refused += 1
                if len(d.list_of_samples) != n0:
                    raise Violation("a refused call changed the list of samples")
                last = e
                continue
            except Violation:
                raise
            except Exception as e:
                raise Violation("%s sampler with k=%s after %r raised %s: %s" % (m, kk, c["hist"], type(e).__name__, e))
            if kk and len(s) != kk:
                raise Violation("%s k-DPP sample %r has size %d instead of %d" % (m, s, len(s), kk))
            ok += 1
            break
        else:
            if (m, kk) == (mode, k):
                if c["qf"] == "sq" and dd > 2 and c["over"] >= 4 and (not k or dd > k + 1):
                    raise Violation("the %s sampler (k=%s) refused 8 times (effective dimension %.2f): %s" % (m, k, dd, last))
                return {"nontrivial": False, "execs": 8, "tag": "refused"}
    t = laws.law_k_from_L(L, k) if k else laws.law_from_L(L)
    cnt = [0, 0]

    def draw(r):
        cnt[0] += 1
        for _ in range(6 if not c["fresh"] else 20):
            try:
                # fresh: every draw is the first one of a new object (new dictionary, bounds not refined yet)
                dd_ = gens.make_dpp(("likelihood", False, {"L_eval_X_data": (ev, X)})) if c["fresh"] else d
                return laws.as_set(call(dd_, mode, k, r, kws(mode, k)), N)
            except ValueError:
                cnt[1] += 1
        if c["qf"] != "sq" or c["fresh"]:
            raise Rare()
        raise Violation("%s sampler (k=%s) refuses draws it served before" % (mode, k))
    with sut("repeated draws (%s, k=%s) after %r" % (mode, k, c["hist"]), allow=Rare):
        try:
            check_discrete(draw, t, n * (4 if c["deep"] else 1), derive("p06s", c["seed"]), "%s sampler, k=%s, after %r" % (mode, k, c["hist"]))
        except Rare:
            return {"nontrivial": False, "execs": cnt[0], "tag": "accepted too rarely"}
    if c["qf"] == "sq" and not c["fresh"] and cnt[1] > 0.2 * cnt[0] + 5:
        raise Violation("%s sampler (k=%s): %d of %d draws refused" % (mode, k, cnt[1], cnt[0]))
    return {"nontrivial": sum(p > 0.01 for p in t.values()) >= 3, "execs": cnt[0] + ok, "tag": "%s/k=%s" % (mode, k)}


# ---- many points: joint law of the number of points drawn inside and outside a set
def counts_law(L, A):
    """dict (number in A, number out of A) -> probability under DPP(L); coefficients of det(I + diag(z or w) L) by FFT"""
    N = L.shape[0]
    A = np.asarray(A, bool)
    na, nb = int(A.sum()), int((~A).sum())
    z, w = np.exp(2j * np.pi * np.arange(na + 1) / (na + 1)), np.exp(2j * np.pi * np.arange(nb + 1) / (nb + 1))
    base = np.linalg.slogdet(np.eye(N) + L)[1]
    G = np.empty((na + 1, nb + 1), complex)
    for i in range(na + 1):
        D = np.where(A[None, :], z[i], w[:, None])
        s, l = np.linalg.slogdet(np.eye(N) + D[:, :, None] * L)
        G[i] = s * np.exp(l - base)
    C = np.fft.fft2(G).real / G.size
    return {(i, j): float(C[i, j]) for i in range(na + 1) for j in range(nb + 1) if C[i, j] > 1e-12}


@st.composite
def many_case(draw):
    c = draw(data_case(12, 40))
    c["kern"] = "rbf"
    c["d"], c["spread"] = draw(st.integers(2, 4)), draw(st.sampled_from([1.0, 2.0, 4.0]))
    c["scale"] = draw(st.sampled_from([0.5, 1.0, 4.0, 20.0]))
    c["ints"] = False
    req = st.tuples(st.sampled_from(["vfx", "alpha"]), st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7, 8]))   # tenths of the effective dimension
    c["hist"] = [list(r) for r in draw(st.lists(req, min_size=0, max_size=2))]
    c["final"] = list(draw(req))
    c["qf"], c["over"] = draw(st.sampled_from(["sq", "sq", "id"])) if c["final"][0] == "alpha" and all(r[0] == "alpha" for r in c["hist"]) else "sq", draw(st.sampled_from([3.0, 4.0, 10.0]))
    c["part"] = draw(st.sampled_from(["half", "half", "first", "last", "central", "one"]))
    return c


def run_many(c, n=500):
    ev, X, L = build(c)
    N, dd = c["N"], deff(L)
    if dd < 2.5:
        return {"nontrivial": False, "execs": 0, "tag": "too small"}
    size = lambda q: max(1, int(round(q / 10.0 * (dd - 1)))) if q else None
    hist, (mode, k) = [(m, size(q)) for m, q in c["hist"]], (c["final"][0], size(c["final"][1]))
    rng = np.random.RandomState(c["seed"] + 2)
    score = {"half": rng.rand(N), "first": np.arange(N), "last": -np.arange(N), "central": np.linalg.norm(X - X.mean(axis=0), axis=1), "one": rng.rand(N)}[c["part"]]
    A = np.zeros(N, bool)
    A[np.argsort(score)[:1 if c["part"] == "one" else N // 2]] = True
    if k:       # the k-DPP does not depend on the scale of L: take the one for which k points are expected
        from scipy.optimize import brentq
        al = np.exp(brentq(lambda x: deff(np.exp(x) * L) - k, -30, 5))
        t = counts_law(al * L, A)
        t = {key: p for key, p in t.items() if sum(key) == k}
    else:
        t = counts_law(L, A)
    d = gens.make_dpp(("likelihood", False, {"L_eval_X_data": (ev, X)}))
    kw = {"verbose": False, "rls_oversample_bless": c["over"], "rls_oversample_dppvfx": c["over"], "rls_oversample_alphadpp": c["over"], "max_iter_size_rejection": 400}
    kw.update(q_func=funcs(c), r_func=funcs(c))
    ref = [0, 0]

    def one(m, kk, r, tries=8):
        for _ in range(tries):
            ref[1] += 1
            try:
                S = laws.as_set(call(d, m, kk, r, dict(kw)), N)
            except ValueError as e:
                ref[0] += 1
                last = e
                continue
            if kk and len(S) != kk:
                raise Violation("%s k-DPP sample %r has size %d instead of %d" % (m, S, len(S), kk))
            return S
        raise Rare(str(last))
    with sut("%s draws on %d points after %r" % (mode, N, hist), allow=Rare):
        for m, kk in hist:
            try:
                one(m, kk, rng, 3)
            except Rare:
                pass
        ref[:] = [0, 0]

        def draw(r):
            S = one(mode, k, r)
            a = sum(A[i] for i in S)
            return (int(a), len(S) - int(a))
        try:
            check_discrete(draw, t, n, derive("p06m", c["seed"]), "%s sampler, %d points, k=%s, numbers of points inside/outside %r, after %r"
                           % (mode, N, k, np.flatnonzero(A).tolist(), hist))
        except Rare as e:
            if c["qf"] == "sq" and c["over"] >= 4 and dd > 2:
                raise Violation("the %s sampler (k=%s) refused 8 times in a row (effective dimension %.2f): %s" % (mode, k, dd, e))
            return {"nontrivial": False, "execs": ref[1], "tag": "refused"}
    return {"nontrivial": sum(p > 0.01 for p in t.values()) >= 3 or c["part"] == "one", "execs": ref[1], "tag": "%s/k=%s" % (mode, k)}


# ---- requests that cannot be served
@st.composite
def refuse_case(draw):
    c = draw(data_case(3, 7))
    c["mode"] = draw(st.sampled_from(["vfx", "alpha"]))
    c["k"] = draw(st.sampled_from(["N+1", "N+3", "rank+1", "2N"]))
    c["warm"] = draw(st.booleans())
    c["qf"], c["over"] = "sq", 4.0
    return c


def run_refuse(c):
    ev, X, L = build(c)
    N = c["N"]
    e = np.linalg.eigvalsh(L)
    rank = int((e > 1e-9 * e.max()).sum())
    k = {"N+1": N + 1, "N+3": N + 3, "2N": 2 * N, "rank+1": rank + 1}[c["k"]]
    d = gens.make_dpp(("likelihood", False, {"L_eval_X_data": (ev, X)}))
    rng = np.random.RandomState(c["seed"])
    if c["warm"]:
        try:
            d.sample_exact(mode=c["mode"], random_state=rng, verbose=False)
        except ValueError:
            pass
    n0 = len(d.list_of_samples)
    for _ in range(2):
        try:
            s = d.sample_exact_k_dpp(size=k, mode=c["mode"], random_state=rng, verbose=False)
        except Exception:
            continue
        raise Violation("%s k-DPP request of size %d for %d points (rank %d) was answered with %r" % (c["mode"], k, N, rank, s))
    if len(d.list_of_samples) != n0:
        raise Violation("a refused request changed the list of samples")
    return {"nontrivial": True, "execs": 2, "tag": c["mode"] + "/" + c["k"]}


FACETS = [
    Facet("exact", exact_case, run_exact, 48, 1200, "law of one accepted proposal enumerated, 2 points, k in {None, 1}", cpu_limit=300),
    Facet("exact3", lambda: exact_case(3, 3), run_exact, 0, 48, "the same with 3 points (truncation 3e-4)", cpu_limit=600),
    Facet("repeated", stat_case, run_stat, 72, 2400, "3-6 points: frequencies of all subsets over repeated draws after other requests", cpu_limit=300),
    Facet("intense", intense_case, run_stat, 40, 800, "the same with intensities of 1e3 or 1e5 times the expected size", cpu_limit=300),
    Facet("many", many_case, run_many, 96, 3000, "12-40 points: joint frequencies of the numbers of points inside and outside a set", cpu_limit=300),
    Facet("refusal", refuse_case, run_refuse, 200, 3000, "sizes above the number of points or rank are refused", cpu_limit=120),
]
