"""P05: history independence of FiniteDPP objects (stateful, model based: the model is the immutable DPP definition)."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks import p03, p04
from pbt import gens, laws
from pbt.core import Facet, Violation, derive, must_raise, sut
from pbt.stats import check_mean

RULE = ("A case is a DPP definition, a sequence of operations and a final probe; it is non-trivial when the sequence has at least two "
        "operations that compute, draw or fail, and the probed law is not a point mass.")
ASSUMPTIONS = ["Exact enumeration replaces numpy's generator by one whose draws branch.",
               "The model of an object is its definition only: every answer is compared with the reference law / kernels of the definition.",
               "Complete laws for few items; for 10 to 60 items the kernels and the statistics of draws or of one transition."]

GENERIC_MODES = ["GS", "GS_bis", "KuTa12", "Chol"]


def op_strategy():
    return st.one_of(
        st.tuples(st.just("K")), st.tuples(st.just("L")), st.tuples(st.just("K")), st.tuples(st.just("L")),
        st.tuples(st.just("exact"), st.integers(0, 4)),
        st.tuples(st.just("exact"), st.integers(0, 4)),
        st.tuples(st.just("kdpp"), st.integers(1, 4), st.integers(0, 2)),
        st.tuples(st.just("kdpp"), st.integers(1, 4), st.integers(0, 2)),
        st.tuples(st.just("mcmc"), st.sampled_from(["AED", "AD", "E"]), st.integers(1, 5)),
        st.tuples(st.just("mcmc_k"), st.integers(1, 4), st.integers(1, 5)),
        st.tuples(st.just("flush")), st.tuples(st.just("str")), st.tuples(st.just("plot")),
        st.tuples(st.just("bad"), st.sampled_from(["ksize", "kgrow", "mode", "kmode", "mcmcmode", "schur", "zonotope", "vfx", "esize"])))


@st.composite
def case(draw, nmax=3):
    if draw(st.integers(0, 2)) == 0:
        c = draw(p03.proj_case(nmin=1, nmax=nmax + 1))
        c["proj"] = True
    else:
        c = draw(gens.generic_case(nmin=1, nmax=nmax, lt1=True))
        c["proj"] = False
    c["ops"] = [list(o) for o in draw(st.lists(op_strategy(), min_size=1, max_size=7))]
    c["probe"] = list(draw(st.one_of(
        st.tuples(st.just("exact"), st.integers(0, 4)), st.tuples(st.just("kdpp"), st.integers(1, 4), st.integers(0, 2)),
        st.tuples(st.just("kernels")), st.tuples(st.just("none")))))
    return c


class Model(object):
    def __init__(self, c):
        self.c = c
        self.N = c["N"]
        if c["proj"]:
            b = p03.build_proj(c)
            self.b = b
            self.corr = b[0] == "correlation"
            P = b[3]
            if self.corr:
                self.K, self.L, self.rank = P, None, c["r"]
            else:
                self.K, self.L, self.rank = P / 2, P, c["r"]
            p = c["param"]
            # all modes of a fresh object
            if self.corr:
                self.exact_modes = {"K": ["GS", "Chol", "Schur"]}.get(p, ["GS", "GS_bis", "KuTa12", "Chol", "Schur"])
                self.k_modes = p03.PROJ[p]
            else:
                self.exact_modes = GENERIC_MODES
                self.k_modes = p03.PROJ[p]
        else:
            self.b = gens.build_generic(c)
            self.corr = self.b[0] == "correlation"
            self.K, self.L = self.b[3], self.b[4]
            self.rank = p03.rank_of(self.L)
            self.exact_modes, self.k_modes = GENERIC_MODES, p03.MODES
        self.cond = 1.0 / (1 - np.linalg.eigvalsh(self.K).max()) if self.L is not None and self.N else 1.0

    def k_ok(self, k):
        """admissible k for the request k (or None)"""
        if self.rank == 0:
            return None
        return self.rank if (self.c["proj"] and self.corr) else 1 + (k - 1) % self.rank

    def state(self, k=None):
        """a state of positive probability (largest minor) of size k"""
        L = self.K if self.L is None else self.L
        t = laws.law_k_from_L(L, k)
        return list(max(t, key=t.get))


def apply_op(d, m, op, rng, i):
    """apply; returns 1 if it did something"""
    what = "operation %d %r" % (i, op)
    o = op[0]
    n0 = len(d.list_of_samples)
    if o == "K":
        with sut(what):
            d.compute_K()
    elif o == "L":
        if m.L is None:
            try:
                d.compute_L()
            except Exception:
                pass
            else:
                raise Violation("%s: compute_L of a projection correlation kernel does not raise" % what)
        else:
            with sut(what):
                d.compute_L()
    elif o == "exact":
        mode = m.exact_modes[op[1] % len(m.exact_modes)]
        with sut(what + " (%s)" % mode):
            laws.as_set(d.sample_exact(mode=mode, random_state=rng), m.N)
    elif o == "kdpp":
        k = m.k_ok(op[1])
        mode = m.k_modes[op[2] % len(m.k_modes)]
        if k is None:
            return 0
        with sut(what + " (k=%d, %s)" % (k, mode)):
            s = laws.as_set(d.sample_exact_k_dpp(size=k, mode=mode, random_state=rng), m.N)
        if len(s) != k:
            raise Violation("%s: sample %r of size %d" % (what, s, len(s)))
    elif o == "mcmc":
        if m.L is None and op[1] != "E":
            must_raise(what, lambda: d.sample_mcmc(op[1], s_init=[], nb_iter=op[2], random_state=rng))
        else:
            k = m.k_ok(1) if (m.L is None or op[1] == "E") else min(1, m.rank)
            if k is None:
                return 0
            kw = {"size": k} if op[1] == "E" else {}
            with sut(what):
                d.sample_mcmc(op[1], s_init=m.state(k), nb_iter=op[2], random_state=rng, **kw)
    elif o == "mcmc_k":
        k = m.k_ok(op[1])
        if k is None:
            return 0
        with sut(what):
            d.sample_mcmc_k_dpp(size=k, s_init=m.state(k), nb_iter=op[2], random_state=rng)
    elif o == "flush":
        d.flush_samples()
    elif o == "str":
        str(d)
        d.info()
    elif o == "plot":
        import matplotlib.pyplot as plt
        with sut(what):
            d.plot_kernel("correlation")
        plt.close("all")
    elif o == "bad":
        b = op[1]
        if b in ("ksize", "kgrow"):
            for k in ([m.N + 2] if b == "ksize" else range(m.N + 1, m.N + 3)):
                must_raise(what + " (size %d)" % k, lambda: d.sample_exact_k_dpp(size=k, mode=m.k_modes[0], random_state=rng))
        elif b == "mode":
            must_raise(what, lambda: d.sample_exact(mode="nope", random_state=rng))
        elif b == "kmode":
            k = m.k_ok(1)
            if k is None:
                return 0
            must_raise(what, lambda: d.sample_exact_k_dpp(size=k, mode="nope", random_state=rng))
        elif b == "mcmcmode":
            must_raise(what, lambda: d.sample_mcmc("nope", random_state=rng))
        elif b == "schur":
            if m.c["proj"] and m.corr:
                return 0
            must_raise(what, lambda: d.sample_exact(mode="Schur", random_state=rng))
        elif b == "zonotope":
            if m.c["param"] == "A_zono":
                return 0
            must_raise(what, lambda: d.sample_mcmc("zonotope", random_state=rng))
        elif b == "vfx":
            if m.c["param"] == "L_eval_X_data":
                return 0
            must_raise(what, lambda: d.sample_exact(mode="vfx", random_state=rng))
        elif b == "esize":
            if not (m.c["proj"] and m.corr):
                return 0
            must_raise(what, lambda: d.sample_mcmc("E", size=m.rank + 1, random_state=rng))
        if len(d.list_of_samples) != n0:
            raise Violation("%s: a refused call changed the list of samples" % what)
    return 1


def check_kernels(d, m, what):
    with sut(what + ": compute_K"):
        d.compute_K()
    p04.close(what + ": K", d.K, m.K, 1e-6)
    if m.L is not None:
        with sut(what + ": compute_L"):
            d.compute_L()
        p04.close(what + ": L", d.L, m.L, 1e-8 * (1 + np.abs(m.L).max()) * max(1, m.cond))


def run(c):
    m = Model(c)
    rng = np.random.RandomState(c["seed"] + 1)
    with sut("building a valid DPP"):
        d = gens.make_dpp(m.b)
    done = 0
    for i, op in enumerate(c["ops"]):
        done += apply_op(d, m, op, rng, i)
        for nm, ref in (("K", m.K), ("L", m.L)):
            A = getattr(d, nm)
            if A is not None and ref is not None:
                p04.close("after operation %d %r, %s" % (i, op, nm), A, ref, 1e-6 if nm == "K" else 1e-8 * (1 + np.abs(ref).max()) * max(1, m.cond))
            elif A is not None and ref is None:
                raise Violation("a projection correlation kernel has a likelihood kernel after %r" % (op,))
    hist = "after %r" % (c["ops"],)
    execs, mult = len(c["ops"]), False
    pr = c["probe"]
    if pr[0] == "exact":
        mode = m.exact_modes[pr[1] % len(m.exact_modes)]
        if c["proj"] and m.corr:
            from checks.p01 import target
            t = target(m.K, m.rank)
        else:
            t = laws.law_from_K(m.K)

        def draw(r):
            return laws.as_set(copy.deepcopy(d).sample_exact(mode=mode, random_state=r), m.N)
        execs += laws.check_law(draw, t, "%s: sample_exact(%s)" % (hist, mode), c, tol=3e-6)
        mult = sum(p > 1e-9 for p in t.values()) > 1
    elif pr[0] == "kdpp" and m.rank:
        k = m.k_ok(pr[1])
        mode = m.k_modes[pr[2] % len(m.k_modes)]
        t = laws.law_k_from_L(m.K if m.L is None else m.L, k)

        def draw(r):
            return laws.as_set(copy.deepcopy(d).sample_exact_k_dpp(size=k, mode=mode, random_state=r), m.N)
        execs += laws.check_law(draw, t, "%s: sample_exact_k_dpp(%d, %s)" % (hist, k, mode), c, tol=3e-6)
        mult = sum(p > 1e-9 for p in t.values()) > 1
    elif pr[0] == "kernels":
        check_kernels(d, m, hist)
        mult = m.N > 1
    return {"nontrivial": mult and done >= 2, "execs": execs, "tag": c["param"] + "/" + pr[0]}


# ---- many items: kernels after every operation, then statistics of draws or of a chain step
@st.composite
def many_case(draw):
    if draw(st.integers(0, 2)) == 0:
        c = draw(p03.proj_case(nmin=10, nmax=40))
        c["proj"] = True
        if c["layout"] == "int":
            c["layout"] = "C"
    else:
        c = draw(gens.many_case(10, 60, lt1=True))
        c["proj"] = False
    big = st.integers(1, 30)
    ops = st.one_of(op_strategy(), st.tuples(st.just("kdpp"), big, st.integers(0, 2)), st.tuples(st.just("mcmc_k"), big, big), st.tuples(st.just("exact"), st.integers(0, 4)))
    c["ops"] = [list(o) for o in draw(st.lists(ops, min_size=2, max_size=10))]
    c["probe"] = list(draw(st.one_of(st.tuples(st.just("exact"), st.integers(0, 4)), st.tuples(st.just("kdpp"), big, st.integers(0, 2)), st.tuples(st.just("kernels")))))
    return c


class BigModel(Model):
    def __init__(self, c):
        Model.__init__(self, c)
        L = self.K if self.L is None else self.L
        e = np.linalg.eigvalsh(L)
        self.rank = c["r"] if c["proj"] else int(np.sum(e > 1e-9 * e[-1])) if e[-1] > 0 else 0

    def state(self, k=None):
        import scipy.linalg as la
        L = self.K if self.L is None else self.L
        return [int(i) for i in la.qr(L, pivoting=True, mode="r")[1][:k]]


def run_many(c):
    m = BigModel(c)
    N = m.N
    rng = np.random.RandomState(c["seed"] + 1)
    with sut("building a valid DPP"):
        d = gens.make_dpp(m.b)
    done = 0
    for i, op in enumerate(c["ops"]):
        done += apply_op(d, m, op, rng, i)
        for nm, ref in (("K", m.K), ("L", m.L)):
            A = getattr(d, nm)
            if A is not None and ref is not None:
                p04.close("after operation %d %r, %s" % (i, op, nm), A, ref, 1e-6 if nm == "K" else 1e-8 * (1 + np.abs(ref).max()) * max(1, m.cond))
            elif A is not None and ref is None:
                raise Violation("a projection correlation kernel has a likelihood kernel after %r" % (op,))
    hist = "after %r" % (c["ops"],)
    pr = c["probe"]
    if pr[0] == "kernels" or (pr[0] == "kdpp" and not m.rank):
        check_kernels(d, m, hist)
        return {"nontrivial": done >= 2, "execs": len(c["ops"]), "tag": c["param"] + "/kernels"}
    corr_proj = c["proj"] and m.corr
    k = m.rank if corr_proj else None
    if pr[0] == "exact":
        mode = m.exact_modes[pr[1] % len(m.exact_modes)]
        f = lambda r: d.sample_exact(mode=mode, random_state=r)
    else:
        k = m.k_ok(pr[1])
        mode = m.k_modes[pr[2] % len(m.k_modes)]
        f = lambda r: d.sample_exact_k_dpp(size=k, mode=mode, random_state=r)
    G = laws.tilts(N, 6, c["seed"] + 3, min(0.7, 1.0 / np.sqrt(1 + (k or N / 4))))
    if k is None:
        inc = np.diag(m.K)
        off = np.log([np.linalg.det(np.eye(N) - (1 - g)[:, None] * m.K) for g in G])
    else:
        L = m.K if m.L is None else m.L
        e, V = np.linalg.eigh(L)
        e = np.where(e > 1e-12 * e[-1], e, 0)
        p, tot = laws.log_selection(e, k)
        inc, off = (V ** 2).dot(p), []
        for g in np.sqrt(G):
            u = np.linalg.eigvalsh(g[:, None] * L * g)
            off.append(laws.log_esp(np.where(u > 1e-12 * u[-1], u, 0), k)[k] - tot)
        off = np.array(off)

    def stat(r, n):
        X = np.zeros((n, N))
        for i in range(n):
            s = laws.as_set(f(r), N)
            if k is not None and len(s) != k:
                raise Violation("%s: sample of size %d instead of %d" % (hist, len(s), k))
            X[i, list(s)] = 1
        return np.hstack([X, np.exp(X.dot(np.log(G).T) - off)])
    with sut("%s: sampling (%s, %s)" % (hist, pr[0], mode)):
        check_mean(stat, np.concatenate([inc, np.ones(len(G))]), 150, derive("p05many", c["seed"]), "%s: %s (%s), N=%d: inclusion probabilities and tilted means" % (hist, pr[0], mode, N), confirm=6, z=4.5, z2=6.5, atol=1e-3)
    check_kernels(d, m, hist + " and many draws")
    return {"nontrivial": done >= 2, "execs": len(c["ops"]) + 150, "tag": c["param"] + "/" + pr[0]}


FACETS = [
    Facet("history", case, run, 4000, 40000, "operation sequences (length <= 7) then exact law / kernels of the object, N<=3 (4 for projections)"),
    Facet("history4", lambda: case(nmax=4), run, 400, 6000, "the same, N<=4 (5)"),
    Facet("many items", many_case, run_many, 400, 6000, "operation sequences (length <= 10) on 10 to 60 items, then kernels or statistics of draws", cpu_limit=300),
]
