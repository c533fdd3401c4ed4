"""P12: bookkeeping of samples along histories of calls (stateful, model based: the model is the list of recorded samples)."""
import copy
import re

import numpy as np
from hypothesis import strategies as st

from checks import p05, p06, p15
from checks.p10 import fake_cvxopt
from checks.p11 import plain, same
from pbt import gens, laws
from pbt.core import Facet, Violation, derive, must_raise, sut

RULE = "A case is a point process object and a history of sampling, failing, reading and flushing calls; it is non-trivial when at least two samples are recorded and at least one other call is made between or after them."
ASSUMPTIONS = ["Samples are compared by value; the object kept by the caller and the recorded one may be the same object, which the caller does not modify.",
               "Failing calls are calls whose arguments are refused (unknown mode, inconsistent sizes, unsupported beta, ...).", "Plots are drawn with matplotlib's Agg backend.",
               "cvxopt is not installed: the zonotope sampler runs with the stand-in of P10."]


class History(object):
    """the list of samples of an object, against its model"""

    def __init__(self, obj, what):
        self.obj, self.what, self.model, self.n, self.other = obj, what, [], 0, 0

    def check(self, lab, entry=None, flushed=False):
        """after one call: entry is None or the (plain) expected new entry"""
        lst = self.obj.list_of_samples
        if flushed:
            self.model = []
        k = len(self.model)
        exp = k + (entry is not None)
        w = "%s: %s" % (self.what, lab)
        if not isinstance(lst, list):
            raise Violation("%s: list_of_samples is a %s" % (w, type(lst).__name__))
        if len(lst) != exp:
            raise Violation("%s: %d samples recorded instead of %d" % (w, len(lst), exp))
        # long histories: the first ones and the last ones, all of them from time to time
        for i in range(k) if k < 40 or (self.n + self.other) % 25 == 0 else [0, 1, k // 2, k - 3, k - 2, k - 1]:
            if not same(plain(lst[i]), self.model[i]):
                raise Violation("%s: recorded sample %d was altered from %r to %r" % (w, i, self.model[i], plain(lst[i])))
        if entry is not None:
            got = plain(lst[-1])
            if entry is not True and not same(got, plain(entry)):
                raise Violation("%s returned %r but recorded %r" % (w, entry, got))
            self.model.append(got)
            self.n += 1
        else:
            self.other += 1
        with sut("%s: str" % w):
            t = str(self.obj)
        m = re.search(r"[Nn]umber of samples\s*=\s*(\d+)", t)
        if m and int(m.group(1)) != exp:
            raise Violation("%s: the string form announces %s samples, there are %d" % (w, m.group(1), exp))

    def refused(self, lab, f, exc=ValueError):
        keep = self.state()
        must_raise("%s: %s" % (self.what, lab), f, exc)
        self.check(lab + " (refused)")
        if not same(keep, self.state()):
            raise Violation("%s: the refused call %s changes the parameters in use from %r to %r" % (self.what, lab, keep, self.state()))

    def state(self):
        o = self.obj
        if hasattr(o, "params"):
            return [sorted([k, plain(v)] for k, v in o.params.items()), o.sampling_mode, plain(o.beta)]
        return [plain(getattr(o, k)) for k in ("size", "base", "x_0", "theta") + (("sampling_mode",) if self.what == "UST" else ()) if hasattr(o, k)]

    def end(self):
        for i, (x, y) in enumerate(zip(self.obj.list_of_samples, self.model)):
            if not same(plain(x), y):
                raise Violation("%s: at the end of the history recorded sample %d is %r instead of %r" % (self.what, i, plain(x), y))

    def nontrivial(self):
        return self.n >= 2 and self.other >= 1


def history(c):
    """the calls of a case; in long histories drawings and flushes happen in the last repetition only"""
    ops, r = c["ops"], c.get("reps", 1)
    short = [o for o in ops if o[0] not in ("plot", "flush", "info")]
    return short * (r - 1) + ops


def closing(f):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    try:
        return f()
    finally:
        plt.close("all")


# ---------------------------------------------------------------- finite DPPs
def fin_op():
    mc = st.sampled_from(["AED", "AD", "E"])
    return st.one_of(
        st.tuples(st.just("exact"), st.integers(0, 4)), st.tuples(st.just("exact"), st.integers(0, 4)), st.tuples(st.just("kdpp"), st.integers(1, 4), st.integers(0, 2)),
        st.tuples(st.just("mcmc"), mc, st.integers(1, 5), st.booleans()), st.tuples(st.just("mcmc"), mc, st.integers(1, 5), st.booleans()), st.tuples(st.just("mcmc_k"), st.integers(1, 4), st.integers(1, 5)),
        st.tuples(st.just("zonotope"), st.integers(1, 4)), st.tuples(st.just("vfx"), st.sampled_from(["vfx", "alpha"])),
        st.tuples(st.just("flush")), st.tuples(st.just("info")), st.tuples(st.just("K")), st.tuples(st.just("L")), st.tuples(st.just("plot"), st.sampled_from(["correlation", "likelihood", "", "nope"])),
        st.tuples(st.just("bad"), st.sampled_from(["mode", "kmode", "ksize", "mcmcmode", "schur", "zonotope", "vfx", "esize", "rng"])))


@st.composite
def fin_case(draw):
    from checks import p03
    if draw(st.integers(0, 2)) == 0:
        c = draw(p03.proj_case(nmin=2, nmax=6))
        c["proj"] = True
    else:
        c = draw(gens.generic_case(nmin=2, nmax=6, lt1=True))
        c["proj"] = False
    c["ops"] = [list(o) for o in draw(st.lists(fin_op(), min_size=4, max_size=12))]
    return c


def run_fin(c):
    m = p05.Model(c)
    rng = np.random.RandomState(c["seed"] + 3)
    with sut("building a valid DPP"):
        d = gens.make_dpp(m.b)
    h = History(d, "FiniteDPP(%s)" % c["param"])
    with fake_cvxopt():
        for i, op in enumerate(history(c)):
            fin_step(c, m, d, h, "call %d %r" % (i, op), op, rng)
    h.end()
    return {"nontrivial": h.nontrivial(), "execs": h.n + h.other, "tag": c["param"]}


def fin_step(c, m, d, h, lab, op, rng):
    o = op[0]
    w = "%s: %s" % (h.what, lab)
    if o == "exact":
        mode = m.exact_modes[op[1] % len(m.exact_modes)]
        with sut(w):
            s = d.sample_exact(mode=mode, random_state=rng)
        laws.as_set(s, m.N)
        h.check(lab + " " + mode, entry=s)
    elif o == "kdpp":
        k = m.k_ok(op[1])
        if k is None:
            return
        mode = m.k_modes[op[2] % len(m.k_modes)]
        with sut(w):
            s = d.sample_exact_k_dpp(size=k, mode=mode, random_state=rng)
        h.check(lab + " " + mode, entry=s)
    elif o in ("mcmc", "mcmc_k"):
        if o == "mcmc" and m.L is None and op[1] != "E":
            h.refused(lab, lambda: d.sample_mcmc(op[1], s_init=[], nb_iter=op[2], random_state=rng))
            return
        k = m.k_ok(op[1] if o == "mcmc_k" else 1) if (m.L is None or o == "mcmc_k" or op[1] == "E") else min(1, m.rank)
        if k is None:
            return
        s0 = m.state(k)
        # resume from the end of the last recorded trajectory
        if o == "mcmc" and op[3] and h.model and isinstance(h.model[-1][0] if h.model[-1] else 0, list) and len(h.model[-1][-1]) == k:
            s0 = d.list_of_samples[-1][-1]
        n = op[2]
        with sut(w):
            if o == "mcmc":
                s = d.sample_mcmc(op[1], s_init=s0, nb_iter=n, random_state=rng, **({"size": k} if op[1] == "E" else {}))
            else:
                s = d.sample_mcmc_k_dpp(size=k, s_init=s0, nb_iter=n, random_state=rng)
        h.check(lab, entry=True)
        chain(h, lab, s, n)
    elif o == "zonotope":
        if c["param"] != "A_zono":
            return
        with sut(w):
            s = d.sample_mcmc("zonotope", nb_iter=op[1], random_state=rng)
        h.check(lab, entry=True)
        chain(h, lab, s, op[1])
    elif o == "vfx":
        if c["param"] != "L_eval_X_data":
            return
        try:
            s = d.sample_exact(mode=op[1], random_state=rng, verbose=False, max_iter=30)
        except ValueError:
            h.check(lab + " (refused)")
        else:
            h.check(lab, entry=s)
    elif o == "flush":
        other = {k: v for k, v in vars(d).items() if k not in ("list_of_samples", "size_k_dpp")}
        with sut(w):
            d.flush_samples()
        h.check(lab, flushed=True)
        for k, v in other.items():
            if getattr(d, k) is not v and not same(plain(getattr(d, k)), plain(v)):
                raise Violation("%s changes the attribute %s" % (w, k))
    elif o == "info":
        with sut(w):
            d.info()
        h.check(lab)
    elif o in ("K", "L"):
        if o == "L" and m.L is None:
            h.refused(lab, d.compute_L)
            return
        with sut(w):
            (d.compute_K if o == "K" else d.compute_L)()
        h.check(lab)
    elif o == "plot":
        t = op[1] or d.kernel_type
        if t == "nope" or (t == "likelihood" and m.L is None):
            closing(lambda: h.refused(lab, lambda: d.plot_kernel(op[1])))
            return
        with sut(w):
            closing(lambda: d.plot_kernel(op[1]))
        h.check(lab)
    else:
        b = op[1]
        if b == "mode":
            h.refused(lab, lambda: d.sample_exact(mode="nope", random_state=rng))
        elif b == "kmode":
            if m.k_ok(1) is not None:
                h.refused(lab, lambda: d.sample_exact_k_dpp(size=m.k_ok(1), mode="nope", random_state=rng))
        elif b == "ksize":
            h.refused(lab, lambda: d.sample_exact_k_dpp(size=m.N + 1, mode=m.k_modes[0], random_state=rng))
        elif b == "mcmcmode":
            h.refused(lab, lambda: d.sample_mcmc("nope", random_state=rng))
        elif b == "schur" and not (c["proj"] and m.corr):
            h.refused(lab, lambda: d.sample_exact(mode="Schur", random_state=rng))
        elif b == "zonotope" and c["param"] != "A_zono":
            h.refused(lab, lambda: d.sample_mcmc("zonotope", random_state=rng))
        elif b == "vfx" and c["param"] != "L_eval_X_data":
            h.refused(lab, lambda: d.sample_exact(mode="vfx", random_state=rng))
        elif b == "esize" and c["proj"] and m.corr:
            h.refused(lab, lambda: d.sample_mcmc("E", size=m.rank + 1, random_state=rng))
        elif b == "rng":
            h.refused(lab, lambda: d.sample_exact(mode=m.exact_modes[0], random_state="seed"))


def chain(h, lab, s, n):
    e = h.model[-1]
    if not isinstance(e, list) or len(e) != n:
        raise Violation("%s: %s: the recorded trajectory has %s states instead of %d" % (h.what, lab, len(e) if isinstance(e, list) else type(e).__name__, n))
    if not same(plain(e[-1]), plain(s)):
        raise Violation("%s: %s returned %r, the recorded trajectory ends with %r" % (h.what, lab, s, e[-1]))


# ---------------------------------------------------------------- exotic processes
def exo_op():
    return st.one_of(st.tuples(st.just("sample"), st.integers(2, 60)), st.tuples(st.just("sample"), st.integers(2, 60)), st.tuples(st.just("sample"), st.integers(2, 60)), st.tuples(st.just("flush")),
                     st.tuples(st.just("plot"), st.booleans()), st.tuples(st.just("bad"), st.integers(0, 2)))


def exo_case():
    pr = st.fixed_dictionaries({"p": st.sampled_from(["carries", "descent", "virtual", "plancherel"]), "par": st.floats(0, 1).map(lambda v: round(v, 3)), "seed": gens.seeds(),
                                "ops": st.lists(exo_op(), min_size=4, max_size=12).map(lambda l: [list(o) for o in l])})
    uop = st.one_of(st.tuples(st.just("sample"), st.sampled_from(p15.MODES), st.booleans()), st.tuples(st.just("sample"), st.sampled_from(p15.MODES), st.booleans()), st.tuples(st.just("flush")), st.tuples(st.just("kernel")),
                    st.tuples(st.just("plot"), st.sampled_from(["plot", "plot_graph", "plot_kernel"])), st.tuples(st.just("bad"), st.sampled_from(["mode", "root", "rng"])))
    ust = st.tuples(p15.graph_case(7, 12), st.lists(uop, min_size=4, max_size=12)).map(lambda t: dict(t[0], p="ust", ops=[list(o) for o in t[1]]))
    return st.one_of(pr, pr, ust)


def run_exo(c):
    from dppy import exotic_dpps as xd
    p = c["p"]
    rng = np.random.RandomState(c["seed"] + 1)
    if p == "ust":
        g, lab = p15.build(c)
        with sut("UST"):
            o = xd.UST(g)
        keep = sorted(map(repr, g.edges())), sorted(map(repr, g.nodes()))
        h = History(o, "UST")
        for i, op in enumerate(history(c)):
            w = "call %d %r" % (i, op)
            if op[0] == "sample":
                with sut("UST: " + w):
                    r = o.sample(mode=op[1], random_state=rng, **({"root": lab[c["root"]]} if c["root"] is not None and op[2] else {}))
                h.check(w, entry=True if r is None else r)
                p15.check_tree(g, o.list_of_samples[-1], w)
            elif op[0] == "flush":
                o.flush_samples()
                h.check(w, flushed=True)
            elif op[0] == "kernel":
                with sut("UST: " + w):
                    o.compute_kernel()
                h.check(w)
            elif op[0] == "plot":
                if op[1] == "plot" and not h.model:
                    closing(lambda: h.refused(w, o.plot, exc=(ValueError, IndexError)))
                    continue
                with sut("UST: " + w):
                    closing(getattr(o, op[1]))
                h.check(w)
            elif op[1] == "mode":
                h.refused(w, lambda: o.sample(mode="nope", random_state=rng))
            elif op[1] == "root":
                h.refused(w, lambda: o.sample(mode="Wilson", root="no such node", random_state=rng))
            else:
                h.refused(w, lambda: o.sample(random_state="seed"))
        if keep != (sorted(map(repr, g.edges())), sorted(map(repr, g.nodes()))):
            raise Violation("UST: the graph of the caller was modified by %r" % (c["ops"],))
        h.end()
        return {"nontrivial": h.nontrivial(), "execs": h.n + h.other, "tag": p}
    o = {"carries": lambda: xd.CarriesProcess(2 + int(20 * c["par"])), "descent": xd.DescentProcess, "virtual": lambda: xd.VirtualDescentProcess(c["par"]), "plancherel": lambda: xd.PoissonizedPlancherel(theta=40 * c["par"] + 0.1)}[p]()
    h = History(o, type(o).__name__)
    diags = []
    for i, op in enumerate(history(c)):
        w = "call %d %r" % (i, op)
        if op[0] == "sample":
            with sut(h.what + ": " + w):
                r = o.sample(random_state=rng) if p == "plancherel" else o.sample(size=op[1], random_state=rng)
            h.check(w, entry=True if r is None else r)
            if p == "plancherel":
                diags.append(plain(o.list_of_young_diag[-1]))
            elif h.model[-1] and (min(h.model[-1]) < 0 or not max(h.model[-1]) <= op[1]):
                raise Violation("%s: %s: positions %r" % (h.what, w, h.model[-1]))
        elif op[0] == "flush" and p != "plancherel":
            o.flush_samples()
            h.check(w, flushed=True)
        elif op[0] == "plot":
            fs = [lambda: o.plot(vs_bernoullis=op[1], random_state=rng)] if p != "plancherel" else [o.plot, lambda: o.plot_diagram(normalization=op[1])]
            for f in fs:
                if not h.model:
                    closing(lambda: h.refused(w, f, exc=(ValueError, IndexError)))
                    continue
                with sut(h.what + ": " + w):
                    closing(f)
                h.check(w)
        elif op[0] == "bad":
            if op[1] == 0 or p == "plancherel":
                h.refused(w, lambda: o.sample(random_state="seed"))
            else:
                h.refused(w, lambda: o.sample(size=-3, random_state=rng))
        if p == "plancherel" and (len(o.list_of_young_diag) != len(diags) or not all(same(plain(a), b) for a, b in zip(o.list_of_young_diag, diags))):
            raise Violation("%s: %s: the list of Young diagrams was altered" % (h.what, w))
    h.end()
    return {"nontrivial": h.nontrivial(), "execs": h.n + h.other, "tag": p}


# ---------------------------------------------------------------- beta ensembles
def fl(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 3))


def beta_case():
    op = st.one_of(st.tuples(st.just("full"), st.integers(1, 12), st.integers(0, 5)), st.tuples(st.just("banded"), st.integers(1, 12), st.integers(0, 5), fl(0.3, 4)), st.tuples(st.just("banded"), st.integers(1, 12), st.integers(0, 5), fl(0.3, 4)),
                   st.tuples(st.just("flush")), st.tuples(st.just("norm")), st.tuples(st.just("norm")), st.tuples(st.just("plot"), st.sampled_from(["plot", "hist"]), st.booleans()), st.tuples(st.just("bad"), st.integers(0, 3)))
    return st.fixed_dictionaries({"e": st.sampled_from(["hermite", "laguerre", "jacobi", "circular", "ginibre"]), "beta": st.sampled_from([0, 1, 2, 4, 3, 2.5, 2]), "seed": gens.seeds(),
                                  "ops": st.lists(op, min_size=4, max_size=10).map(lambda l: [list(o) for o in l])})


def run_beta(c):
    import dppy.beta_ensembles as be
    e = c["e"]
    beta = 2 if e == "ginibre" or (e == "circular" and c["beta"] == 2.5) else c["beta"]
    o = {"hermite": be.HermiteEnsemble, "laguerre": be.LaguerreEnsemble, "jacobi": be.JacobiEnsemble, "circular": be.CircularEnsemble, "ginibre": be.GinibreEnsemble}[e](beta=beta)
    h = History(o, "%s(beta=%r)" % (type(o).__name__, beta))
    rng = np.random.RandomState(c["seed"])
    for i, op in enumerate(history(c)):
        w = "call %d %r" % (i, op)
        if op[0] in ("full", "banded"):
            N = op[1]
            kw = {"size_N": N}
            if op[0] == "full":
                kw.update({"laguerre": {"size_M": N + op[2]}, "jacobi": {"size_M1": N + op[2], "size_M2": N + 1}, "circular": {"haar_mode": ["QR", "Hermite"][op[2] % 2]}}.get(e, {}))
                f = o.sample_full_model
                ok = (beta in (1, 2, 4) or (beta == 0 and e in ("hermite", "circular"))) and not (beta == 4 and kw.get("haar_mode") == "QR")
                exc = ValueError
            else:
                kw.update({"hermite": {"loc": op[3] - 1, "scale": op[3]}, "laguerre": {"shape": op[3], "scale": 0.5 + op[3]}, "jacobi": {"a": op[3], "b": 1.5}}.get(e, {}))
                f = o.sample_banded_model
                ok, exc = e != "ginibre", NotImplementedError
            if not ok:
                h.refused(w, lambda: f(random_state=rng, **kw), exc=exc)
                continue
            with sut(h.what + ": " + w):
                s = f(random_state=rng, **kw)
            # the symplectic matrices have 2N eigenvalues
            if np.shape(s) != ((2 * N,) if e == "circular" and beta == 4 and op[0] == "full" else (N,)):
                raise Violation("%s: %s returned an array of shape %r" % (h.what, w, np.shape(s)))
            h.check(w, entry=s)
            bad = {k: v for k, v in kw.items() if o.params.get(k) != v}
            if bad:
                raise Violation("%s: %s: parameters %r are recorded as %r" % (h.what, w, bad, {k: o.params.get(k) for k in bad}))
        elif op[0] == "flush":
            o.flush_samples()
            h.check(w, flushed=True)
        elif op[0] == "norm":
            if not h.model:
                continue
            j = i % len(h.model)
            with sut(h.what + ": " + w):
                a = plain(np.array(o.normalize_points(o.list_of_samples[j])))
                h.check(w)
                b = plain(np.array(o.normalize_points(o.list_of_samples[j])))
            if not same(a, b):
                raise Violation("%s: %s: normalizing the same points twice gives %r, then %r" % (h.what, w, a, b))
            h.check(w)
        elif op[0] == "plot":
            f = lambda: getattr(o, op[1])(normalization=op[2])
            if not h.model:
                closing(lambda: h.refused(w, f))
                continue
            with sut(h.what + ": " + w), np.errstate(all="ignore"):
                closing(f)
            h.check(w)
        else:
            b = op[1]
            if b == 0:
                h.refused(w, lambda: o.sample_full_model(random_state="seed"))
            elif b == 1 and e in ("laguerre", "jacobi"):
                h.refused(w, lambda: o.sample_full_model(size_N=5, random_state=rng, **({"size_M": 4} if e == "laguerre" else {"size_M1": 7, "size_M2": 4})))
            elif b == 2 and e in ("laguerre", "jacobi"):
                h.refused(w, lambda: o.sample_banded_model(size_N=5, random_state=rng, **({"size_M": 4} if e == "laguerre" else {"size_M1": 7, "size_M2": 4})))
            elif b == 3 and e == "circular" and beta in (1, 2, 4):
                h.refused(w, lambda: o.sample_full_model(haar_mode="nope", random_state=rng))
    h.end()
    return {"nontrivial": h.nontrivial(), "execs": h.n + h.other, "tag": e}


# ---------------------------------------------------------------- plots of samples kept by the caller
def ext_case():
    jac = st.fixed_dictionaries({"what": st.just("jacobi"), "d": st.integers(1, 2), "N": st.integers(2, 9), "p": st.tuples(fl(-0.5, 0.5), fl(-0.5, 0.5), fl(-0.5, 0.5), fl(-0.5, 0.5)), "weighted": st.sampled_from(["", "BH", "EZ"]), "seed": gens.seeds()})
    pot = st.fixed_dictionaries({"what": st.just("potential"), "g": st.sampled_from([[0, 1], [0, 1, 0, 1], [0, 0, 0, 1], [1, 1, 0, 2], [0, -1, 0, 1], [0, 0, 0, 0, 0, 1]]), "N": st.integers(1, 6), "passes": st.integers(1, 3), "chain": st.booleans(), "seed": gens.seeds()})
    return st.one_of(jac, pot)


def run_ext(c):
    if c["what"] == "jacobi":
        from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
        p = np.array(c["p"][:2 * c["d"]]).reshape(-1, 2)
        what = "MultivariateJacobiOPE(%d, %r)" % (c["N"], p.tolist())
        with sut(what):
            o = MultivariateJacobiOPE(c["N"], p)
            x = o.sample(random_state=c["seed"])
        k = x.copy()
        with sut("%s.plot(weighted=%r)" % (what, c["weighted"])), np.errstate(all="ignore"):
            closing(lambda: o.plot(x, weighted=c["weighted"]))
    else:
        from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
        what = "BetaEnsemblePolynomialPotential(2, %r)" % (c["g"],)
        with sut(what):
            o = B(2, np.poly1d([float(v) for v in c["g"][::-1]] + [0.0]))
            x = o.sample_mcmc(N=c["N"], nb_gibbs_passes=c["passes"], nb_mala_steps=2, return_chain_of_eig_vals=c["chain"], random_state=c["seed"])
        k = x.copy()
        with sut(what + ".hist"), np.errstate(all="ignore"):
            closing(lambda: o.hist(x))
    if not np.array_equal(x, k):
        raise Violation("%s: drawing the sample modifies it from %r to %r" % (what, k, x))
    return {"nontrivial": True, "execs": 2, "tag": c["what"]}


# ---------------------------------------------------------------- long histories and large samples
@st.composite
def long_case(draw):
    k = draw(st.sampled_from(["fin", "exo", "exo", "beta"]))
    c = draw({"fin": fin_case, "exo": exo_case, "beta": beta_case}[k]())
    c["kind"] = k
    if draw(st.booleans()):
        c["reps"] = draw(gens.sizes(2, 50 if k == "fin" else 80))
    else:
        big = st.integers(60, 3000 if k == "exo" and c["p"] != "ust" else 150)
        for o in c["ops"]:
            if o[0] in ("sample", "full", "banded") and isinstance(o[1], int):
                o[1] = draw(big)
            elif o[0] in ("mcmc", "mcmc_k", "zonotope"):
                o[1 if o[0] == "zonotope" else 2] = draw(st.integers(60, 1500 if o[0] != "zonotope" else 120))
        if k == "exo" and c["p"] == "plancherel":
            c["par"] = round(40 * c["par"], 2)
    return c


def run_long(c):
    r = {"fin": run_fin, "exo": run_exo, "beta": run_beta}[c["kind"]](c)
    return dict(r, tag=c["kind"] + ("/long" if "reps" in c else "/large"))


FACETS = [
    Facet("finite DPPs", fin_case, run_fin, 1200, 20000, "at least two recorded samples and one other call"),
    Facet("exotic", exo_case, run_exo, 400, 6000, "at least two recorded samples and one other call"),
    Facet("beta ensembles", beta_case, run_beta, 400, 6000, "at least two recorded samples and one other call"),
    Facet("long", long_case, run_long, 600, 6000, "histories of up to hundreds of calls; samples of up to thousands of points or states", cpu_limit=300),
    Facet("plots of samples", ext_case, run_ext, 60, 1000, "every case"),
]
