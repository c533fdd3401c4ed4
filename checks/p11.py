"""P11: reproducibility and absence of side effects of every sampler."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from checks import p03, p06, p10, p15
from checks.p10 import fake_cvxopt
from pbt import gens, laws
from pbt.core import Facet, Violation, derive, sut

RULE = ("A case is a point process (or a function of the lower-level API) with its parameters and a sequence of sampling steps; it is non-trivial when "
        "the outcome of some step depends on the seed.")
ASSUMPTIONS = ["Outcomes are compared exactly for integers and sets and within 1e-7 for floats; a step refused with an exception must be refused identically on replay.",
               "A step must advance the generator whenever its outcome depends on the seed.",
               "Identical calls on the same object with the same integer seed give the same outcome, except for the vfx and alpha samplers whose documented precomputation is done by the first call.",
               "cvxopt is not installed: the zonotope sampler runs with the stand-in of P10."]


# ---------------------------------------------------------------- outcomes
def plain(x):
    """JSON-like canonical form of an outcome"""
    import networkx as nx
    if isinstance(x, nx.Graph):
        return ("graph", sorted(map(repr, x.nodes())), sorted(sorted(map(repr, e)) for e in x.edges()))
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (np.integer, np.floating, np.bool_)):
        return x.item()
    return x


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return bool(np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True))
        return bool(np.all(a == b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and bool(np.isclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)))
    return a == b


def snapshot(x):
    """deep copy of an input for comparison"""
    import networkx as nx
    if isinstance(x, nx.Graph):
        return ("graph", [(repr(v), sorted(d.items())) for v, d in x.nodes(data=True)], [(repr(u), repr(v), sorted(d.items())) for u, v, d in x.edges(data=True)], repr(x.graph))
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, np.poly1d):
        return ("poly", x.coeffs.tolist())
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    if isinstance(x, dict):
        return [(k, snapshot(v)) for k, v in sorted(x.items())]
    return repr(x) if not callable(x) else id(x)


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def rstate(r):
    s = r.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


class Outcome(object):
    def __init__(self, tag, val):
        self.tag, self.val = tag, val

    def __eq__(self, o):
        return self.tag == o.tag and same(self.val, o.val)

    def __repr__(self):
        return "%s %s" % (self.tag, str(self.val)[:160])


def step(f, obj, inputs, rs, what):
    """run one step under all the guards"""
    keep = snapshot(inputs)
    err, g, p = np.geterr(), gstate(), random.getstate()
    glob = rs is None or rs is np.random
    try:
        out = Outcome("returned", plain(f(obj, inputs, rs)))
    except Exception as e:
        out = Outcome("raised", type(e).__name__)
        if type(e).__name__ in ("AttributeError", "NameError", "UnboundLocalError", "ImportError"):
            raise Violation("%s raised %s: %s" % (what, type(e).__name__, e))
        if "read-only" in str(e):
            raise Violation("%s modifies its input: %s" % (what, e))
    if np.geterr() != err:
        raise Violation("%s changes the floating-point error settings from %r to %r" % (what, err, np.geterr()))
    if not glob and gstate() != g:
        raise Violation("%s with random_state=%r moves the global generator of numpy" % (what, rs))
    if random.getstate() != p:
        raise Violation("%s moves the generator of the random module" % what)
    if snapshot(inputs) != keep:
        raise Violation("%s modifies its inputs" % what)
    return out


def verify(make, steps, c, what, repeat=()):
    """make() -> (obj, inputs); steps: list of (label, f(obj, inputs, random_state))"""
    s = [derive(c.get("seed", 0), "step", i) for i in range(len(steps))]

    def run(rss, gseed, ro=False, twice=False):
        obj, inp = make()
        if ro:
            freeze(inp)
        np.random.seed(gseed)
        random.seed(gseed)
        out = []
        for i, (lab, f) in enumerate(steps):
            w = "%s: step %d %s" % (what, i, lab)
            a = step(f, obj, inp, rss[i], w)
            if twice and i not in repeat_no(steps, repeat):
                b = step(f, obj, inp, rss[i], w)
                if a != b:
                    raise Violation("%s called twice with random_state=%r on the same object: %r, then %r" % (w, rss[i], a, b))
            out.append(a)
        return out

    ref = run(s, 1)
    n = len(steps)

    def cmp(o, how):
        for i in range(n):
            if o[i] != ref[i]:
                raise Violation("%s: step %d %s with seed %d: %r, but %r %s" % (what, i, steps[i][0], s[i], ref[i], o[i], how))
    cmp(run(s, 2), "when run again with the same seed")
    cmp(run([np.random.RandomState(v) for v in s], 3, ro=True), "with RandomState(seed)")
    cmp(run([np.int64(v) for v in s], 4), "with a numpy integer seed")
    run(s, 5, twice=True)
    # a shared generator, and its copy
    rs = np.random.RandomState(s[0])
    rc = copy.deepcopy(rs)

    def shared(r, gseed):
        obj, inp = make()
        np.random.seed(gseed)
        out, mv = [], []
        for i, (lab, f) in enumerate(steps):
            b = rstate(r)
            out.append(step(f, obj, inp, r, "%s: step %d %s" % (what, i, lab)))
            mv.append(rstate(r) != b)
        return out, mv
    o1, m1 = shared(rs, 6)
    o2, m2 = shared(rc, 7)
    for i in range(n):
        if o1[i] != o2[i] or m1[i] != m2[i]:
            raise Violation("%s: step %d %s with a generator: %r, and %r with a copy of this generator" % (what, i, steps[i][0], o1[i], o2[i]))
    if rstate(rs) != rstate(rc):
        raise Violation("%s: the generator and its copy end in different states" % what)
    # another seed
    t = run([derive(v, "other") for v in s], 8)
    moved = [a != b for a, b in zip(t, ref)]
    for i in range(n):
        # outcomes of the first step come from equal states; later ones may differ because of what earlier steps left
        if moved[i] and i == 0 and not m1[i]:
            raise Violation("%s: the outcome of step %d %s depends on the seed, but the step does not advance the generator it is given" % (what, i, steps[i][0]))
    # the global generator, seeded
    for alias in (None, np.random):
        obj, inp = make()
        np.random.seed(s[0])
        o = step(steps[0][1], obj, inp, alias, "%s: step 0 %s" % (what, steps[0][0]))
        if o != ref[0]:
            raise Violation("%s: step 0 %s: %r with seed %d, but %r when the global generator is seeded with it and random_state=%s" % (
                what, steps[0][0], ref[0], s[0], o, "None" if alias is None else "np.random"))
    return {"nontrivial": any(moved), "execs": 10 * n, "tag": what.split("(")[0]}


def repeat_no(steps, repeat):
    return [i for i, (lab, f) in enumerate(steps) if i in repeat]


def freeze(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, (list, tuple)):
        for v in x:
            freeze(v)
    elif isinstance(x, dict):
        for v in x.values():
            freeze(v)


# ---------------------------------------------------------------- finite DPPs
MODES = ["GS", "GS_bis", "KuTa12", "Chol", "Schur"]


def fin_op(kmax=4, nmax=12):
    mode = st.sampled_from(MODES)
    return st.one_of(
        st.tuples(st.just("exact"), mode), st.tuples(st.just("exact"), mode), st.tuples(st.just("kdpp"), mode, st.integers(1, kmax)),
        st.tuples(st.just("mcmc"), st.sampled_from(["AED", "AD", "E", "zonotope"]), st.integers(1, nmax)), st.tuples(st.just("mcmc_k"), st.integers(1, kmax), st.integers(1, nmax)))


@st.composite
def finite_case(draw, nmin=2, nmax=9, kmax=4, itmax=12):
    if draw(st.integers(0, 1)):
        c = draw(p03.proj_case(nmin=nmin, nmax=nmax))
        c["proj"] = True
    else:
        c = draw(gens.generic_case(nmin=nmin, nmax=nmax - 1, lt1=True))
        c["proj"] = False
    c["ops"] = [list(o) for o in draw(st.lists(fin_op(kmax, itmax), min_size=1, max_size=4))]
    c["rank_size"] = draw(st.booleans())
    return c


def run_finite(c):
    def make():
        b = p03.build_proj(c) if c["proj"] else gens.build_generic(c)
        with sut("FiniteDPP(%r)" % c["param"]):
            d = gens.make_dpp(b)
        return d, {"params": dict(b[2]), "s_init": [0]}
    r = c.get("r", 2)

    def exact(mode):
        return lambda d, i, rs: [d.sample_exact(mode=mode, random_state=rs), d.list_of_samples[-1]]

    def kdpp(mode, k):
        return lambda d, i, rs: [d.sample_exact_k_dpp(size=k, mode=mode, random_state=rs), d.list_of_samples[-1]]

    def mcmc(mode, n):
        kw = {"size": r} if mode == "E" else {}
        if mode == "zonotope":
            kw = {"nb_iter": min(n, 3)}
            return lambda d, i, rs: [d.sample_mcmc("zonotope", random_state=rs, **kw), plain(d.list_of_samples[-1])]
        return lambda d, i, rs: [d.sample_mcmc(mode, nb_iter=n, random_state=rs, **kw), d.list_of_samples[-1]]

    def mcmc_k(k, n):
        return lambda d, i, rs: [d.sample_mcmc_k_dpp(size=k, nb_iter=n, random_state=rs), d.list_of_samples[-1]]
    steps = []
    for o in c["ops"]:
        k = r if c["rank_size"] else o[2] if o[0] == "kdpp" else o[1]
        if o[0] == "mcmc" and o[1] == "zonotope" and c["param"] != "A_zono":
            o = ["mcmc", "AED", o[2]]
        f = exact(o[1]) if o[0] == "exact" else kdpp(o[1], k) if o[0] == "kdpp" else mcmc(o[1], o[2]) if o[0] == "mcmc" else mcmc_k(k, o[2])
        steps.append(("%r" % (o,), f))
    with fake_cvxopt():
        return verify(make, steps, c, "FiniteDPP(%s)" % c["param"])


def inter_case(nmin=3, nmax=8):
    op = st.one_of(st.tuples(st.just("exact"), st.sampled_from(["vfx", "alpha", "vfx", "alpha", "GS"])), st.tuples(st.just("kdpp"), st.sampled_from(["vfx", "alpha"]), st.integers(1, 3)))
    return st.tuples(p06.data_case(nmin, nmax), st.lists(op, min_size=1, max_size=3), st.sampled_from([2.0, 4.0, 10.0])).map(lambda t: dict(t[0], ops=[list(o) for o in t[1]], over=t[2]))


def run_inter(c):
    def make():
        ev, X, L = p06.build(c)
        return gens.make_dpp(("likelihood", False, {"L_eval_X_data": (ev, X)})), {"X": X}
    kw = dict(verbose=False, max_iter=200)

    def f(o):
        k = dict(kw) if o[1] != "GS" else {}
        if o[1] == "vfx":
            k["rls_oversample_dppvfx"] = c["over"]
        elif o[1] == "alpha":
            k["rls_oversample_alphadpp"] = c["over"]
        if o[1] != "GS":
            k["rls_oversample_bless"] = c["over"]
        if o[0] == "exact":
            return lambda d, i, rs: [d.sample_exact(mode=o[1], random_state=rs, **k), d.list_of_samples[-1]]
        k["max_iter_size_rejection"] = 50
        return lambda d, i, rs: [d.sample_exact_k_dpp(size=o[2], mode=o[1], random_state=rs, **k), d.list_of_samples[-1]]
    steps = [("%r" % (o,), f(o)) for o in c["ops"]]
    return verify(make, steps, c, "FiniteDPP(L_eval_X_data)", repeat=range(len(steps)))


# ---------------------------------------------------------------- lower-level functions on finite kernels
FUNCS = ["kernel Chol", "kernel GS", "kernel Schur", "eig GS", "eig GS_bis", "eig KuTa12", "generic", "select", "k select", "bless", "bless_size", "mcmc AED", "mcmc AD", "mcmc E", "init AED", "init AD", "zonotope"]


def func_case(nmin=2, nmax=10, itmax=12):
    return st.fixed_dictionaries({"f": st.sampled_from(FUNCS), "N": gens.sizes(nmin, nmax), "rk": st.integers(1, nmax), "basis": st.sampled_from(gens.BASES), "seed": gens.seeds(), "sized": st.booleans(),
                                  "n": st.integers(1, itmax), "order": st.sampled_from(["C", "F"])})


def run_func(c):
    from dppy import bless as bl
    from dppy import exact_sampling as ex
    from dppy import mcmc_sampling as mc
    N, r, f = c["N"], min(c["rk"], c["N"]), c["f"]
    Q = gens.orth(N, c["basis"], c["seed"])
    V = np.array(Q[:, :r], order=c["order"])
    rng = np.random.RandomState(c["seed"])
    K = np.array(gens.sym(V.dot(V.T)), order=c["order"])
    e = rng.rand(N)
    kw = {"size": 1 + c["n"] % r} if c["sized"] else {}
    st0 = list(range(r)) if c["sized"] else None
    if f.startswith("kernel"):
        make = lambda: (None, [K.copy("K")])
        g = lambda o, i, rs: ex.proj_dpp_sampler_kernel(i[0], mode=f[7:], random_state=rs, **kw)
    elif f.startswith("eig"):
        make = lambda: (None, [V.copy("K")])
        g = lambda o, i, rs: ex.proj_dpp_sampler_eig(i[0], mode=f[4:], random_state=rs, **kw)
    elif f == "generic":
        make = lambda: (None, [gens.sym((Q * e).dot(Q.T))])
        g = lambda o, i, rs: ex.dpp_sampler_generic_kernel(i[0], random_state=rs)
    elif f == "select":
        make = lambda: (None, [e.copy(), Q.copy()])
        g = lambda o, i, rs: ex.dpp_eig_vecs_selector(i[0], i[1], random_state=rs)
    elif f == "k select":
        make = lambda: (None, [e.copy(), Q.copy(), ex.elementary_symmetric_polynomials(e, r)])
        g = lambda o, i, rs: ex.k_dpp_eig_vecs_selector(i[0], i[1], size=r, E_poly=i[2] if c["sized"] else None, random_state=rs)
    elif f.startswith("bless"):
        X = rng.randn(N, 2)
        make = lambda: (p06.Ev("rbf", 4.0), [X.copy()])
        if f == "bless":
            def g(o, i, rs):
                d = bl.bless(i[0], o, 0.5 * c["n"], 4.0, random_state=rs, verbose=False)
                return [list(map(int, d.idx)), np.array(d.probs), np.array(d.X)]
        else:
            def g(o, i, rs):
                d = bl.bless_size(i[0], o, 1.5, 4.0, random_state=rs, verbose=False)[2]
                return [list(map(int, d.idx)), np.array(d.probs), np.array(d.X)]
    elif f == "zonotope":
        A = rng.randn(r, N)
        make = lambda: (None, [A.copy(), np.linspace(-1, 1, N)])
        g = lambda o, i, rs: mc.zonotope_sampler(i[0], nb_iter=1 + c["n"] % 4, random_state=rs, **({"lin_obj": i[1]} if c["sized"] else {}))
    elif f.startswith("mcmc"):
        L = gens.sym((Q * (5 * e + 0.1)).dot(Q.T))
        make = lambda: (None, [L.copy("K"), list(st0) if st0 else None])
        g = lambda o, i, rs: mc.dpp_sampler_mcmc(i[0], f[5:], s_init=i[1], nb_iter=c["n"], size=r, random_state=rs)
    else:
        L = gens.sym((Q * (5 * e + 0.1)).dot(Q.T))
        make = lambda: (None, [L.copy("K")])
        g = (lambda o, i, rs: mc.initialize_AED_sampler(i[0], random_state=rs)) if f == "init AED" else (lambda o, i, rs: mc.initialize_AD_and_E_sampler(i[0], size=r if c["sized"] else None, random_state=rs))
    with fake_cvxopt():
        return verify(make, [("call", g)] * 2, c, "%s(N=%d, r=%d)" % (f, N, r))


# ---------------------------------------------------------------- exotic processes
def exo_case(lo=2, hi=200, graphs=None):
    graphs = graphs or (lambda: p15.graph_case(9, 16))
    proc = st.fixed_dictionaries({"p": st.sampled_from(["carries", "descent", "virtual", "plancherel", "permutation"]), "size": st.integers(lo, hi), "par": st.floats(0, 1).map(lambda v: round(v, 3)),
                                  "seed": gens.seeds(), "steps": st.integers(1, 3), "plot": st.integers(0, 15).map(lambda v: v == 0)})
    ust = graphs().map(lambda c: dict(c, p="ust"))
    low = graphs().map(lambda c: dict(c, p="ust function"))
    return st.one_of(proc, ust, ust, low)


def run_exo(c):
    from dppy import exotic_dpps as xd
    from dppy import exotic_dpps_core as xc
    p = c["p"]
    if p == "ust":
        g, lab = p15.build(c)
        kw = p15.sample_kw(c, lab)

        def make():
            g2, _ = p15.build(c)
            return xd.UST(g2), {"g": g2}

        def f(o, i, rs):
            o.sample(random_state=rs, **kw)
            return o.list_of_samples[-1]
        return verify(make, [("sample(%r)" % kw, f)] * 2, c, "UST")
    if p == "ust function":
        import networkx as nx
        g, lab = p15.build(c)
        g = nx.convert_node_labels_to_integers(g)
        nb = [[w for w in g.neighbors(v) if w != v] for v in g.nodes()]
        fn = xc.ust_sampler_wilson if c["mode"] in ("Wilson", "GS", "Chol") else xc.ust_sampler_aldous_broder
        f = lambda o, i, rs: fn(i, root=c["root"], random_state=rs)
        return verify(lambda: (None, [list(x) for x in nb]), [(fn.__name__, f)] * 2, c, fn.__name__)
    n = c["size"]
    if p == "permutation":
        return verify(lambda: (None, []), [("call", lambda o, i, rs: xc.uniform_permutation(n, random_state=rs))] * 2, c, "uniform_permutation")
    make = {"carries": lambda: (xd.CarriesProcess(2 + int(20 * c["par"])), []), "descent": lambda: (xd.DescentProcess(), []), "virtual": lambda: (xd.VirtualDescentProcess(c["par"]), []),
            "plancherel": lambda: (xd.PoissonizedPlancherel(theta=n * c["par"]), [])}[p]

    def f(o, i, rs):
        if p == "plancherel":
            o.sample(random_state=rs)
            return [o.list_of_samples[-1], o.list_of_young_diag[-1]]
        o.sample(size=n, random_state=rs)
        return o.list_of_samples[-1]
    steps = [("sample", f)] * c["steps"]
    if c["plot"] and p != "plancherel":
        import matplotlib.pyplot as plt

        def pl(o, i, rs):
            try:
                o.plot(random_state=rs)
                return [np.asarray(col.get_offsets()) for col in plt.gcf().axes[0].collections]
            finally:
                plt.close("all")
        steps = steps + [("plot", pl)]
    return verify(make, steps, c, p)


# ---------------------------------------------------------------- continuous ensembles
def fl(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 3))


COMBOS = ([[e, "full", b, api] for e in ("hermite", "laguerre", "jacobi") for b in (1, 2, 4) for api in (0, 1)] + [["hermite", "full", 0, 0]]
          + [["circular", "full " + h, b, api] for h in ("Hermite", "QR") for b in (1, 2, 4) for api in (0, 1)] + [["circular", "full QR", 0, 0]]
          + [[e, "banded", b, api] for e in ("hermite", "laguerre", "jacobi") for b in (0, 1, 2, 2.5, 4) for api in (0, 1) if b or not api]
          + [["circular", "banded", b, api] for b in (0, 1, 2, 3, 4) for api in (0, 1) if b or not api] + [["ginibre", "full", 2, 0], ["ginibre", "full", 2, 1]])


def beta_case(nmin=1, nmax=12):
    return st.fixed_dictionaries({"e": st.just("beta"), "k": st.integers(0, len(COMBOS) - 1), "N": gens.sizes(nmin, nmax), "M": st.integers(0, 6), "par": fl(0.3, 5), "seed": gens.seeds(), "defaults": st.integers(0, 9).map(lambda v: v == 0)})


def ens_case(npot=(1, 6), passes=4, mala=5, nope=(1, 8)):
    return st.one_of(
        st.fixed_dictionaries({"e": st.just("potential"), "g": st.sampled_from([[0, 1, 0, 1], [0, 1], [1, 1, 0, 2], [0, 1, 0, 0, 0, 1], [0, -1, 0, 1], [0, 0.5, 0.2, 1]]), "beta": st.sampled_from([1, 2, 4, 0.7]), "N": st.integers(*npot), "mala": st.just(mala),
                               "passes": st.integers(1, passes), "exact": st.booleans(), "ret": st.sampled_from(["", "return_chain_of_eig_vals", "return_chain_of_lambda_max"]), "seed": gens.seeds()}),
        st.fixed_dictionaries({"e": st.just("cond"), "kind": st.sampled_from(["quartic", "gamma", "mala", "trunc"]), "shape": st.one_of(fl(0.2, 1), fl(1, 5)), "P": st.tuples(fl(0.1, 3), fl(-1, 1), fl(0.1, 3), fl(-2, 2)),
                               "mala": st.just(mala), "seed": gens.seeds()}),
        st.fixed_dictionaries({"e": st.just("jacobi ope"), "N": st.integers(*nope), "p": st.one_of(st.tuples(st.tuples(fl(-0.5, 2), fl(-0.5, 2))), st.lists(st.tuples(fl(-0.5, 0.5), fl(-0.5, 0.5)), min_size=2, max_size=3)),
                               "what": st.sampled_from(["sample", "sample", "proposal", "chain"]), "seed": gens.seeds()}))


def run_ens(c):
    e = c["e"]
    if e == "potential":
        from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
        co = [float(v) for v in c["g"][::-1]] + [0.0]

        def make():
            V = np.poly1d(co)
            return B(c["beta"], V), {"V": V}
        kw = dict(N=c["N"], nb_gibbs_passes=c["passes"], sample_exact_cond=c["exact"], nb_mala_steps=c["mala"])
        if c["ret"]:
            kw[c["ret"]] = True
        return verify(make, [("sample_mcmc(%r)" % kw, lambda o, i, rs: o.sample_mcmc(random_state=rs, **kw))] * 2, c, "BetaEnsemblePolynomialPotential")
    if e == "cond":
        from dppy import beta_ensemble_polynomial_potential_core as core
        P = np.poly1d(list(c["P"][:1]) + [0.0] + [c["P"][2], c["P"][3], 0.0])
        f = {"quartic": lambda o, i, rs: core.sampler_exact_convex_quartic(i["P"], random_state=rs)[0],
             "gamma": lambda o, i, rs: core.sampler_exact_convex_quartic(i["P"], shape=c["shape"], random_state=rs)[0],
             "mala": lambda o, i, rs: core.sampler_mala(0.3, i["P"], sigma=0.05, nb_steps=c["mala"], random_state=rs),
             "trunc": lambda o, i, rs: core.trunc_gaussian_sampler(2.0, c["P"][1], c["P"][2], random_state=rs)}[c["kind"]]
        return verify(lambda: (None, {"P": np.poly1d(P.coeffs.copy())}), [(c["kind"], f)] * 2, c, "conditional sampler")
    if e == "jacobi ope":
        from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
        p = np.array(c["p"], float)

        def make():
            q = p.copy()
            return MultivariateJacobiOPE(c["N"], q), {"p": q}
        f = {"sample": lambda o, i, rs: o.sample(random_state=rs), "proposal": lambda o, i, rs: o.sample_chain_rule_proposal(random_state=rs), "chain": lambda o, i, rs: o.sample(random_state=rs, tridiag_1D=False)}[c["what"]]
        return verify(make, [(c["what"], f)] * 2, c, "MultivariateJacobiOPE")
    import dppy.beta_ensembles as be
    import dppy.random_matrices as rm
    e, model, beta, api = COMBOS[c["k"]]
    N, M, full = c["N"], c["N"] + c["M"], model.startswith("full")
    haar = model[5:]
    cls = {"hermite": be.HermiteEnsemble, "laguerre": be.LaguerreEnsemble, "jacobi": be.JacobiEnsemble, "circular": be.CircularEnsemble, "ginibre": be.GinibreEnsemble}[e]
    kw = {"size_N": N}
    if full:
        kw.update({"laguerre": {"size_M": M}, "jacobi": {"size_M1": M, "size_M2": M + 1}, "circular": {"haar_mode": haar}}.get(e, {}))
    else:
        kw.update({"hermite": {"loc": 1.0, "scale": c["par"]}, "laguerre": {"shape": c["par"], "scale": 0.5}, "jacobi": {"a": c["par"], "b": 1.5}}.get(e, {}))
    if c["defaults"]:
        kw = {"size_N": N} if e in ("hermite", "ginibre") or not full else {}
    if api:
        g = {("hermite", True): lambda rs: rm.hermite_sampler_full(N, beta, random_state=rs), ("laguerre", True): lambda rs: rm.laguerre_sampler_full(M, N, beta, random_state=rs),
             ("jacobi", True): lambda rs: rm.jacobi_sampler_full(M, M + 1, N, beta, random_state=rs), ("circular", True): lambda rs: rm.circular_sampler_full(N, beta, haar_mode=haar, random_state=rs),
             ("ginibre", True): lambda rs: rm.ginibre_sampler_full(N, random_state=rs), ("hermite", False): lambda rs: rm.mu_ref_normal_sampler_tridiag(1.0, c["par"], beta, N, random_state=rs),
             ("laguerre", False): lambda rs: rm.mu_ref_gamma_sampler_tridiag(c["par"], 0.5, beta, N, random_state=rs), ("jacobi", False): lambda rs: rm.mu_ref_beta_sampler_tridiag(c["par"], 1.5, beta, N, random_state=rs),
             ("circular", False): lambda rs: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta, N, random_state=rs)}[(e, full)]
        return verify(lambda: (None, []), [("call", lambda o, i, rs: g(rs))] * 2, c, "random_matrices %s, %s, beta=%r" % (e, model, beta))

    def f(o, i, rs):
        x = o.sample_full_model(random_state=rs, **kw) if full else o.sample_banded_model(random_state=rs, **kw)
        return [x, o.list_of_samples[-1]]
    return verify(lambda: (cls(beta=beta), []), [("%s(%r)" % (model, kw), f)] * 2, c, "%s ensemble, beta=%r" % (e, beta))


# ---- zonotope sampler whose first starting points lie on the border of the tiles
def run_zono(c):
    A, obj, _ = p10.build(c)
    if A is None:
        return {"nontrivial": False, "execs": 0, "tag": "no matrix"}
    kw = {"nb_iter": 2 + (c["nb"] or 8) % 9}
    if c["obj"] == "given":
        kw["lin_obj"] = obj
    out = []
    for g in (1, 2):
        np.random.seed(g)
        before = gstate()
        rs = p10.Rigged(c["seed"])
        with sut("zonotope sampler, starting point with coordinates next to 0 or 1"):
            ch = p10.sample(A, c, c["via"], random_state=rs, **kw)
        if gstate() != before:
            raise Violation("zonotope sampler with random_state given as a generator moves the global generator of numpy")
        out.append(([tuple(map(int, s)) for s in ch], rstate(rs)))
    if out[0] != out[1]:
        raise Violation("zonotope sampler: two generators in the same state give %r and %r" % (out[0][0], out[1][0]))
    return {"nontrivial": True, "execs": 2, "tag": "r=N" if A.shape[0] == A.shape[1] else "r<N"}


FACETS = [
    Facet("finite DPPs", finite_case, run_finite, 500, 20000, "the outcome depends on the seed"),
    Facet("intermediate samplers", inter_case, run_inter, 60, 2500, "the outcome depends on the seed"),
    Facet("functions", func_case, run_func, 500, 20000, "the outcome depends on the seed"),
    Facet("exotic", exo_case, run_exo, 400, 15000, "the outcome depends on the seed"),
    Facet("beta ensembles", beta_case, run_ens, 600, 20000, "the outcome depends on the seed"),
    Facet("other ensembles", ens_case, run_ens, 300, 12000, "the outcome depends on the seed"),
    Facet("large finite DPPs", lambda: finite_case(12, 45, 20, 60), run_finite, 160, 4000, "the outcome depends on the seed", cpu_limit=200),
    Facet("large intermediate samplers", lambda: inter_case(9, 40), run_inter, 24, 600, "the outcome depends on the seed", cpu_limit=200),
    Facet("large functions", lambda: func_case(12, 50, 80), run_func, 160, 4000, "the outcome depends on the seed", cpu_limit=200),
    Facet("large exotic", lambda: exo_case(201, 3000, p15.huge_case), run_exo, 80, 2000, "the outcome depends on the seed", cpu_limit=300),
    Facet("large beta ensembles", lambda: beta_case(13, 70), run_ens, 200, 4000, "the outcome depends on the seed", cpu_limit=200),
    Facet("large other ensembles", lambda: ens_case((7, 20), 20, 40, (9, 24)), run_ens, 60, 1500, "the outcome depends on the seed", cpu_limit=300),
    Facet("zonotope restarts", p10.zono_case, run_zono, 150, 2500, "every matrix"),
]
