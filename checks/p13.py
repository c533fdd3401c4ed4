"""P13: valid definitions are accepted, single-fault corruptions of them are refused with ValueError."""
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import p03, p05, p15
from checks.p10 import fake_cvxopt
from pbt import gens, laws
from pbt.core import Facet, Violation, derive, must_raise, sut

RULE = "A case is a valid definition of a point process (always exercised: it must be accepted and served) and one fault injected in it, which must be refused with ValueError; it is non-trivial when the fault applies to the definition."
ASSUMPTIONS = ["The matrix checks of the constructor are documented as cheap: symmetry and idempotence are visible in the first 20 rows/columns, orthonormality in the first 5 columns; faults are injected there.",
               "Faults are at least 100 times larger than the tolerances (1e-8 absolute, 1e-5 relative) of these checks, perturbations of valid definitions are at least 10 times smaller."]

K_KEYS, L_KEYS = ["K", "K_eig_dec", "A_zono"], ["L", "L_eig_dec", "L_gram_factor", "L_eval_X_data"]


def delta():
    return st.one_of(st.sampled_from([1e-6, 1e-4, 1e-2, 1.0, 5.0]), st.floats(-6, 1).map(lambda t: float("%.3g" % 10 ** t)))


@st.composite
def def_any(draw, nmax=7):
    if draw(st.booleans()):
        c = draw(p03.proj_case(nmin=1, nmax=nmax))
        c["proj"] = True
    else:
        c = draw(gens.generic_case(nmin=1, nmax=nmax))
        c["proj"] = False
    return c


def build(c):
    """-> (kernel type, projection, params)"""
    b = p03.build_proj(c) if c["proj"] else gens.build_generic(c)
    return b[0], b[1], b[2]


def make(kt, proj, params):
    from dppy.finite_dpps import FiniteDPP
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return FiniteDPP(kt, projection=proj, **params)


# ---------------------------------------------------------------- constructor of finite DPPs
COMMON = ["kernel_type", "unknown", "empty", "other_side", "flag"]
SPECIFIC = {"K": ["shape", "asymmetric", "not_projection"], "eig": ["eigenvalue", "orthonormal", "not_projection"], "A_zono": ["rank", "shape"], "L_eval_X_data": ["not_callable", "data", "data"], "L_gram_factor": []}


def faults(c):
    """the faults which apply to the definition"""
    p = c["param"]
    own = SPECIFIC["eig" if "_eig_" in p else "K" if p in ("K", "L") else p]
    return own * 4 + COMMON


@st.composite
def def_case(draw):
    big = draw(st.integers(0, 5)) == 0
    c = draw(def_any(50 if big else 7))
    c.update(fault=draw(st.sampled_from(faults(c))), delta=draw(delta()), i=draw(st.integers(0, 30)), j=draw(st.integers(0, 30)), v=draw(st.integers(0, 9)), noise=draw(st.sampled_from([0.0, 1e-13, 1e-10, 1e-9])),
             text=draw(st.one_of(st.sampled_from(["Correlation", "correlation ", "K", "L", "", "marginal", "projection", "corr", "LIKELIHOOD"]), st.text(max_size=8))))
    return c


def corrupt(c, kt, proj, params):
    """-> (kt, proj, params) with the fault, or None when it does not apply"""
    f, d, v = c["fault"], c["delta"], c["v"]
    key = list(params)[0]
    rng = np.random.RandomState(c["seed"] + 7)
    if f == "kernel_type":
        t = [c["text"], None, 0, True, ("correlation",), c["text"]][v % 6]
        return None if t in ("correlation", "likelihood") else (t, proj, params)
    if f == "unknown":
        t = c["text"] if c["text"] not in K_KEYS + L_KEYS and c["text"].isidentifier() and c["text"] not in ("self", "kernel_type", "projection") else "kernel"
        return kt, proj, {[t, key.lower() + "_", "K_eig_vals", "Phi"][v % 4]: params[key]}
    if f == "empty":
        return kt, proj, {}
    if f == "other_side":
        return ("likelihood" if kt == "correlation" else "correlation"), proj, params
    if f == "flag":
        return kt, [None, 0, 1, "True", "", [], (True,), 0.0, 1.0, {}][v], params
    if key in ("K", "L"):
        M = np.array(params[key], float)
        N = len(M)
        n = min(N, 20)
        if f == "shape":
            B = [M[:, :-1], M[:-1], M.ravel(), M[None], np.vstack([M, M[:1]]), np.hstack([M, M[:, :1]])][v % 6]
            return (kt, proj, {key: B}) if N >= 1 and B.size else None
        if f == "asymmetric" and n >= 2:
            i = c["i"] % n
            j = (i + 1 + c["j"] % (n - 1)) % n
            M[i, j] += max(d, 1e-4) * (1 + abs(M).max()) * (1 if v % 2 else -1)
            return kt, proj, {key: M}
        if f == "not_projection" and proj:
            w, Q = np.linalg.eigh(M)
            # visible: some leading row of the eigenvector is not negligible
            js = [j for j in range(N) if (Q[:n, j] ** 2).max() > 1e-2]
            if not js:
                return None
            j = js[c["j"] % len(js)]
            lam = [max(d, 1e-2), -max(d, 1e-2), 1 + max(d, 1e-2), 0.5][v % 4]
            if abs(lam - 1) < 1e-2 or abs(lam) < 1e-2:
                lam = 0.5
            w[j] = lam
            B = gens.sym((Q * w).dot(Q.T))
            # the check compares the squared norm of the columns with the diagonal
            if np.abs((B[:n, :n] if N <= 20 else B[:, :n]) .__pow__(2).sum(0) - np.diag(B)[:n]).max() < 1e-3 * (1 + abs(B).max()):
                return None
            return kt, proj, {key: B}
        if f == "not_projection" and not proj and N:
            w = np.linalg.eigvalsh(M)
            gap = np.abs((M ** 2).sum(0) - np.diag(M))[:n]
            return (kt, True, params) if gap.max() > 1e-3 * (1 + abs(M).max()) else None
    if key in ("K_eig_dec", "L_eig_dec"):
        e, V = np.array(params[key][0], float), np.array(params[key][1], float)
        m = len(e)
        if f == "eigenvalue" and m:
            i = c["i"] % m
            e[i] = -d if v % 2 or key == "L_eig_dec" else 1 + d
            return kt, proj, {key: (e, V)}
        if f == "not_projection" and m:
            i = c["i"] % m
            if proj:
                e[i] = [min(d, 0.5), 1 - min(d, 0.5), 1 + d, -d][v % 4]
                return kt, proj, {key: (e, V)}
            return (kt, True, params) if np.any((np.minimum(np.abs(e), np.abs(1 - e)) > 1e-6)) else None
        if f == "orthonormal" and m:
            i = c["i"] % min(5, m)
            x = [(1 + max(d, 1e-3)) * V[:, i], V[:, i] / (1 + max(d, 1e-3)), None, np.zeros(len(V))][v % 4]
            if x is None:
                if min(5, m) < 2:
                    return None
                x = V[:, (i + 1 + c["j"] % (min(5, m) - 1)) % min(5, m)]
            V[:, i] = x
            return kt, proj, {key: (e, V)}
    if key == "A_zono" and f in ("rank", "shape"):
        A = np.array(params[key], float)
        r, N = A.shape
        B = [np.vstack([A, A[:1]]), np.vstack([A, np.zeros((1, N))]), np.vstack([A, A.sum(0)[None]]), rng.randn(N + 1, N), np.vstack([A[:-1], np.zeros((1, N))]), A.T][v % 6]
        if B.shape[0] <= B.shape[1] and np.linalg.matrix_rank(B) == B.shape[0]:
            return None
        return kt, proj, {key: B}
    if key == "L_eval_X_data":
        g, X = params[key]
        if f == "not_callable":
            return kt, proj, {key: ([1.0, "linear", g(X), ["f"], 0, "", (g,)][v % 7], X)}
        if f == "data":
            return kt, proj, {key: (g, [X[:0], X[:, :0], X.ravel(), X[None], X[0], np.zeros((0, 0))][v % 6])}
    return None


def usable(c, kt, proj, params, what):
    """a valid definition is accepted and served"""
    with sut("building " + what):
        d = make(kt, proj, params)
    with sut("describing " + what):
        str(d)
    if c["proj"]:
        modes = ["GS"]
    else:
        modes = ["GS", "GS_bis", "Chol", "KuTa12"]
    with sut("sampling " + what), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = d.sample_exact(mode=modes[c["v"] % len(modes)], random_state=c["seed"])
    laws.as_set(s, c["N"])
    return d


def run_def(c):
    kt, proj, params = build(c)
    what = "FiniteDPP(%r, projection=%r, %s)" % (kt, proj, c["param"])
    # round-off of the parameters is accepted
    p = {k: (v if k == "L_eval_X_data" else tuple(np.array(x) for x in v) if isinstance(v, tuple) else np.array(v)) for k, v in params.items()}
    if c["noise"]:
        rng = np.random.RandomState(c["seed"] + 11)
        for k in p:
            if k in ("K", "L"):
                E = rng.uniform(-1, 1, p[k].shape) * c["noise"] * (0.1 if c["proj"] or k == "K" else 1)
                p[k] = p[k] + gens.sym(E) / max(1, len(E))
                if k == "L":
                    p[k] = p[k] + c["noise"] * np.eye(len(E))
            elif k.endswith("eig_dec"):
                p[k] = (p[k][0] + rng.uniform(-1, 1, p[k][0].shape) * c["noise"], p[k][1])
    usable(c, kt, proj, p, what)
    if c["param"] == "A_zono":
        # announced with projection=False: accepted with a warning
        d = usable(c, kt, False, p, "FiniteDPP('correlation', projection=False, A_zono)")
        with sut("sample_exact('Schur') of FiniteDPP('correlation', projection=False, A_zono), a projection DPP"):
            s = d.sample_exact(mode="Schur", random_state=c["seed"])
        if len(laws.as_set(s, c["N"])) != len(p["A_zono"]) or d.projection is not True:
            raise Violation("FiniteDPP('correlation', projection=False, A_zono) is not a projection DPP: %r" % (s,))
    bad = corrupt(c, kt, proj, params)
    if bad is None:
        return {"nontrivial": False, "execs": 2, "tag": "fault does not apply"}
    must_raise("FiniteDPP(%r, projection=%r, %s) (fault: %s)" % (bad[0], bad[1], ", ".join(bad[2]), c["fault"]), lambda: make(*bad))
    return {"nontrivial": True, "execs": 3, "tag": "%s/%s" % (c["fault"], c["param"])}


# ---------------------------------------------------------------- sampling modes
MODES = ["GS", "GS_bis", "KuTa12", "Chol", "Schur", "vfx", "alpha", "E", "AED", "AD", "zonotope"]


@st.composite
def mode_case(draw):
    c = draw(def_any(5))
    if not c["proj"] and "eig" in c:
        c["eig"] = [min(e, 0.999) if c["param"] in gens.K_PARAMS else e for e in c["eig"]]
    c.update(mode=draw(st.one_of(st.sampled_from(MODES), st.sampled_from(MODES), st.sampled_from(["gs", "CHOL", "GS ", "", "exact", "Vfx", "aed", "e", "schur", "Zonotope", None, 0]), st.text(max_size=6))), v=draw(st.integers(0, 9)), k=draw(st.one_of(st.integers(-3, 9), st.just(-1))))
    return c


def run_mode(c):
    m = p05.Model(c)
    kt, proj, params = m.b[0], m.b[1], m.b[2]
    what = "FiniteDPP(%r, projection=%r, %s)" % (kt, proj, c["param"])
    mode, n = c["mode"], 0
    with sut("building " + what):
        d = make(kt, proj, params)
    # exact sampling
    evalL = c["param"] == "L_eval_X_data"
    if mode not in m.exact_modes and not (evalL and mode in ("vfx", "alpha")) and not (proj and m.corr and c["param"] == "K" and mode in ("GS_bis", "KuTa12")):
        must_raise("%s.sample_exact(mode=%r)" % (what, mode), lambda: d.sample_exact(mode=mode, random_state=c["seed"]))
        n += 1
    elif mode in m.exact_modes:
        with sut("%s.sample_exact(mode=%r)" % (what, mode)):
            laws.as_set(make(kt, proj, params).sample_exact(mode=mode, random_state=c["seed"]), m.N)
    # exact k-DPP sampling
    k = m.k_ok(1 + c["v"])
    if k is not None:
        d = make(kt, proj, params)
        if mode in m.k_modes:
            with sut("%s.sample_exact_k_dpp(%d, mode=%r)" % (what, k, mode)):
                s = laws.as_set(d.sample_exact_k_dpp(size=k, mode=mode, random_state=c["seed"]), m.N)
            if len(s) != k:
                raise Violation("%s.sample_exact_k_dpp(%d, mode=%r) returned %r" % (what, k, mode, s))
            bad = c["k"]
            # the numerical rank of a matrix given in floating point may be larger
            top = m.rank if proj or c["param"].endswith(("eig_dec", "eig_thin")) else m.N
            if bad > top or (proj and m.corr and bad != m.rank) or bad < 0:
                must_raise("%s (rank %d).sample_exact_k_dpp(%d, mode=%r)" % (what, m.rank, bad, mode), lambda: d.sample_exact_k_dpp(size=bad, mode=mode, random_state=c["seed"]))
                n += 1
        elif mode in ("Chol", "Schur") and c["param"] != "K" and proj or (mode in ("GS_bis", "KuTa12") and proj):
            pass  # availability depends on the representation in use
        elif not (evalL and mode in ("vfx", "alpha")):
            must_raise("%s.sample_exact_k_dpp(%d, mode=%r)" % (what, k, mode), lambda: d.sample_exact_k_dpp(size=k, mode=mode, random_state=c["seed"]))
            n += 1
    # MCMC
    d = make(kt, proj, params)
    kw = {"nb_iter": 2, "random_state": c["seed"]}
    if mode == "zonotope":
        if c["param"] != "A_zono":
            must_raise("%s.sample_mcmc('zonotope')" % what, lambda: d.sample_mcmc("zonotope", **kw))
            n += 1
        else:
            with sut(what + ".sample_mcmc('zonotope')"), fake_cvxopt():
                d.sample_mcmc("zonotope", **kw)
    elif mode in ("AED", "AD"):
        if m.L is None:
            must_raise("%s.sample_mcmc(%r)" % (what, mode), lambda: d.sample_mcmc(mode, s_init=[], **kw))
            n += 1
        else:
            with sut("%s.sample_mcmc(%r)" % (what, mode)):
                d.sample_mcmc(mode, s_init=[], **kw)
    elif mode == "E":
        if k is not None:
            s0 = m.state(k)
            with sut("%s.sample_mcmc('E', size=%d)" % (what, k)):
                d.sample_mcmc("E", s_init=s0, size=k, **kw)
            if proj and m.corr:
                must_raise("%s (rank %d).sample_mcmc('E', size=%d)" % (what, k, k + 1 + c["v"]), lambda: d.sample_mcmc("E", size=k + 1 + c["v"], **kw))
                must_raise("%s (rank %d).sample_mcmc('E')" % (what, k), lambda: d.sample_mcmc("E", **kw))
                n += 2
    else:
        must_raise("%s.sample_mcmc(%r)" % (what, mode), lambda: d.sample_mcmc(mode, **kw))
        n += 1
    must_raise("%s.sample_exact(random_state='seed')" % what, lambda: d.sample_exact(random_state=["seed", 1.5, [1, 2], {}][c["v"] % 4]))
    return {"nontrivial": n > 0, "execs": n + 2, "tag": "%s/%s" % (mode if mode in MODES else "unknown", c["param"])}


# ---------------------------------------------------------------- spectrum
def spec_case():
    return st.fixed_dictionaries({"N": st.integers(1, 6), "basis": st.sampled_from(gens.BASES), "seed": gens.seeds(), "param": st.sampled_from(["K", "K", "L", "L", "f"]), "low": st.booleans(), "delta": delta(),
                                  "eig": st.lists(gens.k_eig_lt1(), min_size=6, max_size=6), "i": st.integers(0, 5),
                                  "ops": st.lists(st.tuples(st.sampled_from(["exact", "exact", "k", "kernel"]), st.sampled_from(["GS", "GS_bis", "KuTa12", "Chol"]), st.integers(1, 6)), min_size=1, max_size=3).map(lambda l: [list(o) for o in l])})


def run_spec(c):
    N = c["N"]
    Q, e = gens.orth(N, c["basis"], c["seed"]), np.array(c["eig"][:N])
    if c["param"] != "K":
        e = e / (1 - e)
    i = c["i"] % N
    e[i] = -c["delta"] * max(1.0, e.max() if c["param"] != "K" else 1) if c["low"] or c["param"] != "K" else 1 + c["delta"]
    M = gens.sym((Q * e).dot(Q.T))
    what = "%s with eigenvalues %r" % (c["param"], e.tolist())
    if c["param"] == "f":
        X = np.arange(N, dtype=float)[:, None]

        def f(X, Y=None):
            a = np.atleast_2d(X)[:, 0].astype(int)
            b = a if Y is None else np.atleast_2d(Y)[:, 0].astype(int)
            return M[np.ix_(a, b)]
        params = {"L_eval_X_data": (f, X)}
    else:
        params = {c["param"]: M}
    kt = "correlation" if c["param"] == "K" else "likelihood"
    with sut("building a DPP from a symmetric %s" % what):
        d = make(kt, False, params)
    for o, mode, k in c["ops"]:
        if o == "exact":
            must_raise("%s: sample_exact(%r)" % (what, mode), lambda: d.sample_exact(mode=mode, random_state=c["seed"]))
        elif o == "k":
            if mode == "Chol":
                continue
            must_raise("%s: sample_exact_k_dpp(%d, %r)" % (what, 1 + (k - 1) % N, mode), lambda: d.sample_exact_k_dpp(size=1 + (k - 1) % N, mode=mode, random_state=c["seed"]))
        else:
            must_raise("%s: computing the other kernel" % what, d.compute_L if kt == "correlation" else d.compute_K)
    return {"nontrivial": True, "execs": len(c["ops"]), "tag": "%s %s" % (c["param"], "below" if e[i] < 0 else "above")}


# ---------------------------------------------------------------- beta ensembles
def fl(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 3))


def ens_case():
    return st.fixed_dictionaries({"e": st.sampled_from(["Hermite", "Laguerre", "Jacobi", "Circular", "Ginibre"]), "beta": st.one_of(st.sampled_from([0, 1, 2, 4]), st.integers(3, 12), fl(0.05, 9)), "neg": st.one_of(st.integers(-9, -1), fl(-9, -0.001)),
                                  "N": st.integers(1, 9), "M": st.tuples(st.integers(0, 9), st.integers(0, 9)), "x": st.tuples(fl(0.2, 5), fl(0.2, 5)), "less": st.integers(1, 9), "which": st.integers(0, 1), "seed": gens.seeds(),
                                  "text": st.one_of(st.sampled_from(["qr", "hermite", "", "haar"]), st.text(max_size=5))})


def run_ens(c):
    import dppy.beta_ensembles as be
    e, N, seed = c["e"], c["N"], c["seed"]
    cls = getattr(be, e + "Ensemble")
    beta = c["beta"]
    what = "%sEnsemble(beta=%r)" % (e, beta)
    n = 0
    must_raise("%sEnsemble(beta=%r)" % (e, c["neg"]), lambda: cls(beta=c["neg"]))
    if (e == "Ginibre" and beta != 2) or (e == "Circular" and not isinstance(beta, int)):
        must_raise(what, lambda: cls(beta=beta))
        return {"nontrivial": True, "execs": 2, "tag": e + " refused beta"}
    with sut(what):
        o = cls(beta=beta)
    sizes = {"Laguerre": {"size_M": N + c["M"][0]}, "Jacobi": {"size_M1": N + c["M"][0], "size_M2": N + c["M"][1]}, "Circular": {"haar_mode": ["Hermite", "QR"][c["which"]]}}.get(e, {})
    small = dict(sizes)
    if e in ("Laguerre", "Jacobi"):
        small[["size_M"] [0] if e == "Laguerre" else ["size_M1", "size_M2"][c["which"]]] = N - c["less"]
    # full model
    if beta in (1, 2, 4) and not (e == "Circular" and beta == 4 and c["which"]) or (beta == 0 and e in ("Hermite", "Circular")):
        with sut("%s.sample_full_model(%d, %r)" % (what, N, sizes)):
            s = o.sample_full_model(size_N=N, random_state=seed, **sizes)
        if len(s) not in (N, 2 * N if e == "Circular" and beta == 4 else N) or not np.all(np.isfinite(np.abs(s))):
            raise Violation("%s.sample_full_model(%d) returned %r" % (what, N, s))
    else:
        must_raise("%s.sample_full_model(%d, %r)" % (what, N, sizes), lambda: o.sample_full_model(size_N=N, random_state=seed, **sizes))
        n += 1
    if small != sizes:
        must_raise("%s.sample_full_model(%d, %r)" % (what, N, small), lambda: o.sample_full_model(size_N=N, random_state=seed, **small))
        n += 1
        if all(v > 0 for v in small.values()):  # 0 stands for a missing size
            must_raise("%s.sample_banded_model(%d, %r)" % (what, N, small), lambda: o.sample_banded_model(size_N=N, random_state=seed, **small))
            n += 1
    if e == "Circular" and beta and c["text"] not in ("QR", "Hermite"):
        must_raise("%s.sample_full_model(haar_mode=%r)" % (what, c["text"]), lambda: o.sample_full_model(size_N=N, haar_mode=c["text"], random_state=seed))
        n += 1
    # banded model
    if e == "Ginibre":
        must_raise(what + ".sample_banded_model", lambda: o.sample_banded_model(size_N=N, random_state=seed), NotImplementedError)
    else:
        kws = [{"Hermite": {"loc": c["x"][0] - 2, "scale": c["x"][1]}, "Laguerre": {"shape": c["x"][0], "scale": c["x"][1]}, "Jacobi": {"a": c["x"][0], "b": c["x"][1]}}.get(e, {})]
        if e in ("Laguerre", "Jacobi") and beta > 0:
            kws.append(sizes)
        elif e in ("Laguerre", "Jacobi"):
            must_raise("%s.sample_banded_model(%d, %r)" % (what, N, sizes), lambda: o.sample_banded_model(size_N=N, random_state=seed, **sizes))
            n += 1
        for kw in kws:
            with sut("%s.sample_banded_model(%d, %r)" % (what, N, kw)):
                s = o.sample_banded_model(size_N=N, random_state=seed, **kw)
            if len(s) != N:
                raise Violation("%s.sample_banded_model(%d) returned %r" % (what, N, s))
    # the functions behind the objects
    import dppy.random_matrices as rm
    for b in (0, c["neg"]):
        f = {"Hermite": lambda: rm.mu_ref_normal_sampler_tridiag(beta=b, size=N, random_state=seed), "Laguerre": lambda: rm.mu_ref_gamma_sampler_tridiag(beta=b, size=N, random_state=seed),
             "Jacobi": lambda: rm.mu_ref_beta_sampler_tridiag(a=c["x"][0], b=c["x"][1], beta=b, size=N, random_state=seed), "Circular": lambda: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=b, size=N, random_state=seed)}.get(e)
        if f:
            must_raise("banded model behind %sEnsemble, beta=%r" % (e, b), f)
            n += 1
    must_raise(what + ": random_state", lambda: o.sample_full_model(size_N=N, random_state=["seed", 1.5, [1, 2], {}][c["M"][0] % 4]))
    f = [o.plot, o.hist][c["which"]]
    o.flush_samples()
    must_raise(what + ": display without samples", f)
    return {"nontrivial": True, "execs": n + 3, "tag": e}


# ---------------------------------------------------------------- exotic processes
def exo_case():
    return st.fixed_dictionaries({"what": st.sampled_from(["carries", "descent", "virtual", "plancherel", "ust"]), "neg": st.one_of(st.integers(-9, -1), st.floats(-9, -1e-6)), "above": st.floats(1e-9, 5).filter(lambda v: 1 + v > 1), "unit": fl(0, 1), "size": st.integers(0, 40), "base": st.integers(2, 30), "seed": gens.seeds(),
                                  "g": p15.graph_case(6, 9), "mode": st.text(max_size=7), "cut": st.integers(1, 5)})


def run_exo(c):
    from dppy import exotic_dpps as xd
    import networkx as nx
    w, seed, neg = c["what"], c["seed"], c["neg"]
    n = 2
    rs = ["seed", 1.5, [1, 2], {}][c["cut"] % 4]
    if w == "ust":
        g, lab = p15.build(c["g"])
        with sut("UST of a connected graph"):
            u = xd.UST(g)
            for m in p15.MODES:
                u.sample(mode=m, random_state=seed)
        if c["mode"] not in p15.MODES:
            must_raise("UST.sample(mode=%r)" % c["mode"], lambda: u.sample(mode=c["mode"], random_state=seed))
        must_raise("UST.sample(root=not a node)", lambda: u.sample(root="not a node", mode=["Wilson", "Aldous-Broder"][seed % 2], random_state=seed))
        must_raise("UST.sample(random_state)", lambda: u.sample(random_state=rs))
        h = nx.Graph(g)
        k = c["cut"]
        h.add_edges_from((("new", i), ("new", i + 1)) for i in range(k - 1))
        h.add_node(("new", 0))
        must_raise("UST of a graph with two components", lambda: xd.UST(h))
        # cutting all the edges of a node
        v = list(g.nodes())[seed % len(g)]
        if len(g) > 1:
            h = nx.Graph(g)
            h.remove_edges_from(list(h.edges(v)))
            must_raise("UST of a graph with an isolated node", lambda: xd.UST(h))
        n = 5
    elif w == "plancherel":
        with sut("PoissonizedPlancherel(theta=%r)" % (20 * c["unit"])):
            o = xd.PoissonizedPlancherel(theta=20 * c["unit"])
            o.sample(random_state=seed)
        must_raise("PoissonizedPlancherel(theta=%r)" % neg, lambda: xd.PoissonizedPlancherel(theta=neg).sample(random_state=seed))
        must_raise("PoissonizedPlancherel.sample(random_state)", lambda: o.sample(random_state=rs))
    else:
        f = {"carries": lambda: xd.CarriesProcess(base=c["base"]), "descent": xd.DescentProcess, "virtual": lambda: xd.VirtualDescentProcess(x_0=c["unit"])}[w]
        with sut(w):
            o = f()
            o.sample(size=c["size"], random_state=seed)
            s = o.list_of_samples[-1]
        if len(s) > max(c["size"], 1):
            raise Violation("%s.sample(size=%d) returned %r" % (w, c["size"], s))
        bad = -1 if not isinstance(neg, int) else neg
        must_raise("%s.sample(size=%r)" % (w, bad), lambda: o.sample(size=bad, random_state=seed))
        must_raise("%s.sample(random_state)" % w, lambda: o.sample(size=3, random_state=rs))
        if w == "virtual":
            for x in (neg, 1 + c["above"]):
                must_raise("VirtualDescentProcess(x_0=%r)" % x, lambda: xd.VirtualDescentProcess(x_0=x))
        elif w == "carries":
            must_raise("CarriesProcess(base=%r)" % bad, lambda: xd.CarriesProcess(base=bad).sample(size=5, random_state=seed))
            must_raise("CarriesProcess(base=0)", lambda: xd.CarriesProcess(base=0).sample(size=5, random_state=seed))
    return {"nontrivial": True, "execs": n, "tag": w}


# ---------------------------------------------------------------- potentials and multivariate Jacobi
def con_case():
    g = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5]), fl(-3, 3))
    pot = st.fixed_dictionaries({"what": st.just("potential"), "beta": st.one_of(st.sampled_from([1, 2, 4]), fl(0.1, 6)), "g": st.tuples(g, g, g, g, g, g), "deg": st.sampled_from([2, 4, 6]), "lead": fl(0.01, 3), "seed": gens.seeds(),
                                 "fault": st.sampled_from(["beta", "odd", "g5", "lead", "deg", "constant", "exact_x3", "exact_sextic", "exact_g2"]), "v": st.integers(0, 5), "zero": st.lists(st.integers(0, 5), max_size=5)})
    jac = st.fixed_dictionaries({"what": st.just("jacobi"), "d": st.integers(1, 4), "N": st.integers(1, 12), "p": st.lists(fl(-0.5, 0.5), min_size=8, max_size=8), "fault": st.sampled_from(["N", "type", "range", "range", "shape", "low"]), "delta": delta(), "i": st.integers(0, 7), "v": st.integers(0, 7), "seed": gens.seeds()})
    return st.one_of(pot, jac)


def poly(g):
    return np.poly1d([float(x) for x in g[::-1]])


def run_con(c):
    return run_pot(c) if c["what"] == "potential" else run_jac(c)


def run_pot(c):
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    deg, beta, v = c["deg"], c["beta"], c["v"]
    g = list(c["g"][:deg]) + [c["lead"]]
    g[0] = 0.0
    for i in c["zero"]:
        if i < deg:
            g[i] = 0.0
    if deg > 5:
        g[5] = 0.0
    what = "BetaEnsemblePolynomialPotential(%r, %r)" % (beta, g)
    with sut(what), np.errstate(all="ignore"):
        o = B(beta, poly(g))
        str(o)
        # MALA may be used with every potential
        x = o.sample_mcmc(N=2 + v, nb_gibbs_passes=1, nb_mala_steps=2, sample_exact_cond=False, random_state=c["seed"])
    if np.shape(x) != (2 + v,):
        raise Violation("%s.sample_mcmc(N=%d) returned %r" % (what, 2 + v, x))
    f = c["fault"]
    b = list(g)
    if f == "beta":
        for y in (0, -1, -float(beta), -1e-9):
            must_raise("potential %r with beta=%r" % (g, y), lambda: B(y, poly(g)))
        return {"nontrivial": True, "execs": 5, "tag": f}
    if f.startswith("exact"):
        # the exact conditionals need a log-concave quartic
        h = {"exact_x3": [0, 0, 1, [0.5, -0.5, 1e-3][v % 3], c["lead"]], "exact_sextic": [0, 0, 1, 0, 1, 0, c["lead"]], "exact_g2": [0, 0, -[1, 1e-3, 0.3][v % 3], 0, c["lead"]]}[f]
        with sut("potential %r" % (h,)):
            o = B(beta, poly(h))
        must_raise("exact conditionals with the potential %r" % (h,), lambda: o.sample_mcmc(N=3, nb_gibbs_passes=1, sample_exact_cond=True, random_state=c["seed"]))
        return {"nontrivial": True, "execs": 2, "tag": f}
    if f == "odd":
        b = b[:deg - 1] + [c["lead"] * (1 if v % 2 else -1)] if deg > 2 or v % 2 else b + [c["lead"]]
        if v == 0:
            b = [0.0, c["lead"]]
    elif f == "g5":
        b = list(c["g"][:5]) + [[1.0, -1e-3, 1e-6, 5.0][v % 4], c["lead"]]
    elif f == "lead":
        b[-1] = -c["lead"]
    elif f == "deg":
        b = [0.0] * (7 + v) + [c["lead"]]
    elif f == "constant":
        b = [[0.0, 1.0, 2.5, c["lead"]][v % 4]]
    must_raise("potential with coefficients %r (fault: %s)" % (b, f), lambda: B(beta, poly(b)))
    return {"nontrivial": True, "execs": 2, "tag": f}


def run_jac(c):
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE as J
    d, N, v, f = c["d"], c["N"], c["v"], c["fault"]
    p = np.array(c["p"][:2 * d]).reshape(d, 2)
    if d > 2:
        N = min(N, 6)
    with sut("MultivariateJacobiOPE(%d, %r)" % (N, p.tolist())):
        o = J(N, p)
        x = o.sample(random_state=c["seed"])
    if np.size(x) not in (N, N * d) or not np.abs(x).max() <= 1:
        raise Violation("MultivariateJacobiOPE(%d, %r).sample() = %r" % (N, p.tolist(), x))
    i = c["i"] % (2 * d)
    if f == "N":
        for b in (0, -1, -N):
            must_raise("MultivariateJacobiOPE(%r, ...)" % b, lambda: J(b, p))
    elif f == "type":
        b = [2.0, "3", None, 1.5, [3], (2,), 0.0, "x"][v]
        must_raise("MultivariateJacobiOPE(%r, ...)" % (b,), lambda: J(b, p))
    elif f == "range":
        q = p.copy()
        if d == 1:
            q.flat[i] = -1 - c["delta"] * (v % 3)
        else:
            q.flat[i] = (0.5 + c["delta"]) * (1 if v % 2 else -1)
        must_raise("MultivariateJacobiOPE(%d, %r)" % (N, q.tolist()), lambda: J(N, q))
    elif f == "low":
        # accepted with d=1, but without rejection sampling
        q = np.array([[-0.5, 0.3], [0.3, -0.5], [-0.5, -0.5]][v % 3])
        q[q == -0.5] -= min(c["delta"], 0.45)
        with sut("MultivariateJacobiOPE(%d, %r)" % (N, q.tolist())):
            o = J(N, q[None])
            o.sample(random_state=c["seed"])
        must_raise("chain rule sampler of MultivariateJacobiOPE(%d, %r)" % (N, q.tolist()), lambda: o.sample_chain_rule_proposal(random_state=c["seed"]))
    else:
        q = [p.ravel() if p.size != 2 else p.ravel(), p[:, :1], np.hstack([p, p[:, :1]]), p[None], np.zeros((0, 2)), p.T if d != 2 else p[0], 0.3, []][v]
        if np.ndim(q) == 2 and np.shape(q)[1] == 2 and np.size(q):
            return {"nontrivial": False, "execs": 1, "tag": f}
        must_raise("MultivariateJacobiOPE(%d, array of shape %r)" % (N, np.shape(q)), lambda: J(N, q))
    return {"nontrivial": True, "execs": 2, "tag": "jacobi " + f}


FACETS = [
    Facet("definitions", def_case, run_def, 3000, 50000, "the fault applies to the definition"),
    Facet("modes", mode_case, run_mode, 3500, 40000, "at least one unavailable or unknown mode, or size, is requested"),
    Facet("spectrum", spec_case, run_spec, 800, 10000, "every case"),
    Facet("beta ensembles", ens_case, run_ens, 800, 10000, "every case"),
    Facet("exotic", exo_case, run_exo, 500, 6000, "every case"),
    Facet("continuous", con_case, run_con, 500, 6000, "the fault applies to the definition"),
]
