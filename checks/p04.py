"""P04: conversions between correlation and likelihood kernels."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens
from pbt.core import Facet, Violation, sut

RULE = ("A case is a DPP definition and an order of kernel computations; it is non-trivial when N >= 2 and the kernel is not diagonal "
        "(conversion) or K has an eigenvalue 1 (no likelihood).")
ASSUMPTIONS = ["Reference kernels are computed from the generated spectrum, independently of the code under test.",
               "Accuracy required: 1e-7 relative for K, 1e-7 * conditioning of (I-K) for L."]


@st.composite
def conv_case(draw, nmax=8):
    if draw(st.integers(0, 4)) == 0:
        c = draw(gens.projection_case(nmax=nmax, nmin=1))
        c["proj"] = True
    else:
        c = draw(gens.generic_case(nmax=nmax, nmin=1, lt1=True))
        c["proj"] = False
    c["order"] = draw(st.lists(st.sampled_from(["K", "L"]), min_size=1, max_size=4))
    return c


def close(what, A, R, tol):
    A = np.asarray(A)
    if A.shape != R.shape:
        raise Violation("%s has shape %r instead of %r" % (what, A.shape, R.shape))
    if not np.all(np.isfinite(A)):
        raise Violation("%s has non-finite entries" % what)
    if not np.abs(A - A.T).max() <= tol:
        raise Violation("%s is not symmetric (%.2e)" % (what, np.abs(A - A.T).max()))
    if not np.abs(A - R).max() <= tol:
        raise Violation("%s differs from the reference by %.3g (tolerance %.1e):\n%s\ninstead of\n%s" % (what, np.abs(A - R).max(), tol, A, R))


def run_conv(c):
    b = gens.build_projection(c) + (None,) if c["proj"] else gens.build_generic(c)
    kt, _, params, K, L = b
    with sut("building a valid DPP"):
        d = gens.make_dpp(b)
    for w in c["order"]:
        if w == "K":
            with sut("compute_K (%s)" % c["param"]):
                d.compute_K()
            close("K computed from %s" % c["param"], d.K, K, 1e-7)
        elif L is None:
            refuse(d, "compute_L of a projection correlation kernel")
        else:
            with sut("compute_L (%s)" % c["param"]):
                d.compute_L()
            cond = 1.0 / (1.0 - np.linalg.eigvalsh(K).max()) if len(K) else 1.0
            close("L computed from %s" % c["param"], d.L, L, 1e-9 * (1 + np.abs(L).max()) * max(1, cond if kt == "correlation" else 1))
    return {"nontrivial": len(K) >= 2 and np.abs(K - np.diag(np.diag(K))).max() > 1e-6, "execs": len(c["order"]), "tag": c["param"]}


def refuse(d, what):
    for i in range(2):
        try:
            d.compute_L()
        except Exception:
            if d.L is not None:
                raise Violation("%s raised but left a likelihood kernel %r" % (what, d.L))
            continue
        raise Violation("%s yields %r on call %d instead of an error" % (what, d.L, i + 1))


@st.composite
def noL_case(draw):
    c = {"N": draw(st.integers(1, 7)), "seed": draw(gens.seeds()), "basis": draw(st.sampled_from(gens.BASES)),
         "param": draw(st.sampled_from(["K", "K_eig_dec", "A_zono", "P_K", "P_K_eig_dec"])),
         "eps": draw(st.sampled_from([0.0, 0.0, 1e-15, 1e-12, 1e-10, 5e-9])), "n1": draw(st.integers(1, 3)),
         "pre": draw(st.sampled_from(["", "K", "sample", "chol"]))}
    c["eig"] = draw(st.lists(gens.k_eig_lt1(), min_size=c["N"], max_size=c["N"]))
    return c


def run_noL(c):
    N = c["N"]
    Q = gens.orth(N, c["basis"], c["seed"])
    n1 = min(c["n1"], N)
    proj = c["param"].startswith("P_") or c["param"] == "A_zono"
    e = np.zeros(N) if proj else np.array(c["eig"])
    e[:n1] = 1.0 + (0 if proj else c["eps"])
    K = gens.sym((Q * e).dot(Q.T))
    p = c["param"].replace("P_", "")
    params = {"K": K.copy()} if p == "K" else {"K_eig_dec": (e.copy(), Q.copy())} if p == "K_eig_dec" else {"A_zono": Q[:, :n1].T.copy()}
    with sut("building a valid DPP"):
        d = gens.make_dpp(("correlation", proj, params))
    rng = np.random.RandomState(c["seed"])
    if c["pre"]:
        with sut("kernel computation / sampling before asking for L"):
            if c["pre"] == "K":
                d.compute_K()
            else:
                d.sample_exact(mode="GS" if c["pre"] == "sample" else "Chol", random_state=rng)
    refuse(d, "compute_L of a correlation kernel (%s) with an eigenvalue 1+%g" % (p, c["eps"]))
    return {"nontrivial": True, "execs": 2, "tag": c["param"]}


@st.composite
def scale_case(draw):
    """kernels of very small or very large scale, of any rank"""
    N = draw(gens.sizes(1, 20))
    c = {"N": N, "seed": draw(gens.seeds()), "basis": draw(st.sampled_from(gens.BASES)),
         "scale": draw(st.sampled_from([1e-13, 1e-12, 1e-10, 1e-9, 1e-8, 1e-6, 1e-3, 1e3, 1e6, 1e8, 1e9])),
         "wide": draw(st.booleans()),
         "order": draw(st.lists(st.sampled_from(["K", "L"]), min_size=1, max_size=4))}
    small = c["scale"] < 1
    c["param"] = draw(st.sampled_from(["L", "L_eig_dec", "L_gram_factor"] + ["K", "K_eig_dec"] * small))
    c["eig"] = draw(st.lists(st.one_of(st.just(0.0), st.floats(0.05, 20.0)), min_size=N, max_size=N))
    c["d"] = draw(st.integers(0, 6))
    return c


def run_scale(c):
    N, p = c["N"], c["param"]
    Q = gens.orth(N, c["basis"], c["seed"])
    e = np.array(c["eig"], float) * c["scale"]
    M = gens.sym((Q * e).dot(Q.T))
    if p == "L_gram_factor":
        nz = np.flatnonzero(e)
        d = max(len(nz), 1) + c["d"]
        W = gens.orth(d, "haar", c["seed"] + 17)[:, :len(nz)]
        params = {p: (W * np.sqrt(e[nz])).dot(Q[:, nz].T)}
    else:
        params = {p: (e.copy(), Q.copy()) if p.endswith("dec") else M.copy()}
    kt = "correlation" if p[0] == "K" else "likelihood"
    K = M if p[0] == "K" else gens.sym((Q * (e / (1 + e))).dot(Q.T))
    L = M if p[0] == "L" else gens.sym((Q * (e / (1 - e))).dot(Q.T))
    with sut("building a valid DPP"):
        dpp = gens.make_dpp((kt, False, params))
    top = e.max() if N else 0.0
    for w in c["order"]:
        R = K if w == "K" else L
        with sut("compute_%s (%s) of a kernel of scale %g" % (w, p, c["scale"])):
            getattr(dpp, "compute_" + w)()
        size = np.abs(R).max()
        # rounding errors on the eigenvalues are relative to the largest one
        close("%s computed from %s of scale %g" % (w, p, c["scale"]), getattr(dpp, w), R, 1e-9 * size + 200 * np.finfo(float).eps * (N + c["d"]) * top)
    return {"nontrivial": N >= 2 and np.abs(K - np.diag(np.diag(K))).max() > 1e-6 * np.abs(K).max() > 0,
            "execs": len(c["order"]), "tag": "%s %g" % (p, c["scale"])}


FACETS = [
    Facet("conversion", conv_case, run_conv, 8000, 80000, "kernels computed in a random order against references, N<=8"),
    Facet("large", lambda: conv_case(nmax=40), run_conv, 800, 8000, "the same, N<=40"),
    Facet("scales", scale_case, run_scale, 2500, 30000, "kernels of scale 1e-13 to 1e9 and of any rank, in relative accuracy, N<=20"),
    Facet("no_likelihood", noL_case, run_noL, 3000, 30000, "K with an eigenvalue 1 (up to rounding and tolerance): compute_L must raise, every time"),
]
