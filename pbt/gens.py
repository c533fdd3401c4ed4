"""Structured generators of kernels (cases are JSON dicts, see build)."""
import numpy as np
from hypothesis import strategies as st

BASES = ["haar", "diag", "block", "givens", "dct", "dup"]


def orth(N, kind, seed):
    """orthogonal N x N matrix of a structure class"""
    rng = np.random.RandomState(seed)
    if N == 0:
        return np.zeros((0, 0))
    if kind == "diag":
        return np.eye(N)[rng.permutation(N)]
    if kind == "block" and N >= 2:
        m = 1 + rng.randint(N - 1)
        Q = np.zeros((N, N))
        Q[:m, :m], Q[m:, m:] = orth(m, "haar", seed + 1), orth(N - m, "haar", seed + 2)
        return Q[rng.permutation(N)][:, rng.permutation(N)]
    if kind == "givens":
        Q = np.eye(N)
        for _ in range(max(1, N - 1)):
            if N < 2:
                break
            i, j = rng.choice(N, 2, replace=False)
            t = rng.choice([np.pi / 4, np.pi / 3, 0.1, 1.0])
            G = np.eye(N)
            G[i, i] = G[j, j] = np.cos(t)
            G[i, j], G[j, i] = -np.sin(t), np.sin(t)
            Q = Q.dot(G)
        return Q
    if kind == "dct":
        n = np.arange(N)
        Q = np.cos(np.pi * (2 * n[:, None] + 1) * n / (2 * N)) * np.sqrt(2.0 / N)
        Q[:, 0] /= np.sqrt(2)
        return Q
    if kind == "dup" and N >= 2:
        # first two rows equal up to the component along (e0-e1)/sqrt2, which is the LAST column: dropping it makes two identical rows
        Q = np.zeros((N, N))
        M = orth(N - 1, "haar", seed + 3)
        Q[0, :N - 1] = M[0] / np.sqrt(2)
        Q[1, :N - 1] = M[0] / np.sqrt(2)
        Q[2:, :N - 1] = M[1:]
        Q[0, N - 1], Q[1, N - 1] = 1 / np.sqrt(2), -1 / np.sqrt(2)
        return Q
    A = rng.randn(N, N)
    Q, R = np.linalg.qr(A)
    return Q * np.sign(np.diag(R))


def sizes(lo, hi):
    """sizes lo..hi with more weight on the larger half"""
    mid = (lo + hi + 1) // 2
    return st.one_of(st.integers(mid, hi), st.integers(mid, hi), st.integers(lo, hi))


def seeds():
    return st.integers(0, 2 ** 16)


def k_eig():
    return st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.9, 1e-3, 0.999, 0.1]), st.floats(0.01, 0.99).map(lambda x: round(x, 4)))


def k_eig_lt1():
    return st.one_of(st.sampled_from([0.0, 0.5, 0.25, 0.9, 1e-3, 0.999, 0.1]), st.floats(0.01, 0.99).map(lambda x: round(x, 4)))


def l_eig():
    return st.one_of(st.sampled_from([0.0, 1.0, 0.1, 10.0, 100.0, 1e-3, 3.0]), st.floats(0.01, 20).map(lambda x: round(x, 4)))


def sym(A):
    return 0.5 * (A + A.T)


def rbf(X, Y=None, ls=1.0):
    X = np.atleast_2d(X)
    Y = X if Y is None else np.atleast_2d(Y)
    return np.exp(-((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1) / (2 * ls ** 2))


def linear(X, Y=None):
    X = np.atleast_2d(X)
    Y = X if Y is None else np.atleast_2d(Y)
    return X.dot(Y.T)


# ---------------------------------------------------------------- storage of the inputs
def layouts():
    """memory order, strides, write protection and integer storage of the arrays given to the library"""
    return st.sampled_from(["C", "C", "C", "C", "F", "strided", "readonly", "int"])


def _store(x, lay):
    x = np.asarray(x)
    if lay == "F":
        return np.asfortranarray(x)
    if lay == "strided":
        big = np.full(tuple(2 * n + 1 for n in x.shape), 7, dtype=x.dtype)
        v = big[tuple(slice(1, 2 * n + 1, 2) for n in x.shape)]
        v[...] = x
        return v
    if lay == "readonly":
        x = x.copy()
        x.flags.writeable = False
        return x
    if lay == "int":
        r = np.rint(x)
        return r.astype(int) if np.all(np.abs(r - x) < 1e-12) else x
    return x


def store(params, lay):
    if lay in (None, "C"):
        return params
    return {k: tuple(y if callable(y) else _store(y, lay) for y in v) if isinstance(v, tuple) else _store(v, lay) for k, v in params.items()}


def int_full_rank(r, N, seed):
    rng = np.random.RandomState(seed)
    while True:
        A = rng.randint(-3, 4, size=(r, N))
        s = np.linalg.svd(A, compute_uv=False)
        if s[-1] > 0.2:
            return A.astype(float)


# ---------------------------------------------------------------- projection DPPs
@st.composite
def projection_case(draw, nmax=5, params=("K", "K_eig_dec", "K_eig_thin", "A_zono"), modes=None, nmin=1):
    N = draw(sizes(nmin, nmax))
    param = draw(st.sampled_from(list(params)))
    lo = 1 if param == "A_zono" else 0
    r = draw(st.integers(lo, N) if N < 2 else st.one_of(st.integers(1, N - 1), st.integers(1, N - 1), st.integers(1, N - 1), st.integers(lo, N)))
    c = {"N": N, "r": r, "basis": draw(st.sampled_from(BASES)), "seed": draw(seeds()), "param": param}
    if param == "A_zono":
        c["cond"] = draw(st.sampled_from([0, 1, 2]))
    c["layout"] = draw(layouts())
    if c["layout"] == "int" and param != "A_zono":
        c["basis"] = "diag"
    return c


def build_projection(c):
    """-> (kernel_type, projection, params, K)"""
    N, r = c["N"], c["r"]
    Q = orth(N, c["basis"], c["seed"])
    V = Q[:, :r]
    K = sym(V.dot(V.T))
    p = c["param"]
    if p == "K":
        params = {"K": K.copy()}
    elif p == "K_eig_dec":
        e = np.zeros(N)
        e[:r] = 1.0
        perm = np.random.RandomState(c["seed"] + 5).permutation(N)
        params = {"K_eig_dec": (e[perm], Q[:, perm].copy())}
    elif p == "K_eig_thin":
        params = {"K_eig_dec": (np.ones(r), V.copy())}
    elif p == "A_zono":
        rng = np.random.RandomState(c["seed"] + 9)
        W = orth(r, "haar", c["seed"] + 10)
        s = [np.ones(r), rng.uniform(.5, 2, r), 10.0 ** rng.uniform(-2, 2, r)][c.get("cond", 0)]
        params = {"A_zono": (W * s).dot(V.T)}
        if c.get("layout") == "int" and c.get("cond", 0):  # cond = 0: orthonormal rows, also used as the factor of a projection L
            A = int_full_rank(r, N, c["seed"])
            params, K = {"A_zono": A}, sym(np.linalg.pinv(A).dot(A))
    else:
        raise KeyError(p)
    return "correlation", True, store(params, c.get("layout")), K


# ---------------------------------------------------------------- generic DPPs
K_PARAMS = ("K", "K_eig_dec")
L_PARAMS = ("L", "L_eig_dec", "L_eig_thin", "L_gram_factor", "L_eval_X_data")


@st.composite
def generic_case(draw, nmax=4, params=K_PARAMS + L_PARAMS, nmin=1, lt1=False, kinds=None, lmax=None):
    N = draw(sizes(nmin, nmax))
    param = draw(st.sampled_from(list(params)))
    c = {"N": N, "param": param, "basis": draw(st.sampled_from(BASES)), "seed": draw(seeds())}
    if param in K_PARAMS:
        c["eig"] = draw(st.lists(k_eig_lt1() if lt1 else k_eig(), min_size=N, max_size=N))
    elif param in ("L", "L_eig_dec"):
        c["eig"] = draw(st.lists(l_eig(), min_size=N, max_size=N))
    elif param == "L_eig_thin":
        m = draw(st.integers(0, N))
        c["eig"] = draw(st.lists(l_eig(), min_size=m, max_size=m))
    elif param == "L_gram_factor":
        c["d"] = draw(st.integers(1, N + 2))
        c["eig"] = draw(st.lists(l_eig(), min_size=min(c["d"], N), max_size=min(c["d"], N)))
    elif param == "L_eval_X_data":
        c["kern"] = draw(st.sampled_from(["linear", "rbf", "poly2"]))
        c["d"] = draw(st.integers(1, 3))
        c["scale"] = draw(st.sampled_from([0.3, 1.0, 2.0]))
        c["dupdata"] = draw(st.booleans())
    c["layout"] = draw(layouts())
    if c["layout"] == "int" and "eig" in c:
        c["basis"], c["eig"] = "diag", [float(round(x)) for x in c["eig"]]
        if lt1 and param in K_PARAMS:
            c["eig"] = [0.0 for x in c["eig"]]
    return c


@st.composite
def many_case(draw, nmin, nmax, lt1=False, powers=(-1, 0, 0, 1), params=K_PARAMS + L_PARAMS):
    """kernels of many items for build_generic; the spectrum is described by a seed"""
    N, p = draw(sizes(nmin, nmax)), draw(st.sampled_from(list(params)))
    c = {"N": N, "param": p, "basis": draw(st.sampled_from(BASES)), "seed": draw(seeds()), "layout": draw(st.sampled_from(["C", "C", "F", "strided", "readonly"]))}
    kind, zeros, power, frac = draw(st.sampled_from(["even", "ends", "spread", "flat"])), draw(st.sampled_from([0, 0, 1, N // 3])), draw(st.sampled_from(list(powers))), draw(st.sampled_from([1, 1, 0.5, 0.2]))
    rng = np.random.RandomState(c["seed"] + 77)
    if p in K_PARAMS:
        e = {"even": rng.rand(N), "ends": rng.beta(0.3, 0.3, N), "spread": 10 ** (-2 * rng.rand(N)), "flat": np.full(N, round(rng.rand(), 3))}[kind]
        e[:zeros] = 0
        if not lt1 and frac < 1:
            e[zeros:zeros + N // 5] = 1
        c["eig"] = [float(x) for x in (np.minimum(e, 0.999) if lt1 else e)]
    elif p == "L_eval_X_data":
        c.update(kern=draw(st.sampled_from(["linear", "rbf", "rbf", "rbf_scaled", "poly2"])), d=draw(st.integers(1, 4)), scale=draw(st.sampled_from([0.5, 1.0, 3.0])), dupdata=draw(st.booleans()))
    else:
        m = N if p in ("L", "L_eig_dec") else max(1, int(frac * N))
        e = 10.0 ** power * {"even": 2 * rng.rand(m), "ends": 10 ** (4 * rng.beta(0.3, 0.3, m) - 2), "spread": 10 ** (rng.randn(m) / 2), "flat": np.full(m, 1.0)}[kind]
        e[:min(zeros, m // 2)] = 0
        c["eig"] = [float(x) for x in rng.permutation(e)]
        if p == "L_gram_factor":
            c["d"] = m + draw(st.sampled_from([0, 0, 2]))
    return c


class EvalL(object):
    """likelihood function with the two-argument interface"""

    def __init__(self, kern):
        self.kern = kern

    def __call__(self, X, Y=None):
        if self.kern == "linear":
            return linear(X, Y)
        if self.kern == "rbf":
            return rbf(X, Y)
        if self.kern == "rbf_scaled":
            return 4.0 * rbf(X, Y, 0.7)
        return linear(X, Y) ** 2


def data(c):
    rng = np.random.RandomState(c["seed"])
    X = rng.randn(c["N"], c["d"]) * c["scale"]
    if c.get("dupdata") and c["N"] > 1:
        X[1] = X[0]
    return np.rint(2 * X) if c.get("layout") == "int" else X


def build_generic(c):
    """-> (kernel_type, projection=False, params, K or None, L or None)   (references computed from the spectrum)"""
    N, p = c["N"], c["param"]
    if p in K_PARAMS:
        Q, e = orth(N, c["basis"], c["seed"]), np.array(c["eig"], float)
        K = sym((Q * e).dot(Q.T))
        L = sym((Q * (e / (1 - e))).dot(Q.T)) if np.all(e < 1) else None
        params = {"K": K.copy()} if p == "K" else {"K_eig_dec": (e.copy(), Q.copy())}
        return "correlation", False, store(params, c.get("layout")), K, L
    if p in ("L", "L_eig_dec", "L_eig_thin"):
        e = np.array(c["eig"], float)
        Q = orth(N, c["basis"], c["seed"])[:, :len(e)]
        L = sym((Q * e).dot(Q.T))
        K = sym((Q * (e / (1 + e))).dot(Q.T))
        params = {"L": L.copy()} if p == "L" else {"L_eig_dec": (e.copy(), Q.copy())}
        return "likelihood", False, store(params, c.get("layout")), K, L
    if p == "L_gram_factor":
        e, d = np.array(c["eig"], float), c["d"]
        m = len(e)
        Q = orth(N, c["basis"], c["seed"])[:, :m]
        W = orth(d, "haar", c["seed"] + 17)[:, :m]
        Phi = (W * np.sqrt(e)).dot(Q.T)
        L = sym((Q * e).dot(Q.T))
        K = sym((Q * (e / (1 + e))).dot(Q.T))
        if c.get("layout") == "int":
            Phi = np.random.RandomState(c["seed"]).randint(-2, 3, size=(d, N)).astype(float)
            L = sym(Phi.T.dot(Phi))
            u, Q = np.linalg.eigh(L)
            u = np.maximum(u, 0)
            K = sym((Q * (u / (1 + u))).dot(Q.T))
        return "likelihood", False, store({"L_gram_factor": Phi}, c.get("layout")), K, L
    X = data(c)
    f = EvalL(c["kern"])
    L = sym(f(X))
    e, Q = np.linalg.eigh(L)
    e = np.maximum(e, 0)
    K = sym((Q * (e / (1 + e))).dot(Q.T))
    return "likelihood", False, store({"L_eval_X_data": (f, X)}, c.get("layout")), K, L


def make_dpp(built):
    from dppy.finite_dpps import FiniteDPP
    kt, proj, params = built[0], built[1], built[2]
    return FiniteDPP(kt, projection=proj, **params)
