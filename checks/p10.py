"""P10: zonotope sampler, with an exact stand-in for the LP solver."""
import itertools
import sys
import types

import numpy as np
from hypothesis import strategies as st

from checks.p09 import Clock, CountingRNG, fake_time
from pbt import gens, laws
from pbt.core import Facet, Violation, derive, must_raise, sut
from pbt.stats import check_discrete

RULE = ("A case is a full-row-rank feature matrix, a linear objective, a starting point, a length and a seed; it is non-trivial when at "
        "least two bases exist.")
ASSUMPTIONS = ["cvxopt is not installed: its matrix, spmatrix and solvers.lp are replaced by a stand-in (enumeration of the bases, or scipy's HiGHS simplex solver), "
               "which returns vertex solutions like the GLPK simplex solver requested by the code.",
               "Invariance is decided statistically (p < 1e-9 with confirmation) from starting points drawn exactly from the target tiling; at most 6 columns.",
               "Starting points are in general position (inside a tile): the solver identifies no tile otherwise."]


# ---- stand-in for cvxopt
class matrix(np.ndarray):
    """dense column-major matrix: always two-dimensional, single integer indices are linear"""

    def __new__(cls, x=0.0, size=None, tc=None):
        a = np.array(x, dtype=float)
        if size is not None:
            a = np.full(size, float(a)) if a.ndim == 0 else a.reshape(size, order="F")
        elif a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a[:, None]
        return np.ascontiguousarray(a).view(cls)

    @property
    def size(self):
        return self.shape

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)) and self.ndim == 2:
            return float(np.asarray(self).ravel(order="F")[i])
        if isinstance(i, tuple) and len(i) == 2 and self.ndim == 2:
            if all(isinstance(k, (int, np.integer)) for k in i):
                return float(np.asarray(self)[i])
            i = tuple(slice(k, k + 1 or None) if isinstance(k, (int, np.integer)) else k for k in i)
        return np.ndarray.__getitem__(self, i)

    def __setitem__(self, i, v):
        if isinstance(i, (int, np.integer)) and self.ndim == 2:
            r = self.shape[0]
            np.ndarray.__setitem__(self, (i % r, i // r), v)
        elif isinstance(i, tuple) and len(i) == 2:
            i = tuple(slice(k, k + 1 or None) if isinstance(k, (int, np.integer)) else k for k in i)
            np.ndarray.__setitem__(self, i, v)
        else:
            np.ndarray.__setitem__(self, i, v)


def spmatrix(x, I, J, size=None, tc=None):
    I, J = list(I), list(J)
    if size is None:
        size = (max(I) + 1, max(J) + 1)
    m = matrix(0.0, size)
    for t, (i, j) in enumerate(zip(I, J)):
        v = x if np.isscalar(x) else x[t]
        np.ndarray.__setitem__(m, (i, j), np.asarray(m)[i, j] + v)
    return m


_COMB = {}


def lp(c, G, h, A=None, b=None, solver=None, **kw):
    f = lambda a: None if a is None else np.asarray(a, float)
    c, G, h, A = f(c).ravel(), f(G), f(h).ravel(), f(A)
    b = None if b is None else f(b).ravel()
    x = None if A is None else small_lp(c, G, h, A, b)
    if x is None:
        from scipy.optimize import linprog
        r = linprog(c, A_ub=G, b_ub=h, A_eq=A, b_eq=b, bounds=(None, None), method="highs-ds")
        if r.status != 0:
            return {"x": None, "status": "unknown"}
        x = r.x
    return {"x": matrix(x), "status": "optimal", "primal objective": float(c.dot(x))}


def small_lp(c, G, h, A, b):
    """box-constrained LP by enumeration of the bases (None: not of that form, or no clearly optimal basis)"""
    r, n = A.shape
    nz = G != 0
    if n > 9 or np.any(nz.sum(axis=1) > 1):
        return None
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    for i, j in zip(*np.nonzero(nz)):
        v = h[i] / G[i, j]
        if G[i, j] > 0:
            hi[j] = min(hi[j], v)
        else:
            lo[j] = max(lo[j], v)
    free = np.isinf(lo) & np.isinf(hi)
    if np.any(np.isinf(lo) != np.isinf(hi)) or free.sum() > r:
        return None
    key = (n, r, tuple(np.nonzero(free)[0]))
    if key not in _COMB:
        _COMB[key] = np.array([B for B in itertools.combinations(range(n), r) if set(key[2]) <= set(B)])
    Bs = _COMB[key]
    M = A[:, Bs].transpose(1, 0, 2)
    ok = np.abs(np.linalg.det(M)) > 1e-12
    Bs, M = Bs[ok], M[ok]
    if not len(Bs):
        return None
    T = np.linalg.solve(M, np.broadcast_to(A, (len(Bs),) + A.shape))
    red = c - np.einsum("br,brn->bn", c[Bs], T)
    X = np.where(red < 0, hi, lo)
    np.put_along_axis(X, Bs, 0.0, axis=1)
    if np.any(np.isinf(X)):
        return None
    xb = np.linalg.solve(M, (b - X.dot(A.T))[:, :, None])[:, :, 0]
    np.put_along_axis(X, Bs, xb, axis=1)
    viol = np.maximum((lo - X).max(axis=1), (X - hi).max(axis=1))
    i = int(np.argmin(viol))
    return X[i] if viol[i] < 1e-9 else None


class fake_cvxopt(object):
    def __enter__(self):
        m = types.ModuleType("cvxopt")
        s = types.ModuleType("cvxopt.solvers")
        s.options, s.lp = {}, lp
        m.matrix, m.spmatrix, m.sparse, m.solvers = matrix, spmatrix, (lambda x, tc=None: matrix(x)), s
        self.old = {k: sys.modules.get(k) for k in ("cvxopt", "cvxopt.solvers")}
        sys.modules["cvxopt"], sys.modules["cvxopt.solvers"] = m, s

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        return False


# ---- reference tiling
def tiling(A, c):
    """basis -> (determinant, offset): tile = offset + A_B [0,1]^r"""
    r, N = A.shape
    out = {}
    for B in itertools.combinations(range(N), r):
        AB = A[:, B]
        d = float(np.linalg.det(AB))
        if abs(d) < 1e-9:
            continue
        red = c - c[list(B)].dot(np.linalg.solve(AB, A))
        y = (red < 0).astype(float)
        y[list(B)] = 0.0
        out[B] = (d, A.dot(y))
    return out


def tile_of(A, til, x):
    best, bb = np.inf, None
    for B, (d, off) in til.items():
        u = np.linalg.solve(A[:, B], x - off)
        v = max(np.max(-u), np.max(u - 1))
        if v < best:
            best, bb = v, B
    return bb, best


@st.composite
def zono_case(draw, nmax=6):
    N = draw(gens.sizes(1, nmax))
    r = draw(st.integers(1, min(N, 4)))
    return {"N": N, "r": r, "seed": draw(gens.seeds()), "kind": draw(st.sampled_from(["gauss", "gauss", "int", "pos", "scaled"])),
            "nb": draw(st.sampled_from([1, 2, 5, 12, None])), "x0": draw(st.sampled_from(["given", "given", "default"])),
            "obj": draw(st.sampled_from(["given", "given", "default"])), "via": draw(st.sampled_from(["object", "direct"]))}


def build(c):
    rng = np.random.RandomState(c["seed"])
    r, N = c["r"], c["N"]
    for _ in range(50):
        if c["kind"] == "int":
            A = rng.randint(-1, 3, (r, N)).astype(float)
        elif c["kind"] == "pos":
            A = rng.rand(r, N) + 0.05
        else:
            A = rng.randn(r, N)
            if c["kind"] == "scaled":
                A = A * rng.uniform(0.2, 3, N)
        s = np.linalg.svd(A, compute_uv=False)
        dets = [abs(np.linalg.det(A[:, B])) for B in itertools.combinations(range(N), r)]
        if s[-1] > 0.1 and not any(1e-9 < d < 1e-3 for d in dets):
            return A, rng.randn(N), rng
    return None, None, None


def sample(A, c, via, **kw):
    from dppy.finite_dpps import FiniteDPP
    from dppy.mcmc_sampling import zonotope_sampler
    with fake_cvxopt():
        if via == "direct":
            return zonotope_sampler(A, **kw)
        d = FiniteDPP("correlation", projection=True, A_zono=A)
        out = d.sample_mcmc("zonotope", **kw)
        ch = d.list_of_samples[-1]
        if len(d.list_of_samples) != 1 or list(out) != list(ch[-1]):
            raise Violation("sample_mcmc returned %r, the recorded trajectory ends with %r" % (out, ch[-1]))
        return ch


def run_traj(c):
    A, obj, rng = build(c)
    if A is None:
        return {"nontrivial": False, "execs": 0, "tag": "no matrix"}
    r, N = A.shape
    kw = {"random_state": c["seed"]}
    til = tiling(A, obj)
    if c["obj"] == "given":
        kw["lin_obj"] = obj.copy()
    exp = None
    if c["x0"] == "given":
        bases = sorted(til)
        B = bases[rng.randint(len(bases))]
        x = til[B][1] + A[:, B].dot(rng.uniform(0.02, 0.98, r)) if c["obj"] == "given" else A.dot(rng.uniform(0.1, 0.9, N))
        if c["obj"] == "given":
            exp = B
        kw["x_0"] = x.copy()
    if c["nb"]:
        kw["nb_iter"] = c["nb"]
    A0 = A.copy()
    with sut("zonotope sampler"):
        ch = sample(A, c, c["via"], **kw)
    n = c["nb"] or 10
    if not isinstance(ch, list) or len(ch) != n:
        raise Violation("trajectory of length %d instead of %d" % (len(ch), n))
    seen = set()
    for s in ch:
        S = laws.as_set(s, N, "state")
        if len(S) != r:
            raise Violation("state %r is not of size %d" % (S, r))
        if abs(np.linalg.det(A[:, S])) < 1e-9:
            raise Violation("state %r is not a basis" % (S,))
        seen.add(S)
    if exp is not None and laws.as_set(ch[0], N) != exp:
        raise Violation("the trajectory starts at %r, the starting point is in the tile of %r" % (ch[0], exp))
    if not np.array_equal(A, A0) or "lin_obj" in kw and not np.array_equal(kw["lin_obj"], obj) or "x_0" in kw and not np.array_equal(kw["x_0"], x):
        raise Violation("the caller's arrays were modified")
    with sut("zonotope sampler"):
        ch2 = sample(A, c, "direct", **kw)
    if [tuple(s) for s in ch] != [tuple(s) for s in ch2]:
        raise Violation("the same seed gives another trajectory")
    return {"nontrivial": len(til) > 1, "execs": 2, "tag": c["kind"], "note": "%d bases, %d visited" % (len(til), len(seen))}


# ---- starting points on the border of the tiles
class Rigged(np.random.RandomState):
    """the first uniform vector has coordinates next to 0 or 1"""
    first = True

    def rand(self, *a):
        u = np.random.RandomState.rand(self, *a)
        if self.first and a:
            self.first = False
            k = np.random.RandomState(len(u)).rand(len(u)) < 0.5
            u[k] = np.round(u[k]) * (1 - 2e-7) + 1e-7
        return u


def run_border(c):
    A, obj, rng = build(c)
    if A is None:
        return {"nontrivial": False, "execs": 0, "tag": "no matrix"}
    r, N = A.shape
    kw = {"random_state": c["seed"], "nb_iter": c["nb"] or 10}
    if c["x0"] == "given":
        til = tiling(A, obj)
        B = sorted(til)[rng.randint(len(til))]
        u = rng.uniform(0.02, 0.98, r)
        u[rng.randint(r)] = rng.randint(2)
        kw.update(x_0=til[B][1] + A[:, B].dot(u), lin_obj=obj)
    else:
        kw["random_state"] = Rigged(c["seed"])
        if c["obj"] == "given":
            kw["lin_obj"] = obj
    try:
        with sut("zonotope sampler, starting point %s" % ("on the border of a tile" if "x_0" in kw else "with coordinates next to 0 or 1"), allow=(ValueError,) if "x_0" in kw else ()):
            ch = sample(A, c, c["via"], **kw)
    except ValueError:
        return {"nontrivial": True, "execs": 1, "tag": "refused"}
    if len(ch) != kw["nb_iter"]:
        raise Violation("trajectory of length %d instead of %d" % (len(ch), kw["nb_iter"]))
    for s in ch:
        S = laws.as_set(s, N, "state")
        if len(S) != r or abs(np.linalg.det(A[:, S])) < 1e-9:
            raise Violation("state %r is not a basis" % (S,))
    return {"nontrivial": r == N or c["x0"] == "given", "execs": 1, "tag": "r=N" if r == N else "r<N"}


# ---- invariance: start from the exact law
@st.composite
def inv_case(draw):
    c = draw(zono_case(6))
    c["steps"] = draw(st.integers(1, 2))
    return c


def run_inv(c, n=2000):
    A, obj, _ = build(c)
    if A is None:
        return {"nontrivial": False, "execs": 0, "tag": "no matrix"}
    r, N = A.shape
    til = tiling(A, obj)
    if len(til) < 2:
        return {"nontrivial": False, "execs": 0, "tag": "one basis"}
    bases = sorted(til)
    p = np.array([til[B][0] ** 2 for B in bases])
    p /= p.sum()

    def draw(rng):
        B = bases[rng.choice(len(bases), p=p)]
        x = til[B][1] + A[:, B].dot(rng.uniform(1e-4, 1 - 1e-4, r))
        ch = sample(A, c, "direct", lin_obj=obj, x_0=x, nb_iter=c["steps"] + 1, random_state=np.random.RandomState(rng.randint(2 ** 31)))
        return laws.as_set(ch[-1], N)
    with sut("zonotope sampler"):
        check_discrete(draw, dict(zip(bases, p)), n, derive("p10", c["seed"]), "state of the zonotope chain after %d iterations from its target" % c["steps"])
    return {"nontrivial": True, "execs": n, "tag": "r=%d" % r}


# ---- transition law from a fixed point, against a direct simulation of hit-and-run on the reference tiling
def facets_of(A):
    r, N = A.shape
    H = []
    if r == 1:
        normals = [np.ones(1)]
    else:
        normals = []
        for F in itertools.combinations(range(N), r - 1):
            u, sv, vt = np.linalg.svd(A[:, F].T)
            if sv[-1] > 1e-9:
                normals.append(vt[-1])
    for v in normals:
        for w in (v, -v):
            H.append((w, np.maximum(w.dot(A), 0).sum()))
    return np.array([w for w, _ in H]), np.array([h for _, h in H])


def ref_chain(A, til, bases, x0, B0, steps, M, rng):
    r, N = A.shape
    W, h = facets_of(A)
    det = np.array([abs(til[B][0]) for B in bases])
    inv = [np.linalg.inv(A[:, B]) for B in bases]
    off = [til[B][1] for B in bases]
    x = np.tile(x0, (M, 1))
    cur = np.full(M, bases.index(B0))
    out = []
    for _ in range(steps):
        d = rng.randn(M, r)
        wd, wx = d.dot(W.T), x.dot(W.T)
        with np.errstate(divide="ignore", invalid="ignore"):
            t = (h - wx) / wd
        hi = np.where(wd > 0, t, np.inf).min(axis=1)
        lo = np.where(wd < 0, t, -np.inf).max(axis=1)
        y = x + (lo + (hi - lo) * rng.rand(M))[:, None] * d
        best, new = np.full(M, np.inf), np.zeros(M, int)
        for i in range(len(bases)):
            u = (y - off[i]).dot(inv[i].T)
            v = np.maximum((-u).max(axis=1), (u - 1).max(axis=1))
            m = v < best
            best[m], new[m] = v[m], i
        acc = rng.rand(M) < det[new] / det[cur]
        x[acc], cur = y[acc], np.where(acc, new, cur)
        out.append(cur.copy())
    return np.array(out).T


def run_trans(c, n=2500):
    A, obj, rng = build(c)
    if A is None:
        return {"nontrivial": False, "execs": 0, "tag": "no matrix"}
    r, N = A.shape
    til = tiling(A, obj)
    bases = sorted(til)
    if len(bases) < 2:
        return {"nontrivial": False, "execs": 0, "tag": "one basis"}
    # most starts in large tiles, where rejections matter
    order = sorted(bases, key=lambda B: -abs(til[B][0]))
    B0 = order[min(rng.randint(3), len(order) - 1)]
    x0 = til[B0][1] + A[:, B0].dot(rng.uniform(0.02, 0.98, r))
    steps = c["steps"]
    tr = ref_chain(A, til, bases, x0, B0, steps, 400000, rng)
    vals, cnt = np.unique(tr, axis=0, return_counts=True)
    target = {tuple(bases[i] for i in v): k / len(tr) for v, k in zip(vals, cnt)}
    rare = {k for k, v in target.items() if v < 2e-3}
    law = {k: v for k, v in target.items() if k not in rare}
    law["rare"] = max(1 - sum(law.values()), 1e-5)

    def draw(g):
        ch = sample(A, c, "direct", lin_obj=obj, x_0=x0.copy(), nb_iter=steps + 1, random_state=np.random.RandomState(g.randint(2 ** 31)))
        k = tuple(laws.as_set(s, N) for s in ch[1:])
        return k if k in law else "rare"
    with sut("zonotope sampler"):
        check_discrete(draw, law, n, derive("p10t", c["seed"]), "%d iteration(s) of the zonotope chain from a point in the tile of %r" % (steps, B0))
    return {"nontrivial": True, "execs": n, "tag": "r=%d/steps=%d" % (r, steps)}


def run_limit(c):
    """time budget, and requests that cannot be served"""
    A, obj, rng = build(c)
    if A is None:
        return {"nontrivial": False, "execs": 0, "tag": "no matrix"}
    x = A.dot(rng.uniform(0.1, 0.9, c["N"]))

    def go(n, T):
        clock = Clock(100.0)
        r = CountingRNG(c["seed"])
        r.clock = clock
        kw = {"T_max": T} if T else {}
        with sut("zonotope sampler with T_max=%r" % (T,)), fake_time(clock):
            return sample(A, c, "direct", lin_obj=obj, x_0=x, nb_iter=n, random_state=r, **kw), clock.t
    n = 6
    full, tot = go(n, None)
    cost = [go(j, None)[1] for j in range(1, n + 1)]
    T = 1 + c["seed"] % (tot + 3)
    exp = n
    for j in range(2, n + 1):
        if cost[j - 1] - cost[0] > T:
            exp = j
            break
    got, _ = go(n, T)
    if [tuple(s) for s in got] != [tuple(s) for s in full[:len(got)]]:
        raise Violation("with T_max=%r the trajectory %r is not the beginning of %r" % (T, got, full))
    if not exp <= len(got) <= min(exp + 1, n):
        raise Violation("T_max=%r exceeded after %d states, trajectory of %d states" % (T, exp, len(got)))
    return {"nontrivial": exp < n, "execs": n + 2}


FACETS = [
    Facet("trajectory", zono_case, run_traj, 800, 8000, "states are bases, length, starting tile"),
    Facet("transition", inv_case, run_trans, 56, 640, "law of one or two iterations from a fixed point against a simulation of hit-and-run on the reference tiling", cpu_limit=300),
    Facet("invariance", inv_case, run_inv, 16, 240, "law after one or two iterations from exact starts", cpu_limit=300),
    Facet("border", zono_case, run_border, 200, 3000, "starting points on the border of the tiles: refused if given, replaced if drawn", cpu_limit=20),
    Facet("budget", zono_case, run_limit, 60, 600, "time budgets with a simulated clock"),
]
