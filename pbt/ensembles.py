"""Reference laws of beta ensembles on the line: prod |x_i - x_j|^beta prod w(x_i)."""
import itertools

import numpy as np
from scipy import integrate, special
from scipy import stats as ss


class Ref(object):
    """reference measure: scipy frozen law plus the constants of its Selberg-type integral"""

    def __init__(self, kind, **p):
        self.kind, self.p = kind, p
        if kind == "hermite":
            self.law = ss.norm(p["loc"], p["scale"])
        elif kind == "laguerre":
            self.law = ss.gamma(p["shape"], scale=p["scale"])
        else:
            self.law = ss.beta(p["a"], p["b"])

    def bounds(self, N, beta):
        """interval that carries all but a negligible part of the N-point law"""
        g = beta / 2.0
        if self.kind == "hermite":
            s = self.p["scale"]
            r = s * (2 * np.sqrt(g * N + 0.5) + 5.5)
            return self.p["loc"] - r, self.p["loc"] + r
        if self.kind == "laguerre":
            a = self.p["shape"] + 2 * g * (N - 1)
            return 0.0, self.p["scale"] * float(ss.gamma(a + 0.5).isf(1e-8)) * 1.15
        return 0.0, 1.0

    # mean of log |Vandermonde|
    def mean_logdet(self, N, beta):
        g = beta / 2.0
        psi = special.digamma
        j = np.arange(N)
        if self.kind == "hermite":
            v = 0.5 * (((j + 1) * psi(1 + (j + 1) * g) - psi(1 + g)).sum())
            return v + N * (N - 1) / 2.0 * np.log(self.p["scale"])
        common = ((j + 1) * psi(1 + (j + 1) * g) - psi(1 + g)).sum()
        if self.kind == "laguerre":
            v = 0.5 * ((j * psi(self.p["shape"] + j * g)).sum() + common)
            return v + N * (N - 1) / 2.0 * np.log(self.p["scale"])
        a, b = self.p["a"], self.p["b"]
        return 0.5 * ((j * psi(a + j * g) + j * psi(b + j * g) - (N + j - 1) * psi(a + b + (N + j - 1) * g)).sum() + common)

    def mean_log(self, N, beta):
        """mean of sum log x_i (laguerre, jacobi)"""
        g, j, psi = beta / 2.0, np.arange(N), special.digamma
        if self.kind == "laguerre":
            return psi(self.p["shape"] + j * g).sum() + N * np.log(self.p["scale"])
        a, b = self.p["a"], self.p["b"]
        return (psi(a + j * g) - psi(a + b + (N + j - 1) * g)).sum()

    def mean_log1m(self, N, beta):
        g, j, psi = beta / 2.0, np.arange(N), special.digamma
        a, b = self.p["a"], self.p["b"]
        return (psi(b + j * g) - psi(a + b + (N + j - 1) * g)).sum()

    def trace_law(self, N, beta):
        """exact law of sum x_i where available"""
        if self.kind == "hermite":
            return ss.norm(N * self.p["loc"], np.sqrt(N) * self.p["scale"])
        if self.kind == "laguerre":
            return ss.gamma(N * self.p["shape"] + beta * N * (N - 1) / 2.0, scale=self.p["scale"])
        return None

    def mean_trace(self, N, beta):
        """Aomoto (jacobi): E sum x_i"""
        g = beta / 2.0
        a, b = self.p["a"], self.p["b"]
        # E prod of m of them: prod_{j=1..m} (a+(N-j)g)/(a+b+(2N-j-1)g); m = 1
        return N * (a + (N - 1) * g) / (a + b + (2 * N - 2) * g)


def aomoto(ref, N, beta, m):
    """E[x_1...x_m] for jacobi"""
    g, a, b = beta / 2.0, ref.p["a"], ref.p["b"]
    j = np.arange(1, m + 1)
    return float(np.prod((a + (N - j) * g) / (a + b + (2 * N - j - 1) * g)))


def warp(ref, N, beta):
    """x(t), t in [0, 1], and its inverse: regular parametrization of the support, power-like at singular ends"""
    lo, hi = ref.bounds(N, beta)
    if ref.kind == "jacobi":
        p, q = max(2.0, 1 / ref.p["a"]), max(2.0, 1 / ref.p["b"])

        def x(t):
            return np.where(t >= 1, 1.0, t ** p / (t ** p + (1 - t) ** q))
        tt = np.linspace(0, 1, 200001)
        xx = x(tt)
        return x, lambda v: np.interp(v, xx, tt)
    if ref.kind == "laguerre":
        p = max(1.7, 1 / ref.p["shape"])
        return (lambda t: hi * t ** p), (lambda v: (np.clip(v, 0, hi) / hi) ** (1 / p))
    return (lambda t: lo + (hi - lo) * t), (lambda v: (np.clip(v, lo, hi) - lo) / (hi - lo))


def cells(ref, N, beta, M):
    """grid on the support: edges, masses and centroids of the reference measure"""
    e = warp(ref, N, beta)[0](np.linspace(0, 1, M + 1))
    # mass and first moment of each cell by Gauss-Legendre except singular first/last cells (by cdf)
    m = np.diff(ref.law.cdf(e))
    up = -np.diff(ref.law.sf(e))
    m = np.where(e[:-1] > ref.law.median(), up, m)
    x, w = np.polynomial.legendre.leggauss(6)
    c = np.empty(M)
    for i in range(M):
        xs = 0.5 * (e[i] + e[i + 1]) + 0.5 * (e[i + 1] - e[i]) * x
        pdf = ref.law.pdf(xs)
        z = (w * pdf).sum()
        if m[i] > 0 and np.isfinite(z) and z > 0:
            c[i] = (w * pdf * xs).sum() / z
        else:
            c[i] = 0.5 * (e[i] + e[i + 1])
    lm = np.where(m > 0, np.log(np.maximum(m, 1e-300)), -np.inf)
    # far tails: mass underflows never matter here (they are negligible even after the Vandermonde)
    return e, lm, c


def grid_law(ref, N, beta, M):
    """N <= 3: cdfs of the order statistics at the grid edges -> (edges, [cdf_1..cdf_N])"""
    e, lm, c = cells(ref, N, beta, M)
    with np.errstate(divide="ignore", invalid="ignore"):
        D = np.log(np.abs(np.subtract.outer(c, c)))
        h = np.diff(e)
        # average of |x-y|^beta over a cell x cell: 2 h^beta / ((beta+1)(beta+2))
        d = np.log(h) + (np.log(2.0) - np.log(beta + 1) - np.log(beta + 2)) / beta if beta > 0 else np.zeros(M)
        D[np.arange(M), np.arange(M)] = d
        D = beta * D
    if N == 1:
        W = np.exp(lm - lm.max())
        return e, [np.concatenate([[0], np.cumsum(W)]) / W.sum()]
    if N == 2:
        W = lm[:, None] + lm[None, :] + D
        W = np.exp(W - np.nanmax(W))
        W /= W.sum()
        C = W.cumsum(0).cumsum(1)
        F2 = np.concatenate([[0], np.diag(C)])                    # max <= edge
        S = W[::-1, ::-1].cumsum(0).cumsum(1)
        F1 = 1 - np.concatenate([[0], np.diag(S)])[::-1]          # min <= edge
        return e, [F1, F2]
    W = lm[:, None, None] + lm[None, :, None] + lm[None, None, :] + D[:, :, None] + D[:, None, :] + D[None, :, :]
    W = np.exp(W - np.nanmax(W))
    W /= W.sum()
    C = W.cumsum(0).cumsum(1).cumsum(2)
    i = np.arange(M)
    F3 = np.concatenate([[0], C[i, i, i]])
    S = W[::-1, ::-1, ::-1].cumsum(0).cumsum(1).cumsum(2)
    F1 = 1 - np.concatenate([[0], S[i, i, i]])[::-1]
    # P(at least two <= edge) = 3 P(x1,x2<=t) - 2 P(all<=t)
    P2 = np.concatenate([[0], C[i, i, M - 1]])
    F2 = 3 * P2 - 2 * F3
    return e, [F1, F2, F3]


def interp_cdf(ref, N, beta, F):
    from scipy.interpolate import PchipInterpolator
    F = np.maximum.accumulate(np.clip(F, 0, 1))
    f = PchipInterpolator(np.linspace(0, 1, len(F)), F)
    inv = warp(ref, N, beta)[1]
    return lambda x: f(np.clip(inv(x), 0, 1))


def beta2_extreme(ref, N, nodes=400, pts=160):
    """beta=2: cdf of the largest point by det(I - K restricted above t), any N <= 25"""
    dens = ref.law.pdf
    # orthonormal functions by Gram-Schmidt (QR) on a fine composite Gauss-Legendre grid with edges = evaluation points
    e = warp(ref, N, 2)[0](np.linspace(0, 1, pts + 1))
    x, w = np.polynomial.legendre.leggauss(10)
    X = (0.5 * (e[:-1] + e[1:])[:, None] + 0.5 * np.diff(e)[:, None] * x).ravel()
    Wt = (0.5 * np.diff(e)[:, None] * w).ravel() * dens(X)
    s = (X - X.mean()) / (0.5 * (e[-1] - e[0]))
    V = np.polynomial.chebyshev.chebvander(s, N - 1) * np.sqrt(Wt)[:, None]
    Q, _ = np.linalg.qr(V)
    G = np.einsum("ki,kj->kij", Q, Q).reshape(pts, 10, N, N).sum(1)
    A = np.concatenate([np.zeros((1, N, N)), G.cumsum(0)])       # integral below edge
    Fmax = np.linalg.det(A)
    Fmin = 1 - np.linalg.det(np.eye(N) - A)
    return e, Fmin, Fmax
