"""Independent reference for products of orthonormal Jacobi polynomials."""
import itertools

import numpy as np
from scipy.special import betaln


def mass1(a, b):
    return np.exp((a + b + 1) * np.log(2.0) + betaln(a + 1, b + 1))


def recurrence(a, b, n):
    """coefficients of the monic recurrence for (1-x)^a (1+x)^b: p_{k+1} = (x - al_k) p_k - be_k p_{k-1}"""
    al, be = np.zeros(n), np.zeros(n)
    for k in range(n):
        s = 2 * k + a + b
        if k == 0:
            al[k] = (b - a) / (a + b + 2)
        else:
            al[k] = (b * b - a * a) / (s * (s + 2))
            if k == 1:
                be[k] = 4 * (1 + a) * (1 + b) / ((2 + a + b) ** 2 * (3 + a + b))
            else:
                be[k] = 4 * k * (k + a) * (k + b) * (k + a + b) / (s * s * (s + 1) * (s - 1))
    return al, be


def polys(a, b, n, x):
    """orthonormal polynomials of degrees 0..n at x (positive leading coefficients): array len(x) x (n+1)"""
    x = np.asarray(x, float)
    al, be = recurrence(a, b, n + 2)
    P = np.zeros((x.size, n + 1))
    P[:, 0] = 1 / np.sqrt(mass1(a, b))
    for k in range(n):
        q = (x - al[k]) * P[:, k]
        if k:
            q = q - np.sqrt(be[k]) * P[:, k - 1]
        P[:, k + 1] = q / np.sqrt(be[k + 1])
    return P


def quad(a, b, m):
    """Gauss-Jacobi nodes and weights by the Golub-Welsch algorithm"""
    al, be = recurrence(a, b, m)
    J = np.diag(al) + np.diag(np.sqrt(be[1:]), 1) + np.diag(np.sqrt(be[1:]), -1)
    x, v = np.linalg.eigh(J)
    return x, mass1(a, b) * v[0] ** 2


def order(N, d):
    """first N multi-indices, sorted by largest degree then lexicographically"""
    m = 0
    while (m + 1) ** d < N:
        m += 1
    return sorted(itertools.product(range(m + 1), repeat=d), key=lambda k: (max(k), k))[:N]


def phi(params, idx, X):
    """N orthonormal polynomials at the rows of X"""
    X = np.atleast_2d(X)
    idx = np.asarray(idx)
    out = np.ones((len(X), len(idx)))
    for i, (a, b) in enumerate(params):
        out *= polys(a, b, idx[:, i].max(), X[:, i])[:, idx[:, i]]
    return out


def tensor(params, m):
    """tensor Gauss-Jacobi rule"""
    qs = [quad(a, b, m) for a, b in params]
    X = np.stack([g.ravel() for g in np.meshgrid(*[q[0] for q in qs], indexing="ij")], axis=1)
    w = np.ones(len(X))
    for g in np.meshgrid(*[q[1] for q in qs], indexing="ij"):
        w = w * g.ravel()
    return X, w
