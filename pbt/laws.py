"""Reference laws of finite point processes and comparison of a sampler's law with them."""
import itertools

import numpy as np

from pbt.branch import Unsupported, enumerate_law
from pbt.core import Violation, derive
from pbt.stats import check_discrete


def subsets(N):
    for k in range(N + 1):
        for S in itertools.combinations(range(N), k):
            yield S


def law_from_K(K):
    """P(X=S) = (-1)^|S^c| det(K - I_{S^c})  (any correlation kernel)"""
    N = len(K)
    out = {}
    for S in subsets(N):
        D = np.ones(N)
        D[list(S)] = 0.0
        p = np.linalg.det(K - np.diag(D)) * (-1) ** (N - len(S))
        out[S] = max(float(p), 0.0)
    return out


def law_from_L(L):
    N = len(L)
    out = {}
    for S in subsets(N):
        out[S] = max(float(np.linalg.det(L[np.ix_(S, S)])) if S else 1.0, 0.0)
    Z = sum(out.values())
    return {k: v / Z for k, v in out.items()}


def law_k_from_L(L, k):
    N = len(L)
    out = {S: max(float(np.linalg.det(L[np.ix_(S, S)])) if S else 1.0, 0.0) for S in itertools.combinations(range(N), k)}
    Z = sum(out.values())
    return {k_: v / Z for k_, v in out.items()}


def as_set(s, N, what="sample"):
    """canonical form of a returned sample: tuple of sorted distinct indices"""
    if not isinstance(s, (list, tuple, np.ndarray)):
        raise Violation("%s is a %s, not a list" % (what, type(s).__name__))
    t = []
    for x in s:
        if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer)):
            raise Violation("%s has the non-integer element %r" % (what, x))
        t.append(int(x))
    if len(set(t)) != len(t):
        raise Violation("%s %r has duplicates" % (what, t))
    if any(x < 0 or x >= N for x in t):
        raise Violation("%s %r has indices outside the ground set of size %d" % (what, t, N))
    return tuple(sorted(t))


class _Bad(Exception):
    pass


def compare_laws(law, target, what, tol=1e-6, fail=1e-9):
    keys = set(law) | set(target)
    exc = [(k, law[k]) for k in law if isinstance(k, tuple) and len(k) and k[0] in ("EXC", "BAD")]
    if exc and sum(p for _, p in exc) > fail:
        raise Violation("%s: with probability %.3g the call fails: %s" % (what, sum(p for _, p in exc), exc[0][0]))
    tot = sum(law.values())
    d = {k: law.get(k, 0.0) / tot - target.get(k, 0.0) for k in keys}
    tv = 0.5 * sum(abs(v) for v in d.values())
    if not tv <= tol:
        worst = sorted(d, key=lambda k: -abs(d[k]))[:4]
        raise Violation("%s: law differs from the reference (total variation %.3g): %s" % (
            what, tv, "; ".join("P(%s)=%.6g instead of %.6g" % (k, law.get(k, 0.0) / tot, target.get(k, 0.0)) for k in worst)))
    return tv


def check_law(draw, target, what, case, tol=1e-6, max_paths=20000, stat_n=3000, fail=1e-9, **kw):
    """draw(rng) -> hashable outcome (Violation inside = bad outcome). Exact if enumerable, else statistical.

    Returns number of executions."""
    def f(rng):
        try:
            return draw(rng)
        except Violation as v:
            return ("BAD", v.msg)
    try:
        law, n, lost = enumerate_law(f, max_paths=max_paths, **kw)
    except Unsupported:
        check_discrete(draw, target, stat_n, derive("stat", str(case)), what)
        return stat_n
    compare_laws(law, target, what, tol, fail)
    return n


# ---------------------------------------------------------------- many items
def log_esp(e, k):
    """log of the elementary symmetric polynomials e_0..e_k of nonnegative numbers"""
    E = np.full(k + 1, -np.inf)
    E[0] = 0.0
    with np.errstate(divide="ignore"):
        l = np.log(np.maximum(np.asarray(e, float), 0.0))
    for x in l:
        E[1:] = np.logaddexp(E[1:], x + E[:-1])
    return E


def log_selection(e, k):
    """probabilities that each index is selected by the k-DPP with the diagonal kernel of diagonal e, and log e_k"""
    e = np.asarray(e, float)
    n = len(e)
    F, B = np.full((n + 1, k + 1), -np.inf), np.full((n + 1, k + 1), -np.inf)
    F[0, 0] = B[n, 0] = 0.0
    with np.errstate(divide="ignore"):
        l = np.log(np.maximum(e, 0.0))
    for i in range(n):
        F[i + 1] = F[i]
        F[i + 1, 1:] = np.logaddexp(F[i, 1:], l[i] + F[i, :-1])
    for i in range(n - 1, -1, -1):
        B[i] = B[i + 1]
        B[i, 1:] = np.logaddexp(B[i + 1, 1:], l[i] + B[i + 1, :-1])
    tot = F[n, k]
    p = np.array([np.exp(l[i] - tot + np.logaddexp.reduce(F[i, :k] + B[i + 1, k - 1::-1])) for i in range(n)]) if k else np.zeros(n)
    return p, tot


def tilts(N, m, seed, strength):
    """m positive functions on range(N), moderately far from 1: for E prod_{i in S} g_i"""
    rng = np.random.RandomState(seed)
    out = []
    for j in range(m):
        u = [rng.uniform(-1, 1, N), np.where(np.arange(N) < rng.randint(1, N + 1), 1.0, -0.3), np.cos(rng.uniform(0, 3) * np.arange(N) + rng.rand()), rng.choice([-1.0, 1.0], N)][j % 4]
        out.append(np.exp(strength * u))
    return np.array(out)
