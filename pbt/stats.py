"""Statistical decisions with tiny error probabilities."""
import numpy as np
from scipy import special
from scipy import stats as ss

from pbt.core import Violation

# a test rejects when a first sample gives p < ALPHA and an independent one, `confirm` times larger, p < ALPHA2:
# under the property the probability of a false alarm is below ALPHA * ALPHA2 = 1e-11 per test
ALPHA = 1e-2
ALPHA2 = 1e-9


def gtest_p(counts, probs, n):
    """p-value of a pooled chi-square/G test; counts, probs: aligned arrays (probs sum to 1)"""
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    zero = probs <= 1e-12
    if counts[zero].sum() > 0:
        return 0.0
    counts, probs = counts[~zero], probs[~zero]
    e = probs * n
    small = e < 8
    # rare outcomes are also bounded by an exact tail test below
    p_rare = 1.0
    if small.any():
        cs, es = counts[small].sum(), e[small].sum()
        if es < 8:
            p_rare = min(1.0, 2 * min(ss.binom.sf(cs - 1, n, es / n), ss.binom.cdf(cs, n, es / n)))
            counts, e = counts[~small], e[~small]
            if len(e):
                tot_c, tot_e = counts.sum(), e.sum()
                e = e * (tot_c / tot_e) if tot_e > 0 else e
        else:
            counts, e = np.append(counts[~small], cs), np.append(e[~small], es)
    if len(e) <= 1:
        return p_rare
    x2 = ((counts - e) ** 2 / e).sum()
    return min(p_rare, ss.chi2.sf(x2, len(e) - 1))


def check_discrete(draw, target, n, seed, what, confirm=4):
    """draw(rng) -> hashable; target: dict outcome -> probability"""
    keys = [k for k, p in target.items()]
    idx = {k: i for i, k in enumerate(keys)}
    probs = np.array([max(target[k], 0.0) for k in keys])
    probs = probs / probs.sum()

    def run(m, s):
        rng = np.random.RandomState(s)
        c = np.zeros(len(keys))
        for _ in range(m):
            o = draw(rng)
            if o not in idx:
                raise Violation("%s: outcome %r is impossible under the reference law" % (what, o))
            c[idx[o]] += 1
        return c
    c = run(n, seed)
    p = gtest_p(c, probs, n)
    if p < ALPHA:
        m = n * confirm
        c2 = run(m, seed + 7919)
        p2 = gtest_p(c2, probs, m)
        if p2 < ALPHA2:
            d = np.argsort(-np.abs(c2 / m - probs))[:5]
            raise Violation("%s: frequencies differ from the reference law (p=%.1e, confirmation p=%.1e): %s" % (
                what, p, p2, ", ".join("%r: freq %.4f vs %.4f" % (keys[i], c2[i] / m, probs[i]) for i in d)))
    return p


def ks_p(x, cdf):
    x = np.sort(np.asarray(x, float))
    return ss.kstest(x, cdf).pvalue


def check_continuous(draw, cdf, n, seed, what, confirm=4):
    """draw(rng, n) -> n iid reals; cdf: vectorized"""
    x = np.asarray(draw(np.random.RandomState(seed), n), float).ravel()
    if not np.all(np.isfinite(x)):
        raise Violation("%s: non-finite value" % what)
    p = ks_p(x, cdf)
    if p < ALPHA:
        x2 = np.asarray(draw(np.random.RandomState(seed + 7919), n * confirm), float).ravel()
        p2 = ks_p(x2, cdf)
        if p2 < ALPHA2:
            q = np.quantile(x2, [.05, .25, .5, .75, .95])
            raise Violation("%s: law differs from the reference (KS p=%.1e, confirmation p=%.1e); at quantiles %s cdf is %s instead of .05 .25 .5 .75 .95"
                            % (what, p, p2, np.round(q, 4), np.round(cdf(q), 4)))
    return p


def check_two_sample(draw1, draw2, n, seed, what, confirm=4):
    """two samplers of iid real statistics agree in law"""
    def t(m, s):
        a = np.asarray(draw1(np.random.RandomState(s), m), float).ravel()
        b = np.asarray(draw2(np.random.RandomState(s + 1), m), float).ravel()
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            raise Violation("%s: non-finite value" % what)
        return ss.ks_2samp(a, b).pvalue, a, b
    p, a, b = t(n, seed)
    if p < ALPHA:
        p2, a, b = t(n * confirm, seed + 7919)
        if p2 < ALPHA2:
            raise Violation("%s: laws differ (KS p=%.1e, confirmation p=%.1e): means %.4f / %.4f, sd %.4f / %.4f" % (
                what, p, p2, a.mean(), b.mean(), a.std(), b.std()))
    return p


def check_mean(draw, mean, n, seed, what, confirm=4, z=3.2, z2=6.3, atol=1e-9):
    """draw(rng, n) -> (n,) or (n, m) iid values with known mean (finite variance); self-normalized z test per column"""
    mean = np.atleast_1d(np.asarray(mean, float))

    def t(m, s):
        x = np.asarray(draw(np.random.RandomState(s), m), float)
        x = x.reshape(m, -1)
        if not np.all(np.isfinite(x)):
            raise Violation("%s: non-finite value" % what)
        se = x.std(axis=0, ddof=1) / np.sqrt(m)
        return (x.mean(axis=0) - mean) / (se + atol), x.mean(axis=0)
    zz, mm = t(n, seed)
    if np.any(np.abs(zz) > z):
        i = int(np.argmax(np.abs(zz)))
        zz2, mm2 = t(n * confirm, seed + 7919)
        if np.abs(zz2[i]) > z2 and np.sign(zz2[i]) == np.sign(zz[i]):
            raise Violation("%s: mean of statistic %d is %.5f instead of %.5f (z=%.1f, confirmation z=%.1f)" % (
                what, i, mm2[i], mean[i], zz[i], zz2[i]))
    return zz
