"""P14: elementary symmetric polynomials and linear-algebra helpers."""
from fractions import Fraction
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gens
from pbt.core import Facet, Violation, must_raise, sut

RULE = ("A case is a sequence, an array with index sets, or a matrix with a claimed property; it is non-trivial when the array has at least "
        "two entries (sequences: two non-zero entries).")
ASSUMPTIONS = ["Elementary symmetric polynomials are recomputed in exact rational arithmetic; orders whose exact value leaves the range 1e-280 to 1e300 "
               "are only required not to be NaN or negative.",
               "The matrix predicates inspect a leading part of large arrays by design; generated violations concern that part."]


# ---- elementary symmetric polynomials
@st.composite
def esp_case(draw):
    n = draw(st.integers(0, 14))
    el = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 1e-3, 1e3]), st.floats(0, 50, allow_subnormal=False), st.floats(-30, 30).map(lambda x: 10.0 ** x))
    return {"x": draw(st.lists(el, min_size=n, max_size=n)), "k": draw(st.integers(0, n + 3)), "scale": draw(st.sampled_from([1.0, 1.0, 1e-20, 1e18]))}


def run_esp(c):
    from dppy.exact_sampling import elementary_symmetric_polynomials
    x = np.array(c["x"], float) * c["scale"]
    n, k = len(x), c["k"]
    x0 = x.copy()
    with sut("elementary_symmetric_polynomials"), np.errstate(all="ignore"):
        E = np.asarray(elementary_symmetric_polynomials(x, k))
    if E.shape != (k + 1, n + 1):
        raise Violation("table of shape %s for order %d and %d values" % (E.shape, k, n))
    if not np.array_equal(x, x0):
        raise Violation("the eigenvalues were modified")
    col = [Fraction(1)] + [Fraction(0)] * k
    taint = [False] * (k + 1)       # an intermediate product left the floating-point range
    for j in range(n + 1):
        if j:
            v = Fraction(float(x[j - 1]))
            for i in range(k, 0, -1):
                t = v * col[i - 1]
                taint[i] = taint[i] or (v and taint[i - 1]) or bool(t and not Fraction(1, 10 ** 280) < t < Fraction(10) ** 300)
                col[i] += t
        for i in range(k + 1):
            got, ref = E[i, j], col[i]
            if taint[i]:
                if got < 0:
                    raise Violation("e_%d of the first %d values is %r" % (i, j, got))
                continue
            if not np.isfinite(got):
                # an intermediate order may overflow only if it is itself out of range
                raise Violation("e_%d of the first %d values is %r instead of %g" % (i, j, got, float(ref)))
            if not abs(Fraction(float(got)) - ref) <= ref * Fraction(1, 10 ** 12):
                raise Violation("e_%d of the first %d of %r is %r instead of %r" % (i, j, x.tolist(), got, float(ref)))
    return {"nontrivial": int((x > 0).sum()) >= 2 and k >= 1, "execs": 1}


# ---- inner products, sub-determinants, likelihood functions
@st.composite
def lin_case(draw, dim=6, axes=4, N=(1, 8), k=5, M=6):
    return {"what": draw(st.sampled_from(["inner1d", "det", "diag", "kernels"])), "seed": draw(gens.seeds()),
            "shape": draw(st.lists(st.integers(0, dim), min_size=1, max_size=axes)), "axis": draw(st.integers(-4, 3)),
            "two": draw(st.booleans()), "N": draw(st.integers(*N)), "k": draw(st.integers(0, k)), "int": draw(st.booleans()),
            "T": draw(st.booleans()), "d": draw(st.integers(1, 4)), "M": draw(st.integers(1, M)),
            "kern": draw(st.sampled_from(["linear", "poly", "poly3", "min"])), "aslist": draw(st.booleans())}


def leibniz(M):
    n = len(M)
    if n > 7:                            # elimination with complete pivoting
        M, d = np.array(M, float), 1.0
        for j in range(n):
            p, q = np.unravel_index(np.argmax(np.abs(M[j:, j:])), (n - j, n - j))
            if p:
                M[[j, j + p]] = M[[j + p, j]]
                d = -d
            if q:
                M[:, [j, j + q]] = M[:, [j + q, j]]
                d = -d
            d *= M[j, j]
            if M[j, j] == 0:
                return 0.0
            M[j + 1:, j:] -= np.outer(M[j + 1:, j] / M[j, j], M[j, j:])
        return d
    tot = 0.0
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i + 1, n):
                if p[i] > p[j]:
                    s = -s
        tot += s * np.prod([M[i, p[i]] for i in range(n)])
    return tot


def run_lin(c):
    from dppy import utils as u
    rng = np.random.RandomState(c["seed"])
    if c["what"] == "inner1d":
        sh = tuple(c["shape"])
        ax = c["axis"] if -len(sh) <= c["axis"] < len(sh) else 0
        a, b = rng.randn(*sh), rng.randn(*sh)
        if c["int"]:
            a, b = rng.randint(-5, 6, sh), rng.randint(-5, 6, sh)
        with sut("inner1d"):
            r = u.inner1d(a, b, axis=ax) if c["two"] else u.inner1d(a, axis=ax)
        ref = (a * (b if c["two"] else a)).sum(axis=ax)
        if np.shape(r) != np.shape(ref) or not np.allclose(r, ref, rtol=1e-10, atol=1e-10):
            raise Violation("inner1d of shape %s along axis %d: %r instead of %r" % (sh, ax, r, ref))
        return {"nontrivial": a.size > 1, "execs": 1, "tag": "inner1d"}
    if c["what"] == "det":
        N, k = c["N"], min(c["k"], c["N"])
        A = rng.randint(-3, 4, (N, N)).astype(float) if c["int"] else rng.randn(N, N)
        S, T = rng.permutation(N)[:k], rng.permutation(N)[:k]
        S_, T_ = (S.tolist(), T.tolist()) if c["aslist"] else (S, T)
        with sut("det_ST"):
            r = u.det_ST(A, S_, T_) if c["T"] else u.det_ST(A, S_)
        ref = leibniz(A[S][:, T if c["T"] else S].reshape(k, k))
        had = np.prod(np.linalg.norm(A[S][:, T if c["T"] else S].reshape(k, k), axis=1))   # bound of Hadamard on the determinant
        if not abs(r - ref) <= 1e-12 * (1 + k) * had:
            raise Violation("det_ST(S=%r, T=%r) = %r instead of %r" % (S.tolist(), T.tolist() if c["T"] else None, r, ref))
        return {"nontrivial": k > 1, "execs": 1, "tag": "det"}
    d = 1 if c["kern"] == "min" else c["d"]
    X, Y = rng.rand(c["N"], d), rng.rand(c["M"], d)
    if c["kern"] != "min":
        X, Y = X * 4 - 2, Y * 4 - 2
    f = {"linear": u.example_eval_L_linear, "poly": u.example_eval_L_polynomial,
         "poly3": lambda X, Y=None: u.example_eval_L_polynomial(X, Y, p=3), "min": u.example_eval_L_min_kern}[c["kern"]]
    def ref(X, Y):
        if c["kern"] == "min":
            return np.array([[min(x[0], y[0]) for y in Y] for x in X])
        L = np.array([[sum(x * y) for y in Y] for x in X])
        return L ** {"linear": 1, "poly": 2, "poly3": 3}[c["kern"]]
    X0, Y0 = X.copy(), Y.copy()
    with sut(c["what"] + " " + c["kern"]):
        if c["what"] == "kernels":
            r1, r2 = f(X), f(X, Y)
            ok = np.shape(r1) == (c["N"],) * 2 and np.shape(r2) == (c["N"], c["M"]) and np.allclose(r1, ref(X, X)) and np.allclose(r2, ref(X, Y))
        else:
            r = u.evaluate_L_diagonal(f, X)

            class D(object):
                def __call__(self, X, Y=None):
                    return f(X, Y)

                def diag(self, X):
                    return np.diag(f(X)).copy()
            r2 = u.evaluate_L_diagonal(D(), X)
            g = np.diag(ref(X, X))
            ok = np.shape(r) == (c["N"],) and np.allclose(r, g) and np.shape(r2) == (c["N"],) and np.allclose(r2, g)
    if not ok:
        raise Violation("%s (%s likelihood) differs from its definition" % (c["what"], c["kern"]))
    if not np.array_equal(X, X0) or not np.array_equal(Y, Y0):
        raise Violation("%s (%s likelihood) modifies the data" % (c["what"], c["kern"]))
    return {"nontrivial": c["N"] > 1, "execs": 2, "tag": c["what"]}


# ---- many values: ratios to a reference in the log domain
@st.composite
def bigesp_case(draw):
    n = draw(st.integers(15, 300))
    return {"n": n, "k": draw(st.integers(0, n)), "seed": draw(gens.seeds()), "spread": draw(st.sampled_from([0.0, 0.3, 1.0, 3.0])), "zeros": draw(st.integers(0, 5)), "scale": draw(st.sampled_from([-3, -1, 0, 0, 1, 3]))}


def run_bigesp(c):
    from dppy.exact_sampling import elementary_symmetric_polynomials
    from pbt import laws
    rng = np.random.RandomState(c["seed"])
    n, k = c["n"], c["k"]
    x = 10.0 ** (c["scale"] + c["spread"] * rng.randn(n))
    x[rng.permutation(n)[:c["zeros"]]] = 0
    with sut("elementary_symmetric_polynomials"), np.errstate(all="ignore"):
        E = np.asarray(elementary_symmetric_polynomials(x, k))
    if E.shape != (k + 1, n + 1):
        raise Violation("table of shape %s for order %d and %d values" % (E.shape, k, n))
    ex = 0
    for j in sorted(set([0, 1, n, n - 1] + rng.randint(0, n + 1, 6).tolist())):
        ref = laws.log_esp(x[:j], k)
        lo = np.minimum.accumulate(np.where(np.isfinite(ref), ref, 0))
        hi = np.maximum.accumulate(np.where(np.isfinite(ref), ref, 0))
        for i in range(k + 1):
            g = E[i, j]
            if not np.isfinite(ref[i]):
                if g != 0 and lo[i] > -500 and hi[i] < 600:
                    raise Violation("e_%d of %d values (%d of them non-zero) is %r" % (i, j, int((x[:j] > 0).sum()), g))
                continue
            if hi[i] > 600 or lo[i] < -500:         # towards the ends of the floating-point range, possibly through lower orders
                if g < 0:
                    raise Violation("e_%d of %d values is %r" % (i, j, g))
                continue
            ex += 1
            if not (g > 0 and abs(np.log(g) - ref[i]) <= 1e-10):
                raise Violation("e_%d of the first %d values is %r instead of exp(%.15g)" % (i, j, g, ref[i]))
    return {"nontrivial": ex > 2 and k >= 1, "execs": 1}


# ---- predicates
PRED = ["is_square", "is_symmetric", "is_projection", "is_orthonormal_columns", "is_equal_to_O_or_1", "is_in_01", "is_geq_0", "is_full_row_rank"]


@st.composite
def pred_case(draw):
    return {"pred": draw(st.sampled_from(PRED)), "N": draw(st.one_of(st.integers(1, 26), st.integers(1, 26), st.integers(27, 90))), "m": draw(st.integers(1, 8)), "seed": draw(gens.seeds()),
            "basis": draw(st.sampled_from(gens.BASES)), "fault": draw(st.booleans()), "pick": draw(st.integers(0, 50)),
            "size": draw(st.sampled_from([1e-4, 1e-2, 0.3, 2.0]))}


def run_pred(c):
    from dppy import utils as u
    rng = np.random.RandomState(c["seed"])
    N, m, p, f = c["N"], c["m"], c["pred"], getattr(u, c["pred"])
    eps = c["size"]
    jit = 1e-12
    if f(None) is not None:
        raise Violation("%s(None) is not None" % p) if p != "is_full_row_rank" else Violation("is_full_row_rank(None)")
    if p == "is_square":
        A = rng.randn(N, N)
        if c["fault"]:
            A = [rng.randn(N, N + 1 + c["pick"] % 3), rng.randn(N), rng.randn(N, N, N if N < 5 else 1), rng.randn(N + 1, N)][c["pick"] % 4]
    elif p == "is_symmetric":
        A = gens.sym(rng.randn(N, N))
        A = A + jit * rng.randn(N, N)
        if c["fault"]:
            if N == 1:
                return {"nontrivial": False, "execs": 0}
            i, j = rng.permutation(min(N, 20))[:2]
            A[i, j] += (eps + 1e-3) * (2 + abs(A[i, j]))
    elif p == "is_projection":
        r = c["pick"] % (N + 1)
        V = gens.orth(N, c["basis"], c["seed"])[:, :r]
        A = V.dot(V.T) + jit
        if c["fault"]:
            if not r:
                return {"nontrivial": False, "execs": 0}
            A = A * (1 - min(eps + 1e-3, .9)) if c["pick"] % 2 else A * (1 + eps + 1e-3)
            if np.abs(np.diag(A)[:20]).max() < 1e-2:
                return {"nontrivial": False, "execs": 0}
    elif p == "is_orthonormal_columns":
        m = min(m, N)
        A = gens.orth(N, c["basis"], c["seed"])[:, :m] + jit
        if c["fault"]:
            j = c["pick"] % min(m, 5)
            if c["pick"] % 3 == 0 or m == 1:
                A[:, j] *= 1 + eps
            else:
                A[:, j] += (eps + 1e-3) * A[:, (j + 1) % min(m, 5)]
            if np.allclose(A.T.dot(A), np.eye(m), atol=1e-6):
                return {"nontrivial": False, "execs": 0}
    elif p == "is_full_row_rank":
        m = min(m, N)
        # rows of very different lengths: the rank of A cannot be read on A A^T
        w = [2, 5][c["pick"] % 3 == 0]
        A = gens.orth(N, c["basis"], c["seed"])[:m] * 10.0 ** rng.uniform(-w, w, (m, 1)) if c["pick"] % 3 == 0 else rng.randn(m, N) * 10.0 ** rng.uniform(-w, w, (m, 1))
        if c["fault"]:
            if c["pick"] % 2 or m == 1:
                A = rng.randn(N + 1 + c["pick"] % 3, N)
            else:
                A[0] = A[1:].sum(axis=0)
    else:
        sh = (N,) if c["pick"] % 2 else (m, N)
        A = {"is_equal_to_O_or_1": rng.randint(0, 2, sh).astype(float), "is_in_01": rng.rand(*sh), "is_geq_0": 10.0 ** rng.uniform(-20, 5, sh)}[p]
        k = rng.permutation(A.size)
        A.flat[k[:A.size // 3]] = 0.0
        A = A + 4e-9 * rng.uniform(-1, 1, sh)
        if c["fault"]:
            bad = {"is_equal_to_O_or_1": [0.5, -eps, 1 + eps, min(eps, .9), 2.0, np.nan], "is_in_01": [-eps, 1 + eps, np.nan, np.inf, -np.inf],
                   "is_geq_0": [-eps, -np.inf, np.nan]}[p]
            A.flat[k[-1]] = bad[c["pick"] % len(bad)]
    A0 = A.copy()
    if c["fault"]:
        must_raise("%s on an array without the property" % p, lambda: f(A))
    else:
        with sut("%s on an array with the property" % p):
            r = f(A)
        if r is None or not np.array_equal(np.asarray(r), A0):
            raise Violation("%s returned another array" % p)
    if not np.array_equal(A, A0, equal_nan=True):
        raise Violation("%s modified its argument" % p)
    return {"nontrivial": A.size > 1, "execs": 1, "tag": p + ("/fault" if c["fault"] else "")}


# ---- filtering and inverse roots
@st.composite
def filt_case(draw, lo=1, hi=10):
    n = draw(st.integers(lo, hi))
    e = st.one_of(st.sampled_from([0.0, 0.0, 1.0, 1e-3]), st.floats(-6, 3).map(lambda x: 10.0 ** x))
    return {"e": draw(st.lists(e, min_size=n, max_size=n)), "basis": draw(st.sampled_from(gens.BASES)), "seed": draw(gens.seeds()),
            "noise": draw(st.booleans()), "small": draw(st.sampled_from([0, 0, 20.0, 200.0, 1e4])), "scale": draw(st.sampled_from([1.0, 1e-8, 1e6])), "neg": draw(st.integers(0, 5)) == 0}


def run_filt(c):
    from dppy.utils import stable_filter, stable_invert_root
    e = np.array(c["e"]) * c["scale"]
    n = len(e)
    rng = np.random.RandomState(c["seed"])
    Q = gens.orth(n, c["basis"], c["seed"])
    big = e.max()
    if c["small"] and n > 1 and big > 0:
        # a small eigenvalue, above the threshold
        i = int(np.argmax(e))
        e[(i + 1 + rng.randint(n - 1)) % n] = c["small"] * n * np.finfo(float).eps * big
    w = e.copy()
    if c["noise"]:
        w = w + (w == 0) * big * 1e-16 * rng.uniform(-0.5, 0.5, n)
    if c["neg"]:
        if big == 0:
            return {"nontrivial": False, "execs": 0}
        w[rng.randint(n)] = -1e-6 * big
        must_raise("stable_filter with a negative eigenvalue", lambda: stable_filter(Q, w))
        must_raise("stable_invert_root with a negative eigenvalue", lambda: stable_invert_root(Q, w))
        return {"nontrivial": n > 1, "execs": 2, "tag": "negative"}
    w0, Q0 = w.copy(), Q.copy()
    with sut("stable_filter / stable_invert_root on the spectrum %r" % w.tolist()):
        V, l = stable_filter(Q, w)
        U, s = stable_invert_root(Q, w)
    keep = e > 0
    m = int(keep.sum())
    if V.shape != (n, m) or l.shape != (m,):
        raise Violation("stable_filter keeps %s of the spectrum %r" % (l, w))
    if not np.array_equal(V, Q[:, keep]) or not np.array_equal(l, w[keep]):
        raise Violation("stable_filter does not keep the non-zero part of %r: %r" % (w, l))
    if np.size(s) != m or np.shape(s)[0] != m:
        raise Violation("stable_invert_root returns %s roots for %d eigenvalues" % (np.shape(s), m))
    R = s * U.T
    P = R.dot((Q * e).dot(Q.T)).dot(R.T)
    if m and not np.abs(P - np.eye(m)).max() <= 1e-10 + 1e-13 * e.max() / e[keep].min():
        raise Violation("the inverse root of the spectrum %r is not an inverse root" % w)
    if not np.array_equal(w, w0) or not np.array_equal(Q, Q0):
        raise Violation("the arguments were modified")
    return {"nontrivial": n > 1, "execs": 2, "tag": "rank %d of %d" % (m, n)}


# ---- random_state argument
@st.composite
def rs_case(draw):
    dt = draw(st.sampled_from(["int64", "uint32", "int32", "uint64", "int16", "uint8"]))
    return {"kind": draw(st.sampled_from(["int", "npint", "state", "none", "module", "bad"])), "dtype": dt,
            "seed": draw(st.integers(0, int(min(np.iinfo(dt).max, 2 ** 32 - 1)))),
            "bad": draw(st.sampled_from(["str", "float", "list", "generator", "array", "dict", "legacy"]))}


def run_rs(c):
    from dppy.utils import check_random_state
    k = c["kind"]
    if k == "bad":
        b = {"str": "0", "float": 1.5, "list": [1, 2], "generator": np.random.default_rng(0), "array": np.arange(3), "dict": {}, "legacy": object()}[c["bad"]]
        must_raise("check_random_state(%r)" % (b,), lambda: check_random_state(b))
    elif k in ("int", "npint"):
        s = c["seed"] if k == "int" else getattr(np, c["dtype"])(c["seed"])
        g0 = np.random.get_state()[1].copy()
        with sut("check_random_state(%r)" % s):
            a, b = check_random_state(s), check_random_state(s)
        if not isinstance(a, np.random.RandomState) or a is b or a is np.random.mtrand._rand:
            raise Violation("check_random_state(%r) does not build a new generator" % s)
        x = np.random.RandomState(c["seed"]).rand(5)
        if not (np.array_equal(a.rand(5), x) and np.array_equal(b.rand(5), x)):
            raise Violation("check_random_state(%r) is not seeded with it" % s)
        if not np.array_equal(g0, np.random.get_state()[1]):
            raise Violation("check_random_state(%r) changes the global generator" % s)
    elif k == "state":
        r = np.random.RandomState(c["seed"])
        if check_random_state(r) is not r:
            raise Violation("check_random_state does not return the given generator")
    else:
        r = check_random_state(None if k == "none" else np.random)
        if r is not np.random.mtrand._rand:
            raise Violation("check_random_state(%s) is not the global generator" % k)
    return {"nontrivial": True, "execs": 1, "tag": k}


FACETS = [
    Facet("esp", esp_case, run_esp, 3000, 50000, "all orders and prefixes against exact rational arithmetic"),
    Facet("linear", lin_case, run_lin, 5000, 60000, "inner products, sub-determinants, likelihood functions"),
    Facet("predicates", pred_case, run_pred, 6000, 80000, "arrays with a property and single faults"),
    Facet("filter", filt_case, run_filt, 4000, 50000, "filtered spectra and inverse roots"),
    Facet("esp of many", bigesp_case, run_bigesp, 400, 6000, "15 to 300 values, references in the log domain", cpu_limit=60),
    Facet("linear large", lambda: lin_case(60, 3, (9, 90), 60, 70), run_lin, 600, 8000, "the same with sizes up to 90"),
    Facet("filter large", lambda: filt_case(11, 90), run_filt, 400, 6000, "filtered spectra and inverse roots, 11 to 90 values"),
    Facet("random_state", rs_case, run_rs, 400, 4000, "seeding"),
]
