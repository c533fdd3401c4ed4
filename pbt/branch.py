"""Exact output laws of randomized code by enumeration of its random choices.

``enumerate_law(f)`` runs ``f(rng)`` once per possible sequence of random outcomes, where ``rng`` is a
``numpy.random.RandomState`` subclass whose draws branch, and returns the law of ``f``'s (hashable) result.
"""
import math
import operator
from collections import defaultdict

import numpy as np


class Unsupported(BaseException):
    """The code under test drew something that cannot be enumerated (BaseException: it must not be swallowed)."""


class TooManyPaths(Unsupported):
    pass


class Cut(BaseException):
    """Path abandoned (negligible probability or too long)."""


PMIN = 1e-13


class Ctl(object):
    """Decision sequence of one path."""

    def __init__(self, pick=None, max_depth=10 ** 6, min_prob=0.0):
        self.prefix = []
        self.reset()
        self.pick = pick          # None: depth first; else function(probs) -> index (random / forced walk)
        self.max_depth = max_depth
        self.min_prob = min_prob
        self.lost = 0.0

    def reset(self):
        self.pos, self.prob, self.trace = 0, 1.0, []

    def branch(self, probs):
        """probs: list of non-negative numbers summing to one; returns an index"""
        if len(self.trace) >= self.max_depth or self.prob < self.min_prob:
            self.lost += self.prob
            raise Cut()
        opts = [i for i, p in enumerate(probs) if p > PMIN]
        if not opts:
            raise ValueError("no option with positive probability")
        if self.pick is not None:
            i = self.pick(probs)
            self.trace.append((0, 1))
            self.prob *= probs[i]
            return i
        if self.pos < len(self.prefix):
            o = self.prefix[self.pos]
        else:
            o = 0
            self.prefix.append(0)
        self.pos += 1
        if o >= len(opts):
            raise RuntimeError("non-reproducible decision structure")
        self.trace.append((o, len(opts)))
        self.prob *= probs[opts[o]]
        return opts[o]

    def advance(self):
        """prepare next path; False when exhausted"""
        del self.prefix[len(self.trace):]
        while self.prefix:
            o, n = self.trace[len(self.prefix) - 1]
            if o + 1 < n:
                self.prefix[-1] = o + 1
                return True
            self.prefix.pop()
        return False


def _isnum(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_)) or (isinstance(x, np.ndarray) and x.ndim == 0)


class SymU(object):
    """f(u), u uniform on [lo, hi), f monotone; comparisons branch."""
    __slots__ = ("root", "f", "inv", "inc")

    class Root(object):
        __slots__ = ("ctl", "lo", "hi")

        def __init__(self, ctl):
            self.ctl, self.lo, self.hi = ctl, 0.0, 1.0

    def __init__(self, root, f=None, inv=None, inc=True):
        self.root, self.inc = root, inc
        self.f = f or (lambda u: u)
        self.inv = inv or (lambda y: y)

    def _cut(self, t):
        """truth of u < t, branching"""
        r = self.root
        if t <= r.lo:
            return False
        if t >= r.hi:
            return True
        p = (t - r.lo) / (r.hi - r.lo)
        if p <= 1e-12:
            return False
        if p >= 1 - 1e-12:
            return True
        if r.ctl.branch([p, 1 - p]) == 0:
            r.hi = t
            return True
        r.lo = t
        return False

    def _less(self, x):
        if isinstance(x, SymU):
            raise Unsupported("comparison of two symbolic uniforms")
        if not _isnum(x):
            raise Unsupported("comparison with %r" % type(x))
        x = float(x)
        if math.isnan(x):
            return None
        try:
            with np.errstate(all="ignore"):
                t = self.inv(x)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Unsupported("inverse")
        if isinstance(t, complex) or t != t:
            raise Unsupported("inverse domain")
        c = self._cut(t)
        return c if self.inc else (not c)

    def __lt__(self, x):
        if isinstance(x, np.ndarray) and x.ndim:
            return _elementwise(lambda y: self < y, x)
        r = self._less(x)
        return np.bool_(False if r is None else r)
    __le__ = __lt__

    def __gt__(self, x):
        if isinstance(x, np.ndarray) and x.ndim:
            return _elementwise(lambda y: self > y, x)
        r = self._less(x)
        return np.bool_(False if r is None else (not r))
    __ge__ = __gt__

    def __eq__(self, x):
        return np.bool_(False)

    def __ne__(self, x):
        return np.bool_(True)
    __hash__ = None

    def _map(self, g, ginv, inc):
        f, inv = self.f, self.inv
        return SymU(self.root, lambda u: g(f(u)), lambda y: inv(ginv(y)), self.inc == inc)

    def _c(self, c):
        if isinstance(c, SymU) or not _isnum(c):
            raise Unsupported("arithmetic with %r" % type(c))
        return float(c)

    def __add__(self, c):
        c = self._c(c)
        return self._map(lambda v: v + c, lambda y: y - c, True)
    __radd__ = __add__

    def __sub__(self, c):
        return self + (-self._c(c))

    def __rsub__(self, c):
        return (-self) + c

    def __neg__(self):
        return self._map(lambda v: -v, lambda y: -y, False)

    def __mul__(self, c):
        c = self._c(c)
        if c == 0:
            return 0.0
        return self._map(lambda v: v * c, lambda y: y / c, c > 0)
    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1.0 / self._c(c))

    def _log(self):
        return self._map(lambda v: math.log(v) if v > 0 else -math.inf,
                         lambda y: math.exp(y) if y < 700 else math.inf, True)

    def _exp(self):
        return self._map(math.exp, lambda y: math.log(y) if y > 0 else -math.inf, True)

    def _sqrt(self):
        return self._map(math.sqrt, lambda y: y * y if y > 0 else -1.0, True)

    def _range(self):
        a, b = self.f(self.root.lo), self.f(self.root.hi)
        return min(a, b), max(a, b)

    def _floor(self):
        lo, hi = self._range()
        k0, k1 = math.floor(lo), math.ceil(hi) - 1
        if k1 - k0 > 10000:
            raise Unsupported("floor range")
        if k1 <= k0:
            return k0
        # branch on the integer cell in one decision
        edges = [self.inv(float(k)) for k in range(k0 + 1, k1 + 1)]
        r = self.root
        e = [r.lo] + edges + [r.hi] if self.inc else [r.hi] + edges + [r.lo]
        p = [abs(e[i + 1] - e[i]) / (r.hi - r.lo) for i in range(len(e) - 1)]
        i = r.ctl.branch(p)
        r.lo, r.hi = min(e[i], e[i + 1]), max(e[i], e[i + 1])
        return k0 + i

    def __floor__(self):
        return self._floor()

    def __int__(self):
        lo, _ = self._range()
        if lo < 0:
            raise Unsupported("int of negative")
        return int(self._floor())
    __trunc__ = __int__

    def __floordiv__(self, c):
        return (self / c)._floor()

    def __float__(self):
        raise Unsupported("value of a uniform variable")

    def __bool__(self):
        return True

    def __array__(self, *a, **k):
        raise Unsupported("array conversion of a uniform variable")

    def __format__(self, *a):
        return "U"

    def __repr__(self):
        return "U"

    def astype(self, t):
        if np.issubdtype(t, np.integer):
            return int(self)
        if np.issubdtype(t, np.floating):
            return self
        raise Unsupported("astype")

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or kw.get("out") is not None:
            raise Unsupported("ufunc " + ufunc.__name__)
        return _ufunc(ufunc, inputs)

    def __array_function__(self, func, types, args, kw):
        if func is np.searchsorted:
            a, v = args[0], args[1]
            return v._bins(np.asarray(a, dtype=float))
        if func is np.log:
            return self._log()
        raise Unsupported("function " + getattr(func, "__name__", "?"))

    def _bins(self, a):
        """number of entries of sorted a that are <= value"""
        r = self.root
        t = [min(max(self.inv(float(y)), r.lo), r.hi) for y in a]
        if not self.inc:
            raise Unsupported("searchsorted of decreasing")
        e = [r.lo] + t + [r.hi]
        p = [max(e[i + 1] - e[i], 0) / (r.hi - r.lo) for i in range(len(e) - 1)]
        i = r.ctl.branch(p)
        r.lo, r.hi = e[i], e[i + 1]
        return i


_UF = {"less": operator.lt, "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
       "add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
       "divide": operator.truediv, "true_divide": operator.truediv}
_UF1 = {"log": SymU._log, "exp": SymU._exp, "sqrt": SymU._sqrt, "negative": SymU.__neg__, "floor": SymU._floor,
        "log1p": lambda s: (s + 1.0)._log(), "positive": lambda s: s}


def _scalar_op(name, *xs):
    if name in _UF1:
        return _UF1[name](xs[0]) if isinstance(xs[0], SymU) else getattr(np, name)(xs[0])
    a, b = xs
    if isinstance(a, SymU):
        return _UF[name](a, b)
    if isinstance(b, SymU):
        if name == "less":
            return b > a
        if name == "less_equal":
            return b >= a
        if name == "greater":
            return b < a
        if name == "greater_equal":
            return b <= a
        if name == "add":
            return b + a
        if name == "subtract":
            return (-b) + a
        if name == "multiply":
            return b * a
        raise Unsupported(name)
    return getattr(np, name)(a, b)


def _ufunc(ufunc, inputs):
    name = ufunc.__name__
    if name not in _UF and name not in _UF1:
        raise Unsupported("ufunc " + name)
    if not any(isinstance(x, UArr) or (isinstance(x, np.ndarray) and x.ndim) for x in inputs):
        return _scalar_op(name, *inputs)
    objs = []
    for x in inputs:
        if isinstance(x, UArr):
            objs.append(x.data)
        elif isinstance(x, SymU):
            o = np.empty((), dtype=object)
            o[()] = x
            objs.append(o)
        else:
            objs.append(np.asarray(x))
    bs = np.broadcast_arrays(*objs)
    res = [_scalar_op(name, *[b[i] for b in bs]) for i in np.ndindex(bs[0].shape)]
    if name in ("less", "less_equal", "greater", "greater_equal"):
        return np.array(res, dtype=bool).reshape(bs[0].shape)
    if any(isinstance(r, SymU) for r in res):
        d = np.empty(bs[0].shape, dtype=object)
        for i, r in zip(np.ndindex(d.shape), res):
            d[i] = r
        return UArr(d)
    return np.array(res).reshape(bs[0].shape)


def _elementwise(f, x):
    return np.array([f(y) for y in x.ravel()], dtype=bool).reshape(x.shape)


class UArr(object):
    """array of symbolic uniforms"""

    def __init__(self, data):
        self.data = data
    shape = property(lambda s: s.data.shape)
    size = property(lambda s: s.data.size)
    ndim = property(lambda s: s.data.ndim)
    dtype = np.dtype(float)

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        for i in range(len(self.data)):
            yield self[i]

    def __getitem__(self, i):
        r = self.data[i]
        return UArr(r) if isinstance(r, np.ndarray) else r

    def ravel(self):
        return UArr(self.data.ravel())
    flatten = ravel

    def reshape(self, *s):
        return UArr(self.data.reshape(*s))

    def tolist(self):
        return self.data.tolist()

    def copy(self):
        return UArr(self.data.copy())

    def __array__(self, *a, **k):
        raise Unsupported("array conversion of uniform variables")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or kw.get("out") is not None:
            raise Unsupported("ufunc " + ufunc.__name__)
        return _ufunc(ufunc, inputs)

    def __array_function__(self, func, types, args, kw):
        raise Unsupported("function " + getattr(func, "__name__", "?"))

    def __lt__(self, o): return _ufunc(np.less, (self, o))
    def __le__(self, o): return _ufunc(np.less_equal, (self, o))
    def __gt__(self, o): return _ufunc(np.greater, (self, o))
    def __ge__(self, o): return _ufunc(np.greater_equal, (self, o))
    def __add__(self, o): return _ufunc(np.add, (self, o))
    __radd__ = __add__
    def __sub__(self, o): return _ufunc(np.subtract, (self, o))
    def __rsub__(self, o): return _ufunc(np.subtract, (o, self))
    def __mul__(self, o): return _ufunc(np.multiply, (self, o))
    __rmul__ = __mul__
    def __truediv__(self, o): return _ufunc(np.divide, (self, o))
    def __neg__(self): return _ufunc(np.negative, (self,))


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


class BranchRNG(np.random.RandomState):

    def __init__(self, ctl, poisson_tail=None, multiset=False):
        super().__init__(0)
        self._ctl = ctl
        self._multiset = multiset
        self._poisson_tail = poisson_tail

    # -- uniforms
    def _u(self, shape):
        if shape is None or shape == ():
            return SymU(SymU.Root(self._ctl))
        d = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            d[i] = SymU(SymU.Root(self._ctl))
        return UArr(d)

    def rand(self, *shape):
        return self._u(tuple(int(s) for s in shape) if shape else None)

    def random_sample(self, size=None):
        return self._u(_shape(size))
    random = random_sample
    ranf = sample = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        if not (_isnum(low) and _isnum(high)):
            raise Unsupported("uniform with array bounds")
        u = self._u(_shape(size))
        if low == 0 and high == 1:
            return u
        return u * (high - low) + low

    # -- integers
    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            lo, hi = np.broadcast_arrays(low, high)
            return np.array([self.randint(int(a), int(b)) for a, b in zip(lo.ravel(), hi.ravel())]).reshape(lo.shape)
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError("low >= high")
        n = high - low
        if n > 10 ** 5:
            raise Unsupported("randint over a huge range")
        shape = _shape(size)
        if shape is None:
            return low + self._ctl.branch([1.0 / n] * n)
        k = int(np.prod(shape))
        return np.array([low + self._ctl.branch([1.0 / n] * n) for _ in range(k)], dtype=dtype).reshape(shape)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, int(high) + 1, size)

    def tomaxint(self, size=None):
        raise Unsupported("tomaxint")

    # -- choice, permutations
    def choice(self, a, size=None, replace=True, p=None):
        a_arr = np.array(a, copy=False)
        if a_arr.ndim == 0:
            try:
                n = operator.index(a_arr.item())
            except TypeError:
                raise ValueError("a must be 1-dimensional or an integer")
            items = None
        elif a_arr.ndim == 1:
            n, items = a_arr.shape[0], a_arr
        else:
            raise ValueError("a must be 1-dimensional")
        shape = _shape(size)
        k = 1 if shape is None else int(np.prod(shape))
        if n <= 0 and k > 0:
            raise ValueError("a must be greater than 0 unless no samples are taken" if items is None else "'a' cannot be empty unless no samples are taken")
        if p is not None:
            p = np.asarray(p, dtype=float)
            if p.ndim != 1:
                raise ValueError("'p' must be 1-dimensional")
            if p.size != n:
                raise ValueError("'a' and 'p' must have same size")
            if np.isnan(p).any():
                raise ValueError("probabilities contain NaN")
            if (p < 0).any():
                raise ValueError("probabilities are not non-negative")
            if abs(math.fsum(p) - 1.0) > math.sqrt(np.finfo(np.float64).eps):
                raise ValueError("probabilities do not sum to 1")
            p = list(p / p.sum())
        if replace or k == 1:
            q = p if p is not None else [1.0 / n] * n
            if self._multiset and k > 1 and items is None:
                # with-replacement draws enumerated up to order (returned sorted)
                cs, pr = _compositions(k, n), []
                lf = math.lgamma(k + 1)
                for c in cs:
                    v = lf
                    for ci, qi in zip(c, q):
                        if ci:
                            v += ci * math.log(qi) - math.lgamma(ci + 1) if qi > 0 else -math.inf
                    pr.append(math.exp(v))
                c = cs[self._ctl.branch(pr)]
                return np.repeat(np.arange(n), c).reshape(shape)
            idx = [self._ctl.branch(q) for _ in range(k)]
        else:
            if k > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            if p is not None:
                raise Unsupported("weighted choice without replacement")
            left, idx = list(range(n)), []
            for _ in range(k):
                idx.append(left.pop(self._ctl.branch([1.0 / len(left)] * len(left))))
        if shape is None:
            return items[idx[0]] if items is not None else idx[0]
        out = np.array(idx, dtype=int).reshape(shape)
        return items[out] if items is not None else out

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            arr = np.arange(x)
        else:
            arr = np.array(x)
        return arr[self.choice(len(arr), size=len(arr), replace=False)] if len(arr) else arr

    def shuffle(self, x):
        n = len(x)
        if n == 0:
            return
        idx = self.choice(n, size=n, replace=False)
        if isinstance(x, np.ndarray):
            x[:] = x[idx].copy()
        else:
            x[:] = [x[i] for i in idx]

    # -- counts
    def binomial(self, n, p, size=None):
        shape = _shape(size)
        if shape is None:
            shape = np.broadcast(np.asarray(n), np.asarray(p)).shape
        N, Pp = np.broadcast_to(np.asarray(n), shape), np.broadcast_to(np.asarray(p, dtype=float), shape)
        res = np.zeros(shape, dtype=int)
        for i in np.ndindex(shape):
            m, q = int(N[i]), float(Pp[i])
            if m < 0:
                raise ValueError("n < 0")
            if not 0 <= q <= 1:
                raise ValueError("p < 0, p > 1 or p is NaN")
            pr = [math.comb(m, j) * q ** j * (1 - q) ** (m - j) for j in range(m + 1)]
            res[i] = self._ctl.branch(pr)
        return int(res) if shape == () else res

    def poisson(self, lam=1.0, size=None):
        if self._poisson_tail is None:
            raise Unsupported("poisson")
        from scipy.stats import poisson as P
        shape = _shape(size)
        if shape is None:
            shape = np.shape(lam)
        L = np.broadcast_to(np.asarray(lam, dtype=float), shape)
        res = np.zeros(shape, dtype=int)
        for i in np.ndindex(shape):
            l = float(L[i])
            kmax = int(P.isf(self._poisson_tail, l)) + 1 if l > 0 else 0
            pr = list(P.pmf(np.arange(kmax + 1), l))
            pr[-1] += max(0.0, 1 - sum(pr))
            res[i] = self._ctl.branch(pr)
        return int(res) if shape == () else res

    def multinomial(self, n, pvals, size=None):
        raise Unsupported("multinomial")


_COMP = {}


def _compositions(k, n):
    if (k, n) not in _COMP:
        if n == 1:
            r = [(k,)]
        else:
            r = [(i,) + t for i in range(k + 1) for t in _compositions(k - i, n - 1)]
        _COMP[k, n] = r
    return _COMP[k, n]


def _unsup(name):
    def f(self, *a, **k):
        raise Unsupported(name)
    return f


for _n in ("randn standard_normal normal gamma standard_gamma beta exponential standard_exponential chisquare "
           "multivariate_normal bytes dirichlet f geometric gumbel hypergeometric laplace logistic lognormal logseries "
           "negative_binomial noncentral_chisquare noncentral_f pareto power rayleigh standard_cauchy standard_t triangular "
           "vonmises wald weibull zipf seed get_state set_state").split():
    setattr(BranchRNG, _n, _unsup(_n))


def enumerate_law(f, max_paths=20000, poisson_tail=None, max_depth=10 ** 6, min_prob=0.0, multiset=False):
    """-> (law: dict outcome -> probability, paths, lost probability).

    Exceptions raised by f become outcomes ('EXC', type name, message).
    """
    ctl = Ctl(max_depth=max_depth, min_prob=min_prob)
    law, n = defaultdict(float), 0
    while True:
        ctl.reset()
        try:
            out = f(BranchRNG(ctl, poisson_tail, multiset))
            law[out] += ctl.prob
        except Cut:
            pass
        except Exception as e:  # noqa
            law[("EXC", type(e).__name__, str(e)[:200])] += ctl.prob
        n += 1
        if not ctl.advance():
            break
        if n >= max_paths:
            raise TooManyPaths("more than %d paths" % max_paths)
    return dict(law), n, ctl.lost


def walk(f, pick):
    """one path with decisions by pick(probs); -> (result, probability of the path)"""
    ctl = Ctl(pick=pick)
    out = f(BranchRNG(ctl))
    return out, ctl.prob


class HybridRNG(BranchRNG):
    """a generator whose first `left` calls are drawn with a seed, and the following ones branch; calls are logged"""

    def __init__(self, ctl, seed, left):
        BranchRNG.__init__(self, ctl)
        self.real, self.left, self.log = np.random.RandomState(seed), left, []


def _hybrid(name):
    def f(self, *a, **k):
        if len(self.log) < self.left:
            self.log.append((name, repr([np.asarray(x).tolist() if isinstance(x, (np.ndarray, range, list)) else x for x in a]), repr(sorted((u, np.asarray(v).tolist() if isinstance(v, np.ndarray) else v) for u, v in k.items()))))
            return getattr(self.real, name)(*a, **k)
        return getattr(BranchRNG, name)(self, *a, **k)
    return f


for _n in ("rand", "random_sample", "uniform", "randint", "random_integers", "tomaxint", "choice", "permutation", "shuffle", "binomial", "poisson", "multinomial", "randn", "normal", "standard_normal",
           "gamma", "beta", "exponential"):
    setattr(HybridRNG, _n, _hybrid(_n))


def record(f, seed):
    """-> (result, log of the calls) of f run with a seeded generator"""
    g = HybridRNG(Ctl(), seed, 10 ** 9)
    return f(g), g.log


def tail_law(f, seed, left, max_paths=20000):
    """law of the result of f when the first `left` calls to the generator are those of a seed"""
    return enumerate_law(lambda g: f(HybridRNG(g._ctl, seed, left)), max_paths=max_paths)
