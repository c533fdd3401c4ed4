"""P17: the Robinson-Schensted-Knuth correspondence."""
import bisect
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gens
from pbt.core import Facet, Violation, sut

RULE = "A case is a permutation or a word of numbers; it is non-trivial when insertion bumps at least one entry."
ASSUMPTIONS = ["Permutations exhaustively up to 6 items (thorough: 7), randomly up to 300; words with repeated integers or floats, random shapes of "
               "sequences (increasing, decreasing, blocks)."]


def tableau(T, what):
    T = [list(r) for r in T]
    if any(len(a) < len(b) for a, b in zip(T, T[1:])) or any(not r for r in T):
        raise Violation("%s: rows of lengths %r" % (what, [len(r) for r in T]))
    return T


def standard(T, n, what):
    if sorted(x for r in T for x in r) != list(range(1, n + 1)):
        raise Violation("%s: entries are not 1..%d each once: %r" % (what, n, T))
    semistandard(T, what, strict=True)


def semistandard(T, what, strict=False):
    for r in T:
        for a, b in zip(r, r[1:]):
            if not (a < b if strict else a <= b):
                raise Violation("%s: row %r is not increasing" % (what, r))
    for r, s in zip(T, T[1:]):
        for a, b in zip(r, s):
            if not a < b:
                raise Violation("%s: a column has %r above %r" % (what, a, b))


def reverse(P, Q, what):
    P, Q = [list(r) for r in P], [list(r) for r in Q]
    out = []
    for it in range(sum(map(len, Q)), 0, -1):
        row = next((i for i, r in enumerate(Q) if r and r[-1] == it), None)
        if row is None:
            raise Violation("%s: recording entry %d is not at the end of a row" % (what, it))
        Q[row].pop()
        x = P[row].pop()
        for i in range(row - 1, -1, -1):
            # rightmost entry strictly smaller than x
            j = bisect.bisect_left(P[i], x) - 1
            if j < 0:
                raise Violation("%s: the pair of tableaux is not the image of any sequence" % what)
            x, P[i][j] = P[i][j], x

        out.append(x)
    return out[::-1]


def longest(seq, weak):
    """longest weakly / strictly increasing subsequence (patience sorting)"""
    t = []
    for x in seq:
        i = (bisect.bisect_right if weak else bisect.bisect_left)(t, x)
        if i == len(t):
            t.append(x)
        else:
            t[i] = x
    return len(t)


def greene2(seq):
    """largest union of two weakly increasing subsequences (small sequences)"""
    best = {(None, None): 0}
    for x in seq:
        new = dict(best)
        for (a, b), v in best.items():
            if a is None or x >= a:
                k = (x, b)
                new[k] = max(new.get(k, 0), v + 1)
            if b is None or x >= b:
                k = (a, x)
                new[k] = max(new.get(k, 0), v + 1)
        best = new
    return max(best.values())


def check(seq, perm, what):
    from dppy.exotic_dpps_core import RSK
    ref = [x.item() if hasattr(x, "item") else x for x in seq]
    n = len(ref)
    with sut(what):
        out = RSK(seq)
    if not (isinstance(out, tuple) and len(out) == 2):
        raise Violation("%s does not return two tableaux" % what)
    now = [x.item() if hasattr(x, "item") else x for x in seq]
    if now != ref:
        raise Violation("%s modified its argument" % what)
    P, Q = tableau(out[0], what + ", P"), tableau(out[1], what + ", Q")
    shape = [len(r) for r in P]
    if shape != [len(r) for r in Q]:
        raise Violation("%s: shapes %r and %r" % (what, shape, [len(r) for r in Q]))
    if sorted(x for r in P for x in r) != sorted(ref):
        raise Violation("%s: P does not have the letters of the sequence" % what)
    semistandard(P, what + ", P", strict=perm)
    standard(Q, n, what + ", Q")
    if reverse(P, Q, what) != ref:
        raise Violation("%s: reverse insertion gives %r" % (what, reverse(P, Q, what)))
    if n:
        if shape[0] != longest(ref, True):
            raise Violation("%s: first row of length %d, longest increasing subsequence %d" % (what, shape[0], longest(ref, True)))
        if len(shape) != longest([-x for x in ref], False):
            raise Violation("%s: first column of length %d, longest decreasing subsequence %d" % (what, len(shape), longest([-x for x in ref], False)))
    if perm and n <= 60:
        inv = [0] * n
        rank = {v: i for i, v in enumerate(sorted(ref))}
        for i, x in enumerate(ref):
            inv[rank[x]] = i + 1
        with sut(what + " (inverse)"):
            P2, Q2 = RSK(inv)
        std = [[rank[x] + 1 for x in r] for r in P]
        if [list(r) for r in P2] != Q or [list(r) for r in Q2] != std:
            raise Violation("%s: the inverse permutation does not swap the tableaux" % what)
    if n <= 12 and n:
        s2 = sum(shape[:2])
        if greene2(ref) != s2:
            raise Violation("%s: two first rows hold %d entries, two disjoint increasing subsequences %d" % (what, s2, greene2(ref)))
    return shape


@st.composite
def exhaustive(draw):
    return {"n": draw(st.integers(0, 6))}


def run_all(c):
    n = c["n"]
    seen = set()
    from dppy.exotic_dpps_core import RSK
    for s in itertools.permutations(range(n)):
        check(list(s), True, "RSK(%r)" % (list(s),))
        P, Q = RSK(list(s))
        seen.add((tuple(map(tuple, P)), tuple(map(tuple, Q))))
    import math
    if len(seen) != math.factorial(n):
        raise Violation("RSK maps the %d permutations of %d to %d pairs" % (math.factorial(n), n, len(seen)))
    return {"nontrivial": n > 1, "execs": 3 * math.factorial(n), "tag": n}


@st.composite
def perm_case(draw):
    return {"n": draw(st.one_of(st.integers(0, 12), st.integers(10, 60), st.integers(60, 300))), "seed": draw(gens.seeds()),
            "kind": draw(st.sampled_from(["uniform", "uniform", "nearly sorted", "nearly reversed", "blocks", "riffle"])),
            "type": draw(st.sampled_from(["array", "list", "tuple", "from1", "float", "close", "large"]))}


def build_perm(c):
    n, rng = c["n"], np.random.RandomState(c["seed"])
    s = np.arange(n)
    k = c["kind"]
    if k == "uniform":
        s = rng.permutation(n)
    elif k in ("nearly sorted", "nearly reversed"):
        for _ in range(3):
            if n:
                i, j = rng.randint(n, size=2)
                s[i], s[j] = s[j], s[i]
        if k == "nearly reversed":
            s = s[::-1].copy()
    elif k == "blocks":
        m = max(1, int(np.sqrt(n)))
        s = np.concatenate([s[i:i + m][::-1] for i in range(0, n, m)]) if n else s
    else:
        m = rng.binomial(n, 0.5)
        a = np.zeros(n, bool)
        a[rng.permutation(n)[:m]] = True
        t = np.empty(n, int)
        t[a], t[~a] = np.arange(m), np.arange(m, n)
        s = t
    return {"array": s, "list": s.tolist(), "tuple": tuple(s.tolist()), "from1": (s + 1), "float": (s * 0.5 - 3), "close": 1.0 + s * 2.0 ** -50, "large": [2 ** 53 + int(x) for x in s]}[c["type"]]


def run_perm(c):
    s = build_perm(c)
    sh = check(s, True, "RSK(%s permutation of %d items%s)" % (c["kind"], c["n"], ": %r" % (list(s),) if c["n"] <= 12 else ""))
    return {"nontrivial": len(sh) > 1, "execs": 2, "tag": c["kind"]}


def word_case():
    elt = st.one_of(st.integers(0, 1), st.integers(0, 3), st.integers(-3, 9))
    return st.fixed_dictionaries({"w": st.one_of(st.lists(elt, max_size=14), st.lists(st.integers(0, 2), max_size=40),
                                                 st.lists(st.integers(-5, 20), min_size=10, max_size=80)),
                                  "type": st.sampled_from(["list", "array", "float", "close", "large"])})


def run_word(c):
    w = c["w"]
    w = {"list": w, "array": np.array(w, int), "float": [x / 4.0 for x in w], "close": [1.0 + x * 2.0 ** -50 for x in w], "large": [10 ** 17 + x for x in w]}[c["type"]]
    sh = check(w, False, "RSK(%r)" % (list(c["w"]),))
    return {"nontrivial": len(sh) > 1 and len(set(c["w"])) < len(c["w"]), "execs": 1, "tag": c["type"]}


FACETS = [
    Facet("all permutations", exhaustive, run_all, 30, 60, "every permutation of n <= 6 items, bijectivity"),
    Facet("permutations", perm_case, run_perm, 2500, 40000, "structured and uniform permutations"),
    Facet("words", word_case, run_word, 3000, 60000, "words with repeated letters"),
]
