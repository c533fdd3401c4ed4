"""P08: the MCMC chains leave their target invariant; exact transition probabilities."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gens, laws
from pbt.branch import Unsupported, enumerate_law, record, tail_law
from pbt.core import Facet, Violation, derive, sut
from pbt.stats import check_mean

RULE = ("A case is a likelihood kernel (or projection correlation kernel for exchanges), a chain type and, where relevant, a size; the transition "
        "probabilities out of the states are enumerated exactly. It is non-trivial when at least two states have positive probability.")
ASSUMPTIONS = ["Ground sets of at most 5 points for complete transition matrices (4 for two consecutive steps), at most 9 for the inflow into one state by complete enumeration and 16 by minors alone.",
               "States whose determinant lies between rounding noise and 1e-9 of the largest one of the same size make a case undecided (counted as trivial).",
               "Exact stationarity is decided with an absolute tolerance of 1e-8 on probabilities.",
               "Above 16 points detailed balance between neighbouring states is sufficient; where it fails the inflow decides. Runs of many iterations: one call against single "
               "iterations with the same draws, otherwise the law of the last iterations given the first ones, otherwise occupation statistics."]


@st.composite
def kern_case(draw, nmin, nmax):
    N = draw(gens.sizes(nmin, nmax))
    c = {"N": N, "seed": draw(gens.seeds()), "basis": draw(st.sampled_from(gens.BASES)), "mode": draw(st.sampled_from(["AED", "AD", "E", "Ek", "Eproj"])),
         "via": draw(st.sampled_from(["object", "direct"])), "tmax": draw(st.sampled_from([None, None, 1e6])), "scale": draw(st.sampled_from([1.0, 1.0, 0.05, 30.0, 1e-3]))}
    e = st.one_of(st.sampled_from([0.0, 1.0, 0.1, 10.0, 3.0]), st.floats(0.05, 20).map(lambda x: round(x, 3)))
    if draw(st.booleans()):
        e = st.floats(0.05, 20).map(lambda x: round(x, 3))
    if c["mode"] == "Eproj":
        c["r"] = draw(st.integers(1, N))
        c["param"] = draw(st.sampled_from(["K", "K_eig_dec", "K_eig_thin", "A_zono"]))
    else:
        c["eig"] = draw(st.lists(e, min_size=N, max_size=N))
        c["param"] = draw(st.sampled_from(["L", "L", "L_eig_dec", "K", "K_eig_dec", "L_gram_factor"]))
        c["k"] = draw(st.one_of(st.integers(min(1, N), max(1, N - 1)), st.integers(0, N)))
    return c


def setup(c):
    """-> (factory of the run function, kernel M whose minors give the target, list of possible states)"""
    N = c["N"]
    if c["mode"] == "Eproj":
        kt, pr, params, M = gens.build_projection(dict(c))
        mk = lambda: gens.make_dpp((kt, pr, params))
        sizes = [c["r"]]
    else:
        e = np.array(c["eig"]) * c["scale"]
        Q = gens.orth(N, c["basis"], c["seed"])
        M = gens.sym((Q * e).dot(Q.T))
        p = c["param"]
        if p == "L":
            b = ("likelihood", False, {"L": M.copy()})
        elif p == "L_eig_dec":
            b = ("likelihood", False, {"L_eig_dec": (e, Q)})
        elif p == "L_gram_factor":
            b = ("likelihood", False, {"L_gram_factor": (Q * np.sqrt(e)).T.copy()})
        elif p == "K":
            b = ("correlation", False, {"K": gens.sym((Q * (e / (1 + e))).dot(Q.T))})
        else:
            b = ("correlation", False, {"K_eig_dec": (e / (1 + e), Q)})
        mk = lambda: gens.make_dpp(b)
        sizes = range(N + 1) if c["mode"] in ("AED", "AD") else [c["k"]]
    states = [S for k in sizes for S in itertools.combinations(range(N), k)] if N <= 9 else None
    kw = {} if c["tmax"] is None else {"T_max": c["tmax"]}
    from dppy.mcmc_sampling import dpp_sampler_mcmc

    def run(S, n, rng, dpp=None):
        """chain of n states started at S"""
        S = list(S)
        if c["via"] == "direct":
            return dpp_sampler_mcmc(M, mode=c["mode"][0] if c["mode"][0] == "E" else c["mode"], s_init=list(S), nb_iter=n, size=len(S), random_state=rng, **kw)
        if c["mode"] == "Ek":
            dpp.sample_mcmc_k_dpp(size=len(S), s_init=list(S), nb_iter=n, random_state=rng, **kw)
        else:
            dpp.sample_mcmc("E" if c["mode"][0] == "E" else c["mode"], s_init=list(S), nb_iter=n, size=len(S), random_state=rng, **kw)
        return dpp.list_of_samples[-1]
    return mk, run, M, states


def weights(M, states):
    """unnormalized target; None when a minor is too close to zero to decide"""
    d = {}
    diag = np.maximum(np.abs(np.diag(M)), 1e-300)
    big = {}
    for S in states:
        v = float(np.linalg.det(M[np.ix_(S, S)])) if S else 1.0
        big[len(S)] = max(big.get(len(S), 0), v)
        d[S] = v
    for S in states:
        had = float(np.prod(diag[list(S)])) if S else 1.0
        if d[S] < 1e-12 * max(had, 1e-280) or d[S] <= 1e-13 * big[len(S)]:
            d[S] = 0.0
        elif d[S] < 1e-9 * max(had, big[len(S)]):
            return None
    Z = sum(d.values())
    if Z <= 0:
        return None
    return {S: v / Z for S, v in d.items()}


def row(c, mk, run, N, S, n=2, max_paths=60000):
    dpp = mk() if c["via"] == "object" else None

    def f(rng):
        try:
            ch = run(S, n, rng, dpp)
            out = tuple(laws.as_set(x, N, "state") for x in ch)
        except Violation as v:
            return ("BAD", v.msg)
        if len(out) != n or out[0] != tuple(sorted(S)):
            return ("BAD", "chain %r" % (out,))
        return out[1:]
    law, m, _ = enumerate_law(f, max_paths=max_paths)
    for k in law:
        if len(k) and k[0] in ("EXC", "BAD"):
            raise Violation("%s chain from %r: %r" % (c["mode"], S, k))
    return law, m


def run_matrix(c):
    with sut("building the DPP"):
        mk, run, M, states = setup(c)
        mk()
    N = c["N"]
    pi = weights(M, states)
    if pi is None:
        return {"nontrivial": False, "execs": 0, "tag": "undecided"}
    pos = [S for S in states if pi[S] > 0]
    P, ex = {}, 0
    for S in pos:
        law, m = row(c, mk, run, N, S)
        ex += m
        P[S] = {k[0]: p for k, p in law.items()}
        for T, p in P[S].items():
            if T not in pi:
                raise Violation("%s chain: state %r reached from %r has an impossible size" % (c["mode"], T, S))
            if pi[T] == 0 and p > 1e-7:
                raise Violation("%s chain goes from %r to %r, which has probability zero, with probability %.3g" % (c["mode"], S, T, p))
            if len(set(S) ^ set(T)) > (2 if c["mode"] in ("AED", "E", "Ek", "Eproj") else 1):
                raise Violation("%s chain jumps from %r to %r" % (c["mode"], S, T))
    flow = {}
    for S in pos:
        for T, p in P[S].items():
            flow[T] = flow.get(T, 0.0) + pi[S] * p
    bad = max(pos, key=lambda S: abs(flow.get(S, 0.0) - pi[S]))
    if not abs(flow.get(bad, 0.0) - pi[bad]) <= 1e-8:
        raise Violation("%s chain does not preserve its target: state %r has probability %.9g, and %.9g after one iteration" % (c["mode"], bad, pi[bad], flow.get(bad, 0)))
    # reachability
    full = c["mode"] in ("AED", "AD") and min(c["eig"]) > 0 or c["mode"] == "Eproj" or c["mode"] in ("E", "Ek")
    if full and len(pos) > 1:
        seen, todo = {pos[0]}, [pos[0]]
        while todo:
            S = todo.pop()
            for T, p in P[S].items():
                if p > 1e-12 and T not in seen and pi[T] > 0:
                    seen.add(T)
                    todo.append(T)
        if len(seen) < len(pos):
            miss = [S for S in pos if S not in seen][:3]
            raise Violation("%s chain cannot reach %r from %r" % (c["mode"], miss, pos[0]))
        # from every state one can come back (out-degree > 0 suffices with stationarity)
        if any(sum(p for T, p in P[S].items() if T != S) <= 1e-13 for S in pos):
            S = [S for S in pos if sum(p for T, p in P[S].items() if T != S) <= 1e-13][0]
            raise Violation("%s chain never leaves %r" % (c["mode"], S))
    return {"nontrivial": len(pos) > 1, "execs": ex, "tag": c["mode"] + "/" + c["via"]}


# ---- several steps in one call are products of single steps (no stale state)
def run_steps(c):
    with sut("building the DPP"):
        mk, run, M, states = setup(c)
    N = c["N"]
    pi = weights(M, states)
    if pi is None:
        return {"nontrivial": False, "execs": 0, "tag": "undecided"}
    pos = [S for S in states if pi[S] > 0]
    n = 4 if N <= 2 else 3
    rng = np.random.RandomState(c["seed"])
    starts = [pos[i] for i in rng.permutation(len(pos))[:2]]
    one, ex = {}, 0
    for S0 in starts:
        law, m = row(c, mk, run, N, S0, n)
        ex += m
        for tr, p in law.items():
            q, cur = 1.0, S0
            for T in tr:
                if cur not in one:
                    if cur not in pi or pi[cur] == 0:
                        q = 0.0
                        break
                    o, mm = row(c, mk, run, N, cur)
                    one[cur] = {k[0]: v for k, v in o.items()}
                    ex += mm
                q *= one[cur].get(T, 0.0)
                cur = T
            if not abs(p - q) <= 1e-8:
                raise Violation("%s chain: trajectory %r has probability %.9g in one call, %.9g as a product of single steps" % (c["mode"], (S0,) + tr, p, q))
    return {"nontrivial": len(pos) > 1, "execs": ex, "tag": c["mode"]}


# ---- larger ground sets: probability flowing into one state
@st.composite
def flow_case(draw):
    c = draw(kern_case(6, 9))
    c["pick"] = draw(st.integers(0, 10 ** 6))
    return c


def run_flow(c):
    with sut("building the DPP"):
        mk, run, M, states = setup(c)
    N = c["N"]
    pi = weights(M, states)
    if pi is None:
        return {"nontrivial": False, "execs": 0, "tag": "undecided"}
    pos = [S for S in states if pi[S] > 0]
    T = pos[c["pick"] % len(pos)]
    nb = [S for S in pos if len(set(S) ^ set(T)) <= 2]
    tot, ex = 0.0, 0
    scale = pi[T]
    for S in nb:
        law, m = row(c, mk, run, N, S)
        ex += m
        tot += pi[S] / scale * law.get((T,), 0.0)
    if not abs(tot - 1) <= 1e-6:
        raise Violation("%s chain: the probability flowing into %r is %.9g times its target probability" % (c["mode"], T, tot))
    return {"nontrivial": len(nb) > 1, "execs": ex, "tag": c["mode"]}


# ---- many points, large states: well conditioned kernels, states given by their minors only
@st.composite
def many_case(draw, nmin, nmax):
    N = draw(st.integers(nmin, nmax))
    c = {"N": N, "seed": draw(gens.seeds()), "basis": draw(st.sampled_from(["haar", "haar", "givens", "block"])), "mode": draw(st.sampled_from(["AED", "AD", "E", "Ek", "Eproj"])),
         "via": draw(st.sampled_from(["object", "direct"])), "tmax": None, "scale": draw(st.sampled_from([1.0, 1.0, 0.05, 30.0, 1e-3]))}
    if c["mode"] == "Eproj":
        c["r"] = draw(st.integers(2, N - 1))
        c["param"] = draw(st.sampled_from(["K", "K_eig_dec", "A_zono"]))
        c["k"] = c["r"]
    else:
        c["eig"] = draw(st.lists(st.floats(0.2, 5).map(lambda x: round(x, 3)), min_size=N, max_size=N))
        c["param"] = draw(st.sampled_from(["L", "L_eig_dec", "K", "L_gram_factor"]))
        c["k"] = draw(st.sampled_from([N - 1, N - 2, 1, 2])) if draw(st.integers(0, 2)) == 0 else draw(st.integers(0 if c["mode"] in ("AED", "AD") else 1, N if c["mode"] in ("AED", "AD") else N - 1))
    c["pick"] = draw(gens.seeds())
    return c


def logdet(M, S):
    if not len(S):
        return 0.0
    s, v = np.linalg.slogdet(M[np.ix_(S, S)])
    return v if s > 0 else -np.inf


def good_state(c, M):
    """a state of the requested size with a minor that is not small for its size (greedy choice), or None"""
    import scipy.linalg as la
    rng, N, k = np.random.RandomState(c["pick"]), c["N"], c["k"]
    if c["mode"] == "Eproj":             # many sets have no mass at all: pivoted QR of randomly rescaled columns
        d = 0.3 + rng.rand(N)
        best = tuple(sorted(la.qr(M * d, pivoting=True, mode="r")[1][:k].tolist()))
    else:
        best = max((tuple(sorted(rng.permutation(N)[:k].tolist())) for _ in range(20)), key=lambda S: logdet(M, list(S)))
    if k and np.linalg.cond(M[np.ix_(best, best)]) > 1e5:
        return None
    return best


def neighbours(c, T):
    N, out = c["N"], [T]
    rest = [i for i in range(N) if i not in T]
    if c["mode"] in ("AED", "AD"):
        out += [tuple(sorted(T + (i,))) for i in rest] + [tuple(j for j in T if j != i) for i in T]
    if c["mode"] != "AD":
        out += [tuple(sorted(tuple(j for j in T if j != i) + (t,))) for i in T for t in rest]
    return out


def run_many(c):
    with sut("building the DPP"):
        mk, run, M, _ = setup(c)
    T = good_state(c, M)
    if T is None:
        return {"nontrivial": False, "execs": 0, "tag": "undecided"}
    return run_inflow(c, M, mk, run, T)


def run_inflow(c, M, mk, run, T):
    ref, tot, ex, used, moved = logdet(M, list(T)), 0.0, 0, 0, set()
    for S in neighbours(c, T):
        lr = logdet(M, list(S)) - ref
        if not lr > -25:           # cannot contribute: transitions out of states without mass are not followed
            continue
        law, m = row(c, mk, run, c["N"], S)
        ex += m
        used += 1
        bad = [k[0] for k in law if len(set(k[0]) ^ set(S)) > (1 if c["mode"] == "AD" else 2)]
        if bad:
            raise Violation("%s chain jumps from %r to %r" % (c["mode"], S, bad[0]))
        tot += np.exp(lr) * law.get((T,), 0.0)
        for k in law:
            moved |= set(k[0]) ^ set(S)
    if used > 1 and c["mode"] != "Eproj" and len(moved) < c["N"]:     # positive definite kernel: every point enters or leaves
        raise Violation("%s chain on %d points: no transition out of the %d states around %r changes the membership of %r, though every state has positive probability"
                        % (c["mode"], c["N"], used, T, sorted(set(range(c["N"])) - moved)))
    if not abs(tot - 1) <= 1e-5:
        raise Violation("%s chain on %d points: the probability flowing into %r is %.9g times its target probability" % (c["mode"], c["N"], T, tot))
    return {"nontrivial": used > 1, "execs": ex, "tag": "%s/size %d" % (c["mode"], len(T)), "note": {"neighbours": used}}


def run_many_steps(c):
    with sut("building the DPP"):
        mk, run, M, _ = setup(c)
    N = c["N"]
    if c["k"] * (N - c["k"]) > 16:       # few paths: states that are small or nearly everything
        return {"nontrivial": False, "execs": 0, "tag": "not followed"}
    S0 = good_state(c, M)
    if S0 is None:
        return {"nontrivial": False, "execs": 0, "tag": "undecided"}
    two, ex = row(c, mk, run, N, S0, 3, 400000)
    one = {}
    for tr, p in sorted(two.items()):
        q, cur = 1.0, S0
        for T in tr:
            if cur not in one:
                law, m = row(c, mk, run, N, cur)
                ex += m
                one[cur] = {k[0]: v for k, v in law.items()}
            q *= one[cur].get(T, 0.0)
            cur = T
        if not abs(p - q) <= 1e-8 and not abs(p - q) <= 1e-6 * max(p, q):
            raise Violation("%s chain: trajectory %r has probability %.9g in one call, %.9g as a product of single steps" % (c["mode"], (S0,) + tr, p, q))
    return {"nontrivial": len(two) > 1, "execs": ex, "tag": "%s/size %d" % (c["mode"], len(S0))}


# ---- tens of points: detailed balance of a state and some neighbours, which implies the invariance; a chain without it is judged on the inflow
@st.composite
def balance_case(draw):
    c = draw(many_case(17, 30))
    c["nb"] = draw(gens.seeds())
    return c


def run_balance(c):
    with sut("building the DPP"):
        mk, run, M, _ = setup(c)
    T = good_state(c, M)
    if T is None:
        return {"nontrivial": False, "execs": 0, "tag": "undecided"}
    ref = logdet(M, list(T))
    out, ex = row(c, mk, run, c["N"], T, max_paths=200000)
    bad = [k[0] for k in out if len(set(k[0]) ^ set(T)) > (1 if c["mode"] == "AD" else 2)]
    if bad:
        raise Violation("%s chain jumps from %r to %r" % (c["mode"], T, bad[0]))
    nb = [S for S in neighbours(c, T)[1:] if logdet(M, list(S)) - ref > -12]
    rng = np.random.RandomState(c["nb"])
    kinds = {}
    for S in nb:
        kinds.setdefault(len(S) - len(T), []).append(S)
    pick = [v[i] for v in kinds.values() for i in rng.permutation(len(v))[:3]]
    for S in pick:
        lr = logdet(M, list(S)) - ref
        back, m = row(c, mk, run, c["N"], S, max_paths=200000)
        ex += m
        u, v = out.get((S,), 0.0), np.exp(lr) * back.get((T,), 0.0)
        if not abs(u - v) <= 1e-6 * max(u, v) + 1e-12:
            r = run_many(c)
            return dict(r, tag="inflow " + r["tag"])
    if c["mode"] == "AD":                # states of every size
        chain = [T[:j] for j in range(len(T))] + [T + tuple(j for j in range(c["N"]) if j not in T)[:m] for m in range(c["N"] - len(T) + 1)]
        rows = []
        for S in chain:
            S = tuple(sorted(S))
            law, m = row(c, mk, run, c["N"], S, max_paths=200000)
            ex += m
            if rows:
                R, other = rows[-1]
                lr = logdet(M, list(S)) - logdet(M, list(R))
                u, v = other.get((S,), 0.0), np.exp(lr) * law.get((R,), 0.0)
                if abs(lr) < 12 and not abs(u - v) <= 1e-6 * max(u, v) + 1e-12:
                    r = run_inflow(c, M, mk, run, R)
                    return dict(r, tag="inflow " + r["tag"])
            rows.append((S, law))
    if len(T) not in (0, c["N"]) and nb and not any(out.get((S,), 0.0) > 0 for S in nb):
        raise Violation("%s chain never leaves %r, though neighbours have positive probability" % (c["mode"], T))
    return {"nontrivial": bool(pick), "execs": ex, "tag": c["mode"]}


# ---- long runs
@st.composite
def long_case(draw):
    c = draw(many_case(4, 30))
    c["n"] = draw(st.integers(12, 150))
    if c["mode"] in ("AED", "AD"):
        c["eig"] = [e if e != 1 else 1.1 for e in c["eig"]]
        c["scale"] = 1.0
    return c


def ref_sample(c, M, rng):
    """exact sample of the target, by the conditional probabilities of the points taken in turn or by the chain rule"""
    N = c["N"]
    if c["mode"] in ("AED", "AD"):
        A = M.dot(np.linalg.inv(np.eye(N) + M))
        S = []
        for j in range(N):
            if rng.rand() < A[j, j]:
                S.append(j)
            else:
                A[j, j] -= 1
            A[j + 1:, j + 1:] -= np.outer(A[j + 1:, j], A[j, j + 1:]) / A[j, j]
        return S
    e, V = np.linalg.eigh(M)
    if c["mode"] == "Eproj":
        V = V[:, e > 0.5]
    else:
        k, sel = c["k"], []
        E = np.zeros((k + 1, N + 1))
        E[0] = 1
        for n in range(1, N + 1):
            E[1:, n] = E[1:, n - 1] + e[n - 1] * E[:-1, n - 1]
        for n in range(N, 0, -1):
            if k and rng.rand() * E[k, n] < e[n - 1] * E[k - 1, n - 1]:
                sel.append(n - 1)
                k -= 1
        V = V[:, sel]
    S = []
    V = V.copy()
    for _ in range(V.shape[1]):
        p = (V ** 2).sum(1)
        p[S] = 0
        i = int(rng.choice(N, p=p / p.sum()))
        S.append(i)
        j = int(np.argmax(np.abs(V[i])))
        V = np.delete(V - np.outer(V[:, j], V[i] / V[i, j]), j, 1)
        if V.shape[1]:
            V = np.linalg.qr(V)[0]
    return S


def run_long(c):
    with sut("building the DPP"):
        mk, run, M, _ = setup(c)
    N, n = c["N"], c["n"]
    T = good_state(c, M)
    if T is None:
        return {"nontrivial": False, "execs": 0, "tag": "undecided"}
    dpp = mk() if c["via"] == "object" else None
    with sut("%s chain of %d states" % (c["mode"], n)):
        long = run(T, n, np.random.RandomState(c["pick"]), dpp)
        rs = np.random.RandomState(c["pick"])
        one = [list(T)]
        for _ in range(n - 1):
            one.append(run(one[-1], 2, rs, dpp)[1])
    a = [laws.as_set(s, N, "state") for s in long]
    b = [laws.as_set(s, N, "state") for s in one]
    moves = len(set(b))
    if len(a) == len(b) and all(x == y for x, y in zip(a, b)):
        return {"nontrivial": moves > 3, "execs": n, "tag": c["mode"]}
    # the first state that differs: law of this state given the draws of the earlier iterations, against the law of a single iteration
    i = [j for j in range(min(len(a), len(b))) if a[j] != b[j]]
    if i and i[0] > 1:
        i = i[0]
        _, pre = record(lambda g: run(T, i, g, dpp), c["pick"])
        ch, full = record(lambda g: run(T, i + 1, g, dpp), c["pick"])
        if full[:len(pre)] == pre and laws.as_set(ch[i - 1], N, "state") == a[i - 1]:      # the draws are made iteration by iteration
            try:
                tail, m, _ = tail_law(lambda g: laws.as_set(run(T, i + 1, g, dpp)[i], N, "state"), c["pick"], len(pre), max_paths=60000)
                law, mm = row(c, mk, run, N, ch[i - 1])
            except Unsupported:
                tail = None
            if tail is not None:
                for S in set(tail) | set(k[0] for k in law):
                    if not abs(tail.get(S, 0.0) - law.get((S,), 0.0)) <= 1e-6:
                        raise Violation("%s chain on %d points: given the draws of the first %d iterations, which lead to %r, state %r comes next with probability %.9g; started from there it does with probability %.9g" % (
                            c["mode"], N, i - 1, a[i - 1], S, tail.get(S, 0.0), law.get((S,), 0.0)))
                return {"nontrivial": moves > 3, "execs": m + mm, "tag": "conditional " + c["mode"]}
    if c["mode"] in ("AED", "AD"):
        K = M.dot(np.linalg.inv(np.eye(N) + M))
        d = np.diag(K)
        G = np.exp(np.outer([1, -1, 1, -1], np.ones(N)) * 0.2 * np.random.RandomState(c["seed"]).rand(4, N))
        lap = np.array([np.linalg.det(np.eye(N) - (1 - g)[:, None] * K) for g in G])
    else:
        k = len(T)
        e, V = np.linalg.eigh(M)
        e = np.maximum(e, 0)
        e[e < 1e-10 * e[-1]] = 0
        p, tot = laws.log_selection(e, k)
        d = (V ** 2).dot(p)
        G = np.exp(0.2 * np.random.RandomState(c["seed"]).uniform(-1, 1, (4, N)))
        lap = []
        for g in np.sqrt(G):
            u = np.linalg.eigvalsh(g[:, None] * M * g)
            u[u < 1e-10 * u[-1]] = 0
            lap.append(np.exp(laws.log_esp(u, k)[k] - tot))
        lap = np.array(lap)

    def stat(rng, m):
        out = np.zeros((m, N + 4))
        for i in range(m):
            ch = run(ref_sample(c, M, rng), n, rng, dpp)
            Z = np.zeros((len(ch), N))
            for t, s in enumerate(ch):
                Z[t, list(laws.as_set(s, N, "state"))] = 1
            h = Z[len(Z) // 2:]                      # the second half of a chain started from its target
            out[i] = np.hstack([h.mean(0), np.exp(h.dot(np.log(G).T)).mean(0) / lap])
        return out
    with sut("%s chains of %d states" % (c["mode"], n)):
        check_mean(stat, np.concatenate([d, np.ones(4)]), 150, derive("p08long", c["seed"]), "%s chains of %d states started from their target on %d points: occupation of the second half" % (c["mode"], n, N), z=4.5, z2=6.5, atol=1e-3)
    return {"nontrivial": moves > 3, "execs": 150 * n, "tag": "statistics " + c["mode"]}


FACETS = [
    Facet("matrix", lambda: kern_case(1, 5), run_matrix, 1000, 10000, "stationarity, support, moves and reachability from the full transition matrix", cpu_limit=300),
    Facet("steps", lambda: kern_case(1, 4), run_steps, 320, 4000, "several iterations of one call against products of single ones", cpu_limit=300),
    Facet("inflow", flow_case, run_flow, 240, 3000, "6 to 9 points: inflow into one state", cpu_limit=300),
    Facet("many", lambda: many_case(10, 16), run_many, 120, 1500, "10 to 16 points: inflow into one state of any size from all its neighbours", cpu_limit=300),
    Facet("many steps", lambda: many_case(6, 11), run_many_steps, 160, 1000, "6 to 11 points, states that are small or nearly everything: two iterations of one call against products of single ones", cpu_limit=300),
    Facet("balance", balance_case, run_balance, 96, 1500, "17 to 30 points: detailed balance, or inflow", cpu_limit=600),
    Facet("long", long_case, run_long, 500, 6000, "runs of 12 to 150 states: one call against single iterations with the same generator, or occupation probabilities", cpu_limit=600),
]
