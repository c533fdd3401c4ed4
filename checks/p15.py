"""P15: uniform spanning trees."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gens, laws
from pbt.branch import Unsupported
from pbt.core import Facet, Violation, derive, must_raise, sut
from pbt.stats import check_discrete

MODES = ["Wilson", "Aldous-Broder", "GS", "GS_bis", "KuTa12", "Schur", "Chol"]
RULE = ("A case is a connected graph with its labels, insertion order and possibly loops, a sampling mode, a root and a seed; it is non-trivial when "
        "the graph has at least two spanning trees.")
ASSUMPTIONS = ["Uniformity: graphs with at most 6 nodes and 200 spanning trees; exact enumeration for the determinantal modes, frequencies (p < 1e-9 with "
               "confirmation) for the random-walk modes.", "Validity of the trees: graphs with up to 400 nodes."]


@st.composite
def graph_case(draw, nmax=6, mmax=10):
    n = draw(gens.sizes(2, nmax))
    pairs = list(itertools.combinations(range(n), 2))
    parent = [draw(st.integers(0, i - 1)) for i in range(1, n)]
    edges = {(p, i + 1) for i, p in enumerate(parent)}
    extra = draw(st.lists(st.sampled_from(pairs), max_size=max(0, mmax - len(edges)), unique=True))
    for e in extra:
        if len(edges) < mmax:
            edges.add(e)
    c = {"n": n, "edges": sorted(map(list, edges)), "seed": draw(gens.seeds()), "mode": draw(st.sampled_from(MODES)),
         "labels": draw(st.sampled_from(["int", "int", "perm", "offset", "str", "mixed"])), "root": draw(st.one_of(st.none(), st.integers(0, n - 1))),
         "loop": draw(st.integers(0, 5)) == 0, "weights": draw(st.integers(0, 3)) == 0}
    return c


@st.composite
def huge_case(draw):
    """graphs with hundreds of nodes, described by a seed"""
    n, seed = draw(st.integers(100, 400)), draw(gens.seeds())
    rng = np.random.RandomState(seed)
    near = draw(st.booleans())           # long paths or bushy trees
    E = {((max(0, i - 1 - rng.randint(3)) if near else rng.randint(i)), i) for i in range(1, n)}
    for _ in range(draw(st.sampled_from([0, 5, 60]))):
        a, b = sorted(rng.randint(n, size=2).tolist())
        if a != b:
            E.add((a, b))
    return {"n": n, "edges": sorted([int(a), int(b)] for a, b in E), "seed": seed, "mode": draw(st.sampled_from(MODES[:2] * 3 + MODES)), "labels": draw(st.sampled_from(["int", "perm", "str"])),
            "root": draw(st.one_of(st.none(), st.integers(0, n - 1))), "loop": False, "weights": False}


def many_case():
    return graph_case(5, 7).filter(lambda c: len(c["edges"]) >= c["n"]).map(lambda c: dict(c, mode=["Wilson", "Aldous-Broder"][c["seed"] % 2]))


def big_case():
    return graph_case(40, 120)


def build(c):
    import networkx as nx
    n = c["n"]
    rng = np.random.RandomState(c["seed"])
    lab = {"int": list(range(n)), "perm": rng.permutation(n).tolist(), "offset": list(range(7, 7 + n)), "str": ["n%d" % i for i in range(n)],
           "mixed": [(i, "a") if i % 2 else i + 0.5 for i in range(n)]}[c["labels"]]
    E = [tuple(e) for e in c["edges"]]
    E = [E[i] for i in rng.permutation(len(E))]
    E = [e if rng.rand() < 0.5 else e[::-1] for e in E]
    g = nx.Graph()
    if c["labels"] == "int":
        g.add_nodes_from(range(n))
    for a, b in E:
        g.add_edge(lab[a], lab[b])
    if c.get("weights"):         # attributes of the edges do not matter
        for a, b in g.edges():
            g[a][b]["weight"] = round(float(rng.uniform(0.1, 10)), 2)
    if c["loop"]:
        v = lab[rng.randint(n)]
        g.add_edge(v, v)
    return g, lab


def key(t):
    return frozenset(frozenset(e) for e in t.edges())


def check_tree(g, t, what):
    import networkx as nx
    if not isinstance(t, nx.Graph):
        raise Violation("%s: the sample is a %s" % (what, type(t).__name__))
    n = g.number_of_nodes()
    if set(t.nodes()) != set(g.nodes()):
        raise Violation("%s: nodes %r instead of %r" % (what, sorted(t.nodes(), key=str), sorted(g.nodes(), key=str)))
    bad = [e for e in t.edges() if not g.has_edge(*e)]
    if bad:
        raise Violation("%s: %r are not edges of the graph" % (what, bad))
    if t.number_of_edges() != n - 1 or not nx.is_connected(t):
        raise Violation("%s: %d edges for %d nodes, connected: %s" % (what, t.number_of_edges(), n, nx.is_connected(t)))
    return key(t)


def trees(g):
    import networkx as nx
    E = [e for e in g.edges() if e[0] != e[1]]
    n = g.number_of_nodes()
    out = []
    for S in itertools.combinations(E, n - 1):
        p = {v: v for v in g.nodes()}

        def find(v):
            while p[v] != v:
                v = p[v]
            return v
        ok = True
        for a, b in S:
            a, b = find(a), find(b)
            if a == b:
                ok = False
                break
            p[a] = b
        if ok:
            out.append(frozenset(frozenset(e) for e in S))
    return out


def sample_kw(c, lab):
    kw = {"mode": c["mode"]}
    if c["root"] is not None:
        kw["root"] = lab[c["root"]]
    return kw


def run_uniform(c, n=1500):
    from dppy.exotic_dpps import UST
    g, lab = build(c)
    T = trees(g)
    target = {t: 1.0 / len(T) for t in T}
    if len(T) > 200:
        return {"nontrivial": False, "execs": 0, "tag": "too many trees"}
    with sut("UST"):
        u = UST(g)
    kw = sample_kw(c, lab)
    what = "UST mode %s, root %r" % (c["mode"], kw.get("root"))

    def draw(rng):
        n0 = len(u.list_of_samples)
        with sut(what):
            u.sample(random_state=rng, **kw)
        if len(u.list_of_samples) != n0 + 1:
            raise Violation("sample did not append one entry")
        t = u.list_of_samples.pop()
        return check_tree(g, t, what)
    if c["mode"] in ("Wilson", "Aldous-Broder"):
        m = max(n, 15 * len(T))
        check_discrete(draw, target, m, derive("p15", c["seed"]), what)
    else:
        def f(rng):
            try:
                return draw(rng)
            except Violation as v:
                return ("BAD", v.msg)
        from pbt.branch import enumerate_law
        try:
            law, m, _ = enumerate_law(f, max_paths=6000)
            laws.compare_laws(law, target, what, tol=1e-7)
        except Unsupported:
            m = max(n, 15 * len(T))
            check_discrete(draw, target, m, derive("p15", c["seed"]), what)
    return {"nontrivial": len(T) > 1, "execs": m, "tag": c["mode"], "note": "%d trees" % len(T)}


def run_valid(c):
    from dppy.exotic_dpps import UST
    g, lab = build(c)
    with sut("UST"):
        u = UST(g)
    nodes0, edges0 = list(g.nodes()), list(g.edges())
    kw = sample_kw(c, lab)
    for s in range(2):
        with sut("UST mode %s, root %r" % (c["mode"], kw.get("root"))):
            u.sample(random_state=c["seed"] + s, **kw)
        if len(u.list_of_samples) != s + 1:
            raise Violation("sample did not append one entry")
        check_tree(g, u.list_of_samples[-1], "UST mode %s" % c["mode"])
    if list(g.nodes()) != nodes0 or list(g.edges()) != edges0:
        raise Violation("the graph was modified")
    with sut("str"):
        str(u)
    for m in ("foo", "wilson", None):
        must_raise("UST.sample(mode=%r)" % (m,), lambda: u.sample(mode=m))
    if len(u.list_of_samples) != 2:
        raise Violation("a refused call changed the list of samples")
    return {"nontrivial": g.number_of_edges() >= g.number_of_nodes(), "execs": 5, "tag": c["mode"]}


def run_kernel(c):
    import networkx as nx
    from dppy.exotic_dpps import UST
    g, lab = build(c)
    n = g.number_of_nodes()
    with sut("UST kernel"):
        u = UST(g)
        if c["seed"] % 2:
            u.sample(random_state=c["seed"], **sample_kw(c, lab))
        u.compute_kernel()
        K = np.asarray(u.kernel, float)
    m = g.number_of_edges()
    if K.shape != (m, m) or not np.all(np.isfinite(K)):
        raise Violation("kernel of shape %s for %d edges" % (K.shape, m))
    if len(u.edges) != m or {frozenset(e) for e in u.edges} != {frozenset(e) for e in g.edges()}:
        raise Violation("edges %r of the object are not those of the graph" % (u.edges,))
    idx = {v: i for i, v in enumerate(g.nodes())}
    B = np.zeros((n, m))
    for j, (a, b) in enumerate(u.edges):
        if a != b:
            B[idx[a], j], B[idx[b], j] = -1, 1
    T = B.T.dot(np.linalg.pinv(B.dot(B.T), hermitian=True)).dot(B)
    tol = 1e-8
    if not np.abs(K - K.T).max() <= tol or not np.abs(K.dot(K) - K).max() <= tol or not abs(np.trace(K) - (n - 1)) <= tol:
        raise Violation("the edge kernel is not a projection of rank %d" % (n - 1))
    if not np.abs(np.diag(K) - np.diag(T)).max() <= tol:
        raise Violation("edge probabilities %r instead of %r" % (np.diag(K), np.diag(T)))
    if not np.abs(np.abs(K) - np.abs(T)).max() <= tol:
        raise Violation("the kernel differs from the transfer-current matrix")
    rng = np.random.RandomState(c["seed"] + 1)
    for _ in range(12):
        S = rng.permutation(m)[:rng.randint(1, min(m, n) + 1)]
        a, b = np.linalg.det(K[np.ix_(S, S)]), np.linalg.det(T[np.ix_(S, S)])
        if not abs(a - b) <= 1e-7:
            raise Violation("edges %r appear together with probability %.6g, the kernel gives %.6g" % ([u.edges[i] for i in S], b, a))
    return {"nontrivial": m >= n, "execs": 2, "tag": c["labels"]}


@st.composite
def split_case(draw):
    return {"a": draw(graph_case(6)), "b": draw(graph_case(6)), "iso": draw(st.booleans())}


def run_split(c):
    import networkx as nx
    from dppy.exotic_dpps import UST
    a = build(dict(c["a"], labels="int"))[0]
    b = build(dict(c["b"], labels="int"))[0]
    g = nx.disjoint_union(a, b)
    if c["iso"]:
        g = a.copy()
        g.add_node(99)
    must_raise("UST on a disconnected graph", lambda: UST(g))
    return {"nontrivial": True, "execs": 1}


FACETS = [
    Facet("uniform", graph_case, run_uniform, 320, 4000, "law over all spanning trees", cpu_limit=300),
    Facet("many draws", many_case, lambda c: run_uniform(c, 16000), 32, 400, "the random walks on graphs of at most 5 nodes with 16000 draws", cpu_limit=600),
    Facet("valid", big_case, run_valid, 800, 10000, "spanning trees of larger graphs"),
    Facet("huge", huge_case, run_valid, 160, 2000, "spanning trees of graphs of 100-400 nodes", cpu_limit=300),
    Facet("kernel", lambda: graph_case(12, 30), run_kernel, 1000, 10000, "edge kernel against the transfer-current matrix"),
    Facet("disconnected", split_case, run_split, 100, 1000, "disconnected graphs are refused"),
]
