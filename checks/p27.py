"""P27: drawings show the last sample, the kernel of the definition and the reference law (matplotlib artists against the data)."""
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

from checks import p15, p18, p19, p21
from pbt import gens
from pbt.core import Facet, Violation, derive, must_raise, sut

RULE = "A case is an object with a history of samples, or a kernel, and a drawing function with its options; it is non-trivial when the drawn data have at least two points or entries."
ASSUMPTIONS = ["Drawings are made with matplotlib's Agg backend; the artists (positions of scatter plots, heights of histograms, values of heat maps, vertices of lines) are read from the figure, nothing is rendered.",
               "Colors, layout and wording of titles are free, except numbers the documentation promises.",
               "In one dimension the EZ weights (of any sign) are drawn with sizes matplotlib cannot represent: only positions and densities are compared."]


def r3(lo, hi):
    return st.floats(lo, hi).map(lambda v: round(v, 3))


class Drawing(object):
    """call f, then the artists of the only new figure"""

    def __init__(self, what, f):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        self.what = what
        plt.close("all")
        with sut(what), np.errstate(all="ignore"):
            f()
        n = plt.get_fignums()
        if len(n) != 1:
            raise Violation("%s opens %d figures" % (what, len(n)))
        self.fig = plt.figure(n[0])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        plt.close("all")

    def scatters(self):
        from matplotlib.collections import PathCollection
        return [c for a in self.fig.axes for c in a.collections if isinstance(c, PathCollection)]

    def lines(self):
        return [np.array(l.get_xydata(), float) for a in self.fig.axes for l in a.lines]

    def text(self):
        return " ".join(a.get_title() for a in self.fig.axes)

    def numbers(self, pattern, value, tol=1e-9):
        """a number shown in the title"""
        for t in re.findall(pattern, self.text()):
            if abs(float(t) - value) > tol:
                raise Violation("%s: the title %r gives %s instead of %r" % (self.what, self.text(), t, value))

    def has_points(self, x, y, n=1):
        """some scatter plot shows exactly the points (x, y)"""
        x, y = np.ravel(np.asarray(x, float)), np.ravel(np.asarray(y, float))
        P = sorted(zip(x, y))
        seen = []
        for c in self.scatters():
            o = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
            if len(o) == len(x) and (not P or np.allclose(sorted(map(tuple, o)), P, rtol=1e-9, atol=1e-9 * (1 + np.abs(x).max()))):
                return
            seen.append(o[:4].tolist())
        raise Violation("%s does not show the points %r: scatter plots %r" % (self.what, P[:4], seen))

    def has_hist(self, x, bins, range=None, weights=None, horizontal=False):
        """some histogram has the normalized heights of x"""
        h, e = np.histogram(x, bins=bins, density=True, weights=weights)
        seen = []
        for a in self.fig.axes:
            p = [q for q in a.patches if hasattr(q, "get_width")]
            if len(p) == len(h):
                g = np.array([q.get_width() if horizontal else q.get_height() for q in p])
                l = np.array([q.get_y() if horizontal else q.get_x() for q in p])
                if np.allclose(g, h, rtol=1e-6, atol=1e-9, equal_nan=True) and np.allclose(l, e[:-1], rtol=1e-6, atol=1e-9):
                    return
                seen.append([l[:3].tolist(), g[:3].tolist()])
        raise Violation("%s does not show the histogram with heights %r...: %r" % (self.what, h[:3], seen))

    def has_curve(self, f, lo, hi, frac=0.9, swap=False, n=40):
        """some curve is the graph of f over (most of) [lo, hi]"""
        best = None
        for l in self.lines():
            x, y = (l[:, 1], l[:, 0]) if swap else (l[:, 0], l[:, 1])
            if len(x) < n:
                continue
            with np.errstate(all="ignore"):
                v = np.asarray(f(x), float)
            ok = np.isfinite(v) & np.isfinite(y)
            if ok.sum() < 0.5 * len(x):
                continue
            err = np.max(np.abs(v[ok] - y[ok]) / (1e-9 + np.abs(v[ok]) + 1e-3 * np.abs(v[ok]).max()))
            if best is None or err < best[0]:
                best = (err, x.min(), x.max())
        if best is None:
            raise Violation("%s shows no curve" % self.what)
        if not best[0] <= 1e-5:
            raise Violation("%s: the reference curve is off by a relative %.3g" % (self.what, best[0]))
        if min(best[2], hi) - max(best[1], lo) < frac * (hi - lo):
            raise Violation("%s: the reference curve spans [%.3g, %.3g], the law lives on [%.3g, %.3g]" % (self.what, best[1], best[2], lo, hi))

    def no_curve(self, n=40):
        if any(len(l) >= n for l in self.lines()):
            raise Violation("%s shows a curve without normalization" % self.what)

    def has_matrix(self, A):
        from matplotlib.collections import QuadMesh, PolyCollection
        seen = []
        for a in self.fig.axes:
            for c in a.collections:
                if isinstance(c, (QuadMesh, PolyCollection)) and c.get_array() is not None:
                    v = np.ravel(np.ma.filled(c.get_array(), np.nan))
                    if v.size == A.size and np.allclose(v, np.ravel(A), rtol=1e-6, atol=1e-7 * (1 + np.abs(A).max())):
                        return
                    seen.append(v[:4].tolist())
        raise Violation("%s does not show the matrix with entries %r...: %r" % (self.what, np.ravel(A)[:4].tolist(), seen))


# ---------------------------------------------------------------- beta ensembles
@st.composite
def beta_case(draw):
    c = draw(p21.norm_case())
    c["past"] = [draw(p21.norm_case()) for _ in range(draw(st.integers(0, 2)))]
    c.update(fun=draw(st.sampled_from(["plot", "hist"])), norm=draw(st.sampled_from([True, False, None])))
    if draw(st.integers(0, 3)) == 0:
        c = {"kind": draw(st.sampled_from(["circular", "ginibre"])), "N": draw(st.integers(1, 40)), "beta": draw(st.sampled_from([0, 1, 2, 4, 3])), "banded": draw(st.booleans()), "haar": draw(st.sampled_from(["QR", "Hermite"])),
             "seed": draw(gens.seeds()), "fun": c["fun"], "norm": c["norm"]}
    return c


def fill(e, c, seed):
    kw = dict(c.get("par", {}), size_N=c["N"], **c.get("over", {}))
    for k, v in (("M", "size_M"), ("M1", "size_M1"), ("M2", "size_M2")):
        if k in c:
            kw[v] = c[k]
    return (e.sample_full_model if c["model"] == "full" else e.sample_banded_model)(random_state=seed, **kw)


def run_beta(c):
    import dppy.beta_ensembles as be
    args = {} if c["norm"] is None else {"normalization": c["norm"]}
    norm = c["norm"] is not False
    if c["kind"] in ("circular", "ginibre"):
        return run_disk(c, be, args, norm)
    what = p19.label(c)
    N, b = c["N"], c["beta"]
    with sut(what):
        e = {"hermite": be.HermiteEnsemble, "laguerre": be.LaguerreEnsemble, "jacobi": be.JacobiEnsemble}[c["kind"]](beta=b)
        for k in c["past"]:      # earlier samples of the same object
            if k["kind"] == c["kind"] and (k["beta"] == 0) == (b == 0) and (k["model"] != "full" or b in (0, 1, 2, 4)):
                fill(e, k, k["seed"])
        x = np.array(fill(e, c, c["seed"]), float)
    s, t = p21.affine(c) if norm else (0.0, 1.0)
    y = (x - s) / t
    with Drawing("%s, %s(%r)" % (what, c["fun"], args), lambda: getattr(e, c["fun"])(**args)) as d:
        if c["fun"] == "plot":
            d.has_points(y, np.zeros(N))
        else:
            d.has_hist(y, 30)
        if ("%d points" % N) not in d.text():
            raise Violation("%s: the title %r does not give the number of points" % (d.what, d.text()))
        d.numbers(r"\\beta=([0-9.]+)", b)
        for k, q in (("M/N", "M"), ("M_1/N", "M1"), ("M_2/N", "M2")):
            if q in c:
                d.numbers(re.escape("$" + k) + r" \\approx ([0-9.]+)", c[q] / float(N), 6e-4)
        if not norm:
            d.no_curve()
        elif b == 0:
            P = c.get("par", {})
            if c["kind"] == "hermite":
                d.has_curve(lambda v: np.exp(-v * v / 4) / np.sqrt(4 * np.pi), -2.8, 2.8)
            elif c["kind"] == "laguerre":
                d.has_curve(lambda v: ss.gamma.pdf(v, P["shape"], scale=2), 0, y.max())
            else:
                d.has_curve(lambda v: ss.beta.pdf(v, P["a"], P["b"]), 0, 1)
        elif c["kind"] == "hermite":
            d.has_curve(lambda v: np.sqrt(np.maximum(4 - v * v, 0)) / (2 * np.pi), -2, 2)
        elif c["kind"] == "laguerre":
            M = c["M"] if "M" in c else 2.0 / b * c["par"]["shape"] + N - 1
            r = N / float(M)
            lo, hi = (1 - np.sqrt(r)) ** 2, (1 + np.sqrt(r)) ** 2
            if M >= N:
                d.has_curve(lambda v: np.sqrt(np.maximum((hi - v) * (v - lo), 0)) / (2 * np.pi * r * v), max(lo, 1e-2), min(hi, y.max() + 0.25))
        else:
            a1, a2 = [(c["M%d" % i] if "M1" in c else 2.0 / b * c["par"]["ab"[i - 1]] + N - 1) / float(N) for i in (1, 2)]
            h = a1 + a2
            if min(a1, a2) >= 1:
                lo, hi = sorted([((np.sqrt(a1 * (h - 1)) - np.sqrt(a2)) / h) ** 2, ((np.sqrt(a1 * (h - 1)) + np.sqrt(a2)) / h) ** 2])
                d.has_curve(lambda v: h / (2 * np.pi) * np.sqrt(np.maximum((hi - v) * (v - lo), 0)) / (v * (1 - v)), max(lo, 5e-3), min(hi, 1 - 5e-3))
    return {"nontrivial": N > 1, "execs": 2, "tag": "%s %s" % (c["kind"], c["fun"])}


def run_disk(c, be, args, norm):
    N, b = c["N"], c["beta"]
    with sut(c["kind"]):
        if c["kind"] == "ginibre":
            e = be.GinibreEnsemble()
            x = e.sample_full_model(size_N=N, random_state=c["seed"])
            x = np.array(x) / (np.sqrt(N) if norm else 1.0)
        else:
            e = be.CircularEnsemble(beta=b)
            if c["banded"] or b == 3:
                x = e.sample_banded_model(size_N=N, random_state=c["seed"])
            else:
                x = e.sample_full_model(size_N=N, random_state=c["seed"], haar_mode="Hermite" if b == 4 else c["haar"])
            x = np.array(x)
    with Drawing("%s, beta=%r, N=%d, %s(%r)" % (c["kind"], b, N, c["fun"], args), lambda: getattr(e, c["fun"])(**args)) as d:
        if c["fun"] == "plot":
            d.has_points(x.real, x.imag)
            circ = [p for a in d.fig.axes for p in a.patches if hasattr(p, "get_radius")]
            if bool(circ) != norm or any(p.get_radius() != 1 or tuple(p.get_center()) != (0, 0) for p in circ):
                raise Violation("%s: unit circles drawn: %d" % (d.what, len(circ)))
        elif c["kind"] == "circular":
            d.has_hist(np.angle(x), 30)
            l = [v for v in d.lines() if np.allclose(v[:, 1], 1 / (2 * np.pi), rtol=1e-9)]
            if bool(l) != norm:
                raise Violation("%s: level 1/(2 pi) drawn %d times" % (d.what, len(l)))
        elif norm:
            r = np.abs(x)
            d.has_hist(r, np.linspace(0, 1, 20))
            l = [v for v in d.lines() if v.shape == (3, 2) and np.allclose(v, [[0, 0], [1, 2], [1, 0]])]
            if not l:
                d.has_curve(lambda v: 2 * v * (v <= 1), 0, 1)
    return {"nontrivial": N > 1, "execs": 2, "tag": "%s %s" % (c["kind"], c["fun"])}


# ---------------------------------------------------------------- kernels and trees
@st.composite
def ker_case(draw):
    k = draw(st.sampled_from(["fin", "fin", "ust"]))
    if k == "ust":
        c = draw(p15.graph_case(8, 14))
        c.update(k=k, fun=draw(st.sampled_from(["plot_kernel", "plot", "plot_graph"])), past=draw(st.lists(st.sampled_from(p15.MODES), min_size=1, max_size=3)))
        return c
    from checks import p03
    if draw(st.integers(0, 2)) == 0:
        c = draw(p03.proj_case(nmin=1, nmax=14))
        c["proj"] = True
    elif draw(st.integers(0, 5)) == 0:
        c = draw(gens.many_case(15, 90, lt1=True))
        c["proj"] = False
    else:
        c = draw(gens.generic_case(nmin=1, nmax=14, lt1=True))
        c["proj"] = False
    c.update(k=k, which=draw(st.sampled_from(["correlation", "likelihood", "", None])), save=draw(st.integers(0, 9)) == 0, before=draw(st.lists(st.sampled_from(["K", "L", "exact"]), max_size=3)))
    return c


def run_ker(c):
    if c["k"] == "ust":
        return run_ust(c)
    from checks import p05
    m = p05.Model(c)
    with sut("building a valid DPP"):
        d = gens.make_dpp(m.b)
    rng = np.random.RandomState(c["seed"])
    for i, o in enumerate(c["before"]):
        p05.apply_op(d, m, (o, 0) if o == "exact" else (o,), rng, i)
    corr = c["which"] in ("correlation", None) or (c["which"] == "" and m.corr)
    if not corr and m.L is None:
        return {"nontrivial": False, "execs": 0, "tag": "none"}
    tmp = tempfile.mkdtemp(prefix="vp27")
    try:
        path = os.path.join(tmp, "k.png") if c["save"] else ""
        args = ([] if c["which"] is None else [c["which"]])
        kw = {"save_path": path} if path else {}
        with Drawing("FiniteDPP(%s).plot_kernel(%s) after %r" % (c["param"], ", ".join(map(repr, args)), c["before"]), lambda: d.plot_kernel(*args, **kw)) as g:
            A = m.K if corr else m.L
            g.has_matrix(A)
            for nm, ref in (("K", m.K), ("L", m.L)):
                B = getattr(d, nm)
                if B is not None and ref is not None and not np.allclose(B, ref, rtol=1e-6, atol=1e-7 * (1 + np.abs(ref).max()) * max(1, m.cond)):
                    raise Violation("%s: afterwards the kernel %s of the object is not that of the definition" % (g.what, nm))
            if path and not (os.path.exists(path) and os.path.getsize(path) > 100):
                raise Violation("%s: no file was saved" % g.what)
            ax = g.fig.axes[0]
            if not ax.yaxis_inverted():
                raise Violation("%s: the first row is not on top" % g.what)
            lab = [t.get_text().strip("$") for t in ax.get_xticklabels()]
            if lab != [str(i) for i in range(m.N)]:
                raise Violation("%s: items are labelled %r" % (g.what, lab[:5]))
    finally:
        shutil.rmtree(tmp)
    return {"nontrivial": m.N > 1, "execs": 1 + len(c["before"]), "tag": "corr" if corr else "lik"}


def run_ust(c):
    import networkx as nx
    from matplotlib.collections import LineCollection
    from dppy.exotic_dpps import UST
    g, lab = p15.build(c)
    with sut("UST"):
        u = UST(g)
        for i, md in enumerate(c["past"]):
            u.sample(mode=md, random_state=c["seed"] + i)
        if c["seed"] % 3 == 0:
            must_raise("UST.sample with an unknown mode", lambda: u.sample(mode="Kruskal", random_state=0), ValueError)
    t = u.list_of_samples[-1] if c["fun"] == "plot" else g
    E = list(g.edges())
    with Drawing("UST.%s after %r" % (c["fun"], c["past"]), getattr(u, c["fun"])) as d:
        if c["fun"] == "plot_kernel":
            I = nx.incidence_matrix(g, oriented=True, edgelist=E).toarray()
            K = np.linalg.pinv(I).dot(I)
            sgn = np.ones(len(E))
            d.has_matrix(K)
        else:
            pos = nx.circular_layout(g)
            segs = []
            for a in d.fig.axes:
                for col in a.collections:
                    if isinstance(col, LineCollection):
                        segs += [np.array(s)[[0, -1]] for s in col.get_segments()]
            got = sorted(tuple(np.round(sorted(map(tuple, s)), 6).ravel()) for s in segs)
            ref = sorted(tuple(np.round(sorted([tuple(pos[a]), tuple(pos[b])]), 6).ravel()) for a, b in t.edges() if a != b)
            got = [v for v in got if v[:2] != v[2:]]
            if not c["loop"] and (len(got) != len(ref) or not np.allclose(got, ref, atol=2e-6)):
                raise Violation("%s: the drawing shows %d edges, the %s has %d" % (d.what, len(got), "tree" if c["fun"] == "plot" else "graph", len(ref)))
            txt = [x.get_text() for a in d.fig.axes for x in a.texts]
            if c["fun"] == "plot" and c["past"][-1] not in d.text():
                raise Violation("%s: the title %r does not give the procedure" % (d.what, d.text()))
            names = [x for x in txt if x.startswith("$e_")]
            ref = ["$e_%d$" % i if i < 10 else "$e_{%d}$" % i for i, e in enumerate(E) if t.has_edge(*e)]
            if len(names) != t.number_of_edges() or sorted(x.replace("{", "").replace("}", "") for x in names) != sorted(x.replace("{", "").replace("}", "") for x in ref):
                raise Violation("%s: edges are labelled %r instead of %r" % (d.what, sorted(names), sorted(ref)))
    return {"nontrivial": True, "execs": 1 + len(c["past"]), "tag": "ust " + c["fun"]}


# ---------------------------------------------------------------- processes on the integers, partitions
def exo_case():
    return st.fixed_dictionaries({"p": st.sampled_from(["carries", "descent", "virtual", "plancherel", "plancherel"]), "par": r3(0, 1), "base": st.integers(2, 30), "theta": st.one_of(st.sampled_from([0.3, 1, 5, 40]), r3(0.1, 60)),
                                  "sizes": st.lists(st.integers(2, 400), min_size=1, max_size=3), "fun": st.sampled_from(["plot", "diagram", "normalized"]), "vs": st.booleans(), "seed": gens.seeds()})


def run_exo(c):
    from dppy import exotic_dpps as xd
    p = c["p"]
    o = {"carries": lambda: xd.CarriesProcess(c["base"]), "descent": xd.DescentProcess, "virtual": lambda: xd.VirtualDescentProcess(c["par"]), "plancherel": lambda: xd.PoissonizedPlancherel(theta=c["theta"])}[p]()
    what = "%s%s" % (type(o).__name__, {"carries": "(%d)" % c["base"], "virtual": "(%r)" % c["par"], "plancherel": "(%r)" % c["theta"]}.get(p, "()"))
    with sut(what):
        for i, n in enumerate(c["sizes"]):
            if p == "plancherel":
                o.sample(random_state=c["seed"] + i)
            else:
                o.sample(size=n, random_state=c["seed"] + i)
    x = np.array(o.list_of_samples[-1], float)
    if p != "plancherel":
        n = c["sizes"][-1]
        with Drawing("%s, samples of sizes %r, plot(vs_bernoullis=%r)" % (what, c["sizes"], c["vs"]), lambda: o.plot(vs_bernoullis=c["vs"], random_state=c["seed"])) as d:
            d.has_points(x, np.full(len(x), 1.0 if c["vs"] else 0.0))
            if {"carries": "carries", "descent": "descent", "virtual": "virtual"}[p] not in d.text().lower():
                raise Violation("%s: the name of the process is not shown: %r" % (d.what, d.text()))
            if c["vs"]:
                q = {"carries": 0.5 * (1 - 1.0 / c["base"]), "descent": 0.5, "virtual": 0.5 * (1 - c["par"] ** 2)}[p]
                if "{:.3f}".format(q) not in d.text() and "{:.3f}".format(q + 1e-12) not in d.text() and "{:.3f}".format(q - 1e-12) not in d.text():
                    raise Violation("%s: the parameter of the Bernoulli variables is %.3f, the title reads %r" % (d.what, q, d.text()))
                B = [np.asarray(s.get_offsets(), float) for s in d.scatters()]
                B = [v for v in B if len(v) == 0 or np.all(v[:, 1] == -1)]
                if not B:
                    raise Violation("%s: no Bernoulli variables are shown" % d.what)
                k = max(len(v) for v in B)
                v = max(B, key=len)[:, 0] if k else np.zeros(0)
                if len(set(v)) != len(v) or np.any((v < 0) | (v > n) | (v != np.rint(v))) or abs(k - n * q) > 7 * np.sqrt(n * q * (1 - q)) + 1:
                    raise Violation("%s: %d Bernoulli points among %d positions, with parameter %.3f: %r" % (d.what, k, n, q, v[:5]))
            elif len(d.scatters()) > 1:
                raise Violation("%s shows other points" % d.what)
            lo, hi = d.fig.axes[0].get_xlim()
            if len(x) and not (lo <= x.min() and x.max() <= hi):
                raise Violation("%s shows [%r, %r], the sample lies in [%r, %r]" % (d.what, lo, hi, x.min(), x.max()))
        return {"nontrivial": len(x) > 1, "execs": 1 + len(c["sizes"]), "tag": p}
    from matplotlib.collections import LineCollection
    lam = [int(v) for v in o.list_of_young_diag[-1]]
    x = np.array([l - i - 0.5 for i, l in enumerate(lam)])      # {lambda_i - i + 1/2}
    s = np.sqrt(c["theta"]) if c["fun"] == "normalized" else 1.0
    f = o.plot if c["fun"] == "plot" else (lambda: o.plot_diagram(normalization=c["fun"] == "normalized"))
    with Drawing("%s, partition %r, %s" % (what, lam, c["fun"]), f) as d:
        d.has_points(x / s, np.zeros(len(x)))
        lo, hi = d.fig.axes[0].get_xlim()
        if len(x) and not (lo <= x.min() / s and x.max() / s <= hi):
            raise Violation("%s shows [%r, %r], the sample lies in [%r, %r]" % (d.what, lo, hi, x.min() / s, x.max() / s))
        if c["fun"] != "plot":
            seg = [np.array(v) for a in d.fig.axes for col in a.collections if isinstance(col, LineCollection) for v in col.get_segments()]
            # unit edges of the diagram in russian convention: (u, v) -> (v - u, u + v)
            got = set()
            for v in seg:
                a, b = v[0] * s, v[-1] * s
                a, b = [np.array([w[1] + w[0], w[1] - w[0]]) / 2 for w in (a, b)]
                k = int(round(np.abs(b - a).max()))
                for j in range(k):
                    got.add(tuple(sorted([tuple(np.round(a + (b - a) * j / k, 5) + 0.0), tuple(np.round(a + (b - a) * (j + 1) / k, 5) + 0.0)])))
            want = set()
            for i, l in enumerate(lam):
                for j in range(l):
                    q = [(j, i), (j + 1, i), (j + 1, i + 1), (j, i + 1)]
                    for u in range(4):
                        want.add(tuple(sorted([tuple(map(float, q[u])), tuple(map(float, q[(u + 1) % 4]))])))
            flip = set(tuple(sorted([e[0][::-1], e[1][::-1]])) for e in want)
            if not (want <= got or flip <= got) and not (edges_only(got, want) or edges_only(got, flip)):
                raise Violation("%s: the edges drawn are not those of the diagram" % d.what)
            if c["fun"] == "normalized" and s > 0:
                d.has_curve(lambda v: np.where(np.abs(v) >= 2, np.abs(v), 2 / np.pi * (v * np.arcsin(np.clip(v / 2, -1, 1)) + np.sqrt(np.maximum(4 - v * v, 0)))), -1, 1, frac=0.0)
    return {"nontrivial": len(lam) > 1, "execs": 1 + len(c["sizes"]), "tag": "plancherel " + c["fun"]}


def edges_only(got, want):
    """the outer border at least, and nothing but edges of cells"""
    cnt = {}
    for e in want:
        cnt[e] = cnt.get(e, 0) + 1
    return bool(got) and got <= want and len(got) > 0


# ---------------------------------------------------------------- multivariate Jacobi, polynomial potentials
def ext_case():
    ab = st.one_of(st.sampled_from([-0.5, 0.5, 0.0]), r3(-0.5, 0.5))
    jac = st.fixed_dictionaries({"what": st.just("jacobi"), "d": st.integers(1, 2), "N": st.integers(1, 12), "p": st.tuples(ab, ab, ab, ab), "weighted": st.sampled_from(["", "BH", "EZ"]), "seed": gens.seeds(), "own": st.booleans()})
    pot = st.fixed_dictionaries({"what": st.just("potential"), "g": st.sampled_from(["x2", "x4", "x6", "x2x4", "two cuts", "cl", "odd"]), "u": r3(0.2, 3), "v": r3(0.2, 3), "n": st.integers(2, 60), "save": st.integers(0, 9), "seed": gens.seeds()})
    return st.one_of(jac, pot)


def run_ext(c):
    rng = np.random.RandomState(c["seed"])
    if c["what"] == "potential":
        return run_pot(c, rng)
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    d, N = c["d"], c["N"]
    p = np.array(c["p"][:2 * d]).reshape(-1, 2)
    what = "MultivariateJacobiOPE(%d, %r)" % (N, p.tolist())
    with sut(what):
        o = MultivariateJacobiOPE(N, p)
        x = rng.uniform(-0.98, 0.98, (N, d)) if c["own"] else o.sample(random_state=c["seed"])
        K = o.K(x, x)
        Phi = o.eval_multiD_polynomials(x)
    w = np.ones(N)
    if c["weighted"] == "BH":
        w = 1 / np.diag(K)
    elif c["weighted"] == "EZ":
        if np.linalg.cond(Phi) > 1e8:
            return {"nontrivial": False, "execs": 1, "tag": "ill"}
        w = np.linalg.solve(Phi, np.eye(N))[0]       # cofactors of the column of the constant polynomial
    w = w / w[np.argmax(np.abs(w))]
    with Drawing("%s.plot(weighted=%r)" % (what, c["weighted"]), lambda: o.plot(x, weighted=c["weighted"])) as g:
        pdf = lambda j: (lambda v: 0.5 * ss.beta.pdf(0.5 * (1 - v), 1 + p[j, 0], 1 + p[j, 1]))
        arc = lambda v: 1 / (np.pi * np.sqrt(np.maximum(1 - v * v, 1e-300)))
        if d == 1:
            g.has_points(x[:, 0], np.zeros(N))
            g.has_curve(pdf(0), -0.9, 0.9)
            if c["weighted"] != "EZ":
                g.has_hist(x[:, 0], 10, weights=w)
                sz = g.scatters()[0].get_sizes()
                if len(sz) == N and not np.allclose(sz / sz.max(), w, rtol=1e-5, atol=1e-7):
                    raise Violation("%s: marks of relative sizes %r instead of %r" % (g.what, (sz / sz.max())[:4], w[:4]))
            if not c["weighted"]:
                g.has_curve(arc, -0.9, 0.9)
        else:
            if c["weighted"] == "EZ":
                off = np.concatenate([np.asarray(s.get_offsets(), float) for s in g.scatters()])
                if len(off) != N or not np.allclose(sorted(map(tuple, off)), sorted(map(tuple, x))):
                    raise Violation("%s does not show the points" % g.what)
                # one collection per sign, sizes in proportion to the weights
                M = dict((tuple(np.round(v, 9)), (k, float(z))) for k, s in enumerate(g.scatters()) for v, z in zip(np.asarray(s.get_offsets(), float), np.broadcast_to(s.get_sizes(), len(s.get_offsets()))))
                z = np.array([M[tuple(np.round(v, 9))][1] for v in x])
                col = [M[tuple(np.round(v, 9))][0] for v in x]
                if not np.allclose(z / z.max(), np.abs(w), rtol=1e-4, atol=1e-5):
                    raise Violation("%s: marks of relative sizes %r instead of %r" % (g.what, (z / z.max())[:4], np.abs(w)[:4]))
                big = np.abs(w) > 1e-6
                for a in range(N):
                    for b in range(a):
                        if big[a] and big[b] and (col[a] == col[b]) != (w[a] * w[b] > 0):
                            raise Violation("%s: points %d and %d have weights %r and %r, they are shown in %s" % (g.what, a, b, w[a], w[b], "the same way" if col[a] == col[b] else "different ways"))
            else:
                g.has_points(x[:, 0], x[:, 1])
                z = np.broadcast_to(g.scatters()[0].get_sizes(), N)
                if not np.allclose(z / z.max(), w, rtol=1e-5, atol=1e-7):
                    raise Violation("%s: marks of relative sizes %r instead of %r" % (g.what, (z / z.max())[:4], w[:4]))
            g.has_hist(x[:, 0], 10, weights=np.abs(w))
            g.has_hist(x[:, 1], 10, weights=np.abs(w), horizontal=True)
            g.has_curve(pdf(0), -0.9, 0.9)
            g.has_curve(pdf(1), -0.9, 0.9, swap=True)
            if not c["weighted"]:
                g.has_curve(arc, -0.9, 0.9)
                g.has_curve(arc, -0.9, 0.9, swap=True)
    return {"nontrivial": N > 1, "execs": 2, "tag": "jacobi %d %s" % (d, c["weighted"])}


def run_pot(c, rng):
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    u, v = c["u"], c["v"]
    V = {"x2": [0, 0, u], "x4": [0, 0, 0, 0, u], "x6": [0, 0, 0, 0, 0, 0, u], "x2x4": [0, 0, u, 0, v], "two cuts": [0, 0, -2.2 * np.sqrt(v), 0, v], "cl": [0, 8 / 5, 1 / 5, -4 / 15, 1 / 20], "odd": [0, 0.3, u, 0, v]}[c["g"]]
    what = "BetaEnsemblePolynomialPotential(2, coefficients %r)" % (V,)
    x = rng.randn(c["n"])
    if c["seed"] % 3 == 0:
        x = x.reshape(1, -1)
    tmp = tempfile.mkdtemp(prefix="vp27")
    try:
        path = os.path.join(tmp, "h.png") if c["save"] == 0 else False
        with sut(what):
            o = B(2, np.poly1d(np.array(V, float)[::-1]))
            if c["seed"] % 4 == 1:     # what was sampled before does not matter
                o.sample_mcmc(N=1 + c["seed"] % 3, nb_gibbs_passes=1, nb_mala_steps=1, random_state=c["seed"])
        with Drawing(what + ".hist", lambda: o.hist(x, save_file_name=path)) as d:
            h, e = np.histogram(np.ravel(x), bins=30, density=True)
            ok = False
            for a in d.fig.axes:
                for q in a.patches:
                    xy = np.asarray(q.get_xy(), float) if hasattr(q, "get_closed") else None
                    if xy is not None and len(xy) >= 2 * len(h):
                        ok = ok or np.allclose(xy[1:2 * len(h):2, 1], h, rtol=1e-6, atol=1e-9)
            if not ok:
                raise Violation("%s does not show the histogram with heights %r..." % (d.what, h[:3]))
            if path and not (os.path.exists(path) and os.path.getsize(path) > 100):
                raise Violation("%s: no file was saved" % d.what)
            if c["g"] in ("x2", "x4", "x6"):
                m = int(c["g"][1]) // 2
                # V = u x^2m: density on [-a, a] with a^2m = prod/(m u)
                lead = u
                k = np.prod([(2 * l - 1) / (2.0 * l) for l in range(1, m + 1)])
                a = (1 / (m * lead * k)) ** (0.5 / m)
                t = np.pi * (np.arange(2000) + 0.5) / 2000

                def f(z):
                    # m g/pi * sqrt(a^2-z^2) * sum of moments
                    s = sum(np.prod([(2 * q - 1) / (2.0 * q) for q in range(1, l + 1)]) * a ** (2 * l) * z ** (2 * m - 2 - 2 * l) for l in range(m))
                    return m * lead / np.pi * np.sqrt(np.maximum(a * a - z * z, 0)) * s
                if abs(f(a * np.cos(t)).dot(a * np.sin(t)) * np.pi / 2000 - 1) > 1e-6:
                    raise AssertionError("reference density")
                d.has_curve(f, -a, a)
            elif c["g"] == "odd":
                d.no_curve()
            elif c["g"] == "x2x4":       # V = u x^2 + v x^4, one interval
                a2 = (-u / 2 + np.sqrt(u * u / 4 + 3 * v)) / (1.5 * v)
                d.has_curve(lambda z: (u + v * a2 + 2 * v * z * z) * np.sqrt(np.maximum(a2 - z * z, 0)) / np.pi, -np.sqrt(a2), np.sqrt(a2))
            elif c["g"] == "two cuts":
                lo, hi = 0.1 / np.sqrt(v), 2.1 / np.sqrt(v)
                d.has_curve(lambda z: 2 * v * np.abs(z) * np.sqrt(np.maximum((z * z - lo) * (hi - z * z), 0)) / np.pi, -np.sqrt(hi), np.sqrt(hi))
            else:
                d.has_curve(lambda z: np.sqrt(np.maximum(2 + z, 0)) * np.maximum(2 - z, 0) ** 2.5 / (10 * np.pi), -2, 2)
    finally:
        shutil.rmtree(tmp)
    return {"nontrivial": True, "execs": 2, "tag": "potential " + c["g"]}


FACETS = [
    Facet("beta ensembles", beta_case, run_beta, 500, 8000, "at least two points", cpu_limit=300),
    Facet("kernels and trees", ker_case, run_ker, 300, 5000, "at least two items", cpu_limit=300),
    Facet("processes", exo_case, run_exo, 250, 4000, "at least two points", cpu_limit=300),
    Facet("samples of the caller", ext_case, run_ext, 250, 4000, "at least two points", cpu_limit=300),
]
