"""Plots show the graph and data they are given."""
import contextlib
import glob as _glob
import os
import shutil
import sys
import tempfile

from .dec import *
from symqt import rt
from symqt.core import shown_value, _rel_guard
from .c15 import close
from .c17 import Env as Files, Decoder, rates

EXPLAIN = (
    "The real drawing code runs on the decoder's own graphs (whole, of a symbolic set of hits, matched) whose edge weights are symbolic reals, and the real"
    " analysis classes on symbolic saved points; matplotlib and mpl_draw are stand-ins that record what is put on which axes. Every node, edge and weight,"
    " and every point, is recorded at its place, and nothing else. Replays read the artists of real matplotlib figures."
)
BOUNDS = {
    "quick": "whole graphs up to 5x5, T<=3 with all real weights; error and matched graphs of all sets of at most 4 hits on 3x3, lines of 3 and 5, T<=2; analyses of up to 4 points, up to 3 in a directory",
    "thorough": "whole graphs up to 7x7, T<=5; hits up to 5; analyses of up to 8 points",
}
ASSUMPTIONS = ENV_ASSUME[1:] + [
    "matplotlib and rustworkx.visualization.mpl_draw draw what they are told to (replays inspect the artists of real figures, not pixels).",
    "A shown number is rounded to two decimals at least; floats are reals.",
]


def configs(tier):
    out = []
    big = tier == "thorough"
    for k, h, w in families(SIZES["small"] + [(5, 5)] + (SIZES["mid"] + [(7, 7)] if big else []), ("XXZZ", "REP")):
        for b in "ZX":
            if (h if b == "Z" else w) == 1:
                continue
            for T in (1, 2, 3) + ((5,) if big else ()):
                if not big and h * w > 9 and T > 2 or h * w > 25 and T > 2:
                    continue
                out.append(dict(name=nm(k, h, w, b, "T%d" % T, "whole"), kind="whole", k=k, h=h, w=w, b=b, T=T))
    for k, h, w, b, T, most in (
        ("XXZZ", 3, 3, "Z", 1, 4), ("XXZZ", 3, 3, "X", 1, 4), ("XXZZ", 3, 3, "Z", 2, 2), ("XXZZ", 3, 3, "X", 2, 2), ("REP", 5, 1, "Z", 1, 4),
        ("REP", 1, 5, "X", 1, 4), ("REP", 3, 1, "Z", 2, 4), ("REP", 1, 3, "X", 2, 4), ("REP", 3, 1, "Z", 3, 3),
    ):
        for kind in ("error", "matched"):
            out.append(dict(name=nm(k, h, w, b, "T%d" % T, kind), kind=kind, k=k, h=h, w=w, b=b, T=T, most=most + (1 if big else 0)))
    for n in range(1, 9 if big else 5):
        for log in (True, False):
            for per in (True, False):
                if not log and per:
                    continue
                out.append(dict(name="analysis-%d%s%s" % (n, "-log" if log else "", "-per-round" if per else ""), kind="analysis", n=n, log=log, per=per, where="new"))
    for where in ("axes", "both", "older-axes"):
        out.append(dict(name="analysis-given-%s" % where, kind="analysis", n=2, log=True, per=False, where=where))
    for n in (1, 2, 3):
        out.append(dict(name="batch-%d" % n, kind="batch", n=n))
    for c in out:
        c["samples"] = 1
    return out


# ---------------------------------------------------------------- stand-ins that record
class Anything:
    """What a styling call returns."""

    _verif_model_ = True

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        return self

    def __iter__(self):
        return iter([])

    def __getitem__(self, i):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seq(v):
    """A coordinate argument as a list (a number is one point)."""
    if isinstance(v, Sym) or isinstance(v, (int, float)):
        return [v]
    if hasattr(v, "tolist"):
        v = v.tolist()
        return v if isinstance(v, list) else [v]
    return list(v)


def guard():
    return _rel_guard(()) if R.mode == "sym" and R.guards else True


class Axes(Anything):
    def __init__(self, fig, three=False):
        self.__dict__.update(fig=fig, points=[], lines=[], texts=[], three=three, scale={"x": "linear", "y": "linear"}, title="")

    def scatter(self, *a, **k):
        g = guard()
        dim = 3 if self.three else 2
        a = list(a) + [k.pop(n) for n in ("x", "y", "xs", "ys", "zs") if n in k]
        for p in zip(*[seq(x) for x in a[:dim]]):
            self.points.append((g, p))
        return Anything()

    def plot(self, *a, **k):
        g = guard()
        dim = 3 if self.three else 2
        pts = list(zip(*[seq(x) for x in a[:dim]]))
        fmt = a[dim] if len(a) > dim and isinstance(a[dim], str) else ""
        marks = any(c in fmt.split(":")[0] for c in ".,ov^<>sp*hxD+d") or k.get("marker") not in (None, "", "None")
        self.lines.append((g, pts, marks, k.get("label")))
        return Anything()

    loglog_ = None

    def loglog(self, *a, **k):
        self.scale.update(x="log", y="log")
        return self.plot(*a, **k)

    def semilogy(self, *a, **k):
        self.scale.update(y="log")
        return self.plot(*a, **k)

    def text(self, *a, **k):
        dim = 3 if self.three else 2
        self.texts.append((guard(), tuple(a[:dim]), a[dim] if len(a) > dim else k.get("s")))
        return Anything()

    def annotate(self, text, xy, *a, **k):
        self.texts.append((guard(), tuple(xy), text))
        return Anything()

    def set_xscale(self, s, **k):
        self.scale["x"] = s

    def set_yscale(self, s, **k):
        self.scale["y"] = s


class Figure(Anything):
    def __init__(self, plt):
        self.__dict__.update(plt=plt, axes=[])

    def subplots(self, *a, **k):
        return self.add_axes(Axes(self))

    def add_subplot(self, *a, **k):
        return self.add_axes(Axes(self, k.get("projection") == "3d"))

    def gca(self):
        return self.axes[-1] if self.axes else self.subplots()

    def add_axes(self, ax, *a, **k):
        if not isinstance(ax, Axes):
            ax = Axes(self)
        if ax not in self.axes:
            self.axes.append(ax)
        self.plt.figs.append(self.plt.figs.pop(self.plt.figs.index(self))) if self in self.plt.figs else self.plt.figs.append(self)
        self.plt.__dict__["current"] = ax
        return ax

    def savefig(self, name, *a, **k):
        self.plt.saved.append((str(name), self))


class Plt(Anything):
    """matplotlib.pyplot: the current axes are those made last."""

    def __init__(self):
        self.__dict__.update(figs=[], current=None, saved=[])

    def figure(self, *a, **k):
        f = Figure(self)
        self.figs.append(f)
        self.__dict__["current"] = None
        return f

    def gcf(self):
        return self.figs[-1] if self.figs else self.figure()

    def gca(self):
        return self.current if self.current is not None else self.gcf().gca()

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f.subplots()

    def axes(self, *a, **k):
        return self.gcf().add_subplot(**k)

    def sca(self, ax):
        self.__dict__["current"] = ax

    def savefig(self, name, *a, **k):
        self.gcf().savefig(name)

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def scatter(self, *a, **k):
        return self.gca().scatter(*a, **k)

    def text(self, *a, **k):
        return self.gca().text(*a, **k)

    def loglog(self, *a, **k):
        return self.gca().loglog(*a, **k)

    def xscale(self, s, **k):
        self.gca().set_xscale(s)

    def yscale(self, s, **k):
        self.gca().set_yscale(s)

    @property
    def rcParams(self):
        return {}


def make_draw(plt):
    def mpl_draw(graph, pos=None, ax=None, arrows=True, with_labels=False, **k):
        ax = ax if ax is not None else plt.gca()
        if pos is None:
            raise models.Inconclusive("a drawing without positions")
        nodes = list(gitems(graph.node_indices()))
        at = {}
        for g, i in nodes:
            at[i] = tuple(pos[i])
            ax.points.append((g, at[i]))
            if with_labels:
                f = k.get("labels")
                ax.texts.append((g, at[i], str(i) if f is None else rt.call(f, graph[i])))
        for g, (i, j, w) in gitems(graph.weighted_edge_list()):
            ax.lines.append((g, [at[i], at[j]], False, None))
            f = k.get("edge_labels")
            if f is not None:
                ax.texts.append((g, tuple((x + y) / 2 for x, y in zip(at[i], at[j])), rt.call(f, w)))
        return ax.fig

    mpl_draw._verif_model_ = True
    return mpl_draw


@contextlib.contextmanager
def recorded():
    """Swap the drawing libraries in every module of the code under test; yields the pyplot in use."""
    Q()
    if R.mode != "sym":
        import matplotlib.pyplot as plt

        plt.close("all")
        cwd, show, close_ = os.getcwd(), plt.show, plt.close
        tmp = tempfile.mkdtemp(prefix="c27_")
        plt.show = lambda *a, **k: None
        plt.close = lambda *a, **k: None
        try:
            os.chdir(tmp)
            yield plt
        finally:
            os.chdir(cwd)
            plt.show, plt.close = show, close_
            plt.close("all")
            shutil.rmtree(tmp)
        return
    plt = Plt()
    stand = {"plt": plt, "mpl_draw": make_draw(plt), "Axes3D": lambda fig, *a, **k: Axes(fig, True)}
    stand["Axes3D"]._verif_model_ = True
    old = []
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "qtcodes":
            for a, v in stand.items():
                if hasattr(m, a):
                    old.append((m, a, getattr(m, a)))
                    setattr(m, a, v)
    try:
        yield plt
    finally:
        for m, a, v in old:
            setattr(m, a, v)


def contents(ax):
    """points [(present, place)], lines [(present, places, marked, label)], texts [(present, place, text)] on the axes."""
    if R.mode == "sym":
        return ax.points, ax.lines, ax.texts
    import numpy as np

    points, lines, texts = [], [], []
    for c in ax.collections:
        n = type(c).__name__
        if n == "Path3DCollection":
            points += [(True, tuple(float(x) for x in p)) for p in zip(*c._offsets3d)]
        elif n == "PathCollection":
            points += [(True, tuple(float(x) for x in p)) for p in c.get_offsets()]
        elif n == "LineCollection":
            lines += [(True, [tuple(map(float, p)) for p in s], False, None) for s in c.get_segments()]
    for p in ax.patches:
        if hasattr(p, "_posA_posB"):
            lines.append((True, [tuple(map(float, q)) for q in p._posA_posB], False, None))
    for l in ax.lines:
        d = l.get_data_3d() if hasattr(l, "get_data_3d") else l.get_data()
        lines.append((True, [tuple(map(float, q)) for q in zip(*d)], l.get_marker() not in ("", "None", None, " "), l.get_label()))
    for t in ax.texts:
        p = t.get_position_3d() if hasattr(t, "get_position_3d") else t.get_position()
        texts.append((True, tuple(map(float, p)), t.get_text()))
    return points, lines, texts


def near(p, q):
    return len(p) == len(q) and band(*[close(a, b) for a, b in zip(p, q)])


# ---------------------------------------------------------------- graphs
def harness(cfg):
    if cfg["kind"] in ("analysis", "batch"):
        return {"analysis": analysis, "batch": batch}[cfg["kind"]](cfg)
    k, h, w, b, T = cfg["k"], cfg["h"], cfg["w"], cfg["b"], cfg["T"]
    dec = decoder(k, h, w, T)
    if cfg["kind"] == "whole":
        g = dec.S[b]
    else:
        fg = FaultGraph(Code(k, h, w), b, T)
        hits, _ = symbolic_hits(fg.real, most=cfg["most"], least=1)
        if not (hasattr(dec, "_make_error_graph") and hasattr(dec, "_run_mwpm_graph")):
            raise models.Inconclusive("the graph of a set of hits is not accessible")
        g = dec._make_error_graph(hits, b)
        if cfg["kind"] == "matched":
            R.force_fork_matching = True  # one path per set of hits, the library's own matching
            g = dec._run_mwpm_graph(g)
    # the same graph with arbitrary weights
    rx = models._rx
    g2 = (models.SymGraph if R.mode == "sym" else rx.PyGraph)(multigraph=False)
    if R.mode == "sym" and isinstance(g, models.SymGraph):
        g = g.resolve()
    ids = {i: g2.add_node(g[i]) for i in g.node_indices()}
    nodes = [tuple(g[i]) for i in g.node_indices()]
    edges = []
    for i, j, _ in g.weighted_edge_list():
        x = R.real("w_%d_%d" % (ids[i], ids[j]))
        R.assume(x > -100)
        R.assume(x < 100)
        g2.add_edge(ids[i], ids[j], x)
        edges.append((tuple(g[i]), tuple(g[j]), x))
    with recorded() as plt:
        dec.draw(g2)
        figs = plt.figs if R.mode == "sym" else [plt.figure(n) for n in plt.get_fignums()]
        axes = [a for f in figs for a in f.axes]
        R.check(len(axes) == 1, "one drawing is made")
        compare(contents(axes[0]), nodes, edges, T)
    R.check([tuple(g2[i]) for i in ids.values()] == nodes and len(g2.edge_list()) == len(edges), "the graph is not changed by drawing it")


def place(node, T):
    t, r, c = (float(x) for x in node)
    return (c, -r) if T == 1 else (c, -r, (T - 1) / 2 if t == -1 else t)


def compare(what, nodes, edges, T):
    points, lines, texts = what
    fl = lambda p: tuple(float(x) for x in p)
    at = {}
    for n in nodes:
        at.setdefault(place(n, T), []).append(n)
    for p, ns in at.items():
        R.check(any(g is True and fl(q) == p for g, q in points), "node %s is shown at its coordinates" % (ns[0],))
        for n in ns:
            R.check(any(g is True and fl(q) == p and named(t, n) for g, q, t in texts), "node %s is labelled" % (n,))
    R.check(all(fl(q) in at for g, q in points), "no other node is shown")
    R.check(len(points) == len(nodes), "each node is shown once")
    want = {}
    for a, c, x in edges:
        want.setdefault(frozenset((place(a, T), place(c, T))), []).append(x)
    segs = []
    for g, pts, *_ in lines:
        pts = [fl(p) for p in pts]
        segs += [frozenset(s) for s in zip(pts, pts[1:])]
    R.check(all(s in want for s in segs), "no other edge is shown")
    mids = {}
    for e, xs in want.items():
        R.check(e in segs, "edge %s is shown" % (sorted(e),))
        a, c = tuple(e) if len(e) == 2 else tuple(e) * 2
        mid = tuple((x + y) / 2 for x, y in zip(a, c))
        mids[mid] = mids.get(mid, 0) + len(xs)
        labels = [shown_value(t) if isinstance(t, str) else t for g, q, t in texts if fl(q) == mid and not any(named(t, n) for n in nodes)]
        for x in xs:
            R.check(bor(*[rounds(l, x) for l in labels if l is not None]), "the edge between %s and %s shows its weight" % (a, c))
    stray = [(q, t) for g, q, t in texts if not any(named(t, n) for n in at.get(fl(q), [])) and fl(q) not in mids]
    R.check(not stray, "nothing else is labelled")


def named(t, n):
    return t == n or isinstance(t, str) and t == str(tuple(n)) or isinstance(t, str) and t == str(n)


def rounds(l, x):
    if R.mode != "sym" and isinstance(l, str):
        return False
    return band(to_bexpr(l - x <= 0.0051), to_bexpr(x - l <= 0.0051))


# ---------------------------------------------------------------- analyses
def save(env, np, name, d, T, pts):
    env.put(name, {"d": np.array(d), "T": np.array(T), "physical_error_rates": np.array([a for a, _ in pts]), "logical_error_rates": np.array([b for _, b in pts])})


def points_of(n, tag):
    return list(zip(rates(n, tag + "p"), rates(n, tag + "l")))


def curve(line, pts, div, label):
    g, places, marks, _ = line
    R.check(g is True and len(places) == len(pts), label + ": number of points")
    for (x, y), (p, q) in zip(places, pts):
        R.check(close(x, p), label + ": physical rate")
        R.check(close(y, q / div), label + ": logical rate")


def analysis(cfg):
    env = Files().install()
    try:
        with recorded() as plt:
            np = env.np
            T = 3
            pts = points_of(cfg["n"], "a")
            save(env, np, "some.npz", (3, 5), T, pts)
            an = env.bench.TopologicalAnalysis("some.npz")
            an.load_data()
            kw = {}
            target = None
            if cfg["where"] != "new":
                fig = plt.figure()
                target = fig.subplots()
                if cfg["where"] == "older-axes":
                    plt.figure().subplots()  # these are the current axes now
                kw["ax"] = target
                if cfg["where"] == "both":
                    kw["fig"] = fig
            if not cfg["log"]:
                kw["log"] = False
            if cfg["per"]:
                kw["per_round"] = True
            an.plot(label="mine", **kw)
            figs = plt.figs if R.mode == "sym" else [plt.figure(n) for n in plt.get_fignums()]
            used = [a for f in figs for a in f.axes if contents(a)[1]]
            R.check(len(used) == 1, "one plot is made")
            if target is not None:
                R.check(used[0] is target, "the plot is made on the axes given")
            lines = contents(used[0])[1]
            R.check(len(lines) == 1, "one curve is plotted")
            curve(lines[0], pts, T if cfg["per"] else 1, "the curve")
            R.check(lines[0][2], "the points are marked")
            R.check(lines[0][3] == "mine", "plot options are used")
            scales(used[0], cfg["log"])
            for a, b in zip(list(an.data["logical_error_rates"]), pts):
                R.check(close(a, b[1]), "the data is not changed by plotting it")
    finally:
        env.remove()


def scales(ax, log):
    s = ax.scale if R.mode == "sym" else {"x": ax.get_xscale(), "y": ax.get_yscale()}
    R.check(all(v == ("log" if log else "linear") for v in s.values()), "the axes are %s" % ("logarithmic" if log else "linear"))


def batch(cfg):
    env = Files().install()
    try:
        with recorded() as plt:
            np = env.np
            sizes = [(7, 7), (3, 5), (5, 3)][: cfg["n"]]
            pts = {}
            for i, d in enumerate(sizes):
                pts[d] = points_of(2 + i % 2, "s%d" % i)
                save(env, np, "out/f%d.npz" % i, d, i + 1, pts[d])
            saved = []
            if R.mode != "sym":
                os.mkdir("out")
                from matplotlib.figure import Figure as Real

                real = Real.savefig

                def savefig(fig, name, *a, **k):
                    saved.append((str(name), fig))
                    return real(fig, name, *a, **k)

                Real.savefig = savefig
            try:
                ba = env.bench.TopologicalBatchAnalysis("out/")
                ba.plot()
            finally:
                if R.mode != "sym":
                    Real.savefig = real
            if R.mode == "sym":
                saved = plt.saved
            R.check(len(saved) == 2 and len({n for n, _ in saved}) == 2, "two pictures are saved")
            R.check(all(n.startswith("out/") for n, _ in saved), "they are saved with the data")
            R.check(saved[0][1] is not saved[1][1], "they are different pictures")
            kinds = []
            for name, fig in saved:
                R.check(len(fig.axes) == 1, "one plot each")
                ax = fig.axes[0]
                s = ax.scale["x"] if R.mode == "sym" else ax.get_xscale()
                kinds.append(s)
                scales(ax, s == "log")
                lines = contents(ax)[1]
                R.check(len(lines) == len(sizes) + 1, "a curve per code and the break-even line")
                for i, d in enumerate(sizes):
                    mine = [l for l in lines if l[3] == "d=%s,T=%d" % (d, i + 1)]
                    R.check(len(mine) == 1, "the curve of %s is there" % (d,))
                    curve(mine[0], pts[d], 1, "curve of %s" % (d,))
                even = [l for l in lines if l[3] == "breakeven"]
                R.check(len(even) == 1, "the break-even line is there")
                for x, y in even[0][1]:
                    R.check(close(x, y), "logical equals physical on the break-even line")
            R.check(sorted(kinds) == ["linear", "log"], "one logarithmic, one linear")
    finally:
        env.remove()
