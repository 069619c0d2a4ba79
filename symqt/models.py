"""Contract models of the native libraries the code under test calls with symbolic data.

rustworkx/retworkx: a PyGraph whose nodes and edges may be conditional, and
max_weight_matching as a contract (see matching()).  Everything concrete is forwarded to
the real library.
"""
import sys
import types

import rustworkx as _rx

from .core import (
    R, Sym, SBool, SInt, SReal, GList, SList, MergeFail, Infeasible, Unsupported, Inconclusive, band, bor, bnot, bxor_all, bite,
    to_bexpr, gitems, pb_le, lin_le, z3, zb, _rel_guard, _snap, ite_value, merge_or_fail, has_sym,
)
from . import rt

__verif_model__ = True


class SymGraph:
    """PyGraph/PyDiGraph with conditional nodes and edges.  Node indices are handles."""

    _verif_model_ = True
    _real = _rx.PyGraph

    def __init__(self, *a, **k):
        self.g = self._real(*a, **k)
        self.ng = {}
        self.eg = {}
        self.base = _snap() if R.guards else ()
        self.order = []  # node handles in insertion order
        self.eorder = []

    # ---- guards
    def _gd(self):
        return _rel_guard(self.base) if R.guards else True

    def plain(self):
        return not self.ng and not self.eg

    def nguard(self, i):
        return self.ng.get(i, True)

    def eguard(self, i, j):
        return band(self.eg.get(self._k(i, j), True), self.nguard(i), self.nguard(j))

    def _k(self, i, j):
        return (i, j) if i <= j else (j, i)

    def resolve(self):
        if R.guards:
            raise MergeFail(R.sites(), "graph operation under a guard")
        for i, g in list(self.ng.items()):
            if not R.branch(g):
                self.g.remove_node(i)
                self.order.remove(i)
        self.ng = {}
        for (i, j), g in list(self.eg.items()):
            if self.g.has_edge(i, j) and not R.branch(g):
                self.g.remove_edge(i, j)
        self.eg = {}
        self._sync()
        return self.g

    def _sync(self):
        """Keep the insertion orders in step with what is left in the graph."""
        live = set(self.g.node_indices())
        self.order = [i for i in self.order if i in live]
        self.order += [i for i in self.g.node_indices() if i not in set(self.order)]
        self.eorder = [(i, j) for i, j in self.eorder if i in live and j in live and self.g.has_edge(i, j)]
        known = {self._k(i, j) for i, j in self.eorder}
        self.eorder += [(i, j) for i, j in self.g.edge_list() if self._k(i, j) not in known]

    # ---- construction
    def add_node(self, obj):
        i = self.g.add_node(obj)
        g = self._gd()
        if g is not True:
            self.ng[i] = g
        self.order.append(i)
        return i

    def add_nodes_from(self, objs):
        out = []
        for g, o in gitems(objs):
            if g is True:
                out.append((True, self.add_node(o)))
            else:
                R.guards.append((g, "add_nodes_from"))
                try:
                    out.append((g, self.add_node(o)))
                finally:
                    R.guards.pop()
        return GList.of(out)

    def add_edge(self, i, j, w):
        i, j = self._h(i), self._h(j)
        g = self._gd()
        k = self._k(i, j)
        if not self.g.multigraph and self.g.has_edge(i, j):
            old = self.eg.get(k, True)
            if g is not True:
                w = merge_or_fail(g, w, self.g.get_edge_data(i, j), R.sites()) if old is True or not old.eq(g) else w
                ng = bor(old, g)
            else:
                ng = True
            if ng is True:
                self.eg.pop(k, None)
            else:
                self.eg[k] = ng
            self.g.update_edge(i, j, w)
            return None
        r = self.g.add_edge(i, j, w)
        # an edge guarded by the presence of its end points needs no guard of its own
        if g is not True:
            self.eg[k] = g
        self.eorder.append((i, j))
        return r

    def add_edges_from(self, es):
        for g, e in gitems(es):
            if g is True:
                self.add_edge(*e)
            else:
                R.guards.append((g, "add_edges_from"))
                try:
                    self.add_edge(*e)
                finally:
                    R.guards.pop()

    def _h(self, i):
        return i.concrete() if isinstance(i, Sym) else i

    def remove_node(self, i):
        self.resolve()
        self.g.remove_node(self._h(i))
        self._sync()

    def remove_nodes_from(self, ids):
        self.resolve()
        self.g.remove_nodes_from([self._h(i) for g, i in gitems(ids) if g is True or R.branch(g)])
        self._sync()

    def remove_edge(self, i, j):
        self.resolve()
        self.g.remove_edge(self._h(i), self._h(j))
        self._sync()

    # ---- views
    def node_indices(self):
        return GList.of([(self.nguard(i), i) for i in self.g.node_indices()])

    node_indexes = node_indices

    def nodes(self):
        return GList.of([(self.nguard(i), self.g[i]) for i in self.g.node_indices()])

    def edge_list(self):
        return GList.of([(self.eguard(i, j), (i, j)) for i, j in self.g.edge_list()])

    def weighted_edge_list(self):
        return GList.of([(self.eguard(i, j), (i, j, w)) for i, j, w in self.g.weighted_edge_list()])

    def edges(self):
        return GList.of([(self.eguard(i, j), w) for i, j, w in self.g.weighted_edge_list()])

    def num_nodes(self):
        return rt._b_len(self.nodes())

    def num_edges(self):
        return rt._b_len(self.edge_list())

    def __len__(self):
        n = self.num_nodes()
        return n.concrete() if isinstance(n, Sym) else n

    def __getitem__(self, i):
        return self.g[self._h(i)]

    def __setitem__(self, i, v):
        if R.guards and self._gd() is not True:
            raise MergeFail(R.sites(), "node store under a guard")
        self.g[i] = v

    def get_node_data(self, i):
        return self.g[self._h(i)]

    def get_edge_data(self, i, j):
        return self.g.get_edge_data(self._h(i), self._h(j))

    def has_edge(self, i, j):
        if not self.g.has_edge(i, j):
            return False
        return SBool.mk(self.eguard(i, j))

    def neighbors(self, i):
        return GList.of([(self.eguard(i, j), j) for j in self.g.neighbors(i)])

    def copy(self):
        o = type(self).__new__(type(self))
        o.g = self.g.copy()
        o.ng, o.eg, o.order, o.eorder = dict(self.ng), dict(self.eg), list(self.order), list(self.eorder)
        o.base = _snap() if R.guards else ()
        return o

    def __getattr__(self, n):
        if n.startswith("__") or n in ("g", "ng", "eg"):
            raise AttributeError(n)
        if not hasattr(self.g, n):
            raise AttributeError(n)
        if not self.plain() or R.guards:
            self.resolve()
        m = getattr(self.g, n)
        if not callable(m):
            return m

        def method(*a, **k):
            out = m(*a, **k)
            self._sync()
            return out

        return method


class SymDiGraph(SymGraph):
    _real = _rx.PyDiGraph

    def _k(self, i, j):
        return (i, j)


def _unwrap(a):
    if isinstance(a, SymGraph):
        return a.g if a.plain() else a.resolve()
    return a


def _wrap_graph(r):
    if isinstance(r, _rx.PyGraph) or isinstance(r, _rx.PyDiGraph):
        o = (SymGraph if isinstance(r, _rx.PyGraph) else SymDiGraph).__new__(
            SymGraph if isinstance(r, _rx.PyGraph) else SymDiGraph
        )
        o.g, o.ng, o.eg = r, {}, {}
        o.base = _snap() if R.guards else ()
        o.order, o.eorder = list(r.node_indices()), list(r.edge_list())
        return o
    return r


def _forward(f):
    def w(*a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, SymGraph) and x.plain():
                # conditional weights cannot cross the boundary
                if any(isinstance(wt, Sym) for wt in x.g.edges()):
                    raise Unsupported("%s on symbolic weights" % f.__name__)
        a = [_unwrap(x) for x in a]
        k = {n: _unwrap(x) for n, x in k.items()}
        return _wrap_graph(f(*a, **k))

    w._verif_model_ = True
    w.__name__ = getattr(f, "__name__", "rx_function")
    return w


# --------------------------------------------------------------------------- matching
class Matching:
    """One symbolic call of max_weight_matching."""

    def __init__(self, graph, edges, weights, max_cardinality):
        self.graph, self.edges, self.w, self.maxcard = graph, edges, weights, max_cardinality
        self.m = {}
        self.orient = {}

    def real(self, present_nodes, present_edges):
        """The real library's answer for a concrete presence pattern (real, consecutive indices)."""
        g = _rx.PyGraph(multigraph=False)
        idx = {}
        for h in self.graph.order:
            if present_nodes(h):
                idx[h] = g.add_node(h)
        for (i, j) in self.graph.eorder:
            if i in idx and j in idx and present_edges(i, j):
                g.add_edge(idx[i], idx[j], self.w[self.graph._k(i, j)])
        r = _rx.max_weight_matching(g, max_cardinality=self.maxcard, weight_fn=int)
        return {self.graph._k(g[a], g[b]) for a, b in r}


def _perfect_provable(G, nodes, edges):
    """A perfect matching exists for every presence pattern (with an even number of nodes)."""
    adj = {i: set() for i in nodes}
    for (i, j) in edges:
        full = G.eg.get(G._k(i, j), True)
        both = band(G.nguard(i), G.nguard(j))
        ok = full is True or (not isinstance(both, bool) and full.eq(both)) or _implied(both, full)
        if ok:
            adj[i].add(j)
            adj[j].add(i)
    core = set(nodes)
    # peel nodes that are not adjacent to everything: they need a private, always present partner
    while True:
        bad = [i for i in core if len(adj[i] & core) < len(core) - 1]
        if not bad:
            break
        core.remove(min(bad, key=lambda i: (len(adj[i] & core), i)))
    used = set()
    for x in nodes:
        if x in core:
            continue
        p = [v for v in adj[x] & core if G.nguard(v) is True and v not in used]
        if not p:
            return False
        used.add(p[0])
    odd = bxor_all([G.nguard(i) for i in nodes])
    if odd is False:
        return True
    return odd is not True and not R._sat(zb(odd))


def _implied(a, b):
    key = (a if isinstance(a, bool) else a.get_id(), b.get_id())
    c = R.impl_cache.get(key)
    if c is None:
        c = R.impl_cache[key] = not R._sat(zb(band(a, bnot(b))))
    return c


class Call:
    """What the code under test handed to max_weight_matching, and what it got back."""

    def __init__(self, G, max_cardinality, weight_fn, default_weight):
        self.G, self.maxcard, self.weight_fn, self.default = G, max_cardinality, weight_fn, default_weight
        self.result = None
        sym = isinstance(G, SymGraph)
        g = G.g if sym else G
        idx = list(G.order) if sym else list(g.node_indices())
        self.nodes = [(i, g[i], G.nguard(i) if sym else True) for i in idx]
        self.edges = [(i, j, w, G.eguard(i, j) if sym else True) for i, j, w in g.weighted_edge_list()]

    def weight(self, w):
        """The weight of an edge with data w, as the matching sees it before rounding."""
        return self.default if self.weight_fn is None else w

    def rounded(self, w):
        return w if self.weight_fn is None else rt.call(self.weight_fn, w)

    def pairs(self):
        """[(present, payload, payload)] of the result."""
        pay = {i: p for i, p, _ in self.nodes}
        return [(g, pay[i], pay[j]) for g, (i, j) in gitems(self.result)]


class Captured(Infeasible):
    """Ends the run of the code under test after its matching graph has been captured."""


def _capture(c):
    if R.capture is not None:
        R.capture.append(c)
        if R.capture_stop:
            raise Captured("captured")


ORIENTATIONS = (None, "up", "down", "virtual first", "virtual last", "alternate")


def native_hook():
    """Record the matching calls of the real code (replays).

    The library returns each pair either way round, at random (its hash maps are seeded per run): replays try
    the real answer first and then the same pairs turned round (R.orientation)."""
    library = _rx.max_weight_matching

    def virtual(graph, i):
        try:
            return graph[i][0] == -1
        except (TypeError, LookupError):
            return False

    def real(graph, *args):
        out = library(graph, *args)
        how = getattr(R, "orientation", None)
        if how is None:
            return out
        R.oriented = getattr(R, "oriented", 0) + 1
        if how == "alternate":
            how = ("up", "down")[R.oriented % 2]

        def turn(i, j):
            if "virtual" in how:
                first, last = virtual(graph, i), virtual(graph, j)
                if first != last:
                    return (i, j) if first == (how == "virtual first") else (j, i)
            return (min(i, j), max(i, j)) if how != "down" else (max(i, j), min(i, j))

        return {turn(i, j) for i, j in out}

    def max_weight_matching(graph, max_cardinality=False, weight_fn=None, default_weight=1, verify_optimum=False):
        if R.capture is None:
            return real(graph, max_cardinality, weight_fn, default_weight, verify_optimum)
        c = Call(graph, max_cardinality, weight_fn, default_weight)
        _capture(c)
        c.result = real(graph, max_cardinality, weight_fn, default_weight, verify_optimum)
        return c.result

    import retworkx

    for m in (_rx, retworkx):
        m.max_weight_matching = max_weight_matching


def max_weight_matching(graph, max_cardinality=False, weight_fn=None, default_weight=1, verify_optimum=False):
    if R.capture is None or not isinstance(graph, SymGraph) or R.guards:
        return _max_weight_matching(graph, max_cardinality, weight_fn, default_weight, verify_optimum)
    c = Call(graph, rt.truth(max_cardinality), weight_fn, default_weight)
    _capture(c)
    c.result = _max_weight_matching(graph, max_cardinality, weight_fn, default_weight, verify_optimum)
    return c.result


def _max_weight_matching(graph, max_cardinality=False, weight_fn=None, default_weight=1, verify_optimum=False):
    if not isinstance(graph, SymGraph):
        return _rx.max_weight_matching(graph, max_cardinality, weight_fn, default_weight, verify_optimum)
    if R.guards:
        raise MergeFail(R.sites(), "matching under a guard")
    max_cardinality = rt.truth(max_cardinality)
    G = graph
    if R.mode != "sym" or R.force_fork_matching:
        return _real_matching(G, max_cardinality, weight_fn, default_weight)
    nodes = list(G.order)
    edges = [(i, j) for i, j in G.eorder]
    W = {}
    for i, j in edges:
        w = default_weight if weight_fn is None else rt.call(weight_fn, G.g.get_edge_data(i, j))
        if isinstance(w, Sym):
            raise Unsupported("symbolic matching weights")
        W[G._k(i, j)] = int(w)
    if G.plain():
        return _real_matching(G, max_cardinality, weight_fn, default_weight)
    M = Matching(G, edges, W, max_cardinality)
    if max_cardinality and not _perfect_provable(G, nodes, edges):
        R.stats.notes["matching resolved by forking (no perfect matching provable)"] = (
            R.stats.notes.get("matching resolved by forking (no perfect matching provable)", 0) + 1
        )
        return _real_matching(G, max_cardinality, weight_fn, default_weight)
    ng = [G.nguard(i) for i in nodes]
    egs = [G.eguard(i, j) for i, j in edges]
    key = (
        tuple((i, repr(G.g[i]), _gid(g)) for i, g in zip(nodes, ng)),
        tuple((i, j, W[G._k(i, j)], _gid(g)) for (i, j), g in zip(edges, egs)), max_cardinality,
    )
    if key in R.match_memo:
        # the library is deterministic: the same graph has the same matching, each pair either way round
        M = R.match_memo[key][0]
        R.match_n += 1
        out = []
        for _, (i, j) in gitems(R.match_memo[key][1]):
            if i < j:
                v = M.m[G._k(i, j)]
                o = z3.Bool("o%d_%d_%d" % (R.match_n, i, j))
                out += [(band(v, o), (i, j)), (band(v, z3.Not(o)), (j, i))]
        r = GList.of(out)
        if type(r) is GList:
            r.isset = True
        return r
    R.match_n += 1
    inc = {i: [] for i in nodes}
    out = []
    for i, j in edges:
        if i == j:
            continue
        eg = G.eguard(i, j)
        if eg is False:
            continue
        v = z3.Bool("m%d_%d_%d" % (R.match_n, i, j))
        M.m[G._k(i, j)] = v
        if eg is not True:
            R.add(z3.Implies(v, eg))
        inc[i].append(v)
        inc[j].append(v)
        o = z3.Bool("o%d_%d_%d" % (R.match_n, i, j))
        M.orient[G._k(i, j)] = o
        out.append((band(v, o), (i, j)))
        out.append((band(v, z3.Not(o)), (j, i)))
    for i in nodes:
        vs = inc[i]
        if len(vs) > 1:
            R.add(z3.PbLe([(v, 1) for v in vs], 1))
        if max_cardinality:
            g = G.nguard(i)
            R.add(z3.Or(*vs) if g is True else z3.Implies(g, z3.Or(*vs) if vs else z3.BoolVal(False)))
    R.matchings.append(M)
    for f in R.hooks.get("witness", []):
        f(M)
    r = GList.of(out)
    if type(r) is GList:
        r.isset = True
        R.match_memo[key] = (M, r.copy(), ng, egs)  # (the guards stay alive: their identities are in the key)
    return r


def _gid(g):
    return g if isinstance(g, bool) else g.get_id()


def _real_matching(G, max_cardinality, weight_fn, default_weight):
    g = G.g if G.plain() else G.resolve()
    fn = None if weight_fn is None else (lambda w: int(rt.call(weight_fn, w)))
    # rebuild with consecutive indices, as a run without the model would have had
    h = _rx.PyGraph(multigraph=False)
    idx = {i: h.add_node(i) for i in G.order}
    for i, j in G.eorder:
        if g.has_edge(i, j):
            h.add_edge(idx[i], idx[j], g.get_edge_data(i, j))
    r = _rx.max_weight_matching(h, max_cardinality=max_cardinality, weight_fn=fn, default_weight=default_weight)
    if R.mode != "sym":
        return {(h[a], h[b]) for a, b in r}
    R.match_n += 1
    out = []
    for a, b in sorted({(min(h[a], h[b]), max(h[a], h[b])) for a, b in r}):
        o = z3.Bool("o%d_%d_%d" % (R.match_n, a, b))
        out += [(o, (a, b)), (z3.Not(o), (b, a))]
    l = GList.of(out)
    if type(l) is GList:
        l.isset = True
    return l


max_weight_matching._verif_model_ = True


def refine(model):
    """Compare a solver model with what the real library would answer; add a lemma if it differs.

    Returns True when a lemma was added (the model was spurious)."""

    def ev(e):
        if isinstance(e, bool):
            return e
        return z3.is_true(model.eval(e, model_completion=True))

    added = False
    for M in R.matchings:
        G = M.graph
        pn = {i: ev(G.nguard(i)) for i in G.order}
        pe = {G._k(i, j): ev(G.eguard(i, j)) for i, j in M.edges}
        real = M.real(lambda i: pn[i], lambda i, j: pe[G._k(i, j)])
        diff = [k for k, v in M.m.items() if ev(v) != (k in real)]
        if diff:
            pat = [G.nguard(i) if pn[i] else bnot(G.nguard(i)) for i in G.order if G.nguard(i) is not True]
            for k, g in G.eg.items():
                e = G.eguard(*k)
                if not isinstance(e, bool) and pn[k[0]] and pn[k[1]]:
                    pat.append(e if pe[k] else bnot(e))
            pat = band(*pat)
            # only pairs that are not between two always-present nodes of equal standing matter
            lemma = z3.And(*[v if k in real else z3.Not(v) for k, v in M.m.items()])
            R.add(z3.Implies(zb(pat), lemma))
            R.stats.lemmas += 1
            added = True
    return added


def chain_bound(faults, is_virtual, key=None):
    """Witness for optimality: a fault set explains the hits, so some perfect matching is as cheap.

    faults: [(selector, [coordinate, ...], touches_boundary)]; coordinates identify graph nodes by
    payload.  The premises (the code's own costs are no larger than fault-chain lengths, and meet
    the triangle inequality through boundary nodes) are checked on the code's weights; if they do
    not hold no witness is given.
    """

    def hook(M):
        G = M.graph
        cost = {k: -w for k, w in M.w.items()}
        if not M.maxcard:
            return
        nodes = list(G.order)
        pay = {i: G.g[i] for i in nodes}
        hits = [i for i in nodes if not is_virtual(pay[i])]
        virt = [i for i in nodes if is_virtual(pay[i]) and G.nguard(i) is True]
        extra = [i for i in nodes if is_virtual(pay[i]) and G.nguard(i) is not True]
        idx = {tuple(map(float, pay[i])): i for i in hits}
        INF = 10 ** 9
        # fault graph over the hit nodes of this matching plus intermediate coordinates
        coords = sorted({c for _, cs, _ in faults for c in cs})
        if not set(idx) <= set(coords):
            return R.note("witness: a hit lies outside the fault graph")
        ci = {c: n for n, c in enumerate(coords)}
        adj = {c: set() for c in coords}
        bd = set()
        for sel, cs, b in faults:
            if len(cs) == 2 and not b:
                adj[cs[0]].add(cs[1])
                adj[cs[1]].add(cs[0])
            elif len(cs) == 1 and b:
                bd.add(cs[0])
            elif cs:
                return R.note("witness: unexpected fault shape")
        from collections import deque

        def bfs(srcs):
            d = {c: 0 for c in srcs}
            q = deque(srcs)
            while q:
                c = q.popleft()
                for e in adj[c]:
                    if e not in d:
                        d[e] = d[c] + 1
                        q.append(e)
            return d

        dB = {c: d + 1 for c, d in bfs(sorted(bd)).items()}
        unit = R.hooks.get("unit", 1)
        for a, i in idx.items():
            da = bfs([a])
            for b, j in idx.items():
                if j <= i:
                    continue
                if cost.get(G._k(i, j), INF) > unit * da.get(b, INF):
                    return R.note("witness premise fails: pair cost")
                for v in virt:
                    if cost.get(G._k(i, j), INF) > cost.get(G._k(i, v), INF) + cost.get(G._k(j, v), INF):
                        return R.note("witness premise fails: triangle")
            best = min([cost.get(G._k(i, v), INF) for v in virt] or [INF])
            if a in dB and best > unit * dB[a]:
                return R.note("witness premise fails: boundary cost")
        for x in range(len(virt)):
            for y in range(x):
                if cost.get(G._k(virt[x], virt[y]), INF) > 0:
                    return R.note("witness premise fails: virtual cost")
        if len(virt) % 2 or len(extra) > 1:
            return R.note("witness premise fails: virtual parity")
        for e in extra:
            for v in virt:
                if cost.get(G._k(e, v), INF) > 0:
                    return R.note("witness premise fails: extra cost")
        terms = [(cost[k], v) for k, v in M.m.items()]
        terms += [(-unit, to_bexpr(sel)) for sel, _, _ in faults]
        R.add(pb_le(terms, 0))
        R.note("witness used")

    return hook


def pairing_bound(pairs, is_virtual):
    """Witness for optimality: an alternative pairing of the present hits, boundaries reused freely.

    pairs: [(selector, hit, hit or None for a boundary, cost)].  Two hits sharing a boundary node can be
    joined directly at no more (triangle), the remaining boundary nodes pair up at no cost; so the
    contract's optimum costs no more than the alternative.  Premises are checked on the code's weights."""

    def hook(M):
        G = M.graph
        cost = {k: -w for k, w in M.w.items()}
        if not M.maxcard:
            return
        nodes = list(G.order)
        pay = {i: tuple(map(float, G.g[i])) for i in nodes}
        idx = {pay[i]: i for i in nodes if not is_virtual(pay[i])}
        virt = [i for i in nodes if is_virtual(pay[i]) and G.nguard(i) is True]
        extra = [i for i in nodes if is_virtual(pay[i]) and G.nguard(i) is not True]
        INF = 10 ** 9
        for x in range(len(virt)):
            for y in range(x):
                if cost.get(G._k(virt[x], virt[y]), INF) > 0:
                    return R.note("witness premise fails: virtual cost")
        if len(virt) % 2 or len(extra) > 1:
            return R.note("witness premise fails: virtual parity")
        for e in extra:
            for v in virt:
                if cost.get(G._k(e, v), INF) > 0:
                    return R.note("witness premise fails: extra cost")
        hs = list(idx.values())
        for x, i in enumerate(hs):
            for j in hs[:x]:
                for v in virt:
                    if cost.get(G._k(i, j), INF) > cost.get(G._k(i, v), INF) + cost.get(G._k(j, v), INF):
                        return R.note("witness premise fails: triangle")
        for sel, a, c, wt in pairs:
            if a not in idx or (c is not None and c not in idx):
                return R.note("witness premise fails: a hit without a node")
            if c is None:
                best = min([cost.get(G._k(idx[a], v), INF) for v in virt] or [INF])
            else:
                best = cost.get(G._k(idx[a], idx[c]), INF)
            if best > wt:
                return R.note("witness premise fails: a pair costs more than its chain")
        R.add(lin_le([(cost[k], v) for k, v in M.m.items()] + [(-wt, to_bexpr(s)) for s, _, _, wt in pairs], 0))
        R.note("witness used")

    return hook


def install():
    """Put the models in place of the real modules for the instrumented package."""
    for name in ("retworkx", "rustworkx"):
        __import__(name)
        real = sys.modules[name]
        m = types.ModuleType(name)
        for n in dir(real):
            if n.startswith("__") and n not in ("__version__", "__doc__", "__path__", "__file__"):
                continue
            v = getattr(real, n)
            if isinstance(v, types.ModuleType):
                setattr(m, n, v)
            elif isinstance(v, type):
                setattr(m, n, v)
            elif callable(v):
                setattr(m, n, _forward(v))
            else:
                setattr(m, n, v)
        m.PyGraph, m.PyDiGraph = SymGraph, SymDiGraph
        m.max_weight_matching = max_weight_matching
        m._real_module = real
        REAL[name] = real
        MODEL[name] = m


REAL, MODEL = {}, {}


class swapped:
    """Context in which `import retworkx` yields the model (used while importing the package)."""

    def __enter__(self):
        if not MODEL:
            install()
        for n, m in MODEL.items():
            sys.modules[n] = m

    def __exit__(self, *a):
        for n, m in REAL.items():
            sys.modules[n] = m
