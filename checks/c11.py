"""The decoder's matching explains every hit exactly once at least cost."""
from .dec import *
from symqt.core import zb
import math

EXPLAIN = (
    "The real decoder pairs a symbolic set of hits; the matching library is replaced by its contract. Every present hit must be"
    " in exactly one reported pair, pairs may hold nothing else than present hits and boundary positions (never two boundaries), and"
    " for every alternative pairing (symbolic, boundaries reused freely, costs from the reference fault graph) the reported"
    " pairs cost no more. The drawable matched graph is compared with the list of pairs from the same error graph."
)
BOUNDS = {
    "quick": "lattices up to 5x5 and lines to 7, T<=3; all subsets of up to 18 coordinates, at most 4 hits beyond; matched graph: at most 3 hits on 3x3; with an error probability: at most 3 hits on 3x3, 2 on 3x5, 5x3, all on lines of 5",
    "thorough": "also 7x7, T<=4 (at most 4 hits), all subsets of up to 36 coordinates",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME[1:] + [MATCH_ASSUME]


def configs(tier):
    out = []
    quick = {(3, 3): (1, 2, 3), (3, 1): (1, 3, 11), (1, 3): (1, 3, 11), (3, 5): (1, 2), (5, 3): (1, 2), (5, 5): (1, 2), (1, 7): (2,), (7, 1): (2,)}
    th = {(3, 3): (1, 2, 3, 4), (5, 5): (1, 2, 3), (7, 7): (1,), (5, 7): (1, 2), (7, 5): (1, 2), (3, 7): (1, 2, 3), (7, 3): (1, 2, 3)}
    lim = 36 if tier == "thorough" else 18
    for k, h, w, b, T in plan(tier, quick, th):
        n = len(FaultGraph(Code(k, h, w), b, T).real)
        most = None if n <= lim else 4
        out.append(dict(name=nm(k, h, w, b, "T%d" % T), k=k, h=h, w=w, b=b, T=T, most=most, samples=2))
    for h, w, T in ((3, 3, 1), (3, 1, 3), (1, 3, 3), (3, 5, 1)) + (((5, 5, 1), (3, 3, 2)) if tier == "thorough" else ()):
        for b in "ZX":
            if (h if b == "Z" else w) > 1:
                out.append(dict(name=nm("XXZZ", h, w, b, "T%d" % T, "graph"), k="XXZZ", h=h, w=w, b=b, T=T, most=3, graph=True, samples=3))
    # with an error probability: costs lowered by the degeneracy (see C12), compared up to the rounding for the library
    probs = [(3, 3, 1, 0.25, 3), (3, 5, 1, 0.25, 2), (5, 3, 1, 0.125, 2), (5, 1, 1, 0.25, None), (1, 5, 1, 0.25, None), (3, 1, 2, 0.125, None)]
    graphs = [(5, 5, 1, 0.0625, 2), (5, 5, 1, 0.25, 3)]
    if tier == "thorough":
        probs += [(3, 3, 1, 0.375, None), (3, 3, 2, 0.25, 3), (5, 5, 1, 0.125, 2), (1, 5, 2, 0.25, 3), (5, 1, 2, 0.25, 3)]
        graphs += [(5, 7, 1, 0.1, 3), (3, 3, 3, 0.25, 3)]
    for which, l in (("prob", probs), ("probgraph", graphs)):
        for h, w, T, p, most in l:
            for b in "ZX":
                if tier == "quick" and which == "prob" and h * w == 15 and (h if b == "Z" else w) == 5:
                    continue  # many chain counts: minutes
                if (h if b == "Z" else w) > 1:
                    out.append(dict(name=nm("XXZZ", h, w, b, "T%d" % T, which, "m%s" % most), k="XXZZ", h=h, w=w, b=b, T=T, p=p, most=most, graph=which == "probgraph", samples=3))
    return out


def cost(fg, a, p):
    """Cost of joining hit a to every other place."""
    d, n = fg.dist(a)
    if p is None:
        return dict(d)
    L = math.log((1 - p) / p)
    out = {}
    for c in d:
        m = n[c]
        if c in fg.boundary:
            m = sum(n[v] for v in fg.boundary if d.get(v) == d[c])
        out[c] = d[c] - math.log(m) / L if m else d[c]
    return out


def harness(cfg):
    k, h, w, b, T = cfg["k"], cfg["h"], cfg["w"], cfg["b"], cfg["T"]
    fg = FaultGraph(Code(k, h, w), b, T)
    dec = decoder(k, h, w, T)
    hits, bits = symbolic_hits(fg.real, most=cfg["most"], least=1)
    if cfg.get("graph") and cfg.get("p"):
        return weights(cfg, fg, dec)
    if cfg.get("graph"):
        return graph(cfg, fg, dec, hits, bits)
    p = cfg.get("p")
    D = {a: cost(fg, a, p) for a in fg.real}
    if p is not None:
        D = {a: {c: round(v * 10**6) for c, v in m.items()} for a, m in D.items()}
    kw = {} if p is None else {"err_prob": p}
    # an arbitrary alternative pairing
    alt = []
    for x, a in enumerate(fg.real):
        for c in fg.real[x + 1 :]:
            alt.append((R.bool("a_%d_%d" % (x, fg.real.index(c))), a, c, D[a][c]))
        alt.append((R.bool("a_%d_b" % x), a, None, min(D[a][v] for v in fg.boundary)))
    alt = [(to_bexpr(s), a, c, d) for s, a, c, d in alt]
    for a in fg.real:
        inc = [s for s, x, y, _ in alt if a in (x, y)]
        R.assume(biff(bor(*inc), bits[a]))
        R.assume(pb_le([(1, s) for s in inc], 1))
    if p is None:
        R.hooks["witness"] = [models.pairing_bound(alt, lambda p: p[0] == -1)]
    fn = getattr(dec, "_corrections", None)
    calls = capture()
    if fn is None:
        dec.correct_readout(hits_arg(b, hits), b, 0, **kw)
        pairs = [(g, a, c) for call in calls for g, a, c in call.pairs() if not (a[0] == -1 and c[0] == -1)]
    else:
        pairs = [(g, m[0], m[1]) for g, m in gitems(fn(hits, b, **kw))]
    isb = set(fg.boundary)
    use = {a: [] for a in fg.real}
    terms = [(-d, s) for s, _, _, d in alt]
    merged = {}
    for g, a, c in pairs:
        a, c = fc(a), fc(c)
        if (c, a) in merged:
            a, c = c, a
        merged.setdefault((a, c), []).append(g)
    for (a, c), gs in merged.items():
        g = either(gs, a, c)
        R.check(bor(bnot(g), a in bits or a in isb), "a pair joins hits and boundaries only %s" % (a,))
        R.check(bor(bnot(g), c in bits or c in isb), "a pair joins hits and boundaries only %s" % (c,))
        R.check(bor(bnot(g), a in bits or c in bits), "no pair of boundaries %s %s" % (a, c))
        for x in (a, c):
            if x in use:
                use[x].append(g)
        if a in bits:
            terms.append((D[a][c], g))
        elif c in bits:
            terms.append((D[c][a], g))
    for a, gs in use.items():
        R.check(biff(bor(*gs), bits[a]), "hit %s is paired iff it is there" % (a,))
        R.check(pb_le([(1, g) for g in gs], 1), "hit %s is paired once" % (a,))
    slack = 0 if p is None else 110 * (cfg["most"] or len(fg.real))  # 10^-4 per pair in the library's integers
    R.check(lin_le(terms, slack), "no other pairing costs less")


def either(gs, a, c):
    """Disjunction of the conditions under which a pair is reported, as the library's own variable if possible."""
    if len(gs) == 1 and isinstance(gs[0], bool):
        return gs[0]
    if len(gs) == 2 and all(z3.is_and(g) and g.num_args() == 2 for g in gs if not isinstance(g, bool)) and not any(isinstance(g, bool) for g in gs):
        a, b = gs[0].children(), gs[1].children()
        for x in a:
            for y in b:
                if x.eq(y):
                    p = [v for v in a if not v.eq(x)]
                    q = [v for v in b if not v.eq(y)]
                    if len(p) == len(q) == 1 and bnot(p[0]).eq(q[0]):
                        return x
    g = bor(*gs)
    if not isinstance(g, bool):
        for M in R.matchings:
            pay = {fc(M.graph.g[i]): i for i in M.graph.order}
            v = M.m.get(M.graph._k(pay[a], pay[c])) if a in pay and c in pay else None
            if v is not None and not R._sat(zb(bxor(g, v))):
                return v
    return g


def graph(cfg, fg, dec, hits, bits):
    mk, run, rungraph = (getattr(dec, n, None) for n in ("_make_error_graph", "_run_mwpm", "_run_mwpm_graph"))
    if not (mk and run and rungraph):
        raise models.Inconclusive("the matched graph is not accessible")
    g = mk(hits, cfg["b"])
    pairs = gitems(run(g))
    mg = rungraph(g)
    want = {}
    for gd, m in pairs:
        want.setdefault(frozenset((fc(m[0]), fc(m[1]))), []).append(gd)
    got = {}
    pay = {i: (n, p) for (i, (n, p)) in zip([i for _, i in gitems(mg.node_indices())], [(n, fc(p)) for n, p in gitems(mg.nodes())])}
    seen = {}
    for i, (n, p) in pay.items():
        seen.setdefault(p, []).append(n)
    for p, ns in seen.items():
        for x in range(len(ns)):
            for y in range(x):
                R.check(bnot(band(ns[x], ns[y])), "one node per place")
    for gd, (i, j, wt) in gitems(mg.weighted_edge_list()):
        e = frozenset((pay[i][1], pay[j][1]))
        got.setdefault(e, []).append(gd)
        a, c = sorted(e)[::-1]
        R.check(bor(bnot(gd), eq(-wt, fg.dist(a)[0].get(c))), "the drawn edge carries the cost of its pair")
    for e in set(want) | set(got):
        R.check(biff(bor(*want.get(e, [])), bor(*got.get(e, []))), "matched graph and matches agree on %s" % (sorted(e),))
    touched = {}
    for e, gs in want.items():
        for p in e:
            touched.setdefault(p, []).extend(gs)
    for p in set(seen) | set(touched):
        R.check(biff(bor(*seen.get(p, [])), bor(*touched.get(p, []))), "the matched graph has the matched places only")


def weights(cfg, fg, dec):
    """With an error probability, the drawn graph solves the same problem as the list of matches.

    The two calls of the matching library get the same graph and integer weights that are equal for every
    real cost: then the answers are equal.  Only if the weights can differ, sets of hits are searched for two
    different answers."""
    mk, run, rungraph = (getattr(dec, n, None) for n in ("_make_error_graph", "_run_mwpm", "_run_mwpm_graph"))
    if not (mk and run and rungraph):
        raise models.Inconclusive("the matched graph is not accessible")
    calls = capture()
    g = mk(list(fg.real), cfg["b"], err_prob=cfg["p"])
    run(g, floats=True)
    first = list(calls)
    rungraph(g, floats=True)
    rest = calls[len(first) :]
    R.capture = None
    x = R.real("cost")
    R.assume(x >= -60)
    R.assume(x <= 0)
    # every way of choosing a few hits
    n = len(fg.real)
    take = [R.int("hit%d" % m) for m in range(cfg["most"])]
    R.assume(take[0] >= 0)
    for a, b in zip(take, take[1:]):
        R.assume(a < b)
    R.assume(take[-1] < n)
    if R.mode == "sym":
        differ = [to_bexpr(r.rounded(x) != f.rounded(x)) for f in first for r in rest]
        equal = len(first) == 1 and all(shape(r) == shape(first[0]) for r in rest) and not R._sat(zb(bor(*differ)))
        if equal:
            R.check(True, "the same matching problem")
            return
    hits = []
    for t in take:
        for i in range(n):
            if t == i:
                hits.append(fg.real[i])
                break
    g = mk(hits, cfg["b"], err_prob=cfg["p"])
    pairs = {frozenset((fc(m[0]), fc(m[1]))) for _, m in gitems(run(g, floats=True))}
    mg = rungraph(g, floats=True)
    drawn = {frozenset((fc(mg[i]), fc(mg[j]))) for i, j, _ in mg.weighted_edge_list()}
    R.check(pairs == drawn, "matched graph and matches agree with an error probability")


def shape(c):
    return (c.maxcard, sorted((i, fc(p)) for i, p, _ in c.nodes), sorted((i, j, float(w)) for i, j, w, _ in c.edges))
