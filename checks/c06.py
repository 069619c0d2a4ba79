"""Parsing a readout string loses and invents nothing."""
from .common import *

EXPLAIN = (
    "The real parse_readout (of the qubit, of the decoder and of TopologicalCircuit) runs on a readout string all of whose"
    " bits are symbolic, in logical form and in both full-lattice forms; logical value and the exact set of hits"
    " are compared with the reference geometry for every string. The coordinates are compared with the nodes of the decoder's graph."
)
BOUNDS = {
    "quick": "h,w <= 9 and 11x3, 3x11, T up to 4 layers (2 for the larger ones), 11 on 3x3 and lines; all strings of the right shape",
    "thorough": "also 11x11, 13x3, 3x13 and T up to 8, 20 on 3x3 and lines",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME[1:] + ["Readout strings are well formed: one token per register, newest left, widths as documented."]


def configs(tier):
    out = []
    plan = [(SIZES["small"] + SIZES["mid"], (1, 2, 3, 4)), (SIZES["big"] + [(9, 9), (11, 3), (3, 11)], (1, 2)), (LONG, (11,))]
    if tier == "thorough":
        plan = [(SIZES["small"] + SIZES["mid"], range(1, 9)), (SIZES["big"] + [(9, 9), (11, 3), (3, 11)], (1, 2, 3)), ([(11, 11), (13, 3), (3, 13)], (1, 2)), (LONG, (11, 20))]
    for sizes, Ts in plan:
        for k, h, w in families(sizes):
            for T in Ts:
                out.append(dict(name=nm(k, h, w, "T%d" % T), k=k, h=h, w=w, T=T, samples=1))
    return out


def harness(cfg):
    k, h, w, T = cfg["k"], cfg["h"], cfg["w"], cfg["T"]
    q = Q()
    code = Code(k, h, w)
    keys = code.keys()
    N = len(keys)
    rounds = [[to_bexpr(R.bool("s%d_%d" % (t, j))) for j in range(N)] for t in range(T + 1)]
    dat = [to_bexpr(R.bool("d%d" % i)) for i in range(h * w)]
    lb = to_bexpr(R.bool("l"))

    def string(first):
        out = list(reversed(first))
        for r in reversed(rounds):
            out += [" "] + list(reversed(r))
        return SStr.mk(out)

    dec = decoder(k, h, w, T)
    reg = q.TopologicalRegister(
        ctypes=[{"REP": "Repetition"}.get(k, k)] * 2,
        params=[dict({"d": (h, w)}, **({"phase-flip-protected": h == 1 and w > 1} if k == "REP" else {})) for _ in (0, 1)],
    )
    tc = q.TopologicalCircuit(reg)
    own = build(k, h, w)
    # the decoder parses with the same geometry as every encoder of that size
    parsers = {
        "qubit": own.parse_readout,
        "decoder": dec.parse_readout,
        "circuit, by number": lambda *a: tc.parse_readout(1, *a),
        "circuit, by qubit": lambda *a: tc.parse_readout(reg[0], *a),
    }
    base = {(t,) + keys[j][1]: (keys[j][0], R.define("h%d_%d" % (t, j), bxor(rounds[t][j], rounds[t + 1][j]))) for t in range(T) for j in range(N)}
    R.check(len(base) == T * N, "distinct bits have distinct coordinates")

    def verify(label, res, lval, exp):
        l, hits = res
        R.check(eqbit(l, lval), label + ": logical value")
        R.check(set(hits) == {"X", "Z"}, label + ": one list per type")
        for key in "XZ":
            check_hits(hits[key], {c: e for c, (kk, e) in exp.items() if kk == key}, "%s: hits of type %s" % (label, key))

    for n, f in parsers.items():
        verify(n + ", logical readout", f(string([lb]), "Z"), lb, base)
        if n in ("qubit", "decoder"):
            verify(n + ", logical readout, X", f(string([lb]), "X"), lb, base)
            verify(n + ", logical readout, no type", f(string([lb])), lb, base)
        for b in "ZX":
            sup = range(w) if b == "Z" else range(0, h * w, w)
            lval = R.define("L%s%s" % (b, n), bxor_all([dat[i] for i in sup]))
            exp = dict(base)
            for j, (key, c) in enumerate(keys):
                last = bxor_all([dat[i] for _, i in sites(h, w, c)]) if key == b else rounds[T][j]
                exp[(T,) + c] = (key, R.define("last%s%s%d" % (b, n, j), bxor(rounds[T][j], last)))
            verify("%s, lattice readout %s" % (n, b), f(string(dat), b), lval, exp)
    # every coordinate is a node of the decoder's graph and vice versa
    for key in dec.syndrome_graph_keys:
        nodes = [tuple(float(x) for x in c) for _, c in gitems(dec.S[key].nodes())]
        R.check(len(set(nodes)) == len(nodes), "graph nodes are distinct")
        real = {c for c in nodes if c[0] >= 0}
        want = {tuple(float(x) for x in c) for c, (kk, _) in base.items() if kk == key}
        R.check(real == want, "graph %s has exactly the parsable coordinates" % key)
        nm_ = {tuple(float(x) for x in c): i for c, i in dec.node_map[key].items()}
        for c in want:
            R.check(c in nm_ and tuple(float(x) for x in dec.S[key][nm_[c]]) == c, "node map of " + key)
    for key in "XZ":
        if key not in dec.syndrome_graph_keys:
            R.check(not [1 for c, (kk, _) in base.items() if kk == key], "no graph only where there are no hits")
