"""Decoder chain costs are true fault counts."""
from .dec import *

EXPLAIN = (
    "The real correct_readout is given a symbolic set of hits (every coordinate present or not); the matching graph it hands to the matching"
    " library is captured. Every pair's cost must equal the distance in the reference fault graph, whose distances"
    " are solver variables constrained by the Bellman equations; and for any matching the library could return, the decoded"
    " value must be flipped once per matched hit-boundary pair whose chains cross the logical operator an odd number of times."
)
BOUNDS = {
    "quick": "lattices up to 5x5, 3x7, 7x3, lines to 9; T in {1,2,3}; all subsets of hits (all pairs of at most 2 hits for the larger ones)",
    "thorough": "also 7x7, 5x7, 7x5, T<=4",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME[1:] + [MATCH_ASSUME]


def configs(tier):
    out = []
    quick = {(3, 3): (1, 2, 3, 8), (3, 1): (1, 3, 12), (1, 3): (1, 3, 12), (3, 5): (1, 2), (5, 3): (1, 2), (5, 5): (1, 2, 3), (3, 7): (1,),
             (7, 3): (1,), (1, 9): (2,), (9, 1): (2,)}
    th = {(3, 3): (1, 2, 3, 4, 8, 12), (5, 5): (1, 2, 3, 4), (7, 7): (1, 2), (5, 7): (1, 2), (7, 5): (1, 2), (3, 7): (1, 2, 3), (7, 3): (1, 2, 3)}
    for k, h, w, b, T in dec_plan(tier, quick, th):
        n = h * w
        out.append(dict(name=nm(k, h, w, b, "T%d" % T, "pairs"), k=k, h=h, w=w, b=b, T=T, most=2, samples=2))
        if n * T <= 27 or (tier == "thorough" and n * T <= 50):
            out.append(dict(name=nm(k, h, w, b, "T%d" % T, "subsets"), k=k, h=h, w=w, b=b, T=T, most=None, samples=2))
    return out


dec_plan = plan


def harness(cfg):
    k, h, w, b, T = cfg["k"], cfg["h"], cfg["w"], cfg["b"], cfg["T"]
    fg = FaultGraph(Code(k, h, w), b, T)
    dec = decoder(k, h, w, T)
    hits, bits = symbolic_hits(fg.real, most=cfg["most"], least=1)
    l = to_bexpr(R.bool("l"))
    calls = capture()
    got = dec.correct_readout(hits_arg(b, hits), b, SInt.from_bit(l) if R.mode == "sym" else int(l))
    R.reachable("a decoding")
    dist = Distances(fg)
    isb = set(fg.boundary)
    par = l
    for call in calls:
        pay = {i: fc(p) for i, p, _ in call.nodes}
        for i, j, wt, g in call.edges:
            a, c = pay[i], pay[j]
            if not (a in bits and (c in bits or c in isb) or c in bits and a in isb):
                continue
            if a not in bits:
                a, c = c, a
            R.check(bor(bnot(g), eq(-call.weight(wt), dist.of(a, c))), "cost of joining %s and %s" % (a, c))
            R.check(bor(bnot(g), eq(-call.rounded(wt), dist.of(a, c))), "matched cost of joining %s and %s" % (a, c))
        for g, a, c in call.pairs():
            a, c = fc(a), fc(c)
            if a in bits and c in isb or c in bits and a in isb:
                if a not in bits:
                    a, c = c, a
                if fg.crosses(a, c):
                    par = bxor(par, g)
    if calls:
        R.check(eqbit(got, par), "the value is flipped once per matched chain that crosses the logical operator")
