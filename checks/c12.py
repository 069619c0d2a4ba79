"""Degeneracy weighting counts all shortest chains."""
from .dec import *
import math

EXPLAIN = (
    "The real correct_readout is run with a symbolic error probability 0 < p < 1/2 on a symbolic set of hits and on the set of all hits; the"
    " matching graph handed to the library is captured and each cost is compared, for every p, with distance and number of shortest"
    " chains of the reference fault graph: cost = d - ln(n)/(ln(1-p)-ln(p)), ln uninterpreted up to its product and quotient laws;"
    " the rounding applied for the library keeps at least three decimals."
)
BOUNDS = {
    "quick": "lattices up to 5x5, 3x7, 7x3, lines to 7; T<=3; all hits at once in both orders, with any hit first (up to 16 nodes), any two hits (up to 9 nodes), any set of at most 3 (4 nodes); all real p in (0,1/2)",
    "thorough": "also 7x7, T<=4; any hit first up to 40 nodes, any two hits up to 24, any three up to 6",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME[1:] + [
    "Floating-point arithmetic is treated as real arithmetic; math.log as an uninterpreted function with ln(ab)=ln a+ln b ln(a/b)=ln a-ln b and monotone.",
]


def configs(tier):
    out = []
    quick = {(3, 3): (1, 2, 3), (3, 1): (1, 3, 11), (1, 3): (1, 3, 11), (3, 5): (1, 2), (5, 3): (1, 2), (5, 5): (1, 2), (1, 7): (2,), (7, 1): (2,),
             (3, 7): (1,), (7, 3): (1,)}
    th = {(3, 3): (1, 2, 3, 4), (5, 5): (1, 2, 3), (7, 7): (1, 2), (5, 7): (1, 2), (7, 5): (1, 2), (3, 7): (1, 2, 3), (7, 3): (1, 2, 3)}
    for k, h, w, b, T in plan(tier, quick, th):
        n = len(FaultGraph(Code(k, h, w), b, T).real)
        def add(sets, **kw):
            out.append(dict(name=nm(k, h, w, b, "T%d" % T, sets), k=k, h=h, w=w, b=b, T=T, sets=sets, samples=1, **kw))

        add("all")
        add("reversed")
        if n <= (16 if tier == "quick" else 40):
            add("first")
        if n <= (9 if tier == "quick" else 24):
            add("pair")
        if n <= (4 if tier == "quick" else 6):
            add("some", most=3)
    return out


def harness(cfg):
    k, h, w, b, T = cfg["k"], cfg["h"], cfg["w"], cfg["b"], cfg["T"]
    fg = FaultGraph(Code(k, h, w), b, T)
    dec = decoder(k, h, w, T)
    p = R.real("p")
    R.assume(p > 0)
    R.assume(p < 0.5)
    if R.mode == "sym":
        from symqt.rt import ln_of

        lp, lq = ln_of(p.z), ln_of(1 - p.z)
        L = lq - lp
        R.add(lp < lq)
        R.add(lq < 0)
    else:
        L = math.log(1 - p) - math.log(p)
    if cfg["sets"] == "some":
        hits, bits = symbolic_hits(fg.real, most=cfg["most"], least=1)
    else:
        hits = list(fg.real)
        if cfg["sets"] == "reversed":
            hits = hits[::-1]
        elif cfg["sets"] == "first":
            c = pick("first", hits)
            hits = [c] + [x for x in hits if x != c]
        elif cfg["sets"] == "pair":
            c = pick("first", hits)
            hits = [c, pick("second", [x for x in hits if x != c])]
        bits = {c: True for c in hits}
    calls = capture()
    R.capture_stop = True
    try:
        dec.correct_readout(hits_arg(b, hits), b, 0, p)
    except models.Captured:
        pass
    R.check(len(calls) == 1, "a matching graph is built")
    call = calls[0]
    pay = {i: fc(x) for i, x, _ in call.nodes}
    isb = set(fg.boundary)
    D = {a: fg.dist(a) for a in fg.real}
    for i, j, wt, g in call.edges:
        a, c = pay[i], pay[j]
        if not (a in bits and (c in bits or c in isb) or c in bits and a in isb):
            continue
        if a not in bits:
            a, c = c, a
        d, n = D[a][0][c], D[a][1][c]
        if c in isb:
            n = sum(D[a][1][v] for v in fg.boundary if D[a][0][v] == d)
        R.check(bor(bnot(g), same(-call.weight(wt), d, n, L)), "cost of joining %s and %s: %d faults, %d chains" % (a, c, d, n))
    # the rounding for the integer matching keeps the differences
    one = call.rounded(1.0)
    x = R.real("x")
    R.assume(x >= -60)
    R.assume(x <= 0)
    y = call.rounded(x)
    R.check(one >= 1000, "at least three decimals are kept")
    if R.mode == "sym":
        R.check(band(to_bexpr(y - x * one <= 1), to_bexpr(x * one - y <= 1)), "rounding error below one unit")
    else:
        R.check(abs(y - x * one) <= 1 + 1e-6, "rounding error below one unit")


def pick(name, values):
    """A value chosen by an input variable."""
    i = R.int(name)
    R.assume(i >= 0)
    R.assume(i < len(values))
    for n, v in enumerate(values[:-1]):
        if i == n:
            return v
    return values[-1]


def same(v, d, n, L):
    """v == d - ln(n)/L."""
    if R.mode != "sym":
        return abs(float(v) - (d - math.log(n) / L)) < 1e-9 * (1 + 1 / L)
    from symqt.core import _asreal, _zc

    z = _asreal(v)
    ref = z3.RealVal(d) - (_zc(math.log(n)) / L if n > 1 else z3.RealVal(0))
    e = z3.simplify(z == ref)
    if z3.is_true(e):
        return True
    # up to rounding of the constants
    dz = (z - ref) * L
    eps = z3.RealVal("1/1000000000")
    return z3.Or(e, z3.And(dz <= eps * (1 + L), dz >= -eps * (1 + L)))
