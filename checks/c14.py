"""Decoding depends only on syndrome changes."""
from .dec import *
from .c13 import string

EXPLAIN = (
    "The real decoder decodes two related symbolic inputs and the answers are compared for every value: readout strings with the logical bit"
    " flipped, with one symbolic pattern XOR-ed into every round, with arbitrary other-type syndrome bits; and hits with the value flipped or with"
    " other-type hits. Without hits of the type the recorded bit comes back."
)
BOUNDS = {
    "quick": "lattices up to 5x5 and lines to 7, T<=3; all subsets of hits up to 12 coordinates, at most 4 hits beyond; any pattern, any other-type hits; with err_prob: at most 2 hits on 3x3 and lines",
    "thorough": "also 7x7, 5x7, 7x5; all subsets up to 24 coordinates",
}
ASSUMPTIONS = ENV_ASSUME[1:] + [MATCH_ASSUME]


def configs(tier):
    out = []
    quick = {(3, 3): (1, 2, 3), (3, 1): (1, 3, 11), (1, 3): (1, 3, 11), (3, 5): (1,), (5, 3): (1,), (5, 5): (1, 2), (1, 7): (1,), (7, 1): (1,)}
    th = {(3, 3): (1, 2, 3), (5, 5): (1, 2, 3), (7, 7): (1,), (5, 7): (1,), (7, 5): (1,), (3, 7): (1, 2), (7, 3): (1, 2)}
    lim = 24 if tier == "thorough" else 12
    for k, h, w, b, T in plan(tier, quick, th):
        n = len(FaultGraph(Code(k, h, w), b, T).real)
        c = dict(k=k, h=h, w=w, b=b, T=T, samples=2)
        out.append(dict(c, name=nm(k, h, w, b, "T%d" % T), most=None if n <= lim else 4))
        if n <= (4 if tier == "quick" else 8):
            out.append(dict(c, name=nm(k, h, w, b, "T%d" % T, "prob"), most=2, p=0.0625))
    return out


def harness(cfg):
    k, h, w, b, T, p = cfg["k"], cfg["h"], cfg["w"], cfg["b"], cfg["T"], cfg.get("p")
    kw = {} if p is None else {"err_prob": p}
    code = Code(k, h, w)
    o = "X" if b == "Z" else "Z"
    keys = code.keys()
    dec = decoder(k, h, w, T)
    l = to_bexpr(R.bool("l"))
    rounds = [[to_bexpr(R.bool("s%d_%d" % (t, j))) for j in range(code.n - 1)] for t in range(T + 1)]
    pat = [to_bexpr(R.bool("p%d" % j)) for j in range(code.n - 1)]
    free = [[to_bexpr(R.bool("f%d_%d" % (t, j))) for j in range(code.n - 1)] for t in range(T + 1)]

    def text(l, rs):
        out = [l]
        for r in reversed(rs):
            out += [" "] + list(reversed(r))
        return SStr.mk(out)

    same = [bxor(rounds[t][j], rounds[t + 1][j]) for t in range(T) for j in range(code.n - 1) if keys[j][0] == b]
    if cfg["most"] is not None:
        R.assume(pb_le([(1, d) for d in same], cfg["most"]))
    base = dec.correct_readout(text(l, rounds), b, **kw)
    R.check(bor(eqbit(base, True), eqbit(base, False)), "the answer is a bit")
    flip = dec.correct_readout(text(bnot(l), rounds), b, **kw)
    R.check(bor(band(eqbit(base, True), eqbit(flip, False)), band(eqbit(base, False), eqbit(flip, True))), "flipping the recorded bit flips the value")
    other = dec.correct_readout(text(l, [[bxor(x, y) for x, y in zip(r, pat)] for r in rounds]), b, **kw)
    R.check(eq(other, base), "a pattern in every round changes nothing")
    if any(key != b for key, _ in keys):
        alt = dec.correct_readout(text(l, [[x if keys[j][0] == b else f[j] for j, x in enumerate(r)] for r, f in zip(rounds, free)]), b, **kw)
        R.check(eq(alt, base), "hits of the other type change nothing")
    none = dec.correct_readout(text(l, [[rounds[0][j] if keys[j][0] == b else x for j, x in enumerate(r)] for r in rounds]), b, **kw)
    R.check(eqbit(none, l), "without hits of the type the recorded bit is returned")
    # the same on parsed hits
    coords = [(float(t),) + c for t in range(T) for key, c in keys if key == b]
    hits = GList.of(list(zip(same, coords)))
    oc = [(float(t),) + c for t in range(T) for key, c in keys if key == o]
    ohits = GList.of([(to_bexpr(free[int(c[0])][n % (code.n - 1)]), c) for n, c in enumerate(oc)])
    one, zero = 1, 0
    for n, arg in (("", []), (", other hits", ohits)):
        r1 = dec.correct_readout(hits_arg(b, hits, arg), b, one, **kw)
        r0 = dec.correct_readout(hits_arg(b, hits, arg), b, zero, **kw)
        R.check(bor(band(eqbit(r1, True), eqbit(r0, False)), band(eqbit(r1, False), eqbit(r0, True))), "flipping the value given flips the answer" + n)
        R.check(bor(bnot(eq(base, 1)), eq(_pick(l, r1, r0), 1)), "hits decode as the string does" + n)
        R.check(bor(eq(base, 1), eq(_pick(l, r1, r0), 0)), "hits decode as the string does" + n)
        for v in (0, 1):
            R.check(eq(dec.correct_readout(hits_arg(b, [], arg), b, v, **kw), v), "no hits: the value comes back" + n)


def _pick(l, a, b):
    from symqt.core import ite_value

    return ite_value(l, a, b) if R.mode == "sym" and not isinstance(l, bool) else (a if l else b)
