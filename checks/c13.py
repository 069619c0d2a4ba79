"""Decoding has no side effects."""
from symqt import env
from symqt.core import list_eq

from .dec import *

EXPLAIN = (
    "The real decoder decodes a symbolic set of hits (or a fully symbolic readout string), then other inputs (other hits, the other basis,"
    " strings, full-lattice strings, another decoder of another size), then the first input again, and another decoder, used for other inputs first, decodes it once more:"
    " all answers are equal for every input, the caller's lists and dictionary are unchanged, and parsing first gives the same answer."
)
BOUNDS = {
    "quick": "lattices up to 5x5 and lines to 7, T<=3; all subsets of hits up to 12 coordinates, at most 4 hits beyond; strings: all of 3x3, 3x5, lines; with err_prob: sets of at most 2 hits on 3x3, 3x5, 5x3 and lines, each with three error probabilities in turn",
    "thorough": "also 7x7, 5x7, 7x5; all subsets up to 24 coordinates",
}
ASSUMPTIONS = ENV_ASSUME[1:] + [MATCH_ASSUME]


def configs(tier):
    out = []
    quick = {(3, 3): (1, 2), (3, 1): (1, 3, 11), (1, 3): (1, 3, 11), (3, 5): (1,), (5, 3): (1,), (5, 5): (1, 2), (1, 7): (1,), (7, 1): (1,)}
    th = {(3, 3): (1, 2, 3), (5, 5): (1, 2, 3), (7, 7): (1,), (5, 7): (1,), (7, 5): (1,), (3, 7): (1, 2), (7, 3): (1, 2)}
    lim = 24 if tier == "thorough" else 12
    for k, h, w, b, T in plan(tier, quick, th):
        n = len(FaultGraph(Code(k, h, w), b, T).real)
        c = dict(k=k, h=h, w=w, b=b, T=T, samples=2)
        out.append(dict(c, name=nm(k, h, w, b, "T%d" % T, "hits"), most=None if n <= lim else 4))
        if h * w <= 15:
            out.append(dict(c, name=nm(k, h, w, b, "T%d" % T, "string"), string=True, most=None if n <= lim else 4))
            out.append(dict(c, name=nm(k, h, w, b, "T%d" % T, "lattice"), string=True, lattice=True, most=None if n <= lim else 4))
        if n <= (4 if tier == "quick" else 12) or n <= 8 and T == 1 and k == "XXZZ":
            out.append(dict(c, name=nm(k, h, w, b, "T%d" % T, "prob"), most=2, p=0.375))
    return out


def string(code, T, lattice, tag=""):
    """A readout string of symbolic bits; its logical and data bits."""
    first = [to_bexpr(R.bool("%sd%d" % (tag, i))) for i in range(code.n if lattice else 1)]
    out = list(reversed(first))
    for t in range(T if lattice else T + 1):
        t = (T if lattice else T + 1) - 1 - t
        out += [" "] + [to_bexpr(R.bool("%ss%d_%d" % (tag, t, j))) for j in reversed(range(code.n - 1))]
    return SStr.mk(out)


def snapshot(d):
    return {k: [(g, c) for g, c in gitems(v)] for k, v in d.items()}


def unchanged(d, before, lists, what):
    R.check(set(d) == set(before), what + ": keys")
    for k in before:
        R.check(d[k] is lists[k], what + ": list of " + k)
        # as sequences: a list whose entries were decided meanwhile is still the same list
        R.check(to_bexpr(list_eq(GList.of(before[k]), d[k])), what + ": entries of " + k)


def harness(cfg):
    k, h, w, b, T, p = cfg["k"], cfg["h"], cfg["w"], cfg["b"], cfg["T"], cfg.get("p")
    code = Code(k, h, w)
    fg = FaultGraph(code, b, T)
    o = "X" if b == "Z" else "Z"
    dec = decoder(k, h, w, T)
    kw = {} if p is None else {"err_prob": p}
    other = [c for c in (FaultGraph(code, o, T).real if (w if b == "Z" else h) > 1 and k != "REP" else [])][:2]
    if not cfg.get("string"):
        l = to_bexpr(R.bool("l"))
        val = SInt.from_bit(l) if R.mode == "sym" else int(l)
        hits, bits = symbolic_hits(fg.real, most=cfg["most"])
        arg = hits_arg(b, hits, other)
        lists = dict(arg)
        before = snapshot(arg)

        def decode(d, kw=kw):
            return d.correct_readout(arg, b, val, **kw)

        def same():
            unchanged(arg, before, lists, "the caller's hits are left as they were")
    else:
        s = string(code, T, cfg.get("lattice"))
        if cfg["most"] is not None:
            lv, sy = dec.parse_readout(s, b)
            R.assume(pb_le([(1, g) for g, _ in gitems(sy[b])], cfg["most"]))

        def decode(d):
            return d.correct_readout(s, b, **kw)

        def same():
            lv, sy = dec.parse_readout(s, b)
            before, lists = snapshot(sy), dict(sy)
            got = dec.correct_readout(sy, b, lv, **kw)
            R.check(eq(got, r0), "parsing first gives the same answer")
            unchanged(sy, before, lists, "the parsed hits are left as they were")
            got = dec.correct_readout(sy, logical_readout_type=b, logical_qubit_value=lv, **kw)
            R.check(eq(got, r0), "decoding the parsed hits twice gives the same answer")
    r0 = decode(dec)
    R.reachable("a decoding")
    same()
    if p is not None:
        # the same hits with another error probability and with none, on this decoder and on fresh ones
        for other_kw in ({}, {"err_prob": 0.0625}):
            R.check(eq(decode(dec, other_kw), decode(decoder(k, h, w, T), other_kw)), "the answer belongs to the error probability given")
        R.check(eq(decode(dec), r0), "decoding again gives the same answer")
    # anything else in between
    def others(d, T):
        c = Code(k, *d.params["d"])
        one = {"Z": [], "X": []}
        for key in "ZX":
            if key in d.syndrome_graph_keys and (c.h if key == "Z" else c.w) > 1:
                one[key] = list(FaultGraph(c, key, T).real)[:3]
        for key in "ZX":
            if one[key]:
                d.correct_readout(one, key, 1)
                d.correct_readout({key: one[key][1:2], ("X" if key == "Z" else "Z"): []}, key, 0, 0.3)
                d.correct_readout({key: one[key], ("X" if key == "Z" else "Z"): []}, key, 0, 0.07)
                for kind in (1, c.n):
                    n = T + 1 if kind == 1 else T
                    d.correct_readout(" ".join(["1" * kind] + [("10" * (c.n + n))[i : i + c.n - 1] for i in range(n)]), key)

    others(dec, T)
    big = decoder(k, h + 2 if h > 1 else 1, w + 2 if w > 1 else 1, T + 1)
    others(big, T + 1)
    R.check(eq(decode(dec), r0), "decoding again gives the same answer")
    same()
    used = decoder(k, h, w, T)
    others(used, T)
    R.check(eq(decode(used), r0), "a decoder used for anything else before gives the same answer")
    # in a package where decoders of other shapes were built and used before it, some with equally many coordinates
    with env.fresh():
        for hh, ww, TT in shapes(k, h, w, T):
            others(decoder(k, hh, ww, TT), TT)
        R.check(eq(decode(decoder(k, h, w, T)), r0), "decoders of other shapes used before make no difference")


def shapes(k, h, w, T):
    """Other shapes: turned over, longer, and up to three whose graphs have as many coordinates."""
    out = [(w, h, T), (h, w, T + 1)]
    mine = sizes(k, h, w, T)
    odd = range(1, 10, 2)
    for a in odd:
        for b in odd:
            if (k == "REP") != (min(a, b) == 1) or a * b == 1 or len(out) > 4:
                continue
            for t in (1, 2, 3):
                if (a, b, t) != (h, w, T) and (a, b, t) not in out and mine & sizes(k, a, b, t):
                    out.append((a, b, t))
    return [s for s in out if s != (h, w, T)]


def sizes(k, h, w, T):
    out = set()
    for key in "ZX":
        if (h if key == "Z" else w) > 1 and (k != "REP" or (key == "Z") == (h > 1)):
            fg = FaultGraph(Code(k, h, w), key, T)
            out |= {("real", len(fg.real)), ("all", len(fg.adj))}
    return out
