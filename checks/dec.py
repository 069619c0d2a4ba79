"""Decoder-level harness pieces: symbolic sets of hits, captured matching graphs."""
from .common import *
from symqt.core import GList, z3
from symqt import models
from symqt.spec import FaultGraph

MATCH_ASSUME = (
    "rustworkx.max_weight_matching(max_cardinality=True) returns a maximum-weight matching among those of maximum cardinality"
    " (any one of them, the same one for the same graph); checked against the real library on every counterexample candidate."
)


def fc(p):
    return tuple(float(x) for x in p)


def symbolic_hits(coords, tag="h", most=None, least=None):
    """A list holding each of the coordinates iff its input bit is set; {coordinate: bit}."""
    bits = {c: to_bexpr(R.bool("%s_%g_%g_%g" % ((tag,) + c))) for c in coords}
    if most is not None and most < len(coords):
        R.assume(pb_le([(1, b) for b in bits.values()], most))
    if least is not None:
        R.assume(pb_le([(1, bnot(b)) for b in bits.values()], len(coords) - least))
    return as_list(bits), bits


def as_list(bits):
    l = GList.of([(b, (c[0], c[1], c[2])) for c, b in bits.items()])
    return l


def hits_arg(key, hits, other=()):
    return {key: hits, ("X" if key == "Z" else "Z"): other if isinstance(other, GList) else list(other)}


def plan(tier, quick, thorough):
    """(kind, h, w, basis, T) for lattices that have a graph of that basis."""
    src = dict(quick)
    if tier == "thorough":
        src.update(thorough)
    for (h, w), Ts in src.items():
        for k in ("XXZZ", "REP"):
            if k == "REP" and h != 1 and w != 1:
                continue
            for b in "ZX":
                if (h if b == "Z" else w) == 1:
                    continue
                for T in Ts:
                    yield k, h, w, b, T


def capture():
    R.capture = []
    return R.capture


class Distances:
    """Reference distances as solver variables defined by the Bellman equations of the fault graph."""

    def __init__(self, fg):
        self.fg = fg
        self.cache = {}
        self.names = {v: i for i, v in enumerate(fg.real + fg.boundary)}

    def of(self, a, b):
        if R.mode != "sym":
            return self.fg.dist(a)[0].get(b)
        if a not in self.cache:
            d = {v: z3.Int("d!%d_%d" % (self.names[a], i)) for v, i in self.names.items()}
            R.add(d[a] == 0)
            for v in d:
                if v != a:
                    nb = [d[y] for y in self.fg.adj[v]]
                    for y in nb:
                        R.add(d[v] <= y + 1)
                    R.add(z3.Or(*[d[v] == y + 1 for y in nb]))
                    R.add(d[v] >= 1)
            self.cache[a] = d
        return SInt(z=self.cache[a][b])
