"""Logical error rate is the exact fraction of wrong decodings."""
from .common import *
from .c15 import close

EXPLAIN = (
    "The real TopologicalBenchmark.logical_error_rate runs on dictionaries of readouts with symbolic counts and a decoder whose verdict on each readout is a"
    " symbolic bit (and with the real decoder on concrete readouts): rate * total = sum of the counts decoded wrongly, for every value; every readout is decoded"
    " once, as recorded, with the given error probability; the dictionary is unchanged and a second call agrees."
)
BOUNDS = {
    "quick": "1 to 6 distinct readouts, any counts >= 0 with a positive total, any verdicts, expected value 0 or 1, any real error probability or none",
    "thorough": "1 to 10 distinct readouts",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = [ENV_ASSUME[1], "Floating-point arithmetic is treated as exact real arithmetic.", "The decoder is replaced by one with symbolic verdicts (configurations named stub)."]


def configs(tier):
    out = []
    for n in range(1, 7 if tier == "quick" else 11):
        for e in (0, 1):
            for p in ("none", "any", "zero"):
                if p == "zero" and n > 2:
                    continue
                out.append(dict(name="stub-%d-expect%d-%s" % (n, e, p), kind="stub", n=n, e=e, p=p))
    for e in (0, 1):
        for p in ("none", "0.1"):
            out.append(dict(name="real-expect%d-%s" % (e, p), kind="real", e=e, p=p))
    return out


READ = ["1 00000000 00000000", "0 00100000 00100000", "0 00000000 00000000", "1 00001000 00000000", "0 00000101 00001000", "1 00001111 00000001"] + [
    "0 %s 00000000" % format(i, "08b") for i in range(3, 16, 3)
]


class Stub:
    """A decoder with given verdicts; records what it is asked."""

    def __init__(self, verdicts):
        self.params = {"d": (3, 3), "T": 1}
        self.verdicts = verdicts
        self.asked = []

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        self.asked.append((syndromes, logical_readout_type, logical_qubit_value, err_prob))
        return self.verdicts[syndromes]


def harness(cfg):
    q = Q()
    Benchmark = q.bench.TopologicalBenchmark
    reads = READ[: cfg["n"]] if cfg["kind"] == "stub" else READ[:5]
    p = None
    if cfg["p"] == "any":
        p = R.real("p")
        R.assume(p > 0)
        R.assume(p < 1)
    elif cfg["p"] == "zero":
        p = 0.0
    elif cfg["p"] != "none":
        p = float(cfg["p"])
    if cfg["kind"] == "stub":
        dec = Stub({s: R.bit("v%d" % i) for i, s in enumerate(reads)})
        wrong = [eq(dec.verdicts[s], 1 - cfg["e"]) for s in reads]
    else:
        dec = decoder("XXZZ", 3, 3, 1)
        wrong = [dec.correct_readout(s, "Z", err_prob=p) != cfg["e"] for s in reads]
    counts = [R.int("c%d" % i, lo=0) for i in range(len(reads))]
    R.assume(sum(counts) > 0)
    d = dict(zip(reads, counts))
    bm = Benchmark(dec, None, correct_logical_value=cfg["e"])
    args = () if p is None else (p,)
    for call in range(2):
        asked = getattr(dec, "asked", [])
        del asked[:]
        rate = bm.logical_error_rate(d, *args) if call == 0 else bm.logical_error_rate(d, err_prob=p)
        bad = sum([_if(w, c) for w, c in zip(wrong, counts)])
        R.check(ratio(rate, bad, sum(counts)), "rate times total is the count of wrong decodings")
        R.check(list(d) == reads, "the dictionary is unchanged")
        for i, s in enumerate(reads):
            R.check(eq(d[s], counts[i]), "the counts are unchanged")
        if cfg["kind"] == "stub":
            R.check(sorted(a[0] for a in asked) == sorted(reads), "every readout is decoded once, as recorded")
            for a in asked:
                R.check(a[2] is None, "no other logical value is passed")
                R.check(a[3] is None if p is None else (a[3] is not None and eq(a[3], p)), "the error probability is passed on")


def ratio(v, num, den):
    """v * den == num, for den > 0; first as equality of numerator and denominator."""
    from symqt.core import z3, _asreal, zb

    if R.mode == "sym" and getattr(v, "z", None) is not None:
        z = z3.simplify(_asreal(v))
        if z.decl().kind() == z3.Z3_OP_DIV:
            a, b = z.children()
            if not R._sat(zb(bor(to_bexpr(a != _asreal(num)), to_bexpr(b != _asreal(den))))):
                return True
    return close(v * den, num)


def _if(w, c):
    from symqt.core import ite_value

    return ite_value(w, c, 0) if not isinstance(w, bool) else (c if w else 0)
