"""Surface codes correct every error up to half their distance."""
from .common import *
from . import e2e

EXPLAIN = (
    "End to end: real preparation, symbolic logical value, real rounds, symbolic data errors of the flipping letter in one interval (at"
    " most (d-1)/2), arbitrary errors of the other letter, every measurement outcome, real readout, real decode. The"
    " matching library is replaced by its contract (some perfect matching, no more expensive than the error chain itself); the decoded value must be the prepared one."
)
BOUNDS = {
    "quick": "XXZZ, XZZX; 3x3, 3x5, 5x3, 5x5, 3x7, 7x3; X and Z basis; one or two layers, with the errors in either; logical and lattice readout at 3x3",
    "thorough": "also 5x7, 7x5, 7x7 and three layers",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME + [
    "rustworkx.max_weight_matching(max_cardinality=True) returns a maximum-weight matching among those of maximum cardinality"
    " (any one of them); checked against the real library on every counterexample candidate.",
]


def configs(tier):
    out = []
    sizes = [(3, 3), (3, 5), (5, 3), (5, 5), (3, 7), (7, 3), (1, 3), (3, 1), (1, 5), (5, 1)]
    if tier == "thorough":
        sizes += [(5, 7), (7, 5), (7, 7), (1, 9), (9, 1), (3, 9), (9, 3)]
    for k, h, w in families(sizes, ("XXZZ", "XZZX")):
        for b in "ZX":
            d = h if b == "Z" else w
            if d == 1:
                continue
            Ts = (1, 2) if h * w <= 15 else (1,)
            if tier == "thorough":
                Ts = (1, 2, 3) if h * w <= 25 else (1,)
            long = (11,) if h * w <= 9 else ()
            for T in Ts + long:
                for l in range(T) if T < 11 else (0, T // 2, T - 1):
                    out.append(dict(name=nm(k, h, w, b, "T%d" % T, "l%d" % l), k=k, h=h, w=w, T=T, b=b, layers=[l], other=True, samples=1))
            if h * w <= 25:
                out.append(dict(name=nm(k, h, w, b, "lattice"), k=k, h=h, w=w, T=1, b=b, layers=[0], other=True, lattice=True, samples=1))
    return out


def harness(cfg):
    e2e.run(cfg)
