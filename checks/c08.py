"""Decoding tolerates measurement errors across rounds."""
from .common import *
from . import e2e

EXPLAIN = (
    "As C07, with T+1 rounds, data errors in every interval and flips of the syndrome bits of every interior round, all symbolic, at"
    " most (d-1)/2 in total (other-type data errors and flips arbitrary where stated); the last layer from a round or from a full-lattice readout."
)
BOUNDS = {
    "quick": "XXZZ, XZZX: 3x3 T<=4 and T=8, 3x1/1x3 T=11, 3x5/5x3 T<=3, 5x5 T<=3, 1-D to length 7; other-type faults arbitrary at 3x3 and T=2",
    "thorough": "also 3x3 T<=6 and 12, 5x5 T<=4, 3x7, 7x3, 5x7, 7x5, 7x7 (T<=3, weight 3), 3x9, 9x3",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME + [
    "rustworkx.max_weight_matching(max_cardinality=True) returns a maximum-weight matching among those of maximum cardinality"
    " (any one of them); checked against the real library on every counterexample candidate.",
]


def configs(tier):
    out = []
    th = tier == "thorough"
    sizes = {(3, 3): (2, 3, 4, 8), (3, 1): (11,), (1, 3): (11,), (3, 5): (2, 3), (5, 3): (2, 3), (5, 5): (2, 3), (1, 5): (2, 3), (5, 1): (2, 3), (1, 7): (3,), (7, 1): (3,)}
    if th:
        sizes.update({(3, 3): (2, 3, 4, 5, 6, 8, 12), (5, 5): (2, 3, 4), (3, 7): (2, 3), (7, 3): (2, 3), (5, 7): (2, 3), (7, 5): (2, 3),
                      (7, 7): (2, 3), (3, 9): (2, 3), (9, 3): (2, 3), (1, 9): (3, 4), (9, 1): (3, 4)})
    for (h, w), Ts in sizes.items():
        for k in ("XXZZ", "XZZX"):
            for b in "ZX":
                if (h if b == "Z" else w) == 1:
                    continue
                for T in Ts:
                    for lat in (False, True):
                        other = (h * w <= 9 or th) and T == 2
                        out.append(dict(name=nm(k, h, w, b, "T%d" % T, "lattice" if lat else "logical"), k=k, h=h, w=w, T=T, b=b,
                                        lattice=lat, meas=True, other=other, samples=1))
    return out


def harness(cfg):
    e2e.run(cfg)
