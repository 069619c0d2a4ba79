"""Repetition codes correct up to half their length."""
from .common import *
from . import e2e

EXPLAIN = (
    "As C07/C08 with RepetitionQubit and RepetitionDecoder: symbolic errors of the protected kind (at most (d-1)/2, over all"
    " intervals), arbitrary errors of the unprotected kind, both logical values, every outcome."
)
BOUNDS = {
    "quick": "d in {3,5,7}, both protections, T<=3 layers (d=3: T<=4), with and without interior syndrome flips, logical and lattice readout",
    "thorough": "also d in {9,11} and T<=5",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = e2e.ENV_ASSUME + [
    "rustworkx.max_weight_matching(max_cardinality=True) returns a maximum-weight matching among those of maximum cardinality"
    " (any one of them); checked against the real library on every counterexample candidate.",
]


def configs(tier):
    out = []
    ds = {3: (1, 2, 3, 4, 11), 5: (1, 2, 3), 7: (1, 2, 3)}
    if tier == "thorough":
        ds = {3: (1, 2, 3, 4, 5, 11, 16), 5: (1, 2, 3, 4, 5), 7: (1, 2, 3, 4), 9: (1, 2, 3), 11: (1, 2)}
    for d, Ts in ds.items():
        for T in Ts:
            for b in "ZX":
                for meas in (False, True):
                    for lat in (False, True):
                        if meas and T == 1:
                            continue
                        h, w = (d, 1) if b == "Z" else (1, d)
                        out.append(dict(name=nm("REP", h, w, "T%d" % T, "flips" if meas else "noflips", "lattice" if lat else "logical"),
                                        k="REP", h=h, w=w, T=T, b=b, lattice=lat, meas=meas, other=True, samples=1))
    return out


def harness(cfg):
    e2e.run(cfg)
