"""Errors between rounds are reported as exactly the plaquettes they touch."""
from .common import *

EXPLAIN = (
    "Arbitrary input state (Choi), T+1 real rounds; symbolic X and Z error bits on every data qubit before every round and a"
    " symbolic flip of every syndrome bit; the hits returned by the real parse_readout on the symbolic result"
    " string equal the anticommutation pattern of the reference stabilizers, for every pattern and every outcome."
)
BOUNDS = {
    "quick": "h,w <= 7 up to 7x7, 9x3, 3x9, T up to 5 (4, 2 for larger ones), T = 11 on 3x3 and lines; all 4^(n(T+1)) error patterns and all flips",
    "thorough": "also 9x9, 11x3, 3x11, 11x11; T up to 8 (5, 4 for larger ones), 20 on 3x3 and lines",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    out = []
    plan = [(SIZES["small"], (1, 2, 3, 4, 5)), (SIZES["mid"], (1, 2, 3, 4)), (SIZES["big"], (1, 2)), (LONG, (11,))]
    if tier == "thorough":
        plan = [(SIZES["small"], range(1, 9)), (SIZES["mid"], range(1, 6)), (SIZES["big"], (1, 2, 3, 4)), ([(9, 9), (11, 3), (3, 11), (11, 11)], (1, 2)), (LONG, (11, 20))]
    for sizes, Ts in plan:
        for k, h, w in families(sizes):
            for T in Ts:
                out.append(dict(name=nm(k, h, w, "T%d" % T), k=k, h=h, w=w, T=T, samples=1 if h * w <= 15 else 0))
    return out


def harness(cfg):
    k, h, w, T = cfg["k"], cfg["h"], cfg["w"], cfg["T"]
    code = Code(k, h, w)
    tq = build(k, h, w)
    D = data(tq)
    P = Prog(tq.circ)
    P.bell(D)
    S = code.stabilizers()
    keys = code.keys()
    err = {}
    regs = []
    for t in range(T + 1):
        for i, q in enumerate(D):
            for l in "XZ":
                e = err[t, i, l] = to_bexpr(R.bool("e%s_%d_%d" % (l, t, i)))
                P.fault(l, q, e)
        regs.append(stabilize(tq))
    flip = {}
    for t in range(T + 1):
        for j in range(len(S)):
            f = flip[t, j] = to_bexpr(R.bool("f_%d_%d" % (t, j)))
            P.flip(regs[t][j], f)
    tq.readout_z()

    def anti(t, s):
        return bxor_all([err[t, i, l] for i, p in s.items() for l in "XZ" if l != p])

    def check(res):
        _, hits = tq.parse_readout(res.string())
        for key in "ZX":
            exp = {}
            for j, s in enumerate(S):
                if keys[j][0] != key:
                    continue
                for t in range(T):
                    c = (t,) + keys[j][1]
                    exp[c] = bxor_all([anti(t + 1, s), flip[t, j], flip[t + 1, j]])
            check_hits(hits[key], exp, "hits of type " + key)

    P.run(check)
