"""Logical states and operators behave as one qubit."""
from .common import *

EXPLAIN = (
    "(a) arbitrary prior state, reset_z or reset_x, slots of conditionally selected logical X, Z, X (symbolic selectors) between"
    " real rounds, readout in the preparation basis compared with the selected parity, no hits; (b) arbitrary encoded"
    " state (Choi + first round): selected logical operators act as the Pauli group element with that parity."
)
BOUNDS = {
    "quick": "h,w <= 7 and 9x3, 3x9, 6 slots of operators, rounds between them; all selections, all outcomes",
    "thorough": "also 9x9, 11x3, 3x11; 12 slots",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    out = []
    sizes = SIZES["small"] + SIZES["mid"] + SIZES["big"] + ([(9, 9), (11, 3), (3, 11)] if tier == "thorough" else [])
    for k, h, w in families(sizes):
        for part in ("prep-Z", "prep-X", "act"):
            out.append(dict(name=nm(k, h, w, part), k=k, h=h, w=w, part=part, slots=6 if tier == "quick" else 12,
                            samples=1 if h * w <= 15 else 0))
    return out


def harness(cfg):
    k, h, w, part, n = cfg["k"], cfg["h"], cfg["w"], cfg["part"], cfg["slots"]
    code = Code(k, h, w)
    tq = build(k, h, w)
    D = data(tq)
    P = Prog(tq.circ)
    ref = P.bell(D)
    bits = {}

    def slot(t):
        for j, (nme, f) in enumerate((("x", tq.x), ("z", tq.z), ("x", tq.x))):
            s = bits[t, j, nme] = to_bexpr(R.bool("%s_%d_%d" % (nme, t, j)))
            P.do(s, f)

    if part == "act":
        regs = [stabilize(tq)]
        for t in range(n):
            slot(t)
            if t % 2:
                regs.append(stabilize(tq))
        obs_choi(P, "a", code, D, ref)
        tq.readout_z()
    else:
        regs = []
        getattr(tq, "reset_" + part[-1].lower())()
        for t in range(n):
            regs.append(stabilize(tq))
            slot(t)
        regs.append(stabilize(tq))
        getattr(tq, "readout_" + part[-1].lower())()

    def par(l):
        return bxor_all([b for (t, j, nme), b in bits.items() if nme == l])

    def check(res):
        if part == "act":
            check_choi(res, "a", code, res.reg(regs[0]), par("x"), par("z"), "logical operators on an encoded state")
        else:
            l, hits = tq.parse_readout(res.string())
            R.check(eqbit(l, par("x" if part == "prep-Z" else "z")), "readout in the preparation basis")
            check_hits(hits["X"], {}, "no X hit")
            check_hits(hits["Z"], {}, "no Z hit")
        for t in range(1, len(regs)):
            for a, b in zip(res.reg(regs[0]), res.reg(regs[t])):
                R.check(iff(a, b), "logical operators cause no syndrome change")

    P.run(check)
