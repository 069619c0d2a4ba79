"""Logical readout measures exactly the logical operator."""
from .common import *

EXPLAIN = (
    "Arbitrary input (Choi) state, encoded or not: a readout returns the logical operator's eigenvalue, every generator"
    " commuting with it keeps its value, a repetition returns the same bit, and following rounds show no hit."
)
BOUNDS = {
    "quick": "h,w up to 9x9, lines to 15, and 1x1; readouts b, b, and b, other, other, b",
    "thorough": "also 11x11, 13x3, 3x13, 13x13, lines to 25",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    out = []
    sizes = [(1, 1)] + SIZES["small"] + SIZES["mid"] + SIZES["big"] + [(9, 1), (1, 9)]
    sizes += [(9, 7), (7, 9), (9, 9), (15, 1), (1, 15)]
    if tier == "thorough":
        sizes += [(11, 11), (13, 3), (3, 13), (13, 13), (25, 1), (1, 25)]
    for k, h, w in families(sizes):
        for b in "ZX":
            out.append(dict(name=nm(k, h, w, b), k=k, h=h, w=w, b=b, samples=1 if h * w <= 9 else 0))
    return out


def harness(cfg):
    k, h, w, b = cfg["k"], cfg["h"], cfg["w"], cfg["b"]
    o = "X" if b == "Z" else "Z"
    code = Code(k, h, w)
    L = code.logical_z() if b == "Z" else code.logical_x()
    # any state at all, no round before
    tq = build(k, h, w)
    D = data(tq)
    P = Prog(tq.circ, "a")
    ref = P.bell(D)
    read = {"Z": tq.readout_z, "X": tq.readout_x}
    r1 = newreg(tq, read[b])
    comm = commutant(code.n, [L])
    for i, g in enumerate(comm):
        P.obs("g%d" % i, xprod(on(g, D), on(g, ref)))
    P.obs("L", on(L, D))
    P.obs("LR", on(L, ref))
    r2 = newreg(tq, read[b])

    def check(res):
        v = res.bit(r1[0])
        R.check(len(r1) == 1 and len(r2) == 1, "a readout is one bit")
        R.check(iff(v, res.obs("L")), "the readout is the value of the logical operator")
        R.check(iff(v, res.obs("LR")), "the readout is the input state's value of the logical operator")
        R.check(iff(v, res.bit(r2[0])), "a second readout repeats the first")
        for i, g in enumerate(comm):
            R.check(iff(res.obs("g%d" % i), tsign(g)), "an observable commuting with the logical operator is unchanged")

    P.run(check)
    # encoded, with rounds around
    tq = build(k, h, w)
    D = data(tq)
    P2 = Prog(tq.circ, "b")
    P2.bell(D)
    read = {"Z": tq.readout_z, "X": tq.readout_x}
    regs = [stabilize(tq)]
    outs = []
    for n, x in enumerate((b, o, o, b)):
        if n == 1:
            regs.append(stabilize(tq))
        outs.append(newreg(tq, read[x]))
        regs.append(stabilize(tq))

    def check2(res):
        for r in regs[1:]:
            for x, y in zip(res.reg(regs[0]), res.reg(r)):
                R.check(iff(x, y), "a readout causes no hit")
        R.check(iff(res.bit(outs[1][0]), res.bit(outs[2][0])), "repeated readout, with a round between")

    P2.run(check2)
