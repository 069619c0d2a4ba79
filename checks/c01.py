"""A stabilization round is exactly a projective stabilizer measurement."""
from .common import *

EXPLAIN = (
    "Data qubits maximally entangled with reference qubits (Choi state: covers every input state); two rounds of the"
    " real circuit; every generator of the final state is compared with that of the projective measurement, for all"
    " measurement outcomes (symbolic)."
)
BOUNDS = {
    "quick": "h,w up to 9x9, 11x3, 3x11; XXZZ, XZZX, repetition to length 15; three rounds",
    "thorough": "also 11x11, 13x13, 9x13, 13x5, lines to 25; five rounds",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    sizes = SIZES["small"] + SIZES["mid"] + SIZES["big"] + [(1, 1)]
    sizes += [(7, 9), (9, 7), (9, 9), (11, 3), (3, 11)]
    if tier == "thorough":
        sizes += [(11, 11), (13, 13), (9, 13), (13, 5)]
    out = [dict(name=nm(k, h, w), k=k, h=h, w=w, rounds=3 if tier == "quick" else 5, samples=1 if h * w <= 15 else 0)
           for k, h, w in families(sizes)]
    for n in (9, 11, 15) + ((25,) if tier == "thorough" else ()):
        for k in ("REP", "XZZX"):
            for h, w in ((n, 1), (1, n)):
                out.append(dict(name=nm(k, h, w), k=k, h=h, w=w, rounds=2))
    return out


def harness(cfg):
    k, h, w = cfg["k"], cfg["h"], cfg["w"]
    code = Code(k, h, w)
    tq = build(k, h, w)
    D = data(tq)
    R.check(len(D) == h * w, "h*w data qubits")
    P = Prog(tq.circ)
    ref = P.bell(D)
    regs = []
    S = code.stabilizers()
    for t in range(cfg["rounds"]):
        regs.append(stabilize(tq))
        R.check(len(regs[-1]) == h * w - 1, "h*w-1 bits per round")
        for i, q in enumerate(aux(tq)):
            P.obs("aux%d_%d" % (t, i), {q: "Z"})
        for i, s in enumerate(S):
            P.obs("S%d_%d" % (t, i), on(s, D))
            P.obs("R%d_%d" % (t, i), on(s, ref))
        for n, l in (("X", code.logical_x()), ("Z", code.logical_z())):
            P.obs("L%s%d" % (n, t), xprod(on(l, D), on(l, ref)))

    def check(res):
        for t, c in enumerate(regs):
            bits = res.reg(c)
            for i in range(len(aux(tq))):
                R.check(bnot(res.obs("aux%d_%d" % (t, i))), "auxiliary qubit in |0> after round %d" % t)
            for i in range(len(S)):
                R.check(iff(bits[i], res.obs("S%d_%d" % (t, i))), "bit %d of round %d is its stabilizer's value" % (i, t))
                R.check(iff(bits[i], res.obs("R%d_%d" % (t, i))), "round %d measures stabilizer %d of the input" % (t, i))
                if t:
                    R.check(iff(bits[i], res.bit(regs[0][i])), "round %d repeats outcome %d" % (t, i))
            for n in "XZ":
                R.check(bnot(res.obs("L%s%d" % (n, t))), "logical %s unchanged by round %d" % (n, t))

    P.run(check)
