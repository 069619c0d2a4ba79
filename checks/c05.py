"""Full-lattice readout agrees with logical readout and a last round."""
from .common import *

EXPLAIN = (
    "Arbitrary input state, T+1 real rounds with symbolic errors and syndrome flips, a symbolic observation of the"
    " logical operator and of every stabilizer, then the real lattice readout; the real parse_readout of the symbolic string must"
    " return that logical value and exactly the hits a further perfect round would have given."
)
BOUNDS = {
    "quick": "h,w <= 7 (up to 7x7, 9x3, 3x9), T up to 3 (2, 1 for larger ones), 11 on 3x3 and lines, difference layers before the final one, both bases",
    "thorough": "also 9x9, 11x3, 3x11; T up to 6",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    out = []
    plan = [(SIZES["small"], (0, 1, 2, 3)), (SIZES["mid"], (0, 1, 2)), (SIZES["big"], (0, 1)), (LONG, (11,))]
    if tier == "thorough":
        plan = [(SIZES["small"], range(7)), (SIZES["mid"], range(5)), (SIZES["big"], (0, 1, 2)), ([(9, 9), (11, 3), (3, 11)], (0, 1)), (LONG, (11,))]
    for sizes, Ts in plan:
        for k, h, w in families(sizes):
            for T in Ts:
                for b in "ZX":
                    out.append(dict(name=nm(k, h, w, b, "T%d" % T), k=k, h=h, w=w, T=T, b=b, samples=1 if h * w <= 15 else 0))
    return out


def harness(cfg):
    k, h, w, T, b = cfg["k"], cfg["h"], cfg["w"], cfg["T"], cfg["b"]
    code = Code(k, h, w)
    tq = build(k, h, w)
    D = data(tq)
    P = Prog(tq.circ)
    P.bell(D)
    S = code.stabilizers()
    keys = code.keys()
    regs = []

    def errors(t):
        for i, q in enumerate(D):
            for l in "XZ":
                P.fault(l, q, R.bool("e%s_%d_%d" % (l, t, i)))

    for t in range(T + 1):
        errors(t)
        regs.append(stabilize(tq))
    errors(T + 1)
    for t in range(T + 1):
        for j in range(len(S)):
            P.flip(regs[t][j], R.bool("f_%d_%d" % (t, j)))
    for j, s in enumerate(S):
        P.obs("S%d" % j, on(s, D))
    P.obs("L", on(code.logical_z() if b == "Z" else code.logical_x(), D))
    lr = newreg(tq, tq.lattice_readout_z if b == "Z" else tq.lattice_readout_x)
    R.check(len(lr) == code.n, "one bit per data qubit")

    def check(res):
        l, hits = tq.parse_readout(res.string(), b)
        R.check(eqbit(l, res.obs("L")), "logical value of the lattice readout")
        for key in "ZX":
            exp = {}
            for j in range(len(S)):
                if keys[j][0] != key:
                    continue
                for t in range(T):
                    exp[(t,) + keys[j][1]] = bxor(res.bit(regs[t][j]), res.bit(regs[t + 1][j]))
                if key == b:
                    exp[(T,) + keys[j][1]] = bxor(res.bit(regs[T][j]), res.obs("S%d" % j))
            check_hits(hits[key], exp, "hits of type " + key)

    P.run(check)
