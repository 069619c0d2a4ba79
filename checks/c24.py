"""Physical-qubit CX couples exactly to the logical operator."""
from .common import *

EXPLAIN = (
    "Arbitrary encoded state (Choi + first round) jointly with an arbitrary state of a physical qubit (Bell pair with a reference): after any listed sequence of"
    " cx(control=q), cx(target=q) every generator of the joint state, the images of X and Z of both under the CNOTs included, has the value it must have"
    " for every outcome - which leaves no room for a trace elsewhere -, later rounds see no change, and both or neither of control and target is refused."
)
BOUNDS = {
    "quick": "h,w up to 9x9, lines to 15, and 1x1; sequences c, t, ct, tc, cc, tt, ctc of cx with the same qubit, with and without rounds between",
    "thorough": "also 11x3, 3x11, 11x11; all sequences of up to 4",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    out = []
    sizes = [(1, 1)] + SIZES["small"] + SIZES["mid"] + SIZES["big"]
    sizes += [(9, 7), (7, 9), (9, 9), (15, 1), (1, 15)]
    if tier == "thorough":
        sizes += [(11, 3), (3, 11), (11, 11)]
    seqs = ["c", "t", "ct", "tc", "cc", "tt", "ctc"]
    if tier == "thorough":
        seqs = ["".join(s) for n in range(1, 5) for s in itertools.product("ct", repeat=n)]
    for k, h, w in families(sizes):
        out.append(dict(name=nm(k, h, w), k=k, h=h, w=w, seqs=seqs if h * w <= 25 else seqs[:4], samples=1 if h * w <= 9 else 0))
    return out


def harness(cfg):
    k, h, w = cfg["k"], cfg["h"], cfg["w"]
    for i, s in enumerate(cfg["seqs"]):
        one(k, h, w, s, False, "%da" % i)
        if len(s) > 1:
            one(k, h, w, s, True, "%db" % i)
    refuse(k, h, w)


def one(k, h, w, seq, rounds, tag):
    from qiskit import QuantumRegister

    code = Code(k, h, w)
    tq = build(k, h, w)
    D = data(tq)
    q = QuantumRegister(2, "phys" + tag)
    tq.circ.add_register(q)
    P = Prog(tq.circ, tag)
    ref = P.bell(D)
    qref = P.bell([q[0]], "qref")[0]
    regs = [stabilize(tq)] if code.n > 1 else []
    H = Heisenberg("Lp")
    for n, o in enumerate(seq):
        if o == "c":
            tq.cx(control=q[0])
            H.cx("p", "L")
        else:
            tq.cx(target=q[0])
            H.cx("L", "p")
        if rounds and code.n > 1:
            regs.append(stabilize(tq))
    obs_choi(P, "a", code, D, ref, logicals=False)
    L = {"X": code.logical_x(), "Z": code.logical_z()}
    for l, m in (("X", H.x), ("Z", H.z)):
        for g in "Lp":
            out = {}
            if "L" in m[g]:
                out = xprod(out, on(L[l], D))
            if "p" in m[g]:
                out = xprod(out, {q[0]: l})
            out = xprod(out, on(L[l], ref) if g == "L" else {qref: l})
            P.obs("%s%s" % (l, g), out)
    P.obs("idle", {q[1]: "Z"})
    if code.n > 1:
        regs.append(stabilize(tq))
    else:
        tq.readout_z()

    def check(res):
        what = "after %s" % seq
        if code.n > 1:
            for i, b in enumerate(res.reg(regs[0])):
                R.check(iff(res.obs("aS%d" % i), b), "%s: stabilizer %d" % (what, i))
                R.check(iff(res.obs("aR%d" % i), b), "%s: reference stabilizer %d" % (what, i))
            for r in regs[1:]:
                for a, b in zip(res.reg(regs[0]), res.reg(r)):
                    R.check(iff(a, b), what + ": no syndrome change")
        for l in "XZ":
            for g in "Lp":
                R.check(bnot(res.obs(l + g)), "%s: image of %s of the %s qubit" % (what, l, "logical" if g == "L" else "physical"))
        R.check(bnot(res.obs("idle")), what + ": other qubits are left alone")

    P.run(check)


def refuse(k, h, w):
    from qiskit import QuantumRegister

    tq = build(k, h, w)
    q = QuantumRegister(2, "phys")
    tq.circ.add_register(q)
    for kw in ({}, {"control": q[0], "target": q[1]}, {"control": None, "target": None}):
        a = len(tq.circ.data)
        try:
            tq.cx(**kw)
            R.check(False, "both or neither of control and target is refused")
        except ValueError:
            R.check(len(tq.circ.data) == a, "a refused cx leaves the circuit alone")
