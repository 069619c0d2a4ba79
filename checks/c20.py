"""The circuit-level CX is a logical CNOT."""
from .common import *

EXPLAIN = (
    "Two logical qubits of any types in an arbitrary joint encoded state, entangled with anything (Choi of all data qubits + first rounds), with any Pauli error"
    " before; real TopologicalCircuit.cx, alone, repeated, in both directions and between further rounds, with the default and with given ancilla types:"
    " every generator of the final encoded state has the value the sequence of CNOTs must give, for every measurement outcome, all stabilizers keep their"
    " values, later rounds see no change, a third logical qubit and its records are left alone; giving only one of ancilla type and parameters is refused."
)
BOUNDS = {
    "quick": "all ordered pairs of 10 qubit types (families with h,w <= 5 and 1x1), 6 sequences of up to 3 CX; 7 ancilla types for fixed pairs; a third qubit",
    "thorough": "all ordered pairs of 20 types up to 7x7, all sequences of up to 4 CX",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME

TYPES = [("XXZZ", 3, 3), ("XXZZ", 3, 5), ("XXZZ", 5, 1), ("XXZZ", 1, 3), ("XZZX", 3, 3), ("XZZX", 5, 3), ("XZZX", 1, 5), ("XZZX", 3, 1), ("REP", 3, 1), ("REP", 1, 5)]
MORE = [("XXZZ", 5, 5), ("XXZZ", 1, 1), ("XXZZ", 7, 3), ("XXZZ", 7, 7), ("XZZX", 5, 5), ("XZZX", 1, 1), ("XZZX", 3, 7), ("XZZX", 7, 7), ("REP", 7, 1), ("REP", 1, 3)]
ANC = [("XXZZ", 3, 3), ("XXZZ", 1, 5), ("XXZZ", 5, 3), ("XZZX", 3, 3), ("XZZX", 3, 5), ("REP", 5, 1), ("REP", 1, 3)]
SEQS = ["a", "aa", "ab", "aRb", "bRaR", "aba"]


def configs(tier):
    out = []
    types = TYPES + (MORE if tier == "thorough" else [])
    seqs = SEQS if tier == "quick" else SEQS + ["".join(s) for n in (3, 4) for s in itertools.product("ab", repeat=n)]
    for a in types:
        for b in types:
            big = a[1] * a[2] + b[1] * b[2] > 40
            out.append(dict(name=nm(*a) + "+" + nm(*b), qs=[a, b], seqs=seqs if not big else SEQS[:4], anc=None, samples=1 if a[1] * a[2] * b[1] * b[2] <= 27 else 0))
    for a, b in (("XXZZ", 3, 3), ("XZZX", 3, 3)), (("REP", 3, 1), ("XXZZ", 3, 5)), (("XZZX", 5, 3), ("REP", 1, 5)):
        for c in ANC:
            out.append(dict(name=nm(*a) + "+" + nm(*b) + "-anc-" + nm(*c), qs=[a, b], seqs=["a", "ab", "aRb"], anc=c, samples=0))
    for c in (("XXZZ", 3, 3), ("XZZX", 3, 5), ("REP", 3, 1)):
        for order in ((0, 1), (2, 1), (1, 2), (2, 0)):
            qs = [("XXZZ", 3, 3), ("XZZX", 3, 3), c]
            out.append(dict(name="third-%s-%d%d" % ((nm(*c),) + order), qs=qs, seqs=["a", "aRb", "ab"], anc=None, order=order, samples=0))
    return out


def harness(cfg):
    for n, s in enumerate(cfg["seqs"]):
        for how in ("number", "object") if n == 0 else ("number",):
            one(cfg, s, how, "%d%s" % (n, how[0]))
    refuse(cfg)


def make(cfg):
    q = Q()
    reg = q.TopologicalRegister(ctypes=[REG_TYPE[k] for k, _, _ in cfg["qs"]], params=[reg_params(*x) for x in cfg["qs"]])
    return reg, q.TopologicalCircuit(reg)


def one(cfg, seq, how, tag):
    reg, tc = make(cfg)
    circ = reg.circ
    n = len(cfg["qs"])
    codes = [Code(*x) for x in cfg["qs"]]
    tqs = [reg[i] for i in range(n)]
    Ds = [data(t) for t in tqs]
    pair = tuple(cfg.get("order", (0, 1)))
    P = Prog(circ, tag)
    refs = [P.bell(Ds[i], "ref%d" % i) for i in range(n)]
    err = {}
    for i in range(n):
        for j, q in enumerate(Ds[i]):
            for l in "XZ":
                err[i, j, l] = to_bexpr(R.bool("%s_%s%d_%d" % (tag, l, i, j)))
                P.fault(l, q, err[i, j, l])
    regs = {i: [] for i in range(n)}

    def rounds(which=range(n)):
        for i in which:
            if codes[i].n > 1:
                regs[i].append(stabilize(tqs[i]))

    rounds()
    H = Heisenberg(range(n))
    kw = {}
    if cfg["anc"]:
        kw = dict(ancilla_ctype=REG_TYPE[cfg["anc"][0]], ancilla_params=reg_params(*cfg["anc"]))
    bystanders = [i for i in range(n) if i not in pair]
    for o in seq:
        if o == "R":
            rounds(pair)
            continue
        c, t = pair if o == "a" else pair[::-1]
        H.cx(c, t)
        a = len(circ.data)
        tc.cx(c if how == "number" else tqs[c], t if how == "number" else tqs[t], **kw)
        new = appended(circ, a)
        mine = {q for i in bystanders for q in own_qubits(tqs[i])}
        rec = {b for r in regs.values() for x in r for b in x}
        R.check(not any(mine & set(qs) for nm_, qs, _, _ in new if nm_ != "barrier"), "a third logical qubit is not touched")
        R.check(not any(rec & set(cs + rd) for _, _, cs, rd in new), "the records of rounds are not touched")
    L = [{"X": c.logical_x(), "Z": c.logical_z()} for c in codes]
    for i in range(n):
        for j, s in enumerate(codes[i].stabilizers()):
            P.obs("S%d_%d" % (i, j), on(s, Ds[i]))
            P.obs("R%d_%d" % (i, j), on(s, refs[i]))
        for l, m in (("X", H.x), ("Z", H.z)):
            P.obs("%s%d" % (l, i), xprod(on(L[i][l], refs[i]), *[on(L[o][l], Ds[o]) for o in m[i]]))
    rounds()
    if not circ.clbits:
        return

    def anti(i, p):
        """The errors flip the initial correlation of the Pauli p on qubit i."""
        return bxor_all([err[i, j, l] for j in p for l in "XZ" if l != p[j]])

    def check(res):
        what = "after %s: " % seq
        for i in range(n):
            if codes[i].n > 1:
                first = res.reg(regs[i][0])
                for j, s in enumerate(codes[i].stabilizers()):
                    R.check(iff(res.obs("S%d_%d" % (i, j)), first[j]), what + "stabilizer %d of qubit %d" % (j, i))
                    R.check(iff(res.obs("R%d_%d" % (i, j)), bxor(first[j], anti(i, s))), what + "reference stabilizer %d of qubit %d" % (j, i))
                for r in regs[i][1:]:
                    for a, b in zip(first, res.reg(r)):
                        R.check(iff(a, b), what + "no syndrome change")
            for l in "XZ":
                R.check(iff(res.obs("%s%d" % (l, i)), anti(i, L[i][l])), what + "image of logical %s of qubit %d" % (l, i))

    P.run(check)


def refuse(cfg):
    reg, tc = make(cfg)
    for kw in ({"ancilla_ctype": "XXZZ"}, {"ancilla_params": {"d": (3, 3)}}):
        a, b = len(reg.circ.data), len(reg.circ.qubits)
        try:
            tc.cx(0, 1, **kw)
            R.check(False, "only one of ancilla type and parameters is refused")
        except ValueError:
            R.check((len(reg.circ.data), len(reg.circ.qubits)) == (a, b), "a refused cx leaves the circuit alone")
