"""Partial entangling rounds touch one stabilizer type only."""
from .common import *

EXPLAIN = (
    "Data qubits, the syndrome qubits of the other type and the ancilla in an arbitrary joint state (Choi) with any Pauli error on it, syndromes of the own type in"
    " |0>: after the real entangle_x / entangle_z every generator of the final state has the value that coupling each own syndrome to its plaquette and"
    " nothing else must give; lattices without that type are left as they were. Also after full rounds, and one type after the other (which makes a full round)."
)
BOUNDS = {
    "quick": "h,w up to 9x9, 11x3, lines to 15, and 1x1; X, Z, X then Z, Z then X; before and after full rounds",
    "thorough": "also 11x11, 13x3, 3x13, lines to 25",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    sizes = [(1, 1)] + SIZES["small"] + SIZES["mid"] + SIZES["big"]
    sizes += [(9, 7), (7, 9), (9, 9), (11, 3), (15, 1), (1, 15)]
    if tier == "thorough":
        sizes += [(11, 11), (13, 3), (3, 13), (25, 1), (1, 25)]
    return [dict(name=nm(k, h, w), k=k, h=h, w=w, samples=1 if h * w <= 15 else 0) for k, h, w in families(sizes)]


def harness(cfg):
    k, h, w = cfg["k"], cfg["h"], cfg["w"]
    for n, order in enumerate(("X", "Z", "XZ", "ZX")):
        for rounds in (0, 1):
            if rounds and h * w == 1:
                continue
            one(Code(k, h, w), order, rounds, "%d%s" % (rounds, order))


def syndrome_qubits(tq):
    """Position of the qubit each bit of a round is measured from."""
    a, c = len(tq.circ.data), stabilize(tq)
    src = {}
    for name, qs, cs, _ in appended(tq.circ, a):
        for q, b in zip(qs, cs) if name == "measure" else ():
            src[b] = q
    pos = {q: i for i, q in enumerate(tq.circ.qubits)}
    return [pos.get(src.get(b)) for b in c]


def one(code, order, rounds, tag):
    k, h, w = code.kind, code.h, code.w
    keys, S = code.keys(), code.stabilizers()
    where = syndrome_qubits(build(k, h, w)) if S else []
    R.check(None not in where and len(set(where)) == len(S), "each bit of a round has its own syndrome qubit")
    tq = build(k, h, w)
    syn = [tq.circ.qubits[i] for i in where]
    D = data(tq)
    for _ in range(rounds):
        stabilize(tq)
    own = [i for i, (key, _) in enumerate(keys) if key in order]
    rest = [q for q in aux(tq) if q not in [syn[i] for i in own]]
    P = Prog(tq.circ, tag)
    free = D + rest
    ref = P.bell(free)
    e = {}
    for i, q in enumerate(free):
        for l in "XZ":
            e[i, l] = to_bexpr(R.bool("%s_%s%d" % (tag, l, i)))
            P.fault(l, q, e[i, l])
    a, regs = len(tq.circ.data), len(tq.circ.cregs)
    for o in order:
        getattr(tq.lattice, "entangle_x" if o == "X" else "entangle_z")()
    new = appended(tq.circ, a)
    R.check(len(tq.circ.cregs) == regs and not any(c or r for _, _, c, r in new), "nothing is recorded")
    used = {q for name, qs, _, _ in new if name != "barrier" for q in qs}
    allowed = {syn[i] for i in own} | {D[j] for i in own for j in S[i]}
    R.check(used <= allowed, "only the syndromes of that type and their plaquettes are touched")
    for i in range(len(free)):
        for l in "XZ":
            p = {free[i]: l, ref[i]: l}
            if i < code.n:
                for n in own:
                    if not commutes({i: l}, S[n]):
                        p[syn[n]] = "X"
            P.obs("%s%d" % (l, i), p)
    for n in own:
        P.obs("syn%d" % n, xprod({syn[n]: "Z"}, on(S[n], ref)))

    def check(res):
        what = "entangling %s: " % order
        for i in range(len(free)):
            for l in "XZ":
                R.check(iff(res.obs("%s%d" % (l, i)), e[i, "Z" if l == "X" else "X"]), what + "%s of %s %d" % (l, "data" if i < code.n else "untouched qubit", i))
        for n in own:
            flip = bxor_all([e[i, m] for i in S[n] for m in "XZ" if m != S[n][i]])
            R.check(iff(res.obs("syn%d" % n), flip), what + "syndrome %d holds its plaquette" % n)

    # the harness must have something measured for the simulator to return
    from qiskit import ClassicalRegister

    tq.circ.add_register(ClassicalRegister(1, "end" + tag))
    P.run(check)
