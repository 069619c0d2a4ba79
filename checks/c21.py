"""Conditioned logical operators fire exactly on their condition."""
from .common import *

EXPLAIN = (
    "Arbitrary encoded state (Choi + first round); a classical register of any content (each bit the outcome of measuring |+>, or the round's own syndrome"
    " register); conditioned logical X and Z for a value: the state afterwards is the first round's with the operator applied iff the register holds"
    " the value, for every content and outcome; the register keeps its content and a later round sees no change."
)
BOUNDS = {
    "quick": "h,w <= 5 (and 1x7, 7x1, 3x7, 7x3); registers of 1 to 3 bits with every value, 4 bits and the syndrome register with some values; one operator, and X and Z on the same or different values",
    "thorough": "also 7x7, 5x7, 9x3, 3x9; registers of up to 5 bits with every value",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    out = []
    sizes = SIZES["small"] + SIZES["mid"] + (SIZES["big"] if tier == "thorough" else [])
    for k, h, w in families(sizes):
        for width in (1, 2, 3, 4, "syn") if tier == "quick" else (1, 2, 3, 4, 5, "syn"):
            if h * w > 15 and width in (1, 4):
                continue
            out.append(dict(name=nm(k, h, w, width), k=k, h=h, w=w, width=width, tier=tier, samples=1 if h * w <= 9 else 0))
    return out


def harness(cfg):
    k, h, w, width = cfg["k"], cfg["h"], cfg["w"], cfg["width"]
    n = h * w - 1 if width == "syn" else width
    if width == "syn":
        vals = sorted({0, 1, (1 << n) - 1, int("10" * n, 2) % (1 << n)})
    elif width <= 3 or cfg["tier"] == "thorough":
        vals = range(1 << n)
    else:
        vals = (0, 5, 8, 15)
    cases = [("x", v, None) for v in vals] + [("z", v, None) for v in vals]
    cases += [("xz", v, u) for v in list(vals)[:2] for u in list(vals)[-2:]]
    for i, (ops, v, u) in enumerate(cases):
        one(cfg, n, ops, v, v if u is None else u, str(i))


def one(cfg, n, ops, v, u, tag):
    from qiskit import QuantumRegister, ClassicalRegister

    k, h, w, width = cfg["k"], cfg["h"], cfg["w"], cfg["width"]
    code = Code(k, h, w)
    tq = build(k, h, w)
    D = data(tq)
    P = Prog(tq.circ, tag)
    ref = P.bell(D)
    first = stabilize(tq)
    if width == "syn":
        reg = first
    else:
        q, reg = QuantumRegister(n, "coin"), ClassicalRegister(n, "word")
        tq.circ.add_register(q, reg)
        tq.circ.h(q)
        tq.circ.measure(q, reg)
        for i in range(n):
            P.obs("coin%d" % i, {q[i]: "Z"})
    ncl, a = len(tq.circ.clbits), len(tq.circ.data)
    for o in ops:
        if o == "x":
            tq.x_c_if(reg, v)
        else:
            tq.z_c_if(reg, u)
    new = appended(tq.circ, a)
    R.check(len(tq.circ.clbits) == ncl and not any(c for _, _, c, _ in new), "nothing is recorded")
    obs_choi(P, "a", code, D, ref)
    last = stabilize(tq)

    def check(res):
        bits = res.reg(reg)

        def holds(val):
            return band(*[b if val >> i & 1 else bnot(b) for i, b in enumerate(bits)])

        what = "%s if register == %s" % (ops, (v, u))
        check_choi(res, "a", code, res.reg(first), holds(v) if "x" in ops else False, holds(u) if "z" in ops else False, what)
        for x, y in zip(res.reg(first), res.reg(last)):
            R.check(iff(x, y), what + ": no syndrome change")
        if width != "syn":
            for i in range(n):
                R.check(iff(bits[i], res.obs("coin%d" % i)), "the register keeps its content")

    P.run(check)
