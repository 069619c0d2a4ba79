"""Identity markers sit on every physical qubit exactly once."""
from .common import *

EXPLAIN = (
    "All qubits of two logical qubits and a spare one in an arbitrary joint state (Choi); an X and a Z error variable attached to every identity gate the real"
    " id / id_data (by qubit, by number and through the circuit) appends: for every choice of errors each intended qubit shows exactly the errors of one"
    " identity gate of its own and every other qubit is left alone; without errors nothing changes. Also after rounds and a readout, and twice in a row."
)
BOUNDS = {
    "quick": "all pairs of a family and size (h,w <= 7, and 9x3, 3x9, 1x1) with a fixed second qubit; three ways of calling, up to two calls",
    "thorough": "also 9x9, 11x3, 3x11 and three second qubit types",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = ENV_ASSUME


def configs(tier):
    out = []
    sizes = [(1, 1)] + SIZES["small"] + SIZES["mid"] + SIZES["big"]
    seconds = [("XXZZ", 3, 3)]
    if tier == "thorough":
        sizes += [(9, 9), (11, 3), (3, 11)]
        seconds += [("XZZX", 3, 5), ("REP", 3, 1)]
    for k, h, w in families(sizes):
        for k2, h2, w2 in seconds:
            out.append(dict(name=nm(k, h, w, k2), k=k, h=h, w=w, second=(k2, h2, w2), samples=1 if h * w <= 9 else 0))
    return out


def harness(cfg):
    for what in ("id", "id_data"):
        for how in ("number", "object", "qubit"):
            for place in ("start", "rounds") if how == "number" else ("start",):
                one(cfg, what, how, place)
    for how in ("object", "qubit"):
        for what in ("id", "id_data"):
            reg, tc = make(cfg, named=True)
            observe(reg, [(0, what, how), (1, what, how)][:: 1 if how == "qubit" else -1], tc, "named_%s_%s" % (what, how))
    twice(cfg)


class Named:
    """Logical qubits put on one circuit by hand, one's name beginning with the other's."""

    def __init__(self, a, b):
        self.list = [build(*a, name="q")]
        self.circ = self.list[0].circ
        self.list.append(build(*b, name="q1", circ=self.circ))

    def __getitem__(self, n):
        return self.list[n]


def make(cfg, named=False):
    from qiskit import QuantumRegister

    q = Q()
    k, h, w = cfg["k"], cfg["h"], cfg["w"]
    second = tuple(cfg["second"])
    if named:
        reg = Named((k, h, w), second)
        tc = q.TopologicalCircuit(q.TopologicalRegister(circ=reg.circ))
    else:
        reg = q.TopologicalRegister(ctypes=[REG_TYPE[k], REG_TYPE[second[0]]], params=[reg_params(k, h, w), reg_params(*second)])
        tc = q.TopologicalCircuit(reg)
    spare = QuantumRegister(1, "spare")
    reg.circ.add_register(spare)
    return reg, tc


def call(reg, tc, n, what, how):
    if how == "number":
        getattr(tc, what)(n)
    elif how == "object":
        getattr(tc, what)(reg[n])
    else:
        getattr(reg[n], what)()


def intended(tq, what):
    return data(tq) if what == "id_data" else data(tq) + aux(tq)


def one(cfg, what, how, place):
    reg, tc = make(cfg)
    calls = [0, 1] if place == "start" else [1, 0]
    if place == "rounds":
        for n in (0, 1):
            tc.stabilize(n)
        tc.measure_x(0)
    observe(reg, [(n, what, how) for n in calls], tc, "%s_%s_%s" % (what, how, place))


def twice(cfg):
    reg, tc = make(cfg)
    observe(reg, [(0, "id", "qubit"), (0, "id_data", "number"), (0, "id", "object")], tc, "twice")


def observe(reg, calls, tc, tag):
    circ = reg.circ
    every = list(circ.qubits)
    P = Prog(circ, tag)
    ref = P.bell(every)
    marks = {q: [] for q in every}  # error variables of the identity gates, in order
    expect = {q: 0 for q in every}
    nclb = len(circ.clbits)
    for m, (n, what, how) in enumerate(calls):
        a = len(circ.data)
        call(reg, tc, n, what, how)
        for q in intended(reg[n], what):
            expect[q] += 1
        for i, ins in enumerate(circ.data[a:]):
            name = ins.operation.name
            R.check(name in ("id", "barrier") and not ins.clbits, "only identity gates are inserted (%s)" % name)
            if name != "id":
                continue
            for q in ins.qubits:
                R.check(q in expect, "%s: identity gates sit on this qubit's own physical qubits only" % tag)
                f = {l: to_bexpr(R.bool("%s_%s%d_%d_%d" % (tag, l, m, i, every.index(q)))) for l in "XZ"}
                marks.setdefault(q, []).append(f)
                for l in "XZ":
                    P.ev.setdefault(a + i + 1, []).append((l.lower(), q, f[l]))
    R.check(len(circ.clbits) == nclb and set(marks) == set(every), "nothing is recorded and no qubit added")
    for i, q in enumerate(every):
        for l in "XZ":
            P.obs("%s%d" % (l, i), {q: l, ref[i]: l})
    from qiskit import ClassicalRegister

    circ.add_register(ClassicalRegister(1, "end" + tag))

    def check(res):
        for i, q in enumerate(every):
            R.check(len(marks[q]) == expect[q], "%s: qubit %d has %d identity gates, not %d" % (tag, i, len(marks[q]), expect[q]))
            for l in "XZ":
                flip = bxor_all([f["Z" if l == "X" else "X"] for f in marks[q]])
                R.check(iff(res.obs("%s%d" % (l, i)), flip), "%s: %s of qubit %d" % (tag, l, i))

    P.run(check)
