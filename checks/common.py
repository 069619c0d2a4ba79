"""Shared pieces of the harnesses."""
import itertools

from symqt.core import (
    R, SStr, SBool, SInt, Sym, Violation, band, bor, bnot, bxor, bxor_all, biff, bite, pb_le, lin_le, to_bexpr, gitems, veq,
    Infeasible,
)
from symqt.env import Q
from symqt.prog import Prog, val
from symqt.spec import Code, commutes, sites


def build(kind, h, w, name="tq", circ=None, **extra):
    """A real encoder of the given family and size."""
    q = Q()
    params = {"d": (h, w)}
    if kind == "REP":
        params["phase-flip-protected"] = h == 1 and w > 1
    params.update(extra)
    kw = {"name": name}
    if circ is not None:
        kw["circ"] = circ
    return q.KIND[kind](params, **kw)


def decoder(kind, h, w, T):
    q = Q()
    if kind == "REP":
        return q.RepetitionDecoder({"d": (h, w), "T": T, "phase-flip-protected": h == 1 and w > 1})
    return q.RotatedDecoder({"d": (h, w), "T": T})


def data(tq):
    return list(tq.lattice.qregisters["data"])


def aux(tq):
    """Every qubit of the logical qubit that is not a data qubit."""
    out = []
    for n, r in tq.lattice.qregisters.items():
        if n != "data":
            out += list(r)
    return out


def on(pauli, qubits):
    return {qubits[i]: l for i, l in pauli.items()}


def xprod(*ps):
    """Union of Paulis on disjoint qubits."""
    out = {}
    for p in ps:
        out.update(p)
    return out


def stabilize(tq):
    """One round; returns the register it was recorded in."""
    before = set(tq.circ.cregs)
    tq.stabilize()
    new = [c for c in tq.circ.cregs if c not in before]
    if len(new) != 1:
        R.check(False, "a round adds exactly one classical register (%d)" % len(new))
    return new[0]


def newreg(tq, fn):
    before = set(tq.circ.cregs)
    fn()
    new = [c for c in tq.circ.cregs if c not in before]
    if len(new) != 1:
        R.check(False, "the operation adds exactly one classical register (%d)" % len(new))
    return new[0]


def eq(a, b):
    """Boolean expression a == b for values of any kind."""
    return to_bexpr(veq(a, b))


def iff(a, b):
    return biff(to_bexpr(a), to_bexpr(b))


def eqbit(v, b):
    """The value v is an integer equal to the bit b."""
    if v is None or not isinstance(v, int):
        return False
    b = to_bexpr(b)
    return band(bor(bnot(b), eq(v, 1)), bor(b, eq(v, 0)))


def _coords(c):
    """[(condition, coordinate)] of a coordinate whose time may be symbolic; inf: none of the times tried."""
    out = [(True, ())]
    for x in c:
        if isinstance(x, Sym):
            conds = [(to_bexpr(x == k), float(k)) for k in range(-1, 17)]
            vals = [(b, k) for b, k in conds if b is not False]
            vals.append((bnot(bor(*[b for b, _ in vals])), float("inf")))
        else:
            vals = [(True, float(x))]
        out = [(band(g, b), v + (k,)) for g, v in out for b, k in vals]
    return out


def hitmap(hits):
    """coordinate -> (present, more than once) for a possibly conditional list of hits."""
    m = {}
    for g, c in gitems(hits):
        for h, v in _coords(c):
            h = band(g, h)
            if h is not False:
                m.setdefault(v, []).append(h)
    out = {}
    for c, gs in m.items():
        twice = bor(*[band(a, b) for a, b in itertools.combinations(gs, 2)]) if len(gs) > 1 else False
        out[c] = (bor(*gs), twice)
    return out


def check_hits(hits, expected, label):
    """hits is exactly the expected set {coordinate: bexpr}, each at most once."""
    m = hitmap(hits)
    exp = {tuple(float(x) for x in c): to_bexpr(e) for c, e in expected.items()}
    props = []
    for c in sorted(set(m) | set(exp)):
        got, twice = m.get(c, (False, False))
        props.append((band(biff(got, exp.get(c, False)), bnot(twice)), "%s %s" % (label, c)))
    R.check_many(props)


SIZES = {
    "small": [(3, 1), (1, 3), (3, 3), (5, 1), (1, 5), (3, 5), (5, 3)],
    "mid": [(5, 5), (7, 1), (1, 7), (7, 3), (3, 7)],
    "big": [(7, 5), (5, 7), (7, 7), (9, 3), (3, 9)],
}


LONG = [(3, 3), (3, 1), (1, 3)]  # sizes for many rounds


def families(sizes, kinds=("XXZZ", "XZZX", "REP")):
    for k in kinds:
        for h, w in sizes:
            if k == "REP" and h != 1 and w != 1:
                continue
            yield k, h, w


def nm(k, h, w, *rest):
    return "-".join([k, "%dx%d" % (h, w)] + [str(r) for r in rest])


ENV_ASSUME = [
    "The stabilizer semantics of Clifford gates, measurement and reset in symqt/qsim.py (replayed against Qiskit Aer).",
    "The AST instrumentation and its runtime (symqt/instrument.py, rt.py) preserve Python semantics (native replays).",
]


def pmul(p, q):
    """Product of two Paulis as letters (phase dropped)."""
    out = dict(p)
    for i, l in q.items():
        a = out.pop(i, None)
        if a is None:
            out[i] = l
        elif a != l:
            out[i] = ({"X", "Y", "Z"} - {a, l}).pop()
    return out


def generators(n):
    return [{i: l} for i in range(n) for l in "XZ"]


def commutant(n, ops):
    """Generators of the Pauli operators on n qubits commuting with all ops."""
    gens = generators(n)
    for o in ops:
        bad = [g for g in gens if not commutes(g, o)]
        gens = [g for g in gens if commutes(g, o)]
        gens += [pmul(bad[0], g) for g in bad[1:]]
    return gens


def tsign(p):
    """P (x) P^T on maximally entangled pairs is +1; the value of P (x) P is then (-1)^(number of Y)."""
    return sum(1 for l in p.values() if l == "Y") % 2 == 1


def obs_choi(P, tag, code, D, ref, logicals=True):
    """Observe everything that determines a (possibly logically operated) encoded Choi state."""
    for i, s in enumerate(code.stabilizers()):
        P.obs("%sS%d" % (tag, i), on(s, D))
        P.obs("%sR%d" % (tag, i), on(s, ref))
    if logicals:
        for n, l in (("X", code.logical_x()), ("Z", code.logical_z())):
            P.obs("%sL%s" % (tag, n), xprod(on(l, D), on(l, ref)))


def check_choi(res, tag, code, bits, x=False, z=False, what=""):
    """The encoded state is the first round's, with logical X / Z applied iff x / z."""
    for i in range(code.n - 1):
        R.check(iff(res.obs("%sS%d" % (tag, i)), bits[i]), "%s: stabilizer %d keeps its value" % (what, i))
        R.check(iff(res.obs("%sR%d" % (tag, i)), bits[i]), "%s: reference stabilizer %d" % (what, i))
    R.check(iff(res.obs(tag + "LX"), z), "%s: logical X correlation" % what)
    R.check(iff(res.obs(tag + "LZ"), x), "%s: logical Z correlation" % what)


def choose(name, values):
    """A value chosen by an input variable (one path per value)."""
    i = R.int(name, lo=0, hi=len(values) - 1)
    for n, v in enumerate(values[:-1]):
        if i == n:
            return v
    return values[-1]


def appended(circ, start):
    """(operation name, qubits, clbits written, clbits read) of the instructions from start on."""
    out = []
    for ins in circ.data[start:]:
        cond = getattr(ins.operation, "condition", None)
        read = []
        if cond is not None:
            read = list(cond[0]) if hasattr(cond[0], "__iter__") else [cond[0]]
        out.append((ins.operation.name, list(ins.qubits), list(ins.clbits), read))
    return out


def own_qubits(tq):
    return {q for r in tq.lattice.qregisters.values() for q in r}


REG_TYPE = {"XXZZ": "XXZZ", "XZZX": "XZZX", "REP": "Repetition"}


def reg_params(k, h, w):
    p = {"d": (h, w)}
    if k == "REP":
        p["phase-flip-protected"] = h == 1 and w > 1
    return p


class Heisenberg:
    """Images of X and Z of some qubits under CNOTs and Paulis (CNOTs keep X- and Z-type apart)."""

    def __init__(self, names):
        self.names = list(names)
        self.x = {n: {n} for n in names}
        self.z = {n: {n} for n in names}

    def cx(self, c, t):
        for m, a, b in ((self.x, c, t), (self.z, t, c)):
            for s in m.values():
                if a in s:
                    s ^= {b}


def warm(cfg):
    """Use of other qubits and decoders in the same process, before the ones a check is about."""
    k, h, w = cfg.get("k", "XXZZ"), cfg.get("h", 3), cfg.get("w", 3)
    if k == "REP":
        shapes = [(5, 1), (1, 5)] if h == w else [(w, h), (5, 1) if h == 1 else (1, 5)]
    elif h == w:
        shapes = [(h + 2, w), (3, 3) if h > 3 else (3, 5)]
    else:
        shapes = [(w, h), (3, 3)]
    for kind in (k, {"XXZZ": "XZZX", "XZZX": "XXZZ"}.get(k)):
        if kind is None:
            continue
        for i, (a, b) in enumerate(shapes):
            if a * b > 25 or (a, b) == (h, w):
                continue
            tq = build(kind, a, b, name="tq")
            tq.reset_x() if i % 2 else tq.reset_z()
            tq.stabilize()
            tq.x()
            tq.z()
            tq.readout_x()
            tq.stabilize()
            tq.lattice_readout_z() if i % 2 else tq.lattice_readout_x()
            tq.lattice.entangle_x()
            tq.lattice.entangle_z()
            key = "Z" if i % 2 else "X"
            n = a * b
            for t in "XZ":
                tq.parse_readout(" ".join(["1" * n] + ["0" * (n - 1)] * 2), t)
                tq.parse_readout(" ".join(["1"] + ["0" * (n - 1), "1" * (n - 1)]), t)
            if kind == k and n <= 15:
                dec = decoder(k, a, b, 2)
                key = [x for x in dec.syndrome_graph_keys if x == key] or dec.syndrome_graph_keys[:1]
                if key:
                    dec.correct_readout(" ".join(["1" * n] + ["0" * (n - 2) + "1"] * 2), key[0])
