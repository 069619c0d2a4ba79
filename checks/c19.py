"""Logical qubits sharing a circuit are independent."""
import qiskit

from .common import *

EXPLAIN = (
    "Every step of a history on a real TopologicalRegister is an input variable: which qubit, which operation, by number or by object, directly or through the"
    " circuit; parameter dictionaries distinct, shared, repeated or taken live from another qubit. After every step only that qubit's own qubits, its own"
    " registers and counters have changed and what was appended is what the same history appends for a lone qubit; with error variables on all data"
    " qubits every qubit's later syndromes depend on its own errors only. Sub-register, type and way of every addition are input variables for the"
    " numbering; look-ups, parsing and the circuit's CX are compared by number and by object."
)
BOUNDS = {
    "quick": "registers of 2 and 3 qubits of mixed families and sizes up to 5x5, histories of 2 operations (any, then any of 6), of 3 rounds and readouts; each operation by number, object and directly, alone and after 2 or 6 rounds on one qubit; 12 qubits, 2 operations; 3 additions in 3 sub-registers",
    "thorough": "one more operation in every history; 4 additions",
}
ASSUMPTIONS = ENV_ASSUME

OPS = ["stabilize", "readout_z", "readout_x", "lattice_readout_z", "lattice_readout_x", "x", "z", "id", "id_data", "reset_z", "reset_x"]
REC = ["stabilize", "readout_z", "lattice_readout_x"]
FEW = ["stabilize", "readout_z", "lattice_readout_x", "x", "id"]
CIRC = {"readout_z": "measure_z", "readout_x": "measure_x", "lattice_readout_z": "measure_lattice_z", "lattice_readout_x": "measure_lattice_x"}
KEEP = ("stabilize", "readout_z", "readout_x", "x", "z", "id", "id_data", "cx")

SETS = {
    "mixed": [("XXZZ", 3, 3), ("XZZX", 3, 3), ("REP", 3, 1)],
    "sizes": [("XXZZ", 3, 5), ("XXZZ", 5, 3)],
    "lines": [("REP", 1, 3), ("REP", 5, 1), ("XZZX", 1, 3)],
    "same": [("XXZZ", 3, 3), ("XXZZ", 3, 3)],
    "samez": [("XZZX", 3, 3), ("XZZX", 3, 3)],
    "samer": [("REP", 3, 1), ("REP", 3, 1), ("REP", 3, 1)],
}


def configs(tier):
    out = []
    big = tier == "thorough"

    def add(name, **kw):
        out.append(dict(name=name, kind="history", samples=1, **kw))

    for s, qs in SETS.items():
        ways = ["distinct"]
        if s.startswith("same"):
            ways += ["shared", "repeated", "live", "copy"]
        for way in ways:
            base = dict(qs=qs, way=way)
            cx = ["cx"] if way == "distinct" else []
            for first in OPS + cx:
                add("%s-%s-%s" % (s, way, first), plan=[[first], FEW + cx] + ([REC] if big else []), **base)
            for m in (2, 6):
                add("%s-%s-after-%d" % (s, way, m), plan=[OPS + cx], ways=True, pre=m, **base)
            add("%s-%s-ways" % (s, way), plan=[OPS + cx], ways=True, **base)
            if big or s != "samez":
                for first in REC:
                    add("%s-%s-deep-%s" % (s, way, first), plan=[[first], REC, REC] + ([REC] if big and len(qs) == 2 else []), **base)
    for first in ("stabilize", "readout_x", "x", "id"):
        add("many-" + first, qs=[("REP", 3, 1)] * 12, way="distinct", plan=[[first], ["stabilize"] if not big else FEW])
    for way in ("distinct", "shared"):
        for first in OPS:
            add("hand-%s-%s" % (way, first), qs=SETS["same"], way="hand-" + way, plan=[[first], FEW] + ([REC] if big else []))
    for n in range(1, 4 if not big else 5):
        for given in ("own", "empty", "used", "second"):
            if n < 3 or given == "own" or big:
                out.append(dict(name="numbering-%d-%s" % (n, given), kind="numbering", n=n, given=given, samples=2))
    out.append(dict(name="given", kind="given", samples=2))
    out.append(dict(name="refused", kind="refused", samples=1))
    for s in ("mixed", "lines", "sizes"):
        for T in (1, 2):
            out.append(dict(name="parse-%s-%d" % (s, T), kind="parse", qs=SETS[s], T=T, samples=1))
    return out


def harness(cfg):
    globals()[cfg["kind"]](cfg)


# ---------------------------------------------------------------- histories
class ByHand:
    def __init__(self, qs, params):
        self.list = []
        for n, (k, h, w) in enumerate(qs):
            kw = {"circ": self.list[0].circ} if self.list else {}
            self.list.append(Q().KIND[k](params[n], name="tq" + "1" * n, **kw))
        self.circ = self.list[0].circ

    def __getitem__(self, n):
        return self.list[n]


def make(cfg):
    q = Q()
    qs, way = [tuple(x) for x in cfg["qs"]], cfg["way"]
    types = [REG_TYPE[k] for k, _, _ in qs]
    params = [reg_params(*x) for x in qs]
    if way.endswith("shared"):
        params = [params[0]] * len(qs)
    if way.startswith("hand"):
        reg = ByHand(qs, params)
        return reg, q.TopologicalCircuit(q.TopologicalRegister(circ=reg.circ))
    if way == "repeated":
        reg = q.TopologicalRegister()
        for i, t in enumerate(types):
            reg.add_tqubit("data" if i % 2 else "other", t, params[0])
    elif way == "live":
        reg = q.TopologicalRegister(ctypes=types[:1], params=params[:1])
        for t in types[1:]:
            reg.add_tqubit("data", t, reg[0].lattice.params)
    elif way == "copy":
        reg = q.TopologicalRegister(ctypes=types[:1], params=params[:1])
        for t in types[1:]:
            reg.add_tqubits("more", [t], [dict(reg[reg.n - 1].lattice.params)])
    else:
        reg = q.TopologicalRegister(ctypes=types, params=params)
    return reg, q.TopologicalCircuit(reg)


def shape(tq, circ, start):
    """What was appended, in terms of the logical qubit's own qubits and registers."""
    own = {}
    for r in tq.lattice.qregisters.values():
        for q in r:
            own[q] = len(own)
    out = []
    for ins in circ.data[start:]:
        if ins.operation.name == "barrier":
            continue
        out.append((ins.operation.name, tuple(own.get(q) for q in ins.qubits), ins.clbits))
    return out


def local(shape, regs):
    pos = {b: (i, j) for i, r in enumerate(regs) for j, b in enumerate(r)}
    return [(n, q, tuple(pos.get(b) for b in c)) for n, q, c in shape]


def snapshot(tq):
    return {k: v for k, v in tq.lattice.params.items()}, sorted(tq.lattice.cregisters), sorted(tq.lattice.qregisters)


def history(cfg):
    qs = [tuple(x) for x in cfg["qs"]]
    n = len(qs)
    reg, tc = make(cfg)
    circ = reg.circ
    codes = [Code(*x) for x in qs]
    tqs = [reg[i] for i in range(n)]
    owned = [own_qubits(t) for t in tqs]
    for i in range(n):
        R.check(len(data(tqs[i])) == codes[i].n, "qubit %d has its own size" % i)
        for j in range(i):
            R.check(not owned[i] & owned[j], "logical qubits share no physical qubit")
    lone = [build(*x) for x in qs]
    mine = [[] for _ in qs]  # registers added by operations on each qubit
    lregs = [[] for _ in qs]
    P = Prog(circ)
    rounds, err = [], []
    tagged = [i for i in range(n) if codes[i].n > 1]
    semantic = n <= 3
    for i in range(n):
        tqs[i].reset_z()
        lone[i].reset_z()
    first, last = {}, {}
    if semantic:
        for i in tagged:
            first[i] = stabilize(tqs[i])
            mine[i].append(first[i])
            lregs[i].append(stabilize(lone[i]))
            for j, q in enumerate(data(tqs[i])):
                for l in "XZ":
                    e = to_bexpr(R.bool("%s%d_%d" % (l, i, j)))
                    err.append(((i, j, l), e))
                    P.fault(l, q, e)
    used, broken = [], set()
    if cfg.get("pre"):
        i = choose("rounds_on", range(n))
        for _ in range(cfg["pre"]):
            mine[i].append(stabilize(tqs[i]))
            lregs[i].append(stabilize(lone[i]))
    for s, ops in enumerate(cfg["plan"]):
        i = choose("q%d" % s, range(n))
        op = choose("op%d" % s, ops)
        way = choose("by%d" % s, ["number", "object", "qubit"]) if cfg.get("ways") else ("number", "object", "qubit")[(i + s) % 3]
        if cfg["way"].startswith("hand") and way == "number":
            way = "object"
        used.append((op, i, way))
        before = [snapshot(t) for t in tqs]
        a, regs, quantum = len(circ.data), list(circ.cregs), set(circ.qubits)
        lb = len(lone[i].circ.data)
        lr = list(lone[i].circ.cregs)
        if op == "cx":
            j = (i + 1) % n
            args = (i, j) if way == "number" else (tqs[i], tqs[j])
            tc.cx(*args)
            allowed = owned[i] | owned[j] | (set(circ.qubits) - quantum)
            for t in tc.treg.tqubits.get("ancilla", {}).values():
                allowed |= own_qubits(t)
            allowed |= {q for r in tc.qreg.values() for q in r}
            touched = {i, j}
        else:
            if way == "qubit":
                getattr(tqs[i], op)()
            else:
                getattr(tc, CIRC.get(op, op))(i if way == "number" else tqs[i])
            getattr(lone[i], op)()
            allowed, touched = owned[i], {i}
        if op not in KEEP:
            broken.add(i)
        what = "%s" % (used,)
        new = [c for c in circ.cregs if c not in regs]
        names = appended(circ, a)
        R.check(all(set(q) <= allowed for nm_, q, _, _ in names if nm_ != "barrier"), what + ": only its own qubits are touched")
        others = {b for j in range(n) if j not in touched or op == "cx" for r in mine[j] for b in r}
        R.check(not any(others & set(c + r) for _, _, c, r in names), what + ": no other qubit's records are touched")
        for j in range(n):
            if j not in touched:
                R.check(veq_snap(before[j], snapshot(tqs[j])), what + ": counters and registers of qubit %d stay" % j)
        if op == "cx":
            for j in touched:
                R.check(eq(tqs[j].lattice.params["T"], before[j][0]["T"]), what + ": no round is counted")
            continue
        mine[i] += new
        lregs[i] += [c for c in lone[i].circ.cregs if c not in lr]
        R.check([len(c) for c in mine[i]] == [len(c) for c in lregs[i]], what + ": its registers are those of a lone qubit")
        R.check(local(shape(tqs[i], circ, a), mine[i]) == local(shape(lone[i], lone[i].circ, lb), lregs[i]), what + ": it does what it does to a lone qubit")
        for key in ("T", "num_readout", "num_lattice_readout"):
            R.check(eq(tqs[i].lattice.params[key], lone[i].lattice.params[key]), what + ": its own counter " + key)
    if not semantic:
        return
    for i in tagged:
        last[i] = stabilize(tqs[i])

    def check(res):
        props = []
        for i in tagged:
            if i in broken:
                continue
            a, b = res.reg(first[i]), res.reg(last[i])
            for j, s in enumerate(codes[i].stabilizers()):
                e = bxor_all([x for (q, d, l), x in err if q == i and s.get(d, l) != l])
                props.append((iff(bxor(a[j], b[j]), e), "after %s the syndromes of qubit %d show its own errors" % (used, i)))
        R.check_many(props)

    P.run(check)


def veq_snap(a, b):
    return band(eq(list(a[0]), list(b[0])), *[eq(a[0][k], b[0][k]) for k in a[0] if k in b[0]], a[1] == b[1], a[2] == b[2])


# ---------------------------------------------------------------- numbering
def numbering(cfg):
    q = Q()
    kinds = [("XXZZ", 3, 3), ("REP", 3, 1), ("XZZX", 1, 3)]
    subs = ["data", "ancilla", "extra"]
    reg, added, circ = None, [], None
    plan = []
    start = choose("start", range(min(cfg["n"], 2) + 1))
    for i in range(cfg["n"]):
        k = choose("type%d" % i, kinds)
        sub = "data" if i < start else choose("sub%d" % i, subs)
        plan.append((k, sub))
    one = bool(R.bool("one_by_one"))
    i = 0
    given = cfg["given"]
    kw, circ, prior = {}, None, []
    if given != "own":
        circ = qiskit.QuantumCircuit() if given == "empty" else None
        if given == "used":
            circ = qiskit.QuantumCircuit(2, 1)
            circ.h(0)
            circ.measure(0, 0)
        elif given == "second":
            circ = q.TopologicalRegister(ctypes=["XXZZ", "Repetition"], params=[{"d": 3}, {"d": 3}], name="first").circ
        prior = list(circ.qubits)
        kw["circ"] = circ
        before = len(circ.data)
    if start or R.bool("constructor"):
        reg = q.TopologicalRegister(ctypes=[REG_TYPE[k[0]] for k, _ in plan[:start]], params=[reg_params(*k) for k, _ in plan[:start]], name="r", **kw)
        i = start
    else:
        reg = q.TopologicalRegister(name="q", **kw)
    if circ is not None:
        R.check(reg.circ is circ, "the register is built on the circuit it is given (%s)" % given)
        R.check(len(circ.data) >= before and list(circ.qubits)[: len(prior)] == prior, "what the circuit held stays")
    while i < len(plan):
        j = i + 1
        k, sub = plan[i]
        if one:
            reg.add_tqubit(sub, REG_TYPE[k[0]], reg_params(*k))
        else:
            while j < len(plan) and plan[j][1] == sub:
                j += 1
            reg.add_tqubits(sub, [REG_TYPE[k[0]] for k, _ in plan[i:j]], [reg_params(*k) for k, _ in plan[i:j]])
        i = j
    R.check(circ is None or reg.circ is circ, "additions go to the same circuit")
    every = [x for x in reg.circ.qubits if x not in set(prior)]
    tc = q.TopologicalCircuit(reg)
    at = 0
    for i, (k, sub) in enumerate(plan):
        tq = reg[i]
        mine = own_qubits(tq)
        R.check(set(every[at : at + len(mine)]) == mine, "number %d is the qubit added at place %d (%s)" % (i, i, plan))
        R.check(type(tq).__name__ == type(build(*k)).__name__ and len(data(tq)) == k[1] * k[2], "number %d has the type added" % i)
        at += len(mine)
        R.check(tq.circ is reg.circ, "every logical qubit works on the register's circuit")
        R.check(reg[sub][i] is tq, "number %d is found in its sub-register" % i)
        R.check(all(i not in reg[s] for s in subs if s != sub and s in [x for _, x in plan]), "number %d is in no other sub-register" % i)
        a = len(reg.circ.data)
        tc.x(i)
        R.check({x for n_, qq, _, _ in appended(reg.circ, a) if n_ != "barrier" for x in qq} <= mine, "the circuit uses the same numbers")
    R.check(at == len(every), "no other qubits")
    for sub in {s for _, s in plan}:
        R.check(list(reg[sub]) == [i for i, (_, s) in enumerate(plan) if s == sub], "sub-register %s in the order added" % sub)
    missing = R.int("missing", lo=len(plan), hi=len(plan) + 5)
    for bad in (missing, "nothing"):
        try:
            reg[bad]
            R.check(False, "an unknown number or name is not found")
        except (ValueError, KeyError):
            pass


def given(cfg):
    """A logical qubit built on a given circuit, empty or not."""
    k, h, w = choose("type", [("XXZZ", 3, 3), ("REP", 3, 1), ("XZZX", 1, 3)])
    circ = qiskit.QuantumCircuit(*choose("size", [(), (2,), (1, 1)]))
    prior = list(circ.qubits)
    tq = build(k, h, w, circ=circ)
    op = choose("op", OPS)
    getattr(tq, op)()
    R.check(tq.circ is circ, "it is built on the circuit it is given")
    R.check(set(circ.qubits) == own_qubits(tq) | set(prior) and len(circ.data) > 0, "its qubits and operations are in that circuit")


def refused(cfg):
    q = Q()
    reg = q.TopologicalRegister(ctypes=["XXZZ"], params=[{"d": (3, 3)}])
    a = len(reg.circ.qubits)
    bad = choose("bad", [(["XXZZ", "XXZZ"], [{"d": 3}]), (["XXZZ"], []), ([], [{"d": 3}]), (["Nothing"], [{"d": 3}]), (["XXZZ", "Nothing"], [{"d": 3}, {"d": 3}])])
    try:
        reg.add_tqubits("data", *bad)
        R.check(False, "lists that do not match, and unknown types, are refused")
    except ValueError:
        R.check(len(reg.circ.qubits) == a and reg.n == 1, "a refused addition adds nothing")


# ---------------------------------------------------------------- parsing
def parse(cfg):
    qs = [tuple(x) for x in cfg["qs"]]
    reg, tc = make(dict(cfg, way="distinct"))
    for i, x in enumerate(qs):
        code = Code(*x)
        N = code.n - 1
        text = [to_bexpr(R.bool("l%d" % i))]
        for t in range(cfg["T"] + 1):
            text += [" "] + [to_bexpr(R.bool("s%d_%d_%d" % (i, t, j))) for j in range(N)]
        full = [to_bexpr(R.bool("d%d_%d" % (i, j))) for j in range(code.n)] + text[1:]
        lone = build(*x)
        for args in ((SStr.mk(text),), (SStr.mk(text), "Z"), (SStr.mk(text), "X"), (SStr.mk(full), "Z"), (SStr.mk(full), "X")):
            want = lone.parse_readout(*args)
            for name, tq in (("number", i), ("object", reg[i])):
                got = tc.parse_readout(tq, *args)
                R.check(eq(got[0], want[0]), "parsing by %s: logical value" % name)
                for key in "XZ":
                    check_hits(got[1][key], {c: g for c, (g, _) in hitmap(want[1][key]).items()}, "parsing by %s: hits %s" % (name, key))
