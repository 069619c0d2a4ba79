"""Rounds and readouts are recorded in order."""
from .common import *

EXPLAIN = (
    "Each step of the history is an input variable choosing among rounds, both logical readouts (into a fresh or a given register), both full-lattice readouts, logical"
    " operators, identities and resets; X and Z error variables on every data qubit before every step. For every history: one fresh register of the right"
    " width per round and fresh readout, in order, every recorded bit measured exactly once and never touched again, the counter counts the rounds; the result"
    " string lists them newest first, each readout holds the logical value at its own time, and parsing the rounds with the last readout reports every error"
    " at the time step of the interval it happened in."
)
BOUNDS = {
    "quick": "histories of 3 steps and a final readout on 3x1, 1x3, 3x3 of all families; of 4 rounds/readouts on 3x1, 1x3; 2 steps on 5x3, 3x5, 5x5; 11 rounds (5 on 3x3) with any one operation at any place",
    "thorough": "4 steps and a final readout; 5 rounds/readouts; 3 steps on 5x3, 3x5, 5x5; 20 rounds with any one operation at any place",
}
ASSUMPTIONS = ENV_ASSUME

ALL = ["R", "rz", "rx", "gz", "gx", "lz", "lx", "x", "z", "id", "id_data", "reset_z", "reset_x"]
FEW = ["R", "rz", "gx", "lx", "x", "id", "reset_z"]
REC = ["R", "rz", "rx", "lz"]
FINAL = ["rz", "rx", "lz", "lx"]


def configs(tier):
    out = []
    for k, h, w in families([(3, 1), (1, 3), (3, 3)]):
        for o in ALL:
            out.append(dict(name=nm(k, h, w, o), k=k, h=h, w=w, pre=[o], steps=2 if tier == "quick" else 3, ops=FEW if tier == "quick" else FEW + ["lz", "rx"]))
        if h * w == 3:
            for o in REC:
                out.append(dict(name=nm(k, h, w, "deep", o), k=k, h=h, w=w, pre=[o], steps=3 if tier == "quick" else 4, ops=REC))
        for o in ALL:
            out.append(dict(name=nm(k, h, w, "long", o), k=k, h=h, w=w, pre=[o], steps=0, ops=[], long=(11 if h * w == 3 else 5) if tier == "quick" else 20))
            if o[0] != "R" and (tier == "thorough" or h * w == 3 or o in REC):
                out.append(dict(name=nm(k, h, w, "many", o), k=k, h=h, w=w, pre=["R"] + [o] * 12, steps=1, ops=FEW, long=None))
    for k, h, w in families([(3, 5), (5, 3), (5, 5)]):
        for o in FEW if tier == "quick" else ALL:
            out.append(dict(name=nm(k, h, w, o), k=k, h=h, w=w, pre=["R", o], steps=1 if tier == "quick" else 2, ops=ALL if tier == "quick" else FEW))
    for i, c in enumerate(out):
        # a qubit may be called anything, also what its own registers are called after
        c["qubit"] = ("tq", "lattice_readout_1", "tq", "c1_readout", "tq", "q")[i % 6]
        c["samples"] = 1
        c["define"] = c["h"] * c["w"] == 3 and "long" not in c or tier == "thorough" and c["h"] * c["w"] == 9
    return out


def harness(cfg):
    from qiskit import ClassicalRegister

    k, h, w = cfg["k"], cfg["h"], cfg["w"]
    code = Code(k, h, w)
    if cfg.get("long"):
        at = choose("at", range(cfg["long"] + 1))
        hist = ["R"] * at + cfg["pre"] + ["R"] * (cfg["long"] - at)
    else:
        hist = list(cfg["pre"])
    hist += [choose("op%d" % i, cfg["ops"]) for i in range(cfg["steps"])]
    hist.append(choose("final", FINAL))
    tq = build(k, h, w, name=cfg["qubit"])
    circ = tq.circ
    D = data(tq)
    given = ClassicalRegister(1, "given")
    circ.add_register(given)
    P = Prog(circ, define=cfg["define"])
    P.bell(D)
    order, rounds, readouts = [given], [], []  # expected registers; rounds; (register, kind, obs name)
    errs = [{}]  # errors since the last round, per interval
    broken = [False]  # something destroyed the syndromes in this interval
    for n, o in enumerate(hist):
        for i, q in enumerate(D):
            for l in "XZ":
                e = to_bexpr(R.bool("%s%d_%d" % (l, n, i)))
                errs[-1].setdefault((i, l), []).append(e)
                P.fault(l, q, e)
        basis = o[1].upper() if o in ("rz", "rx", "gz", "gx", "lz", "lx") else None
        if basis:
            P.obs("v%d" % n, on(code.logical_z() if basis == "Z" else code.logical_x(), D))
        regs, a = list(circ.cregs), len(circ.data)
        apply(tq, o, given)
        fresh = [c for c in circ.cregs if c not in regs]
        R.check(list(circ.cregs)[: len(regs)] == regs, "registers keep their places")
        size = {"R": code.n - 1, "rz": 1, "rx": 1, "lz": code.n, "lx": code.n}.get(o)
        R.check([len(c) for c in fresh] == ([] if size is None else [size]), "%s in %s adds %s" % (o, hist, "nothing" if size is None else "one register of its own"))
        written = [b for _, _, cs, _ in appended(circ, a) for b in cs]
        want = list(fresh[0]) if fresh else list(given) if o in ("gz", "gx") else []
        R.check(len(written) == len(want) and set(written) == set(want), "%s in %s writes each bit of its register once and nothing else" % (o, hist))
        R.check(not [1 for _, _, _, rd in appended(circ, a) if rd], "no operation depends on earlier records")
        order += fresh
        if o == "R":
            rounds.append(fresh[0])
            errs.append({})
            broken.append(False)
        elif basis:
            readouts.append((fresh[0] if fresh else given, o, "v%d" % n))
        if o in ("lz", "lx", "reset_z", "reset_x"):
            broken[-1] = True
        T = tq.lattice.params["T"]
        R.check(eq(T, len(rounds) - 1), "round counter after %s" % hist[: n + 1])
    R.check(list(circ.cregs) == order, "registers are in the order of the rounds and readouts")
    last = readouts[-1]

    def check(res):
        props = []
        text = res.string()
        tokens = text.split(" ")
        R.check(len(tokens) == len(order), "one token per register")
        for c, tok in zip(reversed(order), tokens):
            R.check(len(tok) == len(c), "newest first")
        for r, o, v in readouts:
            if r is given and (r, o, v) != [x for x in readouts if x[0] is given][-1]:
                continue
            if o[0] == "l":
                bits = res.reg(r)
                value = bxor_all([bits[i] for i in (code.logical_z() if o == "lz" else code.logical_x())])
            else:
                value = res.reg(r)[0]
            props.append((iff(value, res.obs(v)), "%s records the logical value of its time" % o))
        R.check_many(props)
        if not rounds:
            return
        b = hist[-1][1].upper()
        logical, hits = tq.parse_readout(res.string(rounds + [last[0]]), b)
        R.check(eqbit(logical, res.obs(last[2])), "the parsed value is the last readout's")
        exp = {"X": {}, "Z": {}}
        for j, (key, c) in enumerate(code.keys()):
            for t in range(len(rounds)):
                if t == len(rounds) - 1 and hist[-1][0] != "l":
                    continue
                end = t == len(rounds) - 1
                undisturbed = not broken[t + 1] or end and not any(x in ("lz", "lx", "reset_z", "reset_x") for x in after(hist))
                if end and key != b:
                    e = False
                elif undisturbed:
                    e = anti(code.stabilizers()[j], errs[t + 1])
                else:
                    now = res.reg(rounds[t])[j]
                    if end:
                        bits = res.reg(last[0])
                        nxt = bxor_all([bits[i] for i in code.stabilizers()[j]])
                    else:
                        nxt = res.reg(rounds[t + 1])[j]
                    e = bxor(now, nxt)
                exp[key][(t,) + c] = e
        for key in "XZ":
            check_hits(hits[key], exp[key], "hits of type %s after %s" % (key, hist))

    P.run(check)


def after(hist):
    """The steps between the last round and the final readout."""
    out = []
    for o in reversed(hist[:-1]):
        if o == "R":
            break
        out.append(o)
    return out


def anti(stab, errs):
    return bxor_all([e for (i, l), es in errs.items() if stab.get(i, l) != l for e in es])


def apply(tq, o, given):
    if o == "R":
        tq.stabilize()
    elif o in ("rz", "rx"):
        (tq.readout_z if o == "rz" else tq.readout_x)()
    elif o in ("gz", "gx"):
        (tq.readout_z if o == "gz" else tq.readout_x)(readout_creg=given)
    elif o in ("lz", "lx"):
        (tq.lattice_readout_z if o == "lz" else tq.lattice_readout_x)()
    else:
        getattr(tq, o)()
