"""Running the circuits the encoders build: symbolically (Sim) or for real (Aer).

A Prog wraps a real QuantumCircuit that code under test appends to.  The harness marks, at the
current end of the circuit, error events, non-destructive observations and conditional blocks.
run() then hands every possible result to a check function: symbolically that is one result whose
bits are boolean expressions; concretely one result per distinct outcome of the Aer simulator.
"""
import os

from .core import R, SStr, SBool, band, bxor, bnot, to_bexpr, zb, z3, Violation, Infeasible
from .qsim import Sim


class Result:
    def __init__(self, prog, bits, obs):
        self.prog, self._bits, self._obs = prog, bits, obs

    def bit(self, clbit):
        return self._bits[self.prog.ci[clbit]]

    def reg(self, creg):
        """Bits of a register, lowest first."""
        return [self.bit(b) for b in creg]

    def obs(self, name):
        return self._obs[name]

    def string(self, cregs=None):
        """The qiskit-style result string of the circuit (or of the given registers)."""
        cregs = list(self.prog.circ.cregs) if cregs is None else cregs
        out = []
        for n, c in enumerate(reversed(cregs)):
            if n:
                out.append(" ")
            out += [self.bit(c[k]) for k in reversed(range(len(c)))]
        return SStr.mk(out)


class Prog:
    def __init__(self, circ, prefix="", define=True):
        self.circ = circ
        self.define = define
        self.ev = {}
        self.ranges = []
        self.flips = []
        self.prefix = prefix
        self.names = []

    def here(self):
        return len(self.circ.data)

    # -- marking
    def fault(self, kind, qubit, sel):
        self.ev.setdefault(self.here(), []).append((kind.lower(), qubit, to_bexpr(sel)))

    def pauli(self, p, sel=True):
        for q, l in p.items():
            self.fault(l, q, sel)

    def obs(self, name, pauli):
        """Record the non-destructive measurement of a Pauli {qubit: letter} at this point."""
        self.names.append(name)
        self.ev.setdefault(self.here(), []).append(("obs", name, dict(pauli)))

    def do(self, sel, fn):
        """Perform the operations fn() appends only if sel holds."""
        a = self.here()
        fn()
        self.ranges.append((a, self.here(), to_bexpr(sel)))

    def flip(self, clbit, sel):
        """The recorded classical bit is wrong when sel holds (a readout error)."""
        self.flips.append((clbit, to_bexpr(sel)))

    def bell(self, qubits, name="ref"):
        """Entangle each qubit maximally with a fresh reference qubit, which is returned."""
        from qiskit import QuantumRegister

        ref = QuantumRegister(len(qubits), name=name + self.prefix)
        self.circ.add_register(ref)
        for q, r in zip(qubits, ref):
            self.circ.reset(q)
            self.circ.h(r)
            self.circ.cx(r, q)
        return list(ref)

    # -- running
    def run(self, check):
        self.ci = {c: i for i, c in enumerate(self.circ.clbits)}
        if R.mode == "sym":
            return check(self._sim())
        if R.cex.get("_aer", True):
            for res in self._aer():
                check(res)
        if R.cex.get("_forced", True):
            return check(self._sim())

    def _events(self):
        e = {k: v for k, v in self.ev.items()}
        e["ranges"] = self.ranges
        return e

    def _sim(self):
        s = Sim(self.circ, self.prefix)
        s.run(self._events())
        bits = [s.expr(m) for m in s.c]
        for c, e in self.flips:
            bits[self.ci[c]] = bxor(bits[self.ci[c]], e)
        self.sim = s
        obs = s.obs
        if self.define and R.mode == "sym":
            # results become solver variables constrained by their symbolic values, so that relations
            # between them are decided by the solver and not by rewriting
            bits = [self._def("c%d" % i, b) for i, b in enumerate(bits)]
            obs = {n: self._def("o_" + n, b) for n, b in obs.items()}
        return Result(self, bits, obs)

    def _def(self, n, e):
        v = z3.Bool("%s!%s" % (self.prefix, n))
        R.add(v == zb(e))
        return v

    def _aer(self):
        """Results of the circuit with the chosen events inserted, from the Aer simulator."""
        from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
        from qiskit_aer import AerSimulator

        src = self.circ
        qc = QuantumCircuit()
        for b in src.qubits:
            qc.add_bits([b])
        for b in src.clbits:
            qc.add_bits([b])
        for r in src.qregs:
            qc.add_register(r)
        for r in src.cregs:
            qc.add_register(r)
        oc = None
        if self.names:
            oq = QuantumRegister(1, "obsq" + self.prefix)
            oc = ClassicalRegister(len(self.names), "obsc" + self.prefix)
            qc.add_register(oq)
            qc.add_register(oc)
        k = 0

        def events(pos):
            nonlocal k
            for ev in self.ev.get(pos, ()):
                if ev[0] == "obs":
                    qc.reset(oq[0])
                    qc.h(oq[0])
                    for q, l in ev[2].items():
                        {"X": qc.cx, "Y": qc.cy, "Z": qc.cz}[l](oq[0], q)
                    qc.h(oq[0])
                    qc.measure(oq[0], oc[k])
                    k += 1
                elif ev[2]:
                    getattr(qc, ev[0])(ev[1])

        for pos, ins in enumerate(src.data):
            events(pos)
            if any(a <= pos < b and not sel for a, b, sel in self.ranges):
                continue
            qc.append(ins)
        events(len(src.data))
        if not qc.clbits:
            yield Result(self, [], {})
            return
        shots = int(R.cex.get("_shots", 48))
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        sim = AerSimulator(method="stabilizer")
        from qiskit import transpile

        res = sim.run(qc, shots=shots, memory=True, seed_simulator=seed).result()
        if not res.success:
            qt = transpile(qc, sim, optimization_level=0)
            res = sim.run(qt, shots=shots, memory=True, seed_simulator=seed).result()
            if not res.success:
                raise RuntimeError("Aer: " + str(res.status))
        seen = set()
        pos = {}
        regs = [r for r in qc.cregs]
        for s in res.get_memory():
            if s in seen:
                continue
            seen.add(s)
            toks = s.split(" ")
            regs_ne = [r for r in regs if len(r)]
            toks = [t for t in toks if t]
            if len(toks) != len(regs_ne):
                raise RuntimeError("unexpected result string %r" % s)
            bits = [False] * len(self.circ.clbits)
            obs = {}
            for t, r in zip(toks, reversed(regs_ne)):
                for j, b in enumerate(r):
                    v = t[len(r) - 1 - j] == "1"
                    if r is oc:
                        obs[self.names[j]] = v
                    else:
                        bits[self.ci[b]] = v
            for c, e in self.flips:
                bits[self.ci[c]] ^= bool(e)
            yield Result(self, bits, obs)


def val(x):
    """Boolean expression of a 0/1 result (int, SInt, bool...)."""
    return to_bexpr(x)
