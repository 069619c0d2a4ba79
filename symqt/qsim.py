"""Symbolic stabilizer simulation of the circuits the real encoders build.

The circuit built by the code under test (a qiskit QuantumCircuit) is the program that is
executed symbolically: Clifford gates, measurements, resets and classically conditioned
gates act on a stabilizer tableau whose signs are parities of boolean unknowns (error
locations, measurement outcomes, operation selectors, conditions).  Signs are Python ints
used as bit masks over the unknowns (bit 0 is the constant).
"""
from .core import R, SBool, SInt, SStr, Unsupported, band, bnot, bxor, bxor_all, to_bexpr, biff, z3


class Tableau:
    def __init__(self, n):
        self.n = n
        self.one = 1
        # rows: destabilizers 0..n-1, stabilizers n..2n-1
        self.x = [1 << i for i in range(n)] + [0] * n
        self.z = [0] * n + [1 << i for i in range(n)]
        self.r = [0] * (2 * n)

    def grow(self, m):
        """Add m qubits in |0>."""
        n = self.n
        x = self.x[:n] + [1 << (n + i) for i in range(m)] + self.x[n:] + [0] * m
        z = self.z[:n] + [0] * m + self.z[n:] + [1 << (n + i) for i in range(m)]
        r = self.r[:n] + [0] * m + self.r[n:] + [0] * m
        self.x, self.z, self.r, self.n = x, z, r, n + m

    def h(self, a):
        b = 1 << a
        x, z, r = self.x, self.z, self.r
        for i in range(2 * self.n):
            xi, zi = x[i] & b, z[i] & b
            if xi:
                if zi:
                    r[i] ^= 1
                else:
                    x[i] ^= b
                    z[i] ^= b
            elif zi:
                x[i] ^= b
                z[i] ^= b

    def s(self, a):
        b = 1 << a
        x, z, r = self.x, self.z, self.r
        for i in range(2 * self.n):
            if x[i] & b:
                if z[i] & b:
                    r[i] ^= 1
                z[i] ^= b

    def cx(self, c, t):
        bc, bt = 1 << c, 1 << t
        x, z, r = self.x, self.z, self.r
        for i in range(2 * self.n):
            xc, zt = x[i] & bc, z[i] & bt
            if xc:
                if zt and (not (x[i] & bt)) == (not (z[i] & bc)):
                    r[i] ^= 1
                x[i] ^= bt
            if zt:
                z[i] ^= bc

    def pauli(self, px, pz, sign):
        """Apply the Pauli with masks px,pz conditioned on the affine value `sign`."""
        if not sign:
            return
        x, z, r = self.x, self.z, self.r
        for i in range(2 * self.n):
            if ((x[i] & pz).bit_count() + (z[i] & px).bit_count()) & 1:
                r[i] ^= sign

    @staticmethod
    def _mul(x1, z1, x2, z2):
        """Exponent of i (mod 4) of P1*P2 relative to the Hermitian representatives."""
        y1, y2 = x1 & z1, x2 & z2
        xo1, zo1 = x1 & ~z1, z1 & ~x1
        # contributions per qubit of g(x1,z1,x2,z2)
        p = (y1 & z2 & ~x2).bit_count() - (y1 & x2 & ~z2).bit_count()
        p += (xo1 & y2).bit_count() - (xo1 & z2 & ~x2).bit_count()
        p += (zo1 & x2 & ~z2).bit_count() - (zo1 & y2).bit_count()
        return p % 4

    def rowsum(self, h, i):
        p = self._mul(self.x[i], self.z[i], self.x[h], self.z[h])
        self.r[h] ^= self.r[i] ^ (1 if p in (2, 3) else 0)
        self.x[h] ^= self.x[i]
        self.z[h] ^= self.z[i]

    def measure(self, a, fresh):
        """Z measurement; returns the affine outcome.  fresh() makes a new unknown's mask."""
        n, b = self.n, 1 << a
        p = next((i for i in range(n, 2 * n) if self.x[i] & b), None)
        if p is not None:
            for i in range(2 * n):
                if i != p and self.x[i] & b:
                    self.rowsum(i, p)
            self.x[p - n], self.z[p - n], self.r[p - n] = self.x[p], self.z[p], self.r[p]
            m = fresh()
            self.x[p], self.z[p], self.r[p] = 0, b, m
            return m
        sx = sz = sr = 0
        for i in range(n):
            if self.x[i] & b:
                p = self._mul(self.x[i + n], self.z[i + n], sx, sz)
                sr ^= self.r[i + n] ^ (1 if p in (2, 3) else 0)
                sx ^= self.x[i + n]
                sz ^= self.z[i + n]
        return sr


    def measure_pauli(self, px, pz, fresh):
        """Non-destructive measurement of the Hermitian Pauli with masks px, pz."""
        n = self.n

        def anti(i):
            return ((self.x[i] & pz).bit_count() + (self.z[i] & px).bit_count()) & 1

        p = next((i for i in range(n, 2 * n) if anti(i)), None)
        if p is not None:
            for i in range(2 * n):
                if i != p and anti(i):
                    self.rowsum(i, p)
            self.x[p - n], self.z[p - n], self.r[p - n] = self.x[p], self.z[p], self.r[p]
            m = fresh()
            self.x[p], self.z[p], self.r[p] = px, pz, m
            return m
        sx = sz = sr = 0
        for i in range(n):
            if anti(i):
                k = self._mul(self.x[i + n], self.z[i + n], sx, sz)
                sr ^= self.r[i + n] ^ (1 if k in (2, 3) else 0)
                sx ^= self.x[i + n]
                sz ^= self.z[i + n]
        if (sx, sz) != (px, pz):
            raise RuntimeError("stabilizer tableau inconsistent")
        return sr


class Sim:
    """Executes a qiskit circuit on a Tableau with symbolic signs."""

    def __init__(self, circ, prefix=""):
        self.circ = circ
        self.prefix = prefix
        self.obs = {}
        self.qi = {q: i for i, q in enumerate(circ.qubits)}
        self.ci = {c: i for i, c in enumerate(circ.clbits)}
        self.t = Tableau(len(circ.qubits))
        self.c = [0] * len(circ.clbits)
        self.vars = [None]  # index -> boolean expression (bit 0 is the constant one)
        self.names = [None]
        self.nrand = 0
        self.written = {}

    # unknowns
    def new(self, expr, name):
        self.vars.append(expr)
        self.names.append(name)
        return 1 << (len(self.vars) - 1)

    def mask_of(self, expr):
        """Affine mask of a boolean expression (an unknown of its own unless constant)."""
        if isinstance(expr, bool):
            return 1 if expr else 0
        neg = 0
        if z3.is_not(expr):
            expr, neg = expr.arg(0), 1
        for i in range(1, len(self.vars)):
            if self.vars[i].eq(expr):
                return (1 << i) ^ neg
        return self.new(expr, str(expr)[:40]) ^ neg

    def expr(self, mask):
        if not mask:
            return False
        out = [bool(mask & 1)]
        i, m = 1, mask >> 1
        while m:
            if m & 1:
                out.append(self.vars[i])
            m >>= 1
            i += 1
        return bxor_all(out)

    def rand(self):
        self.nrand += 1
        nm = "%sr%d" % (self.prefix, self.nrand)
        v = to_bexpr(R.bool(nm))
        return int(v) if isinstance(v, bool) else self.new(v, nm)

    # gates
    def gate(self, name, qs, sel, cond):
        """sel: affine mask of the condition under which the gate acts (1 = always)."""
        t = self.t
        if name in ("id", "barrier", "delay"):
            return
        if name in ("x", "y", "z"):
            b = 1 << qs[0]
            t.pauli(b if name in "xy" else 0, b if name in "yz" else 0, sel)
            return
        if sel == 0:
            return
        if sel != 1:
            if not R.branch(self.expr(sel)):
                return
        if name == "h":
            t.h(qs[0])
        elif name == "s":
            t.s(qs[0])
        elif name == "sdg":
            t.s(qs[0])
            t.pauli(0, 1 << qs[0], 1)
        elif name in ("sx", "sxdg"):
            t.h(qs[0])
            t.s(qs[0])
            if name == "sxdg":
                t.pauli(0, 1 << qs[0], 1)
            t.h(qs[0])
        elif name in ("cx", "cnot"):
            t.cx(*qs)
        elif name == "cz":
            t.h(qs[1])
            t.cx(*qs)
            t.h(qs[1])
        elif name == "cy":
            t.s(qs[1])
            t.pauli(0, 1 << qs[1], 1)
            t.cx(*qs)
            t.s(qs[1])
        elif name == "swap":
            a, b = qs
            t.cx(a, b)
            t.cx(b, a)
            t.cx(a, b)
        elif name == "iswap":
            a, b = qs
            t.s(a), t.s(b), t.h(a), t.cx(a, b), t.cx(b, a), t.h(b)
        else:
            raise Unsupported("gate %s is not Clifford/known" % name)

    def condition(self, op):
        """Affine mask of op.condition (or of a classical condition), 1 if unconditional."""
        cond = getattr(op, "condition", None)
        if cond is None:
            return 1
        reg, val = cond
        bits = list(reg) if hasattr(reg, "__iter__") else [reg]
        val = int(val)
        ms = []
        for k, b in enumerate(bits):
            m = self.c[self.ci[b]]
            ms.append(m if (val >> k) & 1 else m ^ 1)
        if val >> len(bits):
            return 0
        ms = [m for m in ms if m != 1]
        if not ms:
            return 1
        if any(m == 0 for m in ms):
            return 0
        if len(ms) == 1:
            return ms[0]
        e = band(*[self.expr(m) for m in ms])
        if isinstance(e, bool):
            return 1 if e else 0
        d = R.fresh_bool("cond")
        R.add(d == e)
        return self.new(d, "cond")

    def step(self, op, qs, cs, sel=1):
        name = op.name
        c = self.condition(op)
        if c != 1 and sel != 1:
            if c == 0 or sel == 0:
                return
            d = R.fresh_bool("cond")
            R.add(d == band(self.expr(c), self.expr(sel)))
            c = self.new(d, "cond")
        elif c == 1:
            c = sel
        if c == 0:
            return
        if name == "measure":
            if c != 1 and not R.branch(self.expr(c)):
                return
            self.c[cs[0]] = self.t.measure(qs[0], self.rand)
            self.written[cs[0]] = self.written.get(cs[0], 0) + 1
            return
        if name == "reset":
            if c != 1 and not R.branch(self.expr(c)):
                return
            m = self.t.measure(qs[0], self.rand)
            self.t.pauli(1 << qs[0], 0, m)
            return
        if name in ("x", "y", "z", "h", "s", "sdg", "sx", "sxdg", "cx", "cz", "cy", "swap", "id", "barrier", "delay", "iswap"):
            self.gate(name, qs, c, None)
            return
        d = getattr(op, "definition", None)
        if d is None:
            raise Unsupported("instruction %s" % name)
        qm = {q: qs[i] for i, q in enumerate(d.qubits)}
        cm = {b: cs[i] for i, b in enumerate(d.clbits)}
        for ins in d.data:
            self.step(ins.operation, [qm[q] for q in ins.qubits], [cm[b] for b in ins.clbits], c)

    def run(self, events):
        """events: position -> [(kind, payload)] executed before the instruction at that position."""
        data = self.circ.data
        sel_at = events.get("sel", {})
        for pos, ins in enumerate(data):
            for ev in events.get(pos, ()):
                self.event(ev)
            sel = 1
            for (a, b, e) in events.get("ranges", ()):
                if a <= pos < b:
                    sel = self.mask_of(e) if sel == 1 else sel
            if pos in sel_at:
                sel = self.mask_of(sel_at[pos])
            self.step(ins.operation, [self.qi[q] for q in ins.qubits], [self.ci[c] for c in ins.clbits], sel)
        for ev in events.get(len(data), ()):
            self.event(ev)

    def event(self, ev):
        kind, q, e = ev
        if kind == "obs":
            px = pz = 0
            for b, l in e.items():
                m = 1 << self.qi[b]
                px |= m if l in "XY" else 0
                pz |= m if l in "YZ" else 0
            self.obs[q] = self.expr(self.t.measure_pauli(px, pz, self.rand))
            return
        m = self.mask_of(e)
        b = 1 << self.qi[q]
        self.t.pauli(b if kind in "xy" else 0, b if kind in "yz" else 0, m)

    def bit(self, clbit):
        return self.expr(self.c[self.ci[clbit]])
