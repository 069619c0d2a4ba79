"""Reference description of the codes, written from the documentation, independent of /repo.

A lattice of h x w data qubits (index = row*w + col).  Z plaquettes sit between rows, X
plaquettes between columns, at half-integer (row, col) centres; a plaquette's data qubits are
the lattice sites at distance (1/2, 1/2) from its centre.
"""


def z_plaquettes(h, w):
    out = []
    for r in range(h - 1):
        for k in range((w + 1) // 2):
            out.append((r + 0.5, 0.5 - (r % 2) + 2 * k))
    return out


def x_plaquettes(h, w):
    out = []
    for r in range(h + 1):
        for k in range((w - 1) // 2):
            out.append((r - 0.5, 0.5 + (r % 2) + 2 * k))
    return out


def sites(h, w, c):
    """Data indices around a centre, with their corner names."""
    out = []
    for name, dr, dc in (("tl", -0.5, -0.5), ("tr", -0.5, 0.5), ("bl", 0.5, -0.5), ("br", 0.5, 0.5)):
        r, q = c[0] + dr, c[1] + dc
        if 0 <= r < h and 0 <= q < w:
            out.append((name, int(r) * w + int(q)))
    return out


class Code:
    """kind: XXZZ, XZZX or REP (a bit- or phase-flip protected line, an XXZZ code of width/height 1)."""

    def __init__(self, kind, h, w):
        self.kind, self.h, self.w, self.n = kind, h, w, h * w
        self.zp, self.xp = z_plaquettes(h, w), x_plaquettes(h, w)
        self.nz, self.nx = len(self.zp), len(self.xp)

    def _pauli(self, key, idx, name):
        """Pauli letter of a plaquette of grid `key` on data idx at corner `name`."""
        if self.kind == "XZZX":
            return "X" if name in ("tl", "br") else "Z"
        return key

    def stabilizer(self, key, k):
        c = (self.zp if key == "Z" else self.xp)[k]
        return {i: self._pauli(key, i, nm) for nm, i in sites(self.h, self.w, c)}

    def stabilizers(self):
        """In the order of the bits of a round: Z plaquettes first, then X plaquettes."""
        return [self.stabilizer("Z", k) for k in range(self.nz)] + [self.stabilizer("X", k) for k in range(self.nx)]

    def keys(self):
        return [("Z", c) for c in self.zp] + [("X", c) for c in self.xp]

    def logical_z(self):
        return {j: (("X" if j % 2 == 0 else "Z") if self.kind == "XZZX" else "Z") for j in range(self.w)}

    def logical_x(self):
        return {
            i * self.w: (("X" if (i * self.w) % 2 == 1 else "Z") if self.kind == "XZZX" else "X") for i in range(self.h)
        }

    def flip_letter(self, basis, idx):
        """Pauli letter that, on data idx, flips the logical `basis` readout type (anticommutes with
        the plaquettes of grid `basis` there)."""
        if self.kind == "XZZX":
            even = idx % 2 == 0
            # grid Z measures X on even and Z on odd sites (like logical Z)
            return ("Z" if even else "X") if basis == "Z" else ("X" if even else "Z")
        return "X" if basis == "Z" else "Z"

    def readout_letter(self, basis, idx):
        """Basis in which data idx is read by a full-lattice readout of type `basis`."""
        if self.kind == "XZZX":
            even = idx % 2 == 0
            return ("X" if even else "Z") if basis == "Z" else ("Z" if even else "X")
        return basis

    # fault graph of one grid
    def data_fault(self, basis, idx):
        """(plaquettes of grid `basis` flipped by an error of the flipping letter on data idx)."""
        ps = self.zp if basis == "Z" else self.xp
        return [c for c in ps if any(i == idx for _, i in sites(self.h, self.w, c))]

    def boundary_sites(self, basis, idx):
        """Boundary positions next to data idx of which the grid has no plaquette."""
        r, q = divmod(idx, self.w)
        out = []
        for dr in (-0.5, 0.5):
            for dc in (-0.5, 0.5):
                c = (r + dr, q + dc)
                zlike = self._zlike(c)
                if zlike != (basis == "Z"):
                    continue
                if basis == "Z" and (c[0] < 0 or c[0] > self.h - 1):
                    out.append(c)
                if basis == "X" and (c[1] < 0 or c[1] > self.w - 1):
                    out.append(c)
        return out

    @staticmethod
    def _zlike(c):
        """Chequerboard: is this centre on the Z sublattice?"""
        return (int(c[0] - 0.5) + int(c[1] - 0.5)) % 2 == 0

    def distance(self, basis):
        """Least number of data errors flipping the logical `basis` readout undetected."""
        return self.h if basis == "Z" else self.w


def commutes(p, q):
    n = 0
    for i, a in p.items():
        b = q.get(i)
        if b is not None and a != b:
            n += 1
    return n % 2 == 0


class FaultGraph:
    """Elementary faults of one grid over T difference layers.

    Vertices: (t, row, col) of a plaquette, and (-1, row, col) of a boundary position.  Edges: a data
    error in an interval joins the two places it touches; a flipped measurement joins t-1 and t."""

    def __init__(self, code, basis, T):
        self.adj = {}
        self.kinds = {}
        ps = code.zp if basis == "Z" else code.xp
        f = lambda t, c: (float(t), float(c[0]), float(c[1]))
        for t in range(T):
            for c in ps:
                self.adj.setdefault(f(t, c), set())
        self.real = sorted(self.adj)
        bound = set()
        for idx in range(code.n):
            for c in code.boundary_sites(basis, idx):
                bound.add(f(-1, c))
        self.boundary = sorted(bound)
        for b in self.boundary:
            self.adj[b] = set()
        for t in range(T):
            for idx in range(code.n):
                ends = [f(t, c) for c in code.data_fault(basis, idx)] + [f(-1, c) for c in code.boundary_sites(basis, idx)]
                if len(ends) != 2:
                    raise ValueError("data error %d touches %r" % (idx, ends))
                r, q = divmod(idx, code.w)
                self._edge(ends[0], ends[1], ("data", t, idx), (r == 0) if basis == "Z" else (q == 0))
        for t in range(1, T):
            for c in ps:
                self._edge(f(t - 1, c), f(t, c), ("meas", t, c), False)

    def _edge(self, a, b, what, crosses):
        if a[0] < 0 and b[0] < 0:
            return  # a data error no plaquette sees
        if b in self.adj[a]:
            raise ValueError("two faults join %r and %r" % (a, b))
        self.adj[a].add(b)
        self.adj[b].add(a)
        self.kinds[a, b] = self.kinds[b, a] = (what, crosses)

    def dist(self, src):
        """vertex -> (least faults, number of chains of that size)."""
        d, n = {src: 0}, {src: 1}
        cur = [src]
        while cur:
            nxt = []
            for a in cur:
                for b in self.adj[a]:
                    if b not in d:
                        d[b], n[b] = d[a] + 1, 0
                        nxt.append(b)
                    if d[b] == d[a] + 1:
                        n[b] += n[a]
            cur = nxt
        return d, n

    def crosses(self, a, b):
        """Parity with which the chains from plaquette a to boundary b cross the logical operator (all
        shortest ones agree, or an error is raised)."""
        d, _ = self.dist(b)
        vals = {}

        def go(x):
            if x == b:
                return {0}
            if x not in vals:
                out = set()
                for y in self.adj[x]:
                    if d.get(y) == d[x] - 1:
                        out |= {p ^ int(self.kinds[x, y][1]) for p in go(y)}
                vals[x] = out
            return vals[x]

        r = go(a)
        if len(r) != 1:
            raise ValueError("ambiguous crossing %r %r" % (a, b))
        return r.pop()
