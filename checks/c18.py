"""Code sizes are validated the same way everywhere."""
from .common import *

EXPLAIN = (
    "The real constructors of every qubit and decoder (directly, and through a TopologicalRegister) run on symbolic integer sizes h, w (or one number d) and a symbolic"
    " protection flag: they succeed exactly when the size is valid and raise a lattice error otherwise; on success the numbers of data qubits,"
    " syndrome qubits and bits per round (and of the decoder's graph nodes) are the stated functions of h and w."
)
BOUNDS = {
    "quick": "all integers h, w that are even or at most 11 (all negative ones and zero included), T in {1,2} for decoders; one number d: even or at most 13",
    "thorough": "even or at most 17 (19)",
}
ASSUMPTIONS = [ENV_ASSUME[1], "Sizes are integers (a single one or a tuple of two)."]


def configs(tier):
    out = []
    lim = 11 if tier == "quick" else 17
    for what in ("XXZZ", "XZZX", "REP", "register-XXZZ", "register-XZZX", "register-Repetition", "RotatedDecoder", "RepetitionDecoder"):
        out.append(dict(name="%s-tuple" % what, what=what, form="tuple", lim=lim, samples=2))
        out.append(dict(name="%s-int" % what, what=what, form="int", lim=lim + 2, samples=2))
        if what in ("XXZZ", "XZZX", "RotatedDecoder"):
            out.append(dict(name="%s-list" % what, what=what, form="list", lim=5, samples=2))
        out.append(dict(name="%s-default" % what, what=what, form="default", lim=lim, samples=0))
        if what.endswith("Decoder"):
            out.append(dict(name="%s-incomplete" % what, what=what, form="incomplete", samples=1))
    return out


def size(name, lim):
    n = R.int(name)
    R.assume(bor(to_bexpr(n <= lim), to_bexpr(n % 2 == 0)))
    if n >= 1 and n % 2 == 1:
        return n.concrete() if R.mode == "sym" else n
    return n


def incomplete(cfg):
    """A decoder cannot guess its number of difference layers, nor (but for a repetition code) its size."""
    params = {}
    if R.bool("size"):
        params["d"] = choose("d", [3, (3, 1)]) if cfg["what"] == "RepetitionDecoder" else 3
    elif cfg["what"] == "RotatedDecoder" and R.bool("T"):
        params["T"] = 1
    if R.bool("flag"):
        params["phase-flip-protected"] = False
    try:
        getattr(Q(), cfg["what"])(params)
    except (ValueError, Q().LatticeError):
        R.check(True, "refused")
        return
    R.check(False, "a decoder without its size or number of layers is refused")


def harness(cfg):
    q = Q()
    if cfg["form"] == "incomplete":
        return incomplete(cfg)
    what, form = cfg["what"], cfg["form"]
    rep = what in ("REP", "register-Repetition", "RepetitionDecoder")
    flag = bool(R.bool("phase")) if rep else False
    params = {}
    if form == "int":
        d = size("d", cfg["lim"])
        h, w = ((1, d) if flag else (d, 1)) if rep else (d, d)
        params["d"] = d
    elif form == "default":
        h, w = ((1, 3) if flag else (3, 1)) if rep else (3, 3)
        if what == "RotatedDecoder":
            params["d"] = (3, 3)  # a decoder needs a size
    else:
        h, w = size("h", cfg["lim"]), size("w", cfg["lim"])
        params["d"] = (h, w) if form == "tuple" else [h, w]
    if rep:
        params["phase-flip-protected"] = flag
        if not flag and R.bool("leave_out"):
            del params["phase-flip-protected"]
    dec = what.endswith("Decoder")
    T = 1 + R.bit("T") if dec else 0
    if dec:
        T = 2 if T == 2 else 1
        params["T"] = T
    ok = band(to_bexpr(h >= 1), to_bexpr(w >= 1), to_bexpr(h % 2 == 1), to_bexpr(w % 2 == 1))
    if rep:
        ok = band(ok, to_bexpr((h if flag else w) == 1))
    try:
        if what.startswith("register-"):
            ctype = what[len("register-") :]
            obj = q.TopologicalRegister(ctypes=[ctype], params=[params])[0]
        elif dec:
            obj = getattr(q, what)(params)
        else:
            obj = q.KIND[what](params)
    except q.LatticeError:
        R.check(bnot(ok), "a valid size is accepted")
        return
    R.check(ok, "an invalid size is refused with a lattice error")
    h, w = int(h), int(w)
    nx, nz = (h + 1) // 2 * (w - 1), (w + 1) // 2 * (h - 1)
    if dec:
        for key, n in (("X", nx), ("Z", nz)):
            if key not in obj.syndrome_graph_keys:
                R.check(rep, "both types are decoded")
                continue
            real = [c for c in obj.S[key].nodes() if c[0] >= 0]
            R.check(len(real) == n * T, "graph %s has a node per syndrome bit and layer" % key)
        lattice = obj.encoder.lattice
    else:
        lattice = obj.lattice
        before = set(obj.circ.cregs)
        obj.stabilize()
        new = [c for c in obj.circ.cregs if c not in before]
        R.check(len(new) == 1 and len(new[0]) == h * w - 1, "h*w-1 syndrome bits per round")
        R.check(len(obj.circ.qubits) == h * w + h * w - 1 + len(lattice.qregisters["ancilla"]), "data, syndrome and ancilla qubits")
        R.check(len(lattice.qregisters["ancilla"]) == 1, "one ancilla")
    regs = lattice.qregisters
    R.check(len(regs["data"]) == h * w, "h*w data qubits")
    R.check((len(regs["mx"]) if "mx" in regs else 0) == nx, "number of X syndromes")
    R.check((len(regs["mz"]) if "mz" in regs else 0) == nz, "number of Z syndromes")
    R.check(tuple(int(x) for x in lattice.params["num_syn"]) == (nx, nz), "declared split")
    R.check(int(lattice.params["num_data"]) == h * w, "declared number of data qubits")
    R.check(tuple(int(x) for x in lattice.params["d"]) == (h, w), "declared size")
