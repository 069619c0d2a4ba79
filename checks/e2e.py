"""End-to-end decoding: real circuit, symbolic faults, real parser and decoder."""
from .common import *
from symqt import models


def is_virtual(p):
    return p[0] == -1


def fault_sets(code, basis, ev, flips, T):
    """The elementary faults as (selector, flipped coordinates, touches a boundary)."""
    out = []
    for (t, i), s in ev.items():
        out.append((s, [(float(t),) + tuple(map(float, c)) for c in code.data_fault(basis, i)], bool(code.boundary_sites(basis, i))))
    for (t, c), s in flips.items():
        c = tuple(map(float, c))
        out.append((s, [(t - 1.0,) + c, (float(t),) + c], False))
    return out


def run(cfg, make_decoder=decoder):
    k, h, w, T, b = cfg["k"], cfg["h"], cfg["w"], cfg["T"], cfg["b"]
    lattice = cfg.get("lattice", False)
    code = Code(k, h, w)
    other_b = "X" if b == "Z" else "Z"
    tq = build(k, h, w)
    D = data(tq)
    P = Prog(tq.circ, define=False)
    (tq.reset_z if b == "Z" else tq.reset_x)()
    lv = to_bexpr(R.bool("lv"))
    P.do(lv, tq.x if b == "Z" else tq.z)
    keys = code.keys()
    regs = [stabilize(tq)]
    ev, oth, flips = {}, {}, {}
    layers = cfg.get("layers", range(T))
    for t in range(T):
        for i, q in enumerate(D):
            fl = code.flip_letter(b, i)
            ot = "Z" if fl == "X" else "X"
            if t in layers:
                ev[t, i] = to_bexpr(R.bool("e%d_%d" % (t, i)))
                P.fault(fl, q, ev[t, i])
            if cfg.get("other"):
                oth[t, i] = to_bexpr(R.bool("o%d_%d" % (t, i)))
                P.fault(ot, q, oth[t, i])
        if lattice and t == T - 1:
            newreg(tq, tq.lattice_readout_z if b == "Z" else tq.lattice_readout_x)
        else:
            regs.append(stabilize(tq))
    if cfg.get("meas"):
        for t in range(1, len(regs) if lattice else len(regs) - 1):
            for j, (key, c) in enumerate(keys):
                if key == b:
                    flips[t, c] = to_bexpr(R.bool("f%d_%d" % (t, j)))
                    P.flip(regs[t][j], flips[t, c])
                elif cfg.get("other"):
                    P.flip(regs[t][j], R.bool("g%d_%d" % (t, j)))
    if not lattice:
        newreg(tq, tq.readout_z if b == "Z" else tq.readout_x)
    bound = cfg.get("weight", (code.distance(b) - 1) // 2)
    R.assume(pb_le([(1, s) for s in list(ev.values()) + list(flips.values())], bound))
    # decoders of other codes living in the same process
    decoder("REP", 3, 1, 1), decoder("REP", 1, 3, 1), decoder("XXZZ", 3, 5, 2)
    dec = make_decoder(k, h, w, T)
    decoder("REP", 1, 5, 1), decoder("REP", 5, 1, 1)
    R.hooks["witness"] = [models.chain_bound(fault_sets(code, b, ev, flips, T), is_virtual)]

    def check(res):
        got = dec.correct_readout(res.string(), b)
        R.check(eqbit(got, lv), "the decoded value is the prepared logical value")

    P.run(check)
