"""Look-up decoding follows Bayes' rule."""
from .common import *

EXPLAIN = (
    "The real look-up table methods run on tables with symbolic presence of every readout and symbolic integer counts, and symbolic real priors:"
    " the reported probabilities satisfy Bayes' rule (cross-multiplied), sum to one, and the decoded value is a most likely one. Symbolic"
    " histories of set and reset calls are compared, after every call, with a model that remembers the last table of each basis and value."
)
BOUNDS = {
    "quick": "up to 3 distinct readouts per table with any counts >= 1, any non-negative priors, both bases; all histories of 3 set/reset calls",
    "thorough": "up to 4 readouts per table, histories of 4 calls",
}
WARM = True  # every second configuration runs after other qubits and decoders were used in the process
ASSUMPTIONS = [ENV_ASSUME[1], "Floating-point arithmetic is treated as exact real arithmetic.", "A recorded count is at least 1."]

READ = ["1 00000000 00000000", "0 10000000 00000000", "000000000 01000000", "1 1", "111111111 11111111"]


def configs(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for b in "ZX":
        for m in range(1, n + 1):
            out.append(dict(name="tables-%s-%d" % (b, m), kind="tables", b=b, m=m))
        out.append(dict(name="decode-%s" % b, kind="decode", b=b, m=2))
    for first in ("Z0", "Z1", "X0", "X1", "reset"):
        out.append(dict(name="history-%s" % first, kind="history", first=first, n=n))
    return out


def close(a, b):
    if R.mode == "sym":
        return eq(a, b)
    return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))


def table(tag, keys, some=True):
    """A recorded table: each readout present iff its bit, with any count >= 1."""
    t = {}
    for i, k in enumerate(keys):
        c = R.int("%s_c%d" % (tag, i), lo=1)
        if not some or R.bool("%s_in%d" % (tag, i)):
            t[k] = c
    return t


def harness(cfg):
    dec = decoder("XXZZ", 3, 3, 1)
    if cfg["kind"] == "history":
        return history(cfg, dec)
    b, o = cfg["b"], "X" if cfg["b"] == "Z" else "Z"
    keys = READ[: cfg["m"]]
    t = [table("t%d" % v, keys) for v in (0, 1)]
    before = [dict(x) for x in t]
    for v in (0, 1):
        dec.set_look_up_table(b, v, t[v])
    # tables of the other basis play no part
    dec.set_look_up_table(o, 0, {k: 7 for k in keys})
    s = keys[0]
    if s not in t[0] and s not in t[1]:
        return
    tot = [sum(x.values()) if x else 1 for x in before]
    cnt = [before[v].get(s, 0) for v in (0, 1)]
    # frequencies with the common denominator tot0 * tot1
    f = [cnt[0] * tot[1], cnt[1] * tot[0]]
    if cfg["kind"] == "decode":
        got = dec.correct_readout_look_up_table(s, b)
        R.check(bor(eq(got, 0), eq(got, 1)), "the decoded value is a bit")
        R.check(bor(bnot(eq(got, 0)), to_bexpr(f[0] >= f[1])), "0 only if at least as likely")
        R.check(bor(bnot(eq(got, 1)), to_bexpr(f[1] >= f[0])), "1 only if at least as likely")
    else:
        run = getattr(dec, "_run_look_up", None)
        if run is None:
            R.check(True, "the probabilities are not accessible")
            return
        P = [R.real("p0"), R.real("p1")]
        for x in P:
            R.assume(x >= 0)
        R.assume(P[0] + P[1] > 0)
        for prior in (None, P):
            w = [f[v] * (1 if prior is None else prior[v]) for v in (0, 1)]
            R.assume(w[0] + w[1] > 0)
            arg = None if prior is None else list(prior)
            got = run(s, b) if prior is None else run(s, b, arg)
            R.check(len(got) == 2, "one probability per value")
            for v in (0, 1):
                R.check(close(got[v] * (w[0] + w[1]), w[v]), "Bayes' rule for value %d%s" % (v, "" if prior is None else ", with priors"))
            R.check(close(got[0] + got[1], 1), "probabilities sum to one")
    for v in (0, 1):
        R.check(set(t[v]) == set(before[v]), "the caller's table is unchanged")
        for k in before[v]:
            R.check(eq(t[v][k], before[v][k]), "the caller's table is unchanged")


def history(cfg, dec):
    """Any sequence of set and reset calls."""
    s, z = READ[0], READ[1]
    twin = decoder("XXZZ", 3, 3, 2)
    twin.set_look_up_table("Z", 0, {s: 3, z: 1})
    twin.set_look_up_table("X", 1, {s: 2})
    model = {}
    ops = ("Z0", "Z1", "X0", "X1", "reset")
    for step in range(cfg["n"]):
        op = cfg["first"] if step == 0 else choose("op%d" % step, ops)
        if op == "reset":
            dec.reset_look_up_table()
            model = {}
        else:
            c, d = R.int("c%d" % step, lo=1), R.int("d%d" % step, lo=1)
            dec.set_look_up_table(op[0], int(op[1]), {s: c, z: d})
            model[op] = {s: c, z: d}
        for b in "ZX":
            for v in (0, 1):
                tab = dec.look_up_table[b][v]
                want = model.get("%s%d" % (b, v), {})
                R.check(set(tab) == set(want), "table of %s %d" % (b, v))
                for k in want:
                    R.check(eq(tab[k], want[k]), "table of %s %d" % (b, v))
            t = [model.get("%s%d" % (b, v), {}) for v in (0, 1)]
            if not t[0] and not t[1] or step < cfg["n"] - 1:
                continue
            tot = [sum(x.values()) if x else 1 for x in t]
            f = [t[0].get(s, 0) * tot[1], t[1].get(s, 0) * tot[0]]
            got = dec.correct_readout_look_up_table(s, b)
            R.check(bor(eq(got, 0), eq(got, 1)), "the decoded value is a bit")
            R.check(bor(bnot(eq(got, 0)), to_bexpr(f[0] >= f[1])), "0 only if at least as likely")
            R.check(bor(bnot(eq(got, 1)), to_bexpr(f[1] >= f[0])), "1 only if at least as likely")
    R.check(twin.look_up_table == {"Z": {0: {s: 3, z: 1}, 1: {}}, "X": {0: {}, 1: {s: 2}}}, "another decoder's tables are untouched")
    R.check(twin.correct_readout_look_up_table(s, "Z") == 0, "another decoder decodes as before")
    R.check(twin.correct_readout_look_up_table(s, "X") == 1, "another decoder decodes as before")


def choose(name, values):
    i = R.int(name, lo=0, hi=len(values) - 1)
    for n, v in enumerate(values[:-1]):
        if i == n:
            return v
    return values[-1]
