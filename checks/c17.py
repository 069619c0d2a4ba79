"""Sweeps report every rate with its own result, and saved data accumulates."""
import copy
import fnmatch
import functools
import os
import pickle
import shutil
import tempfile

from .common import *
from .c15 import close

EXPLAIN = (
    "The real TopologicalBenchmark (sweep, sweep_mp, single, append_data) and the analysis classes run on symbolic real error rates, in any order and with"
    " equal ones, whose simulation results are symbolic: the rates reported are the requested ones, ascending, each with the result of the execution"
    " made with its noise model, circuit, shots and error probability; the data file (in memory) always holds earlier and new points, paired and sorted, and"
    " loads as saved. The worker pool is modelled with private copies of the benchmark, reads of the data file before anyone writes, and any order of writes."
)
BOUNDS = {
    "quick": "up to 4 requested rates after up to 2 saved points, two successive sweeps of up to 2 rates, three codes in one directory; all real rates in (0,1), all results",
    "thorough": "up to 5 requested rates after up to 2 saved points; two successive sweeps of up to 3",
}
ASSUMPTIONS = [
    ENV_ASSUME[1],
    "Floating-point arithmetic is treated as exact real arithmetic.",
    "qiskit.execute/Aer are replaced by a stub giving symbolic counts per call, the decoder by one that reads the first bit, numpy.savez/load and glob by an"
    " in-memory directory, multiprocessing.Pool.map by an in-order map over copies; replays use real files, and a real Pool too.",
]

SHOTS = 1000


def configs(tier):
    out = []
    big = tier == "thorough"
    for n in range(0, 6 if big else 5):
        for how in ("sweep", "sweep_mp"):
            for m in range(0, 3):
                if n + m > (6 if big else 5) or n == 4 and m and how == "sweep" and not big:
                    continue
                for save in (True, False):
                    if not save and m != 1:
                        continue
                    out.append(dict(name="%s-%d-after-%d%s" % (how, n, m, "" if save else "-nosave"), kind="sweep", how=how, n=n, m=m, save=save))
    for how in ("sweep", "sweep_mp", "single"):
        for a in range(1, 4 if big else 3):
            out.append(dict(name="twice-%s-%d" % (how, a), kind="twice", how=how, n=a, m=0))
    out.append(dict(name="plain-weights", kind="sweep", how="sweep", n=2, m=1, save=True, deg=False))
    out.append(dict(name="defaults-sweep", kind="default", how="sweep"))
    out.append(dict(name="defaults-sweep_mp", kind="default", how="sweep_mp"))
    out.append(dict(name="batch", kind="batch"))
    for c in out:
        c["samples"] = 1
    return out


# ---------------------------------------------------------------- stand-ins
class Decoder:
    def __init__(self, env, d, T):
        self.env, self.params = env, {"d": d, "T": T}

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        self.env.asked.append(err_prob)
        return int(syndromes[0])

    def __getstate__(self):
        return {"params": self.params, "env": None}

    def __setstate__(self, s):
        self.__dict__.update(s)
        self.env = Env.current


class Noise:
    def __init__(self, rate):
        self.rate = rate


class Job:
    def __init__(self, counts):
        self.counts = counts

    def result(self):
        return self

    def get_counts(self, *a):
        return dict(self.counts)


class Backend:
    """Aer: a backend however it is made; running on it applies the circuit's gates as they are."""

    def get_backend(self, *a, **k):
        self.made_with = k
        return self

    AerSimulator = get_backend

    def run(self, circ, noise_model=None, shots=1024, **k):
        noise_model = noise_model or self.made_with.get("noise_model")
        return Env.current.execute(circ, self, noise_model, shots, optimization_level=Env.current.transpiled)


class Pool:
    """multiprocessing.Pool: every call works on its own copy of the benchmark."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def map(self, fn, items, *a, **k):
        env = Env.current
        out = []
        items = list(items)
        env.snapshot = dict(env.files) if env.files is not None else None
        env.concurrent = True
        writes = []
        for x in items:
            f, args, kw = fn, (), {}
            if isinstance(f, functools.partial):
                f, args, kw = f.func, f.args, f.keywords
            owner = getattr(f, "__self__", None)
            if owner is None:
                if "<locals>" in getattr(f, "__qualname__", "<locals>") or "<lambda>" in getattr(f, "__qualname__", ""):
                    raise pickle.PicklingError("Can't pickle a local function")
            else:
                twin = copy.copy(owner)
                twin.data = {a: list(b) for a, b in owner.data.items()}
                f = getattr(twin, f.__name__)
            env.pending = []
            out.append(f(*args, x, **kw))
            writes.append(env.pending)
        env.concurrent = False
        for w in writes:
            for name, val in w:
                env.put(name, val)
        return out

    def imap(self, fn, items, *a, **k):
        return iter(self.map(fn, items))

    def starmap(self, fn, items, *a, **k):
        return self.map(lambda x: fn(*x), items)


class Directory:
    """numpy with load/savez on an in-memory (symbolic run) or scratch (replay) directory."""

    def __init__(self, env, np):
        self.__dict__.update(env=env, np=np)

    def __getattr__(self, n):
        return getattr(self.np, n)

    def array(self, *a, **k):
        return self.np.array(*a, **self._exact(k))

    def asarray(self, *a, **k):
        return self.np.asarray(*a, **self._exact(k))

    def _exact(self, k):
        # floats stand for reals here
        return k if R.mode != "sym" else {n: v for n, v in k.items() if n != "dtype"}

    def load(self, name, *a, **k):
        f = self.env.view(str(name))
        if f is None:
            raise FileNotFoundError(2, "No such file or directory", name)
        return dict(f)

    def savez(self, name, *a, **k):
        name = str(name)
        if not name.endswith(".npz"):
            name += ".npz"
        d = {"arr_%d" % i: self.np.asanyarray(v) for i, v in enumerate(a)}
        d.update({n: self.np.asanyarray(v).copy() for n, v in k.items()})
        self.env.put(name, d)

    savez_compressed = savez


class Glob:
    def __init__(self, env):
        self.env = env

    def glob(self, pattern, **k):
        return [n for n in reversed(sorted(self.env.files)) if fnmatch.fnmatch(n, pattern)]


class Env:
    current = None

    def __init__(self):
        Env.current = self
        self.bench = Q().bench
        self.files = {}
        self.snapshot, self.concurrent, self.pending = None, False, []
        self.log, self.asked = [], []
        self.transpiled = 0
        self.byrate = False
        self.n = 0

    def view(self, name):
        if self.concurrent:
            mine = [v for n, v in self.pending if n == name]
            return mine[-1] if mine else self.snapshot.get(name)
        return self.files.get(name)

    def put(self, name, val):
        if self.concurrent:
            self.pending.append((name, val))
        else:
            self.files[name] = val

    def execute(self, circ, backend=None, noise_model=None, shots=1024, **kw):
        rate = noise_model.rate
        if self.byrate:
            k = int(rate * 999983) % SHOTS
        else:
            k = R.int("k%d" % self.n, lo=0, hi=SHOTS)
            self.n += 1
            self.log.append((rate, k, circ, shots, len(self.asked), kw.get("optimization_level")))
        # the readouts decode to 1 (wrong) or 0
        return Job({"1 00": k, "0 00": SHOTS - k})

    def transpile(self, circ, *a, optimization_level=None, **k):
        self.transpiled = optimization_level
        return circ

    def install(self):
        b = self.bench
        self.saved = {n: getattr(b, n) for n in ("execute", "Aer", "np", "glob", "Pool", "tqdm", "print", "transpile") if hasattr(b, n)}
        self.np = self.saved["np"]
        b.execute, b.Aer, b.Pool = self.execute, Backend(), Pool
        if hasattr(b, "transpile"):
            b.transpile = self.transpile
        b.tqdm = Bar
        b.print = lambda *a, **k: None
        b.np = Directory(self, self.np)
        b.glob = Glob(self)
        return self

    def remove(self):
        b = self.bench
        for n in ("execute", "Aer", "np", "glob", "Pool", "tqdm", "print", "transpile"):
            if n in self.saved:
                setattr(b, n, self.saved[n])
            elif n == "print" and hasattr(b, n):
                delattr(b, n)


class Bar:
    """tqdm without the output."""

    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def set_description(self, *a, **k):
        pass

    update = set_postfix = close = set_description


# ---------------------------------------------------------------- harness
def harness(cfg):
    env = Env().install()
    try:
        {"sweep": sweep, "twice": twice, "default": default, "batch": batch}[cfg["kind"]](cfg, env)
    finally:
        env.remove()
    if R.mode == "conc":
        real(cfg)


def rates(n, tag="r"):
    out = []
    for i in range(n):
        r = R.real("%s%d" % (tag, i))
        R.assume(r > 0)
        R.assume(r < 1)
        out.append(r)
    return out


def bag_equal(got, want, label):
    """Two lists of pairs hold the same pairs equally often."""
    R.check(len(got) == len(want), label + ": number of points")
    for p in want:
        terms = [(1, band(close(a, p[0]), close(b, p[1]))) for a, b in got] + [(-1, band(close(a, p[0]), close(b, p[1]))) for a, b in want]
        R.check(band(lin_le(terms, 0), lin_le([(-c, x) for c, x in terms], 0)), label)


def ascending(rs, label):
    for a, b in zip(rs, rs[1:]):
        R.check(a <= b, label)


def made(env, want, circ, shots, deg=True):
    """What the executions were: one per requested rate; the points they give."""
    R.check(len(env.log) == len(want), "one execution per requested rate")
    bag_equal([(r, 0) for r, *_ in env.log], [(r, 0) for r in want], "each requested rate is simulated")
    for rate, k, c, s, at, level in env.log:
        R.check(level == 0, "no gate is optimised away, so the noise is that of the circuit given")
        R.check(c is circ, "the benchmark's circuit is run")
        R.check(s == shots, "the requested number of shots is run")
        asked = env.asked[at : at + 2]
        for e in asked:
            R.check(close(e, rate) if deg else e is None, "decoded with the right error probability")
    return [(rate, k / SHOTS if R.mode != "sym" else _frac(k)) for rate, k, *_ in env.log]


def _frac(k):
    return k / SHOTS


def on_file(env, name, want, d, T):
    f = env.files.get(name)
    R.check((f is not None) == bool(want), "a file exists iff points were saved")
    if f is None:
        return
    an = env.bench.TopologicalAnalysis(name)
    an.load_data()
    for n in ("physical_error_rates", "logical_error_rates"):
        R.check(len(an.data[n]) == len(want), "every saved point is loaded")
        for x, y in zip(list(an.data[n]), list(f[n])):
            R.check(close(x, y), "loading returns what was saved")
    R.check(tuple(int(x) for x in an.params["d"]) == tuple(d) and int(an.params["T"]) == T, "the code's size is saved")
    got = list(zip(list(an.data["physical_error_rates"]), list(an.data["logical_error_rates"])))
    bag_equal(got, want, "every point is on file with its own result")
    ascending([a for a, _ in got], "points on file are ascending")


def sweep(cfg, env):
    d, T = (3, 5), 2
    circ = object()
    deg = cfg.get("deg", True)
    bm = env.bench.TopologicalBenchmark(Decoder(env, d, T), circ, Noise)
    old = []
    for i, r in enumerate(rates(cfg["m"], "old")):
        e = R.real("olde%d" % i)
        bm.append_data(r, e)
        old.append((r, e))
    on_file(env, bm.filename, old, d, T)
    want = rates(cfg["n"])
    given = list(want)
    kw = {"shots": 77, "save_data": cfg["save"]}
    if not deg:
        kw["deg_weight"] = False
    getattr(bm, cfg["how"])(given, **kw)
    R.check(len(given) == len(want) and all(a is b for a, b in zip(given, want)), "the caller's list is unchanged")
    points = made(env, want, circ, 77, deg)
    finish(env, bm, points, old + points if cfg["save"] else old, d, T)


def finish(env, bm, points, saved, d, T):
    p, l = list(bm.data["physical_error_rates"]), list(bm.data["logical_error_rates"])
    R.check(len(p) == len(l) == len(points), "one result per rate")
    ascending(p, "reported rates are ascending")
    bag_equal(list(zip(p, l)), points, "every rate is reported with its own result")
    on_file(env, bm.filename, saved, d, T)


def twice(cfg, env):
    """Two runs on one benchmark, then one on a second benchmark of the same code, one of another code."""
    d, T = (5, 3), 1
    circ = object()
    saved, other = [], []
    b1 = env.bench.TopologicalBenchmark(Decoder(env, d, T), circ, Noise)
    b2 = env.bench.TopologicalBenchmark(Decoder(env, d, T), circ, Noise)
    b3 = env.bench.TopologicalBenchmark(Decoder(env, (3, 5), T), circ, Noise)
    R.check(b3.filename != b1.filename, "codes of different sizes have files of their own")
    n = cfg["n"]
    for i, (bm, n, dd, s) in enumerate(((b1, n, d, saved), (b3, 1, (3, 5), other), (b1, 1, d, saved), (b2, 1, d, saved))):
        want = rates(n, "r%d_" % i)
        del env.log[:]
        if cfg["how"] == "single":
            for r in want:
                got = bm.single(r, shots=55)
                R.check(close(got, _frac(env.log[-1][1])), "single returns the rate's own result")
            points = made(env, want, circ, 55)
            s += points
            on_file(env, bm.filename, s, dd, T)
            continue
        getattr(bm, cfg["how"])(want, shots=55)
        points = made(env, want, circ, 55)
        s += points
        finish(env, bm, points, s, dd, T)
    on_file(env, b1.filename, saved, d, T)
    on_file(env, b3.filename, other, (3, 5), T)


def default(cfg, env):
    bm = env.bench.TopologicalBenchmark(Decoder(env, (3, 3), 1), None, Noise)
    getattr(bm, cfg["how"])()
    points = made(env, [a for a, *_ in env.log], None, 2048)
    R.check(len(points) > 0, "the default list is swept")
    finish(env, bm, points, points, (3, 3), 1)


def batch(cfg, env):
    sizes = [(7, 7), (3, 5), (5, 3)]
    saved = {}
    for i, d in enumerate(sizes):
        bm = env.bench.TopologicalBenchmark(Decoder(env, d, i + 1), None, Noise)
        r = rates(2, "r%d_" % i)
        bm.append_data(r[0], 0.25)
        bm.append_data(r[1], 0.75)
        saved[d] = [(r[0], 0.25), (r[1], 0.75)]
        f = env.files.pop(bm.filename)
        env.files["some/" + bm.filename] = f
        f2 = env.files.get(bm.filename)
        R.check(f2 is None, "moved")
    ba = env.bench.TopologicalBatchAnalysis("some/")
    R.check([int(a.params["d"][0]) for a in ba.analyses] == [3, 5, 7], "analyses are ordered by size")
    for a in ba.analyses:
        d = tuple(int(x) for x in a.params["d"])
        R.check(d in saved and int(a.params["T"]) == sizes.index(d) + 1, "each analysis has its own size")
        got = list(zip(list(a.data["physical_error_rates"]), list(a.data["logical_error_rates"])))
        bag_equal(got, saved[d], "each analysis has its own points")
        ascending([x for x, _ in got], "points are ascending")


# ---------------------------------------------------------------- replay with real files and a real pool
def real(cfg):
    if cfg["kind"] not in ("sweep", "twice"):
        return
    env = Env()
    env.byrate = True
    env.install()
    b = env.bench
    b.np, b.glob, b.Pool = env.saved["np"], env.saved["glob"], env.saved["Pool"]
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="c17_")
    try:
        os.chdir(tmp)
        bm = b.TopologicalBenchmark(Decoder(env, (3, 5), 2), None, Noise)
        saved = []
        for i in range(cfg["m"]):
            r, e = R.real("old%d" % i), R.real("olde%d" % i)
            bm.append_data(r, e)
            saved.append((r, e))
        want = [R.real("r%d" % i) for i in range(cfg["n"])]
        pts = [(r, (int(r * 999983) % SHOTS) / SHOTS) for r in want]
        save = cfg.get("save", True)
        if cfg["how"] == "single":
            for r, e in pts:
                R.check(close(bm.single(r), e), "single returns the rate's own result")
        else:
            getattr(bm, cfg["how"])(list(want), save_data=save)
            p, l = list(bm.data["physical_error_rates"]), list(bm.data["logical_error_rates"])
            R.check(p == sorted(p), "reported rates are ascending")
            bag_equal(list(zip(p, l)), pts, "every rate is reported with its own result")
        saved += pts if save else []
        R.check(os.path.exists(bm.filename) == bool(saved), "a file exists iff points were saved")
        if saved:
            an = b.TopologicalAnalysis(bm.filename)
            an.load_data()
            got = list(zip(list(an.data["physical_error_rates"]), list(an.data["logical_error_rates"])))
            bag_equal(got, saved, "every point is on file with its own result")
            R.check([a for a, _ in got] == sorted(a for a, _ in got), "points on file are ascending")
            R.check(tuple(int(x) for x in an.params["d"]) == (3, 5) and int(an.params["T"]) == 2, "the code's size is saved")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
        env.remove()
