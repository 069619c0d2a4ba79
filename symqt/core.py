"""Symbolic values, path exploration and solver access.

A run executes a harness (ordinary Python that calls the *instrumented* qtcodes
code, see instrument.py).  Symbolic inputs are created with R.bool/R.int/R.real;
control flow on them is either merged (predicated execution, guarded values) or
forked (depth-first re-execution over solver-feasible decisions).
"""
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402


# --------------------------------------------------------------------------- errors
class EngineExc(BaseException):
    """Engine control flow: never to be caught by the code under test."""


class MergeFail(EngineExc):
    def __init__(self, sites, why=""):
        self.sites = tuple(sites)
        self.why = why
        super().__init__(why)


class Infeasible(EngineExc):
    pass


class Inconclusive(EngineExc):
    pass


class Unsupported(Inconclusive):
    pass


# --------------------------------------------------------------------------- booleans
# A boolean expression is a Python bool or a z3 BoolRef.
def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _eq(a, b):
    return a is b or (not isinstance(a, bool) and not isinstance(b, bool) and a.eq(b))


def _collect(xs, unit, stop):
    out, ids = [], set()
    for x in xs:
        if x is unit:
            continue
        if x is stop:
            return None
        i = x.get_id()
        if i in ids:
            continue
        n = bnot(x)
        if n.get_id() in ids:
            return None
        ids.add(i)
        out.append(x)
    return out


def band(*xs):
    out = _collect(xs, True, False)
    if out is None:
        return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = _collect(xs, False, True)
    if out is None:
        return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


_AFF = {}  # expr id -> (expr, frozenset of atom ids, const)
_ATOM = {}  # atom id -> atom expr
_XORS = {}  # frozenset of atom ids -> expr


def _aff(a):
    i = a.get_id()
    r = _AFF.get(i)
    if r is None:
        if z3.is_not(a):
            x = _aff(a.arg(0))
            r = (a, x[1], not x[2])
        else:
            _ATOM[i] = a
            r = (a, frozenset([i]), False)
        _AFF[i] = r
    return r


def _from_aff(s, const):
    if not s:
        return const
    e = _XORS.get(s)
    if e is None:
        ids = sorted(s)
        e = _ATOM[ids[0]]
        for i in ids[1:]:
            e = z3.Xor(e, _ATOM[i])
        _XORS[s] = e
        if len(ids) > 1:
            _AFF[e.get_id()] = (e, s, False)
    return z3.Not(e) if const else e


def bxor(a, b):
    """Exclusive or, kept in canonical form so that equal parities are the same term."""
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return bnot(b)
    if b is True:
        return bnot(a)
    x, y = _aff(a), _aff(b)
    return _from_aff(x[1] ^ y[1], x[2] != y[2])


def bxor_all(xs):
    s, c = frozenset(), False
    for x in xs:
        if isinstance(x, bool):
            c ^= x
        else:
            r = _aff(x)
            s, c = s ^ r[1], c ^ r[2]
    return _from_aff(s, c)


def biff(a, b):
    return bnot(bxor(a, b))


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if _eq(a, b):
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return bnot(c)
    if a is True:
        return bor(c, b)
    if b is False:
        return band(c, a)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if _eq(bnot(a), b):
        return bnot(bxor(c, a))
    return z3.If(c, a, b)


def zb(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


def pb_le(terms, k):
    """sum(c*b) <= k for [(c, bexpr)] as a boolean expression."""
    lits, coefs = {}, {}
    for c, b in terms:
        if b is False or c == 0:
            continue
        if b is True:
            k -= c
            continue
        if z3.is_not(b):
            k -= c
            c, b = -c, b.arg(0)
        i = b.get_id()
        lits[i] = b
        coefs[i] = coefs.get(i, 0) + c
    out = []
    for i, c in coefs.items():
        b = lits[i]
        if c == 0:
            continue
        if c < 0:
            k -= c
            out.append((z3.Not(b), -c))
            k = k
        else:
            out.append((b, c))
    if k < 0:
        return False
    if sum(c for _, c in out) <= k:
        return True
    return z3.PbLe([(b, c) for b, c in out], k)


# --------------------------------------------------------------------------- engine state
def lin_le(terms, k):
    """sum of coefficient*boolean <= k, as linear arithmetic (related sums share their terms)."""
    c = 0
    zs = []
    for w, b in terms:
        b = to_bexpr(b)
        if b is True:
            c += w
        elif b is not False:
            zs.append(z3.If(b, z3.IntVal(w), z3.IntVal(0)))
    if not zs:
        return c <= k
    return z3.Sum(*zs) + c <= k


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.merges = 0
        self.restarts = 0
        self.checks = 0
        self.checks_unsat = 0
        self.reach = {}
        self.lemmas = 0
        self.notes = {}

    def as_dict(self):
        return dict(self.__dict__)


class Violation(Exception):
    """A property check failed (symbolically: with a model; concretely: for real)."""

    def __init__(self, label, model=None, detail=""):
        self.label, self.model, self.detail = label, model, detail
        super().__init__(label)


_FORKS = os.environ.get("SYMQT_FORKS")


def _where():
    """The innermost lines of the code under test and of the harness (debugging aid)."""
    f, out = sys._getframe(1), []
    while f is not None and len(out) < 3:
        n = f.f_code.co_filename
        if "/symqt/" not in n:
            out.append("%s:%d" % (os.path.basename(n), f.f_lineno))
        f = f.f_back
    return " < ".join(out)


class Engine:
    """One global instance R.  mode: 'sym' or 'conc' (replay)."""

    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.mode = "conc"
        self.stats = Stats()
        self.forkonly = set()
        self.guards = []  # list of (bexpr, site)
        self.trail = []
        self.pos = 0
        self.solver = None
        self.pc = []
        self.inputs = {}
        self.input_order = []
        self.fresh_n = 0
        self.deadline = None
        self.timeout_ms = 15000
        self.cex = {}
        self.conc_rng = None
        self.path_log = []
        self.on_cex = None
        self.max_paths = 200000
        self.failures = []
        self.native = False
        self.hooks = {}
        self.obj_base = {}
        self.logs = []
        self.impl_cache = {}
        self.matchings = []
        self.match_n = 0
        self.match_memo = {}
        self.force_fork_matching = False
        self.refiner = None
        self.capture = None
        self.capture_stop = False
        self.solver_factory = None
        self.max_lemmas = 400
        self.sampler = None

    def note(self, s):
        self.stats.notes[s] = self.stats.notes.get(s, 0) + 1

    # ---- inputs
    def _name(self, name):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        return name

    def bool(self, name):
        if self.mode == "conc":
            return bool(self.cex.get(name, False))
        v = z3.Bool(self._name(name))
        self.inputs[name] = v
        return SBool(v)

    def bit(self, name):
        """A symbolic 0/1 integer."""
        if self.mode == "conc":
            return int(bool(self.cex.get(name, False)))
        return SInt.from_bit(self.bool(name).e)

    def int(self, name, lo=None, hi=None):
        if self.mode == "conc":
            d = lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
            return int(self.cex.get(name, d))
        v = z3.Int(self._name(name))
        self.inputs[name] = v
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SInt(z=v)

    def real(self, name):
        if self.mode == "conc":
            return float(Fraction(self.cex.get(name, "0")))
        v = z3.Real(self._name(name))
        self.inputs[name] = v
        return SReal(v)

    def fresh_bool(self, hint="t"):
        self.fresh_n += 1
        return z3.Bool("%s!%d" % (hint, self.fresh_n))

    # ---- path constraints
    def add(self, c):
        c = to_bexpr(c)
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        """Restrict the inputs (part of the stated domain)."""
        c = to_bexpr(c)
        if self.mode == "conc":
            if not c:
                raise Infeasible("assumption does not hold")
            return
        g = self.guard()
        if g is not True:
            c = bor(bnot(g), c)
        if c is False:
            raise Infeasible()
        self.add(c)

    def guard(self):
        if not self.guards:
            return True
        return band(*[g for g, _ in self.guards])

    def sites(self):
        return [s for _, s in self.guards]

    def _sat(self, *extra, solver=None):
        s = solver or self.solver
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Inconclusive("time budget exhausted")
        r = s.check(*[zb(e) for e in extra])
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        self.last = s
        if r == z3.unknown:
            r = self._retry(s, [zb(e) for e in extra])
        if r == z3.sat:
            self.stats.sat += 1
            return True
        if r == z3.unsat:
            self.stats.unsat += 1
            return False
        self.stats.unknown += 1
        raise Inconclusive("solver answered unknown: %s" % s.reason_unknown())

    def _retry(self, s, extra):
        """The same query put to the solver afresh: without its history, then other strategies."""
        for make in (z3.Solver, lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.SolverFor("QF_UFNIRA")):
            t = time.time()
            if self.deadline and t > self.deadline:
                break
            try:
                n = make()
                n.set("timeout", 60000 if make is z3.Solver else 30000)
                n.add(*s.assertions())
                n.add(*extra)
                r = n.check()
            except z3.Z3Exception:
                continue
            finally:
                self.stats.solver_s += time.time() - t
            if r != z3.unknown:
                self.last = n
                return r
        return z3.unknown

    def branch(self, c):
        """Decide a boolean expression on this path (forking if both sides are feasible)."""
        c = to_bexpr(c)
        if isinstance(c, bool):
            return c
        if self.mode == "conc":
            raise RuntimeError("symbolic value in concrete mode")
        g = self.guard()
        if g is not True:
            for x, _ in self.guards:
                if _eq(x, c):
                    return True
                if _eq(bnot(x), c):
                    return False
        if self.pos < len(self.trail):
            kind, val, more = self.trail[self.pos]
            assert kind == "b", "non-deterministic re-execution"
            self.pos += 1
            self._constrain(g, c if val else bnot(c))
            return val
        ft = self._sat(*([c] if g is True else [g, c]))
        ff = self._sat(*([bnot(c)] if g is True else [g, bnot(c)]))
        if not ft and not ff:
            if g is True:
                raise Infeasible()
            return False  # guard infeasible here: value is irrelevant
        if ft and not ff:
            val, more = True, False
        elif ff and not ft:
            val, more = False, False
        else:
            val, more = True, True
            if _FORKS:
                self.note("fork at " + _where())
        self.trail.append(["b", val, more])
        self.pos += 1
        self._constrain(g, c if val else bnot(c))
        return val

    def _constrain(self, g, c):
        c = bor(bnot(g), c)
        if c is not True:
            self.add(c)

    def choose(self, expr):
        """Concretise an SInt/SReal by forking over all its feasible values."""
        z = expr.z
        g = self.guard()
        tried = []
        while True:
            if self.pos < len(self.trail):
                kind, val, more = self.trail[self.pos]
                assert kind == "v", "non-deterministic re-execution"
                self.pos += 1
                hit = val[1]
                v = val[0]
            else:
                extra = [] if g is True else [g]
                if not self._sat(*extra):
                    if g is True:
                        raise Infeasible()
                    return 0
                m = self.last.model()
                mv = m.eval(z, model_completion=True)
                v = mv.as_long() if z3.is_int_value(mv) else mv.as_fraction()
                other = self._sat(*(extra + [z != _zc(v)]))
                self.trail.append(["v", (v, True), other])
                self.pos += 1
                hit = True
            if hit:
                self._constrain(g, z == _zc(v))
                return v
            self._constrain(g, z != _zc(v))
            tried.append(v)

    # ---- checks
    def check(self, prop, label):
        """Assert a property on this path: unsat(pc and not prop) or a counterexample."""
        p = to_bexpr(prop)
        self.stats.checks += 1
        self.stats.reach[label] = self.stats.reach.get(label, 0) + 1
        if self.mode == "conc":
            if not p:
                raise Violation(label)
            return
        g = self.guard()
        neg = band(g, bnot(p))
        if neg is False:
            # still a discharged obligation, decided by simplification
            self.stats.checks_unsat += 1
            return
        rounds = 0
        while True:
            if not self._sat(neg):
                self.stats.checks_unsat += 1
                return
            m = self.last.model()
            rounds += 1
            if self.refiner is not None and self.matchings and rounds <= self.max_lemmas and self.refiner(m):
                continue
            if rounds > self.max_lemmas:
                raise Inconclusive("too many refinements of the matching contract")
            break
        raise Violation(label, self.read_model(m))

    def check_many(self, props):
        """Assert several (property, label) at once: one query for all of them."""
        props = [(to_bexpr(p), l) for p, l in props]
        if len(props) > 10:
            for a in range(0, len(props), 8):
                self.check_many(props[a : a + 8])
            return
        if self.mode != "conc" and not self.matchings and len(props) > 1:
            neg = band(self.guard(), bor(*[bnot(p) for p, _ in props]))
            if neg is False or not self._sat(neg):
                self.stats.checks += len(props)
                self.stats.checks_unsat += len(props)
                for _, l in props:
                    self.stats.reach[l] = self.stats.reach.get(l, 0) + 1
                return
        for p, l in props:
            self.check(p, l)

    def define(self, name, e):
        """A solver variable constrained to equal e (so that relations are left to the solver)."""
        e = to_bexpr(e)
        if self.mode == "conc" or isinstance(e, bool):
            return e
        v = z3.Bool("def!" + name)
        self.add(v == zb(e))
        return v

    def reachable(self, label):
        """Vacuity guard: the current path condition must be satisfiable."""
        if self.mode == "conc":
            return
        if not self._sat(self.guard()):
            raise Infeasible()
        self.stats.reach[label] = self.stats.reach.get(label, 0) + 1

    def read_model(self, m):
        out = {}
        for n, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(x):
                out[n] = bool(z3.is_true(x))
            elif z3.is_int_value(x):
                out[n] = x.as_long()
            elif z3.is_rational_value(x):
                out[n] = str(x.as_fraction())
            elif z3.is_algebraic_value(x):
                out[n] = str(x.approx(20).as_fraction())
            else:
                out[n] = str(x)
        self.last_model = m
        return out

    # ---- exploration
    def explore(self, harness, budget_s=None):
        """Run harness on every feasible path.  Raises Violation / Inconclusive."""
        self.mode = "sym"
        if budget_s:
            self.deadline = time.time() + budget_s
        while True:
            try:
                self._explore_once(harness)
                return
            except MergeFail as e:
                new = set(e.sites) - self.forkonly
                if not new:
                    raise Unsupported("merge failure without progress: " + e.why)
                self.forkonly |= new
                self.path_log.append("fork-only: %s (%s)" % (sorted(new), e.why))
                self.stats.restarts += 1

    def _explore_once(self, harness):
        self.trail = []
        self.guards = []
        done = 0
        while True:
            self.solver = (self.solver_factory or z3.Solver)()
            self.solver.set("timeout", self.timeout_ms)
            self.pc = []
            self.inputs = {}
            self.fresh_n = 0
            self.pos = 0
            self.guards = []
            self.obj_base = {}
            self.logs = []
            self.impl_cache = {}
            self.matchings = []
            self.match_n = 0
            self.match_memo = {}
            self.capture = None
            self.capture_stop = False
            for h in self.hooks.get("path_start", []):
                h()
            try:
                try:
                    harness(self)
                    if self.sampler is not None:
                        self.sampler(self)
                except (Violation, EngineExc):
                    raise
                except Exception as e:
                    import traceback

                    self.last_tb = traceback.format_exc()
                    if R.guards:
                        raise MergeFail(R.sites(), "exception under a guard: %r" % (e,))
                    if not self._sat():
                        raise Infeasible()
                    raise Violation("unexpected exception %s: %s" % (type(e).__name__, str(e)[:200]), self.read_model(self.last.model()), self.last_tb)
            except Infeasible:
                pass
            except Violation as v:
                v.trail = list(self.trail)
                if self.on_cex is None or self.on_cex(v):
                    raise
            self.stats.paths += 1
            done += 1
            if done > self.max_paths:
                raise Inconclusive("path budget exhausted")
            self.trail = self.trail[: self.pos]
            while self.trail and not self.trail[-1][2]:
                self.trail.pop()
            if not self.trail:
                return
            last = self.trail[-1]
            if last[0] == "b":
                last[1], last[2] = not last[1], False
            else:
                last[1], last[2] = (last[1][0], False), False


def _zc(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float meets a symbolic value")
        return z3.RealVal(str(Fraction(v)))
    if hasattr(v, "item"):
        return _zc(v.item())
    raise Unsupported("constant %r" % (v,))


R = Engine()


# --------------------------------------------------------------------------- symbolic scalars
class Sym:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def to_bexpr(x):
    """Truth value of any value as a boolean expression."""
    t = type(x)
    if t is bool:
        return x
    if t is SBool:
        return x.e
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return x
    if issubclass(t, SInt):
        return x.truth()
    if t is SReal:
        return x.z != 0
    if isinstance(x, Sym) and hasattr(x, "truth"):
        return x.truth()
    if isinstance(x, (SList, SDict)):
        return x.truth()
    return bool(x)


class SBool(Sym):
    __slots__ = ("e",)
    __class__ = property(lambda s: bool)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def mk(e):
        return e if isinstance(e, bool) else SBool(e)

    def __bool__(self):
        return R.branch(self.e)

    def i(self):
        return SInt.from_bit(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool.mk(band(self.e, to_bexpr(o)))
        return self.i() & o

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool.mk(bor(self.e, to_bexpr(o)))
        return self.i() | o

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool.mk(bxor(self.e, to_bexpr(o)))
        return self.i() ^ o

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool.mk(biff(self.e, to_bexpr(o)))
        return self.i() == o

    def __ne__(self, o):
        r = self == o
        return SBool.mk(bnot(to_bexpr(r)))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "SBool(%s)" % self.e

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def _fwd(name):
    def f(self, *a):
        return getattr(self.i(), name)(*a)

    return f


for _n in (
    "add radd sub rsub mul rmul floordiv rfloordiv mod rmod truediv rtruediv lt le gt ge "
    "lshift rlshift rshift rrshift neg pos pow rpow abs divmod"
).split():
    setattr(SBool, "__%s__" % _n, _fwd("__%s__" % _n))


def _isint(o):
    return isinstance(o, (int, SInt, SBool)) or (
        type(o).__module__ == "numpy" and hasattr(o, "item") and isinstance(o.item(), int)
    )


def _asint(o):
    """SInt view of an int-like."""
    t = type(o)
    if issubclass(t, SInt):
        return o
    if t is SBool:
        return o.i()
    return SInt.const(int(o))


class SInt(Sym):
    """Integer as (any of) bits / linear form over bits / z3 term."""

    __slots__ = ("_bits", "_lin", "_z")
    __class__ = property(lambda s: int)

    def __init__(self, bits=None, lin=None, z=None):
        self._bits, self._lin, self._z = bits, lin, z

    # -- construction
    @staticmethod
    def const(v):
        return SInt(lin=(v, ()))

    @staticmethod
    def from_bit(e):
        if isinstance(e, bool):
            return int(e)
        return SInt(bits=(e,))

    @staticmethod
    def from_bits(bits):
        bits = list(bits)
        while bits and bits[-1] is False:
            bits.pop()
        if all(isinstance(b, bool) for b in bits):
            return sum(1 << i for i, b in enumerate(bits) if b)
        return SInt(bits=tuple(bits))

    @staticmethod
    def from_lin(const, terms):
        """terms: iterable of (coef, bexpr)."""
        acc, order = {}, []
        for c, b in terms:
            if b is False or c == 0:
                continue
            if b is True:
                const += c
                continue
            if z3.is_not(b):
                const += c
                c, b = -c, b.arg(0)
            i = b.get_id()
            if i in acc:
                acc[i][0] += c
            else:
                acc[i] = [c, b]
                order.append(i)
        ts = tuple((acc[i][0], acc[i][1]) for i in order if acc[i][0] != 0)
        if not ts:
            return const
        return SInt(lin=(const, ts))

    @staticmethod
    def from_z(z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        return SInt(z=z)

    # -- views
    @property
    def lin(self):
        if self._lin is None and self._bits is not None:
            self._lin = (
                sum(1 << i for i, b in enumerate(self._bits) if b is True),
                tuple((1 << i, b) for i, b in enumerate(self._bits) if not isinstance(b, bool)),
            )
        return self._lin

    @property
    def z(self):
        if self._z is None:
            c, ts = self.lin
            self._z = z3.Sum(*[z3.If(b, z3.IntVal(k), z3.IntVal(0)) for k, b in ts], z3.IntVal(c)) if ts else z3.IntVal(c)
        return self._z

    @property
    def bits(self):
        """Bits LSB first if representable (non-negative), else None."""
        if self._bits is None and self._lin is not None:
            c, ts = self._lin
            lo = c + sum(k for k, _ in ts if k < 0)
            if lo < 0:
                return None
            if len(ts) == 1:
                k, b = ts[0]
                v1, v0 = c + k, c
                n = max(v1.bit_length(), v0.bit_length())
                self._bits = tuple(bite(b, bool(v1 >> i & 1), bool(v0 >> i & 1)) for i in range(n))
            else:
                acc = _const_bits(lo)
                for k, b in ts:
                    if k < 0:
                        k, b = -k, bnot(b)
                    acc = _add_bits(acc, [b if (k >> i) & 1 else False for i in range(k.bit_length())])
                while acc and acc[-1] is False:
                    acc.pop()
                self._bits = tuple(acc)
        return self._bits

    def concrete(self):
        if self._lin is not None and not self._lin[1]:
            return self._lin[0]
        return R.choose(self)

    def truth(self):
        if self._bits is not None:
            return bor(*self._bits)
        return to_bexpr(self != 0)

    def __bool__(self):
        return R.branch(self.truth())

    # -- arithmetic
    def __add__(self, o):
        if _isint(o):
            o = _asint(o)
            if self.lin is not None and o.lin is not None:
                a, b = self.lin, o.lin
                return SInt.from_lin(a[0] + b[0], a[1] + b[1])
            return SInt.from_z(self.z + o.z)
        if isinstance(o, (float, SReal)):
            return self.real() + o
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        if self.lin is not None:
            c, ts = self.lin
            return SInt.from_lin(-c, [(-k, b) for k, b in ts])
        return SInt.from_z(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite_value(to_bexpr(self >= 0), self, -self)

    def __sub__(self, o):
        if _isint(o):
            return self + (-_asint(o))
        if isinstance(o, (float, SReal)):
            return self.real() - o
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if _isint(o):
            o = _asint(o)
            for a, b in ((self, o), (o, self)):
                if b.lin is not None and not b.lin[1] and a.lin is not None:
                    k = b.lin[0]
                    return SInt.from_lin(a.lin[0] * k, [(c * k, e) for c, e in a.lin[1]])
            for a, b in ((self, o), (o, self)):
                if a._bits is not None and len(a._bits) == 1:
                    return ite_value(a._bits[0], b, 0)
            return SInt.from_z(self.z * o.z)
        if isinstance(o, (float, SReal)):
            return self.real() * o
        if isinstance(o, (str, list, tuple)):
            return o * self.concrete()
        return NotImplemented

    __rmul__ = __mul__

    def __pow__(self, o, mod=None):
        if mod is None and type(o) is int and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.concrete(), o, mod) if mod else self.concrete() ** o

    def __rpow__(self, o):
        return o ** self.concrete()

    def _divmod(self, o):
        o = _asint(o)
        if o.lin is not None and not o.lin[1]:
            k = o.lin[0]
            if k == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if k < 0:
                q, r = _asint(-self)._divmod(-k)
                return q, -r
            if k & (k - 1) == 0:
                if k == 2 and self._bits is None and self.lin is not None:
                    e = bool(self.lin[0] & 1)
                    for c, b in self.lin[1]:
                        if c & 1:
                            e = bxor(e, b)
                    r = SInt.from_bit(e)
                    if all(c % 2 == 0 for c, _ in self.lin[1]) or self.bits is None:
                        q = SInt.from_z(self.z / k) if self.bits is None else None
                    if self.bits is not None:
                        return LazyQ(self, k), r
                    return q, r
                b = self.bits
                if b is not None:
                    n = k.bit_length() - 1
                    return SInt.from_bits(b[n:]), SInt.from_bits(b[:n])
            return SInt.from_z(self.z / k), SInt.from_z(self.z % k)
        if R.branch(to_bexpr(o == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if R.branch(to_bexpr(o > 0)):
            return SInt.from_z(self.z / o.z), SInt.from_z(self.z % o.z)
        a, b = -self.z, -o.z
        return SInt.from_z(a / b), SInt.from_z(-(a % b))

    def __floordiv__(self, o):
        if not _isint(o):
            if isinstance(o, (float, SReal)):
                return self.real() // o
            return NotImplemented
        q = self._divmod(o)[0]
        return q.get() if type(q) is LazyQ else q

    def __mod__(self, o):
        if not _isint(o):
            if isinstance(o, (float, SReal)):
                return self.real() % o
            return NotImplemented
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return _asint(o) // self

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.concrete()
        return _asint(o) % self

    def __rdivmod__(self, o):
        return divmod(_asint(o), self)

    def real(self):
        return SReal(z3.ToReal(self.z), self)

    def __truediv__(self, o):
        if _isint(o) and not isinstance(o, Sym):
            return self.real() / int(o)
        return self.real() / (o.real() if isinstance(o, SInt) else (o.i().real() if type(o) is SBool else o))

    def __rtruediv__(self, o):
        return o / self.real()

    # -- bit operations
    def _bitop(self, o, f, name):
        if not _isint(o):
            return NotImplemented
        o = _asint(o)
        a, b = self.bits, o.bits
        if a is None and name == "and" and b is not None and not isinstance(o, Sym):
            pass
        if a is None or b is None:
            oc, sc = o.concrete(), self.concrete()
            return {"and": sc & oc, "or": sc | oc, "xor": sc ^ oc}[name]
        n = max(len(a), len(b))
        a = list(a) + [False] * (n - len(a))
        b = list(b) + [False] * (n - len(b))
        return SInt.from_bits([f(x, y) for x, y in zip(a, b)])

    def __and__(self, o):
        return self._bitop(o, lambda x, y: band(x, y), "and")

    def __or__(self, o):
        return self._bitop(o, lambda x, y: bor(x, y), "or")

    def __xor__(self, o):
        return self._bitop(o, bxor, "xor")

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __lshift__(self, o):
        k = o if type(o) is int else _asint(o).concrete()
        if k < 0:
            raise ValueError("negative shift count")
        b = self.bits
        if b is not None:
            return SInt.from_bits([False] * k + list(b))
        return self * (1 << k)

    def __rlshift__(self, o):
        if type(o) is int:
            b = self.bits
            if b is not None and len(b) <= 8:
                r = o
                for i, e in enumerate(b):
                    r = ite_value(e, r << (1 << i), r)
                return r
        return o << self.concrete()

    def __rshift__(self, o):
        k = o if type(o) is int else _asint(o).concrete()
        if k < 0:
            raise ValueError("negative shift count")
        b = self.bits
        if b is not None:
            return SInt.from_bits(b[k:])
        return self // (1 << k)

    def __rrshift__(self, o):
        return o >> self.concrete()

    def __invert__(self):
        return -self - 1

    # -- comparisons
    def __eq__(self, o):
        if _isint(o):
            o = _asint(o)
            if self._bits is not None and o.bits is not None and (o._lin is None or not o._lin[1]):
                a, b = list(self._bits), list(o.bits)
                n = max(len(a), len(b))
                a += [False] * (n - len(a))
                b += [False] * (n - len(b))
                return SBool.mk(band(*[biff(x, y) for x, y in zip(a, b)]))
            if self.lin is not None and o.lin is not None:
                d = SInt.from_lin(self.lin[0] - o.lin[0], list(self.lin[1]) + [(-k, b) for k, b in o.lin[1]])
                if type(d) is int:
                    return d == 0
                c, ts = d.lin
                if len(ts) == 1:
                    k, b = ts[0]
                    return SBool.mk(bite(b, c + k == 0, c == 0))
                return SBool.mk(band(pb_le(ts, -c), pb_le([(-k, b) for k, b in ts], c)))
            return SBool.mk(to_bexpr(z3.simplify(self.z == o.z)))
        if isinstance(o, (float, SReal)):
            return self.real() == o
        return False

    def __ne__(self, o):
        return SBool.mk(bnot(to_bexpr(self == o)))

    def _cmp(self, o, off, swap):
        """self + off <= o   (or o + off <= self when swap)."""
        if isinstance(o, (float, SReal)):
            a, b = self.real(), o
            if swap:
                return (a >= b) if off == 0 else (a > b)
            return (a <= b) if off == 0 else (a < b)
        if not _isint(o):
            return NotImplemented
        o = _asint(o)
        a, b = (o, self) if swap else (self, o)
        if a.lin is not None and b.lin is not None:
            d = SInt.from_lin(a.lin[0] - b.lin[0], list(a.lin[1]) + [(-k, e) for k, e in b.lin[1]])
            if type(d) is int:
                return d + off <= 0
            c, ts = d.lin
            return SBool.mk(pb_le(ts, -c - off))
        return SBool.mk(to_bexpr(z3.simplify(a.z + off <= b.z)))

    def __le__(self, o):
        return self._cmp(o, 0, False)

    def __lt__(self, o):
        return self._cmp(o, 1, False)

    def __ge__(self, o):
        return self._cmp(o, 0, True)

    def __gt__(self, o):
        return self._cmp(o, 1, True)

    # -- concretising conversions
    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self.concrete()

    def __float__(self):
        return float(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __repr__(self):
        if self._lin is None and self._bits is not None:
            return "SInt(bits=%s)" % (self._bits,)
        return "SInt(%s)" % (self._lin if self._lin is not None else self._z,)

    def bit_count(self):
        b = self.bits
        if b is None:
            return self.concrete().bit_count()
        return SInt.from_lin(0, [(1, e) for e in b])

    def bit_length(self):
        return self.concrete().bit_length()

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    @property
    def real_part(self):
        return self


class LazyQ:
    """Quotient by 2^k of a non-negative linear form, computed on demand."""

    def __init__(self, x, k):
        self.x, self.k = x, k

    def get(self):
        return SInt.from_bits(self.x.bits[self.k.bit_length() - 1 :])


def _const_bits(v):
    return [bool(v >> i & 1) for i in range(v.bit_length())]


def _add_bits(a, b):
    n = max(len(a), len(b))
    a = list(a) + [False] * (n - len(a))
    b = list(b) + [False] * (n - len(b))
    out, c = [], False
    for x, y in zip(a, b):
        s = bxor(x, y)
        out.append(bxor(s, c))
        c = bor(band(x, y), band(s, c))
    if c is not False:
        out.append(c)
    return out


def _asreal(o):
    t = type(o)
    if t is SReal:
        return o.z
    if issubclass(t, SInt):
        return z3.ToReal(o.z)
    if t is SBool:
        return z3.ToReal(o.i().z) if isinstance(o.i(), Sym) else z3.RealVal(int(o.i()))
    if isinstance(o, bool):
        o = int(o)
    if isinstance(o, int):
        return z3.RealVal(o)
    return _zc(o)


def _isnum(o):
    return isinstance(o, (int, float, SInt, SBool, SReal, Fraction)) or (
        type(o).__module__ == "numpy" and hasattr(o, "item") and getattr(o, "ndim", 0) == 0
    )


class SReal(Sym):
    """A float treated as a mathematical real (stated as an assumption where used)."""

    __slots__ = ("z", "src", "iskey")
    __class__ = property(lambda s: float)

    def __init__(self, z, src=None):
        self.z = z
        self.src = src  # the integer it is the float of
        self.iskey = False  # kept as a key of a dictionary

    @staticmethod
    def mk(z):
        return SReal(z)

    def truth(self):
        return self.z != 0

    def __bool__(self):
        return R.branch(self.z != 0)

    def _op(self, o, f):
        if not _isnum(o):
            return NotImplemented
        return SReal(f(self.z, _asreal(o)))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._op(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        d = _asreal(o)
        if R.branch(to_bexpr(z3.simplify(d == 0))):
            raise ZeroDivisionError("float division by zero")
        return SReal(self.z / d)

    def __rtruediv__(self, o):
        if R.branch(to_bexpr(z3.simplify(self.z == 0))):
            raise ZeroDivisionError("float division by zero")
        return SReal(_asreal(o) / self.z)

    def __floordiv__(self, o):
        return SReal(z3.ToReal(z3.ToInt((self / o).z)))

    def __neg__(self):
        return SReal(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.z >= 0, self.z, -self.z))

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 6:
            r = z3.RealVal(1)
            for _ in range(o):
                r = r * self.z
            return SReal(r)
        raise Unsupported("symbolic power")

    def _c(self, o, f):
        if not _isnum(o):
            return NotImplemented
        if isinstance(o, float) and type(o) is float and o in (float("inf"), float("-inf")):
            return f(0.0, o)
        return SBool.mk(to_bexpr(z3.simplify(f(self.z, _asreal(o)))))

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def toint(self):
        z = self.z
        return SInt.from_z(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))

    def __int__(self):
        return self.toint().concrete() if isinstance(self.toint(), SInt) else self.toint()

    def concrete(self):
        if self.src is None:
            raise Unsupported("value of a symbolic real reached native code")
        return float(self.src.concrete())

    def __float__(self):
        return self.concrete()

    def __hash__(self):
        if self.iskey:
            return id(self)
        return hash(self.concrete())

    def __repr__(self):
        return "SReal(%s)" % self.z

    def __str__(self):
        """A token that stands for the number in a text (shown_value)."""
        SHOWN.append(self)
        return "\u27e6%d\u27e7" % (len(SHOWN) - 1)

    def __format__(self, spec):
        if spec.startswith(".") and spec.endswith("f") and spec[1:-1].isdigit():
            return str(round(self, int(spec[1:-1])))
        if spec:
            raise Unsupported("format %r of a symbolic real" % spec)
        return str(self)

    def __round__(self, n=None):
        if n is None:
            return SReal(self.z + z3.Q(1, 2)).__floordiv__(1).toint()
        k = z3.RealVal(10**n) if n >= 0 else z3.Q(1, 10**-n)
        return SReal(z3.ToReal(z3.ToInt(self.z * k + z3.Q(1, 2))) / k)

    def rint(self):
        return SReal(z3.ToReal(z3.ToInt(self.z + z3.Q(1, 2))))


SHOWN = []


def shown_value(text):
    """The number a text shows: a float, or the symbolic real its token stands for; None if there is none."""
    text = str(text).strip().replace("\u2212", "-")
    if text.startswith("\u27e6") and text.endswith("\u27e7"):
        return SHOWN[int(text[1:-1])]
    if text.startswith("-\u27e6") and text.endswith("\u27e7"):
        return -SHOWN[int(text[2:-1])]
    try:
        return float(text)
    except ValueError:
        return None


# --------------------------------------------------------------------------- strings of bits
class SStr(Sym):
    """A string of known length; each character is a concrete character or a bit ('0'/'1')."""

    __slots__ = ("ch",)
    __class__ = property(lambda s: str)

    def __init__(self, ch):
        self.ch = tuple(ch)

    @staticmethod
    def mk(ch):
        ch = [("1" if c else "0") if isinstance(c, bool) else c for c in ch]
        if all(isinstance(c, str) for c in ch):
            return "".join(ch)
        return SStr(ch)

    @staticmethod
    def chars(s):
        return list(s.ch) if type(s) is SStr else list(s)

    def concrete(self):
        out = []
        for c in self.ch:
            out.append(c if isinstance(c, str) else ("1" if R.branch(c) else "0"))
        return "".join(out)

    def truth(self):
        return len(self.ch) > 0

    def __bool__(self):
        return len(self.ch) > 0

    def __len__(self):
        return len(self.ch)

    def __iter__(self):
        return iter([SStr.mk([c]) for c in self.ch])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SStr.mk(self.ch[k])
        return SStr.mk([self.ch[k]])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SStr.mk(SStr.chars(self) + SStr.chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SStr.mk(SStr.chars(o) + SStr.chars(self))

    def __mul__(self, k):
        return SStr.mk(list(self.ch) * int(k))

    __rmul__ = __mul__

    def __mod__(self, o):
        return self.concrete() % o

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        a, b = SStr.chars(self), SStr.chars(o)
        if len(a) != len(b):
            return False
        return SBool.mk(band(*[_ceq(x, y) for x, y in zip(a, b)]))

    def __ne__(self, o):
        return SBool.mk(bnot(to_bexpr(self == o)))

    def __lt__(self, o):
        return self.concrete() < (o.concrete() if type(o) is SStr else o)

    def __gt__(self, o):
        return self.concrete() > (o.concrete() if type(o) is SStr else o)

    def __contains__(self, o):
        e = False
        n = len(o)
        for i in range(len(self.ch) - n + 1):
            e = bor(e, to_bexpr(SStr.mk(self.ch[i : i + n]) == o))
        return R.branch(e)

    def contains(self, o):
        e = False
        n = len(o)
        for i in range(len(self.ch) - n + 1):
            e = bor(e, to_bexpr(SStr.mk(self.ch[i : i + n]) == o))
        return SBool.mk(e)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __repr__(self):
        return "SStr(%s)" % "".join(c if isinstance(c, str) else "?" for c in self.ch)

    # methods that stay symbolic
    def split(self, sep=None, maxsplit=-1):
        ws = sep is None
        if not ws and (type(sep) is not str or sep[:1] in "01" or sep == ""):
            return SList(self.concrete().split(sep, maxsplit))
        marks = "".join(c if isinstance(c, str) else "0" for c in self.ch)
        parts, out, i = marks.split(sep, maxsplit), SList(), 0
        for p in parts:
            i = marks.index(p, i) if ws else i
            out.append(SStr.mk(self.ch[i : i + len(p)]))
            i += len(p) + (0 if ws else len(sep))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        return SList(self.concrete().rsplit(sep, maxsplit))

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, "", "")

    def rpartition(self, sep):
        p = self.split(sep)
        if len(p) == 1:
            return ("", "", self)
        n = len(p[-1])
        return (SStr.mk(self.ch[: len(self.ch) - n - len(sep)]), sep, p[-1])

    def _strip(self, chars, left, right):
        ws = " \t\n\r" if chars is None else chars
        if any(c in "01" for c in ws):
            return self.concrete().strip(ws)
        a, b = 0, len(self.ch)
        while left and a < b and isinstance(self.ch[a], str) and self.ch[a] in ws:
            a += 1
        while right and b > a and isinstance(self.ch[b - 1], str) and self.ch[b - 1] in ws:
            b -= 1
        return SStr.mk(self.ch[a:b])

    def strip(self, chars=None):
        return self._strip(chars, 1, 1)

    def lstrip(self, chars=None):
        return self._strip(chars, 1, 0)

    def rstrip(self, chars=None):
        return self._strip(chars, 0, 1)

    def count(self, sub, *a):
        if a or len(sub) != 1:
            return self.concrete().count(sub, *a)
        return SInt.from_lin(0, [(1, _ceq(c, sub)) for c in self.ch])

    def replace(self, old, new, n=-1):
        if n != -1 or len(old) != 1:
            return self.concrete().replace(old, new, n)
        if len(new) == 1 and old in "01" and new in "01":
            keep = [c if isinstance(c, str) and c != old else new if isinstance(c, str) else (new == "1") for c in self.ch]
            return SStr.mk(keep)
        if old in "01":
            return self.concrete().replace(old, new)
        out = []
        for c in self.ch:
            out += list(new) if isinstance(c, str) and c == old else [c]
        return SStr.mk(out)

    def zfill(self, n):
        return SStr.mk(["0"] * (n - len(self.ch)) + list(self.ch))

    def rjust(self, n, f=" "):
        return SStr.mk([f] * (n - len(self.ch)) + list(self.ch))

    def ljust(self, n, f=" "):
        return SStr.mk(list(self.ch) + [f] * (n - len(self.ch)))

    def join(self, items):
        return join(self, items)

    def isdigit(self):
        return len(self.ch) > 0 and all(not isinstance(c, str) or c.isdigit() for c in self.ch)

    isnumeric = isdecimal = isdigit

    def upper(self):
        return SStr.mk([c.upper() if isinstance(c, str) else c for c in self.ch])

    def lower(self):
        return SStr.mk([c.lower() if isinstance(c, str) else c for c in self.ch])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.concrete(), n)

    def to_int(self, base=10):
        """int(self, base)."""
        ch = [c for c in self.ch]
        if base in (0, 10) and len(ch) == 1:
            return SInt.from_bit(ch[0])
        if base == 2 and all(not isinstance(c, str) or c in "01" for c in ch):
            return SInt.from_bits([(c == "1") if isinstance(c, str) else c for c in reversed(ch)])
        if base == 10 and all(not isinstance(c, str) or c.isdigit() for c in ch):
            n = len(ch)
            const, ts = 0, []
            for i, c in enumerate(ch):
                w = 10 ** (n - 1 - i)
                if isinstance(c, str):
                    const += w * int(c)
                else:
                    ts.append((w, c))
            return SInt.from_lin(const, ts)
        return int(self.concrete(), base)


def _ceq(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    if isinstance(x, str):
        x, y = y, x
    if isinstance(y, str):
        return x if y == "1" else (bnot(x) if y == "0" else False)
    return biff(x, y)


def join(sep, items):
    out = []
    first = True
    for it in items:
        if not isinstance(it, str):
            raise TypeError("sequence item: expected str instance, %s found" % type(it).__name__)
        if not first:
            out += SStr.chars(sep)
        first = False
        out += SStr.chars(it)
    return SStr.mk(out)


# --------------------------------------------------------------------------- poison
class Poison(Sym):
    """Result of merging two values that cannot be merged; any use forces forking at its site."""

    __slots__ = ("c", "a", "b", "site")

    def __init__(self, c, a, b, site):
        object.__setattr__(self, "c", c)
        object.__setattr__(self, "a", a)
        object.__setattr__(self, "b", b)
        object.__setattr__(self, "site", site)

    def _use(self, *a, **k):
        raise MergeFail([self.site], "use of unmergeable value %r / %r" % (type(self.a), type(self.b)))

    def __getattr__(self, n):
        self._use()

    def __setattr__(self, n, v):
        self._use()

    __call__ = __bool__ = __iter__ = __len__ = __getitem__ = __setitem__ = __contains__ = _use
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = _use
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __rmod__ = _use
    __floordiv__ = __truediv__ = __neg__ = __and__ = __or__ = __xor__ = __index__ = __int__ = _use
    __str__ = __format__ = __enter__ = __exit__ = __float__ = __abs__ = _use

    def __repr__(self):
        return "Poison(%r|%r)" % (object.__getattribute__(self, "a"), object.__getattribute__(self, "b"))


class _Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = _Undef()


# --------------------------------------------------------------------------- lists
def _rel_guard(base):
    """Guard of the current region relative to the region in which a container was created."""
    gs = [g for g, _ in R.guards]
    n = 0
    while n < len(base) and n < len(gs) and _eq(base[n], gs[n]):
        n += 1
    return band(*gs[n:])


def _snap():
    return tuple(g for g, _ in R.guards)


def _active():
    return bool(R.guards)


_POISON_ELT = Poison(None, "guarded list bypass", None, "guarded-list-bypass")


class SList(list):
    """list created by instrumented code.  Becomes a GList when an element is conditional."""

    __slots__ = ("base", "items_", "isset", "isgen", "isarr")
    __hash__ = None

    def __init__(self, *a):
        list.__init__(self, *a)
        self.base = _snap() if R.guards else ()
        self.items_ = None
        self.isset = False
        self.isgen = False
        self.isarr = False

    def truth(self):
        return len(self) > 0

    # guarded mutation
    def _g(self):
        return _rel_guard(self.base) if R.guards else True

    def _togl(self):
        if type(self) is GList:
            return self
        self.items_ = [(True, v) for v in list.__iter__(self)]
        list.clear(self)
        list.append(self, _POISON_ELT)
        self.__class__ = GList
        return self

    def append(self, v):
        g = self._g()
        if g is True:
            list.append(self, v)
        else:
            self._togl().items_.append((g, v))

    def extend(self, it):
        g = self._g()
        if g is True and type(it) is not GList:
            list.extend(self, it)
            return
        new = [(band(g, h), v) for h, v in gitems(it)]
        if all(h is True for h, _ in new):
            list.extend(self, [v for _, v in new])
        else:
            self._togl().items_.extend(new)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        if type(o) is GList:
            return GList.of([(True, v) for v in self] + o.items_)
        return SList(list.__add__(self, o)) if isinstance(o, list) else NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return SList(list(o) + list(self))
        return NotImplemented

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SList(list.__getitem__(self, k))
        if isinstance(k, Sym):
            return index_value(self, k)
        return list.__getitem__(self, k)

    def copy(self):
        return SList(self)

    def __setitem__(self, k, v):
        if R.guards:
            g = self._g()
            if g is not True:
                if isinstance(k, slice) or isinstance(k, Sym):
                    raise MergeFail(R.sites(), "guarded slice assignment")
                v = merge_or_fail(g, v, list.__getitem__(self, k), R.sites())
        if isinstance(k, Sym):
            k = int(k)
        list.__setitem__(self, k, v)

    def _need_plain(self, why):
        if R.guards and self._g() is not True:
            raise MergeFail(R.sites(), why)

    def __reduce__(self):
        return (list, (list(self),))

    def __deepcopy__(self, memo):
        import copy

        return SList([copy.deepcopy(x, memo) for x in self])

    def __copy__(self):
        return SList(self)


def _plainify(name):
    orig = getattr(list, name)

    def f(self, *a, **k):
        self._need_plain("list.%s under a guard" % name)
        return orig(self, *a, **k)

    f.__name__ = name
    return f


for _n in ("insert", "pop", "remove", "clear", "sort", "reverse", "__delitem__", "__imul__"):
    setattr(SList, _n, _plainify(_n))


class PosIndex(SInt):
    """Index of an element of a guarded list (enumerate, range(len)): symbolic rank with its physical position."""

    __slots__ = ("owner", "item", "pos")

    @staticmethod
    def at(owner, p, rank, off=0):
        r = PosIndex(bits=rank._bits, lin=rank._lin, z=rank._z) if isinstance(rank, SInt) else PosIndex(lin=(rank, ()))
        r.owner, r.item, r.pos = owner, owner.items_[p], (p, off)
        return r

    def of(self, l):
        """The physical position in l, if this is an index of l as it is now."""
        p = self.pos[0]
        its = getattr(l, "items_", None)
        return p if self.owner is l and its is not None and p < len(its) and its[p] is self.item else None

    def __add__(self, o):
        r = SInt.__add__(self, o)
        if type(o) is int and R.mode == "sym" and self.of(self.owner) is not None:
            return PosIndex.at(self.owner, self.pos[0], r, self.pos[1] + o)
        return r


class LenIndex(SInt):
    """Length of a guarded list, less a constant."""

    __slots__ = ("owner", "items", "off")

    @staticmethod
    def at(owner, n, off=0, items=None):
        if not isinstance(n, SInt):
            return n
        r = LenIndex(bits=n._bits, lin=n._lin, z=n._z)
        r.owner, r.off = owner, off
        r.items = list(owner.items_) if items is None else items
        return r

    def current(self):
        its = self.owner.items_
        return its is not None and len(its) == len(self.items) and all(a is b for a, b in zip(its, self.items))

    def __sub__(self, o):
        r = SInt.__sub__(self, o)
        return LenIndex.at(self.owner, r, self.off - o, self.items) if type(o) is int else r

    def __add__(self, o):
        r = SInt.__add__(self, o)
        return LenIndex.at(self.owner, r, self.off + o, self.items) if type(o) is int else r

    __radd__ = __add__


def positions(l, lo, hi):
    """range(lo, hi) over the indices of the guarded list l, or None; hi is a length of l or None."""
    its = l.items_
    first, need = 0, 0
    if isinstance(lo, PosIndex):
        p = lo.of(l)
        if p is None or lo.pos[1] not in (0, 1):
            return None
        first = p + lo.pos[1]
    elif type(lo) is int and lo in (0, 1):
        need = lo
    else:
        return None
    if hi.off not in (0, -1) or not hi.current():
        return None
    out, before, terms = [], False, []
    for p, (g, _) in enumerate(its):
        c = g
        if need:
            c = band(c, before)
        if hi.off:
            c = band(c, bor(*[h for h, _ in its[p + 1 :]]))
        if p >= first and c is not False:
            out.append((c, PosIndex.at(l, p, SInt.from_lin(0, [(1, h) for h in terms]))))
        before = bor(before, g)
        terms.append(g)
    return GList.of(out)


class GList(SList):
    """A list whose elements are present under guards: items_ = [(guard, value)]."""

    __slots__ = ()

    @staticmethod
    def of(items):
        items = [(g, v) for g, v in items if g is not False]
        l = SList()
        if all(g is True for g, _ in items):
            list.extend(l, [v for _, v in items])
            return l
        l._togl()
        l.items_ = items
        return l

    def truth(self):
        return bor(*[g for g, _ in self.items_])

    def __bool__(self):
        return R.branch(self.truth())

    def slen(self):
        return SInt.from_lin(0, [(1, g) for g, _ in self.items_])

    def __len__(self):
        n = self.slen()
        return n.concrete() if isinstance(n, SInt) else n

    def resolved(self):
        out = [v for g, v in self.items_ if R.branch(g)]
        if not R.guards and self.isset:
            self.items_ = [(True, v) for v in out]
        elif not R.guards:
            self.items_ = None
            self.__class__ = SList
            list.clear(self)
            list.extend(self, out)
        return out

    def __iter__(self):
        return iter(self.resolved())

    def __reversed__(self):
        return iter(self.resolved()[::-1])

    def _all(self):
        return all(g is True for g, _ in self.items_)

    def append(self, v):
        g = self._g()
        self.items_.append((g, v))

    def extend(self, it):
        g = self._g()
        self.items_.extend([(band(g, h), v) for h, v in gitems(it)])

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return GList.of(self.items_ + gitems(o))

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return GList.of(gitems(o) + self.items_)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step in (None, 1, -1):
                return GList.of(self.items_[::-1] if k.step == -1 else list(self.items_))
            if type(k.start) is PosIndex and k.start.of(self) is not None and k.stop is None and k.step is None:
                p, off = k.start.pos
                if off in (0, 1):
                    return GList.of(self.items_[p + off :])
            if type(k.stop) is PosIndex and k.stop.of(self) is not None and k.start is None and k.step is None:
                p, off = k.stop.pos
                if off in (0, 1):
                    return GList.of(self.items_[: p + off])
            cut = None
            if k.step is None and k.start == 1 and type(k.start) is int and k.stop is None:
                cut = self.items_, 1
            elif k.step is None and k.start is None and type(k.stop) is int and k.stop == -1:
                cut = self.items_[::-1], -1
            if cut:
                seen, out = False, []
                for g, v in cut[0]:
                    out.append((band(g, seen), v))
                    seen = bor(seen, g)
                return GList.of([(g, v) for g, v in out[:: cut[1]] if g is not False])
            return SList(self.resolved()[k])
        if type(k) is PosIndex and k.pos[1] == 0 and k.of(self) is not None:
            return self.items_[k.pos[0]][1]
        if type(k) is int:
            its = self.items_ if k >= 0 else self.items_[::-1]
            n = k if k >= 0 else -k - 1
            if len(its) > n and all(g is True for g, _ in its[: n + 1]):
                return its[n][1]
        return self.resolved()[k]

    def __setitem__(self, k, v):
        if R.guards:
            raise MergeFail(R.sites(), "assignment into a guarded list under a guard")
        self.resolved()
        self[k] = v

    def contains(self, x):
        e = False
        for g, v in self.items_:
            e = bor(e, band(g, to_bexpr(veq(v, x))))
        return SBool.mk(e)

    def __contains__(self, x):
        return R.branch(to_bexpr(self.contains(x)))

    def count(self, x):
        return SInt.from_lin(0, [(1, band(g, to_bexpr(veq(v, x)))) for g, v in self.items_])

    def copy(self):
        return gset(self.items_) if self.isset else GList.of(list(self.items_))

    __copy__ = copy

    def reverse(self):
        self._need_plain("reverse under a guard")
        self.items_.reverse()

    def clear(self):
        self._need_plain("clear under a guard")
        self.items_ = []

    def insert(self, i, v):
        self._need_plain("insert under a guard")
        if i == 0:
            self.items_.insert(0, (True, v))
        else:
            self.resolved()
            self.insert(i, v)

    def __eq__(self, o):
        return SBool.mk(list_eq(self, o))

    def __ne__(self, o):
        return SBool.mk(bnot(list_eq(self, o)))

    def __repr__(self):
        return "GList(%r)" % (self.items_,)

    def __reduce__(self):
        return (list, (self.resolved(),))

    def __deepcopy__(self, memo):
        import copy

        items = [(g, copy.deepcopy(v, memo)) for g, v in self.items_]
        return gset(items) if self.isset else GList.of(items)

    def __mul__(self, k):
        return GList.of(self.items_ * int(k))

    def sort(self, **k):
        self._need_plain("sort under a guard")
        try:
            key = k.get("key") or (lambda v: v)
            vals = [key(v) for _, v in self.items_]
            if any(has_sym(v) for v in vals):
                raise TypeError
            order = sorted(range(len(vals)), key=lambda i: vals[i], reverse=k.get("reverse", False))
            self.items_ = [self.items_[i] for i in order]
        except TypeError:
            self.resolved()
            list.sort(self, **k)

    # set-like operations (when isset)
    def _set(self, name):
        if not self.isset:
            raise AttributeError(name)

    def _become(self, items):
        """Replace the elements, where this region runs."""
        g = self._g()
        if g is True:
            self.items_ = [(h, v) for h, v in items if h is not False]
            return
        # a value is in the set if it was and the region does not run, or is and it runs
        self.items_ = [(h, v) for h, v in _dedupe([(band(bnot(g), h), v) for h, v in self.items_] + [(band(g, h), v) for h, v in items]) if h is not False]

    def _with(self, o):
        return _dedupe(self.items_ + gitems(o))

    def _within(self, o, inside):
        o = gitems(o)
        out = []
        for g, v in self.items_:
            m = bor(*[band(h, to_bexpr(veq(v, w))) for h, w in o])
            out.append((band(g, m if inside else bnot(m)), v))
        return [(g, v) for g, v in out if g is not False]

    def add(self, v):
        self._set("add")
        g = self._g()
        self.items_ = _dedupe(self.items_ + [(g, v)])

    def discard(self, v):
        self._set("discard")
        self._become(self._within([v], False))

    def update(self, *os):
        self._set("update")
        for o in os:
            self._become(self._with(o))

    def union(self, *os):
        self._set("union")
        r = self
        for o in os:
            r = gset(r._with(o))
        return r if os else gset(self.items_)

    def intersection(self, *os):
        self._set("intersection")
        r = self
        for o in os:
            r = gset(r._within(o, True))
        return r if os else gset(self.items_)

    def difference(self, *os):
        self._set("difference")
        r = self
        for o in os:
            r = gset(r._within(o, False))
        return r if os else gset(self.items_)

    def symmetric_difference(self, o):
        self._set("symmetric_difference")
        o = gset(gitems(o))
        return gset(self._within(o, False) + o._within(self, False))

    def intersection_update(self, o):
        self._set("intersection_update")
        self._become(self._within(o, True))

    def difference_update(self, o):
        self._set("difference_update")
        self._become(self._within(o, False))

    def symmetric_difference_update(self, o):
        self._set("symmetric_difference_update")
        self._become(self.symmetric_difference(o).items_)

    def issubset(self, o):
        self._set("issubset")
        return SBool.mk(bnot(bor(*[g for g, _ in self._within(o, False)])))

    def issuperset(self, o):
        self._set("issuperset")
        return gset(gitems(o)).issubset(self)

    def isdisjoint(self, o):
        self._set("isdisjoint")
        return SBool.mk(bnot(bor(*[g for g, _ in self._within(o, True)])))

    def __or__(self, o):
        return gset(self._with(o)) if self.isset else NotImplemented

    def __ror__(self, o):
        return gset(gset(gitems(o))._with(self)) if self.isset else NotImplemented

    def __and__(self, o):
        return gset(self._within(o, True)) if self.isset else NotImplemented

    __rand__ = __and__

    def __xor__(self, o):
        return self.symmetric_difference(o) if self.isset else NotImplemented

    __rxor__ = __xor__

    def __sub__(self, o):
        return gset(self._within(o, False)) if self.isset else NotImplemented

    def __rsub__(self, o):
        return gset(gset(gitems(o))._within(self, False)) if self.isset else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o) if self.isset else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self.isset else NotImplemented


def _set_remove(list_remove):
    def remove(self, v):
        if not self.isset:
            return list_remove(self, v)
        if not R.branch(to_bexpr(self.contains(v))):
            raise KeyError(v)
        self.discard(v)

    return remove


def _set_pop(list_pop):
    def pop(self, *a):
        if not self.isset:
            return list_pop(self, *a)
        self._need_plain("pop under a guard")
        out = self.resolved()
        if not out:
            raise KeyError("pop from an empty set")
        self.discard(out[0])
        return out[0]

    return pop


def gset(items):
    """A set whose elements are present under guards."""
    l = SList()
    l._togl()
    l.items_ = _dedupe([(g, v) for g, v in items if g is not False])
    l.isset = True
    return l


def _array_op(name):
    orig = getattr(GList, name, None)

    def f(self, *a):
        if self.isarr:
            raise MergeFail(["np-guarded"], "arithmetic on a guarded array")
        if orig is None:
            return NotImplemented
        return orig(self, *a)

    f.__name__ = name
    return f


def _array_attr(name):
    def f(self):
        if self.isarr:
            raise MergeFail(["np-guarded"], "%s of a guarded array" % name)
        raise AttributeError(name)

    return property(f)


for _n in "add radd sub rsub mul rmul floordiv mod truediv pow and rand xor rxor or ror lt le gt ge eq ne".split():
    setattr(GList, "__%s__" % _n, _array_op("__%s__" % _n))
GList.__hash__ = None
for _n in ("shape", "ndim", "T", "dtype", "astype", "reshape", "ravel", "flatten", "sum", "max", "min", "any", "all", "item", "take"):
    setattr(GList, _n, _array_attr(_n))


def _tolist(self):
    if not self.isarr:
        raise AttributeError("tolist")
    return GList.of([(g, v.tolist() if hasattr(v, "tolist") else v) for g, v in self.items_])


def _size(self):
    if not self.isarr:
        raise AttributeError("size")
    return SInt.from_lin(0, [(len(v) if getattr(v, "ndim", 0) else 1, g) for g, v in self.items_])


GList.tolist = _tolist
GList.size = property(_size)


def _plain_g(name):
    orig = getattr(list, name)

    def f(self, *a, **k):
        self._need_plain("%s under a guard" % name)
        self.resolved()
        return orig(self, *a, **k) if type(self) is not GList else MergeFail(R.sites(), name)

    f.__name__ = name
    return f


for _n in ("pop", "remove", "index", "__delitem__"):
    setattr(GList, _n, _plain_g(_n))
GList.remove = _set_remove(GList.remove)
GList.pop = _set_pop(GList.pop)


def gitems(x):
    """[(guard, value)] view of any iterable."""
    if type(x) is GList:
        return list(x.items_)
    if type(x) is GDict:
        return [(x.gk.get(k, True), k) for k in dict.keys(x)]
    if isinstance(x, SDict):
        return [(True, v) for v in dict.keys(x)]
    return [(True, v) for v in x]


def _dedupe(items):
    idx, out = {}, []
    for g, v in items:
        try:
            if has_sym(v):
                raise TypeError
            k = v
            if k in idx:
                out[idx[k]] = (bor(out[idx[k]][0], g), v)
                continue
            idx[k] = len(out)
        except TypeError:
            raise Unsupported("set of symbolic values")
        out.append((g, v))
    return out


def mkset(x=()):
    if R.mode == "sym" and "guarded-sets" in R.forkonly:
        return gset(gitems(x))
    if type(x) is GList:
        l = GList.of(_dedupe(x.items_))
        if type(l) is GList:
            l.isset = True
            return l
        return set(l)
    return set(x)


def list_eq(a, b):
    if getattr(a, "isset", False) or getattr(b, "isset", False):
        if not (getattr(b, "isset", False) or isinstance(b, (set, frozenset))) or not (getattr(a, "isset", False) or isinstance(a, (set, frozenset))):
            return False
        a, b = gset(gitems(a)), gset(gitems(b))
        return band(*[bnot(g) for g, _ in a._within(b, False) + b._within(a, False)])
    if not isinstance(b, list):
        return False
    a, b = gitems(a), gitems(b)
    if not a:
        return bnot(bor(*[g for g, _ in b]))
    if not b:
        return bnot(bor(*[g for g, _ in a]))
    if len(a) == len(b) and all(_eq(g, h) for (g, _), (h, _) in zip(a, b)):
        return band(*[bor(bnot(g), to_bexpr(veq(v, w))) for (g, v), (_, w) in zip(a, b)])
    va, vb = [v for _, v in a], [v for _, v in b]
    sym = any(has_sym(v) for v in va + vb)
    if not sym and len(set(map(repr, va))) == len(va) and len(set(map(repr, vb))) == len(vb):
        # distinct concrete values that both lists order the same way
        pa = {repr(v): i for i, v in enumerate(va)}
        common = [repr(v) for v in vb if repr(v) in pa]
        if [pa[c] for c in common] == sorted(pa[c] for c in common):
            ga = {repr(v): g for g, v in a}
            gb = {repr(v): g for g, v in b}
            return band(*[biff(ga.get(k, False), gb.get(k, False)) for k in list(dict.fromkeys(list(ga) + list(gb)))])
    if len(a) * len(b) > 2500:
        raise Unsupported("equality of guarded lists")
    # general: equal suffixes, by dynamic programming
    row = [True] * (len(b) + 1)
    for j in reversed(range(len(b))):
        row[j] = band(bnot(b[j][0]), row[j + 1])
    for g, v in reversed(a):
        new = [False] * (len(b) + 1)
        new[-1] = band(bnot(g), row[-1])
        for j in reversed(range(len(b))):
            h, w = b[j]
            both = band(to_bexpr(veq(v, w)), row[j + 1])
            new[j] = bite(g, bite(h, both, new[j + 1]), row[j])
        row = new
    return row[0]


def veq(a, b):
    """a == b as bool or SBool, deep over tuples."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return SBool.mk(band(*[to_bexpr(veq(x, y)) for x, y in zip(a, b)]))
    r = a == b
    if isinstance(r, (bool, SBool)):
        return r
    try:
        return bool(r)
    except ValueError:
        return bool(r.all())


def has_sym(v):
    if isinstance(v, Sym):
        return True
    if isinstance(v, (tuple, list)):
        if type(v) is GList:
            return True
        return any(has_sym(x) for x in list.__iter__(v)) if isinstance(v, list) else any(has_sym(x) for x in v)
    if isinstance(v, dict):
        return type(v) is GDict or any(has_sym(x) for x in dict.values(v))
    return type(v).__name__ == "SymArray"


# --------------------------------------------------------------------------- dicts
class SDict(dict):
    """dict created by instrumented code; becomes GDict when a key is conditional."""

    __slots__ = ("base", "gk")

    def __init__(self, *a, **k):
        self.base = _snap() if R.guards else ()
        self.gk = None
        dict.__init__(self, *a, **k)

    def truth(self):
        return dict.__len__(self) > 0

    def _g(self):
        return _rel_guard(self.base) if R.guards else True

    def __setitem__(self, k, v):
        k = store_key(self, k)
        g = self._g()
        if g is True:
            dict.__setitem__(self, k, v)
            return
        if dict.__contains__(self, k):
            dict.__setitem__(self, k, merge_or_fail(g, v, dict.__getitem__(self, k), R.sites()))
            return
        self.gk = {}
        self.__class__ = GDict
        GDict.__setitem__(self, k, v)

    def __getitem__(self, k):
        if symbolic_key(self, k):
            return dict_lookup(self, k)
        return dict.__getitem__(self, k)

    def contains(self, k):
        if symbolic_key(self, k):
            return SBool.mk(bor(*[to_bexpr(veq(k, q)) for q in dict.keys(self)]))
        return dict.__contains__(self, k)

    def copy(self):
        return SDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        return SDict({k: copy.deepcopy(v, memo) for k, v in dict.items(self)})

    def get(self, k, d=None):
        if symbolic_key(self, k):
            return dict_lookup(self, k, d, True)
        return dict.get(self, k, d)

    def setdefault(self, k, d=None):
        if R.guards and self._g() is not True and not dict.__contains__(self, k):
            raise MergeFail(R.sites(), "setdefault under a guard")
        if symbolic_key(self, k):
            k = store_key(self, k)
            if not dict.__contains__(self, k):
                self[k] = d
            return dict.__getitem__(self, k)
        return dict.setdefault(self, k, d)

    def update(self, *a, **k):
        for key, v in dict(*a, **k).items():
            self[key] = v

    def _need_plain(self, why):
        if R.guards and self._g() is not True:
            raise MergeFail(R.sites(), why)

    def __reduce__(self):
        return (dict, (dict(dict.items(self)),))


for _n in ("pop", "popitem", "clear", "__delitem__"):

    def _mk(name):
        orig = getattr(dict, name)

        def f(self, *a):
            self._need_plain("dict.%s under a guard" % name)
            if a and symbolic_key(self, a[0]):
                a = (store_key(self, a[0]),) + a[1:]
            return orig(self, *a)

        return f

    setattr(SDict, _n, _mk(_n))


_symkeys = []


def symbolic_key(d, k):
    """Looking k up in d is up to the solver."""
    if isinstance(k, Sym):
        return not (type(k) is SReal and k.iskey and dict.__contains__(d, k))
    if isinstance(k, tuple):
        return has_sym(k)
    return bool(_symkeys) and type(k) in (int, float) and any(type(q) is SReal for q in dict.keys(d))


def store_key(d, k):
    """The key to store under: an equal one already there (up to the solver), or a new one."""
    if not isinstance(k, Sym):
        if not (_symkeys and type(k) in (int, float)):
            return k
    elif type(k) is not SReal or k.src is not None:
        return k.concrete()
    elif k.iskey and dict.__contains__(d, k):
        return k
    for q in dict.keys(d):
        if (type(k) is SReal or type(q) is SReal) and R.branch(to_bexpr(veq(k, q))):
            return q
    if type(k) is SReal:
        k = SReal(k.z)
        k.iskey = True
        _symkeys.append(1)
    return k


def dict_lookup(d, k, default=None, has_default=False):
    for q in list(dict.keys(d)):
        if R.branch(to_bexpr(veq(k, q))):
            return dict.__getitem__(d, q)
    if has_default:
        return default
    raise KeyError(repr(k))


class GDict(SDict):
    """dict with conditional keys: gk[key] = guard (absent from gk: unconditional)."""

    __slots__ = ()

    def __setitem__(self, k, v):
        k = store_key(self, k)
        g = self._g()
        if not dict.__contains__(self, k):
            if g is not True:
                self.gk[k] = g
            dict.__setitem__(self, k, v)
            return
        old = self.gk.get(k, True)
        if g is True:
            self.gk.pop(k, None)
            dict.__setitem__(self, k, v)
            return
        cur = dict.__getitem__(self, k)
        # where the key was absent the old value is irrelevant
        nv = v if _eq(old, g) else merge_or_fail(g, v, cur, R.sites())
        dict.__setitem__(self, k, nv)
        if old is not True:
            ng = bor(old, g)
            if ng is True:
                self.gk.pop(k)
            else:
                self.gk[k] = ng

    def contains(self, k):
        if symbolic_key(self, k):
            return SBool.mk(bor(*[band(self.gk.get(q, True), to_bexpr(veq(k, q))) for q in dict.keys(self)]))
        if not dict.__contains__(self, k):
            return False
        return SBool.mk(self.gk.get(k, True))

    def __contains__(self, k):
        return R.branch(to_bexpr(self.contains(k)))

    def __getitem__(self, k):
        if symbolic_key(self, k):
            return dict_lookup(self, k)
        if not dict.__contains__(self, k):
            raise KeyError(k)
        g = self.gk.get(k, True)
        if g is not True:
            if not R.branch(g):
                raise KeyError(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if symbolic_key(self, k):
            return self[k] if k in self else d
        if dict.__contains__(self, k) and R.branch(self.gk.get(k, True)):
            return dict.__getitem__(self, k)
        return d

    def keys(self):
        return GList.of(gitems(self))

    def values(self):
        return GList.of([(g, dict.__getitem__(self, k)) for g, k in gitems(self)])

    def items(self):
        return GList.of([(g, (k, dict.__getitem__(self, k))) for g, k in gitems(self)])

    def __iter__(self):
        return iter(self.keys())

    def truth(self):
        return bor(*[g for g, _ in gitems(self)])

    def __bool__(self):
        return R.branch(self.truth())

    def __len__(self):
        n = SInt.from_lin(0, [(1, g) for g, _ in gitems(self)])
        return n.concrete() if isinstance(n, SInt) else n

    def copy(self):
        d = SDict(dict(dict.items(self)))
        d.gk = dict(self.gk)
        d.__class__ = GDict
        return d

    __copy__ = copy


# --------------------------------------------------------------------------- merging
class CannotMerge(Exception):
    pass


def ite_value(c, a, b):
    """Value that is a when c holds and b otherwise; raises CannotMerge."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta is Poison or tb is Poison:
        raise CannotMerge()
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool.mk(bite(c, to_bexpr(a), to_bexpr(b)))
    if _isint(a) and _isint(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            a, b = int(a), int(b)
            if a == b:
                return a
            return SInt.from_lin(b, [(a - b, c)])
        x, y = _asint(a), _asint(b)
        xb, yb = x.bits, y.bits
        if xb is not None and yb is not None:
            n = max(len(xb), len(yb))
            xb = list(xb) + [False] * (n - len(xb))
            yb = list(yb) + [False] * (n - len(yb))
            return SInt.from_bits([bite(c, p, q) for p, q in zip(xb, yb)])
        return SInt.from_z(z3.If(c, x.z, y.z))
    if _isnum(a) and _isnum(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if a == b and ta is tb:
                return a
        return SReal(z3.If(c, _asreal(a), _asreal(b)))
    if isinstance(a, str) and isinstance(b, str):
        if ta is str and tb is str and a == b:
            return a
        x, y = SStr.chars(a), SStr.chars(b)
        if len(x) == len(y):
            out = []
            for p, q in zip(x, y):
                if isinstance(p, str) and p == q:
                    out.append(p)
                    continue
                p = (p == "1") if isinstance(p, str) and p in "01" else p
                q = (q == "1") if isinstance(q, str) and q in "01" else q
                if isinstance(p, str) or isinstance(q, str):
                    raise CannotMerge()
                out.append(bite(c, p, q))
            return SStr.mk(out)
        raise CannotMerge()
    if ta is tuple and tb is tuple and len(a) == len(b):
        return tuple(ite_value(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        x, y = gitems(a), gitems(b)
        n = 0
        while n < len(x) and n < len(y) and x[n][1] is y[n][1] and _eq(x[n][0], y[n][0]):
            n += 1
        return GList.of(x[:n] + [(band(c, g), v) for g, v in x[n:]] + [(band(bnot(c), g), v) for g, v in y[n:]])
    if isinstance(a, dict) and isinstance(b, dict) and type(a) is not GDict and type(b) is not GDict:
        if list(a) == list(b):
            return SDict({k: ite_value(c, a[k], b[k]) for k in a})
    if "SymArray" in (ta.__name__, tb.__name__) and hasattr(a, "shape") and hasattr(b, "shape") and a.shape == b.shape:
        from .nparr import ite_arrays

        return ite_arrays(c, a, b)
    try:
        if ta is tb and ta.__eq__ is not object.__eq__ and not isinstance(a, (list, dict, set)) and a == b:
            return a
    except EngineExc:
        raise
    except BaseException:
        pass
    raise CannotMerge()


def merge_value(c, a, b, site):
    try:
        return ite_value(c, a, b)
    except CannotMerge:
        return Poison(c, a, b, site)


def merge_or_fail(c, a, b, sites):
    try:
        return ite_value(c, a, b)
    except CannotMerge:
        raise MergeFail(sites, "cannot merge %r / %r" % (type(a), type(b)))


def index_value(seq, k):
    """seq[k] for a concrete sequence and a symbolic index."""
    n = len(seq)
    k = _asint(k)
    ok = band(to_bexpr(k >= -n), to_bexpr(k < n))
    if not R.branch(ok):
        raise IndexError("index out of range")
    v = None
    try:
        first = True
        for i in range(-n, n):
            c = to_bexpr(k == i)
            if c is False:
                continue
            x = list.__getitem__(seq, i) if isinstance(seq, list) else seq[i]
            v = x if first else ite_value(c, x, v)
            first = False
        return v
    except CannotMerge:
        return seq[k.concrete()]


def sample_models(rng, k, n_lits):
    """Up to k input assignments satisfying the current path condition (for replays)."""
    out = []
    s = R.solver
    for _ in range(k):
        s.push()
        try:
            if s.check() != z3.sat:
                return out
            names = list(R.inputs)
            rng.shuffle(names)
            m = s.model()
            for n in names[:n_lits]:
                v = R.inputs[n]
                if not z3.is_bool(v):
                    continue
                l = v if rng.random() < 0.6 else z3.Not(v)
                if z3.is_true(m.eval(l, model_completion=True)):
                    s.add(l)
                    continue
                s.push()
                s.add(l)
                if s.check() == z3.sat:
                    m = s.model()
                    s.pop()
                    s.add(l)
                else:
                    s.pop()
            out.append(R.read_model(m))
        finally:
            s.pop()
    return out
