"""Runtime called by instrumented code (see instrument.py)."""
import builtins
import itertools
import math
import operator
import typing

from .core import (
    R, Sym, SBool, SInt, SReal, SStr, SList, GList, SDict, GDict, Poison, PosIndex, LenIndex, UNDEF,
    EngineExc, MergeFail, Unsupported, CannotMerge,
    band, bor, bnot, bxor, biff, bite, to_bexpr, veq, has_sym, gitems, mkset, join, index_value, positions,
    ite_value, merge_value, merge_or_fail, dict_lookup, store_key, _isint, _isnum, _asreal, _rel_guard, _snap, z3,
)
from . import nparr


# --------------------------------------------------------------------------- control flow
class _Plain:
    __slots__ = ("side", "_n")
    merged = False

    def __init__(self, side):
        self.side = side
        self._n = True

    def more(self):
        if self._n:
            self._n = False
            return True
        return False

    def fail(self, e):
        pass


class _Merge:
    """Runs both branches under complementary guards and merges the assigned names."""

    __slots__ = ("c", "site", "state", "side", "pre", "a", "names", "depth")
    merged = True

    def __init__(self, c, site):
        self.c, self.site, self.state = c, site, 0
        self.pre = self.a = None
        self.depth = len(R.guards)

    def more(self):
        s = self.state
        self.state = s + 1
        if s == 0:
            R.stats.merges += 1
            self.side = True
            R.guards.append((self.c, self.site))
            return True
        if s == 1:
            self._pop()
            self.side = False
            R.guards.append((bnot(self.c), self.site))
            return True
        self._pop()
        return False

    def _pop(self):
        if len(R.guards) != self.depth + 1:
            raise Unsupported("guard stack out of step")
        R.guards.pop()

    def restore(self, loc, names):
        if self.pre is None:
            self.names = names
            self.pre = {n: loc.get(n, UNDEF) for n in names}
        return tuple(self.pre[n] for n in self.names)

    def leave(self, loc):
        vals = {n: loc.get(n, UNDEF) for n in self.names}
        if self.side:
            self.a = vals
        else:
            self.b_done(vals)

    def b_done(self, b):
        a = self.a
        self.a = {n: (a[n] if a[n] is b[n] else merge_value(self.c, a[n], b[n], self.site)) for n in self.names}

    def result(self):
        return tuple(self.a[n] for n in self.names)

    def fail(self, e):
        raise MergeFail([self.site], "%s under a guard: %s" % (type(e).__name__, e))


def If(test, site):
    if test is True or test is False:
        return _Plain(test)
    c = to_bexpr(test)
    if c is True or c is False:
        return _Plain(c)
    for g, _ in R.guards:
        if g.eq(c):
            return _Plain(True)
        if bnot(g).eq(c):
            return _Plain(False)
    if site in R.forkonly:
        return _Plain(R.branch(c))
    return _Merge(c, site)


def branch(test, site=None):
    """Decide a test now (forking if necessary)."""
    if test is True or test is False:
        return test
    c = to_bexpr(test)
    if isinstance(c, bool):
        return c
    return R.branch(c)


def truth(x):
    if x is True or x is False:
        return x
    return R.branch(to_bexpr(x)) if isinstance(x, (Sym, SList, SDict)) else bool(x)


def giter(it, site):
    if type(it) is GList:
        if site in R.forkonly:
            return [(True, v) for v in it.resolved()]
        return list(it.items_)
    if isinstance(it, GDict):
        return gitems(it)
    return _plain_iter(it)


def _plain_iter(it):
    for v in it:
        yield True, v


def reraise(e):
    if isinstance(e, EngineExc):
        raise e


def and_(a, fb):
    t = to_bexpr(a) if isinstance(a, (Sym, GList, GDict)) else None
    if t is None or isinstance(t, bool):
        if not (a if t is None else t):
            return a
        return fb()
    if "and" in R.forkonly:
        return fb() if R.branch(t) else a
    R.guards.append((t, "and"))
    exc = False
    try:
        b = fb()
    except Exception:
        exc = True
    finally:
        R.guards.pop()
    if exc:
        return fb() if R.branch(t) else a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool.mk(band(t, to_bexpr(b)))
    return merge_value(t, b, a, "and")


def or_(a, fb):
    t = to_bexpr(a) if isinstance(a, (Sym, GList, GDict)) else None
    if t is None or isinstance(t, bool):
        if a if t is None else t:
            return a
        return fb()
    if "or" in R.forkonly:
        return fb() if R.branch(bnot(t)) else a
    R.guards.append((bnot(t), "or"))
    exc = False
    try:
        b = fb()
    except Exception:
        exc = True
    finally:
        R.guards.pop()
    if exc:
        return fb() if R.branch(bnot(t)) else a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool.mk(bor(t, to_bexpr(b)))
    return merge_value(t, a, b, "or")


def not_(a):
    if a is True or a is False:
        return not a
    if isinstance(a, (Sym, GList, GDict)):
        return SBool.mk(bnot(to_bexpr(a)))
    return not a


def ifexp(c, fa, fb, site):
    if c is True or c is False:
        return fa() if c else fb()
    t = to_bexpr(c)
    if isinstance(t, bool):
        return fa() if t else fb()
    if site in R.forkonly:
        return fa() if R.branch(t) else fb()
    R.guards.append((t, site))
    try:
        a = fa()
    except Exception as e:
        raise MergeFail([site], "exception under a guard: %r" % (e,))
    finally:
        R.guards.pop()
    R.guards.append((bnot(t), site))
    try:
        b = fb()
    except Exception as e:
        raise MergeFail([site], "exception under a guard: %r" % (e,))
    finally:
        R.guards.pop()
    return merge_value(t, a, b, site)


def chain(fs, a, *cs):
    def go(i, a):
        b = cs[i]()
        r = fs[i](a, b)
        if i + 1 == len(fs):
            return r
        return and_(r, lambda: go(i + 1, b))

    return go(0, a)


def eq(a, b):
    if (type(a) is tuple or type(b) is tuple) and (has_sym(a) or has_sym(b)):
        return veq(a, b)
    return a == b


def ne(a, b):
    if (type(a) is tuple or type(b) is tuple) and (has_sym(a) or has_sym(b)):
        return not_(veq(a, b))
    return a != b


def is_(a, b):
    if type(a) is Poison or type(b) is Poison:
        p, o = (a, b) if type(a) is Poison else (b, a)
        return _poison_is(p, o)
    if isinstance(b, bool) and type(a) is SBool:
        return a if b else not_(a)
    if type(a) is SBool and type(b) is SBool:
        return a == b
    return a is b


def _poison_is(p, o):
    ga = object.__getattribute__
    c, a, b = ga(p, "c"), ga(p, "a"), ga(p, "b")
    x = _poison_is(a, o) if type(a) is Poison else (a is o)
    y = _poison_is(b, o) if type(b) is Poison else (b is o)
    return SBool.mk(bite(c, to_bexpr(x), to_bexpr(y)))


def contains(c, x):
    t = type(c)
    if t is GList or t is GDict:
        return c.contains(x)
    if isinstance(c, SDict):
        return c.contains(x)
    if t is SStr:
        return c.contains(x)
    if has_sym(x) or (isinstance(c, (list, tuple)) and has_sym(c)):
        if isinstance(c, str):
            return SStr(tuple(c)).contains(x)
        if isinstance(c, range):
            if _isint(x):
                return SBool.mk(bor(*[to_bexpr(x == v) for v in c]))
            return x in c
        if isinstance(c, (list, tuple, set, frozenset)) or type(c).__name__ in ("dict_keys", "dict_values"):
            return SBool.mk(bor(*[to_bexpr(veq(v, x)) for v in c]))
        if isinstance(c, dict):
            return SBool.mk(bor(*[to_bexpr(veq(v, x)) for v in c]))
    return x in c


# --------------------------------------------------------------------------- stores
def _mutable_native(o):
    return True


def _guard_for(o):
    """Guard under which a store to object o happens (True: unconditional)."""
    if not R.guards:
        return True
    b = R.obj_base.get(id(o))
    if b is not None and b[0] is o:
        return _rel_guard(b[1])
    return R.guard()


def setattr_(val, o, name):
    if R.guards and not isinstance(o, type(math)):
        g = _guard_for(o)
        if g is not True:
            try:
                old = getattr(o, name)
            except AttributeError:
                raise MergeFail(R.sites(), "new attribute under a guard")
            val = merge_or_fail(g, val, old, R.sites())
    setattr(o, name, val)


def setitem(val, o, k):
    if isinstance(o, (SList, SDict, nparr.SymArray)):
        o[k] = val
        return
    if R.guards and getattr(o, "_verif_model_", False) is False:
        if isinstance(o, (list, dict)):
            g = _guard_for(o)
            if g is not True:
                try:
                    old = o[k]
                except (KeyError, IndexError):
                    raise MergeFail(R.sites(), "new item under a guard")
                val = merge_or_fail(g, val, old, R.sites())
        else:
            raise MergeFail(R.sites(), "item store into %s under a guard" % type(o).__name__)
    if isinstance(k, Sym) and isinstance(o, dict):
        k = store_key(o, k)
    o[k] = val


def delitem(o, k):
    if R.guards:
        raise MergeFail(R.sites(), "del under a guard")
    del o[k]


_BIN = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
    "%": operator.mod, "**": operator.pow, "&": operator.and_, "|": operator.or_, "^": operator.xor,
    "<<": operator.lshift, ">>": operator.rshift, "@": operator.matmul,
}
_INP = {
    "+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
    "%": operator.imod, "**": operator.ipow, "&": operator.iand, "|": operator.ior, "^": operator.ixor,
    "<<": operator.ilshift, ">>": operator.irshift, "@": operator.imatmul,
}


def _iop(op, a, b):
    if type(a) is list and (R.guards or type(b) is GList):
        if op == "+" and type(b) is GList and not R.guards:
            raise MergeFail(R.sites() or ["native-list"], "guarded list added to a native list")
        if R.guards and _guard_for(a) is not True:
            raise MergeFail(R.sites(), "native list changed under a guard")
    if R.guards and isinstance(a, nparr.np.ndarray) and not isinstance(a, nparr.SymArray):
        raise MergeFail(R.sites(), "array changed under a guard")
    return _INP[op](a, b)


def iop(op, a, b):
    return _iop(op, a, b)


def iattr(op, o, name, fb):
    setattr_(_iop(op, getattr(o, name), fb()), o, name)


def iitem(op, o, k, fb):
    setitem(_iop(op, getitem(o, k), fb()), o, k)


def getitem(o, k):
    if type(k) is slice:
        if type(o) is SStr or isinstance(o, SList):
            return o[k]
        if any(isinstance(p, Sym) for p in (k.start, k.stop, k.step)):
            k = slice(*[p.concrete() if isinstance(p, Sym) else p for p in (k.start, k.stop, k.step)])
        r = o[k]
        return SList(r) if type(r) is list else r
    if isinstance(k, Sym) or (type(k) is tuple and has_sym(k)):
        if isinstance(o, (SList, SDict)):
            return o[k]
        if isinstance(k, (SInt, SBool)) and isinstance(o, (list, tuple)):
            return index_value(o, k)
        if isinstance(k, SInt) and isinstance(o, str):
            return o[k.concrete()]
        if isinstance(o, dict):
            return dict_lookup(o, k)
        if isinstance(k, SInt) and _qk(type(o)):
            return o[_conc(k)]
    if isinstance(o, nparr.np.ndarray) and not isinstance(o, nparr.SymArray) and isinstance(k, (nparr.SymArray, list)) and has_sym(k):
        o = o.astype(object).view(nparr.SymArray)
    return o[k]


def _qk(c):
    return (getattr(c, "__module__", None) or "").startswith("qiskit")


def _conc(v):
    """A number handed to qiskit has a value there: one path per value."""
    if isinstance(v, SInt):
        if R.guards:
            raise MergeFail(R.sites(), "symbolic integer handed to qiskit")
        return v.concrete()
    return v


def unpack(v):
    if type(v) is GList:
        return v.resolved()
    return v


def star(v):
    if type(v) is GList:
        return v.resolved()
    return v


# --------------------------------------------------------------------------- displays
def mklist(l):
    return SList(l)


def mkstar(parts):
    """[a, *b, ...] from (starred, value) parts."""
    if R.mode == "sym" and any(s and type(v) in (GList, GDict) for s, v in parts):
        return GList.of([i for s, v in parts for i in (gitems(v) if s else [(True, v)])])
    out = []
    for s, v in parts:
        if s:
            out.extend(v)
        else:
            out.append(v)
    return SList(out)


def mkdict(d):
    return SDict(d)


def mkset_(l):
    return mkset(l)


def mklambda(f):
    try:
        f.__verif_fn__ = True
    except AttributeError:
        pass
    return f


def gen(fn, lazy, it):
    if R.mode != "sym" or not isinstance(it, (list, tuple, dict, range, str, set)):
        return lazy(it)
    if type(it) is not GList and not R.guards and not has_sym(it) and not isinstance(it, (str, range)):
        pass
    try:
        l = fn(it)
    except Exception:
        return lazy(it)
    l.isgen = True
    return l


def genlist(l):
    if R.mode != "sym":
        return iter(l)
    l.isgen = True
    return l


def fmt(v):
    if type(v) is SStr:
        return v
    if isinstance(v, (SInt, SBool)):
        return to_str(v)
    return format(v)


def fstr(*parts):
    if any(type(p) is SStr for p in parts):
        return join("", parts)
    return "".join(parts)


def to_str(v):
    if isinstance(v, SInt):
        b = v.bits
        if b is not None and len(b) <= 1:
            return SStr.mk([b[0] if b else False])
        return str(v.concrete())
    if type(v) is SBool:
        return str(bool(v))
    return str(v)


# --------------------------------------------------------------------------- builtins on symbolic arguments
def _b_int(x=0, base=None):
    if base is None:
        if isinstance(x, SInt):
            return x
        if type(x) is SBool:
            return x.i()
        if type(x) is SReal:
            return x.toint()
        if type(x) is SStr:
            return x.strip().to_int(10)
        return int(x)
    if isinstance(base, Sym):
        base = base.concrete()
    if type(x) is SStr:
        s = x.strip().replace("_", "") if False else x.strip()
        if len(s) == 0:
            return int("", base)
        return s.to_int(base) if type(s) is SStr else int(s, base)
    return int(x, base)


def _b_str(x=""):
    if type(x) is SStr:
        return x
    return to_str(x)


def _b_bool(x=False):
    return SBool.mk(to_bexpr(x))


def _b_float(x=0.0):
    if type(x) is SReal:
        return x
    if isinstance(x, SInt):
        return x.real()
    if type(x) is SBool:
        return SReal(_asreal(x))
    return float(x)


def _b_len(x):
    if type(x) is GList:
        return LenIndex.at(x, x.slen())
    if type(x) is GDict:
        return SInt.from_lin(0, [(1, g) for g, _ in gitems(x)])
    return len(x)


def _b_sum(x, start=0):
    tot = start
    for g, v in gitems(x):
        if g is not True:
            if isinstance(v, (int, SInt, SBool)):
                v = (v if isinstance(v, SInt) else (v.i() if type(v) is SBool else int(v)))
                v = ite_value(g, v, 0)
            else:
                v = ite_value(g, v, 0 if _isint(v) else 0.0)
        tot = tot + v
    return tot


def _minmax(less):
    def f(*args, key=None, default=UNDEF):
        its = gitems(args[0]) if len(args) == 1 else [(True, a) for a in args]
        if any(g is not True for g, _ in its):
            vals = args[0].resolved()
        else:
            vals = [v for _, v in its]
        if not vals:
            if default is not UNDEF:
                return default
            raise ValueError("empty sequence")
        best = vals[0]
        kb = key(best) if key else best
        for v in vals[1:]:
            kv = key(v) if key else v
            c = to_bexpr((kv < kb) if less else (kv > kb))
            try:
                nb, nk = ite_value(c, v, best), ite_value(c, kv, kb)
            except CannotMerge:
                c = R.branch(c)
                nb, nk = (v, kv) if c else (best, kb)
            best, kb = nb, nk
        return best

    return f


def _b_enumerate(x, start=0):
    if type(x) is not GList:
        return enumerate(x, start)
    out, terms = [], []
    for p, (g, v) in enumerate(x.items_):
        i = SInt.from_lin(start, [(1, h) for h in terms])
        if type(start) is int and start == 0:
            i = PosIndex.at(x, p, i)
        out.append((g, (i, v)))
        terms.append(g)
    return GList.of(out)


def _same_guards(ls):
    g0 = [g for g, _ in gitems(ls[0])]
    for l in ls[1:]:
        g = [h for h, _ in gitems(l)]
        if len(g) != len(g0) or not all(a is b or (not isinstance(a, bool) and not isinstance(b, bool) and a.eq(b)) for a, b in zip(g0, g)):
            return False
    return True


def _b_zip(*ls, strict=False):
    if any(type(l) is GList for l in ls):
        if all(type(l) is GList for l in ls) and _same_guards(ls):
            return GList.of(
                [(t[0][0], tuple(v for _, v in t)) for t in zip(*[gitems(l) for l in ls])]
            )
        ls = [l.resolved() if type(l) is GList else l for l in ls]
    return zip(*ls)


def _b_any(x):
    return SBool.mk(bor(*[band(g, to_bexpr(v)) for g, v in gitems(x)]))


def _b_all(x):
    return SBool.mk(band(*[bor(bnot(g), to_bexpr(v)) for g, v in gitems(x)]))


def _b_list(x=()):
    if type(x) is GList:
        return GList.of(list(x.items_))
    if type(x) is GDict:
        return GList.of(gitems(x))
    return SList(x)


def _b_tuple(x=()):
    return tuple(x)


def _b_set(x=()):
    return mkset(x)


def _b_frozenset(x=()):
    return mkset(x) if type(x) is GList else frozenset(x)


def _b_dict(*a, **k):
    if a and type(a[0]) is GDict:
        d = a[0].copy()
        d.update(k)
        return d
    if a and type(a[0]) is GList:
        d = SDict()
        for g, (kk, v) in a[0].items_:
            if g is True:
                d[kk] = v
            else:
                R.guards.append((g, "dict()"))
                try:
                    d[kk] = v
                finally:
                    R.guards.pop()
        for kk, v in k.items():
            d[kk] = v
        return d
    return SDict(*a, **k)


def _b_sorted(x, key=None, reverse=False):
    l = _b_list(x)
    l.sort(key=key, reverse=bool(reverse))
    return l


def _b_reversed(x):
    if type(x) is GList:
        return GList.of(x.items_[::-1])
    if type(x) is SStr:
        return SList([SStr.mk([c]) for c in x.ch[::-1]])
    return reversed(x)


def _b_isinstance(x, t):
    return isinstance(x, t)


def _b_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, Sym):
        return x.__class__
    if isinstance(x, SList):
        return list if not (type(x) is GList and x.isset) else set
    if isinstance(x, SDict):
        return dict
    return type(x)


def _b_range(*a):
    if type(a[-1]) is LenIndex and len(a) < 3 or len(a) == 3 and type(a[1]) is LenIndex and type(a[2]) is int and a[2] == 1:
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        r = positions(hi.owner, lo, hi)
        if r is not None:
            return r
    return range(*[x.concrete() if isinstance(x, Sym) else x for x in a])


def _b_next(x, *d):
    if type(x) is GList:
        v = d[0] if d else UNDEF
        try:
            for g, y in reversed(x.items_):
                v = ite_value(g, y, v)
        except CannotMerge:
            l = x.resolved()
            if l:
                return l[0]
            if d:
                return d[0]
            raise StopIteration
        if not d and not R.branch(x.truth()):
            raise StopIteration
        if x.isgen and not R.guards:
            seen, rest = False, []
            for g, y in x.items_:
                rest.append((band(g, seen), y))
                seen = bor(seen, g)
            x.items_ = [(g, y) for g, y in rest if g is not False]
        return v
    if isinstance(x, SList):
        if x:
            if getattr(x, "isgen", False) and not R.guards:
                return list.pop(x, 0)
            return x[0]
        if d:
            return d[0]
        raise StopIteration
    return next(x, *d)


def _b_filter(f, x):
    out = []
    for g, v in gitems(x):
        c = to_bexpr(v if f is None else call(f, v))
        out.append((band(g, c), v))
    return GList.of(out)


def _b_map(f, *xs):
    if len(xs) == 1:
        x = xs[0]
        if type(x) is GList:
            out = []
            for g, v in x.items_:
                R.guards.append((g, "map"))
                try:
                    out.append((g, call(f, v)))
                finally:
                    R.guards.pop()
            return GList.of(out)
        return SList([call(f, v) for v in x])
    return SList([call(f, *t) for t in zip(*xs)])


def _b_abs(x):
    return abs(x)


def _b_round(x, n=None):
    return round(x) if n is None else round(x, n)


def _b_bin(x):
    b = x.bits
    if b is None:
        return bin(x.concrete())
    raise_unsup = bin(x.concrete())
    return raise_unsup


def _b_format(x, spec=""):
    return format_one(x, spec)


def format_one(x, spec):
    """format(x, spec) for the specs '', 'b', '0Nb'."""
    if type(x) is SStr and spec == "":
        return x
    if isinstance(x, (SInt, SBool)):
        if spec in ("", "d"):
            return to_str(x)
        x = x.i() if type(x) is SBool else x
        if spec.endswith("b") and spec[:-1].isdigit() and spec[0] == "0" and x.bits is not None:
            n = int(spec[:-1])
            if len(x.bits) <= n:
                bits = list(x.bits) + [False] * (n - len(x.bits))
                return SStr.mk(bits[::-1])
    return format(x, spec)


def _i_combinations(x, r):
    if type(x) is GList:
        out = []
        for t in itertools.combinations(x.items_, r):
            out.append((band(*[g for g, _ in t]), tuple(v for _, v in t)))
        return GList.of(out)
    return itertools.combinations(x, r)


def _i_permutations(x, r=None):
    if type(x) is GList:
        if r is None:
            return itertools.permutations(x.resolved())
        out = []
        for t in itertools.permutations(x.items_, r):
            out.append((band(*[g for g, _ in t]), tuple(v for _, v in t)))
        return GList.of(out)
    return itertools.permutations(x, r)


def _i_product(*xs, repeat=1):
    xs = list(xs) * repeat
    if any(type(x) is GList for x in xs):
        out = []
        for t in itertools.product(*[gitems(x) for x in xs]):
            out.append((band(*[g for g, _ in t]), tuple(v for _, v in t)))
        return GList.of(out)
    return itertools.product(*xs)


def _i_chain(*xs):
    if any(type(x) is GList for x in xs):
        return GList.of([i for x in xs for i in gitems(x)])
    return itertools.chain(*xs)


def _i_accumulate(x, *a, **k):
    return itertools.accumulate(x, *a, **k)


LN = z3.Function("ln", z3.RealSort(), z3.RealSort())


def ln_of(z):
    """Natural logarithm as an uninterpreted function, normalised over products and quotients."""
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        f = z.as_fraction()
        if f == 1:
            return z3.RealVal(0)
        if f > 0 and f.denominator != 1:
            return ln_of(z3.RealVal(f.numerator)) - ln_of(z3.RealVal(f.denominator))
    if z3.is_app(z):
        k = z.decl().kind()
        if k == z3.Z3_OP_DIV:
            return ln_of(z.arg(0)) - ln_of(z.arg(1))
        if k == z3.Z3_OP_MUL:
            ks = z.children()
            if len(ks) == 2 and z3.is_rational_value(ks[0]) and ks[0].as_fraction() < 0:
                pass
            else:
                return z3.Sum(*[ln_of(c) for c in ks])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(z.arg(1)):
            return z.arg(1) * ln_of(z.arg(0))
    R.logs.append(z)
    return LN(z)


def _m_log(x, *base):
    if not isinstance(x, Sym) and not base:
        return math.log(x)
    zx = _asreal(x)
    if not R.branch(to_bexpr(z3.simplify(zx > 0))):
        raise ValueError("math domain error")
    v = SReal(z3.simplify(ln_of(zx)))
    if base:
        return v / _m_log(_real(base[0]))
    return v


def _real(x):
    return x if isinstance(x, Sym) else SReal(_asreal(x))


def _m_log1p(x):
    return _m_log(_real(x) + 1)


def _m_log2(x):
    return _m_log(_real(x)) / SReal(ln_of(z3.RealVal(2)))


def _m_log10(x):
    return _m_log(_real(x)) / SReal(ln_of(z3.RealVal(10)))


def _m_floor(x):
    if type(x) is SReal:
        return SInt.from_z(z3.ToInt(x.z))
    return math.floor(x)


def _m_ceil(x):
    if type(x) is SReal:
        return -_asint_(SInt.from_z(z3.ToInt(-x.z)))
    return math.ceil(x)


def _asint_(x):
    return x


def _m_prod(x, start=1):
    t = start
    for v in x:
        t = t * v
    return t


def _m_fsum(x):
    return _b_sum(x, 0.0)


def _b_print(*a, **k):
    return None


def _b_divmod(a, b):
    return (a // b, a % b)


def _b_pow(a, b, m=None):
    return a ** b if m is None else pow(int(a), int(b), m)


def _b_hash(x):
    return hash(x)


BUILTINS = {
    int: _b_int, str: _b_str, bool: _b_bool, float: _b_float, len: _b_len, sum: _b_sum,
    min: _minmax(True), max: _minmax(False), enumerate: _b_enumerate, zip: _b_zip, any: _b_any, all: _b_all,
    list: _b_list, tuple: _b_tuple, set: _b_set, frozenset: _b_frozenset, dict: _b_dict, sorted: _b_sorted,
    reversed: _b_reversed, type: _b_type, range: _b_range, next: _b_next, filter: _b_filter, map: _b_map,
    print: _b_print, divmod: _b_divmod, pow: _b_pow, round: _b_round, abs: _b_abs, format: _b_format,
    itertools.combinations: _i_combinations, itertools.product: _i_product, itertools.chain: _i_chain,
    itertools.permutations: _i_permutations,
    math.log: _m_log, math.log1p: _m_log1p, math.log2: _m_log2, math.log10: _m_log10,
    math.floor: _m_floor, math.ceil: _m_ceil, math.prod: _m_prod, math.fsum: _m_fsum,
    operator.xor: lambda a, b: a ^ b, operator.eq: eq, operator.ne: ne, operator.not_: not_,
    operator.contains: contains, operator.getitem: getitem,
    operator.truth: _b_bool,
}
try:
    import numpy as _np

    BUILTINS[_np.log] = _m_log
    BUILTINS[_np.log1p] = _m_log1p
    BUILTINS[_np.floor] = _m_floor
    BUILTINS[_np.abs] = _b_abs
except ImportError:
    _np = None

# always wrapped, also for concrete arguments (they create containers)
ALWAYS = {list: _b_list, dict: _b_dict, sorted: _b_sorted, map: _b_map, filter: _b_filter}

_PURE = {
    builtins.isinstance, builtins.issubclass, builtins.len, builtins.int, builtins.str, builtins.float, builtins.bool,
    builtins.abs, builtins.min, builtins.max, builtins.sum, builtins.round, builtins.range, builtins.enumerate,
    builtins.zip, builtins.sorted, builtins.reversed, builtins.tuple, builtins.list, builtins.dict, builtins.set,
    builtins.frozenset, builtins.any, builtins.all, builtins.type, builtins.repr, builtins.hash, builtins.id,
    builtins.getattr, builtins.hasattr, builtins.callable, builtins.divmod, builtins.pow, builtins.map, builtins.filter,
    builtins.format, builtins.iter, builtins.ord, builtins.chr, builtins.bin, builtins.slice, builtins.print,
    typing.cast, itertools.combinations, itertools.product, itertools.chain, itertools.permutations, itertools.repeat,
    itertools.islice, itertools.count,
}
_PURE_METHODS = {
    list: {"index", "count", "copy", "__len__", "__getitem__", "__contains__"},
    dict: {"get", "keys", "values", "items", "copy", "__getitem__", "__contains__"},
    set: {"union", "intersection", "difference", "issubset", "issuperset", "copy", "isdisjoint", "symmetric_difference"},
}
_SYMBOLIC_OK_TYPES = (SList, SDict, Sym)


def _deepsym(args, kw):
    for a in args:
        if isinstance(a, _SYMBOLIC_OK_TYPES) and (isinstance(a, Sym) or type(a) is GList or type(a) is GDict):
            return True
        if type(a) in (tuple, SList, list, SDict, dict, nparr.SymArray) and has_sym(a):
            return True
    for a in kw.values():
        if isinstance(a, Sym) or has_sym(a):
            return True
    return False


def _instrumented(f):
    g = getattr(f, "__globals__", None)
    if g is None and hasattr(f, "__func__"):
        g = getattr(f.__func__, "__globals__", None)
    return g is not None and ("__verif_instrumented__" in g or "__verif_model__" in g)


def call(f, *args, **kw):
    t = type(f)
    if t is Poison:
        f()
    if R.mode != "sym":
        return f(*args, **kw)
    if not R.guards and t.__name__ in ("function", "method") and _instrumented(f):
        return f(*args, **kw)
    try:
        h = BUILTINS.get(f)
    except TypeError:
        h = None
    if (h is None or any(type(a) is nparr.SymArray or isinstance(a, (list, tuple)) for a in args)) and nparr.npfn(f):
        if type(getattr(f, "__self__", None)) is nparr.SymArray or _deepsym(args, kw):
            r = nparr.call(f, args, kw)
            return SList(r) if type(r) is list else r
    if h is not None:
        if f is set and "guarded-sets" in R.forkonly:
            return mkset(*args)
        if f in ALWAYS or _deepsym(args, kw):
            return h(*args, **kw)
        if f is type and len(args) == 1 and isinstance(args[0], (SList, SDict)):
            return _b_type(*args)
        if f is next and isinstance(args[0], SList):
            return _b_next(*args)
        return f(*args, **kw)
    if t.__name__ in ("builtin_function_or_method", "method_descriptor") and hasattr(f, "__self__"):
        s = f.__self__
        if isinstance(s, str):
            return _str_method(s, f, args, kw)
        if s is dict and f.__name__ == "fromkeys":
            val = args[1] if len(args) > 1 else None
            if type(args[0]) is GList:
                return _b_dict(GList.of([(g, (v, val)) for g, v in gitems(args[0])]))
            return SDict(f(*args))
        if type(s) is set and "guarded-sets" not in R.forkonly and (R.guards and not _native_method_ok(s, f) or _deepsym(args, kw)):
            raise MergeFail(["guarded-sets"], "set changed under a guard")
        if R.guards and not _native_method_ok(s, f):
            raise MergeFail(R.sites(), "native %r under a guard" % (f,))
        if type(s) is dict and f.__name__ in ("get", "setdefault", "pop") and args and has_sym(args[0]):
            if f.__name__ == "get":
                return dict_lookup(s, args[0], args[1] if len(args) > 1 else None, True)
        if type(s) is list and f.__name__ in ("append", "insert", "extend", "index", "count", "remove") and _deepsym(args, kw):
            if f.__name__ == "extend" and type(args[0]) is GList:
                raise MergeFail(["native-list"], "guarded extend of a native list")
        r = f(*args, **kw)
        return SList(r) if type(r) is list else r
    if isinstance(f, type):
        return _construct(f, args, kw)
    if R.guards and not _ok_under_guard(f):
        raise MergeFail(R.sites(), "call of %r under a guard" % (f,))
    return f(*args, **kw)


def _native_method_ok(s, f):
    if isinstance(s, (nparr.np.ndarray, nparr.np.generic, nparr.np.ufunc)) or isinstance(s, type(math)) and nparr.npfn(f):
        return f.__name__ in nparr.PURE
    if isinstance(s, (int, float, complex, tuple, bytes, frozenset, range, Sym, SList, SDict)) or s is None:
        return True
    if isinstance(s, type(math)):
        return s in (math, operator, builtins, itertools) or f in _PURE
    for ty, names in _PURE_METHODS.items():
        if type(s) is ty:
            return f.__name__ in names or _guard_for(s) is True
    if f in _PURE:
        return True
    if isinstance(s, type) and f.__name__ in ("fromkeys",):
        return True
    return getattr(s, "_verif_model_", False)


def _ok_under_guard(f):
    if nparr.npfn(f) and nparr.pure(f):
        return True
    if _instrumented(f):
        return True
    try:
        if f in _PURE:
            return True
    except TypeError:
        pass
    s = getattr(f, "__self__", None)
    if s is not None and (isinstance(s, (Sym, SList, SDict)) or getattr(s, "_verif_model_", False)):
        return True
    if getattr(f, "_verif_model_", False) or getattr(f, "__verif_fn__", False):
        return True
    n = type(f).__name__
    if n in ("itemgetter", "attrgetter", "ufunc"):
        return True
    if n == "partial":
        return _ok_under_guard(f.func)
    return False


def _construct(c, args, kw):
    if R.guards:
        m = getattr(c, "__module__", "")
        inst = "__verif_instrumented__" in getattr(__import__("sys").modules.get(m), "__dict__", {})
        if not (inst or c in _PURE or getattr(c, "_verif_model_", False) or issubclass(c, BaseException) or m in ("collections", "builtins", "numbers", "fractions")):
            raise MergeFail(R.sites(), "constructing %r under a guard" % (c,))
    if _qk(c):
        args, kw = [_conc(a) for a in args], {k: _conc(v) for k, v in kw.items()}
    base = _snap() if R.guards else None
    o = c(*args, **kw)
    if base is not None and not isinstance(o, (int, str, float, tuple)):
        R.obj_base[id(o)] = (o, base)
    return o


def _str_method(s, f, args, kw):
    n = f.__name__
    if n == "join" and args:
        a = args[0]
        if type(a) is GList:
            a = a.resolved()
        elif not isinstance(a, (list, tuple)):
            a = list(a)
        if any(isinstance(x, Sym) for x in a):
            return join(s, a)
        return f(a)
    if n == "format" and _deepsym(args, kw):
        return _format(s, args, kw)
    if _deepsym(args, kw):
        if n in ("split", "count", "replace", "startswith", "endswith", "find", "index", "strip"):
            args = [a.concrete() if isinstance(a, Sym) else a for a in args]
            return f(*args, **kw)
    r = f(*args, **kw)
    return SList(r) if type(r) is list else r


def _format(s, args, kw):
    import string

    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            return s.format(*[a.concrete() if isinstance(a, Sym) else a for a in args], **kw)
        out.append(format_one(v, spec) if not conv else format(str(v), spec))
    return join("", out)
