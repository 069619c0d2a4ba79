"""numpy arrays with symbolic elements.

A SymArray is an object array; elementwise operations, reductions and the functions that look for
true elements are given by the operations of the elements.  Element *values* are exact integers,
truth values or reals; the width of a numpy dtype is not modelled.
"""
import operator

import numpy as np

from .core import (
    R, Sym, SBool, SInt, SReal, SStr, SList, GList, MergeFail, Unsupported, CannotMerge,
    band, bor, bnot, bxor, bite, to_bexpr, veq, has_sym, ite_value, merge_or_fail, index_value,
)

__verif_model__ = True
SITE = "np-guarded"


def _atom(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _lists(x):
    """Nested Python lists of x's elements."""
    if type(x) is GList:
        x = x.resolved()
    if isinstance(x, np.ndarray):
        return _lists(x.tolist()) if x.ndim else x.item()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple, range)) or type(x).__name__ in ("generator", "map", "zip", "filter", "list_iterator", "reversed", "list_reverseiterator", "dict_values", "dict_keys"):
        return [_lists(v) for v in x]
    return x


def _shape(x):
    if not isinstance(x, list):
        return ()
    if not x:
        return (0,)
    inner = [_shape(v) for v in x]
    if any(s != inner[0] for s in inner):
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    return (len(x),) + inner[0]


def _fill(x, a):
    if a.ndim == 1:
        for i, v in enumerate(x):
            a[i] = v
    else:
        for v, b in zip(x, a):
            _fill(v, b)


def _cast(dtype):
    from . import rt

    if dtype is None or dtype is object:
        return None
    if isinstance(dtype, str) and dtype[:1] in "U<" and "U" in dtype:
        return rt.to_str
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        raise Unsupported("array of %r" % (dtype,))
    c = {"i": rt._b_int, "u": rt._b_int, "b": rt._b_bool, "f": rt._b_float, "U": rt.to_str, "O": None}.get(k, False)
    if c is False:
        raise Unsupported("array of %r" % (dtype,))
    return c


def symarr(x, dtype=None, **kw):
    """np.array(x, dtype) for an x with symbolic elements."""
    l = _lists(x)
    if not has_sym(l):
        return np.array(l, dtype=dtype)
    if not isinstance(l, list):
        c = _cast(dtype)
        return _atom(l if c is None else c(l)).view(SymArray)
    a = np.empty(_shape(l), dtype=object)
    if a.size:
        _fill(l, a)
    c = _cast(dtype)
    if c is not None:
        a = _map(c, a)
    return a.view(SymArray)


def _map(f, *arrays):
    return np.frompyfunc(f, len(arrays), 1)(*arrays)


def _plain(x):
    """x as a plain ndarray (object where it is symbolic)."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (np.ndarray, np.generic)):
        return x
    if has_sym(x):
        r = symarr(x)
        return r.view(np.ndarray) if isinstance(r, SymArray) else r
    return x


def _wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r.item()
            return r.view(SymArray)
    elif isinstance(r, tuple):
        return tuple(_wrap(v) for v in r)
    elif type(r) is list:
        return [_wrap(v) for v in r]
    return r


def _isb(v):
    return isinstance(v, (bool, SBool, np.bool_))


def _num(v):
    return v.i() if type(v) is SBool else int(v) if isinstance(v, bool) else v


def _log(f):
    return lambda *a: SBool.mk(f(*[to_bexpr(v) for v in a]))


def _add(a, b):
    return SBool.mk(bor(to_bexpr(a), to_bexpr(b))) if _isb(a) and _isb(b) else a + b


def _inv(a):
    return SBool.mk(bnot(to_bexpr(a))) if _isb(a) else ~a


def _bitop(f, g):
    def h(a, b):
        if _isb(a) and _isb(b):
            return SBool.mk(f(to_bexpr(a), to_bexpr(b)))
        return g(_num(a), _num(b))

    return h


def _pick(less):
    def f(a, b):
        c = to_bexpr(b < a if less else b > a)
        try:
            return ite_value(c, b, a)
        except CannotMerge:
            return b if R.branch(c) else a

    return f


def _rt(name):
    def f(*a):
        from . import rt

        return getattr(rt, name)(*a)

    return f


def _eqop(a, b):
    r = _rt("eq")(a, b)
    return r


PY = {
    np.add: _add, np.subtract: operator.sub, np.multiply: operator.mul, np.floor_divide: operator.floordiv,
    np.remainder: operator.mod, np.power: operator.pow, np.true_divide: operator.truediv,
    np.bitwise_and: _bitop(band, operator.and_), np.bitwise_or: _bitop(bor, operator.or_),
    np.bitwise_xor: _bitop(bxor, operator.xor), np.invert: _inv,
    np.left_shift: operator.lshift, np.right_shift: operator.rshift,
    np.equal: _eqop, np.not_equal: _rt("ne"),
    np.less: operator.lt, np.less_equal: operator.le, np.greater: operator.gt, np.greater_equal: operator.ge,
    np.logical_and: _log(band), np.logical_or: _log(bor), np.logical_xor: _log(bxor), np.logical_not: _log(bnot),
    np.negative: operator.neg, np.positive: operator.pos, np.absolute: _rt("_b_abs"),
    np.maximum: _pick(False), np.minimum: _pick(True), np.square: lambda v: v * v,
    np.log: _rt("_m_log"), np.log1p: _rt("_m_log1p"), np.floor: _rt("_m_floor"),
    np.sign: lambda v: (v > 0).i() - (v < 0).i() if isinstance(v, Sym) else (v > 0) - (v < 0),
}
IDENT = {
    np.add: 0, np.multiply: 1, np.bitwise_or: 0, np.bitwise_xor: 0, np.logical_or: False, np.logical_and: True,
    np.logical_xor: False,
}


def _fold(f, vals, ufunc, initial):
    it = iter(vals)
    if initial is not None:
        r = initial
    else:
        r = next(it, None)
        if r is None:
            if ufunc not in IDENT:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % ufunc.__name__)
            return IDENT[ufunc]
        if ufunc in (np.logical_or, np.logical_and, np.logical_xor):
            r = SBool.mk(to_bexpr(r))
        elif ufunc in (np.add, np.multiply):
            r = _num(r)
    for v in it:
        r = f(r, v)
    return r


def _reduce(ufunc, f, a, axis=0, keepdims=False, initial=None, where=True, dtype=None, out=None):
    if where is not True or out is not None:
        raise Unsupported("np.%s.reduce with where/out" % ufunc.__name__)
    if initial is np._NoValue:
        initial = None
    if ufunc is np.add:
        f = operator.add
        a = _map(_num, a) if a.size else a
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    if axis is None:
        axis = tuple(range(a.ndim))
    axes = tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = tuple(i for i in range(a.ndim) if i not in axes)
    m = np.transpose(a, rest + axes).reshape(tuple(a.shape[i] for i in rest) + (-1,)) if a.size else np.empty(tuple(a.shape[i] for i in rest) + (0,), dtype=object)
    if not rest:
        r = _fold(f, m.tolist(), ufunc, initial)
        if keepdims:
            return _atom(r).reshape((1,) * a.ndim)
        return r
    o = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = _fold(f, m[i].tolist(), ufunc, initial)
    if keepdims:
        o = o.reshape(tuple(1 if i in axes else n for i, n in enumerate(a.shape)))
    return o


def _accumulate(ufunc, f, a, axis=0, dtype=None, out=None):
    if out is not None:
        raise Unsupported("accumulate into an array")
    if ufunc is np.add:
        f = operator.add
    m = np.moveaxis(a, axis, 0)
    o = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape[1:]):
        r = None
        for n in range(m.shape[0]):
            v = _num(m[(n,) + i])
            r = v if n == 0 else f(r, v)
            o[(n,) + i] = r
    return np.moveaxis(o, 0, axis)


def _store(a, k, val):
    """a[k] = val where this region runs."""
    if not isinstance(a, SymArray):
        if R.guards:
            raise MergeFail(R.sites(), "item store into an array under a guard")
        v = _plain(val)
        if isinstance(v, np.ndarray) and v.dtype == object and a.dtype != object:
            v = _map(lambda x: x.concrete() if isinstance(x, Sym) and hasattr(x, "concrete") else bool(x) if type(x) is SBool else float(x) if isinstance(x, Sym) else x, v)
        np.ndarray.__setitem__(a, k, v)
        return
    b = a.view(np.ndarray)
    v = _plain(val)
    if R.guards:
        g = R.guard()
        old = b[k]
        f = lambda x, y: merge_or_fail(g, x, y, R.sites())
        if isinstance(old, np.ndarray):
            v = _map(f, np.broadcast_to(np.asarray(v, dtype=object), old.shape), old)
        else:
            v = f(v.item() if isinstance(v, np.ndarray) else v, old)
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    b[k] = v


def _key(k):
    """An index numpy understands (choosing values where it must)."""
    if type(k) is GList:
        return k.resolved()
    if isinstance(k, SymArray):
        l = k.tolist()
        fl = k.ravel().tolist()
        c = [bool(v) if _isb(v) else (v.concrete() if isinstance(v, Sym) else int(v)) for v in fl]
        if all(isinstance(v, bool) for v in c):
            return np.array(c, dtype=bool).reshape(k.shape)
        return np.array([int(v) for v in c], dtype=int).reshape(k.shape)
    if isinstance(k, Sym):
        return k.concrete()
    if isinstance(k, tuple):
        return tuple(_key(v) for v in k)
    if isinstance(k, list) and has_sym(k):
        return _key(symarr(k))
    if isinstance(k, slice):
        return slice(*[p.concrete() if isinstance(p, Sym) else p for p in (k.start, k.stop, k.step)])
    return k


def glist(items):
    """Elements an array has under guards, or, where the code does arithmetic on it, one array per path."""
    if SITE in R.forkonly or all(g is True or g is False for g, _ in items):
        return np.array([v for g, v in items if R.branch(g)]) if any(not isinstance(v, Sym) for _, v in items) or not items else symarr([v for g, v in items if R.branch(g)])
    l = GList.of(items)
    l.isarr = True
    return l


class SymArray(np.ndarray):
    __verif_model__ = True

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        f = PY.get(ufunc)
        ins = [_plain(x) for x in inputs]
        if f is None:
            try:
                r = getattr(ufunc, method)(*ins, **kw)
            except TypeError as e:
                raise Unsupported("np.%s of symbolic values: %s" % (ufunc.__name__, e))
            if out is not None:
                _store(out[0], Ellipsis, r)
                return out[0]
            return _wrap(r)
        if method == "__call__":
            if kw.get("where", True) is not True:
                raise Unsupported("np.%s with where" % ufunc.__name__)
            r = _map(f, *ins)
            if out is not None:
                _store(out[0], Ellipsis, r)
                return out[0]
            return _wrap(r)
        if method == "reduce":
            return _wrap(_reduce(ufunc, f, *ins, out=out[0] if out and out[0] is not None else None, **{k: v for k, v in kw.items() if k != "out"}))
        if method == "accumulate":
            return _wrap(_accumulate(ufunc, f, *ins, out=out[0] if out and out[0] is not None else None, **kw))
        if method == "outer":
            a, b = np.asarray(ins[0]), np.asarray(ins[1])
            return _wrap(_map(f, a.reshape(a.shape + (1,) * b.ndim), b))
        raise Unsupported("np.%s.%s of symbolic values" % (ufunc.__name__, method))

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        return _wrap(super().__array_function__(func, (SymArray, np.ndarray), args, kwargs))

    def __getitem__(self, k):
        b = self.view(np.ndarray)
        if isinstance(k, list) and type(k) is not GList and has_sym(k):
            k = symarr(k)
        if isinstance(k, SymArray):
            fl = k.ravel().tolist()
            if k.ndim == 1 and all(_isb(v) for v in fl) and len(fl) == len(b):
                if b.ndim == 1:
                    return glist([(to_bexpr(c), v) for c, v in zip(fl, b.tolist())])
            elif b.ndim == 1 and k.ndim == 1:
                return symarr([index_value(b.tolist(), v) if isinstance(v, Sym) else b[v] for v in fl])
        if isinstance(k, SInt) and b.ndim == 1:
            return index_value(b.tolist(), k)
        return _wrap(b[_key(k)])

    def __setitem__(self, k, v):
        _store(self, _key(k), v)

    def __iter__(self):
        return iter([_wrap(v) for v in self.view(np.ndarray)])

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return R.branch(to_bexpr(self.item()))

    def __contains__(self, x):
        return bool(np.any(self == x))

    def __reduce__(self):
        return (np.array, (self.tolist(),))

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, *a, **k):
        c = _cast(dtype)
        return self.copy() if c is None else _map(c, self.view(np.ndarray)).view(SymArray)

    def nonzero(self):
        return _nonzero(self)

    def max(self, axis=None, **k):
        return np.maximum.reduce(self, axis=axis, **k)

    def min(self, axis=None, **k):
        return np.minimum.reduce(self, axis=axis, **k)

    def argmax(self, axis=None, **k):
        return _argbest(self, axis, operator.gt)

    def argmin(self, axis=None, **k):
        return _argbest(self, axis, operator.lt)

    def any(self, axis=None, **k):
        return np.logical_or.reduce(self, axis=axis, **k)

    def all(self, axis=None, **k):
        return np.logical_and.reduce(self, axis=axis, **k)

    def sum(self, axis=None, dtype=None, **k):
        return np.add.reduce(self, axis=axis, **k)

    def dot(self, o):
        return np.dot(self, o)


def _arr(x):
    x = x if isinstance(x, np.ndarray) else symarr(x)
    return x.view(np.ndarray) if isinstance(x, SymArray) else x


def _argwhere(a):
    a = _arr(a)
    return glist([(to_bexpr(a[i]), np.array(i)) for i in np.ndindex(*a.shape)])


def _nonzero(a):
    a = _arr(a)
    ix = [(to_bexpr(a[i]), i) for i in np.ndindex(*a.shape)]
    if SITE in R.forkonly:
        ix = [(True, i) for g, i in ix if R.branch(g)]
    return tuple(glist([(g, np.int64(i[d])) for g, i in ix]) for d in range(a.ndim))


def _flatnonzero(a):
    return _nonzero(_arr(a).ravel())[0]


def _where(c, *xy):
    if not xy:
        return _nonzero(c)
    x, y = xy

    def f(c, a, b):
        g = to_bexpr(c)
        try:
            return ite_value(g, a, b)
        except CannotMerge:
            return a if R.branch(g) else b

    return _wrap(_map(f, _plain(c), _plain(x), _plain(y)))


def _count_nonzero(a, axis=None, **k):
    a = _arr(a)
    return np.add.reduce(_map(lambda v: SInt.from_lin(0, [(1, to_bexpr(v))]), a).view(SymArray), axis=axis)


def _array_equal(a, b, **k):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return False
    return SBool.mk(band(*[to_bexpr(_eqop(x, y)) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())]))


def _argbest(a, axis, better):
    a = _arr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmax along an axis")
    vals = a.ravel().tolist()
    n, best = 0, vals[0]
    for i, v in enumerate(vals[1:], 1):
        c = to_bexpr(better(v, best))
        n = ite_value(c, i, n)
        best = ite_value(c, v, best)
    return n


def _diff(a, n=1, axis=-1, **k):
    a = _arr(a)
    m = np.moveaxis(a, axis, 0)
    for _ in range(n):
        m = _map(lambda x, y: SBool.mk(bxor(to_bexpr(x), to_bexpr(y))) if _isb(x) and _isb(y) else x - y, m[1:], m[:-1])
    return _wrap(np.moveaxis(m, 0, axis))


FUNCS = {
    np.argwhere: _argwhere, np.nonzero: _nonzero, np.flatnonzero: _flatnonzero, np.where: _where,
    np.count_nonzero: _count_nonzero, np.array_equal: _array_equal, np.diff: _diff,
    np.argmax: lambda a, axis=None, **k: _argbest(a, axis, operator.gt),
    np.argmin: lambda a, axis=None, **k: _argbest(a, axis, operator.lt),
    np.any: lambda a, axis=None, **k: np.logical_or.reduce(_arr(a).view(SymArray), axis=axis),
    np.all: lambda a, axis=None, **k: np.logical_and.reduce(_arr(a).view(SymArray), axis=axis),
    np.sum: lambda a, axis=None, **k: np.add.reduce(_arr(a).view(SymArray), axis=axis),
    np.prod: lambda a, axis=None, **k: np.multiply.reduce(_arr(a).view(SymArray), axis=axis),
    np.max: lambda a, axis=None, **k: np.maximum.reduce(_arr(a).view(SymArray), axis=axis),
    np.min: lambda a, axis=None, **k: np.minimum.reduce(_arr(a).view(SymArray), axis=axis),
}
MAKE = {np.array, np.asarray, np.fromiter, np.asanyarray, np.ascontiguousarray}
# functions without effects, and methods
PURE = {
    "array", "asarray", "asanyarray", "zeros", "ones", "full", "empty", "arange", "eye", "zeros_like", "ones_like",
    "array_equal", "argwhere", "nonzero", "flatnonzero", "where", "count_nonzero", "any", "all", "sum", "prod", "diff",
    "argmax", "argmin", "max", "min", "argsort", "concatenate", "stack", "vstack", "hstack", "append", "insert", "flip",
    "reshape", "transpose", "dot", "cumsum", "round", "around", "tolist", "item", "astype", "copy", "ravel", "flatten",
    "take", "mean", "reduce", "accumulate", "outer", "searchsorted", "isclose", "unique", "ndindex",
}


def npfn(f):
    """Is f a numpy function, or a method of an array?"""
    if isinstance(f, np.ufunc) or type(f).__name__ == "_ArrayFunctionDispatcher":
        return True
    s = getattr(f, "__self__", None)
    if isinstance(s, (np.ufunc, np.ndarray)):
        return True
    return not isinstance(f, type) and (getattr(f, "__module__", None) or "").split(".")[0] == "numpy"


def pure(f):
    return isinstance(f, np.ufunc) or getattr(f, "__name__", "") in PURE


def call(f, args, kw):
    """A numpy function, on arguments that hold symbolic values."""
    if R.guards and not pure(f):
        raise MergeFail(R.sites(), "call of %r under a guard" % (f,))
    if f in MAKE:
        if f is np.fromiter:
            args, kw = args[:2], {k: v for k, v in kw.items() if k == "dtype"}
        return symarr(args[0], *(args[1:2] or (kw.get("dtype"),)))

    def conv(v):
        if isinstance(v, np.ndarray) or not (isinstance(v, (list, tuple, Sym)) and has_sym(v)):
            return v
        if isinstance(v, (list, tuple)) and type(v) is not GList and any(isinstance(x, np.ndarray) for x in v):
            return type(v)([conv(x) for x in v]) if type(v) is tuple else [conv(x) for x in v]
        return symarr(v)

    h = None
    try:
        h = FUNCS.get(f)
    except TypeError:
        pass
    args = tuple(conv(a) for a in args)
    kw = {k: conv(v) for k, v in kw.items()}
    if h is not None:
        return h(*args, **kw)
    r = f(*args, **kw)
    return _wrap(r)


def ite_arrays(c, a, b):
    return _wrap(_map(lambda x, y: ite_value(c, x, y), _plain(a), _plain(b)))
