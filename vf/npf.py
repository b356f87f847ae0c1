"""Symbolic facade for the `numpy` global (and a few builtins) of the modules under contract.

While a contract executes, the name `np` in the module of the function under contract is
rebound to `NP()`.  Every attribute not defined here is numpy's own; the ones defined here
accept symbolic scalars (object arrays) and vectors of symbolic length (`SVec`), and their
meaning is numpy's documented one on mathematical integers/reals.
"""

import contextlib
import builtins
import math
import numbers
import numpy as real_np
import z3

from . import sym
from .sym import (SymInt, SymReal, SymBool, Unsupported, ctx, is_sym, to_int, to_real, to_bool, wrap, ite)


def has_sym(x, depth=0):
    if is_sym(x) or isinstance(x, SVec) or getattr(x, "_vf_symbolic", False):
        return True
    if isinstance(x, real_np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(v, depth + 1) for v in x)
    return False


def named_floordiv(a, b):
    """a // b for b > 0 through named quotient/remainder (keeps products of symbols linear)."""
    c = ctx()
    if not is_sym(a) and not is_sym(b):
        return a // b
    if not is_sym(b) and b == 1:
        return a
    at, bt = to_int(a), to_int(b)
    if not is_sym(b):
        return wrap(at / bt)
    memo = c.__dict__.setdefault("_divs", {})
    k = (at.get_id(), bt.get_id())
    if k not in memo:
        if not c.entails(bt > 0):
            return sym.floordiv(a, b)
        q, r = z3.Int(c.fresh("q")), z3.Int(c.fresh("r"))
        c.assume(z3.And(at == bt * q + r, 0 <= r, r < bt))
        memo[k] = (q, r, at, bt)
    return SymInt(memo[k][0])


class SVec:
    """1-D vector of symbolic length: element i is fn(i) for 0 <= i < n."""

    __array_ufunc__ = None
    _vf_symbolic = True
    ndim = 1

    def __init__(self, n, fn, dtype=None):
        self.n = n
        self.fn = fn
        self.dtype = dtype

    # shape ------------------------------------------------------------
    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __len__(self):
        if is_sym(self.n):
            raise Unsupported("len() of a symbolic-length vector")
        return self.n

    def __iter__(self):
        if is_sym(self.n):
            try:
                n = self.n.__index__()
            except Unsupported:
                raise Unsupported("iteration over a vector of symbolic length")
        else:
            n = self.n
        return iter([self.fn(i) for i in range(n)])

    def at(self, i):
        return self.fn(i)

    # elementwise --------------------------------------------------------
    def _zip(self, o, op):
        if isinstance(o, SVec):
            n = self.n
            c = ctx()
            if not (not is_sym(n) and not is_sym(o.n) and n == o.n):
                c.require("operands of elementwise arithmetic have equal length", sym.eq(n, o.n))
            return SVec(n, lambda i: op(self.fn(i), o.fn(i)))
        if is_sym(o) or isinstance(o, numbers.Number):
            return SVec(self.n, lambda i: op(self.fn(i), o))
        if isinstance(o, real_np.ndarray) and o.ndim == 0:
            return self._zip(o.item(), op)
        raise Unsupported(f"SVec arithmetic with {type(o).__name__}")

    def __add__(self, o): return self._zip(o, lambda a, b: a + b)
    def __radd__(self, o): return self._zip(o, lambda a, b: b + a)
    def __sub__(self, o): return self._zip(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._zip(o, lambda a, b: b - a)
    def __mul__(self, o): return self._zip(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._zip(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._zip(o, lambda a, b: a / b)
    def __floordiv__(self, o): return self._zip(o, lambda a, b: named_floordiv(a, b))
    def __mod__(self, o): return self._zip(o, lambda a, b: a - named_floordiv(a, b) * b)
    def __neg__(self): return SVec(self.n, lambda i: -self.fn(i))
    def __abs__(self): return SVec(self.n, lambda i: abs(self.fn(i)))
    def __lt__(self, o): return self._zip(o, lambda a, b: a < b)
    def __le__(self, o): return self._zip(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._zip(o, lambda a, b: a > b)
    def __ge__(self, o): return self._zip(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._zip(o, lambda a, b: a == b)
    def __ne__(self, o): return self._zip(o, lambda a, b: a != b)
    __hash__ = object.__hash__

    def astype(self, dt, **k):
        return self

    def copy(self):
        return SVec(self.n, self.fn)

    def ravel(self):
        return self

    def tolist(self):
        return list(self)

    def _minmax(self, name):
        """min/max of a vector: a fresh value constrained by its definition.

        Monotone vectors (the only ones that arise) are decided: if fn is provably
        nondecreasing the extremes are the end elements."""
        c = ctx()
        i = z3.Int(c.fresh("mono"))
        vi, vj = self.fn(SymInt(i)), self.fn(SymInt(i + 1))
        c.require("min/max of a nonempty vector", sym.to_int(self.n) > 0)
        # facts created while building vi, vj are part of the context
        hyp = z3.And(i >= 0, i + 1 < to_int(self.n))
        d = sym.poly_simplify(to_real(vj) - to_real(vi))
        if not ((z3.is_rational_value(d) and d.as_fraction() >= 0) or c.entails(z3.Implies(hyp, d >= 0))):
            raise Unsupported("min/max of a vector not known to be monotone")
        return self.fn(0) if name == "min" else self.fn(self.n - 1)

    def min(self): return self._minmax("min")
    def max(self): return self._minmax("max")

    # indexing --------------------------------------------------------
    def __getitem__(self, k):
        n = self.n
        c = ctx()
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            lo, hi, st = norm_slice(k, n)
            if st == 1:
                m = sym.sym_max(hi - lo, 0)
                return SVec(m, lambda i: self.fn(lo + i))
            fn = self.fn
            return SVec(slice_len(lo, hi, st), lambda i: fn(lo + i * st))
        if isinstance(k, SVec):
            return SVec(k.n, lambda i: self[k.fn(i)])
        if sym._isint(k):
            if not is_sym(k) and k < 0:
                k = n + k
            elif is_sym(k) and not c.entails(to_int(k) >= 0):
                if bool(k < 0):
                    k = n + k
            c.require("index in range", z3.And(to_int(k) >= 0, to_int(k) < to_int(n)))
            return self.fn(k)
        raise Unsupported(f"SVec index {type(k).__name__}")

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        old, n = self.fn, self.n
        val = v.fn if isinstance(v, SVec) else (lambda i: v)
        if not isinstance(v, SVec) and not is_sym(v) and not isinstance(v, numbers.Number):
            raise Unsupported(f"assignment of {type(v).__name__} to SVec")
        if not isinstance(k, slice):
            if isinstance(v, SVec) or not sym._isint(k):
                raise Unsupported("SVec assignment")
            if not is_sym(k) and k < 0:
                k = n + k
            ctx().require("index in range", z3.And(to_int(k) >= 0, to_int(k) < to_int(n)))
            self.fn = lambda i: ite_lazy(i == k, v, old(i))
            return
        lo, hi, st = norm_slice(k, n)
        if st <= 0:
            raise Unsupported("assignment to a reversed slice")
        m = slice_len(lo, hi, st)
        if isinstance(v, SVec):
            ctx().require("assigned vector has the length of the slice", sym.eq(m, v.n))

        def fn(i):
            d = to_int(i) - to_int(lo)
            inside = z3.And(d >= 0, d % st == 0, d / st < to_int(m))
            return ite_lazy(SymBool(z3.simplify(inside)), val(wrap(d / st)), old(i))
        self.fn = fn

    def __repr__(self):
        return f"SVec(n={self.n})"


def norm_slice(k, n):
    """Python slice semantics on length n with symbolic bounds; returns lo, hi, step (lo/hi clamped)."""
    st = 1 if k.step is None else k.step
    if is_sym(st):
        st = st.__index__()
    if st == 0:
        raise ValueError("slice step cannot be zero")

    def clamp(v, lo, hi):
        if v is None:
            return None
        if is_sym(v) or is_sym(n):
            w = ite(_lt(v, 0), v + n, v) if (is_sym(v) or v < 0) else v
            w = sym.sym_max(w, lo)
            w = sym.sym_min(w, hi)
            return w
        w = v + n if v < 0 else v
        return min(max(w, lo), hi)
    if st > 0:
        lo = clamp(k.start, 0, n) if k.start is not None else 0
        hi = clamp(k.stop, 0, n) if k.stop is not None else n
    else:
        lo = clamp(k.start, -1, n - 1) if k.start is not None else n - 1
        hi = clamp(k.stop, -1, n - 1) if k.stop is not None else -1
    return lo, hi, st


def _lt(a, b):
    return a < b


def slice_len(lo, hi, st):
    """Number of elements of range(lo, hi, st) (lo, hi clamped)."""
    if st == 1:
        return sym.sym_max(hi - lo, 0)
    if st > 0:
        d = hi - lo
        return ite_lazy(d > 0, (d + (st - 1)) // st, 0)
    d = lo - hi
    return ite_lazy(d > 0, (d + (-st - 1)) // (-st), 0)


def ite_lazy(cnd, a, b):
    if isinstance(cnd, (bool, real_np.bool_)):
        return a if cnd else b
    return ite(cnd, a, b)


def _dt(args, k):
    """dtype arguments: the facade classes for int/float stand for the builtins."""
    fix = lambda d: int if d is FInt else float if d is FFloat else d
    args = tuple(fix(a) for a in args)
    if "dtype" in k:
        k = dict(k, dtype=fix(k["dtype"]))
    return args, k


def obj(a):
    return real_np.asarray(a, dtype=object)


class NP:
    """numpy with symbolic arguments allowed."""

    def __getattr__(self, name):
        return getattr(real_np, name)

    # construction ----------------------------------------------------
    def array(self, a, *args, **k):
        args, k = _dt(args, k)
        if isinstance(a, SVec):
            return a
        if has_sym(a):
            return real_np.array(a, dtype=object)
        return real_np.array(a, *args, **k)

    def asarray(self, a, *args, **k):
        args, k = _dt(args, k)
        if isinstance(a, SVec):
            return a
        if has_sym(a):
            return real_np.asarray(a, dtype=object)
        return real_np.asarray(a, *args, **k)
    ascontiguousarray = asarray

    def zeros(self, shape=None, *a, **k):
        return self._filled(shape, 0, real_np.zeros, a, k)

    def ones(self, shape=None, *a, **k):
        return self._filled(shape, 1, real_np.ones, a, k)

    def empty(self, shape=None, *a, **k):
        return self._filled(shape, 0, real_np.zeros, a, k)

    def full(self, shape, v, *a, **k):
        out = real_np.empty(shape, dtype=object)
        out[...] = v
        return out

    def _filled(self, shape, v, f, a, k):
        a, k = _dt(a, k)
        if shape is None:
            shape = k.pop("shape")
        dt = a[0] if a else k.get("dtype", float)
        if real_np.dtype(dt) == bool:
            return f(shape, *a, **k)
        if has_sym(shape):
            if is_sym(shape) or len(shape) == 1:
                n = shape if is_sym(shape) else shape[0]
                return SVec(n, lambda i: v)
            raise Unsupported("array with several symbolic dimensions")
        out = real_np.empty(shape, dtype=object)
        out[...] = v
        return out

    def zeros_like(self, a, *args, **k):
        if isinstance(a, SVec):
            return SVec(a.n, lambda i: 0)
        if has_sym(a):
            return self.zeros(real_np.shape(a))
        return real_np.zeros_like(a, *args, **k)

    def arange(self, *a, **k):
        if not has_sym(a):
            return real_np.arange(*a, **k)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if is_sym(step) or step != 1:
            raise Unsupported("arange with a step on symbols")
        n = stop - start
        if not is_sym(n):
            n = max(n, 0)
        elif not ctx().entails(to_int(n) >= 0):
            n = sym.sym_max(n, 0)
        return SVec(n, lambda i: start + i)

    def repeat(self, v, k, axis=None):
        if isinstance(v, SVec) or is_sym(k):
            if not isinstance(v, SVec):
                v = _lift(v)
            return SVec(v.n * k, lambda i: v.fn(named_floordiv(i, k)))
        return real_np.repeat(v, k, axis=axis)

    def concatenate(self, vs, *a, **k):
        vs = list(vs)
        if not any(isinstance(v, SVec) for v in vs):
            return real_np.concatenate([obj(v) if has_sym(v) else v for v in vs], *a, **k)
        vs = [v if isinstance(v, SVec) else _lift(v) for v in vs]
        out = vs[-1]
        for v in reversed(vs[:-1]):
            def fn(i, v=v, rest=out):
                return ite_lazy(i < v.n, v.fn(i), rest.fn(i - v.n))
            out = SVec(v.n + out.n, fn)
        return out

    def tile(self, v, k):
        if isinstance(v, SVec) or is_sym(k):
            if not isinstance(v, SVec):
                v = _lift(v)
            n = v.n

            def f(i):
                if is_sym(n):
                    return v.fn(i - named_floordiv(i, n) * n)
                if n == 1:
                    return v.fn(0)
                return v.fn(i % n)
            return SVec(n * k, f)
        return real_np.tile(v, k)

    # scalar / elementwise ----------------------------------------------
    def _map1(self, x, f, g):
        if isinstance(x, SVec):
            return SVec(x.n, lambda i: f(x.fn(i)))
        if is_sym(x):
            return f(x)
        if isinstance(x, real_np.ndarray) and x.dtype == object:
            out = real_np.empty(x.shape, dtype=object)
            for i in real_np.ndindex(x.shape):
                out[i] = f(x[i])
            return out
        if isinstance(x, (list, tuple)) and has_sym(x):
            return self._map1(obj(x), f, g)
        return g(x)

    def _map2(self, x, y, f, g, out=None):
        if isinstance(x, SVec):
            return x._zip(y, f)
        if isinstance(y, SVec):
            return y._zip(x, lambda a, b: f(b, a))
        if has_sym(x) or has_sym(y):
            xb, yb = real_np.broadcast_arrays(obj(x), obj(y))
            r = real_np.empty(xb.shape, dtype=object)
            for i in real_np.ndindex(xb.shape):
                r[i] = f(xb[i], yb[i])
            if out is not None:
                out[...] = r
                return out
            return r[()] if r.ndim == 0 else r
        return g(x, y) if out is None else g(x, y, out=out)

    def minimum(self, x, y, out=None): return self._map2(x, y, sym.sym_min, real_np.minimum, out)
    def maximum(self, x, y, out=None): return self._map2(x, y, sym.sym_max, real_np.maximum, out)
    def ceil(self, x): return self._map1(x, sym.sym_ceil, real_np.ceil)
    def floor(self, x): return self._map1(x, sym.sym_floor, real_np.floor)
    def round(self, x, *a): return self._map1(x, sym.sym_round, lambda v: real_np.round(v, *a))
    around = round
    def rint(self, x): return self._map1(x, sym.sym_round, real_np.rint)
    def abs(self, x): return self._map1(x, abs, real_np.abs)
    absolute = abs
    fabs = abs
    def floor_divide(self, x, y): return self._map2(x, y, lambda a, b: a // b, real_np.floor_divide)
    def mod(self, x, y): return self._map2(x, y, lambda a, b: a % b, real_np.mod)
    def int32(self, x=0): return x if has_sym(x) else real_np.int32(x)
    def int64(self, x=0): return x if has_sym(x) else real_np.int64(x)

    def clip(self, v, a_min=None, a_max=None, **k):
        if "min" in k: a_min = k["min"]
        if "max" in k: a_max = k["max"]
        if has_sym(v) or has_sym(a_min) or has_sym(a_max):
            return self.minimum(self.maximum(v, a_min), a_max)
        return real_np.clip(v, a_min, a_max)

    def isfinite(self, x, *a, **k):
        if is_sym(x):
            return True        # symbolic reals are finite
        return real_np.isfinite(x, *a, **k)

    def isinf(self, x, *a, **k):
        return False if is_sym(x) else real_np.isinf(x, *a, **k)

    def isnan(self, x, *a, **k):
        return False if is_sym(x) else real_np.isnan(x, *a, **k)

    def isclose(self, *a, **k):
        if has_sym(a):
            raise Unsupported("isclose on symbols")
        return real_np.isclose(*a, **k)

    def prod(self, a, *args, **k):
        if isinstance(a, SVec):
            raise Unsupported("prod of SVec")
        if has_sym(a):
            return math.prod(list(real_np.ravel(obj(a))))
        return real_np.prod(a, *args, **k)

    def min(self, a, *args, **k):
        if isinstance(a, SVec):
            return a.min()
        if has_sym(a):
            return sym.facade_min(list(real_np.ravel(obj(a))))
        return real_np.min(a, *args, **k)
    amin = min

    def max(self, a, *args, **k):
        if isinstance(a, SVec):
            return a.max()
        if has_sym(a):
            return sym.facade_max(list(real_np.ravel(obj(a))))
        return real_np.max(a, *args, **k)
    amax = max

    def trim_zeros(self, a, trim="fb", **k):
        if has_sym(a):
            a = list(real_np.ravel(obj(a)))
            if "b" in trim.lower():
                while a and bool(a[-1] == 0):
                    a = a[:-1]
            if "f" in trim.lower():
                while a and bool(a[0] == 0):
                    a = a[1:]
            return obj(a) if a else real_np.array([], dtype=int)
        return real_np.trim_zeros(a, trim, **k)


def _lift(v):
    v = list(v)

    def f(i):
        r = v[-1]
        for j in range(len(v) - 2, -1, -1):
            r = ite_lazy(i == j, v[j], r)
        return r
    return SVec(len(v), f)


def facade_len(x):
    if isinstance(x, SVec):
        return x.n
    n = getattr(x, "_vf_len", None)
    if n is not None:
        return n()
    return builtins.len(x)


class _SymRange:
    def __init__(self, *a):
        self.a = a

    def __iter__(self):
        raise Unsupported("loop with a symbolic bound and no invariant")


def facade_range(*a):
    if any(is_sym(x) for x in a):
        try:
            return builtins.range(*[x.__index__() if is_sym(x) else x for x in a])
        except Unsupported:
            return _SymRange(*a)
    return builtins.range(*a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._base) or isinstance(x, cls._sym)

    def __call__(cls, *a):
        if a and isinstance(a[0], (SVec,)):
            return a[0]
        if a and is_sym(a[0]):
            return cls._conv(a[0])
        return cls._base(*a)


class FInt(metaclass=_IntMeta):
    _base = int
    _sym = SymInt
    _conv = staticmethod(sym.sym_trunc)


class FFloat(metaclass=_IntMeta):
    _base = float
    _sym = SymReal
    _conv = staticmethod(lambda x: SymReal(to_real(x)))


BUILTINS = {"len": facade_len, "min": sym.facade_min, "max": sym.facade_max, "range": facade_range}


class FMath:
    def __getattr__(self, n):
        return getattr(math, n)

    def ceil(self, x):
        return sym.sym_ceil(x)

    def floor(self, x):
        return sym.sym_floor(x)

    def prod(self, seq, start=1):
        return math.prod(seq, start=start)


@contextlib.contextmanager
def facade(*modules, np=None, extra=None, ints=True):
    """Rebind np/len/min/... in the globals of `modules` for the duration."""
    shim = np or NP()
    repl = {"np": shim, "numpy": shim, "math": FMath(), **BUILTINS}
    if ints:
        repl["int"] = FInt
        repl["float"] = FFloat
    if extra:
        repl.update(extra)
    saved = []
    missing = object()
    for m in modules:
        d = m.__dict__
        for k, v in repl.items():
            if k in ("np", "numpy", "math") and k not in d:
                continue
            saved.append((d, k, d.get(k, missing)))
            d[k] = v
    try:
        yield shim
    finally:
        for d, k, v in reversed(saved):
            if v is missing:
                d.pop(k, None)
            else:
                d[k] = v
