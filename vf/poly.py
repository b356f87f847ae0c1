"""Exact polynomials over Q as scalars of numpy object arrays, with forking comparisons.

`P` values live inside object arrays, so that the real array code (numpy slicing, ufuncs,
in-place updates) runs unchanged on symbolic data.  Identities are decided by normal form;
comparisons that the normal form does not settle fork the path explorer of vf.sym."""

from fractions import Fraction

import numpy as np
import z3

from . import sym
from .sym import Unsupported


def frac(x):
    return sym._frac(x)


class P:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    # ------------------------------------------------------------- construction
    @staticmethod
    def const(x):
        x = Fraction(x) if isinstance(x, int) else frac(x)
        return P({(): x} if x else {})

    @staticmethod
    def var(name):
        return P({(name,): Fraction(1)})

    @staticmethod
    def lift(o):
        if isinstance(o, P):
            return o
        if isinstance(o, (bool, int, float, Fraction, np.number)) and not isinstance(o, np.complexfloating):
            return P.const(o.item() if isinstance(o, np.generic) else o)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return P.lift(o.item())
        return None

    # ------------------------------------------------------------- ring
    def _add(self, o, s):
        o = P.lift(o)
        if o is None:
            return NotImplemented
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + s * c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return P(d)

    def __add__(self, o): return self._add(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._add(o, -1)
    def __rsub__(self, o): return (-self)._add(o, 1)
    def __neg__(self): return P({m: -c for m, c in self.d.items()})
    def __pos__(self): return self

    def __mul__(self, o):
        o = P.lift(o)
        if o is None:
            return NotImplemented
        if not self.d or not o.d:
            return P()
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = tuple(sorted(m + n)) if m and n else m or n
                v = d.get(k, 0) + c * e
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
        return P(d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = P.lift(o)
        if o is None:
            return NotImplemented
        if set(o.d) == {()}:
            return self * (1 / o.d[()])
        raise Unsupported("division by a symbolic polynomial")

    def __rtruediv__(self, o):
        if set(self.d) == {()}:
            return P.lift(o) * (1 / self.d[()])
        raise Unsupported("division by a symbolic polynomial")

    def __pow__(self, n):
        if isinstance(n, (int, np.integer)) and n >= 0:
            r = P.const(1)
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported("power of a polynomial")

    def conjugate(self): return self
    conj = conjugate
    @property
    def real(self): return self
    @property
    def imag(self): return P()

    # ------------------------------------------------------------- comparisons
    def is_const(self):
        return not self.d or set(self.d) == {()}

    def z3(self):
        t = z3.RealVal(0)
        ts = []
        for m, c in self.d.items():
            u = z3.RealVal(str(c))
            for v in m:
                u = u * z3.Real(v)
            ts.append(u)
        return z3.Sum(ts) if ts else t

    def _cmp(self, o, f, g):
        o2 = P.lift(o)
        if o2 is None:
            if isinstance(o, float):    # inf / nan
                return g(0.0, o)
            return NotImplemented
        d = self - o2
        if d.is_const():
            return g(d.d.get((), Fraction(0)), 0)
        return sym.SymBool(f(d.z3(), z3.RealVal(0)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def _no(self, what):
        raise Unsupported(f"symbolic polynomial used as {what}")

    def __float__(self):
        if self.is_const():
            return float(self.d.get((), 0))
        self._no("a float")

    def __int__(self):
        if self.is_const():
            return int(self.d.get((), 0))
        self._no("an int")

    def __index__(self):
        v = self.d.get((), Fraction(0))
        if self.is_const() and v.denominator == 1:
            return int(v)
        self._no("an index")

    def __repr__(self):
        return "Poly(" + (" + ".join(f"{c}*{'*'.join(m)}" if m else str(c) for m, c in sorted(self.d.items())) or "0") + ")"

    # ------------------------------------------------------------- structure
    def split(self, is_atom):
        """Group by the sub-monomial of atoms: {atom monomial: coefficient polynomial}."""
        out = {}
        for m, c in self.d.items():
            a = tuple(v for v in m if is_atom(v))
            s = tuple(v for v in m if not is_atom(v))
            out.setdefault(a, {})[s] = c
        return {a: P(d) for a, d in out.items()}


def arr(stem, shape):
    """Object array of fresh polynomial variables."""
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = P.var(stem + "[" + ",".join(map(str, idx)) + "]")
    return out


def diff_terms(got, want):
    """List of nonzero difference polynomials of two arrays (or scalars)."""
    g, w = np.broadcast_arrays(np.asarray(got, dtype=object), np.asarray(want, dtype=object))
    out = []
    for idx in np.ndindex(*g.shape):
        d = (P.lift(g[idx]) if P.lift(g[idx]) is not None else _bad(g[idx])) - w[idx]
        if d.d:
            out.append((idx, d))
    return out


def _bad(x):
    raise Unsupported(f"unexpected value {type(x).__name__} in symbolic data")
