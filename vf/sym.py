"""Symbolic values and path-complete symbolic execution of real CPython code.

The function under contract is the function object imported from /repo on this
run: it is *called*, with symbolic values (z3 terms) in place of its inputs.
Every branch on a symbolic condition forks; `explore` re-executes the function
until all feasible paths have been covered, and hands each path (its path
condition, its result or its exception) to the contract, which turns the
postcondition into proof obligations.

Machine arithmetic: Python ints are mathematical integers (exact); floats are
treated as reals (an assumption that every evidence file repeats).
"""

import fractions
import numbers
import z3


class Unsupported(Exception):
    """The code left the verifier's language (never an alarm)."""


class Infeasible(Exception):
    """The current path contradicts an assumption (path is dropped)."""


class PathLimit(Unsupported):
    pass


_CTX = []


def ctx():
    if not _CTX:
        raise Unsupported("symbolic value used outside an exploration")
    return _CTX[-1]


class Ctx:

    def __init__(self, pre, prefix, timeout_ms):
        self.pre = list(pre)
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.facts = []          # path condition (z3 bools), in order
        self.side = []           # side obligations raised while executing: (name, pc, goal)
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.counter = 0
        for p in self.pre:
            self.solver.add(p)

    def pc(self):
        return self.pre + self.facts

    def feasible(self, t):
        r = self.solver.check(t)
        return r != z3.unsat

    def assume(self, t):
        if isinstance(t, SymBool):
            t = t.t
        if isinstance(t, bool):
            if not t:
                raise Infeasible()
            return
        self.facts.append(t)
        self.solver.add(t)

    def entails(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self.solver.check(z3.Not(t)) == z3.unsat

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            choice = self.prefix[i]
            forced = True
        else:
            can_t = self.feasible(t)
            can_f = self.feasible(z3.Not(t))
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f:
                choice = True
                self.pending.append(self.decisions + [False])
            else:
                choice = can_t
        self.decisions.append(choice)
        self.assume(t if choice else z3.Not(t))
        return choice

    def require(self, name, goal):
        """Side obligation: a precondition of an operation or callee contract."""
        if isinstance(goal, SymBool):
            goal = goal.t
        if goal is True:
            return
        self.side.append((name, self.pc(), goal))

    def fresh(self, stem):
        self.counter += 1
        return f"{stem}!{self.counter}"


class Path:
    def __init__(self, c, result, exc):
        self.ctx = c
        self.result = result
        self.exc = exc

    @property
    def pc(self):
        return self.ctx.pc()


def explore(fn, pre=(), max_paths=4000, timeout_ms=4000, allow=()):
    """Run fn() on every feasible path. Returns a list of Path.

    Exceptions of the types in `allow` are results; `Unsupported` propagates."""
    paths = []
    work = [[]]
    while work:
        prefix = work.pop()
        c = Ctx(pre, prefix, timeout_ms)
        _CTX.append(c)
        try:
            try:
                res, exc = fn(), None
            except Infeasible:
                work.extend(c.pending)
                continue
            except Unsupported:
                raise
            except Exception as e:
                if allow and isinstance(e, tuple(allow)):
                    res, exc = None, e
                elif isinstance(e, (TypeError, AttributeError, ValueError, NotImplementedError)) and _mentions_sym(e):
                    raise Unsupported(f"{type(e).__name__}: {e}") from e
                else:
                    res, exc = None, e
        finally:
            _CTX.pop()
        paths.append(Path(c, res, exc))
        work.extend(c.pending)
        if len(paths) > max_paths:
            raise PathLimit(f"more than {max_paths} paths")
    return paths


def _mentions_sym(e):
    s = str(e)
    return any(w in s for w in ("Sym", "RatFn", "facade", "LArr", "object arrays", "dtype('O')", "ufunc", "z3", "Expr"))


# --------------------------------------------------------------------------
# Scalars

def is_sym(x):
    return isinstance(x, (SymInt, SymReal, SymBool))


def _frac(x):
    """Exact value of a Python float, read as the simplest rational that rounds to it."""
    f = fractions.Fraction(x)
    for lim in (64, 10**4, 10**7):
        g = f.limit_denominator(lim)
        if float(g) == x:
            return g
    return f


def to_real(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.RealVal(int(x))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, numbers.Real):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant in real arithmetic")
        f = _frac(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if x.is_int() else x
    raise TypeError(f"cannot read {type(x).__name__} as a symbolic real (Sym)")


def to_int(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef) and x.is_int():
        return x
    raise TypeError(f"cannot read {type(x).__name__} as a symbolic int (Sym)")


def to_bool(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool,)) or type(x).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymInt):
        return x.t != 0
    raise TypeError(f"cannot read {type(x).__name__} as a symbolic bool (Sym)")


def _isint(x):
    return isinstance(x, (SymInt, SymBool)) or (isinstance(x, numbers.Integral))


def _isnum(x):
    return is_sym(x) or isinstance(x, (numbers.Real, fractions.Fraction))


def wrap(t):
    if isinstance(t, z3.BoolRef):
        return SymBool(t)
    if isinstance(t, z3.ArithRef):
        t = z3.simplify(t)
        if t.is_int():
            if z3.is_int_value(t):
                return t.as_long()
            return SymInt(t)
        return SymReal(t)
    return t


class SymBool:
    __slots__ = ("t",)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().decide(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, to_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, to_bool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, to_bool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        return SymBool(self.t == to_bool(o))

    def __ne__(self, o):
        return SymBool(self.t != to_bool(o))

    def __mul__(self, o):
        return SymInt(to_int(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return SymInt(to_int(self)) + o
    __radd__ = __add__

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"SymBool({self.t})"

    def logical_not(self):
        return ~self


class _Num:
    __slots__ = ("t",)

    def ravel(self):
        import numpy as np
        r = np.empty(1, dtype=object)
        r[0] = self
        return r

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def _pair(self, o):
        if isinstance(self, SymInt) and _isint(o):
            return self.t, to_int(o)
        return to_real(self), to_real(o)

    def _bin(self, o, op, swap=False):
        if not _isnum(o):
            return NotImplemented
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            return _inf_op(self, o, op, swap)
        a, b = self._pair(o)
        if swap:
            a, b = b, a
        return wrap(op(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def _truediv(self, a, b):
        c = ctx()
        if isinstance(b, float) and b in (float("inf"), float("-inf")):
            return 0.0
        if isinstance(a, float) and a in (float("inf"), float("-inf")):
            if bool(SymBool(to_real(b) == 0)):
                raise ZeroDivisionError("division by zero")
            return a if bool(SymBool(to_real(b) > 0)) else -a
        bt = to_real(b)
        if not c.entails(bt != 0):
            if not bool(SymBool(bt != 0)):
                raise ZeroDivisionError("division by zero")
        return wrap(to_real(a) / bt)

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self._truediv(self, o)

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self._truediv(o, self)

    def __floordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self - floordiv(self, o) * o

    def __rmod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return o - floordiv(o, self) * self

    def __divmod__(self, o):
        q = floordiv(self, o)
        return q, self - q * o

    def __rdivmod__(self, o):
        q = floordiv(o, self)
        return q, o - q * self

    def __pow__(self, n):
        if isinstance(n, numbers.Integral) and n >= 0:
            r = 1
            for _ in range(int(n)):
                r = self * r
            return r
        if isinstance(n, numbers.Integral):
            return 1 / (self ** (-int(n)))
        raise Unsupported("symbolic power")

    def _cmp(self, o, op):
        if not _isnum(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return op(0.0, o)
        a, b = self._pair(o)
        r = z3.simplify(op(a, b))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SymBool(r)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ctx().decide(self.t != 0)

    # numpy's object-dtype loops call these as methods
    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def rint(self):
        return sym_round(self)

    def floor(self):
        return SymReal(z3.ToReal(to_int(sym_floor(self))))

    def ceil(self):
        return SymReal(z3.ToReal(to_int(sym_ceil(self))))

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return sym_ceil(self)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round to digits")
        return sym_round(self)

    def is_integer(self):
        if isinstance(self, SymInt):
            return True
        return SymBool(z3.IsInt(self.t))


def _inf_op(self, o, op, swap):
    """Extended-real arithmetic of a finite symbol with an infinite constant."""
    if o == o:
        probe = op(2.0, o) if not swap else op(o, 2.0)
        if probe != probe:
            return probe
        if op(1.0, 1.0) == 1.0 and op(2.0, 3.0) == 6.0:      # product: the sign of the symbol decides
            if bool(SymBool(to_real(self) == 0)):
                return float("nan")
            return o if bool(SymBool(to_real(self) > 0)) else -o
        return probe                                          # sums and differences
    raise Unsupported("arithmetic with a non-finite constant")


class SymInt(_Num):
    __slots__ = ()

    def __index__(self):
        c = ctx()
        if c.solver.check() != z3.sat:
            raise Infeasible()
        v = c.solver.model().eval(self.t, model_completion=True)
        if c.entails(self.t == v):
            return v.as_long()
        raise Unsupported("a symbolic SymInt was used where a machine integer is needed")

    def __int__(self):
        # int(SymInt) must return a python int: callers under contract use the facade `int`
        return self.__index__()

    def __float__(self):
        raise Unsupported("SymInt concretised to a machine float")

    def item(self):
        return self

    def astype(self, dt, **k):
        if _isint(self):
            return self
        if dt in (float, complex) or dt in ("float", "complex"):
            return self
        raise Unsupported("astype of a symbolic real")

    def __format__(self, spec):
        return str(self.t)


class SymReal(_Num):
    __slots__ = ()

    def __int__(self):
        raise Unsupported("int(SymReal): needs the facade `int`")

    def __float__(self):
        raise Unsupported("SymReal concretised to a machine float")

    def __format__(self, spec):
        return str(self.t)


def floordiv(a, b):
    c = ctx()
    if _isint(a) and _isint(b):
        at, bt = to_int(a), to_int(b)
        if c.entails(bt > 0):
            return wrap(at / bt)
        if c.entails(bt < 0):
            return wrap((-at) / (-bt))
        if bool(SymBool(bt == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bool(SymBool(bt > 0)):
            return wrap(at / bt)
        return wrap((-at) / (-bt))
    at, bt = to_real(a), to_real(b)
    if not c.entails(bt != 0):
        if not bool(SymBool(bt != 0)):
            raise ZeroDivisionError("float floor division by zero")
    return wrap(z3.ToReal(z3.ToInt(at / bt)))


def sym_floor(x):
    if _isint(x):
        return x
    if not is_sym(x):
        import math
        return math.floor(x)
    ip, fp = split_int(z3.simplify(to_real(x)))
    return wrap(ip + z3.ToInt(fp))


def split_int(r):
    """r = ip + fp with ip the integer-valued summands of the real term r (keeps integer reasoning bounded)."""
    r = z3.simplify(r, som=True)
    ip, fp = z3.IntVal(0), z3.RealVal(0)
    for t in (r.children() if z3.is_add(r) else [r]):
        if z3.is_to_real(t):
            ip = ip + t.arg(0)
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and z3.is_to_real(t.arg(1)) \
                and t.arg(0).denominator_as_long() == 1:
            ip = ip + t.arg(0).numerator_as_long() * t.arg(1).arg(0)
        else:
            fp = fp + t
    return z3.simplify(ip), z3.simplify(fp)


def sym_ceil(x):
    if _isint(x):
        return x
    if not is_sym(x):
        import math
        return math.ceil(x)
    return -sym_floor(-SymReal(to_real(x)))


def sym_round(x):
    """Round half to even (Python round / np.round)."""
    if _isint(x):
        return x
    if not is_sym(x):
        return round(x)
    r = z3.simplify(to_real(x))
    c = ctx()
    memo = c.__dict__.setdefault("_rounds", {})
    if r.get_id() not in memo:
        # named rounding: |r - n| <= 1/2, ties to the even integer
        ip, fp = split_int(r)
        k, m = z3.Int(c.fresh("rnd")), z3.Int(c.fresh("rndh"))
        half = z3.RealVal("1/2")
        d = fp - z3.ToReal(k)
        n = z3.simplify(ip + k)
        c.assume(z3.And(d <= half, d >= -half, z3.Implies(z3.Or(d == half, d == -half), n == 2 * m)))
        memo[r.get_id()] = (n, r)
    return SymInt(memo[r.get_id()][0])


def sym_trunc(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return wrap(to_int(x))
    if isinstance(x, SymReal):
        r = x.t
        return wrap(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    return int(x)


def sym_min(*a):
    r = a[0]
    for x in a[1:]:
        r = ite(le(x, r), x, r) if (is_sym(x) or is_sym(r)) else min(r, x)
    return r


def sym_max(*a):
    r = a[0]
    for x in a[1:]:
        r = ite(le(r, x), x, r) if (is_sym(x) or is_sym(r)) else max(r, x)
    return r


def le(a, b):
    return a <= b


def ite(cond, a, b):
    if isinstance(cond, (bool,)):
        return a if cond else b
    t = to_bool(cond)
    if _isint(a) and _isint(b):
        return wrap(z3.If(t, to_int(a), to_int(b)))
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(z3.If(t, to_bool(a), to_bool(b)))
    return wrap(z3.If(t, to_real(a), to_real(b)))


def Int(name):
    return SymInt(z3.Int(name))


def Real(name):
    return SymReal(z3.Real(name))


def Bool(name):
    return SymBool(z3.Bool(name))


def And(*a):
    return z3.And(*[to_bool(x) if not isinstance(x, z3.BoolRef) else x for x in a])


def Or(*a):
    return z3.Or(*[to_bool(x) if not isinstance(x, z3.BoolRef) else x for x in a])


def Not(a):
    return z3.Not(to_bool(a))


def Implies(a, b):
    return z3.Implies(to_bool(a), to_bool(b))


def eq(a, b):
    """z3 equality of two numeric values (symbolic or not)."""
    if _isint(a) and _isint(b):
        return to_int(a) == to_int(b)
    return to_real(a) == to_real(b)


# builtins for code under contract whose int()/min()/max()/round()/range() may meet symbols
def facade_int(x=0, *a):
    if is_sym(x):
        return sym_trunc(x)
    return int(x, *a)


def facade_min(*a, **k):
    seq = a if len(a) > 1 else list(a[0])
    if any(is_sym(x) for x in seq):
        return sym_min(*seq)
    return min(*a, **k)


def facade_max(*a, **k):
    seq = a if len(a) > 1 else list(a[0])
    if any(is_sym(x) for x in seq):
        return sym_max(*seq)
    return max(*a, **k)


def facade_abs(x):
    return abs(x)


def facade_float(x=0.0):
    if is_sym(x):
        return SymReal(to_real(x))
    return float(x)


class Scaled:
    """c * S**d for a fixed positive unit S and a symbolic/real c: exact arithmetic in units of S.

    Comparisons of equal powers of S > 0 are comparisons of the coefficients."""
    __array_ufunc__ = None
    _vf_symbolic = True

    def __init__(self, c, d=1):
        self.c, self.d = c, d

    @staticmethod
    def _lift(o):
        if isinstance(o, Scaled):
            return o
        if _isnum(o):
            return Scaled(o, 0)
        raise Unsupported(f"Scaled with {type(o).__name__}")

    @staticmethod
    def _make(c, d):
        return c if d == 0 else Scaled(c, d)

    def _same(self, o):
        o = Scaled._lift(o)
        if o.d != self.d:
            if not is_sym(o.c) and o.c == 0:
                return Scaled(0, self.d)
            raise Unsupported("sum or comparison of different powers of the unit")
        return o

    def __add__(self, o): return Scaled._make(self.c + self._same(o).c, self.d)
    __radd__ = __add__
    def __sub__(self, o): return Scaled._make(self.c - self._same(o).c, self.d)
    def __rsub__(self, o): return Scaled._make(self._same(o).c - self.c, self.d)
    def __neg__(self): return Scaled(-self.c, self.d)
    def __abs__(self): return Scaled(abs(self.c), self.d)

    def __mul__(self, o):
        o = Scaled._lift(o)
        return Scaled._make(self.c * o.c, self.d + o.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Scaled._lift(o)
        return Scaled._make(_realdiv(self.c, o.c), self.d - o.d)

    def __rtruediv__(self, o):
        return Scaled._lift(o) / self

    def __floordiv__(self, o):
        q = self / o
        if isinstance(q, Scaled):
            raise Unsupported("floor of a dimensional quantity")
        return wrap(z3.ToReal(to_int(sym_floor(q))))

    def __mod__(self, o):
        return self - (self // o) * o

    def __lt__(self, o): return self.c < self._same(o).c
    def __le__(self, o): return self.c <= self._same(o).c
    def __gt__(self, o): return self.c > self._same(o).c
    def __ge__(self, o): return self.c >= self._same(o).c
    def __eq__(self, o): return self.c == self._same(o).c
    def __ne__(self, o): return self.c != self._same(o).c
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self.c != 0)

    def __repr__(self):
        return f"Scaled({self.c}, {self.d})"


def _realdiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return fractions.Fraction(a) / fractions.Fraction(b)
    return a / b


def poly_simplify(t):
    """Sum-of-monomials form of a z3 arithmetic term, treating non-arithmetic subterms as atoms.
    Valid rewriting only (used to help the solver; the result is equal to t)."""
    atoms = {}

    def ab(e):
        if z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e) or e.decl().kind() == z3.Z3_OP_UMINUS:
            return e.decl()(*[ab(c) for c in e.children()]) if e.num_args() <= 2 else _fold(e, [ab(c) for c in e.children()])
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            inner = ab(e.arg(0))
            return z3.ToReal(inner) if z3.is_int(inner) else inner
        if z3.is_const(e):
            return e
        k = e.get_id()
        if k not in atoms:
            atoms[k] = (e, z3.FreshConst(e.sort(), "at"))
        return atoms[k][1]

    def _fold(e, ch):
        r = ch[0]
        for c in ch[1:]:
            r = r * c if z3.is_mul(e) else r - c if z3.is_sub(e) else r + c
        return r
    r = z3.simplify(ab(t), som=True, mul_to_power=False)
    return z3.substitute(r, *[(v, e) for e, v in atoms.values()]) if atoms else r
