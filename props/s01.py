"""S01: spectral operator matrices act exactly as the operators they stand for.

Contracts (core/basis.py, core/operators.py)
  AffineCOV: native_coord and problem_coord are inverse affine maps taking bounds to bounds (any bounds).
  Fourier group matrices (Differentiate, Integrate, Average, ConvertConstant; real and complex): for every
     wavenumber, stretch, coefficient and point, the matrix applied to the coefficients gives the coefficients of
     the operator applied to the function the documentation gives for the modes.
  Fourier interpolation: entry j of the row is mode j at the native position, for every size and mode j.
  native wavenumbers: entry j for every size.
  product_matrix: entry (r, c) is the coefficient of mode r in (mode i)*(mode c), for every size, i, r, c, any mode order.
  Jacobi matrices: the polynomial matrices of N02 with the parameters of input and output basis and the factor of the
     change of variables; output bases have the parameters of the matrix.
  SpectralOperator1D.subproblem_matrix: Kronecker factors are (components and axes before, axis, axes after), any sizes.
  SpectralOperator1D.operate / subspace_matrix: applied along the axis of the basis, offset by the tensor rank.
Bounded: all operators through the public API against exact differentiation, integration and evaluation of the
series, matrix form against direct evaluation, distributed restrictions of the matrices.
"""

import itertools
import math
import types

import numpy as np
import z3

from vf import sym, npf, alg
from vf.sym import Int, Real, SymInt, SymReal, SymBool, Unsupported, ctx, to_int, to_real, to_bool, wrap
from vf.npf import SVec
from props.n02 import takes, ref_polys

BS = "core/basis.py"
OP = "core/operators.py"
S = types.SimpleNamespace


# ------------------------------------------------------------------ helpers

def raw(f):
    """The function under a cache, static or class method wrapper."""
    while True:
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        elif hasattr(f, "function") and callable(getattr(f, "function")):
            f = f.function
        elif hasattr(f, "func") and callable(getattr(f, "func")):
            f = f.func
        else:
            return f


def attr(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return raw(c.__dict__[name])
    raise Unsupported(name)


def normal_int(x):
    """Integer-sorted term equal to x: rationals of the form k*w/w."""
    if not sym.is_sym(x):
        return x
    t = z3.simplify(to_real(x))
    return t


class SNP(npf.NP):
    """Elementwise functions as named functions of their argument; index sets of intersect1d as relations."""
    pi = Real("pi")

    def __init__(self):
        self.cosf = z3.Function("cos", z3.RealSort(), z3.RealSort())
        self.sinf = z3.Function("sin", z3.RealSort(), z3.RealSort())

    def _fun(self, x, f, g):
        if isinstance(x, SVec):
            return SVec(x.n, lambda i: f(x.fn(i)))
        if sym.is_sym(x):
            return f(x)
        return g(x)

    def cos(self, x, *a, **k):
        return self._fun(x, lambda v: SymReal(self.cosf(arg_nf(v))), np.cos)

    def sin(self, x, *a, **k):
        return self._fun(x, lambda v: SymReal(self.sinf(arg_nf(v))), np.sin)

    def exp(self, x, *a, **k):
        if isinstance(x, SVec):
            return SVec(x.n, lambda i: self.exp(x.fn(i)))
        if isinstance(x, Cplx):
            if not z3.is_true(z3.simplify(to_real(x.re) == 0)):
                raise Unsupported("exponential of a complex number")
            return Cplx(SymReal(self.cosf(arg_nf(x.im))), SymReal(self.sinf(arg_nf(x.im))))
        return np.exp(x)

    def round(self, x, *a):
        return self._fun(x, exact_round, np.round)
    rint = around = round

    def intersect1d(self, a, b, assume_unique=False, return_indices=False):
        if not return_indices or not (isinstance(a, SVec) or isinstance(b, SVec)):
            raise Unsupported("intersect1d")
        a, b = (v if isinstance(v, SVec) else npf._lift(v) for v in (a, b))
        for v in (a, b):
            p, q = z3.Int(ctx().fresh("p")), z3.Int(ctx().fresh("q"))
            with_hyp = z3.And(0 <= p, p < to_int(v.n), 0 <= q, q < to_int(v.n), to_int(v.fn(SymInt(p))) == to_int(v.fn(SymInt(q))))
            ctx().require("intersect1d gets distinct values", z3.Implies(with_hyp, p == q))
        rel = Rel(a, b)
        return None, Idx(rel, 0), Idx(rel, 1)

    def ones_like(self, a, *args, **k):
        if isinstance(a, Idx):
            return Dat(a.rel, 1)
        return super().ones_like(a, *args, **k) if hasattr(npf.NP, "ones_like") else np.ones_like(a, *args, **k)

    def concatenate(self, vs, *a, **k):
        vs = list(vs)
        if any(isinstance(v, (Idx, Dat, Cat)) for v in vs):
            return Cat(vs)
        return super().concatenate(vs, *a, **k)


def arg_nf(v):
    return z3.simplify(to_real(v), som=True)


def exact_round(x):
    """Round of a term that is an integer for every scale factor."""
    if not sym.is_sym(x):
        return round(x)
    t = to_real(x)
    w = z3.Real("w")
    t1 = z3.simplify(z3.substitute(t, (w, z3.RealVal(1))))
    if not alg.is_zero(t - t1)[0]:
        raise Unsupported("rounding of a non-integer")
    i = as_int(t1)
    return SymInt(i)


def as_int(t):
    if z3.is_rational_value(t):
        if t.denominator_as_long() != 1:
            raise Unsupported("rounding of a fraction")
        return z3.IntVal(t.numerator_as_long())
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_int(t):
        return t
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
        a = [as_int(c) for c in t.children()]
        r = a[0]
        for c in a[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r - c if k == z3.Z3_OP_SUB else r * c
        return r
    if k == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), as_int(t.arg(1)), as_int(t.arg(2)))
    raise Unsupported("rounding of a term of unknown sort")


class Cplx:
    """Complex scalar re + i*im with symbolic parts."""
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, Cplx):
            return x
        if isinstance(x, complex):
            return Cplx(x.real, x.imag)
        return Cplx(x, 0)

    def __mul__(self, o):
        if isinstance(o, SVec):
            return NotImplemented
        o = Cplx.of(o)
        return Cplx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __add__(self, o):
        o = Cplx.of(o)
        return Cplx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return Cplx(-self.re, -self.im)


class CVec(SVec):
    """Vector whose products with complex scalars are complex."""

    def _zip(self, o, op):
        if isinstance(o, (complex, Cplx)):
            return CVec(self.n, lambda i: op(Cplx.of(self.fn(i)), o))
        r = super()._zip(o, op)
        return CVec(r.n, r.fn)


class Rel:
    """Pairs (p, q) of indices with a[p] == b[q]."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def member(self, p, q):
        return z3.And(0 <= p, p < to_int(self.a.n), 0 <= q, q < to_int(self.b.n),
                      to_int(self.a.fn(SymInt(p))) == to_int(self.b.fn(SymInt(q))))


class Idx:
    """mul*(row or column of the pair) + add, one per pair of the relation."""
    __array_ufunc__ = None

    def __init__(self, rel, which, mul=1, add=0):
        self.rel, self.which, self.m, self.a = rel, which, mul, add

    def __mul__(self, k):
        return Idx(self.rel, self.which, self.m * k, self.a * k)
    __rmul__ = __mul__

    def __add__(self, k):
        return Idx(self.rel, self.which, self.m, self.a + k)
    __radd__ = __add__

    def __sub__(self, k):
        return self + (-k)


class Dat:
    __array_ufunc__ = None

    def __init__(self, rel, v):
        self.rel, self.v = rel, v

    def __truediv__(self, k):
        return Dat(self.rel, self.v / k)

    def __mul__(self, k):
        return Dat(self.rel, self.v * k)
    __rmul__ = __mul__

    def __neg__(self):
        return Dat(self.rel, -self.v)


class Cat:
    """Concatenation of index or data parts, with a selection predicate (on rows/columns) applied to all of them."""
    __array_ufunc__ = None

    def __init__(self, parts, keep=None):
        self.parts, self.keep = list(parts), keep

    def _cmp(self, op):
        return ("keep", self, op)

    def __lt__(self, n): return Keep(self, lambda x: x < to_int(n))
    def __le__(self, n): return Keep(self, lambda x: x <= to_int(n))
    def __ge__(self, n): return Keep(self, lambda x: x >= to_int(n))

    def __getitem__(self, k):
        if not isinstance(k, Keep):
            raise Unsupported("selection")
        return Cat(self.parts, k)


class Keep:
    def __init__(self, cat, pred):
        self.parts, self.pred = cat.parts, pred


class Mat:
    """Matrix by entries: entry(r, c) for 0 <= r, c < shape."""

    def __init__(self, shape, entry):
        self.shape, self.entry = shape, entry

    tocsr = tocsc = tocoo = copy = lambda self: self


class SparseE:
    """scipy.sparse constructors by their documented entries."""

    def eye(self, n, m=None, **k):
        return Mat((n, n if m is None else m), lambda r, c: z3.If(r == c, z3.RealVal(1), z3.RealVal(0)))
    identity = eye

    def csr_matrix(self, a, shape=None, **k):
        if isinstance(a, tuple) and len(a) == 2 and not isinstance(a[1], tuple):
            return Mat(a, lambda r, c: z3.RealVal(0))
        return self.coo_matrix(a, shape, **k)
    csc_matrix = csr_matrix

    def coo_matrix(self, a, shape=None, **k):
        data, (rows, cols) = a
        if not isinstance(data, Cat):
            data, rows, cols = Cat([data]), Cat([rows]), Cat([cols])
        keeps = {id(x.keep) for x in (data, rows, cols)}
        if len(keeps) != 1 or not (len(data.parts) == len(rows.parts) == len(cols.parts)):
            raise Unsupported("selection of the parts of a matrix")
        triples = []
        for n, (d, r, c) in enumerate(zip(data.parts, rows.parts, cols.parts)):
            if not (isinstance(d, Dat) and isinstance(r, Idx) and isinstance(c, Idx)) or not (d.rel is r.rel is c.rel) or {r.which, c.which} != {0, 1}:
                raise Unsupported("matrix entries")
            if r.which != 0:
                raise Unsupported("row index of the second argument")
            sel = None
            if data.keep is not None:
                sel = (data.keep.parts[n], data.keep.pred)
            triples.append((d, r, c, sel))

        def chosen(t, p, q):
            d, r, c, sel = t
            m = d.rel.member(p, q)
            if sel is not None:
                x = sel[0]
                m = z3.And(m, sel[1]((p if x.which == 0 else q) * x.m + x.a))
            return m
        for t in triples:
            p, q = z3.Int(ctx().fresh("p")), z3.Int(ctx().fresh("q"))
            rr, cc = p * t[1].m + t[1].a, q * t[2].m + t[2].a
            ctx().require("entries lie inside the matrix", z3.Implies(chosen(t, p, q), z3.And(rr >= 0, rr < to_int(shape[0]), cc >= 0, cc < to_int(shape[1]))))

        def entry(r, c):
            tot = z3.RealVal(0)
            for t in triples:
                d, ri, ci, _ = t
                p, q = (r - ri.a) / ri.m, (c - ci.a) / ci.m
                ok = z3.And((r - ri.a) % ri.m == 0, (c - ci.a) % ci.m == 0, chosen(t, p, q))
                tot = tot + z3.If(ok, to_real(d.v), z3.RealVal(0))
            return tot
        return Mat(shape, entry)

    def __getattr__(self, n):
        raise Unsupported(f"sparse.{n}")


def sides(chk, func, p, replay=None, prefix=""):
    for name, pc, goal in p.ctx.side:
        g = goal if isinstance(goal, z3.BoolRef) else z3.BoolVal(bool(goal))
        chk.obl(prefix + name, func, pc, g, replay=replay)


# ------------------------------------------------------------------ change of variables

def cov(chk, bs):
    func = f"{BS}: AffineCOV"

    def body():
        nl, nr, pl, pr, x = (Real(n) for n in ("native_left", "native_right", "left", "right", "x"))
        pre = [nr.t > nl.t, pr.t > pl.t]
        rp = takes(lambda m=None: find_cov(bs))

        def run():
            C = bs.AffineCOV((nl, nr), (pl, pr))
            return C, C.native_coord(x), C.problem_coord(x), C.problem_coord(C.native_coord(x)), C.native_coord(C.problem_coord(x))
        with npf.facade(bs):
            ps = sym.explore(run, pre)
        for p in ps:
            if p.exc:
                raise Unsupported(repr(p.exc))
            C, n, q, back, fwd = p.result
            r = to_real
            pc = p.pc
            chk.obl("stretch is the ratio of the lengths", func, pc, r(C.stretch) * (nr.t - nl.t) == pr.t - pl.t, replay=rp)
            chk.obl("length of the interval", func, pc, r(C.problem_length) == pr.t - pl.t, replay=rp)
            for nm, v, goal in (("native_coord", n, (r(n) - nl.t) * (pr.t - pl.t) == (x.t - pl.t) * (nr.t - nl.t)),
                                ("problem_coord", q, (r(q) - pl.t) * (nr.t - nl.t) == (x.t - nl.t) * (pr.t - pl.t)),
                                ("problem after native", back, r(back) == x.t), ("native after problem", fwd, r(fwd) == x.t)):
                chk.obl(f"{nm} is the affine map of the bounds", func, pc, goal, replay=rp)
        for names, k in ((("left", "lower"), 0), (("right", "upper"), 1), (("center", "middle"), 2)):
            for s in names:
                with npf.facade(bs):
                    ps = sym.explore(lambda: (lambda C: (C.native_coord(s), C.problem_coord(s)))(bs.AffineCOV((nl, nr), (pl, pr))), pre)
                for p in ps:
                    if p.exc:
                        chk.ground(f"position {s}", func, False, f"{p.exc!r}", replay=rp)
                        continue
                    want = [(nl.t, pl.t), (nr.t, pr.t), ((nl.t + nr.t) / 2, (pl.t + pr.t) / 2)][k]
                    chk.obl(f"position {s}", func, p.pc, z3.And(to_real(p.result[0]) == want[0], to_real(p.result[1]) == want[1]), replay=rp)
    chk.contract("affine change of variables", func, body)


def find_cov(bs):
    for nb, pb in itertools.product([(-1, 1), (0, 2 * np.pi)], [(0, 1), (-3, 5.5), (2, 2.25), (-7, -1)]):
        C = bs.AffineCOV(nb, pb)
        for t in (0, 0.25, 0.5, 1, 1.5):
            n, p = nb[0] + t * (nb[1] - nb[0]), pb[0] + t * (pb[1] - pb[0])
            if abs(C.native_coord(p) - n) > 1e-12 or abs(C.problem_coord(n) - p) > 1e-12:
                return {"bounds": (nb, pb), "position": t, "native": float(C.native_coord(p)), "problem": float(C.problem_coord(n))}
        for k, ss in enumerate((("left", "lower"), ("right", "upper"), ("center", "middle"))):
            for s in ss:
                t = (0, 1, 0.5)[k]
                if abs(C.native_coord(s) - nb[0] - t * (nb[1] - nb[0])) > 1e-12 or abs(C.problem_coord(s) - pb[0] - t * (pb[1] - pb[0])) > 1e-12:
                    return {"bounds": (nb, pb), "position": s}
        if abs(C.stretch * (nb[1] - nb[0]) - (pb[1] - pb[0])) > 1e-12:
            return {"stretch": C.stretch, "bounds": (nb, pb)}
    return None


# ------------------------------------------------------------------ Fourier group matrices

def cmat(M):
    """Object or numeric array -> rows of (re, im) z3 terms."""
    M = np.asarray(M)
    out = []
    for row in M:
        out.append([(to_real(Cplx.of(v if not isinstance(v, np.generic) else v.item()).re), to_real(Cplx.of(v if not isinstance(v, np.generic) else v.item()).im)) for v in row])
    return M.shape, out


class CInt(SymInt):
    """Symbolic integer whose products with Python complex numbers are complex."""
    __slots__ = ()


def csym(stem):
    return Real(stem)


def groups(chk, bs):
    """Group matrices against the functions the modes stand for."""
    g = Int("group")
    s, L = Real("stretch"), Real("length")
    C, Sn = z3.Real("cos_at_x"), z3.Real("sin_at_x")    # cos(kx), sin(kx) at an arbitrary point x, k = group/stretch
    pre = [s.t > 0, L.t > 0, C * C + Sn * Sn == 1]
    ZERO, ONE = z3.RealVal(0), z3.RealVal(1)
    k = z3.ToReal(g.t) / s.t
    # modes at x as (re, im): value, derivative in x
    real_modes = [((C, ZERO), (-k * Sn, ZERO)), ((-Sn, ZERO), (-k * C, ZERO))]
    cplx_modes = [((C, Sn), (-k * Sn, k * C))]
    kinds = {"RealFourier": real_modes, "ComplexFourier": cplx_modes}
    mul = lambda a, b: (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
    add = lambda a, b: (a[0] + b[0], a[1] + b[1])
    same = lambda a, b: z3.And(a[0] == b[0], a[1] == b[1])

    def call(name, cls, grp, assume):
        basis = S(COV=S(stretch=s, problem_length=L), constant_mode_value=1)
        none = None
        args = (none, basis) if name == "ConvertConstant" else (basis, none) if name in ("Integrate", "Average") else (basis, basis)
        fn = attr(getattr(bs, name + cls), "_group_matrix")
        with npf.facade(bs):
            return sym.explore(lambda: fn(grp, *args), pre + assume, allow=(ValueError,))

    for cls, modes in kinds.items():
        n = len(modes)
        rp = takes(lambda m=None, cls=cls: find_ops(cls))
        zero_modes = [((ONE, ZERO),), ((ZERO, ZERO),)][:n]

        def differentiate(cls=cls, modes=modes, n=n, rp=rp):
            func = f"{BS}: Differentiate{cls}._group_matrix"
            for p in call("Differentiate", cls, SymCg(g.t), []):
                if p.exc:
                    raise Unsupported(repr(p.exc))
                shape, M = cmat(p.result)
                chk.ground("shape of the group matrix", func, shape == (n, n), f"{shape}", replay=rp)
                if shape != (n, n):
                    continue
                for j in range(n):
                    # image of mode j: sum_i M[i][j] mode_i(x) == d/dx mode_j(x), for every x
                    tot = (ZERO, ZERO)
                    for i in range(n):
                        tot = add(tot, mul(M[i][j], modes[i][0]))
                    chk.obl(f"derivative of mode {j} of every group", func, p.pc, same(tot, modes[j][1]), replay=rp)
        chk.contract(f"Differentiate{cls}", f"{BS}: Differentiate{cls}._group_matrix", differentiate)

        def reduce_(name, value, cls=cls, n=n, rp=rp):
            func = f"{BS}: {name}{cls}._group_matrix"
            for p in call(name, cls, SymCg(g.t), []):
                z = g.t == 0
                if p.exc:
                    # only refused for groups whose integral vanishes and that have no output
                    chk.obl("refused for nonzero groups only", func, p.pc, z3.Not(z), replay=rp)
                    continue
                shape, M = cmat(p.result)
                chk.ground("shape of the group matrix", func, shape == (1, n), f"{shape}", replay=rp)
                if shape != (1, n):
                    continue
                # integral of cos(kx) over the interval is its length at k = 0; all other modes integrate to zero
                want = [(z3.If(z, value, 0), ZERO)] + [(ZERO, ZERO)] * (n - 1)
                for j in range(n):
                    chk.obl(f"mode {j} of every group", func, p.pc, same(M[0][j], want[j]), replay=rp)
        chk.contract(f"Integrate{cls}", f"{BS}: Integrate{cls}._group_matrix", lambda: reduce_("Integrate", L.t))
        chk.contract(f"Average{cls}", f"{BS}: Average{cls}._group_matrix", lambda: reduce_("Average", ONE))

        def constant(cls=cls, n=n, rp=rp):
            func = f"{BS}: ConvertConstant{cls}._group_matrix"
            for p in call("ConvertConstant", cls, SymCg(g.t), []):
                z = g.t == 0
                if p.exc:
                    raise Unsupported(repr(p.exc))
                shape, M = cmat(p.result)
                if shape == (n, 1):
                    chk.obl("constants go to the zero group only", func, p.pc, z, replay=rp)
                    chk.obl("constant is the zero cosine or exponential", func, p.pc, same(M[0][0], (ONE, ZERO)), replay=rp)
                else:
                    chk.obl("every constant has an image", func, p.pc, z3.Not(z), replay=rp)
                    chk.ground("no columns elsewhere", func, shape == (n, 0), f"{shape}", replay=rp)
        chk.contract(f"ConvertConstant{cls}", f"{BS}: ConvertConstant{cls}._group_matrix", constant)


class SymCg(SymInt):
    """Group number whose quotients multiply with Python complex numbers."""
    __slots__ = ()

    def __truediv__(self, o):
        return SymCr(to_real(self) / to_real(o))


class SymCr(SymReal):
    __slots__ = ()

    def __mul__(self, o):
        if isinstance(o, complex):
            return Cplx(SymReal(self.t * to_real(o.real)), SymReal(self.t * to_real(o.imag)))
        r = super().__mul__(o)
        return SymCr(r.t) if isinstance(r, SymReal) else r

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return SymCr(-self.t)


# ------------------------------------------------------------------ wavenumbers, interpolation, products

def wavenumbers(chk, bs):
    for cls in ("RealFourier", "ComplexFourier"):
        func = f"{BS}: {cls}._native_wavenumbers"

        def body(cls=cls, func=func):
            n, j = Int("size"), Int("j")
            pre = [n.t >= 1, j.t >= 0, j.t < n.t] + ([n.t % 2 == 0] if cls == "RealFourier" else [])
            fn = attr(getattr(bs, cls), "_native_wavenumbers")
            rp = takes(lambda m=None: find_wavenumbers(bs, cls))
            with npf.facade(bs, np=SNP()):
                ps = sym.explore(lambda: (lambda v: (v, v.fn(j)))(fn(S(size=n))), pre)
            for p in ps:
                if p.exc:
                    raise Unsupported(repr(p.exc))
                v, e = p.result
                chk.obl("one wavenumber per mode", func, p.pc, to_int(v.n) == n.t, replay=rp)
                if cls == "RealFourier":
                    want = to_int(e) == j.t / 2
                else:
                    want = to_int(e) == z3.If(2 * j.t <= n.t, j.t, j.t - n.t)
                chk.obl("wavenumber of every mode", func, p.pc, want, replay=rp)
        chk.contract(f"wavenumbers of {cls}", func, body)


def find_wavenumbers(bs, cls):
    for n in range(1, 12):
        if cls == "RealFourier" and n % 2:
            continue
        k = attr(getattr(bs, cls), "_native_wavenumbers")(S(size=n))
        want = [j // 2 for j in range(n)] if cls == "RealFourier" else [j if 2 * j <= n else j - n for j in range(n)]
        if list(k) != want:
            return {"size": n, "wavenumbers": [int(x) for x in k], "expected": want}


def interpolation(chk, bs):
    for cls in ("RealFourier", "ComplexFourier"):
        func = f"{BS}: Interpolate{cls}._full_matrix"

        def body(cls=cls, func=func):
            n, j = Int("size"), Int("j")
            x = Real("native_position")
            K = z3.Function("k", z3.IntSort(), z3.IntSort())
            pre = [n.t >= 1, j.t >= 0, j.t < n.t] + ([n.t % 2 == 0] if cls == "RealFourier" else [])
            fn = attr(getattr(bs, "Interpolate" + cls), "_full_matrix")
            rp = takes(lambda m=None: find_ops(cls))
            npx = SNP()

            class V(CVec):
                def __getitem__(self, k):
                    if isinstance(k, tuple) and k[0] is None:
                        return ("row", self)
                    return super().__getitem__(k)

            class XNP(SNP):
                def zeros(self, shape=None, *a, **k):
                    r = super().zeros(shape, *a, **k)
                    return V(r.n, r.fn) if isinstance(r, SVec) else r

                def exp(self, v, *a, **k):
                    r = super().exp(v)
                    return V(r.n, r.fn) if isinstance(r, SVec) else r
            npx = XNP()

            def run():
                if cls == "RealFourier":
                    kf = lambda i: SymInt(K(to_int(i) / 2))
                else:
                    kf = lambda i: SymInt(K(to_int(i)))
                basis = S(size=n, native_wavenumbers=CVec(n, kf), COV=S(native_coord=lambda p: x if p == "position" else None))
                r = fn(basis, None, "position")
                if not (isinstance(r, tuple) and r[0] == "row"):
                    raise Unsupported("interpolation row")
                return r[1], r[1].fn(j), kf(j)
            with npf.facade(bs, np=npx):
                ps = sym.explore(run, pre)
            for p in ps:
                if p.exc:
                    raise Unsupported(repr(p.exc))
                v, e, kk = p.result
                chk.obl("one entry per mode", func, p.pc, to_int(v.n) == n.t, replay=rp)
                th = arg_nf(SymReal(z3.ToReal(kk.t) * x.t))
                c, s = npx.cosf(th), npx.sinf(th)
                if cls == "RealFourier":
                    even = K(j.t / 2)
                    chk.obl("entry of every mode is the mode at the position", func, p.pc, to_real(e) == z3.If(j.t % 2 == 0, c, -s), replay=rp)
                else:
                    e = Cplx.of(e)
                    chk.obl("entry of every mode is the mode at the position", func, p.pc, z3.And(to_real(e.re) == c, to_real(e.im) == s), replay=rp)
                sides(chk, func, p, rp)
        chk.contract(f"interpolation of {cls}", func, body)


def products(chk, bs):
    w = Real("w")    # 1/stretch
    n, i, r, c = Int("size"), Int("i"), z3.Int("r"), z3.Int("c")
    P = z3.Function("psi", z3.IntSort(), z3.IntSort())
    Pi = z3.Function("psi_index", z3.IntSort(), z3.IntSort())
    jj = z3.Int("jj")
    for cls, const in itertools.product(("RealFourier", "ComplexFourier"), (False, True)):
        func = f"{BS}: {cls}.product_matrix"

        def body(cls=cls, const=const, func=func):
            real = cls == "RealFourier"
            fn = attr(getattr(bs, cls), "product_matrix")
            half = n.t / 2 if real else n.t
            # groups in any order, each once; the real basis has nonnegative groups, the constant first
            axioms = [z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < half), Pi(P(jj)) == jj), patterns=[P(jj)])]
            if real:
                axioms += [P(0) == 0, z3.ForAll([jj], z3.Implies(jj >= 0, P(jj) >= 0), patterns=[P(jj)])]
            pre = [n.t >= (2 if real else 1), i.t >= 0, i.t < n.t, w.t > 0] + ([n.t % 2 == 0] if real else []) + axioms
            kap = (lambda t: P(t / 2)) if real else (lambda t: P(t))
            rp = takes(lambda m=None: find_product(bs, cls))
            npx = SNP()

            def run():
                def basis():
                    return S(size=n, wavenumbers=SVec(n, lambda q: SymReal(z3.ToReal(kap(to_int(q))) * w.t)),
                             native_wavenumbers=SVec(n, lambda q: SymInt(kap(to_int(q)))), COV=S(stretch=SymReal(1 / w.t)))
                b = basis()
                m = fn(b, None if const else b, b, i)
                if not isinstance(m, Mat):
                    raise Unsupported("product matrix")
                return m, m.entry(r, c)
            with npf.facade(bs, np=npx, extra={"sparse": SparseE()}):
                ps = sym.explore(run, pre)
                for p in ps:
                    if p.exc:
                        raise Unsupported(repr(p.exc))
                    M, with_entry = p.result
                    cols = z3.IntVal(1) if const else n.t
                    chk.obl("shape", func, p.pc, z3.And(to_int(M.shape[0]) == n.t, to_int(M.shape[1]) == cols), replay=rp)
                    hyp = p.pc + [r >= 0, r < n.t, c >= 0, c < cols]
                    kr, ki, kc = kap(r), kap(i.t), (z3.IntVal(0) if const else kap(c))
                    co = c % 2 if not const else z3.IntVal(0)
                    H, Z = z3.RealVal("1/2"), z3.RealVal(0)
                    if real:
                        # cos a cos b, cos a (-sin b), (-sin a)(-sin b) by product-to-sum
                        plus = z3.If(kr == ki + kc, H, Z)
                        d = z3.If(kr == z3.If(ki >= kc, ki - kc, kc - ki), H, Z)
                        sg = z3.If(ki > kc, d, z3.If(kc > ki, -d, Z))
                        want = z3.If(z3.And(i.t % 2 == 0, co == 0), z3.If(r % 2 == 0, plus + d, Z),
                                     z3.If(z3.And(i.t % 2 == 0, co == 1), z3.If(r % 2 == 1, plus - sg, Z),
                                           z3.If(z3.And(i.t % 2 == 1, co == 0), z3.If(r % 2 == 1, plus + sg, Z),
                                                 z3.If(r % 2 == 0, d - plus, Z))))
                        # modes -sin(0x) are the zero function: their rows and columns mean nothing
                        hyp = hyp + [z3.Not(z3.And(r % 2 == 1, kr == 0)), z3.Not(z3.And(co == 1, kc == 0)), z3.Not(z3.And(i.t % 2 == 1, ki == 0))]
                    else:
                        want = z3.If(kr == ki + kc, z3.RealVal(1), Z)
                    chk.obl("entry of every pair of modes", func, hyp, with_entry == want, replay=rp)
                    sides(chk, func, p, rp)
        chk.contract(f"product matrix of {cls}{' on constants' if const else ''}", func, body)


def find_product(bs, cls):
    from dedalus.core.coords import Coordinate
    real = cls == "RealFourier"
    for n in (2, 4, 6, 8, 10) if real else range(1, 9):
        b = getattr(bs, cls)(Coordinate("x"), n, bounds=(0.5, 4))
        k = [j // 2 for j in range(n)] if real else [j if 2 * j <= n else j - n for j in range(n)]
        xs = np.arange(4 * n + 3) * 2 * np.pi / (4 * n + 3)
        f = (lambda j: np.cos(k[j] * xs) if j % 2 == 0 else -np.sin(k[j] * xs)) if real else (lambda j: np.exp(1j * k[j] * xs))
        big = np.array([f(j) for j in range(n)])
        norm = np.array([(abs(v) ** 2).mean() for v in big])
        for const in (False, True):
            for i in range(n):
                try:
                    M = b.product_matrix(None if const else b, b, i).toarray()
                except Exception as e:
                    return {"basis": f"{cls}({n})", "mode": i, "constant argument": const, "error": f"{type(e).__name__}: {e}"}
                for c in range(1 if const else n):
                    arg = np.ones_like(xs) if const else big[c]
                    if abs(arg).max() < 1e-12 or abs(big[i]).max() < 1e-12:
                        continue
                    prod = big[i] * arg
                    want = np.array([(np.conj(v) * prod).mean() / nn if nn > 1e-12 else np.nan for v, nn in zip(big, norm)])
                    ok = np.isnan(want) | (abs(M[:, c] - np.nan_to_num(want)) < 1e-10)
                    if not ok.all():
                        return {"basis": f"{cls}({n})", "mode": i, "times mode": c, "constant argument": const,
                                "column": [complex(x) for x in M[:, c]], "expected": [complex(x) for x in want]}
    return None


# ------------------------------------------------------------------ Jacobi matrices

class JM:
    """A polynomial matrix by name, with its scale factor."""
    __array_ufunc__ = None

    def __init__(self, what, scale=1):
        self.what, self.scale = what, scale

    def __mul__(self, k):
        return JM(self.what, self.scale * k)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return JM(self.what, self.scale / k)

    def __getitem__(self, k):
        if k == (None, slice(None)):
            return JM(("row",) + self.what, self.scale)
        raise Unsupported("index")

    tocsr = tocsc = copy = lambda self: self


def jacobi_ops(chk, bs):
    a, b, da, db, s, L, pos, cm = (Real(x) for x in ("a", "b", "a_out", "b_out", "stretch", "length", "native_position", "constant_mode"))
    N = Int("N")
    pre = [N.t >= 1, a.t > -1, b.t > -1, s.t > 0, cm.t > 0]
    pre.append(L.t == 2 * s.t)
    J = S(conversion_matrix=lambda n, a0, b0, a1, b1: JM(("conversion", n, a0, b0, a1, b1)),
          differentiation_matrix=lambda n, a0, b0: JM(("differentiation", n, a0, b0)),
          build_polynomials=lambda n, a0, b0, x: JM(("polynomials", n, a0, b0, x)),
          integration_vector=lambda n, a0, b0: JM(("integration", n, a0, b0)),
          mass=lambda a0, b0: JM(("mass", a0, b0)))
    rp = takes(lambda m=None: find_ops("Jacobi"))

    def check(clsname, args, want, scale, func):
        fn = attr(getattr(bs, clsname), "_full_matrix")
        with npf.facade(bs, extra={"jacobi": J}):
            ps = sym.explore(lambda: fn(*args), pre)
        for p in ps:
            if p.exc:
                raise Unsupported(repr(p.exc))
            m = p.result
            if not isinstance(m, JM):
                raise Unsupported("matrix of another kind")
            w = m.what
            tags = [x for x in w if isinstance(x, str)]
            vals = [x for x in w if not isinstance(x, str)]
            wt = [x for x in want if isinstance(x, str)]
            wv = [x for x in want if not isinstance(x, str)]
            if tags != wt or len(vals) != len(wv):
                raise Unsupported(f"built from {tags}")
            chk.obl("parameters of the polynomial matrix", func, p.pc, z3.And(*[to_real(x) == to_real(y) for x, y in zip(vals, wv)]), replay=rp)
            chk.obl("factor of the change of variables", func, p.pc, to_real(m.scale) == to_real(scale), replay=rp)

    basis = S(size=N, a=a, b=b, COV=S(stretch=s, problem_length=L, native_coord=lambda p: pos), constant_mode_value=cm)
    out = S(size=N, a=da, b=db, COV=basis.COV)
    cases = [("ConvertJacobi", (basis, out), ("conversion", N, a, b, da, db), 1),
             ("DifferentiateJacobi", (basis, out), ("differentiation", N, a, b), SymReal(1 / s.t)),
             ("InterpolateJacobi", (basis, None, "position"), ("row", "polynomials", N, a, b, pos), 1),
             ("IntegrateJacobi", (basis, None), ("row", "integration", N, a, b), s),
             ("AverageJacobi", (basis, None), ("row", "integration", N, a, b), SymReal(z3.RealVal("1/2")))]
    for clsname, args, want, scale in cases:
        func = f"{BS}: {clsname}._full_matrix"
        chk.contract(clsname, func, lambda c=clsname, x=args, w=want, sc=scale, f=func: check(c, x, w, sc, f))

    def outputs():
        func = f"{BS}: Jacobi.derivative_basis"
        got = {}

        class B:
            pass
        o = B()
        o.a, o.b = a, b
        o.clone_with = lambda **kw: got.update(kw) or kw
        o.derivative_basis = lambda order=1: attr(bs.Jacobi, "derivative_basis")(o, order)
        k = Int("order")
        ps = sym.explore(lambda: dict(attr(bs.Jacobi, "derivative_basis")(o, k)), pre)
        for p in ps:
            if p.exc or set(p.result) != {"a", "b"}:
                raise Unsupported("derivative basis")
            chk.obl("derivatives raise both parameters by the order", func, p.pc, z3.And(to_real(p.result["a"]) == a.t + z3.ToReal(k.t), to_real(p.result["b"]) == b.t + z3.ToReal(k.t)), replay=rp)
        ps = sym.explore(lambda: dict(attr(bs.DifferentiateJacobi, "_output_basis")(o)), pre)
        for p in ps:
            if p.exc or set(p.result) != {"a", "b"}:
                raise Unsupported("output basis")
            chk.obl("output basis of a derivative", f"{BS}: DifferentiateJacobi._output_basis", p.pc, z3.And(to_real(p.result["a"]) == a.t + 1, to_real(p.result["b"]) == b.t + 1), replay=rp)
    chk.contract("output bases", f"{BS}: Jacobi.derivative_basis", outputs)

    def constant():
        func = f"{BS}: ConvertConstantJacobi._group_matrix"
        fn = attr(bs.ConvertConstantJacobi, "_group_matrix")
        g = Int("group")
        with npf.facade(bs):
            ps = sym.explore(lambda: fn(g, None, basis), pre + [g.t >= 0], allow=(ValueError,))
        for p in ps:
            if p.exc:
                chk.obl("refused for nonzero groups only", func, p.pc, g.t != 0, replay=rp)
                continue
            m = np.asarray(p.result)
            chk.ground("shape", func, m.shape == (1, 1), replay=rp)
            # constant c is (c / value of mode 0) times mode 0
            chk.obl("constant is the scaled constant polynomial", func, p.pc, z3.And(g.t == 0, to_real(m[0, 0]) * cm.t == 1), replay=rp)
    chk.contract("ConvertConstantJacobi", f"{BS}: ConvertConstantJacobi._group_matrix", constant)

    def lift():
        func = f"{BS}: LiftJacobi.build_polynomial"
        fn = attr(bs.LiftJacobi, "build_polynomial")
        n, ax = Int("n"), 1
        for axis, ndim in ((0, 1), (0, 3), (1, 3), (2, 3)):
            got = {}

            class Fd:
                def __getitem__(self, k):
                    if k not in ("c",):
                        raise Unsupported("layout")
                    return self

            class Arr:
                def __setitem__(self, k, v):
                    got.setdefault("sets", []).append((k, v))

            class F2:
                def __getitem__(self, k):
                    if not (isinstance(k, str) and k == "c"):
                        raise Unsupported("layout")
                    return Arr()
            basis2 = S(size=N)
            dist = S(Field=lambda bases=None, **k: (got.update(bases=bases), F2())[1], get_basis_axis=lambda b_: axis)
            rec = lambda axis_, start, stop, step=None: ("slice", axis_, start, stop, step)
            with npf.facade(bs, extra={"axslice": rec}):
                ps = sym.explore(lambda: (got.pop("sets", None), fn(dist, basis2, n), list(got.get("sets", [])))[2], pre + [n.t < N.t, n.t >= -N.t])
            for p in ps:
                if p.exc or len(p.result) != 1 or p.result[0][0][0] != "slice":
                    raise Unsupported("lift polynomial")
                (_, ax_, lo, hi, st), v = p.result[0]
                want = z3.If(n.t < 0, n.t + N.t, n.t)
                chk.obl(f"the one coefficient set (axis {axis} of {ndim})", func, p.pc,
                        z3.And(to_int(lo) == want, to_int(hi) == want + 1, z3.BoolVal(ax_ == axis and v == 1 and got.get("bases") is basis2)), replay=takes(lambda m=None: find_lift()))
    chk.contract("lift polynomial", f"{BS}: LiftJacobi.build_polynomial", lift)


# ------------------------------------------------------------------ placement of the matrices

class Kr:
    """Kronecker product of named factors."""

    def __init__(self, f):
        self.f = f
    tocsr = tocsc = tocoo = lambda self: self


def placement(chk, op):
    func = f"{OP}: SpectralOperator1D.subproblem_matrix"
    rp = takes(lambda m=None: find_ops("RealFourier") or find_ops("Jacobi"))

    def body():
        dims = [Int("d0"), Int("d1")]
        for dim, rank, coupled in itertools.product((1, 2, 3), (0, 1, 2), (False, True)):
            for axis in range(dim):
                shape = [Int(f"n{i}") for i in range(dim)]
                pre = [x.t >= 0 for x in shape] + [x.t >= 1 for x in dims]
                used = []

                class Sp:
                    group = tuple((None if (i == axis and coupled) else 5 + i) for i in range(dim))

                    def coeff_shape(self, domain):
                        if domain != "output domain":
                            raise Unsupported("shape of another domain")
                        return tuple(shape)
                me = S(last_axis=axis, first_axis=axis, tensorsig=tuple(S(dim=d) for d in dims[:rank]), domain="output domain", dist=S(coeff_layout="coeff layout"),
                       subspace_matrix=lambda l: Kr([("full", l)]), group_matrix=lambda g: Kr([("group", g)]))

                class Sps:
                    def identity(self, n, *a, **k):
                        return Kr([("I", n)])
                    eye = identity

                    def kron(self, x, y, *a, **k):
                        return Kr(x.f + y.f)

                    def csr_matrix(self, x):
                        return x

                    def __getattr__(self, n):
                        raise Unsupported(n)
                fn = attr(op.SpectralOperator1D, "subproblem_matrix")
                with npf.facade(op, extra={"sparse": Sps(), "prod": prodsym}):
                    ps = sym.explore(lambda: fn(me, Sp()), pre)
                for p in ps:
                    if p.exc:
                        raise Unsupported(repr(p.exc))
                    f = p.result.f
                    main = [q for q, x in enumerate(f) if x[0] != "I"]
                    if len(main) != 1:
                        raise Unsupported("factors")
                    q = main[0]
                    tag = f"dim {dim}, rank {rank}, axis {axis}, {'coupled' if coupled else 'separable'}"
                    chk.ground(f"matrix of the operator: {tag}", func, f[q] == (("full", "coeff layout") if coupled else ("group", 5 + axis)), f"{f[q]}", replay=rp)
                    before = prodz([to_int(x[1]) for x in f[:q]])
                    after = prodz([to_int(x[1]) for x in f[q + 1:]])
                    wb = prodz([d.t for d in dims[:rank]] + [x.t for x in shape[:axis]])
                    wa = prodz([x.t for x in shape[axis + 1:]])
                    # data without elements: nothing to check
                    hyp = p.pc + [x.t >= 1 for x in shape]
                    chk.obl(f"size before the axis: {tag}", func, hyp, before == wb, replay=rp)
                    chk.obl(f"size after the axis: {tag}", func, hyp, after == wa, replay=rp)
    chk.contract("Kronecker placement", func, body)

    def operate():
        func = f"{OP}: SpectralOperator1D.operate"
        fn = attr(op.SpectralOperator1D, "operate")
        for rank, axis, (ein, eout) in itertools.product((0, 1, 2), (0, 1, 2), ((False, False), (True, False), (False, True), (True, True))):
            calls = []
            empty = ein or eout
            M = object()

            class D:
                def __init__(self, n):
                    self.size = 0 if (ein if n == "in" else eout) else 7
                    self.n = n
                    self.filled = None

                def fill(self, v):
                    self.filled = v
            arg = S(layout="layout", data=D("in"), tensorsig=(1,) * rank)
            out = S(data=D("out"), layout=None)
            out.preset_layout = lambda l: setattr(out, "layout", l)
            me = S(args=[arg], last_axis=axis, subspace_matrix=lambda l: M if l == "layout" else None)
            with npf.facade(op, extra={"apply_matrix": lambda m, d, ax, out=None, **k: calls.append((m, d, ax, out))}):
                fn(me, out)
            if empty:
                # without input elements the result is zero
                ok = (not calls or calls == [(M, arg.data, axis + rank, out.data)]) and out.layout == "layout" and (eout or bool(calls) or out.data.filled == 0)
            else:
                ok = calls == [(M, arg.data, axis + rank, out.data)] and out.layout == "layout"
            chk.ground(f"matrix applied along the axis of the basis (rank {rank}, axis {axis}, input {'empty' if ein else 'data'}, output {'empty' if eout else 'data'})", func, ok, f"{calls}", replay=rp)
    chk.contract("operate", f"{OP}: SpectralOperator1D.operate", operate)


def prodsym(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def prodz(xs):
    r = z3.IntVal(1)
    for x in xs:
        r = r * x
    return r


# ------------------------------------------------------------------ bounded reference

def exact_jacobi(n, a, b):
    """Orthonormal polynomial as numpy Polynomial."""
    from props.n02 import exact_poly, logN
    from fractions import Fraction
    t = exact_poly_t(n, a, b)
    return t, math.exp(-0.5 * logN(n, a, b))


_POLY = {}


def exact_poly_t(n, a, b):
    """Coefficients of classical P_n^(a,b) in powers of t = (1-z)/2."""
    from fractions import Fraction
    key = (n, a, b)
    if key not in _POLY:
        A, B = Fraction(a), Fraction(b)
        t = []
        for k in range(n + 1):
            c = Fraction((-1) ** k * math.comb(n, k), math.factorial(n))
            for i in range(k):
                c *= (n + A + B + 1 + i)
            for i in range(n - k):
                c *= (A + k + 1 + i)
            t.append(c)
        _POLY[key] = t
    return _POLY[key]


def poly_eval(c, t):
    r = np.zeros_like(t)
    for x in reversed(c):
        r = r * t + float(x)
    return r


class Modes:
    """Independent description of the modes of a basis (None: constants)."""

    def __init__(self, b, interval):
        self.b = b
        self.lo, self.hi = interval
        self.kind = "const" if b is None else "jacobi" if hasattr(b, "a0") else "real" if type(b).__name__ == "RealFourier" else "complex"
        self.n = 1 if b is None else b.size

    def table(self, what, x):
        """Rows: positions x; columns: modes; what: value or derivative."""
        x = np.atleast_1d(np.asarray(x, float))
        L = self.hi - self.lo
        if self.kind == "const":
            return np.ones((x.size, 1)) if what == "value" else np.zeros((x.size, 1))
        out = np.zeros((x.size, self.n), complex)
        for j in range(self.n):
            if self.kind == "jacobi":
                from props.n02 import logN
                c = exact_poly_t(j, self.b.a, self.b.b)
                f = math.exp(-0.5 * logN(j, self.b.a, self.b.b))
                t = (1 - (2 * (x - self.lo) / L - 1)) / 2
                if what == "derivative":
                    c = [k * v for k, v in enumerate(c)][1:] or [0]
                    f = f * (-1 / L)
                out[:, j] = f * poly_eval(c, t)
            elif self.kind == "real":
                k = 2 * np.pi * (j // 2) / L
                th = k * (x - self.lo)
                v = [np.cos(th), -np.sin(th)] if what == "value" else [-k * np.sin(th), -k * np.cos(th)]
                out[:, j] = v[j % 2]
            else:
                m = j if 2 * j <= self.n else j - self.n
                k = 2 * np.pi * m / L
                v = np.exp(1j * k * (x - self.lo))
                out[:, j] = v if what == "value" else 1j * k * v
        return out

    def integral(self):
        L = self.hi - self.lo
        out = np.zeros(self.n, complex)
        if self.kind == "const":
            out[0] = L
        elif self.kind in ("real", "complex"):
            out[0] = L
        else:
            from props.n02 import logN
            for j in range(self.n):
                c = exact_poly_t(j, self.b.a, self.b.b)
                out[j] = float(sum(v / (k + 1) for k, v in enumerate(c))) * math.exp(-0.5 * logN(j, self.b.a, self.b.b)) * L
        return out


def build(d3, cls, params, N, bounds, dims, axis, rank, seed, dealias=1):
    """A field with the basis under test along one axis of several."""
    dtype = float if cls == "RealFourier" or (cls == "Jacobi" and seed % 2 == 0) else complex
    names = ["x", "y", "z"][:dims]
    if dims == 1:
        cs = d3.CartesianCoordinates("x")
    else:
        cs = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(cs, dtype=dtype)
    bases = []
    for i in range(dims):
        if i == axis:
            if cls == "Jacobi":
                a, b, a0, b0 = params
                bases.append(d3.Jacobi(cs[names[i]], size=N, bounds=bounds, a=a, b=b, a0=a0, b0=b0, dealias=dealias))
            else:
                bases.append(getattr(d3, cls)(cs[names[i]], N, bounds=bounds, dealias=dealias))
        elif i < axis:
            bases.append((d3.RealFourier if dtype is float else d3.ComplexFourier)(cs[names[i]], 4, bounds=(0, 1)))
        else:
            bases.append(d3.ChebyshevT(cs[names[i]], 3, bounds=(0, 2)))
    u = dist.Field(name="u", bases=tuple(bases), tensorsig=(cs,) * rank)
    return cs, dist, bases, u


def applied(table, data, axis):
    return np.moveaxis(np.tensordot(table, data, axes=(1, axis)), 0, axis)


def check_api(d3, case):
    """One operator against the definition of the operator on the modes, and matrix form against evaluation."""
    from props.refs import fill, matrix_vs_eval
    cls, params, N, bounds, dims, axis, rank, op, seed = case
    cs, dist, bases, u = build(d3, cls, params, N, bounds, dims, axis, rank, seed)
    coord = cs[("x", "y", "z")[axis]]
    fill(u, seed)
    ib = bases[axis]
    Min = Modes(ib, bounds)
    x = bounds[0] + (bounds[1] - bounds[0]) * (np.arange(N + 3) + 0.3) / (N + 3.5)
    c = u.data.copy()
    ax = rank + axis
    pos = {"interp": bounds[0] + 0.3 * (bounds[1] - bounds[0]), "interpl": "left", "interpr": "right", "interpc": "center"}
    if op == "diff":
        e, R = d3.Differentiate(u, coord), Min.table("derivative", x)
    elif op == "diff2":
        e = d3.Differentiate(d3.Differentiate(u, coord), coord)
        R = None
    elif op == "integ":
        e, R = d3.Integrate(u, coord), np.ones((x.size, 1)) @ Min.integral()[None, :]
    elif op == "ave":
        e, R = d3.Average(u, coord), np.ones((x.size, 1)) @ Min.integral()[None, :] / (bounds[1] - bounds[0])
    elif op in pos:
        p = pos[op]
        xp = {"left": bounds[0], "right": bounds[1], "center": (bounds[0] + bounds[1]) / 2}.get(p, p) if isinstance(p, str) else p
        e, R = d3.Interpolate(u, coord, p), np.ones((x.size, 1)) @ Min.table("value", xp)
    elif op.startswith("convert"):
        k = int(op[-1])
        e, R = d3.Convert(u, ib.derivative_basis(k)), Min.table("value", x)
        if e is u:
            return None
    elif op == "constant":
        # the field is constant along the axis
        rest = tuple(b for i, b in enumerate(bases) if i != axis)
        v = dist.Field(name="v", bases=rest, tensorsig=(cs,) * rank)
        fill(v, seed)
        c = v.data.copy()
        e, R = d3.Convert(v, ib), np.ones((x.size, 1))
        u = v
    elif op.startswith("lift"):
        n = int(op[4:])
        if not -N <= n < N:
            return None
        rest = tuple(b for i, b in enumerate(bases) if i != axis)
        v = dist.Field(name="v", bases=rest, tensorsig=(cs,) * rank)
        fill(v, seed)
        c = v.data.copy()
        e, R = d3.Lift(v, ib, n), Min.table("value", x)[:, [n % N]]
        u = v
    else:
        raise ValueError(op)
    o = e.evaluate()
    o.change_layout("c")
    ob = o.domain.get_basis(coord)
    Mo = Modes(ob, bounds)
    if op == "diff2":
        # second derivative through the difference of first derivatives of the result: compare with the derivative of the first one
        f = d3.Differentiate(u, coord).evaluate()
        f.change_layout("c")
        fb = f.domain.get_basis(coord)
        want = applied(Modes(fb, bounds).table("derivative", x), f.data, ax)
    else:
        want = applied(R, c, ax)
    got = applied(Mo.table("value", x), o.data, ax)
    if o.tensorsig != u.tensorsig:
        return {"operator": op, "tensor signature": str(o.tensorsig)}
    sc = max(1, float(abs(want).max()))
    if got.shape != want.shape or abs(got - want).max() > 1e-8 * sc:
        i = np.unravel_index(int(np.argmax(abs(got - want))), want.shape) if got.shape == want.shape else None
        return {"operator": op, "basis": str(ib), "bounds": bounds, "axis": axis, "dimensions": dims, "rank": rank,
                "largest error": None if i is None else float(abs(got - want).max()), "value": None if i is None else complex(got[i]), "expected": None if i is None else complex(want[i])}
    r = matrix_vs_eval(d3, e, [u])
    if r:
        return {"operator": op, "basis": str(ib), "bounds": bounds, "axis": axis, "dimensions": dims, "rank": rank, "matrix form": r}
    return None


def api_cases(thorough, classes=("RealFourier", "ComplexFourier", "Jacobi")):
    par = [(-0.5, -0.5, None, None), (0, 0, None, None), (0.5, 0.5, -0.5, -0.5), (1, 2, 0, 1), (0.25, 1.5, None, None), (1.5, 1.5, -0.5, -0.5)]
    bnds = [(-1, 1), (0, 1), (2.5, 7), (-3, -2.5)]
    fo = ["diff", "diff2", "integ", "ave", "interp", "interpl", "interpr", "interpc", "constant"]
    jo = fo + ["convert1", "convert2", "lift-1", "lift-2", "lift-3", "lift0", "lift1", "lift2"]
    k = 0
    for cls in classes:
        for N in ((2, 4, 6, 8, 12) if cls == "RealFourier" else (1, 2, 3, 4, 7, 8, 12)):
            for op in (jo if cls == "Jacobi" else fo):
                # every operator in one dimension and in one cell of the larger product, more when thorough
                combos = [(d, a, r) for d in (1, 2, 3) for a in range(d) for r in (0, 1, 2)]
                take = [combos[0], combos[1 + k % (len(combos) - 1)]] if not thorough else combos
                for d, a, r in take:
                    k += 1
                    p = par[k % len(par)] if cls == "Jacobi" else None
                    yield (cls, p, N, bnds[k % len(bnds)], d, a, r if d > 1 or True else 0, op, k)


def find_ops(cls):
    import dedalus.public as d3
    for case in api_cases(False, (cls,)):
        try:
            r = check_api(d3, case)
        except Exception as e:
            return {"case": case, "error": f"{type(e).__name__}: {e}"}
        if r:
            return dict(r, case=case)
    return None


def find_lift():
    import dedalus.public as d3
    for case in api_cases(False, ("Jacobi",)):
        if case[7].startswith("lift"):
            r = check_api(d3, case)
            if r:
                return dict(r, case=case)


def check_ncc(d3, case):
    """Products with a Fourier coefficient: matrix form against evaluation, coupled and separable other axes."""
    from props.refs import fill, matrix_vs_eval
    cls, N, argconst, dims, axis, first, seed = case
    dtype = float if cls == "RealFourier" else complex
    names = ("x", "y", "z")[:dims]
    cs = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(cs, dtype=dtype)
    mk = getattr(d3, cls)
    bases = [mk(cs[n], N if i == axis else 4, bounds=(0, 1 + i), dealias=2) for i, n in enumerate(names)]
    f = dist.Field(name="f", bases=bases[axis])
    u = dist.Field(name="u", bases=tuple(b for i, b in enumerate(bases) if not (argconst and i == axis)))
    fill(f, seed)
    fill(u, seed + 1)
    # the last mode of an even complex series is dropped by transforms: not part of the functions represented
    if cls == "ComplexFourier":
        for q, axq in [(f, axis)] + ([] if argconst else [(u, axis)]):
            sh = [1] * dims
            sh[axq] = N
            q.data[...] *= (np.arange(N) != N // 2).reshape(sh)
    # keep products resolved
    if not argconst:
        lim = (N // 2 - 1) // 2
        for q, axq in ((f, axis), (u, axis)):
            kk = np.arange(N) // 2 if cls == "RealFourier" else np.abs(np.where(2 * np.arange(N) <= N, np.arange(N), np.arange(N) - N))
            sh = [1] * dims
            sh[axq] = N
            q.data[...] *= (kk <= lim).reshape(sh)
    f.change_scales(1)
    e = f * u if first else u * f
    r = matrix_vs_eval(d3, e, [u])
    return dict(r, case=case) if r else None


def check_local(d3, case):
    """Local matrices of separable operators: restriction of the one-process matrix to local rows and columns."""
    from vf import fake
    cls, N, mesh, dims, axis, opn, seed = case
    size = int(np.prod(mesh))
    dtype = float if cls == "RealFourier" else complex
    names = ("x", "y", "z")[:dims]
    full = None
    for m, rank in [((), 0)] + [(mesh, r) for r in range(size)]:
        cs = d3.CartesianCoordinates(*names)
        dist = d3.Distributor(cs, dtype=dtype, comm=fake.FakeComm(size if m else 1, rank), mesh=m or None)
        bases = [getattr(d3, cls)(cs[n], N if i == axis else 4, bounds=(0, 1 + i)) for i, n in enumerate(names)]
        v = dist.Field(name="v", bases=tuple(b for i, b in enumerate(bases) if not (opn == "constant" and i == axis)))
        c = cs[names[axis]]
        e = {"diff": lambda: d3.Differentiate(v, c), "integ": lambda: d3.Integrate(v, c), "ave": lambda: d3.Average(v, c),
             "constant": lambda: d3.Convert(v, bases[axis])}[opn]()
        for k, layout in enumerate(dist.layouts):
            if layout.grid_space[axis]:
                continue
            M = e.subspace_matrix(layout)
            M = M.toarray() if hasattr(M, "toarray") else np.asarray(M)
            if not m:
                full = M
                continue
            rows = layout.local_elements(e.domain, scales=1)[axis]
            cols = layout.local_elements(v.domain, scales=1)[axis]
            want = full[np.ix_(rows, cols)]
            if M.shape != want.shape or (M.size and abs(M - want).max() > 1e-12):
                return {"case": case, "rank": rank, "layout": k, "rows": rows.tolist(), "columns": cols.tolist(), "local matrix": M.tolist() if M.size < 40 and not np.iscomplexobj(M) else str(M.shape),
                        "restriction of the global matrix": want.tolist() if want.size < 40 and not np.iscomplexobj(want) else str(want.shape)}
    return None


def bounded(chk, bs):
    import dedalus.public as d3
    chk.bounded("operators on fields against the definition on the modes; matrix form against evaluation",
                "RealFourier 2..12, ComplexFourier and Jacobi 1..12, six parameter sets, four intervals, up to three dimensions, ranks 0..2",
                api_cases(chk.thorough), lambda c: check_api(d3, c), key="operators", budget=150 if not chk.thorough else 600)
    ncc = [(cls, N, ac, d, a, first, s) for s, (cls, N, ac, (d, a), first) in enumerate(itertools.product(
        ("RealFourier", "ComplexFourier"), (2, 4, 6, 8), (False, True), ((1, 0), (2, 0), (2, 1)), (True, False))) if not (d == 1 and ac)]
    chk.bounded("multiplication by Fourier series: matrix form against evaluation", "sizes 2..8, one or two dimensions", ncc,
                lambda c: check_ncc(d3, c), key="Fourier multiplication", budget=100)
    loc = [(cls, N, mesh, d, a, o, 0) for cls, N, (mesh, d, a), o in itertools.product(("RealFourier", "ComplexFourier"), (4, 6, 8),
           (((2,), 2, 0), ((3,), 2, 0), ((5,), 2, 0), ((2,), 2, 1), ((2, 2), 3, 0), ((2, 3), 3, 1), ((2,), 3, 1)), ("diff", "integ", "ave", "constant"))]
    chk.bounded("local matrices of separable operators on process meshes", "meshes to 2x3, every rank and layout", loc, lambda c: check_local(d3, c), key="local matrices")
    chk.bounded("product matrices against sampled products", "all modes, sizes to 10", ["RealFourier", "ComplexFourier"], lambda c: find_product(bs, c), key="product matrix")
    chk.bounded("wavenumbers", "sizes to 11", ["RealFourier", "ComplexFourier"], lambda c: find_wavenumbers(bs, c), key="wavenumbers")
    chk.bounded("change of variables", "eight interval pairs", [0], lambda c: find_cov(bs), key="change of variables")


def run(chk):
    from dedalus.core import basis as bs, operators as op
    chk.trust("polynomial matrices, integration vectors and polynomial evaluation are those of N02")
    chk.trust("numpy.intersect1d on distinct values, scipy sparse constructors and Kronecker products by their documentation")
    chk.assume("real Fourier bases have even size (odd sizes are refused when data are transformed)")
    chk.assume("floating point arithmetic is treated as real arithmetic in the proofs")
    chk.parallel([
        lambda c: (cov(c, bs), groups(c, bs), wavenumbers(c, bs), interpolation(c, bs)),
        lambda c: (products(c, bs), jacobi_ops(c, bs)),
        lambda c: placement(c, op),
        lambda c: bounded(c, bs),
    ])
