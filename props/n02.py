"""N02: orthogonal polynomial algebra and multiplication matrices are exact.

Contracts (tools/clenshaw.py, tools/jacobi.py, libraries/dedalus_sphere/jacobi.py and operators.py, core/basis.py)
  scalar/matrix/kronecker_clenshaw: for every length N, coefficients and recurrence
     f_{n+1} = A_n f_n + B_n f_{n-1} (n <= N-2), B_0 = 0:   result == sum_n c_n f_n      (loop invariant, any N)
  jacobi_recursion: A_n, B_n satisfy J[n,n+1] f_{n+1} = (X - J[n,n]) f_n - J[n,n-1] f_{n-1} for every n <= N-2
  JacobiOperator A, B, C, D: every column satisfies L P_n^(a,b) = sum_r R[r,n] P_r^(a',b') for every degree n,
     every power of (1-z)/2 and all a, b > -1 (hypergeometric term identities, exact)
  norm_ratio: squared ratio of the normalisation integrals for every degree and all parameters
  Operator / JacobiCodomain algebra: products, sums, powers, transposes act at the codomain of what precedes
  polynomials: the three-term recurrence of the matrix of z, for every degree (loop invariant)
  tools.jacobi: conversion, differentiation and Jacobi matrices are the operator products they stand for
  Jacobi._last_axis_component_ncc_matrix: padded size is large enough that truncation changes no kept entry
Quadrature nodes and weights (Newton iteration in floating point), integration vectors and interpolation are
checked by bounded reference comparison.
"""

import math
import types
from fractions import Fraction

import numpy as np
import z3

from vf import sym, npf, alg, prove, loops
from vf.sym import Int, Real, SymReal, SymInt, SymBool, Unsupported, ctx, to_real, to_int, wrap, eq

CL = "tools/clenshaw.py"
JA = "libraries/dedalus_sphere/jacobi.py"
TJ = "tools/jacobi.py"


def takes(f):
    f.takes_none = True
    return f


def identity(chk, name, func, pc, r, replay, subst=()):
    """r == 0 as a rational function, after the equalities `subst` [(z3 const, z3 term)]."""
    t = to_real(r)
    if subst:
        t = z3.substitute(t, *subst)
    try:
        zero, nf = alg.is_zero(t)
    except Unsupported:
        return chk.obl(name, func, pc, t == 0, replay=replay)
    if zero:
        return chk.ground(name, func, True, backend="sympy-normal-form")
    return chk.obl(name, func, pc, t == 0, replay=replay)


def side(chk, func, p, replay, prefix=""):
    for name, pc, goal in p.ctx.side:
        g = goal if isinstance(goal, (bool, z3.BoolRef)) else bool(goal)
        chk.obl(prefix + name, func, pc, z3.BoolVal(g) if isinstance(g, bool) else g, replay=replay)


# ------------------------------------------------------------------ Clenshaw

class El:
    """Element of the algebra generated by commuting X-polynomials and one coefficient matrix per term:
    `space` ("X", "C", ("C","X") or ("X","C")) records the tensor factors in order."""

    def __init__(self, space, t):
        self.space, self.t = space, z3.simplify(to_real(t))

    @property
    def shape(self):
        return (self.space, self.space)

    def _same(self, o):
        if isinstance(o, El):
            if o.space != self.space:
                raise ShapeMismatch(f"{self.space} with {o.space}")
            return o.t
        raise TypeError(f"El with {type(o).__name__}: Sym")

    def __add__(self, o):
        return El(self.space, self.t + self._same(o))

    def __sub__(self, o):
        return El(self.space, self.t - self._same(o))

    def __neg__(self):
        return El(self.space, -self.t)

    def __matmul__(self, o):
        return El(self.space, self.t * self._same(o))

    def __mul__(self, s):
        if not sym._isnum(s):
            raise TypeError("El * non-scalar: Sym")
        return El(self.space, self.t * to_real(s))
    __rmul__ = __mul__

    def __truediv__(self, s):
        return El(self.space, self.t / to_real(s))

    def dot(self, o):
        return self @ o

    def tocsr(self):
        return self
    tocsc = copy = tocsr


class ShapeMismatch(Exception):
    pass


class Sparse:
    @staticmethod
    def identity(n, *a, **k):
        return El(n, 1)

    @staticmethod
    def eye(n, m=None, *a, **k):
        if m is not None and m != n:
            raise Unsupported("rectangular eye")
        return El(n, 1)

    @staticmethod
    def kron(a, b, *r, **k):
        return El((a.space, b.space), a.t * b.t)

    def __getattr__(self, n):
        raise Unsupported(f"sparse.{n}")


class NPX(npf.NP):
    def isscalar(self, x):
        return sym.is_sym(x) or (not isinstance(x, El) and np.isscalar(x))


class Cells:
    """A sequence of symbolic length read at a loop index plus a constant; one constant per cell."""

    def __init__(self, stem, n, make, base):
        self.stem, self.n, self.make, self.base = stem, n, make, base
        self._vf_len = lambda: n

    def __len__(self):
        raise Unsupported("len of a symbolic sequence (Sym)")

    def name(self, k):
        if not sym.is_sym(k):
            return f"{self.stem}#{k}"
        d = z3.simplify(to_int(k) - self.base)
        if not z3.is_int_value(d):
            raise Unsupported("index that is not the loop index plus a constant")
        return f"{self.stem}@{d.as_long()}"

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of the coefficients")
        kt = to_int(k)
        ctx().require(f"{self.stem}[..] is within its range", z3.And(kt >= 0, kt < to_int(self.n)))
        return self.make(self.name(k))


class ClenshawLoop(loops.Cutter):
    """Invariant at index i (indices above i are summed): with F the functions and T the tail sum from i+1,
        T(i+1) == b0 F(i+1) + B(i+1) b1 F(i);   b0 == b1 == 0 at i == N-1;   b1 == 0 at i == N-2."""

    def __init__(self, N, kind, term, mask):
        self.N, self.kind, self.term, self.mask = N, kind, term, mask
        self.i = Int("i")
        self.F = {d: z3.Real(f"F@{d}") for d in (-1, 0, 1)}
        self.tail = None
        self.final = None

    def cell(self, stem, d):
        return z3.Real(f"{stem}@{d}")

    def val(self, x):
        if isinstance(x, El):
            if x.space != self.kind:
                ctx().require("state lives in the product space", z3.BoolVal(False))
            return x.t
        return to_real(x)

    def wrapv(self, t):
        return SymReal(t) if self.kind is None else El(self.kind, t)

    def enter(self, it, loc):
        if not isinstance(it, loops.Range) or "b0" not in loc or "b1" not in loc:
            raise Unsupported("not the loop of the contract")
        if it.step != -1:
            raise Unsupported("loop runs upwards")
        ctx().require("the loop starts at the last coefficient", to_int(it.first) == to_int(self.N) - 1)
        ctx().require("the loop ends at the first coefficient", to_int(it.last) == 0)
        ctx().require("initial state is zero", z3.And(self.val(loc["b0"]) == 0, self.val(loc["b1"]) == 0))

    def havoc(self, names, loc):
        i, N = self.i.t, to_int(self.N)
        extra = [n for n in names if n not in ("b0", "b1", "b2")]
        if extra:
            raise Unsupported(f"loop state {extra} is not in the invariant")
        ctx().assume(z3.And(0 <= i, i < N))
        self.b0, self.b1 = z3.Real("beta0"), z3.Real("beta1")
        if bool(SymBool(i == N - 1)):
            self.where = "last"
            self.b0 = self.b1 = z3.RealVal(0)
        elif bool(SymBool(i == N - 2)):
            self.where = "last but one"
            self.b1 = z3.RealVal(0)
        else:
            self.where = "interior"
        out = {"b0": self.wrapv(self.b0), "b1": self.wrapv(self.b1)}
        if "b2" in names:
            out["b2"] = self.wrapv(z3.Real("beta2"))
        return out

    def index(self, loc):
        return self.i

    def preserve(self, loc):
        A0, B0, B1 = self.cell("A", 0), self.cell("B", 0), self.cell("B", 1)
        F0, Fm = self.F[0], self.F[-1]
        F1 = A0 * F0 + B0 * Fm
        on = self.mask(self)
        if on is None:
            return
        tail = self.b0 * F1 + B1 * self.b1 * F0
        if on:
            tail = tail + self.term() * F0
        n0, n1 = self.val(loc["b0"]), self.val(loc["b1"])
        ctx().side.append((f"one more term is summed ({self.where})", ctx().pc(), ("zero", n0 * F0 + B0 * n1 * Fm - tail)))
        if self.where == "last":
            ctx().side.append(("second state is zero after the first iteration", ctx().pc(), ("zero", n1)))

    def leave(self, names, loc):
        i, N = self.i.t, to_int(self.N)
        self.b0, self.b1 = z3.Real("beta0"), z3.Real("beta1")
        # i == -1: T(0) == b0 F(0) + B(0) b1 F(-1) with B(0) == 0
        self.final = self.b0 * z3.Real("F0")
        out = {"b0": self.wrapv(self.b0), "b1": self.wrapv(self.b1)}
        return out


def side_zero(chk, func, p, replay, prefix=""):
    for name, pc, goal in p.ctx.side:
        if isinstance(goal, tuple):
            identity(chk, prefix + name, func, pc, goal[1], replay)
        else:
            g = z3.BoolVal(goal) if isinstance(goal, bool) else goal
            chk.obl(prefix + name, func, pc, g, replay=replay)


def clenshaw(chk, cl):
    variants = [("scalar_clenshaw", "scalar argument", None), ("matrix_clenshaw", "matrix argument", "X"),
                ("kronecker_clenshaw", "coefficients on the left", ("C", "X")),
                ("kronecker_clenshaw", "coefficients on the right", ("X", "C"))]
    for fname, label, space in variants:
        def body(fname=fname, label=label, space=space):
            func = f"{CL}: {fname}"
            fn = getattr(cl, fname)
            N, cutoff = Int("N"), Real("cutoff")
            pre = [N.t >= 1, cutoff.t >= 0]
            replay = takes(lambda m=None, fname=fname, space=space: find_clenshaw(cl, fname, space))

            def run():
                base = z3.Int("i")
                scal = lambda nm: SymReal(z3.Real(nm))
                ab = scal if space is None else (lambda nm: El("X", z3.Real(nm)))
                A, B = Cells("A", N + 1, ab, base), Cells("B", N + 1, ab, base)
                c = Cells("c", N, scal if space in (None, "X") else (lambda nm: El("C", z3.Real(nm))), base)
                norms = Cells("norm", N, scal, base)
                f0 = SymReal(z3.Real("F0")) if space is None else El("X", z3.Real("F0"))
                term = lambda: z3.Real("c@0")

                def mask(lp):
                    if space is None:
                        return True
                    size = z3.Real("norm@0") if isinstance(space, tuple) else z3.Real("c@0")
                    if bool(SymBool(z3.Or(size == cutoff.t, size == -cutoff.t))):
                        return None            # exactly at the cutoff either choice is right
                    big = size > cutoff.t if isinstance(space, tuple) else z3.Or(size > cutoff.t, -size > cutoff.t)
                    return bool(SymBool(big))
                loop = ClenshawLoop(N, space, term, mask)
                with npf.facade(cl, np=NPX(), extra={"range": loops.sym_range, "reversed": loops.sym_reversed, "sparse": Sparse(),
                                                     "abs": sym.facade_abs}):
                    g = loops.cut(fn, [loop])
                    if space is None:
                        r = g(c, A, B, f0)
                    elif space == "X":
                        r = g(c, A, B, f0, cutoff)
                    else:
                        r = g(c, norms, A, B, f0, cutoff, coeffs_left=(space == ("C", "X")))
                return loop, r
            paths = sym.explore(run, pre, allow=(loops.Done, ShapeMismatch))
            chk.paths += len(paths)
            chk.sat_check(f"{fname}", pre)
            pre_ = f"{fname} ({label}): "
            for p in paths:
                side_zero(chk, func, p, replay, pre_)
                if isinstance(p.exc, loops.Done):
                    continue
                if p.exc is not None:
                    chk.ground(pre_ + f"no exception ({type(p.exc).__name__})", func, False, detail=str(p.exc), replay=replay)
                    continue
                loop, r = p.result
                chk.ground(pre_ + "result lives in the space of the documented product", func,
                           (isinstance(r, El) and r.space == space) if space else not isinstance(r, El), replay=replay)
                identity(chk, pre_ + "result is the sum of all terms", func, p.pc, loop.val(r) - loop.final, replay)
        chk.contract(f"{fname} ({label})", f"{CL}: {fname}", body)


def find_clenshaw(cl, fname, space):
    for seed in range(6):
        for N in (1, 2, 3, 4, 7):
            bad = check_clenshaw((fname, space, N, seed), cl)
            if bad:
                return bad
    return None


def check_clenshaw(case, cl):
    from scipy import sparse
    fname, space, N, seed = case
    rng = np.random.default_rng(seed)
    m, q = 4, 3
    a = rng.uniform(-1, 1, N + 1)
    b = rng.uniform(-1, 1, N + 1)
    b[0] = 0
    a0 = rng.uniform(-1, 1, N + 1)
    X = rng.uniform(-1, 1, (m, m))
    c = rng.uniform(-1, 1, N)
    if N > 2:
        c[1], c[2] = 1e-9, 5e-6
    if space is None:
        x = 0.37
        A, B = a * x + a0, b
        A[N - 1:] = 0
        B[max(N - 1, 0):] = 0
        f = [1.7]
        for n in range(N - 1):
            f.append(A[n] * f[n] + (B[n] * f[n - 1] if n else 0))
        ref = sum(c[n] * f[n] for n in range(N))
        got = cl.scalar_clenshaw(list(c), A, B, f[0])
        err = abs(got - ref)
    else:
        I = np.eye(m)
        A = [sparse.csr_matrix((a[n] * X + a0[n] * I) if n < N - 1 else 0 * I) for n in range(N + 1)]
        B = [sparse.csr_matrix((b[n] * I) if n < N - 1 else 0 * I) for n in range(N + 1)]
        f = [1.7 * I]
        for n in range(N - 1):
            f.append(A[n] @ f[n] + (B[n] @ f[n - 1] if n else 0))
        f0 = sparse.csr_matrix(f[0])
        if space == "X":
            ref = sum((c[n] * f[n] for n in range(N) if abs(c[n]) > 1e-6), 0 * I)
            got = cl.matrix_clenshaw(c, A, B, f0, 1e-6)
        else:
            C = [rng.uniform(-1, 1, (q, q)) * (1e-9 if (N > 2 and n == 1) else 5e-6 if (N > 2 and n == 2) else 1) for n in range(N)]
            norms = [np.max(np.abs(x)) for x in C]
            kr = (lambda P, Q: np.kron(Q, P)) if space == ("C", "X") else (lambda P, Q: np.kron(P, Q))
            ref = sum((kr(f[n], C[n]) for n in range(N) if norms[n] > 1e-6), 0 * kr(I, C[0]))
            got = cl.kronecker_clenshaw([sparse.csr_matrix(x) for x in C], norms, A, B, f0, 1e-6, coeffs_left=(space == ("C", "X")))
        got = got.toarray()
        if got.shape != ref.shape:
            return {"function": fname, "shape": got.shape, "expected": ref.shape, "N": N}
        err = np.max(np.abs(got - ref))
    if not err < 1e-11:
        return {"function": fname, "variant": str(space), "terms": N, "seed": seed, "error against the direct sum": float(err)}
    return None


# ------------------------------------------------------------------ recurrence coefficients

class JArr:
    """J.toarray(): entries named by their place relative to n."""

    def __init__(self, n, N):
        self.n, self.N = n, N

    def __getitem__(self, ij):
        i, j = ij
        for k in (i, j):
            ctx().require("the recurrence matrix is read inside its bounds",
                          z3.And(to_int(k) >= 0, to_int(k) < to_int(self.N)))
        di, dj = (z3.simplify(to_int(k) - self.n) for k in (i, j))
        if not (z3.is_int_value(di) and z3.is_int_value(dj)):
            raise Unsupported("entry of J not next to n")
        di, dj = di.as_long(), dj.as_long()
        if abs(di - dj) > 1:
            return 0
        t = z3.Real(f"J[{di},{dj}]")
        if di != dj:
            ctx().assume(t != 0)
        return SymReal(t)


def recursion(chk, cl):
    func = f"{CL}: jacobi_recursion"

    def body():
        for matrix in (False, True):
            N, n = Int("N"), Int("n")
            a, b = Real("a"), Real("b")
            replay = takes(lambda m=None: find_recursion(cl))
            for which in ("A", "B", "end"):
                pre = [N.t >= 1, n.t >= 0, a.t > -1, b.t > -1] + ([n.t <= N.t - 2] if which != "end" else [n.t > N.t - 2, n.t <= N.t])

                def run():
                    seen = {}

                    def jm(N_, a_, b_):
                        ctx().require("the recurrence matrix has the size and parameters asked for",
                                      z3.And(to_int(N_) == N.t, to_real(a_) == a.t, to_real(b_) == b.t))
                        return types.SimpleNamespace(toarray=lambda: JArr(n.t, N), todense=lambda: JArr(n.t, N))

                    def deferred(f, size):
                        ctx().require("N + 1 coefficients", to_int(size) == N.t + 1)
                        return types.SimpleNamespace(entry_function=f)
                    X = El("X", z3.Real("X")) if matrix else SymReal(z3.Real("X"))
                    with npf.facade(cl, np=NPX(), extra={"jacobi": types.SimpleNamespace(jacobi_matrix=jm), "DeferredTuple": deferred,
                                                         "sparse": Sparse()}):
                        A, B = cl.jacobi_recursion(N, a, b, X)
                        if which == "A":
                            return A.entry_function(n)
                        if which == "B":
                            return B.entry_function(n)
                        return A.entry_function(n), B.entry_function(n)
                paths = sym.explore(run, pre)
                chk.paths += len(paths)
                kind = "matrix" if matrix else "scalar"
                for p in paths:
                    side(chk, func, p, replay, f"recursion ({kind}, {which}): ")
                    if p.exc is not None:
                        chk.ground(f"recursion ({kind}, {which}): no exception", func, False, detail=repr(p.exc), replay=replay)
                        continue
                    if which == "end":
                        continue
                    r = p.result
                    chk.ground(f"recursion ({kind}, {which}): kind of element", func, isinstance(r, El) == matrix, replay=replay)
                    v = r.t if isinstance(r, El) else to_real(r)
                    J = lambda i, j: z3.Real(f"J[{i},{j}]")
                    if which == "A":
                        chk.obl(f"recursion ({kind}): J[n,n+1] A[n] == X - J[n,n]", func, p.pc + [J(0, 1) != 0],
                                v * J(0, 1) == z3.Real("X") - J(0, 0), replay=replay)
                    else:
                        chk.obl(f"recursion ({kind}): J[n,n+1] B[n] == -J[n,n-1] (0 at n = 0)", func, p.pc + [J(0, 1) != 0],
                                z3.If(n.t == 0, v == 0, v * J(0, 1) == -J(0, -1)), replay=replay)
    chk.contract("jacobi_recursion", func, body)

    func2 = "tools/general.py: DeferredTuple"

    def body2():
        from dedalus.tools import general
        k, n = Int("k"), Int("n")

        def run():
            with npf.facade(general, extra={"len": lambda x: x.__len__()}):
                d = general.DeferredTuple(lambda i: ("entry", i), n)
                return d[k]
        for p in sym.explore(run, [0 <= k.t, k.t < n.t]):
            chk.ground("deferred tuple: entry k is entry_function(k)", func2,
                       p.exc is None and p.result[0] == "entry", detail=repr(p.exc))
            if p.exc is None:
                chk.obl("deferred tuple: asked for the same index", func2, p.pc, eq(p.result[1], k))
    chk.contract("DeferredTuple", func2, body2)


def find_recursion(cl):
    for a, b in ((-0.5, -0.5), (0, 0), (0.5, 1.5), (1, -0.3)):
        bad = check_recursion((a, b, 7), cl)
        if bad:
            return bad
    return None


def check_recursion(case, cl):
    a, b, N = case
    from scipy import sparse
    out = None
    for x in (0.3, sparse.csr_matrix(np.diag([0.3, -0.8]))):
        A, B = cl.jacobi_recursion(N, a, b, x)
        xs = [0.3] if np.isscalar(x) else [0.3, -0.8]
        for q, xv in enumerate(xs):
            P = ref_polys(N, a, b, np.array([xv]))[:, 0]
            get = (lambda M: M) if np.isscalar(x) else (lambda M: M.toarray()[q, q])
            for n in range(N - 1):
                f = get(A[n]) * P[n] + (get(B[n]) * P[n - 1] if n else 0)
                if not abs(f - P[n + 1]) < 1e-10 * max(1, abs(P[n + 1])):
                    return {"a": a, "b": b, "N": N, "x": xv, "degree": n + 1, "recursion gives": float(f), "value": float(P[n + 1])}
            if get(B[0]) != 0:
                return {"a": a, "b": b, "B[0]": float(get(B[0]))}
    return out


# ------------------------------------------------------------------ operator entries

def shift(n, a, b, k, dn=0, da=0, db=0, dk=0):
    """C(n+dn, a+da, b+db, k+dk) / C(n, a, b, k) for
       P_n^(a,b)(z) = sum_k C(n,a,b,k) t^k,  t = (1-z)/2,
       C = (a+1)_n/n! (-n)_k (n+a+b+1)_k / ((a+1)_k k!)."""
    r = z3.RealVal(1)
    s = lambda: a + b

    def up_n():
        return (a + 1 + n) / (n + 1 - k) * (n + s() + 1 + k) / (n + s() + 1)

    def up_a():
        return (a + 1 + n) / (a + 1 + k) * (n + s() + 1 + k) / (n + s() + 1)

    def up_b():
        return (n + s() + 1 + k) / (n + s() + 1)

    def up_k():
        return (k - n) * (n + s() + 1 + k) / ((a + 1 + k) * (k + 1))
    for _ in range(dn):
        r = r * up_n(); n = n + 1
    for _ in range(-dn):
        n = n - 1; r = r / up_n()
    for _ in range(da):
        r = r * up_a(); a = a + 1
    for _ in range(-da):
        a = a - 1; r = r / up_a()
    for _ in range(db):
        r = r * up_b(); b = b + 1
    for _ in range(-db):
        b = b - 1; r = r / up_b()
    for _ in range(dk):
        r = r * up_k(); k = k + 1
    for _ in range(-dk):
        k = k - 1; r = r / up_k()
    return r


# left actions on sum_k C_k t^k: coefficient of t^k as {dk: multiplier(a, b, k)}
ACTION = {
    ("A", +1): (lambda a, b, k: {0: 1}, (0, +1, 0)),
    ("A", -1): (lambda a, b, k: {-1: 2}, (+1, -1, 0)),
    ("B", +1): (lambda a, b, k: {0: 1}, (0, 0, +1)),
    ("B", -1): (lambda a, b, k: {0: 2, -1: -2}, (+1, 0, -1)),
    ("C", +1): (lambda a, b, k: {0: b + k, +1: -(k + 1)}, (0, +1, -1)),
    ("C", -1): (lambda a, b, k: {0: a + k}, (0, -1, +1)),
    ("D", +1): (lambda a, b, k: {+1: -(k + 1) / 2}, (-1, +1, +1)),
    ("D", -1): (lambda a, b, k: {0: 2 * a + 2 * k, -1: -2 * (a + b) - 2 * (k - 1)}, (+1, -1, -1)),
}


class NPJ(npf.NP):
    """arange(n) as the two representative degrees 0 and m (0 < m < n): every entry formula is elementwise in the degree."""

    def __init__(self, m):
        self.m = m

    def arange(self, *a, **k):
        if len(a) != 1:
            raise Unsupported("arange with a start")
        out = np.empty(2, dtype=object)
        out[0], out[1] = SymReal(z3.RealVal(0)), self.m
        return out

    def ones(self, *a, **k):
        out = np.empty(2, dtype=object)
        out[:] = [1, 1]
        return out

    def sqrt(self, x, *a, **k):
        raise Unsupported("sqrt")


class Band:
    def __init__(self, data, offsets=None):
        if isinstance(data, tuple):
            data, offsets = data
        self.data, self.offsets = data, list(offsets)

    @classmethod
    def make(cls, arg, shape=None):
        r = cls(arg)
        r.shape = shape
        return r


def entries(chk, dj):
    func0 = f"{JA}: JacobiOperator"
    chk.assume("JacobiOperator formulas are elementwise in the degree: arange(n) is represented by its element 0 and an "
               "arbitrary other element m")
    chk.assume("identities between polynomials are proved coefficient by coefficient for generic a, b > -1 (and separately on "
               "the lines a+b = -1 that the code treats apart); where a shift ratio of the hypergeometric term has a zero "
               "denominator the identity follows by continuity in a, b")

    def one(name, p):
        action, (dn, da, db) = ACTION[name, p]
        func = f"{func0}.{name}({p:+d})"
        replay = takes(lambda m=None: find_operator(name, p))
        m, n, a, b = Real("m"), Int("n"), Real("a"), Real("b")
        pre = [n.t >= 2, m.t >= 1, z3.IsInt(m.t), a.t > -1, b.t > -1, a.t + da > -1, b.t + db > -1]

        def run(normalised):
            used = {}

            def nr(dn_, da_, db_, N, a_, b_, squared=False):
                out = np.empty(len(N), dtype=object)
                for i, x in enumerate(N):
                    ctx().require("norm ratio at the parameters of the input", z3.And(to_real(a_) == a.t, to_real(b_) == b.t))
                    out[i] = SymReal(z3.Real(f"ratio({dn_},{da_},{db_};{'m' if x is m else '0' if not sym.is_sym(x) or z3.is_rational_value(x.t) else '?'})"))
                return out
            with npf.facade(dj, np=NPJ(m), extra={"banded": Band.make, "infinite_csr": lambda x: x, "norm_ratio": nr}):
                op = dj.operator(name, normalised=normalised)(p)
                M = op.function(n, a, b)
                cod = op.codomain(n, a, b)
            return M, cod
        res = {}
        for normalised in (False, True):
            paths = sym.explore(lambda: run(normalised), pre, allow=(ValueError,))
            chk.paths += len(paths)
            for pth in paths:
                tag = f"{name}({p:+d}) {'normalised' if normalised else 'classical'}: "
                if pth.exc is not None:
                    chk.ground(tag + "no exception", func, False, detail=repr(pth.exc), replay=replay)
                    continue
                side(chk, func, pth, replay, tag)
                M, cod = pth.result
                chk.obl(tag + "codomain", func, pth.pc, z3.And(to_int(cod[0]) == n.t + dn, to_real(cod[1]) == a.t + da,
                                                              to_real(cod[2]) == b.t + db), replay=replay)
                chk.obl(tag + "matrix shape", func, pth.pc, z3.And(to_int(M.shape[0]) == n.t + dn, to_int(M.shape[1]) == n.t), replay=replay)
                chk.ground(tag + "an entry array of two columns per band", func,
                           np.shape(M.data) == (len(M.offsets), 2), detail=str(np.shape(M.data)), replay=replay)
                special = ctx_eq(pth, a.t + b.t == -1)
                subst = [(b.t, -1 - a.t)] if special else []
                where = "a+b = -1" if special else "generic"
                key = (special,)
                if not normalised:
                    res[key] = M
                    k = z3.Real("k")
                    at, bt, mt = a.t, b.t, m.t
                    # general degree m
                    lhs = sum((z3.RealVal(c) if isinstance(c, int) else c) * shift(mt, at, bt, k, dk=d) for d, c in action(at, bt, k).items())
                    rhs = z3.RealVal(0)
                    for off, row in zip(M.offsets, M.data):
                        rhs = rhs + to_real(row[1]) * shift(mt, at, bt, k, dn=-off, da=da, db=db)
                    identity(chk, tag + f"column of degree m >= 1, every power of t ({where})", func, pth.pc, lhs - rhs, replay, subst)
                    # degree 0 column: P_0 = 1, P_1 = (a+1) - (a+b+2) t
                    P = lambda r, x, y: {0: [z3.RealVal(1), z3.RealVal(0)], 1: [x + 1, -(x + y + 2)]}.get(r, [z3.RealVal(0)] * 2)
                    for kk in (0, 1):
                        kz = z3.RealVal(kk)
                        l = z3.RealVal(0)
                        for d, c in action(at, bt, kz).items():
                            if kk + d == 0:
                                l = l + c
                        r = z3.RealVal(0)
                        for off, row in zip(M.offsets, M.data):
                            if -off >= 0:
                                r = r + to_real(row[0]) * P(-off, at + da, bt + db)[kk]
                        identity(chk, tag + f"column of degree 0, power {kk} ({where})", func, pth.pc, l - r, replay, subst)
                else:
                    C = res.get(key)
                    if C is None or list(C.offsets) != list(M.offsets):
                        raise Unsupported("normalised and classical forms take different paths")
                    for i, off in enumerate(M.offsets):
                        for col, lab in ((0, "0"), (1, "m")):
                            if col == 0 and -off < 0:
                                continue
                            q = z3.Real(f"ratio({-off},{da},{db};{lab})")
                            identity(chk, tag + f"entry ({'degree ' + lab}, offset {off}) is the classical one times its norm ratio ({where})",
                                     func, pth.pc, to_real(M.data[i][col]) - to_real(C.data[i][col]) * q, replay, subst)
    for name, p in ACTION:
        if name == "B":
            continue
        chk.contract(f"operator {name}({p:+d})", f"{func0}.{name}({p:+d})", lambda name=name, p=p: one(name, p))


def ctx_eq(path, t):
    s = z3.Solver()
    s.add(*path.pc, z3.Not(t))
    return s.check() == z3.unsat


def norm(chk, dj):
    """norm_ratio against N(n,a,b) = 2^(a+b+1) G(n+a+1) G(n+b+1) / ((2n+a+b+1) G(n+a+b+1) n!)."""
    func = f"{JA}: norm_ratio"
    cases = [(0, 1, 0), (-1, 1, 0), (0, -1, 0), (1, -1, 0), (0, 1, -1), (0, -1, 1), (-1, 1, 1), (1, -1, -1),
             (0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (1, 0, -1), (-1, 0, 1), (0, 0, 0), (0, 1, 1), (2, 0, 0), (0, 2, 0), (-2, 0, 2)]

    def gam(x, d):
        """G(x+d)/G(x)"""
        r = z3.RealVal(1)
        for i in range(d):
            r = r * (x + i)
        for i in range(-d):
            r = r / (x - 1 - i)
        return r

    def reference(dn, da, db, n, a, b):
        s = a + b
        r = z3.RealVal(2) ** 0 * (z3.RealVal(2 ** (da + db)) if da + db >= 0 else 1 / z3.RealVal(2 ** -(da + db)))
        r = r * gam(n + a + 1, dn + da) * gam(n + b + 1, dn + db)
        r = r / gam(n + 1, dn)
        # (2n+s+1) G(n+s+1); at degree 0 it is G(s+2)
        z = lambda t: z3.is_rational_value(z3.simplify(t)) and z3.simplify(t).as_fraction() == 0
        n1, s1 = n + dn, s + da + db
        # H(n,s) = c * G(n+s+1+e): e = 1, c = 1 at degree 0; e = 0, c = 2n+s+1 otherwise
        c0, e0 = (z3.RealVal(1), 1) if z(n) else (2 * n + s + 1, 0)
        c1, e1 = (z3.RealVal(1), 1) if z(n1) else (2 * n1 + s1 + 1, 0)
        return r * c0 / c1 / gam(n + s + 1 + e0, dn + da + db + e1 - e0)

    def body():
        a, b = Real("a"), Real("b")
        for dn, da, db in cases:
            for deg in ("0", "1", "2", "m"):
                if deg != "m" and int(deg) + dn < 0:
                    continue
                n = Real("m") if deg == "m" else SymReal(z3.RealVal(int(deg)))
                pre = [a.t > -1, b.t > -1, a.t + da > -1, b.t + db > -1] + ([n.t >= 3, z3.IsInt(n.t)] if deg == "m" else [])
                replay = takes(lambda m=None, d=(dn, da, db): find_norm(dj, d))

                def run():
                    arr = np.empty(1, dtype=object)
                    arr[0] = n
                    with npf.facade(dj, extra={"int": int}):
                        return dj.norm_ratio(dn, da, db, arr, a, b, squared=True)[0]
                paths = sym.explore(run, pre)
                chk.paths += len(paths)
                for p in paths:
                    tag = f"norm ratio ({dn:+d},{da:+d},{db:+d}) at degree {deg}"
                    if p.exc is not None:
                        chk.ground(f"{tag}: no exception", func, False, detail=repr(p.exc), replay=replay)
                        continue
                    subst, where = [], "generic"
                    for v in range(-4, 5):
                        if ctx_eq(p, a.t + b.t == v):
                            subst, where = [(b.t, v - a.t)], f"a+b = {v}"
                    identity(chk, f"{tag} ({where})", func, p.pc, to_real(p.result) - reference(dn, da, db, n.t, a.t, b.t), replay, subst)
        # squared=False is the root of squared=True
        def run2():
            arr = np.empty(1, dtype=object)
            arr[0] = Real("m")

            class NPS(npf.NP):
                def sqrt(self, x, *a_, **k):
                    return ("sqrt", x)
            with npf.facade(dj, np=NPS(), extra={"int": int}):
                return dj.norm_ratio(0, 1, 0, arr, a, b), dj.norm_ratio(0, 1, 0, arr, a, b, squared=True)
        for p in sym.explore(run2, [a.t > -1, b.t > -1, z3.Real("m") >= 1, a.t + b.t != -1]):
            r = p.result
            ok = p.exc is None and isinstance(r[0], tuple) and r[0][0] == "sqrt" and z3.eq(z3.simplify(r[0][1][0].t), z3.simplify(r[1][0].t))
            chk.ground("norm ratio: the default is the square root of the squared ratio", func, ok,
                       replay=takes(lambda m=None: find_norm(dj, (0, 1, 0))))
    chk.contract("norm_ratio", func, body)


def logN(n, a, b):
    from math import lgamma, log
    s = a + b
    if n == 0:
        h = lgamma(s + 2)
    else:
        h = log(2 * n + s + 1) + lgamma(n + s + 1)
    return (s + 1) * log(2) + lgamma(n + a + 1) + lgamma(n + b + 1) - h - lgamma(n + 1)


PAIRS = [(-0.5, -0.5), (0, 0), (0.5, 0.5), (1, 0), (0, 1), (-0.5, 0.5), (1.5, 2.5), (-0.3, -0.7), (-0.9, 3), (2, -0.5), (0.25, 4.75)]


def find_norm(dj, d):
    dn, da, db = d
    for a, b in PAIRS:
        if a + da <= -1 or b + db <= -1:
            continue
        for sq in (False, True):
            n = np.arange(max(0, -dn), 8).astype(float)
            got = dj.norm_ratio(dn, da, db, n, a, b, squared=sq)
            ref = np.exp([(logN(x + dn, a + da, b + db) - logN(x, a, b)) * (1 if sq else 0.5) for x in n])
            if not np.allclose(got, ref, rtol=1e-9, atol=0):
                return {"function": "norm_ratio", "shift": d, "a": a, "b": b, "squared": sq, "got": got.tolist(), "expected": ref.tolist()}
    return None


# ------------------------------------------------------------------ operator algebra

class Wd:
    """Linear combination of words of letters ("A", (n, a, b)); product is concatenation."""

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v != 0}

    def __matmul__(self, o):
        out = {}
        for x, c in self.d.items():
            for y, e in o.d.items():
                out[x + y] = out.get(x + y, 0) + c * e
        return Wd(out)

    def __add__(self, o):
        out = dict(self.d)
        for y, e in o.d.items():
            out[y] = out.get(y, 0) + e
        return Wd(out)

    def __sub__(self, o):
        return self + o * (-1)

    def __mul__(self, s):
        return Wd({k: v * s for k, v in self.d.items()})
    __rmul__ = __mul__

    def __neg__(self):
        return self * (-1)

    def __truediv__(self, s):
        return self * (Fraction(1) / s if isinstance(s, int) else 1 / s)

    @property
    def T(self):
        return Wd({tuple(("T",) + l for l in reversed(k)): v for k, v in self.d.items()})

    @property
    def identity(self):
        return Wd({(): 1})

    @property
    def square(self):
        return Wd({(("square",) + (k,),): v for k, v in self.d.items()})

    def astype(self, t):
        return self
    tocsr = lambda self: self

    def __eq__(self, o):
        return isinstance(o, Wd) and self.d == o.d

    def __hash__(self):
        return 0

    def __repr__(self):
        return repr(self.d)


def lin(x):
    """A z3 linear integer/real term as a hashable normal form."""
    t = z3.simplify(to_real(x))
    vs = sorted(alg.variables(t))
    zero = [(c, z3.RealVal(0)) for c in alg.variables(t).values() if c.is_real()] + \
           [(c, z3.IntVal(0)) for c in alg.variables(t).values() if c.is_int()]
    val = lambda u: Fraction(z3.simplify(u).as_fraction())
    base = val(z3.substitute(t, *zero)) if zero else val(t)
    res = [("", base)]
    for nm in vs:
        c = alg.variables(t)[nm]
        one = [(v, (z3.RealVal if v.is_real() else z3.IntVal)(1 if v.eq(c) else 0)) for v in alg.variables(t).values()]
        k = val(z3.substitute(t, *one)) - base
        if k:
            res.append((nm, k))
    return tuple(res)


def dom(*x):
    return tuple(lin(v) for v in x)


def letter(op, name):
    return lambda *d: Wd({((name,) + dom(*d[:3]),): 1})


def algebra(chk, dj, ops):
    func = "libraries/dedalus_sphere/operators.py: Operator"
    fc = f"{JA}: JacobiCodomain"
    replay = takes(lambda m=None: find_operator("composition", 0))

    def codomains():
        v = lambda s: [Int(f"{x}{s}") for x in ("dn", "da", "db")]
        n, a, b = Int("n"), Real("a"), Real("b")
        for p1 in (0, 1):
            for p2 in (0, 1):
                def run():
                    with npf.facade(dj, extra={"int": int}):
                        c1, c2 = dj.JacobiCodomain(*v(1), p1), dj.JacobiCodomain(*v(2), p2)
                        both = (c1 + c2)(n, a, b, evaluate=False)
                        seq = c1(*c2(n, a, b, evaluate=False), evaluate=False)
                        back = (-c1)(*c1(n, a, b, evaluate=False), evaluate=False)
                        pi = (c1 + c2)[3]
                        return both, seq, back, pi
                for p in sym.explore(run):
                    if p.exc is not None:
                        chk.ground(f"codomain sum ({p1},{p2}): no exception", fc, False, detail=repr(p.exc), replay=replay)
                        continue
                    both, seq, back, pi = p.result
                    chk.obl(f"codomain ({p1},{p2}): (c1 + c2)(x) == c1(c2(x))", fc, p.pc, z3.And(*[to_real(x) == to_real(y) for x, y in zip(both, seq)]), replay=replay)
                    chk.obl(f"codomain ({p1}): (-c)(c(x)) == x", fc, p.pc, z3.And(*[to_real(x) == to_real(y) for x, y in zip(back, (n, a, b))]), replay=replay)
                    chk.ground(f"codomain ({p1},{p2}): reflections combine", fc, pi == p1 ^ p2, replay=replay)

        def run():
            with npf.facade(dj, extra={"int": int}):
                return dj.JacobiCodomain(1, -1, 0, 0)(n, a, b)
        for p in sym.explore(run, [a.t > -1, b.t > -1], allow=(ValueError,)):
            if p.exc is not None:
                chk.obl("codomain: rejected only outside a, b > -1", fc, p.pc, a.t - 1 <= -1, replay=replay)
            else:
                chk.obl("codomain: accepted only inside a, b > -1", fc, p.pc, a.t - 1 > -1, replay=replay)
    chk.contract("JacobiCodomain", fc, codomains)

    def compose():
        n, a, b = Int("n"), Real("a"), Real("b")
        Cod = dj.JacobiCodomain
        kinds = {"A": Cod(0, 1, 0, 0), "B": Cod(1, 0, -1, 0), "P": Cod(0, 0, 0, 1), "Q": Cod(0, 1, 0, 0), "Z": Cod(1, 0, 0, 0)}
        big = [a.t > 9, b.t > 9, n.t > 9]

        def shifted(c, x):
            nn, aa, bb = x
            if c[3]:
                aa, bb = bb, aa
            return (nn + c[0], aa + c[1], bb + c[2])

        def run():
            O = {k: ops.Operator(letter(None, k), c) for k, c in kinds.items()}
            x = (n, a, b)
            w = lambda k, at: Wd({((k,) + dom(*at),): 1})
            out = []
            for p, q in (("A", "B"), ("B", "A"), ("P", "A"), ("A", "P"), ("P", "P"), ("B", "P"), ("Z", "B")):
                out.append((f"({p} @ {q})(x) == {p}(codomain of {q} at x) @ {q}(x)", (O[p] @ O[q])(*x), w(p, shifted(kinds[q], x)) @ w(q, x)))
                out.append((f"codomain of {p} @ {q}", dom(*(O[p] @ O[q]).codomain(*x)), dom(*shifted(kinds[p], shifted(kinds[q], x)))))
            y = shifted(kinds["P"], x)
            z_ = shifted(kinds["A"], y)
            out.append(("P @ A @ P", (O["P"] @ O["A"] @ O["P"])(*x), w("P", z_) @ w("A", y) @ w("P", x)))
            x1 = shifted(kinds["B"], x)
            x2 = shifted(kinds["B"], x1)
            out.append(("B ** 3", (O["B"] ** 3)(*x), w("B", x2) @ w("B", x1) @ w("B", x)))
            out.append(("A ** 1", (O["A"] ** 1)(*x), w("A", x)))
            out.append(("A ** 0 is the identity", (O["A"] ** 0)(*x), Wd({(): 1})))
            out.append(("A + Q", (O["A"] + O["Q"])(*x), w("A", x) + w("Q", x)))
            out.append(("A - Q", (O["A"] - O["Q"])(*x), w("A", x) - w("Q", x)))
            out.append(("3 * A", (3 * O["A"])(*x), w("A", x) * 3))
            out.append(("A * 3", (O["A"] * 3)(*x), w("A", x) * 3))
            out.append(("-A", (-O["A"])(*x), w("A", x) * -1))
            out.append(("A / 2", (O["A"] / 2)(*x), w("A", x) * 0.5))
            out.append(("+A", (+O["A"])(*x), w("A", x)))
            out.append(("0 + A", (0 + O["A"])(*x), w("A", x)))
            back = (n - 1, a, b + 1)
            out.append(("B.T acts from the codomain of B back to its domain", O["B"].T(*x), w("B", back).T))
            out.append(("codomain of B.T", dom(*O["B"].T.codomain(*x)), dom(*back)))
            return out
        for p in sym.explore(run, big):
            if p.exc is not None:
                chk.ground("operator algebra: no exception", func, False, detail=repr(p.exc), replay=replay)
                continue
            for name, got, want in p.result:
                chk.ground(f"operator algebra: {name}", func, got == want, detail=f"{got} / {want}", replay=replay)
        # sums need compatible codomains
        def run2():
            O = {k: ops.Operator(letter(None, k), c) for k, c in kinds.items()}
            return O["A"] + O["P"]
        for p in sym.explore(run2, allow=(TypeError,)):
            chk.ground("operator algebra: a sum of incompatible operators is rejected", func, p.exc is not None, replay=replay, observable=False)
    chk.contract("Operator algebra", func, compose)

    def products():
        """B(p) is the reflection of A(p); Z is ((1+z) - (1-z))/2."""
        fb, fz = f"{JA}: JacobiOperator.B", f"{JA}: operator('Z')"
        n, a, b = Int("n"), Real("a"), Real("b")
        Cod = dj.JacobiCodomain
        log = []

        def fake_operator(name, normalised=True, dtype=None):
            log.append((name, normalised))
            if name == "Pi":
                return ops.Operator(letter(None, "Pi"), Cod(0, 0, 0, 1))
            return lambda p: ops.Operator(letter(None, f"{name}{p:+d}"), Cod((1 - p) // 2, p, 0, 0))
        for p in (+1, -1):
            def run():
                with npf.facade(dj, extra={"operator": fake_operator, "int": int}):
                    o = dj.JacobiOperator("B")(p)
                    return o.function(n, a, b), dom(*o.codomain(n, a, b))
            rp = takes(lambda m=None, p=p: find_operator("B", p))
            for pth in sym.explore(run, [a.t > 9, b.t > 9]):
                if pth.exc is not None:
                    chk.ground(f"B({p:+d}): no exception", fb, False, detail=repr(pth.exc), replay=rp)
                    continue
                got, cod = pth.result
                ok = isinstance(got, Wd) and len(got.d) == 1 and list(got.d.values()) == [1]
                (k,) = got.d if ok else ((),)
                # P_n^(b,a)(z) = (-1)^n P_n^(a,b)(-z)
                want = (("Pi",) + dom(n + (1 - p) // 2, b + p, a), (f"A{p:+d}",) + dom(n, b, a), ("Pi",) + dom(n, a, b))
                chk.ground(f"B({p:+d}) is A({p:+d}) at exchanged parameters between reflections", fb, ok and k == want, detail=str(got), replay=rp)
                chk.ground(f"B({p:+d}) codomain", fb, cod == dom(n + (1 - p) // 2, a, b + p), replay=rp)

        class FJO:
            def __init__(self, name, normalised=True, dtype=None):
                self.name, self.norm = name, normalised

            def __call__(self, p):
                c = Cod((1 - p) // 2, p, 0, 0) if self.name == "A" else Cod((1 - p) // 2, 0, p, 0)
                return ops.Operator(letter(None, f"{self.name}{p:+d}{'' if self.norm else ' classical'}"), c)
        for normd in (True, False):
            def run():
                with npf.facade(dj, extra={"JacobiOperator": FJO, "int": int}):
                    o = dj.operator("Z", normalised=normd)
                    return o(n, a, b), dom(*o.codomain(n, a, b))
            rp = takes(lambda m=None: find_operator("Z", 0))
            sfx = "" if normd else " classical"
            for pth in sym.explore(run, [a.t > 9, b.t > 9]):
                if pth.exc is not None:
                    chk.ground("Z: no exception", fz, False, detail=repr(pth.exc), replay=rp)
                    continue
                got, cod = pth.result
                x = dom(n, a, b)
                kB = (("B-1" + sfx,) + dom(n, a, b + 1), ("B+1" + sfx,) + x)
                kA = (("A-1" + sfx,) + dom(n, a + 1, b), ("A+1" + sfx,) + x)
                ok = isinstance(got, Wd) and {k: float(v) for k, v in got.d.items()} == {kB: 0.5, kA: -0.5}
                chk.ground(f"Z ({'normalised' if normd else 'classical'}) is ((1+z) - (1-z))/2 from the operators proved above", fz, ok, detail=str(got), replay=rp)
                chk.ground("Z codomain", fz, cod == dom(n + 1, a, b), replay=rp)
    chk.contract("products of operators", f"{JA}: operator", products)


# ------------------------------------------------------------------ polynomials

class ZBand:
    """banded(Z(n+1,a,b).T).data: row `off` holds Z.T[j-off, j] = Z[j, j-off] at column j (bands -1, 0, +1; 0 absent when the diagonal vanishes)."""

    def __init__(self, two, base):
        self.two, self.base = two, base
        self._vf_len = lambda: 2 if two else 3

    def __len__(self):
        return 2 if self.two else 3

    def __getitem__(self, ij):
        i, j = ij
        offs = (-1, 1) if self.two else (-1, 0, 1)
        off = offs[i]
        return ztok(self.base, j, j - off)


def ztok(base, r, c):
    def nm(x):
        if not sym.is_sym(x):
            return f"#{x}"
        d = z3.simplify(to_int(x) - base)
        if not z3.is_int_value(d):
            raise Unsupported("entry of Z not next to the degree")
        return f"k{d.as_long():+d}"
    t = z3.Real(f"Z[{nm(r)},{nm(c)}]")
    if nm(r) != nm(c):
        ctx().assume(t != 0)
    return SymReal(t)


class PArr:
    """P: reads below the loop index are the polynomials themselves (invariant), writes are recorded."""

    def __init__(self, n):
        self.n = n
        self.w = {}
        self.lo = None

    def key(self, k):
        return k if not sym.is_sym(k) else str(z3.simplify(to_int(k)))

    def __setitem__(self, k, v):
        ctx().require("P is written inside its bounds", z3.And(to_int(k) >= 0, to_int(k) <= to_int(self.n)))
        self.w[self.key(k)] = v

    def __getitem__(self, k):
        if isinstance(k, slice):
            ctx().require("the first n polynomials are returned", z3.And(z3.BoolVal(k.start is None and k.step is None), to_int(k.stop) == to_int(self.n)))
            return self
        if self.key(k) in self.w:
            return self.w[self.key(k)]
        if self.lo is None:
            raise Unsupported("read of an unset polynomial")
        ctx().require("only known polynomials are read", z3.And(to_int(k) >= 0, to_int(k) < self.lo))
        d = z3.simplify(to_int(k) - self.lo)
        if not z3.is_int_value(d):
            raise Unsupported("P read away from the loop index")
        return SymReal(z3.Real(f"p{d.as_long():+d}"))

    def astype(self, *a, **k):
        return self


class PLoop(loops.Cutter):
    """Invariant: P[j] is the polynomial of degree j for every j < k."""

    def __init__(self, n, two):
        self.n, self.two, self.k = n, two, Int("k")

    def enter(self, it, loc):
        if not isinstance(it, loops.Range) or it.step != 1 or not isinstance(loc.get("P"), PArr):
            raise Unsupported("not the loop of the contract")
        ctx().require("the recurrence starts at degree 2", to_int(it.first) == 2)
        ctx().require("the recurrence reaches the last degree asked for", to_int(it.last) >= to_int(self.n) - 1)
        ctx().require("the recurrence stays inside the array", to_int(it.last) <= to_int(self.n))
        P = loc["P"].w
        if set(P) != {0, 1}:
            raise Unsupported("not two starting polynomials")
        z, Z = z3.Real("z"), lambda r, c: z3.Real(f"Z[#{r},#{c}]")
        d = z3.RealVal(0) if self.two else Z(0, 0)
        ctx().side.append(("starting value is the given one", ctx().pc(), ("zero", to_real(P[0]) - z3.Real("init"))))
        ctx().side.append(("degree 1 satisfies z P_0 = Z[0,0] P_0 + Z[1,0] P_1", ctx().pc(),
                           ("zero", z * to_real(P[0]) - d * to_real(P[0]) - Z(1, 0) * to_real(P[1]))))

    def havoc(self, names, loc):
        if [x for x in names if x != "P"]:
            raise Unsupported("loop state")
        ctx().assume(z3.And(self.k.t >= 2, self.k.t <= to_int(self.n)))
        self.P = loc["P"]
        self.P.w, self.P.lo = {}, self.k.t
        return {}

    def index(self, loc):
        return self.k

    def preserve(self, loc):
        P = self.P.w
        key = self.P.key(self.k)
        ctx().require("exactly the polynomial of this degree is written", z3.BoolVal(set(P) == {key}))
        if key not in P:
            return
        z = z3.Real("z")
        Z = lambda r, c: z3.Real(f"Z[k{r:+d},k{c:+d}]")
        d = z3.RealVal(0) if self.two else Z(-1, -1)
        # column k-1 of Z: z P_{k-1} = Z[k-2,k-1] P_{k-2} + Z[k-1,k-1] P_{k-1} + Z[k,k-1] P_k
        ctx().side.append(("z P_{k-1} = Z[k-2,k-1] P_{k-2} + Z[k-1,k-1] P_{k-1} + Z[k,k-1] P_k", ctx().pc(),
                           ("zero", z * z3.Real("p-1") - Z(-2, -1) * z3.Real("p-2") - d * z3.Real("p-1") - Z(0, -1) * to_real(P[key]))))

    def leave(self, names, loc):
        self.P = loc["P"]
        self.P.w, self.P.lo = {}, self.k.t
        return {}


def polynomials(chk, dj):
    func = f"{JA}: polynomials"
    replay = takes(lambda m=None: find_polys())

    def body():
        for two in (True, False):
            for given in (True, False):
                n, a, b, z = Int("n"), Real("a"), Real("b"), Real("z")
                pre = [n.t >= 1, a.t > -1, b.t > -1]

                def run():
                    l1, l2 = PLoop(n, True), PLoop(n, False)
                    made = []

                    class ZOp:
                        def __call__(self, N, a_, b_):
                            ctx().require("Z covers the degrees used", z3.And(to_int(N) >= n.t + 1, to_real(a_) == a.t, to_real(b_) == b.t))
                            return types.SimpleNamespace(T="ZT")

                    def oper(name, normalised=True, dtype=None):
                        ctx().require("the recurrence comes from the normalised multiplication by z", z3.BoolVal(name == "Z" and normalised is True))
                        return ZOp()

                    class NPP(npf.NP):
                        def zeros(self, shape, *a_, **k):
                            ctx().require("room for n + 1 polynomials", to_int(shape) == n.t + 1)
                            made.append(PArr(n))
                            return made[-1]

                        def sqrt(self, x, *a_, **k):
                            r = z3.Real("rootmass")
                            ctx().assume(z3.And(r * r == x.t, r > 0))
                            return SymReal(r)
                    band = lambda m: types.SimpleNamespace(data=ZBand(two, z3.Int("k")))
                    ex = {"operator": oper, "banded": band, "range": loops.sym_range, "mass": lambda *x, **k: SymReal(z3.Real("mass"))}
                    with npf.facade(dj, np=NPP(), extra=ex):
                        ctx().assume(z3.Real("mass") > 0)
                        g = loops.cut(dj.polynomials, [l1, l2])
                        if given:
                            return g(n, a, b, z, SymReal(z3.Real("init"))), made
                        ctx().assume(z3.Real("init") * z3.Real("rootmass") == 1)
                        return g(n, a, b, z), made
                paths = sym.explore(run, pre, allow=(loops.Done,))
                chk.paths += len(paths)
                pre_ = f"polynomials ({'no diagonal' if two else 'diagonal'}, init {'given' if given else 'default'}): "
                for p in paths:
                    for name, pc, goal in p.ctx.side:
                        if isinstance(goal, tuple):
                            if not given and name.startswith("starting"):
                                chk.obl(pre_ + "default start is 1/sqrt(mass)", func, pc, goal[1] == 0, replay=replay)
                            else:
                                identity(chk, pre_ + name, func, pc, goal[1], replay)
                        else:
                            chk.obl(pre_ + name, func, pc, z3.BoolVal(goal) if isinstance(goal, bool) else goal, replay=replay)
                    if isinstance(p.exc, loops.Done):
                        continue
                    if p.exc is not None:
                        chk.ground(pre_ + "no exception", func, False, detail=repr(p.exc), replay=replay)
                        continue
                    r, made = p.result
                    chk.ground(pre_ + "the array of polynomials is returned", func, len(made) == 1 and r is made[0], replay=replay)
    chk.contract("polynomials", func, body)


# ------------------------------------------------------------------ tools.jacobi

def wrappers(chk, tj, dj, ops):
    func = f"{TJ}"

    def fake(log):
        Cod = dj.JacobiCodomain

        def operator(name, normalised=True, dtype=None):
            if normalised is not True:
                raise Unsupported("classical normalisation")
            if name == "Z":
                return ops.Operator(letter(None, "Z"), Cod(1, 0, 0, 0))
            sh = {"A": lambda p: Cod((1 - p) // 2, p, 0, 0), "B": lambda p: Cod((1 - p) // 2, 0, p, 0), "D": lambda p: Cod(-p, p, p, 0),
                  "C": lambda p: Cod(0, p, -p, 0)}[name]
            return lambda p: ops.Operator(letter(None, f"{name}{p:+d}"), sh(p))
        return types.SimpleNamespace(operator=operator)

    def body():
        N = Int("N")
        for a0, b0 in ((0.0, 0.0), (-0.5, -0.5), (0.5, -0.25)):
            for da in range(4):
                for db in range(4):
                    rp = takes(lambda m=None, c=(a0, b0, da, db): find_conversion(tj, [c]))

                    def run():
                        with npf.facade(tj, extra={"jacobi": fake(None), "int": int, "float": float}):
                            return tj.conversion_matrix(N, a0, b0, a0 + da, b0 + db)
                    for p in sym.explore(run, [N.t >= 1]):
                        tag = f"conversion ({a0},{b0}) by ({da},{db})"
                        if p.exc is not None:
                            chk.ground(f"{tag}: no exception", f"{func}: conversion_matrix", False, detail=repr(p.exc), replay=rp)
                            continue
                        got = p.result
                        ok = isinstance(got, Wd) and len(got.d) == 1 and list(got.d.values()) == [1]
                        if ok:
                            (word,) = got.d
                            at = dom(N, a0, b0)
                            val = [a0, b0]
                            for name, *d in reversed(word):
                                ok = ok and tuple(d) == dom(N, val[0], val[1]) and name in ("A+1", "B+1")
                                val[0 if name == "A+1" else 1] += 1
                            ok = ok and val == [a0 + da, b0 + db]
                        chk.ground(f"{tag}: steps of A(+1), B(+1), each at the parameters reached, from start to end", f"{func}: conversion_matrix",
                                   ok, detail=str(got), replay=rp)
        bad = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0.5, 0), (0, 0, 0, 0.5)]
        for args in bad:
            try:
                tj.conversion_matrix(4, *args)
                ok = False
            except ValueError:
                ok = True
            chk.ground(f"conversion {args} is rejected", f"{func}: conversion_matrix", ok,
                       replay=takes(lambda m=None, args=args: {"accepted conversion (a0, b0, a1, b1)": args}))
        a, b = Real("a"), Real("b")
        for fname, want in (("differentiation_matrix", "D+1"), ("jacobi_matrix", "Z")):
            def run():
                with npf.facade(tj, extra={"jacobi": fake(None), "int": int, "float": float}):
                    return getattr(tj, fname)(N, a, b)
            rp = takes(lambda m=None, w=want: find_operator(w[0], 1))
            for p in sym.explore(run, [N.t >= 1, a.t > -1, b.t > -1]):
                w = Wd({(("square", ((want,) + dom(N, a, b),)),): 1})
                chk.ground(f"{fname} is the square part of {want} at its arguments", f"{func}: {fname}", p.exc is None and p.result == w,
                           detail=repr(p.exc or p.result), replay=rp)
    chk.contract("tools.jacobi operators", func, body)


# ------------------------------------------------------------------ padding of multiplication matrices

def padding(chk, bs):
    func = "core/basis.py: Jacobi._last_axis_component_ncc_matrix"

    def lemma():
        """Truncated tridiagonal X_M: (X_M^d)[i,j] == (X^d)[i,j] whenever i + j + d <= 2M - 1 (i, j < M)."""
        M, d, i, j = z3.Ints("M d i j")
        P = z3.Function("power", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())    # X^d
        Q = z3.Function("truncated", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())  # X_M^d
        X = z3.Function("X", z3.IntSort(), z3.IntSort(), z3.RealSort())
        ih = lambda k: z3.Implies(z3.And(0 <= k, k < M, 0 <= j, j < M, k + j + d <= 2 * M - 1), Q(d, k, j) == P(d, k, j))
        band = lambda k: z3.Implies(z3.Or(k - j > d, j - k > d), P(d, k, j) == 0)
        inside = lambda k, t: z3.If(z3.And(k >= 0, k < M), t, 0)
        nonneg = lambda k, t: z3.If(k >= 0, t, 0)
        stepQ = Q(d + 1, i, j) == sum(inside(k, X(i, k) * Q(d, k, j)) for k in (i - 1, i, i + 1))
        stepP = P(d + 1, i, j) == sum(nonneg(k, X(i, k) * P(d, k, j)) for k in (i - 1, i, i + 1))
        pc = [d >= 0, M >= 1, 0 <= i, i < M, 0 <= j, j < M, i + j + d + 1 <= 2 * M - 1, stepQ, stepP]
        pc += [ih(k) for k in (i - 1, i, i + 1)] + [band(k) for k in (i - 1, i, i + 1)]
        chk.obl("truncation lemma: induction step on the power", "lemma: powers of a truncated tridiagonal matrix", pc, Q(d + 1, i, j) == P(d + 1, i, j))
        bpc = [d >= 0, stepP, i >= 0, z3.Or(i - j > d + 1, j - i > d + 1)] + [band(k) for k in (i - 1, i, i + 1)]
        chk.obl("truncation lemma: powers are banded", "lemma: powers of a truncated tridiagonal matrix", bpc, P(d + 1, i, j) == 0)
    chk.contract("truncation lemma", "lemma: powers of a truncated tridiagonal matrix", lemma)

    def body():
        N, da, db = Int("N"), Int("da"), Int("db")
        a, b, an, bn = Real("a"), Real("b"), Real("a_ncc"), Real("b_ncc")
        pre = [N.t >= 1, da.t >= 0, db.t >= 0, a.t > -1, b.t > -1, an.t > -1, bn.t > -1]
        replay = takes(lambda m=None: find_ncc())

        class Mt:
            def __init__(self, kind, size):
                self.kind, self.size = kind, size

            def __matmul__(self, o):
                ctx().require("matrices of one size are multiplied", to_int(self.size) == to_int(o.size))
                return Mt((self.kind, o.kind), self.size)

            def __rmul__(self, s):
                return Mt(("scaled", s, self.kind), self.size)
            __mul__ = __rmul__

            def __getitem__(self, ij):
                return Mt(("cut", ij, self.kind), self.size)

            tocsr = lambda self: self
            shape = property(lambda self: (self.size, self.size))

        def run():
            got = {}
            ncc = types.SimpleNamespace(a=an, b=bn)
            arg = types.SimpleNamespace(a=a, b=b, size=N)
            out = types.SimpleNamespace(a=a + da, b=b + db, size=N)

            def Jm(size):
                got["J"] = size
                return Mt("J", size)
            arg.Jacobi_matrix = Jm

            def rec(n, a_, b_, X):
                ctx().require("recurrence of the coefficient's own polynomials", z3.And(to_real(a_) == an.t, to_real(b_) == bn.t))
                ctx().require("enough recurrence coefficients", to_int(n) >= N.t)
                if not (isinstance(X, Mt) and X.kind == "J"):
                    raise Unsupported("recurrence argument")
                got["M"] = X.size
                return ("A", "B")

            def mat(c, A, B, f0, cutoff=None):
                if (A, B) != ("A", "B") or c != "coeffs":
                    raise Unsupported("Clenshaw arguments")
                ctx().require("first function is the constant polynomial of the coefficient's basis",
                              z3.BoolVal(isinstance(f0, Mt) and f0.kind == ("scaled", "P0", "I")))
                ctx().require("sizes agree", to_int(f0.size) == to_int(got["M"]))
                got["cutoff"] = cutoff
                return Mt("p(J)", f0.size)

            def conv(n, a0, b0, a1, b1):
                ctx().require("conversion from the argument's to the output's parameters",
                              z3.And(to_real(a0) == a.t, to_real(b0) == b.t, to_real(a1) == a.t + to_real(da), to_real(b1) == b.t + to_real(db)))
                return Mt("convert", n)

            def poly(n, a_, b_, x):
                ctx().require("constant polynomial at the coefficient's parameters", z3.And(to_real(a_) == an.t, to_real(b_) == bn.t, z3.BoolVal(n == 1)))
                return ["P0"]
            fk = types.SimpleNamespace
            ex = {"clenshaw": fk(jacobi_recursion=rec, matrix_clenshaw=mat), "jacobi": fk(conversion_matrix=conv),
                  "dedalus_sphere": fk(jacobi=fk(polynomials=poly)), "sparse": fk(identity=lambda n, *x, **k: Mt("I", n), eye=lambda n, *x, **k: Mt("I", n))}
            with npf.facade(bs, extra=ex):
                r = bs.Jacobi._last_axis_component_ncc_matrix(None, ncc, arg, out, fk(ravel=lambda: "coeffs"), None, None, None, None, None, None, "cutoff")
            return got, r
        paths = sym.explore(run, pre)
        chk.paths += len(paths)
        chk.sat_check("ncc padding", pre)
        for p in paths:
            side(chk, func, p, replay, "multiplication matrix: ")
            if p.exc is not None:
                chk.ground("multiplication matrix: no exception", func, False, detail=repr(p.exc), replay=replay)
                continue
            got, r = p.result
            ok = isinstance(r, Mt) and r.kind[0] == "cut" and r.kind[2] == ("convert", "p(J)") and got.get("cutoff") == "cutoff"
            chk.ground("multiplication matrix: leading block of conversion @ p(J)", func, ok, detail=str(getattr(r, "kind", r)), replay=replay)
            if not ok:
                continue
            sl = r.kind[1]
            good = isinstance(sl, tuple) and len(sl) == 2 and all(isinstance(s, slice) and s.start in (None, 0) and s.step in (None, 1) for s in sl)
            chk.ground("multiplication matrix: a leading block", func, good, replay=replay)
            chk.obl("multiplication matrix: N x N", func, p.pc, z3.And(*[to_int(s.stop) == N.t for s in sl]), replay=replay)
            M = to_int(got["M"])
            chk.obl("multiplication matrix: same size of all factors", func, p.pc, z3.And(to_int(r.size) == M, to_int(got["J"]) == M), replay=replay)
            i, j, c, d = z3.Ints("i j c d")
            inner = [0 <= i, i < N.t, 0 <= j, j < N.t, 0 <= d, d < N.t, i <= c, c <= i + da.t + db.t, c <= j + d]
            chk.obl("multiplication matrix: conversion sees every row that reaches a kept one", func, p.pc + inner, c < M, replay=replay)
            chk.obl("multiplication matrix: padding makes every kept entry exact", func, p.pc + inner, c + j + d <= 2 * M - 1, replay=replay)
    chk.contract("Jacobi multiplication matrix", func, body)


# ------------------------------------------------------------------ reference checks on the real code

def ref_polys(n, a, b, z):
    """Orthonormal Jacobi polynomials from scipy's evaluation of the classical ones."""
    from scipy.special import eval_jacobi
    z = np.atleast_1d(np.asarray(z, dtype=float))
    out = np.zeros((n, z.size))
    for k in range(n):
        out[k] = eval_jacobi(k, a, b, z) * math.exp(-0.5 * logN(k, a, b))
    return out


def exact_poly(n, a, b):
    """Coefficients of classical P_n^(a,b) in powers of z (Fractions)."""
    a, b = Fraction(a), Fraction(b)
    t = []
    for k in range(n + 1):
        c = Fraction(1)
        # binom(n, k) (n+a+b+1)_k (a+k+1)_{n-k} / n! (-t)^k
        for i in range(k):
            c *= (n + a + b + 1 + i)
        for i in range(n - k):
            c *= (a + k + 1 + i)
        c *= Fraction(math.comb(n, k), math.factorial(n)) * (-1) ** k
        t.append(c)
    out = [Fraction(0)] * (n + 1)
    for k, c in enumerate(t):
        for i in range(k + 1):
            out[i] += c * Fraction(math.comb(k, i) * (-1) ** i, 2 ** k)
    return out


def col_values(R, j, a, b, z):
    P = ref_polys(R.shape[0], a, b, z)
    return np.asarray(R.toarray())[:, j] @ P


def find_operator(name, p):
    from dedalus.libraries.dedalus_sphere import jacobi as dj
    names = [name] if name in "ABCDZ" and name else list("ABCDZ")
    for nm in names:
        for a, b in PAIRS:
            for q in ((p,) if p else (+1, -1)):
                bad = check_operator((nm, q, a, b, 6), dj)
                if bad:
                    return bad
    return None


def check_operator(case, dj):
    name, p, a, b, n = case
    z = np.array([-0.83, -0.31, 0.12, 0.47, 0.9])
    if name == "Z":
        sh, act = (1, 0, 0), lambda P, dP: z * P
        op = dj.operator("Z")
    else:
        sh = ACTION[name, p][1]
        act = {("A", 1): lambda P, dP: P, ("A", -1): lambda P, dP: (1 - z) * P, ("B", 1): lambda P, dP: P, ("B", -1): lambda P, dP: (1 + z) * P,
               ("C", 1): lambda P, dP: b * P + (1 + z) * dP, ("C", -1): lambda P, dP: a * P - (1 - z) * dP, ("D", 1): lambda P, dP: dP,
               ("D", -1): lambda P, dP: a * (1 + z) * P - b * (1 - z) * P - (1 - z * z) * dP}[name, p]
        op = dj.operator(name)(p)
    a1, b1 = a + sh[1], b + sh[2]
    if a1 <= -1 or b1 <= -1:
        return None
    R = op(n, a, b)
    cod = op.codomain(n, a, b)
    if tuple(cod) != (n + sh[0], a1, b1) or R.shape != (n + sh[0], n):
        return {"operator": name, "p": p, "a": a, "b": b, "n": n, "codomain": tuple(cod), "shape": R.shape, "expected": (n + sh[0], a1, b1)}
    from scipy.special import eval_jacobi
    P = ref_polys(n, a, b, z)
    for j in range(n):
        dP = np.zeros_like(z)
        if j:
            dP = 0.5 * (j + a + b + 1) * eval_jacobi(j - 1, a + 1, b + 1, z) * math.exp(-0.5 * logN(j, a, b))
        want = act(P[j], dP)
        got = col_values(R, j, a1, b1, z) if R.shape[0] else 0 * z
        if not np.allclose(got, want, rtol=1e-9, atol=1e-9 * max(1, np.max(np.abs(want)))):
            return {"operator": name, "p": p, "a": a, "b": b, "n": n, "degree": j, "at z": z.tolist(), "matrix gives": got.tolist(), "true": want.tolist()}
    return None


def find_polys():
    for a, b in PAIRS:
        bad = check_polys((a, b, 7))
        if bad:
            return bad
    return None


def check_polys(case):
    from dedalus.libraries.dedalus_sphere import jacobi as dj
    from dedalus.tools import jacobi as tj
    a, b, n = case
    z = np.array([-1.0, -0.6, 0.0, 0.35, 0.99, 1.0])
    ref = ref_polys(n, a, b, z)
    for f, label in ((lambda: dj.polynomials(n, a, b, z.copy()), "polynomials"), (lambda: tj.build_polynomials(n, a, b, z.copy()), "build_polynomials"),
                     (lambda: np.array([dj.polynomials(n, a, b, float(x)) for x in z]).T, "polynomials at a float")):
        got = f()
        if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-8, atol=1e-8):
            return {"function": label, "a": a, "b": b, "n": n, "got": got.tolist(), "expected": ref.tolist()}
    got = dj.polynomials(n, a, b, z.copy(), 2.0 + 0 * z)
    if not np.allclose(got, ref / ref[0] * 2, rtol=1e-8, atol=1e-8):
        return {"function": "polynomials with a given start", "a": a, "b": b, "n": n}
    return None


def find_conversion(tj, cs):
    for a0, b0, da, db in cs:
        for N in (1, 2, 5):
            bad = check_conversion((a0, b0, da, db, N), tj)
            if bad:
                return bad
    return None


def check_conversion(case, tj):
    a0, b0, da, db, N = case
    z = np.array([-0.9, -0.2, 0.4, 0.85])
    M = tj.conversion_matrix(N, a0, b0, a0 + da, b0 + db)
    if M.shape != (N, N):
        return {"conversion": case, "shape": M.shape}
    P, Q = ref_polys(N, a0, b0, z), ref_polys(N, a0 + da, b0 + db, z)
    if not np.allclose(M.toarray().T @ Q, P, rtol=1e-9, atol=1e-9 * np.max(np.abs(P))):
        return {"conversion (a0, b0, da, db, N)": case, "error": float(np.max(np.abs(M.toarray().T @ Q - P)))}
    return None


def check_tools(case, tj):
    a, b, N = case
    z = np.array([-0.95, -0.5, 0.05, 0.6, 0.99])
    from scipy.special import eval_jacobi
    P = ref_polys(N, a, b, z)
    # mass
    m = tj.mass(a, b)
    if abs(m - math.exp(logN(0, a, b))) > 1e-11 * m:
        return {"mass": m, "a": a, "b": b}
    # differentiation
    D = tj.differentiation_matrix(N, a, b).toarray()
    dP = np.array([0 * z if j == 0 else 0.5 * (j + a + b + 1) * eval_jacobi(j - 1, a + 1, b + 1, z) * math.exp(-0.5 * logN(j, a, b)) for j in range(N)])
    if D.shape != (N, N) or not np.allclose(D.T @ ref_polys(N, a + 1, b + 1, z), dP, rtol=1e-8, atol=1e-8 * max(1, np.max(np.abs(dP)))):
        return {"differentiation": (a, b, N)}
    # Jacobi matrix: z P_j for j < N-1
    J = tj.jacobi_matrix(N, a, b).toarray()
    if J.shape != (N, N) or not np.allclose((J.T @ P)[:N - 1], (z * P)[:N - 1], rtol=1e-9, atol=1e-9 * np.max(np.abs(P))):
        return {"jacobi matrix": (a, b, N)}
    if not np.allclose(J, J.T, atol=1e-13):
        return {"jacobi matrix is not symmetric": (a, b, N)}
    # quadrature: grid are the roots of P_N; weights integrate degree 2N-1 against the measure
    x, w = tj.build_grid(N, a, b), tj.build_weights(N, a, b)
    if x.shape != (N,) or np.any(np.diff(x) <= 0) or x[0] <= -1 or x[-1] >= 1:
        return {"grid": x.tolist(), "a": a, "b": b}
    Px = ref_polys(N + 1, a, b, x)
    if np.max(np.abs(Px[N])) > 1e-9 * np.max(np.abs(ref_polys(N + 1, a, b, np.array([-1.0, 1.0]))[N])) * N:
        return {"grid points are not the roots": x.tolist(), "a": a, "b": b}
    G = (w * Px[:N]) @ Px[:N].T
    if not np.allclose(G, np.eye(N), atol=1e-9):
        return {"quadrature of products of polynomials": (a, b, N), "error": float(np.max(np.abs(G - np.eye(N))))}
    if N >= 1 and not np.allclose((w * Px[N]) @ Px[:N].T, 0, atol=1e-9):
        return {"quadrature of degree 2N-1": (a, b, N)}
    # integration over dz
    v = tj.integration_vector(N, a, b)
    xs, ws = np.polynomial.legendre.leggauss(max(N, 2))
    ref = ref_polys(N, a, b, xs) @ ws
    if v.shape != (N,) or not np.allclose(v, ref, rtol=1e-9, atol=1e-10):
        return {"integration vector": v.tolist(), "expected": ref.tolist(), "a": a, "b": b}
    return None


def find_ncc():
    for a, b in ((-0.5, -0.5), (0.5, 0.5), (1.5, 1.5), (0, 0)):
        for N in (1, 2, 3, 4, 5, 6, 8):
            for d in (0, 1, 2, 4):
                for n in (0, 1):
                    bad = check_ncc((N, a + n, b + n, a, b, d, d, 0))
                    if bad:
                        return bad
    return None


def check_ncc(case):
    """Rows of the product matrix against projection of the true product (all coefficients up to degree N-1)."""
    import dedalus.public as d3
    N, an, bn, a, b, da, db, seed = case
    rng = np.random.default_rng(seed)
    c = d3.Coordinate("x")
    mk = lambda a_, b_: d3.Jacobi(c, size=N, bounds=(-1, 1), a=a_, b=b_)
    ncc, arg, out = mk(an, bn), mk(a, b), mk(a + da, b + db)
    f, u = rng.standard_normal(N), rng.standard_normal(N)
    M = d3.Jacobi._last_axis_component_ncc_matrix(None, ncc, arg, out, f, None, None, None, None, None, None, 0)
    from scipy.special import roots_jacobi
    z, w = roots_jacobi(2 * N + 2, a + da, b + db)
    prod = (f @ ref_polys(N, an, bn, z)) * (u @ ref_polys(N, a, b, z))
    want = (w * ref_polys(N, a + da, b + db, z)) @ prod
    got = M @ u
    if M.shape != (N, N) or not np.allclose(got, want, rtol=1e-8, atol=1e-8 * max(1, np.max(np.abs(want)))):
        return {"multiplication matrix (N, a_ncc, b_ncc, a, b, da, db, seed)": case, "got": got.tolist(), "expected": want.tolist()}
    # product with a single polynomial
    i = N // 2
    M1 = ncc.product_matrix(arg, out, i)
    prod = ref_polys(N, an, bn, z)[i] * (u @ ref_polys(N, a, b, z))
    want = (w * ref_polys(N, a + da, b + db, z)) @ prod
    if not np.allclose(M1 @ u, want, rtol=1e-8, atol=1e-8 * max(1, np.max(np.abs(want)))):
        return {"product_matrix": case, "degree": i}
    return None


def check_infinite(case, ops):
    from scipy import sparse
    r1, r2, c, seed = case
    rng = np.random.default_rng(seed)
    A, B = [rng.standard_normal((r, c)) * (rng.random((r, c)) < 0.7) for r in (r1, r2)]
    S = ops.infinite_csr(sparse.csr_matrix(A)) + ops.infinite_csr(sparse.csr_matrix(B))
    want = np.zeros((max(r1, r2), c))
    want[:r1] += A
    want[:r2] += B
    if S.shape != want.shape or not np.array_equal(S.toarray(), want):
        return {"sum of row-extendable matrices": case, "got": S.toarray().tolist(), "expected": want.tolist()}
    sq = ops.infinite_csr(sparse.csr_matrix(A)).square
    want = np.zeros((c, c))
    want[:min(r1, c)] = A[:min(r1, c)]
    if sq.shape != (c, c) or not np.array_equal(sq.toarray(), want):
        return {"square": case, "got": sq.toarray().tolist(), "expected": want.tolist()}
    X = ops.infinite_csr(sparse.csr_matrix(A))
    if not np.array_equal(X.T.toarray(), A.T) or not np.array_equal(X.identity.toarray(), np.eye(c)):
        return {"transpose or identity": case}
    return None


def bounded(chk, cl, dj, tj, ops):
    rng = np.random.default_rng(chk.seed)
    extra = [tuple(np.round(64 * rng.uniform(-0.95, 5, 2)) / 64) for _ in range(20 if chk.thorough else 5)]
    pairs = PAIRS + extra
    sizes = (1, 2, 3, 4, 5, 8, 13, 24) + ((48, 64) if chk.thorough else ())
    chk.bounded("Clenshaw sums", "1..9 terms, 4 seeds, all variants",
                ((f, s, N, q) for f, s in (("scalar_clenshaw", None), ("matrix_clenshaw", "X"), ("kronecker_clenshaw", ("C", "X")), ("kronecker_clenshaw", ("X", "C")))
                 for N in range(1, 10) for q in range(4)), lambda c: check_clenshaw(c, cl), key=lambda c: c[0])
    chk.bounded("recurrence coefficients", f"{len(pairs)} parameter pairs, N 1, 2, 9", ((a, b, N) for a, b in pairs for N in (1, 2, 9)),
                lambda c: check_recursion(c, cl), key="jacobi_recursion")
    chk.bounded("operator matrices against the polynomials", f"{len(pairs)} parameter pairs, degrees below 1..12",
                ((nm, p, a, b, n) for nm in "ABCDZ" for p in (1, -1) for a, b in pairs for n in (1, 2, 3, 12) if nm != "Z" or p == 1),
                lambda c: check_operator(c, dj), key=lambda c: f"operator {c[0]}")
    chk.bounded("polynomial evaluation", f"{len(pairs)} parameter pairs", ((a, b, n) for a, b in pairs for n in (1, 2, 3, 10)), check_polys, key="polynomials")
    chk.bounded("norm ratios", "shifts in -2..2", ((dn, da, db) for dn in range(-2, 3) for da in range(-2, 3) for db in range(-2, 3)),
                lambda c: find_norm(dj, c), key="norm_ratio")
    chk.bounded("conversion matrices", f"{len(pairs)} parameter pairs, steps 0..4, N 1..9",
                ((a, b, da, db, N) for a, b in pairs for da in range(4) for db in range(4) for N in (1, 2, 4, 9)), lambda c: check_conversion(c, tj), key="conversion_matrix")
    chk.bounded("masses, grids, weights, differentiation, recurrence and integration", f"{len(pairs)} parameter pairs, N in {sizes}",
                ((a, b, N) for a, b in pairs for N in sizes), lambda c: check_tools(c, tj), key="tools.jacobi")
    bases = [(-0.5, -0.5), (0, 0), (0.5, 0.5), (1.5, 1.5), (0.25, 1)]
    chk.bounded("multiplication matrices against projected products", "N 1..12, conversions 0..5",
                ((N, an, bn, a, b, d, e, N) for N in (1, 2, 3, 4, 5, 6, 7, 8, 12) for an, bn in bases for a, b in bases for d, e in ((0, 0), (1, 1), (2, 2), (0, 1), (3, 0), (5, 5))),
                check_ncc, key="multiplication matrix", budget=120 if not chk.thorough else 500)
    chk.bounded("row-extendable sparse matrices", "shapes up to 5x4", ((i, j, c, i + 7 * j) for i in range(1, 6) for j in range(1, 6) for c in range(1, 5)),
                lambda c: check_infinite(c, ops), key="infinite_csr")

    def parity():
        for n in (1, 2, 3, 8):
            M = dj.operator("Pi")(n, 0.5, 1.5).toarray()
            if not np.array_equal(M, np.diag((-1.0) ** np.arange(n))) or not np.array_equal(dj.operator("Id")(n, 0, 0).toarray(), np.eye(n)):
                return {"parity or identity": n}
            if not np.array_equal(dj.operator("N")(n, 0, 0).toarray(), np.diag(np.arange(n))):
                return {"number": n}
    chk.bounded("identity, parity and number operators", "n 1..8", [0], lambda c: parity(), key="parity")


def run(chk):
    from dedalus.tools import clenshaw as cl, jacobi as tj
    from dedalus.libraries.dedalus_sphere import jacobi as dj, operators as ops
    from dedalus.core import basis as bs
    chk.trust("sympy.polys rational function normal form (QQ)")
    chk.trust("shift rules of Pochhammer symbols and of the Gamma function (x G(x) = G(x+1))")
    chk.trust("scipy sparse products and sums, scipy.special.beta/gammaln")
    chk.assume("floating point arithmetic is treated as real arithmetic in the proofs; the reference checks bound it on the listed cases")
    chk.assume("operand, coefficient and output bases of a product have one size (other sizes raise when the product is evaluated)")
    chk.parallel([
        lambda c: (clenshaw(c, cl), recursion(c, cl), algebra(c, dj, ops), wrappers(c, tj, dj, ops)),
        lambda c: (entries(c, dj), polynomials(c, dj), padding(c, bs)),
        lambda c: norm(c, dj),
        lambda c: bounded(c, cl, dj, tj, ops),
    ])
