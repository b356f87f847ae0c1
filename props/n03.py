"""N03: every matrix solver solves its system (and its adjoint, where offered).

Contracts (real solver classes of libraries/matsolvers.py run on symbolic matrices and right-hand sides)
  Matrices and vectors are elements of the free algebra over letters (name, conjugated, transposed, inverted) with integer
  coefficients: product, sum, transpose and conjugate are exact, X X^-1 = X^-1 X = 1 are rewrite rules.  Nothing is assumed
  about size or entries.  The library routines (SciPy factorizations and solves, and the optional UMFPACK, SuiteSparseQR and
  pybanded) appear by their documented contracts; a call outside a documented contract is reported as undischarged.
    __init__(matrix), solve(v):  matrix @ solve(v) = v and solve(v) has v's shape, for 1-D, one-column and multi-column v;
    solve_H(v):                  matrix^H @ solve_H(v) = v;
    the matrix given is not modified, and later changes of it by the caller do not reach the solver where it copies.
  Woodbury: for any border contents U, V that __init__ forms, with A = matrix - U V solvable by the wrapped solver and
    I + V A^-1 U nonsingular: matrix @ solve(Y) = Y (rewriting V A^-1 U -> S - 1).
  scipy_sparse_eigs: the operator handed to ARPACK is x -> (A - target B)^-1 B x, for left vectors (A - target B)^-H B^H x, and
    an ARPACK eigenvalue mu is returned as 1/mu + target (conj(target) for left vectors), with ARPACK's vectors unchanged.
  BandedSolver.sparse_to_banded: for any number of diagonals at any offsets and any size: diagonal k goes to row u - offset_k,
    inside the array, different diagonals to different rows, bandwidths (l, u) bound every diagonal: entry (i, j) is at
    ab[u + i - j, j], the form solve_banded documents.
The optional back ends are not installed: for them only the wrapper code is checked, against the documented contract."""

import contextlib
import sys
import types

import numpy as np
import z3

from vf import sym
from vf.poly import P
from vf.sym import Int, Unsupported, ctx, to_int

PATH = "libraries/matsolvers.py"


def takes(f):
    f.takes_none = True
    return f


# --------------------------------------------------------------------------- free algebra

def L(name, c=False, t=False, inv=False):
    return (name, c, t, inv)


def conj_scalar(k):
    """Conjugate of a polynomial: the variable s* is the conjugate of s."""
    if not isinstance(k, P):
        return k
    flip = lambda v: v[:-1] if v.endswith("*") else v + "*"
    return P({tuple(sorted(flip(v) for v in m)): q for m, q in k.d.items()})

RULES = []      # rewriting of words: list of (tuple lhs, {word: coeff})


def reduce(d):
    out = {}
    todo = list(d.items())
    steps = 0
    while todo:
        w, k = todo.pop()
        steps += 1
        if steps > 4000:
            raise Unsupported("word reduction does not end")
        for i in range(len(w) - 1):
            a, b = w[i], w[i + 1]
            if a[:3] == b[:3] and a[3] != b[3]:
                todo.append((w[:i] + w[i + 2:], k))
                break
        else:
            for lhs, rhs in RULES:
                hit = next((i for i in range(len(w) - len(lhs) + 1) if w[i:i + len(lhs)] == lhs), None)
                if hit is not None:
                    todo += [(w[:hit] + r + w[hit + len(lhs):], k * q) for r, q in rhs.items()]
                    break
            else:
                out[w] = out.get(w, 0) + k
    return {w: k for w, k in out.items() if (k.d if isinstance(k, P) else k)}


class W:
    """An element of the free algebra with a shape (symbolic dimensions are strings) and a storage kind."""
    __array_ufunc__ = None
    __array_priority__ = 100

    def __init__(self, d, shape, kind):
        self.d, self.shape, self.kind = reduce(d), tuple(shape), kind
        self.writes = 0

    ndim = property(lambda s: len(s.shape))
    dtype = property(lambda s: "dtype")

    @property
    def size(self):
        raise Unsupported("size of a symbolic matrix")

    def _new(self, d, shape=None, kind=None):
        return W(d, self.shape if shape is None else shape, kind or self.kind)

    @property
    def T(self):
        if self.ndim != 2:
            return self
        return self._new({tuple((n, c, not t, i) for n, c, t, i in reversed(w)): k for w, k in self.d.items()}, self.shape[::-1])

    def transpose(self):
        return self.T

    def conj(self):
        return self._new({tuple((n, not c, t, i) for n, c, t, i in w): conj_scalar(k) for w, k in self.d.items()})
    conjugate = conj

    @property
    def H(self):
        return self.conj().T

    def getH(self):
        return self.conj().T

    def copy(self):
        return self._new(dict(self.d))

    def _conv(self, kind):
        if self.kind not in ("csr", "csc", "coo", "dia", "bsr"):
            raise AttributeError(f"dense arrays have no to{kind}")
        return self._new(dict(self.d), kind=kind)

    def tocsc(self, copy=False):
        return self._conv("csc")

    def tocsr(self, copy=False):
        return self._conv("csr")

    def tocoo(self, copy=False):
        return self._conv("coo")

    def toarray(self):
        return self._conv("dense")

    def todense(self):
        raise Unsupported("todense (np.matrix)")

    def astype(self, dtype, **kw):
        return self._new(dict(self.d))

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if shape == self.shape:
            return self._new(dict(self.d))
        if self.shape == (1,) and shape == (1, 1):
            return self._new(dict(self.d), shape)
        if self.ndim == 1 and shape in ((self.shape[0], 1), (-1, 1)):
            return self._new(dict(self.d), (self.shape[0], 1))
        if self.ndim == 2 and self.shape[1] == 1 and shape == (self.shape[0],):
            return self._new(dict(self.d), shape)
        raise Unsupported("reshape")

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[1] is None and self.ndim == 1 and key[0] in (slice(None), Ellipsis):
            return self.reshape(self.shape[0], 1)
        if isinstance(key, tuple) and len(key) == 2 and self.ndim == 2 and key[0] == slice(None) and key[1] == 0 and self.shape[1] == 1:
            return self.reshape((self.shape[0],))
        if isinstance(key, tuple) and len(key) == 2 and self.ndim == 2:
            return Block(self, key)
        raise Unsupported("indexing a symbolic matrix")

    def __setitem__(self, key, value):
        # any update in place makes the value unknown: a new letter
        self.writes += 1
        name = f"{getattr(self, 'stem', 'written')}{self.writes}"
        self.d = {(L(name),): 1}

    def __matmul__(self, o):
        if isinstance(o, Block):
            raise Unsupported("product with a slice")
        if not isinstance(o, W):
            return NotImplemented
        if self.ndim != 2 and self.shape != (1,):
            raise Unsupported("vector on the left of a product")
        if self.shape[-1] != o.shape[0]:
            raise ValueError(f"matmul: mismatch of {self.shape} and {o.shape}")
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                d[a + b] = d.get(a + b, 0) + x * y
        dense = "dense" if "dense" in (self.kind, o.kind) else self.kind
        return W(d, self.shape[:-1] + o.shape[1:], dense)

    dot = __matmul__

    def _lin(self, o, s):
        if not isinstance(o, W):
            return NotImplemented
        if o.shape != self.shape:
            raise Unsupported(f"sum of shapes {self.shape} and {o.shape}")
        d = dict(self.d)
        for w, k in o.d.items():
            d[w] = d.get(w, 0) + s * k
        return W(d, self.shape, "dense" if "dense" in (self.kind, o.kind) else self.kind)

    def __add__(self, o):
        return self._lin(o, 1)

    def __sub__(self, o):
        return self._lin(o, -1)

    def __neg__(self):
        return self._new({w: -k for w, k in self.d.items()})

    def __pos__(self):
        return self._new(dict(self.d))

    def __mul__(self, o):
        if isinstance(o, (int, P)):
            return self._new({w: o * k for w, k in self.d.items()})
        if isinstance(o, W) and (self.kind == "dense" or o.kind == "dense"):
            raise Unsupported("elementwise product")
        return NotImplemented
    __rmul__ = __mul__

    def __eq__(self, o):
        raise Unsupported("comparison of matrices")
    __hash__ = object.__hash__

    def __repr__(self):
        word = lambda w: "".join(n + ("*" if c else "") + ("'" if t else "") + ("^-1" if i else "") + " " for n, c, t, i in w) or "1 "
        return " + ".join(f"{k}*{word(w)}" for w, k in sorted(self.d.items())) or "0"


class Block:
    """A slice of a symbolic matrix: only used as the content of another symbolic matrix."""
    def __init__(self, of, key):
        self.of, self.key = of, key

    def toarray(self):
        if self.of.kind == "dense":
            raise AttributeError("dense arrays have no toarray")
        return self


def invert(m):
    """Letter for the inverse of a matrix: of a single letter its inverse letter, of anything else a named inverse."""
    (w, k), = m.d.items() if len(m.d) == 1 else [(None, 0)]
    if k == 1 and len(w) == 1:
        n, c, t, i = w[0]
        return W({((n, c, t, not i),): 1}, m.shape, "dense")
    raise Unsupported("inverse of a composite matrix")


def square(m):
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise ValueError("expected a square matrix")


class Calls:
    def __init__(self):
        self.bad = []

    def check(self, ok, what):
        if not ok:
            self.bad.append(what)


def rhs_like(m, v, one_column_flattens=False):
    if not isinstance(v, W) or not isinstance(m, W):
        raise Unsupported("library called on something that is not a matrix and a vector")
    if v.kind != "dense":
        raise Unsupported("sparse right-hand side")
    x = invert(m) @ v
    if one_column_flattens and v.ndim == 2 and v.shape[1] == 1:
        x = x.reshape((v.shape[0],))
    return x


class LU:
    """SciPy's SuperLU object: solve(rhs, trans) with rhs 1-D or 2-D, result of the same shape."""
    def __init__(self, m):
        self.m = W(dict(m.d), m.shape, "csc")

    def solve(self, rhs, trans="N"):
        if trans not in ("N", "T", "H"):
            raise ValueError("trans must be N, T, or H")
        return rhs_like({"N": self.m, "T": self.m.T, "H": self.m.H}[trans], rhs)


class Umf:
    def __init__(self, m):
        self.m = W(dict(m.d), m.shape, "csc")

    def solve(self, b):
        return rhs_like(self.m, b)


class Banded:
    def __init__(self, m):
        self.m = m


class PyQR:
    def __init__(self, b):
        if not isinstance(b, Banded):
            raise TypeError("BandedQR takes a BandedMatrix")
        self.m = b.m

    def solve(self, v):
        return rhs_like(self.m, v)


def make_libs(log):
    def splu(A, permc_spec=None, diag_pivot_thresh=None, relax=None, panel_size=None, options=None):
        square(A)
        log.check(A.kind in ("csc", "csr"), "splu of a matrix that is not CSC")
        log.check(permc_spec in (None, "NATURAL", "MMD_ATA", "MMD_AT_PLUS_A", "COLAMD"), f"permc_spec {permc_spec!r}")
        log.check(not options, "SuperLU options")
        if A.kind == "csr":
            raise Unsupported("splu of CSR")
        return LU(A)

    def spsolve(A, b, permc_spec=None, use_umfpack=True):
        square(A)
        log.check(A.kind in ("csc", "csr"), "spsolve of a dense matrix")
        return rhs_like(A, b, one_column_flattens=True)

    def sinv(A):
        square(A)
        log.check(A.kind == "csc", "sparse inverse of a matrix that is not CSC")
        if A.shape[0] == 1:
            x = invert(A)
            return W(x.d, (1,), "dense")      # SciPy: spsolve on a 1x1 system returns a 1-D array
        x = invert(A)
        x.kind = "csc"
        return x

    def dinv(A, **kw):
        square(A)
        if A.kind != "dense":
            raise ValueError("dense inverse of a sparse matrix")
        return invert(A)

    def lu_factor(A, overwrite_a=False, check_finite=True):
        square(A)
        if A.kind != "dense":
            raise ValueError("lu_factor of a sparse matrix")
        return ("lu", W(dict(A.d), A.shape, "dense"))

    def lu_solve(lu, b, trans=0, overwrite_b=False, check_finite=True):
        if not (isinstance(lu, tuple) and lu[0] == "lu") or overwrite_b:
            raise Unsupported("lu_solve")
        return rhs_like({0: lu[1], 1: lu[1].T, 2: lu[1].H}[trans], b)

    def solve_banded(l_and_u, ab, b, overwrite_ab=False, overwrite_b=False, check_finite=True):
        if not isinstance(ab, tuple) or ab[0] != "banded" or overwrite_b or overwrite_ab:
            raise Unsupported("solve_banded")
        log.check(tuple(l_and_u) == ab[2], "bandwidths not in the order (l, u)")
        return rhs_like(ab[1], b)

    def solve_dense(a, b, **kw):
        if a.kind != "dense" or kw:
            raise Unsupported("sla.solve")
        return rhs_like(a, b)

    spla = types.SimpleNamespace(splu=splu, spsolve=spsolve, inv=sinv)
    sla = types.SimpleNamespace(inv=dinv, lu_factor=lu_factor, lu_solve=lu_solve, solve_banded=solve_banded, solve=solve_dense)

    def as_sparse(kind):
        def conv(m, *a, **k):
            if not isinstance(m, W):
                raise Unsupported("sparse matrix of something else")
            return W(dict(m.d), m.shape, kind)
        return conv
    sp = types.SimpleNamespace(csr_matrix=as_sparse("csr"), csc_matrix=as_sparse("csc"), dia_matrix=as_sparse("dia"), coo_matrix=as_sparse("coo"),
                               issparse=lambda m: isinstance(m, W) and m.kind != "dense")
    return spla, sla, sp


class NP:
    """The few NumPy functions the wrappers use, on symbolic matrices."""
    linalg = None

    def __init__(self):
        self.made = 0

    @staticmethod
    def conj(x):
        return x.conj()
    conjugate = conj

    def zeros(self, shape, dtype=None):
        self.made += 1
        w = W({}, shape, "dense")
        w.stem = f"Z{self.made}_"
        return w

    @staticmethod
    def identity(n, dtype=None):
        return W({(): 1}, (n, n), "dense")
    eye = identity

    @staticmethod
    def transpose(x):
        return x.T

    def __getattr__(self, name):
        raise Unsupported(f"np.{name} in a solver wrapper")


@contextlib.contextmanager
def stubs(ms, log, banded=True):
    spla, sla, sp = make_libs(log)
    names = {"np": NP(), "spla": spla, "sla": sla, "sp": sp}
    saved = {k: ms.__dict__.get(k) for k in names}
    umf = types.SimpleNamespace(splu=Umf, spsolve=spla.spsolve)
    mods = {"scikits": types.SimpleNamespace(umfpack=umf), "scikits.umfpack": umf,
            "sparseqr": types.SimpleNamespace(solve=lambda A, b: rhs_like(A, b)),
            "pybanded": types.SimpleNamespace(BandedMatrix=types.SimpleNamespace(from_sparse=lambda m: Banded(W(dict(m.d), m.shape, m.kind))), BandedQR=PyQR)}
    smods = {k: sys.modules.get(k) for k in mods}
    ms.__dict__.update(names)
    sys.modules.update(mods)
    old = ms.BandedSolver.__dict__["sparse_to_banded"]
    if banded:
        ms.BandedSolver.sparse_to_banded = staticmethod(lambda matrix, u=None, l=None: (("l", "u"), ("banded", W(dict(matrix.d), matrix.shape, "csr"), ("l", "u"))))
    try:
        yield
    finally:
        ms.__dict__.update(saved)
        ms.BandedSolver.sparse_to_banded = old
        for k, v in smods.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


SKIP = {"dummysolver": "documented to return zeros, for testing",
        "blockinverse": "cannot be constructed at this commit: it imports dedalus.tools.sparse, which does not exist (fails loudly)"}


def matrix(n="n"):
    return W({(L("M"),): 1}, (n, n), "csr")


def rhss(n="n"):
    return [("1-D", W({(L("b"),): 1}, (n,), "dense")),
            ("one column", W({(L("b"),): 1}, (n, 1), "dense")),
            ("several columns", W({(L("b"),): 1}, (n, "k"), "dense"))]


def same(x, y):
    return isinstance(x, W) and x.d == y.d and x.shape == y.shape


def solver_contract(chk, ms, name, cls):
    func = f"{PATH}: {cls.__name__}"

    def body():
        log = Calls()
        ran = []
        for n in ("n", 1):
            for label, b in rhss(n):
                for op in ("solve", "solve_H"):
                    if op == "solve_H" and cls.solve_H is ms.SolverBase.solve_H:
                        continue

                    def run(n=n, b=b, op=op):
                        with stubs(ms, log):
                            M = matrix(n)
                            rep = dict(M.d)
                            s = cls(M, types.SimpleNamespace())
                            kept = dict(b.d)
                            x = getattr(s, op)(b)
                            return M, x, M.d == rep and b.d == kept
                    for i, p in enumerate(sym.explore(run, [], allow=(Exception,))):
                        if isinstance(p.exc, Unsupported):
                            raise p.exc
                        what = f"{name}, size {n}, {label}: "
                        if p.exc is not None:
                            chk.ground(what + f"{op} returns [{i}]", func, False, repr(p.exc), replay=replay_for(name))
                            continue
                        M, x, intact = p.result
                        A = M if op == "solve" else M.H
                        ok = isinstance(x, W) and x.shape == b.shape
                        chk.ground(what + f"{op} keeps the shape [{i}]", func, ok, repr(getattr(x, "shape", None)), replay=replay_for(name))
                        if not ok:
                            continue
                        y = A @ x
                        chk.ground(what + f"{'matrix' if op == 'solve' else 'adjoint'} times {op}(b) is b [{i}]", func, y.d == b.d, f"product is {y!r}", replay=replay_for(name))
                        chk.ground(what + f"{op}: arguments untouched [{i}]", func, intact, replay=replay_for(name))
                        ran.append(1)
        chk.ground(f"{name}: library calls within their contracts", func, not log.bad, log.bad, replay=replay_for(name), observable=False)
    chk.contract(f"{name}: solve inverts the matrix given", func, body)


def woodbury_contract(chk, ms):
    func = f"{PATH}: Woodbury"

    class Inner:
        """Any wrapped solver, by contract: solves the matrix it was given."""
        def __init__(self, A, solver=None):
            self.A = W(dict(A.d), A.shape, "csr")
            Inner.last = self

        def solve(self, v):
            x = W({(L("A", inv=True),): 1}, self.A.shape, "dense") @ v
            return x

    class Rank:
        """Symbolic border width: multiples of R and slices from or to R or -R."""
        def __init__(self, k=1):
            self.k = k

        def __mul__(self, o):
            return Rank(self.k * o)
        __rmul__ = __mul__

        def __neg__(self):
            return Rank(-self.k)

        def __eq__(self, o):
            return isinstance(o, Rank) and o.k == self.k

        def __hash__(self):
            return hash(self.k)

        def __repr__(self):
            return f"{self.k}R"

        def __bool__(self):
            return True

    def body():
        RULES.clear()
        log = Calls()
        try:
            for label, b in rhss():
                def run(b=b):
                    RULES.clear()
                    with stubs(ms, log):
                        M = matrix()
                        s = ms.Woodbury(M, types.SimpleNamespace(update_rank=Rank()), Inner)
                        # M = A + (M - A), with A whatever was given to the wrapped solver
                        A = Inner.last.A
                        D = M - A
                        # inverse of the capacitance matrix and rewriting were set up by dinv below
                        x = s.solve(b)
                        return M, D, x
                saved_invert = globals()["invert"]
                caps = []

                def invert2(m):
                    if len(m.d) == 1 and len(next(iter(m.d))) == 1:
                        return saved_invert(m)
                    # S = 1 + sum of words: pick the last long word as the eliminated one
                    name = f"S{len(caps)}"
                    caps.append(m)
                    longw = max(m.d, key=len)
                    if len(longw) < 2 or abs(m.d[longw]) != 1:
                        raise Unsupported("inverse of a composite matrix")
                    k = m.d[longw]
                    rhs = {(L(name),): k}
                    for w, q in m.d.items():
                        if w != longw:
                            rhs[w] = rhs.get(w, 0) - k * q
                    RULES.append((longw, rhs))
                    return W({(L(name, inv=True),): 1}, m.shape, "dense")
                globals()["invert"] = invert2
                try:
                    paths = sym.explore(run, [], allow=(Exception,))
                finally:
                    globals()["invert"] = saved_invert
                for i, p in enumerate(paths):
                    if isinstance(p.exc, Unsupported):
                        raise p.exc
                    if p.exc is not None:
                        chk.ground(f"Woodbury, {label}: solve returns [{i}]", func, False, repr(p.exc), replay=replay_for("woodbury"))
                        continue
                    M, D, x = p.result
                    ok = isinstance(x, W) and x.shape == b.shape
                    chk.ground(f"Woodbury, {label}: solve keeps the shape [{i}]", func, ok, replay=replay_for("woodbury"))
                    if ok:
                        Aw = W({(L("A"),): 1}, M.shape, "csr")
                        y = (Aw + W(dict(D.d), M.shape, "csr")) @ x
                        chk.ground(f"Woodbury, {label}: matrix times solve(Y) is Y for any border [{i}]", func, y.d == b.d, f"product is {y!r}", replay=replay_for("woodbury"))
        finally:
            RULES.clear()
    chk.contract("Woodbury: solve inverts the full matrix", func, body)


# --------------------------------------------------------------------------- targeted eigenvalue search

def eigs_contract(chk):
    from dedalus.tools import array as ta
    func = "tools/array.py: scipy_sparse_eigs"

    class Eigenvalues:
        def __init__(self, j, inv=False, shift=None):
            self.j, self.inv, self.shift = j, inv, shift

        def __rtruediv__(self, o):
            if o != 1 or self.inv or self.shift is not None:
                raise Unsupported("function of eigenvalues")
            return Eigenvalues(self.j, True)

        def __add__(self, o):
            if self.shift is not None or not isinstance(o, P):
                raise Unsupported("function of eigenvalues")
            return Eigenvalues(self.j, self.inv, o)
        __radd__ = __add__

    def body():
        for left in (False, True):
            s = P.var("s")
            ops = []

            class C:
                def __init__(self, m, solver=None):
                    C.m = W(dict(m.d), m.shape, "csr")

                def solve(self, v):
                    return W({(L("C", inv=True),): 1}, C.m.shape, "dense") @ v

                def solve_H(self, v):
                    return W({(L("C", inv=True),): 1}, C.m.shape, "dense").H @ v

            def eigs(D, k=None, which=None, sigma=None, **kw):
                ops.append((D, k, which, sigma, kw))
                j = len(ops)
                return Eigenvalues(j), W({(L(f"X{j}"),): 1}, ("n", "N"), "dense")

            def run():
                ops.clear()
                saved = (ta.spla, ta.np)
                ta.spla = types.SimpleNamespace(eigs=eigs, LinearOperator=lambda dtype=None, shape=None, matvec=None, rmatvec=None: types.SimpleNamespace(matvec=matvec, shape=shape))
                ta.np = types.SimpleNamespace(conj=lambda x: conj_scalar(x) if isinstance(x, P) else x.conj(), conjugate=conj_scalar)
                try:
                    A, B = W({(L("A"),): 1}, ("n", "n"), "csr"), W({(L("B"),): 1}, ("n", "n"), "csr")
                    res = ta.scipy_sparse_eigs(A=A, B=B, left=left, N=5, target=s, matsolver=C, v0="v0")
                    x = W({(L("x"),): 1}, ("n",), "dense")
                    return A, B, x, res, [o[0].matvec(x) for o in ops], list(ops)
                finally:
                    ta.spla, ta.np = saved
            paths = sym.explore(run, [], allow=(Exception,))
            for i, p in enumerate(paths):
                if isinstance(p.exc, Unsupported):
                    raise p.exc
                lab = f"scipy_sparse_eigs, left={left} [{i}]: "
                if p.exc is not None:
                    chk.ground(lab + "returns", func, False, repr(p.exc), replay=replay_eigs)
                    continue
                A, B, x, res, mv, calls = p.result
                g = lambda what, ok, det=None: chk.ground(lab + what, func, ok, det, replay=replay_eigs)
                g("factorizes A - target B", C.m.d == (A - B * s).d, repr(C.m))
                g("one search per side", len(calls) == 1 + left and len(res) == 2 + 2 * left)
                g("largest-magnitude search of N modes, options passed on", all(c[1] == 5 and c[2] == "LM" and c[3] is None and c[4] == {"v0": "v0"} for c in calls))
                Ci = W({(L("C", inv=True),): 1}, ("n", "n"), "dense")
                g("operator is (A - target B)^-1 B", mv[0].d == (Ci @ B @ x).d, repr(mv[0]))
                shifts = [s, conj_scalar(s)]
                if left and len(calls) == 2:
                    g("left operator is (A - target B)^-H B^H", mv[1].d == (Ci.H @ B.H @ x).d, repr(mv[1]))
                for j in range(len(calls)):
                    ev, vec = res[2 * j], res[2 * j + 1]
                    g(f"eigenvalues {j} are 1/mu + target", isinstance(ev, Eigenvalues) and ev.j == j + 1 and ev.inv and ev.shift is not None and not (ev.shift - shifts[j]).d)
                    g(f"vectors {j} are ARPACK's", isinstance(vec, W) and vec.d == {(L(f"X{j + 1}"),): 1})
    chk.contract("scipy_sparse_eigs: shift-invert operators and eigenvalues", func, body)


def eigs_case(n, N, target, left, seed, real=False):
    """Residuals of the modes of a random pencil, and that they are the modes nearest the target."""
    import scipy.linalg as sla
    import scipy.sparse as sp
    from dedalus.tools import array as ta
    from dedalus.libraries import matsolvers as ms
    rng = np.random.default_rng(seed)
    A = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
    B = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
    np.random.seed(seed % 2**31)
    v0 = rng.standard_normal(n) + 0j
    if real:
        A, B = A.real, B.real
        # nearest modes are ambiguous between conjugates for real targets
        v0 = v0 if isinstance(target, complex) else v0.real
    for name in ("superlucolamdfactorized", "superlucolamdfactorizedtranspose"):
        out = ta.scipy_sparse_eigs(A=sp.csr_matrix(A), B=sp.csr_matrix(B), left=left, N=N, target=target, matsolver=ms.matsolvers[name], v0=v0)
        lam, X = out[:2]
        R = np.abs(A @ X - B @ X * lam).max()
        if R > 1e-6:
            return {"right residual": R}
        allv = sla.eigvals(A, B)
        near = np.sort(np.abs(allv - target))[:N]
        if np.abs(np.sort(np.abs(lam - target)) - near).max() > 1e-6:
            return {"not the modes nearest the target": str(lam)}
        if left:
            mu, Y = out[2:]
            R = np.abs(A.conj().T @ Y - B.conj().T @ Y * mu).max()
            if R > 1e-6:
                return {"left residual": R}
            if np.abs(np.sort(np.abs(mu - np.conj(target))) - near).max() > 1e-6:
                return {"left modes not nearest": str(mu)}
    return None


@takes
def replay_eigs(model=None):
    for seed in range(4):
        for left in (False, True):
            for real in (False, True):
                bad = eigs_case(9, 3, 0.3 - 0.2j, left, seed, real)
                if bad:
                    return {"case": [9, 3, "0.3-0.2j", left, seed, "real" if real else "complex"], "failed": str(bad)}
    return None


# --------------------------------------------------------------------------- banded storage

class OffArr:
    """Offsets of an arbitrary number of diagonals: entry k is a function of k, affine image of the original offsets."""
    def __init__(self, env, a=1, b=0):
        self.env, self.a, self.b = env, a, b

    def at(self, k):
        return self.a * self.env.off(k) + self.b

    def __neg__(self):
        return OffArr(self.env, -self.a, -self.b)

    def _sh(self, o, s):
        if isinstance(o, OffArr):
            raise Unsupported("sum of offset arrays")
        return OffArr(self.env, s * self.a, s * self.b + to_int(o))

    def __add__(self, o):
        return self._sh(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return OffArr(self.env, self.a, self.b - to_int(o))

    def __rsub__(self, o):
        return self._sh(o, -1)

    def _ext(self, sign):
        c = ctx()
        m = c.fresh("ext")
        m = z3.Int(str(m)) if not isinstance(m, str) else z3.Int(m)
        k, w = z3.Int("k!q"), z3.Int(f"{m}!w")
        inr = lambda j: z3.And(j >= 0, j < self.env.K)
        c.assume(z3.ForAll([k], z3.Implies(inr(k), sign * self.at(k) <= sign * m)))
        c.assume(z3.And(inr(w), self.at(w) == m))
        return sym.wrap(m)

    def max(self):
        return self._ext(1)

    def min(self):
        return self._ext(-1)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic number of diagonals")


class BEnv:
    def __init__(self):
        self.K, self.n = z3.Int("K"), z3.Int("n")
        self.f = z3.Function("offset", z3.IntSort(), z3.IntSort())
        self.store = []

    def off(self, k):
        return self.f(k)

    def pre(self):
        k, j = z3.Ints("k!p j!p")
        inr = lambda x: z3.And(x >= 0, x < self.K)
        return [self.K >= 1, self.n >= 1, z3.ForAll([k], z3.Implies(inr(k), z3.And(self.f(k) > -self.n, self.f(k) < self.n))),
                z3.ForAll([k, j], z3.Implies(z3.And(inr(k), inr(j), self.f(k) == self.f(j)), k == j))]


class AB:
    def __init__(self, env, shape):
        self.env, self.shape, self.stores = env, shape, []

    def __setitem__(self, key, val):
        self.stores.append((key, val))


def banded_contract(chk, ms):
    func = f"{PATH}: BandedSolver.sparse_to_banded"

    def body():
        for given in ("defaults", "u and l given"):
            env = BEnv()
            n = sym.wrap(env.n)
            data = object()
            dia = types.SimpleNamespace(offsets=OffArr(env), data=data, shape=(n, n), dtype="dt")
            pre = env.pre()
            args = ()
            if given != "defaults":
                u, l = z3.Ints("u_arg l_arg")
                k = z3.Int("k!a")
                pre += [u >= 0, l >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < env.K), z3.And(env.f(k) <= u, -env.f(k) <= l)))]
                args = (sym.wrap(u), sym.wrap(l))

            def fmax(*a, **kw):
                if len(a) == 1 and isinstance(a[0], OffArr):
                    return a[0].max()
                return sym.facade_max(*a, **kw)

            def fmin(*a, **kw):
                if len(a) == 1 and isinstance(a[0], OffArr):
                    return a[0].min()
                return sym.facade_min(*a, **kw)

            made = []

            def zeros(shape, dtype=None):
                made.append(AB(env, shape))
                return made[-1]

            def run():
                saved = {k: ms.__dict__.get(k) for k in ("np", "sp", "max", "min", "abs")}
                ms.np = types.SimpleNamespace(zeros=zeros, max=fmax, min=fmin, amax=fmax, amin=fmin)
                ms.sp = types.SimpleNamespace(dia_matrix=lambda m: m, dia_array=lambda m: m)
                ms.max, ms.min = fmax, fmin
                try:
                    return ms.BandedSolver.sparse_to_banded(dia, *args)
                finally:
                    for k, v in saved.items():
                        if v is None:
                            ms.__dict__.pop(k, None)
                        else:
                            setattr(ms, k, v)
            for i, p in enumerate(sym.explore(run, pre, allow=(Exception,))):
                if isinstance(p.exc, Unsupported):
                    raise p.exc
                lab = f"sparse_to_banded, {given} [{i}]: "
                if p.exc is not None:
                    chk.ground(lab + "returns", func, False, repr(p.exc), replay=replay_for("scipybanded"))
                    continue
                (l, u), ab = p.result
                obl = lambda what, goal: chk.obl(lab + what, func, list(pre) + list(p.pc), goal, replay=replay_for("scipybanded"))
                if not isinstance(ab, AB) or len(ab.stores) != 1 or not isinstance(ab.stores[0][0], OffArr) or ab.stores[0][1] is not data:
                    raise Unsupported("diagonals stored in an unexpected way")
                key = ab.stores[0][0]
                k, i1, j1 = z3.Ints("k i j")
                inr = z3.And(k >= 0, k < env.K)
                lt, ut = to_int(l), to_int(u)
                rows, cols = to_int(ab.shape[0]), to_int(ab.shape[1])
                obl("bandwidths bound every diagonal", z3.Implies(inr, z3.And(env.f(k) <= ut, -env.f(k) <= lt)))
                obl("bandwidths are nonnegative", z3.And(lt >= 0, ut >= 0))
                obl("array has l + u + 1 rows and a column per column", z3.And(rows == lt + ut + 1, cols == env.n))
                # data[k, j] = A[j - offset_k, j] must be at ab[u + i - j, j], i = j - offset_k
                obl("entry (i, j) is at row u + i - j", z3.Implies(inr, key.at(k) == ut - env.f(k)))
                obl("rows inside the array", z3.Implies(inr, z3.And(key.at(k) >= 0, key.at(k) < rows)))
    chk.contract("sparse_to_banded stores each diagonal in its row", func, body)


# --------------------------------------------------------------------------- bounded: real libraries

def border(rng, n, R, cplx):
    A = rng.integers(-4, 5, (n, n)).astype(complex if cplx else float)
    if cplx:
        A = A + 1j * rng.integers(-4, 5, (n, n))
    A = A + 12 * np.diag(rng.choice([1, -1, 2], n))
    return A


def real_case(*args):
    with backends():
        return _real_case(*args)


def _real_case(ms, name, cls, n, cplx, banded, shape, seed, R=1):
    import scipy.sparse as sp
    rng = np.random.default_rng(seed)
    A = border(rng, n, R, cplx)
    if banded:
        i, j = np.indices((n, n))
        lo, up = rng.integers(0, n, 2)
        A = A * ((j - i <= up) & (i - j <= lo))
    As = sp.csr_matrix(A)
    keep = As.copy()
    b = rng.integers(-5, 6, shape).astype(complex if cplx else float)
    if cplx:
        b = b + 1j * rng.integers(-5, 6, shape)
    b0 = b.copy()
    if name == "woodbury":
        s = ms.Woodbury(As, types.SimpleNamespace(update_rank=R), cls)
    else:
        s = cls(As, types.SimpleNamespace(update_rank=R))
    out = []
    ops = ["solve"] + (["solve_H"] if getattr(type(s), "solve_H", None) is not ms.SolverBase.solve_H else [])
    # a second right-hand side through the same factorization as well
    for rep in range(2):
        for op in ops:
            x = np.asarray(getattr(s, op)(b))
            M = A if op == "solve" else A.conj().T
            if x.shape != b.shape:
                out.append((op, "shape", x.shape, b.shape))
            elif np.abs(M @ x - b).max() > 1e-9 * (1 + np.abs(x).max() * np.abs(A).sum()):
                out.append((op, "residual", float(np.abs(M @ x - b).max())))
    if (b != b0).any() or (As != keep).nnz:
        out.append(("arguments changed",))
    return out


def usable(ms):
    for name, cls in ms.matsolvers.items():
        if name in SKIP or name.startswith("woodbury"):
            continue
        yield name, cls
    yield from EXTRA.items()


EXTRA = {}


@contextlib.contextmanager
def backends():
    """Dense stand-ins, true to their documented contracts, for optional back ends that are not installed."""
    dense = lambda A: np.asarray(A.toarray())

    class Fac:
        def __init__(self, A):
            self.A = dense(A)

        def solve(self, b):
            return np.linalg.solve(self.A, b)
    umf = types.SimpleNamespace(splu=Fac)
    mods = {"scikits": types.SimpleNamespace(umfpack=umf), "scikits.umfpack": umf,
            "sparseqr": types.SimpleNamespace(solve=lambda A, b: np.linalg.solve(dense(A), b)),
            "pybanded": types.SimpleNamespace(BandedMatrix=types.SimpleNamespace(from_sparse=lambda m: m), BandedQR=Fac)}
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def replay_for(name):
    def replay(model=None):
        from dedalus.libraries import matsolvers as ms
        for seed in range(6):
            for n in (1, 2, 3, 5):
                for cplx in (False, True):
                    for shape in ((n,), (n, 1), (n, 3)):
                        for nm, cls in usable(ms):
                            if name == "woodbury":
                                if n < 3 or nm != "superlucolamdfactorized":
                                    continue
                            elif nm != name:
                                continue
                            case = dict(name=name, n=n, cplx=cplx, shape=shape, seed=seed)
                            try:
                                bad = real_case(ms, name, cls, n, cplx, seed % 2, shape, seed)
                            except Exception as e:
                                bad = [repr(e)]
                            if bad:
                                return {"case": case, "failed": bad}
        return None
    return takes(replay)


def bounded(chk, ms):
    sizes = range(1, 9) if chk.thorough else (1, 2, 3, 5, 8)
    reps = 12 if chk.thorough else 3

    def cases():
        for name, cls in usable(ms):
            for n in sizes:
                for cplx in (False, True):
                    for banded in (False, True):
                        for shape in ((n,), (n, 1), (n, 3)):
                            for k in range(reps):
                                yield (name, None, n, cplx, banded, shape, chk.seed * 1000 + k)
        for name, cls in usable(ms):
            for n, R in ((3, 1), (4, 1), (7, 2), (8, 3)):
                for cplx in (False, True):
                    for shape in ((n,), (n, 1), (n, 3)):
                        for k in range(reps):
                            yield ("woodbury", name, n, cplx, False, shape, chk.seed * 1000 + k, R)

    def test(case):
        name, inner, n, cplx, banded, shape, seed = case[:7]
        R = case[7] if len(case) > 7 else 1
        bad = real_case(ms, name, dict(usable(ms))[inner or name], n, cplx, banded, shape, seed, R)
        return bad or None
    chk.bounded("real solvers against the residual", f"sizes {list(sizes)}, real and complex, full and banded, {reps} random integer matrices each; Woodbury border widths 1-3",
                cases(), test)
    chk.bounded("eigenvalue search on random pencils", "n in 6, 9, 14; 1-3 modes; 3 targets; right and left; real with complex targets",
                ((n, N, t, left, chk.seed * 100 + k, real) for real in (False, True) for n in (6, 9, 14) for N in (1, 3) for t in (0.0, 0.3 - 0.2j, -1.5 + 1j) for left in (False, True) if not real or t
                 for k in range(3 if chk.thorough else 1)), lambda c: eigs_case(*c))


def run(chk):
    from dedalus.libraries import matsolvers as ms
    for name, cls in ms.matsolvers.items():
        if name in SKIP:
            chk.assume(f"{name}: {SKIP[name]}")
            continue
        if name.startswith("woodbury"):
            ok = getattr(cls, "func", None) is ms.Woodbury and cls.keywords.get("matsolver") is ms.matsolvers.get(name[len("woodbury"):]) and not cls.args
            chk.ground(f"{name}: is the Woodbury wrapper around {name[8:]}", f"{PATH}: woodbury_matsolvers", ok, observable=False)
            continue
        solver_contract(chk, ms, name, cls)
    class AdjointFactorized(ms._SuperluFactorizedBase):
        """The third documented factorization form of the SuperLU base class (not registered)."""
        permc_spec = "COLAMD"
        trans = "H"
    solver_contract(chk, ms, "superlu factorized adjoint", AdjointFactorized)
    EXTRA["superlu factorized adjoint"] = AdjointFactorized
    woodbury_contract(chk, ms)
    eigs_contract(chk)
    banded_contract(chk, ms)
    bounded(chk, ms)
    chk.trust("SciPy and optional solver libraries (UMFPACK, SuiteSparseQR, pybanded) solve as documented; optional ones are not installed and only their wrappers are checked")
    chk.assume("matrix and right-hand side have the same dtype, the matrix is nonsingular, and for Woodbury the border width is at least 1 and the matrix without its borders is nonsingular")
    chk.assume("exact arithmetic: floating-point error of the factorizations is not specified")
