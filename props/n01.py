"""N01: array and sparse kernels equal their mathematical definition on every axis.

Contracts
  linalg.pyx kernels (cut from the current source, loops cut by invariants; sizes, sparsity and data symbolic):
    apply_csr_{vec,first,last,mid}: y[h,i,k] = sum_jj Ax[jj] x[h,Aj[jj],k] over row i, for any valid CSR matrix; any
      schedule of the parallel loop; no access outside the arrays
    solve_upper_csr_{vec,first,last,mid}: x[h,:,k] becomes the solution of the upper triangular system
  apply_csr / solve_upper_csr: the kernel called, with the reshaped views, addresses array[..., j, ...] (element maps
      equal as polynomials in the symbolic extents)
  array.py: wrappers and constructors on arrays of exact polynomials; index functions.
"""

import itertools
from fractions import Fraction

import numpy as np
import z3

from vf import sym, npf, imp, poly
from vf.poly import P
from vf.sym import Int, SymInt, Unsupported

I = z3.IntSort()
R = z3.RealSort()


def ints(*names):
    return [z3.Int(n) for n in names]


class Csr:
    """Symbolic CSR matrix and data of a kernel call; h, k are the batch indices before and after the axis."""

    def __init__(self, has_h, has_k, solve):
        self.has_h, self.has_k = has_h, has_k
        self.nr, self.nc, self.nnz, self.nb, self.na = ints("n_row", "n_col", "nnz", "n_before", "n_after")
        nr, nc, nnz = self.nr, self.nc, self.nnz
        self.Ap = imp.fn_array("Ap", 1, "int", [nr + 1])
        self.Aj = imp.fn_array("Aj", 1, "int", [nnz])
        self.Ax = imp.fn_array("Ax", 1, "real", [nnz])
        if solve:
            nc = nr
        rank = 1 + has_h + has_k
        mid = lambda n: ([self.nb] if has_h else []) + [n] + ([self.na] if has_k else [])
        self.x = imp.fn_array("x", rank, "real", mid(nc))
        self.y = imp.fn_array("y", rank, "real", mid(nr))
        i, jj, h, k, c = ints("i", "jj", "h", "k", "c")
        self.i, self.jj, self.h, self.k = i, jj, h, k
        Ap, Aj, Ax = self.Ap.read, self.Aj.read, self.Ax.read
        self.pre = [nr >= 0, nc >= 0, nnz >= 0, self.nb >= 0, self.na >= 0,
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nr), z3.And(0 <= Ap(i), Ap(i) <= Ap(i + 1), Ap(i + 1) <= nnz)),
                              patterns=[Ap(i)]),
                    z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < nnz), z3.And(0 <= Aj(jj), Aj(jj) < nc)),
                              patterns=[Aj(jj)])]
        # ghost sums: apply: D(i,h,jj,k) = sum over [Ap[i], jj);  solve: T(i,h,jj,k) = sum over [jj, Ap[i+1]) of the solution
        self.D = z3.Function("D", I, I, I, I, R)
        D = self.D
        if not solve:
            self.pre += [z3.ForAll([i] + [h, k], D(i, h, Ap(i), k) == 0, patterns=[D(i, h, Ap(i), k)])]
        else:
            self.X = z3.Function("X", *[I] * rank, R)
            X = self.X
            qh, qk = (h if has_h else z3.IntVal(0)), (k if has_k else z3.IntVal(0))
            cell = self.ix(i, qh, qk)
            self.pre += [
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nr), z3.And(Ap(i) < Ap(i + 1), Aj(Ap(i)) == i, Ax(Ap(i)) != 0)),
                          patterns=[Ap(i)]),
                z3.ForAll([i, jj], z3.Implies(z3.And(0 <= i, i < nr, Ap(i) < jj, jj < Ap(i + 1)), Aj(jj) > i),
                          patterns=[z3.MultiPattern(Ap(i), Aj(jj))]),
                z3.ForAll([i, h, k], D(i, h, Ap(i + 1), k) == 0, patterns=[D(i, h, Ap(i + 1), k)]),
                self.forall([i, qh, qk], z3.Implies(z3.And(0 <= i, i < nr, self.inr(qh, qk)),
                                                    D(i, qh, Ap(i) + 1, qk) + Ax(Ap(i)) * X(*cell) == self.x.read(*cell)), X(*cell))]

    def inr(self, h, k):
        return z3.And(*([z3.And(0 <= h, h < self.nb)] if self.has_h else [h == 0]),
                      *([z3.And(0 <= k, k < self.na)] if self.has_k else [k == 0]))

    def ix(self, r, h, k):
        return ([h] if self.has_h else []) + [r] + ([k] if self.has_k else [])

    def qv(self, *extra):
        """Quantified batch variables (unused ones fixed to 0)."""
        h = z3.Int("qh") if self.has_h else z3.IntVal(0)
        k = z3.Int("qk") if self.has_k else z3.IntVal(0)
        return h, k

    def forall(self, vs, body, pat=None):
        vs = [v for v in vs if not z3.is_int_value(v)]
        if not vs:
            return body
        return z3.ForAll(vs, body, patterns=[pat] if pat is not None else [])


def apply_spec(low, has_h, has_k):
    m = Csr(has_h, has_k, False)
    Ap, Aj, Ax, D = m.Ap.read, m.Aj.read, m.Ax.read, m.D
    Z = z3.IntVal(0)
    kinds = imp.loop_shape(low.body)
    spec = {"args": [m.Ap, m.Aj, m.Ax, m.x, m.y, z3.Int("num_threads")], "pre": m.pre, "inv": {}, "owner": {}, "each": {},
            "inst": {}}
    flat = has_h      # the parallel loop runs over (h, i) pairs
    row = lambda S: (S.loops[0] / m.nr, S.loops[0] % m.nr) if flat else (Z, S.loops[0])
    qk = z3.Int("qk") if has_k else Z
    yk = lambda S, k: S.arg(4).read(*m.ix(row(S)[1], row(S)[0], k))

    def owner(S, nm, idx):
        return (idx[0] * m.nr + idx[1]) if flat else idx[0]

    def each(S):
        qh, qi = (z3.Int("qh") if flat else Z), z3.Int("qi")
        w = S.loops[0]
        body = z3.Implies(z3.And(w == (qh * m.nr + qi if flat else qi), 0 <= qi, qi < m.nr, m.inr(qh, qk)),
                          S.arg(4).read(*m.ix(qi, qh, qk)) == D(qi, qh, Ap(qi + 1), qk))
        return [("row result", m.forall([qh, qi, qk], body))]
    spec["owner"][(0,)] = owner
    spec["each"][(0,)] = each

    def post(S):
        qh, qi = (z3.Int("qh") if flat else Z), z3.Int("qi")
        y = S.arg(4).read(*m.ix(qi, qh, qk))
        hyp = z3.And(0 <= qi, qi < m.nr, m.inr(qh, qk))
        lem = z3.And(0 <= qh * m.nr + qi, qh * m.nr + qi < m.nb * m.nr) if flat else z3.BoolVal(True)
        out = [("every output element is the sparse dot product",
                m.forall([qh, qi, qk], z3.Implies(z3.And(hyp, lem), y == D(qi, qh, Ap(qi + 1), qk))))]
        if flat:
            out.append(("the parallel loop covers every (h, i)", m.forall([qh, qi, qk], z3.Implies(hyp, lem))))
        return out
    spec["post"] = post

    def step(S, h, i):       # definition of D at the current entry
        v = S.v
        return [m.forall([qk], D(i, h, v + 1, qk) == D(i, h, v, qk) + Ax(v) * m.x.read(*m.ix(Aj(v), h, qk)),
                         D(i, h, v, qk) if has_k else None)]
    inner = [p for p, _ in kinds if len(p) == 2]
    if not has_k:
        if len(inner) != 1:
            raise Unsupported("loop structure")
        p = inner[0]
        def inv(S):
            h, i = row(S)
            return [("partial sum", S.acc()[0] == D(i, h, S.v, Z))]
        spec["inv"][p] = inv
        spec["inst"][p] = lambda S: step(S, *row(S))
    else:
        if len(inner) != 2:
            raise Unsupported("loop structure")
        p0, p1 = inner
        def inv0(S):
            return [("zeroed so far", m.forall([qk], z3.Implies(z3.And(0 <= qk, qk < S.v), yk(S, qk) == 0)))]
        def inv1(S):
            h, i = row(S)
            return [("partial sums", m.forall([qk], z3.Implies(z3.And(0 <= qk, qk < m.na), yk(S, qk) == D(i, h, S.v, qk))))]
        def inv2(S):
            h, i = row(S)
            jj = S.loops[1]
            new = D(i, h, jj, qk) + Ax(jj) * m.x.read(*m.ix(Aj(jj), h, qk))
            return [("updated so far", m.forall([qk], z3.Implies(z3.And(0 <= qk, qk < S.v), yk(S, qk) == new))),
                    ("rest unchanged", m.forall([qk], z3.Implies(z3.And(S.v <= qk, qk < m.na), yk(S, qk) == D(i, h, jj, qk))))]
        spec["inv"][p0], spec["inv"][p1], spec["inv"][p1 + (0,)] = inv0, inv1, inv2
        spec["inst"][p1] = lambda S: step(S, *row(S))
    return spec


def solve_spec(low, has_h, has_k):
    m = Csr(has_h, has_k, True)
    Ap, Aj, Ax, D, X = m.Ap.read, m.Aj.read, m.Ax.read, m.D, m.X
    Z = z3.IntVal(0)
    b = m.x.read
    spec = {"args": [m.Ap, m.Aj, m.Ax, m.x, z3.Int("num_threads")], "pre": m.pre, "inv": {}, "owner": {}, "each": {}, "inst": {}}
    qk = z3.Int("qk") if has_k else Z
    qr = z3.Int("qr")
    base = (0,) if has_h else ()
    hh = lambda S: S.loops[0] if has_h else Z
    x = lambda S, r, k: S.arg(3).read(*m.ix(r, hh(S), k))
    Xa = lambda S, r, k: X(*m.ix(r, hh(S), k))
    ba = lambda S, r, k: b(*m.ix(r, hh(S), k))
    kin = z3.And(0 <= qk, qk < m.na) if has_k else z3.BoolVal(True)

    def rows(S, v):      # rows above v solved, rows up to v untouched
        return [("solved rows", m.forall([qr, qk], z3.Implies(z3.And(v < qr, qr < m.nr, kin), x(S, qr, qk) == Xa(S, qr, qk)))),
                ("remaining rows", m.forall([qr, qk], z3.Implies(z3.And(0 <= qr, qr <= v, kin), x(S, qr, qk) == ba(S, qr, qk))))]
    pi = base + (0,)
    spec["inv"][pi] = lambda S: rows(S, S.v)
    pj = pi + (0,)
    def step(S):
        i, v, h = S.loops[len(base)], S.v, hh(S)
        return [m.forall([qk], D(i, h, v, qk) == D(i, h, v + 1, qk) + Ax(v) * X(*m.ix(Aj(v), h, qk)),
                         D(i, h, v + 1, qk) if has_k else None)]
    spec["inst"][pj] = step
    if not has_k:
        def invj(S):
            i = S.loops[len(base)]
            return [("partial sum", S.acc()[0] == ba(S, i, Z) - D(i, hh(S), S.v + 1, Z))]
        spec["inv"][pj] = invj
    else:
        def part(S, i, jj, val):
            return [(t, f) for t, f in rows2(S, i)] + [("current row", m.forall([qk], z3.Implies(kin, x(S, i, qk) == val)))]
        def rows2(S, i):
            return [("solved rows", m.forall([qr, qk], z3.Implies(z3.And(i < qr, qr < m.nr, kin), x(S, qr, qk) == Xa(S, qr, qk)))),
                    ("rows above", m.forall([qr, qk], z3.Implies(z3.And(0 <= qr, qr < i, kin), x(S, qr, qk) == ba(S, qr, qk))))]
        def invj(S):
            i = S.loops[len(base)]
            return part(S, i, S.v, ba(S, i, qk) - D(i, hh(S), S.v + 1, qk))
        def invk(S):
            i, jj = S.loops[len(base)], S.loops[len(base) + 1]
            old = ba(S, i, qk) - D(i, hh(S), jj + 1, qk)
            return part(S, i, jj, z3.If(qk < S.v, old - Ax(jj) * Xa(S, Aj(jj), qk), old))
        def invd(S):
            i = S.loops[len(base)]
            old = ba(S, i, qk) - D(i, hh(S), Ap(i) + 1, qk)
            return part(S, i, None, z3.If(qk < S.v, Xa(S, i, qk), old))
        spec["inv"][pj], spec["inv"][pj + (0,)], spec["inv"][pi + (1,)] = invj, invk, invd
    full = lambda S: m.forall([qr, qk], z3.Implies(z3.And(0 <= qr, qr < m.nr, kin), x(S, qr, qk) == Xa(S, qr, qk)))
    if has_h:
        spec["owner"][(0,)] = lambda S, nm, idx: idx[0]
        spec["each"][(0,)] = lambda S: [("solution of the slice", full(S))]
        def post(S):
            qh = z3.Int("qh")
            return [("the result solves the triangular system", m.forall([qh, qr, qk], z3.Implies(
                z3.And(0 <= qh, qh < m.nb, 0 <= qr, qr < m.nr, kin), S.arg(3).read(*m.ix(qr, qh, qk)) == X(*m.ix(qr, qh, qk)))))]
        spec["post"] = post
    else:
        spec["post"] = lambda S: [("the result solves the triangular system", full(S))]
    return spec


VARIANTS = {"vec": (0, 0), "first": (0, 1), "last": (1, 0), "mid": (1, 1)}


def kernels(chk, source, mod):
    for op, builder in (("apply_csr", apply_spec), ("solve_upper_csr", solve_spec)):
        for var, (h, k) in VARIANTS.items():
            name = f"{op}_{var}"
            func = f"linalg.{name}"

            def body():
                low = imp.Lowered(source, name)
                spec = builder(low, bool(h), bool(k))
                chk.sat_check(name, spec["pre"])
                imp.emit(chk, func, imp.VC(low, spec), replay=None, observable=False)
            chk.contract(f"{name} loops", func, body)


# ------------------------------------------------------------------ dispatch of the compiled entry points
class View:
    """Logical array of symbolic extents seen through reshape/row views; `flat` maps view indices to the flat C index."""

    def __init__(self, name, shape, flat):
        self.name, self.shape, self.flat = name, tuple(shape), flat
        self.ndim = len(self.shape)

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape
        return View(self.name, shape, lambda *i: self.flat_of(ravel(i, shape)))

    def flat_of(self, f):
        if self.base is None:
            return f
        raise Unsupported("reshape of a view")
    base = None

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if len(key) != self.ndim:
            raise Unsupported("index rank")
        free = [n for n, k in enumerate(key) if isinstance(k, slice)]
        if any(isinstance(k, slice) and k != slice(None) for k in key):
            raise Unsupported("partial slice")
        def flat(*i):
            full = list(key)
            for n, v in zip(free, i):
                full[n] = v
            return self.flat(*full)
        v = View(self.name, [self.shape[n] for n in free], flat)
        v.base = self
        return v


def ravel(idx, shape):
    f = P.const(0)
    for i, n in zip(idx, shape):
        f = f * n + i
    return f


class FakeNp:
    int32 = int

    @staticmethod
    def zeros(n, dtype=None):
        return [0] * n


def dispatch(chk, source, mod, am):
    from scipy import sparse
    for entry in ("apply_csr", "solve_upper_csr"):
        func = f"linalg.{entry}"

        def body():
            low = imp.Lowered(source, entry)
            for ndim in range(1, 6):
                for axis in range(ndim):
                    one(low, ndim, axis)

        def one(low, ndim, axis):
            shp = [P.var(f"s{i}") for i in range(ndim)]
            M = P.var("m") if entry == "apply_csr" else shp[axis]
            oshp = shp[:axis] + [M] + shp[axis+1:]
            pre = [x.z3() >= 1 for x in shp + ([M] if entry == "apply_csr" else [])]

            def runit():
                calls = []
                env = {"np": FakeNp, "range": range}
                for var in VARIANTS:
                    env[f"{entry}_{var}"] = lambda *a, var=var: calls.append((var, a))
                exec(compile(low.python, entry, "exec"), env)
                x = View("array", shp, lambda *i: ravel(i, shp))
                y = View("out", oshp, lambda *i: ravel(i, oshp))
                mats = ("Ap", "Aj", "Ax")
                args = mats + ((x, y) if entry == "apply_csr" else (x,)) + (axis, 1)
                env[entry](*args)
                return calls
            paths = sym.explore(runit, pre, max_paths=64)
            chk.paths += len(paths)
            for n, pt in enumerate(paths):
                tag = f"{entry} [ndim {ndim}, axis {axis}, case {n}]"
                rep = concrete(mod, entry, ndim, axis)
                if pt.exc is not None:
                    chk.obl(f"{tag}: no exception ({type(pt.exc).__name__})", func, pt.pc, False, replay=rep, observable=False)
                    continue
                calls = pt.result
                if not chk.ground(f"{tag}: exactly one kernel is called with the matrix", func,
                                  len(calls) == 1 and calls[0][1][:3] == ("Ap", "Aj", "Ax"), replay=rep, observable=False):
                    continue
                var, a = calls[0]
                h, k = VARIANTS[var]
                views = [(a[3], shp, P.var("c"))] + ([(a[4], oshp, P.var("r"))] if entry == "apply_csr" else [])
                idx = [P.var(f"l{i}") for i in range(ndim)]
                rng = [z3.And(i.z3() >= 0, i.z3() <= n.z3() - 1) for i, n in zip(idx, shp)]
                H, K = ravel(idx[:axis], shp[:axis]), ravel(idx[axis+1:], shp[axis+1:])
                for v, full, j in views:
                    ok = v.ndim == 1 + h + k
                    chk.ground(f"{tag}: rank of the view of {v.name}", func, ok, replay=rep, observable=False)
                    if not ok:
                        continue
                    got = v.flat(*([H] if h else []), j, *([K] if k else []))
                    want = ravel(idx[:axis] + [j] + idx[axis+1:], full)
                    d = P.lift(got) - want
                    inr = z3.And(j.z3() >= 0, j.z3() <= full[axis].z3() - 1)
                    if d.d:
                        chk.obl(f"{tag}: kernel cell is element [..., j, ...] of {v.name}", func, pt.pc + rng + [inr], d.z3() == 0, replay=rep, observable=False)
                    else:
                        chk.ground(f"{tag}: kernel cell is element [..., j, ...] of {v.name}", func, True)
                    # the view has exactly the elements of the array
                    size = P.const(1)
                    for n_ in v.shape:
                        size = size * n_
                    tot = P.const(1)
                    for n_ in full:
                        tot = tot * n_
                    d = size - tot
                    if d.d:
                        chk.obl(f"{tag}: the view of {v.name} has all elements", func, pt.pc, d.z3() == 0, replay=rep, observable=False)
                    else:
                        chk.ground(f"{tag}: the view of {v.name} has all elements", func, True)
        chk.contract(f"{entry} dispatch", func, body)


def concrete(mod, entry, ndim, axis):
    def run(_=None):
        from dedalus.tools import array as am
        r = np.random.default_rng(3)
        for sizes in itertools.product((1, 2, 3), repeat=ndim):
            bad = case_axis(("apply_sparse" if entry == "apply_csr" else "solve_upper_sparse", sizes, axis, "C", "none", "d", 3, int(r.integers(99))))
            if bad:
                return bad
    run.takes_none = True
    return run


# ------------------------------------------------------------------ wrappers on exact data
def dense_apply(A, x, axis):
    return np.moveaxis(np.tensordot(A, x, axes=(1, axis)), 0, axis)


def ordered(a, order):
    """The same values in another memory layout."""
    if order == "C":
        return np.ascontiguousarray(a)
    if order == "F":
        return np.asfortranarray(a)
    if order == "strided":
        b = np.zeros([2 * n for n in a.shape], dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if order == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if order == "transposed":
        return np.ascontiguousarray(a.T).T
    raise ValueError(order)


def poly_data(shape, stem):
    return poly.arr(stem, shape)


def wrappers(chk, am):
    """Wrappers on arrays of exact polynomials (all data at once) for enumerated shapes, axes, layouts and outputs."""
    from scipy import sparse
    shapes = [(3,), (1,), (2, 3), (1, 3), (3, 1), (2, 3, 2), (1, 2, 3), (2, 1, 1, 3)]

    def dense(name):
        f = getattr(am, name)

        def body():
            for shape in shapes:
                for axis in range(-len(shape), len(shape)):
                    for m in (1, 2, 4):
                        A = poly_data((m, shape[axis]), "A")
                        x = poly_data(shape, "x")
                        want = dense_apply(A, x, axis % len(shape))
                        for order in ("C", "F", "strided"):
                            xo = ordered(x.copy(), order)
                            for outk in ("none", "C", "strided"):
                                kw = {}
                                base = None
                                if outk != "none":
                                    base = np.full([2 * n + 1 for n in want.shape], 7, dtype=object)
                                    kw["out"] = base[tuple(slice(0, 2 * n, 2) for n in want.shape)] if outk == "strided" else np.full(want.shape, 7, dtype=object)
                                if name == "apply_dense_einsum":
                                    if outk != "none":
                                        continue
                                    kw["optimize"] = False
                                got = f(A, xo, axis, **kw)
                                tag = f"{name} [shape {shape}, axis {axis}, rows {m}, {order}, out {outk}]"
                                ok = got.shape == want.shape and not poly.diff_terms(got, want)
                                if kw.get("out") is not None:
                                    ok = ok and not poly.diff_terms(kw["out"], want)
                                chk.ground(f"{tag}: equals the matrix product along the axis", f"array.{name}", ok)
                                chk.ground(f"{tag}: arguments unchanged", f"array.{name}", not poly.diff_terms(xo, x))
                                if outk == "strided":
                                    base[tuple(slice(0, 2 * n, 2) for n in want.shape)] = 7
                                    chk.ground(f"{tag}: no other memory written", f"array.{name}", all(v == 7 for v in base.ravel()))
        return body
    for name in ("apply_dense", "apply_dense_einsum"):
        chk.contract(name, f"array.{name}", dense(name))

    # sparse wrappers against the contract of the compiled entry points
    class Csr_(sparse.csr_matrix):
        pass

    def stub(log):
        class L:
            @staticmethod
            def apply_csr(indptr, indices, entries, array, out, axis, threads):
                log.append(("apply", 0 <= axis < array.ndim, out.flags.c_contiguous, np.shares_memory(array, out)))
                m, n = len(indptr) - 1, array.shape[axis]
                A = np.full((m, n), P.const(0), dtype=object)
                for i in range(m):
                    for jj in range(indptr[i], indptr[i+1]):
                        A[i, indices[jj]] = A[i, indices[jj]] + entries[jj]
                if 0 <= axis < array.ndim:
                    out[...] = dense_apply(A, np.array(array), axis)

            @staticmethod
            def solve_upper_csr(indptr, indices, entries, array, axis, threads):
                log.append(("solve", 0 <= axis < array.ndim, array.flags.c_contiguous, False))
                if not 0 <= axis < array.ndim:
                    return
                b = np.moveaxis(array, axis, 0)
                for i in range(len(indptr) - 2, -1, -1):      # unit diagonal: exact division
                    for jj in range(indptr[i] + 1, indptr[i+1]):
                        b[i] = b[i] - entries[jj] * b[indices[jj]]
        return L

    def sparse_body(name):
        def body():
            saved = am.cython_linalg
            try:
                for shape in shapes:
                    for axis in range(-len(shape), len(shape)):
                        n = shape[axis]
                        for m in ((1, 3) if name == "apply_sparse" else (n,)):
                            r = np.random.default_rng(5)
                            pat = (r.random((m, n)) < 0.6).astype(float)
                            if name != "apply_sparse":
                                pat = np.triu(pat, 1) + np.identity(n)
                            A = sparse.csr_matrix(pat)
                            vals = np.empty(A.nnz, dtype=object)
                            vals[:] = [P.var(f"a{k}") for k in range(A.nnz)]
                            Ad = np.full((m, n), P.const(0), dtype=object)
                            k = 0
                            for i in range(m):
                                for jj in range(A.indptr[i], A.indptr[i+1]):
                                    if name != "apply_sparse" and A.indices[jj] == i:
                                        vals[jj] = P.const(1)
                                    Ad[i, A.indices[jj]] = vals[jj]
                            A.data = vals
                            A.has_canonical_format = True
                            x = poly_data(shape, "x")
                            for order in ("C", "F", "strided"):
                                for outk in ("none", "C", "F", "strided") + (("same",) if name != "apply_sparse" else ()):
                                    log = []
                                    am.cython_linalg = stub(log)
                                    src = ordered(x.copy(), order)
                                    oshape = shape[:axis % len(shape)] + (m,) + shape[axis % len(shape) + 1:]
                                    out = None if outk == "none" else src if outk == "same" else ordered(np.full(oshape, P.const(7), dtype=object), outk)
                                    got = getattr(am, name)(A, src, axis, out=out)
                                    tag = f"{name} [shape {shape}, axis {axis}, rows {m}, {order}, out {outk}]"
                                    F = f"array.{name}"
                                    chk.ground(f"{tag}: precondition of the compiled routine (axis)", F, all(l[1] for l in log) and len(log) == 1)
                                    chk.ground(f"{tag}: precondition of the compiled routine (contiguous output)", F, all(l[2] for l in log))
                                    chk.ground(f"{tag}: precondition of the compiled routine (no aliasing)", F, not any(l[3] for l in log))
                                    res = out if out is not None else got
                                    if name == "apply_sparse":
                                        ok = res is not None and not poly.diff_terms(res, dense_apply(Ad, x, axis % len(shape)))
                                    else:
                                        ok = res is not None and not poly.diff_terms(dense_apply(Ad, np.array(res), axis % len(shape)), x)
                                    chk.ground(f"{tag}: result", F, ok)
                                    chk.ground(f"{tag}: returned array is the result", F, got is res)
                                    if outk != "same":
                                        chk.ground(f"{tag}: input unchanged", F, not poly.diff_terms(src, x))
            finally:
                am.cython_linalg = saved
        return body
    for name in ("apply_sparse", "solve_upper_sparse"):
        chk.contract(name, f"array.{name}", sparse_body(name))

    def inplace():
        A = sparse.csr_matrix(np.ones((3, 3)))
        x = np.arange(3.0)
        try:
            am.apply_sparse(A, x, 0, out=x)
            ok = False
        except ValueError:
            ok = True
        chk.ground("apply_sparse: in-place application is rejected", "array.apply_sparse", ok)
    chk.contract("in-place application", "array.apply_sparse", inplace)

    def small():
        g = lambda f, name, ok: chk.ground(name, f"array.{f}", bool(ok))
        # index functions: for every axis and rank
        for dim in range(1, 6):
            for axis in range(dim):
                ix = am.axindex(axis, "i")
                g("axindex", f"axindex [axis {axis}]: full slices before the index", tuple(ix) == (slice(None),) * axis + ("i",))
                a, b, c = object(), object(), object()
                s_ = am.axslice(axis, a, b, c)[axis]
                g("axslice", f"axslice [axis {axis}]", am.axslice(axis, a, b, c)[:axis] == (slice(None),) * axis and (s_.start, s_.stop, s_.step) == (a, b, c))
        for bad in (-1, -3):
            try:
                am.axindex(bad, 0)
                g("axindex", f"axindex [axis {bad}] rejected", False)
            except ValueError:
                g("axindex", f"axindex [axis {bad}] rejected", True)
        for dim in range(1, 5):
            for axis in range(-dim, dim):
                v = poly_data((4,), "v")
                w = am.reshape_vector(v, dim=dim, axis=axis)
                g("reshape_vector", f"reshape_vector [dim {dim}, axis {axis}]", w.shape == tuple(4 if i == axis % dim else 1 for i in range(dim))
                  and not poly.diff_terms(w.ravel(), v))
        # permutations
        for shape in [(4,), (4, 2), (2, 4), (2, 4, 3)]:
            for axis in range(-len(shape), len(shape)):
                n = shape[axis]
                for perm in itertools.islice(itertools.permutations(range(n)), 0, 24, 5):
                    x = poly_data(shape, "x")
                    want = np.empty(shape, dtype=object)
                    for idx in np.ndindex(*shape):
                        src = list(idx)
                        src[axis] = perm[idx[axis]]
                        want[idx] = x[tuple(src)]
                    got = am.permute_axis(x, axis, list(perm))
                    g("permute_axis", f"permute_axis [shape {shape}, axis {axis}, perm {perm}]", not poly.diff_terms(got, want))
                    y = x.copy()
                    am.permute_axis(y, axis, list(perm), out=y)
                    g("permute_axis", f"permute_axis in place [shape {shape}, axis {axis}, perm {perm}]", not poly.diff_terms(y, want))
        for n in range(1, 5):
            for perm in itertools.permutations(range(n)):
                for M in (None, n, n + 2):
                    for sp in (True, False):
                        for si in (False, True):
                            m = am.perm_matrix(list(perm), M=M, source_index=si, sparse=sp)
                            m = m.toarray() if sp else m
                            want = np.zeros((n if M is None else M, n))
                            for k, p_ in enumerate(perm):
                                want[(k, p_) if si else (p_, k)] = 1
                            g("perm_matrix", f"perm_matrix [{perm}, M={M}, source_index={si}, sparse={sp}]", m.shape == want.shape and np.array_equal(m, want))
        # Kronecker products
        fs = [poly_data((2, 3), "f"), poly_data((1, 2), "g"), poly_data((2, 2), "h")]
        for r_ in range(0, 4):
            for fac in itertools.product(fs, repeat=r_):
                got = am.kron(*fac)
                want = np.array([[P.const(1)]], dtype=object)
                for f in fac:
                    want = np.array([[want[i // f.shape[0], j // f.shape[1]] * f[i % f.shape[0], j % f.shape[1]]
                                      for j in range(want.shape[1] * f.shape[1])] for i in range(want.shape[0] * f.shape[0])], dtype=object)
                g("kron", f"kron of {[f.shape for f in fac]}", np.shape(got) == want.shape and not poly.diff_terms(got, want))
        for n in range(0, 4):
            got = am.nkron(fs[2], n)
            g("nkron", f"nkron [{n}]", not poly.diff_terms(got, am.kron(*[fs[2]] * n)))
    chk.contract("index, permutation and Kronecker functions", "array", small)


# ------------------------------------------------------------------ bounded: the compiled code on real floats
def case_axis(case):
    from dedalus.tools import array as am
    from scipy import sparse
    name, shape, axis, order, outk, dt, m, seed = case
    r = np.random.default_rng(seed)
    n = shape[axis]
    cplx = dt == "z"
    x = r.integers(-5, 6, shape).astype(float)
    if cplx:
        x = x + 1j * r.integers(-5, 6, shape)
    if name == "solve_upper_sparse":
        m = n
        A = np.triu(r.integers(-2, 3, (n, n)) * (r.random((n, n)) < 0.6), 1) + np.diag(r.choice([-2, -1, 1, 2, 4], n))
    else:
        A = r.integers(-3, 4, (m, n)) * (r.random((m, n)) < 0.5)
    A = A.astype(float)
    ax = axis % len(shape)
    oshape = shape[:ax] + (m,) + shape[ax+1:]
    xo = ordered(x.copy(), order)
    guard = None
    if outk == "none":
        out = None
    elif outk == "same":
        out = xo
    elif outk == "strided":
        guard = np.full([2 * k + 1 for k in oshape], 7, dtype=x.dtype)
        out = guard[tuple(slice(0, 2 * k, 2) for k in oshape)]
    elif outk == "inner":
        guard = np.full((3,) + oshape, 7, dtype=x.dtype)
        out = guard[1]
    else:
        out = ordered(np.full(oshape, 7, dtype=x.dtype), outk)
    M = A if name in ("apply_dense", "apply_dense_einsum") else sparse.csr_matrix(A)
    if name == "solve_upper_sparse" and seed % 2:      # unsorted indices: the wrapper must restore the canonical format
        perm = []
        for i in range(n):
            perm += list(range(M.indptr[i+1] - 1, M.indptr[i] - 1, -1))
        M = sparse.csr_matrix((M.data[perm], M.indices[perm], M.indptr), shape=M.shape)
    kw = {} if out is None else {"out": out}
    f = am.apply_matrix if name == "apply_matrix" else getattr(am, name)
    if name in ("apply_sparse", "solve_upper_sparse") and seed % 3 == 0:
        kw["num_threads"] = 2
    got = f(M, xo, axis, **kw)
    res = out if out is not None else got
    if res is None:
        return {"call": case, "returned": None}
    want = dense_apply(A, x, ax) if name != "solve_upper_sparse" else dense_apply(np.linalg.inv(A), x, ax)
    if got is not res and not (got is not None and np.array_equal(got, res)):
        return {"call": case, "returned array": got, "output": res}
    if res.shape != want.shape or not np.allclose(res, want, rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max(initial=0))):
        return {"call": case, "matrix": A.tolist(), "array": x.tolist(), "result": res.tolist(), "expected": want.tolist()}
    if outk != "same" and not np.array_equal(xo, x):
        return {"call": case, "input changed": True}
    if guard is not None:
        out[...] = 7
        if not np.all(guard == 7):
            return {"call": case, "memory outside the output changed": True}


def axis_cases(seed, many):
    import random
    R = random.Random(seed)
    shapes = [s for d in (1, 2, 3, 4) for s in itertools.product((1, 2, 3, 5), repeat=d)] + [(2, 1, 3, 1, 2), (0, 3), (3, 0), (2, 0, 3)]
    out = []
    for name in ("apply_dense", "apply_sparse", "solve_upper_sparse", "apply_matrix", "apply_sparse_dot", "apply_dense_einsum"):
        allc = [(s, ax) for s in shapes for ax in range(-len(s), len(s)) if s[ax] > 0]
        for s, ax in (allc if many else R.sample(allc, 220) + [((5,), 0), ((5, 3), 0), ((3, 5), 1), ((2, 5, 3), 1), ((5, 2, 3), 0), ((2, 3, 5), -1), ((5, 1), 0), ((1, 5), 1)]):
            outk = ["none", "C", "strided", "F", "inner"] + (["same"] if name == "solve_upper_sparse" else [])
            if name == "apply_dense_einsum":
                outk = ["none"]
            out.append((name, s, ax, R.choice(["C", "F", "strided", "reversed", "transposed"]), R.choice(outk), R.choice("dz"), R.choice((1, 2, 4)), R.randrange(10**6)))
    return out


def case_sparse(case):
    from dedalus.tools import array as am
    from scipy import sparse
    import scipy.sparse.linalg as spla
    what, seed = case
    r = np.random.default_rng(seed)
    rnd = lambda m, n, p=0.5: sparse.csr_matrix(r.integers(-4, 5, (m, n)) * (r.random((m, n)) < p)).astype(float)
    m, n = int(r.integers(1, 6)), int(r.integers(1, 6))
    D = lambda A: A.toarray() if sparse.issparse(A) else np.asarray(A)
    eq = lambda got, want, **k: None if D(got).shape == np.shape(want) and np.allclose(D(got), want) else {what: seed, "got": D(got).tolist(), "want": np.asarray(want).tolist(), **k}
    if what == "add_sparse":
        A, B = rnd(n, n), rnd(n, n)
        s, t = float(r.integers(-3, 4)), float(r.integers(-3, 4))
        I_ = np.identity(n)
        return (eq(am.add_sparse(A, B), D(A) + D(B)) or eq(am.add_sparse(s, B), s * I_ + D(B)) or eq(am.add_sparse(A, t), D(A) + t * I_)
                or (None if am.add_sparse(s, t) == s + t else {"scalars": [s, t]}))
    if what == "sparse_block_diag":
        sizes = [(int(a), int(b)) for a, b in r.integers(0, 4, (int(r.integers(1, 5)), 2))]
        blocks = [rnd(a, b) if a * b else sparse.csr_matrix((a, b)) for a, b in sizes]
        if r.random() < 0.3:
            blocks = [D(b) if min(b.shape) else b for b in blocks]
        tot = (sum(a for a, b in sizes), sum(b for a, b in sizes))
        want = np.zeros(tot)
        i = j = 0
        for b in blocks:
            want[i:i+b.shape[0], j:j+b.shape[1]] = D(b)
            i += b.shape[0]
            j += b.shape[1]
        if r.random() < 0.5:
            return eq(am.sparse_block_diag(blocks), want, sizes=sizes)
        big = (tot[0] + int(r.integers(0, 3)), tot[1] + int(r.integers(0, 3)))
        w2 = np.zeros(big)
        w2[:tot[0], :tot[1]] = want
        return eq(am.sparse_block_diag(blocks, shape=big), w2, sizes=sizes, shape=big)
    if what == "zeros_with_pattern":
        A, B = rnd(m, n), rnd(m, n)
        Z = am.zeros_with_pattern(A, B).tocsr()
        Z.sum_duplicates()
        pat = np.zeros((m, n))
        pat[Z.nonzero() if False else (Z.tocoo().row, Z.tocoo().col)] = 1
        return eq(Z, np.zeros((m, n))) or eq(pat, ((D(A) != 0) | (D(B) != 0)).astype(float))
    if what == "expand_pattern":
        A, B = rnd(m, n), rnd(m, n)
        keep = A.copy()
        E = am.expand_pattern(A, B)
        C = E.tocsr()
        C.sum_duplicates()
        pat = np.zeros((m, n))
        pat[C.tocoo().row, C.tocoo().col] = 1
        return eq(E, D(A)) or eq(pat, ((D(A) != 0) | (D(B) != 0)).astype(float)) or eq(A, D(keep))
    if what == "drop_empty_rows":
        A = rnd(m, n, 0.3)
        if r.random() < 0.3:
            A = A.tocoo()
        want = D(A)[np.any(D(A) != 0, axis=1)]
        A2 = sparse.csr_matrix(A)
        A2.eliminate_zeros()
        return eq(am.drop_empty_rows(A2), want)
    if what == "interleave_matrices":
        N = int(r.integers(1, 4))
        mats = [rnd(m, n) for _ in range(N)]
        want = np.zeros((m * N, n * N))
        for k, A in enumerate(mats):
            want[k::N, k::N] = D(A)
        return eq(am.interleave_matrices(mats), want)
    if what == "splu_inverse":
        A = rnd(n, n) + 10 * sparse.identity(n)
        inv = am.splu_inverse(A.tocsr())
        x = r.standard_normal((n, 2)) + 1j * r.standard_normal((n, 2))
        return eq(D(A) @ (inv @ x), x) or eq(D(A) @ (inv @ x[:, 0]), x[:, 0]) or eq(D(A) @ (inv @ x.real), x.real)
    if what == "csr_matvec":
        A = rnd(m, n)
        x, y = r.standard_normal(n), r.standard_normal(m)
        want = y + D(A) @ x
        got = am.csr_matvec(A, x, y)
        if got is not y:
            return {"csr_matvec": "output not returned"}
        for bad in (lambda: am.csr_matvec(A, x[:-1], y), lambda: am.csr_matvec(A, np.ones(n + 1), y), lambda: am.csr_matvec(A.tocsc(), x, y), lambda: am.csr_matvec(A, x[:, None], y)):
            try:
                bad()
                return {"csr_matvec": "mismatched arguments accepted"}
            except ValueError:
                pass
        return eq(got, want)
    if what == "csr_matvecs":
        A = rnd(m, n)
        k = int(r.integers(1, 4))
        x, y = r.standard_normal((n, k)), r.standard_normal((m, k))
        want = y + D(A) @ x
        saved = am.SPLIT_CSR_MATVECS
        try:
            am.SPLIT_CSR_MATVECS = False
            got = am.csr_matvecs(A, x, y)
        finally:
            am.SPLIT_CSR_MATVECS = saved
        for bad in (lambda: am.csr_matvecs(A, x[:-1], y), lambda: am.csr_matvecs(A, np.ones((n, k + 1)), y), lambda: am.csr_matvecs(A, x[:, 0], y)):
            try:
                bad()
                return {"csr_matvecs": "mismatched arguments accepted"}
            except ValueError:
                pass
        return eq(got, want)
    if what == "interleaved_view":
        shape = tuple(int(k) for k in r.integers(1, 4, int(r.integers(1, 4))))
        z = r.standard_normal(shape) + 1j * r.standard_normal(shape)
        v = am.interleaved_view(z)
        bad = eq(v[..., 0], z.real) or eq(v[..., 1], z.imag)
        v[..., 1] = 3
        bad = bad or eq(z.imag, np.full(shape, 3.0))
        try:
            am.interleaved_view(z.real)
            return {"interleaved_view": "real data accepted"}
        except ValueError:
            pass
        return bad
    if what == "move_single_axis":
        shape = tuple(int(k) for k in r.integers(1, 5, int(r.integers(1, 5))))
        x = r.standard_normal(shape)
        a, b = int(r.integers(0, len(shape))), int(r.integers(0, len(shape)))
        got = am.move_single_axis(x, a, b)
        return eq(got, np.moveaxis(x, a, b)) or (None if np.shares_memory(got, x) else {what: "not a view"})
    if what == "copyto":
        x, y = r.standard_normal((m, n)), np.zeros((m, n))
        am.copyto(y, x)
        return eq(y, x)
    if what == "sparse_allclose":
        A = rnd(m, n, 0.8)
        B = A.copy()
        B.data = B.data + (0 if r.random() < 0.5 else 1.0)
        return None if am.sparse_allclose(A, B) == np.allclose(D(A), D(B)) else {what: seed}
    if what == "assert_sparse_pinv":
        perm = r.permutation(n)
        A = sparse.csr_matrix((np.ones(n), (np.arange(n), perm)), shape=(n, n))
        B = sparse.csr_matrix(A.T)
        am.assert_sparse_pinv(A, B)
        try:
            am.assert_sparse_pinv(A, 2 * B)
            return {what: "wrong inverse accepted"}
        except AssertionError:
            return None
    raise ValueError(what)


SPARSE = ["add_sparse", "sparse_block_diag", "zeros_with_pattern", "expand_pattern", "drop_empty_rows", "interleave_matrices", "splu_inverse",
          "csr_matvec", "csr_matvecs", "interleaved_view", "move_single_axis", "copyto", "sparse_allclose", "assert_sparse_pinv"]


def run(chk):
    from dedalus.tools import array as am, linalg
    import dedalus.tools as tools, os
    source = open(os.path.join(os.path.dirname(tools.__file__), "linalg.pyx"), encoding="utf8").read()
    chk.assume("C integers do not overflow: array extents and their products are below 2**31; matrix and array data types agree (a complex "
               "matrix is applied to complex arrays)")
    chk.assume("the triangular system has its (unique) solution: diagonal entries nonzero and first in each sorted row")
    chk.assume("numpy reshape of a C-contiguous array is a view with the same C order")
    chk.trust("lowering of Cython loops in vf/imp.py (drops C types, decorators, prange scheduling arguments)")
    kernels(chk, source, linalg)
    dispatch(chk, source, linalg, am)
    wrappers(chk, am)
    cases = axis_cases(chk.seed, chk.thorough)
    chk.bounded("matrices along an axis, compiled code", f"{len(cases)} of the shapes with extents <= 5 and rank <= 5, all axes, layouts, outputs, dtypes", cases, case_axis)
    k = 150 if chk.thorough else 40
    cases = [(w, chk.seed + 31 * i) for w in SPARSE for i in range(k)]
    chk.bounded("sparse constructors and row operations", f"{k} random matrices of extent <= 5 each", cases, case_sparse)
