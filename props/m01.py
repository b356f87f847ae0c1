"""M01: pencil systems gather and scatter every valid mode exactly once.

Contracts (core/subsystems.py)
  Subsystem._gather_scatter_setup, gather, scatter: field views are consecutive, disjoint and cover the vector, for
     any field sizes; every nonempty field is copied once, from and to its own slice.
  Subproblem._build_buffer_views, gather_*/scatter_*: same per subsystem column; inputs use the right preconditioner
     pair, outputs the left one, in the stated direction.
  Subproblem.build_matrices: block (equation, variable) is placed at the sums of the sizes before it, for every set
     of sizes and conditions; preconditioners are permutation times valid-mode filter without empty rows and its
     transpose; matrices are (left) @ M @ (right).
  lemma: such a pair P, P^T satisfies P P^T = 1 and P^T P = valid filter, so gather after scatter is the identity
     and scatter after gather restores valid modes and zeroes the others.
  left_permutation, right_permutation: every row (column) once; bounded over shapes, ranks and options.
  Subsystem: groups are mapped to matrix groups only where matrices do not depend on them and never to or from 0.
The partition of elements into groups is D01's; the product over all bases is bounded here.
"""

import functools
import itertools
import time
import types
from collections import defaultdict

import numpy as np
import z3

from vf import sym, npf
from vf.sym import Int, Real, SymInt, SymBool, Unsupported, ctx, to_int, to_real, wrap
from props.n02 import takes
from props.s01 import raw, attr, prodz

SS = "core/subsystems.py"
S = types.SimpleNamespace


class Arr:
    """A named array; indexing and reshaping record what was taken."""
    __array_ufunc__ = None

    def __init__(self, name, shape=None, path=()):
        self.name, self.shape, self.path = name, shape, path

    def __getitem__(self, k):
        return Arr(self.name, None, self.path + (("at", k),))

    def reshape(self, *s):
        return Arr(self.name, s[0] if len(s) == 1 else s, self.path + (("reshape", s[0] if len(s) == 1 else s),))

    def ravel(self):
        return self


class BNP(npf.NP):
    def __init__(self, log=None):
        self.log = log if log is not None else []

    def empty(self, shape=None, *a, **k):
        return Arr("buffer", shape)
    zeros = empty

    def copyto(self, dst, src):
        self.log.append((dst, src))


def spans(view):
    """(lo, hi, rest) of a view of the buffer along its first axis."""
    if not isinstance(view, Arr) or view.name != "buffer":
        raise Unsupported("view of something else")
    if len(view.path) != 2 or view.path[0][0] != "at" or view.path[1][0] != "reshape":
        raise Unsupported("view")
    k = view.path[0][1]
    col = None
    if isinstance(k, tuple):
        k, col = k
    if not isinstance(k, slice) or k.step not in (None, 1):
        raise Unsupported("view")
    return (0 if k.start is None else k.start), k.stop, col, view.path[1][1]


class Inner:
    """Contracts on private parts: refutations count when a real problem shows them (find_roundtrip); otherwise the
    bounded checks decide."""

    def __init__(self, chk):
        self.chk = chk

    def obl(self, *a, **k):
        return self.chk.obl(*a, **{**k, "observable": False})

    def ground(self, *a, **k):
        return self.chk.ground(*a, **{**k, "observable": False})

    def __getattr__(self, n):
        return getattr(self.chk, n)


def gathering(chk, ss):
    chk = Inner(chk)
    C = ss.Subsystem
    func = f"{SS}: Subsystem._gather_scatter_setup"
    rp = find_roundtrip

    def setup():
        for n in (1, 2, 3, 4):
            sizes = [Int(f"size{i}") for i in range(n)]
            pre = [s.t >= 0 for s in sizes]
            fields = tuple(S(i=i) for i in range(n))
            me = S(dtype=float, field_size=lambda f: sizes[f.i], field_slices=lambda f: ("slices", f.i), field_shape=lambda f: ("shape", f.i))
            fn = attr(C, "_gather_scatter_setup")
            with npf.facade(ss, np=BNP()):
                ps = sym.explore(lambda: fn(me, fields), pre)
            for p in ps:
                if p.exc:
                    raise Unsupported(repr(p.exc))
                data, fsizes, fviews, fslices = p.result
                tot = sum((s.t for s in sizes), z3.IntVal(0))
                chk.obl(f"{n} fields: vector length", func, p.pc, to_int(data.shape if not isinstance(data.shape, tuple) else data.shape[0]) == tot, replay=rp)
                chk.ground(f"{n} fields: slices in order", func, list(fslices) == [("slices", i) for i in range(n)] and len(fviews) == n, f"{fslices}", replay=rp)
                off = z3.IntVal(0)
                for i in range(n):
                    chk.obl(f"{n} fields: size {i}", func, p.pc, to_int(fsizes[i]) == sizes[i].t, replay=rp)
                    if fviews[i] is None:
                        chk.obl(f"{n} fields: field {i} has no view only if empty", func, p.pc, sizes[i].t == 0, replay=rp)
                    else:
                        lo, hi, col, shape = spans(fviews[i])
                        chk.obl(f"{n} fields: view {i} is the next part of the vector", func, p.pc, z3.And(to_int(lo) == off, to_int(hi) == off + sizes[i].t, z3.BoolVal(col is None and shape == ("shape", i))), replay=rp)
                    off = off + sizes[i].t
    chk.contract("views of the vector", func, setup)

    def moves():
        for what in ("gather", "scatter"):
            f2 = f"{SS}: Subsystem.{what}"
            for n, empties in ((n, e) for n in (1, 2, 3) for e in itertools.product((False, True), repeat=n)):
                fields = [S(i=i, data=Arr(f"field{i}")) for i in range(n)]
                data = Arr("data")
                views = tuple(None if e else Arr(f"view{i}") for i, e in enumerate(empties))
                me = S(_gather_scatter_setup=lambda f: (data, tuple(0 if e else 5 + i for i, e in enumerate(empties)), views, tuple(("slices", i) for i in range(n)))
                       if tuple(x.i for x in f) == tuple(range(n)) else None)
                log = []
                inp = Arr("input")
                with npf.facade(ss, np=BNP(log), extra={"copyto": lambda a, b: log.append((a, b))}):
                    r = attr(C, what)(me, fields) if what == "gather" else attr(C, what)(me, inp, fields)
                seen = {}
                ok = True
                first = log[0] if log else None
                for d, s in log:
                    if what == "scatter" and d is data:
                        ok &= s is inp and (d, s) == log[0]
                        continue
                    v, fa = (d, s) if what == "gather" else (s, d)
                    i = next((i for i in range(n) if v is views[i]), None)
                    ok &= i is not None and isinstance(fa, Arr) and fa.name == f"field{i}" and fa.path == (("at", ("slices", i)),)
                    seen[i] = seen.get(i, 0) + 1
                ok &= seen == {i: 1 for i, e in enumerate(empties) if not e}
                if what == "gather":
                    ok &= r is data
                else:
                    ok &= first is not None and first[0] is data
                chk.ground(f"every nonempty field is copied once ({n} fields, empty {empties})", f2, ok, replay=rp)
    chk.contract("copies", f"{SS}: Subsystem.gather", moves)

    def buffers():
        f3 = f"{SS}: Subproblem._build_buffer_views"
        P = ss.Subproblem
        for n, m in itertools.product((1, 2, 3), (1, 2, 3)):
            sizes = [Int(f"size{i}") for i in range(n)]
            pre = [s.t >= 0 for s in sizes]
            fields = tuple(S(i=i) for i in range(n))
            subs = [S(j=j, field_slices=(lambda f, j=j: ("slices", f.i, j)), field_shape=lambda f: ("shape", f.i), field_size=lambda f: sizes[f.i]) for j in range(m)]
            me = S(dtype=float, subsystems=subs, field_size=lambda f: sizes[f.i], field_shape=lambda f: ("shape", f.i), field_slices=lambda f: ("slices", f.i, 0))
            with npf.facade(ss, np=BNP()):
                ps = sym.explore(lambda: attr(P, "_build_buffer_views")(me, fields), pre)
            for p in ps:
                if p.exc:
                    raise Unsupported(repr(p.exc))
                buf, views = p.result
                tot = sum((s.t for s in sizes), z3.IntVal(0))
                chk.obl(f"{n} fields, {m} subsystems: buffer shape", f3, p.pc, z3.And(to_int(buf.shape[0]) == tot, to_int(buf.shape[1]) == m), replay=rp)
                chk.ground(f"{n} fields, {m} subsystems: one list per field", f3, len(views) == n, replay=rp)
                off = z3.IntVal(0)
                for i in range(n):
                    if not views[i]:
                        chk.obl(f"{n} fields, {m} subsystems: field {i} has no views only if empty", f3, p.pc, sizes[i].t == 0, replay=rp)
                    else:
                        cols = []
                        for v, sl in views[i]:
                            lo, hi, col, shape = spans(v)
                            cols.append(col)
                            chk.obl(f"{n} fields, {m} subsystems: view {i}", f3, p.pc, z3.And(to_int(lo) == off, to_int(hi) == off + sizes[i].t, z3.BoolVal(shape == ("shape", i) and sl == ("slices", i, col))), replay=rp)
                        chk.ground(f"{n} fields, {m} subsystems: a column per subsystem", f3, sorted(cols) == list(range(m)), f"{cols}", replay=rp)
                    off = off + sizes[i].t
    chk.contract("buffer views", f"{SS}: Subproblem._build_buffer_views", buffers)

    def directions():
        P = ss.Subproblem
        for what, out_given in itertools.product(("gather_inputs", "gather_outputs", "scatter_inputs", "scatter_outputs"), (False, True)):
            f4 = f"{SS}: Subproblem.{what}"
            if what.startswith("scatter") and out_given:
                continue
            io = what.split("_")[1][:-1]
            bufs = {"input": Arr("input buffer"), "output": Arr("output buffer")}
            events = []
            mats = {k: Arr(k) for k in ("pre_left", "pre_left_pinv", "pre_right", "pre_right_pinv")}
            bviews = {k: [(Arr(f"{k} view {i}"), Arr(f"{k} field {i}")) for i in range(3)] for k in ("input", "output")}
            fields = [S(i=0), S(i=1)]
            comp = Arr("compressed")
            given = Arr("given")
            me = S(_input_buffer=bufs["input"], _output_buffer=bufs["output"], _compressed_buffer=comp, **mats,
                   _input_field_views=lambda f: bviews["input"] if f == tuple(fields) else None, _output_field_views=lambda f: bviews["output"] if f == tuple(fields) else None)
            log = BNP()
            log.copyto = lambda a, b: events.append(("copy", a, b))
            with npf.facade(ss, np=log, extra={"apply_sparse": lambda m, x, axis=None, out=None, **k: events.append(("apply", m, x, axis, out)), "copyto": log.copyto}):
                if what.startswith("gather"):
                    r = attr(P, what)(me, fields, given if out_given else None)
                else:
                    r = attr(P, what)(me, given, fields)
            V = bviews[io]
            copies = [e for e in events if e[0] == "copy"]
            app = [e for e in events if e[0] == "apply"]
            ok = len(app) == 1 and len(copies) == 3
            if what.startswith("gather"):
                ok = ok and events[-1][0] == "apply" and {(id(a), id(b)) for _, a, b in copies} == {(id(a), id(b)) for a, b in V}
                mat = mats["pre_right_pinv" if io == "input" else "pre_left"]
                dst = given if out_given else comp
                ok = ok and app[0][1] is mat and app[0][2] is bufs[io] and app[0][3] == 0 and app[0][4] is dst and r is dst
            else:
                ok = ok and events[0][0] == "apply" and {(id(a), id(b)) for _, a, b in copies} == {(id(b), id(a)) for a, b in V}
                mat = mats["pre_right" if io == "input" else "pre_left_pinv"]
                ok = ok and app[0][1] is mat and app[0][2] is given and app[0][3] == 0 and app[0][4] is bufs[io]
            chk.ground(f"{what}{' into a given array' if out_given else ''}: copies and one product with the right matrix", f4, ok, f"{[e[0] for e in events]}", replay=rp)
        # any history of calls: views are always those of the data the fields have now
        class Fd:
            def __init__(self, name):
                self.name = name
                self.move(0)

            def move(self, k):
                self.buffer = ("buffer", self.name, k)
                self.data = Arr(f"{self.name}@{k}")
        for io, hist in itertools.product(("input", "output"), itertools.product(range(3), repeat=3)):
            f4 = f"{SS}: Subproblem._{io}_field_views"
            V, E = [Fd("v0"), Fd("v1")], [Fd("e0"), Fd("e1")]
            views = lambda fs: [[("b0", ("s", 0, 0)), ("b1", ("s", 0, 1))], [("b2", ("s", 1, 0))]]
            me = P.__new__(P)
            me._build_buffer_views = lambda fs: (tuple(f.name for f in fs), views(fs))
            me.problem = S(LHS_variables=V, equations=[{"F": E[0]}, {"F": E[1]}])
            P._build_buffers(me)
            fields = V if io == "input" else E
            ok = True
            for step, h in enumerate((0,) + hist):
                for k, f in enumerate(fields):
                    # h = 0: nothing changes, otherwise that field gets another buffer, or an earlier one back
                    if h == k + 1:
                        f.move((f.buffer[2] + 1) % 2 if step % 2 else step)
                r = getattr(me, f"_{io}_field_views")(tuple(fields))
                a, b = fields
                want = [("b0", a.data.name, (("at", ("s", 0, 0)),)), ("b1", a.data.name, (("at", ("s", 0, 1)),)), ("b2", b.data.name, (("at", ("s", 1, 0)),))]
                ok &= [(x, v.name, v.path) for x, v in r] == want
            chk.ground(f"buffer views are paired with the current data, changes {hist}", f4, ok, replay=rp)
    chk.contract("directions", f"{SS}: Subproblem.gather_inputs", directions)


# ------------------------------------------------------------------ matrices

class W:
    """Word in named matrices."""
    __array_ufunc__ = None

    def __init__(self, *w):
        self.w = w

    def __matmul__(self, o):
        return W(*(self.w + o.w))

    @property
    def T(self):
        return W(*[("T", x) if not (isinstance(x, tuple) and x[0] == "T") else x[1] for x in reversed(self.w)])
    transpose = lambda self: self.T

    def tocsr(self): return self
    tocsc = tocoo = copy = tocsr

    def astype(self, *a, **k): return self

    @property
    def nnz(self):
        if len(self.w) == 1 and self.w[0][0] == "diag":
            return NNZ(self.w[0][1])
        raise Unsupported("nnz")

    @property
    def shape(self):
        return (0, 0)


class NNZ:
    """Number of valid entries: systems reaching this point are square unless told otherwise."""

    def __init__(self, what):
        self.what = what

    def __ne__(self, o):
        return bool(SymBool(z3.Bool("not_square")))

    def __eq__(self, o):
        return not self != o
    __hash__ = None

    def __format__(self, s):
        return "n"


class Off:
    def __init__(self, base, off=0):
        self.base, self.off = base, off

    def __add__(self, k):
        return Off(self.base, self.off + k)
    __radd__ = __add__


class CatL:
    __array_ufunc__ = None

    def __init__(self, parts):
        self.parts = parts

    def __setitem__(self, k, v):
        if not (isinstance(k, tuple) and k[0] == "small" and k[1] is self and v == 0):
            raise Unsupported("matrix data changed")

    def __lt__(self, o):
        return ("small", self)


class Val:
    __array_ufunc__ = None

    def __init__(self, name, zero=False):
        self.name, self.zero = name, zero

    def __mul__(self, k):
        if k is False or (isinstance(k, (int, float)) and k == 0):
            return Val(self.name, True)
        if k is True or k == 1:
            return self
        raise Unsupported("scaled validity")
    __rmul__ = __mul__

    def ravel(self): return self


def assembly(chk, ss):
    chk = Inner(chk)
    P = ss.Subproblem
    func = f"{SS}: Subproblem.build_matrices"
    rp = find_roundtrip

    class MNP(npf.NP):
        def concatenate(self, vs, *a, **k):
            vs = list(vs)
            if vs and all(isinstance(v, Val) for v in vs):
                return ("valid", tuple(vs))
            if any(isinstance(v, (Off, str)) for v in vs):
                return CatL(vs)
            return super().concatenate(vs, *a, **k)

        def abs(self, x):
            return x if isinstance(x, CatL) else super().abs(x)

    class Sp:
        def coo_matrix(self, a, shape=None, **k):
            if isinstance(a, Blk):
                return S(data=Off((a.name, "data")), row=Off((a.name, "row")), col=Off((a.name, "col")))
            if isinstance(a, tuple) and shape is not None:
                return W(("matrix", a, shape))
            raise Unsupported("coo_matrix")

        def diags(self, v, **k):
            return W(("diag", v[1]))

        def csr_matrix(self, *a, **k):
            return W(("placeholder",))

        def __getattr__(self, n):
            raise Unsupported(f"sparse.{n}")

    class Blk:
        def __init__(self, name):
            self.name = name

    def body(ne, nv, store):
        esz = [Int(f"esize{i}") for i in range(ne)]
        vsz = [Int(f"vsize{i}") for i in range(nv)]
        pre = [s.t >= 0 for s in esz + vsz]
        names = ["M", "L"]

        class Expr:
            def __init__(self, i, name):
                self.i, self.name = i, name

            def expression_matrices(self, subproblem=None, vars=None, **k):
                # a variable may be absent from an expression
                return {v: Blk((self.name, self.i, v.j)) for v in vars if (self.i + v.j) % 3 != 2}

            def __ne__(self, o):
                return True
        eqn_ops = [S(i=i) for i in range(ne)]
        vars_ = [V_(j) for j in range(nv)]
        for conds in itertools.product((True, False), repeat=ne):
            if not any(conds):
                continue      # precondition: some equation applies in every group
            eqns = [{"eqn": eqn_ops[i], "M": (0 if i == 0 else Expr(i, "M")), "L": Expr(i, "L"), "valid_modes": Val(f"e{i}"), "domain": S(dim=i), "tensorsig": (), "condition": str(conds[i])} for i in range(ne)]
            me = S(solver=S(ncc_cutoff=0, max_ncc_terms=None, entry_cutoff=0, bc_top=True, tau_left=True, interleave_components=True, store_expanded_matrices=store),
                   problem=S(equations=eqns, eqs=eqns, LHS_variables=vars_, variables=vars_), dtype=float, group=(0,), group_dict={})
            me.check_condition = lambda e: conds[[x is e for x in eqns].index(True)]
            me.field_size = lambda f: esz[f.i] if hasattr(f, "i") else vsz[f.j]
            me.valid_modes = lambda f, vm: vm
            args = {}

            def lp(sp, eq, bc_top=None, interleave_components=None):
                args["left"] = (sp is me, eq is eqns)
                return W("Lperm")

            def rpm(sp, v, tau_left=None, interleave_components=None):
                args["right"] = (sp is me, v is vars_)
                return W("Rperm")
            extra = {"sparse": Sp(), "left_permutation": lp, "right_permutation": rpm, "drop_empty_rows": lambda m: W(("rows",) + m.w), "assert_sparse_pinv": lambda a, b: None,
                     "zeros_with_pattern": lambda *m: W(("pattern",)), "expand_pattern": lambda m, p: m}
            with npf.facade(ss, np=MNP(), extra=extra):
                ps = sym.explore(lambda: (attr(P, "build_matrices")(me, names), dict(me.__dict__))[1], pre + [z3.Not(z3.Bool("not_square"))])
                bad = sym.explore(lambda: attr(P, "build_matrices")(me, names), pre + [z3.Bool("not_square")], allow=(ValueError,))
            tag = f"{ne} equations, {nv} variables, conditions {conds}"
            for p in bad:
                chk.ground(f"{tag}: non-square systems are refused", func, isinstance(p.exc, ValueError), replay=rp)
            for p in ps:
                if p.exc:
                    raise Unsupported(repr(p.exc))
                d = p.result
                VE = ("diag", tuple([("e%d" % i, not conds[i]) for i in range(ne)]))
                VV = ("diag", tuple([("v%d" % j, False) for j in range(nv)]))
                left = (("rows", "Lperm", VE),)
                right = (("rows", "Rperm", VV),)
                ok = norm(d["pre_left"].w) == left and norm(d["pre_left_pinv"].w) == (("T", left[0]),)
                ok &= norm(d["pre_right_pinv"].w) == right and norm(d["pre_right"].w) == (("T", right[0]),)
                chk.ground(f"{tag}: preconditioners are filtered permutations and their transposes", func, ok and args == {"left": (True, True), "right": (True, True)}, f"{norm(d['pre_left'].w)}", replay=rp)
                for name in names:
                    w = d[name + "_min"].w
                    if len(w) != 3 or not (isinstance(w[1], tuple) and w[1][0] == "matrix"):
                        raise Unsupported("matrix word")
                    chk.ground(f"{tag}: {name} is preconditioned on both sides", func, norm((w[0],)) == left and norm((w[2],)) == (("T", right[0]),), replay=rp)
                    (_, (data, (rows, cols)), shape) = w[1]
                    chk.obl(f"{tag}: shape of {name}", func, p.pc, z3.And(to_int(shape[0]) == sum((s.t for s in esz), z3.IntVal(0)), to_int(shape[1]) == sum((s.t for s in vsz), z3.IntVal(0))), replay=rp)
                    dl, rl, cl = ([] if isinstance(x, list) and not x else x.parts for x in (data, rows, cols))
                    got = {}
                    for a, r, c in zip(dl, rl, cl):
                        a = a.base[0]
                        if r.base != (a, "row") or c.base != (a, "col"):
                            raise Unsupported("block entries mixed")
                        got.setdefault(a, []).append((r.off, c.off))
                    for i in range(ne):
                        for j in range(nv):
                            key = (name, i, j)
                            present = conds[i] and not (name == "M" and i == 0) and (i + j) % 3 != 2
                            io, jo = sum((s.t for s in esz[:i]), z3.IntVal(0)), sum((s.t for s in vsz[:j]), z3.IntVal(0))
                            gl = got.pop(key, [])
                            if not present:
                                chk.ground(f"{tag}: no block {key}", func, not gl, replay=rp)
                            elif not gl:
                                chk.obl(f"{tag}: block {key} may be absent only if empty", func, p.pc, z3.Or(esz[i].t == 0, vsz[j].t == 0), replay=rp)
                            else:
                                chk.ground(f"{tag}: block {key} once", func, len(gl) == 1, replay=rp)
                                chk.obl(f"{tag}: block {key} at the sums of the sizes before it", func, p.pc, z3.And(to_int(gl[0][0]) == io, to_int(gl[0][1]) == jo), replay=rp)
                    chk.ground(f"{tag}: no other blocks in {name}", func, not got, f"{list(got)}", replay=rp)
    for ne, nv, store in ((1, 1, True), (2, 2, False), (3, 2, True), (2, 3, True)):
        chk.contract(f"assembly of {ne}x{nv} blocks", func, lambda ne=ne, nv=nv, store=store: body(ne, nv, store))

    def lemma():
        f = "lemma: filtered permutations"
        n, m = z3.Ints("n m")
        tau = z3.Function("kept", z3.IntSort(), z3.IntSort())     # row k of P is the unit row of index kept(k)
        inv = z3.Function("place", z3.IntSort(), z3.IntSort())
        v = z3.Function("valid", z3.IntSort(), z3.BoolSort())
        k, l, i, j = z3.Ints("k l i j")
        ax = [z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= tau(k), tau(k) < n, v(tau(k)), inv(tau(k)) == k)), patterns=[tau(k)]),
              z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, v(i)), z3.And(0 <= inv(i), inv(i) < m, tau(inv(i)) == i)), patterns=[inv(i)])]
        one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        # (P P^T)[k,l] = sum_j [kept(k)=j][kept(l)=j] = [kept(k)=kept(l)]
        chk.obl("P P^T is the identity", f, ax + [0 <= k, k < m, 0 <= l, l < m], (tau(k) == tau(l)) == (k == l))
        # (P^T P)[i,j] = sum_k [kept(k)=i][kept(k)=j]: the only k is place(i)
        chk.obl("P^T P is the filter", f, ax + [0 <= i, i < n, 0 <= j, j < n, 0 <= k, k < m], z3.Implies(z3.And(tau(k) == i, tau(k) == j), z3.And(i == j, v(i), k == inv(i))))
        chk.obl("every valid index is reached", f, ax + [0 <= i, i < n, v(i)], z3.And(tau(inv(i)) == i, inv(i) >= 0, inv(i) < m))
    chk.contract("filtered permutations", "lemma: filtered permutations", lemma)


class V_:
    def __init__(self, j):
        self.j = j
        self.valid_modes = Val(f"v{j}")


def norm(w):
    def n(x):
        if isinstance(x, tuple) and x and x[0] == "diag":
            return ("diag", tuple((v.name, v.zero) for v in x[1]))
        if isinstance(x, tuple) and x and x[0] in ("rows", "T"):
            return (x[0],) + tuple(n(y) for y in x[1:])
        return x
    return tuple(n(x) for x in w)


# ------------------------------------------------------------------ groups

def grouping(chk, ss):
    chk = Inner(chk)
    func = f"{SS}: Subsystem.__init__"
    rp = find_roundtrip

    def body():
        for dim in (1, 2, 3):
            for dep, coup in itertools.product(itertools.product((False, True), repeat=dim), repeat=2):
                for group in itertools.product((0, 1, 2, -3, None), repeat=dim):
                    if any((g is None) != c for g, c in zip(group, coup)):
                        continue
                    default = tuple(7 + i for i in range(dim))
                    sol = S(problem=S(dtype=float), dist=S(default_nonconst_groups=default), matrix_dependence=np.array(dep), matrix_coupling=np.array(coup))
                    me = S()
                    attr(ss.Subsystem, "__init__")(me, sol, group)
                    want = tuple(g if (g is None or dep[i] or g == 0) else default[i] for i, g in enumerate(group))
                    chk.ground(f"matrix group of {group}, dependence {dep}", func, tuple(me.matrix_group) == want and me.group == group, f"{me.matrix_group}", replay=rp)
    chk.contract("matrix groups", func, body)

    def sub():
        f = f"{SS}: build_subproblems"
        for groups in ([(0, 1)], [(0, 1), (0, 2), (0, 1)], [(1,), (0,), (1,), (2,), (0,)], []):
            subs = [S(matrix_group=g, i=i) for i, g in enumerate(groups)]
            with npf.facade(ss, extra={"Subproblem": lambda solver, ssy, g: S(subsystems=list(ssy), group=g)}):
                r = ss.build_subproblems(S(), subs)
            ok = sorted(s.i for p in r for s in p.subsystems) == list(range(len(subs))) and all(s.matrix_group == p.group for p in r for s in p.subsystems) and len({p.group for p in r}) == len(r)
            chk.ground(f"each subsystem in one subproblem, by matrix group: {groups}", f, ok, replay=rp)
    chk.contract("subproblems", f"{SS}: build_subproblems", sub)


# ------------------------------------------------------------------ permutations

def permutation_case(ss, case):
    side, shapes, first, inter = case
    fn = ss.left_permutation if side == "left" else ss.right_permutation
    objs = []
    fs = {}
    for i, (ranks, modes, dim) in enumerate(shapes):
        o = S(domain=S(dim=dim), tensorsig=(1,) * len(ranks))
        fs[id(o)] = tuple(ranks) + tuple(modes)
        objs.append(o)
    sp = S(field_shape=lambda f: fs[id(f)])
    total = sum(int(np.prod(tuple(r) + tuple(m), dtype=int)) for r, m, d in shapes)
    if side == "left":
        eq = [{"eqn": o, "tensorsig": o.tensorsig, "domain": o.domain} for o in objs]
        M = fn(sp, eq, first, inter)
    else:
        M = fn(sp, objs, first, inter)
    A = M.toarray()
    if A.shape != (total, total) or not (((A == 0) | (A == 1)).all() and (A.sum(0) == 1).all() and (A.sum(1) == 1).all()):
        return {"permutation": side, "fields": shapes, "lower-dimensional first": first, "interleaved": inter, "shape": A.shape, "expected size": total,
                "column sums": A.sum(0).tolist(), "row sums": A.sum(1).tolist()}
    return None


def permutation_cases():
    comps = [(), (2,), (3,), (2, 2)]
    modes = [(1, 1), (1, 3), (2, 2), (2, 3), (1, 0)]
    one = [(c, m, d) for c in comps for m in modes for d in (1, 2)]
    for side, first, inter in itertools.product(("left", "right"), (False, True), (False, True)):
        for x in one:
            if np.prod(x[1]):
                yield side, (x,), first, inter
        for x, y in itertools.product(one[::3] + one[1::7], one):
            if np.prod(x[1]) or np.prod(y[1]):
                yield side, (x, y), first, inter
        for k in range(60):
            r = np.random.default_rng(k)
            yield side, tuple(one[i] for i in r.integers(0, len(one), 4)) + (((), (1, 1), 1),), first, inter


def find_permutation(ss):
    for c in permutation_cases():
        try:
            r = permutation_case(ss, c)
        except Exception as e:
            return {"case": c, "error": f"{type(e).__name__}: {e}"}
        if r:
            return r


# ------------------------------------------------------------------ bounded: real problems

def systems(d3, name, dtype, comm=None, mesh=None):
    """(dist, list of variables) for a named domain."""
    dtype = np.float64 if dtype is float else np.complex128 if dtype is complex else dtype
    kw = dict(dtype=dtype)
    if comm is not None:
        kw.update(comm=comm, mesh=mesh)
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    if name in ("x", "fx", "fxz", "xz", "fff", "ffz", "fff2"):
        n = {"x": 1, "fx": 1, "fxz": 2, "xz": 2, "fff": 3, "ffz": 3, "fff2": 3}[name]
        cs = d3.CartesianCoordinates(*("xyz"[:n]))
        dist = d3.Distributor(cs, **kw)
        mk = {"x": [0], "fx": [1], "fxz": [1, 0], "xz": [0, 0], "fff": [1, 1, 1], "ffz": [1, 1, 0], "fff2": [1, 1, 1]}[name]
        sz = [6, 8, 4]
        b = [F(cs["xyz"[i]], sz[i], bounds=(0, 1)) if k else d3.ChebyshevT(cs["xyz"[i]], sz[i] - 1, bounds=(0, 1)) for i, k in enumerate(mk)]
        V = [dist.Field(name="a", bases=tuple(b)), dist.Field(name="v", bases=tuple(b), tensorsig=(cs,)), dist.Field(name="t", bases=tuple(b), tensorsig=(cs, cs)),
             dist.Field(name="e", bases=tuple(b[:-1])), dist.Field(name="w", bases=tuple(b[:-1]), tensorsig=(cs,)), dist.Field(name="k", bases=())]
        return dist, cs, V
    if name in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(cs, **kw)
        B = d3.DiskBasis(cs, (8, 6), dtype, radius=1.5) if name == "disk" else d3.AnnulusBasis(cs, (8, 6), dtype, radii=(0.5, 2))
        E = B.edge if name == "disk" else B.outer_edge
    elif name == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        dist = d3.Distributor(cs, **kw)
        B = d3.SphereBasis(cs, (8, 6), dtype, radius=1.3)
        E = None
    else:
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(cs, **kw)
        B = d3.BallBasis(cs, (8, 6, 5), dtype, radius=1.5) if name == "ball" else d3.ShellBasis(cs, (8, 6, 5), dtype, radii=(0.5, 2))
        E = B.surface if name == "ball" else B.outer_surface
    V = [dist.Field(name="a", bases=B), dist.Field(name="v", bases=B, tensorsig=(cs,)), dist.Field(name="t", bases=B, tensorsig=(cs, cs))]
    if E is not None:
        V += [dist.Field(name="e", bases=E), dist.Field(name="w", bases=E, tensorsig=(cs,))]
    V += [dist.Field(name="k", bases=())]
    return dist, cs, V


NAMES = ("x", "fx", "fxz", "xz", "fff", "ffz", "disk", "annulus", "sphere", "ball", "shell")


def valid(v):
    """The modes of a field: valid_modes, and in the ball (triangular truncation in radius) those its transforms keep."""
    import dedalus.public as d3
    ok = v.valid_modes
    if any(isinstance(b, d3.BallBasis) for b in v.domain.bases) and v.dist.comm.size == 1:
        keep = v["c"].copy()
        v["c"] = np.random.default_rng(3).standard_normal(v["c"].shape)
        v["g"]
        ok = ok & (abs(v["c"]) > 1e-9)
        v["c"] = keep
    return ok


def solver_for(d3, V, coupling=None, split=None, **kw):
    p = d3.LBVP(V, namespace={})
    for v in V:
        if split is None:
            p.add_equation((v, 0))
        else:
            # complementary conditions on one group index: one of the two equations applies in each group
            p.add_equation((v, 0), condition=f"{split} == 0")
            p.add_equation((v, 0), condition=f"{split} != 0")
    if coupling is not None:
        kw["matrix_coupling"] = np.array(coupling)
    return p, p.build_solver(**kw)


def check_roundtrip(d3, case):
    """Partition, gather and scatter on every subproblem of a real problem."""
    from props.refs import fill
    name, dtype, opts, coup, pick = case
    dist, cs, V = systems(d3, name, dtype)
    V = [V[i] for i in pick if i < len(V)]
    if coup is not None and len(coup) != dist.dim:
        return None
    try:
        p, s = solver_for(d3, V, coup, **opts)
    except ValueError as e:
        if coup is not None and "Incompatible group distributions" in str(e):
            return None       # couplings that the bases cannot serve are refused
        raise
    s.build_matrices(s.subproblems, ["L"])
    for i, v in enumerate(V):
        fill(v, i, drop_invalid=False)
    keep = [v.data.copy() for v in V]
    VM = [valid(v) for v in V]
    count = [np.zeros(v.data.shape, int) for v in V]
    for sp in s.subproblems:
        for ss_ in sp.subsystems:
            for v, c in zip(V, count):
                if ss_.field_size(v):
                    c[ss_.field_slices(v)] += 1
    for v, c, vm in zip(V, count, VM):
        if ((c != 1) & vm).any():
            return {"case": case, "variable": v.name, "valid modes in no subproblem": int(((c == 0) & vm).sum()), "in several": int(((c > 1) & vm).sum())}
        if (c > 1).any():
            return {"case": case, "variable": v.name, "modes in several subproblems": int((c > 1).sum())}
    # gather all, clear, scatter all
    got = [sp.gather_inputs(V).copy() for sp in s.subproblems]
    outs = []
    F = [e["F"] for e in p.equations]
    if opts.get("split"):
        cF = [d for d in keep for _ in range(2)]
    else:
        cF = keep
    for f, d in zip(F, cF):
        f.change_layout("c")
        f.data[...] = d
    gout = [sp.gather_outputs(F).copy() for sp in s.subproblems]
    for sp, a, b in zip(s.subproblems, got, gout):
        # equations v = F: matrix @ inputs == outputs
        if a.shape != b.shape or abs(sp.L_min @ a - b).max(initial=0) > 1e-12:
            return {"case": case, "group": [None if g is None else int(g) for g in sp.group], "matrix": "identity equations do not map gathered inputs to gathered outputs"}
        if abs(sp.L_min).sum() != sp.L_min.shape[0] or len(set(sp.L_min.indices)) != sp.L_min.shape[0]:
            return {"case": case, "group": str(sp.group), "matrix": "identity equations do not give a permutation matrix"}
    for v in V + F:
        v.data[...] = 7.5
    for sp, a, b in zip(s.subproblems, got, gout):
        sp.scatter_inputs(a, V)
        sp.scatter_outputs(b, F)
    F1 = F if not opts.get("split") else [None] * len(V)
    for v, f, d, c, ok in zip(V, F1, keep, count, VM):
        for q, what in ((v, "inputs"), (f, "outputs")):
            if q is None:
                continue
            if abs((q.data - d)[ok]).max(initial=0) > 0:
                return {"case": case, "variable": v.name, "scattered": what, "valid modes changed": int((q.data - d != 0)[ok].sum())}
            rest = ~v.valid_modes & (c == 1)
            if abs(q.data[rest]).max(initial=0) > 0:
                return {"case": case, "variable": v.name, "scattered": what, "invalid modes not zero": int((q.data != 0)[rest].sum())}
    # gather after scatter
    for sp, a in zip(s.subproblems, got):
        if not np.array_equal(sp.gather_inputs(V), a):
            return {"case": case, "group": str(sp.group), "gather after scatter": "differs"}
    # the data may have moved to other buffers (scales beyond the dealias scales, and back)
    for k, sc in enumerate((3, 1, 2.5)):
        for i, v in enumerate(V):
            d = v.data.copy()
            v.preset_scales(sc)
            v.change_layout("c")
            v.data[...] = (k + 2) * d
        for sp, a in zip(s.subproblems, got):
            if abs(sp.gather_inputs(V) - (k + 2) * a).max(initial=0) > 1e-12 * abs(a).max(initial=1):
                return {"case": case, "group": str(sp.group), "gather after changing scales": "stale data"}
            sp.scatter_inputs(a, V)
        for v, d, ok in zip(V, keep, VM):
            if abs((v.data - d)[ok]).max(initial=0) > 1e-12:
                return {"case": case, "variable": v.name, "scatter after changing scales": "not in the field"}
    for v in V:
        v.preset_scales(1)
    # plain subsystem gather and scatter
    for v, d in zip(V, keep):
        v.data[...] = d
    vecs = [[ss_.gather(V).copy() for ss_ in sp.subsystems] for sp in s.subproblems]
    for v in V:
        v.data[...] = 0
    for sp, vv in zip(s.subproblems, vecs):
        for ss_, x in zip(sp.subsystems, vv):
            ss_.scatter(x, V)
    for v, d, c in zip(V, keep, count):
        if not np.array_equal(v.data[c == 1], d[c == 1]) or v.data[c == 0].any():
            return {"case": case, "variable": v.name, "subsystem gather and scatter": "data changed"}
    return None


def roundtrip_cases(thorough):
    k = 0
    for name in NAMES:
        for dtype in (float, complex):
            opts = [dict(bc_top=a, tau_left=b, interleave_components=c) for a, b, c in itertools.product((False, True), repeat=3)]
            picks = [(0, 1, 2, 3, 4, 5), (0,), (1, 5), (2, 3), (5, 1, 0, 4)]
            dim = {"x": 1, "fx": 1, "fff": 3, "ffz": 3, "ball": 3, "shell": 3}.get(name, 2)
            coups = [None]
            if name in ("fxz", "fff", "ffz", "fx"):
                coups += [c for c in itertools.product((False, True), repeat=dim) if not (name in ("fxz", "ffz") and not c[-1])]
            if name in ("sphere", "annulus", "disk"):     # precondition: radial axes are coupled
                coups += [(False, True), (True, True)] + [(False, False)] * (name == "sphere")
            if name in ("ball", "shell"):
                coups += [(False, False, True), (False, True, True)]
            for pk, cp in itertools.product(picks, coups):
                take = opts if thorough else [opts[k % 8], opts[(k * 3 + 5) % 8]]
                first = {"f": "nx", "d": "nphi", "a": "nphi"}.get(name[0])
                if first and name != "fx" and cp is None and pk[0] != 5:
                    take = take + [dict(take[0], split=first)]
                for o in take:
                    k += 1
                    yield name, dtype, o, cp, pk


def find_roundtrip(m=None):
    import dedalus.public as d3
    end = time.time() + 60
    cases = list(roundtrip_cases(False))
    for c in cases[::7] + cases:
        if time.time() > end:
            return None
        try:
            r = check_roundtrip(d3, c)
        except Exception as e:
            return {"case": str(c), "error": f"{type(e).__name__}: {e}"}
        if r:
            return r
    return None


find_roundtrip.takes_none = True


def check_mesh(d3, case):
    """Across all ranks of a mesh every valid mode lies in exactly one subsystem."""
    from vf import fake
    name, dtype, mesh = case
    size = int(np.prod(mesh))
    tot = None
    for rank in range(size):
        dist, cs, V = systems(d3, name, dtype, fake.FakeComm(size, rank), mesh)
        V = V[:5] if name[0] in "fx" else V
        try:
            p, s = solver_for(d3, V)
        except ValueError as e:
            if "Incompatible" in str(e):
                return None
            raise
        if tot is None:
            L = dist.coeff_layout
            tot = [np.zeros(tuple(c.dim for c in v.tensorsig) + tuple(L.global_shape(v.domain, 1)), int) for v in V]
            val = [np.zeros(t.shape, bool) for t in tot]
        for v, t, w in zip(V, tot, val):
            el = dist.coeff_layout.local_elements(v.domain, scales=1)
            ix = np.ix_(*[np.arange(c.dim) for c in v.tensorsig], *el)
            v.change_layout("c")
            loc = np.zeros(v.data.shape, int)
            for sp in s.subproblems:
                for ss_ in sp.subsystems:
                    if ss_.field_size(v):
                        loc[ss_.field_slices(v)] += 1
            t[ix] += loc
            w[ix] |= v.valid_modes
    dist, cs, V0 = systems(d3, name, dtype)
    V0 = V0[:len(V)]
    for v, v0, t, w in zip(V, V0, tot, val):
        if not np.array_equal(w, v0.valid_modes):
            return {"case": case, "variable": v.name, "valid modes differ from those on one process": int((w != v0.valid_modes).sum())}
        w = valid(v0)
        if ((t != 1) & w).any():
            return {"case": case, "variable": v.name, "valid modes in no subsystem": int(((t == 0) & w).sum()), "in several": int(((t > 1) & w).sum())}
    return None


def bounded(chk, ss):
    import dedalus.public as d3
    chk.bounded("row and column permutations", "two to five fields, ranks 0..2, dimensions 1..2, all options", permutation_cases(), lambda c: permutation_case(ss, c), key="permutations", budget=60)
    chk.bounded("gather, scatter and partition on real problems", "11 domains, real and complex, five sets of variables, couplings, permutation options", roundtrip_cases(chk.thorough),
                lambda c: check_roundtrip(d3, c), key="roundtrip", budget=200 if not chk.thorough else 700)
    mesh = [(n, dt, m) for n, ms in (("fxz", ((2,), (3,))), ("fff", ((2,), (2, 2), (3, 2))), ("ffz", ((2,), (2, 3))), ("fx", ()), ("disk", ((2,), (3,))), ("annulus", ((2,),)), ("sphere", ((2,), (4,))),
            ("ball", ((2,), (2, 2))), ("shell", ((2,), (2, 3)))) for m in ms for dt in (float, complex)]
    chk.bounded("partition over processes", "meshes to 3x2, every rank", mesh, lambda c: check_mesh(d3, c), key="meshes", budget=120)


def run(chk):
    from dedalus.core import subsystems as ss
    chk.trust("perm_matrix, drop_empty_rows and apply_sparse by the contracts of N01")
    chk.trust("element and group layout (local_groupsets, local_groupset_slices) as in D01")
    chk.parallel([
        lambda c: (gathering(c, ss), grouping(c, ss)),
        lambda c: assembly(c, ss),
        lambda c: bounded(c, ss),
    ])
