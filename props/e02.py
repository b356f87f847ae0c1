"""E02: equations become the matrices and right-hand sides they state.

Contracts
  parsing.split_equation: loop invariant over texts of any length (depth of parentheses, positions of top-level '=').
  expression_matrices of every node class by induction over expression trees: the children's matrices are arbitrary
     noncommuting symbols, the node's matrices are the sums and products of them that the node means.
  Product.build_cartesian_ncc_matrix, cartesian_mode_matrix, GammaCoord: sum over the modes of coefficient times mode
     matrix (arbitrary coefficients), components contracted as the product defines.
  require_linearity, require_first_order, require_independent of every node class by induction: accepted exactly when
     every operand class is one for which the node is linear (affine, first order, independent).
  _check_equation_conditions and _build_matrix_expressions of every problem class on arbitrary expressions: M, L and F
     are the parts of the equation, on one common domain, with coefficients prepared.
  LBVP.solve, NLBVP.newton_iteration, EVP.solve_dense, solve_sparse: the systems handed to the linear solvers.
Rewriting (split, replace, frechet_differential) by E01, operator matrices by S01 and N02, assembly by M01.  Real
problems of every class on every geometry are compared with direct evaluation as bounded replay.
"""

import contextlib
import itertools
import types
from collections import Counter
from fractions import Fraction

import numpy as np
import z3

from vf import sym, npf, loops
from vf.sym import Int, Real, SymInt, SymBool, Unsupported, ctx, to_int, to_real
from props.n02 import takes
from props.s01 import attr
from props.m01 import Inner

S = types.SimpleNamespace
AR, OP, PR, SO, PA = ("core/arithmetic.py", "core/operators.py", "core/problems.py", "core/solvers.py", "tools/parsing.py")


# ------------------------------------------------------------------ splitting texts

class Ch:
    """One character of an arbitrary text."""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if not (isinstance(o, str) and len(o) == 1):
            raise Unsupported("comparison of a character")
        return SymBool(self.t == ord(o))

    def __ne__(self, o):
        return SymBool(self.t != ord(o))
    __hash__ = None

    def __add__(self, o):
        raise Unsupported("characters joined")
    __radd__ = __add__


class Text:
    def __init__(self, part=None):
        self.part = part

    def __getitem__(self, k):
        if self.part is not None or not isinstance(k, slice) or k.step is not None:
            raise Unsupported("text slice")
        return Text((k.start, k.stop))

    def strip(self, *a):
        return self


class Places:
    """The positions found so far: arbitrary, with what the iteration appends."""

    def __init__(self, n, last):
        self.n, self.last, self.new = n, last, []

    def append(self, i):
        self.new.append(i)

    def __iter__(self):
        if bool(SymBool(to_int(self.n) == 1)):
            return iter([self.last])
        raise ValueError("not one position")

    def __getitem__(self, k):
        if k in (0, -1) and bool(SymBool(to_int(self.n) == 1)):
            return self.last
        raise Unsupported("position")

    def __bool__(self):
        return bool(SymBool(to_int(self.n) != 0))


class SplitLoop(loops.Cutter):
    def __init__(self, chk):
        self.chk = chk

    def names_of(self, loc):
        ints = [k for k, v in loc.items() if isinstance(v, int) and not isinstance(v, bool)]
        lists = [k for k, v in loc.items() if isinstance(v, list)]
        return ints, lists

    def enter(self, it, loc):
        if not isinstance(it, Enum):
            raise Unsupported("loop over something else")
        ints, lists = self.names_of(loc)
        if len(ints) != 1 or len(lists) != 1 or loc[ints[0]] != 0 or loc[lists[0]]:
            raise Unsupported("loop state")
        self.depth, self.places = ints[0], lists[0]

    def havoc(self, names, loc):
        self.P = Int("depth")
        self.L = Places(Int("found"), Int("last"))
        ctx().assume(self.L.n.t >= 0)
        out = {self.depth: self.P, self.places: self.L}
        if set(names) - set(out):
            raise Unsupported("loop state")
        return out

    def index(self, loc):
        self.i = Int("i")
        self.c = z3.Int("char")
        return (self.i, Ch(self.c))

    def preserve(self, loc):
        want = self.P.t + z3.If(self.c == ord("("), 1, 0) - z3.If(self.c == ord(")"), 1, 0)
        hit = z3.And(self.c == ord("="), self.P.t == 0)
        new = loc[self.places].new
        goal = z3.And(to_int(loc[self.depth]) == want, hit == z3.BoolVal(len(new) == 1), z3.BoolVal(len(new) <= 1))
        if len(new) == 1:
            goal = z3.And(goal, to_int(new[0]) == self.i.t)
        ctx().side.append(("one step of the scan", list(ctx().pc()), goal))

    def leave(self, names, loc):
        self.final = Places(Int("found_all"), Int("the_place"))
        ctx().assume(self.final.n.t >= 0)
        return {self.depth: Int("depth_end"), self.places: self.final}


class Enum:
    def __init__(self, x):
        self.x = x


def splitting(chk, pa):
    func = f"{PA}: split_equation"

    def body():
        from dedalus.tools.exceptions import SymbolicParsingError
        loop = SplitLoop(chk)
        fn = loops.cut(pa.split_equation, [loop], {"enumerate": Enum, "len": lambda x: x.n if isinstance(x, Places) else len(x)})
        ps = sym.explore(lambda: fn(Text()), [], allow=(loops.Done, SymbolicParsingError))
        seen = Counter()
        for p in ps:
            for name, pc, goal in p.ctx.side:
                chk.obl(name, func, pc, goal, replay=find_split, observable=False)
            if isinstance(p.exc, loops.Done):
                seen["step"] += 1
                continue
            n = loop.final.n.t
            n = z3.Int("found_all") if n is None else n
            if isinstance(p.exc, SymbolicParsingError):
                chk.obl("refused only without exactly one top-level '='", func, p.pc, z3.Not(loop_n(p) == 1), replay=find_split, observable=False)
                seen["refused"] += 1
            elif p.exc is not None:
                chk.ground("no other exception", func, False, repr(p.exc), replay=find_split, observable=False)
            else:
                a, b = p.result
                ok = isinstance(a, Text) and isinstance(b, Text) and a.part[0] in (None, 0) and b.part[1] is None
                chk.ground("both sides", func, ok, replay=find_split, observable=False)
                if ok:
                    chk.obl("split at the position found", func, p.pc, z3.And(loop_n(p) == 1, to_int(a.part[1]) == loop_last(p), to_int(b.part[0]) == loop_last(p) + 1), replay=find_split, observable=False)
                seen["split"] += 1
        chk.ground("all outcomes occur", func, {"step", "refused", "split"} <= set(seen), f"{seen}", observable=False)

    def loop_n(p):
        return find_var(p, "found_all")

    def loop_last(p):
        return find_var(p, "the_place")
    chk.contract("split_equation", func, body)


def find_var(p, name):
    """The variable of that name on the path (names are made unique by the explorer)."""
    return z3.Int(name)


def ref_split(text):
    """Independent reference: recursive descent over parentheses."""
    depth, cuts = 0, []
    for k in range(len(text)):
        depth = text[:k].count("(") - text[:k].count(")")
        if text[k] == "=" and depth == 0:
            cuts.append(k)
    return None if len(cuts) != 1 else (text[:cuts[0]].strip(), text[cuts[0] + 1:].strip())


def split_texts():
    for n in range(0, 7):
        for t in itertools.product("(=)a ", repeat=n):
            yield "".join(t)
    yield "f(x, y=5) = x**2"
    yield "dt(u) - div(grad(u), a=(b=c)) + lift(tau, n=-1) = f(g(x=1)(y=2), z=3)"


def check_split(text):
    from dedalus.tools import parsing
    from dedalus.tools.exceptions import SymbolicParsingError
    want = ref_split(text)
    try:
        got = parsing.split_equation(text)
    except SymbolicParsingError:
        got = None
    return None if got == want else {"text": text, "split": got, "expected": want}


def find_split(m=None):
    for t in split_texts():
        try:
            r = check_split(t)
        except Exception as e:
            return {"text": t, "error": f"{type(e).__name__}: {e}"}
        if r:
            return r


find_split.takes_none = True


# ------------------------------------------------------------------ matrices of expressions

class Wd:
    """Element of the free algebra on named matrices: {word: coefficient}."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}

    @staticmethod
    def of(name):
        return Wd({(name,): 1})

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        if not isinstance(o, Wd):
            return NotImplemented
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Wd(r)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-1) * o

    def __neg__(self):
        return (-1) * self

    def __mul__(self, c):
        if isinstance(c, Wd):
            raise Unsupported("elementwise product of matrices")
        return Wd({k: c * v for k, v in self.d.items()})
    __rmul__ = __mul__

    def __matmul__(self, o):
        if isinstance(o, Wd):
            r = {}
            for a, x in self.d.items():
                for b, y in o.d.items():
                    r[a + b] = r.get(a + b, 0) + x * y
            return Wd(r)
        return NotImplemented

    def __eq__(self, o):
        return isinstance(o, Wd) and self.d == o.d
    __hash__ = None

    def tocsr(self): return self
    tocsc = tocoo = copy = tocsr

    @property
    def nnz(self):
        raise Unsupported("nnz")

    def __repr__(self):
        return " + ".join(f"{v}*{'.'.join(map(str, k))}" for k, v in self.d.items()) or "0"


ONE = Wd({(): 1})


class SpW:
    """scipy.sparse on words: sizes are those asked of the subproblem."""

    def __init__(self, sizes):
        self.sizes = sizes

    def identity(self, n, *a, **k):
        return ONE
    eye = identity

    def csr_matrix(self, a, *k, **kw):
        if isinstance(a, Wd):
            return a
        if isinstance(a, tuple):
            return Wd()
        raise Unsupported("csr_matrix")
    csc_matrix = coo_matrix = csr_matrix

    def __getattr__(self, n):
        raise Unsupported(f"sparse.{n}")


class Child:
    """Arbitrary subexpression: linear in the variables it has, with arbitrary matrices."""

    def __init__(self, name, has, kw):
        self.name, self.vars, self.kw = name, has, kw
        self.asked = 0

    def expression_matrices(self, subproblem, vars, **kw):
        if subproblem != "sp" or kw != self.kw:
            raise Wrong("asked about another subproblem or with other options")
        self.asked += 1
        return {v: Wd.of(f"{self.name}{v}") for v in vars if v in self.vars}


class Wrong(Exception):
    pass


def matrices(chk, ar, op, fi):
    rp = find_matrices
    kw = {"ncc_cutoff": 1e-3, "max_ncc_terms": 5}
    vars = ("u", "v", "w")
    subsets = [(), ("u",), ("v",), ("u", "w"), vars]

    class SubP(str):
        def field_size(self, f): return 4

    def call(cls, me, mod, v=vars):
        sp = SubP("sp")
        with npf.facade(mod, extra={"sparse": SpW(None)}):
            return attr(cls, "expression_matrices")(me, sp, v, **kw)

    def add():
        func = f"{AR}: Add.expression_matrices"
        for n in (1, 2, 3):
            for has in itertools.product(subsets, repeat=n):
                ch = [Child(f"A{i}", h, kw) for i, h in enumerate(has)]
                me = Stub(args=ch, arg0=ch[0])
                r = call(ar.Add, me, ar)
                want = {}
                for c in ch:
                    for x in c.vars:
                        want[x] = want.get(x, Wd()) + Wd.of(f"{c.name}{x}")
                ok = {k: (v if isinstance(v, Wd) else None) for k, v in r.items() if not (isinstance(v, Wd) and not v.d)} == want
                chk.ground(f"sum over {has}", func, ok, f"{r}", replay=rp)
        me = Stub(args=[Child("A", vars, kw)])
        chk.ground("a sum that is itself a variable", func, call(ar.Add, me, ar, (me,)) == {me: ONE}, replay=rp)
    chk.contract("sums", f"{AR}: Add.expression_matrices", add)

    def scale():
        func = f"{AR}: MultiplyNumberField.expression_matrices"
        for c in (2, -1, 0.5, 1j, np.float64(3), np.complex128(1 - 2j)):
            for has in subsets:
                ch = Child("A", has, kw)
                r = call(ar.MultiplyNumberField, Stub(args=[c, ch]), ar)
                chk.ground(f"{c} times {has}", func, r == {x: c * Wd.of(f"A{x}") for x in has}, f"{r}", replay=rp)
    chk.contract("scaling", f"{AR}: MultiplyNumberField.expression_matrices", scale)

    def product():
        func = f"{AR}: Product.expression_matrices"
        for has in subsets:
            ch = Child("A", has, kw)
            me = Stub(operand=ch, _ncc_vars=vars, build_ncc_matrix=lambda sp, ncc_cutoff, max_ncc_terms: Wd.of("NCC") if (sp, ncc_cutoff, max_ncc_terms) == ("sp", 1e-3, 5) else None)
            r = call(ar.Product, me, ar)
            chk.ground(f"coefficient times {has}", func, r == {x: Wd.of("NCC") @ Wd.of(f"A{x}") for x in has}, f"{r}", replay=rp)
        from dedalus.tools.exceptions import SymbolicParsingError
        try:
            call(ar.Product, Stub(operand=Child("A", vars, kw), _ncc_vars=("u",), build_ncc_matrix=lambda *a, **k: Wd.of("NCC")), ar)
            chk.ground("other variables than prepared are refused", func, False, replay=rp)
        except SymbolicParsingError:
            chk.ground("other variables than prepared are refused", func, True)
    chk.contract("products", f"{AR}: Product.expression_matrices", product)

    def prep():
        func = f"{AR}: Product.prep_nccs"
        for first in (0, 1):
            events = []
            x = S(prep_nccs=lambda vars: events.append(vars))
            args = [x, "ncc"] if first == 0 else ["ncc", x]
            me = Stub(args=args, require_linearity=lambda *v, recurse=True: first if v == vars else None)
            attr(ar.Product, "prep_nccs")(me, vars)
            chk.ground(f"variable factor {first}", func, me.operand is x and me.ncc == "ncc" and bool(me.ncc_first) == (first == 1) and me._ncc_vars == vars and events == [vars], replay=rp)
        f2 = f"{AR}: Product.gather_ncc_coeffs"
        for kind in ("field", "future", "number"):
            ev = []
            F = type("F", (), {"require_coeff_space": lambda s: ev.append("c"), "allgather_data": lambda s: ev.append("g") or "data"})
            U = type("U", (), {"evaluate": lambda s: ev.append("e") or F()})
            ncc = {"field": F(), "future": U(), "number": 3}[kind]
            me = Stub(operand=S(gather_ncc_coeffs=lambda: ev.append("r")), ncc=ncc)
            with npf.facade(ar, extra={"Field": F, "Future": U}):
                attr(ar.Product, "gather_ncc_coeffs")(me)
            want = {"field": ["c", "g"], "future": ["e", "c", "g"], "number": []}[kind]
            chk.ground(f"coefficients of a {kind}", f2, [e for e in ev if e != "r"] == want and "r" in ev and me._ncc_data == (3 if kind == "number" else "data"), f"{ev}", replay=rp)
    chk.contract("coefficient preparation", f"{AR}: Product.prep_nccs", prep)

    def linop():
        func = f"{OP}: LinearOperator.expression_matrices"
        for has in subsets:
            ch = Child("A", has, kw)
            me = Stub(operand=ch, args=[ch], subproblem_matrix=lambda sp: Wd.of("OP") if sp == "sp" else None)
            r = call(op.LinearOperator, me, op)
            chk.ground(f"operator on {has}", func, r == {x: Wd.of("OP") @ Wd.of(f"A{x}") for x in has}, f"{r}", replay=rp)
        me = Stub(operand=Child("A", vars, kw), subproblem_matrix=lambda sp: Wd.of("OP"))
        chk.ground("an operator that is itself a variable", func, call(op.LinearOperator, me, op, (me,)) == {me: ONE}, replay=rp)
    chk.contract("linear operators", f"{OP}: LinearOperator.expression_matrices", linop)

    def leaf():
        func = "core/field.py: Current.expression_matrices"
        me = Stub(require_linearity=lambda *v, **k: None if me in v else (_ for _ in ()).throw(AssertionError("not a variable")))
        r = call(fi.Current, me, fi, (me,))
        chk.ground("a variable", func, r == {me: ONE}, f"{r}", replay=rp)
        try:
            call(fi.Current, me, fi, vars)
            chk.ground("other fields are refused", func, False, replay=rp)
        except AssertionError:
            chk.ground("other fields are refused", func, True)
    chk.contract("variables", "core/field.py: Current.expression_matrices", leaf)

    def overrides():
        """Classes with their own expression_matrices are exactly those above: the induction is over all classes."""
        import dedalus.core.future as fu
        import dedalus.core.basis
        base = {ar.Add, ar.Product, ar.MultiplyNumberField, op.LinearOperator, op.NonlinearOperator, fi.Current, fi.Operand}
        todo, seen = [fi.Operand], set()
        while todo:
            c = todo.pop()
            if c not in seen:
                seen.add(c)
                todo += c.__subclasses__()
        own = {c for c in seen if "expression_matrices" in c.__dict__}
        chk.ground("node classes defining matrices", "expression_matrices", own <= base, f"{sorted(c.__name__ for c in own - base)}")
    chk.contract("node classes", "expression_matrices", overrides)


class Stub:
    def __init__(self, **k):
        self.__dict__.update(k)


# ------------------------------------------------------------------ coefficient matrices

class KronW:
    """scipy.sparse with kron of a dense array and a word: block dictionary {(i, j): Wd}."""

    def csr_matrix(self, a, *k, **kw):
        if isinstance(a, Blocks):
            return a
        return Blocks({}, None)

    def kron(self, a, b, *k, **kw):
        if isinstance(a, Wd) and isinstance(b, Wd):
            return Wd({("kron", x, y): p * q for x, p in a.d.items() for y, q in b.d.items()})
        a = np.asarray(a, dtype=object)
        return Blocks({ij: c * b for ij, c in np.ndenumerate(a)}, a.shape)

    def identity(self, n, *a, **k):
        return Wd({(("I", n),): 1})
    eye = identity

    def __getattr__(self, n):
        raise Unsupported(f"sparse.{n}")


class Blocks:
    def __init__(self, d, shape):
        self.d, self.shape = d, shape

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r[k] + v if k in r else v
        return Blocks(r, self.shape or o.shape)
    __radd__ = __add__

    def tocsr(self): return self


def gammas(ar, op):
    """(name, stand-in, contraction) for the products: out[c] = sum G[a, b, c] A[a] B[b]."""
    eps = np.zeros((3, 3, 3))
    for p in itertools.permutations(range(3)):
        eps[p] = np.linalg.det(np.eye(3)[list(p)])
    return eps


def coefficients(chk, ar):
    rp = find_matrices
    e = S(dim=2, name="e")
    e3 = S(dim=3, name="e3")

    def gamma():
        rng = np.random.default_rng(0)
        for d in (2, 3):
            cs = S(dim=d)
            cart = S(dim=d, right_handed=True)
            for ra, rb in itertools.product(range(3), repeat=2):
                A, B = (cs,) * ra, (cs,) * rb
                x = rng.integers(-9, 9, (d,) * ra)
                y = rng.integers(-9, 9, (d,) * rb)
                cases = []
                cases.append(("Multiply", attr(ar.MultiplyFields, "GammaCoord"), Stub(), A + B, np.multiply.outer(x, y)))
                if ra and rb:
                    for i, j in itertools.product(range(ra), range(rb)):
                        o = np.tensordot(x, y, axes=(i, j))
                        cases.append((f"DotProduct {i},{j}", attr(ar.DotProduct, "GammaCoord"), Stub(indices=(i, j)), (cs,) * (ra + rb - 2), o))
                for name, fn, me, C, want in cases:
                    with npf.facade(ar):
                        G = fn(me, A, B, C)
                    got = np.einsum("abc,a,b->c", np.asarray(G), x.ravel(), y.ravel())
                    # G is an integer array: compare on all basis pairs
                    full = True
                    for a in range(x.size):
                        for b in range(y.size):
                            ea, eb = np.zeros(x.size, int), np.zeros(y.size, int)
                            ea[a], eb[b] = 1, 1
                            if name == "Multiply":
                                w = np.multiply.outer(ea, eb)
                            else:
                                w = np.tensordot(ea.reshape(x.shape), eb.reshape(y.shape), axes=me.indices)
                            full &= np.array_equal(np.asarray(G)[a, b], np.asarray(w).ravel())
                    chk.ground(f"{name} of ranks {ra}, {rb} in dimension {d}", f"{AR}: {name.split()[0]}.GammaCoord", full and np.array_equal(got, np.asarray(want).ravel()), replay=rp)
    chk.contract("components of products", f"{AR}: GammaCoord", gamma)

    def cross():
        eps = gammas(None, None)
        from dedalus.core import coords as co
        for name, cs, sign in (("Cartesian", co.CartesianCoordinates("x", "y", "z"), 1), ("Spherical", co.SphericalCoordinates("p", "t", "r"), None)):
            v = (cs,)
            with npf.facade(ar):
                G = np.asarray(attr(ar.CrossProduct, "GammaCoord")(Stub(), v, v, v))
            # (azimuth, colatitude, radius) is left-handed: e_phi x e_theta = -e_r
            s = 1 if sign else (1 if getattr(cs, "right_handed", True) else -1)
            chk.ground(f"cross product in {name} components", f"{AR}: CrossProduct.GammaCoord", np.array_equal(G.reshape(3, 3, 3), s * eps.transpose(0, 1, 2)), f"{G}", replay=rp)
    chk.contract("cross product", f"{AR}: CrossProduct.GammaCoord", cross)

    def modes():
        func = f"{AR}: Product.build_cartesian_ncc_matrix"
        cut = 0.25
        for first, (ra, rn) in itertools.product((True, False), ((0, 0), (1, 0), (0, 1), (1, 1))):
            for mshape in ((2,), (1, 2)):
                if rn and mshape != (2,):
                    continue
                out_ts = (e,) * (ra + rn)
                ncomp = 2 ** rn

                def run():
                    data = np.empty((2,) * rn + mshape, dtype=object)
                    for k in np.ndindex(data.shape):
                        data[k] = Real("c" + "_".join(map(str, k)))
                    D = types.SimpleNamespace
                    me = Stub(ncc=D(tensorsig=(e,) * rn, domain="Dn"), operand=D(tensorsig=(e,) * ra, domain="Da"), tensorsig=out_ts, domain="Do", ncc_first=first, dtype=float,
                              _ncc_data=data)
                    me.GammaCoord = lambda A, B, C: attr(ar.MultiplyFields, "GammaCoord")(me, A, B, C)
                    me.cartesian_mode_matrix = lambda shape, n, a, o, mode: ModeM(mode) if (shape, n, a, o) == ("shape", "Dn", "Da", "Do") else None
                    sp = S(field_size=lambda f: 1, coeff_shape=lambda d: "shape" if d == "Do" else None)
                    with npf.facade(ar, np=CNP(), extra={"sparse": KronM()}):
                        return data, attr(ar.Product, "build_cartesian_ncc_matrix")(me, sp, cut, None)
                for p in sym.explore(run, []):
                    if p.exc:
                        raise Unsupported(repr(p.exc))
                    data, M = p.result
                    A = (e,) * ra
                    # reference: out component = outer product in written order
                    for mode in np.ndindex(mshape):
                        co = data[(slice(None),) * rn + mode] if rn else np.array(data[mode], dtype=object)
                        cl = [c.t for c in np.asarray(co, dtype=object).ravel()]
                        kept = z3.Or([z3.Or(c > cut, -c > cut) for c in cl])
                        edge = z3.Or([z3.Or(c == cut, c == -cut) for c in cl])
                        for oc in itertools.product(range(2), repeat=ra + rn):
                            nc, ac = (oc[:rn], oc[rn:]) if first else (oc[ra:], oc[:ra])
                            for ac2 in itertools.product(range(2), repeat=ra):
                                i = int(np.ravel_multi_index(oc, (2,) * (ra + rn))) if oc else 0
                                j = int(np.ravel_multi_index(ac2, (2,) * ra)) if ac2 else 0
                                k = int(np.ravel_multi_index(nc, (2,) * rn)) if nc else 0
                                want = z3.If(kept, cl[k] if ac == ac2 else z3.RealVal(0), z3.RealVal(0))
                                got = M.get(i, j, mode)
                                chk.obl(f"coefficient {'first' if first else 'second'}, ranks {rn} and {ra}, mode {mode}, components {i},{j}", func, p.pc + [z3.Not(edge)], to_real(got) == want, replay=rp)
    chk.contract("sum over modes", f"{AR}: Product.build_cartesian_ncc_matrix", modes)

    def mode():
        func = f"{AR}: Product.cartesian_mode_matrix"
        for dim in (1, 2, 3):
            for pat in itertools.product((False, True), repeat=dim):
                md = tuple(range(5, 5 + dim))
                n = S(full_bases=[S(product_matrix=lambda a, o, i, ax=ax: Wd.of(("prod", ax, a, o, i))) if q else None for ax, q in enumerate(pat)])
                a = S(full_bases=[f"a{i}" for i in range(dim)])
                o = S(full_bases=[f"o{i}" for i in range(dim)], dist=S(dim=dim))
                with npf.facade(ar, extra={"sparse": KronW()}):
                    r = attr(ar.Product, "cartesian_mode_matrix")(ar.Product, tuple(10 + i for i in range(dim)), n, a, o, md)
                w = None
                for ax in range(dim):
                    f = Wd.of(("prod", ax, f"a{ax}", f"o{ax}", md[ax])) if pat[ax] else Wd.of(("I", 10 + ax))
                    w = f if w is None else KronW().kron(w, f)
                chk.ground(f"axes {pat}", func, r == w, f"{r}", replay=rp)
    chk.contract("mode matrices", f"{AR}: Product.cartesian_mode_matrix", mode)


class CNP(npf.NP):
    def max(self, x, *a, **k):
        x = np.asarray(x, dtype=object)
        if x.ndim == 0 or x.size == 1:
            return x.ravel()[0]
        m = x.ravel()[0]
        for v in x.ravel()[1:]:
            m = v if bool(v > m) else m
        return m

    def any(self, x, *a, **k):
        return any(bool(v != 0) for v in np.asarray(x, dtype=object).ravel())

    def abs(self, x):
        x = np.asarray(x, dtype=object)
        r = np.empty(x.shape, dtype=object)
        for k, v in np.ndenumerate(x):
            r[k] = sym.facade_abs(v)
        return r if r.ndim else r[()]

    def dot(self, a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return np.dot(a, b)


class ModeM:
    def __init__(self, mode):
        self.mode = mode


class ModeSum:
    """Matrix as sum over modes of (component matrix) x (mode matrix)."""

    def __init__(self, d=None):
        self.d = d or {}

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r[k] + v if k in r else v
        return ModeSum(r)
    __radd__ = __add__

    def tocsr(self): return self

    def get(self, i, j, mode):
        if mode not in self.d:
            return 0
        return self.d[mode][i, j]


class KronM:
    def csr_matrix(self, a, *k, **kw):
        return a if isinstance(a, ModeSum) else ModeSum()

    def kron(self, a, b, *k, **kw):
        if not isinstance(b, ModeM):
            raise Unsupported("kron")
        return ModeSum({b.mode: np.asarray(a, dtype=object)})

    def __getattr__(self, n):
        raise Unsupported(f"sparse.{n}")


# ------------------------------------------------------------------ linearity

KINDS = ("free", "linear", "affine", "nonlinear")


class Kid:
    """Arbitrary operand known by its dependence on the variables."""

    def __init__(self, kind, Operand):
        self.kind = kind

    def has(self, *vars):
        return self.kind != "free"

    def require_linearity(self, *vars, allow_affine=False, self_name=None, vars_name=None, error=AssertionError, **k):
        good = ("linear", "affine", "free") if allow_affine else ("linear",)
        if self.kind not in good:
            raise error("not linear")


def linear_sum(kinds):
    if "nonlinear" in kinds:
        return "nonlinear"
    if all(k == "free" for k in kinds):
        return "free"
    if all(k == "linear" for k in kinds):
        return "linear"
    return "affine"


def linear_product(kinds):
    dep = [k for k in kinds if k != "free"]
    if not dep:
        return "free"
    if len(dep) > 1:
        return "nonlinear"
    return dep[0]


def linearity(chk, ar, op, fi, fu):
    rp = find_rejected

    class E(Exception):
        pass

    def accepted(f, me, affine):
        try:
            f(me, "u", allow_affine=affine, self_name="e", vars_name="v", error=E)
            return True
        except E:
            return False

    class K(Kid, fi.Operand):
        def __init__(self, kind):
            self.kind = kind

        def __str__(self):
            return self.kind
        __repr__ = __str__
        has = Kid.has
        require_linearity = Kid.require_linearity

    good = lambda kind, affine: kind == "linear" or (affine and kind in ("affine", "free"))

    def judge(name, func, f, me, kind, affine, complete=True):
        got = accepted(f, me, affine)
        want = good(kind, affine)
        # a sum of affine terms whose constants cancel is still refused: only truly linear shapes are accepted
        chk.ground(f"{name}: {'affine' if affine else 'linear'} {'accepted' if want else 'refused'}", func, got == want, f"accepted: {got}, is {kind}", replay=rp)

    def nodes():
        for affine in (False, True):
            for n in (1, 2, 3):
                for ks in itertools.product(KINDS, repeat=n):
                    judge(f"sum of {ks}", f"{AR}: Add.require_linearity", attr(ar.Add, "require_linearity"), Stub(args=[K(k) for k in ks]), linear_sum(ks), affine)
            for ks in itertools.product(KINDS, repeat=2):
                judge(f"product of {ks}", f"{AR}: Product.require_linearity", attr(ar.Product, "require_linearity"), Stub(args=[K(k) for k in ks]), linear_product(ks), affine)
            for k in KINDS:
                for args in ([3, K(k)], [K(k), 3]):
                    judge(f"number times {k}", f"{AR}: Product.require_linearity", attr(ar.MultiplyNumberField, "require_linearity"), Stub(args=args), k, affine)
                me = Stub(operand=K(k), args=[K(k)])
                judge(f"operator on {k}", f"{OP}: LinearOperator.require_linearity", attr(op.LinearOperator, "require_linearity"), me, k, affine)
                me = Stub(args=[K(k)], has=lambda *v, k=k: k != "free")
                judge(f"function of {k}", f"{OP}: NonlinearOperator.require_linearity", attr(op.NonlinearOperator, "require_linearity"), me, "free" if k == "free" else "nonlinear", affine)
        for affine in (False, True):
            class Fd:
                def __eq__(s, o): return s is o
                __hash__ = object.__hash__
            me = Fd()
            for isvar in (True, False):
                try:
                    attr(fi.Current, "require_linearity")(me, *([me] if isvar else ["u"]), allow_affine=affine, self_name="e", vars_name="v", error=E)
                    got = True
                except E:
                    got = False
                chk.ground(f"a field, {'a' if isvar else 'no'} variable, {'affine' if affine else 'linear'}", "core/field.py: Current.require_linearity", got == (isvar or affine), replay=rp)
    chk.contract("linearity by induction", f"{AR}: Add.require_linearity", nodes)

    def first_order():
        class T:
            pass
        for depth in (0, 1, 2):
            def kid(d):
                def rfo(*ops, self_name=None, ops_name=None, error=AssertionError):
                    if d > 1:
                        raise error("second order")
                k = K("free")
                k.require_first_order = rfo
                k.has = lambda *ops: d > 0
                return k

            def acc(f, me, *a):
                try:
                    f(me, *a, self_name="e", ops_name="dt", error=E)
                    return True
                except E:
                    return False
            for other in (0, 1, 2):
                for cls, func in ((ar.Add, "Add"), (ar.Product, "Product")):
                    got = acc(attr(cls, "require_first_order"), Stub(args=[kid(depth), kid(other)]), T)
                    chk.ground(f"{func} of orders {depth}, {other}", f"{AR}: {func}.require_first_order", got == (max(depth, other) <= 1), replay=rp)
            for is_op in (False, True):
                me = (type("TT", (T,), {}) if is_op else Stub)()
                me.operand, me.args = kid(depth), [kid(depth)]
                got = acc(attr(op.LinearOperator, "require_first_order"), me, T)
                chk.ground(f"{'time derivative' if is_op else 'operator'} of order {depth}", f"{OP}: LinearOperator.require_first_order", got == (depth + is_op <= 1), replay=rp)
            me = Stub(args=[kid(depth)])
            got = acc(attr(op.NonlinearOperator, "require_first_order"), me, T)
            chk.ground(f"function of order {depth}", f"{OP}: NonlinearOperator.require_first_order", got == (depth <= 1), replay=rp)
            me = Stub(args=[kid(depth), 2])
            got = acc(attr(op.PowerFieldConstant, "require_first_order"), me, T)
            chk.ground(f"power of order {depth}", f"{OP}: PowerFieldConstant.require_first_order", got == (depth <= 1), replay=rp)
    chk.contract("first order by induction", f"{OP}: LinearOperator.require_first_order", first_order)

    def has():
        for n in (1, 2, 3):
            for ks in itertools.product((False, True), repeat=n):
                kids = [K("linear" if k else "free") for k in ks]
                for num in (False, True):
                    me = Stub(args=kids + [3] * num)
                    chk.ground(f"occurrence among {ks}", "core/future.py: Future.has", bool(attr(fu.Future, "has")(me, "u")) == any(ks), replay=rp)
        class Op(Stub):
            pass
        chk.ground("an operator type", "core/future.py: Future.has", bool(attr(fu.Future, "has")(Op(args=[K("free")]), Op)), replay=rp)
        for h in (False, True):
            me = Stub(has=lambda *v: h)
            try:
                attr(fi.Operand, "require_independent")(me, "u", self_name="e", vars_name="v", error=E)
                got = True
            except E:
                got = False
            chk.ground(f"independence, {'has' if h else 'free'}", "core/field.py: Operand.require_independent", got == (not h), replay=rp)
    chk.contract("occurrence", "core/future.py: Future.has", has)


# ------------------------------------------------------------------ problem classes

class Ex:
    """Arbitrary expression given by its parts: {part: coefficient}, with the preparations it went through."""
    __array_ufunc__ = None

    def __init__(self, parts, prep=frozenset(), bases=None, log=None):
        self.parts = {k: v for k, v in parts.items() if v}
        self.prep, self._bases, self.log = prep, bases, log if log is not None else []
        self.tensorsig, self.dtype = "ts", "dt"

    def _c(self, parts, **k):
        return Ex(parts, k.get("prep", self.prep), k.get("bases", self._bases), self.log)

    def _lin(self, o, s):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            o = Ex({"one": o}) if o else Ex({})
        if not isinstance(o, Ex):
            return NotImplemented
        p = dict(self.parts)
        for k, v in o.parts.items():
            p[k] = p.get(k, 0) + s * v
        return Ex(p, frozenset(), None, self.log)

    def __add__(self, o): return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o): return self._lin(o, -1)

    def __rsub__(self, o): return (self * -1)._lin(o, 1)

    def __mul__(self, c):
        return Ex({k: v * c for k, v in self.parts.items()}, self.prep, self._bases, self.log)
    __rmul__ = __mul__

    def __neg__(self): return self * -1

    def __bool__(self): return True

    def __ne__(self, o): return not (self is o)

    def __eq__(self, o): return self is o
    __hash__ = object.__hash__

    @property
    def domain(self):
        return S(bases=("dom", frozenset(self.parts)), nonconstant=np.array([False]), constant=np.array([True]))

    @property
    def valid_modes(self):
        return np.ones(1)

    def split(self, op):
        self.log.append(("split", op))
        a = {k: v for k, v in self.parts.items() if k.startswith(("d:", "s:"))}
        b = {k: v for k, v in self.parts.items() if not k.startswith(("d:", "s:"))}
        return (self._c(a) if a else 0), (self._c(b) if b else 0)

    def replace(self, old, new):
        self.log.append(("replace", old))
        p = {}
        for k, v in self.parts.items():
            if k.startswith("d:") and isinstance(old, type):
                r = new("x")
                if r == "x":
                    k = k[2:]
                elif r == ("eig", "x"):
                    k = "s:" + k[2:]
                else:
                    raise Unsupported("replacement")
            elif k.startswith("s:") and not isinstance(old, type) and new == 1:
                k = k[2:]
            elif isinstance(old, str) and isinstance(new, str):
                k = k.replace(f"[{old}]", f"[{new}]")
            p[k] = p.get(k, 0) + v
        return self._c(p)

    def atoms(self, *a): return []

    def has(self, *v): return False

    def reinitialize(self, ncc=False, ncc_vars=None, **k):
        return self._c(self.parts, prep=frozenset({("reinit", ncc, tuple(ncc_vars))}))

    def prep_nccs(self, vars):
        self.prep = self.prep | {("prep", tuple(vars))}

    def frechet_differential(self, variables=None, perturbations=None, backgrounds=None):
        return Ex({f"D[{k}]": v for k, v in self.parts.items()}, log=self.log)

    def matrix_dependence(self, *v):
        return ("dep", frozenset(self.parts), v)

    def matrix_coupling(self, *v):
        return ("coup", frozenset(self.parts), v)


def forms(chk, pr, op):
    inner = Inner(chk)
    rp = find_matrices
    vars = ("u", "v")
    perts = ("du", "dv")

    def convert(e, bases):
        if isinstance(e, Ex):
            return e._c(e.parts, bases=bases, prep=e.prep)
        raise Unsupported("conversion")

    class OpsF:
        def __getattr__(self, n):
            if n == "convert":
                return convert
            return getattr(op, n)

    class OperandF:
        @staticmethod
        def cast(x, *a, **k):
            return x if isinstance(x, Ex) else Ex({"one": x})

    def FieldF(dist=None, bases=None, **k):
        class Z(Ex):
            def __setitem__(self, i, v):
                if v != 0:
                    raise Unsupported("nonzero source")
                self.zeroed = True
        return Z({}, bases=bases)

    def facade():
        return npf.facade(pr, extra={"operators": OpsF(), "Operand": OperandF, "Field": FieldF})

    def sides():
        Mp, Lp, Fp = {"d:m1": 2, "d:m2": -1}, {"l1": 3, "l2": 1}, {"f": 5}
        for m, l, f in itertools.product((0, 1), (0, 1), (0, 1, 2)):
            if not (m or l):
                continue
            lhs = Ex({**(Mp if m else {}), **(Lp if l else {})})
            rhs = [0, 4, Ex(Fp)][f]
            yield m, l, f, lhs, rhs

    PREP = lambda v: frozenset({("reinit", True, v), ("prep", v)})

    def lbvp():
        func = f"{PR}: LinearBoundaryValueProblem._build_matrix_expressions"
        for m, l, f, lhs, rhs in sides():
            if m:
                continue
            eqn = {"LHS": lhs, "RHS": rhs, "tensorsig": "ts", "dtype": "dt", "condition": "True"}
            with facade():
                attr(pr.LinearBoundaryValueProblem, "_build_matrix_expressions")(S(variables=vars, dist="d"), eqn)
            L, F = eqn["L"], eqn["F"]
            dom = ("dom", frozenset(lhs.parts) | ({"one"} if f == 1 else {"f"} if f == 2 else set()))
            ok = L.parts == lhs.parts and L.prep == PREP(vars) and L._bases == dom
            inner.ground(f"left side, right side {f}", func, ok and eqn["domain"].bases == dom, f"{L.parts} {L.prep} {L._bases}", replay=rp)
            okF = F._bases == dom and F.parts == ({}, {"one": 4}, {"f": 5})[f] and (f != 0 or getattr(F, "zeroed", False))
            inner.ground(f"right side {f}", func, okF, f"{F.parts} {F._bases}", replay=rp)
            inner.ground(f"dependence, {f}", func, eqn["matrix_dependence"] == ("dep", frozenset(lhs.parts), vars) and eqn["matrix_coupling"] == ("coup", frozenset(lhs.parts), vars), replay=rp)
    chk.contract("linear boundary value problems", f"{PR}: LinearBoundaryValueProblem._build_matrix_expressions", lbvp)

    def mlf(name, cls, marker, unmark):
        func = f"{PR}: {name}._build_matrix_expressions"

        def body():
            for m, l, f, lhs, rhs in sides():
                if marker == "s:":
                    if f:
                        continue
                    lhs = Ex({k.replace("d:", "s:"): v for k, v in lhs.parts.items()})
                eqn = {"LHS": lhs, "RHS": rhs, "tensorsig": "ts", "dtype": "dt"}
                me = S(variables=vars, dist="d", eigenvalue="eigenvalue", time="t")
                with facade():
                    attr(cls, "_build_matrix_expressions")(me, eqn)
                M, L = eqn["M"], eqn["L"]
                wm = {k[2:]: v for k, v in lhs.parts.items() if k.startswith(marker)}
                wl = {k: v for k, v in lhs.parts.items() if not k.startswith(marker)}
                dom = ("dom", frozenset(wm) | frozenset(wl) | ({"one"} if f == 1 else {"f"} if f == 2 else set()))
                for X, w, nm in ((M, wm, "M"), (L, wl, "L")):
                    ok = (isinstance(X, int) and X == 0 and not w) or (isinstance(X, Ex) and X.parts == w and X.prep == PREP(vars) and X._bases == dom)
                    inner.ground(f"{nm} with M {m}, L {l}, F {f}", func, ok, f"{X if isinstance(X, int) else (X.parts, X.prep, X._bases)}", replay=rp)
                op_ = [e[1] for e in lhs.log if e[0] == "split"]
                inner.ground(f"split by the right operand, M {m}, L {l}, F {f}", func, op_ == [unmark], f"{op_}", replay=rp)
                if marker == "d:":
                    F = eqn["F"]
                    okF = F._bases == dom and F.parts == ({}, {"one": 4}, {"f": 5})[f] and (f != 0 or getattr(F, "zeroed", False))
                    inner.ground(f"right side, M {m}, L {l}, F {f}", func, okF, f"{F.parts}", replay=rp)
                both = frozenset(wm) | frozenset(wl)
                inner.ground(f"dependence, M {m}, L {l}, F {f}", func, eqn["matrix_dependence"] == ("dep", both, vars) and eqn["matrix_coupling"] == ("coup", both, vars) and eqn["domain"].bases == dom, replay=rp)
        chk.contract(name, func, body)
    mlf("InitialValueProblem", pr.InitialValueProblem, "d:", op.TimeDerivative)
    mlf("EigenvalueProblem", pr.EigenvalueProblem, "s:", "eigenvalue")

    def nlbvp():
        func = f"{PR}: NonlinearBoundaryValueProblem._build_matrix_expressions"
        for f in (0, 1, 2):
            G, H = Ex({"g": 2, "h": 1}), [0, 4, Ex({"h": 3, "k": 1})][f]
            eqn = {"LHS": G, "RHS": H, "tensorsig": "ts", "dtype": "dt"}
            with facade():
                attr(pr.NonlinearBoundaryValueProblem, "_build_matrix_expressions")(S(variables=vars, perturbations=perts, dist="d"), eqn)
            want = (G - H).parts
            F, dF = eqn["F"], eqn["dF"]
            inner.ground(f"residual {f}", func, F.parts == want and F._bases == eqn["domain"].bases, f"{F.parts}", replay=rp)
            inner.ground(f"linearization of the whole equation {f}", func, dF.parts == {f"D[{k}]": v for k, v in want.items()} and dF.prep == PREP(perts) and dF._bases == eqn["domain"].bases, f"{dF.parts} {dF.prep}", replay=rp)
            inner.ground(f"dependence {f}", func, eqn["matrix_dependence"][2] == perts and eqn["matrix_coupling"][2] == perts, replay=rp)
    chk.contract("nonlinear boundary value problems", f"{PR}: NonlinearBoundaryValueProblem._build_matrix_expressions", nlbvp)

    def build_evp():
        func = f"{PR}: InitialValueProblem.build_EVP"

        class Vr(str):
            def copy(self):
                r = Vr(str(self) + "'")
                r.name, r.valid_modes = self.name, np.zeros(1)
                return r

        class Eig:
            def __mul__(self, o): return ("eig", o)
            __rmul__ = __mul__

        class FEx(Ex):
            def has(self, *v): return v[0] == "t" and self.timed

            def frechet_differential(self, variables=None, perturbations=None, backgrounds=None):
                self.asked.append((list(variables), list(perturbations), None if backgrounds is None else list(backgrounds)))
                return Ex({f"D[{k}]": v for k, v in self.parts.items()})
        for m, l, f, bg, given in itertools.product((0, 1), (0, 1), (0, 1, 2, 3), (False, True), (False, True)):
            if not (m or l):
                continue
            us = [Vr("u"), Vr("v")]
            for u in us:
                u.name, u.valid_modes = str(u), np.array([3.0])
            ps = [Vr("du"), Vr("dv")]
            for u in ps:
                u.name, u.valid_modes = str(u), np.zeros(1)
            lhs = Ex({**({"d:m[u]": 2, "d:k[v]": -1} if m else {}), **({"l[u]": 3, "n[v]": 1} if l else {})})
            F = [0, 4, None, None][f]
            if f > 1:
                F = FEx({"f[u]": 5})
                F.timed, F.asked = f == 3, []
            eqn = {"LHS": lhs, "RHS": F, "condition": "nx > 3", "valid_modes": np.array([7.0])}
            added = []

            class EVP:
                def __init__(self, variables, eigenvalue, **kw):
                    added.append((list(variables), eigenvalue, kw))
                    self.local_namespace = {}

                def add_equation(self, e, condition="True"):
                    r = {"valid_modes": np.zeros(1)}
                    added.append((e, condition, r))
                    return r
            lam = Eig()
            me = S(variables=us, equations=[eqn], time="t", dist=S(Field=lambda **k: lam))
            bgs = [Vr("u0"), Vr("v0")]
            for b in bgs:
                b.name = str(b)
            with npf.facade(pr, extra={"EigenvalueProblem": EVP, "Operand": Ex}):
                try:
                    out, exc = attr(pr.InitialValueProblem, "build_EVP")(me, **({"perturbations": ps} if given else {}), **({"backgrounds": bgs} if bg else {}), namespace="ns"), None
                except pr.UnsupportedEquationError as e:
                    out, exc = None, e
            lab = f"M {m}, L {l}, F {f}, backgrounds {bg}, perturbations {given}"
            if f == 3:
                inner.ground(f"time dependence refused, {lab}", func, exc is not None, replay=find_evp)
                continue
            if exc is not None:
                inner.ground(f"accepted, {lab}", func, False, repr(exc), replay=find_evp)
                continue
            names = ("du", "dv") if given else ("u'", "v'")
            want = {**({f"s:m[{names[0]}]": 2, f"s:k[{names[1]}]": -1} if m else {}), **({f"l[{names[0]}]": 3, f"n[{names[1]}]": 1} if l else {}), **({"D[f[u]]": -5} if f == 2 else {})}
            (vs, ev, kw), (e, cond, r) = added
            ok = tuple(map(str, vs)) == names and ev is lam and kw == {"namespace": "ns"} and isinstance(e[0], Ex) and e[0].parts == want and isinstance(e[1], int) and e[1] == 0
            inner.ground(f"s M X1 + L X1 - F'(X0) X1 = 0, {lab}", func, ok, f"{e[0].parts} {want}", replay=find_evp)
            inner.ground(f"condition and valid modes kept, {lab}", func, cond == "nx > 3" and r["valid_modes"][0] == 7 and all(p.valid_modes[0] == 3 for p in vs), replay=find_evp)
            if f == 2:
                wb = (["u0", "v0"],) if bg else (None, ["u", "v"])
                inner.ground(f"linearized about the backgrounds, {lab}", func, len(F.asked) == 1 and F.asked[0][0] == ["u", "v"] and F.asked[0][1] == list(names) and F.asked[0][2] in wb, f"{F.asked}", replay=find_evp)
    chk.contract("eigenvalue problems from initial value problems", f"{PR}: InitialValueProblem.build_EVP", build_evp)


def find_evp(m=None):
    import dedalus.public as d3
    for c in evp_cases(False):
        try:
            r = check_build_evp(d3, c)
        except Exception as e:
            return {"case": str(c), "error": f"{type(e).__name__}: {e}"}
        if r:
            return r


find_evp.takes_none = True


def solvers_(chk, so):
    inner = Inner(chk)
    rp = find_solved

    def newton():
        func = f"{SO}: NonlinearBoundaryValueSolver.newton_iteration"
        for nsp, damped in itertools.product((1, 3), (False, True)):
            log = []
            damping = Real("damping") if damped else 1

            class V:
                def __init__(s, x): s.x = x

                def __getitem__(s, k):
                    if k != "c":
                        raise Unsupported("layout")
                    return s.x

                def __setitem__(s, k, v):
                    if k != "c":
                        raise Unsupported("layout")
                    s.x = v

                def preset_layout(s, l): log.append(("preset", l))

                def change_layout(s, l): log.append(("change", l))

            def run():
                log.clear()
                state = [V(Real("x0")), V(Real("x1"))]
                pert = [V(Real("p0")), V(Real("p1"))]
                F = [V(Real("F"))]
                sps = []
                for k in range(nsp):
                    sps.append(S(dF_min=("dF", k), gather_outputs=lambda f, k=k: ("F", k) if f is F else None,
                                 scatter_inputs=lambda d, p, k=k: log.append(("scatter", k, d, p is pert))))
                me = S(evaluator=S(evaluate_scheduled=lambda **q: log.append(("eval", q))), build_matrices=lambda sp, m: log.append(("build", sp is sps, m)), subproblems=sps, F=F, perturbations=pert, state=state,
                       iteration=3, matsolver=lambda A, s: S(solve=lambda b: ("solve", A, b)))
                attr(so.NonlinearBoundaryValueSolver, "newton_iteration")(me, damping) if damped else attr(so.NonlinearBoundaryValueSolver, "newton_iteration")(me)
                return list(log), [s.x for s in state], me.iteration
            for p in sym.explore(run, []):
                if p.exc:
                    raise Unsupported(repr(p.exc))
                lg, xs, it = p.result
                d = damping.t if damped else 1
                for i in (0, 1):
                    inner.obl(f"update of variable {i}, {nsp} subproblems", func, p.pc, to_real(xs[i]) == z3.Real(f"x{i}") - d * z3.Real(f"p{i}"), replay=rp)
                sc = [e for e in lg if e[0] == "scatter"]
                ok = sc == [("scatter", k, ("solve", ("dF", k), ("F", k)), True) for k in range(nsp)] and it == 4
                ok &= ("build", True, ["dF"]) in lg and any(e[0] == "eval" for e in lg)
                ok &= all(lg.index(e) > lg.index(("build", True, ["dF"])) for e in sc)
                inner.ground(f"systems of {nsp} subproblems", func, ok, f"{lg}", replay=rp)
    chk.contract("Newton iteration", f"{SO}: NonlinearBoundaryValueSolver.newton_iteration", newton)

    def lbvp():
        func = f"{SO}: LinearBoundaryValueSolver.solve"
        for known, rebuild, pick in itertools.product((set(), {0}, {0, 1, 2}), (False, True), (None, "one", "list")):
            log = []
            state, F = [S(preset_layout=lambda l: None)], [S(change_layout=lambda l: None)]

            class SP:
                def __init__(s, k): s.k, s.L_min = k, ("L", k)

                def gather_outputs(s, f): return ("F", s.k) if f is F else None

                def scatter_inputs(s, d, st): log.append((s.k, d, st is state))
            sps = [SP(k) for k in range(3)]
            built = []
            me = S(subproblems=sps, subproblem_matsolvers={sps[k]: S(solve=lambda b, k=k: ("solve", "old", k, b)) for k in known}, build_matrices=lambda sp, m: built.append(([s.k for s in sp], m)),
                   matsolver=lambda A, s: S(solve=lambda b: ("solve", A, b)), evaluator=S(evaluate_scheduled=lambda **k: None), F=F, state=state, iteration=0)
            arg = {None: None, "one": sps[1], "list": [sps[0], sps[2]]}[pick]
            with npf.facade(so, extra={"subsystems": S(Subproblem=SP)}):
                attr(so.LinearBoundaryValueSolver, "solve")(me, arg, rebuild)
            which = {None: [0, 1, 2], "one": [1], "list": [0, 2]}[pick]
            want = [(k, ("solve", "old", k, ("F", k)) if (k in known and not rebuild) else ("solve", ("L", k), ("F", k)), True) for k in which]
            need = [k for k in which if rebuild or k not in known]
            inner.ground(f"solve {pick}, known {known}, rebuild {rebuild}", func, log == want and built == ([(need, ["L"])] if need else []) and me.iteration == 1, f"{log} {built}", replay=rp)
    chk.contract("linear solve", f"{SO}: LinearBoundaryValueSolver.solve", lbvp)

    def evp():
        func = f"{SO}: EigenvalueSolver.solve_dense"

        class A(Wd):
            def toarray(s): return s

            def conj(s): return A({tuple(("conj", x) for x in k): v for k, v in s.d.items()})

            @property
            def T(s): return A({tuple(("T", x) for x in reversed(k)): v for k, v in s.d.items()})
            __hash__ = None
        got = {}

        def eig(a, b=None, left=False, **k):
            got["ab"] = (a, b)
            return "w", A({("evecs",): 1})
        mk = lambda n: A({(n,): 1})
        sp = S(L_min=mk("L"), M_min=mk("M"), pre_right=mk("R"))
        me = S(build_matrices=lambda *a: None)
        with npf.facade(so, extra={"scipy": S(linalg=S(eig=eig))}):
            attr(so.EigenvalueSolver, "solve_dense")(me, sp)
        a, b = got["ab"]
        inner.ground("L x = w (-M) x", func, a == mk("L") and b == (-1) * mk("M"), f"{a} {b}", replay=rp)
        inner.ground("eigenvectors in coefficient order", func, me.eigenvalues == "w" and me.eigenvectors == mk("R") @ mk("evecs"), replay=rp)
        f2 = f"{SO}: EigenvalueSolver.solve_sparse"
        calls = {}

        def eigs(A=None, B=None, left=False, N=None, target=None, matsolver=None, v0=None, **k):
            calls.update(A=A, B=B, N=N, target=target)
            return "w", mk("evecs")
        me = S(build_matrices=lambda *a: None, matsolver="ms")
        with npf.facade(so, extra={"scipy_sparse_eigs": eigs}):
            attr(so.EigenvalueSolver, "solve_sparse")(me, sp, 5, 1.5)
        inner.ground("same system, target and count", f2, calls["A"] == mk("L") and calls["B"] == (-1) * mk("M") and (calls["N"], calls["target"]) == (5, 1.5) and me.eigenvectors == mk("R") @ mk("evecs"), replay=rp)
    chk.contract("eigenvalue systems", f"{SO}: EigenvalueSolver.solve_dense", evp)


# ------------------------------------------------------------------ real problems against direct evaluation

GEOMS = ("fz", "ff", "z", "f", "ffz", "disk", "annulus", "sphere", "shell", "ball", "disk1", "annulus1", "ball1", "shell1")


def geometry(d3, name, dtype):
    """Namespace with variables u, v (scalars), q (vector), coefficients and spaces."""
    F = d3.RealFourier if dtype is float else d3.ComplexFourier
    dt = np.float64 if dtype is float else np.complex128
    N = 8
    ns = {}
    if set(name) <= set("fz"):
        names = "xyz"[:len(name) - 1] + "z" if len(name) > 1 else "x"
        cs = d3.CartesianCoordinates(*names)
        dist = d3.Distributor(cs, dtype=dt)
        bases = tuple(F(cs[c], N, bounds=(0, 2 + i), dealias=2) if k == "f" else d3.ChebyshevT(cs[c], N, bounds=(-1, 2), dealias=2) for i, (k, c) in enumerate(zip(name, names)))
        nb = bases[-1] if name[-1] == "z" else ()
        dom = bases
    else:
        kw = dict(dtype=dt, dealias=2)
        one, name = name.endswith("1"), name.rstrip("1")
        m, l = (1, 1) if one else (8, 6)
        if name in ("disk", "annulus"):
            cs = d3.PolarCoordinates("phi", "r")
            basis = d3.DiskBasis(cs, (m, 8), radius=1.5, **kw) if name == "disk" else d3.AnnulusBasis(cs, (m, 24), radii=(0.5, 1.5), **kw)
        elif name == "sphere":
            cs = d3.S2Coordinates("phi", "theta")
            basis = d3.SphereBasis(cs, (8, 6), radius=1.5, **kw)
        else:
            cs = d3.SphericalCoordinates("phi", "theta", "r")
            basis = d3.BallBasis(cs, (m, l, 8), radius=1.5, **kw) if name == "ball" else d3.ShellBasis(cs, (m, l, 24), radii=(0.5, 1.5), **kw)
        dist = d3.Distributor(cs, dtype=dt)
        dom = basis
        nb = () if name == "sphere" else basis.radial_basis
    low = 3
    u, v = dist.Field(name="u", bases=dom), dist.Field(name="v", bases=dom)
    f, h = dist.Field(name="f", bases=nb), dist.Field(name="h", bases=nb)
    c = dist.Field(name="c")
    for i, x in enumerate((u, v, f, h, c)):
        if x in (u, v, c) or set(name) <= set("fz"):
            smooth(x, i, low)
    ns.update(u=u, v=v, f=f, h=h, c=c, g=dist.Field(name="g", bases=dom))
    smooth(ns["g"], 11, low)
    vars = [u, v]
    if len(name) > 1:
        q = dist.VectorField(cs, name="q", bases=dom)
        U = dist.VectorField(cs, name="U", bases=nb)
        smooth(q, 7, low)
        if name in ("disk", "annulus", "shell", "ball"):
            r = dist.local_grids(dom)[-1]
            r = r if np.ndim(r) == U["g"].ndim - 1 else np.reshape(r, (1,) * (U["g"].ndim - 2) + (-1,))
            U["g"] = 0
            U["g"][-1] = r * (1 - 0.3 * r**2)
            f["g"] = 1 + 0.5 * r**2
            h["g"] = 2 - r**2
        elif name != "sphere":
            smooth(U, 8, low)
        else:
            U = None
        ns.update(q=q)
        if U is not None:
            ns.update(U=U)
        vars.append(q)
    ns.update({k: getattr(d3, k) for k in ("lap", "grad", "div", "trans", "dot", "cross", "skew", "curl", "MulCosine", "trace")}, d3=d3, cs=cs)
    if set(name) <= set("fz"):
        ns.update({"d" + n: (lambda A, n=n: d3.Differentiate(A, cs[n])) for n in names})
    return dist, cs, dom, ns, vars


def smooth(x, seed, low):
    """Random coefficients in the lowest valid modes."""
    rng = np.random.default_rng(100 + seed)
    x.change_layout("c")
    if not x.domain.bases:
        x.data[...] = rng.standard_normal(x.data.shape)
        return
    g = x.dist.coeff_layout.local_group_arrays(x.domain, 1)
    keep = np.ones(g.shape[1:], bool)
    for ax, b in enumerate(x.domain.full_bases):
        if b is not None:
            keep &= abs(g[ax]) < (low if type(b).__name__[-7:] != "Fourier" else low - 1)
    d = rng.standard_normal(x.data.shape)
    if np.iscomplexobj(x.data):
        d = d + 1j * rng.standard_normal(x.data.shape)
    x.data[...] = d * keep * x.valid_modes
    # keep what the transforms represent
    x["g"], x["c"]


def terms(name, dtype):
    """Linear terms of the scalar and vector equations, products with coefficients included; and right-hand sides."""
    cart, name = set(name) <= set("fz"), name.rstrip("1")
    ss = ["u", "v", "lap(u)", "lap(v)", "c*u", "u*c", "-v", "3*u", "v/2", "lap(v - 2*u)", "c*(u - v)"]
    rs = ["g", "u*v", "u*u*v", "2*g - u", "g*g", "-u**2"]
    vv, rv = [], []
    if cart:
        d = "d" + ("z" if len(name) > 1 else "x")
        ss += [f"{d}(u)", f"{d}({d}(v))", f"{d}(u - v)"]
        ss += [f"f*{d}(v)", "f*u", "v*h", f"{d}(f*u)", "f*h*v", "f*(u + v)", "(f + c)*u", "-(h*u)"] if name[-1] == "z" else []
    elif name == "sphere":
        ss += ["MulCosine(u)", "MulCosine(lap(v))", "lap(MulCosine(u - v))"]
    else:
        ss += ["f*u", "h*v", "lap(f*u)", "f*h*u", "f*lap(v)", "(f - h)*v", "f*(u - v)"]
    if len(name) > 1:
        ss += ["div(q)", "div(grad(u))", "2*div(q - grad(v))"]
        vv += ["q", "lap(q)", "grad(u)", "grad(v - u)", "grad(div(q))", "c*q", "-q", "div(grad(q))", "div(trans(grad(q)))"]
        rv += ["u*q", "grad(u*v)", "u*grad(v)", "q@grad(q)", "-q"]
        if name == "sphere":
            U = False
            vv += ["skew(q)", "MulCosine(q)", "MulCosine(skew(q))", "skew(grad(u))"]
        else:
            U = name != "ff"
            if U:
                ss += ["U@q", "q@U", "U@grad(u)", "grad(v)@U", "f*div(q)", "div(f*q)", "div(u*U)", "dot(U, grad(u))", "trace(U*q)"]
                vv += ["U*u", "v*U", "f*q", "q*h", "U@grad(q)", "grad(U@q)", "f*grad(u)", "(U@q)*U"]
                vv += [] if name in ("shell", "ball") else ["q@grad(U)"]
            if len(name) == 2 and cart or name in ("disk", "annulus"):
                vv += ["skew(q)"]
            if name in ("ffz", "shell", "ball"):
                vv += ["curl(q)", "curl(curl(q))"]
                # real cross products in spherical components are refused
                vv += ["cross(U, q)", "cross(q, U)", "curl(cross(U, q))"] if name == "ffz" or dtype is complex else []
                rv += ["cross(q, curl(q))"]
    return ss, vv, rs, rv


def make_equations(name, rng, mark, dtype):
    """Random equations for u, v and q: `mark(t)` wraps a term as a time derivative (or eigenvalue) term."""
    ss, vv, rs, rv = terms(name, dtype)

    def side(T, n, w):
        out = ""
        for t in rng.choice(len(T), n, replace=False):
            s, x = rng.choice(["+", "-"]), T[t]
            k = rng.choice(["", "2*", "0.5*"])
            x = f"({x})" if k else x
            if x.startswith("-"):
                x = f"({x})"
            x = k + x
            if w and rng.random() < 0.45:
                x = mark(f"{x}", int(rng.integers(3)))
            out += f" {s} {x}"
        return out.strip().lstrip("+").strip()
    eqs = []
    for T, R in ((ss, rs), (ss, rs), (vv, rv))[:3 if vv else 2]:
        eqs.append((side(T, int(rng.integers(1, 5)), True), side(R, int(rng.integers(1, 3)), False) if rng.random() < 0.75 else "0"))
    return eqs


def marks(cls):
    if cls == "IVP":
        return lambda x, k: (f"dt({x})", f"2*dt({x})", f"dt({x} - 3*({x}))")[k]
    if cls == "EVP":
        return lambda x, k: (f"lam*({x})", f"({x})*lam", f"3*(lam*({x}))")[k]
    return lambda x, k: x


def evaluated(d3, expr, dom, ts, dist):
    """Coefficients of a (possibly zero) expression on the equation's domain."""
    from dedalus.core import operators
    from dedalus.core.field import Operand
    out = dist.Field(bases=dom.bases, tensorsig=ts)
    out.change_layout("c")
    if not isinstance(expr, Operand) and expr == 0:
        out.data[...] = 0
        return out
    e = Operand.cast(expr, dist, tensorsig=ts, dtype=dist.dtype)
    e = operators.convert(e, dom.bases).evaluate()
    e.change_layout("c")
    out.data[...] = e.data
    return out


def bg_set(vars, values):
    for v, d in zip(vars, values):
        v.preset_scales(1)
        v.preset_layout("c")
        v.data[...] = d


def check_problem(d3, case):
    cls, name, dtype, seed = case
    rng = np.random.default_rng([seed, GEOMS.index(name), len(cls), dtype is complex])
    dist, cs, dom, ns, vars = geometry(d3, name, dtype)
    eqs = make_equations(name, rng, marks(cls), dtype)
    texts = [f"{a} = {b if cls != 'EVP' else '0'}" for a, b in eqs]
    if cls == "LBVP":
        const = {"u": "g", "v": "g", "q": "grad(g)"}
        texts = [f"{a} = {b if b == '0' else ('2*g*g - g' if i < 2 else 'grad(g) - g*grad(g)')}" for i, (a, b) in enumerate(eqs)]
    return compare(d3, case, cls, dist, ns, vars, texts)


def at(text, ns, **kw):
    return eval(text, {**ns, **kw})


def compare(d3, case, cls, dist, ns, vars, texts, kind="text", conditions=None):
    info = {"problem": cls, "domain": case[1], "dtype": case[2].__name__, "equations": texts}
    tol = 1e-8
    zero = lambda x: 0 * x
    lam = dist.Field(name="lam")
    ns = {**ns, "lam": lam}
    x0 = []
    for v in vars:
        v.change_scales(1)
        v.change_layout("c")
        x0.append(v.data.copy())
    opts = dict(ncc_cutoff=1e-13, entry_cutoff=1e-14)
    pairs = [t.split(" = ") for t in texts]
    add = lambda p: [p.add_equation(t) for t in texts]
    if cls == "IVP":
        p = d3.IVP(vars, namespace=ns)
        add(p)
        s = p.build_solver("RK222", **opts)
        full = [at(a, ns, dt=lambda x: x) for a, b in pairs]
        L = [at(a, ns, dt=zero) for a, b in pairs]
        M = [x - y for x, y in zip(full, L)]
        refs = {"M": M, "L": L}
        F = [at(b, ns) for a, b in pairs]
    elif cls == "EVP":
        p = d3.EVP(vars, lam, namespace=ns)
        add(p)
        s = p.build_solver(**opts)
        lam["g"] = 0
        L = [at(a, ns) for a, b in pairs]
        one = dist.Field(name="one")
        one["g"] = 1
        M = [at(a, {**ns, "lam": one}) - at(a, {**ns, "lam": 0 * one}) for a, b in pairs]
        L = [at(a, {**ns, "lam": 0 * one}) for a, b in pairs]
        refs, F = {"M": M, "L": L}, None
    elif cls == "LBVP":
        p = d3.LBVP(vars, namespace=ns)
        add(p)
        s = p.build_solver(**opts)
        refs = {"L": [at(a, ns) for a, b in pairs]}
        F = [at(b, ns) for a, b in pairs]
    elif cls == "NLBVP":
        p = d3.NLBVP(vars, namespace=ns)
        add(p)
        s = p.build_solver(**opts)
        refs = {"dF": None}
        F = [at(a, ns) - at(b, ns) for a, b in pairs]
    eqns = p.eqs
    for e in eqns:
        if not all(e["domain"].bases[i] is not None for i in range(len(e["domain"].bases))):
            return {**info, "domain lost": True}
    # right-hand sides
    if F is not None:
        for i, (e, f) in enumerate(zip(eqns, F)):
            want = evaluated(d3, f, e["domain"], e["tensorsig"], dist).data
            got = e["F"].evaluate() if hasattr(e["F"], "evaluate") else e["F"]
            got.change_layout("c")
            vm = e["valid_modes"]
            err = abs(np.where(vm, got.data - want, 0)).max(initial=0)
            if err > tol * max(1, abs(want).max(initial=0)):
                return {**info, "equation": i, "right-hand side off by": float(err)}
    # matrices
    if cls == "NLBVP":
        rng = np.random.default_rng(5)
        pert = []
        for k, v in enumerate(vars):
            w = v.copy()
            smooth(w, 50 + k, 3)
            pert.append(w.data.copy())

        def resid(eps):
            bg_set(vars, [a + eps * b for a, b in zip(x0, pert)])
            out = [evaluated(d3, f, e["domain"], e["tensorsig"], dist).data.copy() for f, e in zip(F, eqns)]
            bg_set(vars, x0)
            return out
        r = {k: resid(k) for k in (-2, -1, 1, 2)}
        refs = {"dF": [(8 * (r[1][i] - r[-1][i]) - (r[2][i] - r[-2][i])) / 12 for i in range(len(eqns))]}
        s.build_matrices(s.subproblems, ["dF"])
        inputs = p.perturbations
        bg_set(inputs, pert)
        fields = {}
        for n, R in refs.items():
            fields[n] = []
            for e, d in zip(eqns, R):
                o = dist.Field(bases=e["domain"].bases, tensorsig=e["tensorsig"])
                o.change_layout("c")
                o.data[...] = d
                fields[n].append(o)
    else:
        s.build_matrices(s.subproblems)
        inputs = vars
        fields = {n: [evaluated(d3, x, e["domain"], e["tensorsig"], dist) for x, e in zip(R, eqns)] for n, R in refs.items()}
        bg_set(vars, x0)
    for n, R in fields.items():
        big = max([1] + [abs(o.data).max(initial=0) for o in R])
        for sp in s.subproblems:
            x = sp.gather_inputs(inputs) if cls != "EVP" else sp.pre_right_pinv @ pencil(sp, inputs)
            got = getattr(sp, n + "_min") @ x
            want = sp.gather_outputs(R) if cls != "EVP" else sp.pre_left @ pencil(sp, R)
            err = abs(got - want).max(initial=0)
            if not err <= tol * big:
                return {**info, "matrix": n, "group": [None if g is None else int(g) for g in sp.group], "differs from evaluation by": float(err)}
    return None


def pencil(sp, fields):
    for f in fields:
        f.change_layout("c")
    return np.stack([np.concatenate([f.data[ss.field_slices(f)].ravel() for f in fields]) for ss in sp.subsystems], axis=1)


def problem_cases(thorough):
    out = []
    for seed in range(12 if thorough else 3):
        for cls in ("IVP", "EVP", "LBVP", "NLBVP"):
            for name in GEOMS:
                # products of variables are coefficients in the linearization: only radial ones in these domains
                if (cls == "NLBVP" and name in ("disk", "annulus", "sphere", "shell", "ball")) or (cls != "NLBVP" and name.endswith("1") and seed):
                    continue
                for dt in (float, complex):
                    out.append((cls, name, dt, seed))
    return out


def find_matrices(m=None):
    import time
    import dedalus.public as d3
    t0 = time.time()
    for c in problem_cases(False):
        if time.time() - t0 > 60:
            return None
        try:
            r = check_problem(d3, c)
        except Exception as e:
            return {"case": str(c), "error": f"{type(e).__name__}: {e}"}
        if r:
            return r


find_matrices.takes_none = True


def check_build_evp(d3, case):
    """Eigenvalue problems built from initial value problems: s M X1 + L X1 - F'(X0) X1."""
    name, dtype, default_bg, with_cond, seed = case
    rng = np.random.default_rng([seed, 77])
    dist, cs, dom, ns, vars = geometry(d3, name, dtype)
    u, v = vars[:2]
    p = d3.IVP(vars[:2], namespace=ns)
    ss = ["lap(u)", "lap(v)", "c*u", "3*v", "u - v"]
    rs = ["u*v", "u*u*v", "-u**2", "g", "g - v*v", "u*u*u"] if not with_cond else ["g", "2*u - v", "-u", "lap(v)"]
    pick = lambda T: T[int(rng.integers(len(T)))]
    texts, conds = [], []
    for k in range(2):
        a = f"dt({pick('uv')}) - {pick(ss)} + 2*dt({pick(ss)})" if rng.random() < 0.7 else f"{pick(ss)} - 2*({pick(ss)})"
        b = f"{pick(rs)} - {pick(rs)}" if rng.random() < 0.7 else pick(["0", "4"])
        if with_cond and k == 1:
            n0 = "n" + (cs.coords[0].name)
            texts += [f"{a} = {b}", "3*v - u = 0"]
            conds += [f"{n0} != 0", f"{n0} == 0"]
        else:
            texts.append(f"{a} = {b}")
            conds.append("True")
    for t, q in zip(texts, conds):
        p.add_equation(t, condition=q)
    bg = None
    if not default_bg:
        bg = [x.copy() for x in vars[:2]]
        for k, b in enumerate(bg):
            b.name = f"bg{k}"
            smooth(b, 30 + k, 3)
    info = {"equations": texts, "conditions": conds, "backgrounds": "default" if default_bg else "given", "domain": name, "dtype": dtype.__name__}
    if seed % 2:
        # a mode given up by the user, in an equation and a variable
        x, e = vars[seed // 2 % 2], p.eqs[-1 if not with_cond else 0]
        k = np.argwhere(x.valid_modes)
        x.valid_modes[tuple(k[-1])] = False
        if not np.shares_memory(x.valid_modes, e["valid_modes"]):
            e["valid_modes"][tuple(np.argwhere(e["valid_modes"])[-1])] = False
    E = p.build_EVP(backgrounds=bg)
    for a, b in zip(p.eqs, E.eqs):
        if not np.array_equal(a["valid_modes"], b["valid_modes"]):
            return {**info, "valid modes of an equation lost": texts}
    for a, b in zip(vars, E.variables):
        if not np.array_equal(a.valid_modes, b.valid_modes):
            return {**info, "valid modes of a variable lost": texts}
    s = E.build_solver(ncc_cutoff=1e-13, entry_cutoff=1e-14)
    s.build_matrices(s.subproblems)
    pert = []
    for k, w in enumerate(E.variables):
        smooth(w, 60 + k, 3)
        pert.append(w["c"].copy())
    X = [x["c"].copy() for x in vars[:2]]
    B = X if default_bg else [b["c"].copy() for b in bg]
    pairs = [t.split(" = ") for t in texts]
    eqs = E.eqs
    zero = lambda x: 0 * x

    def values(data, which):
        bg_set(vars[:2], data)
        out = []
        for (a, b), e in zip(pairs, eqs):
            if which == "R":
                x = at(b, ns)
            elif which == "L":
                x = at(a, ns, dt=zero)
            else:
                x = at(a, ns, dt=lambda z: z) - at(a, ns, dt=zero)
            out.append(evaluated(d3, x, e["domain"], e["tensorsig"], dist).data.copy())
        bg_set(vars[:2], X)
        return out
    M, L = values(pert, "M"), values(pert, "L")
    r = {k: values([a + k * b for a, b in zip(B, pert)], "R") for k in (-2, -1, 1, 2)}
    for i in range(len(eqs)):
        L[i] = L[i] - (8 * (r[1][i] - r[-1][i]) - (r[2][i] - r[-2][i])) / 12
    bg_set(E.variables, pert)
    for n, R in (("M", M), ("L", L)):
        fields = []
        for e, d in zip(eqs, R):
            o = dist.Field(bases=e["domain"].bases, tensorsig=e["tensorsig"])
            o["c"] = d
            fields.append(o)
        big = max([1] + [abs(d).max(initial=0) for d in R])
        for sp in s.subproblems:
            got = getattr(sp, n + "_min") @ (sp.pre_right_pinv @ pencil(sp, E.variables))
            want = sp.pre_left @ pencil(sp, fields)
            if got.shape != want.shape or not abs(got - want).max(initial=0) <= 1e-8 * big:
                return {**info, "matrix": n, "group": [None if g is None else int(g) for g in sp.group], "differs by": float(abs(got - want).max(initial=0))}
    return None


def evp_cases(thorough):
    for seed in range(10 if thorough else 4):
        for name in ("z", "f", "fz", "ff", "ball1", "disk1"):
            for dt in (float, complex):
                for db in (False, True):
                    yield name, dt, db, False, seed
        for name in ("fz", "ff"):
            for dt in (float, complex):
                yield name, dt, True, True, seed


# equations outside the documented forms, by problem class

REJECTED = {
    "IVP": ["u*v = 0", "dt(u)*u = 0", "u + 1 = 0", "dt(u) + g = 0", "u**2 = g", "dt(dt(u)) = 0", "dt(u) + dt(lap(dt(v))) = 0", "dt(u) = dt(v)", "dt(u) = u + lap(dt(v))", "dt(u) + t*u = 0", "t*v + dt(u) = 0",
            "sin(u) = 0", "dt(u) + v*lap(u) = 0", "g = u", "0*u + g = u", "cc = u", "dt(c1) = u", "c1 = g", "c1 - 3*c1*c1 = 0", "dt(u) - (u + v)*f = sin(dt(u))", "sqrt(v) + dt(u) = 0", "dt(u) - np.exp(u) = 0"],
    "LBVP": ["u*v = 0", "u + 1 = 0", "u = v", "lap(u) = u", "u = g + c1*v", "g = 0", "u*u = g", "sin(u) = g", "u + g = 0", "c1 = g", "u = sin(v)", "lap(u) + v*u = g", "u + (v + 1)*2 = g", "c1 = g*g"],
    "EVP": ["lam*u*v = 0", "lam*lam*u = 0", "lam*u + g = 0", "lam*u = 1", "lam*u = g", "lam*u + v*v = 0", "lam*u = lam*v", "sin(lam)*u = 0", "lam*u - 2*lam = 0", "lam*u + lap(u) = v", "lam*lap(lam*v) + u = 0", "lam*(lam*u + v) = 0"],
    "NLBVP": [],
}
ACCEPTED = {
    "IVP": ["dt(u) = 0", "u = 0", "u = 5", "dt(u) - lap(v) = sin(u)", "dt(u) = t*u", "f*u + dt(g*v) = u*v", "lap(dt(u) - 3*v) = g", "c1 = 3", "u = c1", "dt(c1) = 2", "2*dt(u) - dt(v)/3 + (f + g)*u = np.exp(v)", "dt(f*u) = c1*u"],
    "LBVP": ["u = 0", "lap(u) - f*v = g", "u = 3", "u = sin(g)", "g*g*u = c*g", "c1 = 2", "u - c1 = g", "c1*g - u = g"],
    "EVP": ["lam*u = 0", "lam*u + lap(v) = 0", "u = 0", "lap(lam*u - v) = 0", "f*u*lam - 2*lam*g*v = 0", "3*(lam*u) = 0", "lam*c1 - u = 0"],
    "NLBVP": ["u = 0", "u*v = g", "lap(u) = sin(v)", "u**2 - 3 = v", "u = c1", "lap(u) + u*v = 0", "c1 = 3", "c1*u = 4"],
}


def check_form(d3, case):
    """Equations outside the documented form are refused and those inside accepted."""
    from dedalus.tools.exceptions import UnsupportedEquationError
    cls, text, good, name, dtype = case
    dist, cs, dom, ns, vars = geometry(d3, name, dtype)
    c1 = dist.Field(name="c1")
    lam, t = dist.Field(name="lam"), dist.Field(name="t", dtype=np.float64)
    ns = {**ns, "c1": c1, "lam": lam, "np": np, "sin": np.sin, "sqrt": np.sqrt, "cc": ns["c"], "t": t}
    V = [ns["u"], ns["v"], c1]
    p = {"IVP": lambda: d3.IVP(V, time=t, namespace=ns), "LBVP": lambda: d3.LBVP(V, namespace=ns), "EVP": lambda: d3.EVP(V, lam, namespace=ns), "NLBVP": lambda: d3.NLBVP(V, namespace=ns)}[cls]()
    try:
        p.add_equation(text)
        got = None
    except Exception as e:
        got = e
    if good and got is not None:
        return {"problem": cls, "equation": text, "refused with": f"{type(got).__name__}: {got}"}
    if not good and got is None:
        return {"problem": cls, "equation": text, "accepted although outside the form": True}
    return None


def form_cases():
    for cls in REJECTED:
        for good, T in ((False, REJECTED[cls]), (True, ACCEPTED[cls])):
            for text in T:
                for name, dt in (("fz", float), ("z", complex), ("ff", complex)):
                    if cls == "NLBVP" and good and "sin" in text and name != "z":
                        continue
                    yield cls, text, good, name, dt


def find_rejected(m=None):
    import dedalus.public as d3
    for c in form_cases():
        try:
            r = check_form(d3, c)
        except Exception as e:
            return {"case": str(c), "error": f"{type(e).__name__}: {e}"}
        if r:
            return r


find_rejected.takes_none = True


def check_solve(d3, case):
    """Solutions returned satisfy the equations as written."""
    cls, name, dtype, seed = case
    rng = np.random.default_rng([seed, 5])
    dist, cs, dom, ns, vars = geometry(d3, name, dtype)
    u, v = vars[:2]
    info = {"problem": cls, "domain": name, "dtype": dtype.__name__, "seed": seed}

    def residual(texts, tol=1e-7, limited=True, **kw):
        # modes the transforms do not keep are not part of the functions represented
        for x in vars:
            x["g"], x["c"]
        for t in texts:
            a, b = t.split(" = ")
            r = at(a, ns, **kw) - at(b, ns, **kw)
            r = r.evaluate()
            r.change_layout("c")
            vm = r.valid_modes
            e = abs(np.where(vm, r.data, 0)).max(initial=0)
            if not e < tol:
                return {**info, "equation": t, "residual": float(e)}
    k1, k2 = (round(float(x), 2) for x in rng.uniform(2, 4, 2))
    if cls == "LBVP":
        texts = [f"{k1}*u - 0.25*v + 0.3*(c*u) = g", f"{k2}*v + 0.5*u = -2*g"]
        p = d3.LBVP([u, v], namespace=ns)
        for t in texts:
            p.add_equation(t)
        s = p.build_solver()
        for k in range(3):
            u["c"], v["c"] = 0, 0
            # another coefficient: matrices and factors are rebuilt
            ns["c"]["g"] = (0.9, -0.7, 2.5)[k]
            s.solve(**({} if k == 0 else {"rebuild_matrices": True}))
            r = residual(texts)
            if r:
                return {**r, "solve": k}
            # some subproblems only, also rebuilt: the others keep their data
            ns["c"]["g"] = (0.9, 0.1, 2.5)[k]
            full = [x["c"].copy() for x in (u, v)]
            for sel in (s.subproblems[0], s.subproblems[-2:]):
                bg_set((u, v), [x + 1 for x in full])
                u["c"], v["c"]
                s.solve(sel, rebuild_matrices=(k == 1))
                sols = [x["c"].copy() for x in (u, v)]
                for sp in s.subproblems:
                    mine = sp is sel or (isinstance(sel, (list, tuple)) and sp in sel)
                    if mine:
                        continue
                    bg_set((u, v), [x + 1 for x in full])
                    a = pencil(sp, (u, v))
                    bg_set((u, v), sols)
                    if not np.array_equal(pencil(sp, (u, v)), a):
                        return {**info, "solving some subproblems changed others": [None if g is None else int(g) for g in sp.group]}
            if k == 1:
                # every subproblem in turn, each with its new matrix
                u["c"], v["c"] = 0, 0
                for sp in s.subproblems:
                    s.solve(sp, rebuild_matrices=True)
                r = residual(texts)
                if r:
                    return {**r, "solve": "one by one"}
            else:
                bg_set((u, v), full)
            # another source with the stored factors
            ns["g"]["c"] *= 3
            s.solve(s.subproblems)
            r = residual(texts)
            if r:
                return r
    elif cls == "NLBVP":
        # small sources: the solution is near zero
        for x in (ns["g"], u, v):
            x["c"] *= 0.02
        texts = [f"{k1}*u - 0.25*v + u*u = g", f"{k2}*v = 2*g - u*v - 0.5*u"]
        p = d3.NLBVP([u, v], namespace=ns)
        for t in texts:
            p.add_equation(t)
        s = p.build_solver(ncc_cutoff=1e-14)
        for k in range(8):
            s.newton_iteration()
        r = residual(texts, tol=1e-9)
        if r:
            return r
        # damped steps move along the same direction
        u["c"], v["c"] = 0, 0
        x0 = [x["c"].copy() for x in (u, v)]
        s.newton_iteration(damping=0.25)
        d = [x["c"] - a for x, a in zip((u, v), x0)]
        u["c"], v["c"] = x0
        s.newton_iteration()
        e = max(abs(4 * q - (x["c"] - a)).max() for q, x, a in zip(d, (u, v), x0))
        if not e < 1e-12:
            return {**info, "damped step is not the damped Newton step": float(e)}
    elif cls == "EVP":
        lam = dist.Field(name="lam")
        ns["lam"] = lam
        w = "f" if "f" in ns and ns["f"].domain.bases else "c"
        if w == "f" and set(name) <= set("fz"):
            # distinct eigenvalues
            ns["f"]["g"] = 1 + 0.5 * dist.local_grids(dom[-1])[0]
        w0 = w
        text = [f"lam*u + {k1}*u - 0.1*v + {w}*u + 0.01*lap(u) = 0" if w == "c" else f"lam*u + {k1}*u - 0.1*v + f*u = 0", f"2*lam*v - lam*u + {k2}*v + 0.3*u + 0.7*({w}*v) = 0"]
        p = d3.EVP([u, v], lam, namespace=ns)
        for t in text:
            p.add_equation(t)
        s = p.build_solver()
        for sp in s.subproblems[:3]:
            for mode in ("dense", "sparse"):
                if mode == "dense":
                    s.solve_dense(sp, left=True)
                elif sp.L_min.shape[0] > 6:
                    np.random.seed(1)
                    s.solve_sparse(sp, 3, 1.1 + 0.3j)
                else:
                    continue
                w, R = s.eigenvalues, s.eigenvectors
                if R.shape[1] != len(w):
                    return {**info, "eigenvector shape": R.shape}
                L, M = sp.L_min, sp.M_min
                Rm = sp.pre_right_pinv @ R
                e = abs(L @ Rm + (M @ Rm) * w[None, :]).max(initial=0)
                if not e < 1e-7 * max(1, abs(w).max(initial=0)) * abs(Rm).max(initial=1):
                    return {**info, "mode": mode, "eigenpair residual": float(e)}
                if mode == "sparse":
                    full = __import__("scipy.linalg").linalg.eigvals(L.toarray(), -M.toarray())
                    full = full[np.isfinite(full)]
                    near = np.sort(abs(full - (1.1 + 0.3j)))[:len(w)]
                    if name in ("fz", "ff", "z", "f") and not np.allclose(np.sort(abs(w - (1.1 + 0.3j))), near, atol=1e-6):
                        return {**info, "not the eigenvalues nearest to the target": [str(x) for x in w]}
                # set_state writes the chosen mode
                for k in (0, len(w) - 1):
                    for j, ss in enumerate(sp.subsystems[:2]):
                        if dtype is float and abs(R[:, k].imag).max() > 1e-12:
                            continue
                        s.set_state(k, subsystem=j)
                        got = np.concatenate([x["c"][ss.field_slices(x)].ravel() for x in s.state])
                        if not np.allclose(got, R[:, k], atol=1e-12) or not np.allclose(lam["g"], w[k] if dtype is complex else w[k].real):
                            return {**info, "set_state": k, "subsystem": j}
                        tot = sum(float((abs(x["c"])**2).sum()) for x in s.state)
                        if not np.isclose(tot, float((abs(R[:, k])**2).sum())):
                            return {**info, "set_state leaves other modes": k}
                # biorthogonality for well separated eigenvalues
                if len(w) > 1 and mode == "dense" and name in ("fz", "ff", "z", "f"):
                    Q = s.modified_left_eigenvectors
                    G = Q.conj().T @ R
                    sep = np.array([min(abs(w[i] - w[j]) for j in range(len(w)) if j != i) for i in range(len(w))])
                    ok = (sep > 1e-2) & np.isfinite(w)
                    if ok.any() and not abs((G - np.eye(len(w)))[np.ix_(ok, ok)]).max() < 1e-6:
                        return {**info, "mode": mode, "left and right eigenvectors are not biorthogonal": float(abs((G - np.eye(len(w)))[np.ix_(ok, ok)]).max())}
        # another coefficient: the old matrices do not count
        a = ns[w0]["c"].copy()
        for mode in ("dense", "sparse"):
            sp = s.subproblems[-1]
            ns[w0]["c"] = ns[w0]["c"] * 1.5
            if mode == "dense":
                s.solve_dense(sp, rebuild_matrices=True)
            elif sp.L_min.shape[0] > 6:
                np.random.seed(1)
                s.solve_sparse(sp, 3, 1.1 + 0.3j, rebuild_matrices=True)
            else:
                continue
            w, R = s.eigenvalues, s.eigenvectors
            fresh = p.build_solver()
            sq = fresh.subproblems[-1]
            fresh.build_matrices([sq], ["M", "L"])
            Rm = sq.pre_right_pinv @ R
            e = abs(sq.L_min @ Rm + (sq.M_min @ Rm) * w[None, :]).max(initial=0)
            if not e < 1e-7 * max(1, abs(w).max(initial=0)) * abs(Rm).max(initial=1):
                return {**info, "mode": mode, "eigenpair residual after rebuilding with another coefficient": float(e)}
        ns[w0]["c"] = a
    return None


def solve_cases(thorough):
    for seed in range(5 if thorough else 2):
        for cls in ("LBVP", "NLBVP", "EVP"):
            for name in ("fz", "ff", "z", "f", "disk", "annulus", "sphere", "shell", "ball") if cls != "NLBVP" else ("fz", "ff", "z", "f", "ball1", "disk1"):
                for dt in (float, complex):
                    if cls == "EVP" and name in ("shell", "ball") and not thorough and dt is float:
                        continue
                    yield cls, name, dt, seed


def find_solved(m=None):
    import time
    import dedalus.public as d3
    t0 = time.time()
    for c in solve_cases(False):
        if time.time() - t0 > 60:
            return None
        try:
            r = check_solve(d3, c)
        except Exception as e:
            return {"case": str(c), "error": f"{type(e).__name__}: {e}"}
        if r:
            return r


find_solved.takes_none = True


def bounded(chk, part, nparts):
    import logging
    import dedalus.public as d3
    logging.getLogger("dedalus").setLevel(logging.ERROR)
    if part == 0:
        chk.bounded("equation texts", "all texts of up to six of '(=)a ', and longer ones", split_texts(), check_split, key="split", budget=60)
        chk.bounded("accepted and refused forms", "85 equations, 3 domains", form_cases(), lambda c: check_form(d3, c), key="forms", budget=120)
        chk.bounded("eigenvalue problems built from initial value problems", "6 domains, default and given backgrounds, conditions", evp_cases(chk.thorough), lambda c: check_build_evp(d3, c), key="build_EVP", budget=400 if chk.thorough else 120)
    if part == 1 % nparts:
        chk.bounded("solutions satisfy the equations", "LBVP, NLBVP, EVP on 11 domains, real and complex", solve_cases(chk.thorough), lambda c: check_solve(d3, c), key="solve", budget=400 if chk.thorough else 120)
    cases = [c for k, c in enumerate(problem_cases(chk.thorough)) if k % nparts == part]
    chk.bounded(f"matrices and right-hand sides of random equations {part}", "all problem classes, 14 domains, real and complex, up to 4 terms a side", cases, lambda c: check_problem(d3, c), key="problems",
                budget=780 if chk.thorough else 200)


def run(chk):
    import dedalus.core.arithmetic as ar
    import dedalus.core.field as fi
    import dedalus.core.future as fu
    import dedalus.core.operators as op
    import dedalus.core.problems as pr
    import dedalus.core.solvers as so
    import dedalus.tools.parsing as pa
    chk.trust("split, replace and frechet_differential of every node by the contracts of E01")
    chk.trust("operator matrices (subproblem_matrix) and mode matrices (product_matrix, _last_axis_field_ncc_matrix) by the contracts of S01 and N02")
    chk.trust("assembly of the expression matrices into pencils by the contracts of M01")
    n = 6
    chk.parallel([
        lambda c: (splitting(c, pa), matrices(c, ar, op, fi), linearity(c, ar, op, fi, fu), forms(c, pr, op), solvers_(c, so)),
        lambda c: coefficients(c, ar),
    ] + [lambda c, k=k: bounded(c, k, n) for k in range(n)])
