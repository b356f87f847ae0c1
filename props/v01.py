"""V01: component, spin and regularity recombinations are exact unitary changes of frame.

Contracts
  spin_recombination.pyx (loops cut by invariants; extents, subaxis and data symbolic): every cell of the output is the spin
      pair  u_-/+ = (u_theta -/+ i u_phi)/sqrt(2)  of the cells at (s, s+1), real and imaginary parts at 2l, 2l+1; other
      components are copied; backward is the inverse map (lemma over the postconditions)
  basis.reduced_view_5, forward/backward_spin_recombination: for every arrangement of recombined and untouched indices each
      recombined index is mapped exactly once, on its own tensor axis and on the azimuthal axis, and the result is in `out`
  spin_recombination_matrix: Kronecker product of the same factors; leaves the (cached) factors as they were
  spin_operators.Intertwiner: entries computed in an exact algebra of square roots over Q(L), L symbolic from the rank up and
      concrete below it: Q^T Q and Q Q^T are the projections on the allowed components, and the columns satisfy the
      gradient relation of tensor spherical harmonics
  coords: every intertwiner is unitary, its backward form is the inverse, order n is the n-fold Kronecker power
  forward/backward_regularity_recombination: each (ell, slice) of the map multiplied once by Q(ell)^T / Q(ell)
"""

import itertools
import types
from fractions import Fraction

import numpy as np
import z3

from vf import sym, npf, imp, poly
from vf.poly import P
from vf.sym import Unsupported
from props.n02 import takes
from props.s01 import attr

BA = "dedalus.core.basis"
SO = "dedalus_sphere.spin_operators"
CO = "dedalus.core.coords"
S = types.SimpleNamespace


# ================================================================ compiled loops
def kernel_spec(low, forward):
    n = z3.Ints("n0 n1 n2 n3 n4")
    s, half = z3.Ints("s half")
    x = imp.fn_array("input", 5, "real", n)
    y = imp.fn_array("output", 5, "real", n)
    c = z3.Real("invsqrt2")
    pre = [k >= 0 for k in n] + [n[3] == 2 * half, half >= 0, 0 <= s, s + 2 <= n[1], 2 * c * c == 1, c > 0]
    X = x.read

    def G(i, j, k, d, m):
        """Cell (i, j, k, d, m) of the mapped array."""
        e, o = d, d                        # even: partner d+1; odd: partner d-1
        if forward:                        # - : s, + : s+1
            mr = (X(i, s + 1, k, d, m) + X(i, s, k, d + 1, m)) * c          # Re u_- = (u_th.re + u_ph.im)
            mi = (X(i, s + 1, k, d, m) - X(i, s, k, d - 1, m)) * c          # Im u_- = (u_th.im - u_ph.re)
            pr = (X(i, s + 1, k, d, m) - X(i, s, k, d + 1, m)) * c
            pi = (X(i, s + 1, k, d, m) + X(i, s, k, d - 1, m)) * c
            a, b = (mr, mi), (pr, pi)
        else:                              # u_phi = i(u_- - u_+)/sqrt2,  u_th = (u_- + u_+)/sqrt2
            fr = (X(i, s + 1, k, d + 1, m) - X(i, s, k, d + 1, m)) * c
            fi = (X(i, s, k, d - 1, m) - X(i, s + 1, k, d - 1, m)) * c
            th = (X(i, s, k, d, m) + X(i, s + 1, k, d, m)) * c
            a, b = (fr, fi), (th, th)
        even = d % 2 == 0
        return z3.If(j == s, z3.If(even, *a), z3.If(j == s + 1, z3.If(even, *b), X(i, j, k, d, m)))

    q = z3.Ints("qi qj qk qd qm")
    inr = z3.And(*[z3.And(0 <= a, a < b) for a, b in zip(q, n)])

    def upto(st, done):
        out = st.arg(2)
        return [("cells done so far are the mapped cells",
                 z3.ForAll(q, z3.Implies(z3.And(inr, done), out.read(*q) == G(*q))  ))]

    i, j, k, d, m = q
    pair = z3.And(s <= j, j < s + 2)
    inv = {
        (0,): lambda st: upto(st, i < st.loops[0]),
        (0, 0): lambda st: upto(st, z3.Or(i < st.loops[0], z3.And(i == st.loops[0], j < st.v))),
        (0, 1): lambda st: upto(st, z3.Or(i < st.loops[0], z3.And(i == st.loops[0], z3.Or(j < s, z3.And(pair, k < st.v))))),
        (0, 1, 0): lambda st: upto(st, z3.Or(i < st.loops[0], z3.And(i == st.loops[0], z3.Or(
            j < s, z3.And(pair, z3.Or(k < st.loops[1], z3.And(k == st.loops[1], d < 2 * st.v))))))),
        (0, 1, 0, 0): lambda st: upto(st, z3.Or(i < st.loops[0], z3.And(i == st.loops[0], z3.Or(
            j < s, z3.And(pair, z3.Or(k < st.loops[1], z3.And(k == st.loops[1], z3.Or(
                d < 2 * st.loops[2], z3.And(d < 2 * st.loops[2] + 2, m < st.v))))))))),
        (0, 2): lambda st: upto(st, z3.Or(i < st.loops[0], z3.And(i == st.loops[0], j < z3.If(st.v > s + 2, st.v, s + 2)))),
    }
    return {"args": [s, x, y], "pre": pre, "globals": {"invsqr2": c}, "inv": inv,
            "post": lambda st: upto(st, z3.BoolVal(True))}


def kernels(chk, source):
    for name, fw in (("recombine_forward", True), ("recombine_backward", False)):
        func = f"spin_recombination.{name}"

        def body():
            low = imp.Lowered(source, name)
            spec = kernel_spec(low, fw)
            chk.sat_check(name, spec["pre"])
            imp.emit(chk, func, imp.VC(low, spec), replay=None, observable=False, timeout=30)
            import re
            m = re.search(r"cdef\s+double\s+invsqr2\s*=\s*([^\n#]+)", source)
            if not m:
                raise Unsupported("the module constant 1/sqrt(2) is not found")
            v = eval(m.group(1), {"__builtins__": {}})
            chk.ground(f"{name}: the constant is the square root of one half", func, abs(2 * v * v - 1) < 1e-15 and v > 0, f"{v!r}", observable=False)
        chk.contract(f"{name} loops", func, body)

    def lemma():
        # the two postconditions compose to the identity (one pair of cells; c = 1/sqrt2)
        c = z3.Real("c")
        ph, th = z3.Reals("phr phi"), z3.Reals("thr thi")
        mr, mi, pr, pi = (th[0] + ph[1]) * c, (th[1] - ph[0]) * c, (th[0] - ph[1]) * c, (th[1] + ph[0]) * c
        back = [(pi - mi) * c, (mr - pr) * c, (mr + pr) * c, (mi + pi) * c]
        for g, w in zip(back, (ph[0], ph[1], th[0], th[1])):
            chk.obl(f"backward after forward restores {w}", "lemma", [2 * c * c == 1], g == w, observable=False)
        chk.obl("the map preserves the norm", "lemma", [2 * c * c == 1], mr * mr + mi * mi + pr * pr + pi * pi == sum(v * v for v in (*ph, *th)), observable=False)
    chk.contract("composition of the kernel postconditions", "lemma", lemma)


def ref_spin(a, s, axis, az, forward):
    """Independent statement of the real-pair spin map on tensor axis `axis`, azimuth data axis `az`."""
    b = np.moveaxis(a, (axis, az), (0, 1))
    z = b[:, 0::2] + 1j * b[:, 1::2]
    w = z.copy()
    if forward:
        w[s], w[s+1] = (z[s+1] - 1j * z[s]) / np.sqrt(2), (z[s+1] + 1j * z[s]) / np.sqrt(2)
    else:
        w[s], w[s+1] = 1j * (z[s] - z[s+1]) / np.sqrt(2), (z[s] + z[s+1]) / np.sqrt(2)
    out = np.empty(b.shape)
    out[:, 0::2], out[:, 1::2] = w.real, w.imag
    return np.moveaxis(out, (0, 1), (axis, az))


def check_kernel(case):
    from dedalus.libraries import spin_recombination as sr
    shape, s, fw, seed = case
    rng = np.random.default_rng(seed)
    a = rng.standard_normal(shape)
    out = rng.standard_normal(shape)
    b = a.copy()
    (sr.recombine_forward if fw else sr.recombine_backward)(s, b, out)
    want = ref_spin(a, s, 1, 3, fw)
    if not np.allclose(out, want, rtol=0, atol=1e-13) or not np.array_equal(a, b):
        return {"shape": list(shape), "subaxis": s, "forward": fw, "max error": float(np.abs(out - want).max())}


def kernel_cases():
    for n0, n1, n2, n3, n4 in itertools.product((1, 2), (2, 3, 4), (1, 3), (0, 2, 6), (1, 4)):
        for s in range(n1 - 1):
            for fw in (True, False):
                yield (n0, n1, n2, n3, n4), s, fw, n0 + 7 * n1 + 31 * n3


# ================================================================ recombination over all tensor indices
class Buf:
    """Ghost buffer: dtype, symbolic shape and the multiset of maps applied to the original data."""

    def __init__(self, name, dtype, shape, word):
        self.name, self.dtype, self.shape, self.word = name, dtype, tuple(shape), word
        self.ndim = len(self.shape)

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 else shape
        return BufView(self, tuple(shape))


class BufView:
    def __init__(self, buf, shape):
        self.buf, self.shape = buf, shape
        self.ndim = len(shape)

    def axes(self, rank):
        """(tensor axis, spatial axis) that a rank-5 view separates."""
        n = self.buf.shape
        if len(self.shape) != 5:
            raise Unsupported("view rank")
        pr = lambda t: prod(t)
        for a in range(rank):
            for b in range(a + 1, len(n)):
                w = (pr(n[:a]), n[a], pr(n[a+1:b]), n[b], pr(n[b+1:]))
                if all(P.lift(u) is not None and not (P.lift(u) - P.lift(v)).d for u, v in zip(self.shape, w)):
                    return a, b
        return None


def prod(t):
    r = P.const(1)
    for x in t:
        r = r * x
    return r


class NPG(npf.NP):
    def copyto(self, dst, src):
        if not (isinstance(dst, Buf) and isinstance(src, Buf)):
            raise Unsupported("copy of something else")
        dst.word = src.word


def signatures(d3):
    z = d3.Coordinate("z")
    pol, s2, sph = d3.PolarCoordinates("phi", "r"), d3.S2Coordinates("phi", "theta"), d3.SphericalCoordinates("phi", "theta", "r")
    cart = d3.CartesianCoordinates("z", "w")
    out = []
    for cs, more in ((pol, [pol, z, d3.DirectProduct(z, pol), d3.DirectProduct(pol, z)]), (s2, [s2, z, d3.DirectProduct(cart, s2)]), (sph, [sph, sph.S2coordsys, z])):
        out.append((cs, more))
    return out


def same_op(op, want):
    if op[0] != want[0]:
        return False
    return op[1] == want[1] and np.array_equal(np.asarray(op[2]), np.asarray(want[2])) if op[0] == "M" else op[1:] == want[1:]


def recombination(chk, d3, ba):
    SR = ba.SpinRecombinationBasis

    def view():
        func = f"{BA}: reduced_view_5"
        for nd in range(2, 8):
            n = [P.var(f"n{i}") for i in range(nd)]
            for a, b in itertools.combinations(range(nd), 2):
                with npf.facade(ba, extra={"prod": prod}):
                    v = ba.reduced_view_5(Buf("x", float, n, ()), a, b)
                w = (prod(n[:a]), n[a], prod(n[a+1:b]), n[b], prod(n[b+1:]))
                ok = len(v.shape) == 5 and all(not (P.lift(x) - P.lift(y)).d for x, y in zip(v.shape, w))
                chk.ground(f"rank {nd}: axes {a} and {b} kept, the others grouped in order", func, ok, f"{v.shape}", observable=False)
    chk.contract("reduced views", f"{BA}: reduced_view_5", view)

    def one(fw, cs, ts, dtype, coord_dim):
        name = "forward_spin_recombination" if fw else "backward_spin_recombination"
        rank = len(ts)
        shape = [P.var(f"t{i}") for i in range(rank)] + [P.var(f"x{i}") for i in range(coord_dim)]
        colat = coord_dim - 1
        g, o = Buf("g", dtype, shape, ()), Buf("o", dtype, shape, ("stale",))
        factors = attr(SR, "spin_recombination_factors")(S(coordsys=cs), ts)

        def kernel(forward):
            def run(s, a, b):
                if not (isinstance(a, BufView) and isinstance(b, BufView)) or a.buf is b.buf:
                    raise Unsupported("kernel arguments")
                x, y = a.axes(rank), b.axes(rank)
                if x is None or y is None:
                    raise Unsupported("view of the kernel not identified")
                if x != y:
                    b.buf.word = (("mixed", x, y),)
                    return
                b.buf.word = a.buf.word + (("K", x[0], x[1], s, forward),)
            return run

        def apply_matrix(M, arr, axis, out=None, **kw):
            if not isinstance(arr, Buf) or not isinstance(out, Buf):
                raise Unsupported("matrix application to something else")
            out.word = arr.word + (("M", axis, np.array(M)),)
        me = S(coordsys=cs, spin_recombination_factors=lambda t: factors)
        with npf.facade(ba, np=NPG(), extra={"apply_matrix": apply_matrix, "prod": prod, "spin_recombination": S(recombine_forward=kernel(True), recombine_backward=kernel(False))}):
            attr(SR, name)(me, ts, colat, g, o)
        want = []
        for i, c in enumerate(ts):
            if any(k == cs.coords[1] for k in c.coords):
                if dtype is np.complex128:
                    U = spin_factor(cs, c)
                    want.append(("M", i, U if fw else U.conj().T))
                else:
                    want.append(("K", i, colat - 1 + rank, list(c.coords).index(cs.coords[0]), fw))
        got = list(o.word)
        for w in want:
            for k in got:
                if (k[0] == w[0] == "M" and k[1] == w[1] and np.allclose(k[2], w[2], rtol=0, atol=1e-15)) or (k[0] == w[0] == "K" and k == w):
                    got.remove(k) if k[0] == "K" else got.pop([n for n, x in enumerate(got) if x is k][0])
                    break
            else:
                return False, f"{o.word} lacks {w}"
        return not got, f"{o.word}"

    for fw in (True, False):
        name = ("forward" if fw else "backward") + "_spin_recombination"
        func = f"{BA}: SpinRecombinationBasis.{name}"

        def body():
            for cs, more in signatures(d3):
                for dtype in (np.float64, np.complex128):
                    bad = None
                    n = 0
                    for rank in range(5):
                        for ts in itertools.product(more, repeat=rank):
                            for dim in (2, 3):
                                ok, text = one(fw, cs, ts, dtype, dim)
                                n += 1
                                if not ok and bad is None:
                                    bad = (tuple(map(lambda c: type(c).__name__, ts)), text)
                    chk.ground(f"{type(cs).__name__} {dtype.__name__}: every recombined index mapped once, all arrangements", func, bad is None, f"{n} arrangements; {bad}", replay=find_recombination)
        chk.contract(name, func, body)

    def matrix():
        func = f"{BA}: SpinRecombinationBasis.spin_recombination_matrix"
        for cs, more in signatures(d3):
            for dtype in (np.float64, np.complex128):
                bad = None
                for rank in range(1, 4):
                    for ts in itertools.product(more, repeat=rank):
                        for up in (1, 2, 3):
                            bad = bad or matrix_case(ba, cs, ts, dtype, up)
                chk.ground(f"{type(cs).__name__} {dtype.__name__}: Kronecker product of the factors, factors left alone", func, bad is None, f"{bad}",
                           replay=takes(lambda m=None, b=bad: b))
    chk.contract("spin_recombination_matrix", f"{BA}: SpinRecombinationBasis.spin_recombination_matrix", matrix)

    def weights():
        func = f"{BA}: SpinBasis.spin_weights"
        for cs, more in signatures(d3):
            if cs.dim == 3:
                continue
            bad = None
            for rank in range(4):
                for ts in itertools.product(more, repeat=rank):
                    W = attr(ba.SpinBasis, "spin_weights")(S(coordsys=cs), ts)
                    want = np.zeros([c.dim for c in ts], dtype=int)
                    for ix in np.ndindex(*want.shape):
                        for k, c in zip(ix, ts):
                            if cs.coords[1] in c.coords:
                                start = list(c.coords).index(cs.coords[0])
                                want[ix] += {start: -1, start + 1: 1}.get(k, 0)
                    if not np.array_equal(W, want):
                        bad = bad or {"coordinates": type(cs).__name__, "indices": [type(c).__name__ for c in ts], "weights": W.tolist(), "expected": want.tolist()}
            chk.ground(f"{type(cs).__name__}: a component's spin is the sum of its indices' spins", func, bad is None, f"{bad}", replay=takes(lambda m=None, b=bad: b))
    chk.contract("spin weights", f"{BA}: SpinBasis.spin_weights", weights)


def spin_factor(cs, c):
    """Unitary matrix of the spin map on an index over the coordinate system c (basis coordinates cs)."""
    U = np.identity(c.dim, dtype=complex)
    s = list(c.coords).index(cs.coords[0])
    U[s:s+2, s:s+2] = np.array([[-1j, 1], [1j, 1]]) / np.sqrt(2)
    return U


def matrix_case(ba, cs, ts, dtype, up):
    factors = attr(ba.SpinRecombinationBasis, "spin_recombination_factors")(S(coordsys=cs), ts)
    before = list(factors)
    me = S(coordsys=cs, dtype=dtype, spin_recombination_factors=lambda t: factors)
    M = attr(ba.SpinRecombinationBasis, "spin_recombination_matrix")(me, ts, up)
    W = np.identity(1)
    for c in ts:
        W = np.kron(W, spin_factor(cs, c) if cs.coords[1] in c.coords else np.identity(c.dim))
    W = np.kron(W, np.identity(up))
    if dtype is np.float64:
        R = np.zeros((2 * len(W), 2 * len(W)))
        R[0::2, 0::2], R[0::2, 1::2], R[1::2, 0::2], R[1::2, 1::2] = W.real, -W.imag, W.imag, W.real
        W = R
    info = {"coordinates": type(cs).__name__, "indices": [type(c).__name__ for c in ts], "dtype": dtype.__name__, "upstream": up}
    if np.shape(M) != W.shape or not np.allclose(M, W, rtol=0, atol=1e-14):
        return {**info, "defect": "not the Kronecker product of the unitary factors"}
    if len(factors) != len(before) or any(a is not b for a, b in zip(factors, before)):
        return {**info, "defect": "the cached list of factors was modified"}


def recomb_cases(thorough=False):
    """Data arrays through the public recombination methods of the bases: (basis kind, tensor signature, dtype, matrix calls)."""
    for kind in ("disk", "annulus", "sphere"):
        for dtype in (np.float64, np.complex128):
            for rank in (1, 2, 3):
                for pat in itertools.product(range(3), repeat=rank):
                    for calls in ((), ("matrix",)):
                        yield kind, dtype, pat, calls


def make_basis(d3, kind, dtype, n=8):
    pol, s2 = d3.PolarCoordinates("phi", "r"), d3.S2Coordinates("phi", "theta")
    if kind == "disk":
        return pol, d3.DiskBasis(pol, (n, n), dtype)
    if kind == "annulus":
        return pol, d3.AnnulusBasis(pol, (n, n), dtype, radii=(0.5, 1.5))
    return s2, d3.SphereBasis(s2, (n, n), dtype)


def check_recombination(d3, case):
    kind, dtype, pat, calls = case
    cs, b = make_basis(d3, kind, dtype)
    z = d3.Coordinate("z")
    pool = (cs, z, d3.DirectProduct(z, cs))
    ts = tuple(pool[k] for k in pat)
    rng = np.random.default_rng(3)
    rank = len(ts)
    shape = tuple(c.dim for c in ts) + (2, 4, 3)
    x = rng.standard_normal(shape) + (1j * rng.standard_normal(shape) if dtype is np.complex128 else 0)
    info = {"basis": kind, "dtype": dtype.__name__, "indices": [type(c).__name__ for c in ts], "calls before": list(calls)}
    try:
        for c in calls:
            b.spin_recombination_matrix(ts, 2)
        want = x
        for i, c in enumerate(ts):
            if cs.coords[1] in c.coords:
                s = list(c.coords).index(cs.coords[0])
                if dtype is np.float64:
                    want = ref_spin(want, s, i, rank + 1, True)
                else:
                    want = np.moveaxis(np.tensordot(spin_factor(cs, c), want, (1, i)), 0, i)
        f = np.full(shape, 7, dtype=x.dtype)
        b.forward_spin_recombination(ts, 2, x.copy(), f)
        if not np.allclose(f, want, rtol=0, atol=1e-13):
            return {**info, "defect": "spin components", "error": float(np.abs(f - want).max())}
        g = np.full(shape, 7, dtype=x.dtype)
        b.backward_spin_recombination(ts, 2, f.copy(), g)
        if not np.allclose(g, x, rtol=0, atol=1e-13):
            return {**info, "defect": "round trip", "error": float(np.abs(g - x).max())}
    except Exception as e:
        return {**info, "defect": repr(e)}


def find_recombination(m=None):
    from dedalus import public as d3
    for case in recomb_cases():
        r = check_recombination(d3, case)
        if r:
            return r


find_recombination.takes_none = True


# ================================================================ exact algebra of square roots over Q(L)
class Rad:
    """Sum of rational functions of L times square roots of distinct square-free products of generators.

    Generators are primes and primitive linear factors a L + b that are nonnegative for all L >= lo."""

    K = None
    lo = None

    def __init__(self, d):
        self.d = d

    @classmethod
    def setup(cls, lo):
        from sympy import QQ
        from sympy.polys.fields import field
        if cls.K is None:
            cls.K, cls.L = field("L", QQ)
        cls.lo = lo
        cls.roots = {}

    @classmethod
    def lift(cls, x):
        if isinstance(x, Rad):
            return x
        if isinstance(x, (int, np.integer)):
            return Rad({frozenset(): cls.K(int(x))} if x else {})
        if isinstance(x, Fraction):
            from sympy import QQ
            return Rad({frozenset(): cls.K(QQ(x.numerator, x.denominator))} if x else {})
        if isinstance(x, (float, np.floating)) and float(x).is_integer():
            return cls.lift(int(x))
        return None

    def __add__(self, o):
        o = Rad.lift(o)
        if o is None:
            return NotImplemented
        d = dict(self.d)
        for k, v in o.d.items():
            w = d.get(k, 0) + v
            if w:
                d[k] = w
            else:
                d.pop(k, None)
        return Rad(d)
    __radd__ = __add__

    def __neg__(self): return Rad({k: -v for k, v in self.d.items()})
    def __pos__(self): return self
    def __sub__(self, o):
        o = Rad.lift(o)
        return NotImplemented if o is None else self + (-o)
    def __rsub__(self, o): return Rad.lift(o) - self

    def __mul__(self, o):
        o = Rad.lift(o)
        if o is None:
            return NotImplemented
        d = {}
        for a, v in self.d.items():
            for b, w in o.d.items():
                c = v * w
                for g in a & b:
                    c = c * Rad.gen(g)
                k = a ^ b
                t = d.get(k, 0) + c
                if t:
                    d[k] = t
                else:
                    d.pop(k, None)
        return Rad(d)
    __rmul__ = __mul__

    @classmethod
    def gen(cls, g):
        return cls.K(g) if isinstance(g, int) else cls.L * g[0] + g[1]

    def __truediv__(self, o):
        o = Rad.lift(o)
        if o is None:
            return NotImplemented
        if not o.d:
            raise ZeroDivisionError
        if len(o.d) != 1:
            raise Unsupported("division by a sum of roots")
        (g, c), = o.d.items()
        # nonzero for every L >= lo: all linear factors of the numerator and the radicand are positive there
        for f, _ in Rad.factors(c.numer)[1]:
            Rad.sign(f, strict=True)
        inv = 1 / c
        for x in g:
            Rad.sign(x, strict=True)
            inv = inv / Rad.gen(x)
        return self * Rad({g: inv})

    def __rtruediv__(self, o): return Rad.lift(o) / self
    def __pow__(self, n):
        r = Rad.lift(1)
        for _ in range(int(n)):
            r = r * self
        return r

    @classmethod
    def factors(cls, p):
        """(rational constant, [((a, b) or prime, exponent)]) of a polynomial ring element."""
        c, fs = p.factor_list()
        out = []
        for f, e in fs:
            if f.degree() != 1:
                raise Unsupported("radicand is not a product of linear factors")
            a, b = int(f.coeff(f.ring.gens[0])), int(f.coeff(1))
            if a < 0:
                a, b, c = -a, -b, c * (-1) ** e
            out.append(((a, b), e))
        return Fraction(int(c.numerator), int(c.denominator)), out

    @classmethod
    def sign(cls, g, strict):
        if isinstance(g, int):
            return
        v = g[0] * cls.lo + g[1]
        if v < 0 or (strict and v == 0):
            raise Unsupported(f"sign of {g[0]}*L{g[1]:+d} for L >= {cls.lo}")

    def sqrt(self):
        if not self.d:
            return self
        if set(self.d) != {frozenset()}:
            raise Unsupported("root of a root")
        q = self.d[frozenset()]
        if q in Rad.roots:
            return Rad.roots[q]
        c1, n = Rad.factors(q.numer)
        c2, d = Rad.factors(q.denom)
        c = c1 / c2
        if c < 0:
            raise ValueError("square root of a negative number")
        r = Rad.lift(1)
        from sympy import factorint
        for num, inv in ((c.numerator, False), (c.denominator, True)):
            for p, e in factorint(num).items():
                t = Rad.lift(p) ** (e // 2)
                if e % 2:
                    t = t * Rad({frozenset([int(p)]): Rad.K(1)})
                r = r / t if inv else r * t
        for fs, inv in ((n, False), (d, True)):
            for g, e in fs:
                Rad.sign(g, strict=inv)
                t = Rad({frozenset(): Rad.gen(g)}) ** (e // 2)
                if e % 2:
                    t = t * Rad({frozenset([g]): Rad.K(1)})
                r = r / t if inv else r * t
        Rad.roots[q] = r
        return r

    def zero(self):
        return not self.d

    def __abs__(self):
        return self

    def value(self, L):
        t = 0.0
        for g, c in self.d.items():
            v = float(Fraction(int(c.numer.evaluate(0, L).numerator if hasattr(c.numer.evaluate(0, L), "numerator") else c.numer.evaluate(0, L)), 1)) / float(c.denom.evaluate(0, L))
            for x in g:
                v *= (x if isinstance(x, int) else x[0] * L + x[1]) ** 0.5
            t += v
        return t

    # comparisons with integers, for all L >= lo
    def _cmp(self, o):
        o = Rad.lift(o)
        t = self - o
        if t.zero():
            return 0, 0
        if set(t.d) != {frozenset()}:
            raise Unsupported("comparison of roots")
        q = t.d[frozenset()]
        if q.denom != q.denom.ring.one and q.denom.degree() > 0 or q.numer.degree() > 1:
            raise Unsupported("comparison of rational functions")
        slope = q.numer.coeff(q.numer.ring.gens[0]) if q.numer.degree() == 1 else 0
        at = slope * Rad.lo + q.numer.coeff(1)
        s = float(at)
        return s, float(slope)

    def __lt__(self, o):
        s, k = self._cmp(o)
        if s >= 0 and k >= 0:
            return False
        if s < 0 and k <= 0:
            return True
        raise Unsupported("comparison depends on L")

    def __ge__(self, o):
        return not self < o

    def __gt__(self, o):
        return Rad.lift(o) < self if isinstance(o, Rad) else not self <= o

    def __le__(self, o):
        s, k = self._cmp(o)
        if s <= 0 and k <= 0:
            return True
        if s > 0 and k >= 0:
            return False
        raise Unsupported("comparison depends on L")

    def __eq__(self, o):
        o = Rad.lift(o)
        if o is None:
            return NotImplemented
        t = self - o
        if t.zero():
            return True
        s, k = self._cmp(o)
        if s * k > 0 or (s and not k):
            return False
        raise Unsupported("equality depends on L")

    __hash__ = None


class NPR:
    """numpy of spin_operators on exact values."""

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def sqrt(x):
        r = Rad.lift(x)
        if r is None:
            raise Unsupported("square root of an inexact value")
        return r.sqrt()

    @staticmethod
    def zeros(shape, dtype=None):
        a = np.empty(shape, dtype=object)
        a[...] = Rad.lift(0)
        return a

    @staticmethod
    def abs(x):
        return builtins_abs(x) if isinstance(x, (int, np.integer)) else x

    @staticmethod
    def where(c, a, b):
        return b            # values below the threshold 1e-12 stand for zero


builtins_abs = abs


def exact_Q(so, L, rank):
    """Matrix of the real Intertwiner over the exact algebra (memoised recursion)."""
    memo = {}

    class Memo(so.Intertwiner):
        def __getitem__(self, i):
            key = tuple((s,) if type(s) == int else tuple(s) for s in i)
            if key not in memo:
                memo[key] = Rad.lift(super().__getitem__(i))
            return memo[key]
    lt = lambda a, b: a < b
    with npf.facade(so, np=NPR(), ints=False):
        Q = Memo(L, indexing=(-1, +1, 0))
        M = Q.function(rank)
    return np.array(M, dtype=object)


IDX = (-1, +1, 0)


def walk_ok(L, reg):
    """Regularity component exists: every partial degree (from the last index) is nonnegative, no 0 -> 0 step."""
    d = L
    for r in reversed(reg):
        e = d + r
        if e < 0 or (d == 0 and e == 0):
            return False
        d = e
    return True


def intertwiners(chk, so, rank_max):
    func = f"{SO}: Intertwiner"

    def body(rank, L):
        generic = L is None
        Rad.setup(rank if generic else 0)
        sym_L = Rad({frozenset(): Rad.L}) if generic else L
        tag = f"rank {rank}, " + ("every degree from the rank up" if generic else f"degree {L}")
        rp = takes(lambda m=None: find_Q(rank, range(rank, rank + 4) if generic else [L]))
        try:
            Q = exact_Q(so, sym_L, rank)
        except (ZeroDivisionError, ValueError) as e:
            chk.ground(f"{tag}: entries defined", func, False, repr(e), replay=rp)
            return
        tup = list(itertools.product(IDX, repeat=rank))
        lmin = rank if generic else L
        ok_r = [generic or walk_ok(L, a) for a in tup]
        ok_s = [generic or abs(sum(s)) <= L for s in tup]
        n = len(tup)
        cols = [[(i, Q[i, j]) for i in range(n) if not Rad.lift(Q[i, j]).zero()] for j in range(n)]
        rows = [[(j, Q[i, j]) for j in range(n) if not Rad.lift(Q[i, j]).zero()] for i in range(n)]

        def gram(vs, flags):
            for a in range(n):
                da = dict(vs[a])
                for b in range(a, n):
                    t = Rad.lift(0)
                    for i, v in vs[b]:
                        if i in da:
                            t = t + da[i] * v
                    want = 1 if (a == b and flags[a]) else 0
                    if not (t - want).zero():
                        return tup[a], tup[b]
            return None
        for what, vs, fl in (("columns are orthonormal on the allowed regularities", cols, ok_r), ("rows are orthonormal on the allowed spins", rows, ok_s)):
            bad = gram(vs, fl)
            chk.ground(f"{tag}: {what}", func, bad is None, f"{bad}", replay=rp)
        # gradient relation, last rank-1 indices tau, b
        if rank:
            sub = exact_Q(so, sym_L, rank - 1)
            st = list(itertools.product(IDX, repeat=rank - 1))
            pos, spos = {t: i for i, t in enumerate(tup)}, {t: i for i, t in enumerate(st)}
            bad = None
            for b in st:
                if not generic and not walk_ok(L, b):
                    continue
                J = (Rad({frozenset(): Rad.L}) if generic else Rad.lift(L)) + sum(b)
                for tau in st:
                    for sg in IDX:
                        sp = (sg,) + tau
                        if not generic and (abs(sum(sp)) > L or abs(sum(tau)) > L):
                            continue
                        q = lambda t: Rad.lift(sub[spos[t], spos[b]])
                        Qm, Qp, Q0 = (Rad.lift(Q[pos[sp], pos[(a,) + b]]) for a in (-1, 1, 0))
                        Jn = J * (2 * J + 1)
                        lhs1 = Qm * (J / (2 * J + 1)).sqrt() + Qp * ((J + 1) / (2 * J + 1)).sqrt() - (q(tau) if sg == 0 else 0)
                        # angular part of the covariant derivative of spin component tau
                        ang = Rad.lift(0)
                        if sg != 0:
                            s = sum(tau)
                            Lr = Rad({frozenset(): Rad.L}) if generic else Rad.lift(L)
                            k = ((Lr - s * sg) * (Lr + s * sg + 1) / 2).sqrt() * (-sg)
                            ang = ang + k * q(tau)
                            for i, t in enumerate(tau):
                                if t == -sg:
                                    ang = ang + q(tau[:i] + (0,) + tau[i+1:])
                                if t == 0:
                                    ang = ang - q(tau[:i] + (sg,) + tau[i+1:])
                        lhs2 = Qm * (J / (2 * J + 1)).sqrt() * (J + 1) - Qp * ((J + 1) / (2 * J + 1)).sqrt() * J - ang
                        zeroJ = not generic and (J - 0).zero()
                        lhs3 = Rad.lift(0) if zeroJ else Q0 * (J * (J + 1)).sqrt() + ang * sg
                        for w, t in (("radial derivative", lhs1), ("angular derivative", lhs2), ("curl sign", lhs3)):
                            if not t.zero() and bad is None:
                                bad = (w, sp, b)
            chk.ground(f"{tag}: columns split gradients into regularities", func, bad is None, f"{bad}", replay=rp)

    for rank in range(rank_max + 1):
        for L in [None] + list(range(rank)):
            chk.contract(f"intertwiner of rank {rank}, " + ("L >= rank" if L is None else f"L = {L}"), func, lambda rank=rank, L=L: body(rank, L))

    def forbidden():
        func = f"{SO}: Intertwiner.forbidden_regularity"
        Q = lambda L: so.Intertwiner(L, indexing=(-1, +1, 0))
        bad = None
        for rank in range(1, 6):
            for L in range(0, rank + 3):
                for reg in itertools.product(IDX, repeat=rank):
                    if bool(Q(L).forbidden_regularity(reg)) == walk_ok(L, reg):
                        bad = bad or {"degree": L, "regularity": list(reg), "forbidden": bool(Q(L).forbidden_regularity(reg))}
                    if bool(Q(L).forbidden_spin(reg)) == (abs(sum(reg)) <= L):
                        bad = bad or {"degree": L, "spin": list(reg), "forbidden": bool(Q(L).forbidden_spin(reg))}
        chk.ground("components exist exactly when every partial degree does", func, bad is None, f"{bad}", replay=takes(lambda m=None: bad))
    chk.contract("existing components", f"{SO}: Intertwiner.forbidden_regularity", forbidden)


def ref_Q(L, rank):
    """Independent numerical construction: columns by recursion on the gradient relation."""
    if rank == 0:
        return {((), ()): 1.0}
    low = ref_Q(L, rank - 1)
    out = {}
    for b in itertools.product(IDX, repeat=rank - 1):
        J = L + sum(b)
        for tau in itertools.product(IDX, repeat=rank - 1):
            for sg in IDX:
                ang = 0.0
                if sg and abs(sum(tau)) <= L and abs(sum(tau) + sg) <= L:
                    s = sum(tau)
                    ang = -sg * np.sqrt(max((L - s * sg) * (L + s * sg + 1), 0) / 2) * low[tau, b]
                if sg:
                    for i, t in enumerate(tau):
                        ang += (t == -sg) * low[tau[:i] + (0,) + tau[i+1:], b] - (t == 0) * low[tau[:i] + (sg,) + tau[i+1:], b]
                rad = low[tau, b] if sg == 0 else 0.0
                for a in IDX:
                    v = 0.0
                    if abs(sg + sum(tau)) <= L and walk_ok(L, (a,) + b):
                        v = {-1: lambda: (rad * J + ang) / np.sqrt(J * (2 * J + 1)), +1: lambda: (rad * (J + 1) - ang) / np.sqrt((J + 1) * (2 * J + 1)),
                             0: lambda: -sg * ang / np.sqrt(J * (J + 1))}[a]()
                    out[(sg,) + tau, (a,) + b] = v
    return out


def find_Q(rank, Ls):
    from dedalus.libraries.dedalus_sphere import spin_operators as so
    tup = list(itertools.product(IDX, repeat=rank))
    for L in Ls:
        try:
            with np.errstate(all="ignore"):
                M = np.asarray(so.Intertwiner(L, indexing=(-1, +1, 0))(rank), dtype=float)
        except Exception as e:
            return {"rank": rank, "degree": int(L), "defect": repr(e)}
        R = ref_Q(L, rank)
        W = np.array([[R[s, a] for a in tup] for s in tup])
        if M.shape != W.shape or not np.allclose(M, W, rtol=0, atol=1e-11):
            return {"rank": rank, "degree": int(L), "defect": "intertwiner entries", "got": np.round(M, 6).tolist()[:9], "expected": np.round(W, 6).tolist()[:9]}


# ================================================================ coordinate systems
def systems(d3):
    z, w = d3.Coordinate("z"), d3.Coordinate("w")
    pol, s2, sph = d3.PolarCoordinates("phi", "r"), d3.S2Coordinates("phi", "theta"), d3.SphericalCoordinates("phi", "theta", "R")
    cart = [d3.CartesianCoordinates(*"abcd"[:n]) for n in (1, 2, 3)]
    pol2 = d3.PolarCoordinates("psi", "rho")
    return [z, pol, s2, sph] + cart + [d3.DirectProduct(z, pol), d3.DirectProduct(pol, z), d3.DirectProduct(cart[1], s2), d3.DirectProduct(z, pol, w), d3.DirectProduct(pol, pol2)]


def frames(cs, subaxis):
    """Expected order-1 forward map on one axis of a coordinate system (None: depends on the degree)."""
    name = type(cs).__name__
    U = np.array([[-1j, 1], [1j, 1]]) / np.sqrt(2)
    if name == "DirectProduct":
        M = np.identity(cs.dim, dtype=complex)
        k = 0
        for c in cs.coordsystems:
            if k <= subaxis < k + c.dim:
                M[k:k+c.dim, k:k+c.dim] = frames(c, subaxis - k)
            k += c.dim
        return M
    M = np.identity(cs.dim, dtype=complex)
    if name in ("PolarCoordinates", "S2Coordinates", "SphericalCoordinates") and subaxis == 1:
        M[:2, :2] = U
    return M


def coords_case(cs, subaxis, order, ell):
    group = (0, ell, 0)
    F, B = np.asarray(cs.forward_intertwiner(subaxis, order, group)), np.asarray(cs.backward_intertwiner(subaxis, order, group))
    info = {"coordinates": type(cs).__name__, "names": [c.name for c in cs.coords], "axis": subaxis, "order": order, "group": list(group)}
    n = cs.dim ** order
    if F.shape != (n, n) or B.shape != (n, n):
        return {**info, "defect": "shape"}
    if not np.allclose(B, F.conj().T, rtol=0, atol=1e-14):
        return {**info, "defect": "backward map is not the conjugate transpose of the forward map"}
    if type(cs).__name__ == "SphericalCoordinates" and subaxis == 2:
        tup = list(itertools.product(IDX, repeat=order))
        R = ref_Q(ell, order)
        W = np.array([[R[s, a] for a in tup] for s in tup]).T
        ok = np.diag([float(walk_ok(ell, a)) for a in tup])
    else:
        W = np.identity(1)
        for _ in range(order):
            W = np.kron(W, frames(cs, subaxis))
        ok = np.identity(n)
    if not np.allclose(F, W, rtol=0, atol=1e-11):
        return {**info, "defect": "not the map to spin (regularity) components", "got": str(np.round(F, 4)), "expected": str(np.round(W, 4))}
    if not np.allclose(F @ B, ok, rtol=0, atol=1e-11):
        return {**info, "defect": "backward map does not invert the forward map"}


def coordinate_systems(chk, d3):
    func = f"{CO}: forward_intertwiner, backward_intertwiner"

    def body():
        for cs in systems(d3):
            bad = None
            for subaxis in range(cs.dim):
                for order in range(1, 4):
                    ells = range(0, 5) if (type(cs).__name__, subaxis) == ("SphericalCoordinates", 2) else (1,)
                    for ell in ells:
                        try:
                            bad = bad or coords_case(cs, subaxis, order, ell)
                        except Exception as e:
                            bad = bad or {"coordinates": type(cs).__name__, "axis": subaxis, "order": order, "defect": repr(e)}
            chk.ground(f"{type(cs).__name__} ({', '.join(c.name for c in cs.coords)}): unitary spin map on its axis, inverse backward, order 1 to 3", func, bad is None, f"{bad}",
                       replay=takes(lambda m=None, b=bad: b))
    chk.contract("coordinate systems", func, body)

    def equality():
        f2 = f"{CO}: CoordinateSystem.__eq__"
        bad = None
        for make in (d3.CartesianCoordinates, ):
            for a in itertools.product("xy", "yz", "zw"):
                for b in itertools.product("xy", "yz", "zw"):
                    if len(set(a)) < 3 or len(set(b)) < 3:
                        continue
                    if (make(*a) == make(*b)) != (a == b):
                        bad = bad or {"systems": [list(a), list(b)], "equal": make(*a) == make(*b)}
        for make in (d3.PolarCoordinates, d3.S2Coordinates):
            for a in itertools.product("pq", "rs"):
                for b in itertools.product("pq", "rs"):
                    if (make(*a) == make(*b)) != (a == b):
                        bad = bad or {"systems": [make.__name__, list(a), list(b)], "equal": make(*a) == make(*b)}
        if d3.PolarCoordinates("p", "r") == d3.S2Coordinates("p", "r"):
            bad = bad or {"systems": "polar and S2 coordinates of equal names", "equal": True}
        chk.ground("systems are equal exactly when their types and all coordinates are", f2, bad is None, f"{bad}", replay=takes(lambda m=None: bad))
    chk.contract("equality of coordinate systems", f"{CO}: CoordinateSystem.__eq__", equality)


# ================================================================ regularity recombination
def check_regularity(d3, case):
    """Random disjoint ell maps, random data: each piece multiplied once by Q^T (forward) or Q (backward)."""
    rank, dtype, seed = case
    from dedalus.core import basis as ba
    rng = np.random.default_rng(seed)
    cs = d3.SphericalCoordinates("phi", "theta", "r")
    Qs = {}

    me = S(coordsys=cs)
    me.radial_recombinations = lambda ts, ell_list: attr(ba.RegularityBasis, "radial_recombinations")(me, ts, ell_list)
    shape = (3,) * rank + (6, 5, 4)
    x = rng.standard_normal(shape) + (1j * rng.standard_normal(shape) if dtype is np.complex128 else 0)
    maps = []
    for m in range(3):
        for e in range(5):
            if rng.random() < 0.8:
                maps.append((int(rng.integers(0, 7)), slice(2 * m, 2 * m + 2), slice(e, e + 1)))
    rng.shuffle(maps)
    maps = tuple(tuple(t) for t in maps)
    tup = list(itertools.product(IDX, repeat=rank))
    for fw in (True, False):
        y = x.copy()
        getattr(ba.RegularityBasis, ("forward" if fw else "backward") + "_regularity_recombination")(me, (cs,) * rank, 2, y, maps)
        w = x.copy().reshape((3 ** rank,) + shape[rank:])
        for ell, a, b in maps:
            if ell not in Qs:
                R = ref_Q(ell, rank)
                Qs[ell] = np.array([[R[s, t] for t in tup] for s in tup])
            w[:, a, b] = np.tensordot(Qs[ell].T if fw else Qs[ell], w[:, a, b], (1, 0))
        if not np.allclose(y, w.reshape(shape), rtol=0, atol=1e-11):
            return {"rank": rank, "dtype": dtype.__name__, "forward": fw, "seed": seed, "error": float(np.abs(y - w.reshape(shape)).max())}


# ================================================================ frames through the public API
def cart_tensor(kind, rank, seed, X):
    """Cartesian components of a random polynomial tensor field (degree <= 2) on points X; dims 2 or 3."""
    d = len(X)
    rng = np.random.default_rng(seed)
    mono = [np.ones_like(X[0])] + list(X) + [X[i] * X[j] for i in range(d) for j in range(i, d)]
    c = rng.standard_normal((len(mono),) + (d,) * rank)
    return sum(c[k].reshape((d,) * rank + (1,) * X[0].ndim) * mono[k][(None,) * rank] for k in range(len(mono)))


def rotate(T, E, rank):
    """Curvilinear components: contract every index with the unit vectors E[a, i, ...]."""
    for k in range(rank):
        T = np.moveaxis(np.einsum("ai...,i...->a...", E, np.moveaxis(T, k, 0)) if rank == 1 else
                        sum(E[:, i].reshape((E.shape[0],) + (1,) * (rank - 1) + E.shape[2:]) * np.moveaxis(T, k, 0)[i][None] for i in range(E.shape[1])), 0, k)
    return T


def domain(d3, kind, dtype, n=8, m=16):
    if kind in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.DiskBasis(cs, (m, n), dtype, radius=1.5, dealias=(1.5, 1.5)) if kind == "disk" else d3.AnnulusBasis(cs, (m, n), dtype, radii=(0.5, 1.5), dealias=(1.5, 1.5))
    elif kind == "sphere":
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.SphereBasis(cs.S2coordsys, (n, n), dtype, radius=1.0, dealias=(1.5, 1.5))
    else:
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.BallBasis(cs, (m, n, n), dtype, radius=1.5, dealias=(1.5,) * 3) if kind == "ball" else d3.ShellBasis(cs, (m, n, n), dtype, radii=(0.5, 1.5), dealias=(1.5,) * 3)
    return cs, dist, b


def points(kind, dist, b, scale):
    if kind in ("disk", "annulus"):
        ph, r = dist.local_grids(b, scales=scale)
        o = np.ones(np.broadcast(ph, r).shape)
        ph, r = ph * o, r * o
        X = [r * np.cos(ph), r * np.sin(ph)]
        E = np.array([[-np.sin(ph), np.cos(ph)], [np.cos(ph), np.sin(ph)]])
        return X, E
    if kind == "sphere":
        ph, th = dist.local_grids(b, scales=scale)
        r = 1.0
    else:
        ph, th, r = dist.local_grids(b, scales=scale)
    o = np.ones(np.broadcast(ph, th, np.asarray(r)).shape)
    ph, th, r = ph * o, th * o, r * o
    if kind == "sphere":
        ph, th, r = ph[..., None] if ph.ndim == 2 else ph, th[..., None] if th.ndim == 2 else th, r[..., None] if r.ndim == 2 else r
    sp, cp, st, ct = np.sin(ph), np.cos(ph), np.sin(th), np.cos(th)
    E = np.array([[-sp, cp, 0 * sp], [ct * cp, ct * sp, -st], [st * cp, st * sp, ct]])
    return [r * st * cp, r * st * sp, r * ct], E


def check_frame(d3, case):
    """Polynomial Cartesian tensor fields stay themselves through coefficient space and on another grid; their gradients rotate too."""
    kind, dtype, rank, seed = case
    cs, dist, b = domain(d3, kind, dtype)
    info = {"domain": kind, "dtype": dtype.__name__, "rank": rank, "seed": seed}
    f = dist.TensorField((cs,) * rank, bases=b) if rank else dist.Field(bases=b)

    def exact(scale, extra=0):
        X, E = points(kind, dist, b, scale)
        T = cart_tensor(kind, rank, seed, X)
        return rotate(T, E, rank), X, E
    T, X, E = exact(1)
    f["g"] = T.reshape(f["g"].shape)
    f["c"]
    if not np.allclose(f["g"].reshape(T.shape), T, rtol=0, atol=1e-10):
        return {**info, "defect": "components change on the way to coefficients and back", "error": float(np.abs(f["g"].reshape(T.shape) - T).max())}
    f["c"]
    f.change_scales(1.5)
    T2, X2, E2 = exact(1.5)
    if not np.allclose(f["g"].reshape(T2.shape), T2, rtol=0, atol=1e-10):
        return {**info, "defect": "components on another grid are not the rotated Cartesian components", "error": float(np.abs(f["g"].reshape(T2.shape) - T2).max())}
    if kind != "sphere" and rank < 2:
        # gradient: rank + 1, Cartesian gradient rotated
        g = d3.grad(f).evaluate()
        g.change_scales(1)
        X, E = points(kind, dist, b, 1)
        h = 1e-3
        G = []
        for i in range(len(X)):
            Xp, Xm = [x + h * (k == i) for k, x in enumerate(X)], [x - h * (k == i) for k, x in enumerate(X)]
            G.append((cart_tensor(kind, rank, seed, Xp) - cart_tensor(kind, rank, seed, Xm)) / (2 * h))     # exact for quadratics
        W = rotate(np.array(G), E, rank + 1)
        if not np.allclose(g["g"].reshape(W.shape), W, rtol=0, atol=1e-8):
            return {**info, "defect": "gradient components are not the rotated Cartesian gradient", "error": float(np.abs(g["g"].reshape(W.shape) - W).max())}


def frame_cases(thorough):
    for kind in ("disk", "annulus", "ball", "shell"):
        for dtype in (np.float64, np.complex128):
            for rank in range(3 + (thorough or kind in ("disk", "annulus"))):
                for seed in range(3 if thorough else 1):
                    yield kind, dtype, rank, seed


def check_sphere(d3, case):
    """Tangential tensors on the sphere: round trip of random coefficients, constant-vector projections keep their frame."""
    dtype, rank, seed = case
    cs = d3.S2Coordinates("phi", "theta")
    dist = d3.Distributor(cs, dtype=dtype)
    b = d3.SphereBasis(cs, (8, 8), dtype, radius=1.0, dealias=(1.5, 1.5))
    rng = np.random.default_rng(seed)
    c = rng.standard_normal((3,) * max(rank, 1))
    info = {"domain": "sphere", "dtype": dtype.__name__, "rank": rank, "seed": seed}
    f = dist.TensorField((cs,) * rank, bases=b) if rank else dist.Field(bases=b)

    def exact(scale):
        ph, th = dist.local_grids(b, scales=scale)
        o = np.ones(np.broadcast(ph, th).shape)
        ph, th = ph * o, th * o
        E = np.array([[-np.sin(ph), np.cos(ph), 0 * ph], [np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)]])
        if rank == 0:
            return c[0] * np.sin(th) * np.cos(ph) + c[1]
        T = c.reshape(c.shape + (1, 1)) * o
        return rotate(T, E, rank)
    f["g"] = exact(1)
    f["c"]
    if not np.allclose(f["g"], exact(1), rtol=0, atol=1e-11):
        return {**info, "defect": "round trip"}
    f["c"]
    f.change_scales(1.5)
    if not np.allclose(f["g"], exact(1.5), rtol=0, atol=1e-11):
        return {**info, "defect": "components on another grid are not the projected Cartesian components"}


# ================================================================ run
def run(chk):
    import os
    from dedalus import public as d3
    from dedalus import libraries
    from dedalus.core import basis as ba
    from dedalus.libraries.dedalus_sphere import spin_operators as so
    source = open(os.path.join(os.path.dirname(libraries.__file__), "spin_recombination.pyx"), encoding="utf8").read()
    chk.assume("real-dtype azimuth storage is cos/msin pairs (even extent) and the two buffers of a recombination are different contiguous arrays")
    chk.assume("tensor rank at most 4 for the arrangement of recombined indices and 3 for intertwiners; floating-point arithmetic treated as real")
    chk.trust("lowering of Cython loops in vf/imp.py; sympy factorisation of linear factors over Q in the exact algebra of roots")
    d3c = [lambda chk: kernels(chk, source), lambda chk: recombination(chk, d3, ba), lambda chk: intertwiners(chk, so, 3), lambda chk: coordinate_systems(chk, d3)]

    def bounded(chk):
        chk.bounded("compiled recombination kernels", "all extents of 1..6, subaxes", kernel_cases(), check_kernel, key="kernel", budget=60)
        chk.bounded("recombination of whole arrays", "disk, annulus, sphere; ranks 1 to 3 over own, foreign and product indices; before and after the matrix form", recomb_cases(), lambda c: check_recombination(d3, c), key="arrays", budget=100)
        chk.bounded("intertwiner entries", "ranks 0 to 3, degrees up to 12", [(r, L) for r in range(3 + chk.thorough) for L in range(13)], lambda c: find_Q(c[0], [c[1]]), key="Q", budget=100)
        chk.bounded("regularity recombination", "random disjoint degree maps, ranks 1 to 3", [(r, t, s) for r in (1, 2, 3) for t in (np.float64, np.complex128) for s in range(2)], lambda c: check_regularity(d3, c), key="regularity", budget=60)

    def api(chk):
        chk.bounded("tangential tensors on the sphere", "ranks 0 to 3", [(t, r, s) for t in (np.float64, np.complex128) for r in range(4) for s in range(2)], lambda c: check_sphere(d3, c), key="sphere", budget=100)
        chk.bounded("polynomial Cartesian tensors in curvilinear domains", "disk, annulus, ball, shell; ranks 0 to 2; gradients", frame_cases(chk.thorough), lambda c: check_frame(d3, c), key="frames", budget=300)
    chk.parallel(d3c + [bounded, api])
