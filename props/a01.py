"""A01: tensor operations act on the indices they name.

Contracts
  operate of trace, transpose, skew, component, dot and cross operators, executed on arrays of exact polynomials (every entry
      its own variable): for every rank up to 4 and every index the output is the named contraction, exchange, rotation or
      selection, and the operand is left alone
  component and skew matrices: Kronecker products with the selection on the named index (all ranks up to 4)
Bounded: the same through the public API on 8 kinds of domain, from every layout, with negative indices, and as matrices of
linear problems.
"""

import itertools
import sys
import types

import numpy as np

from vf import npf
from vf.poly import P
from vf.sym import Unsupported
from props.n02 import takes
from props.s01 import attr

S = types.SimpleNamespace
OP = "dedalus.core.operators"
AR = "dedalus.core.arithmetic"


def cells(name, shape):
    a = np.empty(shape, dtype=object)
    for k in np.ndindex(*shape):
        a[k] = P.var(name + "_".join(map(str, k)))
    return a


def same(a, b):
    if a.shape != b.shape:
        return False
    for x, y in zip(a.ravel(), b.ravel()):
        x, y = P.lift(x), P.lift(y)
        if x is None or y is None or (x - y).d:
            return False
    return True


class Out:
    def __init__(self, shape, layout):
        self.data = np.empty(shape, dtype=object)
        self.data[...] = P.var("stale")
        self.layout = None

    def preset_layout(self, layout):
        self.layout = layout


class NPO(npf.NP):
    """numpy on object arrays: contractions without type-specific kernels."""

    def einsum(self, spec, *ops, out=None, optimize=None):
        if "->" not in spec:
            ins = spec.split(",")
            letters = [c for t in ins for c in t.replace("...", "")]
            res = "..." + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        else:
            lhs, res = spec.split("->")
            ins = lhs.split(",")
        ext, bshape, ops2 = {}, (), []
        for t, o in zip(ins, ops):
            t = t.strip()
            if t.count("...") > 1:
                raise Unsupported("subscripts")
            pre, dots, post = t.partition("...")
            if post:
                raise Unsupported("subscripts after the ellipsis")
            o = np.asarray(o, dtype=object)
            for c, n in zip(pre, o.shape):
                if ext.setdefault(c, n) != n:
                    raise ValueError("extents differ")
            ops2.append((pre, o))
            if dots:
                bshape = np.broadcast_shapes(bshape, o.shape[len(pre):])
        pre, _, post = res.strip().partition("...")
        keep = pre + post
        summed = [c for c in ext if c not in keep]
        r = np.empty(tuple(ext[c] for c in pre) + bshape + tuple(ext[c] for c in post), dtype=object)
        for ix in itertools.product(*[range(ext[c]) for c in keep]):
            fix = dict(zip(keep, ix))
            t = np.empty(bshape, dtype=object)
            t[...] = P.const(0)
            for jx in itertools.product(*[range(ext[c]) for c in summed]):
                al = {**fix, **dict(zip(summed, jx))}
                term = 1
                for p, o in ops2:
                    term = term * o[tuple(al[c] for c in p)]
                t = t + term
            r[tuple(fix[c] for c in pre) + (slice(None),) * len(bshape) + tuple(fix[c] for c in post)] = t
        if out is not None:
            out[...] = r
            return out
        return r


class NE:
    @staticmethod
    def evaluate(text, out=None, local_dict=None, **kw):
        env = local_dict or dict(sys._getframe(1).f_locals)
        r = eval(text, {"__builtins__": {}}, env)
        if out is not None:
            out[...] = r
            return out
        return r


SP = (2, 3)        # spatial extents


def go(module, cls, me, out):
    extra = {"copyto": lambda dst, src: dst.__setitem__(Ellipsis, np.array(src, dtype=object))}
    if "ne" in module.__dict__:
        extra["ne"] = NE
    if "copyto" not in module.__dict__:
        extra.pop("copyto")
    with npf.facade(module, np=NPO(), extra=extra, ints=False):
        attr(cls, "operate")(me, out)


def contracts(chk, op, ar, ba):
    lay = S(grid_space=np.array([True] * 4))

    def case(func, tag, module, cls, dims, want, outdims, n=1, **kw):
        arg = S(layout=lay, data=cells("x", tuple(dims) + SP))
        before = arg.data.copy()
        me = S(args=[arg], operand=arg, **kw)
        out = Out(tuple(outdims) + SP, lay)
        go(module, cls, me, out)
        return same(out.data, want(before)) and out.layout is lay and same(arg.data, before)

    def group(func, cls_names, body):
        def run():
            n, bad = 0, None
            for tag, ok in body():
                n += 1
                if not ok and bad is None:
                    bad = tag
            chk.ground(f"{func.split(': ')[1]}: named index, every entry, all ranks to 4", func, bad is None, f"{n} cases; {bad}", replay=finder(func))
        chk.contract(func.split(": ")[1], func, run)

    def finder(func):
        def find(m=None):
            from dedalus import public as d3
            for c in api_cases(False):
                r = check_api(d3, c)
                if r:
                    return r
        find.takes_none = True
        return find

    def trace():
        for rank in range(2, 5):
            for d in (1, 2, 3):
                for rest in itertools.product((2, 3), repeat=rank - 2):
                    yield (rank, d, rest), case("", "", op, op.Trace, (d, d) + rest, lambda x, d=d: sum(x[i, i] for i in range(1, d)) + x[0, 0] if d > 1 else x[0, 0], rest)
    group(f"{OP}: Trace.operate", None, trace)

    def transpose():
        for rank in range(2, 5):
            for i, j in itertools.permutations(range(rank), 2):
                dims = [2 + (k % 2) for k in range(rank)]
                dims[i] = dims[j] = 3
                order = list(range(rank + 2))
                order[i], order[j] = j, i
                yield (rank, i, j), case("", "", op, op.StandardTransposeComponents, dims, lambda x, i=i, j=j: np.swapaxes(x, i, j), dims, new_axis_order=tuple(order), indices=(i, j))
                yield (rank, i, j, "spherical"), case("", "", op, op.SphericalTransposeComponents, dims, lambda x, i=i, j=j: np.swapaxes(x, i, j), dims, new_axis_order=tuple(order), indices=(i, j), radius_axis=1)
    group(f"{OP}: TransposeComponents.operate", None, transpose)

    def skew():
        for rank in range(1, 5):
            for i in range(rank):
                dims = [2] * rank
                w = lambda x, i=i, s=1: np.stack([-s * np.take(x, 1, i), s * np.take(x, 0, i)], axis=i)
                yield ("Cartesian", rank, i), case("", "", op, op.CartesianSkew, dims, w, dims, index=i, tensorsig=(0,) * rank)
                yield ("polar grid", rank, i), case("", "", op, op.SpinSkew, dims, lambda x, i=i: np.stack([np.take(x, 1, i), -np.take(x, 0, i)], axis=i), dims, index=i, azimuth_axis=0, tensorsig=(0,) * rank, dtype=np.float64)
    group(f"{OP}: Skew.operate", None, skew)

    def comps():
        for rank in range(1, 5):
            for i in range(rank):
                for d in (1, 2, 3):
                    dims = [2] * rank
                    dims[i] = d
                    rest = dims[:i] + dims[i+1:]
                    for k in range(d):
                        yield ("Cartesian", rank, i, k), case("", "", op, op.CartesianComponent, dims, lambda x, i=i, k=k: np.take(x, k, i), rest, index=i, coord_subaxis=k)
                dims[i] = 2
                for name, k in (("PolarAzimuthalComponent", 0), ("PolarRadialComponent", 1), ("PolarAngularComponent", 0)):
                    yield (name, rank, i), case("", "", ba, getattr(ba, name), dims, lambda x, i=i, k=k: np.take(x, k, i), rest, index=i)
                dims[i] = 3
                yield ("S2RadialComponent", rank, i), case("", "", ba, ba.S2RadialComponent, dims, lambda x, i=i: np.take(x, 2, i), rest, index=i)
                yield ("S2AngularComponent", rank, i), case("", "", ba, ba.S2AngularComponent, dims, lambda x, i=i: np.take(x, (0, 1), i), dims[:i] + [2] + dims[i+1:], index=i)
    group(f"{OP}: components operate", None, comps)

    def products():
        me = S()
        for r0 in range(1, 4):
            for r1 in range(1, 4):
                for i, j in itertools.product(range(r0), range(r1)):
                    d0, d1 = [2] * r0, [2] * r1
                    d0[i] = d1[j] = 3
                    a, b = cells("a", tuple(d0) + SP), cells("b", tuple(d1) + SP)
                    s0, s1 = "abcd"[:r0], "efgh"[:r1]
                    s0, s1 = s0[:i] + "z" + s0[i+1:], s1[:j] + "z" + s1[j+1:]
                    rest = d0[:i] + d0[i+1:] + d1[:j] + d1[j+1:]
                    out = Out(tuple(rest) + SP, lay)
                    build = dot_string(ar, r0, r1, i, j)
                    me = S(args=[S(layout=lay, data=a), S(layout=lay, data=b)], einsum_str=build, indices=(i, j), arg0_ghost_broadcaster=S(cast=lambda f: f.data), arg1_ghost_broadcaster=S(cast=lambda f: f.data))
                    go(ar, ar.DotProduct, me, out)
                    w = NPO().einsum(s0 + "...," + s1 + "...->" + (s0 + s1).replace("z", "") + "...", a, b)
                    yield ("dot", r0, r1, i, j), same(out.data, w) and out.layout is lay
        for right in (True, False):
            a, b = cells("a", (3,) + SP), cells("b", (3,) + SP)
            out = Out((3,) + SP, lay)
            me = S(args=[S(layout=lay, data=a), S(layout=lay, data=b)], arg0_ghost_broadcaster=S(cast=lambda f: f.data), arg1_ghost_broadcaster=S(cast=lambda f: f.data))
            with npf.facade(ar, np=NPO(), extra={"ne": NE}, ints=False):
                attr(ar.CrossProduct, "operate_right_handed" if right else "operate_left_handed")(me, out)
            s = 1 if right else -1
            w = np.stack([s * (a[1] * b[2] - a[2] * b[1]), s * (a[2] * b[0] - a[0] * b[2]), s * (a[0] * b[1] - a[1] * b[0])])
            yield ("cross", right), same(out.data, w)
    group(f"{AR}: DotProduct and CrossProduct operate", None, products)

    def matrices():
        import scipy.sparse as sp
        for rank in range(1, 4):
            for i in range(rank):
                for dims in itertools.product((1, 2, 3), repeat=rank):
                    ts = tuple(S(dim=d) for d in dims)
                    n = 2
                    subp = S(coeff_size=lambda dom: n)
                    before, after = int(np.prod(dims[:i])), int(np.prod(dims[i+1:])) * n
                    for k in range(dims[i]):
                        me = S(operand=S(tensorsig=ts), domain=None, coordsys=ts[i], coord_subaxis=k, index=i)
                        M = attr(op.CartesianComponent, "subproblem_matrix")(me, subp)
                        W = np.kron(np.kron(np.eye(before), np.eye(dims[i])[k:k+1]), np.eye(after))
                        yield ("Cartesian component", dims, i, k), np.array_equal(M.toarray(), W)
                        for c in range(1, dims[i] - k + 1):
                            me = S(operand=S(tensorsig=ts), domain=None, coordsys=ts[i], comp=S(dim=c), comp_subaxis=k, index=i)
                            M = attr(op.DirectProductComponent, "subproblem_matrix")(me, subp)
                            W = np.kron(np.kron(np.eye(before), np.eye(dims[i])[k:k+c]), np.eye(after))
                            yield ("direct product component", dims, i, k, c), np.array_equal(M.toarray(), W)
                    if dims[i] == 2:
                        me = S(operand=S(tensorsig=ts), domain=None, index=i)
                        M = attr(op.CartesianSkew, "subproblem_matrix")(me, subp)
                        yield ("skew", dims, i), np.array_equal(M.toarray(), np.kron(np.kron(np.eye(before), [[0, -1], [1, 0]]), np.eye(after)))
    group(f"{OP}: component and skew matrices", None, matrices)


def dot_string(ar, r0, r1, i, j):
    """Subscript string that the real DotProduct constructor composes for these ranks and indices (constructor run with stubs)."""
    class Stop(Exception):
        pass

    class Me(ar.DotProduct):
        def __new__(cls, *a, **k):
            return object.__new__(cls)

        def _build_bases(self, *a, **k):
            return ()
    me = object.__new__(Me)
    arg = lambda r: S(tensorsig=(S(dim=2),) * r, domain=None, dtype=np.float64)
    saved = ar.Product.__dict__.get("__init__")
    me.dist = S(grid_layout=None)
    from unittest import mock
    with mock.patch.object(ar, "Domain", lambda *a, **k: S(nonconstant=())), mock.patch.object(ar, "GhostBroadcaster", lambda *a, **k: None), \
            mock.patch.object(ar, "unify_attributes", lambda *a, **k: me.dist), mock.patch.object(ar.Product, "__init__", lambda self, *a, **k: None, create=True), \
            mock.patch.object(ar.DotProduct, "_check_indices", lambda self, a, b, ix: tuple(ix)):
        ar.DotProduct.__init__(me, arg(r0), arg(r1), indices=(i, j))
    return me.einsum_str


# ================================================================ public API
def domain(d3, kind, dtype):
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    if kind.startswith("cart"):
        names = "xyz"[:int(kind[4])]
        cs = d3.CartesianCoordinates(*names)
        dist = d3.Distributor(cs, dtype=dtype)
        b = tuple(F(cs[n], 4, bounds=(0, 2)) for n in names[:-1]) + (d3.Chebyshev(cs[names[-1]], 4, bounds=(0, 1)),)
        return cs, dist, b, cs
    if kind in ("cylinder", "cylinder2"):
        z = d3.Coordinate("z")
        pol = d3.PolarCoordinates("phi", "r")
        cs = d3.DirectProduct(z, pol)
        dist = d3.Distributor(cs, dtype=dtype)
        zb = F(z, 4, bounds=(0, 1)) if kind == "cylinder" else d3.Chebyshev(z, 4, bounds=(0, 1))
        db = d3.AnnulusBasis(pol, (8, 4), dtype, radii=(1, 2)) if kind == "cylinder" else d3.DiskBasis(pol, (8, 6), dtype)
        return cs, dist, (zb, db), pol
    if kind in ("disk", "annulus", "circle"):
        cs = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.AnnulusBasis(cs, (8, 4), dtype, radii=(1, 2)) if kind == "annulus" else d3.DiskBasis(cs, (8, 6), dtype)
        return cs, dist, (b.edge if kind == "circle" else b,), cs
    cs = d3.SphericalCoordinates("phi", "theta", "r")
    dist = d3.Distributor(cs, dtype=dtype)
    if kind == "sphere":
        return cs, dist, (d3.SphereBasis(cs.S2coordsys, (8, 4), dtype, radius=1.0),), cs
    b = d3.BallBasis(cs, (8, 4, 6), dtype) if kind == "ball" else d3.ShellBasis(cs, (8, 4, 4), dtype, radii=(1, 2))
    return cs, dist, (b,), cs


def field(dist, ts, b, seed, dtype):
    f = dist.TensorField(ts, bases=b) if ts else dist.Field(bases=b)
    f.fill_random(layout="g", seed=seed)
    f["c"]
    f["g"]
    return f


def api_cases(thorough):
    kinds = ("cart1", "cart2", "cart3", "cylinder", "disk", "annulus", "circle", "sphere", "ball", "shell")
    for kind in kinds:
        for dtype in (np.float64, np.complex128):
            for what in ("trace", "transpose", "skew", "comp", "radial", "angular", "azimuthal", "dot", "cross"):
                for rank in range(1, 4):
                    if not thorough and dtype is np.complex128 and rank == 3:
                        continue
                    yield kind, dtype, what, rank


def operations(d3, kind, cs, pol, what, rank):
    """[(label, tensor signature, operator, reference on grid arrays)]"""
    ts = (cs,) * rank
    d = cs.dim
    out = []
    both = lambda i: (i, i - rank)
    if what == "trace" and rank >= 2 and kind not in ("circle", "sphere"):
        out.append(("trace", ts, d3.trace, lambda x: np.einsum("ii...->...", x)))
    if what == "transpose" and rank >= 2 and kind not in ("circle", "sphere"):
        for i, j in itertools.permutations(range(rank), 2):
            for a in both(i):
                for b in both(j):
                    out.append((f"transpose {a},{b}", ts, lambda u, a=a, b=b: d3.transpose(u, indices=(a, b)), lambda x, i=i, j=j: np.swapaxes(x, i, j)))
    if what == "skew":
        pc = pol if kind.startswith("cylinder") else cs
        if pc.dim == 2 and kind != "circle":
            ts2 = (pc,) * rank
            s = 1 if kind == "cart2" else -1
            for i in range(rank):
                for a in both(i):
                    out.append((f"skew {a}", ts2, lambda u, a=a: d3.skew(u, index=a), lambda x, i=i, s=s: np.stack([-s * np.take(x, 1, i), s * np.take(x, 0, i)], axis=i)))
    if what == "comp":
        if kind.startswith("cart"):
            for i in range(rank):
                for a in both(i):
                    for k in range(d):
                        out.append((f"component {k} of index {a}", ts, lambda u, a=a, k=k: u @ cs.unit_vector_fields(u.dist)[k] if False else d3_comp(u, a, cs.coords[k]), lambda x, i=i, k=k: np.take(x, k, i)))
        if kind.startswith("cylinder"):
            for i in range(rank):
                for a in both(i):
                    out.append((f"z part of index {a}", ts, lambda u, a=a: d3_comp(u, a, cs.coordsystems[0]), lambda x, i=i: np.take(x, [0], i)))
                    out.append((f"polar part of index {a}", ts, lambda u, a=a: d3_comp(u, a, pol), lambda x, i=i: np.take(x, [1, 2], i)))
    if what in ("radial", "angular", "azimuthal") and kind in ("circle", "sphere"):
        if kind == "circle":
            k = {"radial": 1, "angular": 0, "azimuthal": 0}[what]
        else:
            k = {"radial": 2, "angular": (0, 1), "azimuthal": None}[what]
        if k is not None:
            for i in range(rank):
                for a in both(i):
                    out.append((f"{what} part of index {a}", ts, lambda u, a=a: getattr(d3, what)(u, index=a), lambda x, i=i, k=k: np.take(x, k, i)))
    return out


def d3_comp(u, index, comp):
    from dedalus.core import operators
    return operators.CartCompBase(u, index, comp)


def layouts_of(f):
    return list(f.dist.layouts)


def check_api(d3, case):
    kind, dtype, what, rank = case
    cs, dist, b, pol = domain(d3, kind, dtype)
    info = {"domain": kind, "dtype": dtype.__name__, "operation": what, "rank": rank}
    if what in ("dot", "cross"):
        return check_product(d3, case, cs, dist, b, info)
    for label, ts, opf, ref in operations(d3, kind, cs, pol, what, rank):
        try:
            u = field(dist, ts, b, 3, dtype)
            g = u["g"].copy()
            want = ref(g)
            for lay in layouts_of(u):
                u.change_layout(lay)
                keep = u.data.copy()
                w = opf(u)
                v = w.evaluate()
                if tuple(v.tensorsig) != tuple(w.tensorsig):
                    return {**info, "case": label, "defect": "index signature of the result"}
                if u.layout is lay and not np.array_equal(u.data, keep):
                    return {**info, "case": label, "defect": "operand changed"}
                if v["g"].shape != want.shape or not np.allclose(v["g"], want, rtol=0, atol=1e-10):
                    return {**info, "case": label, "layout": layouts_of(u).index(lay), "defect": "values" if v["g"].shape == want.shape else f"shape {v['g'].shape}, expected {want.shape}",
                            "error": float(np.abs(v["g"] - want).max()) if v["g"].shape == want.shape else None}
        except Exception as e:
            return {**info, "case": label, "defect": repr(e)}


def check_product(d3, case, cs, dist, b, info):
    kind, dtype, what, rank = case
    if kind in ("sphere", "circle"):
        return None
    try:
        if what == "cross":
            if cs.dim != 3 or rank > 1:
                return None
            u, v = field(dist, (cs,), b, 1, dtype), field(dist, (cs,), b, 2, dtype)
            x, y = u["g"].copy(), v["g"].copy()
            w = d3.cross(u, v).evaluate()
            want = np.cross(x, y, axis=0) * (1 if cs.right_handed else -1)
            w.change_scales(1)
            if not np.allclose(w["g"], want, rtol=0, atol=1e-10):
                return {**info, "defect": "values"}
            return None
        for r1 in (1, 2):
            u, v = field(dist, (cs,) * rank, b, 1, dtype), field(dist, (cs,) * r1, b, 2, dtype)
            x, y = u["g"].copy(), v["g"].copy()
            for i in range(-rank, rank):
                for j in range(-r1, r1):
                    w = d3.dot(u, v, indices=(i, j)).evaluate()
                    want = np.moveaxis(x, i % rank, 0), np.moveaxis(y, j % r1, 0)
                    t = sum(p.reshape(p.shape[:rank-1] + (1,) * (r1 - 1) + p.shape[rank-1:]) * q.reshape((1,) * (rank - 1) + q.shape) for p, q in zip(*want))
                    if w["g"].shape != t.shape or not np.allclose(w["g"], t, rtol=0, atol=1e-10):
                        return {**info, "ranks": [rank, r1], "indices": [i, j], "defect": "values"}
            for bad in ((rank, 0), (0, r1), (-rank - 1, 0), (0, -r1 - 1)):
                try:
                    d3.dot(u, v, indices=bad)
                    return {**info, "indices": list(bad), "defect": "index beyond the rank accepted"}
                except ValueError:
                    pass
    except Exception as e:
        return {**info, "defect": repr(e)}


def check_mixed(d3, case):
    """Dot products of tensors whose indices belong to different coordinate systems."""
    kind, dtype, r0, r1 = case
    cs, dist, b, pol = domain(d3, kind, dtype)
    info = {"domain": kind, "dtype": dtype.__name__, "operation": "dot of mixed tensors", "ranks": [r0, r1]}
    systems = [cs, cs.S2coordsys] if kind == "sphere" else [cs, pol, cs.coordsystems[0]]
    try:
        for t0 in itertools.product(systems, repeat=r0):
            u = field(dist, t0, b, 1, dtype)
            x = u["g"].copy()
            for t1 in itertools.product(systems, repeat=r1):
                v = field(dist, t1, b, 2, dtype)
                y = v["g"].copy()
                for i, j in itertools.product(range(r0), range(r1)):
                    if t0[i] is not t1[j]:
                        continue
                    w = d3.dot(u, v, indices=(i, j)).evaluate()
                    w.change_scales(1)
                    sig = t0[:i] + t0[i+1:] + t1[:j] + t1[j+1:]
                    at = {**info, "dimensions": [[c.dim for c in t0], [c.dim for c in t1]], "indices": [i, j]}
                    if tuple(w.tensorsig) != sig:
                        return {**at, "defect": "index signature of the result"}
                    X, Y = np.moveaxis(x, i, 0), np.moveaxis(y, j, 0)
                    t = sum(p.reshape(p.shape[:r0-1] + (1,) * (r1 - 1) + p.shape[r0-1:]) * q.reshape((1,) * (r0 - 1) + q.shape) for p, q in zip(X, Y))
                    if w["g"].shape != t.shape or not np.allclose(w["g"], t, rtol=0, atol=1e-10):
                        return {**at, "defect": "values"}
    except Exception as e:
        return {**info, "defect": repr(e)}


def mixed_cases(thorough):
    for kind in ("cylinder", "cylinder2", "sphere"):
        for dtype in (np.float64, np.complex128):
            for r0, r1 in itertools.product((1, 2), repeat=2):
                if r0 + r1 < 4 or thorough or kind == "cylinder":
                    yield kind, dtype, r0, r1


def check_matrix(d3, case):
    """w - op(y) = 0, y = f solved as a linear problem gives op(f)."""
    kind, dtype, what, rank = case
    cs, dist, b, pol = domain(d3, kind, dtype)
    info = {"domain": kind, "dtype": dtype.__name__, "operation": what + " as a matrix", "rank": rank}
    for label, ts, opf, ref in operations(d3, kind, cs, pol, what, rank):
        if "-" in label and rank > 1 and "-1" not in label:
            continue
        try:
            f = field(dist, ts, b, 5, dtype)
            f["c"]
            y = dist.TensorField(ts, bases=b, name="y")
            w0 = opf(f)
            ots = tuple(w0.tensorsig)
            w = dist.TensorField(ots, bases=b, name="w") if ots else dist.Field(bases=b, name="w")
            pr = d3.LBVP([w, y], namespace={"op": opf, "w": w, "y": y, "f": f})
            pr.add_equation("w - op(y) = 0")
            pr.add_equation("y = f")
            s = pr.build_solver()
            s.solve()
            want = w0.evaluate()
            if not np.allclose(w["g"], want["g"], rtol=0, atol=1e-9):
                return {**info, "case": label, "defect": "the matrix of the operation differs from its evaluation", "error": float(np.abs(w["g"] - want["g"]).max())}
        except Exception as e:
            return {**info, "case": label, "defect": repr(e)}


def matrix_cases(thorough):
    for kind in ("cart1", "cart2", "cart3", "cylinder", "cylinder2", "disk", "annulus", "circle", "sphere", "ball", "shell"):
        for dtype in (np.float64, np.complex128):
            for what in ("trace", "transpose", "skew", "comp", "radial", "angular", "azimuthal"):
                for rank in (1, 2, 3) if thorough else (1, 2):
                    if kind in ("ball", "cylinder", "cylinder2", "cart3") and rank == 3:
                        continue
                    if (kind, what) == ("circle", "angular") and rank > 1:
                        continue          # the matrix form exists for vectors only (higher ranks fail loudly)
                    yield kind, dtype, what, rank


def run(chk):
    from dedalus import public as d3
    from dedalus.core import operators as op, arithmetic as ar, basis as ba
    chk.assume("tensor rank at most 4 in the contracts (every index and entry); spatial axes are carried along by numpy broadcasting")
    chk.trust("einsum and numexpr evaluation on exact values restate the libraries' documented meaning")

    def api(chk):
        chk.bounded("tensor operations through the public interface", "10 domains, real and complex, ranks 1 to 3, every index and sign, from every layout", api_cases(chk.thorough), lambda c: check_api(d3, c), key="api", budget=300)

    def mats(chk):
        chk.bounded("tensor operations as matrices of linear problems", "11 domains, real and complex, ranks 1 and 2", matrix_cases(chk.thorough), lambda c: check_matrix(d3, c), key="matrices", budget=300)
    def mixed(chk):
        chk.bounded("dot products of tensors over several coordinate systems", "cylinder and sphere, ranks 1 and 2, every pair of matching indices", mixed_cases(chk.thorough), lambda c: check_mixed(d3, c), key="mixed", budget=200)
    chk.parallel([lambda chk: contracts(chk, op, ar, ba), api, mats, mixed])
