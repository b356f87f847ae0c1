"""D03: global data operations do not depend on the process mesh.

Contracts (real functions on symbolic inputs)
  chunked_rng:   after any number of chunks, the next yield is (k+1, draws [(k+1)c, (k+2)c)) of one stream
                 (the suspended generator's state is replaced by an arbitrary reachable one; one inductive step).
  rng_elements:  for arrays of nonnegative indices of any size and any chunk size >= 1, element i of the result
                 is stream[indices[i]]; the loop over chunks is cut with the invariant "every element whose
                 chunk is <= k holds its stream value, and k < last chunk needed"; termination by last - k.
  rng_element:   returns stream[index].
  IndexArray:    element (j0, j1, ...) of the array for slices start..stop is the row-major flat index of
                 (start0+j0, ...), for every shape, contiguous slices, ranks 1-5.
  Field.fill_random: the array drawn has the global shape (tensor, grid[, 2]) and each local element receives the
                 draw with its own global index, in the layout and scales requested.
Bounded: the real operations on simulated meshes, floating point of load scales, numpy streams, real MPI runs."""

import itertools
import math
import sys
import types

import numpy as np
import z3

from vf import sym, npf, fake, mpi
from vf.sym import Int, to_int, Unsupported, ctx
from props import d01

SID = z3.Function("stream", z3.IntSort(), z3.IntSort())


class Cut(Exception):
    """End of a path at a loop cut point."""


def takes(f):
    f.takes_none = True
    return f


# ------------------------------------------------------------------------------------------ arrays by generic element

class GArr:
    """Array of unknown shape seen at a generic position g and at the position w of its largest element."""
    __array_ufunc__ = None
    _vf_symbolic = True

    def __init__(self, g, w, size, top=None, tag=None):
        self.g, self.w, self.size, self.top, self.tag = g, w, size, top, tag
        self.shape = ("shape", tag)
        self.dtype = "dtype"

    def max(self):
        if self.top is None:
            raise Unsupported("max of a derived array")
        return self.top

    def copy(self):
        return self

    def _cmp(self, o, f):
        if isinstance(o, (int, sym.SymInt)):
            return Mask(f(to_int(self.g), to_int(o)), f(to_int(self.w), to_int(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)
    __hash__ = object.__hash__

    def _div(self, c):
        cc = ctx()
        out = []
        for x in (self.g, self.w):
            d, m = z3.Int(cc.fresh("div")), z3.Int(cc.fresh("mod"))
            x, c_ = to_int(x), to_int(c)
            cc.assume(z3.And(x == c_ * d + m, 0 <= m, m < c_))
            out.append((sym.wrap(d), sym.wrap(m)))
        (dg, mg), (dw, mw) = out
        # elementwise order is preserved by division by a positive number
        cc.assume(to_int(dg) <= to_int(dw))
        return GArr(dg, dw, self.size, top=dw, tag=self.tag), GArr(mg, mw, self.size, tag=self.tag)

    def __floordiv__(self, c):
        return self._div(c)[0]

    def __mod__(self, c):
        return self._div(c)[1]

    def __getitem__(self, k):
        if isinstance(k, Mask):
            return Sel(self, k)
        raise Unsupported("indexing by something else than a mask")


class Mask:
    __array_ufunc__ = None
    _vf_symbolic = True

    def __init__(self, g, w):
        self.g, self.w = g, w

    def any(self):
        b = z3.Bool(ctx().fresh("any"))
        ctx().assume(z3.Implies(z3.Or(self.g, self.w), b))
        return sym.wrap(b) if False else sym.SymBool(b)


class Sel:
    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


class Values:
    """The output array; only the generic element is tracked."""
    _vf_symbolic = True

    def __init__(self, tag, g):
        self.tag, self.g = tag, g
        self.shape = ("shape", tag)

    def __setitem__(self, k, v):
        if not (isinstance(k, Mask) and isinstance(v, Sel) and v.mask is k):
            raise Unsupported("assignment to the output other than by one mask")
        self.g = z3.If(k.g, v.arr, self.g)


class Data:
    """Chunk k of the stream: element m is stream[k*c + m], 0 <= m < c."""
    dtype = "dtype"
    _vf_symbolic = True

    def __init__(self, start, c):
        self.start, self.c = start, c

    def __getitem__(self, k):
        cc = ctx()
        if isinstance(k, Sel):
            m = to_int(k.arr.g)
            cc.require("index within the chunk", z3.Implies(k.mask.g, z3.And(0 <= m, m < to_int(self.c))))
            mw = to_int(k.arr.w)
            cc.require("index within the chunk", z3.Implies(k.mask.w, z3.And(0 <= mw, mw < to_int(self.c))))
            return Sel(SID(to_int(self.start) + m), k.mask)
        if isinstance(k, (int, sym.SymInt)):
            cc.require("index within the chunk", z3.And(0 <= to_int(k), to_int(k) < to_int(self.c)))
            return SID(to_int(self.start) + to_int(k))
        raise Unsupported("chunk indexed by something else than the selected elements")


class GSet:
    def __init__(self, a):
        self.a = a

    def __contains__(self, k):
        b = z3.Bool(ctx().fresh("in"))
        ctx().assume(z3.Implies(z3.Or(to_int(self.a.g) == to_int(k), to_int(self.a.w) == to_int(k)), b))
        return bool(sym.SymBool(b))


class StreamLoop:
    """Stands for chunked_rng(seed, c, ...) under its own contract, and cuts the caller's loop.

    First next(): chunk 0. Second next(): the loop invariant is an obligation; then the state is replaced by
    an arbitrary one satisfying it for an arbitrary k, and chunk k+1 is produced. Third: invariant again; cut."""

    def __init__(self, c, last, values_inv):
        self.c, self.last, self.values_inv = c, last, values_inv
        self.n = 0

    def __iter__(self):
        return self

    def state(self, frame):
        return dict(frame.f_locals)

    def __next__(self):
        cc = ctx()
        frame = sys._getframe(1)
        self.n += 1
        if self.n == 1:
            self.before = self.state(frame)
            return 0, Data(0, self.c)
        k = 0 if self.n == 2 else self.k + 1
        loc = self.state(frame)
        vals = [v for v in loc.values() if isinstance(v, Values)]
        for name, v in loc.items():
            if name not in self.before or self.before[name] is not v:
                if isinstance(v, (Values, Mask, Data, Sel, GArr)) or (isinstance(v, int) and v == 0 and self.n == 2) \
                        or (self.n == 3 and sym.is_sym(v) and v is self.yielded):
                    continue
                raise Unsupported(f"the loop carries a further variable ({name})")
        # variant: the chunk needed last has not been passed
        cc.require("the loop ends: the chunk is before the last one needed", to_int(k) < to_int(self.last()))
        for v in vals:
            cc.require("loop invariant", self.values_inv(v, k))
        if self.n == 3:
            raise Cut()
        self.k = Int(cc.fresh("k"))
        cc.assume(z3.And(self.k.t >= 0, self.k.t < to_int(self.last())))
        for v in vals:
            v.g = z3.Int(cc.fresh("value"))
            cc.assume(self.values_inv(v, self.k))
        self.yielded = self.k + 1
        return self.yielded, Data(self.yielded * self.c, self.c)


def rng_contract(chk, ra):
    func = "random_arrays.rng_elements"

    def elements():
        x, M, c0, size = Int("x"), Int("M"), Int("c0"), Int("size")
        pre = [x.t >= 0, x.t <= M.t, c0.t >= 1, size.t >= 0, z3.Implies(size.t == 0, z3.And(x.t == 0, M.t == 0))]
        chk.sat_check("rng_elements precondition", pre)

        def run():
            made = {}
            I = GArr(x, M, size, top=M, tag="I")

            class RNP(npf.NP):
                def array(self, a, *r, **k):
                    return a if isinstance(a, GArr) else super().array(a, *r, **k)
                asarray = array

                def divmod(self, a, b):
                    return a._div(b)

                def unique(self, a):
                    return GSet(a)

                def zeros(self, shape, *a, **k):
                    if isinstance(shape, tuple) and shape[:1] == ("shape",):
                        return Values(shape[1], z3.IntVal(-1))
                    return super().zeros(shape, *a, **k)
                empty = zeros

            def rng(seed, c, distribution, **kw):
                made["kw"] = (seed, distribution, kw)
                cc = ctx()
                cc.require("chunk size is positive", to_int(c) >= 1)
                # the last chunk needed and the chunk of the generic element, from the specification
                dM, mM, dx, mx = (z3.Int(cc.fresh(n)) for n in ("dM", "mM", "dx", "mx"))
                c_ = to_int(c)
                cc.assume(z3.And(M.t == c_ * dM + mM, 0 <= mM, mM < c_, x.t == c_ * dx + mx, 0 <= mx, mx < c_))
                return StreamLoop(c, lambda: sym.wrap(dM), lambda v, k: z3.Implies(dx <= to_int(k), v.g == SID(x.t)))
            # empty index arrays only use the data type of an element of the same stream
            one = lambda index, *a, **k: types.SimpleNamespace(dtype="dtype")
            extra = {"chunked_rng": rng, "rng_element": one, "set": lambda a=(): a if isinstance(a, GSet) else GSet(a) if isinstance(a, GArr) else set(a),
                     "max": lambda *a, **k: a[0].a.top if isinstance(a[0], GSet) else sym.facade_max(*a, **k)}
            with npf.facade(ra, np=RNP(), extra=extra):
                out = ra.rng_elements(I, "SEED", c0, "DIST", a=1)
            return out, made

        paths = sym.explore(run, pre, allow=(Cut,))
        chk.paths += len(paths)
        n = 0
        want = ("SEED", "DIST", {"a": 1})
        rep = takes(lambda m=None: stream_problem(ra))
        for j, p in enumerate(paths):
            for nm, pc, goal in p.ctx.side:
                chk.obl(f"rng_elements: {nm} (path {j})", func, nl(pc, c0), goal, replay=rep, observable=False)
            if p.exc is not None:
                if not isinstance(p.exc, Cut):
                    chk.obl(f"rng_elements: no exception ({type(p.exc).__name__})", func, p.pc, False, replay=rep, observable=False)
                continue
            out, made = p.result
            n += 1
            chk.ground(f"rng_elements: output shape and generator arguments (path {j})", func,
                       isinstance(out, Values) and out.tag == "I" and made.get("kw", want) == want, str(made), replay=rep, observable=False)
            if isinstance(out, Values):
                chk.obl(f"rng_elements: element i is stream[indices[i]] (path {j})", func, p.pc + [size.t > 0], out.g == SID(x.t), replay=rep, observable=False)
        if not n:
            raise Unsupported("no path of rng_elements returns")

    chk.contract("rng_elements", func, elements)

    def element():
        x, c0 = Int("x"), Int("c0")
        pre = [x.t >= 0, c0.t >= 1]

        def run():
            def rng(seed, c, distribution, **kw):
                cc = ctx()
                cc.require("chunk size is positive", to_int(c) >= 1)
                dx, mx = z3.Int(cc.fresh("dx")), z3.Int(cc.fresh("mx"))
                c_ = to_int(c)
                cc.assume(z3.And(x.t == c_ * dx + mx, 0 <= mx, mx < c_))
                return StreamLoop(c, lambda: sym.wrap(dx), lambda v, k: True)
            with npf.facade(ra, extra={"chunked_rng": rng, "divmod": lambda a, b: (lambda q: (q, a - b * q))(npf.named_floordiv(a, b))}):
                return ra.rng_element(x, "SEED", c0, "DIST", a=1)
        paths = sym.explore(run, pre, allow=(Cut,))
        rep = takes(lambda m=None: stream_problem(ra))
        f = "random_arrays.rng_element"
        for j, p in enumerate(paths):
            for nm, pc, goal in p.ctx.side:
                chk.obl(f"rng_element: {nm} (path {j})", f, pc, goal, replay=rep, observable=False)
            if p.exc is None:
                chk.obl(f"rng_element: returns stream[index] (path {j})", f, p.pc, p.result == SID(x.t), replay=rep, observable=False)
            elif not isinstance(p.exc, Cut):
                chk.obl(f"rng_element: no exception ({type(p.exc).__name__})", f, p.pc, False, replay=rep, observable=False)
    chk.contract("rng_element", "random_arrays.rng_element", element)

    def chunks():
        c = Int("c")
        f = "random_arrays.chunked_rng"

        def run():
            class Gen:
                pos = 0
                calls = []

                def dist(self, size=None, **kw):
                    d = (self.pos, size, kw)
                    self.pos = self.pos + size
                    return d
            g = Gen()
            with npf.facade(ra, extra={"default_rng": lambda seed: g if seed == "SEED" else None}):
                it = ra.chunked_rng("SEED", c, "dist", a=3)
                k0, d0 = next(it)
                loc0 = dict(it.gi_frame.f_locals)
                k1, d1 = next(it)
                loc1 = dict(it.gi_frame.f_locals)
                # havoc: every integer local that counts the chunks
                count = [n for n in loc1 if isinstance(loc1[n], int) and not isinstance(loc1[n], bool) and loc1[n] != loc0.get(n)]
                if len(count) != 1 or loc1[count[0]] != 1 or any(n not in loc0 or loc0[n] is not loc1[n] for n in loc1 if n not in count and not isinstance(loc1[n], tuple)):
                    raise Unsupported("generator state other than one chunk counter")
                import ctypes
                k = Int("k")
                fl = it.gi_frame.f_locals
                fl[count[0]] = k
                if hasattr(ctypes.pythonapi, "PyFrame_LocalsToFast") and sys.version_info < (3, 13):
                    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(it.gi_frame), ctypes.c_int(0))
                if it.gi_frame.f_locals[count[0]] is not k:
                    raise Unsupported("cannot set the state of the suspended generator")
                g.pos = k * c + c
                k2, d2 = next(it)
                return (k0, d0), (k1, d1), k, (k2, d2), g.pos
        for j, p in enumerate(sym.explore(run, [c.t >= 1, z3.Int("k") >= 0])):
            if p.exc is not None:
                raise Unsupported(f"{type(p.exc).__name__}: {p.exc}")
            (k0, d0), (k1, d1), k, (k2, d2), pos = p.result
            rep = takes(lambda m=None: stream_problem(ra))
            for nm, kk, d, want in (("first", k0, d0, 0), ("second", k1, d1, 1), ("step", k2, d2, k + 1)):
                chk.obl(f"chunked_rng: {nm} chunk index and draws", f, p.pc,
                        z3.And(to_int(kk) == to_int(want), to_int(d[0]) == to_int(want) * c.t, to_int(d[1]) == c.t, z3.BoolVal(d[2] == {"a": 3})),
                        replay=rep, observable=False)
            chk.obl("chunked_rng: stream position after the step", f, p.pc, to_int(pos) == (k.t + 2) * c.t, replay=rep, observable=False)
    chk.contract("chunked_rng", "random_arrays.chunked_rng", chunks)


def nl(pc, c):
    return pc


def stream_problem(ra):
    """Real code: elements of the stream for index arrays and chunk sizes against one long draw."""
    for dist, kw in (("standard_normal", {}), ("uniform", {}), ("normal", {"loc": 1, "scale": 2})):
        for seed in (0, 7):
            ref = getattr(np.random.default_rng(seed), dist)(size=400, **kw)
            for c in (1, 2, 3, 7, 10, 100, 2**20):
                for idx in ([0], [5], [399], [0, 1, 2], [9, 3, 3, 0], np.arange(100, 120), np.arange(24).reshape(2, 3, 4) + 30,
                            [21, 0, 39], [6, 7, 8], np.zeros((2, 0), int), [398, 12]):
                    got = ra.rng_elements(idx, seed, c, dist, **kw)
                    want = ref[np.array(idx, dtype=int)]
                    if got.shape != want.shape or not np.array_equal(got, want):
                        return {"indices": np.array(idx).tolist(), "seed": seed, "chunk_size": c, "distribution": dist, "got": got, "stream": want}
                for i in (0, 1, 6, 13, 99):
                    if ra.rng_element(i, seed, c, dist, **kw) != ref[i]:
                        return {"index": i, "seed": seed, "chunk_size": c, "distribution": dist}
                gen = ra.chunked_rng(seed, min(c, 50), dist, **kw)
                for k in range(3):
                    kk, d = next(gen)
                    cc = min(c, 50)
                    if kk != k or not np.array_equal(d, ref[k * cc:(k + 1) * cc]):
                        return {"chunk": k, "yielded": kk, "chunk_size": cc}
    return None


def index_problem(ra):
    for shape in ((7,), (3, 4), (2, 3, 5), (2, 1, 3, 2), (3, 3, 2, 2, 2)):
        full = np.arange(math.prod(shape)).reshape(shape)
        ia = ra.IndexArray(shape)
        for lo, hi in ((0, 1), (0, 2), (1, 2), (1, 1), (0, 0), (0, 100)):
            for key in ([slice(lo, min(hi, s)) if hi != 100 else slice(None) for s in shape], [slice(None)] + [slice(lo, hi)] * (len(shape) - 1),
                        [slice(lo, hi)]):
                key = tuple(key)
                got = ia[key]
                if got.shape != full[key].shape or not np.array_equal(got, full[key]):
                    return {"shape": shape, "key": str(key), "got": got}
        f = ra.IndexArray(shape, order="F")[tuple(slice(None) for _ in shape)]
        if not np.array_equal(f, np.arange(math.prod(shape)).reshape(shape, order="F")):
            return {"shape": shape, "order": "F", "got": f}
    return None


class SSlice:
    """A slice with symbolic bounds inside the axis."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def indices(self, n):
        ctx().require("slice within the axis", z3.And(0 <= to_int(self.a), to_int(self.b) <= to_int(n)))
        return (self.a, self.b, 1)


def index_contract(chk, ra):
    func = "random_arrays.IndexArray.__getitem__"

    def body():
        for D in range(1, 6):
            for trailing in ((0, 1) if D > 1 else (0,)):
                n = [Int(f"n{d}") for d in range(D)]
                a = [Int(f"a{d}") for d in range(D)]
                b = [Int(f"b{d}") for d in range(D)]
                j = [Int(f"j{d}") for d in range(D)]
                pre = []
                for d in range(D):
                    pre += [0 <= a[d].t, a[d].t <= b[d].t, b[d].t <= n[d].t, 0 <= j[d].t, j[d].t < b[d].t - a[d].t]

                def run():
                    class MG:
                        def __getitem__(self, key):
                            return ("mgrid", key)

                    class INP(npf.NP):
                        mgrid = MG()

                        def ravel_multi_index(self, mi, dims, mode="raise", order="C"):
                            if not (isinstance(mi, tuple) and mi[0] == "mgrid") or mode != "raise":
                                raise Unsupported("ravel_multi_index of something else")
                            key = mi[1]
                            if not isinstance(key, tuple) or len(key) != len(dims):
                                raise Unsupported("one index array per axis")
                            pos = 0
                            items = list(zip(key, dims, j))
                            for k, s, jj in (items if order == "C" else reversed(items)):
                                if not (k.step is None or k.step == 1):
                                    raise Unsupported("step")
                                pos = pos * s + (k.start + jj)
                            return pos, tuple(k.stop - k.start for k in key)

                    full = lambda d: type("Full", (), {"indices": lambda self, m: (0, m, 1)})()
                    key = tuple(SSlice(a[d], b[d]) for d in range(D - trailing))
                    if D == 1:
                        key = key[0]
                    with npf.facade(ra, np=INP()):
                        return ra.IndexArray(tuple(n))[key]
                # trailing slices are completed by slice(None), whose indices() need a concrete length
                if trailing:
                    continue
                for p in sym.explore(run, pre):
                    if p.exc is not None:
                        raise Unsupported(f"{type(p.exc).__name__}: {p.exc}")
                    pos, shape = p.result
                    want = 0
                    for d in range(D):
                        want = want * n[d] + (a[d] + j[d])
                    rep = takes(lambda m=None: index_problem(ra))
                    for nm, pc, goal in p.ctx.side:
                        chk.obl(f"IndexArray rank {D}: {nm}", func, pc, goal, replay=rep, observable=False)
                    chk.obl(f"IndexArray rank {D}: element is its row-major flat index", func, p.pc, to_int(pos) == to_int(want), replay=rep, observable=False)
                    chk.obl(f"IndexArray rank {D}: shape", func, p.pc, z3.And(*[to_int(s) == b[d].t - a[d].t for d, s in enumerate(shape)]), replay=rep, observable=False)
    chk.contract("IndexArray", func, body)


# ------------------------------------------------------------------------------------------ fill_random

def fill_contract(chk, fm):
    func = "field.Field.fill_random"

    def body():
        for rank, D, cplx, layout, scales in itertools.product((0, 1, 2), (1, 2, 3), (False, True), (None, "c", "g"), (None, 2)):
            n = [Int(f"n{d}") for d in range(D)]
            dims = [2, 3][:rank]
            log = []

            class Rec:
                def __init__(self, shape, seed, chunk, dist, **kw):
                    log.append(("array", shape, seed, chunk, dist, kw))
                    self.shape = shape

                def __getitem__(self, key):
                    return Part(self, key)

            class Part:
                def __init__(self, arr, key, last=None):
                    self.arr, self.key, self.last = arr, key, last

                def __getitem__(self, k):
                    if isinstance(k, tuple) and len(k) == 2 and k[0] is Ellipsis and self.last is None:
                        return Part(self.arr, self.key, k[1])
                    raise Unsupported("local data indexed otherwise")

            class Out:
                def __init__(self, name):
                    self.name = name
                    if name == "data":
                        self.real, self.imag = Out("real"), Out("imag")

                def __setitem__(self, k, v):
                    if k != slice(None) and k is not Ellipsis:
                        raise Unsupported("partial assignment")
                    log.append(("set", self.name, state["layout"], state["scales"], v))
            state = {"layout": "L0", "scales": "S0"}

            class Lay:
                def __init__(self, name):
                    self.name = name

                def slices(self, domain, sc):
                    return tuple(("slice", self.name, sc, d) for d in range(D))

                def global_shape(self, domain, sc):
                    return tuple(n)

            class Self:
                tensorsig = tuple(types.SimpleNamespace(dim=k) for k in dims)
                domain = "domain"
                is_complex, is_real = cplx, not cplx
                dtype = np.complex128 if cplx else np.float64

                @property
                def layout(self):
                    return Lay(state["layout"])

                @property
                def scales(self):
                    return state["scales"]

                @property
                def global_shape(self):
                    return tuple(n)

                @property
                def data(self):
                    return Out("data")

                def preset_scales(self, s):
                    state["scales"] = ("scales", s)

                def preset_layout(self, l):
                    state["layout"] = l.name if isinstance(l, Lay) else ("layout", l)

            def run():
                log.clear()
                state.update(layout="L0", scales="S0")
                with npf.facade(fm, extra={"ChunkedRandomArray": Rec}):
                    fm.Field.fill_random(Self(), layout=layout, scales=scales, seed=5, chunk_size=9, distribution="uniform", low=1)
                return list(log)
            L = "L0" if layout is None else ("layout", layout)
            S = "S0" if scales is None else ("scales", scales)
            for p in sym.explore(run, [x.t >= 0 for x in n]):
                if p.exc is not None:
                    raise Unsupported(f"{type(p.exc).__name__}: {p.exc}")
                log_ = p.result
                arrs = [e for e in log_ if e[0] == "array"]
                sets = [e for e in log_ if e[0] == "set"]
                tag = f"fill_random rank {rank} dim {D} {'complex' if cplx else 'real'} layout={layout} scales={scales}"
                ok = len(arrs) == 1
                if ok:
                    _, shape, seed, chunk, dist, kw = arrs[0]
                    ok = seed == 5 and dist == "uniform" and kw == {"low": 1} and len(shape) == rank + D + cplx \
                        and list(shape[:rank]) == dims and (not cplx or shape[-1] == 2)
                rep = takes(lambda m=None: fill_problem())
                chk.ground(f"{tag}: one array of the global shape", func, ok, str(log_)[:300], replay=rep, observable=False)
                if not ok:
                    continue
                chk.obl(f"{tag}: global shape", func, p.pc, z3.And(*[to_int(s) == n[d].t for d, s in enumerate(shape[rank:rank + D])]), replay=rep, observable=False)
                key = tuple(slice(None) for _ in dims) + tuple(("slice", L, S, d) for d in range(D))
                want = {"data": None} if not cplx else {"real": 0, "imag": 1}
                good = {e[1] for e in sets} == set(want) and all(
                    isinstance(e[4], Part) and tuple(e[4].key) == key and e[4].last == want[e[1]] and e[2] == L and e[3] == S for e in sets)
                chk.ground(f"{tag}: every local element gets the draw of its global index", func, good, str([(e[1:4], getattr(e[4], 'key', None)) for e in sets])[:400],
                           replay=rep, observable=False)
    chk.contract("fill_random", func, body)


def fill_problem():
    for label, dim, make in d01.real_cases(False)[1:8:2]:
        for mesh in fake.meshes(dim, (1, 2, 3)):
            bad = run_fill((label, make, mesh, None, None)) or run_fill((label, make, mesh, "c", 1)) or run_fill((label, make, mesh, "g", 1.5))
            if bad:
                return bad
    return None


# ------------------------------------------------------------------------------------------ real fields on simulated meshes

class TalkComm(fake.FakeComm):
    """Stand-in communicator whose collectives are answered from pieces recorded on all ranks (two passes)."""

    def __init__(self, size, rank, board):
        super().__init__(size, rank)
        self.board = board

    def gather(self, obj, root=0):
        self.board.setdefault("gather", {})[self.rank] = np.array(obj)
        if len(self.board["gather"]) == self.size and self.rank == root:
            return [self.board["gather"][r].copy() for r in range(self.size)]
        return None if self.rank != root else [np.zeros(np.shape(obj))] * self.size

    def Allreduce(self, send, recv, op=None):
        from mpi4py import MPI
        self.board.setdefault("all", {})[self.rank] = np.array(send)
        if op != MPI.SUM:
            raise RuntimeError("only sums are expected")
        recv[...] = sum(self.board["all"].values())

    def allreduce(self, x, op=None):
        from mpi4py import MPI
        self.board.setdefault("red", {})[self.rank] = x
        v = list(self.board["red"].values())
        return max(v) if op == MPI.MAX else sum(v)


def tensorsigs(dist, bases):
    cs = dist.coordsystems
    out = [()]
    if len(cs) == 1:
        out += [(cs[0],), (cs[0], cs[0])]
    return out


def fields(make, mesh, ts):
    size = math.prod(mesh)
    board = {}
    out = []
    for r in range(size):
        dist, bases = make(TalkComm(size, r, board), mesh)
        sig = tensorsigs(dist, bases)
        if ts >= len(sig):
            return None, None
        out.append(dist.Field(bases=tuple(bases), tensorsig=sig[ts]))
    return out, board


def blocks(fs):
    """The global array that the local blocks of the fields make up."""
    f0 = fs[0]
    shape = tuple(c.dim for c in f0.tensorsig) + tuple(f0.layout.global_shape(f0.domain, f0.scales))
    out = np.full(shape, np.nan, dtype=f0.dtype)
    pre = [np.arange(c.dim) for c in f0.tensorsig]
    for f in fs:
        el = f.layout.local_elements(f.domain, f.scales)
        out[np.ix_(*pre, *el)] = f.data
    return out


def run_fill(case):
    label, make, mesh, layout, scales = case
    for ts in (0, 1, 2):
        fs, board = fields(make, mesh, ts)
        if fs is None:
            break
        ref, _ = fields(make, (1,), ts)
        for fl in (fs, ref):
            for f in fl:
                f.fill_random(layout, scales=scales, seed=42, chunk_size=97)
        shape = tuple(c.dim for c in fs[0].tensorsig) + fs[0].global_shape
        N = math.prod(shape)
        rng = np.random.default_rng(42)
        want = rng.standard_normal(N).reshape(shape) if fs[0].is_real else (lambda z: z[..., 0] + 1j * z[..., 1])(rng.standard_normal(2 * N).reshape(shape + (2,)))
        if any(f.layout is not (f.dist.get_layout_object(layout or "c")) for f in fs + ref):
            return {"bases": label, "mesh": mesh, "layout": layout, "violates": "layout requested"}
        for g in (blocks(fs), ref[0].data):
            if g.shape != want.shape or not np.array_equal(g, want):
                return {"bases": label, "mesh": mesh, "layout": layout, "scales": scales, "rank of tensor": ts,
                        "violates": "value depends on the global index and the seed only", "differs at": np.argwhere(g != want)[:3].tolist() if g.shape == want.shape else g.shape}
        # the same values for another chunk size
        for f in fs:
            f.fill_random(layout, scales=scales, seed=42)
        if not np.array_equal(blocks(fs), want):
            return {"bases": label, "mesh": mesh, "layout": layout, "violates": "chunk size does not matter"}
    return None


def run_gather(case):
    label, make, mesh, layout, scales, root = case
    for ts in (0, 1, 2):
        fs, board = fields(make, mesh, ts)
        if fs is None:
            break
        for f in fs:
            f.preset_scales(scales)
            f.preset_layout(f.dist.layouts[min(layout, len(f.dist.layouts) - 1)])
            f.fill_random(seed=ts)
        # preset values with all kinds of finite numbers are kept exactly
        want = blocks(fs)
        info = {"bases": label, "mesh": mesh, "layout": layout, "scales": scales, "rank of tensor": ts}
        if fs[0].dist.comm.size > 1:
            for f in fs:
                f.gather_data(root=root)
        for r, f in enumerate(fs):
            before = f.data.copy()
            got = f.gather_data(root=root)
            if (got is None) != (r != root and len(fs) > 1):
                return {**info, "violates": "only the root process gets the array", "rank": r}
            if got is not None and (got.shape != want.shape or not np.array_equal(got, want)):
                return {**info, "violates": "gathered array", "root": root, "shape": got.shape, "expected shape": want.shape}
            if got is not None:
                got += 1
            if not np.array_equal(before, f.data):
                return {**info, "violates": "the gathered array is a copy"}
        for f in fs:
            f.allgather_data()
        for f in fs:
            got = f.allgather_data()
            if got.shape != want.shape or not np.array_equal(got, want):
                return {**info, "violates": "allgathered array", "shape": got.shape}
        # norms
        for order in (1, 2, np.inf):
            for f in fs:
                f.allreduce_data_norm(order=order)
            for f in fs:
                got = f.allreduce_data_norm(order=order)
                w = np.abs(want).max() if order == np.inf else (np.abs(want)**order).sum()**(1 / order)
                if abs(got - w) > 1e-12 * abs(w):
                    return {**info, "violates": f"data norm of order {order}", "got": got, "expected": w}
            board.pop("red", None)
        # set from a global array
        new = np.random.default_rng(3).standard_normal(want.shape) + (0 if fs[0].is_real else 1j)
        for f in fs:
            f.set_global_data(new)
        if not np.array_equal(blocks(fs), new):
            return {**info, "violates": "set_global_data takes the local part of the global array"}
        if not any(fs[0].layout.grid_space):
            for f in fs:
                f.preset_scales(1)
                f.load_from_global_coeff_data(np.stack([new * 0, 2 * new]) if scales == 1 else np.stack([0 * blocks(fs), 2 + 0 * blocks(fs).real]), pre_slices=(1,), func=lambda x: x / 2)
            w = new if scales == 1 else None
            if w is not None and not np.array_equal(blocks(fs), w):
                return {**info, "violates": "load_from_global_coeff_data takes the local part of the global array"}
    return None


def run_load(case):
    """Grid data at the dealias scales (no transform afterwards): the local part, for every mesh."""
    label, make, mesh = case
    for ts in (0, 1, 2):
        fs, board = fields(make, mesh, ts)
        if fs is None:
            break
        f0 = fs[0]
        deal = f0.domain.dealias
        lay = f0.dist.grid_layout
        gs = tuple(c.dim for c in f0.tensorsig) + tuple(lay.global_shape(f0.domain, deal))
        one = lay.global_shape(f0.domain, 1)
        if any(a / b != s and b > 1 for a, b, s in zip(gs[len(f0.tensorsig):], one, deal)):
            continue   # the scales recovered from the data are not the dealias scales: a transform follows
        if any(b == 1 and s != 1 for b, s in zip(one, deal)):
            continue
        new = np.random.default_rng(3).standard_normal((2,) + gs)
        for f in fs:
            f.load_from_global_grid_data(new, pre_slices=(1,))
        if not np.array_equal(blocks(fs), new[1].astype(f0.dtype)):
            return {"bases": label, "mesh": mesh, "rank of tensor": ts, "violates": "load_from_global_grid_data takes the local part of the global array"}
    return None


class Scaled(Exception):
    pass


def run_scales(case):
    """The scales chosen for grid data of m points give back exactly m points, for every m and n."""
    import dedalus.core.field as fm
    from dedalus.core.basis import Basis
    n = case

    def stop(s):
        raise Scaled(s)
    for m in range(1, 4 * n + 3):
        for dims in ((m,), (m, 5, 2 * m)):
            ns = (n, 5, n)[:len(dims)]
            lay = types.SimpleNamespace(global_shape=lambda domain, scales, ns=ns: tuple(ns))
            me = types.SimpleNamespace(dist=types.SimpleNamespace(dim=len(dims), grid_layout=lay), preset_scales=stop, domain=None, tensorsig=())
            try:
                fm.Field.load_from_global_grid_data(me, np.broadcast_to(0.0, dims))
            except Scaled as e:
                s = e.args[0]
            got = Basis.grid_shape(types.SimpleNamespace(shape=ns), s)
            want = tuple(1 if k == 1 else d for d, k in zip(dims, ns))
            if tuple(got) != want:
                return {"data points": dims, "modes": ns, "scales": np.array(s).tolist(), "grid points at these scales": tuple(map(int, got))}
    return None


def run_serial_load(case):
    """Loading any grid size on real bases and returning to coefficients is the transform of the data."""
    import dedalus.public as d3
    kind, n, m = case
    cs = d3.CartesianCoordinates("x")
    dist = d3.Distributor(cs, dtype=np.float64)
    b = {"C": d3.ChebyshevT, "L": d3.Legendre, "R": d3.RealFourier}[kind](cs["x"], n, (0, 1), dealias=1.5)
    f, g = dist.Field(bases=b), dist.Field(bases=b)
    data = np.random.default_rng(m).standard_normal(m)
    f.load_from_global_grid_data(data)
    g.preset_scales(((m - 0.5) / n,))
    g["g"] = data
    if tuple(f.scales) != tuple(f.domain.dealias):
        return {"basis": kind, "modes": n, "points": m, "violates": "returns to the dealias scales", "scales": f.scales}
    if not np.allclose(f["c"], g["c"], atol=1e-12):
        return {"basis": kind, "modes": n, "points": m, "got": f["c"], "expected": g["c"]}
    return None


def run_streams(case):
    """numpy generators: draws of any size come from one sequence (used by every process with its own chunk size)."""
    name, kw = case
    N = 240
    ref = getattr(np.random.default_rng(11), name)(size=N, **kw)
    for c in (1, 2, 3, 7, 40, 120):
        rng = np.random.default_rng(11)
        got = np.concatenate([getattr(rng, name)(size=min(c, N - i), **kw) for i in range(0, N, c)])
        if not np.array_equal(got, ref):
            return {"distribution": name, "chunk": c, "violates": "the assumption on numpy generators"}
    return None


MPI_SCRIPT = r'''
import sys, json, numpy as np
from mpi4py import MPI
import dedalus.public as d3
import logging; logging.disable(logging.CRITICAL)
comm = MPI.COMM_WORLD
out = {}
def build(kind, mesh, comm):
    if kind == "cart":
        cs = d3.CartesianCoordinates("x", "y", "z")
        dist = d3.Distributor(cs, dtype=np.float64, mesh=mesh, comm=comm)
        bs = (d3.RealFourier(cs["x"], 6, (0, 1), dealias=1.5), d3.RealFourier(cs["y"], 4, (0, 1), dealias=1.5), d3.ChebyshevT(cs["z"], 5, (0, 1), dealias=1.5))
    elif kind == "cart2":
        cs = d3.CartesianCoordinates("x", "z")
        dist = d3.Distributor(cs, dtype=np.complex128, mesh=mesh, comm=comm)
        bs = (d3.ComplexFourier(cs["x"], 3, (0, 1), dealias=1.5), d3.ChebyshevT(cs["z"], 7, (0, 1), dealias=1.5))
    elif kind == "disk":
        cs = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(cs, dtype=np.float64, mesh=mesh, comm=comm)
        bs = (d3.DiskBasis(cs, (8, 5), np.float64, dealias=1.5),)
    elif kind == "ball":
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(cs, dtype=np.float64, mesh=mesh, comm=comm)
        bs = (d3.BallBasis(cs, (8, 4, 5), np.float64, dealias=1.5),)
    return cs, dist, bs
def compute(kind, mesh, comm):
    cs, dist, bs = build(kind, mesh, comm)
    res = []
    for ts in ((), (cs,)):
        f = dist.Field(bases=bs, tensorsig=ts)
        f.fill_random("g", seed=5)
        res.append(f.allgather_data("c")); res.append(f.allgather_data("g"))
        for lay in range(len(dist.layouts)):
            f.change_layout(dist.layouts[lay])
            ag = f.allgather_data()
            gd = f.gather_data(root=comm.size - 1)
            if comm.rank == comm.size - 1 and not np.array_equal(ag, gd): res.append("gather differs")
        f.change_layout("g")
        res.append(f.allreduce_data_norm("c"))
        h = dist.Field(bases=bs, tensorsig=ts)
        data = f.allgather_data("g")
        h.load_from_global_grid_data(data); res.append(h.allgather_data("c"))
        h.load_from_global_coeff_data(f.allgather_data("c")); res.append(h.allgather_data("g"))
        f.change_scales(1)
        f.low_pass_filter(scales=0.5); res.append(f.allgather_data("c"))
        c = dist.Field(bases=bs[-1:] if len(bs) > 1 else None)
        c.fill_random("g", seed=9) if len(bs) > 1 else c.__setitem__("g", 3.0)
        p = (c * f).evaluate(); p.change_scales(1); res.append(p.allgather_data("g"))
        p = (f * c * c).evaluate(); p.change_scales(1); res.append(p.allgather_data("c"))
    return res
meshes = json.loads(sys.argv[1])
bad = None
for kind, mesh in meshes:
    ref = compute(kind, None, MPI.COMM_SELF)
    got = compute(kind, mesh, comm)
    for i, (a, b) in enumerate(zip(ref, got)):
        if "differs" in str(b) or np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-11, atol=1e-11):
            bad = bad or {"kind": kind, "mesh": mesh, "item": i, "rank": comm.rank}
bad = comm.allreduce([bad] if bad else [])
if comm.rank == 0:
    print("RESULT" + json.dumps(bad[0] if bad else None))
'''


def run_mpi(case):
    import json
    n, meshes = case
    rc, out, err = mpi.run(MPI_SCRIPT, n, (json.dumps(meshes),), timeout=110)
    for line in out.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
    return {"processes": n, "returncode": rc, "stderr": err[-1500:]}


def run_l2(case):
    """L2 norms are the root of the integral (mean) of the summed squared magnitudes of the components."""
    import dedalus.public as d3
    kind, dtype, rank, mean = case
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    if kind == "cart":
        cs = d3.CartesianCoordinates("x", "z")
        dist = d3.Distributor(cs, dtype=dtype)
        b = (F(cs["x"], 8, (0, 2)), d3.ChebyshevT(cs["z"], 8, (0, 3)))
    elif kind in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.DiskBasis(cs, (8, 8), dtype, radius=1.5) if kind == "disk" else d3.AnnulusBasis(cs, (8, 8), dtype, radii=(0.5, 1.5))
    else:
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.BallBasis(cs, (8, 4, 6), dtype) if kind == "ball" else d3.ShellBasis(cs, (8, 4, 6), dtype, radii=(1, 2))
    u = dist.TensorField((cs,) * rank, bases=b) if rank else dist.Field(bases=b)
    u.fill_random("g", seed=4)
    u.low_pass_filter(scales=0.5)
    q, one = dist.Field(bases=b), dist.Field(bases=b)
    for f in (u, q, one):
        f.change_scales(2)
    one["g"] = 1
    q["g"] = (np.abs(u["g"])**2).reshape((-1,) + one["g"].shape).sum(axis=0)
    w = d3.Integrate(q).evaluate()["g"].ravel()[0].real
    if mean:
        w = w / d3.Integrate(one).evaluate()["g"].ravel()[0].real
    before = u["c"].copy()
    u.change_scales(1)
    got = u.allreduce_L2_norm(normalize_volume=mean)
    if not abs(got - w**0.5) <= 1e-9 * w**0.5:
        return {"domain": kind, "rank": rank, "dtype": dtype.__name__, "mean": mean, "violates": "L2 norm", "got": got, "expected": w**0.5}
    if not np.allclose(u["c"], before, atol=1e-12):
        return {"domain": kind, "rank": rank, "violates": "norms leave the field as it was"}


def run(chk):
    from dedalus.tools import random_arrays as ra
    from dedalus.core import field as fm
    chk.assume("numpy generators return consecutive parts of one sequence whatever the sizes drawn (checked for 22 distributions, bounded; "
               "false for integers of 8 or 16 bits and for multi-element methods such as choice without replacement, which are excluded)")
    chk.trust("numpy mgrid, ravel_multi_index, divmod, unique and boolean mask assignment semantics, stated in props/d03.py")
    chk.trust("MPI gather and Allreduce")
    chk.assume("indices are nonnegative and below the size of the array; seeds are given (seed=None is not reproducible by definition)")
    rng_contract(chk, ra)
    index_contract(chk, ra)
    fill_contract(chk, fm)
    chk.bounded("stream elements", "3 distributions, 2 seeds, 7 chunk sizes, 11 index arrays", [0], lambda c: stream_problem(ra))
    chk.bounded("flat indices", "5 shapes, 6 ranges", [0], lambda c: index_problem(ra))
    dists = [("random", {}), ("uniform", {}), ("uniform", dict(low=-1, high=3)), ("standard_normal", {}), ("normal", dict(loc=1, scale=3)),
             ("standard_exponential", {}), ("exponential", {}), ("gamma", dict(shape=0.7)), ("gamma", dict(shape=3)), ("beta", dict(a=0.5, b=2)),
             ("standard_cauchy", {}), ("standard_t", dict(df=3)), ("laplace", {}), ("logistic", {}), ("lognormal", {}), ("rayleigh", {}),
             ("triangular", dict(left=-1, mode=0, right=2)), ("vonmises", dict(mu=0, kappa=1)), ("wald", dict(mean=1, scale=1)),
             ("integers", dict(low=0, high=10)), ("integers", dict(low=0, high=2**40)), ("poisson", dict(lam=4)), ("binomial", dict(n=10, p=0.3)),
             ("random", dict(dtype=np.float32)), ("standard_normal", dict(dtype=np.float32)), ("standard_gamma", dict(shape=2))]
    chk.bounded("numpy streams do not depend on draw sizes", "26 distributions, 6 chunk sizes", dists, run_streams)
    cases_ = d01.real_cases(chk.thorough)

    def fill_cases():
        for label, dim, make in cases_:
            for mesh in fake.meshes(dim, (1, 2, 3) if not chk.thorough else (1, 2, 3, 4)):
                if math.prod(mesh) > (6 if not chk.thorough else 16):
                    continue
                for layout, s in ((None, None), ("c", None), ("g", 1.5), (None, 0.5)) if chk.thorough or math.prod(mesh) in (1, 3, 6) else (("g", 1.5), ("c", 1)):
                    yield (label, make, mesh, layout, s)
    chk.bounded("seeded random fields on simulated meshes", "25 bases, meshes up to 6 (16 thorough) processes, scalar, vector, rank-2 tensor",
                fill_cases(), run_fill, budget=120 if not chk.thorough else 900)

    def gather_cases():
        for label, dim, make in cases_:
            for mesh in fake.meshes(dim, (1, 2, 3)):
                P = math.prod(mesh)
                if P > (6 if not chk.thorough else 9):
                    continue
                nl = 1 + dim + len(mesh) * (P > 1)
                for lay in range(nl):
                    yield (label, make, mesh, lay, 1.5 if lay % 2 else 1, (P - 1) * (lay % 2))
    chk.bounded("gather, allgather, norms, set and load on simulated meshes", "25 bases, meshes up to 6 (9 thorough) processes, every layout, scalar, vector, rank-2 tensor",
                gather_cases(), run_gather, budget=150 if not chk.thorough else 900)
    chk.bounded("load grid data on simulated meshes", "25 bases, meshes up to 6 processes", 
                [(l, mk, mesh) for l, dim, mk in cases_ for mesh in fake.meshes(dim, (1, 2, 3)) if math.prod(mesh) <= 6], run_load, budget=100)
    chk.bounded("scales recovered from data shapes", "modes up to 64 (400 thorough), points up to 4 times as many",
                range(1, 65 if not chk.thorough else 401), run_scales, budget=100 if not chk.thorough else 900)
    chk.bounded("load of any grid size", "three bases, listed sizes",
                [(k, n, m) for k in "CLR" for n, m in ((8, 8), (8, 12), (8, 5), (8, 3), (26, 7), (22, 25), (26, 27), (50, 39)) if not (k == "R" and n % 2)], run_serial_load)
    chk.bounded("L2 norms of tensors", "5 domains, ranks 0 to 2, volume normalisation on and off",
                [(k, dt, r, m) for k in ("cart", "disk", "annulus", "ball", "shell") for dt in (np.float64, np.complex128) for r in (0, 1, 2) for m in (False, True) if not (m and k in ("ball", "shell"))], run_l2)
    chk.bounded("real MPI processes", "Cartesian, disk and ball fields, meshes of 2 to 6 processes",
                [(2, [["cart", [1, 2]], ["cart", [2]], ["cart2", [2]], ["disk", [2]], ["ball", [1, 2]]]), (4, [["cart", [2, 2]], ["cart", [4]], ["cart2", [4]], ["disk", [4]], ["ball", [2, 2]]])]
                + ([(6, [["cart", [2, 3]], ["cart", [3, 2]], ["cart2", [6]], ["ball", [3, 2]]])] if chk.thorough else []), run_mpi)
