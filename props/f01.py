"""F01: a field's data follows its layout and scales without loss of kept modes.

Representation invariant of a field, with ghost state on its buffer (which layout, at which scales, the content was written
in; the content; every grid it has been evaluated on):
    Inv(f): f.data views f.buffer in f.layout at f.scales; the content of the buffer is in that layout, at those scales on
            the axes in grid space; the buffer holds the largest layout's data.
Contracts (real Field and LockedField methods, real Transform class, real layout chains of 1-3 dimensions on 0-2 dimensional
meshes; scales, local sizes and buffer sizes symbolic: any values), each run from an arbitrary state satisfying Inv and
required to re-establish it, which is the induction step for every sequence of calls:
    change_layout(l):   layout is l, scales and content unchanged; grids visited are only those between the two layouts
    change_scales(s):   scales are s, content unchanged, no grid visited
    f[l], f[l, s]:      both, returning the view;  f[l] = x, f[l, s] = x: content becomes x in layout l at scales s
    require_grid_space / require_coeff_space / require_local, copy, set_local_data, low_pass_filter, high_pass_filter, LockedField
    preset_scales / preset_layout: reinterpret without touching content
A visit to a grid truncates to the modes that grid resolves (contract of the transforms, X01; transposes by contract, D02):
so returning to coefficients gives the original ones truncated exactly by the grids the ghost state lists."""

import contextlib
import itertools
import types

import numpy as np
import z3

from vf import sym, fake, mpi
from vf.sym import Unsupported, ctx, to_int, to_real

FUNC = "core/field.py: "


def takes(f):
    f.takes_none = True
    return f


# --------------------------------------------------------------------------- ghost world

class Buf:
    def __init__(self, capacity, label):
        self.capacity, self.label = capacity, label      # capacity in units of one double
        self.ghost = None                                # (layout, scales, Content)


class Content:
    def __init__(self, name, visits=()):
        self.name, self.visits = name, tuple(visits)

    def visit(self, axis, scale):
        return Content(self.name, self.visits + ((axis, scale),))


class View:
    """What np.ndarray(buffer=...) returns: a window on a buffer."""
    def __init__(self, w, shape, buf, layout, scales):
        self.w, self.shape, self.buf, self.layout, self.scales = w, shape, buf, layout, scales

    @property
    def size(self):
        out = 1
        for s in self.shape:
            out = out * s
        return out

    def read(self):
        g = self.buf.ghost
        if g is None:
            raise Unsupported("read of a fresh buffer")
        return self.w.content_of(self)

    def copy(self):
        return Values(self.layout, self.scales, self.read(), self.shape)

    def __setitem__(self, key, val):
        if key not in (slice(None), Ellipsis):
            raise Unsupported("partial assignment of field data")
        self.w.copyto(self, val)


class Values:
    def __init__(self, layout, scales, content, shape):
        self.layout, self.scales, self.content, self.shape = layout, scales, content, shape

    def __sub__(self, o):
        if not isinstance(o, Values):
            return NotImplemented
        return Values(self.layout, self.scales, Content(("difference", self.content, o.content)), self.shape)


class World:
    def __init__(self, D, mesh, const=(), tens=(), empty=False):
        from dedalus.core import coords, distributor
        self.bad = []
        self.D, self.const, self.empty = D, set(const), empty
        names = "xyz"[:D]
        cs = coords.CartesianCoordinates(*names) if D > 1 else coords.Coordinate("x")
        dist = self.dist = distributor.Distributor(cs, comm=fake.FakeComm(int(np.prod(mesh)) if mesh else 1), mesh=mesh or None, dtype=np.float64)
        self.tens = tuple(types.SimpleNamespace(dim=d) for d in tens)
        self.ncomp = int(np.prod([1, *tens]))
        w = self

        class B:
            def __init__(self, axis):
                self.axis = axis

            def backward_transform(self, field, axis, cdata, gdata):
                w.transform(field, axis, cdata, gdata, True)

            def forward_transform(self, field, axis, gdata, cdata):
                w.transform(field, axis, gdata, cdata, False)
        full = tuple(None if a in self.const else B(a) for a in range(D))
        self.dom = types.SimpleNamespace(full_bases=full, bases=tuple(b for b in full if b), dim=D, dist=dist, dealias=tuple(z3real(f"dealias{a}") for a in range(D)))
        self.sizes = {}
        for l in dist.layouts:
            l.local_shape = lambda domain, scales, l=l: self.local_shape(l, scales)
            l.global_shape = lambda domain, scales, l=l: ("global shape", l, scales)
        dist.buffer_size = lambda domain, scales, dtype=None: sym.wrap(8 * self.need(scales))
        self.known = {}
        dist.paths = [Path(self, p) for p in dist.paths]

    # contract of Layout.local_shape (D01): sizes depend on the layout and on the scales of its grid axes
    def local_shape(self, l, scales):
        if isinstance(scales, (int, float)):
            scales = (scales,) * self.D
        key = (l.index, tuple(str(scales[a]) if l.grid_space[a] else "" for a in range(self.D)))
        if key in self.known:
            return self.known[key]
        out = []
        for a in range(self.D):
            if a in self.const:
                out.append(1)
                continue
            if l.grid_space[a]:
                f = z3.Function(f"n_{l.index}_{a}", z3.RealSort(), z3.IntSort())
                t = f(to_real(scales[a]))
            else:
                t = z3.Int(f"n_{l.index}_{a}")
            c = ctx()
            c.assume(t >= (0 if self.empty else 1))
            out.append(sym.wrap(t))
        self.known[key] = tuple(out)
        return self.known[key]

    # contract of Distributor.buffer_size (D01): doubles that hold one component in every layout
    def need(self, scales):
        key = ("need", tuple(str(x) for x in scales))
        if key not in self.known:
            t = z3.Function("need", *[z3.RealSort()] * self.D, z3.IntSort())(*[to_real(x) for x in scales])
            es = [self.elems(l, scales) for l in self.dist.layouts]
            ctx().assume(z3.And([t >= 0] + [z3.And(e >= 0, e <= t) for e in es]))
            self.known[key] = t
        return self.known[key]

    def elems(self, l, scales):
        g = [to_real(scales[a]) for a in range(self.D) if l.grid_space[a] and a not in self.const]
        if not g:
            return z3.Int(f"e_{l.index}")
        return z3.Function(f"e_{l.index}", *[z3.RealSort()] * len(g), z3.IntSort())(*g)

    def create_buffer(self, size):
        n = size // 8 if not isinstance(size, int) else size // 8
        return Buf(to_int(n), "own")

    def fresh_buffer_values(self, alloc):
        return Buf(to_int(alloc), "own")

    def ndarray(self, shape=None, dtype=None, buffer=None, **kw):
        if kw or not isinstance(buffer, Buf):
            raise Unsupported("np.ndarray with other arguments")
        f = self.current
        ctx().require("buffer holds the data of the layout", self.ncomp * self.elems(f.layout, f.scales) <= buffer.capacity)
        return View(self, tuple(shape), buffer, f.layout, f.scales)

    def agrees(self, layout, scales, l2, s2):
        """Term: data written in (l2, s2) can be read in (layout, scales)."""
        if layout is not l2:
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [to_real(scales[a]) == to_real(s2[a]) for a in range(self.D) if layout.grid_space[a] and a not in self.const])

    def content_of(self, v):
        l, s, c = v.buf.ghost
        ctx().require("data is read in the layout and scales it was written in", self.agrees(v.layout, v.scales, l, s))
        return c

    def copyto(self, dst, src):
        if not isinstance(dst, View):
            raise Unsupported("copyto into something else")
        if isinstance(src, View):
            c = src.read()
            ctx().require("copied shapes agree", self.agrees(dst.layout, dst.scales, src.layout, src.scales))
        elif isinstance(src, Values):
            c = src.content
            if isinstance(c.name, tuple) or src.layout is not None:
                ctx().require("copied values are in the layout of the data", self.agrees(dst.layout, dst.scales, src.layout, src.scales))
        else:
            c = Content(("assigned", src))
        dst.buf.ghost = (dst.layout, dst.scales, c)

    def transform(self, field, axis, src, dst, backward):
        """Contract of a basis transform along one axis, source and target overlapping."""
        l0, l1 = self.pending.layout0, self.pending.layout1
        a, b = (l0, l1) if backward else (l1, l0)
        if src.layout is not a or dst.layout is not b or axis != self.pending.axis or src.buf is not dst.buf:
            self.bad.append(f"transform along {axis} from {src.layout.index} to {dst.layout.index} on path {l0.index}-{l1.index}")
        c = self.content_of(src)
        ctx().require("transform at the field's scale", z3.And([to_real(dst.scales[k]) == to_real(field.scales[k]) for k in range(self.D)]
                                                             + [to_real(src.scales[k]) == to_real(field.scales[k]) for k in range(self.D)]))
        if backward:
            c = c.visit(axis, field.scales[axis])
        dst.buf.ghost = (dst.layout, field.scales, c)
        self.done = True


class Path:
    """A path with the real Transform class inside, or the contract of a transpose (D02)."""
    def __init__(self, w, real):
        self.w, self.real = w, real
        self.layout0, self.layout1 = real.layout0, real.layout1
        self.is_transform = type(real).__name__ == "Transform"

    def _move(self, fields, up):
        w = self.w
        a, b = (self.layout0, self.layout1) if up else (self.layout1, self.layout0)
        for f in fields:
            w.current = f
            if f.layout is not a:
                w.bad.append(f"path {a.index}-{b.index} applied in layout {f.layout.index}")
            if self.is_transform:
                w.pending, w.done = self.real, False
                src = f.data
                (self.real.increment if up else self.real.decrement)([f])
                if not w.done:
                    # skipped: a constant axis, or no local data
                    if self.real.axis not in w.const:
                        ctx().require("only transforms of no data are skipped", to_int(src.size) == 0)
                    c = w.content_of(src)
                    if up and self.real.axis not in w.const:
                        c = c.visit(self.real.axis, f.scales[self.real.axis])
                    f.buffer.ghost = (b, f.scales, c)
            else:
                c = f.data.read()
                f.preset_layout(b)
                f.buffer.ghost = (b, f.scales, c)

    def increment(self, fields):
        self._move(fields, True)

    def decrement(self, fields):
        self._move(fields, False)


def z3real(name):
    return sym.wrap(z3.Real(name))


@contextlib.contextmanager
def stubs(w):
    from dedalus.core import field as fm, domain as dm, distributor as dmod

    class NPF:
        ndarray = staticmethod(lambda *a, **k: w.ndarray(*a, **k))
        float64, complex128 = np.float64, np.complex128

        @staticmethod
        def zeros(shape, dtype=None):
            return Buf(z3.IntVal(0), "own")

        def __getattr__(self, name):
            if name in ("array", "prod"):
                return getattr(np, name)
            raise Unsupported(f"np.{name} in the field state machine")
    fftw = types.SimpleNamespace(create_buffer=w.fresh_buffer_values)
    saved = {k: fm.__dict__[k] for k in ("np", "copyto", "fftw")}
    sdom, smax = dm.Domain, dmod.__dict__.get("max")
    fm.np, fm.copyto, fm.fftw = NPF(), w.copyto, fftw
    dm.Domain = lambda dist, bases: w.dom
    dmod.max = sym.facade_max
    # the field whose layout np.ndarray sees
    orig = fm.Current.preset_layout

    def tracked(self, layout):
        w.current = self
        return orig(self, layout)
    fm.Current.preset_layout = tracked
    try:
        yield fm
    finally:
        for k, v in saved.items():
            setattr(fm, k, v)
        dm.Domain = sdom
        fm.Current.preset_layout = orig
        if smax is None:
            del dmod.max
        else:
            dmod.max = smax


def scales(w, stem):
    out = tuple(z3real(f"{stem}{a}") for a in range(w.D))
    return out


def pre(D):
    return [z3.Real(f"{s}{a}") > 0 for s in ("s", "t", "dealias") for a in range(D)]


def arbitrary(w, fm, index, own, cls=None):
    """A field in any state satisfying the invariant."""
    cls = cls or fm.Field
    f = cls.__new__(cls)
    f.dist, f.name, f.tensorsig, f.dtype, f.domain = w.dist, None, w.tens, np.float64, w.dom
    s = scales(w, "s")
    f.scales = s
    f.layout = w.dist.layouts[index]
    need = w.dist.buffer_size(w.dom, s, dtype=f.dtype)
    # contract of Layout.buffer_size: every layout fits
    cap = None
    if own:
        cap = z3.Int("own_capacity")
        f.buffer = Buf(cap, "own")
        ctx().assume(8 * cap >= w.ncomp * to_int(need))
    else:
        f.buffer = f._dealias_buffer
        ctx().assume(to_int(need) <= to_int(f._dealias_buffer_size))
    f.preset_layout(f.layout)
    f.buffer.ghost = (f.layout, s, Content("f"))
    ctx().side.clear() if hasattr(ctx().side, "clear") else None
    return f, s


def invariant(w, f):
    v = f.data
    out = [isinstance(v, View) and v.buf is f.buffer, v.layout is f.layout, f.buffer.ghost is not None]
    if not all(out):
        return z3.BoolVal(False)
    l, s, c = f.buffer.ghost
    shape = tuple(x.dim for x in w.tens) + tuple(w.local_shape(f.layout, f.scales))
    conj = [w.agrees(f.layout, f.scales, l, s), z3.BoolVal(len(shape) == len(v.shape))]
    conj += [to_int(a) == to_int(b) for a, b in zip(shape, v.shape)]
    conj.append(to_int(w.dist.buffer_size(w.dom, f.scales, dtype=f.dtype)) * w.ncomp <= 8 * f.buffer.capacity)
    return z3.And(conj)


def sc_eq(a, b):
    return z3.And([z3.BoolVal(len(a) == len(b))] + [to_real(x) == to_real(y) for x, y in zip(a, b)])


def visits_ok(content, base, allowed):
    """The content is base with visits only to allowed (axis, scale) grids."""
    if content.name != base:
        return z3.BoolVal(False)
    conj = [z3.BoolVal(True)]
    for a, s in content.visits:
        conj.append(z3.Or([z3.BoolVal(False)] + [to_real(s) == to_real(t) for b, t in allowed if a == b]))
    return z3.And(conj)


def grid_axes(w, l):
    return {a for a in range(w.D) if l.grid_space[a] and a not in w.const}


CONFIGS = [(1, (), ()), (2, (), ()), (2, (2,), ()), (2, (2,), (0,)), (3, (2, 2), ()), (3, (), (1,)), (3, (1, 2), (2,))]


def machine(chk, fm_, thorough):
    """One contract per method and configuration."""
    confs = [(c, t) for c in CONFIGS for t in (((), (3,)) if c[0] == 1 or thorough else ((),))]
    part = lambda k, n: lambda ch: [one_config(Part(ch, k, n), *c, t) for c, t in confs]
    chk.parallel(part(k, 32) for k in range(32))


class Part:
    """The k-th of n parts of the contracts."""
    def __init__(self, chk, k, n):
        self.chk, self.k, self.n = chk, k, n

    def contract(self, name, func, body):
        Part.count = getattr(Part, "count", -1) + 1
        if Part.count % self.n == self.k:
            self.chk.contract(name, func, body)

    def __getattr__(self, name):
        return getattr(self.chk, name)

    def __setattr__(self, name, v):
        if name == "paths":
            self.chk.paths = v
        else:
            object.__setattr__(self, name, v)


def explore(chk, cfg, func, name, op, post, empty=False, own=(False, True), cls=None, starts=None):
    D, mesh, const, tens = cfg

    def body():
        w0 = World(D, mesh, const, tens)
        n = len(w0.dist.layouts)
        for i in (range(n) if starts is None else starts(n)):
            for o in own:
                state = {}

                def run(i=i, o=o):
                    w = World(D, mesh, const, tens, empty)
                    with stubs(w) as fm:
                        f, s = arbitrary(w, fm, i, o, None if cls is None else getattr(fm, cls))
                        st = types.SimpleNamespace(w=w, f=f, s=s, t=scales(w, "t"), l0=f.layout, buf0=f.buffer, locked=False)
                        res = op(st)
                        goals = post(st, res)
                        goals.append(("invariant re-established", invariant(w, f)))
                        return w, goals
                paths = sym.explore(run, pre(D), allow=(Exception,))
                chk.paths += len(paths)
                for k, p in enumerate(paths):
                    lab = f"{D}D mesh {mesh} constant {const} rank {len(tens)}: {name} from layout {i}{' (own buffer)' if o else ''} [{k}]"
                    if isinstance(p.exc, Unsupported):
                        raise p.exc
                    if p.exc is not None:
                        chk.ground(f"{lab}: returns", FUNC + func, False, repr(p.exc), replay=replay, observable=False)
                        continue
                    w, goals = p.result
                    chk.ground(f"{lab}: callees used within their contracts", FUNC + func, not w.bad, w.bad, replay=replay, observable=False)
                    terms = [g for _, g in goals] + [g for _, _, g in p.ctx.side]
                    # one query for the whole postcondition; named parts only when it fails
                    whole = z3.And([z3.BoolVal(g) if isinstance(g, bool) else g for g in terms])
                    s = z3.Solver()
                    s.set("timeout", 10000)
                    s.add(*p.pc, z3.Not(whole))
                    if s.check() == z3.unsat:
                        chk.obl(f"{lab}: postcondition, invariant and callee preconditions", FUNC + func, p.pc, whole, replay=replay, observable=False)
                    else:
                        for what, g in goals:
                            chk.obl(f"{lab}: {what}", FUNC + func, p.pc, g, replay=replay, observable=False)
                        for what, _, g in p.ctx.side:
                            chk.obl(f"{lab}: {what}", FUNC + func, p.pc, g, replay=replay, observable=False)
    chk.contract(f"{D}D mesh {mesh} constant {const} rank {len(tens)}: {name}", FUNC + func, body)


def one_config(chk, D, mesh, const, tens):
    cfg = (D, mesh, const, tens)
    nl = len(World(D, mesh, const, tens).dist.layouts) if False else None

    def content(st, allowed, base="f"):
        return visits_ok(st.f.buffer.ghost[2], base, allowed)

    def between(st, l1, s):
        return [(a, s[a]) for a in grid_axes(st.w, l1) - grid_axes(st.w, st.l0)]

    w0 = World(D, mesh, const, tens)
    targets = list(range(len(w0.dist.layouts)))

    # layout changes
    for j in targets:
        def op(st, j=j):
            return st.f.change_layout(st.w.dist.layouts[j])

        def post(st, res, j=j):
            l = st.w.dist.layouts[j]
            return [("layout is the one asked for", st.f.layout is l), ("scales unchanged", sc_eq(st.f.scales, st.s)),
                    ("content unchanged, no other grid visited", content(st, between(st, l, st.s)))]
        explore(chk, cfg, "Field.change_layout", f"change_layout({j})", op, post, own=(False,), empty=(j in (0, targets[-1]) and D < 3))

    for j, key in ((targets[-1], "g"), (0, "c")):
        def op(st, key=key):
            return st.f[key]

        def post(st, res, j=j):
            l = st.w.dist.layouts[j]
            return [("layout is the one asked for", st.f.layout is l), ("scales unchanged", sc_eq(st.f.scales, st.s)), ("returns the data", res is st.f.data),
                    ("content unchanged, no other grid visited", content(st, between(st, l, st.s)))]
        explore(chk, cfg, "Field.__getitem__", f"f[{key!r}]", op, post, own=(False,))

        def op2(st, key=key):
            return st.f[key, st.t]

        def post2(st, res, j=j):
            l = st.w.dist.layouts[j]
            return [("layout is the one asked for", st.f.layout is l), ("scales are those asked for", sc_eq(st.f.scales, st.t)), ("returns the data", res is st.f.data),
                    ("content unchanged, only grids at the new scales visited", content(st, [(a, st.t[a]) for a in grid_axes(st.w, l)]))]
        explore(chk, cfg, "Field.__getitem__", f"f[{key!r}, scales]", op2, post2)

        def op3(st, key=key):
            st.f[key] = "x"

        def post3(st, res, j=j):
            l = st.w.dist.layouts[j]
            return [("layout is the one given", st.f.layout is l), ("scales unchanged", sc_eq(st.f.scales, st.s)),
                    ("content is the data given", content(st, [], ("assigned", "x")))]
        explore(chk, cfg, "Field.__setitem__", f"f[{key!r}] = x", op3, post3, own=(False,))

        def op4(st, key=key):
            st.f[key, st.t] = "x"

        def post4(st, res, j=j):
            l = st.w.dist.layouts[j]
            return [("layout is the one given", st.f.layout is l), ("scales are those given", sc_eq(st.f.scales, st.t)),
                    ("content is the data given", content(st, [], ("assigned", "x")))]
        explore(chk, cfg, "Field.__setitem__", f"f[{key!r}, scales] = x", op4, post4)

    # scale changes
    def op(st):
        return st.f.change_scales(st.t)

    def post(st, res):
        return [("scales are those asked for", sc_eq(st.f.scales, st.t)), ("content unchanged, no grid visited", content(st, [])),
                ("layout not further into grid space", st.f.layout.index <= st.l0.index)]
    explore(chk, cfg, "Field.change_scales", "change_scales(scales)", op, post)
    for val in (None, 2):
        def op(st, val=val):
            return st.f.change_scales(val)

        def post(st, res, val=val):
            return [("scales are those asked for", sc_eq(st.f.scales, (val or 1,) * st.w.D)), ("content unchanged, no grid visited", content(st, []))]
        explore(chk, cfg, "Field.change_scales", f"change_scales({val})", op, post, own=(False,))

    # requirements
    for axis in [None] + list(range(D)):
        def op(st, axis=axis):
            return st.f.require_grid_space(axis)

        def post(st, res, axis=axis):
            g = st.f.layout.grid_space
            return [("required axes in grid space", bool(all(g) if axis is None else g[axis])), ("scales unchanged", sc_eq(st.f.scales, st.s)),
                    ("content unchanged, no other grid visited", content(st, between(st, st.f.layout, st.s)))]
        explore(chk, cfg, "Field.require_grid_space", f"require_grid_space({axis})", op, post, own=(False,))

        def op(st, axis=axis):
            return st.f.require_coeff_space(axis)

        def post(st, res, axis=axis):
            g = st.f.layout.grid_space
            return [("required axes in coefficient space", bool(not any(g) if axis is None else not g[axis])), ("scales unchanged", sc_eq(st.f.scales, st.s)),
                    ("content unchanged, no grid visited", content(st, []))]
        explore(chk, cfg, "Field.require_coeff_space", f"require_coeff_space({axis})", op, post, own=(False,))
        if axis is not None:
            def op(st, axis=axis):
                return st.f.require_local(axis)

            def post(st, res, axis=axis):
                return [("required axis is local", bool(st.f.layout.local[axis])), ("scales unchanged", sc_eq(st.f.scales, st.s)),
                        ("content unchanged, no other grid visited", content(st, between(st, st.f.layout, st.s)))]
            explore(chk, cfg, "Field.require_local", f"require_local({axis})", op, post, own=(False,))

    # copies and filters
    def op(st):
        return st.f.copy()

    def post(st, res):
        return [("copy has its own buffer", res.buffer is not st.f.buffer), ("copy satisfies the invariant", invariant(st.w, res)),
                ("copy is in the same layout", res.layout is st.f.layout is st.l0), ("same scales", z3.And(sc_eq(res.scales, st.s), sc_eq(st.f.scales, st.s))),
                ("same content", z3.And(visits_ok(res.buffer.ghost[2], "f", []), content(st, [])))]
    explore(chk, cfg, "Field.copy", "copy", op, post)

    def op(st):
        return st.f.low_pass_filter(scales=st.t)

    def post(st, res):
        return [("scales are the original ones", sc_eq(st.f.scales, st.s)),
                ("content truncated by exactly the given grid", z3.And(content(st, [(a, st.t[a]) for a in range(st.w.D)]
                 # axes already on the grid at these scales stay there
                 ), z3.BoolVal(all(a in {v[0] for v in st.f.buffer.ghost[2].visits} or a in grid_axes(st.w, st.l0) for a in range(st.w.D) if a not in st.w.const))))]
    explore(chk, cfg, "Field.low_pass_filter", "low_pass_filter", op, post, own=(False,))

    def op(st):
        return st.f.high_pass_filter(scales=st.t)

    def post(st, res):
        c = st.f.buffer.ghost[2]
        ok = isinstance(c.name, tuple) and c.name[0] == "difference" and st.f.layout.index == 0
        if not ok:
            return [("content is the difference to the truncated field", False)]
        return [("scales are the original ones", sc_eq(st.f.scales, st.s)),
                ("content is the original less the truncated field", z3.And(visits_ok(c.name[1], "f", []), visits_ok(c.name[2], "f", [(a, st.t[a]) for a in range(st.w.D)]),
                 z3.BoolVal({v[0] for v in c.name[2].visits} == {a for a in range(st.w.D) if a not in st.w.const})))]
    explore(chk, cfg, "Field.high_pass_filter", "high_pass_filter", op, post, own=(False,))

    # locked fields
    for j in targets:
        def op(st, j=j):
            st.f.lock_to_layouts(*[st.w.dist.layouts[k] for k in targets if k >= 1])
            try:
                st.f.change_layout(st.w.dist.layouts[j])
            except ValueError:
                st.locked = True

        def post(st, res, j=j):
            l = st.w.dist.layouts[j]
            allowed = st.l0.index >= 1 and j >= 1 or l is st.l0 or (j >= 1)
            return [("refused exactly when a layout outside the lock is needed", st.locked == (not allowed)),
                    ("moved exactly when allowed", (st.f.layout is l) if allowed else st.f.layout.index in (0, 1)), ("scales unchanged", sc_eq(st.f.scales, st.s)),
                    ("content unchanged, no other grid visited", content(st, between(st, st.f.layout, st.s)))]
        explore(chk, cfg, "LockedField.change_layout", f"locked change_layout({j})", op, post, own=(False,), cls="LockedField")

    def op(st):
        st.f.lock_to_layouts(st.l0)
        try:
            st.f.change_scales(st.t)
        except ValueError:
            st.locked = True

    def post(st, res):
        return [("refused exactly when scales differ", (z3.Not(sc_eq(st.s, st.t)) if st.locked else sc_eq(st.s, st.t))), ("scales unchanged", sc_eq(st.f.scales, st.s)),
                ("layout unchanged", st.f.layout is st.l0), ("content unchanged", content(st, []))]
    explore(chk, cfg, "LockedField.change_scales", "locked change_scales", op, post, own=(False,), cls="LockedField")

    def op(st):
        st.f.lock_to_layouts(st.l0)
        return st.f.unlock()

    def post(st, res):
        from dedalus.core import field as fm
        return [("an ordinary field", type(res) is fm.Field), ("own buffer", res.buffer is not st.f.buffer), ("satisfies the invariant", invariant(st.w, res)),
                ("same layout", res.layout is st.l0), ("same scales", sc_eq(res.scales, st.s)), ("same content", visits_ok(res.buffer.ghost[2], "f", []))]
    explore(chk, cfg, "LockedField.unlock", "unlock", op, post, own=(False,), cls="LockedField")


# --------------------------------------------------------------------------- bounded: real fields, real histories

def make(kind, dtype, mesh=None, comm=None):
    import dedalus.public as d3
    kw = dict(dtype=dtype)
    if mesh is not None:
        kw.update(mesh=mesh, comm=comm)
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    deal = 1.5
    if kind[0] in "FJLU0":
        names = "xyz"[:len(kind)]
        cs = d3.CartesianCoordinates(*names) if len(kind) > 1 else d3.CartesianCoordinates("x")
        dist = d3.Distributor(cs, **kw)
        sizes = {1: (8,), 2: (8, 6), 3: (6, 4, 5)}[len(kind)]
        bs = []
        for n, k, M in zip(names, kind, sizes):
            c = cs[n]
            if k == "F":
                bs.append(F(c, M, (0, 2), dealias=deal))
            elif k == "J":
                bs.append(d3.ChebyshevT(c, M, (0, 2), dealias=deal))
            elif k == "0":
                continue
            elif k == "L":
                bs.append(d3.Legendre(c, M, (-1, 2), dealias=2))
            elif k == "U":
                bs.append(d3.Ultraspherical(c, M, alpha=1.5, alpha0=0.5, bounds=(0, 1), dealias=deal))
        return cs, dist, tuple(bs)
    if kind in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(cs, **kw)
        b = d3.DiskBasis(cs, (8, 5), dtype, radius=1.5, dealias=deal) if kind == "disk" else d3.AnnulusBasis(cs, (8, 5), dtype, radii=(0.5, 1.5), dealias=deal)
    elif kind == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        dist = d3.Distributor(cs, **kw)
        b = d3.SphereBasis(cs, (8, 5), dtype, radius=2, dealias=deal)
    else:
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(cs, **kw)
        b = d3.BallBasis(cs, (8, 4, 5), dtype, radius=1.5, dealias=deal) if kind == "ball" else d3.ShellBasis(cs, (8, 4, 5), dtype, radii=(0.5, 1.5), dealias=deal)
    return cs, dist, (b,)


def truncate(c, kind, rank, axis, n, dtype):
    """Coefficients a grid of n points along an axis resolves."""
    c = c.copy()
    M = c.shape[rank + axis]
    idx = np.arange(M)
    if kind[axis] == "F":
        k = idx // 2 if dtype is np.float64 else np.abs(np.where(idx <= (M - 1) // 2, idx, idx - M))
        keep = k <= (n - 1) // 2
    else:
        keep = idx < n
    sl = [slice(None)] * c.ndim
    sl[rank + axis] = ~keep
    c[tuple(sl)] = 0
    return c


SCALES = (1, 1.5, 0.5, 2, 0.75, 1.25)


def history(case):
    kind, dtn, rank, nsteps, seed = case
    dtype = np.float64 if dtn == "r" else np.complex128
    cs, dist, bases = make(kind, dtype)
    return drive(kind, dtype, cs, dist, bases, rank, nsteps, seed)


def drive(kind, dtype, cs, dist, bases, rank, nsteps, seed):
    rng = np.random.default_rng(seed)
    new = lambda: dist.Field(bases=bases, tensorsig=(cs,) * rank)
    f = new()
    f.fill_random("g", scales=1, seed=seed + 1)
    expect = f["c"].copy()
    D = dist.dim
    cart = kind[0] in "FJLU0"
    dom = f.domain
    log = []
    tol = 1e-9 * max(1, np.abs(expect).max()) if expect.size else 1

    def at(c, layout, s):
        h = new()
        h.preset_scales(s)
        h["c"] = c
        h.change_layout(layout)
        return h.data

    def visit(c, axes, s):
        if cart:
            gs = dist.grid_layout.global_shape(dom, s)
            for a in axes:
                if kind[a] == "0":
                    continue
                c = truncate(c, kind, rank, a, gs[a], dtype)
            return c
        return c
    pool = SCALES if cart else (1, 1.5, 2, 1.25)

    def rscales():
        if rng.random() < 0.4:
            return (pool[rng.integers(len(pool))],) * D
        if not cart:
            # multidimensional bases: any scale per axis that keeps every mode
            return tuple(pool[rng.integers(len(pool))] for _ in range(D))
        return tuple(pool[rng.integers(len(pool))] for _ in range(D))

    def up(l0, l1):
        return [a for a in range(D) if l1.grid_space[a] and not l0.grid_space[a]]
    for step in range(nsteps):
        op = ["layout", "scales", "getitem", "set", "require", "filter", "roundtrip", "copy", "towards", "highpass"][rng.integers(10)]
        l0, s0 = f.layout, f.scales
        if op == "layout":
            l = dist.layouts[rng.integers(len(dist.layouts))]
            log.append(("change_layout", l.index))
            f.change_layout(l)
            expect = visit(expect, up(l0, l), s0)
            if f.layout is not l:
                return {"after": log, "violates": "layout is the one asked for"}
        elif op == "scales":
            s = rscales()
            arg = s[0] if len(set(s)) == 1 and rng.random() < 0.5 else s
            log.append(("change_scales", arg))
            f.change_scales(arg)
            if tuple(f.scales) != tuple(s) or f.layout.index > l0.index:
                return {"after": log, "violates": "scales are those asked for"}
        elif op == "getitem":
            s, l = rscales(), dist.layouts[rng.integers(len(dist.layouts))]
            log.append(("getitem", l.index, s))
            got = f[l, s]
            expect = visit(expect, [a for a in range(D) if l.grid_space[a]], s)
            if got is not f.data or f.layout is not l or tuple(f.scales) != tuple(s):
                return {"after": log, "violates": "data of the layout and scales asked for"}
        elif op == "set":
            s, l = rscales(), dist.layouts[rng.integers(len(dist.layouts))]
            c = rng.standard_normal(expect.shape) + (1j * rng.standard_normal(expect.shape) if dtype is np.complex128 else 0)
            h = new()
            h.fill_random("g", scales=1, seed=int(rng.integers(1 << 30)))
            what = rng.integers(5)
            c = h["c"].copy()
            if what == 0 and c.size:       # zero
                c[...] = 0
            elif what == 1 and c.size:     # one mode of the last axis
                k = rng.integers(c.shape[-1])
                if kind[-1] == "F" and dtype is np.float64:
                    k = k // 2 * 2
                keep = c[..., k].copy()
                c[...] = 0
                c[..., k] = keep
            elif what == 2 and c.size:     # small tail
                c *= 10.0 ** -np.arange(c.shape[-1])
            c = visit(c, range(D), s)
            data = np.array(at(c, l, s))
            log.append(("set", int(what), l.index, s))
            f[l, s] = data
            expect = c
        elif op == "require":
            a = [None, *range(D)][rng.integers(D + 1)]
            if rng.random() < 0.4:
                log.append(("require_grid_space", a))
                f.require_grid_space(a)
                expect = visit(expect, up(l0, f.layout), s0)
                ok = all(f.layout.grid_space) if a is None else f.layout.grid_space[a]
            elif rng.random() < 0.7:
                log.append(("require_coeff_space", a))
                f.require_coeff_space(a)
                ok = not (any(f.layout.grid_space) if a is None else f.layout.grid_space[a])
            else:
                a = a or 0
                log.append(("require_local", a))
                f.require_local(a)
                expect = visit(expect, up(l0, f.layout), s0)
                ok = f.layout.local[a]
            if not ok:
                return {"after": log, "violates": "required state reached"}
        elif op == "filter" and cart:
            s = rscales()
            log.append(("low_pass_filter", s))
            f.low_pass_filter(scales=s)
            expect = visit(expect, range(D), s)
            if tuple(f.scales) != tuple(s0):
                return {"after": log, "violates": "filter leaves the scales alone"}
        elif op == "highpass" and cart and rng.random() < 0.5:
            s = rscales()
            log.append(("high_pass_filter", s))
            f.high_pass_filter(scales=s)
            expect = expect - visit(expect, range(D), s)
            if tuple(f.scales) != tuple(s0):
                return {"after": log, "violates": "filter leaves the scales alone"}
        elif op == "roundtrip":
            s = rscales()
            log.append(("g then c", s))
            f["g", s]
            expect = visit(expect, range(D), s)
            f["c"]
        elif op == "copy":
            log.append(("copy",))
            g = f.copy()
            keep = f.data.copy()
            if g.layout is not f.layout or tuple(g.scales) != tuple(f.scales):
                return {"after": log, "violates": "copy has the same layout and scales"}
            if rng.random() < 0.5:
                f.data[...] = 17
                f = g
            else:
                g.data[...] = 17
            if f.data.shape != keep.shape or not np.array_equal(f.data, keep):
                return {"after": log, "violates": "a copy is independent and equal"}
        elif op == "towards":
            if rng.random() < 0.5 and f.layout.index < len(dist.layouts) - 1:
                log.append(("towards_grid_space",))
                f.towards_grid_space()
                expect = visit(expect, up(l0, f.layout), s0)
            elif f.layout.index > 0:
                log.append(("towards_coeff_space",))
                f.towards_coeff_space()
        # every step: shape, layout, scales and data agree with the expected function
        want = at(expect, f.layout, f.scales)
        shape = (cs.dim,) * rank + tuple(f.layout.local_shape(dom, f.scales))
        if f.data.shape != shape or f.data.dtype != dtype:
            return {"basis": kind, "after": log, "violates": "local shape agrees with layout and scales", "shape": f.data.shape}
        if want.size and not np.allclose(f.data, want, rtol=0, atol=tol):
            return {"basis": kind, "seed": seed, "after": log, "violates": "data is the same function", "largest difference": float(np.abs(f.data - want).max())}
    got = f["c"]
    if got.size and not np.allclose(got, expect, rtol=0, atol=tol):
        return {"basis": kind, "seed": seed, "after": log, "violates": "coefficients recovered"}
    return None


KINDS = ["F", "J", "U", "FJ", "FF", "JL", "FFJ", "FUL", "F0", "0J", "F0J", "FF0", "0L0"]
CURV = ["disk", "annulus", "sphere", "ball", "shell"]


def cases(seed, reps, steps):
    for kind in KINDS + CURV:
        for dt in "rc":
            for rank in (0, 1) if len(kind) > 1 else (0,):
                if rank and kind in KINDS and len(kind) == 1:
                    continue
                for k in range(reps):
                    yield (kind, dt, rank, steps, seed * 7919 + k)


@takes
def replay(model=None):
    for c in cases(3, 3, 14):
        try:
            bad = history(c)
        except Exception as e:
            bad = {"raised": repr(e)}
        if bad:
            return {"case": c, **bad}
    for c in [("g", k) for k in ("c", "g")]:
        bad = locked_case(c)
        if bad:
            return {"locked": c, **bad}
    return None


def locked_case(case):
    """A locked field moves exactly within its allowed layouts and keeps its data."""
    from dedalus.core.field import LockedField
    import dedalus.public as d3
    out = None
    for kind in ("FJ", "FFJ", "disk"):
        cs, dist, bases = make(kind, np.float64)
        n = len(dist.layouts)
        for allowed in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(1, n + 1)):
            for start in allowed:
                for target in range(n):
                    f = LockedField(dist, bases=bases)
                    f.preset_scales(1.5)
                    h = dist.Field(bases=bases)
                    h.fill_random("g", seed=3)
                    h.change_scales(1.5)
                    h.change_layout(dist.layouts[start])
                    f.preset_layout(dist.layouts[start])
                    f.data[...] = h.data
                    f.lock_to_layouts(*[dist.layouts[i] for i in allowed])
                    step = range(start, target + 1) if target >= start else range(target, start + 1)
                    ok = all(i in allowed for i in step)
                    try:
                        f.change_layout(dist.layouts[target])
                        refused = False
                    except ValueError:
                        refused = True
                    if refused == ok:
                        return {"basis": kind, "allowed": allowed, "start": start, "target": target, "refused": refused}
                    u = f.unlock()
                    h.change_layout(f.layout)
                    if u.layout is not f.layout or tuple(u.scales) != tuple(f.scales) or not np.allclose(u.data, h.data, atol=1e-10) or not np.allclose(f.data, h.data, atol=1e-10):
                        return {"basis": kind, "allowed": allowed, "start": start, "target": target, "violates": "locked data kept"}
    return out


def filter_case(case):
    """A low-pass filter to a grid shape keeps what a visit to a grid of exactly that shape keeps."""
    import dedalus.public as d3
    kind, N = case
    x = d3.Coordinate("x")
    dist = d3.Distributor(x, dtype=np.float64 if kind == "R" else np.complex128)
    b = {"C": d3.ComplexFourier, "R": d3.RealFourier, "T": d3.ChebyshevT, "L": d3.Legendre}[kind](x, N, bounds=(0, 2*np.pi))
    f = dist.Field(bases=b)
    for M in range(1, N + 1):
        f["c"] = (1 + np.arange(N)) * f.valid_modes
        full = f["c"].copy()
        f.change_scales(2)
        f.low_pass_filter(shape=(M,))
        got = f["c"].copy()
        if kind in "CR":
            k = np.abs(np.asarray(b.wavenumbers)).ravel()
            kept = k <= min((M - 1) // 2, (N - 1) // 2)
        else:
            kept = np.arange(N) < M
        want = np.where(kept, full, 0)
        if not np.allclose(got, want, rtol=0, atol=1e-9 * N):
            return {"basis": kind, "modes": N, "grid shape": M, "violates": "low_pass_filter(shape) keeps exactly the modes of that grid",
                    "kept": int((np.abs(got) > 1e-9).sum()), "expected": int((np.abs(want) > 1e-9).sum())}


MPI_SCRIPT = r'''
import sys, json, numpy as np
sys.path[:0] = json.loads(sys.argv[2])
from mpi4py import MPI
import logging; logging.disable(logging.CRITICAL)
from props import f01
comm = MPI.COMM_WORLD
bad = None
for kind, mesh, seed in json.loads(sys.argv[1]):
    for dt in (np.float64, np.complex128):
        cs, dist, bases = f01.make(kind, dt, tuple(mesh), comm)
        try:
            r = f01.drive_global(kind, dt, cs, dist, bases, seed)
        except Exception as e:
            import traceback
            print("TRACE", traceback.format_exc(), file=sys.stderr)
            r = {"raised": repr(e)}
            print("RESULT" + json.dumps({"mesh": mesh, "kind": kind, **r})); sys.stdout.flush()
            comm.Abort(3)
        if r: bad = bad or {"mesh": mesh, "kind": kind, **r}
bad = comm.allreduce([bad] if bad else [])
if comm.rank == 0:
    print("RESULT" + json.dumps(bad[0] if bad else None))
'''


def drive_global(kind, dtype, cs, dist, bases, seed):
    """The same history on a distributed and a serial field gives the same global data at every step."""
    from mpi4py import MPI
    cs1, dist1, bases1 = make(kind, dtype, (1,), MPI.COMM_SELF)
    rng = np.random.default_rng(seed)
    f, h = dist.Field(bases=bases), dist1.Field(bases=bases1)
    for x in (f, h):
        x.fill_random("g", scales=1, seed=seed)
    log = []
    pool = SCALES if kind[0] in "FJLU0" else (1, 1.5, 2)
    for step in range(14):
        s = tuple(float(pool[i]) for i in rng.integers(len(pool), size=dist.dim))
        lay = int(rng.integers(len(dist.layouts)))
        op = int(rng.integers(4))
        log.append([op, lay, s])
        if op == 0:
            f.change_scales(s)
            h.change_scales(s)
        elif op == 1:
            f.change_layout(dist.layouts[lay])
        elif op == 2:
            f["g"], h["g"]
        else:
            f.require_local(lay % dist.dim)
        # bring the serial one to the same transform state
        target = next(l for l in dist1.layouts if list(l.grid_space) == list(f.layout.grid_space))
        h.change_layout(target)
        a, b = f.allgather_data(), h.allgather_data()
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-10, atol=1e-10):
            return {"after": log, "violates": "distributed field equals the serial one"}
    return None


def run_mpi(case):
    import json
    import os
    n, items = case
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    rc, out, err = mpi.run(MPI_SCRIPT, n, (json.dumps(items), json.dumps([root, "/opt/veriftools/pyvenv/lib/python3.12/site-packages"])), timeout=115)
    for line in out.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
    return {"processes": n, "returncode": rc, "stderr": err[-1500:]}


def run(chk):
    from dedalus.core import field as fm
    chk.assume("transforms along an axis and transposes satisfy their contracts (X01, D02); local shapes and buffer sizes theirs (D01)")
    chk.assume("scales are positive; local sizes are those of the layout and of the scales of its grid-space axes")
    chk.trust("FFTW aligned allocation returns a buffer of the requested length")
    machine(chk, fm, chk.thorough)
    reps, steps = (2, 14) if not chk.thorough else (12, 40)
    chk.bounded("random histories on real fields", f"18 basis combinations, real and complex, scalars and vectors, {reps} histories of {steps} operations each",
                cases(chk.seed, reps, steps), history, budget=150 if not chk.thorough else 1500)
    chk.bounded("low-pass filters to a grid shape", "four bases, up to 60 modes (150 thorough), every grid shape",
                [(k, N) for k in "CRTL" for N in ((8, 14, 25, 26, 29, 38, 44, 50, 56) if not chk.thorough else range(2, 150)) if not (k == "R" and N % 2)], filter_case, budget=120)
    chk.bounded("locked fields", "three bases, every set of allowed layouts, start and target", [0], locked_case)
    items = lambda ms: [[k, m, chk.seed + j] for j in range(1 if not chk.thorough else 4) for k, m in ms]
    chk.bounded("random histories on MPI processes", "meshes of 2 and 4 processes",
                [(2, items([("FJ", [2]), ("F0", [2]), ("0J", [2]), ("FFJ", [1, 2]), ("disk", [2]), ("sphere", [2])])), (4, items([("FFJ", [2, 2]), ("ball", [2, 2]), ("shell", [2, 2]), ("JL", [4]), ("F0J", [2, 2]), ("FF0", [4])]))], run_mpi)
