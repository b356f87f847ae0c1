"""X01: spectral transforms evaluate and recover the truncated series exactly.

Contracts (real methods of transforms.py, run on arrays whose size along the transform axis is symbolic)
  K = min((N-1)//2, (M-1)//2) (Fourier) or min(N, M) - 1 (cosine, Chebyshev).
  forward:  the library routine is called once on the unchanged grid data; coefficient i of the result is the
            documented multiple of the spectrum entry of its wavenumber if |k| <= K, and exactly 0 otherwise.
  backward: entry j of the spectrum handed to the library is the documented multiple of the coefficient of its
            wavenumber if |k| <= K, and exactly 0 otherwise; the library's result is what the grid data become.
  Persistent work arrays have arbitrary content beforehand, so stale entries cannot survive.
  Grid data are not read after coefficient data are written, and conversely (both live in one buffer).
Library routines (scipy.fft, scipy.fftpack, FFTW) are trusted to compute their documented sums.
Chebyshev with conversion: the conversion matrix and the triangular solve are used by contract (N01, N02).
Bounded: all libraries against direct summation of the series, real aliased buffers, curvilinear bases."""

import itertools
import math
import types

import numpy as np
import z3

from vf import sym, npf
from vf.npf import norm_slice, slice_len
from vf.sym import Int, to_int, to_real, Unsupported, ctx


def takes(f):
    f.takes_none = True
    return f


ZERO = z3.RealVal(0)


class Base:
    def __init__(self, name, n, axis, cplx, fn=None, group=None):
        self.name, self.n, self.axis, self.cplx, self.group = name, n, axis, cplx, group
        if fn is None:
            re = z3.Function(name + "_re", z3.IntSort(), z3.RealSort())
            im = z3.Function(name + "_im", z3.IntSort(), z3.RealSort())
            fn = lambda i: (re(i), im(i) if cplx else ZERO)
        self.fn = fn
        self.orig = fn
        self.written = False


class View:
    """View of elements lo, lo+step, ... of a base array along the transform axis."""
    __array_ufunc__ = None
    _vf_symbolic = True

    def __init__(self, base, lo=0, step=1, n=None, part=None):
        self.base, self.lo, self.step, self.part = base, lo, step, part
        self.n = base.n if n is None else n

    # shape
    @property
    def shape(self):
        return (2,) * self.base.axis + (self.n,) + (3,)

    @property
    def ndim(self):
        return self.base.axis + 2

    @property
    def dtype(self):
        return np.dtype(complex if self.base.cplx and self.part is None else float)

    @property
    def real(self):
        return View(self.base, self.lo, self.step, self.n, "re") if self.part is None else self

    @property
    def imag(self):
        if self.part is not None or not self.base.cplx:
            raise Unsupported("imaginary part of real data")
        return View(self.base, self.lo, self.step, self.n, "im")

    def _key(self, k):
        if k is Ellipsis or (isinstance(k, slice) and k == slice(None)):
            return slice(None)
        k = k if isinstance(k, tuple) else (k,)
        if k and k[0] is Ellipsis:
            raise Unsupported("indexing from the last axis")
        ax = self.base.axis
        for n, s in enumerate(k):
            if n != ax and s != slice(None):
                raise Unsupported("indexing another axis")
        return k[ax] if len(k) > ax else slice(None)

    def __getitem__(self, k):
        s = self._key(k)
        if not isinstance(s, slice):
            raise Unsupported("integer index along the transform axis")
        lo, hi, st = norm_slice(s, self.n)
        n = slice_len(lo, hi, st)
        return View(self.base, self.lo + self.step * lo if not (self.step == 1 and not sym.is_sym(self.lo) and self.lo == 0) else lo, self.step * st, n, self.part)

    def read(self):
        b = self.base
        other = b.group and b.group.get("other", {}).get(b.name)
        if other is not None and other.written:
            ctx().require("grid and coefficient data share one buffer: no reading of one after writing the other", False)
        fn, lo, st, part = b.fn, to_int(self.lo), self.step, self.part

        def at(j):
            re, im = fn(lo + st * j)
            return (re, im) if part is None else (re if part == "re" else im, ZERO)
        return at

    def write(self, value):
        b = self.base
        b.written = True
        old, lo, st, n, part = b.fn, to_int(self.lo), self.step, to_int(self.n), self.part

        def fn(i):
            if st in (1, -1):
                j, ok = (i - lo) * st, z3.BoolVal(True)
            elif st > 1:
                j, ok = (i - lo) / st, (i - lo) % st == 0
            else:
                j, ok = (lo - i) / (-st), (lo - i) % (-st) == 0
            m = z3.And(ok, j >= 0, j < n)
            r0, i0 = old(i)
            r1, i1 = value(j)
            if part == "re":
                return z3.If(m, r1, r0), i0
            if part == "im":
                return r0, z3.If(m, r1, i0)
            return z3.If(m, r1, r0), z3.If(m, i1, i0)
        b.fn = fn

    def __setitem__(self, k, v):
        t = self[k]
        if isinstance(v, View):
            copyto(t, v)
        elif isinstance(v, (int, float)) or sym.is_sym(v):
            r = to_real(v)
            t.write(lambda j: (r, ZERO))
        else:
            raise Unsupported("assignment of " + type(v).__name__)

    def _scaled(self, s):
        at, s = self.read(), to_real(s)
        return lambda j: tuple(x * s for x in at(j))

    def __imul__(self, s):
        if not (isinstance(s, (int, float)) or sym.is_sym(s)):
            raise Unsupported("in-place product")
        self.write(self._scaled(s))
        return self

    def __itruediv__(self, s):
        return self.__imul__(1 / s)

    def fill(self, v):
        self.__setitem__(Ellipsis, v)

    def copy(self):
        b = Base(ctx().fresh("copy"), self.n, self.base.axis, self.base.cplx and self.part is None, fn=self.read())
        return View(b)


def same_length(a, b):
    ctx().require("operands of one length along the transform axis", to_int(a.n) == to_int(b.n))


def copyto(dst, src):
    if not isinstance(dst, View):
        raise Unsupported("copyto")
    if not isinstance(src, View):
        return dst.__setitem__(Ellipsis, src)
    same_length(dst, src)
    if src.base.cplx and src.part is None and not dst.base.cplx:
        ctx().require("no complex data into real arrays", False)
    dst.write(src.read())


def multiply(a, s, out=None):
    if isinstance(s, View):
        a, s = s, a
    if not isinstance(a, View) or isinstance(s, View) or out is None:
        raise Unsupported("product of arrays")
    same_length(a, out)
    if a.base.cplx and a.part is None and (not out.base.cplx or out.part):
        ctx().require("no complex data into real arrays", False)
    out.write(a._scaled(s))
    return out


class TNP(npf.NP):
    def multiply(self, a, b, out=None, **k):
        return multiply(a, b, out)

    def copyto(self, d, s):
        copyto(d, s)

    def empty_like(self, a, *args, **k):
        if isinstance(a, View):
            return View(Base(ctx().fresh("empty"), a.n, a.base.axis, a.base.cplx))
        return super().empty_like(a, *args, **k)
    zeros_like = None

    def zeros_like(self, a, *args, **k):
        if isinstance(a, View):
            return View(Base(ctx().fresh("zero"), a.n, a.base.axis, a.base.cplx, fn=lambda i: (ZERO, ZERO)))
        return super().zeros_like(a, *args, **k)

    def empty(self, shape=None, dtype=float, **k):
        if sym.is_sym(shape) or npf.has_sym(shape):
            ax = [i for i, s in enumerate(shape) if sym.is_sym(s)]
            if len(ax) != 1:
                raise Unsupported("array of several symbolic sizes")
            return View(Base(ctx().fresh("empty"), shape[ax[0]], ax[0], np.dtype(dtype).kind == "c"))
        return super().empty(shape, dtype, **k)


def spectrum(name, n, axis, cplx, fn=None):
    return View(Base(name, n, axis, cplx, fn))


class Lib:
    """Library routines by their documented sums; F(k) is the DFT (or C(k) the DCT-II) of the grid data."""

    def __init__(self, N, axis, g):
        self.N, self.axis, self.g = N, axis, g
        self.calls = []          # backward: spectra handed over
        self.n_forward = 0
        re = z3.Function("F_re", z3.IntSort(), z3.RealSort())
        im = z3.Function("F_im", z3.IntSort(), z3.RealSort())
        self.F = lambda k: (re(k), im(k))
        self.C = lambda k: (re(k), ZERO)
        res = z3.Function("result_re", z3.IntSort(), z3.RealSort())
        ims = z3.Function("result_im", z3.IntSort(), z3.RealSort())
        self.result = lambda j: (res(j), ims(j))

    def grid(self, a, axis):
        if not (isinstance(a, View) and a.base is self.g.base and a.n is self.g.n) or a.base.fn is not a.base.orig or axis != self.axis:
            raise Unsupported("forward transform of something else than the grid data")
        a.read()
        self.n_forward += 1

    def back(self, a, axis, kind, size=None):
        if not isinstance(a, View) or axis != self.axis:
            raise Unsupported("backward transform of something else")
        want = self.N // 2 + 1 if kind in ("irfft", "c2r") else self.N
        ctx().require("length of the spectrum", to_int(a.n) == to_int(want))
        if size is not None:
            ctx().require("length of the grid", to_int(size) == to_int(self.N))
        self.calls.append((kind, a.read()))
        cp = self.g.base.cplx
        r = self.result
        return View(Base(ctx().fresh("result"), self.N, self.axis, cp, fn=(lambda i: r(i)) if cp else (lambda i: (r(i)[0], ZERO))))

    # spectra
    def full(self):
        return spectrum("fft", self.N, self.axis, True, self.F)

    def half(self):
        return spectrum("rfft", self.N // 2 + 1, self.axis, True, self.F)

    def packed(self):
        F = self.F
        return spectrum("pack", self.N, self.axis, False, lambda j: (z3.If(j == 0, F(z3.IntVal(0))[0], z3.If(j % 2 == 1, F((j + 1) / 2)[0], F(j / 2)[1])), ZERO))

    def halfcomplex_fn(self):
        F, N = self.F, to_int(self.N)
        return lambda j: (z3.If(2 * j <= N, F(j)[0], F(N - j)[1]), ZERO)

    def scipy(self):
        S = types.SimpleNamespace

        def fft(a, axis=-1, **k):
            self.grid(a, axis)
            return self.full()

        def ifft(a, axis=-1, overwrite_x=False, **k):
            return self.back(a, axis, "ifft")

        def rfft(a, axis=-1, **k):
            self.grid(a, axis)
            return self.half()

        def irfft(a, n=None, axis=-1, **k):
            return self.back(a, axis, "irfft", n)

        def prfft(a, axis=-1, **k):
            self.grid(a, axis)
            return self.packed()

        def pirfft(a, axis=-1, **k):
            return self.back(a, axis, "packed")

        def dct(a, type=2, axis=-1, **k):
            if k.get("norm") is not None:
                raise Unsupported("normalized cosine transform")
            if type == 2:
                self.grid(a, axis)
                return spectrum("dct", self.N, self.axis, False, self.C)
            if type == 3:
                return self.back(a, axis, "dct3")
            raise Unsupported("cosine transform of another type")
        return S(fft=S(fft=fft, ifft=ifft, rfft=rfft, irfft=irfft, dct=dct), fftpack=S(rfft=prfft, irfft=pirfft))

    def plan(self, kind):
        """A persistent FFTW plan and its work array (arbitrary content)."""
        size = self.N // 2 + 1 if kind == "c2r" else self.N
        temp = View(Base("stale", size, self.axis, kind in ("c2c", "c2r")))
        lib = self
        fn = {"c2c": lambda: self.F, "c2r": lambda: self.F, "hc": self.halfcomplex_fn, "dct": lambda: self.C}[kind]()

        class Plan:
            def forward(self, g, c):
                lib.grid(g, lib.axis)
                if not isinstance(c, View):
                    raise Unsupported("FFTW output")
                same_length(c, temp)
                c.write(fn)

            def backward(self, c, g):
                out = lib.back(c, lib.axis, kind if kind != "dct" else "dct3")
                copyto(g, out)
        return Plan(), temp


def fourier_obligations(chk, tm, clsname, kind, axis):
    cls = getattr(tm, clsname)
    real = kind != "complex"
    func = f"transforms.{clsname}"
    N, M = Int("N"), Int("M")
    pre = [N.t >= 1, M.t >= 1] + ([M.t % 2 == 0] if real else [])
    i = z3.Int("i")
    rep = takes(lambda m=None: fourier_search(tm, clsname))

    def make(lib):
        obj = cls(N, M, rigor="estimate") if issubclass(cls, tm.FFTWBase) else cls(N, M)
        if issubclass(cls, tm.FFTWBase):
            pl = lib.plan({"FFTWComplexFFT": "c2c", "FFTWRealFFT": "c2r", "FFTWHalfComplexFFT": "hc"}[clsname])
            obj._build_fftw_plan = lambda *a, **k: pl
        return obj

    def setup():
        group = {}
        g = View(Base("g", N, axis, not real, group=group))
        c = View(Base("c", M, axis, not real, group=group))
        group["other"] = {"g": c.base, "c": g.base}
        return g, c, Lib(N, axis, g)

    def K():
        kn, km = (N - 1) // 2, (M - 1) // 2
        return sym.sym_min(kn, km)

    def forward():
        g, c, lib = setup()
        with npf.facade(tm, np=TNP(), extra={"scipy": lib.scipy()}):
            make(lib).forward(g, c, axis)
        return c, lib, K()

    def backward():
        g, c, lib = setup()
        with npf.facade(tm, np=TNP(), extra={"scipy": lib.scipy()}):
            make(lib).backward(c, g, axis)
        return g, c, lib, K()

    def body():
        for n, p in enumerate(sym.explore(forward, pre)):
            chk.paths += 1
            t = f"{clsname}.forward axis {axis} (path {n})"
            for nm, pc, goal in p.ctx.side:
                chk.obl(f"{t}: {nm}", func, pc, goal, replay=rep, observable=False)
            if p.exc is not None:
                chk.obl(f"{t}: no exception ({type(p.exc).__name__}: {p.exc})", func, p.pc, False, replay=rep, observable=False)
                continue
            c, lib, k_ = p.result
            chk.ground(f"{t}: one library call", func, lib.n_forward == 1, lib.n_forward, replay=rep, observable=False)
            Kt, w = to_int(k_), z3.RealVal(1) / z3.ToReal(N.t)
            got = c.base.fn(i)
            pc = p.pc + [i >= 0, i < M.t]
            if not real:
                # |k| <= K written out for positive and negative wavenumbers
                pos, neg = i <= Kt, M.t - i <= Kt
                for nm, cond, k in (("positive", pos, i), ("negative", z3.And(z3.Not(pos), neg), N.t - (M.t - i))):
                    want = lib.F(k)
                    chk.obl(f"{t}: {nm} wavenumbers", func, pc + [cond], z3.And(got[0] == want[0] * w, got[1] == want[1] * w), replay=rep, observable=False)
                chk.obl(f"{t}: other modes are zero", func, pc + [z3.Not(pos), z3.Not(neg)], z3.And(got[0] == 0, got[1] == 0), replay=rep, observable=False)
            else:
                k = i / 2
                chk.obl(f"{t}: mean", func, pc + [i == 0], got[0] == lib.F(z3.IntVal(0))[0] * w, replay=rep, observable=False)
                chk.obl(f"{t}: cosine modes", func, pc + [i > 0, i % 2 == 0, k <= Kt], got[0] == 2 * lib.F(k)[0] * w, replay=rep, observable=False)
                chk.obl(f"{t}: minus sine modes", func, pc + [i > 1, i % 2 == 1, k <= Kt], got[0] == 2 * lib.F(k)[1] * w, replay=rep, observable=False)
                chk.obl(f"{t}: sine zero mode is zero", func, pc + [i == 1], got[0] == 0, replay=rep, observable=False)
                chk.obl(f"{t}: unresolved modes are zero", func, pc + [k > Kt], got[0] == 0, replay=rep, observable=False)
        for n, p in enumerate(sym.explore(backward, pre)):
            chk.paths += 1
            t = f"{clsname}.backward axis {axis} (path {n})"
            for nm, pc, goal in p.ctx.side:
                chk.obl(f"{t}: {nm}", func, pc, goal, replay=rep, observable=False)
            if p.exc is not None:
                chk.obl(f"{t}: no exception ({type(p.exc).__name__}: {p.exc})", func, p.pc, False, replay=rep, observable=False)
                continue
            g, c, lib, k_ = p.result
            chk.ground(f"{t}: one library call", func, len(lib.calls) == 1, [x[0] for x in lib.calls], replay=rep, observable=False)
            if len(lib.calls) != 1:
                continue
            kd, T = lib.calls[0]
            Kt = to_int(k_)
            out, r = g.base.fn(i), lib.result(i)
            chk.obl(f"{t}: the grid data are the library's result", func, p.pc + [i >= 0, i < N.t], z3.And(out[0] == r[0], *([out[1] == r[1]] if not real else [])), replay=rep, observable=False)
            cc = c.base.orig
            Nr = z3.ToReal(N.t)
            s = {"ifft": Nr, "irfft": Nr, "packed": Nr}.get(kd, z3.RealVal(1))     # normalization of the inverse
            size = N.t / 2 + 1 if kd in ("irfft", "c2r") else N.t
            got = T(i)
            pc = p.pc + [i >= 0, i < size]
            if not real:
                pos, neg = i <= Kt, N.t - i <= Kt
                for nm, cond, k in (("positive", pos, i), ("negative", z3.And(z3.Not(pos), neg), M.t - (N.t - i))):
                    chk.obl(f"{t}: {nm} wavenumbers", func, pc + [cond], z3.And(got[0] == cc(k)[0] * s, got[1] == cc(k)[1] * s), replay=rep, observable=False)
                chk.obl(f"{t}: other entries are zero", func, pc + [z3.Not(pos), z3.Not(neg)], z3.And(got[0] == 0, got[1] == 0), replay=rep, observable=False)
                continue
            if kd in ("irfft", "c2r"):
                re = [(i == 0, cc(z3.IntVal(0))[0] * s), (z3.And(i > 0, i <= Kt), cc(2 * i)[0] * s / 2)]
                im = [(z3.And(i > 0, i <= Kt), cc(2 * i + 1)[0] * s / 2)]
                chk.obl(f"{t}: entries above K are zero", func, pc + [i > Kt], z3.And(got[0] == 0, got[1] == 0), replay=rep, observable=False)
                for nm, cond, v in [("mean", *re[0]), ("cosine modes", *re[1])]:
                    chk.obl(f"{t}: {nm}", func, pc + [cond], got[0] == v, replay=rep, observable=False)
                chk.obl(f"{t}: minus sine modes", func, pc + [im[0][0]], got[1] == im[0][1], replay=rep, observable=False)
            elif kd == "packed":
                k = (i + 1) / 2
                chk.obl(f"{t}: mean", func, pc + [i == 0], got[0] == cc(z3.IntVal(0))[0] * s, replay=rep, observable=False)
                chk.obl(f"{t}: cosine modes", func, pc + [i % 2 == 1, k <= Kt], got[0] == cc(2 * k)[0] * s / 2, replay=rep, observable=False)
                chk.obl(f"{t}: minus sine modes", func, pc + [i > 0, i % 2 == 0, k <= Kt], got[0] == cc(2 * k + 1)[0] * s / 2, replay=rep, observable=False)
                chk.obl(f"{t}: entries above K are zero", func, pc + [k > Kt], got[0] == 0, replay=rep, observable=False)
            else:
                chk.obl(f"{t}: mean", func, pc + [i == 0], got[0] == cc(z3.IntVal(0))[0], replay=rep, observable=False)
                chk.obl(f"{t}: cosine modes", func, pc + [i > 0, i <= Kt], got[0] == cc(2 * i)[0] / 2, replay=rep, observable=False)
                chk.obl(f"{t}: minus sine modes", func, pc + [N.t - i <= Kt, i > Kt], got[0] == cc(2 * (N.t - i) + 1)[0] / 2, replay=rep, observable=False)
                chk.obl(f"{t}: other entries are zero", func, pc + [i > Kt, N.t - i > Kt], got[0] == 0, replay=rep, observable=False)
    chk.sat_check(f"{clsname} sizes", pre)
    chk.contract(f"{clsname} axis {axis}", func, body)


class Conv:
    """jacobi.conversion_matrix(n, a0, b0, a, b): upper triangular n x n; leading blocks do not depend on n."""

    def __init__(self, n, rows=None, cols=None):
        self.rows, self.cols = n if rows is None else rows, n if cols is None else cols

    def resize(self, *shape):
        r, c = shape[0] if len(shape) == 1 else shape
        self.rows, self.cols = r, c

    def tocsr(self):
        return self

    def tocsc(self):
        return self

    def sum_duplicates(self):
        pass

    def __getitem__(self, k):
        raise Unsupported("indexing the conversion matrix")


def chebyshev_obligations(chk, tm, clsname, a, dealias_first, axis):
    cls = getattr(tm, clsname)
    func = f"transforms.{clsname}"
    N, M = Int("N"), Int("M")
    pre = [N.t >= 1, M.t >= 1]
    i = z3.Int("i")
    conv = a != -0.5
    rep = takes(lambda m=None: cheb_search(tm, clsname))
    tag0 = f"{clsname} a=b={a}" + (f" dealias before converting {dealias_first}" if conv else "")
    sq, sq2 = to_real(float(np.sqrt(np.pi))), to_real(float(np.sqrt(np.pi / 2)))

    def setup():
        group = {}
        g = View(Base("g", N, axis, False, group=group))
        c = View(Base("c", M, axis, False, group=group))
        group["other"] = {"g": c.base, "c": g.base}
        return g, c, Lib(N, axis, g)

    def world(lib, log):
        def conversion(n, a0, b0, a1, b1):
            if (a0, b0, a1, b1) != (-0.5, -0.5, a, a):
                raise Unsupported("conversion between other parameters")
            return Conv(n)

        def apply_sparse(mat, arr, ax, out=None, **k):
            if not isinstance(mat, Conv) or not isinstance(arr, View) or not isinstance(out, View) or ax != axis:
                raise Unsupported("apply_sparse")
            ctx().require("conversion matrix fits the data", z3.And(to_int(mat.cols) == to_int(arr.n), to_int(mat.rows) == to_int(out.n)))
            log.append(("apply", arr.read(), arr.n))
            cv = z3.Function("converted", z3.IntSort(), z3.RealSort())
            out.write(lambda j: (cv(j), ZERO))
            return out

        def solve_upper(mat, arr, ax, out=None, **k):
            if not isinstance(mat, Conv) or not isinstance(arr, View) or not isinstance(out, View) or ax != axis:
                raise Unsupported("solve_upper_sparse")
            ctx().require("conversion matrix fits the data", z3.And(to_int(mat.cols) == to_int(arr.n), to_int(mat.rows) == to_int(arr.n), to_int(out.n) == to_int(arr.n)))
            log.append(("solve", arr.read(), arr.n))
            sv = z3.Function("solved", z3.IntSort(), z3.RealSort())
            out.write(lambda j: (sv(j), ZERO))
            return out
        return {"scipy": lib.scipy(), "jacobi": types.SimpleNamespace(conversion_matrix=conversion), "apply_sparse": apply_sparse, "solve_upper_sparse": solve_upper}

    def run(direction):
        def f():
            g, c, lib = setup()
            log = []
            with npf.facade(tm, np=TNP(), extra=world(lib, log)):
                kw = dict(dealias_before_converting=dealias_first)
                obj = cls(N, M, a, a, -0.5, -0.5, **kw)
                if issubclass(cls, tm.FFTWBase):
                    pl = lib.plan("dct")
                    obj._build_fftw_plan = lambda *r, **k: pl
                getattr(obj, direction)(*((g, c) if direction == "forward" else (c, g)), axis)
            return g, c, lib, log, sym.sym_min(N, M) - 1
        return f

    def sign(k, v):
        return z3.If(k % 2 == 1, -v, v)

    def body():
        for n, p in enumerate(sym.explore(run("forward"), pre)):
            chk.paths += 1
            t = f"{tag0} forward axis {axis} (path {n})"
            for nm, pc, goal in p.ctx.side:
                chk.obl(f"{t}: {nm}", func, pc, goal, replay=rep, observable=False)
            if p.exc is not None:
                chk.obl(f"{t}: no exception ({type(p.exc).__name__}: {p.exc})", func, p.pc, False, replay=rep, observable=False)
                continue
            g, c, lib, log, k_ = p.result
            Kt, w = to_int(k_), z3.RealVal(1) / z3.ToReal(N.t)
            wantf = lambda k: z3.If(k == 0, lib.C(k)[0] * w / 2 * sq, sign(k, lib.C(k)[0] * w * sq2))
            if not conv:
                pc = p.pc + [i >= 0, i < M.t]
                got = c.base.fn(i)[0]
                chk.obl(f"{t}: coefficients", func, pc + [i <= Kt], got == wantf(i), replay=rep, observable=False)
                chk.obl(f"{t}: unresolved modes are zero", func, pc + [i > Kt], got == 0, replay=rep, observable=False)
            else:
                ok = len(log) == 1 and log[0][0] == "apply" and lib.n_forward == 1
                chk.ground(f"{t}: one conversion", func, ok, [x[0] for x in log], replay=rep, observable=False)
                if not ok:
                    continue
                _, at, n_ = log[0]
                pc = p.pc + [i >= 0, i < to_int(n_)]
                cv = z3.Function("converted", z3.IntSort(), z3.RealSort())
                chk.obl(f"{t}: converted data", func, pc, at(i)[0] == wantf(i), replay=rep, observable=False)
                want_n = sym.sym_min(N, M) if dealias_first else N
                chk.obl(f"{t}: modes converted", func, p.pc, to_int(n_) == to_int(want_n), replay=rep, observable=False)
                chk.obl(f"{t}: result of the conversion", func, p.pc + [i >= 0, i < M.t], c.base.fn(i)[0] == cv(i), replay=rep, observable=False)
        for n, p in enumerate(sym.explore(run("backward"), pre)):
            chk.paths += 1
            t = f"{tag0} backward axis {axis} (path {n})"
            for nm, pc, goal in p.ctx.side:
                chk.obl(f"{t}: {nm}", func, pc, goal, replay=rep, observable=False)
            if p.exc is not None:
                chk.obl(f"{t}: no exception ({type(p.exc).__name__}: {p.exc})", func, p.pc, False, replay=rep, observable=False)
                continue
            g, c, lib, log, k_ = p.result
            Kt = to_int(k_)
            ok = len(lib.calls) == 1 and (len(log) == 1 and log[0][0] == "solve" if conv else not log)
            chk.ground(f"{t}: one library call" + (" after one solve" if conv else ""), func, ok, str([x[0] for x in log]), replay=rep, observable=False)
            if not ok:
                continue
            kd, T = lib.calls[0]
            out = g.base.fn(i)
            chk.obl(f"{t}: the grid data are the library's result", func, p.pc + [i >= 0, i < N.t], out[0] == lib.result(i)[0], replay=rep, observable=False)
            co = c.base.orig
            if conv:
                sv = z3.Function("solved", z3.IntSort(), z3.RealSort())
                at = log[0][1]
                chk.obl(f"{t}: series truncated to the grid before conversion", func, p.pc + [i >= 0, i < M.t], at(i)[0] == z3.If(i <= Kt, co(i)[0], ZERO), replay=rep, observable=False)
                src = lambda k: sv(k)
            else:
                src = lambda k: co(k)[0]
            got = T(i)[0]
            pc = p.pc + [i >= 0, i < N.t]
            chk.obl(f"{t}: mean", func, pc + [i == 0], got == src(z3.IntVal(0)) * to_real(1 / np.sqrt(np.pi)), replay=rep, observable=False)
            chk.obl(f"{t}: modes", func, pc + [i > 0, i <= Kt], got == sign(i, src(i)) * to_real((1 / 2) / np.sqrt(np.pi / 2)), replay=rep, observable=False)
            chk.obl(f"{t}: entries above K are zero", func, pc + [i > Kt], got == 0, replay=rep, observable=False)
    chk.contract(f"{tag0} axis {axis}", func, body)


# ------------------------------------------------------------------------------------------ bounded: real transforms

def complex_series(N, M):
    K = min((N - 1) // 2, (M - 1) // 2)
    x = 2 * np.pi * np.arange(N) / N
    B = np.zeros((N, M), complex)
    Fw = np.zeros((M, N), complex)
    for k in range(-K, K + 1):
        B[:, k % M] = np.exp(1j * k * x)
        Fw[k % M] = np.exp(-1j * k * x) / N
    return B, Fw


def real_series(N, M):
    K = min((N - 1) // 2, (M - 1) // 2)
    x = 2 * np.pi * np.arange(N) / N
    B, Fw = np.zeros((N, M)), np.zeros((M, N))
    for k in range(K + 1):
        B[:, 2 * k] = np.cos(k * x)
        Fw[2 * k] = np.cos(k * x) * (1 if k == 0 else 2) / N
        if k:
            B[:, 2 * k + 1] = -np.sin(k * x)
            Fw[2 * k + 1] = -np.sin(k * x) * 2 / N
    return B, Fw


def jacobi_values(n, a, b, x):
    """Orthonormal Jacobi polynomials by scipy's evaluation."""
    from scipy import special as sp
    k = np.arange(n)
    with np.errstate(all="ignore"):
        out = np.zeros((n, len(x)))
        for j in range(n):
            if j == 0:
                lh = (a + b + 1) * math.log(2) + sp.betaln(a + 1, b + 1)
            else:
                lh = (a + b + 1) * math.log(2) - math.log(2 * j + a + b + 1) + sp.gammaln(j + a + 1) + sp.gammaln(j + b + 1) - sp.gammaln(j + 1) - sp.gammaln(j + a + b + 1)
            out[j] = sp.eval_jacobi(j, a, b, x) * math.exp(-lh / 2)
    return out


def jacobi_series(N, M, a, b, a0, b0, dealias_first):
    """Backward: truncated series at the (a0, b0) Gauss grid; forward: quadrature coefficients in (a0, b0),
    truncated, re-expanded in (a, b) (exact quadrature of polynomial products)."""
    from scipy import special as sp
    x, w = sp.roots_jacobi(N, a0, b0) if (a0, b0) != (-0.5, -0.5) else sp.roots_chebyt(N)
    o = np.argsort(x)
    x, w = x[o], w[o]
    K = min(N, M)
    B = np.zeros((N, M))
    B[:, :K] = jacobi_values(K, a, b, x).T
    L = K if dealias_first else N
    P0 = jacobi_values(N, a0, b0, x) * w          # coefficients in the base polynomials
    n2 = max(N, M) + 2
    y, v = sp.roots_jacobi(n2, a, b)
    C = (jacobi_values(max(N, M), a, b, y) * v) @ jacobi_values(N, a0, b0, y).T      # (a0,b0) -> (a,b)
    F = C[:, :L] @ P0[:L]
    return B, F[:M]


def apply_axis(mat, data, axis):
    return np.moveaxis(np.tensordot(mat, data, axes=(1, axis)), 0, axis)


def aliased(gshape, cshape, dtype, seed):
    """Grid and coefficient arrays in one buffer of arbitrary content, as fields have them."""
    n = max(math.prod(gshape), math.prod(cshape), 1)
    rng = np.random.default_rng(seed)
    raw = rng.standard_normal(n * (2 if dtype == complex else 1))
    buf = raw.view(dtype)
    return np.ndarray(gshape, dtype, buf), np.ndarray(cshape, dtype, buf)


def transform_problem(plan, B, Fw, shape, axis, dtype, seed=0, tol=1e-11, forward=True):
    N, M = B.shape
    gs, cs = list(shape), list(shape)
    gs[axis], cs[axis] = N, M
    rng = np.random.default_rng(seed)
    for trial in range(2):
        g, c = aliased(gs, cs, dtype, seed + trial)
        cdata = rng.standard_normal(cs) + (1j * rng.standard_normal(cs) if dtype == complex else 0)
        np.copyto(c, cdata)
        plan.backward(c, g, axis)
        want = apply_axis(B, cdata, axis)
        if not np.allclose(g, want, atol=tol, rtol=tol):
            return {"direction": "backward", "N": N, "M": M, "shape": shape, "axis": axis, "coefficients": cdata, "got": g, "series": want}
        g, c = aliased(gs, cs, dtype, seed + 5 + trial)
        gdata = rng.standard_normal(gs) + (1j * rng.standard_normal(gs) if dtype == complex else 0)
        np.copyto(g, gdata)
        plan.forward(g, c, axis)
        want = apply_axis(Fw, gdata, axis)
        if not np.allclose(c, want, atol=tol * (1 + np.abs(want).max()), rtol=tol):
            return {"direction": "forward", "N": N, "M": M, "shape": shape, "axis": axis, "grid data": gdata, "got": c, "quadrature": want}
    return None


FOURIER = {"ComplexFourierMMT": complex, "ScipyComplexFFT": complex, "FFTWComplexFFT": complex,
           "RealFourierMMT": float, "FFTPACKRealFFT": float, "ScipyRealFFT": float, "FFTWRealFFT": float, "FFTWHalfComplexFFT": float}


def run_fourier(case):
    from dedalus.core import transforms as tm
    clsname, N, M, shape, axis = case
    cls = getattr(tm, clsname)
    dt = FOURIER[clsname]
    plan = cls(N, M, rigor="estimate") if issubclass(cls, tm.FFTWBase) else cls(N, M)
    B, Fw = (complex_series if dt is complex else real_series)(N, M)
    return transform_problem(plan, B, Fw, shape, axis, dt, seed=N * 100 + M)


def fourier_cases(thorough=False, only=None, upto=9):
    shapes = [((1,), 0), ((2, 1, 3), 1), ((1, 2), 0), ((3, 1), 1)]
    for clsname, dt in FOURIER.items():
        if only and clsname != only:
            continue
        for N in list(range(1, upto)) + [12, 15, 16]:
            for M in (range(1, upto) if dt is complex else range(2, upto, 2)):
                for shape, axis in (shapes if N < 6 and M < 6 or thorough else shapes[(N + M) % 4:(N + M) % 4 + 1]):
                    yield (clsname, N, M, shape, axis)
            for M in (14, 20, 21):
                if dt is complex or M % 2 == 0:
                    yield (clsname, N, M, (2, 1), 1)


def fourier_search(tm, clsname):
    for c in fourier_cases(only=clsname):
        bad = run_fourier(c)
        if bad:
            return {"transform": clsname, **bad}


def run_cheb(case):
    from dedalus.core import transforms as tm
    clsname, N, M, a, b, a0, b0, dealias_first, shape, axis = case
    cls = getattr(tm, clsname)
    plan = cls(N, M, a, b, a0, b0, dealias_before_converting=dealias_first)
    B, Fw = jacobi_series(N, M, a, b, a0, b0, dealias_first)
    return transform_problem(plan, B, Fw, shape, axis, float, seed=N * 100 + M, tol=1e-9)


def cheb_cases(only=None, thorough=False):
    sizes = (1, 2, 3, 4, 5, 8, 9, 13)
    shapes = [((1,), 0), ((2, 1, 3), 1), ((1, 2), 0), ((3, 1), 1)]
    T = (-0.5, -0.5)
    for clsname in ("JacobiMMT", "ScipyFastChebyshevTransform", "FFTWFastChebyshevTransform"):
        if only and clsname != only:
            continue
        params = [(T, T), ((0.5, 0.5), T), ((1.5, 1.5), T)]
        if clsname == "JacobiMMT":
            params += [((0, 0), (0, 0)), ((1, 1), (0, 0)), ((2, 2), (0, 0)), ((0.5, 1.5), (-0.5, 0.5)), ((0, 1), (0, 0))]
        for (a, b), (a0, b0) in params:
            for d in ((True, False) if (a, b) != (a0, b0) else (True,)):
                for n, (N, M) in enumerate(itertools.product(sizes, sizes)):
                    for shape, axis in (shapes if thorough else shapes[n % 4:n % 4 + 1]):
                        yield (clsname, N, M, a, b, a0, b0, d, shape, axis)


def cheb_search(tm, clsname):
    for c in cheb_cases(only=clsname):
        bad = run_cheb(c)
        if bad:
            return {"case": c, **bad}


def run_field(case):
    """Fields on real bases with all libraries, several axes, scales and component counts: direct summation."""
    import dedalus.public as d3
    kinds, sizes, scales, rank, libs, seed = case
    dt = complex if "CF" in kinds else float
    names = "xyz"[:len(kinds)]
    cs = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(cs, dtype=np.dtype(dt).type)
    bases, mats = [], []
    for n, (kind, M, s, lib) in enumerate(zip(kinds, sizes, scales, libs)):
        N = int(np.ceil(s * M)) if M > 1 else 1
        kw = dict(bounds=(0, 2), dealias=2)
        if kind == "RF":
            b = d3.RealFourier(cs[names[n]], M, library=lib, **kw)
            mats.append(real_series(N, M) if M > 1 else (np.ones((1, 1)),) * 2)
        elif kind == "CF":
            b = d3.ComplexFourier(cs[names[n]], M, library=lib, **kw)
            mats.append(complex_series(N, M))
        else:
            par = {"T": (-0.5, -0.5), "L": (0, 0), "U": (0.5, 0.5)}[kind]
            a0 = (-0.5, -0.5) if kind != "L" else par
            b = d3.Jacobi(cs[names[n]], M, a=par[0], b=par[1], a0=a0[0], b0=a0[1], library=lib, **kw)
            mats.append(jacobi_series(N, M, *par, *a0, True))
        bases.append(b)
    f = dist.Field(bases=tuple(bases), tensorsig=(cs,) * rank)
    rng = np.random.default_rng(seed)
    shape = f["c"].shape
    c = rng.standard_normal(shape) + (1j * rng.standard_normal(shape) if dt is complex else 0)
    want = c
    for n, (B, F) in enumerate(mats):
        want = apply_axis(B, want, rank + n)
    for trial in range(2):
        f.change_scales(scales)
        f["c"] = c
        got = f["g"]
        if got.shape != want.shape or not np.allclose(got, want, atol=1e-10):
            return {"direction": "backward", "got": got, "series": want}
        f.change_scales(scales)
        g = rng.standard_normal(want.shape) + (1j * rng.standard_normal(want.shape) if dt is complex else 0)
        f["g"] = g
        wc = g
        for n, (B, F) in enumerate(mats):
            wc = apply_axis(F, wc, rank + n)
        got = f["c"]
        if got.shape != wc.shape or not np.allclose(got, wc, atol=1e-10):
            return {"direction": "forward", "got": got, "quadrature": wc}
    return None


def field_cases(seed):
    rl, cl, jl = ["fftw", "scipy", "matrix", "fftpack", "fftw_hc"], ["fftw", "scipy", "matrix"], ["fftw_dct", "scipy_dct", "matrix"]
    out = []
    for lib in rl:
        for M, s in ((8, 1), (8, 1.5), (8, 0.5), (2, 1), (2, 2), (6, 1 / 3), (12, 0.26), (4, 0.3), (8, 3)):
            out.append((("RF",), (M,), (s,), 0, (lib,), seed))
        out.append((("RF", "T"), (6, 5), (1.5, 1.5), 1, (lib, "matrix"), seed))
        out.append((("RF", "RF", "U"), (4, 6, 3), (0.75, 1.5, 2), 2, (lib, lib, "fftw_dct"), seed))
    for lib in cl:
        for M, s in ((8, 1), (7, 1.5), (9, 0.5), (2, 1), (3, 2), (6, 1 / 3), (5, 0.21), (1, 1)):
            out.append((("CF",), (M,), (s,), 0, (lib,), seed))
        out.append((("CF", "CF", "T"), (5, 4, 3), (0.7, 1.5, 2), 1, (lib, lib, "scipy_dct"), seed))
    for lib in jl:
        for kind in "TU":
            for M, s in ((8, 1), (7, 1.5), (9, 0.5), (2, 2), (6, 1 / 6), (1, 1), (12, 0.1)):
                out.append(((kind,), (M,), (s,), 0, (lib,), seed))
        out.append((("T", "U"), (4, 5), (1.5, 0.6), 1, (lib, lib), seed))
    out.append((("L", "L"), (4, 5), (1.5, 0.6), 2, ("matrix", "matrix"), seed))
    return out


def curvilinear(name, dtype, shape):
    import dedalus.public as d3
    if name in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.DiskBasis(cs, shape, dtype, radius=1.5, dealias=2) if name == "disk" else d3.AnnulusBasis(cs, shape, dtype, radii=(0.5, 1.5), dealias=2)
    elif name == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.SphereBasis(cs, shape, dtype, radius=2, dealias=2)
    else:
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.BallBasis(cs, shape, dtype, radius=1.5, dealias=2) if name == "ball" else d3.ShellBasis(cs, shape, dtype, radii=(0.5, 1.5), dealias=2)
    return cs, dist, b


def run_curvilinear(case):
    """Random valid coefficients: grid values on a finer grid interpolate the same functions (transforms at two
    scales agree through coefficients), forward of backward returns them, stale entries are zero."""
    name, dtype, shape, rank, k = case
    cs, dist, basis = curvilinear(name, dtype, shape)
    if k:
        basis = basis.derivative_basis(k) if hasattr(basis, "derivative_basis") else basis
    f = dist.Field(bases=basis, tensorsig=(cs,) * rank)
    f.fill_random("g", seed=7)
    f["c"]
    valid = f.valid_modes
    bad = np.abs(f["c"][~np.broadcast_to(valid, f["c"].shape)])
    info = {"basis": name, "dtype": np.dtype(dtype).name, "shape": shape, "rank": rank, "k": k}
    if bad.size and bad.max() > 1e-10:
        return {**info, "violates": "modes the basis does not have are zero after a forward transform", "largest": float(bad.max())}
    c0 = f["c"].copy()
    for s in (1, 1.5, 2):
        f.change_scales(s)
        f["c"] = c0
        f["g"]
        # unrelated content in the buffer does not survive
        got = f["c"]
        if not np.allclose(got, c0, atol=1e-9 * max(1, np.abs(c0).max())):
            return {**info, "violates": "forward of backward returns the coefficients", "scales": s, "largest difference": float(np.abs(got - c0).max())}
    # dirty buffer: same data loaded over garbage gives the same coefficients
    f.change_scales(1)
    f["c"] = c0
    g = f["g"].copy()
    f.buffer.view(np.float64)[:] = 1e3
    f["g"] = g
    if not np.allclose(f["c"], c0, atol=1e-9 * max(1, np.abs(c0).max())):
        return {**info, "violates": "coefficients do not depend on old buffer content", "largest difference": float(np.abs(f["c"] - c0).max())}
    for s in (1, 2):
        f.preset_scales(s)
        f.preset_layout("c")
        f.buffer.view(np.float64)[:] = 1e3
        f["c"] = c0
        got = f["g"].copy()
        # the same values from an independently created field
        h = dist.Field(bases=basis, tensorsig=(cs,) * rank)
        h.preset_scales(s)
        h["c"] = c0
        if not np.allclose(got, h["g"], atol=1e-9):
            return {**info, "violates": "grid values do not depend on old buffer content"}
    # smaller grid: unresolved modes are zero, resolved series is evaluated: compare with the truncated field
    return None


def sphere_values(L, m, theta):
    from scipy import special as sp
    x = np.cos(theta)
    # fully normalized associated Legendre functions (norm 1 in d cos theta)
    am = abs(m)
    return jacobi_values(L - am + 1, am, am, x)[L - am] * (1 - x**2)**(am / 2)


def run_sphere_series(case):
    """Scalar fields on the sphere, disk, ball: each coefficient's function at the grid against formulas in scipy's Jacobi polynomials."""
    name, shape = case
    cs, dist, basis = curvilinear(name, np.complex128, shape)
    f = dist.Field(bases=basis)
    f.change_scales(1.5)
    phi, *rest = dist.local_grids(basis, scales=(1.5,) * basis.dim)
    ones = f["c"] * 0
    valid = np.broadcast_to(f.valid_modes, f["c"].shape).copy()
    rng = np.random.default_rng(1)
    idx = np.argwhere(valid)
    rng.shuffle(idx)
    for ix in idx[:40]:
        c = ones.copy()
        c[tuple(ix)] = 1
        f.change_scales(1.5)
        f["c"] = c
        got = f["g"]
        glay = dist.coeff_layout
        group = glay.local_group_arrays(basis.domain(dist), 1)
        m = group[0][tuple(ix)]
        if 2 * abs(m) == shape[0]:
            if np.abs(got).max() > 1e-12:
                return {"basis": name, "coefficient": ix.tolist(), "m": int(m), "violates": "unpaired Nyquist modes are zero"}
            continue
        if name == "sphere":
            ell = group[1][tuple(ix)]
            want = np.exp(1j * m * phi) * sphere_values(ell, m, np.ravel(rest[0]))[None, :]
        elif name == "disk":
            # index n along the radius: polynomial degree m + 2(n - |m|//2)... orthonormal with weight r dr
            n = ix[1] - abs(m) // 2
            r = np.ravel(rest[0]) / 1.5
            z = 2 * r**2 - 1
            want = np.exp(1j * m * phi) * (r**abs(m) * jacobi_values(n + 1, 0, abs(m), z)[n] * 2**((abs(m) + 2) / 2))[None, :] if n >= 0 else None
        if want is None:
            continue
        # normalization and sign conventions are compared up to a constant factor per (m, family)
        k = np.vdot(want.ravel(), got.ravel()) / np.vdot(want.ravel(), want.ravel())
        if np.abs(got - k * want).max() > 1e-9 * np.abs(got).max() or np.abs(k) < 1e-3:
            return {"basis": name, "coefficient": ix.tolist(), "m": m, "violates": "function of one coefficient", "error": float(np.abs(got - k * want).max())}
    return None


def sphere_plan(case):
    """Spin-weighted harmonics: sign(m, s) (1-x)^(|m+s|/2) (1+x)^(|m-s|/2) P_(l-lmin), orthonormal; l below the number of points kept."""
    from dedalus.core import transforms as tm
    from scipy import special as sp
    Nt, Lmax, s = case
    ms = list(range(-min(Lmax, 6), min(Lmax, 6) + 1)) + [Lmax + 2]
    maps = tuple((m, slice(i, i + 1), slice(i, i + 1), slice(abs(m), Lmax + 1)) for i, m in enumerate(ms))
    plan = tm.SWSHColatitudeTransform(Nt, Lmax, maps, s)
    x, w = sp.roots_legendre(Nt)
    rng = np.random.default_rng(Nt)
    for pre in (0, 1):
        g, c = aliased((len(ms), Nt, 2) if not pre else (2, len(ms), Nt), (len(ms), Lmax + 1, 2) if not pre else (2, len(ms), Lmax + 1), float, 3)
        g, c = g.copy(), c * 0
        c2 = rng.standard_normal(c.shape)
        g2 = rng.standard_normal(g.shape)
        ax = 1 + pre
        plan.forward(g, c, ax)
        plan.backward(c2, g2, ax)
        for i, m in enumerate(ms):
            sel = (slice(None),) * pre + (i,)
            lmin = max(abs(m), abs(s))
            n = max(Lmax + 1 - lmin, 0)
            a, b = abs(m + s), abs(m - s)
            Y = jacobi_values(n, a, b, x) * (1 - x)**(a / 2) * (1 + x)**(b / 2)
            l = np.arange(lmin, lmin + n)
            Y = Y * (l < Nt)[:, None]
            wf = np.zeros(np.moveaxis(c[sel], pre, 0).shape)
            wf[lmin:Lmax + 1] = np.tensordot(Y * w, np.moveaxis(g[sel], pre, 0), axes=(1, 0))
            wb = np.tensordot(Y.T, np.moveaxis(c2[sel], pre, 0)[lmin:Lmax + 1], axes=(1, 0))
            gf, gb = np.moveaxis(c[sel], pre, 0), np.moveaxis(g2[sel], pre, 0)
            for nm, got, want in (("forward", gf, wf), ("backward", gb, wb)):
                if min(np.abs(got - want).max(initial=0), np.abs(got + want).max(initial=0)) > 1e-9:
                    return {"transform": "SWSHColatitudeTransform", "direction": nm, "grid": Nt, "Lmax": Lmax, "spin": s, "m": m, "got": got, "series (up to sign)": want}
    return None


def zernike_values(n, dim, k, l, z):
    return jacobi_values(n, k, l + dim / 2 - 1, z) * ((1 + z) / 2)**(l / 2)


def zernike_reference(dim, Ng, Nc, l, nmin, k, alpha, dealias_first):
    """Backward and forward matrices up to one constant: exact re-expansion of the base quadrature coefficients."""
    from scipy import special as sp
    b0 = dim / 2 - 1
    z, w = sp.roots_jacobi(Ng, alpha, b0)
    n = max(Nc - nmin, 0)
    top = max(Ng - l // 2, 0)
    norm = 2**((l) / 2)             # int Q_n^2 (1-z)^k (1+z)^(dim/2-1) dz is one
    B = zernike_values(n, dim, alpha + k, l, z) * norm
    B[top:] = 0
    L = min(top, (Nc if dealias_first else max(Ng, Nc)) - nmin)
    P = (zernike_values(max(L, 0), dim, alpha, l, z) * norm * w)
    y, v = sp.roots_jacobi(max(Ng, Nc) + l + 3, alpha + k, b0 + l)
    C = (jacobi_values(n, alpha + k, l + b0, y) * v) @ jacobi_values(max(L, 0), alpha, l + b0, y).T
    return B.T, C @ P


def radial_plan(case):
    from dedalus.core import transforms as tm
    kind, Ng, Nc, s, k, alpha, d = case
    rng = np.random.default_rng(Ng * 31 + Nc)
    ratio = {}
    if kind == "disk":
        ms = list(range(-min(2 * Nc - 2, 5), min(2 * Nc - 2, 5) + 1)) + ([2 * Nc + 1] if k == 0 else [])
        maps = tuple((m, slice(i, i + 1), slice(i, i + 1), slice(abs(m) // 2, None)) for i, m in enumerate(ms))
        plan = tm.DiskRadialTransform((len(ms), Ng), (2 * len(ms), Nc), 1, maps, s, k, alpha, dealias_before_converting=d)
        cells = [((i,), m, abs(m + s), abs(m) // 2, abs(m) <= 2 * (Nc - 1), False) for i, m in enumerate(ms)]
        lead, axis, dim = (len(ms),), 1, 2
    else:
        regindex, regtotal = s
        ells = list(range(min(2 * Nc - 1, 6)))
        maps = tuple((l, slice(None), slice(i, i + 1)) for i, l in enumerate(ells))
        plan = tm.BallRadialTransform((2, len(ells), Ng), Nc, 2, maps, regindex, regtotal, k, alpha, dealias_before_converting=d)
        # regularity components of a harmonic tensor: partial sums of l + components (last index first) stay allowed
        def forbidden(l):
            w = l
            for r in reversed([(-1, 1, 0)[j] for j in regindex]):
                if w == 0 and r in (-1, 0) or w + r < 0:
                    return True
                w += r
            return False
        cells = [((j, i), l, l + regtotal, l // 2, True, forbidden(l)) for i, l in enumerate(ells) for j in (0, 1)]
        lead, axis, dim = (2, len(ells)), 2, 3
    g, c = rng.standard_normal(lead + (Ng,)), np.zeros(lead + (Nc,))
    c2, g2 = rng.standard_normal(lead + (Nc,)), rng.standard_normal(lead + (Ng,))
    plan.forward(g, c, axis)
    plan.backward(c2, g2, axis)
    for ix, m, l, nmin, resolved, zero in cells:
        if l < 0:
            zero = True
        if not resolved or zero:
            wb, wf = np.zeros(Ng), np.zeros(Nc)
        else:
            B, F = zernike_reference(dim, Ng, Nc, l, nmin, k, alpha, d)
            wb = B @ c2[ix][nmin:]
            wf = np.zeros(Nc)
            wf[nmin:] = F @ g[ix]
        for nm, got, want in (("backward", g2[ix], wb), ("forward", c[ix], wf)):
            big = np.abs(want).max(initial=0)
            if big < 1e-9:
                if np.abs(got).max(initial=0) > 1e-9:
                    return {"transform": kind, "direction": nm, "case": case, "order": m, "got": got, "series": want}
                continue
            r = ratio.setdefault(nm, np.vdot(want, got) / np.vdot(want, want))
            if np.abs(got - r * want).max() > 1e-8 * abs(r) * big or r <= 0:
                return {"transform": kind, "direction": nm, "case": case, "order": m, "got": got, "series": r * want}
    if len(ratio) == 2 and abs(ratio["backward"] * ratio["forward"] - 1) > 1e-9:
        return {"transform": kind, "case": case, "violates": "forward inverts backward", "normalizations": ratio}
    return None


def plan_cases(thorough):
    for Nt in (1, 2, 3, 5, 8, 13):
        for Lmax in (0, 1, 4, 7):
            for s in (-2, -1, 0, 1, 2):
                yield ("sphere", Nt, Lmax, s)
    for Ng in (1, 2, 3, 5, 8, 12):
        for Nc in (1, 2, 4, 7):
            for k, d in ((0, True), (1, True), (1, False), (2, True), (2, False)):
                for alpha in ((0, 1) if thorough else (0,)):
                    for s in (-2, -1, 0, 1, 2):
                        yield ("disk", Ng, Nc, s, k, alpha, d)
                    regs = [((), 0), ((0,), -1), ((1,), 1), ((2,), 0), ((0, 1), 0), ((1, 0), 0), ((2, 0), -1), ((0, 0), -2)]
                    for r in regs if thorough else regs[:6]:
                        yield ("ball", Ng, Nc, r, k, alpha, d)


def run_plan(case):
    return sphere_plan(case[1:]) if case[0] == "sphere" else radial_plan(case)


def run_spatial_plans(case):
    """Curvilinear transform plans directly on stale arrays: every coefficient entry is written; grids of any size."""
    name, dtype, shape, scale, rank = case
    cs, dist, basis = curvilinear(name, dtype, shape)
    f = dist.Field(bases=basis, tensorsig=(cs,) * rank)
    f.preset_scales(scale)
    outs = []
    for junk in (0.0, 1e4):
        f.preset_layout("g")
        f.buffer.view(np.float64)[:] = junk
        g = np.random.default_rng(5).standard_normal(f.data.shape)
        f["g"] = g
        outs.append(f["c"].copy())
        f.preset_scales(scale)
    if not np.allclose(outs[0], outs[1], atol=1e-8, equal_nan=False):
        return {"basis": name, "dtype": np.dtype(dtype).name, "shape": shape, "scales": scale, "rank": rank,
                "violates": "no stale data in the coefficients", "largest difference": float(np.abs(outs[0] - outs[1]).max())}
    # idempotence of the projection: the kept modes reproduce themselves on this grid
    f.preset_scales(scale)
    f["c"] = outs[0]
    g1 = f["g"].copy()
    f["g"] = g1
    c2 = f["c"]
    if not np.allclose(c2, outs[0], atol=1e-8 * max(1, np.abs(outs[0]).max())):
        # only the modes the grid resolves are kept: compare on the grid
        f["c"] = c2.copy()
        if not np.allclose(f["g"], g1, atol=1e-7 * max(1, np.abs(g1).max())):
            return {"basis": name, "dtype": np.dtype(dtype).name, "shape": shape, "scales": scale, "rank": rank, "violates": "forward and backward transforms are inverse on resolved modes"}
    return None


def run(chk):
    from dedalus.core import transforms as tm
    chk.trust("scipy.fft, scipy.fftpack and FFTW compute the sums they document (DFT, half spectrum, half-complex, DCT-II and III); plan execution in fftw_wrappers.pyx")
    chk.assume("reindexing k = j mod N of the finite Fourier sum (|k| <= K < N/2): elementary")
    chk.assume("np.sqrt(np.pi) and its reciprocal, as floating-point numbers, stand for the real constants in the normalization")
    chk.assume("real Fourier coefficient sizes are even, sizes are at least 1")
    for clsname, dt in FOURIER.items():
        if clsname.endswith("MMT"):
            continue
        for axis in (0, 1):
            fourier_obligations(chk, tm, clsname, "complex" if dt is complex else "real", axis)
    for clsname in ("ScipyFastChebyshevTransform", "FFTWFastChebyshevTransform"):
        for a, d in ((-0.5, True), (0.5, True), (0.5, False), (1.5, True)):
            for axis in ((0, 1) if a == -0.5 else (1,)):
                chebyshev_obligations(chk, tm, clsname, a, d, axis)
    chk.bounded("Fourier transforms against direct summation", "8 transforms, sizes 1-8 and listed larger ones, 4 array shapes, data in one shared buffer",
                fourier_cases(chk.thorough, upto=9 if not chk.thorough else 16), run_fourier, budget=200 if not chk.thorough else 1500)
    chk.bounded("Jacobi transforms against direct summation", "3 transforms, 8x8 sizes, 8 parameter sets, both dealias orders",
                cheb_cases(thorough=chk.thorough), run_cheb, budget=150 if not chk.thorough else 1500)
    chk.bounded("fields against direct summation", "all libraries, 1-3 dimensions, scales 0.1 to 3, ranks 0-2", field_cases(chk.seed), run_field, budget=120)
    chk.bounded("curvilinear plans against direct summation", "spin-weighted harmonics, disk and ball polynomials: grids 1-13, truncations 1-7, 5 spins or 6 regularities, k 0-2",
                plan_cases(chk.thorough), run_plan, budget=200 if not chk.thorough else 900)
    f8, c16 = np.float64, np.complex128
    curv = []
    for name, shapes in (("disk", [(8, 5), (4, 8), (16, 5), (1, 5), (2, 4)]), ("annulus", [(8, 5), (4, 8), (1, 5)]), ("sphere", [(8, 5), (12, 8), (1, 6), (2, 6)]),
                         ("ball", [(8, 4, 5), (4, 4, 3), (1, 1, 5), (1, 4, 4)]), ("shell", [(8, 4, 3), (1, 1, 5), (1, 4, 4)])):
        for shape in shapes:
            for dt in ((f8, c16) if (name, shape) != ("sphere", (2, 6)) else (c16,)):
                for rank in (0, 1, 2):
                    curv.append((name, dt, shape, rank, 0))
                curv.append((name, dt, shape, 1, 1))
    chk.bounded("curvilinear transforms return resolvable data", "5 bases, listed shapes, real and complex, ranks 0-2, derivative basis", curv, run_curvilinear, budget=200)
    chk.bounded("curvilinear transforms leave no stale data", "5 bases, scales 0.25 to 2", [(n, dt, s, sc, r) for n, dt, s, r, k in curv if not k and r < 2 for sc in (0.25, 0.5, 1, 1.5)],
                run_spatial_plans, budget=200)
    chk.bounded("single modes on the sphere and disk", "40 modes each", [("sphere", (8, 6)), ("sphere", (8, 5)), ("disk", (8, 6)), ("disk", (12, 5))], run_sphere_series)
