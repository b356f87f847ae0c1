"""D02: transposing between layouts moves every coefficient and nothing else.

Contracts
  transposes.pyx split_rows/combine_rows/split_columns/combine_columns (cut from the current source, five nested loops with a
    running counter, cut by invariants; sizes, block boundaries and data symbolic): element (n0,n1,n2,n3) of the array and
    buffer position POS(p,n0,n1,n2,n3) exchange their values, every element is visited once, no access outside the arrays.
  AlltoallvTranspose/FFTWTranspose.__init__ (lowered, executed on symbolic sizes, ranks and chunks): block boundaries agree
    with distributor.Layout (real function) of the same axis; the segment that rank r sends to p has the length and element
    order that p expects from r; segments tile the buffers; view shapes and FFTW plan arguments describe the same blocks.
  localize_rows/localize_columns: pack, exchange, unpack with the matching buffers.
  distributor.Transpose: grouped and individual transposes give every field the same data and layout.
"""

import ast
import itertools
import json
import math
import types

import numpy as np
import z3

from vf import sym, npf, imp, poly, mpi, boot
from vf.poly import P
from vf.sym import Int, to_int, Unsupported

I = z3.IntSort()


def ints(*names):
    return [z3.Int(n) for n in names]


# ------------------------------------------------------------------ pack and unpack loops
class Pack:
    """Geometry of one pack/unpack function. rows: the segments run over axis 1 (rows), else over axis 2 (columns)."""

    def __init__(self, rows):
        self.rows = rows
        self.N0, self.N3, self.L, self.NS, self.size = ints("N0", "N3", "local", "Nseg", "size")
        self.st = z3.Function("start", I, I)
        self.enc = z3.Function("enc", I, I, I, I, I)
        self.dec = [z3.Function(f"dec{k}", I, I) for k in range(4)]
        p = z3.Int("p")
        st = self.st
        self.pre = [self.N0 >= 0, self.N3 >= 0, self.L >= 1, self.size >= 1, self.NS >= 0, st(0) == 0, st(self.size) == self.NS,
                    z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < self.size), z3.And(0 <= st(p), st(p) <= st(p + 1), st(p + 1) <= self.NS)),
                              patterns=[st(p)])]
        self.total = self.N0 * self.NS * self.L * self.N3
        s1, s2 = (self.NS, self.L) if rows else (self.L, self.NS)
        self.shapeA = [self.N0, s1, s2, self.N3]
        self.A = imp.fn_array("A", 4, "real", self.shapeA)
        self.B = imp.fn_array("B", 1, "real", [self.total])
        starts = imp.Arr("starts", [self.size], lambda q: st(q), "int")
        ends = imp.Arr("ends", [self.size], lambda q: st(q + 1), "int")
        w = "row" if rows else "col"
        self.attrs = {"N0": self.N0, "N3": self.N3, f"{w}_starts": starts, f"{w}_ends": ends, "pycomm.size": self.size,
                      ("local_col_count" if rows else "local_row_count"): self.L}

    def pos(self, p, n0, n1, n2, n3):
        """Buffer position of an element of segment p (n1, n2 count from the start of the array axis)."""
        st, L, N0, N3 = self.st, self.L, self.N0, self.N3
        r = st(p + 1) - st(p)
        if self.rows:
            return N0 * L * N3 * st(p) + ((n0 * r + (n1 - st(p))) * L + n2) * N3 + n3
        return N0 * L * N3 * st(p) + ((n0 * L + n1) * r + (n2 - st(p))) * N3 + n3

    def seg(self, p, n1, n2):
        """(first, second digit, radices) inside segment p."""
        r = self.st(p + 1) - self.st(p)
        return ((n1 - self.st(p), r), (n2, self.L)) if self.rows else ((n1, self.L), (n2 - self.st(p), r))

    def bounds(self, p, n0, n1, n2, n3):
        """Instances of the mixed-radix bound lemma giving 0 <= pos < total for a valid element."""
        (a, ra), (b, rb) = self.seg(p, n1, n2)
        t1 = n0 * ra + a
        t2 = t1 * rb + b
        t3 = t2 * self.N3 + n3
        r = self.st(p + 1) - self.st(p)
        u = self.N0 * self.L * self.N3
        return [digit(n0, self.N0, a, ra), digit(t1, self.N0 * ra, b, rb), digit(t2, self.N0 * ra * rb, n3, self.N3),
                z3.Implies(u >= 0, z3.And(u * self.st(p) >= 0, u * self.st(p + 1) <= u * self.NS)), u >= 0,
                self.st(p) >= 0]

    def valid(self, p, n0, n1, n2, n3):
        (a, ra), (b, rb) = self.seg(p, n1, n2)
        return z3.And(0 <= p, p < self.size, 0 <= n0, n0 < self.N0, 0 <= a, a < ra, 0 <= b, b < rb, 0 <= n3, n3 < self.N3)


def digit(a, A, b, Bx):
    """Lemma instance: 0<=a<A, 0<=b<B  =>  0 <= a*B+b < A*B."""
    return z3.Implies(z3.And(0 <= a, a < A, 0 <= b, b < Bx), z3.And(0 <= a * Bx + b, a * Bx + b < A * Bx))


def pack_spec(low, pk, combine):
    kinds = imp.loop_shape(low.body)
    if [k for k, _ in kinds] != [(0,) * n for n in range(1, 6)] or any(k != "range" for _, k in kinds):
        raise Unsupported("loop structure")
    N0, N3, L, st = pk.N0, pk.N3, pk.L, pk.st
    args = [None, pk.B, pk.A] if combine else [None, pk.A, pk.B]
    iA, iB = (2, 1) if combine else (1, 2)

    inner = low.body
    for _ in range(5):
        inner = [x for x in inner if isinstance(x, ast.For)][0].body
    assigned = {t.id for x in inner for t in (x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else [])
                if isinstance(t, ast.Name)}
    if len(assigned) != 1:
        raise Unsupported(f"running counter not identified: {sorted(assigned)}")
    name = assigned.pop()

    def counter(S):
        return S.st[name]

    def at(S):
        """Closed form of the counter at the start of the current iteration of each loop level."""
        lv = S.loops
        p = lv[0]
        if len(lv) == 1:
            return N0 * L * N3 * st(p)
        first = [st(p)] if pk.rows else [z3.IntVal(0)]
        n0 = lv[1]
        n1 = lv[2] if len(lv) > 2 else (st(p) if pk.rows else z3.IntVal(0))
        n2 = lv[3] if len(lv) > 3 else (z3.IntVal(0) if pk.rows else st(p))
        n3 = lv[4] if len(lv) > 4 else z3.IntVal(0)
        return pk.pos(p, n0, n1, n2, n3)
    f = z3.Int("f")

    def inv(S):
        i = counter(S)
        d = [g(f) for g in pk.dec]
        cell = S.arg(iA).read(*d) == S.arg(iB).read(f)
        return [("the counter is the position", i == at(S)), ("the counter is not negative", i >= 0),
                ("elements moved so far", z3.ForAll([f], z3.Implies(z3.And(0 <= f, f < i), z3.And(cell, pk.enc(*d) == f)),
                                                    patterns=[pk.dec[0](f)]))]

    def inst(S):
        p, n0, n1, n2, n3 = S.loops
        x = pk.pos(p, n0, n1, n2, n3)
        return [pk.enc(n0, n1, n2, n3) == x] + [g(x) == v for g, v in zip(pk.dec, (n0, n1, n2, n3))] + pk.bounds(p, n0, n1, n2, n3)
    spec = {"args": args, "pre": list(pk.pre), "attrs": pk.attrs, "inv": {(0,) * n: inv for n in range(1, 6)}, "inst": {(0,) * 5: inst}}
    # sign of the counter at every level
    for n in range(1, 5):
        def low_inst(S, n=n):
            p = S.loops[0]
            out = [N0 * L * N3 >= 0, z3.Implies(st(p) >= 0, N0 * L * N3 * st(p) >= 0)]
            if n == 1:
                r = st(p + 1) - st(p)
                out += [z3.Implies(r >= 0, N0 * L * N3 * r >= 0)]
            return out
        spec["inst"][(0,) * n] = low_inst

    def post(S):
        p, n0, n1, n2, n3 = ints("p", "n0", "n1", "n2", "n3")
        x = pk.pos(p, n0, n1, n2, n3)
        ghost = z3.And(*[g(x) == v for g, v in zip(pk.dec, (n0, n1, n2, n3))], pk.enc(n0, n1, n2, n3) == x, *pk.bounds(p, n0, n1, n2, n3))
        return [("every element equals its buffer position", z3.Implies(
            z3.And(pk.valid(p, n0, n1, n2, n3), ghost), S.arg(iA).read(n0, n1, n2, n3) == S.arg(iB).read(x)))]
    spec["post"] = post
    return spec


FUNCS = {"split_rows": (True, False), "combine_rows": (True, True), "split_columns": (False, False), "combine_columns": (False, True)}


def loops(chk, source):
    # lemmas behind the ghost functions
    a, A, b, Bx, c, d = ints("a", "A", "b", "B", "c", "d")
    F = "transposes (lemmas)"
    chk.obl("lemma: mixed-radix bound", F, [(A - 1 - a) * Bx >= 0, a * Bx >= 0], digit(a, A, b, Bx))
    chk.obl("lemma: product of nonnegative integers", F, [a >= 0, b >= 0], a * b >= 0)
    chk.obl("lemma: mixed-radix digits are unique", F, [0 <= b, b < Bx, 0 <= d, d < Bx, a * Bx + b == c * Bx + d,
                                                      z3.Implies(a < c, (c - a - 1) * Bx >= 0), z3.Implies(c < a, (a - c - 1) * Bx >= 0)],
            z3.And(a == c, b == d))
    for name, (rows, combine) in FUNCS.items():
        def body():
            low = imp.Lowered(source, name)
            pk = Pack(rows)
            spec = pack_spec(low, pk, combine)
            chk.sat_check(name, spec["pre"])
            imp.emit(chk, f"transposes.{name}", imp.VC(low, spec), replay=None, observable=False, timeout=20)
        chk.contract(f"{name} loops", f"transposes.{name}", body)
    # segments of different processes do not overlap
    for rows in (True, False):
        pk = Pack(rows)
        p, q, n0, n1, n2, n3, m0, m1, m2, m3 = ints("p", "q", "n0", "n1", "n2", "n3", "m0", "m1", "m2", "m3")
        x, y = pk.pos(p, n0, n1, n2, n3), pk.pos(q, m0, m1, m2, m3)
        u = pk.N0 * pk.L * pk.N3
        pc = pk.pre + [pk.valid(p, n0, n1, n2, n3), pk.valid(q, m0, m1, m2, m3), u >= 0] + pk.bounds(p, n0, n1, n2, n3) + pk.bounds(q, m0, m1, m2, m3)
        seg = lambda e, x: z3.And(u * pk.st(e) <= x, x < u * pk.st(e + 1))
        chk.obl(f"lemma: {'row' if rows else 'column'} elements lie in their process's segment", F, pc, seg(p, x))


# ------------------------------------------------------------------ planners on symbolic sizes
class Np(npf.NP):
    def array(self, a, *args, **k):
        if isinstance(a, (tuple, list)) and npf.has_sym(a):
            return tuple(a)
        return npf.NP.array(self, a, *args, **k)

    def ndarray(self, shape=None, dtype=None, buffer=None):
        return View(shape, dtype, buffer)

    def transpose(self, v, order):
        return View(tuple(v.shape[o] for o in order), v.dtype, v.buffer, tuple(order))

    def zeros(self, n, dtype=None):
        return ("zeros", n)

    def copyto(self, dst, src):
        dst.log.append(("copyto", dst, src)) if hasattr(dst, "log") else None


class View:
    def __init__(self, shape, dtype, buffer, order=None):
        self.shape, self.dtype, self.buffer, self.order = tuple(shape), dtype, buffer, order


class Logger:
    def debug(self, *a):
        pass


def method(source, cls, name, env):
    """Method `name` of class `cls` of the current source, lowered; and its text."""
    i = source.index(f"cdef class {cls}")
    rest = source[i:]
    j = rest.find("\ncdef class ", 10)
    low = imp.Lowered(rest[:j] if j > 0 else rest, name)
    exec(compile(low.python, f"{cls}.{name}", "exec"), env)
    return env[name]


def planner(source, cls, rank, shape, chunk, axis, dtype, size, record):
    np_ = Np()
    env = {"np": np_, "prod": lambda s: math.prod(list(s)), "math": math, "logger": Logger(), "len": len,
           "IN_PLACE": False, "PLANNING_RIGOR": "measure", "MPI": types.SimpleNamespace(DOUBLE="double")}
    init = method(source, cls, "__init__", env)
    o = types.SimpleNamespace()
    o.CL_buffer, o.RL_buffer = "CLbuf", "RLbuf"
    o.build_plans = lambda *a, **k: record.append((a, k))
    comm = types.SimpleNamespace(size=size, rank=rank)
    init(o, shape, chunk, dtype, axis, comm)
    return o


def planners(chk, source, dm):
    from props.d01 import StubDist, StubDomain
    for cls in ("AlltoallvTranspose", "FFTWTranspose"):
        for D, axis in ((3, 1), (4, 1), (4, 2)):
            for dtype in (np.float64, np.complex128):
                def body():
                    one_planner(chk, source, dm, cls, D, axis, dtype, StubDist, StubDomain)
                chk.contract(f"{cls} blocks", f"transposes.{cls}.__init__", body)


def one_planner(chk, source, dm, cls, D, axis, dtype, StubDist, StubDomain):
    """Array of rank D whose axes axis, axis+1 are transposed over P processes; leading axis 0 holds components."""
    q = [Int(f"q{d}") for d in range(D)]
    c = [Int(f"c{d}") for d in range(D)]
    n = [Int(f"n{d}") for d in range(D)]
    Pn, r, p = Int("P"), Int("r"), Int("p")
    pre = [x.t >= 1 for x in q] + [x.t >= 1 for x in c] + [n[d].t == c[d].t * q[d].t for d in range(D)]
    pre += [Pn.t >= 2, 0 <= r.t, r.t < Pn.t, 0 <= p.t, p.t < Pn.t]
    ds = 1 if dtype == np.float64 else 2

    def run_():
        rec_r, rec_p = [], []
        at_r = planner(source, cls, r, tuple(n), tuple(c), axis, dtype, Pn, rec_r)
        at_p = planner(source, cls, p, tuple(n), tuple(c), axis, dtype, Pn, rec_p)
        out = {"r": at_r, "p": at_p, "rec": rec_r}
        with npf.facade(dm, extra={"prod": math.prod}):
            for nm, k in (("row", axis), ("col", axis + 1)):
                dom = StubDomain([n[k]], [c[k]], ("b",))
                lay = dm.Layout(StubDist(1, [Pn], [r]), [False], [False])
                lay_p = dm.Layout(StubDist(1, [Pn], [p]), [False], [False])
                out[nm] = [(to_int(l.local_chunks(dom, 1)[0].at(0)), to_int(l.local_chunks(dom, 1)[0].n)) for l in (lay, lay_p)]
        return out
    paths = sym.explore(run_, pre, max_paths=200)
    chk.paths += len(paths)
    func = f"transposes.{cls}.__init__"
    for k, pt in enumerate(paths):
        tag = f"{cls} [rank {D}, axis {axis}, {np.dtype(dtype).name}{', path %d' % k if len(paths) > 1 else ''}]"
        if pt.exc is not None:
            chk.obl(f"{tag}: no exception ({type(pt.exc).__name__}: {pt.exc})", func, pt.pc, False, observable=False)
            continue
        o = pt.result
        pc = list(pt.pc)
        obl = lambda name, goal: chk.obl(f"{tag}: {name}", func, pc, goal, observable=False)
        T = to_int
        vec = {}
        for who, rk in (("r", r), ("p", p)):
            ob = o[who]
            for w in ("row", "col"):
                for e in ("starts", "ends", "counts"):
                    for idx, nm in ((r, "r"), (p, "p")):
                        vec[who, w, e, nm] = T(getattr(ob, f"{w}_{e}").at(idx) if hasattr(getattr(ob, f"{w}_{e}"), "at") else getattr(ob, f"{w}_{e}")[idx])
        for w, ax in (("row", axis), ("col", axis + 1)):
            for nm, (s, cnt) in zip(("r", "p"), o[w]):
                # the library's layout of the same axis over the same processes
                obl(f"{w} block of process {nm} has the layout's elements", z3.And(
                    vec["r", w, "counts", nm] == c[ax].t * cnt,
                    vec["r", w, "ends", nm] - vec["r", w, "starts", nm] == vec["r", w, "counts", nm],
                    z3.Implies(cnt > 0, vec["r", w, "starts", nm] == c[ax].t * s)))
            obl(f"{w} blocks do not depend on the process", z3.And(*[vec["r", w, e, nm] == vec["p", w, e, nm]
                                                                  for e in ("starts", "ends", "counts") for nm in "rp"]))
            first = lambda i: T(getattr(o["r"], f"{w}_starts").at(i))
            obl(f"{w} blocks begin at 0 ", first(0) == 0)
            obl(f"{w} blocks end at the axis length", T(getattr(o["r"], f"{w}_ends").at(Pn - 1)) == n[ax].t)
            obl(f"{w} blocks are contiguous", z3.Implies(p.t + 1 < Pn.t, T(getattr(o["r"], f"{w}_starts").at(p + 1)) == vec["r", w, "ends", "p"]))
        R = o["r"]
        N0 = math.prod([x for x in n[:axis]])
        rest = math.prod([x for x in n[axis+2:]] or [1])
        N3 = rest * (ds if cls == "AlltoallvTranspose" else 1)
        cc, rc = vec["r", "col", "counts", "r"], vec["r", "row", "counts", "r"]
        def shape_is(name, got, want):
            got = [T(x) for x in got]
            chk.ground(f"{tag}: {name} has four axes", func, len(got) == len(want), observable=False)
            obl(name, z3.And(*[a == T(b) for a, b in zip(got, want)]))
        shape_is("column-local data shape", R.CL_reduced_shape, (N0, n[axis], sym.wrap(cc), N3))
        shape_is("row-local data shape", R.RL_reduced_shape, (N0, sym.wrap(rc), n[axis+1], N3))
        if cls == "AlltoallvTranspose":
            rp = {}
            for who, ob in (("r", o["r"]), ("p", o["p"])):
                for w in ("CL", "RL"):
                    for e in ("displs", "counts"):
                        for idx, nm in ((r, "r"), (p, "p")):
                            rp[who, w, e, nm] = T(getattr(ob, f"{w}_{e}").at(idx))
            obl("what r sends to p in rows is what p expects from r", rp["r", "CL", "counts", "p"] == rp["p", "RL", "counts", "r"])
            obl("what r sends to p in columns is what p expects from r", rp["r", "RL", "counts", "p"] == rp["p", "CL", "counts", "r"])
            N0t, N3t = T(N0), T(N3)
            # positions used by the pack/unpack loops (their proved contracts)
            rs, cs = vec["r", "row", "starts", "p"], vec["r", "col", "starts", "r"]
            rcp, ccr = vec["r", "row", "counts", "p"], vec["r", "col", "counts", "r"]
            cCLp = vec["p", "col", "counts", "p"]
            n0, g1, g2, n3 = ints("n0", "g1", "g2", "n3")
            send = N0t * ccr * N3t * rs + ((n0 * rcp + (g1 - rs)) * ccr + (g2 - cs)) * N3t + n3
            recv = N0t * rcp * N3t * cs + ((n0 * rcp + (g1 - rs)) * ccr + (g2 - cs)) * N3t + n3
            obl("an element sent by r in rows arrives at its position on p", send - rp["r", "CL", "displs", "p"] == recv - rp["p", "RL", "displs", "r"])
            obl("an element sent by p in columns arrives at its position on r", recv - rp["p", "RL", "displs", "r"] == send - rp["r", "CL", "displs", "p"])
            obl("send displacements are the segment starts", z3.And(rp["r", "CL", "displs", "p"] == N0t * ccr * N3t * rs, rp["p", "RL", "displs", "r"] == N0t * rcp * N3t * cs))
            obl("segment length", z3.And(rp["r", "CL", "counts", "p"] == N0t * ccr * N3t * rcp, rp["p", "RL", "counts", "r"] == N0t * rcp * N3t * ccr))
            obl("buffer sizes", z3.And(T(R.CL_buffer[1]) == N0t * n[axis].t * cc * N3t, T(R.RL_buffer[1]) == N0t * rc * n[axis+1].t * N3t))
            obl("loop bounds", z3.And(T(R.local_col_count) == cc, T(R.local_row_count) == rc, T(R.N0) == N0t, T(R.N3) == N3t))
        else:
            (a, kw), = o["rec"]
            n0_, n1_, howmany, b0, b1 = a[:5]
            obl("FFTW plan sizes", z3.And(T(n0_) == n[axis].t, T(n1_) == n[axis+1].t, T(howmany) == T(N0) * T(rest) * ds))
            # FFTW's default distribution of an axis of length n in blocks b: process k has min(b, n - b k), at least 0
            for nm, ax, b in (("row", axis, b0), ("col", axis + 1, b1)):
                fftw = lambda k: z3.If(T(b) * k >= n[ax].t, 0, z3.If(T(b) * (k + 1) > n[ax].t, n[ax].t - T(b) * k, T(b)))
                obl(f"FFTW block of the {nm} axis", fftw(r.t) == vec["r", nm, "counts", "r"])
            for nm, v, want in (("CL", R.CL_view, (n[axis], sym.wrap(cc))), ("RL", R.RL_view, (sym.wrap(rc), n[axis+1]))):
                # view[N0, i, j, N3] of a buffer laid out [i, j, N0, N3]
                chk.ground(f"{tag}: {nm} view is the transpose of its own buffer", func,
                           v.order == (2, 0, 1, 3) and v.buffer == nm + "buf" and v.dtype == dtype, observable=False)
                shape_is(f"{nm} view shape", v.shape, (N0, want[0], want[1], rest))
            obl("plan element is a block of N0*N3 items", T(howmany) == ds * T(R.CL_view.shape[0]) * T(R.CL_view.shape[3]))


def glue(chk, source):
    """localize_rows/columns: pack, exchange, unpack; FFTW plan calls."""
    def alltoall():
        for name, want in (("localize_rows", ["split_rows", "exchange", "combine_columns"]), ("localize_columns", ["split_columns", "exchange", "combine_rows"])):
            for lc in (0, 3):
                for lr in (0, 2):
                    log = []
                    o = types.SimpleNamespace(CL_buffer="CB", RL_buffer="RB", CL_counts="Cc", RL_counts="Rc", CL_displs="Cd", RL_displs="Rd",
                                              CL_reduced_shape=(1, 2, lc, 1), RL_reduced_shape=(1, lr, 2, 1), local_col_count=lc, local_row_count=lr)
                    for f in FUNCS:
                        setattr(o, f, lambda *a, f=f: log.append((f, a)))
                    o.pycomm = types.SimpleNamespace(Alltoallv=lambda s, t: log.append(("exchange", (s, t))))
                    env = {"np": Np(), "MPI": types.SimpleNamespace(DOUBLE="double")}
                    fn = method(source, "AlltoallvTranspose", name, env)
                    args = ("CLdata", "RLdata") if name == "localize_rows" else ("RLdata", "CLdata")
                    fn(o, *args)
                    C, Rr = ["CB", "Cc", "Cd", "double"], ["RB", "Rc", "Rd", "double"]
                    src, dst = (C, Rr) if name == "localize_rows" else (Rr, C)
                    here, there = (lc, lr) if name == "localize_rows" else (lr, lc)
                    steps = [w for w, ok in zip(want, (here, 1, there)) if ok]
                    data = {"C": "CLdata", "R": "RLdata"}
                    ok = [l[0] for l in log if l[0] == "exchange" or (here if l[0].startswith("split") else there)] == steps
                    for f, a in log:
                        if f == "exchange":
                            ok = ok and list(a[0]) == src and list(a[1]) == dst
                        else:
                            v = [x for x in a if isinstance(x, View)]
                            b = [x for x in a if isinstance(x, str)]
                            k = "C" if f.endswith("rows") else "R"
                            ok = ok and len(v) == 1 and v[0].buffer == data[k] and b == [k + "B"] and \
                                v[0].shape == (o.CL_reduced_shape if k == "C" else o.RL_reduced_shape) and v[0].dtype == np.float64
                    chk.ground(f"AlltoallvTranspose.{name} [columns {lc}, rows {lr}]: pack, exchange, unpack with matching buffers",
                               f"transposes.AlltoallvTranspose.{name}", ok, str(log), observable=False)
    chk.contract("AlltoallvTranspose exchange", "transposes.AlltoallvTranspose", alltoall)

    def fftw():
        i = source.index("cdef class FFTWTranspose")
        rest = source[i:source.index("\ncdef class ", i + 10)]
        text = imp.cut(rest, "build_plans")
        if text is None:
            raise Unsupported("no build_plans")
        import re
        t = text.replace("&", "").replace("cdef p_t *shape", "cdef p_t shape").replace("NULL", "None")
        t = re.sub(r"^(\s*)cdef p_t (\w+(?:\s*,\s*\w+)+)$", lambda m: m.group(1) + " = ".join(x.strip() for x in m.group(2).split(",")) + " = 0", t, flags=re.M)
        t = re.sub(r"cdef cnp\.ndarray (\w+) =", r"\1 =", t)
        t = re.sub(r"cdef mpi_comm_t comm", "comm", t)
        low = imp.Lowered(t, "build_plans")
        for in_place, cl, rl, ds in itertools.product((False, True), (2, 40, 90), (2, 45, 100), (1, 2)):
            calls = []
            class C:
                FFTW_MPI_TRANSPOSED_IN, FFTW_MPI_TRANSPOSED_OUT = 1 << 29, 1 << 30

                def fftw_mpi_local_size_many_transposed(self, rank, shape, howmany, b0, b1, comm, *ptr):
                    calls.append(("size", rank, tuple(shape), howmany, b0, b1))
                    return 77

                def fftw_mpi_plan_many_transpose(self, a, b, howmany, ba, bb, src, dst, comm, flags):
                    calls.append(("plan", a, b, howmany, ba, bb, src, dst, flags))
                    return ("plan", len(calls))
            bufs = []
            def create(nn):
                bufs.append(nn)
                return [f"buf{len(bufs)}"]
            env = {"cfftw": C(), "fftw": types.SimpleNamespace(create_buffer=create, fftw_flags={"FFTW_MEASURE": 4}), "np": np, "prod": lambda x: math.prod(list(x)),
                   "max": max, "min": min}
            exec(compile(low.python, "build_plans", "exec"), env)
            o = types.SimpleNamespace(CL_reduced_shape=(1, cl, 1, 1), RL_reduced_shape=(1, 1, rl, 1), datasize=ds)
            env["build_plans"](o, "n0", "n1", "hm", "b0", "b1", types.SimpleNamespace(ob_mpi="comm"), in_place, ["FFTW_MEASURE"])
            size = [x for x in calls if x[0] == "size"]
            plan = {i + 1: x for i, x in enumerate(calls) if x[0] == "plan"}

            def local(call):
                """(input, output) local layouts of an FFTW transpose plan: axis lengths and which one is distributed by which block."""
                _, a, b, hm, ba, bb, src, dst, fl = call
                tin, tout = fl & C.FFTW_MPI_TRANSPOSED_IN, fl & C.FFTW_MPI_TRANSPOSED_OUT
                i_ = [(a, ba), (b, None)]
                o_ = [(b, bb), (a, None)]
                return (src, i_[::-1] if tin else i_), (dst, o_[::-1] if tout else o_), hm
            CL = [("n0", None), ("n1", "b1")]     # column local: all rows, block of columns
            RL = [("n0", "b0"), ("n1", None)]
            f = local(plan[o.CL_to_RL_plan[1]])
            b = local(plan[o.RL_to_CL_plan[1]])
            t1 = f"FFTW plans [in place {in_place}, local sizes {cl}, {rl}, item {ds}]"
            F = "transposes.FFTWTranspose.build_plans"
            g = lambda nm, ok: chk.ground(f"{t1}: {nm}", F, bool(ok), str(calls), observable=False)
            cb, rb = o.CL_buffer[0], o.RL_buffer[0]
            g("column-to-row plan reads the column-local layout from the column buffer", f[0] == (cb, CL))
            g("column-to-row plan writes the row-local layout to the row buffer", f[1] == (rb, RL))
            g("row-to-column plan reads the row-local layout from the row buffer", b[0] == (rb, RL))
            g("row-to-column plan writes the column-local layout to the column buffer", b[1] == (cb, CL))
            g("both plans move the same elements", f[2] == b[2] == "hm")
            g("buffers hold what FFTW asks for and the local data", all(x >= max(77, cl * ds, rl * ds) for x in bufs) and len(size) == 1 and size[0][1:] == (2, ("n0", "n1"), "hm", "b0", "b1"))
            g("one buffer if and only if in place", (cb == rb) == in_place)
    chk.contract("FFTW plan arguments", "transposes.FFTWTranspose.build_plans", fftw)


# ------------------------------------------------------------------ Transpose: grouping
class FakeLayout:
    def __init__(self, name, dist_):
        self.name, self.dist = name, dist_

    def local_shape(self, domain, scales):
        return domain.local[self.name]

    def global_shape(self, domain, scales):
        return domain.glob


class FakeDomain:
    def __init__(self, local, glob, chunk):
        self.local, self.glob, self._chunk = local, tuple(glob), tuple(chunk)

    def chunk_shape(self, layout):
        return self._chunk


class FakeField:
    """Field state as far as Transpose uses it: one buffer seen through the layout's local shape."""

    def __init__(self, domain, comps, layout, seed):
        self.domain, self.scales, self.dtype = domain, (1,), np.float64
        self.tensorsig = tuple(types.SimpleNamespace(dim=d) for d in comps)
        n = math.prod(comps) * max(math.prod(s) for s in domain.local.values())
        self.buffer = np.random.default_rng(seed).standard_normal(max(n, 1))
        self.preset_layout(layout)

    def preset_layout(self, layout):
        self.layout = layout
        shape = tuple(cs.dim for cs in self.tensorsig) + tuple(self.domain.local[layout.name])
        self.data = np.ndarray(shape, dtype=self.dtype, buffer=self.buffer)


class FakePlan:
    """Contract of a transpose plan: moves each component independently and identically."""

    def __init__(self, ncomp, rl, cl, chunk):
        self.ncomp, self.rl, self.cl = ncomp, math.prod(rl), math.prod(cl)
        self.w = FakePlan.weight(chunk)

    @staticmethod
    def weight(chunk):
        # the exchange depends on the chunks, not only on the sizes
        return 1.0 + sum(c * 3.0**k for k, c in enumerate(chunk))

    @staticmethod
    def move(src, n):
        # a component's result depends on its own data only (position-dependent mixture standing for the exchange)
        s = src.sum() if src.size else 0.0
        k = np.arange(1, n + 1)
        w = src[(k * 7) % src.size] if src.size else np.zeros(n)
        return s * k + w

    def localize_columns(self, RL, CL):
        assert RL.size == self.ncomp * self.rl and CL.size == self.ncomp * self.cl, "sizes"
        r = RL.reshape(self.ncomp, -1).copy()
        c = CL.reshape(self.ncomp, -1) if CL.size else None
        for i in range(self.ncomp):
            if c is not None:
                c[i] = self.move(r[i] if RL.size else np.zeros(0), self.cl) * self.w

    def localize_rows(self, CL, RL):
        assert RL.size == self.ncomp * self.rl and CL.size == self.ncomp * self.cl, "sizes"
        c = CL.reshape(self.ncomp, -1).copy()
        r = RL.reshape(self.ncomp, -1) if RL.size else None
        for i in range(self.ncomp):
            if r is not None:
                r[i] = self.move(c[i] if CL.size else np.zeros(0), self.rl) * 3 * self.w


def group_contract(chk, dm):
    """Transpose._group_plans: every field is in exactly one group, and the plan of a group is planned for the
    subarray shape and chunks of every field in it and for all their components, in order. The shapes are opaque
    tokens, so all patterns of equal and unequal shapes of four fields stand for every set of at most four fields."""
    func = "distributor.Transpose._group_plans"

    def body():
        toks = list(itertools.product("ab", "AB"))
        for pat in itertools.product(range(4), repeat=4):
            made = []

            class Me:
                layout0 = "layout0"

                def _sub_shape(self, domain, scales):
                    return (domain.tok[0], scales)

                def _plan(self, ncomp, sub, chunk, dtype):
                    made.append((ncomp, sub, chunk, dtype))
                    return made[-1]
            fields = []
            for n, t in enumerate(pat):
                dom = types.SimpleNamespace(tok=toks[t], chunk_shape=lambda layout, t=t: (toks[t][1], layout))
                fields.append(types.SimpleNamespace(domain=dom, scales=1, dtype="f8", n=n, tensorsig=[types.SimpleNamespace(dim=n + 2)] * (n % 3)))
            plans = dm.Transpose._group_plans(Me(), fields)
            seen = sorted(f.n for fs, p in plans for f in fs)
            ok = seen == list(range(4))
            for fs, p in plans:
                ok = ok and p[0] == sum(math.prod(c.dim for c in f.tensorsig) for f in fs) and p[3] == "f8"
                for f in fs:
                    ok = ok and p[1] == (f.domain.tok[0], 1) and p[2] == (f.domain.tok[1], "layout0")

            def rep(m=None):
                for c in group_cases():
                    try:
                        bad = case_group(c)
                    except Exception as e:
                        bad = {"case": c, "exception": repr(e)}
                    if bad:
                        return bad
            rep.takes_none = True
            chk.ground(f"group plans fit every field: pattern {pat}", func, ok, str([( [f.n for f in fs], p) for fs, p in plans]), replay=rep, observable=False)
            if not ok:
                return
    chk.contract("group plans", func, body)


def case_group(case):
    """Grouped and individual transposes leave every field with the same data and layout."""
    from dedalus.core import distributor as dm
    axis, doms, specs, direction, grouped = case
    saved = dm.TransposePlanner, dm.GROUP_TRANSPOSES, dm.SYNC_TRANSPOSES
    plans = []
    try:
        dist_ = types.SimpleNamespace()
        lay0, lay1 = FakeLayout("0", dist_), FakeLayout("1", dist_)
        domains = [FakeDomain({"0": l0, "1": l1}, g, c) for l0, l1, g, c in doms]
        shape_of = {}

        def planner_(shape, chunk, dtype, ax, comm):
            plans.append((shape, chunk, dtype, ax))
            for d in domains:
                l0, l1 = d.local["0"], d.local["1"]
                sub = tuple(d.glob[k] if k in (axis, axis + 1) else l0[k] for k in range(len(l0)))
                if tuple(shape[1:]) == sub and tuple(chunk[1:]) == d._chunk and ax == axis + 1:
                    return FakePlan(shape[0], l0, l1, chunk[1:])
            raise AssertionError(f"plan for shape {shape}, chunk {chunk}, axis {ax} matches no field")
        dm.TransposePlanner = planner_
        out = []
        for mode in ("single", grouped):
            dm.GROUP_TRANSPOSES = mode == "group"
            T = object.__new__(dm.Transpose)
            T.layout0, T.layout1, T.axis, T.comm_sub, T.comm_cart = lay0, lay1, axis, types.SimpleNamespace(Barrier=lambda: None), None
            fields = [FakeField(domains[d], comps, lay0 if direction == "increment" else lay1, n) for n, (d, comps) in enumerate(specs)]
            if mode == "single":
                for f in fields:
                    getattr(T, direction)([f])
            else:
                getattr(T, direction)(fields)
            out.append(fields)
        target = "1" if direction == "increment" else "0"
        for n, (a, b) in enumerate(zip(*out)):
            if a.layout.name != target or b.layout.name != target:
                return {"case": case, "field": n, "layouts": (a.layout.name, b.layout.name), "expected": target}
            want_shape = tuple(s.dim for s in a.tensorsig) + tuple(a.domain.local[target])
            if b.data.shape != want_shape or a.data.shape != want_shape or not np.array_equal(a.data, b.data):
                return {"case": case, "field": n, "individual": a.data.tolist(), "grouped": b.data.tolist()}
            # the individual result is the plan applied to the original components
            orig = FakeField(domains[specs[n][0]], specs[n][1], lay0 if direction == "increment" else lay1, n)
            l0, l1, g, c = doms[specs[n][0]]
            sub = [g[k] if k in (axis, axis + 1) else l0[k] for k in range(len(l0))]
            moves = math.prod(sub) != 0 and not all(g[k] == c[k] for k in (axis, axis + 1))
            ncomp = math.prod(specs[n][1])
            if moves and a.data.size:
                src = orig.data.reshape(ncomp, -1) if orig.data.size else np.zeros((ncomp, 0))
                k = a.data.size // ncomp
                want = np.array([FakePlan.move(src[i], k) * FakePlan.weight(c) * (1 if direction == "increment" else 3) for i in range(ncomp)])
                if not np.allclose(a.data.reshape(ncomp, -1), want):
                    return {"case": case, "field": n, "transposed": a.data.tolist(), "expected": want.tolist()}
            if not moves and a.data.size and not np.array_equal(a.data, np.ndarray(want_shape, buffer=orig.buffer)):
                return {"case": case, "field": n, "data changed without communication": True}
    finally:
        dm.TransposePlanner, dm.GROUP_TRANSPOSES, dm.SYNC_TRANSPOSES = saved


def group_cases():
    # (local shape in layout 0, local shape in layout 1, global shape, chunk shape); axes axis, axis+1 are exchanged
    A2 = [((4, 6), (6, 3), (6, 6), (2, 1)), ((3, 6), (6, 3), (6, 6), (1, 1)), ((2, 6), (4, 3), (4, 6), (1, 1)), ((2, 8), (4, 4), (4, 8), (1, 2)), ((2, 6), (4, 3), (4, 6), (2, 1)),
          ((1, 1), (1, 1), (1, 1), (1, 1)), ((0, 2), (1, 1), (1, 2), (1, 1)), ((1, 3), (1, 0), (1, 3), (1, 1)), ((0, 0), (0, 0), (0, 0), (1, 1))]
    A3 = [((2, 2, 6), (2, 4, 3), (4, 4, 6), (1, 1, 1)), ((0, 2, 6), (0, 4, 3), (4, 4, 6), (1, 1, 1)), ((2, 0, 3), (2, 1, 3), (4, 1, 3), (1, 1, 1)),
          ((3, 1, 1), (3, 1, 1), (3, 1, 1), (1, 1, 1))]
    comps = [(), (2,), (3, 3), (2, 1)]
    out = []
    for axis, doms in ((0, A2), (1, A3)):
        nd = len(doms)
        for direction in ("increment", "decrement"):
            for mode in ("group", "list"):
                for k in range(nd):
                    for cs in itertools.combinations_with_replacement(comps, 2):
                        out.append((axis, doms, [(k, cs[0]), (k, cs[1])], direction, mode))
                    for j in range(nd):
                        out.append((axis, doms, [(k, (2,)), (j, ()), (k, (3, 3)), (j, (2,)), (k, ())], direction, mode))
                    out.append((axis, doms, [(k, (3,))], direction, mode))
    return out


# ------------------------------------------------------------------ bounded: real processes
MPI_SCRIPT = r'''
import sys, json
from dedalus.tools.config import config
lib, group, mesh, seed = sys.argv[1], sys.argv[2], tuple(json.loads(sys.argv[3])), int(sys.argv[4])
config['parallelism']['TRANSPOSE_LIBRARY'] = lib
config['parallelism']['GROUP_TRANSPOSES'] = group
config['parallelism-fftw']['IN_PLACE'] = str(seed % 2 == 1)
config['parallelism-fftw']['PLANNING_RIGOR'] = config['transforms-fftw']['PLANNING_RIGOR'] = 'estimate'
import numpy as np, dedalus.public as d3
import logging; logging.disable(logging.WARNING)
from mpi4py import MPI
from dedalus.core import distributor as dm
def hook(t, v, tb):
    import traceback
    traceback.print_exception(t, v, tb)
    sys.stderr.flush()
    MPI.COMM_WORLD.Abort(1)
sys.excepthook = hook
bad = []
rng = np.random.default_rng(seed)
D = len(mesh) + 1
names = 'xyzw'[:D]
def value(comp, idx, dtype, k):
    v = comp * 7919.0 + k * 131071.0
    for n, i in enumerate(idx): v = v + i * (101.0 ** (n + 1)) * (1 if n < 2 else 0.37)
    return v * (1 + 0.5j) if dtype == np.complex128 else v
def fill(f, k):
    el = f.layout.local_elements(f.domain, f.scales)
    idx = np.meshgrid(*el, indexing='ij') if el else []
    data = f.data.reshape((-1,) + f.data.shape[len(f.tensorsig):]) if f.data.size else f.data
    if f.data.size:
        for c in range(data.shape[0]): data[c] = value(c, idx, f.dtype, k)
def same(f, k):
    el = f.layout.local_elements(f.domain, f.scales)
    idx = np.meshgrid(*el, indexing='ij')
    if not f.data.size: return f.data.shape[len(f.tensorsig):] == tuple(len(e) for e in el)
    data = f.data.reshape((-1,) + f.data.shape[len(f.tensorsig):])
    return all(np.array_equal(data[c], np.broadcast_to(value(c, idx, f.dtype, k), data[c].shape)) for c in range(data.shape[0]))
def check(label, fields, dist):
    order = list(range(len(dist.paths)))
    for n, path in enumerate(dist.paths):
        if type(path).__name__ != 'Transpose': continue
        for direction in ('increment', 'decrement'):
            a, b = (path.layout0, path.layout1) if direction == 'increment' else (path.layout1, path.layout0)
            for k, f in enumerate(fields):
                f.preset_layout(a); fill(f, k)
            getattr(path, direction)(fields)
            for k, f in enumerate(fields):
                if f.layout is not b or not same(f, k):
                    bad.append([label, 'path', n, direction, 'field', k, 'rank', MPI.COMM_WORLD.rank])
for dtype in (np.float64, np.complex128):
    coords = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(coords, dtype=dtype, mesh=mesh)
    for trial in range(3):
        sizes = [int(s) for s in rng.integers(1, 12, D)]
        bases = []
        for i, s in enumerate(sizes):
            kind = rng.integers(0, 3)
            c = coords.coords[i]
            if kind == 2 or i == D - 1: bases.append(d3.Chebyshev(c, s, bounds=(0, 1), dealias=1.5))
            else: bases.append(d3.Fourier(c, s + s % 2, bounds=(0, 1), dealias=1.5, dtype=dtype))
        scal = [dist.Field(bases=bases), dist.VectorField(coords, bases=bases), dist.Field(bases=bases[1:]), dist.TensorField(coords, bases=bases[:-1]), dist.Field(bases=bases[:1]), dist.Field()]
        for f in scal: f.change_scales(float(rng.choice([1, 1.5])))
        check([str(dtype), sizes, 'mixed'], scal, dist)
        check([str(dtype), sizes, 'one'], scal[1:2], dist)
        check([str(dtype), sizes, 'two alike'], [scal[1], dist.Field(bases=bases)], dist)
        u = scal[1]; u.change_scales(1); u.preset_layout(dist.coeff_layout)
        u.data[...] = 0; fill(u, 5)
        keep = u.data.copy(); u['g']; u.require_coeff_space()
# planner used directly: rank 4 array with component axis, arbitrary chunks
if len(mesh) == 1:
    for trial in range(6):
        comm = MPI.COMM_WORLD.Dup()
        c1, c2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        shape = (int(rng.integers(1, 3)), c1 * int(rng.integers(1, 7)), c2 * int(rng.integers(1, 7)), int(rng.integers(1, 4)))
        plan = dm.TransposePlanner(shape, (1, c1, c2, 1), np.float64, 1, comm)
        full = rng.standard_normal(shape)
        r0, r1 = plan.row_starts[comm.rank], plan.row_ends[comm.rank]
        s0, s1 = plan.col_starts[comm.rank], plan.col_ends[comm.rank]
        RL, CL = np.ascontiguousarray(full[:, r0:r1]), np.ascontiguousarray(full[:, :, s0:s1])
        got = np.full_like(CL, np.nan); plan.localize_columns(RL, got)
        if not np.array_equal(got, CL): bad.append(['planner columns', shape, c1, c2])
        got = np.full_like(RL, np.nan); plan.localize_rows(CL, got)
        if not np.array_equal(got, RL): bad.append(['planner rows', shape, c1, c2])
        for cls, (rl, cl) in ((dm.ColDistributor, (full[:, r0:r1], full)), (dm.RowDistributor, (full, full[:, :, s0:s1]))):
            pl = cls(np.array(shape), np.float64, 1, comm)
            a0, a1 = pl.row_starts[comm.rank], pl.row_ends[comm.rank]
            b0, b1 = pl.col_starts[comm.rank], pl.col_ends[comm.rank]
            RL = np.ascontiguousarray(full[:, a0:a1]); CL = np.ascontiguousarray(full[:, :, b0:b1])
            if not (RL.size and CL.size): continue
all_bad = MPI.COMM_WORLD.gather(bad, root=0)
if MPI.COMM_WORLD.rank == 0:
    print('RESULT ' + json.dumps([b for l in all_bad for b in l][:5], default=str))
'''


def case_mpi(case):
    lib, group, mesh, seed = case
    n = math.prod(mesh)
    rc, out, err = mpi.run(MPI_SCRIPT, n, [lib, group, json.dumps(mesh), seed], timeout=150)
    res = [l for l in out.splitlines() if l.startswith("RESULT ")]
    if rc != 0 or not res:
        return {"case": case, "exit code": rc, "stdout": out[-800:], "stderr": err[-1500:]}
    bad = json.loads(res[0][7:])
    if bad:
        return {"case": case, "misplaced data": bad}


def run(chk):
    from dedalus.core import distributor as dm
    with open(boot.CODE + "/dedalus/core/transposes.pyx") as f:
        source = f.read()
    chk.trust("FFTW MPI transposes move element (i,j) as documented for their block and TRANSPOSED flags; MPI Alltoallv per its standard")
    chk.trust("numpy copyto and views; Cython compiles the lowered statements with C integer semantics (unsigned int counters do not overflow)")
    chk.assume("the local data of a field in a layout is a C-contiguous view of its own buffer (F01)")
    loops(chk, source)
    planners(chk, source, dm)
    glue(chk, source)
    group_contract(chk, dm)
    chk.bounded("grouped and individual transposes of simulated fields", "9+4 domains (empty blocks, no-change and no-data cases), scalar to rank-2 "
                "component combinations, both directions; transpose plan by contract", group_cases(), case_group, budget=120)
    meshes = [(2,), (4,), (2, 2)] if not chk.thorough else [(2,), (3,), (4,), (7,), (2, 2), (2, 3), (3, 2), (2, 2, 2)]
    cases = [(lib, g, m, s) for m in meshes for lib, g, s in (("fftw", "True", 1), ("mpi", "True", 2), ("fftw", "False", 3), ("mpi", "False", 4))
             if chk.thorough or not (g == "False" and m == (2,))]
    chk.bounded("transposes on real processes", "random sizes 1-12 per axis, meshes " + str(meshes) + ", both transpose libraries, grouped and not, "
                "scalar/vector/tensor fields, in place and not", [(a, b, c, d + chk.seed * 10) for a, b, c, d in cases], case_mpi, budget=300 if not chk.thorough else 2000)
