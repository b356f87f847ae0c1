"""O02: output files record every scheduled write once, in order, with its own data.

Contracts (real methods; counters and sizes symbolic, files and communicators stand-ins that record)
  process: total' = total + 1; without max_writes file' = file + 1 in the same set; with max_writes = m and
    0 <= file <= m:  file < m -> file' = file + 1, same set;  file = m -> file' = 1, next set.  Metadata is written
    once with the new total as write number and the step's own numbers; every task is brought to its own scales
    and layout and written once, after that, to the open file; the file is closed last.
  write_file_metadata: 'writes' attribute = file_write_num; each time scale resized to file_write_num and its
    last entry set to the value of that name.  Root process only (gather, virtual).
  write_task: dataset resized to file_write_num, last record = gathered global data (gather, root only) or
    local data (virtual, non-empty processes only).
  get_data_distribution: global shape, start and local shape describe the local elements (tensor axes in front).
  create_task_dataset (virtual): the process file of each non-empty rank is mapped to [start, start+size) per axis.
"""

import glob
import hashlib
import itertools
import math
import os
import shutil
import tempfile

import numpy as np
import z3

from vf import sym, npf, mpi, fake
from vf.npf import SVec
from vf.sym import Int, Real, SymInt, to_int, Unsupported
from props.o03 import dump


def takes(f):
    f.takes_none = True
    return f


class Log:
    def __init__(self):
        self.ev = []

    def __call__(self, *a):
        self.ev.append(a)


class Out:
    def __init__(self, log, name):
        self.log, self.name, self.data = log, name, ("local data of", name)

    def change_scales(self, s):
        self.log("scales", self.name, s)

    def change_layout(self, l):
        self.log("layout", self.name, l)

    def gather_data(self):
        self.log("gather", self.name)
        return ("global data of", self.name)


class Comm:
    def __init__(self, rank=0, size=1):
        self.rank, self.size = rank, size


class Dset:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def resize(self, n, axis=None):
        self.log("resize", self.name, n, axis)

    def __setitem__(self, k, v):
        self.log("set", self.name, k, v)


class File(dict):
    def __init__(self, log, names):
        super().__init__(tasks={n: Dset(log, n) for n in names},
                         scales={n: Dset(log, n) for n in ("sim_time", "wall_time", "timestep", "iteration", "write_number")})
        self.attrs = {}
        self.log = log

    def close(self):
        self.log("close")


def process_contract(chk, ev, bounded_max):
    cls = ev.H5FileHandlerBase
    func = "evaluator.H5FileHandlerBase.process"

    def body():
        for ntask in (0, 1, 3):
            f, t, s, m, it = Int("file"), Int("total"), Int("set"), Int("max"), Int("iteration")
            wt, st, dt = Real("wall"), Real("sim"), Real("timestep")
            pre = [f.t >= 0, t.t >= f.t, s.t >= 1] + ([m.t >= 1, f.t <= m.t] if bounded_max else [])

            def run():
                log = Log()
                h = object.__new__(cls)
                h.file_write_num, h.total_write_num, h.set_num, h.max_writes = f, t, s, (m if bounded_max else None)
                h.tasks = [dict(name=n, out=Out(log, n), scales=("sc", n), layout=("lay", n)) for n in "abc"[:ntask]]
                h.get_file = lambda **k: (log("open", h.set_num, h.file_write_num), "FILE")[1]
                h.write_file_metadata = lambda file, **k: log("meta", file, k)
                h.write_task = lambda file, task: log("write", file, task["name"], h.file_write_num)
                h.close_file = lambda file: log("close", file)
                with npf.facade(ev):
                    cls.process(h, it, wall_time=wt, sim_time=st, timestep=dt)
                return h, log.ev
            for n, p in enumerate(sym.explore(run, pre)):
                tag = f"process, {ntask} tasks{', max_writes' if bounded_max else ''} (path {n})"
                rep = takes(lambda model=None: None)
                if p.exc is not None:
                    chk.obl(f"{tag}: no exception", func, p.pc, False)
                    continue
                h, log = p.result
                F, T, S = (to_int(x) for x in (h.file_write_num, h.total_write_num, h.set_num))
                chk.obl(f"{tag}: write numbers are consecutive", func, p.pc, T == t.t + 1, observable=False)
                if bounded_max:
                    goal = z3.If(f.t < m.t, z3.And(F == f.t + 1, S == s.t), z3.And(F == 1, S == s.t + 1))
                    chk.obl(f"{tag}: a new set starts exactly when the last one is full", func, p.pc, goal, observable=False)
                    chk.obl(f"{tag}: the file count stays within 1..max_writes", func, p.pc, z3.And(F >= 1, F <= m.t), observable=False)
                else:
                    chk.obl(f"{tag}: same set, next record", func, p.pc, z3.And(F == f.t + 1, S == s.t), observable=False)
                kinds = [e[0] for e in log]
                ok = kinds.count("open") == 1 and kinds.count("meta") == 1 and kinds.count("close") == 1 and kinds[-1] == "close" \
                    and kinds.index("open") < kinds.index("meta") and len(log) == 3 + 3 * ntask
                for k, nm in enumerate("abc"[:ntask]):
                    mine = [e for e in log if nm in e[1:3] and e[0] in ("scales", "layout", "write")]
                    ok &= sorted(e[0] for e in mine) == ["layout", "scales", "write"] and mine[-1][0] == "write"
                    ok &= ("scales", nm, ("sc", nm)) in mine and ("layout", nm, ("lay", nm)) in mine
                    ok &= all(e[1] == "FILE" for e in mine if e[0] == "write")
                chk.ground(f"{tag}: each task at its own scales and layout, written once", func, bool(ok), [str(e)[:80] for e in log], observable=False)
                op = [e for e in log if e[0] == "open"][0]
                meta = [e for e in log if e[0] == "meta"][0][2]
                goal = [to_int(op[1]) == S, to_int(op[2]) == F, z3.BoolVal(set(meta) == {"write_number", "iteration", "wall_time", "sim_time", "timestep"})]
                if set(meta) == {"write_number", "iteration", "wall_time", "sim_time", "timestep"}:
                    goal += [sym.eq(meta["write_number"], t + 1), sym.eq(meta["iteration"], it), sym.eq(meta["wall_time"], wt),
                             sym.eq(meta["sim_time"], st), sym.eq(meta["timestep"], dt)]
                chk.obl(f"{tag}: the record carries its own numbers in the new file", func, p.pc, z3.And(*goal), observable=False)
    chk.contract(f"process{' with max_writes' if bounded_max else ''}", func, body)


def metadata_contract(chk, ev):
    names = ("sim_time", "wall_time", "timestep", "iteration", "write_number")
    for cname in ("H5FileHandlerBase", "H5GatherFileHandler", "H5VirtualFileHandler"):
        cls = getattr(ev, cname)
        func = f"evaluator.{cname}.write_file_metadata"

        def body(cls=cls, cname=cname, func=func):
            for rank in (0, 1):
                f = Int("file")
                kw = {n: Real("v_" + n) for n in names}

                def run():
                    log = Log()
                    h = object.__new__(cls)
                    h.file_write_num = f
                    h.comm = Comm(rank, 2)
                    file = File(log, "ab") if rank == 0 or cname == "H5FileHandlerBase" else None
                    arg = (file, "proc") if cname == "H5VirtualFileHandler" else file
                    with npf.facade(ev):
                        h.write_file_metadata(arg, **kw)
                    return file, log.ev
                for p in sym.explore(run, [f.t >= 1]):
                    tag = f"{cname} metadata, rank {rank}"
                    if p.exc is not None:
                        chk.obl(f"{tag}: no exception", func, p.pc, False, observable=False)
                        continue
                    file, log = p.result
                    if file is None:
                        chk.ground(f"{tag}: other processes write nothing", func, log == [], log, observable=False)
                        continue
                    goal = [z3.BoolVal(len(log) == 10 and set(file.attrs) == {"writes"})]
                    if "writes" in file.attrs:
                        goal.append(to_int(file.attrs["writes"]) == f.t)
                    for n in names:
                        mine = [e for e in log if e[1] == n]
                        if len(mine) != 2 or mine[0][0] != "resize" or mine[1][0] != "set":
                            goal.append(z3.BoolVal(False))
                            continue
                        goal += [to_int(mine[0][2]) == f.t, z3.BoolVal(mine[0][3] == 0), to_int(mine[1][2]) == f.t - 1, sym.eq(mine[1][3], kw[n])]
                    chk.obl(f"{tag}: one record of each time scale", func, p.pc, z3.And(*goal), observable=False)
        chk.contract(f"{cname} metadata", func, body)

    for cname in ("H5GatherFileHandler", "H5VirtualFileHandler"):
        cls = getattr(ev, cname)
        func = f"evaluator.{cname}.write_task"

        def body(cls=cls, cname=cname, func=func):
            for rank in (0, 1):
                for size in (0, 6):
                    f = Int("file")

                    def run():
                        log = Log()
                        h = object.__new__(cls)
                        h.file_write_num = f
                        h.comm = Comm(rank, 2)
                        file = File(log, "ab")
                        if cname == "H5VirtualFileHandler":
                            arg = (File(Log(), "ab"), file if size else None)
                        else:
                            arg = file if rank == 0 else None
                        with npf.facade(ev):
                            h.write_task(arg, dict(name="a", out=Out(log, "a"), local_size=size))
                        return log.ev
                    for p in sym.explore(run, [f.t >= 1]):
                        tag = f"{cname} write, rank {rank}, local size {size}"
                        if p.exc is not None:
                            chk.obl(f"{tag}: no exception", func, p.pc, False, observable=False)
                            continue
                        log = p.result
                        gathers = [e for e in log if e[0] == "gather"]
                        rest = [e for e in log if e[0] != "gather"]
                        if cname == "H5GatherFileHandler":
                            ok = len(gathers) == 1
                            want = ("global data of", "a") if rank == 0 else None
                        else:
                            ok = not gathers
                            want = ("local data of", "a") if size else None
                        if want is None:
                            chk.ground(f"{tag}: nothing written", func, ok and not rest, log, observable=False)
                            continue
                        g = [z3.BoolVal(ok and len(rest) == 2 and rest[0][0] == "resize" and rest[1][0] == "set")]
                        if len(rest) == 2 and rest[0][0] == "resize":
                            g += [to_int(rest[0][2]) == f.t, z3.BoolVal(rest[0][3] == 0 and rest[1][3] == want), to_int(rest[1][2]) == f.t - 1]
                        chk.obl(f"{tag}: the last record is the task's data", func, p.pc, z3.And(*g), observable=False)
        chk.contract(f"{cname} write", func, body)


class CS:
    def __init__(self, dim):
        self.dim = dim


class LayoutStub:
    def __init__(self, gshape, starts, sizes):
        self.g, self.st, self.n = gshape, starts, sizes

    def global_shape(self, d, s):
        return tuple(self.g)

    def local_shape(self, d, s, rank=None):
        return tuple(self.n[rank])

    def local_elements(self, d, s, rank=None, **k):
        return tuple(SVec(n, (lambda i, a=a: a + i)) for n, a in zip(self.n[rank], self.st[rank]))


class OpStub:
    def __init__(self, ts):
        self.tensorsig = ts
        self.domain = "DOMAIN"


def distribution_contract(chk, ev):
    func = "evaluator.H5FileHandlerBase.get_data_distribution"

    def setup(D, R):
        g = [Int(f"g{d}") for d in range(D)]
        a = [[Int(f"a{r}{d}") for d in range(D)] for r in range(R)]
        n = [[Int(f"n{r}{d}") for d in range(D)] for r in range(R)]
        pre = [x.t >= 0 for x in g]
        for r in range(R):
            for d in range(D):
                pre += [a[r][d].t >= 0, n[r][d].t >= 0, a[r][d].t + n[r][d].t <= g[d].t]
        return g, a, n, pre

    def body():
        for D, ts in ((1, ()), (2, (3,)), (2, (2, 3)), (3, ())):
            g, a, n, pre = setup(D, 2)

            def run():
                h = object.__new__(ev.H5GatherFileHandler)
                h.comm = Comm(1, 2)
                task = dict(layout=LayoutStub(g, a, n), scales="S", operator=OpStub(tuple(CS(k) for k in ts)))
                with npf.facade(ev):
                    return h.get_data_distribution(task), h.get_data_distribution(task, rank=0)
            for k, p in enumerate(sym.explore(run, pre)):
                if p.exc is not None:
                    chk.obl(f"distribution D={D} rank {len(ts)}: no exception", func, p.pc, False, observable=False)
                    continue
                for (G, S, L), r in zip(p.result, (1, 0)):
                    T = len(ts)
                    goal = [z3.BoolVal(len(G) == len(S) == len(L) == T + D and tuple(G[:T]) == ts and tuple(L[:T]) == ts and tuple(S[:T]) == (0,) * T)]
                    for d in range(D):
                        goal += [to_int(G[T + d]) == g[d].t, to_int(L[T + d]) == n[r][d].t,
                                 z3.Implies(n[r][d].t > 0, to_int(S[T + d]) == a[r][d].t),
                                 z3.And(to_int(S[T + d]) >= 0, to_int(S[T + d]) + n[r][d].t <= g[d].t)]
                    chk.obl(f"distribution D={D} rank {T} process {r} (path {k}): start and size describe the local elements", func, p.pc,
                            z3.And(*goal), observable=False)
    chk.contract("data distribution", func, body)

    func2 = "evaluator.H5VirtualFileHandler.create_task_dataset"

    def body2():
        for D, ts in ((1, ()), (2, (3,)), (3, ())):
            R = 2
            g, a, n, pre = setup(D, R)
            pre = pre + [x.t >= 1 for x in g]
            # the first process is non-empty, the second arbitrary
            pre += [x.t >= 1 for x in n[0]]

            def run():
                rec = []

                class VL:
                    def __init__(self, shape=None, maxshape=None, dtype=None):
                        self.shape, self.maxshape, self.dtype = shape, maxshape, dtype

                    def __setitem__(self, k, v):
                        rec.append((k, v))

                class VS:
                    def __init__(self, filename, name, shape=None, maxshape=None, **k):
                        self.args = (filename, name, shape, maxshape)

                    def __getitem__(self, k):
                        return (self.args, k)

                class H5:
                    VirtualLayout, VirtualSource = VL, VS

                    class h5s:
                        UNLIMITED = "UNLIMITED"

                class Tasks:
                    def create_virtual_dataset(self, name=None, layout=None, fillvalue=None):
                        return (name, layout)
                import pathlib
                h = object.__new__(ev.H5VirtualFileHandler)
                h.comm = Comm(0, R)
                h.max_writes, h.name, h.set_num = 7, "out", 3
                h.base_path = pathlib.Path("/base")
                task = dict(name="u", dtype=float, layout=LayoutStub(g, a, n), scales="S", operator=OpStub(tuple(CS(k) for k in ts)),
                            global_shape=tuple(ts) + tuple(g))
                with npf.facade(ev, extra={"h5py": H5, "prod": math.prod}):
                    ds = h.create_task_dataset({"tasks": Tasks()}, task)
                return ds, rec
            for k, p in enumerate(sym.explore(run, pre)):
                tag = f"virtual dataset D={D} rank {len(ts)} (path {k})"
                if p.exc is not None:
                    raise Unsupported(f"{p.exc!r}")
                (name, lay), rec = p.result
                T = len(ts)
                goal = [z3.BoolVal(name == "u" and lay.dtype is float and tuple(lay.maxshape[:1 + T]) == (7,) + ts and len(lay.shape) == 1 + T + D)]
                for d in range(D):
                    goal += [to_int(lay.shape[1 + T + d]) == g[d].t, to_int(lay.maxshape[1 + T + d]) == g[d].t]
                empty1 = z3.Or(*[x.t == 0 for x in n[1]])
                goal.append(z3.If(empty1, z3.BoolVal(len(rec) == 1), z3.BoolVal(len(rec) == 2)))
                for r, (key, (args, src)) in enumerate(rec):
                    goal.append(z3.BoolVal(args[0] == f"out_s3/out_s3_p{r}.h5" and args[1] == "tasks/u" and len(key) == len(src) == 1 + T + D
                                           and key[0] == src[0] == slice("UNLIMITED")))
                    for q in range(T):
                        goal.append(z3.BoolVal(key[1 + q] == slice(0, ts[q]) and src[1 + q] == slice(ts[q])))
                    for d in range(D):
                        goal += [to_int(key[1 + T + d].start) == a[r][d].t, to_int(key[1 + T + d].stop) == a[r][d].t + n[r][d].t,
                                 to_int(src[1 + T + d].stop) == n[r][d].t, z3.BoolVal(src[1 + T + d].start in (None, 0)),
                                 to_int(args[2][1 + T + d]) == n[r][d].t]
                chk.obl(f"{tag}: each non-empty process file is mapped to its own block", func2, p.pc, z3.And(*goal), observable=False)
    chk.contract("virtual dataset", func2, body2)


# ------------------------------------------------------------------------ bounded: real files
def scratch(f):
    def g(case):
        d = tempfile.mkdtemp(prefix="vf-o02-")
        try:
            return f(d, case)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return g


def geometry(kind, dtype):
    import dedalus.public as d3
    F = d3.RealFourier if dtype == np.float64 else d3.ComplexFourier
    if kind == "xz":
        c = d3.CartesianCoordinates("x", "z")
        dist = d3.Distributor(c, dtype=dtype)
        bs = (F(c["x"], 6, (0, 1), dealias=1.5), d3.ChebyshevT(c["z"], 5, (0, 2), dealias=2))
    elif kind == "xyz":
        c = d3.CartesianCoordinates("x", "y", "z")
        dist = d3.Distributor(c, dtype=dtype)
        bs = (F(c["x"], 4, (0, 1), dealias=1.5), F(c["y"], 6, (0, 1), dealias=1.5), d3.Legendre(c["z"], 5, (0, 2), dealias=1.5))
    elif kind == "disk":
        c = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(c, dtype=dtype)
        bs = (d3.DiskBasis(c, (8, 5), dtype=dtype, dealias=(1.5, 1.5)),)
    elif kind == "sphere":
        c = d3.S2Coordinates("phi", "theta")
        dist = d3.Distributor(c, dtype=dtype)
        bs = (d3.SphereBasis(c, (8, 4), dtype=dtype, dealias=(1.5, 1.5)),)
    elif kind == "shell":
        c = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(c, dtype=dtype)
        bs = (d3.ShellBasis(c, (8, 4, 3), radii=(0.5, 1.5), dtype=dtype, dealias=(1.5, 1.5, 1.5)),)
    return c, dist, bs


@scratch
def history(d, case):
    """A history of writes with changing data; every record compared with an independent evaluation."""
    import h5py
    import dedalus.public as d3
    from dedalus.core import evaluator as ev
    kind, dtype, parallel, maxw, nwrites = case
    c, dist, bs = geometry(kind, dtype)
    u = dist.Field(name="u", bases=bs)
    v = dist.VectorField(c, name="v", bases=bs)
    E = ev.Evaluator(dist, {"u": u, "v": v})
    D = dist.dim
    mixed = {2: (1, 1.5), 3: (1.5, 1, 0.5)}[D]
    specs = [(u, "u", "g", 1), (u, "uc", "c", 1), (u, "us", "g", 1.5), (u, "um", "g", mixed), (v, "v", "g", 1), (v, "vc", "c", 1),
             (u * u, "uu", "g", 1), (d3.lap(u), "lap", "g", 1), ("u", "parsed", "g", 2), (u, "half", "g", 0.5)]
    hs = []
    for hn, sel in (("one", specs[:6]), ("two", specs[3:])):
        h = E.add_file_handler(os.path.join(d, hn), parallel=parallel, iter=1, max_writes=maxw)
        for t, nm, lay, sc in sel:
            h.add_task(t, layout=lay, name=nm, scales=sc)
        hs.append((h, sel, hn))
    rng = np.random.default_rng(3)
    expect = []
    for w in range(nwrites):
        u.fill_random("g", seed=10 + w)
        v.fill_random("g", seed=50 + w)
        rec = {}
        for t, nm, lay, sc in specs:
            u2, v2 = u.copy(), v.copy()
            op = {"uu": lambda: u2 * u2, "lap": lambda: d3.lap(u2)}.get(nm, lambda: (v2 if nm.startswith("v") else u2))()
            f = op.evaluate() if not isinstance(op, d3.Field) else op
            f = f.copy()
            f.change_layout("c")
            f.change_scales(sc)
            rec[nm] = np.array(f[lay])
        before = (u.layout, u.scales)
        E.evaluate_handlers([h for h, _, _ in hs], iteration=7 * w, wall_time=100.0 + w, sim_time=0.25 * w, timestep=0.5 + w)
        expect.append((rec, dict(iteration=7 * w, wall_time=100.0 + w, sim_time=0.25 * w, timestep=0.5 + w, write_number=w + 1)))
    for h, sel, hn in hs:
        per = maxw or nwrites
        nsets = -(-nwrites // per)
        files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, hn, "*.h5")))
        want = sorted(f"{hn}_s{k + 1}.h5" for k in range(nsets))
        if files != want:
            return {"files": files, "expected": want}
        for s in range(nsets):
            idx = list(range(s * per, min((s + 1) * per, nwrites)))
            with h5py.File(os.path.join(d, hn, f"{hn}_s{s + 1}.h5")) as f:
                if f.attrs["writes"] != len(idx) or f.attrs["set_number"] != s + 1 or f.attrs["handler_name"] != hn:
                    return {"set": s + 1, "attrs": {k: str(x) for k, x in f.attrs.items()}}
                for nm in ("iteration", "wall_time", "sim_time", "timestep", "write_number"):
                    got = list(f["scales"][nm][:])
                    if got != [expect[i][1][nm] for i in idx]:
                        return {"set": s + 1, "scale": nm, "recorded": [float(x) for x in got], "expected": [expect[i][1][nm] for i in idx]}
                if sorted(f["tasks"]) != sorted(nm for _, nm, _, _ in sel):
                    return {"tasks": sorted(f["tasks"])}
                for t, nm, lay, sc in sel:
                    ds = f["tasks"][nm]
                    if ds.shape[0] != len(idx):
                        return {"task": nm, "records": ds.shape[0], "expected": len(idx)}
                    for k, i in enumerate(idx):
                        e = expect[i][0][nm]
                        if ds[k].shape != e.shape or not np.allclose(ds[k], e, rtol=1e-9, atol=1e-9 * max(1, np.abs(e).max())):
                            return {"task": nm, "write": i + 1, "violates": "the record is the task's data at that write",
                                    "max error": float(np.abs(ds[k] - e).max()) if ds[k].shape == e.shape else None,
                                    "shape": ds[k].shape, "expected shape": e.shape}
                    bad = check_scales(f, ds, dist, bs, c, lay, dist.remedy_scales(sc), 1 if nm.startswith("v") else 0)
                    if bad:
                        return {"task": nm, **bad}


def check_scales(f, ds, dist, bs, c, lay, sc, rank):
    dims = ds.dims
    if dims[0].label != "t" or sorted(dims[0].keys()) != sorted(["iteration", "sim_time", "timestep", "wall_time", "write_number"]):
        return {"violates": "time axis carries the time scales", "keys": list(dims[0].keys())}
    for basis in bs:
        first = dist.get_basis_axis(basis)
        for s in range(basis.dim):
            ax = first + s
            dim = dims[1 + rank + ax]
            name = basis.coordsys.coords[s].name
            if lay == "g":
                want = np.ravel(basis.global_grids(dist, sc[first:first + basis.dim])[s])
                if dim.label != name or len(dim.values()) != 1 or not np.allclose(np.ravel(dim[0][:]), want):
                    return {"violates": "grid axis carries its own grid", "axis": ax, "label": dim.label, "recorded": dim[0][:], "expected": want}
            else:
                L = dist.coeff_layout
                el = np.array(np.meshgrid(*L.global_elements(ds_domain(dist, bs), (1,) * dist.dim), indexing="ij"))
                grp = basis.elements_to_groups(L.grid_space[first:first + basis.dim], el[first:first + basis.dim])[s]
                if dim.label != "k" + name or not np.array_equal(np.array(dim[0][:]), np.array(grp)):
                    return {"violates": "coefficient axis carries its own mode numbers", "axis": ax, "label": dim.label}


def ds_domain(dist, bs):
    from dedalus.core.domain import Domain
    return Domain(dist, bs)


@scratch
def modes(d, case):
    """Sequences of runs on one base path."""
    import h5py
    import dedalus.public as d3
    from dedalus.core import evaluator as ev
    seq, parallel, name = case
    c = d3.Coordinate("x")
    dist = d3.Distributor(c, dtype=np.float64)
    xb = d3.RealFourier(c, 4, (0, 1))
    u = dist.Field(name="u", bases=(xb,))
    base = os.path.join(d, name)
    stem = os.path.splitext(name)[0]
    os.makedirs(base)
    for junk in ("notes.txt", f"{stem}_summary.dat") if seq[0][0] == "append" else ("notes.txt",):
        open(os.path.join(base, junk), "w").write("keep")
    model = {}            # set number -> list of (write number, value)
    total = 0
    nextset = 1
    for mode, maxw, nwrites in seq:
        E = ev.Evaluator(dist, {})
        h = E.add_file_handler(base, parallel=parallel, iter=1, max_writes=maxw, mode=mode)
        h.add_task(u, name="u")
        if mode == "overwrite":
            model, total, nextset = {}, 0, 1
        cur, inset = nextset, 0
        for w in range(nwrites):
            val = float(np.random.default_rng(len(model) * 100 + w + total).standard_normal())
            u["g"] = val
            E.evaluate_handlers([h], iteration=w, wall_time=0.0, sim_time=1.0 * w, timestep=0.1)
            total += 1
            if maxw is not None and inset == maxw:
                cur, inset = cur + 1, 0
            inset += 1
            model.setdefault(cur, []).append((total, val))
        nextset = max(model, default=0) + 1
        files = sorted(os.path.basename(f) for f in glob.glob(base + "/*.h5"))
        if files != sorted(f"{stem}_s{k}.h5" for k in model):
            return {"after": (mode, maxw, nwrites), "files": files, "expected sets": sorted(model)}
        for k, recs in model.items():
            with h5py.File(os.path.join(base, f"{stem}_s{k}.h5")) as f:
                got = list(zip([int(x) for x in f["scales/write_number"][:]], [float(x[0]) for x in f["tasks/u"][:]]))
                if [g[0] for g in got] != [r[0] for r in recs] or not np.allclose([g[1] for g in got], [r[1] for r in recs]):
                    return {"after": (mode, maxw, nwrites), "set": k, "recorded": got, "expected": recs}
        if not os.path.exists(os.path.join(base, "notes.txt")):
            return {"violates": "unrelated files are left alone"}


SCRIPT = r'''
import sys, os, logging
logging.disable(logging.CRITICAL)
import numpy as np
import dedalus.public as d3
from dedalus.core import evaluator as ev
base, mesh, dt, par = sys.argv[1], eval(sys.argv[2]), {'f': np.float64, 'c': np.complex128}[sys.argv[3]], sys.argv[4]
geo = sys.argv[5]
if geo == 'xyz':
    c = d3.CartesianCoordinates('x', 'y', 'z')
    dist = d3.Distributor(c, dtype=dt, mesh=mesh)
    F = d3.RealFourier if dt == np.float64 else d3.ComplexFourier
    bs = (F(c['x'], 6, (0, 1), dealias=1.5), F(c['y'], 8, (0, 2), dealias=1.5), d3.ChebyshevT(c['z'], 5, (0, 3), dealias=1.5))
    bw = (bs[1],)
elif geo == 'disk':
    c = d3.PolarCoordinates('phi', 'r')
    dist = d3.Distributor(c, dtype=dt, mesh=mesh)
    bs = (d3.DiskBasis(c, (12, 7), dtype=dt, dealias=(1.5, 1.5)),); bw = ()
elif geo == 'ball':
    c = d3.SphericalCoordinates('phi', 'theta', 'r')
    dist = d3.Distributor(c, dtype=dt, mesh=mesh)
    bs = (d3.BallBasis(c, (8, 6, 5), dtype=dt, dealias=(1.5, 1.5, 1.5)),); bw = (bs[0].surface,)
u = dist.Field(name='u', bases=bs); v = dist.VectorField(c, name='v', bases=bs); w = dist.Field(name='w', bases=bw)
T = dist.TensorField((c, c), name='T', bases=bs)
E = ev.Evaluator(dist, {'u': u, 'v': v, 'w': w})
hs = []
for nm in ('one', 'two'):
    h = E.add_file_handler(base + nm, iter=1, max_writes=2, parallel=par)
    for t, kw in ((u, {}), (v, {}), (w, {}), (T, {}), (u, dict(layout='c', name='uc')), (v, dict(layout='c', name='vc')), (u, dict(scales=2, name='us')), (u*u, dict(name='uu'))):
        h.add_task(t, **kw)
    hs.append(h)
for i in range(5):
    for k, f in enumerate((u, v, w, T)):
        f.fill_random('g', seed=10*i + k)
    E.evaluate_handlers(hs[:1] if i == 2 else hs, iteration=i, wall_time=0., sim_time=0.5*i, timestep=0.5)
'''


def close(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        try:
            x, y = np.array(a), np.array(b)
            if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
                return x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-10, atol=1e-10))
        except ValueError:
            pass
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


_serial = {}


@scratch
def parallel_equals_serial(d, case):
    geo, dt, par, n, mesh = case
    if (geo, dt) not in _serial:
        os.mkdir(os.path.join(d, "ser"))
        rc, out, err = mpi.run(SCRIPT, 1, [os.path.join(d, "ser") + "/", "None", dt, "gather", geo], cwd=d)
        if rc:
            raise RuntimeError("serial run failed: " + err[-300:])
        _serial[(geo, dt)] = {os.path.relpath(f, d + "/ser"): dump(f) for f in sorted(glob.glob(d + "/ser/*/*.h5"))}
    ref = _serial[(geo, dt)]
    os.mkdir(os.path.join(d, "par"))
    rc, out, err = mpi.run(SCRIPT, n, [os.path.join(d, "par") + "/", mesh, dt, par, geo], cwd=d)
    if rc:
        return {"violates": "parallel run writes its output", "error": err[-400:]}
    got = {os.path.relpath(f, d + "/par"): dump(f) for f in sorted(glob.glob(d + "/par/*/*.h5"))}
    if set(got) != set(ref) or len(ref) != 5:
        return {"files": sorted(got), "serial": sorted(ref)}
    for f in ref:
        for k in ref[f]:
            if not close(ref[f][k], got[f].get(k)):
                return {"file": f, "differs in": k, "violates": "files do not depend on the number of processes"}


def run(chk):
    from dedalus.core import evaluator as ev
    chk.trust("h5py/HDF5 store what they are given; virtual datasets map blocks as described by their layout")
    chk.assume("Handlers are processed for exactly the scheduled steps (property O01); layouts tile the data (property D01)")
    chk.assume("H5ParallelFileHandler needs an MPI build of h5py, which is absent here: its write path is not covered")
    process_contract(chk, ev, False)
    process_contract(chk, ev, True)
    metadata_contract(chk, ev)
    distribution_contract(chk, ev)
    hist = [(k, dt, par, mw, n) for k in ("xz", "xyz", "disk", "sphere", "shell") for dt in (np.float64, np.complex128)
            for par in ("gather", "virtual") for mw, n in (((None, 3), (1, 2), (2, 5)) if k == "xz" else ((2, 3),))]
    chk.bounded("write histories against independent evaluation", "5 geometries, real/complex, gather/virtual, up to 5 writes, 10 tasks",
                hist, history, budget=200)
    A, O = "append", "overwrite"
    seqs = [((A, None, 2), (A, None, 1), (A, 2, 3)), ((O, 2, 5), (A, 2, 1), (A, 2, 2), (O, 1, 2)), ((A, 1, 11), (A, None, 1), (A, 3, 4)),
            ((O, 3, 3), (O, 3, 4)), ((O, 2, 4), (A, 2, 4)), ((A, 2, 0), (A, 2, 2)), ((O, None, 0), (A, None, 2))]
    chk.bounded("set and write numbers over sequences of runs", "listed run sequences, gather/virtual, plain and unusual names",
                [(s, p, n) for s in seqs for p in ("gather", "virtual") for n in ("out", "run+1.x")], modes)
    par = [("xyz", "f", "gather", 4, "(2,2)"), ("xyz", "f", "virtual", 4, "(2,2)"), ("xyz", "c", "virtual", 3, "(3,)"), ("disk", "f", "virtual", 4, "(4,)"),
           ("disk", "f", "gather", 3, "(3,)"), ("ball", "f", "gather", 4, "(2,2)"), ("ball", "c", "virtual", 4, "(2,2)")]
    if chk.thorough:
        par += [(g, dt, p, n, m) for g in ("xyz", "disk", "ball") for dt in "fc" for p in ("gather", "virtual")
                for n, m in ((2, "(2,)"), (5, "(5,)"), (6, "(3,2)"), (6, "(2,3)")) if not (g == "disk" and "," in m[:-2].strip("(") )]
    chk.bounded("parallel files equal serial files", "real parallel runs on 3-4 (6 thorough) processes", par, parallel_equals_serial, maxfail=8)
