"""O03: post-processing visits every write exactly once and merges without loss.

Contracts
  get_assigned_writes on K sets with any write counts w_j >= 0 (K and w symbolic; prefix sums S(j) as a
  ghost function), MPI_SIZE = P >= 1, 0 <= MPI_RANK = p < P.  With T = S(K), B = ceil(T/P):
     0 <= start, 0 <= count, start + count <= w_j
     the range of process p+1 begins where that of process p ends, process 0 begins at 0,
     process P-1 ends at w_j                                  => every write exactly once, in order
     count_p(j) = h(j+1) - h(j), h(0) = 0, h(K) <= B          => no process gets more than the equal share rounded up
  visit_writes: calls function(path, start, count, **kw) for exactly the sets with count > 0, in natural order.
  merge_data: writes each piece to (all writes,) + [start, start+count) per axis.
"""

import glob
import itertools
import math
import os
import shutil
import tempfile

import numpy as np
import z3

from vf import sym, npf, mpi
from vf.npf import SVec
from vf.sym import Int, SymInt, to_int, Unsupported


def takes(f):
    f.takes_none = True
    return f


class PVec(SVec):
    """Vector of symbolic length with a ghost prefix-sum function."""

    def __init__(self, n, w, S):
        super().__init__(n, lambda i: SymInt(w(to_int(i))))
        self.S = S

    def total(self):
        return SymInt(self.S(to_int(self.n)))


class NPc(npf.NP):
    def cumsum(self, v, *a, **k):
        if isinstance(v, PVec):
            return SVec(v.n, lambda i: SymInt(v.S(to_int(i) + 1)))
        return np.cumsum(v, *a, **k)

    def sum(self, v, *a, **k):
        return v.total() if isinstance(v, PVec) else np.sum(v, *a, **k)


def ssum(v, start=0):
    return v.total() if isinstance(v, PVec) else sum(v, start)


def assigned(chk, post):
    func = "post.get_assigned_writes"

    def body():
        w = z3.Function("w", z3.IntSort(), z3.IntSort())
        S = z3.Function("S", z3.IntSort(), z3.IntSort())
        K, P, p, j, B0, r0 = Int("K"), Int("P"), Int("p"), Int("j"), Int("B0"), Int("r0")
        T = S(K.t)
        inst = []
        for x in (j.t, j.t + 1):
            inst += [S(x) >= 0, S(x) <= T]        # prefix sums of nonnegative counts are monotone
        pre = [K.t >= 0, P.t >= 1, 0 <= p.t, p.t < P.t, 0 <= j.t, j.t < K.t, S(0) == 0,
               S(j.t + 1) == S(j.t) + w(j.t), w(j.t) >= 0,
               T == P.t * B0.t - r0.t, 0 <= r0.t, r0.t < P.t, B0.t >= 0] + inst
        saved = {k: getattr(post, k) for k in ("MPI_SIZE", "MPI_RANK")}

        def run():
            try:
                out = []
                with npf.facade(post, np=NPc(), extra={"sum": ssum, "natural_sort": lambda x, **k: list(x),
                                                       "get_all_writes": lambda paths: PVec(K, w, S)}):
                    post.MPI_SIZE = P
                    for rank in (p, p + 1, 0, P - 1):
                        post.MPI_RANK = rank
                        st, co = post.get_assigned_writes([])
                        if not (isinstance(st, SVec) and isinstance(co, SVec)):
                            raise Unsupported("result is not a pair of vectors")
                        out.append((st.at(j), co.at(j), st.n, co.n))
                return out
            finally:
                for k, v in saved.items():
                    setattr(post, k, v)
        paths = sym.explore(run, pre, max_paths=300, timeout_ms=2000)
        chk.paths += len(paths)
        chk.sat_check("assigned writes precondition", pre)
        rep = takes(lambda model=None: search_assigned(post))
        clip = lambda x, a, b: z3.If(x < a, a, z3.If(x > b, b, x))
        # the equal share, rounded up, is B0
        lem = [(P.t - 1) * B0.t >= 0]
        pb, pb1 = p.t * B0.t, (p.t + 1) * B0.t
        for k, pt in enumerate(paths):
            t = f"assigned writes (path {k})" if len(paths) > 1 else "assigned writes"
            if pt.exc is not None:
                chk.obl(f"{t}: no exception", func, pt.pc, False, replay=rep)
                continue
            (s, c, n1, n2), (sn, cn, _, _), (s0, c0, _, _), (sl, cl, _, _) = [tuple(to_int(x) for x in row) for row in pt.result]
            pc = list(pt.pc)
            names = [x for x in smt_ints(pt.pc) if x.decl().name() not in ("K", "P", "p", "j", "B0", "r0")]
            # the block size is the only rounded quantity: instantiate it
            share = []
            for x in names:
                if chk_eq(pc, x, B0.t):
                    share.append(x == B0.t)
            pc2 = pc + share
            chk.obl(f"{t}: one entry per set", func, pc2, z3.And(n1 == K.t, n2 == K.t), replay=rep)
            chk.obl(f"{t}: entries lie within the set", func, pc2, z3.And(0 <= s, 0 <= c, s + c <= w(j.t)), replay=rep)
            chk.obl(f"{t}: the next process continues where this one ends", func, pc2, sn == s + c, replay=rep)
            chk.obl(f"{t}: process 0 begins at the first write", func, pc2, s0 == 0, replay=rep)
            chk.obl(f"{t}: the last process ends at the last write", func, pc2, sl + cl == w(j.t), replay=rep)
            h = lambda u: clip(pb1, 0, u) - clip(pb, 0, u)
            chk.obl(f"{t}: counts telescope to the share of the process", func, pc2 + [pb >= 0, pb1 == pb + B0.t],
                    c == h(S(j.t + 1)) - h(S(j.t)), replay=rep)
            chk.obl(f"{t}: no process gets more than the equal share rounded up", func, pc2 + [pb >= 0, pb1 == pb + B0.t],
                    z3.And(h(z3.IntVal(0)) == 0, h(T) <= B0.t, z3.Implies(T > 0, B0.t >= 1)), replay=rep)
        # ghost lemma used above, by induction on the index
        x, y = z3.Ints("x y")
        chk.obl("prefix sums of nonnegative counts are monotone (induction step)", func,
                [S(x) >= 0, S(x) <= S(y), S(y + 1) == S(y) + w(y), w(y) >= 0], z3.And(S(y + 1) >= 0, S(x) <= S(y + 1)))
    chk.contract("assigned writes", func, body)


def smt_ints(ts):
    out, seen = [], set()

    def go(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(e):
            out.append(e)
        for c in e.children():
            go(c)
    for t in ts:
        go(t)
    return out


def chk_eq(pc, x, y):
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(*pc)
    s.add(x != y)
    return s.check() == z3.unsat


def search_assigned(post, limit=6):
    saved = {k: getattr(post, k) for k in ("MPI_SIZE", "MPI_RANK", "get_all_writes")}
    try:
        for K in range(1, 4):
            for w in itertools.product(range(0, 5), repeat=K):
                for P in (1, 2, 3, 5, 8):
                    post.MPI_SIZE = P
                    post.get_all_writes = lambda paths: list(w)
                    got = [[] for _ in w]
                    total, share = sum(w), -(-sum(w) // P)
                    order = []
                    for rank in range(P):
                        post.MPI_RANK = rank
                        try:
                            st, co = post.get_assigned_writes([f"s{k}" for k in range(K)])
                        except Exception as e:
                            return {"writes": w, "processes": P, "rank": rank, "exception": repr(e)}
                        mine = [(k, int(st[k]) + i) for k in range(K) for i in range(int(co[k]))]
                        if len(mine) > share:
                            return {"writes": w, "processes": P, "rank": rank, "assigned": mine, "violates": "equal share rounded up"}
                        order += mine
                    if order != [(k, i) for k in range(K) for i in range(w[k])]:
                        return {"writes": w, "processes": P, "assigned in rank order": order, "violates": "every write exactly once in order"}
    finally:
        for k, v in saved.items():
            setattr(post, k, v)
    return None


def visits(chk, post):
    func = "post.visit_writes"

    def body():
        for K in range(0, 4):
            st = [Int(f"s{k}") for k in range(K)]
            co = [Int(f"c{k}") for k in range(K)]
            pre = [x.t >= 0 for x in st + co]

            def run():
                calls = []
                with npf.facade(post, extra={"get_assigned_writes": lambda paths: (list(st), list(co)),
                                             "natural_sort": lambda x, **k: sorted(x)}):
                    post.visit_writes([f"f{k}" for k in range(K)][::-1], lambda *a, **k: calls.append((a, k)), extra=7)
                return calls
            paths = sym.explore(run, pre, max_paths=64)
            chk.paths += len(paths)
            for n, pt in enumerate(paths):
                if pt.exc is not None:
                    chk.obl(f"visit {K} sets (path {n}): no exception", func, pt.pc, False)
                    continue
                # exactly the sets with a positive count, in order, with their start and count
                called = {}
                ok_shape = True
                last = -1
                for a, k in pt.result:
                    idx = int(str(a[0])[1:])
                    ok_shape &= idx > last and len(a) == 3 and k == {"extra": 7} and str(a[0]) == f"f{idx}"
                    last = idx
                    called[idx] = a
                goal = [z3.BoolVal(ok_shape)]
                for k in range(K):
                    if k in called:
                        goal += [co[k].t > 0, to_int(called[k][1]) == st[k].t, to_int(called[k][2]) == co[k].t]
                    else:
                        goal += [co[k].t == 0]
                chk.obl(f"visit {K} sets (path {n}): exactly the sets with writes, in order, with keywords", func, pt.pc, z3.And(*goal))
    chk.contract("visit writes", func, body)


class FakeAttrs(dict):
    pass


class FakeDset:
    def __init__(self, attrs=None, data=None):
        self.attrs = attrs or {}
        self.data = data
        self.writes = []

    def __getitem__(self, k):
        return ("piece", k)

    def __setitem__(self, k, v):
        self.writes.append((k, v))


class FakeFile(dict):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def merging(chk, post):
    func = "post.merge_data"

    def body():
        for ndim in (1, 2, 3):
            st = [Int(f"s{d}") for d in range(ndim)]
            co = [Int(f"c{d}") for d in range(ndim)]
            pre = [x.t >= 0 for x in st + co]

            def run():
                proc = FakeFile(tasks={n: FakeDset({"start": list(st), "count": list(co)}) for n in ("a", "b")})
                joint = FakeFile(tasks={n: FakeDset() for n in ("a", "b")})

                class H5:
                    @staticmethod
                    def File(*a, **k):
                        return proc
                with npf.facade(post, extra={"h5py": H5}):
                    post.merge_data(joint, "p0.h5")
                return joint
            for pt in sym.explore(run, pre):
                if pt.exc is not None:
                    raise Unsupported(f"stand-in file: {pt.exc!r}")
                for n in ("a", "b"):
                    ws = pt.result["tasks"][n].writes
                    goal = [z3.BoolVal(len(ws) == 1)]
                    if len(ws) == 1:
                        k, v = ws[0]
                        goal.append(z3.BoolVal(len(k) == ndim + 1 and k[0] == slice(None) and v == ("piece", slice(None))))
                        if len(k) == ndim + 1:
                            for d in range(ndim):
                                goal += [to_int(k[d + 1].start) == st[d].t, to_int(k[d + 1].stop) == st[d].t + co[d].t,
                                         z3.BoolVal(k[d + 1].step in (None, 1))]
                    chk.obl(f"merge {ndim}-d piece of task {n}: lands at its recorded position", func, pt.pc, z3.And(*goal), observable=False)
    chk.contract("merge data", func, body)


# ------------------------------------------------------------------------------ bounded, real files
def scratch(f):
    def g(case):
        d = tempfile.mkdtemp(prefix="vf-o03-")
        try:
            return f(d, case)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return g


def as_rank(post, rank, size):
    post.MPI_RANK, post.MPI_SIZE = rank, size


@scratch
def real_visits(d, case):
    import h5py
    from dedalus.tools import post
    w, P = case
    saved = post.MPI_RANK, post.MPI_SIZE
    names = []
    try:
        for k, n in enumerate(w):
            f = os.path.join(d, f"out_s{k + 8}.h5")     # crosses 9 -> 10: natural order matters
            with h5py.File(f, "w") as h:
                h.attrs["writes"] = n
            names.append(f)
        want = [(names[k], i) for k in range(len(w)) for i in range(w[k])]
        got = []
        sets = []
        share = -(-sum(w) // P)
        for rank in range(P):
            as_rank(post, rank, P)
            mine = []
            post.visit_writes(sorted(names), lambda p, s, c, **k: mine.extend((p, int(s) + i) for i in range(int(c))))
            if len(mine) > share:
                return {"rank": rank, "visited": mine, "violates": "equal share rounded up"}
            got += mine
            sets += [str(p) for p in post.get_assigned_sets(d)] if False else []
        if got != want:
            return {"visited": got, "expected": want}
        base = os.path.join(d, "out")
        os.mkdir(base)
        for k in range(len(w)):
            open(os.path.join(base, f"out_s{k + 8}.h5"), "w").close()
            os.mkdir(os.path.join(base, f"out_s{k + 8}"))
        for dist, suffix in ((False, ".h5"), (True, "")):
            per = []
            for rank in range(P):
                as_rank(post, rank, P)
                per += [str(p) for p in post.get_assigned_sets(base, distributed=dist)]
            if sorted(per) != sorted(os.path.join(base, f"out_s{k + 8}{suffix}") for k in range(len(w))):
                return {"assigned sets": per, "violates": "every set to exactly one process", "distributed": dist}
    finally:
        as_rank(post, *saved)


@scratch
def legacy_merge(d, case):
    """Pieces in the distributed-set format: every piece lands at its place."""
    import h5py
    from dedalus.tools import post
    shape, blocks, writes, tens, dtype = case
    rng = np.random.default_rng(5)
    full = rng.standard_normal((writes,) + tens + shape).astype(dtype)
    if np.dtype(dtype).kind == "c":
        full = full + 1j * rng.standard_normal(full.shape)
    grids = [np.linspace(0, 1, n) + a for a, n in enumerate(shape)]
    base = os.path.join(d, "out")
    os.makedirs(os.path.join(base, "out_s1"))
    edges = [sorted({min(k * -(-n // b), n) for k in range(b + 1)}) for n, b in zip(shape, blocks)]
    pieces = list(itertools.product(*[list(zip(e[:-1], e[1:])) for e in edges]))
    for r, pc in enumerate(pieces):
        with h5py.File(os.path.join(base, "out_s1", f"out_s1_p{r}.h5"), "w") as f:
            f.attrs["set_number"], f.attrs["handler_name"], f.attrs["writes"] = 1, "out", writes
            sc = f.create_group("scales")
            for n in ("sim_time", "wall_time", "timestep"):
                sc.create_dataset(n, data=np.arange(writes) * 0.5)
            for n in ("iteration", "write_number"):
                sc.create_dataset(n, data=np.arange(writes))
            sc.create_dataset("constant", data=np.zeros(1))
            sl = tuple(slice(a, b) for a, b in pc)
            ds = f.create_group("tasks").create_dataset("u", data=full[(slice(None),) + (slice(None),) * len(tens) + sl])
            ds.attrs["task_number"], ds.attrs["constant"], ds.attrs["grid_space"], ds.attrs["scales"] = 0, [False], [True], [1.0]
            ds.attrs["global_shape"] = tens + shape
            ds.attrs["start"] = (0,) * len(tens) + tuple(a for a, b in pc)
            ds.attrs["count"] = tens + tuple(b - a for a, b in pc)
            ds.dims[0].label = "t"
    # drop the dimension labels' scales: pieces without attached spatial scales are 'constant'
    for cleanup in (False, True):
        post.merge_analysis(base, cleanup=cleanup)
        with h5py.File(os.path.join(base, "out_s1.h5")) as f:
            got = f["tasks"]["u"][:]
            if got.shape != full.shape or got.dtype != full.dtype or not np.array_equal(got, full):
                return {"violates": "merged data equals the global data", "shape": got.shape}
            if f.attrs["writes"] != writes or f.attrs["set_number"] != 1 or list(f["scales"]["sim_time"][:]) != [0.5 * k for k in range(writes)]:
                return {"violates": "merged metadata"}
        if cleanup and os.path.exists(os.path.join(base, "out_s1")):
            return {"violates": "cleanup removes the pieces"}
        if not cleanup and len(os.listdir(os.path.join(base, "out_s1"))) != len(pieces):
            return {"violates": "pieces kept without cleanup"}


SCRIPT = r'''
import sys, os, logging
logging.disable(logging.CRITICAL)
import numpy as np
import dedalus.public as d3
from mpi4py import MPI
base, mesh, dt = sys.argv[1], eval(sys.argv[2]), {'f': np.float64, 'c': np.complex128}[sys.argv[3]]
c = d3.CartesianCoordinates('x', 'y', 'z')
dist = d3.Distributor(c, dtype=dt, mesh=mesh)
F = d3.RealFourier if dt == np.float64 else d3.ComplexFourier
xb = F(c['x'], 6, (0, 1), dealias=1.5); yb = F(c['y'], 8, (0, 2), dealias=1.5); zb = d3.ChebyshevT(c['z'], 5, (0, 3), dealias=1.5)
u = dist.Field(name='u', bases=(xb, yb, zb)); v = dist.VectorField(c, name='v', bases=(xb, yb, zb)); w = dist.Field(name='w', bases=(yb,))
u.fill_random('g', seed=1); v.fill_random('g', seed=2); w.fill_random('g', seed=3)
p = d3.IVP([u, v, w]); p.add_equation((d3.TimeDerivative(u) + u, 0)); p.add_equation((d3.TimeDerivative(v) + v, 0)); p.add_equation((d3.TimeDerivative(w) + w, 0))
s = p.build_solver('RK111')
h = s.evaluator.add_file_handler(base, iter=1, max_writes=2, parallel='virtual')
for t, kw in ((u, {}), (v, {}), (w, {}), (u, dict(layout='c', name='uc')), (u, dict(scales=(1, 1.5, 2), name='us')), (u(z=0), dict(name='uz0'))):
    h.add_task(t, **kw)
for i in range(5):
    s.step(0.1)
'''


def dump(path):
    import h5py
    out = {}
    with h5py.File(path) as f:
        out["attrs"] = {k: np.array(v).tolist() for k, v in f.attrs.items()}
        out["scales"] = {k: np.array(f["scales"][k]).tolist() for k in f["scales"]}
        for t in f["tasks"]:
            ds = f["tasks"][t]
            out["task " + t] = (ds.shape, str(ds.dtype), ds[:].tolist(), [d.label for d in ds.dims],
                                [sorted(k for k in d.keys()) for d in ds.dims],
                                [[np.array(v).tolist() for v in d.values()] for d in ds.dims],
                                {k: np.array(ds.attrs[k]).tolist() for k in ("constant", "grid_space", "scales")})
    return out


@scratch
def virtual_merge(d, case):
    from dedalus.tools import post
    n, mesh, dt = case
    base = os.path.join(d, "out")
    rc, out, err = mpi.run(SCRIPT, n, [base, mesh, dt], cwd=d)
    if rc:
        raise RuntimeError(f"run with {n} processes failed: {err[-400:]}")
    files = sorted(glob.glob(base + "/out_s*.h5"))
    if len(files) != 3:
        return {"files": [os.path.basename(f) for f in files]}
    before = {f: dump(f) for f in files}
    saved = post.MPI_RANK, post.MPI_SIZE
    try:
        for rank in range(2):
            as_rank(post, rank, 2)
            post.merge_virtual_analysis(base, cleanup=(n == 4))
    finally:
        as_rank(post, *saved)
    import h5py
    if sorted(os.path.basename(f) for f in glob.glob(base + "/*.h5")) != [os.path.basename(f) for f in files]:
        return {"violates": "merging leaves exactly the merged files", "files": glob.glob(base + "/*")}
    # the pieces are gone from view: merged files must stand alone
    for s in glob.glob(base + "/out_s*"):
        if os.path.isdir(s):
            if n == 4:
                return {"violates": "cleanup removes the process files", "left": s}
            shutil.rmtree(s)
    for f in files:
        after = dump(f)
        if after != before[f]:
            keys = [k for k in before[f] if after.get(k) != before[f][k]] + [k for k in after if k not in before[f]]
            return {"violates": "merged file equals the virtual file", "file": os.path.basename(f), "differs in": keys}
        with h5py.File(f) as h:
            if any(h["tasks"][t].is_virtual for t in h["tasks"]):
                return {"violates": "merged datasets stand alone"}


@scratch
def handler_process_sets(d, case):
    """merge_analysis on the process sets that the current virtual handler writes."""
    import h5py
    from dedalus.tools import post
    base = os.path.join(d, "out")
    rc, out, err = mpi.run(SCRIPT, 2, [base, "(2,)", "f"], cwd=d)
    if rc:
        raise RuntimeError(f"run failed: {err[-400:]}")
    f0 = os.path.join(base, "out_s1.h5")
    before = dump(f0)
    try:
        post.merge_analysis(base)
    except Exception as e:
        return {"violates": "merges the process sets written by the virtual handler", "exception": repr(e)[:200]}
    after = dump(f0)
    if after != before:
        return {"violates": "merged file equals the joint file", "differs in": [k for k in before if after.get(k) != before[k]]}


def natural(case):
    from dedalus.tools.general import natural_sort
    names = [f"a/b_s{k}.h5" for k in case]
    if natural_sort(names) != [f"a/b_s{k}.h5" for k in sorted(case)]:
        return {"sorted": natural_sort(names)}


def run(chk):
    from dedalus.tools import post
    chk.trust("natural_sort orders file names by their embedded numbers (bounded check)")
    chk.trust("h5py reads back what was written")
    chk.assume("get_all_writes returns the 'writes' attribute of each file in the given order (bounded check on real files)")
    assigned(chk, post)
    visits(chk, post)
    merging(chk, post)
    cases = [(w, P) for K in (1, 2, 3) for w in itertools.product((0, 1, 3, 4), repeat=K) for P in (1, 2, 3, 5, 8)]
    if not chk.thorough:
        cases = cases[::4]
    chk.bounded("write and set assignment on real files", "up to 3 files of 0-4 writes, 1-8 processes", cases, real_visits)
    chk.bounded("natural order", "listed numbers", [(10, 9, 1), (2, 11, 100, 20), (3,), ()], natural)
    mc = [(s, b, w, t, dt) for s, b in (((7,), (3,)), ((6, 5), (2, 1)), ((6, 5), (2, 2)), ((4, 3, 5), (2, 3, 1)), ((1, 5), (1, 2)))
          for w in (1, 3) for t in ((), (2,), (2, 3)) for dt in ("f8", "c16")]
    chk.bounded("merging distributed pieces", "5 decompositions, 1-3 writes, ranks 0-2, real and complex", mc, legacy_merge)
    vc = [(1, "None", "f"), (4, "(2,2)", "f"), (3, "(3,)", "c")]
    if chk.thorough:
        vc += [(2, "(2,)", "f"), (4, "(4,)", "c"), (6, "(3,2)", "f"), (6, "(2,3)", "c")]
    chk.bounded("merging virtual files of real parallel runs", "1-4 (6 thorough) processes, 6 tasks, 3 sets", vc, virtual_merge)
    chk.bounded("merge_analysis on current process sets", "one run", [0], handler_process_sets, key="merge_analysis-process-sets")
