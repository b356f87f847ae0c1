"""L02: adaptive timesteps follow their rule and bounds; flow statistics are exact global reductions."""
import itertools
import random

import numpy as np
import z3
from vf import sym, npf
from vf.run import takes_none
from vf.sym import Int, Real, to_real

F = "flow_tools.CFL.compute_timestep"
FR = "flow_tools.GlobalArrayReducer"
INF = float("inf")


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class Comm:
    """Stand-in communicator: other processes contribute the given values to each reduction."""
    def __init__(self, others=()):
        self.others = [list(o) if isinstance(o, (list, tuple)) else o for o in others]
        self.calls = 0

    def Allreduce(self, sendbuf, recvbuf, op=None):
        from mpi4py import MPI
        j = self.calls
        self.calls += 1
        if sendbuf is not MPI.IN_PLACE:
            recvbuf[...] = sendbuf
        for o in self.others:
            v = o[j] if isinstance(o, list) else o
            if op == MPI.MAX:
                recvbuf[0] = sym.sym_max(recvbuf[0], v)
            elif op == MPI.MIN:
                recvbuf[0] = sym.sym_min(recvbuf[0], v)
            elif op == MPI.SUM:
                recvbuf[0] = recvbuf[0] + v
            else:
                raise sym.Unsupported("reduction operation")

    def allreduce(self, v, op=None):
        b = np.empty(1, dtype=object)
        b[0] = v
        from mpi4py import MPI
        self.Allreduce(MPI.IN_PLACE, b, op=op if op is not None else MPI.SUM)
        return b[0]


def solver(iteration, initial, fields, comm):
    h = Obj(fields={f"f{i}": {"g": a} for i, a in enumerate(fields)}, tasks=[])
    rec = []
    ev = Obj(add_dictionary_handler=lambda **k: (rec.append(k), h)[1])
    return Obj(iteration=iteration, initial_iteration=initial, dist=Obj(comm_cart=comm, comm=comm), evaluator=ev), h, rec


def objarr(vals, shape):
    a = np.empty(shape, dtype=object)
    for i, v in zip(np.ndindex(shape), vals):
        a[i] = v
    return a


def oracle(freq, safety, max_dt, min_dt, max_change, min_change, threshold, stored):
    """The documented rule on concrete numbers."""
    dt = INF if freq == 0 else 1 / freq
    dt = dt * safety
    dt = min(dt, max_dt, max_change * stored)
    dt = max(dt, min_dt, min_change * stored)
    return dt if abs(dt - stored) > threshold * stored else stored


def cfl_contract(chk, ft):
    def body():
        it, it0, cad = Int("iteration"), Int("initial"), Int("cadence")
        safety, stored, thr = Real("safety"), Real("stored"), Real("threshold")
        Mx, Mn, Cx, Cn = Real("max_dt"), Real("min_dt"), Real("max_change"), Real("min_change")
        base = [it.t >= it0.t, it0.t >= 0, cad.t >= 1, safety.t > 0, stored.t > 0, thr.t >= 0, Mx.t > 0, Mn.t >= 0, Cx.t > 0, Cn.t >= 0]
        u = [Real(f"u{j}") for j in range(6)]
        remote = Real("remote")
        shapes = [((1,), 2), ((2, 1), 1)] if not chk.thorough else [((1,), 1), ((1,), 3), ((2, 1), 2), ((0,), 2), ((3,), 1)]
        for (shape, nf), mask in itertools.product(shapes, itertools.product((0, 1), repeat=2)):
            n = int(np.prod(shape))
            mx, cx = (Mx if mask[0] else INF), (Cx if mask[1] else INF)

            @takes_none
            def replay(model=None):
                return search_cfl(ft)

            def run():
                with npf.facade(ft):
                    fields = [objarr(u[k * n:(k + 1) * n], shape) for k in range(nf)]
                    s, h, rec = solver(it, it0, fields, Comm([remote]))
                    c = ft.CFL(s, initial_dt=stored, cadence=cad, safety=safety, max_dt=mx, min_dt=Mn,
                               max_change=cx, min_change=Cn, threshold=thr)
                    r = c.compute_timestep()
                    # a second call in the same iteration must not move
                    return r, c, rec, [[f["g"][i] for i in np.ndindex(shape)] for f in h.fields.values()]
            pre = base + [remote.t >= 0]
            paths = sym.explore(run, pre, max_paths=6000)
            chk.paths += len(paths)
            tag = f"CFL[{nf} fields of shape {shape}, limits {mask}]"
            # maximum over all points of the summed magnitudes, on every process
            absu = [z3.If(x.t >= 0, x.t, -x.t) for x in u]
            tot = [sum((absu[k * n + j] for k in range(nf)), z3.RealVal(0)) for j in range(n)]
            fm = z3.Real("maxfreq")
            isfm = z3.And(*[fm >= t for t in tot + [remote.t]], z3.Or(*[fm == t for t in tot + [remote.t]]))
            fresh = z3.And((it.t - 1) % cad.t == 0, it.t - 1 > it0.t)
            for i, p in enumerate(paths):
                if p.exc is not None:
                    chk.obl(f"{tag}: no exception (path {i})", F, p.pc, False, replay=replay)
                    continue
                r, c, rec, after = p.result
                if not sym.is_sym(r) and r in (INF, -INF):
                    # unlimited: no flow and no upper limit
                    chk.obl(f"{tag}: unlimited only without flow and without upper limits (path {i})", F, p.pc + [isfm],
                            z3.And(fm == 0, fresh, z3.BoolVal(r == INF and not any(mask))), replay=replay)
                    continue
                rt = to_real(r)
                up = ([Mx.t] if mask[0] else []) + ([Cx.t * stored.t] if mask[1] else [])
                low = [Mn.t, Cn.t * stored.t]
                v, w = z3.Real("v"), z3.Real("w")
                cand = z3.Real("cand")    # the rule, stated relationally: cand = max(lower, min(safety/freq, upper))
                ups = [(fm != 0, safety.t / fm)] + [(z3.BoolVal(True), x) for x in up]
                has_up = z3.Or(fm != 0, z3.BoolVal(bool(up)))
                ismin = z3.And(*[z3.Implies(g, v <= x) for g, x in ups], z3.Or(*[z3.And(g, v == x) for g, x in ups]))
                ismax = z3.And(*[w >= x for x in [v] + low], z3.Or(*[w == x for x in [v] + low]))
                d = z3.If(w >= stored.t, w - stored.t, stored.t - w)
                rule = z3.If(d > thr.t * stored.t, w, stored.t)
                goal = z3.Implies(z3.Not(fresh), rt == stored.t)
                chk.obl(f"{tag}: unchanged outside the cadence and on the first evaluation (path {i})", F, p.pc, goal, replay=replay)
                s = z3.Solver(); s.set("timeout", 3000); s.add(*p.pc, fresh)
                if s.check() != z3.unsat:
                    chk.obl(f"{tag}: follows the rule at the cadence (path {i})", F, p.pc + [fresh, isfm, has_up, ismin, ismax], rt == rule, replay=replay)
                    chk.obl(f"{tag}: a finite timestep needs flow or a limit, or stays (path {i})", F, p.pc + [fresh, isfm, z3.Not(has_up)],
                            rt == stored.t, replay=replay)
                chk.obl(f"{tag}: the returned timestep is the one remembered (path {i})", F, p.pc, sym.eq(c.stored_dt, r), replay=replay)
                chk.obl(f"{tag}: frequencies are collected at the same cadence (path {i})", F, p.pc,
                        z3.BoolVal(len(rec) == 1 and rec[0].get("iter") is cad), replay=replay)
                chk.obl(f"{tag}: the frequency data are not modified (path {i})", F, p.pc,
                        z3.And(*([z3.BoolVal(True)] + [sym.eq(a, u[k * n + j]) for k, row in enumerate(after) for j, a in enumerate(row)])), replay=replay)
        chk.sat_check("CFL precondition", base)
    chk.contract("CFL.compute_timestep", F, body)


def search_cfl(ft):
    rng = random.Random(5)
    for _ in range(1500):
        shape = rng.choice([(3,), (2, 2), (0,), (1,)])
        nf = rng.choice([1, 2, 3])
        n = int(np.prod(shape))
        cad, it0 = rng.choice([1, 2, 5, 10]), rng.choice([0, 0, 7, 20])
        kw = dict(safety=rng.choice([1.0, .4]), max_dt=rng.choice([INF, .5, .05]), min_dt=rng.choice([0., 0.01]),
                  max_change=rng.choice([INF, 1.5, 1.1]), min_change=rng.choice([0., .5, .9]), threshold=rng.choice([0., .1, .3]))
        stored = rng.choice([.1, .2, .02])
        remote = rng.choice([0., 0., 3., 30.])
        s, h, rec = solver(it0, it0, [np.zeros(shape)] * nf, Comm([remote]))
        c = ft.CFL(s, initial_dt=stored, cadence=cad, **kw)
        for it in range(it0, it0 + 25):
            fields = [rng.choice([0., 1., 4., 10.]) * np.array([rng.uniform(-1, 1) for _ in range(n)]).reshape(shape) for _ in range(nf)]
            for f, a in zip(h.fields.values(), fields):
                f["g"] = a.copy()
            s.iteration = it
            got = c.compute_timestep()
            exp = stored
            if (it - 1) % cad == 0 and it - 1 > it0:
                tot = sum(np.abs(a) for a in fields)
                freq = max([remote] + list(tot.ravel()))
                exp = oracle(freq, stored=stored, **kw)
            if not (got == exp or abs(got - exp) <= 1e-12 * abs(exp)):
                return {"iteration": it, "initial": it0, "cadence": cad, **kw, "previous": stored, "returned": got, "expected": exp}
            stored = got
            if stored == INF:
                break
    return None


def reducers(chk, ft):
    def body():
        for shape in ((1,), (3,), (2, 1), (0,)):
            n = int(np.prod(shape))
            xs = [Real(f"x{j}") for j in range(n)]
            rem = [Real("r0"), Real("r1")]
            cnt = [Int("n0"), Int("n1")]

            def run(which, others):
                with npf.facade(ft):
                    red = ft.GlobalArrayReducer(Comm(others))
                    return getattr(red, which)(objarr(xs, shape))

            @takes_none
            def replay(model=None):
                return search_reduce(ft)
            for which, cmp in (("global_max", lambda a, b: a >= b), ("global_min", lambda a, b: a <= b)):
                for p in sym.explore(lambda: run(which, rem), []):
                    chk.paths += 1
                    if p.exc is not None:
                        chk.obl(f"{which} of shape {shape}: no exception", FR, p.pc, False, replay=replay)
                        continue
                    r = to_real(p.result)
                    vals = [x.t for x in xs] + [x.t for x in rem]
                    chk.obl(f"{which} of shape {shape}: the extreme of all data of all processes", FR, p.pc,
                            z3.And(*[cmp(r, v) for v in vals], z3.Or(*[r == v for v in vals])), replay=replay)
            if n:
                pre = [c.t >= 0 for c in cnt]
                for p in sym.explore(lambda: run("global_mean", [[rem[0], cnt[0]], [rem[1], cnt[1]]]), pre):
                    chk.paths += 1
                    if p.exc is not None:
                        chk.obl(f"global_mean of shape {shape}: no exception", FR, p.pc, False, replay=replay)
                        continue
                    num = sum((x.t for x in xs + rem), z3.RealVal(0))
                    den = n + cnt[0].t + cnt[1].t
                    chk.obl(f"global_mean of shape {shape}: total sum over total count", FR, p.pc, to_real(p.result) * z3.ToReal(den) == num, replay=replay)
    chk.contract("global reductions", FR, body)


def search_reduce(ft):
    rng = random.Random(9)
    for _ in range(300):
        shape = rng.choice([(0,), (1,), (4,), (2, 3), (3, 0, 2)])
        a = np.array([rng.uniform(-5, 5) for _ in range(int(np.prod(shape)))]).reshape(shape)
        rem = [rng.uniform(-5, 5) for _ in range(2)]
        cnt = [rng.randrange(0, 5) for _ in range(2)]
        allv = list(a.ravel()) + rem
        for which, exp, others in (("global_max", max(allv), rem), ("global_min", min(allv), rem),
                                   ("global_mean", (sum(allv)) / max(1, a.size + sum(cnt)), [[rem[0], cnt[0]], [rem[1], cnt[1]]])):
            if which == "global_mean" and a.size + sum(cnt) == 0:
                continue
            got = getattr(ft.GlobalArrayReducer(Comm(others)), which)(a)
            if abs(got - exp) > 1e-12:
                return {"reduction": which, "local": a.tolist(), "remote": rem, "counts": cnt, "got": got, "expected": exp}
    return None


# ------------------------------------------------------------------ grid frequencies on real domains
def freq_case(case):
    import dedalus.public as d3
    kind, size, dealias, bounds, dtype = case
    rng = np.random.default_rng(3)
    comps = None
    if kind in ("fourier", "chebyshev", "legendre"):
        cs = d3.CartesianCoordinates("x")
        d = d3.Distributor(cs, dtype=dtype)
        if kind == "fourier":
            b = d3.Fourier(cs["x"], size=size, bounds=bounds, dealias=dealias, dtype=dtype)
        elif kind == "chebyshev":
            b = d3.ChebyshevT(cs["x"], size=size, bounds=bounds, dealias=dealias)
        else:
            b = d3.Legendre(cs["x"], size=size, bounds=bounds, dealias=dealias)
        bases, spacing = b, None
        spac = [interval(kind, b, d, size, dealias, bounds)]
    elif kind == "fourier-chebyshev":
        cs = d3.CartesianCoordinates("x", "z")
        d = d3.Distributor(cs, dtype=dtype)
        n1, n2 = size
        b1 = d3.Fourier(cs["x"], size=n1, bounds=bounds, dealias=dealias, dtype=dtype)
        b2 = d3.ChebyshevT(cs["z"], size=n2, bounds=(-1, 2), dealias=dealias)
        bases = (b1, b2)
        spac = [interval("fourier", b1, d, n1, dealias, bounds)[:, None], interval("chebyshev", b2, d, n2, dealias, (-1, 2))[None, :]]
    elif kind.startswith("product"):
        z, xy = d3.Coordinate("z"), d3.CartesianCoordinates("x", "y")
        cs = d3.DirectProduct(z, xy) if kind == "product-first" else d3.DirectProduct(xy, z)
        d = d3.Distributor(cs, dtype=dtype)
        n1, n2, n3 = size
        bx = d3.Fourier(xy["x"], size=n1, bounds=bounds, dealias=dealias, dtype=dtype)
        by = d3.Legendre(xy["y"], size=n2, bounds=(-1, 2), dealias=dealias)
        bz = d3.ChebyshevT(z, size=n3, bounds=(0, 3), dealias=dealias)
        bases = (bx, by, bz)
        spac = [interval("fourier", bx, d, n1, dealias, bounds), interval("legendre", by, d, n2, dealias, (-1, 2)), interval("chebyshev", bz, d, n3, dealias, (0, 3))]
        if kind == "product-first":
            spac = [spac[2], spac[0], spac[1]]
        spac = [x.reshape([-1 if j == i else 1 for j in range(3)]) for i, x in enumerate(spac)]
    elif kind == "two systems":
        x, cs = d3.CartesianCoordinates("x"), d3.CartesianCoordinates("z")
        d = d3.Distributor((x, cs), dtype=dtype)
        n1, n2 = size
        b1 = d3.Fourier(x["x"], size=n1, bounds=bounds, dealias=dealias, dtype=dtype)
        b2 = d3.ChebyshevT(cs["z"], size=n2, bounds=(-1, 2), dealias=dealias)
        bases = (b1, b2)
        spac = [interval("chebyshev", b2, d, n2, dealias, (-1, 2))[None, :]]
    elif kind in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        d = d3.Distributor(cs, dtype=dtype)
        if kind == "disk":
            b = d3.DiskBasis(cs, shape=size, radius=bounds[1], dealias=dealias, dtype=dtype)
        else:
            b = d3.AnnulusBasis(cs, shape=size, radii=bounds, dealias=dealias, dtype=dtype)
        bases = b
        phi, r = d.local_grids(b, scales=b.dealias)
        m = size[0] // 2 - 1
        az = (bounds[1] if kind == "disk" else r) / m if m > 0 else INF
        spac = [az + 0 * r, dealias * np.gradient(r.ravel(), edge_order=2)[None, :]]
    elif kind == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        d = d3.Distributor(cs, dtype=dtype)
        b = d3.SphereBasis(cs, shape=size, radius=bounds[1], dealias=dealias, dtype=dtype)
        bases = b
        L = b.Lmax if hasattr(b, "Lmax") else b.sphere_basis.Lmax
        spac = ("s2", bounds[1] / np.sqrt(L * (L + 1)), None)
    else:
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        d = d3.Distributor(cs, dtype=dtype)
        if kind == "ball":
            b = d3.BallBasis(cs, shape=size, radius=bounds[1], dealias=dealias, dtype=dtype)
        else:
            b = d3.ShellBasis(cs, shape=size, radii=bounds, dealias=dealias, dtype=dtype)
        bases = b
        L = b.Lmax if hasattr(b, "Lmax") else b.sphere_basis.Lmax
        phi, th, r = d.local_grids(b, scales=b.dealias)
        rad = bounds[1] if kind == "ball" else r
        spac = ("s2", rad / np.sqrt(L * (L + 1)), dealias * np.gradient(r.ravel(), edge_order=2)[None, None, :])
    u = d.VectorField(cs, bases=bases)
    u.change_scales(u.domain.dealias)
    data = rng.standard_normal(u["g"].shape)
    if dtype == np.complex128:
        data = data.astype(complex)
    u["g"] = data
    saved = u["g"].copy()
    out = d3.AdvectiveCFL(u, cs).evaluate()["g"]
    a = np.abs(saved)
    if isinstance(spac, tuple):
        exp = np.sqrt(a[0]**2 + a[1]**2) / spac[1]
        if spac[2] is not None:
            exp = exp + a[2] / spac[2]
    else:
        exp = sum(a[i] / s for i, s in enumerate(spac))
    if out.shape != exp.shape or not np.allclose(out, exp, rtol=1e-9, atol=0):
        return {"max difference": float(np.max(np.abs(out - exp))) if out.shape == exp.shape else "shape",
                "ratio": np.real(out / exp).ravel()[:4].tolist() if out.shape == exp.shape else None}
    if not np.array_equal(u["g"], saved):
        return {"modified": "the velocity was changed"}


def interval(kind, b, d, size, dealias, bounds):
    L = bounds[1] - bounds[0]
    N = int(np.ceil(dealias * size))
    if kind == "fourier":
        return np.full(N, dealias * L / N)
    if kind == "chebyshev":
        th = np.pi * (np.arange(N) + .5) / N
        return dealias * L / 2 * np.sin(th) * np.pi / N
    g = b.global_grid(d, dealias).ravel()
    return dealias * np.gradient(g, edge_order=2)


def spacing_ok(case):
    """The grid itself is where the basis says (so the Legendre/radial oracles do not share an error)."""
    return None


def end_to_end(case):
    """Timesteps of a real run against the documented rule, with the velocity prescribed at every step."""
    import dedalus.public as d3
    dtype, cad, kw, it0, ncomp = case
    cs = d3.CartesianCoordinates("x", "z")
    d = d3.Distributor(cs, dtype=dtype)
    xb = d3.Fourier(cs["x"], size=8, bounds=(0, 2), dealias=3 / 2, dtype=dtype)
    zb = d3.ChebyshevT(cs["z"], size=6, bounds=(0, 1), dealias=3 / 2)
    u = d.VectorField(cs, bases=(xb, zb), name="u")
    w = d.VectorField(cs, bases=(xb, zb), name="w")
    p = d3.IVP([u], namespace={"u": u, "w": w})
    p.add_equation("dt(u) = 0")
    s = p.build_solver(d3.SBDF1)
    s.iteration = s.initial_iteration = it0
    from dedalus.extras import flow_tools as ft
    cfl = ft.CFL(s, initial_dt=0.1, cadence=cad, **kw)
    cfl.add_velocity(u)
    if ncomp == 2:
        cfl.add_velocity(w)
    sx = interval("fourier", xb, d, 8, 1.5, (0, 2))[:, None]
    sz = interval("chebyshev", zb, d, 6, 1.5, (0, 1))[None, :]
    stored, last_amp = 0.1, None
    amps = [1, 1, 3, 3.1, 0, 0, 10, .01, 2, 2, 2, 5, 1, 1]
    ctl = s.evaluator.handlers
    for k, a in enumerate(amps):
        got = cfl.compute_timestep()
        it = it0 + k
        if (it - 1) % cad == 0 and it - 1 > it0:
            f = last_amp[0] / sx + last_amp[1] / sz
            if ncomp == 2:
                f = f + 0.5 / sz
            stored = oracle(f.max(), stored=stored, **kw)
        if not (got == stored or abs(got - stored) < 1e-9 * stored):
            return {"iteration": it, "returned": got, "expected": stored}
        u["g"] = 0
        u["g"][0] = a
        u["g"][1] = -0.5 * a
        w["g"] = 0
        w["g"][1] = .5
        if it % cad == 0:
            last_amp = (a, .5 * a)
        s.step(min(got, 1.0))


def flow_props(case):
    import dedalus.public as d3
    dtype, cad = case
    cs = d3.CartesianCoordinates("x", "z")
    d = d3.Distributor(cs, dtype=dtype)
    xb = d3.Fourier(cs["x"], size=8, bounds=(0, 2), dtype=dtype)
    zb = d3.ChebyshevT(cs["z"], size=6, bounds=(0, 3))
    q = d.Field(bases=(xb, zb), name="q")
    p = d3.IVP([q], namespace={"q": q})
    p.add_equation("dt(q) = 0")
    s = p.build_solver(d3.SBDF1)
    from dedalus.extras import flow_tools as ft
    flow = ft.GlobalFlowProperty(s, cadence=cad)
    flow.add_property(q, name="q", precompute_integral=True)
    flow.add_property(q * q, name="q2")
    rng = np.random.default_rng(1)
    for it in range(5):
        q["g"] = rng.standard_normal(q["g"].shape)
        q["c"]
        g = np.real(q["g"]).copy()
        integ = np.real(d3.Integrate(q).evaluate()["g"]).ravel()[0]
        integ2 = np.real(d3.Integrate(q * q).evaluate()["g"]).ravel()[0]
        sq = (q * q).evaluate()
        sq["c"]
        sq.change_scales(1)
        g2 = np.real(sq["g"]).copy()
        s.step(0.1)
        if it % cad:
            continue
        for name, ref, iref in (("q", g, integ), ("q2", g2, integ2)):
            got = [flow.min(name), flow.max(name), flow.grid_average(name), flow.volume_integral(name)]
            exp = [ref.min(), ref.max(), ref.mean(), iref]
            if not np.allclose(got, exp, rtol=1e-8, atol=1e-10):
                return {"property": name, "iteration": it, "min,max,mean,integral": [float(x) for x in got], "expected": [float(x) for x in exp]}


MPI_SRC = r"""
import sys, numpy as np
from mpi4py import MPI
from dedalus.extras.flow_tools import GlobalArrayReducer
c = MPI.COMM_WORLD
rng = np.random.default_rng(5)
bad = 0
for trial in range(30):
    sizes = [int(x) for x in rng.integers(0, 4, c.size)]
    if sum(sizes) == 0: sizes[0] = 2
    full = [rng.standard_normal(n) for n in sizes]
    mine = full[c.rank]
    allv = np.concatenate(full)
    r = GlobalArrayReducer(c)
    if not np.isclose(r.global_max(mine), allv.max()) or not np.isclose(r.global_min(mine), allv.min()) or not np.isclose(r.global_mean(mine), allv.mean()):
        bad += 1
print("BAD" if c.allreduce(bad) else "GOOD") if c.rank == 0 else c.allreduce(bad)
"""


def mpi_reduce(n):
    from vf import mpi
    rc, out, err = mpi.run(MPI_SRC, n)
    if "GOOD" not in out:
        return {"processes": n, "stdout": out[-500:], "stderr": err[-800:]}


def run(chk):
    import dedalus.extras.flow_tools as ft
    chk.assume("MPI Allreduce applies the given operation to the values of all processes (stand-in communicator in the proofs)")
    chk.assume("the contract is discharged for local arrays of the listed shapes; magnitudes, limits, counters are unrestricted")
    cfl_contract(chk, ft)
    reducers(chk, ft)
    chk.bounded("timestep rule on random histories", "1500 configurations x 25 iterations", ["random"], lambda c: search_cfl(ft))
    chk.bounded("global reductions with remote data", "300 random sets", ["random"], lambda c: search_reduce(ft))
    R, C = np.float64, np.complex128
    cases = []
    for dt in (R, C):
        for dl in (1, 1.5):
            cases += [("fourier", 8, dl, (0, 2), dt), ("chebyshev", 8, dl, (-1, 3), dt), ("legendre", 7, dl, (0, 2), dt),
                      ("fourier-chebyshev", (8, 6), dl, (1, 4), dt), ("disk", (8, 6), dl, (0, 1.5), dt),
                      ("annulus", (8, 6), dl, (.5, 1.5), dt), ("sphere", (8, 6), dl, (0, 2.), dt),
                      ("ball", (8, 6, 6), dl, (0, 1.5), dt), ("shell", (8, 6, 6), dl, (.5, 1.5), dt)]
    for dt in (R, C):
        for dl in (1, 1.5):
            cases += [("product-first", (4, 6, 5), dl, (0, 2), dt), ("product-last", (4, 6, 5), dl, (0, 2), dt), ("two systems", (4, 6), dl, (0, 2), dt)]
    chk.bounded("grid frequencies of random velocities", f"{len(cases)} domains", cases, freq_case)
    base = dict(safety=.4, max_dt=INF, min_dt=0., max_change=INF, min_change=0., threshold=0.)
    e2e = [(R, 1, dict(base, max_dt=.5), 0, 1), (R, 2, dict(base, max_dt=.5, max_change=1.5, min_change=.5), 0, 2),
           (C, 3, dict(base, max_dt=.3, min_dt=.02, threshold=.1), 6, 1), (R, 1, dict(base, max_dt=.5, threshold=.2, max_change=1.2), 5, 2)]
    chk.bounded("timesteps of real runs", f"{len(e2e)} runs of 14 steps", e2e, end_to_end)
    chk.bounded("flow statistics of real runs", "4 runs", [(R, 1), (R, 2), (C, 1), (C, 2)], flow_props)
    chk.bounded("reductions over real processes", "2 and 3 processes, 30 arrays", [2, 3] if not chk.thorough else [2, 3, 4, 5], mpi_reduce)
