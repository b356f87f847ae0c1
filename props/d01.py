"""D01: distributed blocks tile every global array exactly once.

Contracts (real functions of distributor.Layout on symbolic sizes)
  axis of global size n = c*q (q chunks of c elements, both arbitrary), mesh of P processes,
  process coordinate 0 <= p < P:
    local_chunks:   start_p <= end_p, elements start..end-1 in order; start_0 = 0; end_p = start_{p+1};
                    end_{P-1} = q                        (so the ranges tile [0,q) exactly once)
    local_elements: element i of the list is c*start + i, the list has c*(end-start) elements
    slices, local_shape, buffer_size, rank= form: agree with the ranges
  Distributor._build_layouts: chain of R+D+1 layouts; consecutive layouts differ by one transform of a
    local axis or by moving one mesh axis to the next data axis; each layout carries the mesh axes and the
    process coordinates in order; the transpose's sub-communicator is the mesh axis that moves.
"""

import itertools
import math

import numpy as np
import z3

from vf import sym, npf, fake
from vf.npf import SVec
from vf.sym import Int, to_int, Unsupported


class StubDist:
    def __init__(self, dim, mesh, coords, rank_coords=None):
        self.dim = dim
        self.mesh = mesh
        self.comm_coords = coords
        self.comm_cart = self
        self._rc = rank_coords

    def Get_coords(self, rank):
        return self._rc

    def remedy_scales(self, scales):
        return scales


class StubDomain:
    def __init__(self, shape, chunk, bases):
        self.shape, self.chunk, self.full_bases = shape, chunk, bases
        self.bases = tuple(b for b in bases if b is not None)

    def global_shape(self, layout, scales):
        return tuple(self.shape)

    def chunk_shape(self, layout):
        return tuple(self.chunk)


def products(*pairs):
    """Instances of: 0 <= a <= b-1 and k >= 0  =>  k*a + k <= k*b (true in the integers; helps the solver)."""
    return [z3.Implies(z3.And(k >= 0, a <= b - 1), k * a + k <= k * b) for k, a, b in pairs]


def layout_contract(chk, dist_mod, tag, flags, none_basis=(), broadcast=False):
    """flags: tuple of locality of each axis."""
    D = len(flags)
    func = "distributor.Layout.local_chunks"

    def body():
        q = [Int(f"q{d}") for d in range(D)]
        c = [Int(f"c{d}") for d in range(D)]
        n = [Int(f"n{d}") for d in range(D)]
        dist_axes = [d for d in range(D) if not flags[d]]
        P = {d: Int(f"P{d}") for d in dist_axes}
        p = {d: Int(f"p{d}") for d in dist_axes}
        pre = [x.t >= 0 for x in q] + [x.t >= 1 for x in c] + [n[d].t == c[d].t * q[d].t for d in range(D)]
        for d in dist_axes:
            pre += [P[d].t >= 2, p[d].t >= 0, p[d].t < P[d].t]
        bases = tuple(None if d in none_basis else f"basis{d}" for d in range(D))
        domain = StubDomain(n, c, bases)

        def make(coords, rank_coords=None):
            # ext_coords are extended by the real constructor
            dist = StubDist(D, [P[d] for d in dist_axes] or [1], list(coords), rank_coords)
            return dist_mod.Layout(dist, list(flags), [False] * D)

        def run():
            with npf.facade(dist_mod, extra={"prod": math.prod}):
                here = make([p[d] for d in dist_axes])
                nxt = make([p[d] + 1 for d in dist_axes])
                first = make([0] * len(dist_axes))
                last = make([P[d] - 1 for d in dist_axes])
                other = make([0] * len(dist_axes), [p[d] for d in dist_axes])
                res = dict(
                    here=here.local_chunks(domain, 1, broadcast=broadcast), nxt=nxt.local_chunks(domain, 1, broadcast=broadcast),
                    first=first.local_chunks(domain, 1, broadcast=broadcast), last=last.local_chunks(domain, 1, broadcast=broadcast),
                    other=other.local_chunks(domain, 1, rank=5, broadcast=broadcast),
                    el=here.local_elements(domain, 1, broadcast=broadcast), el_other=other.local_elements(domain, 1, rank=5, broadcast=broadcast),
                    glob=here.global_elements(domain, 1),
                    shape=here.local_shape(domain, 1), shape_other=other.local_shape(domain, 1, rank=5),
                    slices=here.slices(domain, 1), buf=here.buffer_size(domain, 1, np.float64))
                res["i"] = Int("i")
                i = res["i"]
                # instances of the vectors at a generic index (so that division facts join the context)
                res["at"] = [(v.at(i) if isinstance(v, SVec) else None) for v in res["el"]]
                res["at_other"] = [(v.at(i) if isinstance(v, SVec) else None) for v in res["el_other"]]
                res["chunk_at"] = [(v.at(i) if isinstance(v, SVec) else None) for v in res["here"]]
                return res
        paths = sym.explore(run, pre + [z3.Int("i") >= 0], max_paths=200)
        chk.paths += len(paths)
        chk.sat_check(f"{tag} precondition", pre)
        rep = takes(lambda model=None: search(dist_mod, flags, none_basis, broadcast))
        for k, pt in enumerate(paths):
            t = f"{tag} (path {k})" if len(paths) > 1 else tag
            if pt.exc is not None:
                chk.obl(f"{t}: no exception ({type(pt.exc).__name__}: {pt.exc})", func, pt.pc, False, replay=rep)
                continue
            r = pt.result
            for d in range(D):
                a = f"{t} axis {d}"
                H, N, F, L, O = (r[x][d] for x in ("here", "nxt", "first", "last", "other"))
                if not all(isinstance(x, SVec) for x in (H, N, F, L, O)):
                    raise Unsupported("local_chunks did not return index vectors")
                s = lambda v: to_int(v.at(0))
                e = lambda v: to_int(v.at(0)) + to_int(v.n)
                pc = list(pt.pc)
                if flags[d]:
                    chk.obl(f"{a}: a local axis holds every chunk", func, pc, z3.And(s(H) == 0, to_int(H.n) == q[d].t), replay=rep)
                else:
                    hints = []
                    pd, Pd, qd = p[d].t, P[d].t, q[d].t
                    if broadcast and d in none_basis:
                        chk.obl(f"{a}: broadcast gives every process the first block", func, pc,
                                z3.And(s(H) == s(F), to_int(H.n) == to_int(F.n), s(H) == 0), replay=rep)
                    else:
                        chk.obl(f"{a}: ranges start at chunk 0", func, pc, s(F) == 0, replay=rep)
                        chk.obl(f"{a}: each range begins where the previous one ends", func, pc, s_next(H, N, q[d], p[d], P[d]), replay=rep)
                        chk.obl(f"{a}: the last range ends at the last chunk", func, pc, e(L) == qd, replay=rep)
                    chk.obl(f"{a}: ranges lie within the chunks and are ordered", func, pc,
                            z3.And(0 <= s(H), to_int(H.n) >= 0, e(H) <= qd), replay=rep)
                    chk.obl(f"{a}: the rank= form gives the range of that rank", func, pc,
                            z3.And(s(O) == s(H), to_int(O.n) == to_int(H.n)), replay=rep)
                chk.obl(f"{a}: chunks are consecutive", func, pc, to_int(r["chunk_at"][d]) == s(H) + r["i"].t, replay=rep)
                E, EO, G = r["el"][d], r["el_other"][d], r["glob"][d]
                f2 = "distributor.Layout.local_elements"
                chk.obl(f"{a}: element list has chunk size times chunk count elements", f2, pc,
                        to_int(E.n) == c[d].t * to_int(H.n), replay=rep)
                inr = [r["i"].t >= 0, r["i"].t < to_int(E.n)]
                chk.obl(f"{a}: elements are consecutive from the chunk-aligned start", f2, pc + inr,
                        sym.poly_simplify(to_int(r["at"][d]) - c[d].t * s(H) - r["i"].t) == 0, replay=rep)
                chk.obl(f"{a}: rank= elements agree", f2, pc + inr, z3.And(to_int(EO.n) == to_int(E.n), to_int(r["at_other"][d]) == to_int(r["at"][d])), replay=rep)
                chk.obl(f"{a}: global elements are 0..n-1", "distributor.Layout.global_elements", pc,
                        z3.And(to_int(G.n) == n[d].t, to_int(G.at(r["i"])) == r["i"].t), replay=rep)
                if not broadcast:
                    f3 = "distributor.Layout.local_shape"
                    chk.obl(f"{a}: local shape is the number of local elements", f3, pc,
                            z3.And(to_int(r["shape"][d]) == to_int(E.n), to_int(r["shape_other"][d]) == to_int(EO.n)), replay=rep)
                    sl = r["slices"][d]
                    f4 = "distributor.Layout.slices"
                    lo, hi = to_int(sl.start), to_int(sl.stop)
                    chk.obl(f"{a}: slice covers exactly the local elements", f4, pc,
                            z3.And(hi - lo == to_int(E.n), z3.Implies(to_int(E.n) > 0, lo == c[d].t * s(H)), z3.BoolVal(sl.step in (None, 1))), replay=rep)
            if not broadcast:
                chk.obl(f"{t}: buffer size is the local size times the item size", "distributor.Layout.buffer_size", pt.pc,
                        to_int(r["buf"]) == to_int(math.prod(r["shape"])) * 8, replay=rep)
    chk.contract(f"{tag}", func, body)


def s_next(H, N, q, p, P):
    e = to_int(H.at(0)) + to_int(H.n)
    return z3.Implies(p.t + 1 < P.t, to_int(N.at(0)) == e)


def takes(f):
    f.takes_none = True
    return f


def search(dist_mod, flags, none_basis, broadcast, limit=60000):
    """Concrete falsification: the same contract on small sizes."""
    D = len(flags)
    axes = [d for d in range(D) if not flags[d]]
    vals = [(q, c, P) for q in range(0, 8) for c in (1, 2, 3) for P in ((2, 3, 4, 5))]
    for q, c, P in vals:
        shape = tuple(q * c for _ in range(D))
        chunk = tuple(c for _ in range(D))
        bases = tuple(None if d in none_basis else f"b{d}" for d in range(D))
        dom = StubDomain(shape, chunk, bases)
        mesh = [P] * len(axes)
        all_coords = list(itertools.product(range(P), repeat=len(axes)))
        per = {}
        for co in all_coords:
            lay = dist_mod.Layout(StubDist(D, mesh or [1], list(co), list(co)), list(flags), [False] * D)
            try:
                el = lay.local_elements(dom, 1, broadcast=broadcast)
                el2 = lay.local_elements(dom, 1, rank=0, broadcast=broadcast)
                shp, sl, buf = lay.local_shape(dom, 1), lay.slices(dom, 1), lay.buffer_size(dom, 1, np.float64)
            except Exception as ex:
                return {"shape": shape, "chunk": chunk, "mesh": mesh, "coords": co, "exception": repr(ex)}
            info = {"shape": shape, "chunk": chunk, "mesh": mesh, "coords": co, "elements": [list(map(int, e)) for e in el]}
            if [list(e) for e in el] != [list(e) for e in el2]:
                return {**info, "rank form": [list(map(int, e)) for e in el2]}
            for d in range(D):
                e = list(map(int, el[d]))
                if e and (e != list(range(e[0], e[0] + len(e))) or e[0] % c or len(e) % c):
                    return {**info, "axis": d, "violates": "contiguous and aligned"}
                if not broadcast and (shp[d] != len(e) or sl[d].stop - sl[d].start != len(e) or (e and sl[d].start != e[0])):
                    return {**info, "axis": d, "violates": "shape and slice agree", "local_shape": shp, "slice": str(sl[d])}
            if not broadcast and buf != 8 * math.prod(shp):
                return {**info, "violates": "buffer size", "buffer": buf}
            per[co] = el
        for d in range(D):
            if flags[d]:
                if any(list(per[co][d]) != list(range(shape[d])) for co in all_coords):
                    return {"shape": shape, "chunk": chunk, "mesh": mesh, "axis": d, "violates": "local axis complete"}
            else:
                k = axes.index(d)
                if broadcast and d in none_basis:
                    ref = list(per[all_coords[0]][d])
                    if any(list(per[co][d]) != ref for co in all_coords):
                        return {"shape": shape, "chunk": chunk, "mesh": mesh, "axis": d, "violates": "broadcast"}
                    continue
                tile = []
                for j in range(P):
                    co = tuple(j if kk == k else 0 for kk in range(len(axes)))
                    tile += list(map(int, per[co][d]))
                if tile != list(range(shape[d])):
                    return {"shape": shape, "chunk": chunk, "mesh": mesh, "axis": d, "violates": "tiles exactly once", "tiling": tile}
    return None


# -------------------------------------------------------------------------- chain
def chain_problem(dist_mod, coords_mod, D, mesh, rank):
    """None if the chain contract of _build_layouts holds for this mesh and rank."""
    size = math.prod(mesh)
    cs = coords_mod.CartesianCoordinates(*[f"x{d}" for d in range(D)])
    dist = dist_mod.Distributor(cs, comm=fake.FakeComm(size, rank), mesh=mesh, dtype=np.float64)
    red = [m for m in mesh if m > 1]
    R = len(red)
    coords = fake.FakeCart(red, rank).coords
    L = dist.layouts
    info = {"D": D, "mesh": mesh, "rank": rank}
    if len(L) != R + D + 1:
        return {**info, "violates": "number of layouts", "layouts": len(L)}
    if L[0].grid_space.any() or not L[-1].grid_space.all():
        return {**info, "violates": "chain runs from all-coefficient to all-grid"}
    if dist.coeff_layout is not L[0] or dist.grid_layout is not L[-1] or dist.get_layout_object('c') is not L[0] \
            or dist.get_layout_object('g') is not L[-1] or dist.get_layout_object(L[0]) is not L[0]:
        return {**info, "violates": "layout references"}
    if len(dist.paths) != R + D or len(dist.transforms) != D:
        return {**info, "violates": "number of paths"}
    for i, lay in enumerate(L):
        if lay.index != i:
            return {**info, "violates": "layout index", "i": i}
        nl = [d for d in range(D) if not lay.local[d]]
        if [int(lay.ext_mesh[d]) for d in nl] != red or [int(lay.ext_coords[d]) for d in nl] != list(coords) \
                or any(lay.ext_mesh[d] != 1 or lay.ext_coords[d] != 0 for d in range(D) if lay.local[d]):
            return {**info, "violates": "mesh axes in order over the non-local axes", "layout": i,
                    "ext_mesh": list(map(int, lay.ext_mesh)), "ext_coords": list(map(int, lay.ext_coords))}
    for i, path in enumerate(dist.paths):
        a, b = L[i], L[i + 1]
        if path.layout0 is not a or path.layout1 is not b:
            return {**info, "violates": "path joins consecutive layouts", "i": i}
        ax = path.axis
        dg = [d for d in range(D) if a.grid_space[d] != b.grid_space[d]]
        dl = [d for d in range(D) if a.local[d] != b.local[d]]
        if type(path).__name__ == "Transform":
            ok = dg == [ax] and not dl and a.local[ax] and not a.grid_space[ax] and dist.get_transform_object(ax) is path
            if not ok:
                return {**info, "violates": "a transform acts on one local axis", "i": i, "axis": int(ax)}
        else:
            ok = not dg and dl == [ax, ax + 1] and not a.local[ax] and a.local[ax + 1] and b.local[ax] and not b.local[ax + 1]
            if not ok:
                return {**info, "violates": "a transpose moves one mesh axis to the next data axis", "i": i, "axis": int(ax)}
            j = [d for d in range(D) if not a.local[d]].index(ax)
            if getattr(path.comm_sub, "kept", None) != [j]:
                return {**info, "violates": "the transpose communicates along the moving mesh axis", "i": i, "axis": int(ax),
                        "kept": getattr(path.comm_sub, "kept", None), "expected": [j]}
    return None


# -------------------------------------------------------------------------- real bases
def real_cases(thorough):
    import dedalus.public as d3
    out = []

    def cart(dim, names, dtype, specs):
        def make(comm, mesh):
            cs = d3.CartesianCoordinates(*names)
            dist = d3.Distributor(cs, comm=comm, mesh=mesh, dtype=dtype)
            bases = []
            for nm, (kind, size, deal) in zip(names, specs):
                if kind is None:
                    continue
                kw = dict(size=size, bounds=(0, 2), dealias=deal)
                B = {"RF": d3.RealFourier, "CF": d3.ComplexFourier, "CT": d3.ChebyshevT, "L": d3.Legendre}[kind]
                bases.append(B(cs[nm], **kw))
            return dist, bases
        out.append((f"{[s[:2] for s in specs]} {np.dtype(dtype).name}", dim, make))
    f8, c16 = np.float64, np.complex128
    cart(1, "x", f8, [("RF", 8, 1.5)])
    cart(2, "xz", f8, [("RF", 10, 1.5), ("CT", 7, 1.5)])
    cart(2, "xz", c16, [("CF", 7, 1.5), ("CT", 5, 1.5)])
    cart(2, "xz", f8, [("RF", 12, 1), (None, 0, 0)])
    cart(2, "xz", f8, [(None, 0, 0), ("CT", 9, 1.5)])
    cart(3, "xyz", f8, [("RF", 6, 1.5), ("RF", 14, 1.5), ("L", 5, 1.5)])
    cart(3, "xyz", c16, [("CF", 6, 1.5), (None, 0, 0), ("CT", 5, 1.5)])
    cart(3, "xyz", f8, [("RF", 4, 1.5), ("CT", 3, 1), ("RF", 6, 1.5)])
    cart(3, "xyz", c16, [("CF", 5, 1.5), ("CF", 8, 1.5), ("CF", 3, 1.5)])

    def curv(label, dim, csf, bf, extra=None):
        for dtype in (f8, c16):
            def make(comm, mesh, dtype=dtype):
                cs = csf()
                css = (cs,) if extra is None else extra(cs)
                dist = d3.Distributor(css, comm=comm, mesh=mesh, dtype=dtype)
                bs = bf(cs, css, dtype)
                return dist, bs
            out.append((f"{label} {np.dtype(dtype).name}", dim, make))
    pol = lambda: d3.PolarCoordinates("phi", "r")
    curv("disk", 2, pol, lambda cs, _, dt: [d3.DiskBasis(cs, (8, 5), dt, radius=1.5, dealias=(1.5, 1.5))])
    curv("disk 12x8", 2, pol, lambda cs, _, dt: [d3.DiskBasis(cs, (12, 8), dt, dealias=(2, 1.5))])
    curv("annulus", 2, pol, lambda cs, _, dt: [d3.AnnulusBasis(cs, (12, 5), dt, radii=(0.5, 1.5), dealias=(1.5, 1.5))])
    s2 = lambda: d3.S2Coordinates("phi", "theta")
    curv("sphere", 2, s2, lambda cs, _, dt: [d3.SphereBasis(cs, (8, 4), dt, dealias=(1.5, 1.5))])
    curv("sphere 12x6", 2, s2, lambda cs, _, dt: [d3.SphereBasis(cs, (12, 6), dt, dealias=(1.5, 1.5))])
    sph = lambda: d3.SphericalCoordinates("phi", "theta", "r")
    curv("ball", 3, sph, lambda cs, _, dt: [d3.BallBasis(cs, (8, 4, 5), dt, dealias=(1.5, 1.5, 1.5))])
    curv("shell", 3, sph, lambda cs, _, dt: [d3.ShellBasis(cs, (8, 4, 3), dt, radii=(0.5, 1.5), dealias=(1.5, 1.5, 1.5))])
    curv("ball 8x6x5", 3, sph, lambda cs, _, dt: [d3.BallBasis(cs, (8, 6, 5), dt, dealias=(1.5, 1.5, 1.5))])
    curv("cylinder (z, disk)", 3, pol,
         lambda cs, css, dt: [(d3.RealFourier if dt == f8 else d3.ComplexFourier)(css[0], 6, (0, 1), dealias=1.5),
                              d3.DiskBasis(cs, (8, 5), dt, dealias=(1.5, 1.5))],
         extra=lambda cs: (d3.Coordinate("z"), cs))
    return out


def world(make, mesh):
    size = math.prod(mesh)
    return [make(fake.FakeComm(size, r), mesh) for r in range(size)]


def run_real(case):
    label, make, mesh, scales = case
    ranks = world(make, mesh)
    d0, b0 = ranks[0]
    from dedalus.core.domain import Domain
    doms = [Domain(d, b) for d, b in ranks]
    D = d0.dim
    for k in range(len(d0.layouts)):
        lay0 = d0.layouts[k]
        gs = lay0.global_shape(doms[0], scales)
        cs = lay0.chunk_shape(doms[0])
        grp = lay0.group_shape(doms[0])
        seen = np.zeros(gs, dtype=int)
        info = {"bases": label, "mesh": mesh, "scales": scales, "layout": k, "global_shape": gs, "chunk_shape": cs}
        # expected sizes of grid axes
        for d in range(D):
            if lay0.grid_space[d] and doms[0].full_bases[d] is None and gs[d] != 1:
                return {**info, "violates": "constant axis has one point"}
        for r, (dist, bases) in enumerate(ranks):
            lay = dist.layouts[k]
            el = lay.local_elements(doms[r], scales)
            if tuple(lay.global_shape(doms[r], scales)) != tuple(gs) or tuple(lay.chunk_shape(doms[r])) != tuple(cs):
                return {**info, "violates": "global and chunk shape do not depend on the process", "rank": r}
            el0 = lay0.local_elements(doms[0], scales, rank=r)
            if any(list(a) != list(b) for a, b in zip(el, el0)):
                return {**info, "violates": "rank= form", "rank": r}
            shp = lay.local_shape(doms[r], scales)
            if tuple(shp) != tuple(len(e) for e in el) or tuple(lay0.local_shape(doms[0], scales, rank=r)) != tuple(shp):
                return {**info, "violates": "local shape", "rank": r, "local_shape": shp}
            sl = lay.slices(doms[r], scales)
            if any(s.stop - s.start != len(e) or (len(e) and s.start != e[0]) for s, e in zip(sl, el)):
                return {**info, "violates": "slices", "rank": r, "slices": str(sl)}
            for d, e in enumerate(el):
                e = list(map(int, e))
                if e and (e != list(range(e[0], e[-1] + 1)) or e[0] % cs[d] or (len(e) % cs[d])):
                    return {**info, "violates": "contiguous and aligned to whole chunks", "rank": r, "axis": d, "elements": e}
                if e and (e[0] % grp[d] or len(e) % grp[d]) and not lay.local[d]:
                    return {**info, "violates": "mode groups are not split between processes", "rank": r, "axis": d, "elements": e}
            seen[np.ix_(*el)] += 1
            if dist.buffer_size(doms[r], scales, np.float64) < 8 * math.prod(shp):
                return {**info, "violates": "buffer holds every layout", "rank": r}
        if not (seen == 1).all():
            return {**info, "violates": "every global element on exactly one process", "counts": seen}
    for i, path in enumerate(d0.paths):
        if type(path).__name__ == "Transpose":
            a, b = path.layout0, path.layout1
            if a.global_shape(doms[0], scales) != b.global_shape(doms[0], scales) or a.chunk_shape(doms[0]) != b.chunk_shape(doms[0]):
                return {"bases": label, "mesh": mesh, "scales": scales, "violates": "both sides of a transpose agree on global and chunk shape", "path": i}
    # grids and modes
    for r, (dist, bases) in enumerate(ranks):
        lay = dist.grid_layout
        sc = dist.remedy_scales(scales)
        for basis in bases:
            first = dist.get_basis_axis(basis)
            sub = sc[first:first + basis.dim]
            el = lay.local_elements(basis.domain(dist), sc)
            gl = basis.global_grids(dist, sub)
            lo = basis.local_grids(dist, sub)
            lo2 = dist.local_grids(basis, scales=sc)
            for s in range(basis.dim):
                want = np.ravel(gl[s])[el[first + s]]
                shape = [1] * dist.dim
                shape[first + s] = want.size
                for got in (lo[s], lo2[s]):
                    if got.shape != tuple(shape) or not np.array_equal(np.ravel(got), want):
                        return {"bases": label, "mesh": mesh, "scales": scales, "rank": r, "axis": first + s,
                                "violates": "local grid is the local part of the global grid"}
    return None


def run_constructor(_):
    """Meshes that do not fit are rejected; trailing ones are dropped."""
    from dedalus.core import distributor as dm
    import dedalus.public as d3
    cs = d3.CartesianCoordinates("x", "y", "z")
    for size, mesh in ((4, (3,)), (4, (2, 3)), (8, (2, 2, 2)), (4, (2,)), (6, (2, 2))):
        try:
            dm.Distributor(cs, comm=fake.FakeComm(size), mesh=mesh)
        except ValueError:
            continue
        return {"size": size, "mesh": mesh, "violates": "a mesh that does not fit the processes or dimensions is rejected"}
    d = dm.Distributor(cs, comm=fake.FakeComm(4), mesh=(4, 1, 1))
    if tuple(d.mesh) != (4,):
        return {"mesh": (4, 1, 1), "kept": tuple(d.mesh)}
    d = dm.Distributor(cs, comm=fake.FakeComm(4))
    if tuple(d.mesh) != (4,):
        return {"default mesh": tuple(d.mesh)}
    for s, want in ((None, (1, 1, 1)), (1.5, (1.5,) * 3), ((1, 2, 0.5), (1, 2, 0.5)), ([2, 1, 1], (2, 1, 1))):
        if tuple(d.remedy_scales(s)) != want:
            return {"scales": s, "remedied": d.remedy_scales(s)}
    for s in (0, (1, 0, 1)):
        try:
            d.remedy_scales(s)
        except ValueError:
            continue
        return {"scales": s, "violates": "zero scales are rejected"}


def run(chk):
    from dedalus.core import distributor as dm, coords as cm
    chk.trust("numpy arange/repeat/tile/minimum semantics as stated in vf/npf.py (SVec)")
    chk.assume("Domain.global_shape and Domain.chunk_shape return n = c*q per axis (every real basis of the bounded check does)")
    chk.assume("MPI Cartesian communicators number processes in row-major order (MPI standard); stand-in communicators in vf/fake.py")
    F, T = False, True
    for flags in ((F, T), (T, F), (F, F, T), (T, F, F), (F, T, F), (T, T)):
        layout_contract(chk, dm, "layout local=" + "".join("L" if x else "D" for x in flags), flags)
    layout_contract(chk, dm, "broadcast over a constant axis", (F, F, T), none_basis=(1,), broadcast=True)

    def chains():
        for D in range(1, 5):
            for mesh in fake.meshes(D, (1, 2, 3)):
                bad = None
                for rank in range(math.prod(mesh)):
                    bad = bad or chain_problem(dm, cm, D, mesh, rank)
                chk.ground(f"layout chain D={D} mesh={mesh}", "distributor.Distributor._build_layouts", bad is None, bad,
                           backend="exact enumeration", replay=takes(lambda m=None, bad=bad: bad))
    chk.contract("layout chain", "distributor.Distributor._build_layouts", chains)
    chk.bounded("mesh constructor and scales", "listed meshes", [0], run_constructor)

    def cases():
        for label, dim, make in real_cases(chk.thorough):
            for mesh in fake.meshes(dim, (1, 2, 3) if not chk.thorough else (1, 2, 3, 4, 5)):
                if math.prod(mesh) > (9 if not chk.thorough else 25):
                    continue
                S = [1, 1.5, 0.5] if not chk.thorough else [1, 1.5, 0.5, 2, (0.5, 1.5, 1)[:dim] if dim > 1 else 3]
                for s in S:
                    yield (label, make, mesh, s)
    chk.bounded("real bases on simulated meshes", "15 base combinations, meshes up to 9 (25 thorough) processes, 3-5 scales, all layouts, all ranks",
                cases(), lambda c: run_real(c), budget=250 if not chk.thorough else 2000)
