"""T01: IMEX multistep and Runge-Kutta coefficient tables are consistent to their documented order.

Contracts
  compute_coefficients(timesteps, iteration), for every multistep scheme, for all step histories
  (all timesteps positive reals) and all iteration counts >= 0:
     sum_j a_j t_j^q == q sum_j b_j t_j^(q-1) == q sum_j c_j t_j^(q-1)   for q = 0..order
  (t_j the time of the j-th past state relative to the new one), c_0 == 0 (explicit), b_0 != 0 (implicit),
  a_0 != 0, lengths within the history the stepper keeps, and during start-up a scheme never
  reads a state that does not exist yet (iteration < number of steps used).
  Runge-Kutta tables: A strictly lower triangular, H lower triangular, row sums == c, c[s] == 1,
  and the additive order conditions up to the documented order.
"""

import itertools
import math
from fractions import Fraction

import numpy as np
import z3

from vf import sym, npf, alg, prove
from vf.sym import Int, Real, SymReal, SymInt, to_real, Unsupported

# documented order (docstrings of the classes; Wang & Ruuth 2008, Ascher et al 1997), overall and
# per part: (implicit order, explicit order)
MULTI = {
    "CNAB1": (1, 1), "SBDF1": (1, 1), "CNAB2": (2, 2), "MCNAB2": (2, 2), "SBDF2": (2, 2),
    "CNLF2": (2, 2), "SBDF3": (3, 3), "SBDF4": (4, 4),
}
RK = {"RK111": (1, 1), "RK222": (2, 2), "RK443": (3, 3), "RKSMR": (2, 3), "RKGFY": (2, 2)}


def classes():
    from dedalus.core import timesteppers as ts
    out = {}
    for name in list(MULTI) + list(RK):
        out[name] = getattr(ts, name, None)
    return ts, out


def residuals(a, b, c, ts, p_im, p_ex, num):
    """Consistency residuals with t_0 = 0 and t_j = -(k_1+...+k_j) (ts ordered newest first)."""
    J = max(len(a), len(b), len(c))
    t = [num(0)]
    for j in range(1, J):
        t.append(t[-1] - ts[j - 1])
    P = lambda x, q: num(1) if q == 0 else x * P(x, q - 1)
    out = []
    order = max(p_im, p_ex)
    for q in range(0, order + 1):
        lhs = sum((a[j] * P(t[j], q) for j in range(len(a))), num(0))
        im = sum((b[j] * P(t[j], q - 1) for j in range(len(b))), num(0)) * q if q else num(0)
        ex = sum((c[j] * P(t[j], q - 1) for j in range(len(c))), num(0)) * q if q else num(0)
        if q <= p_im:
            out.append((f"implicit order {q}", lhs - im))
        if q <= p_ex:
            out.append((f"explicit order {q}", lhs - ex))
    return out


def float_coeffs(cls, ks, it):
    a, b, c = cls.compute_coefficients(list(ks), it)
    return [float(x) for x in a], [float(x) for x in b], [float(x) for x in c]


def float_check(cls, name, ks, it):
    """The contract evaluated on concrete floats. None if it holds."""
    a, b, c = float_coeffs(cls, ks, it)
    used = max([j for arr in (a, b, c) for j, x in enumerate(arr) if x != 0])
    p_im, p_ex = expected_order(name, it)
    F = lambda xs: [Fraction(x) for x in xs]
    res = residuals(F(a), F(b), F(c), F(ks), p_im, p_ex, Fraction)
    scale = max(1.0, max(map(abs, a)) * max(1.0, sum(ks)) ** max(p_im, p_ex), 1)
    for what, r in res:
        if abs(r) > 1e-9 * scale:
            return {"scheme": name, "timesteps": ks, "iteration": it, "violates": what, "residual": float(r),
                    "a": a, "b": b, "c": c}
    if c and c[0] != 0:
        return {"scheme": name, "timesteps": ks, "iteration": it, "violates": "explicit term at the new time", "c0": c[0]}
    if used > it + 1:
        return {"scheme": name, "timesteps": ks, "iteration": it, "violates": "uses a state from before the start", "used": used}
    if a[0] == 0 or b[0] == 0:
        return {"scheme": name, "timesteps": ks, "iteration": it, "violates": "degenerate implicit part"}
    return None


def expected_order(name, it):
    """Documented order with a history of `it` earlier steps (start-up lowers it)."""
    p_im, p_ex = MULTI[name]
    if p_im <= 2:
        return (p_im, p_ex) if it >= p_im - 1 else (1, 1)
    q = min(p_im, it + 1)
    return (q, q)


def multistep(chk, ts, name, cls):
    func = f"timesteppers.{name}.compute_coefficients"
    steps = MULTI[name][0]

    def body():
        it = Int("iteration")
        ks = [Real(f"k{j}") for j in range(5)]
        nsteps = cls.steps
        if not isinstance(nsteps, int) or nsteps > 5:
            raise Unsupported("steps attribute")
        pre = [it.t >= 0] + [k.t > 0 for k in ks]
        given = ks[:nsteps]

        def run():
            with npf.facade(ts):
                return cls.compute_coefficients(list(given), it)
        paths = sym.explore(run, pre)
        chk.paths += len(paths)
        chk.sat_check(f"{name} precondition", pre)
        covered = []
        for n, p in enumerate(paths):
            def replay(model=None, p=p):
                return search(cls, name, model)
            replay = takes(replay)
            if p.exc is not None:
                chk.obl(f"{name}: no exception (path {n})", func, p.pc, False, replay=replay)
                continue
            a, b, c = ([x for x in v] for v in p.result)
            # split the path by the number of available past states
            for avail in range(0, steps + 1):
                cond = (it.t == avail) if avail < steps else (it.t >= steps)
                s = z3.Solver(); s.add(*p.pc, cond)
                if s.check() == z3.unsat:
                    continue
                pc = p.pc + [cond]
                p_im, p_ex = expected_order(name, avail)
                tag = f"{name}[{'startup %d' % avail if avail < steps else 'full'}]"
                for what, r in residuals(a, b, c, ks, p_im, p_ex, lambda v: v):
                    identity(chk, f"{tag}: {what} consistency", func, pc, r, replay)
                chk.obl(f"{tag}: explicit part has no term at the new time", func, pc, z3.BoolVal(True) if not c else sym.eq(c[0], 0), replay=replay)
                chk.obl(f"{tag}: the implicit system is not degenerate (a0 > 0, b0 > 0)", func, pc,
                        z3.And(to_real(a[0]) > 0, to_real(b[0]) > 0), replay=replay)
                if avail < steps:
                    far = [x for v in (a, b, c) for j, x in enumerate(v) if j > avail + 1]
                    chk.obl(f"{tag}: reads no state from before the start", func, pc,
                            z3.And(*[sym.eq(x, 0) for x in far]) if far else z3.BoolVal(True), replay=replay)
                chk.obl(f"{tag}: fits the stored history", func, pc,
                        z3.BoolVal(len(a) <= cls.amax + 1 and len(b) <= cls.bmax + 1 and len(c) <= cls.cmax + 1
                                   and max(len(a), len(b), len(c)) - 1 <= max(cls.steps, 1)), replay=replay)
    chk.contract(f"{name} coefficients", func, body)


def takes(f):
    f.takes_none = True
    return f


def search(cls, name, model):
    """Replay: the contract on the real function with floats from the model, then a small sweep."""
    cand = []
    if model is not None:
        def val(nm, d):
            for d_ in model.decls():
                if d_.name() == nm:
                    v = model[d_]
                    try:
                        return float(v.as_fraction()) if v.is_real() else v.as_long()
                    except Exception:
                        return d
            return d
        try:
            ks = [abs(val(f"k{j}", 1.0)) or 1.0 for j in range(5)]
            cand.append((ks, int(val("iteration", 6))))
        except Exception:
            pass
    for it in (0, 1, 2, 3, 4, 7):
        for ks in ([1.0] * 5, [0.5, 1.0, 2.0, 0.25, 1.0], [0.1, 0.3, 0.2, 0.7, 0.4]):
            cand.append((ks, it))
    for ks, it in cand:
        try:
            bad = float_check(cls, name, ks[:cls.steps] + [1.0] * 0, it) if False else float_check_pad(cls, name, ks, it)
        except Exception as e:
            bad = {"scheme": name, "timesteps": ks, "iteration": it, "exception": repr(e)}
        if bad:
            return bad
    return None


def float_check_pad(cls, name, ks, it):
    full = list(ks)

    class W:
        compute_coefficients = staticmethod(lambda k, i: cls.compute_coefficients(list(k)[:cls.steps], i))
    return float_check(W, name, full, it)


def identity(chk, name, func, pc, r, replay):
    """Obligation r == 0 (a rational function of the timesteps)."""
    if not sym.is_sym(r):
        chk.ground(name, func, r == 0, detail=r, backend="ground", replay=replay)
        return
    try:
        zero, nf = alg.is_zero(to_real(r))
    except Unsupported:
        chk.obl(name, func, pc, sym.eq(r, 0), replay=replay)
        return
    if zero:
        chk.ground(name, func, True, backend="sympy-normal-form")
    else:
        # not an identity: it may still hold on this path, so the solver decides
        chk.obl(name, func, pc, sym.eq(r, 0), replay=replay)


def rk(chk, name, cls):
    func = f"timesteppers.{name} tableau"

    def body():
        s = cls.stages
        Fr = lambda x: Fraction(float(x))
        A = [[Fr(x) for x in row] for row in np.asarray(cls.A)]
        H = [[Fr(x) for x in row] for row in np.asarray(cls.H)]
        c = [Fr(x) for x in np.asarray(cls.c)]
        tol = Fraction(1, 10**13)
        small = lambda x: abs(x) <= tol
        p_im, p_ex = RK[name]

        def G(what, ok, detail=None):
            chk.ground(f"{name}: {what}", func, bool(ok), detail=detail, backend="exact rational evaluation",
                       replay=takes(lambda m=None: {"scheme": name, "violates": what, "detail": str(detail),
                                                    "A": np.asarray(cls.A).tolist(), "H": np.asarray(cls.H).tolist(),
                                                    "c": np.asarray(cls.c).tolist()}))
        G("table sizes match the stages", len(A) == len(H) == len(c) == s + 1 and all(len(r) == s + 1 for r in A + H))
        G("explicit table is strictly lower triangular", all(A[i][j] == 0 for i in range(s + 1) for j in range(i, s + 1)))
        G("implicit table is lower triangular", all(H[i][j] == 0 for i in range(s + 1) for j in range(i + 1, s + 1)))
        G("first stage is the current state", c[0] == 0 and not any(A[0]) and not any(H[0]))
        G("last stage is at the end of the step", small(c[s] - 1))
        for i in range(1, s + 1):
            G(f"stage {i}: explicit weights sum to the stage time", small(sum(A[i]) - c[i]), float(sum(A[i]) - c[i]))
            G(f"stage {i}: implicit weights sum to the stage time", small(sum(H[i]) - c[i]), float(sum(H[i]) - c[i]))
            if True:
                G(f"stage {i}: stage is implicit with nonnegative weight", H[i][i] >= 0)
        bim, bex = H[s], A[s]
        dot = lambda u, v: sum(x * y for x, y in zip(u, v))
        mv = lambda M, v: [dot(r, v) for r in M]
        parts = [("implicit", bim, H, p_im), ("explicit", bex, A, p_ex)]
        for nm, b, M, p in parts:
            if p >= 1:
                G(f"{nm} order 1", small(sum(b) - 1), float(sum(b) - 1))
            if p >= 2:
                G(f"{nm} order 2", small(dot(b, c) - Fraction(1, 2)), float(dot(b, c) - Fraction(1, 2)))
            if p >= 3:
                G(f"{nm} order 3 (quadrature)", small(dot(b, [x * x for x in c]) - Fraction(1, 3)))
                G(f"{nm} order 3 (tree)", small(dot(b, mv(M, c)) - Fraction(1, 6)))
        if min(p_im, p_ex) >= 3:
            G("coupled order 3 (implicit weights, explicit stages)", small(dot(bim, mv(A, c)) - Fraction(1, 6)))
            G("coupled order 3 (explicit weights, implicit stages)", small(dot(bex, mv(H, c)) - Fraction(1, 6)))
    chk.contract(f"{name} tableau", func, body)


def bounded(chk, cl):
    rng = np.random.default_rng(chk.seed)

    def cases():
        for name in MULTI:
            if cl[name] is None:
                continue
            for it in range(0, 9):
                yield (name, [1.0] * 5, it)
                yield (name, [2.0, 1.0, 0.5, 0.25, 1.0], it)
                for _ in range(40 if chk.thorough else 6):
                    yield (name, list(np.round(rng.uniform(0.05, 3, 5), 6)), it)
            yield (name, [0.3, 0.7, 0.2, 0.9, 0.1], 10**6)
    chk.bounded("coefficient contract on floats", "8 schemes x iterations 0..8 and 10^6 x fixed+seeded step histories",
                cases(), lambda cs: float_check_pad(cl[cs[0]], cs[0], cs[1], cs[2]),
                key=lambda cs: f"{cs[0]} coefficients")


def scheme_registry(chk, ts, cl):
    func = "timesteppers.schemes"
    for name in MULTI:
        chk.ground(f"{name} is available", func, cl[name] is not None,
                   replay=takes(lambda m=None, n=name: {"missing scheme": n}))
    for name in ts.__all__:
        if name not in MULTI and name not in RK:
            chk.notes.append(f"scheme {name} is exported but has no documented order here")


def run(chk):
    ts, cl = classes()
    chk.trust("sympy.polys rational function normal form (QQ)")
    chk.assume("Runge-Kutta table entries are the float values of the class attributes; order conditions are evaluated "
               "exactly on those rationals and required to within 1e-13 (the rounding of the tables).")
    chk.assume("RKSMR is documented as (3-eps) order: explicit part order 3, implicit part order 2 are the contract.")
    scheme_registry(chk, ts, cl)
    for name in MULTI:
        if cl[name] is not None:
            multistep(chk, ts, name, cl[name])
    for name in RK:
        if cl[name] is not None:
            rk(chk, name, cl[name])
    bounded(chk, cl)
