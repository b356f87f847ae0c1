"""T02: each time step solves exactly the scheme's discrete equation.

Contract of step(dt, wall_time), for every history and every coefficient value (ghost state: the state vectors
X_m of every subproblem and their evaluation times):
  multistep: the system handed to the linear solver is (a_0 M + b_0 L) X_n = sum c_j F_{n-j} - a_j M X_{n-j} - b_j L X_{n-j}
             with (a, b, c) = compute_coefficients(last timesteps newest first, steps taken so far), M, L, F of the subproblem,
             F_{n-j} evaluated at the state and time of step n-j;
  Runge-Kutta: stage i solves (M + k H_ii L) X_i = M X_0 + k sum_{j<i} (A_ij F_j - H_ij L X_j) with F_j at X_j, t_0 + c_j k;
  every subproblem is solved once per stage and its solution becomes its state; empty subproblems are skipped;
  simulation time advances by dt; scheduled evaluation happens once per step, at the old state, with the old
  time, the current iteration and the timestep; fields are in coefficient space when gathered or scattered.
compute_coefficients is replaced by its contract (arbitrary values; property T01 constrains them), and so are
apply_sparse (N01), gather/scatter (M01), the evaluator and the matrix solver (N03).
The same step is run (a) from the start for several steps with arbitrary coefficients, so start-up and reuse of
factorizations are covered, and (b) from an arbitrary state satisfying the history invariant, which is
re-established: that is the induction step for runs of any length.
"""

import contextlib
import itertools
import types

import numpy as np
import z3

from vf import sym, poly
from vf.poly import P
from vf.run import takes_none

V = P.var


def is_atom(name):
    return name.split("|")[0] in ("M", "L", "MX", "LX", "F")


class FMat:
    """Formal linear combination of the subproblem's matrices."""
    def __init__(self, sp, d):
        self.sp, self.d = sp, d

    def _map(self, f):
        return FMat(self.sp, {k: f(v) for k, v in self.d.items()})

    def __mul__(self, s):
        if P.lift(s) is None:
            return NotImplemented
        return self._map(lambda v: v * P.lift(s))
    __rmul__ = __mul__

    def __neg__(self):
        return self._map(lambda v: -v)

    def __add__(self, o):
        if not isinstance(o, FMat) or o.sp is not self.sp:
            return NotImplemented
        return FMat(self.sp, {k: self.d.get(k, P()) + o.d.get(k, P()) for k in set(self.d) | set(o.d)})

    def __sub__(self, o):
        return self + (-o)

    def copy(self):
        return self._map(lambda v: v)

    def __matmul__(self, x):
        raise sym.Unsupported("matrix product outside apply_sparse")
    dot = __matmul__

    @property
    def shape(self):
        return (self.sp.size, self.sp.size)


class ExpMat:
    def __init__(self, sp, stem):
        self.sp = sp
        self.data = np.array([V(f"{stem}|{sp.i}|{k}") for k in range(3)], dtype=object)
        self.shape = (sp.size, sp.size)


class Sub:
    def __init__(self, w, i, size, nss, store):
        self.w, self.i, self.size, self.subsystems = w, i, size, tuple(range(nss))
        self.M_min, self.L_min = FMat(self, {"M": P.const(1)}), FMat(self, {"L": P.const(1)})
        self.M_exp, self.L_exp = ExpMat(self, "M"), ExpMat(self, "L")
        self.LHS = ExpMat(self, "stale")
        self.version = 0     # of the state of this subproblem

    def vec(self, stem):
        nss = len(self.subsystems)
        return np.array([[V(f"{stem}|{self.i}|{r}|{s}") for s in range(nss)] for r in range(self.size)], dtype=object).reshape(self.size, nss)

    def gather_inputs(self, fields, out=None):
        self.w.need("gathering the state", fields, "state", "c")
        x = StateVec(self, self.version)
        if out is not None:
            raise sym.Unsupported("gather_inputs into a buffer")
        return x

    def gather_outputs(self, fields, out=None):
        self.w.need("gathering the right-hand side", fields, "F", "c")
        if self.w.F_at is None:
            self.w.fail("right-hand side gathered before any evaluation")
        val = self.vec(f"F|{self.w.F_at}")
        if out is None:
            return val
        out[...] = val
        return out

    def scatter_inputs(self, x, fields):
        self.w.need("scattering the solution", fields, "state", "c")
        if not isinstance(x, Solution) or x.sp is not self:
            self.w.fail(f"subproblem {self.i} given something that is not its own solution")
        self.w.scattered.append(self.i)
        self.version = x.version


class StateVec:
    def __init__(self, sp, version):
        self.sp, self.version = sp, version


class Solution:
    def __init__(self, sp, version):
        self.sp, self.version = sp, version


class World:
    """Stand-ins for everything a step calls, each checking the caller's side of its contract."""

    def __init__(self, subs, store):
        self.subproblems = [Sub(self, i, n, s, store) for i, (n, s) in enumerate(subs)]
        self.store_expanded_matrices = store
        self.dtype = object
        self.bad = []
        self.layout = {"state": "?", "F": "?"}
        self.state = [types.SimpleNamespace(kind="state", preset_layout=self.preset) for _ in range(2)]
        self.F = [types.SimpleNamespace(kind="F", preset_layout=self.preset) for _ in range(2)]
        self.evaluator = self
        self.iteration = V("iteration0")
        self.sim_time = V("t0")
        self.F_at = None
        self.evals = []          # (kind, state versions, time, kw)
        self.solves = []         # (sp, LHS, rhs)
        self.scattered = []
        self.next_version = 1

    def fail(self, what):
        self.bad.append(what)

    def need(self, what, fields, kind, layout):
        if list(fields) != getattr(self, kind if kind == "F" else "state"):
            self.fail(f"{what}: not the problem's fields")
        elif self.layout[kind] != layout:
            self.fail(f"{what}: fields not in coefficient space")

    # evaluator
    def require_coeff_space(self, fields):
        for f in fields:
            self.layout[f.kind] = "c"

    def preset(self, layout):
        if layout == "c":
            self.layout["state"] = "c"
        else:
            self.fail("preset to another layout")

    def _evaluate(self, kind, kw):
        self.evals.append((kind, tuple(sp.version for sp in self.subproblems), self.sim_time, kw))
        self.F_at = len(self.evals) - 1
        self.layout = {"state": "?", "F": "c"}

    def evaluate_scheduled(self, **kw):
        self._evaluate("scheduled", kw)

    def evaluate_group(self, group, **kw):
        if group != "F":
            self.fail(f"evaluated group {group}")
        self._evaluate("group", kw)

    def matsolver(self, LHS, solver=None):
        return Solver(self, LHS)


class Solver:
    def __init__(self, w, LHS):
        self.w = w
        self.sp = getattr(LHS, "sp", None)
        self.combo = self.read(LHS)

    def read(self, LHS):
        """LHS as {M: coef, L: coef} plus leftovers, fixed at factorization."""
        if isinstance(LHS, FMat):
            return {k: P(dict(v.d)) for k, v in LHS.d.items()}
        if isinstance(LHS, ExpMat):
            return [P(dict(v.d)) if isinstance(v, P) else P.lift(v) for v in LHS.data]
        raise sym.Unsupported("unknown matrix given to the solver")

    def solve(self, rhs):
        w, sp = self.w, self.sp
        rhs = np.array(rhs, dtype=object)
        v = w.next_version
        w.next_version += 1
        w.solves.append((sp, self.combo, rhs, v))
        return Solution(sp, v)


def apply_sparse_contract(w):
    def apply_sparse(matrix, array, axis, out=None, **kw):
        if not isinstance(array, StateVec) or not isinstance(matrix, FMat) or axis != 0:
            raise sym.Unsupported("apply_sparse on something that is not a state vector")
        if matrix.sp is not array.sp:
            w.fail("matrix of one subproblem applied to the state of another")
        val = sum((array.sp.vec(f"{k}X|{array.version}") * c for k, c in matrix.d.items()), np.zeros((), dtype=object))
        val = np.broadcast_to(val, (array.sp.size, len(array.sp.subsystems)))
        if out is None:
            return np.array(val)
        out[...] = val
        return out
    return apply_sparse


def axpy(x, y, n=None, a=1, **kw):
    y += a * x
    return y


@contextlib.contextmanager
def stubs(ts, w):
    blas = types.SimpleNamespace(get_blas_funcs=lambda names, *a, **k: axpy if isinstance(names, str) else [axpy for _ in names])
    saved = {k: ts.__dict__.get(k) for k in ("apply_sparse", "blas")}
    ts.apply_sparse, ts.blas = apply_sparse_contract(w), blas
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(ts, k, v)


def lhs_diffs(sp, combo, m, l):
    """Differences between a recorded left-hand side and m M + l L."""
    if isinstance(combo, dict):
        return [combo.get("M", P()) - m, combo.get("L", P()) - l] + [v for k, v in combo.items() if k not in "ML"]
    return [combo[k] - (V(f"M|{sp.i}|{k}") * m + V(f"L|{sp.i}|{k}") * l) for k in range(len(combo))]


def zero_goal(diffs):
    """Conjunction: all coefficients (of the atoms) of all differences vanish."""
    out = []
    for d in diffs:
        for coef in P.lift(d).split(is_atom).values():
            out.append(coef.z3() == 0)
    return out


class Scheme:
    """A multistep class whose coefficient function is its contract: any values, lengths within the history."""

    def __init__(self, ts, name, amax, bmax, cmax, steps, lens):
        calls = self.calls = []

        def compute_coefficients(cls, timesteps, iteration):
            n = len(calls)
            na, nb, nc = lens(n)
            a = np.array([V(f"a{n}_{j}") for j in range(na + 1)], dtype=object)
            b = np.array([V(f"b{n}_{j}") for j in range(nb + 1)], dtype=object)
            c = np.array([P()] + [V(f"c{n}_{j}") for j in range(1, nc + 1)], dtype=object)
            calls.append((list(timesteps), iteration, a, b, c))
            return a, b, c
        self.cls = type(name, (ts.MultistepIMEX,), {"amax": amax, "bmax": bmax, "cmax": cmax, "steps": steps,
                                                     "compute_coefficients": classmethod(compute_coefficients)})


def multistep_from_start(chk, ts, label, shape, subs, store, nsteps):
    amax, bmax, cmax, steps, lens = shape
    func = "timesteppers.MultistepIMEX.step"

    def body():
        def run():
            w = World(subs, store)
            sch = Scheme(ts, "Any", amax, bmax, cmax, steps, lens)
            with stubs(ts, w):
                stp = sch.cls(w)
                log = []
                for n in range(nsteps):
                    dt = V(f"dt{n}")
                    e0, s0 = len(w.evals), len(w.solves)
                    t_before, x_before = w.sim_time, tuple(sp.version for sp in w.subproblems)
                    w.scattered = []
                    w.layout["state"] = "?"
                    stp.step(dt, V(f"wall{n}"))
                    log.append(dict(evals=w.evals[e0:], e0=e0, solves=w.solves[s0:], t=t_before, t1=w.sim_time, X=x_before,
                                    scattered=list(w.scattered), X1=tuple(sp.version for sp in w.subproblems), it=w.iteration))
                    w.iteration = w.iteration + 1
            return w, sch, log
        paths = sym.explore(run, [])
        chk.paths += len(paths)
        for pi, p in enumerate(paths):
            if p.exc is not None:
                chk.obl(f"{label}: step returns [{pi}]", func, p.pc, False, replay=replay_multi)
                continue
            w, sch, log = p.result
            check_multistep(chk, f"{label} [{pi}]", func, p, w, sch.calls, log, amax, steps)
    chk.contract(label, func, body)


def check_multistep(chk, label, func, p, w, calls, log, amax, steps):
    obl = lambda what, goal: chk.obl(f"{label}: {what}", func, p.pc, goal, replay=replay_multi)
    ground = lambda what, ok, det=None: chk.ground(f"{label}: {what}", func, ok, det, replay=replay_multi)
    ground("callers' side of every contract", not w.bad, w.bad)
    ground("coefficients computed once per step", len(calls) == len(log))
    dts = [V(f"dt{n}") for n in range(len(log))]
    for n, st in enumerate(log):
        ks, it, a, b, c = calls[n]
        want_ks = [dts[n - j] if n - j >= 0 else P() for j in range(steps)]
        ground(f"step {n}: timestep history newest first, counted steps",
               len(ks) == steps and all(not (P.lift(x) - y).d for x, y in zip(ks, want_ks)) and it == n, (ks, it))
        ev = st["evals"]
        live = [sp for sp in w.subproblems if sp.size]
        ok = (len(ev) == 1 and ev[0][0] == "scheduled" and ev[0][1] == st["X"])
        kw = ev[0][3] if ev else {}
        want_kw = dict(iteration=st["it"], wall_time=V(f"wall{n}"), sim_time=st["t"], timestep=dts[n])
        ok = ok and set(kw) == set(want_kw) and all(not (P.lift(kw[k]) - want_kw[k]).d for k in kw) and not (ev[0][2] - st["t"]).d
        ground(f"step {n}: one scheduled evaluation at the old state and time", ok, str(ev))
        ground(f"step {n}: time advances by the timestep", not (st["t1"] - st["t"] - dts[n]).d)
        ground(f"step {n}: every subproblem solved once and its own solution stored",
               sorted(s[0].i for s in st["solves"]) == [sp.i for sp in live] == sorted(st["scattered"])
               and all(st["X1"][s[0].i] == s[3] for s in st["solves"]))
        for sp, combo, rhs, _ in st["solves"]:
            obl(f"step {n}: left-hand side of subproblem {sp.i} is a0 M + b0 L", zand(zero_goal(lhs_diffs(sp, combo, a[0], b[0]))))
            want = np.zeros((sp.size, len(sp.subsystems)), dtype=object)
            for j in range(1, max(len(a), len(b), len(c))):
                past = log[n - j + 1] if n - j + 1 >= 0 else None
                if past is None:
                    continue
                if j < len(c):
                    want = want + sp.vec(f"F|{past['e0']}") * c[j]
                if j < len(a):
                    want = want - sp.vec(f"MX|{past['X'][sp.i]}") * a[j]
                if j < len(b):
                    want = want - sp.vec(f"LX|{past['X'][sp.i]}") * b[j]
            ground(f"step {n}: right-hand side shape of subproblem {sp.i}", rhs.shape == want.shape, rhs.shape)
            if rhs.shape == want.shape:
                obl(f"step {n}: right-hand side of subproblem {sp.i}", zand(zero_goal([d for _, d in poly.diff_terms(rhs, want)])))


def zand(gs):
    return z3.And(gs) if gs else True


def multistep_inductive(chk, ts, label, shape, subs, store):
    """From any state satisfying the history invariant, one step solves the equation and keeps the invariant."""
    amax, bmax, cmax, steps = shape
    func = "timesteppers.MultistepIMEX.step (history invariant)"

    def body():
        def run():
            w = World(subs, store)
            sch = Scheme(ts, "Any", amax, bmax, cmax, steps, lambda n: (amax, bmax, cmax))
            with stubs(ts, w):
                stp = sch.cls(w)
                # arbitrary history: state versions -1-j, evaluations named past|j
                stp.dt.clear()
                stp.dt.extend(V(f"k_{j}") for j in range(steps))
                for name, q in (("MX", stp.MX), ("LX", stp.LX), ("F", stp.F)):
                    for j, sysm in enumerate(q):
                        for sp in w.subproblems:
                            if sp.size:
                                stem = f"{name}|{-1 - j}" if name != "F" else f"F|past{j}"
                                sysm.get_subdata(sp)[...] = sp.vec(stem)
                n0 = V("steps_taken")
                stp._iteration = n0
                old = (V("a_last"), V("b_last"))
                stp._LHS_params = old
                for sp in w.subproblems:
                    s = Solver(w, sp.M_min * old[0] + sp.L_min * old[1])
                    sp.LHS_solver = s
                    if store:
                        sp.LHS.data[:] = sp.M_exp.data * old[0] + sp.L_exp.data * old[1]
                stp.step(V("dt"), V("wall"))
            return w, sch, stp, n0
        paths = sym.explore(run, [])
        chk.paths += len(paths)
        ok = lambda what, good, det=None: chk.ground(f"{label} [{pi}]: {what}", func, good, det, observable=False)
        for pi, p in enumerate(paths):
            if p.exc is not None:
                raise p.exc
            w, sch, stp, n0 = p.result
            ok("callers' side of every contract", not w.bad, w.bad)
            ks, it, a, b, c = sch.calls[0]
            want = [V("dt")] + [V(f"k_{j}") for j in range(steps - 1)]
            ok("timesteps newest first", len(ks) == steps and all(not (x - y).d for x, y in zip(ks, want)))
            ok("step count passed on and increased by one", not (it - n0).d and not (stp._iteration - n0 - 1).d)
            for sp, combo, rhs, v in w.solves:
                chk.obl(f"{label} [{pi}]: left-hand side of subproblem {sp.i}", func, p.pc,
                        zand(zero_goal(lhs_diffs(sp, combo, a[0], b[0]))), observable=False)
                want = sum((sp.vec(f"F|{0 if j == 1 else 'past%d' % (j - 2)}") * c[j] for j in range(1, cmax + 1)), np.zeros((), dtype=object))
                want = want - sum((sp.vec(f"MX|{0 if j == 1 else 1 - j}") * a[j] for j in range(1, amax + 1)), np.zeros((), dtype=object))
                want = want - sum((sp.vec(f"LX|{0 if j == 1 else 1 - j}") * b[j] for j in range(1, bmax + 1)), np.zeros((), dtype=object))
                chk.obl(f"{label} [{pi}]: right-hand side of subproblem {sp.i}", func, p.pc,
                        zand(zero_goal([d for _, d in poly.diff_terms(rhs, want)])), observable=False)
                # invariant re-established
                inv = []
                for name, q in (("MX", stp.MX), ("LX", stp.LX), ("F", stp.F)):
                    for j, sysm in enumerate(q):
                        stem = ("F|0" if j == 0 else f"F|past{j-1}") if name == "F" else f"{name}|{0 if j == 0 else -j}"
                        inv += [d for _, d in poly.diff_terms(sysm.get_subdata(sp), sp.vec(stem))]
                ok(f"history of subproblem {sp.i} shifted by one step", not inv, inv[:2])
                s = sp.LHS_solver
                chk.obl(f"{label} [{pi}]: factorization of subproblem {sp.i} belongs to the recorded coefficients", func, p.pc,
                        zand(zero_goal(lhs_diffs(sp, s.combo, *stp._LHS_params))), observable=False)
    chk.contract(label, func, body)


def rk_from_start(chk, ts, label, cls, subs, store, nsteps, symbolic):
    func = "timesteppers.RungeKuttaIMEX.step"

    def body():
        if symbolic:
            s = symbolic
            A = np.array([[V(f"A{i}{j}") if j < i else P() for j in range(s + 1)] for i in range(s + 1)], dtype=object)
            H = np.array([[V(f"H{i}{j}") if j <= i and i else P() for j in range(s + 1)] for i in range(s + 1)], dtype=object)
            cc = np.array([P()] + [V(f"c{i}") for i in range(1, s)] + [P.const(1)], dtype=object)
            scheme = type("AnyRK", (ts.RungeKuttaIMEX,), {"stages": s, "A": A, "H": H, "c": cc})
        else:
            scheme, s = cls, cls.stages
            q = np.vectorize(lambda x: P.lift(x), otypes=[object])
            A, H, cc = q(scheme.A), q(scheme.H), q(scheme.c)

        def run():
            w = World(subs, store)
            with stubs(ts, w):
                stp = scheme(w)
                log = []
                for n in range(nsteps):
                    dt = V(f"dt{n}")
                    e0, s0, t0, X0 = len(w.evals), len(w.solves), w.sim_time, tuple(sp.version for sp in w.subproblems)
                    w.scattered = []
                    w.layout["state"] = "?"
                    stp.step(dt, V(f"wall{n}"))
                    log.append(dict(e0=e0, evals=w.evals[e0:], solves=w.solves[s0:], t=t0, t1=w.sim_time, X=X0, it=w.iteration, scattered=list(w.scattered)))
                    w.iteration = w.iteration + 1
            return w, log
        paths = sym.explore(run, [])
        chk.paths += len(paths)
        for pi, p in enumerate(paths):
            lab = f"{label} [{pi}]"
            if p.exc is not None:
                chk.obl(f"{lab}: step returns", func, p.pc, False, replay=replay_rk)
                continue
            w, log = p.result
            obl = lambda what, goal: chk.obl(f"{lab}: {what}", func, p.pc, goal, replay=replay_rk)
            ground = lambda what, ok, det=None: chk.ground(f"{lab}: {what}", func, ok, det, replay=replay_rk)
            ground("callers' side of every contract", not w.bad, w.bad)
            live = [sp for sp in w.subproblems if sp.size]
            for n, st in enumerate(log):
                k = V(f"dt{n}")
                ground(f"step {n}: time advances by the timestep", not (st["t1"] - st["t"] - k).d, str(st["t1"]))
                ground(f"step {n}: every subproblem solved once per stage", len(st["solves"]) == s * len(live) and
                       sorted(st["scattered"]) == sorted(sp.i for sp in live for _ in range(s)))
                if len(st["solves"]) != s * len(live) or not live:
                    continue
                # states of each stage
                X = [dict((sp.i, st["X"][sp.i]) for sp in live)]
                for i in range(s):
                    X.append({q[0].i: q[3] for q in st["solves"][i * len(live):(i + 1) * len(live)]})
                    ground(f"step {n} stage {i+1}: all subproblems", sorted(X[-1]) == sorted(sp.i for sp in live))
                # evaluations
                ev = st["evals"]
                ok = len(ev) == s and ev[0][0] == "scheduled"
                for i, e in enumerate(ev):
                    ok = ok and all(e[1][sp.i] == X[i][sp.i] for sp in live)
                    ok = ok and not (e[2] - st["t"] - k * cc[i]).d
                kw = ev[0][3] if ev else {}
                want_kw = dict(iteration=st["it"], wall_time=V(f"wall{n}"), sim_time=st["t"], timestep=k)
                ok = ok and set(kw) == set(want_kw) and all(not (P.lift(kw[q]) - want_kw[q]).d for q in kw)
                ground(f"step {n}: right-hand sides evaluated at the state and time of their stage", ok, str(ev))
                for i in range(1, s + 1):
                    for sp, combo, rhs, _ in st["solves"][(i - 1) * len(live):i * len(live)]:
                        obl(f"step {n} stage {i}: left-hand side of subproblem {sp.i} is M + k Hii L",
                            zand(zero_goal(lhs_diffs(sp, combo, P.const(1), k * H[i, i]))))
                        want = sp.vec(f"MX|{X[0][sp.i]}")
                        for j in range(i):
                            want = want + sp.vec(f"F|{st['e0'] + j}") * (k * A[i, j]) - sp.vec(f"LX|{X[j][sp.i]}") * (k * H[i, j])
                        ground(f"step {n} stage {i}: right-hand side shape {sp.i}", rhs.shape == want.shape)
                        if rhs.shape == want.shape:
                            obl(f"step {n} stage {i}: right-hand side of subproblem {sp.i}", zand(zero_goal([d for _, d in poly.diff_terms(rhs, want)])))
    chk.contract(label, func, body)


def system_contract(chk):
    """CoeffSystem: the views of all subproblems tile the buffer, columns = subsystems."""
    from dedalus.core import system
    func = "system.CoeffSystem"
    for sizes in itertools.product([(0, 0), (0, 2), (1, 1), (3, 2), (2, 0), (2, 3)], repeat=2):
        subs = []
        for n, s in sizes:
            o = type("Sub0", (), {})()
            o.LHS, o.subsystems, o.size = types.SimpleNamespace(shape=(n, n)), tuple(range(s)), n
            subs.append(o)
        S = system.CoeffSystem(subs, np.float64)
        S.data[:] = np.arange(1, S.data.size + 1)
        seen = np.concatenate([S.get_subdata(sp).ravel() for sp in subs]) if subs else np.array([])
        ok = sorted(seen.tolist()) == sorted(S.data.tolist()) and S.data.size == sum(n * s for n, s in sizes)
        for sp, (n, s) in zip(subs, sizes):
            v = S.get_subdata(sp)
            ok = ok and np.shares_memory(v, S.data) == bool(n * s) and v.size == n * s and (not n * s or v.shape == (n, s))
        chk.ground(f"views of {sizes} tile the buffer", func, bool(ok), observable=False)


# ---------------------------------------------------------------- real problems
def problem(kind, dtype, store=None):
    import dedalus.public as d3
    if kind == "fourier":      # several groups, coupled pair, nonlinear, explicit time dependence
        c = d3.Coordinate("x")
        dist = d3.Distributor(c, dtype=dtype)
        B = d3.RealFourier if dtype == np.float64 else d3.ComplexFourier
        xb = B(c, 8, (0, 2 * np.pi), dealias=1.5)
        u, v = dist.Field(name="u", bases=xb), dist.Field(name="v", bases=xb)
        t = dist.Field(name="t")
        dx = lambda A: d3.Differentiate(A, c)
        p = d3.IVP([u, v], namespace=dict(u=u, v=v, t=t, dx=dx), time=t)
        p.add_equation("dt(u) + 0.3*dt(v) - dx(dx(u)) + v = u*v + t*t*u - dx(u)*u")
        p.add_equation("dt(v) - 2*dx(v) + 0.5*u = t*v - u*u")
    elif kind == "mixed":      # one group is empty for the constant constraint, gauge, boundary conditions
        c = d3.CartesianCoordinates("x", "z")
        dist = d3.Distributor(c, dtype=dtype)
        B = d3.RealFourier if dtype == np.float64 else d3.ComplexFourier
        xb, zb = B(c["x"], 4, (0, 1)), d3.ChebyshevT(c["z"], 6, (0, 1))
        u, v = dist.Field(name="u", bases=(xb, zb)), None
        t1, t2 = dist.Field(name="t1", bases=xb), dist.Field(name="t2", bases=xb)
        t = dist.Field(name="t")
        lift = lambda A, n: d3.Lift(A, zb.derivative_basis(2), n)
        p = d3.IVP([u, t1, t2], namespace=dict(u=u, t1=t1, t2=t2, t=t, lift=lift, lap=d3.lap), time=t)
        p.add_equation("dt(u) - lap(u) + lift(t1,-1) + lift(t2,-2) = u*u + t")
        p.add_equation("u(z=0) = t*t")
        p.add_equation("u(z=1) = 0")
    return p


def case_run(case):
    """A real run compared, step by step, with the scheme applied to the problem's own matrices and right-hand side."""
    from dedalus.core import timesteppers as ts
    import dedalus.public as d3
    name, kind, dtn, store, dts = case
    dtype = {"f": np.float64, "c": np.complex128}[dtn]
    cls = getattr(ts, name)
    p = problem(kind, dtype)
    s = p.build_solver(cls, store_expanded_matrices=store, enforce_real_cadence=0)
    q = problem(kind, dtype)
    ref = q.build_solver(d3.SBDF1, enforce_real_cadence=0)     # only its matrices and right-hand side are used
    rng = np.random.default_rng(11)
    for a, b in zip(s.state, ref.state):
        a.fill_random("g", seed=int(rng.integers(1000)), distribution="standard_normal")
        a["g"] *= 0.3
        b["c"] = a["c"]
    s.sim_time = 0.7
    live = [sp for sp in ref.subproblems if sp.size]

    def get(state):
        for f in ref.state:
            f.require_coeff_space() if hasattr(f, "require_coeff_space") else f.change_layout("c")
        return [sp.gather_inputs(state) for sp in live]

    def put(vecs):
        for f in ref.state:
            f.preset_layout("c")
        for sp, x in zip(live, vecs):
            sp.scatter_inputs(x, ref.state)

    def rhs(vecs, t):
        put(vecs)
        ref.sim_time = t
        ref.evaluator.evaluate_group("F")
        return [np.array(sp.gather_outputs(ref.F)) for sp in live]
    Ms = [sp.M_min.toarray() for sp in live]
    Ls = [sp.L_min.toarray() for sp in live]
    X = [np.array(x) for x in get(ref.state)]
    t = 0.7
    Xh, Fh, kh = [], [], []
    for n, dt in enumerate(dts):
        it0 = s.iteration
        s.step(dt)
        kh.insert(0, dt)
        if issubclass(cls, ts.MultistepIMEX):
            Xh.insert(0, X)
            Fh.insert(0, rhs(X, t))
            ks = (kh + [0.0] * cls.steps)[:cls.steps]
            a, b, c = cls.compute_coefficients(ks, n)
            new = []
            for i in range(len(live)):
                r = sum(c[j] * Fh[j - 1][i] for j in range(1, len(c)) if j - 1 < len(Fh) and c[j] != 0)
                r = r - sum(a[j] * (Ms[i] @ Xh[j - 1][i]) for j in range(1, len(a)) if j - 1 < len(Xh) and a[j] != 0)
                r = r - sum(b[j] * (Ls[i] @ Xh[j - 1][i]) for j in range(1, len(b)) if j - 1 < len(Xh) and b[j] != 0)
                new.append(np.linalg.solve(a[0] * Ms[i] + b[0] * Ls[i], r))
            X = new
        else:
            A, H, c = cls.A, cls.H, cls.c
            Xs, Fs = [X], [rhs(X, t)]
            for i in range(1, cls.stages + 1):
                new = []
                for g in range(len(live)):
                    r = Ms[g] @ X[g] + dt * sum(A[i, j] * Fs[j][g] - H[i, j] * (Ls[g] @ Xs[j][g]) for j in range(i))
                    new.append(np.linalg.solve(Ms[g] + dt * H[i, i] * Ls[g], r))
                Xs.append(new)
                if i < cls.stages:
                    Fs.append(rhs(new, t + c[i] * dt))
            X = Xs[-1]
        t = t + dt
        if abs(s.sim_time - t) > 1e-12 * max(1, abs(t)) or s.iteration != it0 + 1 or abs(s.problem.time["g"].ravel()[0] - t) > 1e-12:
            return {"step": n, "violates": "time and iteration bookkeeping", "sim_time": float(s.sim_time), "expected": t}
        for f in s.state:
            f.change_layout("c")
        put(X)
        for a_, b_ in zip(s.state, ref.state):
            A1, B1 = np.array(a_["c"]), np.array(b_["c"])
            if not np.allclose(A1, B1, rtol=1e-7, atol=1e-9 * max(1, np.abs(B1).max())):
                return {"step": n, "timestep": dt, "violates": "the state solves the scheme's discrete equation", "variable": a_.name,
                        "max error": float(np.abs(A1 - B1).max())}
    return None


HIST = [(0.01, 0.01, 0.0101, 0.01, 0.01, 0.005, 0.0051, 0.01), (0.02, 0.005, 0.02, 0.0202, 0.04, 0.02, 0.02)]


@takes_none
def replay_multi(model=None):
    return replay_cases(["SBDF2", "CNAB2", "SBDF4", "MCNAB2", "CNLF2", "SBDF3", "SBDF1", "CNAB1"])


@takes_none
def replay_rk(model=None):
    return replay_cases(["RK222", "RK443", "RK111", "RKSMR", "RKGFY"])


_cache = {}


def replay_cases(names):
    key = tuple(names)
    if key not in _cache:
        _cache[key] = None
        for kind in ("fourier", "mixed"):
            for store in (False, True):
                for nm in names:
                    try:
                        bad = case_run((nm, kind, "f", store, HIST[0]))
                    except Exception as e:
                        bad = {"exception": f"{type(e).__name__}: {e}"}
                    if bad:
                        _cache[key] = {"case": (nm, kind, store, HIST[0]), **bad}
                        return _cache[key]
    return _cache[key]


def reload_case(case):
    """Loading an earlier state into a solver that has already stepped gives the same run as loading it into a fresh one."""
    import shutil
    import tempfile
    name, before, after = case
    d = tempfile.mkdtemp(prefix="vf_t02_")
    try:
        s = problem("fourier", np.float64).build_solver(name, enforce_real_cadence=0)
        h = s.evaluator.add_file_handler(d + "/out", iter=1)
        h.add_tasks(s.state)
        for k, f in enumerate(s.state):
            f.fill_random("g", seed=k)
        for _ in range(before):
            s.step(0.01)
        runs = []
        for detour in (0, after):
            s = problem("fourier", np.float64).build_solver(name, enforce_real_cadence=0)
            for k, f in enumerate(s.state):
                f.fill_random("g", seed=5 + k)
            for _ in range(detour):
                s.step(0.02)
            s.load_state(d + "/out/out_s1.h5", -1)
            for _ in range(3):
                s.step(0.01)
            runs.append([np.array(f["c"]) for f in s.state] + [np.array([s.iteration, s.sim_time])])
        if not all(np.allclose(a, b) for a, b in zip(*runs)):
            return {"violates": "each step uses right-hand sides and history of its own run only",
                    "max error": max(float(np.abs(a - b).max()) for a, b in zip(*runs))}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(chk):
    from dedalus.core import timesteppers as ts
    chk.assume("Callees by contract: compute_coefficients returns any coefficients within the kept history (T01), apply_sparse multiplies (N01), "
               "gather/scatter copy valid modes (M01), the matrix solver solves (N03), BLAS axpy adds a multiple in place")
    chk.assume("The step is uniform in the number and size of subproblems: proved for the listed collections (including empty ones)")
    subsets = [[(2, 1)], [(2, 2), (0, 1), (1, 3)], [(0, 1)], []]
    full = lambda n: (lambda k: (n, n, n))
    start = lambda n: (lambda k: (min(n, k + 1),) * 3)
    shapes = {"1-step": (1, 1, 1, 1, full(1)), "2-step": (2, 2, 2, 2, start(2)), "3-step": (3, 3, 3, 3, start(3)),
              "4-step": (4, 4, 4, 4, start(4)), "uneven history": (3, 1, 2, 3, lambda k: (min(3, k + 1), 1, min(2, k + 1)))}
    for lab, sh in shapes.items():
        for si, subs in enumerate(subsets):
            for store in (False, True):
                if si >= 2 and lab != "2-step":
                    continue
                n = 4 if si == 1 else (3 if si else 4)
                if lab == "4-step" and si == 0:
                    n = 5
                multistep_from_start(chk, ts, f"{lab} scheme, subproblems {subs}, stored={store}", sh, subs, store, n)
    for sh in ((1, 1, 1, 1), (2, 2, 2, 2), (3, 3, 3, 3), (4, 4, 4, 4), (3, 1, 2, 3)):
        for store in (False, True):
            multistep_inductive(chk, ts, f"any history, orders {sh[:3]}, stored={store}", sh, subsets[1], store)
    for s in (1, 2, 3):
        for subs in subsets[:3]:
            for store in (False, True):
                rk_from_start(chk, ts, f"any {s}-stage table, subproblems {subs}, stored={store}", None, subs, store, 3 if s < 3 else 2, s)
    for name in ("RK111", "RK222", "RK443", "RKSMR", "RKGFY"):
        if hasattr(ts, name):
            rk_from_start(chk, ts, f"{name}", getattr(ts, name), [(2, 1), (1, 2)], False, 2, None)
    chk.contract("CoeffSystem", "system.CoeffSystem", lambda: system_contract(chk))
    names = list(ts.schemes)
    cases = [(nm, kind, dt, store, h) for kind in ("fourier", "mixed") for store in (False, True) for nm in names
             for dt, h in ((("f", HIST[0]), ("c", HIST[1])) if kind == "fourier" or chk.thorough else (("f", HIST[1]),))]
    chk.bounded("real runs against the scheme applied to the problem's own matrices",
                "all schemes, 2 problems, real/complex, stored or rebuilt matrices, 6-8 steps with repeats and changes", cases, case_run, budget=250)
    chk.bounded("loading a state into a solver that has stepped", "4 schemes, fewer, equal and more earlier steps",
                [(nm, b, a) for nm in ("SBDF1", "SBDF3", "CNAB2", "RK222") for b, a in ((3, 2), (3, 3), (3, 7))], reload_case)
