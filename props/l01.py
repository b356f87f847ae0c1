"""L01: the run loop stops at the configured limits and never before."""
import itertools
import random

import numpy as np
import z3
from vf import sym, npf
from vf.run import takes_none
from vf.sym import Int, Real, Unsupported, to_real, to_int

F_PROCEED = "solvers.InitialValueSolver.proceed"
F_STEP = "solvers.InitialValueSolver.step"
F_EVOLVE = "solvers.InitialValueSolver.evolve"
INF = float("inf")


class Clock:
    """Stands for the wall clock: world_time of the solver is whatever the contract says."""
    now = 0.0


def make(so, state):
    """A real InitialValueSolver object with the given attributes; clock and fields are stand-ins."""
    class S(so.InitialValueSolver):
        world_time = property(lambda self: Clock.now)

        def log_stats(self, *a, **k):
            self.__dict__.setdefault("stats", []).append(self.iteration)
    s = object.__new__(S)
    s.profile = False
    s.problem = type("P", (), {})()
    s.problem.time = {}
    for k, v in state.items():
        setattr(s, k, v)
    return s


def proceed_contract(chk, so):
    def body():
        t, w0, w, it = Real("sim_time"), Real("init_time"), Real("now"), Int("iteration")
        T, W, N = Real("stop_sim_time"), Real("stop_wall_time"), Int("stop_iteration")
        for mask in itertools.product((0, 1), repeat=3):
            lim = [x if m else INF for x, m in zip((T, W, N), mask)]

            @takes_none
            def replay(model=None, mask=mask):
                return search_proceed(so, mask)

            def run():
                s = make(so, dict(sim_time=t, init_time=w0, iteration=it, initial_iteration=0,
                                  stop_sim_time=lim[0], stop_wall_time=lim[1], stop_iteration=lim[2]))
                Clock.now = w
                with npf.facade(so):
                    return s.proceed
            pre = [w.t >= w0.t]
            paths = sym.explore(run, pre)
            chk.paths += len(paths)
            tag = "limits set: " + ",".join(n for n, m in zip(("sim_time", "wall_time", "iteration"), mask) if m) or "none"
            below = z3.And(*([z3.BoolVal(True)] + [a < b for a, b, m in
                             ((t.t, T.t, mask[0]), (w.t - w0.t, W.t, mask[1]), (it.t, N.t, mask[2])) if m]))
            for i, p in enumerate(paths):
                if p.exc is not None:
                    chk.obl(f"proceed, {tag}: no exception (path {i})", F_PROCEED, p.pc, False, replay=replay)
                    continue
                r = p.result
                rt = r.t if isinstance(r, sym.SymBool) else z3.BoolVal(bool(r))
                chk.obl(f"proceed, {tag}: continues iff below every limit (path {i})", F_PROCEED, p.pc, rt == below, replay=replay)
    chk.contract("proceed", F_PROCEED, body)


def proceed_value(so, t, w0, w, it, T, W, N):
    s = make(so, dict(sim_time=t, init_time=w0, iteration=it, initial_iteration=0, stop_sim_time=T, stop_wall_time=W, stop_iteration=N))
    Clock.now = w
    return bool(s.proceed)


def search_proceed(so, mask=None):
    vals = [0.0, 0.5, 1.0, 1.5]
    for t, w0, w, it in itertools.product(vals, (0.0, 100.0), vals, (0, 1, 2)):
        for T, W, N in itertools.product((INF, 0.0, 0.5, 1.0), (INF, 0.0, 1.0), (INF, 0, 1, 2)):
            got = proceed_value(so, t, w0, w0 + w, it, T, W, N)
            exp = t < T and w < W and it < N
            if got != exp:
                return {"sim_time": t, "wall_time": w, "iteration": it, "limits": [T, W, N], "proceeds": got, "expected": exp}
    return None


class TS:
    """Time stepper stand-in (its contract is property T02): advances the simulation time by dt."""
    def __init__(self, solver, steps):
        self.solver, self.steps, self.stages, self.calls = solver, steps, 1, []

    def step(self, dt, wall_time):
        self.calls.append((dt, wall_time, self.solver.iteration))
        self.solver.sim_time = self.solver.sim_time + dt


def step_contract(chk, so):
    def body():
        it, it0, dt, w = Int("iteration"), Int("initial_iteration"), Real("dt"), Int("warmup")
        t, now, init = Real("sim_time"), Real("now"), Real("init_time")
        cad = Int("cadence")
        for enforce in (None, cad):
            for steps in (1, 2, 3):
                def run():
                    s = make(so, dict(sim_time=t, init_time=init, iteration=it, initial_iteration=it0, warmup_iterations=w,
                                      enforce_real_cadence=enforce, state=["field"]))
                    s.timestepper = TS(s, steps)
                    calls = []
                    s.enforce_hermitian_symmetry = lambda fields: calls.append(fields)
                    Clock.now = now
                    with npf.facade(so):
                        s.step(dt)
                    return s, calls
                pre = [it.t >= it0.t, it0.t >= 0, w.t >= 0, cad.t >= 1, cad.t >= steps]

                @takes_none
                def replay(model=None):
                    return search_step(so)
                paths = sym.explore(run, pre)
                chk.paths += len(paths)
                tag = f"step[{'enforced' if enforce is not None else 'not enforced'}, history {steps}]"
                for i, p in enumerate(paths):
                    if p.exc is not None:
                        chk.obl(f"{tag}: no exception (path {i})", F_STEP, p.pc, False, replay=replay)
                        continue
                    s, calls = p.result
                    chk.obl(f"{tag}: iteration advances by exactly one (path {i})", F_STEP, p.pc, sym.eq(s.iteration, it + 1), replay=replay)
                    chk.obl(f"{tag}: exactly one step of the scheme, with the given timestep (path {i})", F_STEP, p.pc,
                            z3.And(z3.BoolVal(len(s.timestepper.calls) == 1),
                                   *[z3.And(sym.eq(c[0], dt), sym.eq(c[2], it), sym.eq(c[1], now - init)) for c in s.timestepper.calls]), replay=replay)
                    chk.obl(f"{tag}: simulation time advances by the timestep and is seen by the equations (path {i})", F_STEP, p.pc,
                            z3.And(sym.eq(s.sim_time, t + dt), sym.eq(s.problem.time["g"], t + dt)), replay=replay)
                    chk.obl(f"{tag}: remembers the last timestep (path {i})", F_STEP, p.pc, sym.eq(s.dt, dt), replay=replay)
                    want = z3.BoolVal(False) if enforce is None else (it.t % cad.t) < steps
                    chk.obl(f"{tag}: Hermitian symmetry enforced at the cadence for as many steps as the scheme keeps (path {i})",
                            F_STEP, p.pc, want == z3.BoolVal(len(calls) == 1 and calls[0] is s.state) if len(calls) <= 1 else False, replay=replay)
                    frame = [sym.eq(s.initial_iteration, it0), sym.eq(s.init_time, init), sym.eq(s.warmup_iterations, w)]
                    chk.obl(f"{tag}: start of the run is not moved (path {i})", F_STEP, p.pc, z3.And(*frame), replay=replay)
        for bad in (INF, -INF, float("nan")):
            s = make(so, dict(sim_time=0.0, init_time=0.0, iteration=3, initial_iteration=0, warmup_iterations=1, enforce_real_cadence=1, state=[]))
            s.timestepper = TS(s, 1)
            Clock.now = 0.0
            s.enforce_hermitian_symmetry = lambda f: None
            try:
                s.step(bad)
                ok = False
            except ValueError:
                ok = s.iteration == 3 and s.sim_time == 0.0 and not s.timestepper.calls
            except Exception:
                ok = False
            chk.ground(f"step({bad}) is rejected before anything changes", F_STEP, ok)
    chk.contract("step", F_STEP, body)


def search_step(so):
    rng = random.Random(4)
    for _ in range(300):
        steps, cad, it0 = rng.choice([1, 2, 3, 4]), rng.choice([None, 4, 5, 7, 100]), rng.choice([0, 0, 9])
        s = make(so, dict(sim_time=0.0, init_time=10.0, iteration=it0, initial_iteration=it0, warmup_iterations=2,
                          enforce_real_cadence=cad, state=[object()]))
        s.timestepper = TS(s, steps)
        enf = []
        s.enforce_hermitian_symmetry = lambda f: enf.append(s.iteration)
        dts = [rng.choice([.25, .5, 1.0]) for _ in range(20)]
        for dt in dts:
            Clock.now = 11.0
            s.step(dt)
        its = list(range(it0, it0 + 20))
        exp = [i for i in its if cad and i % cad < steps]
        if s.iteration != it0 + 20 or s.sim_time != sum(dts) or s.problem.time.get("g") != sum(dts) or s.dt != dts[-1] \
                or [c[0] for c in s.timestepper.calls] != dts or [c[2] for c in s.timestepper.calls] != its or enf != exp \
                or s.initial_iteration != it0:
            return {"steps": steps, "cadence": cad, "initial_iteration": it0, "iteration": s.iteration, "sim_time": s.sim_time,
                    "enforced_at": enf, "expected_enforced_at": exp, "dts": dts}
    return None


def evolve_contract(chk, so):
    """Loop rule: from any loop state, one pass takes one step with the timestep just asked for and the loop ends
    exactly when the stop rule says so.  `proceed` and `step` are replaced by their contracts: proceed is an arbitrary
    boolean sequence, step records."""
    def body():
        for n in range(0, 5):
            class S(so.InitialValueSolver):
                proceed = property(lambda self: self._answers.pop(0))

                def step(self, dt):
                    self.taken.append(dt)
                    self.iteration += 1

                def log_stats(self, *a, **k):
                    self.logged += 1
            s = object.__new__(S)
            s.problem = type("P", (), {"time": {}})()
            s._answers = [True] * n + [False, "too many"]
            s.taken, s.logged, s.asked = [], 0, 0
            s.iteration = s.initial_iteration = 0
            s.sim_time = 0.0
            s.stop_sim_time, s.stop_wall_time, s.stop_iteration = INF, INF, 10**9

            def tf():
                s.asked += 1
                return s.asked * 0.5
            s.evolve(tf)
            chk.ground(f"evolve: {n} passes while the rule holds, each with its own timestep", F_EVOLVE,
                       s.taken == [0.5 * (j + 1) for j in range(n)] and s.asked == n and s._answers == ["too many"] and s.logged == 1,
                       detail={"taken": s.taken, "asked": s.asked})
        for mask in itertools.product((0, 1), repeat=3):
            s = make(so, dict(sim_time=0.0, init_time=0.0, iteration=0, initial_iteration=0))
            s.stop_sim_time, s.stop_wall_time, s.stop_iteration = [0 if m else INF for m in mask]
            Clock.now = 0.0
            steps = []

            def step(dt):
                steps.append(dt)
                if len(steps) > 20:
                    raise RuntimeError("does not stop")
            s.step = step
            try:
                s.evolve(lambda: 1.0)
                raised = False
            except ValueError:
                raised = True
            except RuntimeError:
                raised = None
            chk.ground(f"evolve with limits {mask}: rejected iff none is set, and takes no step at a limit", F_EVOLVE,
                       raised == (not any(mask)) and not steps, detail={"mask": mask, "raised": raised, "steps": steps})
    chk.contract("evolve", F_EVOLVE, body)


def real_run(case):
    """The real solver, end to end."""
    import dedalus.public as d3
    kind, limit, dt, t0, it0, warm = case
    c = d3.Coordinate("x")
    d = d3.Distributor(c, dtype=np.float64)
    b = d3.RealFourier(c, size=4, bounds=(0, 1))
    u = d.Field(name="u", bases=b)
    p = d3.IVP([u], namespace={"u": u})
    p.add_equation("dt(u) = 0")
    s = p.build_solver(d3.RK111, warmup_iterations=warm)
    if (s.stop_sim_time, s.stop_wall_time, s.stop_iteration) != (INF, INF, INF):
        return {"default limits": [s.stop_sim_time, s.stop_wall_time, s.stop_iteration]}
    s.sim_time = s.initial_sim_time = t0
    s.iteration = s.initial_iteration = it0
    if kind == "sim":
        s.stop_sim_time = limit
        exp = 0
        t = t0
        while t < limit:
            t += dt
            exp += 1
    elif kind == "iter":
        s.stop_iteration = limit
        exp = max(0, limit - it0)
    else:
        s.stop_wall_time = limit
        exp = 0 if limit <= 0 else None
    n = [0]

    def tf():
        n[0] += 1
        if n[0] > 500:
            raise RuntimeError("does not stop")
        return dt
    s.evolve(tf)
    if exp is not None and (n[0] != exp or s.iteration != it0 + exp or abs(s.sim_time - (t0 + exp * dt)) > 1e-12):
        return {"steps": n[0], "expected": exp, "iteration": s.iteration, "sim_time": s.sim_time}


def run(chk):
    import dedalus.core.solvers as so
    chk.assume("the wall clock (world_time) does not decrease; the time-stepper stand-in advances sim_time by dt (property T02)")
    chk.assume("Hermitian enforcement cadence is at least the number of steps the scheme keeps (default 100)")
    proceed_contract(chk, so)
    step_contract(chk, so)
    evolve_contract(chk, so)
    chk.bounded("stop rule on a grid of times, counters and limits", "4x2x4x3 states x 48 limits", ["grid"], lambda c: search_proceed(so))
    chk.bounded("step bookkeeping", "300 runs of 20 steps", ["runs"], lambda c: search_step(so))
    cases = [("sim", 1.0, 0.125, 0.0, 0), ("sim", 1.0, 0.3, 0.0, 0), ("sim", 1.0, 0.25, 1.0, 0), ("sim", 2.0, 0.25, 0.5, 7),
             ("iter", 5, 0.1, 0.0, 0), ("iter", 5, 0.1, 0.0, 3), ("iter", 5, 0.1, 0.0, 5), ("iter", 0, 0.1, 0.0, 0), ("wall", 0.0, 0.1, 0.0, 0), ("wall", -1.0, .1, 0., 0)]
    cases = [c + (w,) for c in cases for w in (10, 5, 2, 0)]
    chk.bounded("real initial value runs", f"{len(cases)} runs", cases, real_run)
