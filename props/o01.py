"""O01: scheduled outputs fire exactly when their cadence says."""
import itertools
import random
from fractions import Fraction

import z3
from vf import sym, npf
from vf.run import takes_none
from vf.sym import Int, Real, Bool, Unsupported, to_real, to_int, to_bool

FN = "evaluator.Handler.check_schedule"


# ------------------------------------------------------------------ documented rule (oracle)
def expected_sim(history, S):
    """Which steps output, for a history [(t, dt)] with dt < S: the step closest to each multiple the run reaches."""
    out = []
    fired = None
    for t, dt in history:
        mid = t + dt / 2           # the next step is closer to every multiple at or beyond the midpoint
        lo = (t / S + Fraction(1, 2)).__floor__() if fired is None and not out else None
        k = (mid / S).__ceil__() - 1       # largest multiple strictly before the midpoint
        base = fired if fired is not None else first_base(history[0][0], S)
        out.append(k > base)
        if k > base:
            fired = k
    return out


def has_tie(hist, S):
    return ((hist[0][0] / S) % 1 == Fraction(1, 2)) or any(((t + d / 2) / S) % 1 == 0 for t, d in hist)


def judge_sim(hist, S, got):
    """Exactly one output per multiple reached, at a closest step (either one when two are equally close)."""
    if not has_tie(hist, S):
        return None if expected_sim(hist, S) == got else "not the closest step to each multiple"
    x = hist[0][0] / S
    half = x % 1 == Fraction(1, 2)
    ts = [t for t, _ in hist] + [hist[-1][0] + hist[-1][1]]
    first = first_base(hist[0][0], S) + 1
    last = ((hist[-1][0] + hist[-1][1] / 2) / S).__floor__()
    left = [i for i, g in enumerate(got) if g]
    for k in range(min(first, x.__floor__()) if half else first, last + 1):
        best = min(abs(t - k * S) for t in ts)
        near = [i for i, t in enumerate(ts) if abs(t - k * S) == best]
        hit = [i for i in near if i in left]
        optional = len(ts) - 1 in near or (half and k <= x + Fraction(1, 2))
        if len(hit) > 1 or (not hit and not optional):
            return f"multiple {k} has {len(hit)} outputs at its closest steps"
        left = [i for i in left if i not in hit]
    return f"extra outputs at steps {left}" if left else None


def first_base(t0, S):
    """Multiples before the one closest to the starting time are not owed."""
    import math
    x = t0 / S
    f = math.floor(x)
    d = x - f
    n = f if d < Fraction(1, 2) else f + 1 if d > Fraction(1, 2) else (f if f % 2 == 0 else f + 1)
    return n - 1


def expected_div(values, cadence):
    """Wall/iteration cadences: output when a new interval has been entered."""
    out, last = [], -1
    for v in values:
        d = (Fraction(v) / Fraction(cadence)).__floor__()
        out.append(d > last)
        last = max(last, d)
    return out


def run_history(ev, history, **cad):
    h = ev.Handler(None, None, **cad)
    return [bool(h.check_schedule(**kw)) for kw in history]


def replay_sim(ev, S, steps):
    """steps: list of Fractions (t0, dt1, dt2, ...), on the real code with floats."""
    t = steps[0]
    hist = []
    for dt in steps[1:]:
        hist.append((t, dt))
        t += dt
    got = run_history(ev, [dict(sim_time=float(t), timestep=float(d), iteration=i, wall_time=0.0)
                           for i, (t, d) in enumerate(hist)], sim_dt=float(S))
    bad = judge_sim(hist, S, got)
    if bad:
        exp = expected_sim(hist, S)
        return {"why": bad, "cadence": float(S), "history": [(float(a), float(b)) for a, b in hist], "expected": exp, "got": got}


def sim_cases(rng, n):
    for _ in range(n):
        S = Fraction(rng.choice([8, 16, 24, 32, 40, 56, 64, 96]), 64)
        t0 = Fraction(rng.choice([0, 0, 0, rng.randrange(0, 400)]), 64)
        m = rng.choice([1, 2, 4, 16])
        hi = int(S * 64 * m)
        mode = rng.random()
        ks = []
        for _ in range(rng.choice([6, 12, 30])):
            if mode < .3:
                ks.append(Fraction(max(1, hi // rng.choice([2, 3, 4, 7])), 64 * m))
            else:
                ks.append(Fraction(rng.randrange(1, hi), 64 * m))
        yield S, [t0] + ks


def search_sim(ev, extra=()):
    rng = random.Random(7)
    for S, steps in itertools.chain(extra, sim_cases(rng, 3000)):
        r = replay_sim(ev, S, steps)
        if r:
            return r
    return None


# ------------------------------------------------------------------ contracts
def call(ev, h, **kw):
    with npf.facade(ev):
        return h.check_schedule(**kw)


def truth(x):
    """truth value of the result as a z3 term."""
    if isinstance(x, sym.SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def sim_contracts(chk, ev):
    S = sym.Scaled(1)          # the cadence is the (arbitrary positive) unit of time
    delta, f, delta_p = (Real(n) for n in ("delta", "frac", "delta_prev"))
    B = Int("whole")           # t = (whole + frac) * S: any nonnegative time
    tau = B + f
    tau_p = tau - delta_p
    unit = [B.t >= 0, f.t >= 0, f.t < 1]
    Lr, kr, kpr, nr = (z3.Int(n) for n in ("L_rel", "kmax_rel", "kmax_prev_rel", "n_rel"))
    L = B.t + Lr
    # times in units of the cadence: t = tau*S
    R = z3.ToReal
    k = B.t + kr
    kp = B.t + kpr

    def kmax(kv, mid):   # kv = largest integer strictly below mid
        return z3.And(R(kv) < mid, mid < R(kv) + 1)    # no multiple is equally close to two steps
    mid = tau.t + delta.t / 2
    midp = tau_p.t + delta_p.t / 2
    half = z3.RealVal("1/2")

    def near(n, x):
        return z3.And(R(n) - x <= half, x - R(n) <= half)

    def concrete(model):
        def q(v):
            m = model.eval(v, model_completion=True)
            return Fraction(m.numerator_as_long(), m.denominator_as_long()) if z3.is_rational_value(m) else None
        Sv, tp, dp, d = Fraction(1), q(tau_p.t), q(delta_p.t), q(delta.t)
        if None in (Sv, tp, dp, d):
            return []
        return [(Sv, [max(tp, Fraction(0)) * Sv, dp * Sv, d * Sv, d * Sv])]

    @takes_none
    def replay(model=None):
        return search_sim(ev, concrete(model) if model is not None else ())

    def step_body():
        pre = unit + [delta.t > 0, delta.t < 1, tau_p.t >= 0, delta_p.t > 0, delta_p.t < 1,
               L >= -1, kmax(k, mid), kmax(kp, midp)]
        n_prev = B.t + nr
        # invariant after the previous call: every multiple before the midpoint has been dealt with,
        # or nothing has been output yet and the multiple closest to the last time is still ahead
        inv = z3.Or(L == kp, z3.And(L == -1, near(n_prev, tau_p.t), n_prev >= 0, midp <= R(n_prev), kp >= -1))
        pre = pre + [inv]

        def run():
            h = ev.Handler(None, None, sim_dt=S)
            if not hasattr(h, "last_sim_div") or h.last_sim_div != -1:
                raise Unsupported("schedule state not found")
            h.last_sim_div = sym.SymInt(L)
            r = call(ev, h, sim_time=tau * S, timestep=delta * S, iteration=Int("it"), wall_time=Real("w"))
            return r, h.last_sim_div
        paths = sym.explore(run, pre)
        chk.paths += len(paths)
        chk.sat_check("sim cadence step", pre)
        for i, p in enumerate(paths):
            if p.exc is not None:
                chk.obl(f"sim cadence: no exception (path {i})", FN, p.pc, False, replay=replay)
                continue
            r, Lp = p.result
            fires = truth(r)
            nt = z3.Int("n")
            chk.obl(f"sim cadence: fires iff a multiple lies between the midpoints (path {i})", FN, p.pc,
                    fires == (k > kp), replay=replay, observable=False)
            # invariant preserved
            Lt = to_int(Lp)
            n_cur = B.t + z3.Int("n_cur_rel")
            chk.obl(f"sim cadence: the schedule state advances with the midpoint (path {i})", FN,
                    p.pc + [near(n_cur, tau.t), n_cur >= kp + 1] + [z3.Implies(L == -1, n_cur >= 0)],
                    z3.Or(Lt == k, z3.And(Lt == -1, L == -1, midp <= R(kp) + 1, mid <= R(n_cur))),
                    replay=replay, observable=False)
    chk.contract("sim cadence induction step", FN, step_body)

    def base_body():
        pre = unit + [delta.t > 0, delta.t < 1, tau.t >= 0, kmax(k, mid)]
        n = B.t + nr

        def run():
            h = ev.Handler(None, None, sim_dt=S)
            r = call(ev, h, sim_time=tau * S, timestep=delta * S, iteration=0, wall_time=Real("w"))
            return r
        paths = sym.explore(run, pre)
        chk.paths += len(paths)
        chk.sat_check("sim cadence base", pre)
        for i, p in enumerate(paths):
            if p.exc is not None:
                chk.obl(f"sim cadence first call: no exception (path {i})", FN, p.pc, False, replay=replay)
                continue
            # n0: the multiple closest to the starting time (ties excluded by the obligation's premise)
            pc = p.pc + [z3.And(R(n) - tau.t < half, tau.t - R(n) < half)]
            chk.obl(f"sim cadence first call: fires iff no later step is closer to the nearest multiple (path {i})",
                    FN, pc, truth(p.result) == (R(n) < mid), replay=replay)
    chk.contract("sim cadence base", FN, base_body)

    def fresh_depth():
        # the same property over the observable history only (no schedule state named): three calls from fresh
        depth = 3 if not chk.thorough else 4
        ds = [Real(f"d{j}") for j in range(depth)]
        t0 = Real("t0")
        pre = [t0.t >= 0, t0.t <= 0] + [z3.And(d.t > 0, d.t < 1) for d in ds]
        ts = [t0]
        for d in ds[:-1]:
            ts.append(ts[-1] + d)

        def run():
            h = ev.Handler(None, None, sim_dt=S)
            return [call(ev, h, sim_time=t * S, timestep=d * S, iteration=j, wall_time=Real("w")) for j, (t, d) in enumerate(zip(ts, ds))]
        paths = sym.explore(run, pre)
        chk.paths += len(paths)
        for i, p in enumerate(paths):
            if p.exc is not None:
                chk.obl(f"sim cadence, first {depth} steps: no exception (path {i})", FN, p.pc, False, replay=replay)
                continue
            mids = [t.t + d.t / 2 if is_s(t) else to_real(t) + d.t / 2 for t, d in zip(ts, ds)]
            goals = []
            for j, r in enumerate(p.result):
                ks = z3.Int(f"k_{j}")
                lo = z3.Int(f"l_{j}")
                goals.append((kmax(ks, mids[j]), kmax(lo, mids[j - 1]) if j else lo == -1, truth(r) == (ks > lo)))
            for j, (a, b, g) in enumerate(goals):
                chk.obl(f"sim cadence: step {j} from a fresh start outputs iff it is closest to a multiple (path {i})",
                        FN, p.pc + [a, b], g, replay=replay)
    chk.contract("sim cadence from a fresh handler", FN, fresh_depth)


def is_s(t):
    return sym.is_sym(t)


def div_contracts(chk, ev):
    def body(which):
        if which == "wall":
            v, c, attr = Real("wall"), Real("W"), "last_wall_div"
        else:
            v, c, attr = Int("iteration"), Int("N"), "last_iter_div"
        vp = Real("prev") if which == "wall" else Int("prev")
        L = z3.Int("L")
        pre = [c.t > 0, v.t >= vp.t, vp.t >= 0]
        q, qp = z3.Int("q"), z3.Int("qp")
        num = to_real
        for qq, x in ((q, v), (qp, vp)):
            pre.append(z3.And(num(c) * z3.ToReal(qq) <= num(x), num(x) < num(c) * (z3.ToReal(qq) + 1))
                       if which == "wall" else z3.And(c.t * qq <= x.t, x.t < c.t * (qq + 1)))
        pre.append(z3.Or(L == qp, z3.And(L == -1)))

        @takes_none
        def replay(model=None):
            return search_div(ev, which)

        def run():
            h = ev.Handler(None, None, **({"wall_dt": c} if which == "wall" else {"iter": c}))
            if getattr(h, attr, None) != -1:
                raise Unsupported("schedule state not found")
            setattr(h, attr, sym.SymInt(L))
            kw = dict(sim_time=Real("t"), timestep=Real("dt"), iteration=Int("iteration"), wall_time=Real("wall"))
            return call(ev, h, **kw), getattr(h, attr)
        paths = sym.explore(run, pre)
        chk.paths += len(paths)
        chk.sat_check(f"{which} cadence", pre)
        for i, p in enumerate(paths):
            if p.exc is not None:
                chk.obl(f"{which} cadence: no exception (path {i})", FN, p.pc, False, replay=replay)
                continue
            r, Lp = p.result
            chk.obl(f"{which} cadence: fires iff a new interval was entered (path {i})", FN, p.pc,
                    truth(r) == (q > L), replay=replay, observable=False)
            chk.obl(f"{which} cadence: remembers the current interval (path {i})", FN, p.pc,
                    to_real(Lp) == z3.ToReal(q), replay=replay, observable=False)
    for w in ("wall", "iter"):
        chk.contract(f"{w} cadence", FN, lambda w=w: body(w))

    def consecutive():
        # iteration counter advancing by one: fires exactly at multiples
        N, i0 = Int("N"), Int("i0")
        pre = [N.t >= 1, i0.t >= 0]

        @takes_none
        def replay(model=None):
            return search_div(ev, "iter")

        def run():
            h = ev.Handler(None, None, iter=N)
            kw = dict(sim_time=Real("t"), timestep=Real("dt"), wall_time=Real("w"))
            return [call(ev, h, iteration=i0 + j, **kw) for j in range(3)]
        paths = sym.explore(run, pre)
        chk.paths += len(paths)
        for n, p in enumerate(paths):
            if p.exc is not None:
                chk.obl(f"iteration cadence from fresh: no exception (path {n})", FN, p.pc, False, replay=replay)
                continue
            for j, r in enumerate(p.result):
                goal = truth(r) if j == 0 else truth(r) == ((i0.t + j) % N.t == 0)
                chk.obl(f"iteration cadence: call {j} of a run fires iff first or at a multiple (path {n})", FN, p.pc, goal, replay=replay)
    chk.contract("iteration cadence, consecutive iterations", FN, consecutive)


def search_div(ev, which):
    rng = random.Random(3)
    for _ in range(600):
        if which == "iter":
            c = rng.choice([1, 2, 3, 5, 10])
            v = [rng.choice([0, 0, 7, 10, 20])]
            for _ in range(40):
                v.append(v[-1] + rng.choice([1, 1, 1, 2, 7]))
            hist = [dict(iteration=x, sim_time=0.0, timestep=0.1, wall_time=0.0) for x in v]
            got = run_history(ev, hist, iter=c)
        else:
            c = rng.choice([0.25, 0.5, 1.0, 2.0, 7.0])
            v = [rng.choice([0.0, 0.0, 3.5])]
            for _ in range(40):
                v.append(v[-1] + rng.choice([0.0, 0.125, 0.25, 0.5, 1.0, 5.0]))
            hist = [dict(iteration=0, sim_time=0.0, timestep=0.1, wall_time=x) for x in v]
            got = run_history(ev, hist, wall_dt=c)
        exp = expected_div(v, c)
        if exp != got:
            return {"cadence": c, "kind": which, "values": v, "expected": exp, "got": got}
    return None


def combined(chk, ev):
    """Several cadences: the result is the disjunction and every cadence keeps its own schedule."""
    def body():
        S, W, N = Real("S"), Real("W"), Int("N")
        t, dt, w, it = Real("t"), Real("dt"), Real("wall"), Int("iteration")
        pre = [S.t > 0, W.t > 0, N.t > 0, dt.t > 0, t.t >= 0, w.t >= 0, it.t >= 0]
        qw, qi, qs = Int("a"), Int("b"), Int("c")
        cust = Bool("custom")
        kw = dict(iteration=it, wall_time=w, sim_time=t, timestep=dt)
        attrs = ("last_wall_div", "last_sim_div", "last_iter_div")

        @takes_none
        def replay(model=None):
            return search_combined(ev)

        def one(**cad):
            h = ev.Handler(None, None, **cad)
            for a, v in zip(attrs, (qw, qs, qi)):
                if getattr(h, a, None) != -1:
                    raise Unsupported("schedule state not found")
                setattr(h, a, v)
            r = call(ev, h, **kw)
            return truth(r), [to_real(getattr(h, a)) for a in attrs]
        seen = []

        def custom(**k):
            seen.append(k)
            return cust

        def run():
            seen.clear()
            all_ = one(sim_dt=S, wall_dt=W, iter=N, custom_schedule=custom)
            k = list(seen)
            parts = [one(wall_dt=W), one(sim_dt=S), one(iter=N)]
            return all_, parts, k, one(custom_schedule=lambda **k: cust), one()
        paths = sym.explore(run, pre)
        chk.paths += len(paths)
        chk.sat_check("combined cadences", pre)
        for i, p in enumerate(paths):
            if p.exc is not None:
                chk.obl(f"combined cadences: no exception (path {i})", FN, p.pc, False, replay=replay)
                continue
            (r, st), parts, k, only, none = p.result
            chk.obl(f"several cadences fire when any of them does (path {i})", FN, p.pc,
                    r == z3.Or(cust.t, *[q[0] for q in parts]), replay=replay)
            chk.obl(f"every cadence keeps its own schedule (path {i})", FN, p.pc,
                    z3.And(*[st[j] == parts[j][1][j] for j in range(3)]), replay=replay, observable=False)
            chk.obl(f"a custom schedule alone decides (path {i})", FN, p.pc, only[0] == cust.t, replay=replay)
            chk.obl(f"no cadence never fires (path {i})", FN, p.pc, z3.Not(none[0]), replay=replay)
            chk.obl(f"the custom schedule is asked at most once, with the step's counters (path {i})", FN, p.pc,
                    z3.BoolVal(len(k) <= 1 and all(set(q) == set(kw) and all(q[a] is kw[a] for a in kw) for q in k)), replay=replay)
    chk.contract("combined cadences", FN, body)


def search_combined(ev):
    rng = random.Random(11)
    for _ in range(3000):
        S, W, N = Fraction(rng.choice([32, 48, 64]), 64), rng.choice([0.5, 1.0, 3.0]), rng.choice([1, 2, 5, 9])
        n = 30
        t, hist, w = Fraction(0), [], 0.0
        it = rng.choice([0, 0, 13])
        for j in range(n):
            dt = Fraction(rng.randrange(1, int(S * 64)), 64)
            hist.append((t, dt, w, it + j))
            t += dt
            w += rng.choice([0.0, 0.25, 0.5])
        use = [x for x in ("sim", "wall", "iter", "custom") if rng.random() < .6]
        if has_tie([(a, b) for a, b, _, _ in hist], S):
            continue
        exp = [False] * n
        cad = {}
        if "sim" in use:
            cad["sim_dt"] = float(S); exp = [a or b for a, b in zip(exp, expected_sim([(a, b) for a, b, _, _ in hist], S))]
        if "wall" in use:
            cad["wall_dt"] = W; exp = [a or b for a, b in zip(exp, expected_div([x[2] for x in hist], W))]
        if "iter" in use:
            cad["iter"] = N; exp = [a or b for a, b in zip(exp, expected_div([x[3] for x in hist], N))]
        if "custom" in use:
            cad["custom_schedule"] = lambda **k: k["iteration"] % 4 == 1 and k["sim_time"] > 0
            exp = [a or (x[3] % 4 == 1 and x[0] > 0) for a, x in zip(exp, hist)]
        got = run_history(ev, [dict(sim_time=float(a), timestep=float(b), wall_time=c, iteration=d) for a, b, c, d in hist], **cad)
        if got != exp:
            return {"cadences": {k: str(v) for k, v in cad.items()}, "history": [(float(a), float(b), c, d) for a, b, c, d in hist],
                    "expected": exp, "got": got}
    return None


# ------------------------------------------------------------------ scheduled evaluation
def scheduled(chk, ev):
    F2 = "evaluator.Evaluator.evaluate_scheduled"

    class Stub:
        tasks = ()
        group = None

        def __init__(self, flag):
            self.flag = flag
            self.checked = []
            self.processed = []

        def check_schedule(self, **kw):
            self.checked.append(kw)
            return self.flag

        def process(self, **kw):
            self.processed.append(kw)

    class Dist:
        layouts = [0, 1]
        coeff_layout = object()
        grid_layout = object()

    def body():
        import itertools
        for n in range(0, 4):
            flags = [Bool(f"f{j}") for j in range(n)]

            def run():
                e = ev.Evaluator(Dist(), {})
                hs = [e.add_handler(Stub(f)) for f in flags]
                kw = dict(iteration=3, sim_time=0.5, wall_time=1.0, timestep=0.1)
                e.evaluate_scheduled(**kw)
                return hs, kw
            paths = sym.explore(run, [])
            chk.paths += len(paths)
            for i, p in enumerate(paths):
                if p.exc is not None:
                    chk.obl(f"scheduled evaluation of {n} handlers: no exception (path {i})", F2, p.pc, False)
                    continue
                hs, kw = p.result
                for j, h in enumerate(hs):
                    ok_kw = all({k: v for k, v in q.items() if k in kw} == kw for q in h.processed + h.checked)
                    chk.obl(f"{n} handlers: handler {j} is asked once and processed exactly when scheduled (path {i})", F2, p.pc,
                            z3.And(z3.BoolVal(len(h.checked) == 1 and ok_kw),
                                   flags[j].t == z3.BoolVal(len(h.processed) == 1), z3.BoolVal(len(h.processed) <= 1)))
    chk.contract("scheduled evaluation", F2, body)


# ------------------------------------------------------------------ real runs
def real_run(case):
    import numpy as np
    import dedalus.public as d3
    cad, dts, t0, it0 = case
    c = d3.Coordinate("x")
    d = d3.Distributor(c, dtype=np.float64)
    b = d3.RealFourier(c, size=4, bounds=(0, 1))
    u = d.Field(name="u", bases=b)
    p = d3.IVP([u], namespace={"u": u})
    p.add_equation("dt(u) + u = 0")
    s = p.build_solver(d3.SBDF1)
    s.sim_time = s.initial_sim_time = float(t0)
    s.iteration = s.initial_iteration = it0
    cc = dict(cad)
    if "custom" in cc:
        m = cc.pop("custom")
        cc["custom_schedule"] = lambda iteration, wall_time, sim_time, timestep: iteration % m == 1
    h = s.evaluator.add_dictionary_handler(**cc)
    h.add_task(u, name="u")
    log = []
    orig = h.process

    def process(**kw):
        log.append(kw.get("iteration"))
        orig(**kw)
    h.process = process
    hist = []
    t = t0
    for dt in dts:
        hist.append((t, dt))
        s.step(float(dt))
        t += dt
    assert "sim_dt" not in cad or not has_tie(hist, Fraction(cad["sim_dt"]))
    exp = [False] * len(dts)
    its = [it0 + j for j in range(len(dts))]
    if "sim_dt" in cad:
        exp = [a or b for a, b in zip(exp, expected_sim(hist, Fraction(cad["sim_dt"])))]
    if "iter" in cad:
        exp = [a or b for a, b in zip(exp, expected_div(its, cad["iter"]))]
    if "custom" in cad:
        exp = [a or i % cad["custom"] == 1 for a, i in zip(exp, its)]
    want = [i for i, e in zip(its, exp) if e]
    if log != want:
        return {"outputs at iterations": log, "expected": want}


def run(chk):
    import dedalus.core.evaluator as ev
    chk.assume("simulation-time cadence: every timestep is smaller than the cadence (the documented use)")
    chk.assume("np.round rounds to the nearest integer (ties to even)")
    sim_contracts(chk, ev)
    div_contracts(chk, ev)
    combined(chk, ev)
    scheduled(chk, ev)
    rng = random.Random(chk.seed)
    n = 20000 if chk.thorough else 4000
    chk.bounded("simulation cadence on random exact histories", f"{n} histories of <= 30 steps, dyadic times",
                sim_cases(rng, n), lambda c: replay_sim(ev, *c))
    chk.bounded("wall and iteration cadences", "600 histories each", ["wall", "iter"], lambda w: search_div(ev, w))
    chk.bounded("combined cadences", "3000 histories", ["all"], lambda w: search_combined(ev))
    F = Fraction
    cases = [({"iter": 3}, [F(1, 8)] * 10, F(0), 0), ({"iter": 3}, [F(1, 8)] * 10, F(2), 7),
             ({"sim_dt": .5}, [F(7, 64), F(17, 64), F(13, 64), F(3, 64)] * 5, F(0), 0),
             ({"sim_dt": .5, "iter": 7}, [F(3, 16)] * 15, F(5, 8), 2),
             ({"sim_dt": .25, "custom": 5}, [F(5, 64), F(3, 64)] * 8, F(0), 0), ({"custom": 3}, [F(1, 8)] * 8, F(0), 0)]
    chk.bounded("output iterations of a real initial value run", f"{len(cases)} runs", cases, real_run)
