"""Obligations and their discharge (z3 in process; cvc5 and z3-new as other back ends)."""

import os
import subprocess
import tempfile
import time
import z3

from . import sym


class Result:
    __slots__ = ("name", "status", "backend", "seconds", "model", "detail", "pc", "goal")

    def __init__(self, name, status, backend, seconds, model=None, detail="", pc=None, goal=None):
        self.name = name
        self.status = status      # proved | refuted | unknown
        self.backend = backend
        self.seconds = seconds
        self.model = model
        self.detail = detail
        self.pc = pc
        self.goal = goal


def _cvc5(smt2, timeout_s):
    exe = "/usr/local/bin/cvc5"
    import shutil
    exe = shutil.which("cvc5") or exe
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        name = f.name
    try:
        p = subprocess.run([exe, f"--tlimit={int(timeout_s*1000)}", name],
                           capture_output=True, text=True, timeout=timeout_s + 10)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except (OSError, subprocess.TimeoutExpired):
        return "unknown"
    finally:
        os.unlink(name)


def smt2_of(assertions):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    return s.to_smt2()


def prove(name, pc, goal, timeout_s=20, second=False, use_cvc5=True):
    """Decide pc => goal. `second`: confirm with cvc5 as well (thorough tier)."""
    if isinstance(goal, sym.SymBool):
        goal = goal.t
    t0 = time.time()
    if isinstance(goal, bool):
        if goal:
            return Result(name, "proved", "ground", 0.0, pc=pc, goal=goal)
        goal = z3.BoolVal(False)
    s = z3.Solver()
    s.set("timeout", int(timeout_s * 1000))
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        be = "z3"
        if second:
            r2 = _cvc5(s.to_smt2(), timeout_s)
            if r2 == "unsat":
                be = "z3+cvc5"
            elif r2 == "sat":
                return Result(name, "unknown", "z3/cvc5 disagree", time.time() - t0, pc=pc, goal=goal)
        return Result(name, "proved", be, time.time() - t0, pc=pc, goal=goal)
    if r == z3.sat:
        return Result(name, "refuted", "z3", time.time() - t0, s.model(), pc=pc, goal=goal)
    # second attempts
    for tac in ("qfnra-nlsat", "nra"):
        try:
            t = z3.TryFor(z3.Then("simplify", "solve-eqs", tac), int(timeout_s * 500)).solver()
            for p in pc:
                t.add(p)
            t.add(z3.Not(goal))
            r = t.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return Result(name, "proved", "z3:" + tac, time.time() - t0, pc=pc, goal=goal)
        if r == z3.sat:
            return Result(name, "refuted", "z3:" + tac, time.time() - t0, t.model(), pc=pc, goal=goal)
    if use_cvc5:
        r2 = _cvc5(s.to_smt2(), timeout_s)
        if r2 == "unsat":
            return Result(name, "proved", "cvc5", time.time() - t0, pc=pc, goal=goal)
        if r2 == "sat":
            return Result(name, "refuted", "cvc5", time.time() - t0, None, pc=pc, goal=goal)
    return Result(name, "unknown", "z3,cvc5", time.time() - t0, pc=pc, goal=goal)
