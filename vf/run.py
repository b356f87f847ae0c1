"""Check harness: collects obligations and bounded checks, judges, writes evidence."""

import contextlib
import hashlib
import json
import math
import os
import re
import signal
import sys
import time
import traceback

from . import sym, prove as prv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE_ASSUMPTIONS = [
    "Python/numpy floating-point arithmetic is treated as real arithmetic in discharged obligations; "
    "float literals are read as the simplest rational that rounds to them.",
    "CPython executes the functions under contract as called (the verifier runs the real function objects "
    "imported from /repo on this run with symbolic arguments; no text of the code is transcribed).",
]
CORE_TRUSTED = ["z3 (and cvc5 where named)", "vf/sym.py path explorer and symbolic numpy facade vf/npf.py", "CPython"]


def _finite(x):
    """JSON has no NaN or Infinity."""
    if isinstance(x, float) and not math.isfinite(x):
        return str(x)
    if isinstance(x, dict):
        return {str(k): _finite(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_finite(v) for v in x]
    return x


def _names(names, limit=300):
    """Distinct obligation names; long lists are summarized by family (text before the first bracket or digit)."""
    names = sorted(set(names))
    if len(names) <= limit:
        return names
    fam = {}
    for n in names:
        fam.setdefault(re.split(r"[\[(\d]", n)[0].strip()[:80], []).append(n)
    fams = sorted(fam.items(), key=lambda kv: -len(kv[1]))
    return [f"{k} ... ({len(v)} obligations, e.g. {v[0][:100]})" if len(v) > 1 else v[0][:160] for k, v in fams[:limit]]


class Violation(Exception):
    pass


class TimedOut(BaseException):
    pass


@contextlib.contextmanager
def alarm(seconds):
    def handler(signum, frame):
        raise TimedOut()
    old = signal.signal(signal.SIGALRM, handler)
    left = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
    t0 = time.time()
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.setitimer(signal.ITIMER_REAL, max(left - (time.time() - t0), 0.01))


def fmt(x, depth=0):
    """JSON-able rendering of inputs."""
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.size > 64:
                return {"ndarray": list(x.shape), "dtype": str(x.dtype), "head": fmt(x.ravel()[:16].tolist())}
            return fmt(x.tolist())
        if isinstance(x, np.generic):
            return fmt(x.item())
    except Exception:
        pass
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, complex):
        return str(x)
    if isinstance(x, dict):
        return {str(k): fmt(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [fmt(v) for v in x]
    return str(x)


class Check:

    def __init__(self, pid, level="proof"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.results = []         # prv.Result
        self.functions = {}       # function under contract -> list of obligations names
        self.unsupported_ = []    # (contract, reason)
        self.bounded_ = []        # dict(name, bound, evaluations, distinct, failures)
        self.violations = []      # dict
        self.assumptions = list(CORE_ASSUMPTIONS)
        self.trusted = list(CORE_TRUSTED)
        self.notes = []
        self.known = self._load_known()
        self.known_hit = {}
        self.vacuity = 0
        self.paths = 0
        self.timeout = 60 if self.thorough else 10
        self._keys = set()
        self._slow = set()
        self._answers = {}
        self._shared = None       # folder for answers shared by parallel blocks
        self.verbose = os.environ.get("VF_VERBOSE")
        self.samples = []

    # ---------------------------------------------------------------- known findings
    def _load_known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p, encoding="utf8"):
                line = line.strip()
                if line.startswith("known:"):
                    body = line[len("known:"):].strip()
                    head, _, desc = body.partition("::")
                    kv = dict(w.split("=", 1) for w in head.split() if "=" in w)
                    if kv.get("property") == self.pid:
                        out[kv["key"]] = desc.strip()
        return out

    # ---------------------------------------------------------------- obligations
    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def trust(self, text):
        if text not in self.trusted:
            self.trusted.append(text)

    def under(self, func, obligation):
        self.functions.setdefault(func, {})[obligation] = True

    def obl(self, name, func, pc, goal, replay=None, observable=True, key=None, timeout=None):
        """An obligation pc => goal of the contract of `func`."""
        self.under(func, name)
        r = prv.prove(name, pc, goal, timeout_s=timeout or self.timeout, second=self.thorough)
        self.results.append(r)
        if self.verbose:
            print("   ", r.status, r.backend, f"{r.seconds:.2f}s", name)
        if r.status == "refuted":
            self._refuted(name, func, r, replay, observable, key)
        return r.status == "proved"

    def ground(self, name, func, ok, detail=None, backend="exact", replay=None, observable=True, key=None):
        """An obligation already reduced to a ground fact by exact algebra (ok: bool)."""
        self.under(func, name)
        r = prv.Result(name, "proved" if ok else "refuted", backend, 0.0, detail=str(detail or ""))
        self.results.append(r)
        if self.verbose and not ok:
            print("   ", r.status, name, detail)
        if not ok:
            self._refuted(name, func, r, replay, observable, key, detail)
        return ok

    def _refuted(self, name, func, r, replay, observable, key, detail=None):
        found = None
        if replay is not None and getattr(replay, "__code__", replay) not in self._slow:
            try:
              with alarm(60):
                found = self._replayed(replay, r.model) if r.model is not None or _takes_none(replay) else None
            except TimedOut:
                self.notes.append(f"replay of {name}: time limit")
                self._slow.add(getattr(replay, "__code__", replay))   # do not wait for the same replay again
            except sym.Unsupported as e:
                self.notes.append(f"replay of {name}: {e}")
            except Exception as e:   # the replay harness itself failed
                self.notes.append(f"replay of {name} raised {type(e).__name__}: {e}")
        if found:
            self.violation(key or name, {"obligation": name, "function": func, "failing": fmt(found),
                                         "model": str(r.model)[:2000] if r.model is not None else None})
        elif observable:
            self.violation(key or name, {"obligation": name, "function": func,
                                         "verifier_output": f"{r.backend}: {r.status}; model: {str(r.model)[:2000]}; {r.detail}",
                                         "detail": fmt(detail)}, noinput=True)
        else:
            r.status = "unknown"
            r.detail = "refuted for an internal contract without a failing run of the real code: left to the bounded check"

    def _replayed(self, replay, model):
        """Replays that do not look at the counterexample give one answer: run once, shared between processes."""
        name = f"{getattr(replay, '__module__', '')}.{getattr(replay, '__qualname__', '<locals>')}"
        if not _takes_none(replay) or "<locals>" in name:
            return replay(model)
        if self._shared is None:
            if name not in self._answers:
                self._answers[name] = replay(None)
            return self._answers[name]
        path = os.path.join(self._shared, name)
        if os.path.exists(path):
            return json.load(open(path))
        # one process looks, the others wait for its answer
        try:
            os.close(os.open(path + ".lock", os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            t0 = time.time()
            while time.time() - t0 < 58:
                if os.path.exists(path):
                    return json.load(open(path))
                time.sleep(0.2)
            return None
        out = None
        try:
            out = replay(None)
        finally:
            with open(path + ".tmp", "w") as f:
                json.dump(fmt(out) if out else None, f, default=str)
            os.rename(path + ".tmp", path)
        return out

    def unsupported(self, name, func, reason):
        self.unsupported_.append({"contract": name, "function": func, "reason": str(reason)[:500]})
        if self.verbose:
            print("    UNSUPPORTED", name, reason)

    def contract(self, name, func, body):
        """Run a block of proof generation; anything outside the verifier's language is reported
        as undischarged (the bounded stand-in of the property then decides), never as an alarm."""
        try:
            with alarm(300 if self.thorough else 150):
                body()
        except TimedOut:
            self.unsupported(name, func, "time limit of the contract")
        except sym.Unsupported as e:
            self.unsupported(name, func, e)
        except Violation:
            raise
        except Exception as e:
            if os.environ.get("VF_RAISE"):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            loc = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else "?"
            self.unsupported(name, func, f"{type(e).__name__}: {e} at {loc}")

    def parallel(self, thunks, procs=None):
        """Run independent blocks of contracts, each thunk(chk) in a forked process; merge in order.

        A block whose process ends without a result counts as undischarged."""
        procs = procs or min(8, os.cpu_count() or 1)
        thunks = list(thunks)
        if os.environ.get("VF_SERIAL"):
            for t in thunks:
                t(self)
            return
        sys.stdout.flush()
        sys.stderr.flush()
        import shutil
        import tempfile
        self._shared = tempfile.mkdtemp(prefix="vf_shared_")
        try:
            got = self._fork_all(thunks, procs)
        finally:
            shutil.rmtree(self._shared, ignore_errors=True)
            self._shared = None
        self._merge(thunks, got)

    def _fork_all(self, thunks, procs):
        import pickle
        import select
        running, got, todo = {}, {}, list(range(len(thunks)))
        while todo or running:
            while todo and len(running) < procs:
                i = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        self.results, self.functions, self.unsupported_, self.bounded_ = [], {}, [], []
                        self.violations, self.notes, self.samples, self.known_hit = [], [], [], {}
                        self.vacuity = self.paths = 0
                        self.assumptions, self.trusted, self._keys = [], [], set()
                        try:
                            thunks[i](self)
                        except Exception as e:
                            self.unsupported(f"block {i}", self.pid, f"{type(e).__name__}: {e}")
                        out = {k: getattr(self, k) for k in ("functions", "unsupported_", "bounded_", "violations", "notes", "samples",
                                                             "known_hit", "vacuity", "paths", "assumptions", "trusted")}
                        out["results"] = [(r_.name, r_.status, r_.backend, r_.seconds, str(r_.detail)) for r_ in self.results]
                        data = pickle.dumps(json.loads(json.dumps(out, default=str)))
                        sys.stdout.flush()
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (i, pid, [])
            ready, _, _ = select.select(list(running), [], [], 5)
            for r in ready:
                i, pid, parts = running[r]
                piece = os.read(r, 1 << 20)
                if piece:
                    parts.append(piece)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    got[i] = pickle.loads(b"".join(parts))
                except Exception as e:
                    got[i] = None
        return got

    def _merge(self, thunks, got):
        for i in range(len(thunks)):
            o = got.get(i)
            if o is None:
                self.unsupported(f"block {i}", self.pid, "the process of this block ended without a result")
                continue
            for name, status, backend, seconds, detail in o["results"]:
                self.results.append(prv.Result(name, status, backend, seconds, detail=detail))
            for k, v in o["functions"].items():
                for name in v:
                    self.under(k, name)
            for k in ("unsupported_", "bounded_", "notes"):
                getattr(self, k).extend(o[k])
            self.samples.extend(o["samples"][:max(0, 6 - len(self.samples))])
            self.known_hit.update(o["known_hit"])
            self.vacuity += o["vacuity"]
            self.paths += o["paths"]
            for t in o["assumptions"]:
                self.assume(t)
            for t in o["trusted"]:
                self.trust(t)
            for v in o["violations"]:
                if v["key"] not in self._keys:
                    self._keys.add(v["key"])
                    self.violations.append(v)

    def sat_check(self, name, pc):
        """Vacuity: the assumptions of a contract must be satisfiable."""
        import z3
        s = z3.Solver()
        s.set("timeout", 10000)
        for p in pc:
            s.add(p)
        ok = s.check() != z3.unsat
        self.vacuity += 1
        if not ok:
            self.notes.append(f"VACUOUS: {name}")
            self.unsupported(name, name, "vacuous precondition")
        return ok

    # ---------------------------------------------------------------- bounded stand-ins
    def bounded(self, name, bound, cases, test, maxfail=3, key=None, budget=None):
        """Run-time check of the same contract on the real code over an explicit finite set.

        test(case) returns None if the contract holds, else a description of the failure."""
        n = 0
        fails = 0
        distinct = set()
        t0 = time.time()
        truncated = False
        for case in cases:
            if budget and time.time() - t0 > budget:
                truncated = True
                break
            n += 1
            distinct.add(repr(fmt(case))[:400])
            try:
                with alarm(120):
                    bad = test(case)
            except TimedOut:
                bad = {"no result": "the code under test did not return within 120 s"}
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                bad = {"exception": f"{type(e).__name__}: {e}",
                       "at": [f"{os.path.relpath(f.filename, '/')}:{f.lineno}" for f in tb[-4:]]}
            if n <= 2 and len(self.samples) < 6:
                self.samples.append({"check": name, "case": fmt(case)})
            if bad:
                fails += 1
                k = (key(case) if callable(key) else key) or name
                self.violation(k, {"bounded_check": name, "case": fmt(case), "failing": fmt(bad)})
                if fails >= maxfail:
                    break
        self.bounded_.append({"name": name, "bound": bound, "evaluations": n, "distinct": len(distinct),
                              "failures": fails, "seconds": round(time.time() - t0, 2), "truncated": truncated})
        if self.verbose:
            print("    bounded", name, n, "cases", fails, "failures", f"{time.time()-t0:.1f}s")

    # ---------------------------------------------------------------- verdict
    def violation(self, key, payload, noinput=False):
        key = str(key)
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        if key in self._keys:
            return
        self._keys.add(key)
        self.violations.append({"key": key, "noinput": noinput, **payload})

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, old))
        wall = time.time() - self.t0
        n = len(self.results)
        by = {}
        for r in self.results:
            if r.status == "proved":
                by[r.backend] = by.get(r.backend, 0) + 1
        proved = sum(r.status == "proved" for r in self.results)
        undis = [{"obligation": r.name, "status": r.status, "detail": r.detail} for r in self.results if r.status != "proved"]
        cov = {
            "obligations": n + len(self.unsupported_),
            "discharged": proved,
            "checker_cmd": f"./check {self.pid}" + (" --thorough" if self.thorough else ""),
            "trusted_base": self.trusted,
            "discharged_by_backend": by,
            "functions_under_contract": {k: len(v) for k, v in sorted(self.functions.items())},
            "obligation_names": _names([r.name for r in self.results]),
            "solver_seconds": round(sum(r.seconds for r in self.results), 2),
            "undischarged": undis[:40],
            "unsupported": self.unsupported_[:40],
            "vacuity_checks": self.vacuity,
            "paths_explored": self.paths,
            "bounded_stand_ins": self.bounded_,
            "evaluations": sum(b["evaluations"] for b in self.bounded_),
            "distinct_nontrivial": sum(b["distinct"] for b in self.bounded_),
            "rule": "bounded stand-ins only: distinct rendered inputs of the real code; never counted as discharged",
            "samples": self.samples,
            "notes": self.notes[:40],
            "known_findings": sorted(self.known_hit),
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(_finite(ev), f, indent=1, allow_nan=False)
        for k, d in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {d}")
        for u in self.unsupported_:
            print(f"UNDISCHARGED property={self.pid} contract={u['contract']}: {u['reason'][:160]}")
        for u in undis:
            print(f"UNDISCHARGED property={self.pid} obligation={u['obligation']}: {u['status']} {u['detail'][:160]}")
        print(f"{self.pid}: {proved}/{cov['obligations']} obligations discharged {by}, "
              f"{cov['evaluations']} bounded evaluations, {wall:.1f}s")
        if not self.results and not self.unsupported_ and not self.bounded_:
            print("ERROR: nothing was checked")
            return 2
        for i, v in enumerate(sorted(self.violations, key=lambda v: v["noinput"])[:10]):
            h = hashlib.sha1(v["key"].encode()).hexdigest()[:8]
            path = os.path.join(rdir, f"{self.pid}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, **v,
                           "rerun": f"cd {VERIF} && ./check {self.pid}"}, f, indent=1)
            tail = " no-failing-input-found" if v["noinput"] else ""
            print(f"VIOLATION property={self.pid} replay={path}{tail}")
        return 1 if self.violations else 0


def _takes_none(f):
    return getattr(f, "takes_none", False)


def takes_none(f):
    f.takes_none = True
    return f


def main(argv):
    import importlib
    pid = argv[0]
    if "--thorough" in argv:
        os.environ["VERIF_TIER"] = "thorough"
    sys.path.insert(0, VERIF)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module(f"props.{pid.lower()}")
    chk = Check(pid)
    try:
        mod.run(chk)
    except Exception as e:   # the set-up of the check met code it does not understand
        if os.environ.get("VF_RAISE"):
            raise
        traceback.print_exc()
        chk.unsupported("remaining contracts", pid, f"{type(e).__name__}: {e}")
    rc = chk.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    from . import boot
    boot.cleanup()
    os._exit(rc)   # no MPI/atexit noise after the verdict
