"""C01: cached results are the results of the arguments they were asked for.

Contracts (real CachedFunction.__call__, CachedClass.__call__, run on symbolic argument values and a cache of arbitrary content)
  Invariant of a cache: an entry (key, result) is the result of every call that looks that key up.
  Every call form of every signature in a family (named, defaulted, extra positional, keyword-only, extra keywords; values
  symbolic, of any structure) is run for every outcome of its cache lookups:
    - the value returned is a looked-up entry or the function's result for exactly the arguments given;
    - everything stored is that value; (key lemma) a stored key equals a key looked up by a call only if both calls bind
      the same arguments, so storing preserves the invariant.
  Size: with 0 <= max_size and len <= max_size before, len <= max_size after every step, also when the function itself calls
  the cache, and eviction never empties an empty cache.
  CachedMethod.__get__, CachedAttribute.__get__, MultiClass.__call__: all cases of their finite control state are run.
Values are compared as Python does: equal values are the same argument (1 and True)."""

import gc
import itertools
import types

import numpy as np
import z3

from vf import sym
from vf.sym import Int, to_int, Unsupported, ctx

PyV = z3.Datatype("PyV")
PyV.declare("atom", ("id", z3.IntSort()))
PyV.declare("text", ("tid", z3.IntSort()))
PyV.declare("nil")
PyV.declare("cons", ("car", PyV), ("cdr", PyV))
PyV = PyV.create()
_texts, _atoms = {}, {}


def takes(f):
    f.takes_none = True
    return f


class SV:
    """A symbolic argument value (any Python value, possibly a tuple)."""

    def __init__(self, name):
        self.t = z3.Const(name, PyV)

    def __repr__(self):
        return str(self.t)
    __hash__ = None

    def __eq__(self, other):
        if other is self:
            return True
        raise Unsupported("comparison of argument values")

    def __bool__(self):
        raise Unsupported("truth of an argument value")


def enc(v):
    if isinstance(v, SV):
        return v.t
    if isinstance(v, str):
        return PyV.text(_texts.setdefault(v, len(_texts)))
    if isinstance(v, tuple):
        r = PyV.nil
        for x in reversed(v):
            r = PyV.cons(enc(x), r)
        return r
    if v is None or isinstance(v, (int, float, type)):
        return PyV.atom(_atoms.setdefault(v, len(_atoms)))
    raise Unsupported(f"key made of a {type(v).__name__}")


class Hit:
    def __init__(self, key):
        self.key = key


class FakeCache:
    """A mapping of arbitrary content: each lookup may hit or miss (outcomes enumerated)."""

    def __init__(self, pattern, weak=False):
        self.pattern, self.used, self.weak = pattern, 0, weak
        self.lookups, self.stores, self.here = [], [], []

    def _outcome(self, key):
        for k, v in reversed(self.stores):
            if k is key:
                return v
        self.lookups.append(key)
        n = self.used
        self.used += 1
        if n >= len(self.pattern):
            raise NeedMore()
        return Hit(key) if self.pattern[n] else None

    def __getitem__(self, key):
        v = self._outcome(key)
        if v is None:
            raise KeyError(key)
        return v

    def get(self, key, default=None):
        v = self._outcome(key)
        return default if v is None else v

    def __contains__(self, key):
        return self._outcome(key) is not None

    def setdefault(self, key, value):
        v = self._outcome(key)
        if v is not None:
            return v
        self[key] = value
        return value

    def __setitem__(self, key, value):
        self.stores.append((key, value))

    def __len__(self):
        return 0

    def __bool__(self):
        return True

    def move_to_end(self, key, last=True):
        pass

    def pop(self, *a):
        raise Unsupported("cache.pop")

    def popitem(self, *a, **k):
        raise Unsupported("eviction without a bound")


class NeedMore(Exception):
    pass


def outcomes(run):
    """All outcomes of the lookups made."""
    todo = [()]
    while todo:
        pat = todo.pop()
        try:
            yield pat, run(pat)
        except NeedMore:
            if len(pat) > 6:
                raise Unsupported("more than six lookups")
            todo += [pat + (True,), pat + (False,)]


# --------------------------------------------------------------------------------------------- signatures and call forms

def signatures(thorough):
    for n in range(0, 4 if thorough else 3):
        for d in range(n + 1):
            for var, kwo, kw in itertools.product((0, 1), (0, 1), (0, 1)):
                if n >= 2 and var + kwo + kw > 1 and not thorough:
                    continue
                yield n, d, var, kwo, kw
    if not thorough:
        yield 3, 1, 0, 0, 0
        yield 4, 2, 0, 0, 0


def make_function(sig, method=False):
    n, d, var, kwo, kw = sig
    ns = {f"d{i}": SV(f"default{i}") for i in range(n)}
    ns["dk"] = SV("default_k")
    pars = [f"a{i}" + (f"=d{i}" if i >= n - d else "") for i in range(n)]
    if var:
        pars.append("*rest")
    elif kwo:
        pars.append("*")
    if kwo:
        pars.append("k=dk")
    if kw:
        pars.append("**more")
    body = "return sink((" + "".join(f"a{i}, " for i in range(n)) + ("rest, " if var else "") + ("k, " if kwo else "") + ("tuple(sorted(more.items())), " if kw else "") + "))"
    head = "def f(" + ", ".join((["self"] if method else []) + pars) + f"):\n    {body}\n"
    exec(head, ns)
    return ns["f"], ns


def forms(sig):
    """(number of positional values, keywords in order) including calls the function rejects."""
    n, d, var, kwo, kw = sig
    for p in range(0, n + 1 + (2 if var else 1)):
        rest = [f"a{i}" for i in range(p, n)]
        extra = ["k"] if kwo else []
        extra += ["zz"]
        if p:
            extra.append("a0")
        pool = rest + extra
        for r in range(0, min(len(pool), 3) + 1):
            for names in itertools.combinations(pool, r):
                yield p, names
                if r == 2:
                    yield p, names[::-1]


def bound_value(f, args, kw, seen):
    seen.clear()
    try:
        f(*args, **kw)
    except TypeError:
        return None
    return seen[0]


def named(msg):
    return "call with " + msg


def function_obligations(chk, cache, sig):
    func = "cache.CachedFunction.__call__"
    rep = takes(lambda m=None: history_search(sig))
    f, ns = make_function(sig)
    seen = []
    ns["sink"] = lambda b: (seen.append(b), Hit("computed"))[1]
    looked, stored = [], []            # (key term, bound term)

    def body():
        ok = True
        for q, (p, names) in enumerate(forms(sig)):
            args = tuple(SV(f"x{q}_{i}") for i in range(p))
            kw = {nm: SV(f"k{q}_{nm}") for nm in names}
            want = bound_value(f, args, kw, seen)
            label = f"{p} positional and keywords {names}"

            def run(pat):
                seen.clear()
                cf = cache.CachedFunction(f)
                cf.cache = FakeCache(pat)
                try:
                    out = cf(*args, **kw)
                except (TypeError, KeyError) as e:
                    out = e
                return out, cf.cache, list(seen)
            for pat, (out, c, calls) in outcomes(run):
                chk.paths += 1
                b = enc(want) if want is not None else PyV.cons(PyV.text(-1 - q), PyV.nil)
                looked.extend((enc(k), b, want is None) for k in c.lookups)
                if want is None:
                    if not (isinstance(out, Exception) or isinstance(out, Hit) and out.key != "computed"):
                        ok = ("a rejected call returned", label, pat)
                    if c.stores and not isinstance(out, Hit):
                        ok = ("a rejected call is stored", label, pat)
                    continue
                if isinstance(out, Exception) or not isinstance(out, Hit):
                    ok = (f"{type(out).__name__}", label, pat)
                    continue
                if out.key == "computed":
                    if len(calls) != 1 or any(not z3.eq(z3.simplify(enc(x)), z3.simplify(enc(y))) for x, y in zip(calls[0], want)):
                        ok = ("function called with other arguments", label, pat)
                elif calls:
                    ok = ("function called although the entry is returned", label, pat) if False else ok
                for k, v in c.stores:
                    if v is not out:
                        ok = ("stored value is not the value returned", label, pat)
                    stored.append((enc(k), b))
        chk.ground(f"{sig_text(sig)}: returns and stores an entry of its own keys or the computed value", func, ok is True, str(ok), replay=rep, observable=False)
        uniq = lambda L: list({tuple(x.get_id() if z3.is_expr(x) else x for x in e): e for e in L}.values())
        goals = []
        for k1, b1 in uniq(stored):
            for k2, b2, bad in uniq(looked):
                eq = z3.simplify(k1 == k2)
                if z3.is_false(eq):
                    continue
                goals.append(z3.Implies(eq, z3.BoolVal(False) if bad else b1 == b2))
        chk.obl(f"{sig_text(sig)}: a stored key is looked up only by calls binding the same arguments", func, [], z3.And(goals) if goals else z3.BoolVal(True), replay=rep, observable=False)
    chk.contract(f"{sig_text(sig)}", func, body)


def sig_text(sig):
    n, d, var, kwo, kw = sig
    return f"signature with {n} names, {d} defaults" + (", *rest" if var else "") + (", keyword-only" if kwo else "") + (", **more" if kw else "")


# ------------------------------------------------------------------------------------------------------------- bound

class SizedCache:
    def __init__(self, n):
        self.n = n

    def __getitem__(self, key):
        raise KeyError(key) if bool(sym.SymBool(z3.Bool(ctx().fresh("miss")))) else Found

    def get(self, key, default=None):
        try:
            return self[key]
        except BaseException:
            return default

    def __len__(self):
        raise Unsupported("len outside the facade")

    def __bool__(self):
        return bool(self.n > 0)

    def popitem(self, last=True):
        ctx().require("eviction from a nonempty cache", to_int(self.n) > 0)
        self.n = self.n - 1

    def __setitem__(self, key, value):
        new = bool(sym.SymBool(z3.Bool(ctx().fresh("new_key"))))
        if new:
            self.n = self.n + 1
        ctx().require("size stays within the bound", to_int(self.n) <= self.limit.t)

    def move_to_end(self, *a, **k):
        pass


class Found(Exception):
    pass


def bound_obligations(chk, cache):
    func = "cache.CachedFunction.__call__"
    rep = takes(lambda m=None: bound_search())
    L = Int("max_size")

    def run(found):
        def go():
            n0 = Int("entries")
            c = SizedCache(n0)
            c.limit = L
            pats = iter(found)

            def lookup(key):
                if next(pats):
                    return "entry"
                raise KeyError(key)
            c.__class__ = type("C", (SizedCache,), {"__getitem__": lambda s, k: lookup(k), "get": lambda s, k, d=None: _get(lookup, k, d), "__contains__": lambda s, k: _get(lookup, k, None) is not None})

            def f(a):
                m = Int(ctx().fresh("entries_after_the_call"))
                ctx().assume(m.t >= 0)
                ctx().assume(m.t <= L.t)
                c.n = m
                return 1
            cf = cache.CachedFunction(f)
            cf.cache, cf.max_size = c, L
            from vf import npf
            with npf.facade(cache, extra={"len": lambda x: x.n if isinstance(x, SizedCache) else len(x)}):
                cf(SV("a"))
            return c.n
        return go

    def body():
        n0 = z3.Int("entries")
        pre = [L.t >= 0, n0 >= 0, n0 <= L.t]
        for found in ((False,) * 6, (True,) * 6, (False, True, False, True), (False, False, True)):
            for n, p in enumerate(sym.explore(run(found), pre)):
                chk.paths += 1
                t = f"bounded cache, lookups {['miss', 'hit'][found[0]]}/{['miss', 'hit'][found[1]]} (path {n})"
                for nm, pc, goal in p.ctx.side:
                    chk.obl(f"{t}: {nm}", func, pc, goal, replay=rep, observable=False)
                if p.exc is not None:
                    chk.obl(f"{t}: no exception ({type(p.exc).__name__}: {p.exc})", func, p.pc, False, replay=rep, observable=False)
                    continue
                chk.obl(f"{t}: size within the bound", func, p.pc, to_int(p.result) <= L.t, replay=rep, observable=False)
    chk.contract("bounded cache", func, body)


def _get(lookup, k, d):
    try:
        return lookup(k)
    except KeyError:
        return d


# ----------------------------------------------------------------------------------------------------------- classes

def class_obligations(chk, cache, sig):
    """CachedClass.__call__: instances are found under the arguments their constructor received."""
    func = "cache.CachedClass.__call__"
    n, d, var, kwo, kw = sig
    rep = takes(lambda m=None: class_search(sig) or collected_between_lookups(0))
    init, ns = make_function(sig, method=True)
    seen = []
    ns["sink"] = lambda b: seen.append(b)

    def body():
        ok = True
        looked, stored = [], []
        for q, (p, names) in enumerate(forms(sig)):
            args = tuple(SV(f"x{q}_{i}") for i in range(p))
            kws = {nm: SV(f"k{q}_{nm}") for nm in names}
            T = cache.CachedClass("T", (), {"__init__": init})
            want = bound_value(lambda *a, **k: init(None, *a, **k), args, kws, seen)
            label = f"{p} positional and keywords {names}"

            def run(pat):
                seen.clear()
                T._instance_cache = FakeCache(pat, weak=True)
                try:
                    out = T(*args, **kws)
                except TypeError as e:
                    out = e
                except KeyError as e:
                    out = e
                return out, T._instance_cache, list(seen)
            for pat, (out, c, calls) in outcomes(run):
                chk.paths += 1
                if want is None:
                    if not isinstance(out, TypeError):
                        ok = ("a rejected call returned", label, pat)
                    continue
                b = enc(want)
                looked.extend((enc(k), b) for k in c.lookups)
                if isinstance(out, Exception):
                    # weak entries may be collected between two lookups
                    ok = (f"{type(out).__name__}: an instance collected between two lookups", label, pat)
                    continue
                if isinstance(out, Hit):
                    if out.key not in [k for k in c.lookups if k is out.key] and not any(k is out.key for k in c.lookups):
                        ok = ("another entry returned", label, pat)
                    continue
                if type(out) is not T or len(calls) != 1 or not z3.eq(z3.simplify(enc(calls[0])), z3.simplify(b)):
                    ok = ("constructed with other arguments", label, pat)
                if [v for k, v in c.stores if v is not out] or not c.stores:
                    ok = ("another instance stored", label, pat)
                stored.extend((enc(k), b) for k, v in c.stores)
        chk.ground(f"class with {sig_text(sig)}: found or built from its own arguments", func, ok is True, str(ok), replay=rep, observable=False)
        goals = [z3.Implies(k1 == k2, b1 == b2) for k1, b1 in stored for k2, b2 in looked if not z3.is_false(z3.simplify(k1 == k2))]
        chk.obl(f"class with {sig_text(sig)}: a stored key is looked up only with the same arguments", func, [], z3.And(goals) if goals else z3.BoolVal(True), replay=rep, observable=False)
    chk.contract(f"class with {sig_text(sig)}", func, body)


# ----------------------------------------------------------------------------------------------------------- bounded

POOL = [0, 1, "direct", "resolved", "a0", None, (), (1,), ((1,), ()), ((), ()), ((0,), ()), ((1,), (("a1", 0),)), (0, 1), ("k", 1), ((("k", 1),),)]


def concrete(sig, log):
    f, ns = make_function(sig)
    ns["sink"] = lambda b: b
    for i in range(sig[0]):
        pass
    f.__defaults__ = tuple(POOL[:sig[1]][::-1]) if sig[1] else None
    if sig[3]:
        f.__kwdefaults__ = {"k": 7}
    return f


def random_history(sig, seed, max_size=np.inf, length=60):
    from dedalus.tools import cache
    rng = np.random.default_rng(seed)
    f = concrete(sig, None)
    depth = []

    def g(*a, **k):
        return f(*a, **k)
    import functools
    g = functools.wraps(f)(g)
    cf = cache.CachedFunction(f) if max_size == np.inf else cache.CachedFunction(max_size=max_size)(f)
    n, d, var, kwo, kw = sig
    allf = [x for x in forms(sig)]
    past = []
    for t in range(length):
        p, names = allf[rng.integers(len(allf))]
        pool = [POOL[i] for i in rng.integers(len(POOL), size=3)]
        args = tuple(pool[i] for i in rng.integers(3, size=p))
        kws = {nm: pool[rng.integers(3)] for nm in names}
        if past and rng.random() < 0.3:
            # ask for the key material of an earlier call
            a0, k0 = past[rng.integers(len(past))]
            args = ((a0, tuple(k0.items())) if rng.random() < 0.5 else ("direct", a0, tuple(k0.items())))
            kws = {}
        def call(h):
            try:
                return ("value", h(*args, **kws))
            except TypeError:
                return ("rejected", None)
            except KeyError:
                return ("rejected", None)
        want, got = call(f), call(cf)
        past.append((args, kws))
        if got != want:
            return {"signature": sig_text(sig), "earlier calls": past[:-1], "call": [args, kws], "cached": got, "uncached": want}
        if len(cf.cache) > max_size:
            return {"signature": sig_text(sig), "max_size": max_size, "entries": len(cf.cache), "calls": past}
    return None


def history_search(sig):
    for seed in range(60):
        bad = random_history(sig, seed)
        if bad:
            return bad


def bound_search():
    from dedalus.tools import cache
    for m in (0, 1, 2, 3, 5):
        cf = cache.CachedFunction(lambda a, b=0: (a, b), max_size=m)
        for t in range(40):
            args, kw = ((t % 7,), {}) if t % 3 else ((), {"a": t % 5, "b": t % 2})
            try:
                got = cf(*args, **kw)
            except Exception as e:
                return {"max_size": m, "call": [args, kw], "exception": f"{type(e).__name__}: {e}"}
            if got != (kw.get("a", t % 7), kw.get("b", 0)) and got != (kw["a"], kw["b"]):
                return {"max_size": m, "call": [args, kw], "got": got}
            if len(cf.cache) > m:
                return {"max_size": m, "entries": len(cf.cache), "after calls": t + 1}
    # a function that calls its own cache
    for m in (1, 2, 3, 4):
        from dedalus.tools.cache import CachedFunction

        @CachedFunction(max_size=m)
        def fib(n):
            return n if n < 2 else fib(n - 1) + fib(n - 2)
        if fib(12) != 144 or len(fib.cache) > m:
            return {"max_size": m, "entries": len(fib.cache), "function": "recursive"}
    return None


def class_search(sig):
    from dedalus.tools import cache
    n, d, var, kwo, kw = sig
    init, ns = make_function(sig, method=True)
    init.__defaults__ = tuple(POOL[:d][::-1]) if d else None

    class Plain:
        pass
    T = cache.CachedClass("T", (Plain,), {"__init__": init})
    U = cache.CachedClass("U", (T,), {})
    current = []
    ns["sink"] = current.append
    keep = []
    rng = np.random.default_rng(1)
    allf = list(forms(sig))
    for t in range(300):
        p, names = allf[rng.integers(len(allf))]
        args = tuple(POOL[i] for i in rng.integers(6, size=p))
        kws = {nm: POOL[rng.integers(6)] for nm in names}
        want = bound_value(lambda *a, **k: init(None, *a, **k), args, kws, current)
        cls = (T, U)[rng.integers(2)]
        try:
            current.clear()
            obj = cls(*args, **kws)
        except TypeError:
            if want is None:
                continue
            return {"class": sig_text(sig), "call": [args, kws], "exception": "TypeError"}
        if want is None:
            return {"class": sig_text(sig), "call": [args, kws], "violates": "rejected arguments"}
        if current:
            obj.made = current[0]
        if type(obj) is not cls or obj.made != want:
            return {"class": sig_text(sig), "call": [args, kws], "got": [type(obj).__name__, obj.made], "arguments": want}
        if t % 5:
            keep.append(obj)
    return None


def instance_histories(case):
    """Cached methods and attributes of a class, a subclass and several instances, in every order, against uncached methods."""
    from dedalus.tools.cache import CachedMethod, CachedAttribute
    over, length, seed = case

    def build(cm, ca):
        class A:
            def __init__(self, n):
                self.n = n

            def __eq__(self, other):
                return isinstance(other, A)

            def __hash__(self):
                return 0

            @cm
            def m(self, x, y=1):
                return ("A.m", self.n, x, y)

            @cm
            def other(self, x):
                return ("A.other", self.n, x, self.m(x))

            @ca
            def at(self):
                return ("A.at", self.n)
        if over == "cached":
            class B(A):
                @cm
                def m(self, x, y=1):
                    return ("B.m", self.n, x, y, super().m(x), super().m(y=x, x=y))

                @ca
                def at(self):
                    return ("B.at", self.n, super().at)
        elif over == "plain":
            class B(A):
                def m(self, x, y=1):
                    return ("B.m", self.n, x, y, super().m(x, y=y))

                @property
                def at(self):
                    return ("B.at", self.n)
        elif over == "grand":
            class M(A):
                @cm
                def m(self, x, y=1):
                    return ("M.m", self.n, super().m(y, x))

            class B(M):
                @cm
                def m(self, x, y=1):
                    return ("B.m", self.n, super().m(x, y), super(M, self).m(x))
        else:
            class B(A):
                pass
        return A, B
    plain = build(lambda f: f, property)
    cached = build(CachedMethod, CachedAttribute)
    rng = np.random.default_rng(seed)
    objs = [(plain[i](n), cached[i](n)) for n, i in enumerate((0, 1, 0, 1))]
    ops = [("m", (0,), {}), ("m", (1,), {}), ("m", (0, 1), {}), ("m", (1, 0), {}), ("m", (), {"x": 0}), ("m", (), {"y": 0, "x": 1}), ("other", (1,), {}), ("at", None, None)]
    hist = []
    for t in range(length):
        o, (nm, a, k) = rng.integers(4), ops[rng.integers(len(ops))]
        p, c = objs[o]
        hist.append((int(o), nm, a, k))
        if nm == "at":
            want, got = p.at, c.at
        else:
            want, got = getattr(p, nm)(*a, **k), getattr(c, nm)(*a, **k)
        if want != got:
            return {"subclass": over, "calls": hist, "cached": got, "uncached": want}
    return None


def collected_between_lookups(case):
    """Instances in reference cycles with the collector running at every allocation."""
    from dedalus.tools.cache import CachedClass

    class T(metaclass=CachedClass):
        def __init__(self, n):
            self.n, self.me = n, self

    class Key:
        """The collector runs at a chosen lookup, as it may at any allocation."""
        count, at = 0, 0

        def __hash__(self):
            Key.count += 1
            if Key.count == Key.at:
                gc.collect()
            return 5
    k = Key()
    for at in range(1, 9):
        gc.disable()
        try:
            Key.count, Key.at = 0, 0
            T(k)
            Key.count, Key.at = 0, at
            o = T(k)
            if type(o) is not T or o.n is not k:
                return {"violates": "a call returns the instance of its arguments", "collected at lookup": at}
            del o
        except KeyError as e:
            return {"violates": "a call returns an instance", "exception": "KeyError", "instance collected at lookup number": at}
        finally:
            gc.enable()
            gc.collect()
    return None


def dispatch_cases(chk):
    """MultiClass.__call__ for every pattern of up to four subclasses."""
    from dedalus.tools.dispatch import MultiClass, CachedMultiClass
    from dedalus.tools.exceptions import SkipDispatchException
    func = "dispatch.MultiClass.__call__"

    def body():
        for meta in (MultiClass, CachedMultiClass):
            for n in range(0, 5):
                for pattern in itertools.product(("yes", "no", "stop-yes"), repeat=n):
                    made = []

                    def check(v):
                        return classmethod(lambda cls, *a, **k: v and a == (1,) and k == {"y": 3})
                    Base = meta("Base", (), {"_check_args": check(True), "__init__": lambda self, *a, **k: made.append((a, k)) if meta is MultiClass else None,
                                             "_preprocess_args": classmethod(lambda cls, *a, **k: ((1,), {"y": 3}))}) if meta is MultiClass else \
                        meta("Base", (), {"_check_args": classmethod(lambda cls, x, y: True), "__init__": lambda self, x, y: made.append(((x,), {"y": y}))})
                    subs = []
                    for i, v in enumerate(pattern):
                        d = {"_check_args": check(v != "no") if meta is MultiClass else classmethod(lambda cls, x, y, v=v: v != "no" and (x, y) == (1, 3))}
                        if v == "stop-yes":
                            d["stop_dispatch"] = True
                        subs.append(meta(f"S{i}", (Base,), d))
                    active = [s for s, v in zip(subs, pattern) if v != "stop-yes"]
                    passing = [s for s, v in zip(subs, pattern) if v == "yes"]
                    try:
                        out = Base(1, y=3)
                        got = type(out)
                    except (NotImplementedError, ValueError) as e:
                        got = type(e)
                    want = Base if not active else passing[0] if len(passing) == 1 else NotImplementedError if not passing else ValueError
                    ok = got is want and (not isinstance(want, meta) or made == [((1,), {"y": 3})])
                    if not ok:
                        chk.ground(f"{meta.__name__}: dispatch among subclasses {pattern}", func, False, f"got {got}, one passing subclass expected: {want}", replay=takes(lambda m=None, x=(pattern, str(got), str(want)): {"subclasses": x[0], "instance of": x[1], "expected": x[2]}))
            chk.ground(f"{meta.__name__}: the only subclass whose check passes is instantiated", func, True, "all patterns of up to four subclasses")

        class Skip(metaclass=MultiClass):
            @classmethod
            def _preprocess_args(cls, *a, **k):
                raise SkipDispatchException(output=a[0])
        chk.ground("skipped dispatch returns the given output", func, Skip(5) == 5, "", replay=takes(lambda m=None: {"got": Skip(5)} if Skip(5) != 5 else None))
    chk.contract("dispatch", func, body)


def basis_histories(case):
    """Cached bases and domains: the attributes of an instance are the arguments it was asked for."""
    import dedalus.public as d3
    kind, seed = case
    rng = np.random.default_rng(seed)
    pick = lambda *o: o[rng.integers(len(o))]
    cs = {"x": d3.Coordinate("x"), "y": d3.Coordinate("y"), "polar": d3.PolarCoordinates("p", "r"), "polar2": d3.PolarCoordinates("p", "s"),
          "s2": d3.S2Coordinates("p", "t"), "sph": d3.SphericalCoordinates("p", "t", "r")}
    keep = []
    for t in range(60):
        f8 = np.float64, np.complex128
        if kind == "line":
            c = cs[pick("x", "y")]
            size, bounds, dealias = pick(4, 6, 8), pick((0, 1), (0, 2), (-1, 1), (0.0, 1.0)), pick(1, 1.5, (2,), (1.5,))
            cls, extra = pick((d3.RealFourier, {}), (d3.ComplexFourier, {}), (d3.Jacobi, dict(a=pick(0, -0.5, 1), b=pick(0, -0.5, 1))))
            lib = pick(None, "matrix")
            if cls is d3.Jacobi:
                extra["a0"], extra["b0"] = pick((0, 0), (-0.5, -0.5)) if min(extra.values()) >= 0 and float(extra["a"]).is_integer() and float(extra["b"]).is_integer() and False else (extra["a"], extra["b"])
            args = dict(coord=c, size=size, bounds=bounds, dealias=dealias, library=lib, **extra)
            if rng.random() < 0.5:
                b = cls(args.pop("coord"), args.pop("size"), **args)
            else:
                b = cls(**args)
            want = {"coord": c, "size": size, "bounds": tuple(bounds), "dealias": dealias if isinstance(dealias, tuple) else (dealias,)}
            want.update({k: extra[k] for k in ("a", "b", "a0", "b0") if k in extra})
            if lib:
                want["library"] = lib
        else:
            c = cs[pick("polar", "polar2")] if kind in ("disk", "annulus") else cs["s2"] if kind == "sphere" else cs["sph"]
            dt = pick(*f8)
            shape = (pick(4, 8), pick(4, 6)) + (() if kind in ("disk", "annulus", "sphere") else (pick(3, 5),))
            dl = pick(1, 1.5, (1,) * len(shape), (1.5, 1) + ((2,) if len(shape) == 3 else ()))
            rad = pick((1, 2), (1.0, 2.0), (0.5, 1))
            r = pick(1, 1.0, 2, 0.5)
            cls = {"disk": d3.DiskBasis, "annulus": d3.AnnulusBasis, "sphere": d3.SphereBasis, "ball": d3.BallBasis, "shell": d3.ShellBasis}[kind]
            kws = {"dealias": dl}
            if kind in ("annulus", "shell"):
                kws["radii"] = rad
            else:
                kws["radius"] = r
            if kind != "sphere":
                kws["k"] = pick(0, 1)
            if kind in ("disk", "ball"):
                kws["alpha"] = pick(0, 1)
            elif kind in ("annulus", "shell"):
                kws["alpha"] = pick((-0.5, -0.5), (0, 0))
            b = cls(c, shape, dt, **kws) if rng.random() < 0.5 else cls(dtype=dt, shape=list(shape), coordsys=c, **kws)
            want = {"coordsys": c, "shape": shape, "dtype": dt, "dealias": dl if isinstance(dl, tuple) else (dl,) * len(shape), **{k: v for k, v in kws.items() if k != "dealias"}}
        keep.append(b)
        if type(b) is not cls:
            return {"class": cls.__name__, "got": type(b).__name__}
        for k, v in want.items():
            g = getattr(b, k)
            if k in ("coord", "coordsys"):
                if g is not v:
                    return {"basis": cls.__name__, "argument": k, "violates": "the instance has another coordinate system"}
            elif not (g == v or np.all(np.asarray(g, dtype=object) == np.asarray(v, dtype=object))):
                return {"basis": cls.__name__, "argument": k, "asked": str(v), "got": str(g)}
    return None


def same(a, b, depth=0):
    """Whether a recomputed result equals the cached one (None: not comparable)."""
    from scipy import sparse
    if a is b:
        return True
    if sparse.issparse(a) or sparse.issparse(b):
        if not (sparse.issparse(a) and sparse.issparse(b)) or a.shape != b.shape:
            return False
        return bool(abs((a - b)).max() <= 1e-12 * max(1, abs(a).max())) if min(a.shape) else True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.ma.isMaskedArray(a) or np.ma.isMaskedArray(b):
            if not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
                return False
            a, b = np.ma.filled(a, 0), np.ma.filled(b, 0)
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return None
        return bool(np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True))
    if isinstance(a, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        r = [same(x, y, depth + 1) for x, y in zip(a, b)] if depth < 6 else []
        return False if False in r else None if None in r else True
    if isinstance(a, dict):
        if type(a) is not type(b) or list(a) != list(b):
            return False
        r = [same(a[k], b[k], depth + 1) for k in a] if depth < 6 else []
        return False if False in r else None if None in r else True
    if isinstance(a, (int, float, complex, str, bool, slice, type(None), np.generic, np.dtype)):
        return bool(a == b) or bool(a != a and b != b)
    return None if type(a) is type(b) else False


def scenario(name):
    import dedalus.public as d3
    f8, c16 = np.float64, np.complex128
    if name == "line":
        cs = d3.CartesianCoordinates("x", "z")
        dist = d3.Distributor(cs, dtype=f8)
        bx, bz = d3.RealFourier(cs["x"], 8, (0, 2), dealias=1.5), d3.ChebyshevT(cs["z"], 6, (0, 1), dealias=1.5)
        u, t1, t2 = dist.Field(bases=(bx, bz)), dist.Field(bases=bx), dist.Field(bases=bx)
        z, = dist.local_grids(bz)
        ncc = dist.Field(bases=bz)
        ncc["g"] = 1 + z**2
        p = d3.IVP([u, t1, t2], namespace=locals())
        lift = lambda A, n: d3.Lift(A, bz.derivative_basis(2), n)
        p.namespace["lift"] = lift
        p.add_equation("dt(u) - ncc*lap(u) + lift(t1,-1) + lift(t2,-2) = u*u - ncc*u")
        p.add_equation("u(z=0) = 0")
        p.add_equation("u(z=1) = 0")
        s = p.build_solver(d3.RK222)
    else:
        if name in ("disk", "annulus"):
            cs = d3.PolarCoordinates("phi", "r")
            dist = d3.Distributor(cs, dtype=f8)
            b = d3.DiskBasis(cs, (8, 6), f8, dealias=1.5) if name == "disk" else d3.AnnulusBasis(cs, (8, 6), f8, radii=(1, 2), dealias=1.5)
        elif name == "sphere":
            cs = d3.S2Coordinates("phi", "theta")
            dist = d3.Distributor(cs, dtype=c16)
            b = d3.SphereBasis(cs, (8, 6), c16, dealias=1.5)
        else:
            cs = d3.SphericalCoordinates("phi", "theta", "r")
            dist = d3.Distributor(cs, dtype=f8)
            b = d3.BallBasis(cs, (8, 6, 5), f8, dealias=1.5) if name == "ball" else d3.ShellBasis(cs, (8, 6, 5), f8, radii=(1, 2), dealias=1.5)
        u = dist.VectorField(cs, bases=b)
        if name == "sphere":
            p = d3.IVP([u], namespace=locals())
            p.add_equation("dt(u) - lap(u) = - u@grad(u)")
        else:
            edges = [getattr(b, e) for e in {"disk": ["edge"], "ball": ["surface"], "shell": ["inner_surface", "outer_surface"], "annulus": ["inner_edge", "outer_edge"]}[name]]
            taus = [dist.VectorField(cs, bases=e) for e in edges]
            ns = {f"t{i}": t for i, t in enumerate(taus)}
            ns.update(u=u, lift=lambda A, n: d3.Lift(A, b.derivative_basis(2) if len(edges) == 2 else b, n), np=np)
            p = d3.IVP([u] + taus, namespace=ns)
            p.add_equation("dt(u) - lap(u) + " + " + ".join(f"lift(t{i},{-1-i})" for i in range(len(edges))) + " = - u@grad(u)")
            for r in ([1] if len(edges) == 1 else [1, 2]):
                p.add_equation(f"u(r={r}) = 0")
        s = p.build_solver(d3.SBDF2)
    u.fill_random("g", seed=3)
    u.low_pass_filter(scales=0.5)
    u["g"] *= 1e-2
    for i in range(3):
        s.step(1e-3)
    for sc in (1, 1.5):
        u.change_scales(sc)
        u["g"], u["c"]
    return s


def audit(name):
    """Every cached result of a solver run, recomputed afterwards with the arguments it was asked for, is still that result."""
    from dedalus.tools import cache
    rec, seen = [], set()
    call0, get0 = cache.CachedFunction.__call__, cache.CachedAttribute.__get__

    def call(self, *args, **kw):
        out = call0(self, *args, **kw)
        k = (id(self), tuple(id(a) for a in args), tuple((n, id(v)) for n, v in kw.items()))
        if k not in seen:
            seen.add(k)
            rec.append((self.__name__, self.function, args, kw, out))
        return out

    def get(self, instance, owner):
        out = get0(self, instance, owner)
        if instance is not None:
            rec.append((self.__name__, self.method, (instance,), {}, out))
        return out
    cache.CachedFunction.__call__, cache.CachedAttribute.__get__ = call, get
    try:
        keep = scenario(name)
        n = len(rec)
    finally:
        cache.CachedFunction.__call__, cache.CachedAttribute.__get__ = call0, get0
    for nm, fn, args, kw, out in rec[:n]:
        if "buffer" in nm or "plan" in nm or "temp" in nm:
            continue                # work space: its content is not a result
        try:
            again = fn(*args, **kw)
        except Exception as e:
            return {"scenario": name, "cached": nm, "violates": "an uncached call succeeds", "exception": f"{type(e).__name__}: {e}"}
        if same(out, again) is False:
            return {"scenario": name, "cached method": nm, "of": type(args[0]).__name__ if args else None, "arguments": [str(a)[:80] for a in args[1:]], "keywords": str(kw),
                    "violates": "the cached result is what an uncached call returns", "cached": str(out)[:300], "uncached": str(again)[:300]}
    if n < 30:
        return {"scenario": name, "violates": "the run uses cached methods", "calls": n}
    return None


def run(chk):
    from dedalus.tools import cache
    chk.trust("dict, OrderedDict and WeakValueDictionary look up by equality of keys; inspect.signature binds arguments as calls do")
    chk.assume("argument values are hashable and their equality is an equivalence under which the cached function is constant (1 and True are one argument)")
    chk.assume("signature family: up to 4 named parameters, defaults, *rest, one keyword-only parameter, **more; at most 3 keywords in a call (values unrestricted)")
    for sig in signatures(chk.thorough):
        function_obligations(chk, cache, sig)
    bound_obligations(chk, cache)
    for sig in ((0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (1, 1, 0, 0, 0), (2, 1, 0, 0, 0), (3, 2, 0, 0, 0), (1, 0, 1, 0, 0)):
        class_obligations(chk, cache, sig)
    dispatch_cases(chk)
    chk.bounded("call histories", "60 calls of 40 signatures, values chosen to resemble keys", [(s, k) for s in signatures(chk.thorough) for k in range(6 if not chk.thorough else 60)],
                lambda c: random_history(*c), budget=120)
    chk.bounded("bounded caches", "max_size 0 to 5, 40 calls, recursive functions", [0], lambda c: bound_search())
    chk.bounded("bounded call histories", "max_size 1 to 6", [(s, k, m) for s in ((1, 0, 0, 0, 0), (2, 1, 0, 0, 0), (1, 0, 1, 0, 1)) for m in (1, 2, 3, 6) for k in range(5)],
                lambda c: random_history(c[0], c[1], max_size=c[2]))
    chk.bounded("instances and subclasses", "histories of 40 calls on 4 instances, 4 kinds of subclass", [(o, 40, s) for o in ("cached", "plain", "grand", "none") for s in range(25)], instance_histories)
    chk.bounded("cached classes", "300 instantiations, class and subclass", [(0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (2, 1, 0, 0, 0), (3, 2, 0, 0, 0), (1, 0, 1, 0, 0)], class_search)
    chk.bounded("collected instances", "collector running at the n-th lookup, n to 8", [0], collected_between_lookups)
    chk.bounded("bases are those asked for", "60 random instantiations per kind, positional and keyword", [(k, s) for k in ("line", "disk", "annulus", "sphere", "ball", "shell") for s in range(4)], basis_histories, budget=120)
    chk.bounded("cached results of solver runs", "all cached calls of six solver runs, recomputed afterwards", ["line", "disk", "annulus", "sphere", "ball", "shell"], audit, budget=200)
