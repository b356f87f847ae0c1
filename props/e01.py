"""E01: symbolic rewriting preserves value.

Structural induction over expression trees.  Every node class is instantiated with *arbitrary* subexpressions: operands that
carry the contract of the rewriting methods as their only behaviour (the induction hypothesis) --
    split(vars)   returns (p, n) with p + n equal in value to the operand and n free of vars (either may be 0);
    replace(o, s) returns an expression equal to the operand with s substituted for o (possibly a number);
    sym_diff(v)   returns the derivative with respect to a constant v (possibly 0 or a number);
    expand(vars)  returns an equal expression (an arbitrary one, a sum, or a product);
    has(vars)     says whether vars occur.
The real method of the node runs on them and must establish the same contract for the node.  Values live in a formal algebra:
arrays of polynomials over component symbols; sums, products, contractions and cross products by their definition; a
linear operator is an arbitrary linear map on components commuting with constants (first derivatives obey the product rule,
interpolation is multiplicative); x**p and f(x) are symbols whose derivatives are those of calculus (decided by sympy).
"""

import contextlib
import importlib
import itertools
import math
from fractions import Fraction
from numbers import Number

import numpy as np
import sympy as sp

from vf import sym
from vf.poly import P, diff_terms
from vf.run import takes_none


class Bad(Exception):
    """The tree does not have a value."""


# ------------------------------------------------------------------ values
class Values:
    """Value map of real expression trees, given values of the opaque operands."""

    def __init__(self, d3, env):
        self.env = env
        self.A = importlib.import_module("dedalus.core.arithmetic")
        self.O = importlib.import_module("dedalus.core.operators")
        self.F = importlib.import_module("dedalus.core.field")
        self.keys = KEYS

    def __call__(self, e):
        A, O, F = self.A, self.O, self.F
        if isinstance(e, np.generic):
            e = e.item()
        if isinstance(e, np.ndarray) and e.ndim == 0:
            e = e.item()
        if isinstance(e, Number):
            return np.asarray(num(e), dtype=object)
        if isinstance(e, F.Field):
            if e in self.env:
                return self.env[e]
            if isinstance(e, Opq):
                return e.value()
            if all(b is None for b in e.domain.bases) or len(e.domain.bases) == 0:
                c = e["g"]
                if not e.tensorsig and c.size == 1:        # a number cast to a constant field
                    return np.asarray(num(float(c.ravel()[0]) if not np.iscomplexobj(c) else complex(c.ravel()[0])), dtype=object)
                if np.all(c == 0):
                    return zeros(tuple(cs.dim for cs in e.tensorsig))
            k = (e.domain.bases, e.tensorsig, e["c"].tobytes())      # a given field, told apart by its data
            for i, q in enumerate(FIELDS):
                if q == k:
                    break
            else:
                i = len(FIELDS)
                FIELDS.append(k)
            return comp(lambda v: v, named(f"F{i}", tuple(cs.dim for cs in e.tensorsig)))
        if isinstance(e, A.Add):
            vs = [self(a) for a in e.args]
            if len({v.shape for v in vs}) > 1:
                raise Bad("sum of different ranks")
            out = vs[0]
            for v in vs[1:]:
                out = out + v
            return obj(out)
        if isinstance(e, A.DotProduct):
            a, b = (self(x) for x in e.args)
            return obj(np.tensordot(a, b, axes=([e.indices[0]], [e.indices[1]])))
        if isinstance(e, A.CrossProduct):
            a, b = (self(x) for x in e.args)
            s = 1 if handed(e.tensorsig[0]) else -1
            return obj(np.array([s * (a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]) for i in range(3)], dtype=object))
        if isinstance(e, A.Multiply):
            out = np.asarray(P.const(1), dtype=object)
            for x in e.args:
                out = obj(np.multiply.outer(out, self(x)))
            return out
        if isinstance(e, O.Power):
            return comp(lambda v: power(v, e.args[1]), self(e.args[0]))
        if isinstance(e, O.UnaryGridFunction):
            return comp(lambda v: P.var(f"fn:{e.func.__name__}:{key(v)}") if v.d or not ZERO0.get(e.func.__name__) else P(), self(e.args[0]))
        if isinstance(e, O.Convert):
            return self(e.operand)
        if isinstance(e, O.LinearOperator):
            return self.linop(e)
        raise Bad(f"no value rule for {type(e).__name__}")

    def linop(self, e):
        O = self.O
        x = self(e.operand)
        shape = tuple(cs.dim for cs in e.tensorsig)
        if isinstance(e, (O.Copy, O.Lock)):
            return x
        if x.shape != tuple(cs.dim for cs in e.operand.tensorsig):
            raise Bad("operand of the wrong rank")
        if isinstance(e, (O.Differentiate, O.TimeDerivative)):
            return comp(lambda v: leibniz(getattr(getattr(e, "coord", None), "name", "t"), v), x)
        if isinstance(e, O.Interpolate):
            return comp(lambda v: hom(f"{e.coord.name}={e.position}", v), x)
        sig = signature(e)
        out = zeros(shape)
        for i in np.ndindex(*x.shape):
            for m, c in x[i].d.items():
                k = tuple(v for v in m if is_const(v))
                r = tuple(v for v in m if not is_const(v))
                if not r and isinstance(e, O.Average):            # the average of a constant
                    out[i] = out[i] + P({m: c})
                    continue
                if not r and not i and isinstance(e, (O.Gradient, O.Laplacian)):
                    continue
                for o in np.ndindex(*shape):
                    out[o] = out[o] + P({k: c}) * P.var(f"L{sig}{o}{i}<{'*'.join(r)}>")
        return out


KEYS = []
FIELDS = []
DEBUG = False
ZERO0 = {"sin": True, "tan": True, "sinh": True, "tanh": True, "arcsin": True, "arctan": True, "arcsinh": True, "arctanh": True,
         "sign": True, "absolute": True, "square": True, "sqrt": True, "erf": True}


def is_const(v):
    return v.startswith("@")


def leibniz(sig, v):
    out = P()
    for m, c in v.d.items():
        for j, f in enumerate(m):
            if is_const(f):
                continue
            out = out + P({tuple(sorted(m[:j] + m[j + 1:])): c}) * P.var(f"D{sig}<{f}>")
    return out


def hom(sig, v):
    out = P()
    for m, c in v.d.items():
        t = P.const(1) * P({(): c})
        for f in m:
            t = t * (P.var(f) if is_const(f) else P.var(f"I{sig}<{f}>"))
        out = out + t
    return out


def num(c):
    if isinstance(c, complex):
        if c.imag == 0:
            return P.const(c.real)
        return P.const(c.real) + P.const(c.imag) * P.var("@i")
    return P.const(c)


def zeros(shape):
    out = np.empty(shape, dtype=object)
    out[...] = P()
    return out


def named(name, shape):
    v = zeros(shape)
    for i in np.ndindex(*shape):
        v[i] = P.var(name + (str(i).replace(" ", "") if i else ""))
    return v


def obj(x):
    return np.asarray(x, dtype=object)


def comp(f, x):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = f(x[i] if isinstance(x[i], P) else P.lift(x[i]))
    return out


def key(v):
    return "+".join(f"{c}*{'*'.join(m)}" for m, c in sorted(v.d.items()))


def power(v, p):
    if isinstance(p, (int, np.integer)) and p >= 0 or isinstance(p, (float, np.floating)) and p >= 0 and float(p).is_integer():
        return v ** int(p)
    p = Fraction(p) if isinstance(p, (int, Fraction)) else sym._frac(p)
    if v.is_const() and v.d and p.denominator == 1:
        return P.const(v.d[()] ** int(p))
    return P.var(f"pow:{p}:{key(v)}")


def handed(cs):
    """Right-handedness of a coordinate system, from its definition."""
    n = type(cs).__name__
    if n == "CartesianCoordinates":
        return getattr(cs, "right_handed", True)
    return False      # (azimuth, colatitude, radius)


SKIP = {"args", "original_args", "operand", "out", "last_id", "last_out", "scales", "name", "_ncc_vars", "_operators"}


def signature(node):
    """Identity of the operator a node applies: class and parameters, not the operand."""
    items = []
    for k, v in sorted(vars(node).items()):
        if k in SKIP:
            continue
        if "Integrate" in type(node).__name__ and k not in ("coord", "input_basis", "dist"):     # an integral is fixed by its interval
            continue
        n = ("dtype", str(np.dtype(v))) if k == "dtype" else norm(v)
        if n is not None:
            items.append((k, n))
    t = (type(node).__name__, tuple(items))
    for i, s in enumerate(KEYS):
        if s == t:
            return i
    KEYS.append(t)
    if DEBUG:
        print("NEW SIG", t[0], [a for q in KEYS[:-1] if q[0] == t[0] for a, b in zip(q[1], t[1]) if a != b][:5])
    return len(KEYS) - 1


def norm(v):
    Operand = importlib.import_module("dedalus.core.field").Operand
    if isinstance(v, Operand):
        return None
    if isinstance(v, (list, tuple)):
        ns = [norm(x) for x in v]
        return None if any(n is None for n in ns) and any(isinstance(x, Operand) for x in v) else tuple(ns)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return None
        return ("array", v.shape, v.tobytes())
    if isinstance(v, (bool, int, float, complex, str, type(None))):
        return ("v", v)
    if isinstance(v, dict):
        return None
    if callable(v) and not isinstance(v, type) and getattr(v, "__self__", None) is not None:
        return None                       # bound method of the node itself (cached methods)
    n = type(v).__name__
    if n in ("Domain",):
        return ("domain", tuple(map(norm, v.bases)))
    if n == "function":
        try:
            cells = tuple(norm(c.cell_contents) for c in (v.__closure__ or ()))
        except ValueError:
            cells = None
        return ("function", id(v.__code__), cells)
    if n == "partial":
        return ("partial", norm(v.func), norm(v.args), tuple((k, norm(w)) for k, w in sorted(v.keywords.items())))
    if n in ("csr_matrix", "GhostBroadcaster") or "cache" in n.lower() or "Matrix" in n:
        return None
    try:
        hash(v)
        return Eq(v)
    except TypeError:
        return None


class Eq:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Eq) and (self.v is o.v or (type(self.v) is type(o.v) and bool(self.v == o.v)))

    def __hash__(self):
        return 0


# ------------------------------------------------------------------ arbitrary subexpressions
Opq = None


def make_opq():
    global Opq
    Field = importlib.import_module("dedalus.core.field").Field

    class Opq_(Field):
        """An arbitrary subexpression: it only obeys the contract of the rewriting methods."""
        count = itertools.count()

        def __init__(self, dist, bases, tensorsig, dtype, name=None, constant=False):
            Field.__init__(self, dist=dist, bases=bases, tensorsig=tensorsig, dtype=dtype)
            self.name = (name or "x") + str(next(self.count))
            self.const = constant or not any(b is not None for b in bases)
            self.rules = {}

        def like(self, name):
            return Opq_(self.dist, self.domain.bases, self.tensorsig, self.dtype, name)

        def value(self):
            return named(("@" if self.const else "") + self.name, tuple(cs.dim for cs in self.tensorsig))

        def _rule(self, what, args):
            if what not in self.rules:
                raise Bad(f"{what} called on an operand where the contract does not allow it")
            want, out = self.rules[what]
            if want is not None and not (len(args) == len(want) and all(a is b for a, b in zip(args, want))):
                raise Wrong(f"operand asked for {what}{tuple(map(str, args))}, not {what}{tuple(map(str, want))}")
            return out

        def has(self, *vars): return self._rule("has", vars)
        def split(self, *vars): return self._rule("split", vars)
        def replace(self, old, new): return self._rule("replace", (old, new))
        def sym_diff(self, var): return self._rule("sym_diff", (var,))
        def expand(self, *vars): return self._rule("expand", vars)

        def __str__(self): return self.name
        __repr__ = __str__
    Opq = Opq_


class Wrong(Bad):
    pass


# ------------------------------------------------------------------ settings
def geometries():
    import dedalus.public as d3
    out = {}

    def add(name, cs, *bases, dtype=np.float64):
        dist = d3.Distributor(cs, dtype=dtype)
        out[name] = dict(d3=d3, dist=dist, cs=cs, bases=bases, dtype=dtype)
    c = d3.CartesianCoordinates("x", "y")
    add("cart2", c, d3.RealFourier(c["x"], 4, bounds=(0, 1)), d3.ChebyshevT(c["y"], 4, bounds=(0, 1)))
    c = d3.CartesianCoordinates("x", "y", "z")
    add("cart3", c, d3.ComplexFourier(c["x"], 4, bounds=(0, 1)), d3.ComplexFourier(c["y"], 4, bounds=(0, 1)),
        d3.Legendre(c["z"], 4, bounds=(0, 1)), dtype=np.complex128)
    c = d3.CartesianCoordinates("x", "y", "z", right_handed=False)
    add("cart3l", c, d3.RealFourier(c["x"], 4, bounds=(0, 1)), d3.RealFourier(c["y"], 4, bounds=(0, 1)), d3.ChebyshevT(c["z"], 4, bounds=(0, 1)))
    c = d3.PolarCoordinates("phi", "r")
    add("disk", c, d3.DiskBasis(c, (4, 4), dtype=np.float64, radius=1))
    c = d3.PolarCoordinates("phi", "r")
    add("annulus", c, d3.AnnulusBasis(c, (4, 4), dtype=np.float64, radii=(1, 2)))
    c = d3.S2Coordinates("phi", "theta")
    add("sphere", c, d3.SphereBasis(c, (4, 4), dtype=np.float64, radius=1))
    c = d3.SphericalCoordinates("phi", "theta", "r")
    add("ball", c, d3.BallBasis(c, (4, 4, 4), dtype=np.float64, radius=1))
    c = d3.SphericalCoordinates("phi", "theta", "r")
    add("shell", c, d3.ShellBasis(c, (4, 4, 4), dtype=np.float64, radii=(1, 2)))
    return out


def operators_of(g, name):
    """(label, build(operand), operand rank) of the linear operators of a geometry."""
    d3, cs, B = g["d3"], g["cs"], g["bases"]
    O = importlib.import_module("dedalus.core.operators")
    L = [("Copy", lambda x: O.Copy(x), 0), ("Grid", lambda x: d3.Grid(x), 0), ("Coeff", lambda x: d3.Coeff(x), 1),
         ("TimeDerivative", lambda x: O.TimeDerivative(x), 0), ("TimeDerivative of a vector", lambda x: O.TimeDerivative(x), 1),
         ("Gradient", lambda x: d3.Gradient(x, cs), 0), ("Laplacian", lambda x: d3.Laplacian(x, cs), 0),
         ("Divergence", lambda x: d3.Divergence(x), 1)]
    if name != "sphere":
        L += [("Gradient of a vector", lambda x: d3.Gradient(x, cs), 1), ("Laplacian of a vector", lambda x: d3.Laplacian(x, cs), 1),
              ("Divergence of a tensor", lambda x: d3.Divergence(x), 2)]
    if name.startswith("cart"):
        for c, b in zip(cs.coords, B):
            L += [(f"d{c.name}", lambda x, c=c: d3.Differentiate(x, c), 0),
                  (f"interpolate {c.name}", lambda x, c=c: d3.Interpolate(x, c, 0.5), 0),
                  (f"integrate {c.name}", lambda x, c=c: d3.Integrate(x, c), 0),
                  (f"average {c.name}", lambda x, c=c: d3.Average(x, c), 0)]
        L += [("dx of a vector", lambda x: d3.Differentiate(x, cs.coords[0]), 1),
              ("component", lambda x: O.CartesianComponent(x, 0, cs.coords[1]), 1),
              ("component of second index", lambda x: O.CartesianComponent(x, 1, cs.coords[0]), 2),
              ("integrate all", lambda x: d3.Integrate(x), 0), ("average all", lambda x: d3.Average(x), 0),
              ("convert", lambda x: O.Convert(x, B[-1].derivative_basis(1)), 0),
              ("lift", lambda x: d3.Lift(x, B[-1].derivative_basis(1), -1), "lift"),
               ("trace", lambda x: d3.Trace(x), 2), ("transpose", lambda x: d3.TransposeComponents(x), 2)]
        if cs.dim == 2:
            L += [("skew", lambda x: d3.Skew(x), 1), ("skew of second index", lambda x: d3.Skew(x, index=1), 2)]
        if cs.dim == 3:
            L += [("curl", lambda x: d3.Curl(x), 1)]
    if name in ("disk", "annulus"):
        L += [("skew", lambda x: d3.Skew(x), 1), ("skew of second index", lambda x: d3.Skew(x, index=1), 2),
              ("trace", lambda x: d3.Trace(x), 2), ("transpose", lambda x: d3.TransposeComponents(x), 2),
              ("interpolate r", lambda x: d3.Interpolate(x, cs["r"], 1), 0), ("integrate", lambda x: d3.Integrate(x, cs), 0),
              ("average", lambda x: d3.Average(x, cs), 0), ("lift", lambda x: d3.Lift(x, B[0], -1), "lift"),
              ("radial", lambda x: d3.RadialComponent(d3.Interpolate(x, cs["r"], 1)), 1),
              ("azimuthal", lambda x: d3.AzimuthalComponent(d3.Interpolate(x, cs["r"], 1)), 1)]
    if name == "sphere":
        L += [("skew", lambda x: d3.Skew(x), 1), ("mul cosine", lambda x: d3.MulCosine(x), 0),
              ("average", lambda x: d3.Average(x, cs), 0),
              ("Laplacian of a vector", lambda x: d3.Laplacian(x, cs), 1)]
    if name in ("ball", "shell"):
        R = 1
        L += [("trace", lambda x: d3.Trace(x), 2), ("transpose", lambda x: d3.TransposeComponents(x), 2),
              ("curl", lambda x: d3.Curl(x), 1), ("interpolate r", lambda x: d3.Interpolate(x, cs["r"], R), 0),
              ("integrate", lambda x: d3.Integrate(x, cs), 0),
              ("lift", lambda x: d3.Lift(x, B[0], -1), "lift"),
              ("radial", lambda x: d3.RadialComponent(d3.Interpolate(x, cs["r"], R)), 1),
              ("angular", lambda x: d3.AngularComponent(d3.Interpolate(x, cs["r"], R)), 1),
              ("ell product", lambda x: d3.SphericalEllProduct(x, cs, ELL), 0)]
    return L


def ELL(ell):
    return ell + 1


def opq(g, rank, name="x", bases=None):
    B = g["bases"]
    if rank == "lift":
        B, rank = B[:-1] if len(B) > 1 else (B[0].edge if hasattr(B[0], "edge") else B[0].outer_edge if hasattr(B[0], "outer_edge") else B[0].S2_basis(),), 0
    return Opq(g["dist"], B if bases is None else bases, (g["cs"],) * rank, g["dtype"], name)


# ------------------------------------------------------------------ the contract of a node
VAR = "a variable"


class Ctx:
    def __init__(self, chk, g, geom):
        self.chk, self.g, self.geom = chk, g, geom
        self.d3 = g["d3"]


def same(a, b):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        if a.size == 1 and not np.any([v.d for v in a.ravel()]):     # the number zero stands for any zero tensor
            return diff_terms(zeros(b.shape), b)
        if b.size == 1 and not np.any([v.d for v in b.ravel()]):
            return diff_terms(a, zeros(a.shape))
        return [("shape", a.shape, b.shape)]
    return diff_terms(a, b)


def plus(a, b):
    a, b = obj(a), obj(b)
    if a.shape == b.shape:
        return obj(a + b)
    if a.size == 1 and not any(v.d for v in a.ravel()):
        return b
    if b.size == 1 and not any(v.d for v in b.ravel()):
        return a
    raise Bad("sum of different ranks")


def settle(cx, name, func, body, replay=None):
    """One ground obligation: body() returns a list of differences (empty: holds)."""
    seen = True
    try:
        bad = body()
    except sym.Unsupported:
        raise
    except Bad as e:
        bad, seen = [str(e)], False      # the rewriting took a route the contract does not describe: the concrete run decides
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        bad, seen = [f"{type(e).__name__}: {e} at " + ", ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-2:])], False
    if replay is not None:
        CONCRETE.append((name, replay))
    cx.chk.ground(name, func, not bad, [str(b)[:300] for b in bad[:3]], replay=takes_none(replay) if replay and bad else None, observable=seen)


# ------------------------------------------------------------------ the same cases on real fields (replay)
RNG = np.random.default_rng(1)
CONCRETE = []


def real_like(x, name="q"):
    """A field with random data like the opaque operand."""
    Field = importlib.import_module("dedalus.core.field").Field
    f = Field(dist=x.dist, bases=x.domain.bases, tensorsig=x.tensorsig, dtype=x.dtype, name=name + x.name)
    f.fill_random("c", distribution="standard_normal", seed=int(RNG.integers(1 << 30)))
    f.low_pass_filter(scales=0.5) if f.domain.dim else None
    # positive enough for roots and logarithms
    if not x.tensorsig:
        f["g"] = 0.6 + 0.05 * f["g"].real / (1 + np.max(np.abs(f["g"]), initial=0))
    return f


def nval(e):
    """Numbers of an expression on the grid (None: the expression has no numbers of its own, as for time derivatives)."""
    O = importlib.import_module("dedalus.core.operators")
    if isinstance(e, (Number, np.generic)):
        return np.asarray(e)
    if e.has(O.TimeDerivative):
        return None
    r = e.evaluate() if hasattr(e, "evaluate") else e
    if type(r).__name__ == "LockedField":
        f = importlib.import_module("dedalus.core.field").Field(r.dist, bases=r.domain.bases, tensorsig=r.tensorsig, dtype=r.dtype)
        f.preset_scales(r.scales)
        f.preset_layout(r.layout)
        f.data[...] = r.data
        r = f
    r.change_scales(1)
    return np.array(r["g"])


def ndiff(a, b, tol=1e-8):
    """None when equal."""
    if a is None or b is None:
        return None
    n = max(a.ndim, b.ndim)
    try:
        d = np.max(np.abs(a - b), initial=0)
    except ValueError:
        return f"shapes {a.shape} and {b.shape}"
    s = max(1, np.max(np.abs(a), initial=0), np.max(np.abs(b), initial=0))
    return None if d <= tol * s else f"values differ by {d:.3g}"


def nplus(a, b):
    return None if a is None or b is None else a + b


def real_split(build, xs, tags):
    """tags: var, free or mixed for every opaque operand."""
    def run(_=None):
        vs, ops = [], []
        it = iter(tags)
        for x in xs:
            if not isinstance(x, Opq):
                ops.append(x)
                continue
            t = next(it)
            v, f = real_like(x, "v"), real_like(x, "f")
            vs.append(v)
            ops.append({"var": v, "free": f, "mixed": v + f}[t])
        e = build(*ops)
        r = e.split(*vs)
        bad = ndiff(nplus(nval(r[0]), nval(r[1])), nval(e))
        if bad:
            return {"expression": str(e), "variables": list(map(str, vs)), "parts": list(map(str, r)), "sum of the parts": bad}
        if isinstance(r[1], Operand()) and r[1].has(*vs):
            return {"expression": str(e), "variables": list(map(str, vs)), "second part contains a variable": str(r[1])}
        if set(tags) == {"free"} and np.any(nval(r[0])):
            return {"expression": str(e), "first part of an expression without the variables": str(r[0])}
    return run


def real_split_type(build, x, T, first):
    def run(_=None):
        v, f = real_like(x, "v"), real_like(x, "f")
        e = build(v + f)
        r = e.split(*((T, v) if first else (v, T)))
        bad = ndiff(nplus(nval(r[0]), nval(r[1])), nval(e))
        if bad or (isinstance(r[1], Operand()) and r[1].has(T, v)):
            return {"expression": str(e), "requested": [T.__name__, str(v)], "parts": list(map(str, r)), "sum of the parts": bad or "fine"}
    return run


def real_replace(build, xs, news):
    def run(_=None):
        fields = [x for x in xs if isinstance(x, Opq)]
        old = {x: real_like(x, "o") for x in fields}
        new = {x: (real_like(x, "n") if not isinstance(n, Number) else n) for x, n in zip(fields, news)}
        e = build(*[old.get(x, x) if isinstance(x, Opq) else x for x in xs])
        got = e
        for x in fields:
            if isinstance(got, Number):
                break
            got = got.replace(old[x], new[x])
        g = nval(got)
        for x in fields:
            if isinstance(new[x], Number):
                old[x]["g"] = new[x]
            else:
                old[x]["g"] = new[x]["g"]
        bad = ndiff(g, nval(e))
        if bad:
            return {"expression": str(e), "replaced": [(str(old[x]), str(new[x])) for x in fields], "result": str(got), "value": bad}
    return run


def real_diff(build, xs, which):
    def run(_=None):
        fields = [x for x in xs if isinstance(x, Opq)]
        var = fields[0].dist.Field(name="k")
        base = [real_like(x, "b") for x in fields]
        der = [real_like(x, "d") if w else None for x, w in zip(fields, which)]
        h = 1e-4
        it = iter([b + (var * d if d is not None else 0) for b, d in zip(base, der)])
        e = build(*[next(it) if isinstance(x, Opq) else x for x in xs])
        var["g"] = 0
        got = nval(e.sym_diff(var))
        w = []
        for s in (h, -h):
            var["g"] = s
            w.append(nval(e))
        if w[0] is None:
            return None
        bad = ndiff(got, (w[0] - w[1]) / (2 * h), tol=1e-5)
        if bad:
            return {"expression": str(e), "derivative": str(e.sym_diff(var)), "against finite differences": bad}
    return run


def real_expand(build, xs, tags):
    def run(_=None):
        A = importlib.import_module("dedalus.core.arithmetic")
        vs, ops = [], []
        it = iter(tags)
        for x in xs:
            if not isinstance(x, Opq):
                ops.append(x)
                continue
            t = next(it)
            v, w, f = real_like(x, "v"), real_like(x, "w"), real_like(x, "f")
            vs += [v, w]
            s = real_like(Opq(x.dist, x.domain.bases, (), x.dtype, "s"), "s")
            ops.append({"itself": v, "a sum": v + w, "three terms": v + w + f, "a sum with a free term": v + f, "a multiple": 2 * v, "a product": s * v, "a square": v * v, "no variables": f}[t])
        e = build(*ops)
        r = e.expand(*vs)
        bad = ndiff(nval(r), nval(e))
        if bad:
            return {"expression": str(e), "variables": list(map(str, vs)), "expanded": str(r), "value": bad}
    return run


def split_cases(x):
    """The three possible splittings of an operand: (positive, negative)."""
    if isinstance(x, Opq):
        p, n = x.like("p"), x.like("n")
        for a, b in ((x, 0), (0, x), (p, n)):
            yield a, b
    else:
        yield 0, x


def const_zero():
    return np.asarray(P(), dtype=object)


def check_split(cx, label, cls, build, xs, node=None):
    V0 = VAR
    fields = [x for x in xs if isinstance(x, Opq)]
    for combo in itertools.product(*[list(split_cases(x)) for x in fields]):
        env = {}
        v = object()
        for x in fields:
            x.rules = {}
        for x, (p, n) in zip(fields, combo):
            for q, h in ((p, True), (n, False)):
                if isinstance(q, Opq) and q is not x:
                    q.rules = {"has": (None, h)}
            x.rules = {"split": ((v,), (p, n)), "has": ((v,), p is not 0)}
            if p is x or n is x:
                x.rules["has"] = (None, p is x)
        tag = ",".join("var" if n is 0 else "free" if p is 0 else "mixed" for p, n in combo)

        def body():
            e = build(*xs)
            if not isinstance(e, Operand()):
                return []
            whole = {}
            for x, (p, n) in zip(fields, combo):
                whole[x] = obj(x.value() if (p is x or n is x) else p.value() + n.value())
            has = e.has(v)
            bad = []
            if has != any(p is not 0 for p, n in combo):
                bad.append(f"has says {has}")
            r = e.split(v)
            if not (isinstance(r, tuple) and len(r) == 2):
                return [f"split returned {r!r}"]
            val = Values(cx.d3, whole)
            bad += same(plus(val(r[0]), val(r[1])), val(e))
            if isinstance(r[1], Operand()) and r[1].has(v):
                bad.append(f"second part {r[1]} contains the variable")
            if all(p is 0 for p, n in combo) and any(c.d for c in val(r[0]).ravel()):
                bad.append("variables absent but the first part is not zero")
            return bad
        settle(cx, f"split of {label} [{cx.geom}: {tag}]", f"{cls}.split", body, real_split(build, xs, tag.split(",")))


def Operand():
    return importlib.import_module("dedalus.core.field").Operand


def check_replace(cx, label, cls, build, xs, numbers=(0,)):
    fields = [x for x in xs if isinstance(x, Opq)]
    opts = [[x.like("r")] + list(numbers if not x.tensorsig else [n for n in numbers if n == 0]) for x in fields]
    for combo in itertools.product(*opts):
        old, new = object(), object()
        for x, r in zip(fields, combo):
            x.rules = {"replace": ((old, new), r), "has": (None, True)}

        def body():
            e = build(*xs)
            env = {x: (np.broadcast_to(np.asarray(num(r), dtype=object), tuple(cs.dim for cs in x.tensorsig)).copy()
                       if isinstance(r, Number) else r.value()) for x, r in zip(fields, combo)}
            got = e.replace(old, new)
            want = Values(cx.d3, env)(e)
            bad = same(Values(cx.d3, {})(got), want)
            if not isinstance(e, Values(cx.d3, {}).O.Convert) and e.replace(e, new) is not new:
                bad.append("replacing the whole expression does not return the replacement")
            return bad
        tag = ",".join("expression" if isinstance(r, Opq) else str(r) for r in combo)
        settle(cx, f"replace in {label} [{cx.geom}: {tag}]", f"{cls}.replace", body, real_replace(build, xs, combo))


def part_E(v, k):
    """Coefficient of @E^k."""
    out = np.empty(v.shape, dtype=object)
    for i in np.ndindex(*v.shape):
        d = {}
        for m, c in v[i].d.items():
            if m.count("@E") == k:
                d[tuple(f for f in m if f != "@E")] = c
        out[i] = P(d)
    return out


def check_diff(cx, label, cls, build, xs, dpower=None):
    fields = [x for x in xs if isinstance(x, Opq)]
    for combo in itertools.product(*[[x.like("d"), 0] for x in fields]):
        var = object()
        for x, r in zip(fields, combo):
            x.rules = {"sym_diff": ((var,), r), "has": (None, True)}

        def body():
            e = build(*xs)
            E = P.var("@E")
            got = e.sym_diff(var)
            g = Values(cx.d3, {})(got)
            if dpower is not None:
                p = dpower
                x, r = fields[0], combo[0]
                w = obj(P.const(sym._frac(p) if not isinstance(p, int) else p) * power(x.value()[()], p - 1)
                        * (r.value()[()] if isinstance(r, Opq) else P()))
            else:
                env = {x: obj(x.value() + (obj(r.value() * E) if isinstance(r, Opq) else zeros(x.value().shape))) for x, r in zip(fields, combo)}
                w = part_E(Values(cx.d3, env)(e), 1)
            return same(g, w)
        tag = ",".join("expression" if isinstance(r, Opq) else str(r) for r in combo)
        settle(cx, f"sym_diff of {label} [{cx.geom}: {tag}]", f"{cls}.sym_diff", body, real_diff(build, xs, [isinstance(r, Opq) for r in combo]))


def check_expand(cx, label, cls, build, xs):
    A = importlib.import_module("dedalus.core.arithmetic")
    fields = [x for x in xs if isinstance(x, Opq)]

    def leaf(x, name):
        z = x.like(name)
        z.rules = {"expand": (None, z), "has": (None, True)}
        return z

    def options(x):
        yield "itself", leaf(x, "z")
        yield "a sum", A.Add(leaf(x, "z"), leaf(x, "z"))
        yield "three terms", A.Add(A.Add(leaf(x, "z"), leaf(x, "z")), leaf(x, "z"))
        n = leaf(x, "n")
        n.rules["has"] = (None, False)
        yield "a sum with a free term", A.Add(leaf(x, "z"), n)
        yield "a multiple", A.Multiply(2, leaf(x, "z"))
        s = Opq(x.dist, x.domain.bases, (), x.dtype, "s")
        s.rules = {"expand": (None, s), "has": (None, True)}
        yield "a product", A.Multiply(s, leaf(x, "z"))
        if not x.tensorsig:
            z = leaf(x, "z")
            yield "a square", A.Multiply(z, z)
    for combo in itertools.product(*[list(options(x)) for x in fields]):
        v = object()
        for x, (t, z) in zip(fields, combo):
            x.rules = {"expand": ((v,), z), "has": ((v,), True)}

        def body():
            e = build(*xs)
            val = Values(cx.d3, {})
            env = {x: val(z) for x, (t, z) in zip(fields, combo)}
            val = Values(cx.d3, env)
            return same(val(e.expand(v)), val(e))
        tag = ",".join(t for t, z in combo)
        settle(cx, f"expand of {label} [{cx.geom}: {tag}]", f"{cls}.expand", body, real_expand(build, xs, tag.split(",")))
    for x in fields:
        x.rules = {"has": (None, False)}

    def body():
        e = build(*xs)
        return [] if e.expand(object()) is e or not same(Values(cx.d3, {})(e.expand(object())), Values(cx.d3, {})(e)) else ["changed"]
    settle(cx, f"expand of {label} [{cx.geom}: no variables]", f"{cls}.expand", body,
           real_expand(build, xs, ["no variables"] * len(fields)))


# ------------------------------------------------------------------ products, sums, powers, functions
def algebra_of(g, name):
    """(label, build, operand ranks) of sums and products; ranks may be numbers for numeric arguments."""
    A = importlib.import_module("dedalus.core.arithmetic")
    out = [("x + y", lambda x, y: x + y, (0, 0)), ("x - y", lambda x, y: x - y, (0, 0)), ("vector sum", lambda x, y: x + y, (1, 1)),
           ("x + 3", lambda x: x + 3, (0,)), ("3 - x", lambda x: 3 - x, (0,)), ("-x", lambda x: -x, (1,)),
           ("x*y", lambda x, y: x * y, (0, 0)), ("scalar*vector", lambda x, y: x * y, (0, 1)), ("vector*vector", lambda x, y: x * y, (1, 1)),
           ("vector*scalar", lambda x, y: x * y, (1, 0)), ("2*x", lambda x: 2 * x, (0,)), ("x*2.5", lambda x: x * 2.5, (1,)), ("x/4", lambda x: x / 4, (0,)),
           ("vector.vector", lambda x, y: x @ y, (1, 1)), ("tensor.vector", lambda x, y: x @ y, (2, 1)), ("vector.tensor", lambda x, y: x @ y, (1, 2)),
           ("tensor.tensor", lambda x, y: x @ y, (2, 2)),
           ("tensor.vector, first index", lambda x, y: A.DotProduct(x, y, indices=(0, 0)), (2, 1)),
           ("vector.tensor, last index", lambda x, y: A.DotProduct(x, y, indices=(0, 1)), (1, 2)),
           ("tensor.tensor, indices (0, -1)", lambda x, y: A.DotProduct(x, y, indices=(0, -1)), (2, 2)),
           ("x*x of one operand", lambda x: x * x, (0,)), ("vector dotted with itself", lambda x: x @ x, (1,)),
           ("constant*field", lambda x, y: x * y, ("c", 0)), ("constant + field", lambda x, y: x + y, ("c", 0))]
    d3, c = g["d3"], g["cs"].coords[-1]
    if name.startswith("cart"):                    # operators that need a direction, on sums with an operand constant along it
        out += [("interpolation of field + constant", lambda x, y: d3.Interpolate(x + y, c, 0.5), (0, "c")),
                ("average of field + constant", lambda x, y: d3.Average(x + y, c), (0, "c")),
                ("integral of field + constant", lambda x, y: d3.Integrate(x + y, c), (0, "c")),
                ("derivative of field + constant", lambda x, y: d3.Differentiate(x + y, c), (0, "c")),
                ("average of all of field + constant", lambda x, y: d3.Average(x + y), (0, "c"))]
    if name != "sphere":
        out += [("constant*edge", lambda x, y: x * y, ("c", "lift")), ("edge*constant", lambda x, y: x * y, ("lift", "c")),
                ("constant + edge", lambda x, y: x + y, ("c", "lift")), ("edge*edge", lambda x, y: x * y, ("lift", "lift"))]
    if name not in ("sphere", "ball", "shell"):
        out += [("Laplacian of field + constant", lambda x, y: d3.Laplacian(x + y), (0, "c"))]
    if name.startswith("cart"):
        out += [("gradient of field + constant", lambda x, y: d3.Gradient(x + y, g["cs"]), (0, "c"))]
    if not name.startswith("cart") and name != "sphere":
        out += [("interpolation of field + constant", lambda x, y: d3.Interpolate(x + y, c, 1), (0, "c"))]
    if g["cs"].dim == 3:
        out += [("cross", lambda x, y: g["d3"].CrossProduct(x, y), (1, 1)), ("cross with itself", lambda x: g["d3"].CrossProduct(x, x), (1,))]
    if name != "cart2":
        drop = {"tensor.tensor", "tensor.tensor, indices (0, -1)", "x + 3", "3 - x", "x/4"} if not name.startswith("cart") else set()
        out = [o for o in out if o[0] not in drop]
    return out


POWERS = [2, 3, 4, -1, -2, 0.5, -0.5, 1.5, 2.5, -1.5, 7, -3]


def check_kind(cx, label, cls, build, x, T):
    """split and replace by operator type."""
    e0 = build(x)
    mine = isinstance(e0, T)

    def split():
        p, n = x.like("p"), x.like("n")
        p.rules, n.rules = {"has": (None, True)}, {"has": (None, False)}
        x.rules = {"split": ((T,), (p, n)), "has": ((T,), True)}
        e = build(x)
        r = e.split(T)
        val = Values(cx.d3, {})
        if mine:
            x.rules["has"] = ((T,), False)
            bad = same(val(r[0]), val(e)) + same(val(r[1]), const_zero())
            if not e.has(T):
                bad.append("has does not recognise the operator")
            return bad
        val = Values(cx.d3, {x: obj(p.value() + n.value())})
        bad = same(plus(val(r[0]), val(r[1])), val(e))
        if isinstance(r[1], Operand()) and r[1].has(T):
            bad.append("second part contains the operator")
        return bad
    settle(cx, f"split by type {T.__name__} of {label} [{cx.geom}]", f"{cls}.split", split)
    if mine:
        for first in (True, False):
            def several():
                v = object()
                vs = (T, v) if first else (v, T)
                p, n = x.like("p"), x.like("n")
                p.rules, n.rules = {"has": (None, True)}, {"has": (None, False)}
                x.rules = {"split": (vs, (p, n)), "has": (None, True)}
                e = build(x)
                r = e.split(*vs)
                val = Values(cx.d3, {x: obj(p.value() + n.value())})
                bad = same(plus(val(r[0]), val(r[1])), val(e))
                if isinstance(r[1], Operand()) and (isinstance(r[1], T) or r[1].has(T)):
                    bad.append("second part contains the operator")
                return bad
            settle(cx, f"split by type {T.__name__} and a variable (type {'first' if first else 'last'}) of {label} [{cx.geom}]", f"{cls}.split", several,
                   real_split_type(build, x, T, first))

    def replace():
        r = x.like("r")
        f = lambda z: 3 * z
        x.rules = {"replace": ((T, f), r), "has": (None, True)}
        e = build(x)
        got = e.replace(T, f)
        val = Values(cx.d3, {})
        if mine:
            return same(val(got), val(3 * r))
        return same(val(got), Values(cx.d3, {x: r.value()})(e))
    settle(cx, f"replace of type {T.__name__} in {label} [{cx.geom}]", f"{cls}.replace", replace)


# ------------------------------------------------------------------ calculus of the functions
def sym_value(e, env, O, A, Field):
    """Sympy value of a scalar expression."""
    if isinstance(e, (Number, np.generic)):
        return sp.nsimplify(e, [sp.pi, sp.log(2), sp.log(10), sp.sqrt(sp.pi)], rational=False, tolerance=1e-15) \
            if isinstance(e, (float, np.floating)) and not float(e).is_integer() else sp.Integer(int(e))
    if isinstance(e, Field):
        if e in env:
            return env[e]
        c = e["g"].ravel()
        if len(e.domain.bases) == 0:
            return sym_value(float(c[0]), env, O, A, Field)
        raise Bad("unknown field")
    r = lambda a: sym_value(a, env, O, A, Field)
    if isinstance(e, A.Add):
        return sp.Add(*map(r, e.args))
    if isinstance(e, A.Multiply):
        return sp.Mul(*map(r, e.args))
    if isinstance(e, O.Power):
        return r(e.args[0]) ** r(e.args[1])
    if isinstance(e, O.UnaryGridFunction):
        return SYMPY[e.func.__name__](r(e.args[0]))
    if isinstance(e, O.Convert):
        return r(e.operand)
    raise Bad(f"no value rule for {type(e).__name__}")


SYMPY = {"absolute": sp.Abs, "sign": sp.sign, "exp": sp.exp, "exp2": lambda x: 2 ** x, "log": sp.log, "log2": lambda x: sp.log(x) / sp.log(2),
         "log10": lambda x: sp.log(x) / sp.log(10), "sqrt": sp.sqrt, "square": lambda x: x ** 2, "sin": sp.sin, "cos": sp.cos, "tan": sp.tan,
         "arcsin": sp.asin, "arccos": sp.acos, "arctan": sp.atan, "sinh": sp.sinh, "cosh": sp.cosh, "tanh": sp.tanh, "arcsinh": sp.asinh,
         "arccosh": sp.acosh, "arctanh": sp.atanh, "erf": sp.erf}


def vanishes(d, X):
    """Is the expression zero for every admissible X?  Decided by sympy normal forms."""
    for f in (sp.simplify, lambda d: sp.simplify(d.rewrite(sp.exp)), lambda d: sp.simplify(sp.expand_func(d)),
              lambda d: sp.simplify(sp.trigsimp(d)), lambda d: sp.radsimp(sp.simplify(sp.powsimp(d, force=True)))):
        if f(d) == 0:
            return True
    # nonzero somewhere?
    for v in (sp.Rational(1, 3), sp.Rational(3, 7), sp.Rational(7, 5)):
        n = sp.N(d.subs(X, v), 40)
        if n.is_number and abs(n) > 1e-20:
            return False
    return None


def functions(cx):
    O = importlib.import_module("dedalus.core.operators")
    A = importlib.import_module("dedalus.core.arithmetic")
    F = importlib.import_module("dedalus.core.field").Field
    g = cx.g
    for f in O.UnaryGridFunction.ufunc_derivatives:
        name = f.__name__
        if name not in SYMPY:
            cx.chk.unsupported(f"derivative of {name}", f"UnaryGridFunction({name})", "no calculus rule in the specification")
            continue
        X = sp.Symbol("X", real=True) if name in ("absolute", "sign", "sin", "cos", "tan", "exp", "erf", "sinh", "cosh", "tanh", "arctan", "arcsinh") \
            else sp.Symbol("X", positive=True)
        D = sp.Symbol("D", real=True)

        def body():
            x, d = opq(g, 0), opq(g, 0, "d")
            var = object()
            x.rules = {"sym_diff": ((var,), d), "has": (None, True)}
            got = sym_value(O.UnaryGridFunction(f, x).sym_diff(var), {x: X, d: D}, O, A, F)
            fx = SYMPY[name](X)
            want = (sp.sign(X) if name == "absolute" else sp.Integer(0) if name == "sign" else sp.diff(fx, X)) * D
            r = vanishes(sp.expand((got - want) / D), X)
            if r is None:
                raise sym.Unsupported("sympy does not settle the identity")
            return [] if r else [f"{got} is not {want}"]

        def contract():
            bad = None
            settle(cx, f"derivative of {name}", f"UnaryGridFunction({name}).sym_diff", body)
        cx.chk.contract(f"derivative of {name}", "UnaryGridFunction.sym_diff", contract)
        b = lambda x: O.UnaryGridFunction(f, x)
        x = opq(g, 0)
        check_split(cx, name, "UnaryGridFunction", b, [x])
        check_replace(cx, name, "UnaryGridFunction", b, [x], numbers=())
        check_expand(cx, name, "UnaryGridFunction", b, [x])
    # a user function with its own derivative keeps both through rewriting

    def own():
        f = lambda z, out=None: np.multiply(z, 3, out=out)
        der = lambda z: 5 * z
        x, d, r = opq(g, 0), opq(g, 0, "d"), opq(g, 0, "r")
        var, old, new = object(), object(), object()
        x.rules = {"sym_diff": ((var,), d), "replace": ((old, new), r), "has": (None, True)}
        r.rules = {"sym_diff": ((var,), d), "has": (None, True)}
        e = O.UnaryGridFunction(f, x, deriv=der)
        val = Values(cx.d3, {})
        bad = same(val(e.sym_diff(var)), obj(5 * x.value()[()] * d.value()[()]))
        e2 = e.replace(old, new)
        if e2.func is not f:
            bad.append("function changed by replace")
        return bad + same(val(e2.sym_diff(var)), obj(5 * r.value()[()] * d.value()[()]))
    settle(cx, "a user function keeps its derivative", "UnaryGridFunction.sym_diff", own)


def unop(chk, name, g):
    cx = Ctx(chk, g, name)
    O = importlib.import_module("dedalus.core.operators")
    for label, build, rank in operators_of(g, name):
        x = opq(g, rank)
        e = build(x)
        cls = type(e).__name__
        check_split(cx, label, cls, build, [x])
        check_replace(cx, label, cls, build, [x])
        check_diff(cx, label, cls, build, [x])
        check_expand(cx, label, cls, build, [x])
        kinds = [O.TimeDerivative, O.Lock]
        if isinstance(e, O.LinearOperator) and not isinstance(e, (O.TimeDerivative, O.Lock, O.Convert)) and e.operand is x:
            kinds.append(type(e))
        for T in kinds:
            check_kind(cx, label, cls, build, x, T)


def binop(chk, name, g):
    cx = Ctx(chk, g, name)
    O = importlib.import_module("dedalus.core.operators")
    for label, build, ranks in algebra_of(g, name):
        xs = [opq(g, 0 if r == "c" else r, "xy"[i], bases=() if r == "c" else None) for i, r in enumerate(ranks)]
        cls = type(build(*xs)).__name__
        check_split(cx, label, cls, build, xs)
        check_replace(cx, label, cls, build, xs, numbers=(0,))
        check_diff(cx, label, cls, build, xs)
        check_expand(cx, label, cls, build, xs)
        if len(xs) == 1:
            check_kind(cx, label, cls, build, xs[0], O.TimeDerivative)


def powers(chk, g):
    cx = Ctx(chk, g, "cart2")
    for p in POWERS:
        b = lambda x, p=p: x ** p
        x = opq(g, 0)
        check_split(cx, f"x**{p}", "Power", b, [x])
        check_replace(cx, f"x**{p}", "Power", b, [x], numbers=())
        check_diff(cx, f"x**{p}", "Power", b, [x], dpower=p)
        check_expand(cx, f"x**{p}", "Power", b, [x])
    b = lambda x, y: x / y
    check_split(cx, "x/y", "Multiply", b, [opq(g, 0), opq(g, 0, "y")])
    check_replace(cx, "x/y", "Multiply", b, [opq(g, 0), opq(g, 0, "y")], numbers=())


def leaf(chk, g):
    """Base case: a field, and a number cast to a field."""
    cx = Ctx(chk, g, "cart2")
    F = importlib.import_module("dedalus.core.field").Field
    O = importlib.import_module("dedalus.core.operators")
    for rank in (0, 1, 2):
        bases = g["bases"]
        mk = lambda n: F(g["dist"], bases=bases, tensorsig=(g["cs"],) * rank, dtype=g["dtype"], name=n)
        u, w, n = mk("u"), mk("w"), mk("n")
        k = F(g["dist"], dtype=g["dtype"], name="k")

        def one(name, f):
            settle(cx, f"{name} [rank {rank}]", "Field", lambda: [] if f() else [name])
        one("a field contains itself", lambda: u.has(u) and u.has(w, u))
        one("a field contains no other field", lambda: not u.has(w) and not u.has(w, n))
        one("a field contains no operator", lambda: not u.has(O.TimeDerivative) and not u.has(w, O.Lock))
        one("split by itself", lambda: u.split(u) == (u, 0) and u.split(w, u) == (u, 0))
        one("split by others", lambda: u.split(w) == (0, u) and u.split(O.TimeDerivative) == (0, u) and u.split(w, n) == (0, u))
        one("replace itself", lambda: u.replace(u, w) is w and u.replace(u, 0) == 0)
        one("replace others", lambda: u.replace(w, n) is u and u.replace(O.Lock, abs) is u)
        one("derivative by another variable", lambda: u.sym_diff(k) == 0)
        one("expand", lambda: u.expand(u) is u and u.expand(w) is u)
        if rank == 0:
            one("derivative by itself", lambda: k.sym_diff(k) == 1)


def frechet(chk, g):
    """frechet_differential(X, X1, X0) is d/de F(X0 + e X1) at e = 0, given the contracts of replace and sym_diff."""
    cx = Ctx(chk, g, "cart2")
    F = importlib.import_module("dedalus.core.field").Field
    for n in (1, 2, 3):
        for ranks in itertools.product((0, 1), repeat=n):
            for back in (False, True):
                for gone in (None, "derivative"):
                    def body():
                        mk = lambda s, r: F(g["dist"], bases=g["bases"], tensorsig=(g["cs"],) * r, dtype=g["dtype"], name=s)
                        X = [mk(f"X{i}", r) for i, r in enumerate(ranks)]
                        Y = [mk(f"Y{i}", r) for i, r in enumerate(ranks)]
                        B = [mk(f"B{i}", r) for i, r in enumerate(ranks)]
                        log = []

                        class Node(Opq):
                            """Ghost: the substitutions and derivatives applied so far."""
                            def replace(self, old, new):
                                return self.after(("replace", old, new))

                            def sym_diff(self, var):
                                if gone == "derivative":
                                    log.append(self.hist + (("diff", var),))
                                    return 0
                                return self.after(("diff", var))

                            def after(self, op):
                                x = Node(self.dist, self.domain.bases, self.tensorsig, self.dtype)
                                x.hist = self.hist + (op,)
                                return x
                        f = Node(g["dist"], g["bases"], (), g["dtype"])
                        f.hist = ()
                        r = f.frechet_differential(X, Y, backgrounds=B if back else None)
                        if gone == "derivative":
                            return [] if isinstance(r, Number) and r == 0 else ["vanishing derivative lost"]
                        h = list(r.hist)
                        diffs = [i for i, o in enumerate(h) if o[0] == "diff"]
                        if len(diffs) != 1:
                            raise Bad("not exactly one derivative")
                        d = diffs[0]
                        eps = h[d][1]
                        pre, post = h[:d], h[d + 1:]
                        bad = []
                        if sorted(map(lambda o: id(o[1]), pre)) != sorted(map(id, X)):
                            raise Bad("the variables are not each replaced once before the derivative")
                        V = Values(cx.d3, {**{x: named(x.name, tuple(c.dim for c in x.tensorsig)) for x in X + Y + B}, eps: named("@eps", ())})
                        for _, old, new in pre:
                            i = [x is old for x in X].index(True)
                            if not isinstance(new, Number) and n > 1 and new.has(*[x for j, x in enumerate(X) if j != i]):
                                raise Bad("substitutions are not independent")
                            bad += same(V(new), obj(V(X[i]) + V(Y[i]) * P.var("@eps")))
                        seen = [(o[1], o[2]) for o in post]
                        if not any(o is eps and isinstance(v, Number) and v == 0 for o, v in seen):
                            bad.append("the parameter is not set to zero")
                        rest = [(o, v) for o, v in seen if o is not eps]
                        want = list(zip(X, B)) if back else []
                        if len(rest) != len(want) or any(not any(o is a and v is b for o, v in rest) for a, b in want):
                            bad.append("the variables are not replaced by their backgrounds")
                        return bad
                    settle(cx, f"Frechet differential, ranks {ranks}, backgrounds {back}{', vanishing' if gone else ''}",
                           "Operand.frechet_differential", body)


# ------------------------------------------------------------------ random trees of real fields (bounded)
class Trees:
    def __init__(self, d3, seed):
        self.d3 = d3
        self.cs = cs = d3.CartesianCoordinates("x", "y")
        self.dist = d3.Distributor(cs, dtype=np.float64)
        self.B = (d3.RealFourier(cs["x"], 20, bounds=(0, 2 * np.pi)), d3.ChebyshevT(cs["y"], 12, bounds=(0, 1)))
        self.rng = __import__("random").Random(seed)
        x, y = self.dist.local_grids(*self.B)
        r = np.random.default_rng(seed)

        def fld(name, rank, bases=self.B):
            f = self.dist.TensorField((cs,) * rank, name=name, bases=bases) if rank else self.dist.Field(name=name, bases=bases)
            f["g"]                                     # data of low degree, values well inside the domain of every function
            for i in np.ndindex(*(2,) * rank):
                a = r.uniform(-1, 1, 4)
                X = np.cos(x + 3 * a[0]) if self.B[0] in bases else 0 * x
                Y = y if self.B[1] in bases else 0 * y
                f["g"][i] = (0.5 + 0.15 * (a[1] * X + a[2] * Y + a[3] * X * Y))[: f["g"].shape[-2], : f["g"].shape[-1]]
            return f
        self.vars = {0: [fld("u", 0), fld("v", 0)], 1: [fld("U", 1)]}
        self.pert = {0: [fld("du", 0), fld("dv", 0)], 1: [fld("dU", 1)]}
        self.free = {0: [fld("f", 0), fld("h", 0, (self.B[1],)), fld("c", 0, ())], 1: [fld("G", 1), fld("H", 1, (self.B[1],))]}

    def leaf(self, rank):
        return self.rng.choice(self.vars[rank] * 2 + self.free[rank])

    def tree(self, rank, depth, smooth=False):
        d3, R, cs = self.d3, self.rng, self.cs
        if depth == 0:
            return self.leaf(rank)
        t = lambda r: self.tree(r, depth - 1, smooth)
        ops = [lambda: t(rank) + t(rank), lambda: t(rank) - t(rank), lambda: t(0) * t(rank), lambda: t(rank) * t(0),
               lambda: R.choice([2, -1, 0.5, 3]) * t(rank), lambda: t(rank) / R.choice([2, 4.0]), lambda: -t(rank),
               lambda: d3.Differentiate(self.tree(rank, depth - 1, True), R.choice(cs.coords)), lambda: d3.Laplacian(self.tree(rank, depth - 1, True)),
               lambda: d3.Interpolate(t(rank), cs["y"], R.choice([0, 0.5])), lambda: self.leaf(rank), lambda: self.O().Copy(t(rank))]
        if rank == 0:
            ops += [lambda: t(1) @ t(1), lambda: d3.Divergence(self.tree(1, depth - 1, True)), lambda: d3.Average(t(0), cs["x"]),
                    lambda: d3.Integrate(t(0), cs["y"]), lambda: d3.Trace(t(1) * t(1)), lambda: self.O().CartesianComponent(t(1), 0, cs["y"])]
            if not smooth:
                pos = lambda: 2 + self.leaf(0) * self.leaf(0)
                ops += [lambda: t(0) ** R.choice([2, 3]), lambda: pos() ** R.choice([0.5, -1, -0.5, 1.5]), lambda: np.sin(t(0)), lambda: np.exp(self.leaf(0)),
                        lambda: np.log(pos()), lambda: np.sqrt(pos()), lambda: np.tanh(t(0)), lambda: t(0) / pos()]
        else:
            ops += [lambda: d3.Gradient(self.tree(0, depth - 1, True)), lambda: d3.Skew(t(1)), lambda: (t(1) * t(1)) @ t(1),
                    lambda: d3.TransposeComponents(t(1) * t(1)) @ t(1)]
        while True:                 # (averages over constant directions and the like are not expressible)
            try:
                return R.choice(ops)()
            except Exception:
                pass

    def O(self):
        return importlib.import_module("dedalus.core.operators")

    def case(self, what):
        R = self.rng
        e = self.tree(R.choice([0, 0, 1]), R.choice([1, 2, 2, 3]))
        if isinstance(e, Number):
            return None
        allv = self.vars[0] + self.vars[1]
        some = R.sample(allv, R.choice([1, 1, 2, 3]))
        val = lambda z: nval(z)
        if what == "split":
            r = e.split(*some)
            if isinstance(r[1], Operand()) and r[1].has(*some):
                return {"expression": str(e), "variables": str(some), "second part": str(r[1])}
            bad = ndiff(val(r[0]) + val(r[1]), val(e))
            got = r
            zero = [] if e.has(*some) else [r[0]]
            if zero and np.any(val(zero[0])):
                bad = "first part not zero"
        elif what == "expand":
            got = e.expand(*some)
            bad = ndiff(val(got), val(e), 1e-6)
        elif what == "replace":
            o = some[0]
            new = R.choice(self.free[len(o.tensorsig)][:1] + [0] + [self.leaf(0) * self.leaf(len(o.tensorsig))])
            if isinstance(new, Number) and self.roots(e):
                return None
            got = e.replace(o, new)
            g = val(got)
            old = o.copy()
            o["g"] = val(new)
            w = val(e)
            o["g"] = old["g"]
            bad = ndiff(g, w)
        else:
            pert = {x: q for r in self.vars for x, q in zip(self.vars[r], self.pert[r])}
            got = e.frechet_differential(some, [pert[x] for x in some])
            g = val(got)
            base = {x: np.array(x["g"]) for x in some}
            w = []
            h = 1e-2
            for s in (h, -h, 2 * h, -2 * h):
                for x in some:
                    x["g"] = base[x] + s * pert[x]["g"]
                w.append(val(e))
            for x in some:
                x["g"] = base[x]
            bad = ndiff(g, (8 * (w[0] - w[1]) - (w[2] - w[3])) / (12 * h), 1e-4)
        if bad:
            return {"expression": str(e), "variables": str(some), what: str(got), "value": str(bad)}

    def roots(self, e):
        O = self.O()
        return isinstance(e, Operand()) and (isinstance(e, (O.Power, O.UnaryGridFunction)) or any(self.roots(a) for a in getattr(e, "args", ())))


def random_trees(case):
    import dedalus.public as d3
    what, seed, n = case
    T = Trees(d3, seed)
    for _ in range(n):
        st = T.rng.getstate()
        bad = T.case(what)
        if bad:
            return bad


def run(chk):
    make_opq()
    G = geometries()
    chk.assume("variables of differentiation are constants in space; nonlinear functions and powers act on scalars")
    chk.assume("linear operators commute with constants (S01, N01); first derivatives and time derivatives obey the product rule")
    chk.trust("sympy (calculus identities of the nonlinear functions)")
    chk.contract("fields", "Field", lambda: leaf(chk, G["cart2"]))
    for name, g in G.items():
        chk.contract(f"operators [{name}]", "LinearOperator", lambda: unop(chk, name, g))
        chk.contract(f"sums and products [{name}]", "Add, Multiply, DotProduct, CrossProduct", lambda: binop(chk, name, g))
    chk.contract("powers", "Power", lambda: powers(chk, G["cart2"]))
    chk.contract("functions", "UnaryGridFunction", lambda: functions(Ctx(chk, G["cart2"], "cart2")))
    chk.contract("Frechet differential", "Operand.frechet_differential", lambda: frechet(chk, G["cart2"]))
    m = 60 if chk.thorough else 20
    cases = [(w, chk.seed + 7 * k, 12) for k in range(m) for w in ("split", "expand", "replace", "frechet")]
    chk.bounded("random expression trees of real fields", f"{12 * len(cases)} trees of depth <= 3", cases, random_trees, budget=600 if chk.thorough else 200)
    import random
    idx = list(range(len(CONCRETE)))
    random.Random(chk.seed).shuffle(idx)
    idx = idx[:None if chk.thorough else 400]
    chk.bounded("the proved cases on real fields", f"{len(idx)} of {len(CONCRETE)} cases", idx,
                lambda i: (lambda r: {"case": CONCRETE[i][0], **r} if r else None)(CONCRETE[i][1]()), budget=500 if chk.thorough else 120)
