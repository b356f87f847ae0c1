"""Exact algebra back end: rational-function normal forms over Q (sympy polys).

`zero(t, names)` decides whether a z3 real term built from + - * / and constants is
identically zero as a rational function (its denominators being nonzero is a separate,
already discharged obligation of each division)."""

import z3
from fractions import Fraction
from sympy.polys.fields import field
from sympy import QQ

from .sym import Unsupported


def variables(t, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED if z3.is_app(e) else False:
            # an application of an uninterpreted function is a generator of its own
            acc[gen_name(e)] = e
            continue
        stack.extend(e.children())
    return acc


def gen_name(e):
    return e.decl().name() if e.num_args() == 0 else f"{e.decl().name()}@{e.get_id()}"


def to_field(t, F, gens, memo):
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    if z3.is_rational_value(t):
        r = F(QQ(t.numerator_as_long(), t.denominator_as_long()))
    elif z3.is_int_value(t):
        r = F(QQ(t.as_long(), 1))
    else:
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_UNINTERPRETED:
            r = gens[gen_name(t)]
        elif d == z3.Z3_OP_ADD:
            r = F(0)
            for c in ch:
                r = r + to_field(c, F, gens, memo)
        elif d == z3.Z3_OP_MUL:
            r = F(1)
            for c in ch:
                r = r * to_field(c, F, gens, memo)
        elif d == z3.Z3_OP_SUB:
            r = to_field(ch[0], F, gens, memo)
            for c in ch[1:]:
                r = r - to_field(c, F, gens, memo)
        elif d == z3.Z3_OP_UMINUS:
            r = -to_field(ch[0], F, gens, memo)
        elif d == z3.Z3_OP_DIV:
            r = to_field(ch[0], F, gens, memo) / to_field(ch[1], F, gens, memo)
        elif d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            n = ch[1].numerator_as_long()
            b = to_field(ch[0], F, gens, memo)
            r = b ** n if n >= 0 else 1 / b ** (-n)
        elif d == z3.Z3_OP_TO_REAL:
            r = to_field(ch[0], F, gens, memo)
        else:
            raise Unsupported(f"term outside the field of rational functions: {t.decl().name()}")
    memo[k] = (r, t)
    return r


def normal_form(t, extra=()):
    vs = variables(t)
    for e in extra:
        variables(e, vs)
    names = sorted(vs)
    if not names:
        names = ["_one"]
    F, *g = field([f"x{i}" for i in range(len(names))], QQ)
    gens = dict(zip(names, g))
    return to_field(t, F, gens, {}), F, gens


def is_zero(t):
    r, F, g = normal_form(t)
    return r == 0, str(r)
