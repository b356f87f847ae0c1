"""Loop cutting for ordinary Python functions.

`cut(fn, cutters)` takes the current source text of `fn` (inspect.getsource, re-read on every run),
and replaces each outermost `for TARGET in ITER: BODY` mechanically by

    it = ITER                                      # evaluated as written
    cutter.enter(it, locals())                     # obligations: the invariant holds on entry
    v1, .., vk = cutter.havoc(names, locals())     # every name the body assigns gets an arbitrary value
    if cutter.step():                              # both branches are explored
        TARGET = cutter.index()
        BODY
        cutter.preserve(locals())                  # obligations: the invariant holds again
        raise Done
    v1, .., vk = cutter.leave(names, locals())     # an arbitrary state after the last iteration

The rest of the function is untouched.  `continue` inside the body jumps to the preservation
obligations; `break`, `return` and `else` in a cut loop are outside the subset (Unsupported), as is a
function whose loops are not as many as its cutters.  Dropped: decorators.
"""

import ast
import inspect
import textwrap

from .sym import Unsupported, ctx, SymBool
import z3


class Done(Exception):
    """The path that checks one arbitrary iteration ends here."""


def assigned(stmts):
    names = []

    def add(t):
        if isinstance(t, ast.Name):
            if t.id not in names:
                names.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                add(e)
        elif isinstance(t, ast.Starred):
            add(t.value)

    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    add(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                add(n.target)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                add(n.optional_vars)
            elif isinstance(n, ast.NamedExpr):
                add(n.target)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ("append", "extend", "insert", "pop", "add", "update", "remove", "clear"):
                # the body changes the container the name is bound to
                add(n.func.value)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                raise Unsupported("function defined inside a cut loop")
    return names


class _Cut(ast.NodeTransformer):

    def __init__(self, want):
        self.count = 0
        self.want = want

    def visit_FunctionDef(self, node):
        if self.count == 0 and not getattr(self, "inside", False):
            self.inside = True
            self.generic_visit(node)
        return node

    def visit_Lambda(self, node):
        return node

    def visit_While(self, node):
        raise Unsupported("while loop without an invariant")

    def visit_For(self, node):
        if node.orelse:
            raise Unsupported("for-else")
        depth = [(s, False) for s in node.body]
        while depth:
            s, inner = depth.pop()
            if isinstance(s, ast.Return) or (isinstance(s, ast.Break) and not inner):
                raise Unsupported("break or return in a cut loop")
            inn = inner or isinstance(s, (ast.For, ast.While))
            depth += [(c, inn) for c in ast.iter_child_nodes(s) if not isinstance(c, (ast.FunctionDef, ast.Lambda))]
        k = self.count
        self.count += 1
        names = [n for n in assigned(node.body)]
        target = [n for n in assigned([ast.Assign(targets=[node.target], value=ast.Constant(0))])]
        names = [n for n in names if n not in target]
        L = f"__loops__[{k}]"
        tmpl = [f"__it{k} = None", f"{L}.enter(__it{k}, locals())"]
        pre = ast.parse("\n".join(tmpl)).body
        pre[0].value = node.iter

        def fill(how):
            src = f"__h{k} = {L}.{how}({names!r}, locals())\n"
            for n in names:
                src += f"if {n!r} in __h{k}: {n} = __h{k}[{n!r}]\n"
            return ast.parse(src).body
        step = ast.parse(f"if {L}.step():\n    pass").body[0]
        inner = ast.parse(f"for __once{k} in (0,):\n    pass").body[0]
        bind = ast.Assign(targets=[node.target], value=ast.parse(f"{L}.index(locals())", mode="eval").body)
        inner.body = [bind] + node.body
        step.body = [inner] + ast.parse(f"{L}.preserve(locals())\nraise __Done__()").body
        return pre + fill("havoc") + [step] + fill("leave")


def cut(fn, cutters, names=None):
    """The function with its loops cut; globals are those of the module (live), plus `names`."""
    fn = inspect.unwrap(getattr(fn, "__func__", fn))
    try:
        text = textwrap.dedent(inspect.getsource(fn))
    except (OSError, TypeError) as e:
        raise Unsupported(f"no source: {e}")
    tree = ast.parse(text)
    d = tree.body[0]
    if not isinstance(d, ast.FunctionDef):
        raise Unsupported("not a plain function")
    d.decorator_list = []
    if fn.__closure__:
        raise Unsupported("closure")
    t = _Cut(len(cutters))
    d = t.visit(d)
    if t.count != len(cutters):
        raise Unsupported(f"{t.count} loops where the contract has {len(cutters)} invariants")
    ast.fix_missing_locations(tree)
    g = dict(fn.__globals__)
    g.update(names or {})
    g["__loops__"] = cutters
    g["__Done__"] = Done
    exec(compile(tree, f"<cut {fn.__qualname__}>", "exec"), g)
    return g[d.name]


class Cutter:
    """Base: subclasses give start(it, loc), state(names, loc), index(loc), check(loc), final(names, loc)."""

    def enter(self, it, loc):
        raise NotImplementedError

    def havoc(self, names, loc):
        raise NotImplementedError

    def step(self):
        return bool(SymBool(z3.Bool(ctx().fresh("iterate"))))

    def index(self, loc):
        raise NotImplementedError

    def preserve(self, loc):
        raise NotImplementedError

    def leave(self, names, loc):
        raise NotImplementedError


class Range:
    """range()/reversed(range()) with a symbolic bound: first, last index and direction."""

    def __init__(self, first, last, step):
        self.first, self.last, self.step = first, last, step

    def __reversed__(self):
        return Range(self.last, self.first, -self.step)

    def __iter__(self):
        raise Unsupported("loop with a symbolic bound and no invariant")


def sym_range(*a):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int) or abs(st) != 1:
        raise Unsupported("range with a step")
    return Range(lo, hi - st, st)


def sym_reversed(x):
    return x.__reversed__() if isinstance(x, Range) else reversed(x)
