"""Verification-condition generator for the loops of the compiled (.pyx) modules.

The function is cut out of the current source text on every run and lowered mechanically:
dropped are decorators, C types of arguments and of `cdef` declarations (kept aside as sorts),
`cdef` declarations without a value, `nogil`/`num_threads`/`schedule` arguments of prange, and
`<type>` casts.  Nothing else is changed.  The lowered statements are executed symbolically:
integers are mathematical, floating dtypes are reals, arrays are functions of their indices.

Loops are cut by invariants (init / preservation obligations; the variables and arrays that the
body assigns are havocked).  `prange` loops are judged by an ownership rule: every iteration
starts from the entry values of the cells it owns, may write and read only owned cells of
modified arrays (obligations), and establishes its own postcondition; hence any schedule gives
the same result.  Every array access produces an in-bounds obligation (the modules are compiled
with boundscheck off), so no other memory is touched.
"""

import ast
import re

import z3

from .sym import Unsupported

INT_TYPES = {"int", "index", "long", "short", "unsigned int", "Py_ssize_t", "size_t", "p_t", "ptrdiff_t", "unsigned",
             "bint"}


def cut(source, name):
    """Source lines of the (c)def function `name` at any indentation, dedented; None if absent."""
    lines = source.split("\n")
    pat = re.compile(r"^(\s*)(?:cp?def|def)\s+(?:[\w\s\*]*?\s)?%s\s*\(" % re.escape(name))
    for n, line in enumerate(lines):
        m = pat.match(line)
        if m:
            ind = len(m.group(1))
            out = [line[ind:]]
            for l in lines[n+1:]:
                s = l.strip()
                if s and len(l) - len(l.lstrip()) <= ind and not s.startswith((")", "#")):
                    break
                out.append(l[ind:])
            return "\n".join(out)
    return None


class Lowered:
    """name, args [(name, sort, rank)], body (Python ast), sorts of locals."""

    def __init__(self, source, name):
        text = cut(source, name)
        if text is None:
            raise Unsupported(f"no function {name} in the source")
        self.name = name
        self.text = text
        i = text.index("(")
        depth, j = 0, i
        while True:
            depth += {"(": 1, "[": 1, ")": -1, "]": -1}.get(text[j], 0)
            if depth == 0:
                break
            j += 1
        self.args = []
        for part in self._split(text[i+1:j]):
            if part == "self":
                self.args.append(("self", None, None))
                continue
            part = part.split("=")[0].strip()
            m = re.match(r"^(.*?)(\w+)$", part, re.S)
            typ, nm = m.group(1).strip(), m.group(2)
            self.args.append((nm,) + self._type(typ))
        rest = text[j+1:]
        body = rest[rest.index(":")+1:]
        self.sorts = {}
        src = []
        for l in body.split("\n"):
            ind, s = l[:len(l)-len(l.lstrip())], l.strip()
            s = re.sub(r"<\s*\w+\s*>\s*", "", s)
            if s.startswith("cdef "):
                m = re.match(r"^cdef\s+(.*)$", s)
                decl = m.group(1)
                m = re.match(r"^((?:const\s+|unsigned\s+)*[\w\.]+(?:\s*\[[^\]]*\])?)\s+(.*)$", decl)
                typ, names = m.group(1), m.group(2)
                if names.startswith("="):      # e.g. "cdef unsigned flags = 0"
                    typ, nm = typ.rsplit(None, 1)
                    names = f"{nm} {names}"
                sort = self._type(typ)
                if "=" in names:
                    nm = names.split("=")[0].strip()
                    self.sorts[nm] = sort
                    src.append(ind + names)
                else:
                    for nm in self._split(names):
                        self.sorts[nm] = sort
                    src.append(ind + "pass")
            else:
                src.append(l[:len(ind)] + s)
        py = f"def {name}({', '.join(a[0] for a in self.args)}):\n" + "\n".join(src) + "\n"
        self.python = py
        try:
            self.ast = ast.parse(py).body[0]
        except SyntaxError as e:
            raise Unsupported(f"lowering of {name}: {e}")
        self.body = self.ast.body

    @staticmethod
    def _split(s):
        out, depth, cur = [], 0, ""
        for c in s:
            depth += {"(": 1, "[": 1, ")": -1, "]": -1}.get(c, 0)
            if c == "," and depth == 0:
                out.append(cur)
                cur = ""
            else:
                cur += c
        out.append(cur)
        return [x.strip() for x in out if x.strip()]

    @staticmethod
    def _type(typ):
        t = typ.replace("const ", "").strip()
        m = re.match(r"^([\w\.\s]+?)\s*\[(.*)\]$", t)
        if m:
            base = m.group(1).strip()
            return ("int" if base in INT_TYPES else "real", len(m.group(2).split(",")))
        if t in INT_TYPES:
            return ("int", 0)
        if t in ("double", "float", "dtype", "double complex", "float complex"):
            return ("real", 0)
        return ("obj", 0)


class Arr:
    """Array value: shape terms and a function of index terms."""

    def __init__(self, name, shape, read, sort):
        self.name, self.shape, self.read, self.sort = name, list(shape), read, sort

    def store(self, idx, v):
        old = self.read
        return Arr(self.name, self.shape,
                   lambda *a: z3.If(z3.And(*[x == y for x, y in zip(a, idx) if y is not None] or [z3.BoolVal(True)]),
                                    v(*a), old(*a)), self.sort)


def fn_array(name, rank, sort, shape):
    f = z3.Function(name, *([z3.IntSort()] * rank), z3.IntSort() if sort == "int" else z3.RealSort())
    return Arr(name, shape, lambda *a: f(*a), sort)


class S:
    """View of a state for specifications."""

    def __init__(self, vc, st, entry, loops, info):
        self.vc, self.st, self.entry, self.loops, self.info = vc, st, entry, loops, info

    def __getitem__(self, k):
        return self.st[k]

    def arg(self, i):
        return self.st[self.vc.low.args[i][0]]

    def arg0(self, i):
        return self.vc.st0[self.vc.low.args[i][0]]

    @property
    def v(self):
        return self.loops[-1]

    def acc(self):
        """The only real scalar that the loop updates and that is live at its entry."""
        names = [n for n in self.info["mod"] if n in self.entry and not isinstance(self.entry[n], Arr)
                 and z3.is_real(self.entry[n])]
        if len(names) != 1:
            raise Unsupported(f"accumulator of the loop not identified: {names}")
        return self.st[names[0]], self.entry[names[0]]


def loop_shape(stmts, path=()):
    """Positions and kinds of all loops."""
    out = []
    n = 0
    for s in stmts:
        if isinstance(s, ast.For):
            p = path + (n,)
            n += 1
            kind = s.iter.func.id if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) else "?"
            out.append((p, kind))
            out += loop_shape(s.body, p)
        elif isinstance(s, ast.If):
            out += loop_shape(s.body, path + ("if",)) + loop_shape(s.orelse, path + ("else",))
    return out


class VC:
    """Verification conditions of one lowered function.

    spec: dict with
      args     : list of initial values (Arr or terms), one per argument
      pre      : assumptions (definitions of ghost functions included)
      inv      : {loop path: f(S) -> [(label, formula)]}
      owner    : {prange path: f(S, array name, idx) -> iteration index}
      each     : {prange path: f(S) -> [(label, formula)]}   (S.v is the iteration)
      post     : f(S) -> [(label, formula)]
      inst     : {loop path: f(S) -> [formula]}  instances of ghost definitions at the iteration
      attrs    : {attribute name of self: term or Arr}
    """

    def __init__(self, low, spec):
        self.low, self.spec = low, spec
        self.obls = []
        self.n = 0

    def fresh(self, stem, sort):
        self.n += 1
        return z3.Int(f"{stem}!{self.n}") if sort == "int" else z3.Real(f"{stem}!{self.n}")

    def run(self):
        st = {}
        for (nm, _, _), v in zip(self.low.args, self.spec["args"]):
            st[nm] = v
        self.st0 = dict(st)
        self.pranges = []
        pc = list(self.spec.get("pre", []))
        st = self.block(self.low.body, st, pc, (), [])
        for lab, f in self.spec["post"](S(self, st, self.st0, [], {})):
            self.obls.append((f"post: {lab}", list(pc), f))
        return self.obls

    # ---- statements
    def block(self, stmts, st, pc, path, loops):
        n = 0
        for s in stmts:
            if isinstance(s, ast.Expr):
                if isinstance(s.value, ast.Constant):
                    continue
                raise Unsupported(f"expression statement {ast.unparse(s)}")
            elif isinstance(s, ast.Pass):
                continue
            elif isinstance(s, ast.Assign):
                if len(s.targets) != 1:
                    raise Unsupported("chained assignment")
                st = self.assign(s.targets[0], s.value, st, pc, loops)
            elif isinstance(s, ast.AugAssign):
                val = ast.BinOp(left=_load(s.target), op=s.op, right=s.value)
                st = self.assign(s.target, val, st, pc, loops)
            elif isinstance(s, ast.For):
                st = self.loop(s, st, pc, path + (n,), loops)
                n += 1
            elif isinstance(s, ast.If):
                c = self.expr(s.test, st, pc)
                a = self.block(s.body, dict(st), pc + [c], path + ("if",), loops)
                b = self.block(s.orelse, dict(st), pc + [z3.Not(c)], path + ("else",), loops)
                st = self.merge(c, a, b)
            else:
                raise Unsupported(f"statement {type(s).__name__}")
        return st

    def merge(self, c, a, b):
        out = {}
        for k in a:
            if k not in b:
                continue
            x, y = a[k], b[k]
            if x is y:
                out[k] = x
            elif isinstance(x, Arr):
                out[k] = Arr(x.name, x.shape, (lambda x, y: lambda *i: z3.If(c, x.read(*i), y.read(*i)))(x, y), x.sort)
            else:
                out[k] = z3.If(c, x, y)
        return out

    def assign(self, tgt, value, st, pc, loops):
        st = dict(st)
        if isinstance(tgt, ast.Name):
            v = self.expr(value, st, pc)
            sort = self.low.sorts.get(tgt.id)
            if sort and sort[0] == "real" and not isinstance(v, Arr) and z3.is_int(v):
                v = z3.ToReal(v)
            if sort and sort[0] == "int" and not isinstance(v, Arr) and z3.is_real(v):
                raise Unsupported("real value stored in an integer")
            st[tgt.id] = v
            return st
        if isinstance(tgt, ast.Subscript) and isinstance(tgt.value, ast.Name):
            arr = st.get(tgt.value.id)
            if not isinstance(arr, Arr):
                raise Unsupported("store into a non-array")
            idx = self.index(tgt.slice, arr, st, pc)
            free = [n for n, i in enumerate(idx) if i is None]
            if not free:
                v = self.expr(value, st, pc)
                if arr.sort == "real" and z3.is_int(v):
                    v = z3.ToReal(v)
                fn = lambda *a: v
            else:
                if not (isinstance(value, ast.Subscript) and isinstance(value.value, ast.Name)):
                    raise Unsupported("slice assignment from an expression")
                src = st[value.value.id]
                sidx = self.index(value.slice, src, st, pc)
                sfree = [n for n, i in enumerate(sidx) if i is None]
                if len(sfree) != len(free):
                    raise Unsupported("slice ranks differ")
                for p, q in zip(free, sfree):
                    self.ob("slice lengths agree", pc, arr.shape[p] == src.shape[q])
                if src is arr:
                    raise Unsupported("aliasing slice assignment")
                def fn(*a, src=src, sidx=sidx, free=free, sfree=sfree):
                    full = list(sidx)
                    for p, q in zip(free, sfree):
                        full[q] = a[p]
                    return src.read(*full)
            self.own(arr.name, idx, pc, free)
            st[tgt.value.id] = arr.store(idx, fn)
            return st
        raise Unsupported(f"assignment target {ast.unparse(tgt)}")

    def ob(self, name, pc, goal):
        self.obls.append((name, list(pc), goal))

    def own(self, name, idx, pc, free=()):
        for p in self.pranges:
            if name in p["arrays"]:
                if free:
                    ii = [z3.FreshInt("any") if i is None else i for i in idx]
                else:
                    ii = idx
                self.ob("iteration accesses only cells it owns", pc, p["owner"](name, ii) == p["v"])

    def index(self, sl, arr, st, pc):
        els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        idx = []
        for e in els:
            if isinstance(e, ast.Slice):
                if e.lower or e.upper or e.step:
                    raise Unsupported("partial slice")
                idx.append(None)
            else:
                idx.append(self.expr(e, st, pc))
        while len(idx) < len(arr.shape):
            idx.append(None)
        if len(idx) != len(arr.shape):
            raise Unsupported("index rank")
        for k, i in enumerate(idx):
            if i is not None:
                self.ob(f"index {k} of {arr.name} in bounds", pc, z3.And(0 <= i, i < arr.shape[k]))
        return idx

    def modified(self, stmts):
        names, arrays = set(), set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Name):
                            names.add(t.id)
                        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            arrays.add(t.value.id)
                elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                    names.add(n.target.id)
        return names, arrays

    def havoc(self, st, names, arrays):
        st = dict(st)
        for n in names:
            if n in st:
                v = st[n]
                if isinstance(v, Arr):
                    raise Unsupported("array rebound in a loop")
                st[n] = self.fresh(n, "real" if z3.is_real(v) else "int")
            elif n in self.low.sorts and self.low.sorts[n][1] == 0 and self.low.sorts[n][0] != "obj":
                st[n] = self.fresh(n, self.low.sorts[n][0])
        for n in arrays:
            v = st[n]
            self.n += 1
            st[n] = fn_array(f"{v.name}!{self.n}", len(v.shape), v.sort, v.shape)
            st[n].name = v.name
        return st

    def loop(self, s, st, pc, path, loops):
        if not (isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)) or s.orelse:
            raise Unsupported("loop form")
        kind = s.iter.func.id
        a = [self.expr(x, st, pc) for x in s.iter.args]
        var = s.target.id
        if kind == "prange":
            if len(a) == 1:
                lo, hi = z3.IntVal(0), a[0]
            else:
                lo, hi = a[0], a[1]
            step = 1
        elif kind == "range":
            lo, hi, step = z3.IntVal(0), None, 1
            if len(a) == 1:
                hi = a[0]
            else:
                lo, hi = a[0], a[1]
            if len(a) == 3:
                c = z3.simplify(a[2])
                if not z3.is_int_value(c) or c.as_long() not in (1, -1):
                    raise Unsupported("loop step")
                step = c.as_long()
        else:
            raise Unsupported(f"loop over {kind}")
        names, arrays = self.modified(s.body)
        names.add(var)
        info = {"mod": names - {var}, "lo": lo, "hi": hi}
        within = lambda v: z3.And(lo <= v, v < hi) if step == 1 else z3.And(v <= lo, v > hi)
        tag = "loop " + ".".join(map(str, path))
        if kind == "prange" and path in self.spec.get("each", {}):
            return self.ploop(s, st, pc, path, loops, lo, hi, names, arrays, info, tag)
        if path not in self.spec["inv"]:
            raise Unsupported(f"no invariant for {tag}")
        inv = self.spec["inv"][path]
        for lab, f in inv(S(self, {**st, var: lo}, st, loops + [lo], info)):
            self.ob(f"{tag}: invariant initially: {lab}", pc, f)
        h = self.havoc(st, names, arrays)
        v = self.fresh(var, "int")
        h[var] = v
        pre = pc + [within(v)] + [f for _, f in inv(S(self, h, st, loops + [v], info))]
        if path in self.spec.get("inst", {}):      # instances of ghost definitions at this iteration
            pre += self.spec["inst"][path](S(self, h, st, loops + [v], info))
        after = self.block(s.body, dict(h), pre, path, loops + [v])
        if after.get(var) is not v:
            raise Unsupported("loop variable assigned in the body")
        nxt = {**after, var: v + step}
        for lab, f in inv(S(self, nxt, st, loops + [v + step], info)):
            self.ob(f"{tag}: invariant preserved: {lab}", pre, f)
        # exit
        out = self.havoc(st, names, arrays)
        e = z3.If(lo < hi, hi, lo) if step == 1 else z3.If(lo > hi, hi, lo)
        for lab, f in inv(S(self, {**out, var: e}, st, loops + [e], info)):
            pc.append(f)
        out.pop(var, None)
        return out

    def ploop(self, s, st, pc, path, loops, lo, hi, names, arrays, info, tag):
        var = s.target.id
        owner = self.spec["owner"][path]
        each = self.spec["each"][path]
        h = self.havoc(st, names, arrays)
        v = self.fresh(var, "int")
        h[var] = v
        own = lambda nm, ii: owner(S(self, h, st, loops + [v], info), nm, ii)
        pre = pc + [lo <= v, v < hi]
        for n in arrays:
            k = [z3.FreshInt("c") for _ in st[n].shape]
            pre.append(z3.ForAll(k, z3.Implies(own(st[n].name, k) == v, h[n].read(*k) == st[n].read(*k)),
                                 patterns=[h[n].read(*k)]))
        self.pranges.append({"arrays": {st[n].name for n in arrays}, "owner": own, "v": v})
        after = self.block(s.body, dict(h), pre, path, loops + [v])
        self.pranges.pop()
        for lab, f in each(S(self, after, st, loops + [v], info)):
            self.ob(f"{tag}: iteration establishes: {lab}", pre, f)
        out = self.havoc(st, names, arrays)
        w = z3.FreshInt("it")
        for lab, f in each(S(self, out, st, loops + [w], info)):
            pc.append(z3.ForAll([w], z3.Implies(z3.And(lo <= w, w < hi), f)))
        for n in arrays:
            k = [z3.FreshInt("c") for _ in st[n].shape]
            o = own(st[n].name, k)
            pc.append(z3.ForAll(k, z3.Implies(z3.Or(o < lo, o >= hi), out[n].read(*k) == st[n].read(*k)),
                                patterns=[out[n].read(*k)]))
        for n in names:
            out.pop(n, None)     # private after a parallel loop
        return out

    # ---- expressions
    def expr(self, e, st, pc):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return z3.BoolVal(e.value)
            if isinstance(e.value, int):
                return z3.IntVal(e.value)
            if isinstance(e.value, float):
                return z3.RealVal(repr(e.value))
            raise Unsupported("constant")
        if isinstance(e, ast.Name):
            if e.id in st:
                return st[e.id]
            g = self.spec.get("globals", {})
            if e.id in g:
                return g[e.id]
            raise Unsupported(f"name {e.id} read before assignment")
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                at = self.spec.get("attrs", {})
                if e.attr in at:
                    return at[e.attr]
            if isinstance(e.value, ast.Attribute):
                key = ast.unparse(e)
                at = self.spec.get("attrs", {})
                key = key.replace("self.", "", 1)
                if key in at:
                    return at[key]
            raise Unsupported(f"attribute {ast.unparse(e)}")
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
                arr = self.expr(e.value.value, st, pc)
                k = self.expr(e.slice, st, pc)
                k = z3.simplify(k)
                if isinstance(arr, Arr) and z3.is_int_value(k):
                    return arr.shape[k.as_long()]
                raise Unsupported("shape index")
            arr = self.expr(e.value, st, pc)
            if not isinstance(arr, Arr):
                raise Unsupported("subscript of a non-array")
            idx = self.index(e.slice, arr, st, pc)
            if any(i is None for i in idx):
                raise Unsupported("slice value")
            self.own(arr.name, idx, pc)
            return arr.read(*idx)
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, st, pc)
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.Not):
                return z3.Not(v)
            if isinstance(e.op, ast.UAdd):
                return v
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left, st, pc), self.expr(e.right, st, pc)
            ints = z3.is_int(a) and z3.is_int(b)
            if not ints:
                a, b = [z3.ToReal(x) if z3.is_int(x) else x for x in (a, b)]
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, (ast.FloorDiv, ast.Mod)) or (ints and isinstance(e.op, ast.Div)):
                if not ints:
                    raise Unsupported("floor division of reals")
                self.ob("integer division of nonnegative by positive", pc, z3.And(a >= 0, b > 0))
                return a % b if isinstance(e.op, ast.Mod) else a / b
            if isinstance(e.op, ast.Div):
                self.ob("divisor nonzero", pc, b != 0)
                return a / b
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.expr(e.left, st, pc), self.expr(e.comparators[0], st, pc)
            op = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                  ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}.get(type(e.ops[0]))
            if op:
                return op()
        if isinstance(e, ast.BoolOp):
            vs = [self.expr(x, st, pc) for x in e.values]
            return z3.And(*vs) if isinstance(e.op, ast.And) else z3.Or(*vs)
        raise Unsupported(f"expression {ast.unparse(e)}")


def _load(t):
    return ast.parse(ast.unparse(t), mode="eval").body


def emit(chk, func, vc, replay, observable=False, timeout=10):
    """Discharge all obligations of a VC (equal names numbered)."""
    seen = {}
    for name, pc, goal in vc.run():
        seen[name] = seen.get(name, 0) + 1
        nm = f"{func}: {name}" + (f" #{seen[name]}" if seen[name] > 1 else "")
        chk.obl(nm, func, pc, goal, replay=replay, observable=observable, timeout=timeout)
