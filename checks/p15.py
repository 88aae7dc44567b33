"""P15: no branch of the program uses a name, an attribute or a parameter that does not exist.

Rules over every function of the package (resolved syntax tree):
  names       every name read is bound in the function, an enclosing one, the module at run time or the builtins
  unbound     on every path through the function a local variable is assigned before it is read
  attribute   every attribute read from an object of this package is defined for its class
  call        every call of a function, method or class of this package passes arguments its signature accepts
"""
from __future__ import annotations

import ast
import builtins
import copy
import re
import symtable

from sa.flow import Exits, Walker, shallow
from sa.model import ClassInfo, _is_type_checking, dotted, own_nodes
from sa.par import run_jobs
from sa.report import Result
from sa.resolve import Resolver

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__"}


# ------------------------------------------------------------------ names
class Strip(ast.NodeTransformer):
    """The module as it exists at run time: no annotations (they are not evaluated), no type-checking imports."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        n.annotation = ast.copy_location(ast.Constant(value=0), n.annotation)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if _is_type_checking(n.test):
            n.body = [ast.copy_location(ast.Pass(), n)]
        return n


def lazy_annotations(tree):
    return any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in tree.body)


def names(res, prog, m):
    tree = copy.deepcopy(m.tree)
    if lazy_annotations(tree):
        tree = ast.fix_missing_locations(Strip().visit(tree))
    if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(tree)):
        res.count("modules_skipped")
        return
    top = symtable.symtable(ast.unparse(tree), str(m.path), "exec")
    have = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()} | BUILTINS
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            have |= set(n.names)

    def walk(t, trail):
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            res.count("names")
            if t.get_type() == "module":
                bad = s.get_name() not in have
            elif t.get_type() == "class":
                bad = not s.is_assigned() and not s.is_imported() and s.is_global() and s.get_name() not in have | {"__module__", "__qualname__", "__class__"}
            else:
                bad = s.is_global() and s.get_name() not in have
            if bad:
                fn = ".".join(trail)
                line = next((x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == s.get_name() and isinstance(x.ctx, ast.Load)), 0)
                only = " (it is imported for type checking only)" if s.get_name() in m.type_only else ""
                res.add("names", f"{m.name}.{fn}|{s.get_name()}", f"{fn or 'module'} uses the name {s.get_name()}, which does not exist at run time{only}", m.relpath, line)
        for c in t.get_children():
            if c.get_type() != "annotation":
                walk(c, trail + ([c.get_name()] if c.get_type() in ("function", "class") and c.get_name() not in ("lambda", "genexpr", "listcomp", "dictcomp", "setcomp") else []))
    walk(top, [])


# ------------------------------------------------------------------ unbound locals
class Unbound(Walker):
    """State: (names not yet assigned, facts about tests)."""

    def __init__(self, fnode, locs, never=frozenset()):
        self.fnode = fnode
        self.locs = locs
        self.bad = {}
        # names that occur in one test only cannot relate two of them
        self.tested = {}
        for n in own_nodes(fnode):
            ts = [n.test] if isinstance(n, (ast.If, ast.While, ast.Assert, ast.IfExp)) else [n.value] if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.Constant)) else []
            for t in ts:
                for x in {y.id for y in ast.walk(t) if isinstance(y, ast.Name)} | ({n.targets[0].id} if isinstance(n, ast.Assign) else set()):
                    self.tested[x] = self.tested.get(x, 0) + 1
        # subjects compared with several constants: the constants are taken to be all its values
        self.values = {}
        for n in own_nodes(fnode):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) and self.const(n.comparators[0]):
                c = n.comparators[0]
                self.values.setdefault(ast.unparse(n.left), set()).update([f"{ast.unparse(n.left)} == {c.value!r}"] if isinstance(c, ast.Constant) else [f"{ast.unparse(n.left)} in {ast.unparse(c)}"])
        self.values = {k: v for k, v in self.values.items() if len(v) > 1}
        self.never = never
        self.noreturn = {n.name for n in ast.walk(fnode) if isinstance(n, ast.FunctionDef) and n is not fnode and n.body and isinstance(n.body[-1], ast.Raise) and not any(isinstance(x, ast.Return) for x in ast.walk(n))}

    # facts: frozenset of (text, truth)
    def use(self, node, st):
        if not st[0]:
            return
        no = None
        for n in self.reads(node):
            if n.id in st[0]:
                if no is None:
                    no = {f[0] for f in st[1] if not f[1]}
                if any(v <= no for v in self.values.values()):
                    continue
                self.bad.setdefault(n.id, n)

    def reads(self, node):
        """Name reads evaluated now (not inside nested functions; comprehension variables excluded)."""
        out = []

        def rec(n, hidden):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(n, ast.stmt) and n is not node:
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                h = hidden | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in ast.iter_child_nodes(n):
                    rec(c, h)
                return
            if isinstance(n, (ast.ExceptHandler, ast.match_case)):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in hidden:
                out.append(n)
            if isinstance(n, ast.IfExp) or isinstance(n, ast.BoolOp):
                # later operands are conditional: judged only when the test needs them
                first = n.test if isinstance(n, ast.IfExp) else n.values[0]
                rec(first, hidden)
                return
            for c in ast.iter_child_nodes(n):
                rec(c, hidden)
        rec(node, frozenset())
        return out

    def bound(self, targets, st, drop=True):
        names = set()
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
        return self.assign(names, st)

    def assign(self, names, st):
        if not names:
            return st
        facts = frozenset(f for f in st[1] if not (f[2] & names))
        return (st[0] - names, facts)

    def simple(self, s, st):
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in st[0]:
                self.bad.setdefault(s.target.id, s.target)
        if not isinstance(s, (ast.Global, ast.Nonlocal)):
            self.use(s, st)
        if isinstance(s, ast.Assign):
            st2 = self.bound(s.targets, st)
            return [self.note_assign(s, st2)]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or "").split(".")[-1] in self.noreturn | self.never:
            return []
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.args:
            a, fn = s.value.args[0], s.value.func
            if fn.attr in ("pop", "remove", "clear", "discard", "popitem"):
                return [(st[0], frozenset(f for f in st[1] if f[0] != fn.value.id))]
            if fn.attr in ("append", "add") or (fn.attr == "update" and (isinstance(a, ast.Dict) and a.keys or isinstance(a, ast.Name) and any(f[0] == a.id and f[1] for f in st[1]))):
                ns = frozenset({fn.value.id})
                return [(st[0], frozenset(f for f in st[1] if f[0] != fn.value.id) | {(fn.value.id, True, ns)})]
        if isinstance(s, (ast.AnnAssign, ast.AugAssign)):
            return [self.bound([s.target], st)] if s.value is not None else [st]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [self.assign({(a.asname or a.name).split(".")[0] for a in s.names}, st)]
        if isinstance(s, ast.Delete):
            return [st]
        walrus = {x.target.id for x in shallow(s) if isinstance(x, ast.NamedExpr)}
        return [self.assign(walrus, st)]

    def note_assign(self, s, st):
        """x = <constant>: remember its truth and whether it is None."""
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            n, v = s.targets[0].id, s.value.value
            facts = {(n, bool(v), frozenset({n})), (f"{n} is None", v is None, frozenset({n}))}
            return (st[0], st[1] | facts)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Dict, ast.List, ast.Set, ast.Tuple)):
            n = s.targets[0].id
            items = s.value.keys if isinstance(s.value, ast.Dict) else s.value.elts
            if any(x is not None and not isinstance(x, ast.Starred) for x in items):
                return (st[0], st[1] | {(n, True, frozenset({n}))})
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (isinstance(s.value, (ast.BoolOp, ast.Compare, ast.UnaryOp)) or (isinstance(s.value, ast.Call) and dotted(s.value.func) in ("isinstance", "hasattr", "callable", "bool", "issubclass"))):
            n = s.targets[0].id
            ns = frozenset(x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)) | {n}
            if n not in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}:
                return (st[0], st[1] | {(f"{n} := {ast.unparse(s.value)}", True, ns)})
        return st

    def expr(self, e, st):
        self.use(e, st)
        walrus = {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}
        return [self.assign(walrus, st)]

    def enter_with(self, item, st):
        self.use(item.context_expr, st)
        return [self.bound([item.optional_vars], st)] if item.optional_vars is not None else [st]

    def bind_for(self, s, st):
        return [self.bound([s.target], st)]

    def handler(self, h, st):
        return [self.assign({h.name}, st)] if h.name else [st]

    def norm(self, e):
        """-> (text, positive?)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, p = self.norm(e.operand)
            return t, not p
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = ast.unparse(e.left), ast.unparse(e.comparators[0])
            op = type(e.ops[0])
            inv = {ast.IsNot: "is", ast.NotEq: "==", ast.NotIn: "in"}
            pos = {ast.Is: "is", ast.Eq: "==", ast.In: "in"}
            if op in inv:
                return f"{l} {inv[op]} {r}", False
            if op in pos:
                return f"{l} {pos[op]} {r}", True
            order = {ast.Lt: ("<", True), ast.GtE: ("<", False), ast.Gt: (">", True), ast.LtE: (">", False)}
            o, p = order[op]
            return f"{l} {o} {r}", p
        return ast.unparse(e), True

    def tests(self, e, st, truth):
        """-> the states in which the test has this truth (one per way of getting there)."""
        if isinstance(e, ast.Constant):
            return [st] if bool(e.value) == truth else []
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.tests(e.operand, st, not truth)
        if isinstance(e, ast.BoolOp):
            cur, outs = [st], []
            every = isinstance(e.op, ast.And) == truth      # every operand has this truth
            for v in e.values:
                nxt = []
                for c in cur:
                    self.use(v, c)
                    if every:
                        nxt += self.tests(v, c, truth)
                    else:
                        outs += self.tests(v, c, truth)
                        nxt += self.tests(v, c, not truth)
                cur = list(dict.fromkeys(nxt))
            return list(dict.fromkeys(cur if every else outs))
        if isinstance(e, ast.Name):
            for f in st[1]:
                if f[0].startswith(e.id + " := "):
                    d = ast.parse(f[0][len(e.id) + 4:], mode="eval").body
                    return [y for x in self.tests(d, st, truth) for y in [self.learn(e, x, truth)] if y is not None]
        r = self.learn(e, st, truth)
        return [r] if r is not None else []

    def learn(self, e, st, truth):
        t, p = self.norm(e)
        val = truth if p else not truth
        for f in st[1]:
            if f[0] == t and f[1] != val:
                return None
        ns = frozenset(x.id for x in ast.walk(e) if isinstance(x, ast.Name))
        new = {(t, val, ns)}
        if isinstance(e, ast.Name) and truth:
            new.add((f"{e.id} is None", False, ns))
            if (f"{e.id} is None", True, ns) in st[1]:
                return None
        if t.endswith(" is None") and val and isinstance(e, ast.Compare) and isinstance(e.left, ast.Name):
            new.add((e.left.id, False, ns))
            if (e.left.id, True, ns) in st[1]:
                return None
        # equality with one constant excludes the others
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq)) and val and isinstance(e.comparators[0], ast.Constant):
            l = ast.unparse(e.left)
            for f in st[1]:
                if f[0].startswith(l + " == ") and f[1] and f[0] != t:
                    return None
        facts = frozenset(st[1] | {f for f in new if all(self.tested.get(x, 0) > 1 for x in f[2] - {"isinstance", "len", "self"}) or not f[2]})
        if self.exhausted(facts):
            return None
        return (st[0], facts)

    @staticmethod
    def exhausted(facts):
        """x in [a, b], x not a and x not b cannot be."""
        no = {f[0] for f in facts if not f[1]}
        yes = [f[0] for f in facts if f[1]]
        for t in yes:
            if " in " not in t:
                continue
            l, r = t.split(" in ", 1)
            if r[:1] not in "[({":
                continue
            try:
                vals = ast.literal_eval(r)
            except (ValueError, SyntaxError):
                continue
            if all(f"{l} == {v!r}" in no for v in vals):
                return True
            if any(y.startswith(l + " == ") and not any(y == f"{l} == {v!r}" for v in vals) and y[len(l) + 4:][:1] in "'\"0123456789" for y in yes):
                return True
            for u in no:
                if u.startswith(l + " in ") and u[len(l) + 4:][:1] in "[({":
                    try:
                        if set(vals) <= set(ast.literal_eval(u[len(l) + 4:])):
                            return True
                    except (ValueError, SyntaxError, TypeError):
                        pass
        return False

    @staticmethod
    def const(e):
        return isinstance(e, ast.Constant) or (isinstance(e, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in e.elts))

    def stmt(self, s, st):
        # a loop is taken to run at least once; an if-chain over the values of one subject to cover them
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, st)
            out = Exits()
            self._exc(s.iter, st, out)
            cur, seen = {self.bound([s.target], st)}, set()
            for _ in range(3):
                new = cur - seen
                if not new:
                    break
                seen |= new
                r = self.block(s.body, new)
                out.ret |= r.ret
                out.exc |= r.exc
                out.fall |= r.brk
                cur = {self.bound([s.target], x) for x in r.fall | r.cont}
                ends = r.fall | r.cont
                o = self.block(s.orelse, ends)
                out.join(o)
                out.fall |= o.fall
            return out
        if isinstance(s, ast.While) and not (isinstance(s.test, ast.Constant)):
            self.use(s.test, st)
            out = Exits()
            self._exc(s.test, st, out)
            first = set(self.tests(s.test, st, True))
            if not first:
                ends = {st}
            else:
                ends, cur, seen = set(), first, set()
                for _ in range(3):
                    new = cur - seen
                    if not new:
                        break
                    seen |= new
                    r = self.block(s.body, new)
                    out.ret |= r.ret
                    out.exc |= r.exc
                    out.fall |= r.brk
                    after = r.fall | r.cont
                    ends |= {y for x in after for y in self.tests(s.test, x, False)}
                    cur = {y for x in after for y in self.tests(s.test, x, True)}
            o = self.block(s.orelse, ends)
            out.join(o)
            out.fall |= o.fall
            return out
        if isinstance(s, ast.If):
            out = Exits()
            self._exc(s.test, st, out)
            for s2 in self.expr(s.test, st):
                for truth, body in ((True, s.body), (False, s.orelse)):
                    r = self.block(body, set(self.tests(s.test, s2, truth)))
                    out.join(r)
                    out.fall |= r.fall
            return out
        if isinstance(s, ast.Match):
            out = Exits()
            for s2 in self.expr(s.subject, st):
                for c in s.cases:
                    names = {x for n in ast.walk(c.pattern) for x in [getattr(n, "name", None), getattr(n, "rest", None)] if isinstance(x, str)}
                    r = self.block(c.body, {self.assign(names, s2)})
                    out.join(r)
                    out.fall |= r.fall
            return out
        return super().stmt(s, st)

    def block(self, body, states):
        out = Exits(fall=self.cap(states))
        for x in body:
            if not out.fall:
                break
            cur, out.fall = out.fall, set()
            for st in cur:
                r = self.stmt(x, st)
                out.join(r)
                out.fall |= r.fall
            out.fall = self.cap(out.fall)
            out.exc = self.cap(out.exc)
            out.cont = self.cap(out.cont)
            out.brk = self.cap(out.brk)
        return out

    @staticmethod
    def cap(states):
        if len(states) <= 60:
            return set(states)
        by = {}
        for s in states:
            by.setdefault(s[0], []).append(s[1])
        return {(k, frozenset.intersection(*v)) for k, v in by.items()}


def never_return(prog):
    """Names of functions all of whose definitions end by raising and never return."""
    yes, no = set(), set()
    for g in prog.functions.values():
        b = getattr(g.node, "body", None)
        if isinstance(b, list):
            r = isinstance(b[-1], ast.Raise) and not any(isinstance(x, (ast.Return, ast.Yield)) for x in ast.walk(g.node)) and "NotImplementedError" not in ast.unparse(b[-1])
            (yes if r else no).add(g.name)
    return frozenset(yes - no)


def unbound(res, prog, f, never):
    node = f.node
    if isinstance(node, ast.Lambda):
        return
    params = {x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [y for y in (node.args.vararg, node.args.kwarg) if y]}
    outer, locs = set(), set()

    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue            # bound by definition: treated as always there
            if isinstance(c, ast.Lambda) or isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for x in ast.walk(c):
                    if isinstance(x, ast.NamedExpr):
                        locs.add(x.target.id)
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                outer.update(c.names)
            elif isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                locs.add(c.id)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                locs.update((a.asname or a.name).split(".")[0] for a in c.names)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                locs.add(c.name)
            rec(c)
    rec(node)
    locs -= params | outer
    # a name assigned by a plain statement of the body before anything reads it is always there
    seen = set()
    for st in node.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.Import, ast.ImportFrom)):
            stored = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} if not isinstance(st, (ast.Import, ast.ImportFrom)) else {(a.asname or a.name).split(".")[0] for a in st.names}
            if isinstance(st, ast.AnnAssign) and st.value is None:
                stored = set()
            read = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            seen |= read
            locs -= stored - seen
        seen |= {n.id for n in ast.walk(st) if isinstance(n, ast.Name)}
    if not locs:
        return
    res.count("functions_with_locals")
    w = Unbound(node, locs, never)
    try:
        w.run(node, (frozenset(locs), frozenset()))
    except (OverflowError, RecursionError):
        res.count("gave_up")
        res.gave.append(f.short)
        return
    for name, n in w.bad.items():
        res.add("unbound", f"{f.short}|{name}", f"{f.short} can reach the use of {name} in line {n.lineno} on a path on which nothing was assigned to it", f.path, n.lineno)


# ------------------------------------------------------------------ attributes
class Attrs:
    def __init__(self, prog, R):
        self.P, self.R = prog, R
        self.cache = {}
        self.strings = {n.value for m in prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        self.ext_ok = set(dir(object)) | {"__dict__", "__name__", "__slots__", "__annotations__", "__dataclass_fields__", "__wrapped__", "__mro__", "__bases__", "mro"}

    def defined(self, c):
        if c.qual in self.cache:
            return self.cache[c.qual]
        out = set()
        opaque = any(b.split(".")[-1] not in ("ABC", "object", "Generic", "Protocol", "ABCMeta") for b in c.ext_bases())
        for k in c.cmro():
            out |= set(k.props) | set(k.methods) | set(k.attrs) | set(k.anns)
            for m in prog_accessors(k):
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                        out.add(n.attr)
                    elif isinstance(n, ast.Call) and dotted(n.func) in ("object.__setattr__", "setattr") and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant):
                            out.add(n.args[1].value)
            for n in ast.walk(k.node):
                if isinstance(n, ast.ClassDef) and n is not k.node:
                    out.add(n.name)
        self.cache[c.qual] = (out, opaque)
        return out, opaque

    def open_names(self, c):
        """Names a class resolves dynamically (__getattr__)."""
        g = c.method("__getattr__")
        if g is None:
            return None
        out = set(self.strings)
        for k in self.P.classes.values():
            if any(k.name.endswith(x) for x in ("Fixed", "Variable")):
                out |= self.defined(k)[0]
        return out

    def has(self, c, a):
        d, opaque = self.defined(c)
        if opaque or a in d or a in self.ext_ok:
            return True
        # any subclass may define it: abstract parts of a base class
        if any(a in self.defined(k)[0] for k in self.P.subclasses(c, strict=True)):
            return True
        o = self.open_names(c)
        return o is not None and a in o


def prog_accessors(k):
    return list(k.methods.values()) + [g for p in k.props.values() for g in (p.fget, p.fset, p.fdel) if g is not None]


def guarded(f, n):
    """hasattr/getattr/try AttributeError around the read."""
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) >= 2 and isinstance(x.args[1], ast.Constant) and x.args[1].value == n.attr:
            return True
        if isinstance(x, ast.Try) and any(h.type is None or any(w in ast.unparse(h.type) for w in ("AttributeError", "Exception")) for h in x.handlers):
            if any(y is n for s in x.body for y in ast.walk(s)):
                return True
    return False


PLAIN = set(dir(str)) | set(dir(dict)) | set(dir(list)) | {"name", "stem", "suffix", "parent", "exists", "resolve"}


def plain_param(f, name):
    """The parameter may also be a string, a path or a container, told apart by isinstance tests."""
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name and x.annotation is not None:
            t = ast.unparse(x.annotation)
            return any(re.search(rf"\b{w}\b", t) for w in ("str", "dict", "list", "Path", "PathLike", "Any", "tuple"))
    return False


def attributes(res, prog, R, A, f):
    for n in own_nodes(f.node):
        if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
            continue
        ts = R.types(f, n.value)
        if not ts:
            continue
        res.count("attribute_reads")
        if isinstance(n.value, ast.Name) and n.attr in PLAIN and plain_param(f, n.value.id):
            continue
        if all(A.has(c, n.attr) for c in ts) or guarded(f, n):
            continue
        if len(ts) > 1 and any(A.has(c, n.attr) for c in ts):
            continue
        c = sorted(ts, key=lambda k: k.name)[0]
        res.add("attribute", f"{f.short}|{ast.unparse(n)}", f"{f.short} reads {ast.unparse(n)}, but nothing defines {n.attr} for a {c.name}", f.path, n.lineno)


# ------------------------------------------------------------------ calls
def signature(f, bound):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    npo = len(a.posonlyargs)
    nd = len(a.defaults)
    if bound and pos:
        pos = pos[1:]
        npo = max(0, npo - 1)
    required = set(pos[: max(0, len(pos) - nd)]) | {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return pos, {k.arg for k in a.kwonlyargs}, required, a.vararg is not None, a.kwarg is not None, npo


def mismatch(f, bound, call):
    pos, kwo, required, va, kw, npo = signature(f, bound)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    given = [k.arg for k in call.keywords if k.arg is not None]
    if not va and npos > len(pos):
        return f"{npos} positional arguments where at most {len(pos)} are accepted"
    for k in given:
        if k in pos[npo:] or k in kwo:
            if k in pos[:npos] and not star:
                return f"argument {k} given twice"
            continue
        if not kw:
            return f"keyword {k}, which it does not accept"
    if not star and not dstar:
        missing = [r for r in required if r not in given and r not in pos[:npos]]
        if missing:
            return f"no value for the required {', '.join(sorted(missing))}"
    return None


def ctor(c):
    for k in c.cmro():
        if "__init__" in k.methods:
            return k.methods["__init__"]
    return None


def dataclass_problem(c, call):
    fields, req = [], []
    for k in reversed(c.cmro()):
        if not k.is_dataclass:
            continue
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                v = s.value
                init = not (isinstance(v, ast.Call) and any(q.arg == "init" and isinstance(q.value, ast.Constant) and q.value.value is False for q in v.keywords))
                if not init or "ClassVar" in ast.unparse(s.annotation):
                    continue
                if s.target.id not in fields:
                    fields.append(s.target.id)
                    has = v is not None and not (isinstance(v, ast.Call) and dotted(v.func) in ("field", "dataclasses.field") and not any(q.arg in ("default", "default_factory") for q in v.keywords))
                    if not has:
                        req.append(s.target.id)
    if not fields:
        return None
    given = [k.arg for k in call.keywords if k.arg is not None]
    for g in given:
        if g not in fields:
            return f"keyword {g}, which it does not accept"
    if any(k.arg is None for k in call.keywords) or any(isinstance(x, ast.Starred) for x in call.args):
        return None
    miss = [r for r in req if r not in given and r not in fields[: len(call.args)]]
    return f"no value for the required {', '.join(miss)}" if miss else None


def calls(res, prog, R, f):
    for n in own_nodes(f.node):
        if not isinstance(n, ast.Call):
            continue
        cs = implementations(prog, R.callees(f, n))
        probs = []
        known = 0
        for k, it in cs:
            if k == "class":
                i = ctor(it)
                if i is not None:
                    known += 1
                    probs.append((it.name, mismatch(i, True, n)))
                elif it.is_dataclass and not it.ext_bases():
                    known += 1
                    probs.append((it.name, dataclass_problem(it, n)))
            elif k == "func":
                g, c = it
                if g is None or wrapped(g):
                    continue
                known += 1
                probs.append((g.short, mismatch(g, bound_call(R, f, n, g, c), n)))
        if not known:
            continue
        res.count("calls")
        if probs and all(p for _, p in probs):
            who, p = probs[0]
            res.add("call", f"{f.short}|{who}|{p}", f"{f.short} calls {who} with {p}", f.path, n.lineno)


def implementations(prog, cs):
    """An abstract method stands for its overrides."""
    out = []
    for k, it in cs:
        if k == "func" and it[0] is not None and it[0].cls is not None and "abstractmethod" in [d.split(".")[-1] for d in it[0].decos]:
            over = [x.methods[it[0].name] for x in prog.subclasses(it[0].cls, strict=True) if it[0].name in x.methods]
            if over:
                out += [(k, (g, g.cls)) for g in over]
                continue
        out.append((k, it))
    return out


def wrapped(g):
    return any(d.split(".")[-1] not in ("staticmethod", "classmethod", "property", "abstractmethod", "setter", "register", "override", "wraps", "contextmanager", "cached_property", "lru_cache", "cache", "njit", "final", "deprecated") for d in g.decos)


def bound_call(R, f, call, g, c):
    """Is the first parameter filled by the receiver?"""
    if g.cls is None or g.is_static:
        return False
    if g.is_classmethod:
        return True
    fn = call.func
    if isinstance(fn, ast.Attribute):
        d = dotted(fn.value)
        if d is not None:
            r = R.name(f, d)
            if r is not None and r[0] == "class":
                return False     # Class.method(obj, ...)
    return True


def check(prog, tier):
    res = Result()
    res.gave = []
    R = Resolver(prog)
    A = Attrs(prog, R)
    for m in prog.modules.values():
        names(res, prog, m)
    never = never_return(prog)
    for f in prog.functions.values():
        res.count("functions")
        unbound(res, prog, f, never)
        attributes(res, prog, R, A, f)
        calls(res, prog, R, f)
    res.require("functions", 500)
    res.require("names", 5000)
    res.require("attribute_reads", 2000)
    res.require("calls", 500)
    res.notes = ["every name read, local variable use on every path, attribute read of a typed receiver and call of a resolved callee of the package"]
    return res
