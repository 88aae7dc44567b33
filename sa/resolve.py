"""Light, flow-insensitive name and type resolution on the syntax tree (no path exploration): what a dotted
name, a call or a receiver refers to within one function of the analysed program."""
from __future__ import annotations

import ast

from .model import ClassInfo, FuncInfo, dotted, own_nodes


def root_func(f):
    return f


class Scope:
    """Names visible in a function: imports (module, enclosing functions, own), parameters, local bindings."""

    def __init__(self, R, f):
        self.f = f
        self.R = R
        self.imports = dict(f.module.imports)
        chain = []
        g = f
        while g is not None:
            chain.append(g)
            g = g.parent
        self.chain = chain
        self.params = {}
        self.assigns = {}
        self.nested = {}
        for g in reversed(chain):
            a = g.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.params[x.arg] = x.annotation
                self.assigns.pop(x.arg, None)
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    self.params[x.arg] = None
            for n in own_nodes(g.node) if not isinstance(g.node, ast.Lambda) else ():
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    R.P.import_names(g.module, n, self.imports)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        self._bind(t, n.value)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self._bind(n.target, n.value)
                elif isinstance(n, ast.NamedExpr):
                    self._bind(n.target, n.value)
                elif isinstance(n, ast.AugAssign):
                    self._bind(n.target, n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self._bind(n.target, ast.Subscript(value=n.iter, slice=ast.Constant(value=0), ctx=ast.Load()))
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    self._bind(n.optional_vars, n.context_expr)
            for h in (x for x in R.P.functions.values() if x.parent is g):
                self.nested[h.name] = h

    def _bind(self, t, v):
        if isinstance(t, ast.Name):
            self.assigns.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    self._bind(e, v.elts[i])
                else:
                    self._bind(e, ast.Subscript(value=v, slice=ast.Constant(value=i), ctx=ast.Load()))

    def is_local(self, name):
        return name in self.params or name in self.assigns


class Resolver:
    def __init__(self, prog):
        self.P = prog
        self._scopes = {}
        self._types = {}
        self.by_name = {}
        for f in prog.functions.values():
            self.by_name.setdefault(f.name, []).append(f)

    def scope(self, f):
        s = self._scopes.get(f.qual)
        if s is None:
            s = self._scopes[f.qual] = Scope(self, f)
        return s

    # -- dotted names
    def name(self, f, d):
        """Dotted name in f -> ('class', c) | ('func', f) | ('module', m) | ('ext', dotted) | None for local values."""
        sc = self.scope(f)
        head, _, rest = d.partition(".")
        if head in sc.nested and not rest and head not in sc.params:
            return "func", sc.nested[head]
        if sc.is_local(head) and head not in sc.imports:
            return None
        if head in sc.params:
            return None
        if head in sc.imports:
            return self.P.canonical(sc.imports[head] + ("." + rest if rest else ""))
        m = f.module
        if head in m.classes:
            return ("class", m.classes[head]) if not rest else ("member", (m.classes[head], rest.split(".")))
        if head in m.functions and not rest:
            return "func", m.functions[head]
        if head in m.assigns:
            return "assign", (m, head)
        return "ext", d

    # -- types
    def ann(self, module, node, f=None):
        """Classes named in an annotation."""
        out = set()
        if node is None:
            return out
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return out
        if isinstance(node, ast.BinOp):
            return self.ann(module, node.left, f) | self.ann(module, node.right, f)
        if isinstance(node, ast.Subscript):
            d = dotted(node.value) or ""
            if d.split(".")[-1] in ("Optional", "Union", "type", "Type", "Annotated", "Final"):
                sl = node.slice
                if d.split(".")[-1] in ("type", "Type"):
                    return out
                return set().union(*(self.ann(module, x, f) for x in (sl.elts if isinstance(sl, ast.Tuple) else [sl])))
            return out
        d = dotted(node)
        if d is None:
            return out
        if d in ("Self", "typing.Self") and f is not None and f.cls is not None:
            return {f.cls}
        c = self.P.resolve_dotted(module, d)
        if isinstance(c, ClassInfo):
            out.add(c)
        elif isinstance(c, str) and self.P.has_cls(c.split(".")[-1]) and "." not in d:
            out.add(self.P.cls(c.split(".")[-1]))
        return out

    def types(self, f, e, depth=0):
        """Classes of this program an expression may be an instance of (empty: unknown or something else)."""
        key = (f.qual, id(e))
        if key in self._types:
            return self._types[key][0]
        if depth > 8:
            return set()
        self._types[key] = (set(), e)
        r = self._types_of(f, e, depth)
        self._types[key] = (r, e)
        return r

    def self_class(self, f):
        g = f
        while g.parent is not None:
            g = g.parent
        return g.cls

    def self_name(self, f):
        g = f
        while g.parent is not None:
            g = g.parent
        if g.cls is None or g.is_static:
            return None
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        return (names[0] if names else None)

    def _types_of(self, f, e, d):
        if isinstance(e, ast.Name):
            sn = self.self_name(f)
            g = f
            while g.parent is not None:
                g = g.parent
            if e.id == sn and not g.is_classmethod and e.id not in self.scope(f).assigns:
                return {self.self_class(f)}
            sc = self.scope(f)
            out = set()
            if e.id in sc.params:
                out |= self.ann(f.module, sc.params[e.id], f)
            for v in sc.assigns.get(e.id, ()):
                out |= self.types(f, v, d + 1)
            return out
        if isinstance(e, ast.Attribute):
            out = set()
            for c in self.types(f, e.value, d + 1):
                out |= self.attr_types(c, e.attr, d + 1)
            return out
        if isinstance(e, ast.Call):
            out = set()
            for k, it in self.callees(f, e, d + 1):
                if k == "class":
                    out.add(it)
                elif k == "func":
                    fn, c = it
                    if fn.name == "maker" and c is not None:
                        out.add(c)
                    else:
                        r = self.ann(fn.module, getattr(fn.node, "returns", None), fn)
                        if c is not None and fn.cls in r:
                            r = (r - {fn.cls}) | {c}
                        out |= r
            return out
        if isinstance(e, ast.IfExp):
            return self.types(f, e.body, d + 1) | self.types(f, e.orelse, d + 1)
        if isinstance(e, ast.BoolOp):
            return set().union(*(self.types(f, v, d + 1) for v in e.values))
        return set()

    def attr_types(self, c, attr, d=0):
        r = c.lookup(attr)
        if r and r[1] == "prop" and r[2].fget is not None:
            g = r[2].fget
            out = self.ann(g.module, g.node.returns, g)
            if not out and d < 7:
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= self.types(g, n.value, d + 1)
            return out
        out = set()
        for k in c.cmro():
            if attr in k.anns:
                out |= self.ann(k.module, k.anns[attr])
        if not out and d < 6:
            for k in c.cmro():
                for m in list(k.methods.values()) + [g for q in k.props.values() for g in (q.fget, q.fset) if g is not None]:
                    for n in own_nodes(m.node):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self" for t in n.targets):
                            out |= self.types(m, n.value, d + 1)
        return out

    # -- calls
    def callees(self, f, call, d=0):
        """-> list of ('func', (FuncInfo, receiver class or None)) | ('class', ClassInfo) | ('ext', dotted name)"""
        fn = call.func
        if isinstance(fn, ast.Name):
            r = self.name(f, fn.id)
            if r is None:
                sc = self.scope(f)
                if fn.id == "cls" and self.self_name(f) == "cls":
                    c = self.self_class(f)
                    return [("class", c)] if c else []
                out = []
                for v in sc.assigns.get(fn.id, ()):
                    dd = dotted(v)
                    if dd:
                        rr = self.name(f, dd) if "." not in dd or not sc.is_local(dd.split(".")[0]) else None
                        out += self._as_callee(rr)
                return out
            if r[0] == "ext" and fn.id == "super":
                return []
            return self._as_callee(r)
        if isinstance(fn, ast.Attribute):
            # super().x
            v = fn.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                c = self.self_class(f)
                if c is None:
                    return []
                r = c.lookup(fn.attr, after=c)
                m = r[2] if r and r[1] == "method" else None
                return [("func", (m, c))] if m is not None else []
            dd = dotted(fn)
            if dd is not None:
                r = self.name(f, dd)
                if r is not None:
                    if r[0] == "member":
                        c, rest = r[1]
                        if len(rest) == 1:
                            m = c.method(rest[0])
                            return [("func", (m, c))] if m is not None else []
                        return []
                    return self._as_callee(r)
                head = dd.split(".")[0]
                if head == "cls" and self.self_name(f) == "cls" and dd.count(".") == 1:
                    c = self.self_class(f)
                    m = c.method(fn.attr) if c else None
                    return [("func", (m, c))] if m is not None else []
            out = []
            for c in self.types(f, v, d + 1):
                m = c.method(fn.attr)
                if m is not None:
                    out.append(("func", (m, c)))
                else:
                    r = c.lookup(fn.attr)
                    if r and r[1] == "prop" and fn.attr == "Crater":
                        cr = next((k for k in self.P.classes.values() if k.name == "Crater"), None)
                        if cr:
                            out.append(("class", cr))
            # obj.Crater.maker(...)
            if not out and isinstance(v, ast.Attribute) and v.attr == "Crater":
                cr = next((k for k in self.P.classes.values() if k.name == "Crater"), None)
                m = cr.method(fn.attr) if cr else None
                if m is not None:
                    out.append(("func", (m, cr)))
            return out
        return []

    def _as_callee(self, r):
        if r is None:
            return []
        if r[0] == "class":
            return [("class", r[1])]
        if r[0] == "func":
            return [("func", (r[1], None))]
        if r[0] == "member":
            c, rest = r[1]
            m = c.method(rest[0]) if len(rest) == 1 else None
            return [("func", (m, c))] if m is not None else []
        if r[0] == "ext":
            return [("ext", r[1])]
        return []
