"""Puts the body of a private function that one place uses back into that place (on a copy of the syntax).

Done for a call that is a statement of its own, the value of a plain assignment, or the value of a return, when what
the function returns fits there.  Names of the function are kept apart from those of the caller."""
from __future__ import annotations

import ast
import copy


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.m:
            n.name = self.m[n.name]
        return n


def target_of(prog, f, call):
    fn = call.func
    if not (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name)):
        return None
    if fn.attr not in prog.helpers() or f.cls is None:
        return None
    r = f.cls.lookup(fn.attr) or next((c.lookup(fn.attr) for c in prog.subclasses(f.cls) if c.lookup(fn.attr)), None)
    if not r or r[1] != "method":
        return None
    g = r[2]
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if not ps or fn.value.id != ps[0] or f.is_static or g.is_static or g.node is f.node or not isinstance(g.node, ast.FunctionDef):
        return None
    return g


def returns(body):
    out = []
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, ast.Return):
            out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return out


def body_of(g, call, recv):
    """-> (statements, trailing value or None) with the parameters bound, or None when it does not fit."""
    a = g.node.args
    if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    names = [x.arg for x in a.posonlyargs + a.args]
    if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)) for n in ast.walk(g.node)):
        return None
    given = dict(zip(names[1:], call.args)) | {k.arg: k.value for k in call.keywords}
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) | {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    body = copy.deepcopy(g.node.body)
    stored = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    m = {names[0]: recv}
    pre = []
    for p in names[1:] + [x.arg for x in a.kwonlyargs]:
        v = given.get(p, defaults.get(p))
        if v is None:
            return None
        if isinstance(v, ast.Name) and p not in stored:
            m[p] = v.id
        else:
            m[p] = f"{p}__{g.name}"
            pre.append(ast.Assign([ast.Name(m[p], ast.Store())], copy.deepcopy(v)))
    for x in stored:
        m.setdefault(x, f"{x}__{g.name}")
    body = [Rename(m).visit(s) for s in body]
    for s in pre:
        ast.copy_location(s, call)
        ast.fix_missing_locations(s)
    return pre + body


def expand(prog, f, want, done):
    """Rewrites f.node in place; `want(function)` says which functions to put back; names of those put back go to done."""
    def block(b, depth=0):
        i = 0
        while i < len(b):
            s = b[i]
            for fld in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, fld, None), list) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    block(getattr(s, fld), depth)
            for h in getattr(s, "handlers", ()):
                block(h.body, depth)
            call = getattr(s, "value", None) if isinstance(s, (ast.Expr, ast.Return)) or (isinstance(s, ast.Assign) and len(s.targets) == 1) else None
            if depth < 4 and isinstance(call, ast.Call):
                g = target_of(prog, f, call)
                new = body_of(g, call, call.func.value.id) if g is not None and want(g) else None
                if new is not None:
                    rs = returns(new)
                    last = new[-1] if new and isinstance(new[-1], ast.Return) else None
                    fits = isinstance(s, ast.Return) or not rs or (len(rs) == 1 and last is rs[0])
                    if fits:
                        if isinstance(s, ast.Return):
                            new = new + [ast.Return(None)]
                        else:
                            val = None
                            if last is not None:
                                val = last.value
                                new = new[:-1]
                            if isinstance(s, ast.Assign):
                                t = s.targets[0]
                                if isinstance(t, ast.Tuple) and isinstance(val, ast.Tuple) and len(t.elts) == len(val.elts):
                                    new += [ast.Assign([x], y) for x, y in zip(t.elts, val.elts)]
                                else:
                                    new.append(ast.Assign([t], val if val is not None else ast.Constant(None)))
                            elif val is not None:
                                new.append(ast.Expr(val))
                        for n in new:
                            if not hasattr(n, "lineno"):
                                ast.copy_location(n, s)
                            ast.fix_missing_locations(n)
                        b[i:i + 1] = new or [ast.copy_location(ast.Pass(), s)]
                        done.add(g.qual)
                        block(b[i:i + len(new)], depth + 1)
                        continue
            i += 1
    block(f.node.body)
