"""What a value depends on: backward slices over the syntax tree, followed through the package's own properties,
methods and helper functions, down to leaves: stored attributes of an object, parameters of the entry function.

Flow-insensitive per variable (every definition of a relevant name counts, with the tests that guard it)."""
from __future__ import annotations

import ast

from .model import ClassInfo, dotted, own_nodes

QUIET = {"print", "warn", "warnings.warn", "logging.info"}
STMT_FIELDS = ("body", "orelse", "finalbody")


def parents_of(fnode):
    out = {}
    for n in ast.walk(fnode):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call, ast.Starred)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


class Slicer:
    """Relevant expressions of a function for given seed expressions (closures of the function included)."""

    def __init__(self, fnode):
        self.fnode = fnode
        self.par = parents_of(fnode)
        self.defs = {}
        self.nested = {}
        for n in ast.walk(fnode):
            if n is fnode:
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.nested.setdefault(n.name, []).append(n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._def(t, n.value, n)
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
                self._def(n.target, n.value, n)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self._def(n.target, n.iter, n)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self._def(n.optional_vars, n.context_expr, n)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
                r = root_name(n.value.func)
                if r and r not in ("self", "cls"):
                    self.defs.setdefault(r, []).append((n.value, n))
            elif isinstance(n, ast.Call):
                # out= / in-place style: a plain name handed to a nested function or helper is read only
                pass

    def _def(self, t, v, n):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append((v, n))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                    self._def(e, v.elts[i], n)
                else:
                    self._def(e, v, n)
        elif isinstance(t, ast.Starred):
            self._def(t.value, v, n)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            r = root_name(t)
            if r and r not in ("self", "cls"):
                self.defs.setdefault(r, []).append((v, n))
                if isinstance(t, ast.Subscript):
                    self.defs[r].append((t.slice, n))

    def tests(self, n):
        """Tests that decide whether n runs."""
        out = []
        c, p = n, self.par.get(n)
        while p is not None and p is not self.fnode:
            if isinstance(p, (ast.If, ast.While)) and c is not p.test:
                out.append(p.test)
            elif isinstance(p, ast.IfExp) and c is not p.test:
                out.append(p.test)
            elif isinstance(p, (ast.FunctionDef, ast.Lambda)):
                break
            c, p = p, self.par.get(p)
        # tests of early exits before n in the same function
        return out

    def run(self, seeds):
        """seeds: (expr, statement or expr it belongs to) -> list of relevant expressions."""
        out, seen, done = [], set(), set()
        work = list(seeds)
        while work:
            e, at = work.pop()
            if id(e) in done:
                continue
            done.add(id(e))
            out.append(e)
            for t in self.tests(at):
                if id(t) not in done:
                    work.append((t, t))
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in seen:
                    seen.add(x.id)
                    for d in self.defs.get(x.id, ()):
                        work.append(d)
                    for g in self.nested.get(x.id, ()):
                        for r in returns(g):
                            work.append((r.value, r))
        return out


def returns(fnode):
    if isinstance(fnode, ast.Lambda):
        return []
    out = []

    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, ast.Return) and c.value is not None:
                out.append(c)
            rec(c)
    rec(fnode)
    return out


def chain(e):
    """self.a.b -> ('self', ['a', 'b'])"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    return (e, parts[::-1])


class Deps:
    def __init__(self, R, cls, covered=()):
        self.R = R
        self.K = cls
        self.covered = set(covered)
        self.slicers = {}
        self.leaves = {}     # leaf path -> (func, node) where it is read
        self.reached = set()
        self.unknown = []
        self.foreign = []
        self.exprs = 0

    def slicer(self, fnode):
        s = self.slicers.get(id(fnode))
        if s is None:
            s = self.slicers[id(fnode)] = Slicer(fnode)
        return s

    # -- entry points
    def of_returns(self, f, K=None, prefix=""):
        K = K or self.K
        key = ("ret", f.qual, K.name, prefix)
        if key in self.reached:
            return
        self.reached.add(key)
        s = self.slicer(f.node)
        self.exprs_of(f, s.run([(r.value, r) for r in returns(f.node)]), K, prefix)

    def of_exprs(self, f, seeds, K=None, prefix=""):
        s = self.slicer(f.node)
        self.exprs_of(f, s.run(seeds), K or self.K, prefix)

    def exprs_of(self, f, exprs, K, prefix):
        sn = self.R.self_name(f) or "self"
        for e in exprs:
            self.exprs += 1
            par = {}
            for n in ast.walk(e):
                for c in ast.iter_child_nodes(n):
                    par[c] = n
            for n in ast.walk(e):
                if isinstance(n, ast.Attribute) and not isinstance(par.get(n), ast.Attribute):
                    b, parts = chain(n)
                    call = par.get(n) if isinstance(par.get(n), ast.Call) and par[n].func is n else None
                    if isinstance(b, ast.Name) and b.id == sn:
                        self.path(f, n, K, prefix, parts, call)
                    elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                        r = K.lookup(parts[0], after=f.cls) if f.cls else None
                        if r and r[1] == "method":
                            self.of_returns(r[2], K, prefix)
                        elif r and r[1] == "prop" and r[2].fget is not None:
                            self.of_returns(r[2].fget, K, prefix)
                    elif call is not None:
                        self.called(f, call)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    self.called(f, n)
                elif isinstance(n, ast.Name) and n.id == sn and f.cls is not None and not f.is_static and not isinstance(par.get(n), ast.Attribute):
                    p = par.get(n)
                    if not (isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("super", "isinstance", "type")):
                        self.unknown.append((f, n))
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and f.qual == getattr(self, "entry", None):
                    a = f.node.args
                    if a.kwarg and n.id == a.kwarg.arg:
                        self.leaf("options of " + f.name, f, n)

    def called(self, f, call):
        for k, it in self.R.callees(f, call):
            if k == "func":
                g, c = it
                if g is None:
                    continue
                if c is not None and c not in self.K.mro() and self.K not in c.mro():
                    self.foreign.append((f, call, c))     # result of another object: its arguments are in the slice
                    continue
                self.of_returns(g, self.K if c is not None and c in self.K.mro() else (c or self.K), "")

    def leaf(self, path, f, n):
        self.leaves.setdefault(path, (f, n))

    def path(self, f, n, K, prefix, parts, call):
        """An access self.<parts> on an object of class K."""
        cur, pre = K, prefix
        for i, a in enumerate(parts):
            last = i == len(parts) - 1
            p = pre + a
            if p in self.covered:
                return
            r = cur.lookup(a)
            if r and r[1] == "method":
                if last and call is not None:
                    self.of_returns(r[2], cur, pre)
                elif last:
                    self.of_returns(r[2], cur, pre)
                return
            types = {c for c in self.R.attr_types(cur, a) if self.has_parts(c)}
            if not last and len(types) >= 1:
                cur, pre = sorted(types, key=lambda c: c.name)[0], p + "."
                continue
            if r and r[1] == "prop":
                if r[2].fget is not None:
                    self.of_returns(r[2].fget, cur, pre)
                return
            if r and r[1] not in ("method", "prop"):
                # class-level constant, unless instances store their own
                if not self.stores(cur, a):
                    return
            self.raw(f, n, cur, pre, a)
            return

    @staticmethod
    def has_parts(c):
        return isinstance(c, ClassInfo)

    def live(self, K, m):
        """Is this method (or accessor) the one instances of K use, directly or through super()?"""
        r = K.lookup(m.name)
        own = r is not None and (r[2] is m or (r[1] == "prop" and m in (r[2].fget, r[2].fset)))
        if own or m.name.startswith("__"):
            return True
        for k in K.cmro():
            if k is m.cls:
                break
            for g in self.accessors(k):
                if g.name == m.name and any(isinstance(x, ast.Attribute) and x.attr == m.name and isinstance(x.value, ast.Call) and dotted(x.value.func) == "super" for x in ast.walk(g.node)):
                    return True
        return False

    @staticmethod
    def accessors(k):
        return list(k.methods.values()) + [g for p in k.props.values() for g in (p.fget, p.fset) if g is not None]

    def stores(self, K, a):
        out = []
        for k in K.cmro():
            for m in self.accessors(k):
                if not self.live(K, m):
                    continue
                for n in own_nodes(m.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in ts:
                            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                                if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.value, ast.Name) and x.value.id == "self" and n.value is not None:
                                    out.append((m, n.value, n))
                    elif isinstance(n, ast.Call) and dotted(n.func) in ("object.__setattr__", "setattr", "super().__setattr__") and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant) and n.args[1].value == a:
                            out.append((m, n.args[2], n))
        return out

    def raw(self, f, n, K, pre, a):
        p = pre + a
        if p in self.covered or ("raw", p) in self.reached:
            return
        self.reached.add(("raw", p))
        if pre:
            self.leaf(p, f, n)
            return
        derived, given = [], False
        for m, v, at in self.stores(K, a):
            if isinstance(v, ast.Constant) or (isinstance(v, (ast.List, ast.Tuple, ast.Dict)) and not ast.dump(v).count("Name(")):
                continue
            is_setter = any(q.fset is m for k in K.cmro() for q in k.props.values())
            s = self.slicer(m.node)
            exprs = s.run([(v, at)])
            params = {x.arg for x in m.node.args.posonlyargs + m.node.args.args + m.node.args.kwonlyargs} - {"self", "cls"}
            for x in (m.node.args.vararg, m.node.args.kwarg):
                if x is not None:
                    params.add(x.arg)
            uses = {x.id for e in exprs for x in ast.walk(e) if isinstance(x, ast.Name)}
            if (uses & params) and (is_setter or not any(k[:2] == ("ret", m.qual) for k in self.reached if isinstance(k, tuple))):
                given = True
            else:
                derived.append((m, v, at, exprs))
        if given or not derived:
            self.leaf(p, f, n)
            return
        for m, v, at, exprs in derived:
            self.exprs_of(m, exprs, K, pre)
