"""Name-level call graph (an over-approximation) used to decide what is worth inlining."""
import ast

from .model import own_nodes


def _refs(f):
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 \
                and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super":
            out.add("__init__") if False else None
    return out


def refs(prog):
    r = prog.__dict__.get("_refs")
    if r is None:
        r = prog._refs = {f.qual: _refs(f) for f in prog.all_funcs()}
    return r


def relevance(prog, direct, extra_names=(), barrier=None):
    """Functions from which a function satisfying `direct` may be reached (by name)."""
    r = refs(prog)
    barrier = barrier or (lambda f: False)
    rel = {f.qual for f in prog.all_funcs() if direct(f) and not barrier(f)}
    names = {q.split(".")[-1] for q in rel} | set(extra_names)
    # a class name stands for its constructor
    changed = True
    while changed:
        changed = False
        for c in prog.classes.values():
            init = c.method("__init__")
            if init is not None and init.qual in rel and c.name not in names:
                names.add(c.name)
                changed = True
        for f in prog.all_funcs():
            if f.qual not in rel and (r[f.qual] & names) and not barrier(f):
                rel.add(f.qual)
                if f.name not in names:
                    names.add(f.name)
                changed = True
            elif f.qual in rel and f.name not in names:
                names.add(f.name)
                changed = True
    return rel


def call_names(f):
    """Names called in the function body."""
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                out.add(n.func.attr)
            elif isinstance(n.func, ast.Name):
                out.add(n.func.id)
    return out


def is_property(f):
    return any(d in ("property", "cached_property", "functools.cached_property", "parameter") or d.endswith(".setter") for d in f.decos)


class Skipper:
    """Decides that a compound statement is irrelevant: it mentions none of the names, assigns no
    variable that flows into a statement that does, and contains no jump out of itself."""

    def __init__(self, names):
        self.names = frozenset(names)
        self.cache = {}
        self.vars = {}

    def _mentions(self, n):
        return (isinstance(n, ast.Attribute) and n.attr in self.names) or (isinstance(n, ast.Name) and n.id in self.names)

    def relvars(self, func):
        """Variables of the function that (flow-insensitively) feed a relevant statement."""
        while func.parent is not None:
            func = func.parent
        r = self.vars.get(id(func.node))
        if r is not None:
            return r
        rel = set()
        flows = []
        for s in ast.walk(func.node):
            if not isinstance(s, ast.stmt) or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            parts = [c for c in ast.iter_child_nodes(s) if not isinstance(c, (ast.stmt, ast.ExceptHandler))]
            loads, stores, hit = set(), set(), False
            for p in parts:
                for n in ast.walk(p):
                    if self._mentions(n):
                        hit = True
                    if isinstance(n, ast.Name):
                        (stores if isinstance(n.ctx, ast.Store) else loads).add(n.id)
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    while isinstance(t, (ast.Subscript, ast.Attribute)):
                        t = t.value
                    if isinstance(t, ast.Name):
                        stores.add(t.id)
            if isinstance(s, ast.Return):
                hit = True
            if hit:
                rel |= loads
            flows.append((stores, loads))
        changed = True
        while changed:
            changed = False
            for stores, loads in flows:
                if stores & rel and not loads <= rel:
                    rel |= loads
                    changed = True
        self.vars[id(func.node)] = rel
        return rel

    def __call__(self, s, func=None):
        r = self.cache.get(id(s))
        if r is None:
            r = True
            rv = self.relvars(func) if func is not None else ()
            for n in ast.walk(s):
                if isinstance(n, (ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Import, ast.ImportFrom)):
                    r = False
                elif isinstance(n, (ast.Break, ast.Continue)) and not isinstance(s, (ast.For, ast.While)):
                    r = False
                elif self._mentions(n):
                    r = False
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    r = False
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in rv:
                    r = False
                if not r:
                    break
            self.cache[id(s)] = (r, s)
            return r
        return r[0]


def rel_names(rel):
    out = set()
    for q in rel:
        out.add(q.split(".")[-1])
    out.discard("__init__")
    return out
