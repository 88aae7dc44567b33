"""Path-partitioned abstract interpreter for the repository's Python source.

It walks the syntax tree of a function with abstract values (values.V), inlining calls to
functions of the package whose target resolves, forking on conditions it cannot decide and
merging states again under a cap.  Loops are unrolled for the first and the repeated
iteration, with a join for the rest.  Nothing is executed and no constraint solver is used:
conditions are decided only by constants, intervals, types and earlier decisions on the same
condition."""
from __future__ import annotations

import ast
import builtins
import functools
import math
import sys

from .model import ClassInfo, FuncInfo, ModuleInfo, Program
from .values import (EMPTY, FALSE, INF, NONE, TRUE, V, Interval, all_labels, as_interval, const,
                     is_nan, join, top, typ)

sys.setrecursionlimit(20000)


class State:
    __slots__ = ("env", "heap", "facts", "mon", "trail")

    def __init__(self, env=None, heap=None, facts=None, mon=None, trail=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.mon = mon
        self.trail = trail

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.mon, self.trail)

    def keep(self, slot, v):
        s = self.copy()
        s.heap[slot] = v
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()), self.mon)


class Frame:
    __slots__ = ("func", "module", "cls", "ctx", "closure", "depth", "cm")

    def __init__(self, func, module, cls, ctx, closure=None, depth=0):
        self.cm = None  # pending `with` block of a generator used as context manager
        self.func = func
        self.module = module
        self.cls = cls
        self.ctx = ctx
        self.closure = closure
        self.depth = depth


def container(v):
    """A list, set or dict: something that can be changed through any of its names."""
    return v.k == "dict" or (v.k in ("seq", "typ") and v.c in ("list", "set", "dict"))


class Exc:
    __slots__ = ("name", "node", "func", "maybe", "orig")

    def __init__(self, name, node, func, maybe=False, orig=None):
        self.name = name
        self.node = node
        self.func = func
        self.maybe = maybe  # raised by a call we cannot see into
        self.orig = orig

    def __repr__(self):
        return f"{self.name}@{getattr(self.node, 'lineno', '?')}"


class _Box:
    """Holder compared by identity."""

    __slots__ = ("data",)

    def __init__(self, data):
        self.data = data


_NESTED = {}


class Budget(Exception):
    pass


_NN = {}


def never_none(node):
    """Every exit of the function returns an expression that builds a value, and control cannot fall off its end."""
    if id(node) in _NN and _NN[id(node)][0] is node:
        return _NN[id(node)][1]

    def leaves(stmts):
        if not stmts:
            return False
        t = stmts[-1]
        if isinstance(t, (ast.Return, ast.Raise)):
            return True
        if isinstance(t, ast.If):
            return leaves(t.body) and leaves(t.orelse)
        if isinstance(t, ast.With):
            return leaves(t.body)
        return False

    def builds(e):
        if isinstance(e, (ast.BinOp, ast.Tuple, ast.List, ast.Dict, ast.Compare, ast.JoinedStr, ast.Subscript)):
            return True
        if isinstance(e, ast.Constant):
            return e.value is not None
        if isinstance(e, ast.Call):
            return not (isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "pop"))
        if isinstance(e, ast.IfExp):
            return builds(e.body) and builds(e.orelse)
        if isinstance(e, ast.Name):
            asg = [a for a in ast.walk(node) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in a.targets)]
            return bool(asg) and all(not isinstance(a.value, ast.Name) and builds(a.value) for a in asg)
        return False

    rets, todo, gen = [], list(node.body) if isinstance(node.body, list) else [], False
    ok = leaves(todo)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, ast.Return):
            rets.append(x.value)
        gen = gen or isinstance(x, (ast.Yield, ast.YieldFrom))
        todo += list(ast.iter_child_nodes(x))
    r = ok and not gen and bool(rets) and all(v is not None and builds(v) for v in rets)
    _NN[id(node)] = (node, r)
    return r


class Hooks:
    max_rec = 1
    whole_objects = False  # objects made by the client are known completely

    """Override points for the individual checks."""

    def on_call(self, I, st, node, callee, args, kwargs, star):
        """Return None to let the interpreter proceed or a list of (V, State)."""
        return None

    def after_call(self, I, st, node, callee, args, kwargs, result):
        return result

    def leave_ctx(self, I, st, v):
        return st

    def on_attr_write(self, I, st, node, obj, attr, value):
        pass

    def on_attr_read(self, I, st, node, obj, attr):
        return None

    def on_store_item(self, I, st, node, obj, key, value):
        pass

    def on_binop(self, I, st, node, op, l, r, res):
        return res

    def on_subscript(self, I, st, node, obj, key, res):
        return res

    def on_return(self, I, st, fr, value):
        pass

    def on_param_set(self, I, st, node, obj, prop, value):
        """A recording property is being assigned."""

    def on_branch(self, I, st, node, truth):
        pass

    def on_compare(self, I, st, node, op, l, r, truth):
        """An undecided comparison is taken to be true or false on this path."""

    def may_raise(self, I, st, node, callee):
        """In exception mode: can this opaque call raise?"""
        return True

    def inline(self, I, func, depth):
        return True

    def param_value(self, I, func, name, ann, default):
        return None

    def partition(self, st):
        return None

    def skip_stmt(self, I, s):
        """True: a compound statement that cannot matter to this check (its assigned names become unknown)."""
        return False

    def forget(self, I, st, ctx):
        """Values created in context ctx are out of scope: prune the monitor."""


_TYPES = {
    "str": str, "int": int, "float": float, "bool": bool, "list": list, "tuple": tuple, "dict": dict,
    "set": set, "complex": complex, "bytes": bytes, "type": type, "frozenset": frozenset,
}
_SUBTYPES = {("bool", "int")}
_NUMERIC_ABC = {"numbers.Number", "numbers.Real", "Number", "Real"}


class Interp:
    def __init__(self, prog: Program, hooks=None, exc=False, max_depth=8, cap=48, budget=400000, loop=2):
        self.P = prog
        self.H = hooks or Hooks()
        self.exc = exc
        self.max_depth = max_depth
        self.cap = cap
        self.budget = budget
        self.loop = loop
        self.steps = 0
        self._plain = None
        self.raises = []
        self.frames = []
        self.stats = {"functions": set(), "calls": 0, "paths": 0}
        self._massign = {}
        self.ctx_extra = ()

    # ------------------------------------------------------------ entry points
    @property
    def fr(self):
        return self.frames[-1]

    def sym(self, node, kind="n"):
        return (kind, self.fr.ctx, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                getattr(node, "end_col_offset", 0))

    def self_obj(self, cls, oid="self"):
        return V("obj", cls, sym=("o", oid), oid=oid, mn=False)

    def run(self, func: FuncInfo, args=None, st=None, self_v=None, closure=None):
        """Analyse a function as an entry point.  args: {param: V} overrides.
        Returns list of (kind, value, State)."""
        st = st.copy() if st is not None else State()
        args = dict(args or {})
        a = func.node.args
        allp = a.posonlyargs + a.args
        env = {}
        names = [x.arg for x in allp]
        if func.cls is not None and func.parent is None and not func.is_static:
            first = names[0]
            if func.is_classmethod:
                env[first] = self_v or V("cls", func.cls)
            else:
                env[first] = self_v or self.self_obj(func.cls)
            allp = allp[1:]
        defaults = self._defaults(func)
        for x in allp + a.kwonlyargs:
            if x.arg in args:
                env[x.arg] = args.pop(x.arg)
                continue
            dv = defaults.get(x.arg)
            v = self.H.param_value(self, func, x.arg, x.annotation, dv)
            if v is None:
                v = self.ann_value(x.annotation, func.module, ("p", func.qual, x.arg))
            env[x.arg] = v
        if a.vararg:
            env[a.vararg.arg] = args.pop(a.vararg.arg, typ("tuple", sym=("p", func.qual, a.vararg.arg)))
        if a.kwarg:
            if a.kwarg.arg in args:
                env[a.kwarg.arg] = args.pop(a.kwarg.arg)
            else:
                env[a.kwarg.arg] = V("dict", top(sym=("p", func.qual, "**")), sym=("p", func.qual, a.kwarg.arg), items=())
        st.env = env
        fr = Frame(func, func.module, func.cls, (func.qual,), closure, 0)
        self.frames.append(fr)
        saved = self.raises
        self.raises = []
        try:
            outs = self._body(func, st)
        finally:
            self.frames.pop()
            self.raises = saved
        self.stats["paths"] += len(outs)
        return outs

    def _defaults(self, func):
        a = func.node.args
        allp = a.posonlyargs + a.args
        out = {}
        for x, d in zip(reversed(allp), reversed(a.defaults)):
            out[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = d
        return out

    def _body(self, func, st):
        self.stats["functions"].add(func.qual)
        node = func.node
        if isinstance(node, ast.Lambda):
            saved, self.raises = self.raises, []
            outs = [("ret", v, s) for v, s in self.ev(node.body, st)]
            outs += [("raise", e, s) for e, s in self.raises]
            self.raises = saved
            return outs
        outs = []
        for k, v, s in self.block(node.body, [st]):
            if k == "next":
                self.H.on_return(self, s, self.fr, NONE)
                outs.append(("ret", NONE, s))
            else:
                if k == "ret":
                    self.H.on_return(self, s, self.fr, v)
                outs.append((k, v, s))
        return outs

    # ------------------------------------------------------------ annotations
    def ann_value(self, ann, module, sym, mn=None):
        if ann is None:
            return top(sym=sym)
        t, maybe_none = self.ann_type(ann, module)
        if isinstance(t, ClassInfo):
            return V("obj", t, sym=sym, oid=sym, mn=maybe_none)
        if isinstance(t, str):
            return typ(t, sym=sym, mn=maybe_none)
        return top(sym=sym, mn=True)

    def ann_type(self, ann, module):
        """-> (ClassInfo | 'str'.. | None, maybe_none) for simple annotations."""
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return None, True
            if isinstance(ann.value, str):
                try:
                    return self.ann_type(ast.parse(ann.value, mode="eval").body, module)
                except SyntaxError:
                    return None, True
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            parts = []
            stack = [ann]
            while stack:
                x = stack.pop()
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                    stack += [x.left, x.right]
                else:
                    parts.append(x)
            non = [p for p in parts if not (isinstance(p, ast.Constant) and p.value is None)]
            mn = len(non) != len(parts)
            classes = [self.ann_type(p, module)[0] for p in non]
            cl = [c for c in classes if isinstance(c, ClassInfo)]
            if len(non) == 1:
                return classes[0], mn
            return None, mn
        if isinstance(ann, ast.Subscript):
            b = ast.unparse(ann.value)
            if b.split(".")[-1] == "Optional":
                return self.ann_type(ann.slice, module)[0], True
            return self.ann_type(ann.value, module)
        d = None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            from .model import dotted
            d = dotted(ann)
        if d is None:
            return None, True
        if d in ("str", "bool", "list", "tuple", "dict", "set"):
            return d, False
        if d in ("int", "float"):
            return None, False
        r = self.P.resolve_dotted(module, d)
        if isinstance(r, ClassInfo):
            return r, False
        if d == "Path" or r == "pathlib.Path":
            return "pathlib.Path", False
        return None, True

    # ------------------------------------------------------------ statements
    def merge(self, states):
        if len(states) <= 1:
            return states
        seen = {}
        for s in states:
            k = s.key()
            if k not in seen:
                seen[k] = s
        states = list(seen.values())
        if len(states) <= self.cap:
            return states
        groups = {}
        for s in states:
            groups.setdefault((s.mon, self.H.partition(s), s.env.get("$cm")), []).append(s)
        out = []
        per = max(1, self.cap // (2 * len(groups)))
        for g in groups.values():
            while len(g) > per:
                # join neighbours
                n = []
                for i in range(0, len(g) - 1, 2):
                    n.append(self.join_states(g[i], g[i + 1]))
                if len(g) % 2:
                    n.append(g[-1])
                g = n
            out += g
        return out

    def join_states(self, a, b):
        env = {}
        for k in set(a.env) | set(b.env):
            if k[:1] == "&":
                if a.env.get(k) == b.env.get(k):
                    env[k] = a.env[k]
                continue
            if k in a.env and k in b.env:
                env[k] = join(a.env[k], b.env[k])
            else:
                v = a.env.get(k) or b.env.get(k)
                env[k] = join(v, top(sym=("maybe-unbound", k)))
        heap = {}
        for k in set(a.heap) | set(b.heap):
            if k in a.heap and k in b.heap:
                heap[k] = join(a.heap[k], b.heap[k])
            else:
                v = a.heap.get(k) or b.heap.get(k)
                heap[k] = join(v, top(sym=("maybe-old", k)))
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k, "~") == v}
        return State(env, heap, facts, a.mon, a.trail)

    def block(self, stmts, states):
        outs = []
        for s in stmts:
            nxt = []
            for st in states:
                for k, v, st2 in self.stmt(s, st):
                    if k == "next":
                        nxt.append(st2)
                    else:
                        outs.append((k, v, st2))
            states = self.merge(nxt)
            if len(outs) > 4 * self.cap:
                outs = self.compact(outs)
            if not states:
                break
        outs += [("next", None, st) for st in states]
        return outs

    def compact(self, outs):
        seen = {}
        for k, v, st in outs:
            kk = (k, v if not isinstance(v, Exc) else (v.name, id(v.node)), st.mon, self.H.partition(st), st.env.get("$cm"))
            if kk not in seen:
                seen[kk] = (k, v, st)
            elif k != "raise":
                o = seen[kk]
                seen[kk] = (k, v, self.join_states(o[2], st))
        return list(seen.values())

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget(f"analysis budget exceeded in {self.fr.func.qual}")
        if isinstance(s, (ast.For, ast.While, ast.If, ast.Try, ast.With)) and self.H.skip_stmt(self, s):
            st = st.copy()
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.env[n.id] = top(sym=self.sym(n, "hv"))
            return [("next", None, st)]
        saved, self.raises = self.raises, []
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                outs = [("next", None, st)]
            else:
                outs = m(s, st)
            outs = outs + [("raise", e, s2) for e, s2 in self.raises]
        finally:
            self.raises = saved
        return outs

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", None, st)]
        return [("next", None, s2) for _, s2 in self.ev(s.value, st)]

    def s_Pass(self, s, st):
        return [("next", None, st)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        names = {}
        self.P.import_names(self.fr.module, s, names)
        st = st.copy()
        for k, d in names.items():
            st.env[k] = self.dotted_value(d)
        return [("next", None, st)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        f = self.P.func_of_node.get(s)
        if f is None:
            f = FuncInfo(s, self.fr.module, None, self.fr.func)
            self.P.func_of_node[s] = f
        st = st.copy()
        st.env[s.name] = V("fn", f, sym=("fn", f.qual), items=(_EnvBox(st.env, self.fr),))
        return [("next", None, st)]

    def s_ClassDef(self, s, st):
        st = st.copy()
        st.env[s.name] = top(sym=("localclass", s.name))
        return [("next", None, st)]

    def s_Return(self, s, st):
        if s.value is None:
            return [("ret", NONE, st)]
        return [("ret", v, s2) for v, s2 in self.ev(s.value, st)]

    def s_Raise(self, s, st):
        if s.exc is None:
            e = st.env.get("$exc")
            if e is not None and isinstance(e.c, Exc):
                return [("raise", e.c, st)]
            return [("raise", Exc("Exception", s, self.fr.func), st)]
        n = s.exc
        nm = None
        states = [st]
        if isinstance(n, ast.Call):
            nm = _tail(n.func)
            states = []
            outs = [([], st)]
            for a in n.args:
                outs = [(None, s2) for _, s1 in outs for _, s2 in self.ev(a, s1)]
            states = [x for _, x in outs]
        elif isinstance(n, ast.Name):
            b = st.env.get(n.id)
            if b is not None and b.k == "top" and isinstance(b.c, Exc):
                return [("raise", b.c, st)]
            nm = n.id
        else:
            nm = _tail(n)
        return [("raise", Exc(nm or "Exception", s, self.fr.func), x) for x in states]

    def s_Assert(self, s, st):
        outs = []
        for t, s2 in self.cond(s.test, st):
            if t:
                outs.append(("next", None, s2))
            else:
                outs.append(("raise", Exc("AssertionError", s, self.fr.func), s2))
        return outs

    def s_Delete(self, s, st):
        st = st.copy()
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                for kv, s1 in self.ev(t.slice, st):
                    for ov, s2 in self.ev(t.value, s1):
                        s2 = s2.copy()
                        if ov.k == "dict" and kv.k == "const":
                            self.assign_back(t.value, V("dict", ov.c, ov.lab, ov.sym, tuple((k, v) for k, v in ov.items if k != kv.c)), s2)
                        elif ov.k == "seq" and ov.c == "list":
                            left = list(ov.items)
                            try:
                                if kv.k == "const" and isinstance(kv.c, int):
                                    del left[kv.c]
                                elif isinstance(t.slice, ast.Slice) and all(b is None or isinstance(b, ast.Constant) for b in (t.slice.lower, t.slice.upper, t.slice.step)):
                                    del left[slice(*[None if b is None else b.value for b in (t.slice.lower, t.slice.upper, t.slice.step)])]
                                elif isinstance(t.slice, ast.Slice) and t.slice.step is None:
                                    lo, hi = [[const(None)] if b is None else [v for v, _ in self.ev(b, s2)] for b in (t.slice.lower, t.slice.upper)]
                                    if len(lo) == len(hi) == 1 and lo[0].k == hi[0].k == "const":
                                        del left[lo[0].c:hi[0].c]
                                    else:
                                        left = None
                                else:
                                    left = None
                            except (IndexError, TypeError):
                                left = None
                            nv = V("seq", "list", ov.lab, ov.sym, tuple(left)) if left is not None else V("typ", "list", ov.lab, ov.sym, items=(self.elem_of(ov, t),) if ov.items else (), mn=False)
                            self.assign_back(t.value, nv, s2)
                        self.H.on_store_item(self, s2, t, ov, kv, None)
                        st = s2
                        break
                    break
        return [("next", None, st)]

    def s_Assign(self, s, st):
        outs = []
        for v, s2 in self.ev(s.value, st):
            sts = [s2.copy()]
            for t in s.targets:
                nx = []
                for x in sts:
                    path = self.alias_of(s.value, v, x) if isinstance(t, ast.Name) else None
                    ys = self.assign(t, v, x)
                    if path is not None:
                        for y in ys:
                            y.env["&" + t.id] = const(path)
                    nx += ys
                sts = nx
            outs += [("next", None, x) for x in sts]
        return outs

    def alias_of(self, e, v, st):
        """The attribute a container was read from: changing it through a local name changes the attribute."""
        if not container(v):
            return None
        if isinstance(e, ast.Name):
            a = st.env.get("&" + e.id)
            return a.c if a is not None and a.k == "const" else None
        if isinstance(e, ast.Attribute):
            o = e.value
            if not isinstance(o, ast.Name):
                ov = None
                if isinstance(o, ast.Attribute) and isinstance(o.value, ast.Name):
                    r = self.ev(o, st)
                    ov = r[0][0] if len(r) == 1 else None
            else:
                ov = st.env.get(o.id)
            if ov is not None and ov.k == "obj":
                for at in (e.attr, "_" + e.attr):
                    if st.heap.get((ov.oid, at)) == v:
                        return ("heap", ov.oid, at)
        return None

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", None, st)]
        return [("next", None, x) for v, s2 in self.ev(s.value, st) for x in self.assign(s.target, v, s2.copy())]

    def s_AugAssign(self, s, st):
        outs = []
        load = _as_load(s.target)
        for l, s1 in self.ev(load, st):
            for r, s2 in self.ev(s.value, s1):
                for v, s3 in self.binop(s, s.op, l, r, s2):
                    if l.k == "seq" and l.c == "list" and r.k == "seq":
                        v = V("seq", "list", l.lab | r.lab, None, l.items + r.items)
                    elif l.k == "seq" and l.c == "list" and r.k == "typ" and r.c == "list" and isinstance(s.op, ast.Add):
                        v = V("typ", "list", l.lab | r.lab, self.sym(s), items=(), mn=False)
                    outs += [("next", None, x) for x in self.assign(s.target, v, s3.copy(), aug=True)]
        return outs

    def s_If(self, s, st):
        ts, fs = [], []
        for t, s2 in self.cond(s.test, st):
            self.H.on_branch(self, s2, s, t)
            (ts if t else fs).append(s2)
        outs = []
        if ts:
            outs += self.block(s.body, self.merge(ts))
        if fs:
            outs += self.block(s.orelse, self.merge(fs)) if s.orelse else [("next", None, x) for x in fs]
        return self._remerge(outs)

    def _remerge(self, outs):
        nx = [x for k, _, x in outs if k == "next"]
        rest = [o for o in outs if o[0] != "next"]
        if len(nx) > 1:
            nx = self.merge(nx)
        return rest + [("next", None, x) for x in nx]

    def s_Match(self, s, st):
        outs = []
        for v, s2 in self.ev(s.subject, st):
            rem = [s2]
            for c in s.cases:
                pat = c.pattern
                taken, left = [], []
                for x in rem:
                    dec = None
                    if isinstance(pat, ast.MatchValue):
                        for pv, x1 in self.ev(pat.value, x):
                            dec = self.cmp_eq(v, pv)
                            break
                    elif isinstance(pat, ast.MatchSingleton):
                        dec = self.is_none(v, x) if pat.value is None else None
                    elif isinstance(pat, ast.MatchOr) and all(isinstance(p, ast.MatchValue) for p in pat.patterns):
                        ds = []
                        for p in pat.patterns:
                            for pv, _ in self.ev(p.value, x):
                                ds.append(self.cmp_eq(v, pv))
                                break
                        dec = True if True in ds else (None if None in ds else False)
                    elif isinstance(pat, ast.MatchAs) and pat.pattern is None:
                        dec = True
                        if pat.name:
                            x = x.copy()
                            x.env[pat.name] = v
                    if c.guard is not None and dec is not False:
                        dec = None
                    if dec is not False:
                        taken.append(x.copy())
                    if dec is not True:
                        left.append(x)
                if taken:
                    outs += self.block(c.body, taken)
                rem = left
                if not rem:
                    break
            outs += [("next", None, x) for x in rem]
        return self._remerge(outs)

    # loops
    def _loop(self, s, states_iter, body, orelse, st_after_zero, exact=False):
        """states_iter(st, i) -> (enter states, exit states)."""
        outs = []
        cur = [st_after_zero]
        exits = []
        fr = self.fr
        base_ctx = fr.ctx
        maxit = self.loop
        i = 0
        try:
            while cur:
                enter = []
                for x in cur:
                    fr.ctx = base_ctx + (("it", s.lineno, i),)
                    en, ex = states_iter(x, i)
                    enter += en
                    exits += ex
                if exact and enter and not exits and i < 48:
                    maxit = max(maxit, i + 1)       # the test is decided: as many rounds as it says
                if i >= maxit or not enter:
                    if i >= maxit and enter and not exits:
                        exits += enter
                    break
                enter = self.merge(enter)
                nxt = []
                for k, v, x in self.block(body, enter):
                    if k in ("next", "cont"):
                        nxt.append(x)
                    elif k == "brk":
                        outs.append(("next", None, x))
                    else:
                        outs.append((k, v, x))
                cur = self.merge([self._end_iter(x, fr.ctx) for x in nxt])
                i += 1
            if i >= maxit:
                exits += cur if not exits else []
        finally:
            fr.ctx = base_ctx
        exits = self.merge(exits)
        if orelse:
            outs += self.block(orelse, exits)
        else:
            outs += [("next", None, x) for x in exits]
        return self._remerge(outs)

    def _end_iter(self, x, ctx):
        fx = {a: b for a, b in x.facts.items() if not _mentions(a, ctx)}
        y = State(x.env, x.heap, fx, x.mon, x.trail)
        self.H.forget(self, y, ctx)
        return y

    def s_For(self, s, st):
        outs = []
        for itv, s2 in self.ev(s.iter, st):
            items = self.exact_items(itv)
            if items is not None and len(items) <= 48:
                outs += self._for_exact(s, items, s2)
                continue
            elem = self.elem_of(itv, s)

            def it(x, i, elem=elem, s=s):
                # exit after any number of iterations is possible
                ex = [x]
                en = []
                e = elem.with_sym(("it", self.fr.ctx, s.lineno, s.col_offset)) if elem.k in ("top", "typ", "obj") else elem
                en = self.assign(s.target, e, x.copy())
                return en, ex
            outs += self._loop(s, it, s.body, s.orelse, s2)
        return outs

    def _for_exact(self, s, items, st):
        outs = []
        cur = [st]
        fr = self.fr
        base_ctx = fr.ctx
        try:
            for i, e in enumerate(items):
                fr.ctx = base_ctx + (("it", s.lineno, i),)
                nxt = []
                for x in cur:
                    ent = self.assign(s.target, e, x.copy())
                    for k, v, y in self.block(s.body, ent):
                        if k in ("next", "cont"):
                            nxt.append(y)
                        elif k == "brk":
                            outs.append(("next", None, y))
                        else:
                            outs.append((k, v, y))
                cur = self.merge([self._end_iter(x, fr.ctx) for x in nxt])
        finally:
            fr.ctx = base_ctx
        if s.orelse:
            outs += self.block(s.orelse, cur)
        else:
            outs += [("next", None, x) for x in cur]
        return outs

    def s_While(self, s, st):
        def it(x, i):
            en, ex = [], []
            for t, y in self.cond(s.test, x):
                (en if t else ex).append(y)
            return en, ex
        return self._loop(s, it, s.body, s.orelse, st, exact=isinstance(s.test, ast.Compare))

    s_AsyncFor = s_For

    def s_Break(self, s, st):
        return [("brk", None, st)]

    def s_Continue(self, s, st):
        return [("cont", None, st)]

    def s_With(self, s, st):
        if len(s.items) > 1:
            inner = self._nested_with(s)
            return self.s_With(inner, st)
        if isinstance(s.items[0].context_expr, ast.Call):
            outs, rest = [], []
            for v, y in self.ev(s.items[0].context_expr, st):
                if v.k == "cm":
                    outs += self.run_cm(s, v, y)
                else:
                    rest.append((v, y))
            if not rest:
                return outs
            states, mgrs = [], []
            for v, y in rest:
                for ev_, z in self.enter_ctx(s, v, y.copy()):
                    if s.items[0].optional_vars is not None:
                        states += self.assign(s.items[0].optional_vars, ev_, z.copy())
                    else:
                        states.append(z)
                if v not in mgrs:
                    mgrs.append(v)
            for k, v, x in self.block(s.body, states):
                outs += self.exit_ctx(s, mgrs, k, v, x)
            return outs
        states = [st]
        mgrs = []
        for item in s.items:
            nx = []
            for x in states:
                for v, y in self.ev(item.context_expr, x):
                    y = y.copy()
                    y2 = self.enter_ctx(s, v, y)
                    for ev_, z in y2:
                        if item.optional_vars is not None:
                            nx += self.assign(item.optional_vars, ev_, z.copy())
                        else:
                            nx.append(z)
                    mgrs.append(v)
            states = nx
        outs = self.block(s.body, states)
        res = []
        for k, v, x in outs:
            res += self.exit_ctx(s, mgrs, k, v, x)
        return res

    s_AsyncWith = s_With

    def _nested_with(self, s):
        n = _NESTED.get(id(s))
        if n is None:
            body = s.body
            for it in reversed(s.items):
                w = ast.copy_location(ast.With(items=[it], body=body), s)
                body = [w]
            n = _NESTED[id(s)] = (w, s)
        return n[0]

    def run_cm(self, s, v, st):
        """A `with` block of a generator function of the package used as context manager: the block runs at the yield."""
        func, env, ctx, clo, depth = v.c.data
        fr = Frame(func, func.module, func.cls, ctx, clo, depth)
        fr.cm = (s, st.env)
        self.frames.append(fr)
        saved, self.raises = self.raises, []
        try:
            outs = self._body(func, State(dict(env), dict(st.heap), dict(st.facts), st.mon, st.trail))
        finally:
            self.frames.pop()
            self.raises = saved
        res = []
        for k, val, x in outs:
            box = x.env.get("$cm")
            if box is None:
                if k == "raise":
                    res.append((k, val, State(st.env, x.heap, x.facts, x.mon, x.trail)))
                continue
            bk, bv, benv = box.c.data
            y = State(benv, x.heap, x.facts, x.mon, x.trail)
            self.H.forget(self, y, ctx)
            if k == "raise":
                res.append((k, val, y))
            elif bk == "raise":
                res.append(("next", None, y))
            else:
                res.append((bk, bv, y))
        return res

    def _cm_yield(self, v, st):
        fr = self.fr
        s, cenv = fr.cm
        self.frames.pop()
        try:
            x = State(dict(cenv), st.heap, st.facts, st.mon, st.trail)
            xs = [x]
            if s.items[0].optional_vars is not None:
                xs = self.assign(s.items[0].optional_vars, v, x)
            outs = self.block(s.body, xs)
        finally:
            self.frames.append(fr)
        res = []
        for k, val, y in outs:
            env = dict(st.env)
            env["$cm"] = V("cm", _Box((k, val, y.env)))
            z = State(env, y.heap, y.facts, y.mon, y.trail)
            if k == "raise":
                self.raises.append((val, z))
            else:
                res.append((NONE, z))
        return res

    def enter_ctx(self, s, v, st):
        if v.k == "obj" and v.c.method("__enter__"):
            return self.call_func(v.c.method("__enter__"), [], {}, s, st, self_v=v)
        if v.k in ("top", "typ", "ext"):
            return [(V(v.k, v.c, v.lab, v.sym, v.items, v.num, v.oid, False), st)]
        return [(v, st)]

    def exit_ctx(self, s, mgrs, k, v, x):
        for m in reversed(mgrs):
            x = self.H.leave_ctx(self, x, m)
            if k == "raise" and any("suppress" in str(l) for l in m.lab):
                return [("next", None, x)]
            if m.k == "obj" and m.c.method("__exit__"):
                saved, self.raises = self.raises, []
                rs = self.call_func(m.c.method("__exit__"), [NONE, NONE, NONE], {}, s, x, self_v=m)
                self.raises = saved
                if rs:
                    x = rs[0][1]
        return [(k, v, x)]

    def s_Try(self, s, st):
        body = self.block(s.body, [st])
        outs = []
        after = []
        for k, v, x in body:
            if k == "raise":
                after += self._handle(s, v, x)
            elif k == "next" and s.orelse:
                after += self.block(s.orelse, [x])
            else:
                after.append((k, v, x))
        if len(after) > self.cap * 2:
            after = self.compact(after)
        if not s.finalbody:
            return self._remerge(after)
        for k, v, x in after:
            for k2, v2, y in self.block(s.finalbody, [x]):
                if k2 == "next":
                    outs.append((k, v, y))
                else:
                    outs.append((k2, v2, y))
        return self._remerge(outs)

    s_TryStar = s_Try

    def _handle(self, s, e, st):
        outs = []
        for h in s.handlers:
            m = self.exc_matches(h.type, e)
            if m is False:
                continue
            x = st.copy()
            x.env["$exc"] = V("top", e)
            if h.name:
                x.env[h.name] = V("top", e, sym=("exc", e.name))
            outs += self.block(h.body, [x])
            if m is True:
                return outs
        outs.append(("raise", e, st))
        return outs

    def exc_matches(self, tnode, e):
        if tnode is None:
            return True
        names = [_tail(t) for t in tnode.elts] if isinstance(tnode, ast.Tuple) else [_tail(tnode)]
        if "BaseException" in names:
            return True
        if e.maybe:
            return True if "Exception" in names else None
        ec = getattr(builtins, e.name or "", None)
        res = False
        for n in names:
            if n == e.name:
                return True
            nc = getattr(builtins, n or "", None)
            if isinstance(ec, type) and isinstance(nc, type):
                if issubclass(ec, nc):
                    return True
            elif n == "Exception":
                return True
            else:
                res = None
        return res

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, aug=False):
        """Returns list of states (st may be mutated)."""
        if isinstance(t, ast.Name):
            if v.sym is None and v.k in ("top", "typ", "num", "obj"):
                v = v.with_sym(self.sym(t, "asg"))
            if aug and container(v):
                self.assign_back(t, v, st)      # += changes the list itself
            else:
                st.env[t.id] = v
                st.env.pop("&" + t.id, None)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            items = self.exact_items(v)
            if items is not None and len(items) == n and not any(isinstance(e, ast.Starred) for e in t.elts):
                sts = [st]
                for e, i in zip(t.elts, items):
                    sts = [y for x in sts for y in self.assign(e, i, x)]
                return sts
            sts = [st]
            el = self.elem_of(v, t)
            for idx, e in enumerate(t.elts):
                ev_ = el
                if el.k in ("top", "typ") and v.sym is not None:
                    ev_ = el.with_sym(("idx", v.sym, idx))
                elif el.k == "top":
                    ev_ = el.with_sym(self.sym(e, "unp"))
                if isinstance(e, ast.Starred):
                    e, ev_ = e.value, typ("list", el.lab)
                sts = [y for x in sts for y in self.assign(e, ev_, x)]
            return sts
        if isinstance(t, ast.Starred):
            return self.assign(t.value, typ("list", all_labels(v)), st)
        if isinstance(t, ast.Attribute):
            out = []
            for o, s2 in self.ev(t.value, st):
                out += self.set_attr(t, o, t.attr, v, s2.copy())
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for o, s1 in self.ev(t.value, st):
                for kx, s2 in self.ev(t.slice, s1):
                    s2 = s2.copy()
                    self.H.on_store_item(self, s2, t, o, kx, v)
                    nv = self.with_item(o, kx, v)
                    if nv is not None:
                        self.assign_back(t.value, nv, s2)
                    out.append(s2)
            return out
        return [st]

    def with_item(self, o, kx, v):
        if o.k == "dict":
            if kx.k == "const":
                items = tuple((k, x) for k, x in o.items if k != kx.c) + ((kx.c, v),)
                return V("dict", o.c, o.lab, o.sym, items)
            rest = v if o.c is None else join(o.c, v)
            return V("dict", rest, o.lab, o.sym, o.items)
        if o.k == "seq":
            if kx.k == "const" and isinstance(kx.c, int) and -len(o.items) <= kx.c < len(o.items):
                l = list(o.items)
                l[kx.c] = v
                return V("seq", o.c, o.lab, o.sym, tuple(l))
            return V("seq", o.c, o.lab, o.sym, tuple(join(i, v) for i in o.items))
        if o.k in ("top", "typ"):
            return o.add_lab(*v.lab) if v.lab else None
        return None

    def assign_back(self, expr, v, st):
        """Update the variable/attribute an in-place modified container came from."""
        if isinstance(expr, ast.Name):
            if expr.id in st.env:
                old = st.env[expr.id]
                st.env[expr.id] = v
                a = st.env.get("&" + expr.id)
                if a is not None and a.k == "const" and a.c[0] == "heap":
                    if st.heap.get(a.c[1:]) == old:
                        self.write_shared(a, v, st)
                    else:
                        st.env.pop("&" + expr.id)
        elif isinstance(expr, ast.Attribute):
            for o, _ in self.ev(expr.value, st):
                if o.k == "obj":
                    at = expr.attr
                    r = o.c.lookup(at)
                    if r and r[1] == "prop":
                        at = "_" + at
                    self.write_shared(const(("heap", o.oid, at)), v, st)
                break
        elif isinstance(expr, ast.Subscript):
            for o, _ in self.ev(expr.value, st):
                for kx, _ in self.ev(expr.slice, st):
                    nv = self.with_item(o, kx, v)
                    if nv is not None:
                        self.assign_back(expr.value, nv, st)
                    break
                break

    def write_shared(self, a, v, st):
        """A container kept in an attribute was changed: so it was for every local name of it."""
        old = st.heap.get(a.c[1:])
        for k in [k for k, x in st.env.items() if k[:1] == "&" and x == a]:
            if st.env.get(k[1:]) in (old, v):
                st.env[k[1:]] = v
            else:
                del st.env[k]
        st.heap[a.c[1:]] = v

    def set_attr(self, node, o, attr, v, st, raw=False):
        if o.k == "union":
            out = []
            for a in o.items:
                out += self.set_attr(node, a, attr, v, st.copy(), raw)
            return out
        if o.k == "obj" and not raw:
            cs = o.c.lookup("__setattr__")
            if cs and cs[1] == "method":
                self.H.on_attr_write(self, st, node, o, attr, v)
                return [s for _, s in self.call_func(cs[2], [const(attr), v], {}, node, st, self_v=o)]
        if o.k == "obj" and not raw and o.c.is_frozen:
            self.raises.append((Exc("AttributeError", node, self.fr.func), st))
            return []
        self.H.on_attr_write(self, st, node, o, attr, v)
        if o.k == "obj":
            r = o.c.lookup(attr)
            if r and r[1] == "prop":
                p = r[2]
                if p.fset is None:
                    self.raises.append((Exc("AttributeError", node, self.fr.func), st))
                    return []
                if p.recording:
                    self.H.on_param_set(self, st, node, o, p, v)
                    w = self.recorder(p)
                    if w is not None:
                        return [s for _, s in self.call_func(w.c, [o, v], {}, node, st, closure=w.items[0])]
                return [s for _, s in self.call_func(p.fset, [v], {}, node, st, self_v=o)]
            st.heap[(o.oid, attr)] = v
        return [st]

    def recording_names(self):
        w = self.P.__dict__.get("_recnames")
        if w is None:
            w = self.P._recnames = {n for c in self.P.classes.values() for n, p in c.props.items() if p.recording}
        return w

    def recorder(self, p):
        """The function the package's recording descriptor installs around a setter: found by walking the
        descriptor's own setter() with the setter function as argument."""
        cache = self.P.__dict__.setdefault("_recorders", {})
        if p.fset in cache:
            return cache[p.fset]
        cache[p.fset] = None
        pc = next((c for c in self.P.classes.values() if c.name == "Parameter"), None)
        if pc is None or pc.method("setter") is None:
            return None
        oid = ("descriptor", p.cls.qual, p.name)
        d = V("obj", pc, sym=oid, oid=oid, mn=False)
        fget = V("fn", p.fget, sym=("fn", p.fget.qual)) if p.fget is not None else NONE
        heap = {(oid, "fget"): fget, (oid, "fset"): NONE, (oid, "fdel"): NONE, (oid, "__doc__"): NONE}
        I = Interp(self.P, Hooks(), max_depth=4, cap=8, budget=4000)
        try:
            init = pc.method("__init__")
            if init is not None and fget is not NONE:
                done = [s for k, v, s in I.run(init, args={init.params()[0]: fget, **{n: NONE for n in init.params()[1:]}}, st=State(heap=heap), self_v=d) if k == "ret"]
                if len(done) == 1:
                    heap = done[0].heap
            self.P.__dict__.setdefault("_recorder_heap", {}).update({k: v for k, v in heap.items() if k[0] == oid})
            outs = I.run(pc.method("setter"), args={pc.method("setter").params()[-1]: V("fn", p.fset, sym=("fn", p.fset.qual))}, st=State(heap=heap), self_v=d)
        except Budget:
            return None
        got = None
        for k, v, s in outs:
            if k == "ret" and v.k == "obj":
                w = s.heap.get((v.oid, "fset"))
                if w is not None and w.k == "fn" and w.items:
                    got = w
        cache[p.fset] = got
        return got

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        """-> list of (bool, State)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            outs = []
            cur = [st]
            for i, sub in enumerate(e.values):
                nxt = []
                for x in cur:
                    for t, y in self.cond(sub, x):
                        if t == isand:
                            nxt.append(y)
                        else:
                            outs.append((t, y))
                cur = nxt
            outs += [(isand, x) for x in cur]
            return self._merge_cond(outs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, s) for t, s in self.cond(e.operand, st)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            outs = []
            for l, s1 in self.ev(e.left, st):
                for r, s2 in self.ev(e.comparators[0], s1):
                    for l1, s3 in self._split_union(e.left, l, s2):
                        for r1, s4 in self._split_union(e.comparators[0], r, s3):
                            outs += self._cmp_fork(e, e.ops[0], l1, r1, s4)
            return self._merge_cond(outs)
        if isinstance(e, ast.Compare):
            # chained: a < b < c
            outs = []
            cur = []
            for l, s1 in self.ev(e.left, st):
                cur.append((l, s1))
            left_node = e.left
            for op, rn in zip(e.ops, e.comparators):
                nxt = []
                for l, s1 in cur:
                    for r, s2 in self.ev(rn, s1):
                        cn = ast.Compare(left=left_node, ops=[op], comparators=[rn])
                        ast.copy_location(cn, e)
                        for t, s3 in self._cmp_fork(cn, op, l, r, s2):
                            if t:
                                nxt.append((r, s3))
                            else:
                                outs.append((False, s3))
                cur = nxt
                left_node = rn
            outs += [(True, s) for _, s in cur]
            return self._merge_cond(outs)
        if isinstance(e, ast.NamedExpr):
            outs = []
            for v, s1 in self.ev(e.value, st):
                for x in self.assign(e.target, v, s1.copy()):
                    outs += self._truth_fork(e.target, v, x)
            return outs
        outs = []
        for v, s1 in self.ev(e, st):
            for v1, s2 in self._split_union(e, v, s1):
                outs += self._truth_fork(e, v1, s2)
        return self._merge_cond(outs)

    def _merge_cond(self, outs):
        if len(outs) <= 16:
            return outs
        ts = self.merge([s for t, s in outs if t])
        fs = self.merge([s for t, s in outs if not t])
        return [(True, s) for s in ts] + [(False, s) for s in fs]

    def _split_union(self, e, v, st):
        if v.k != "union":
            return [(v, st)]
        out = []
        for a in v.items:
            s2 = st.copy()
            self.refine_to(e, a, s2)
            out.append((a, s2))
        return out

    def refine_to(self, e, v, st):
        if isinstance(e, ast.Name) and e.id in st.env:
            st.env[e.id] = v
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            o = st.env.get(e.value.id)
            if o is not None and o.k == "obj":
                r = o.c.lookup(e.attr)
                if (o.oid, e.attr) in st.heap:
                    st.heap[(o.oid, e.attr)] = v
                elif r and r[1] == "prop" and (o.oid, "_" + e.attr) in st.heap:
                    st.heap[(o.oid, "_" + e.attr)] = v
                elif not (r and r[1] == "prop"):
                    st.heap[(o.oid, e.attr)] = v
        elif isinstance(e, ast.NamedExpr):
            self.refine_to(e.target, v, st)

    def truth(self, v, st):
        """True / False / None"""
        k = v.k
        if k == "const":
            return bool(v.c)
        if k == "num":
            z = Interval(0, 0)
            r = v.num.eq(z)
            return None if r is None else not r
        if k == "seq":
            return len(v.items) > 0
        if k == "dict":
            if v.items:
                return True
            if v.c is None:
                return False
        if k in ("fn", "bound", "cls", "mod", "super"):
            return True
        if k == "ext":
            return True
        if v.sym is not None:
            f = st.facts.get(("t", v.sym))
            if f is not None:
                return f
            if st.facts.get(("none", v.sym)) is True:
                return False
        if k == "obj" and not v.mn and not (v.c.method("__bool__") or v.c.method("__len__")):
            return True
        if k == "typ" and v.c == "pathlib.Path" and not v.mn:
            return True
        if k == "obj" and v.sym is not None and st.facts.get(("none", v.sym)) is False and not (
                v.c.method("__bool__") or v.c.method("__len__")):
            return True
        return None

    def _truth_fork(self, e, v, st):
        t = self.truth(v, st)
        if t is not None:
            return [(t, st)]
        outs = []
        for b in (True, False):
            x = st.copy()
            if v.sym is not None:
                x.facts[("t", v.sym)] = b
                if b:
                    x.facts[("none", v.sym)] = False
                    if v.mn and v.k in ("top", "typ", "obj"):
                        self.refine_to(e, v.not_none(), x)
                elif v.k == "obj" and not (v.c.method("__bool__") or v.c.method("__len__")):
                    x.facts[("none", v.sym)] = True
                    self.refine_to(e, NONE, x)
            if v.k == "typ" and v.c == "bool":
                self.refine_to(e, V("const", b, v.lab, v.sym), x)
            if v.k == "num" and not b:
                self.refine_to(e, V("const", 0, v.lab, v.sym), x)
            x.trail = x.trail + ((self.fr.func.short + ("?" if "given" in v.lab and v.k != "num" else ""), getattr(e, "lineno", 0), b),)
            outs.append((b, x))
        return outs

    def is_none(self, v, st):
        if v.k == "const":
            return v.c is None
        if v.k in ("num", "seq", "dict", "fn", "bound", "cls", "mod", "super", "ext"):
            return False
        if v.k == "union":
            rs = {self.is_none(a, st) for a in v.items}
            return rs.pop() if len(rs) == 1 else None
        if v.sym is not None:
            f = st.facts.get(("none", v.sym))
            if f is not None:
                return f
        if not v.mn:
            return False
        return None

    def cmp_eq(self, l, r):
        if l.k == "const" and r.k == "const":
            try:
                return bool(l.c == r.c)
            except Exception:
                return None
        if is_nan(l) or is_nan(r):
            return False
        a, b = as_interval(l), as_interval(r)
        if a is not None and b is not None:
            return a.eq(b)
        for x, y in ((l, r), (r, l)):
            if x.k == "const" and x.c is None and y.k in ("num", "seq", "dict", "fn", "cls", "bound"):
                return False
            if x.k == "const" and isinstance(x.c, str) and (y.k in ("num", "seq", "dict") or (y.k == "const" and not isinstance(y.c, str))):
                return False
        fam = {"num": "n", "seq": "s", "dict": "d"}
        fl, fr_ = (fam.get(x.k) or ("t" if x.k == "typ" and x.c == "str" else "n" if x.k == "typ" and x.c in ("float", "int") and not x.mn else None) or
                   (("n" if isinstance(x.c, (int, float)) else "t" if isinstance(x.c, str) else None) if x.k == "const" else None) for x in (l, r))
        if fl and fr_ and fl != fr_ and not (l.k == "typ" and l.mn) and not (r.k == "typ" and r.mn):
            return False
        if l.k == r.k == "seq" and l.c == r.c:
            if len(l.items) != len(r.items):
                return False
            rs = [self.cmp_eq(x, y) for x, y in zip(l.items, r.items)]
            if all(x is True for x in rs):
                return True
            if any(x is False for x in rs):
                return False
        if l.k == "cls" and r.k == "cls":
            return l.c is r.c
        return None

    def compare(self, op, l, r, st):
        """True/False/None or ('raise', name)."""
        if isinstance(op, (ast.Is, ast.IsNot)):
            res = None
            if r.k == "const" and r.c is None:
                res = self.is_none(l, st)
            elif l.k == "const" and l.c is None:
                res = self.is_none(r, st)
            elif l.k == "const" and r.k == "const" and isinstance(r.c, bool):
                res = l.c is r.c
            elif r.k == "const" and isinstance(r.c, bool) and l.k in ("num", "seq", "dict", "obj", "fn"):
                res = False
            elif l.k == "obj" and r.k == "obj" and l.oid == r.oid and l.sym == r.sym:
                res = True
            if res is None:
                return None
            return res if isinstance(op, ast.Is) else not res
        if isinstance(op, (ast.Eq, ast.NotEq)):
            res = self.cmp_eq(l, r)
            if res is None:
                return None
            return res if isinstance(op, ast.Eq) else not res
        if isinstance(op, (ast.In, ast.NotIn)):
            res = None
            items = self.exact_items(r)
            if items is not None:
                rs = [self.cmp_eq(l, i) for i in items]
                if any(x is True for x in rs):
                    res = True
                elif all(x is False for x in rs):
                    res = False
            elif r.k == "dict" and l.k == "const":
                if any(k == l.c for k, _ in r.items):
                    res = True
                elif r.c is None:
                    res = False
            elif l.k == "const" and isinstance(r.sym, tuple) and r.sym and r.sym[-1] == "_user_defined" and l.c not in self.recording_names():
                res = False
            elif r.k == "const" and isinstance(r.c, str) and l.k == "const":
                if not isinstance(l.c, str):
                    return ("raise", "TypeError")
                res = l.c in r.c
            if res is None:
                return None
            return res if isinstance(op, ast.In) else not res
        # ordering
        if is_nan(l) or is_nan(r):
            other = r if is_nan(l) else l
            if other.k in ("num", "top") or (other.k == "const" and isinstance(other.c, (int, float))):
                return False
        for x, y in ((l, r), (r, l)):
            if (x.k == "const" and x.c is None) and (as_interval(y) is not None or y.k in ("seq", "dict", "const")):
                return ("raise", "TypeError")
            if ((x.k == "const" and isinstance(x.c, str)) or (x.k == "typ" and x.c == "str")) and as_interval(y) is not None:
                return ("raise", "TypeError")
            if x.k in ("seq", "dict") and as_interval(y) is not None:
                return ("raise", "TypeError")
        a, b = as_interval(l), as_interval(r)
        if a is not None and b is not None:
            if isinstance(op, ast.Lt):
                return a.lt(b)
            if isinstance(op, ast.LtE):
                return a.le(b)
            if isinstance(op, ast.Gt):
                return b.lt(a)
            if isinstance(op, ast.GtE):
                return b.le(a)
        return None

    def _cmp_fork(self, e, op, l, r, st):
        c = self.compare(op, l, r, st)
        if isinstance(c, tuple):
            self.raises.append((Exc(c[1], e, self.fr.func), st))
            return []
        if c is not None:
            return [(c, st)]
        key, pol = self.cmp_key(op, l, r)
        if key is not None and key in st.facts:
            return [(st.facts[key] == pol, st)]
        outs = []
        weak = ""
        if "given" in l.lab or "given" in r.lab or "given" in all_labels(l) or "given" in all_labels(r):
            # an undecided test of the probed value: a true split of its class only between known intervals
            if as_interval(l) is None or as_interval(r) is None:
                weak = "?"
        for b in (True, False):
            x = st.copy()
            if key is not None:
                x.facts[key] = b == pol
            self.refine_cmp(e, op, l, r, b, x)
            x.trail = x.trail + ((self.fr.func.short + weak, getattr(e, "lineno", 0), b),)
            self.H.on_compare(self, x, e, op, l, r, b)
            outs.append((b, x))
        return outs

    def cmp_key(self, op, l, r):
        def vk(v):
            if v.k == "const":
                return ("c", type(v.c).__name__, str(v.c))
            if v.k == "seq":
                ks = tuple(vk(i) for i in v.items)
                return None if None in ks else ("s",) + ks
            return v.sym
        if isinstance(op, (ast.Is, ast.IsNot)) and r.k == "const" and r.c is None:
            return (("none", l.sym), isinstance(op, ast.Is)) if l.sym is not None else (None, True)
        a, b = vk(l), vk(r)
        if a is None or b is None:
            return None, True
        if isinstance(op, (ast.Is, ast.IsNot)):
            return ("is", a, b), isinstance(op, ast.Is)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            a, b = sorted((a, b), key=repr)
            return ("eq", a, b), isinstance(op, ast.Eq)
        if isinstance(op, (ast.In, ast.NotIn)):
            return ("in", a, b), isinstance(op, ast.In)
        if isinstance(op, ast.Lt):
            return ("lt", a, b), True
        if isinstance(op, ast.GtE):
            return ("lt", a, b), False
        if isinstance(op, ast.Gt):
            return ("lt", b, a), True
        if isinstance(op, ast.LtE):
            return ("lt", b, a), False
        return None, True

    def refine_cmp(self, e, op, l, r, b, st):
        ln, rn = e.left, e.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)) and r.k == "const" and r.c is None:
            isn = (isinstance(op, ast.Is)) == b
            if isn:
                self.refine_to(ln, V("const", None, l.lab), st)
            elif l.k in ("top", "typ", "obj"):
                self.refine_to(ln, l.not_none(), st)
            return
        if isinstance(op, (ast.Eq, ast.NotEq)) and (isinstance(op, ast.Eq) == b):
            if r.k == "const" and l.k in ("top", "typ", "num"):
                self.refine_to(ln, V("const", r.c, l.lab, l.sym), st)
            elif l.k == "const" and r.k in ("top", "typ", "num"):
                self.refine_to(rn, V("const", l.c, r.lab, r.sym), st)
            return
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            for (node, v, o, flip) in ((ln, l, r, False), (rn, r, l, True)):
                iv, ov = as_interval(v), as_interval(o)
                if v.k != "num" or ov is None:
                    continue
                opn = type(op)
                if flip:
                    opn = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[opn]
                if not b:
                    opn = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}[opn]
                if opn is ast.Lt:
                    lim = Interval(-INF, ov.hi, False, True)
                elif opn is ast.LtE:
                    lim = Interval(-INF, ov.hi, False, ov.hi_open)
                elif opn is ast.Gt:
                    lim = Interval(ov.lo, INF, True, False)
                else:
                    lim = Interval(ov.lo, INF, ov.lo_open, False)
                m = iv.meet(lim)
                if not m.empty():
                    self.refine_to(node, V("num", v.c, v.lab, v.sym, num=m), st)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(top(sym=self.sym(e)), st)]
        return m(e, st)

    def evs(self, exprs, st):
        outs = [((), st)]
        for e in exprs:
            nx = []
            for vs, s1 in outs:
                for v, s2 in self.ev(e, s1):
                    nx.append((vs + (v,), s2))
            outs = nx
            if len(outs) > 64:
                outs = outs[:64]
        return outs

    def e_Constant(self, e, st):
        return [(const(e.value), st)]

    def e_Name(self, e, st):
        n = e.id
        if n in st.env:
            return [(st.env[n], st)]
        c = self.fr.closure
        while c is not None:
            if n in c.env:
                return [(c.env[n], st)]
            c = c.parent
        return [(self.global_name(self.fr.module, n), st)]

    def global_name(self, m, n):
        if n in m.classes:
            return V("cls", m.classes[n])
        if n in m.functions:
            return V("fn", m.functions[n], sym=("fn", m.functions[n].qual))
        if n in m.assigns:
            return self.module_assign(m, n)
        if n in m.imports:
            return self.dotted_value(m.imports[n])
        if n in ("True", "False", "None"):
            return const({"True": True, "False": False, "None": None}[n])
        if hasattr(builtins, n):
            return V("ext", n, sym=("b", n))
        return top(sym=("g", m.name, n))

    def module_assign(self, m, n):
        k = (m.name, n)
        if k in self._massign:
            return self._massign[k]
        self._massign[k] = top(sym=("g", m.name, n))
        fake = FuncInfo(ast.parse("def _m(): pass").body[0], m)
        self.frames.append(Frame(fake, m, None, ("mod", m.name)))
        saved, self.raises = self.raises, []
        try:
            r = self.ev(m.assigns[n], State())
            v = r[0][0] if len(r) == 1 else top(sym=("g", m.name, n))
        finally:
            self.frames.pop()
            self.raises = saved
        if v.k in ("top",) and v.sym is None:
            v = v.with_sym(("g", m.name, n))
        self._massign[k] = v
        return v

    def class_assign(self, c, n):
        """Value of a class-level name from its defining expression."""
        k = (c.qual, n)
        cache = self.P.__dict__.setdefault("_cassign", {})
        if k in cache:
            return cache[k]
        cache[k] = top(sym=("cattr", c.qual, n))
        node = c.attrs[n]
        env = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id != n and c.attrs.get(x.id) is not None:
                env[x.id] = self.class_assign(c, x.id)
        fake = FuncInfo(ast.parse("def _c(): pass").body[0], c.module)
        I = Interp(self.P, None, max_depth=4, cap=8, budget=20000)
        I.frames.append(Frame(fake, c.module, None, ("cls", c.qual)))
        try:
            r = I.ev(node, State(env))
            v = r[0][0] if len(r) == 1 else cache[k]
        except Budget:
            v = cache[k]
        if v.k == "top":
            v = v.with_sym(("cattr", c.qual, n))
        cache[k] = v
        return v

    def dotted_value(self, d):
        k, it = self.P.canonical(d)
        if k == "class":
            return V("cls", it)
        if k == "func":
            return V("fn", it, sym=("fn", it.qual))
        if k == "module":
            return V("mod", it)
        if k == "assign":
            return self.module_assign(*it)
        if k == "member":
            return top(sym=("member", d))
        return V("ext", it, sym=("x", it))

    def e_Attribute(self, e, st):
        outs = []
        for o, s1 in self.ev(e.value, st):
            outs += self.get_attr(e, o, e.attr, s1)
        return outs

    def get_attr(self, node, o, attr, st):
        h = self.H.on_attr_read(self, st, node, o, attr)
        if h is not None:
            return h if isinstance(h, list) else [(h, st)]
        k = o.k
        if attr == "__dataclass_fields__" and k in ("cls", "obj") and o.c.is_dataclass:
            return [(V("dict", None, sym=("fieldsof", o.c.qual), items=tuple((n, typ("dataclasses.Field", sym=("FIELD", n, i)).not_none()) for n, d, i in o.c.dc_fields()), mn=False), st)]
        if k == "typ" and o.c == "dataclasses.Field" and attr in ("name", "init"):
            return [(const(o.sym[1 if attr == "name" else 2]), st)]
        if k == "union":
            outs = []
            for a in o.items:
                outs += self.get_attr(node, a, attr, st)
            return outs[:8]
        if k == "ext":
            return [(V("ext", f"{o.c}.{attr}", o.lab, sym=("x", f"{o.c}.{attr}")), st)]
        if k == "mod":
            return [(self._mod_attr(o.c, attr), st)]
        if k == "obj":
            if (o.oid, attr) in st.heap:
                return [(st.heap[(o.oid, attr)], st)]
            if isinstance(o.oid, tuple) and o.oid[:1] == ("descriptor",) and (o.oid, attr) in self.P.__dict__.get("_recorder_heap", {}):
                return [(self.P._recorder_heap[(o.oid, attr)], st)]
            if attr == "_registry":
                return self.get_attr(node, V("cls", o.c), attr, st)
            if attr == "_component_name" and o.c.registered is not None:
                return [(const(o.c.registered[1]), st)]
            if attr == "__class__":
                return [(V("cls", o.c), st)]
            if attr == "__dict__":
                return [(self.obj_dict(o, st), st)]
            r = o.c.lookup(attr)
            if r:
                owner, kind, item = r
                if kind == "prop":
                    if item.fget is None:
                        return [(top(sym=("attr", o.sym, attr)), st)]
                    return self.read_prop(node, o, item, st)
                if kind == "method":
                    if item.is_static:
                        return [(V("fn", item, sym=("fn", item.qual)), st)]
                    rec = V("cls", o.c) if item.is_classmethod else o
                    return [(V("bound", item, items=rec), st)]
                if item is not None and kind == "attr":
                    if owner.is_dataclass or owner.anns.get(attr) is not None and not isinstance(item, ast.Constant):
                        return [(top(o.lab, sym=("attr", o.sym, attr)), st)]
                    if isinstance(item, ast.Constant) and not self._attr_written(o.c, attr):
                        return [(const(item.value, sym=("cattr", owner.qual, attr)), st)]
                    if not self._attr_written(o.c, attr):
                        return [(self.class_assign(owner, attr), st)]
                    return [(top(sym=("attr", o.sym, attr)), st)]
            nc = o.c.nested_class(attr)
            if nc is not None:
                return [(V("cls", nc), st)]
            v = self.only_write(attr)
            if v is None:
                v = self.init_attr_type(o, attr)
            if v is not None:
                return [(v, st)]
            return [(top(o.lab, sym=("attr", o.sym, attr)), st)]
        if k == "cls" and o.c.nested_class(attr) is not None:
            return [(V("cls", o.c.nested_class(attr)), st)]
        if k == "cls" or k == "obj":
            if attr == "_registry":
                for b, reg in self.P.registry.items():
                    if o.c.is_subclass(b):
                        return [(V("dict", None, sym=("registry", b.qual), items=tuple((n, V("cls", c)) for n, c in reg.items())), st)]
            if attr == "_component_name" and o.c.registered is not None:
                return [(const(o.c.registered[1]), st)]
        if k == "cls":
            r = o.c.lookup(attr)
            if attr == "__name__":
                return [(const(o.c.name), st)]
            if r:
                owner, kind, item = r
                if kind == "method":
                    if item.is_classmethod:
                        return [(V("bound", item, items=o), st)]
                    return [(V("fn", item, sym=("fn", item.qual)), st)]
                if kind == "attr" and isinstance(item, ast.Constant):
                    return [(const(item.value), st)]
                if kind == "attr" and item is not None and not self._attr_written(o.c, attr):
                    return [(self.class_assign(owner, attr), st)]
                if kind == "prop":
                    return [(V("typ", "property", sym=("cattr", o.c.qual, attr), items=(item,), mn=False), st)]
            return [(top(sym=("cattr", o.c.qual, attr)), st)]
        if k == "super":
            after, mro_cls = o.c
            r = mro_cls.lookup(attr, after=after)
            if r:
                owner, kind, item = r
                if kind == "method":
                    if item.is_static:
                        return [(V("fn", item), st)]
                    return [(V("bound", item, items=o.items), st)]
                if kind == "prop" and item.fget is not None and o.items.k == "obj":
                    return self.call_func(item.fget, [], {}, node, st, self_v=o.items)
            return [(V("ext", "object." + attr, items=(o.items,) if isinstance(o.items, V) else None), st)]
        if k == "const" and o.c is None:
            self.raises.append((Exc("AttributeError", node, self.fr.func), st))
            return []
        if k == "typ" and o.c == "property" and attr in ("fget", "fset", "fdel"):
            f = getattr(o.items[0], attr)
            return [(NONE if f is None else V("fn", f, sym=("fn", f.qual)), st)]
        if k in ("bound", "fn") and attr == "__name__":
            return [(const(o.c.name), st)]
        if k == "bound" or k == "fn":
            return [(top(sym=("attr", o.sym, attr)), st)]
        return [(V("top", None, o.lab, sym=("attr", o.sym, attr) if o.sym is not None else self.sym(node, "at"),
                   items=(o,)), st)]

    def read_prop(self, node, o, prop, st):
        if getattr(prop, "cached", False) and o.k == "obj" and o.oid is not None:
            kept = st.heap.get((o.oid, prop.name))
            if kept is not None:
                return [(kept, st)]
            outs = self.call_func(prop.fget, [], {}, node, st, self_v=o)
            return [(v, s.keep((o.oid, prop.name), v)) for v, s in outs]
        return self.call_func(prop.fget, [], {}, node, st, self_v=o)

    def memo_key(self, func, pos, kw, star, self_v):
        """Key under which a memoised function keeps its result (None: it keeps none)."""
        if self._plain is func:
            self._plain = None
            return None
        if star or not any(d.split(".")[-1] in ("lru_cache", "cache") for d in func.decos):
            return None
        if self_v is not None and self_v.k == "obj" and self_v.oid is None:
            return None

        def part(v):
            return (v.k, v.c if v.k in ("const", "typ") else None, v.oid if v.k == "obj" else None, v.sym, tuple(part(x) for x in v.items) if v.k == "seq" else None)
        try:
            key = ("memo", func.qual, None if self_v is None else part(self_v), tuple(map(part, pos)), tuple(sorted((k, part(v)) for k, v in kw.items())))
            hash(key)
        except TypeError:
            return None
        return (key, "value")

    def _mod_attr(self, m, attr):
        if attr in m.classes or attr in m.functions or attr in m.assigns or attr in m.imports:
            return self.global_name(m, attr)
        sub = self.P.modules.get(f"{m.name}.{attr}")
        if sub:
            return V("mod", sub)
        return V("ext", f"{m.name}.{attr}", sym=("x", f"{m.name}.{attr}"))

    def _attr_written(self, c, attr):
        """Is an attribute of that name ever assigned or mutated in place, anywhere?"""
        w = self.P.__dict__.get("_attrw")
        if w is None:
            w = self.P._attrw = set()
            for m in self.P.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        w.add(n.attr)
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        b = n.value
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        if isinstance(b, ast.Attribute):
                            w.add(b.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) \
                            and n.func.attr in ("append", "extend", "update", "setdefault", "pop", "clear", "add", "remove", "insert", "discard"):
                        w.add(n.func.value.attr)
                    elif isinstance(n, ast.Call) and _tail(n.func) in ("setattr", "__setattr__") and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                        w.add(n.args[1].value)
            w |= self.changed_through_names()
        return attr in w

    def changed_through_names(self):
        """Attributes whose container is changed in place through a local name (x = self.a; x.append(..))."""
        out = set()
        for m in self.P.modules.values():
            for f in ast.walk(m.tree):
                if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                names, changed = {}, set()
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                names.setdefault(t.id, set()).add(n.value.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                            "append", "extend", "update", "setdefault", "pop", "clear", "add", "remove", "insert", "discard", "sort", "reverse"):
                        changed.add(n.func.value.id)
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                        changed.add(n.value.id)
                for x in changed & set(names):
                    out |= names[x]
        return out

    def init_assigns(self, c, attr):
        """Does construction of the class always assign the attribute (top-level statement of an __init__ of its MRO)?"""
        cache = self.P.__dict__.setdefault("_initassign", {})
        if c not in cache:
            got = set()
            for k in c.cmro():
                f = k.methods.get("__init__")
                for s in f.node.body if f is not None else ():
                    if isinstance(s, (ast.Assign, ast.AnnAssign)):
                        for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                            got |= {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
                    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and _tail(s.value.func) in ("setattr", "__setattr__") \
                            and len(s.value.args) >= 2 and isinstance(s.value.args[-2], ast.Constant):
                        got.add(s.value.args[-2].value)
            cache[c] = got
        return attr in cache[c]

    def only_write(self, attr):
        """Value of an attribute whose only assignment in the whole program is a literal (never mutated)."""
        w = self.P.__dict__.get("_attronly")
        if w is None:
            w = self.P._attronly = {}
            dirty = set()
            for m in self.P.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Attribute):
                                w.setdefault(t.attr, []).append(n.value)
                            else:
                                dirty |= {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)}
                    elif isinstance(n, ast.AugAssign):
                        dirty |= {x.attr for x in ast.walk(n.target) if isinstance(x, ast.Attribute)}
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Del):
                        dirty.add(n.attr)
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        dirty |= {x.attr for x in ast.walk(n.target) if isinstance(x, ast.Attribute)}
                    elif isinstance(n, ast.Call):
                        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.attr in (
                                "append", "extend", "update", "setdefault", "pop", "clear", "add", "remove", "insert", "discard", "sort", "reverse"):
                            dirty.add(n.func.value.attr)
                        elif _tail(n.func) in ("setattr", "__setattr__") and len(n.args) >= 2 and isinstance(n.args[-2], ast.Constant):
                            w.setdefault(n.args[-2].value, []).append(n.args[-1])
            for a in dirty | self.changed_through_names():
                w.pop(a, None)
        vs = w.get(attr)
        if vs is None or len(vs) != 1 or vs[0] is None or not isinstance(vs[0], (ast.Constant, ast.List, ast.Tuple, ast.Dict)):
            return None
        if isinstance(vs[0], ast.Constant) and vs[0].value is None:
            return None
        try:
            return lit_value(ast.literal_eval(vs[0]))
        except (ValueError, TypeError, SyntaxError):
            return None

    def init_attr_type(self, o, attr):
        """Class of a private attribute, from its public property's return annotation."""
        for pub in (attr.lstrip("_"), attr):
            r = o.c.lookup(pub)
            if r and r[1] == "prop" and r[2].fget is not None and r[2].fget.node.returns is not None:
                t, mn = self.ann_type(r[2].fget.node.returns, r[2].fget.module)
                sym = ("attr", o.sym, attr)
                if isinstance(t, ClassInfo):
                    return V("obj", t, o.lab, sym=sym, oid=sym, mn=True)
                if isinstance(t, str):
                    return V("typ", t, o.lab, sym=sym, mn=True)
        return None

    def obj_dict(self, o, st):
        items = tuple((a, v) for (oid, a), v in st.heap.items() if oid == o.oid)
        if o.c.is_dataclass:
            known = dict(items)
            for c in reversed(o.c.cmro()):
                for a in c.anns:
                    if a not in known:
                        known[a] = top(o.lab, sym=("attr", o.sym, a))
            return V("dict", None, o.lab, ("dict", o.sym), tuple(known.items()))
        return V("dict", top(o.lab, sym=("dictrest", o.sym)), o.lab, ("dict", o.sym), items)

    def e_Subscript(self, e, st):
        outs = []
        for o, s1 in self.ev(e.value, st):
            for kx, s2 in self.ev(e.slice, s1):
                for r in self.get_item(e, o, kx, s2):
                    v, s3 = r
                    outs.append((self.H.on_subscript(self, s3, e, o, kx, v), s3))
        return outs

    def get_item(self, e, o, kx, st):
        if o.k == "union":
            out = []
            for a in o.items:
                out += self.get_item(e, a, kx, st)
            return out
        if o.k == "seq":
            if kx.k == "const" and isinstance(kx.c, int) and not isinstance(kx.c, bool):
                if -len(o.items) <= kx.c < len(o.items):
                    return [(o.items[kx.c], st)]
                self.raises.append((Exc("IndexError", e, self.fr.func), st))
                return []
            if isinstance(e.slice, ast.Slice):
                b = [None if x is None else self._const_int(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                for n, x in enumerate((e.slice.lower, e.slice.upper, e.slice.step)):
                    if b[n] is False and isinstance(x, ast.Name) and x.id in st.env:
                        w = st.env[x.id]
                        if w.k == "const" and isinstance(w.c, int) and not isinstance(w.c, bool):
                            b[n] = w.c
                if not any(x is False for x in b):
                    return [(V("seq", o.c, o.lab, items=tuple(o.items[slice(*b)])), st)]
                return [(typ(o.c, all_labels(o)), st)]
            el = self.elem_of(o, e)
            return [(el, st)]
        if o.k == "dict":
            if kx.k == "const":
                for k, v in o.items:
                    if k == kx.c:
                        return [(v, st)]
                if o.c is None:
                    self.raises.append((Exc("KeyError", e, self.fr.func), st))
                    return []
                r = o.c
                return [(r.with_sym(("item", o.sym, kx.c)) if r.k == "top" else r, st)]
            vs = [v for _, v in o.items] + ([o.c] if o.c is not None else [])
            if not vs:
                return [(top(o.lab, sym=self.sym(e, "it")), st)]
            r = vs[0]
            for v in vs[1:]:
                r = join(r, v)
            return [(r, st)]
        if o.k == "typ" and o.items and not isinstance(e.slice, ast.Slice):
            return [(o.items[0], st)]
        if o.k == "const" and isinstance(o.c, str):
            return [(typ("str"), st)]
        if o.k == "const" and o.c is None:
            self.raises.append((Exc("TypeError", e, self.fr.func), st))
            return []
        if o.k == "typ" and o.c in ("list", "tuple") and isinstance(e.slice, ast.Slice):
            return [(o, st)]
        ks = kx.c if kx.k == "const" else kx.sym
        try:
            hash(ks)
        except TypeError:
            ks = None
        s = ("item", o.sym, ks) if o.sym is not None and ks is not None else self.sym(e, "it")
        return [(V("top", None, o.lab, s, items=None), st)]

    @staticmethod
    def _const_int(x):
        try:
            v = ast.literal_eval(x)
        except (ValueError, TypeError):
            return False
        return v if isinstance(v, int) and not isinstance(v, bool) else False

    def e_Slice(self, e, st):
        parts = [p for p in (e.lower, e.upper, e.step) if p is not None]
        return [(top(sym=self.sym(e, "sl")), s) for _, s in self.evs(parts, st)]

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        return self._mkseq(e, "tuple", st)

    def e_List(self, e, st):
        return self._mkseq(e, "list", st)

    def _mkseq(self, e, kind, st):
        outs = []
        for vs, s in self.evs(e.elts, st):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                items = []
                exact = True
                lab = EMPTY
                for x, v in zip(e.elts, vs):
                    if isinstance(x, ast.Starred):
                        ii = self.exact_items(v)
                        if ii is None:
                            exact = False
                            lab |= all_labels(v)
                        else:
                            items += ii
                    else:
                        items.append(v)
                if exact:
                    outs.append((V("seq", kind, items=tuple(items)), s))
                else:
                    for v in items:
                        lab |= all_labels(v)
                    outs.append((typ(kind, lab), s))
            else:
                outs.append((V("seq", kind, items=vs), s))
        return outs

    def e_Set(self, e, st):
        return [(V("seq", "set", items=vs), s) for vs, s in self.evs(e.elts, st)]

    def e_Dict(self, e, st):
        outs = [((), None, st)]
        for k, v in zip(e.keys, e.values):
            nx = []
            for items, rest, s in outs:
                if k is None:
                    for vv, s2 in self.ev(v, s):
                        it2, r2 = self.merge_dict(items, rest, vv)
                        nx.append((it2, r2, s2))
                else:
                    for kk, s2 in self.ev(k, s):
                        for vv, s3 in self.ev(v, s2):
                            if kk.k == "const":
                                it2 = tuple((a, b) for a, b in items if a != kk.c) + ((kk.c, vv),)
                                nx.append((it2, rest, s3))
                            else:
                                nx.append((items, vv if rest is None else join(rest, vv), s3))
            outs = nx
        return [(V("dict", rest, EMPTY, self.sym(e, "d"), items), s) for items, rest, s in outs]

    def merge_dict(self, items, rest, d):
        """Overlay dict value d on (items, rest)."""
        if d.k == "dict":
            known = dict(items)
            if d.c is not None:
                # unknown entries may overwrite known ones
                for a in known:
                    if a not in dict(d.items):
                        known[a] = join(known[a], d.c.with_sym(("item", d.sym, a)) if d.c.k == "top" else d.c)
                rest = d.c if rest is None else join(rest, d.c)
            for a, b in d.items:
                known[a] = b
            return tuple(known.items()), rest
        r = top(d.lab, sym=("dictrest", d.sym))
        return items, (r if rest is None else join(rest, r))

    def e_JoinedStr(self, e, st):
        outs = [((), EMPTY, st)]
        for p in e.values:
            nx = []
            for parts, lab, s in outs:
                if isinstance(p, ast.Constant):
                    nx.append((parts + (p.value,), lab, s))
                else:
                    spec = None
                    if p.format_spec is not None and all(isinstance(x, ast.Constant) for x in p.format_spec.values):
                        spec = "".join(str(x.value) for x in p.format_spec.values)
                    elif p.format_spec is not None:
                        spec = "?"
                    for v, s2 in self.ev(p.value, s):
                        if v.k == "const" and spec is None and p.conversion == -1:
                            nx.append((parts + (str(v.c),), lab | v.lab, s2))
                        elif v.k == "const" and spec not in (None, "?"):
                            try:
                                nx.append((parts + (format(v.c, spec),), lab | v.lab, s2))
                            except Exception:
                                nx.append((parts + (("fmt", v, spec),), lab | all_labels(v), s2))
                        elif v.k == "typ" and v.c == "str" and v.items and spec is None and isinstance(v.items[0], tuple):
                            nx.append((parts + v.items[0], lab | v.lab, s2))
                        else:
                            nx.append((parts + (("fmt", v, spec),), lab | all_labels(v), s2))
            outs = nx[:32]
        res = []
        for parts, lab, s in outs:
            merged = []
            for p in parts:
                if isinstance(p, str) and merged and isinstance(merged[-1], str):
                    merged[-1] += p
                else:
                    merged.append(p)
            if all(isinstance(p, str) for p in merged):
                res.append((const("".join(merged), lab), s))
            else:
                sy = ("fs",) + tuple(p if isinstance(p, str) else (p[1].sym or self.sym(e), p[2]) for p in merged)
                res.append((V("typ", "str", lab, sy, items=(tuple(merged),), mn=False), s))
        return res

    def e_FormattedValue(self, e, st):
        return [(typ("str", v.lab), s) for v, s in self.ev(e.value, st)]

    def e_Lambda(self, e, st):
        f = self.P.func_of_node.get(e)
        if f is None:
            f = FuncInfo(e, self.fr.module, None, self.fr.func)
            self.P.func_of_node[e] = f
        return [(V("fn", f, sym=self.sym(e, "lam"), items=(_EnvBox(dict(st.env), self.fr),)), st)]

    def e_IfExp(self, e, st):
        outs = []
        for t, s in self.cond(e.test, st):
            outs += self.ev(e.body if t else e.orelse, s)
        return outs

    def e_NamedExpr(self, e, st):
        outs = []
        for v, s in self.ev(e.value, st):
            for x in self.assign(e.target, v, s.copy()):
                outs.append((v, x))
        return outs

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        if self.fr.cm is not None and "$cm" not in st.env:
            outs = []
            for v, s in ([(NONE, st)] if e.value is None else self.ev(e.value, st)):
                outs += self._cm_yield(v, s)
            return outs
        if e.value is None:
            return [(top(sym=self.sym(e, "yield")), st)]
        return [(top(sym=self.sym(e, "yield")), s) for _, s in self.ev(e.value, st)]

    def e_YieldFrom(self, e, st):
        return [(top(sym=self.sym(e, "yield")), s) for _, s in self.ev(e.value, st)]

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        outs = []
        cur = [st]
        for i, sub in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for x in cur:
                if last:
                    outs += self.ev(sub, x)
                    continue
                for v, y in self.ev(sub, x):
                    for v1, y1 in self._split_union(sub, v, y):
                        for t, z in self._truth_fork(sub, v1, y1):
                            if t == isand:
                                nxt.append(z)
                            else:
                                if not t and v1.k == "typ" and v1.c == "bool":
                                    v1 = FALSE
                                outs.append((v1, z))
            cur = nxt
        return outs

    def e_Compare(self, e, st):
        # evaluate as a value; keep it undecided (no fork) when unknown
        if len(e.ops) == 1:
            outs = []
            for l, s1 in self.ev(e.left, st):
                for r, s2 in self.ev(e.comparators[0], s1):
                    la, ra = arr_elem(l), arr_elem(r)
                    if la is not None or ra is not None:
                        c = self.compare(e.ops[0], la if la is not None else l, ra if ra is not None else r, s2)
                        if isinstance(c, bool):
                            outs.append((arr(const(c), all_labels(l) | all_labels(r)), s2))
                            continue
                    c = self.compare(e.ops[0], l, r, s2)
                    if isinstance(c, tuple):
                        self.raises.append((Exc(c[1], e, self.fr.func), s2))
                        continue
                    lab = l.lab | r.lab
                    if c is not None:
                        outs.append((const(c, lab), s2))
                    else:
                        key, pol = self.cmp_key(e.ops[0], l, r)
                        if key is not None and key in s2.facts:
                            outs.append((const(s2.facts[key] == pol, lab), s2))
                        else:
                            outs.append((V("typ", "bool", lab, ("cmp", key, pol) if key else self.sym(e, "cmp"), mn=False), s2))
            return outs
        return [(const(t), s) for t, s in self.cond(e, st)]

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            outs = []
            for v, s in self.ev(e.operand, st):
                t = self.truth(v, s)
                outs.append((const(not t, v.lab) if t is not None else V("typ", "bool", v.lab, ("not", v.sym) if v.sym else None, mn=False), s))
            return outs
        outs = []
        for v, s in self.ev(e.operand, st):
            if v.k == "const" and isinstance(v.c, (int, float)) and isinstance(e.op, (ast.USub, ast.UAdd)):
                outs.append((const(-v.c if isinstance(e.op, ast.USub) else +v.c, v.lab), s))
            elif v.k == "const" and v.c is None:
                self.raises.append((Exc("TypeError", e, self.fr.func), s))
            elif v.k == "num" and isinstance(e.op, ast.USub):
                n = v.num
                outs.append((V("num", v.c, v.lab, ("neg", v.sym), num=Interval(-n.hi, -n.lo, n.hi_open, n.lo_open)), s))
            else:
                r = V(v.k if v.k in ("num", "typ", "top") else "top", v.c if v.k in ("num", "typ") else None, v.lab,
                      (type(e.op).__name__, v.sym) if v.sym else None, num=v.num, mn=False)
                r = self.H.on_binop(self, s, e, e.op, v, v, r)
                outs.append((r, s))
        return outs

    def e_BinOp(self, e, st):
        outs = []
        for l, s1 in self.ev(e.left, st):
            for r, s2 in self.ev(e.right, s1):
                outs += self.binop(e, e.op, l, r, s2)
        return outs

    def binop(self, e, op, l, r, st):
        if isinstance(op, ast.BitOr) and self._is_type(l) and self._is_type(r):
            items = (l.items if l.k == "seq" else (l,)) + (r.items if r.k == "seq" else (r,))
            return [(V("seq", "tuple", items=items), st)]
        if isinstance(op, ast.BitOr) and l.k == "dict":
            it, rest = self.merge_dict(l.items, l.c, r)
            return [(V("dict", rest, l.lab | r.lab, self.sym(e, "d"), it), st)]
        lab = all_labels(l) | all_labels(r)
        if (l.k == "const" and l.c is None) or (r.k == "const" and r.c is None):
            self.raises.append((Exc("TypeError", e, self.fr.func), st))
            return []
        res = None
        if l.k == "const" and r.k == "const":
            try:
                f = _BIN.get(type(op))
                if f and not (isinstance(op, ast.Pow) and (abs(l.c) > 1e6 or abs(r.c) > 64)):
                    res = const(f(l.c, r.c), lab)
            except ZeroDivisionError:
                self.raises.append((Exc("ZeroDivisionError", e, self.fr.func), st))
                return []
            except Exception as ex:
                if isinstance(ex, TypeError):
                    self.raises.append((Exc("TypeError", e, self.fr.func), st))
                    return []
                res = None
        if res is None and isinstance(op, ast.Add) and l.k == "seq" and r.k == "seq" and l.c == r.c:
            res = V("seq", l.c, l.lab | r.lab, None, l.items + r.items)
        if res is None and isinstance(op, ast.Mult):
            sq, n = (l, r) if l.k == "seq" else (r, l)
            if sq.k == "seq" and sq.c in ("list", "tuple") and n.k == "const" and type(n.c) is int and len(sq.items) * n.c <= 48:
                res = V("seq", sq.c, l.lab | r.lab, None, tuple(sq.items) * n.c)
        if res is None and isinstance(op, ast.Add):
            pl, pr = str_parts(l), str_parts(r)
            if pl is not None and pr is not None:
                parts = list(pl)
                for p in pr:
                    if isinstance(p, str) and parts and isinstance(parts[-1], str):
                        parts[-1] += p
                    else:
                        parts.append(p)
                res = V("typ", "str", lab, ("cat", l.sym or l.c, r.sym or r.c), items=(tuple(parts),), mn=False)
        if res is None and isinstance(op, ast.Div) and self.is_pathish(l):
            res = V("typ", "pathlib.Path", lab, ("/", l.sym, r.sym if r.k != "const" else r.c), items=(("path", l, r),), mn=False)
        if res is None:
            res = self._arith(op, l, r, lab)
        if res is None:
            ls = l.sym if l.k != "const" else ("c", str(l.c))
            rs = r.sym if r.k != "const" else ("c", str(r.c))
            s = (type(op).__name__, ls, rs) if ls is not None and rs is not None else self.sym(e, "bo")
            res = V("top", None, lab, _trim(s, self.sym(e, "bo")), mn=False)
        res = self.H.on_binop(self, st, e, op, l, r, res)
        return [(res, st)]

    def _arith(self, op, l, r, lab):
        a, b = as_interval(l), as_interval(r)
        if a is None or b is None or (l.k != "num" and r.k != "num"):
            return None
        t = "int" if all(x.c == "int" or (x.k == "const" and isinstance(x.c, int)) for x in (l, r)) else "float"
        try:
            if isinstance(op, ast.Add):
                iv = Interval(a.lo + b.lo, a.hi + b.hi, a.lo_open or b.lo_open, a.hi_open or b.hi_open)
            elif isinstance(op, ast.Sub):
                iv = Interval(a.lo - b.hi, a.hi - b.lo, a.lo_open or b.hi_open, a.hi_open or b.lo_open)
            elif isinstance(op, (ast.Mult, ast.Div)):
                k, x = (a, b) if (l.k == "const" and isinstance(op, ast.Mult)) else (b, a)
                if k.lo != k.hi or k.lo == 0:
                    return None
                f = k.lo if isinstance(op, ast.Mult) else 1.0 / k.lo
                iv = Interval(x.lo * f, x.hi * f, x.lo_open, x.hi_open) if f > 0 else Interval(x.hi * f, x.lo * f, x.hi_open, x.lo_open)
            else:
                return None
        except Exception:
            return None
        if math.isnan(iv.lo) or math.isnan(iv.hi):
            return None
        return V("num", t, lab, None, num=iv)

    def _is_type(self, v):
        if v.k == "cls" or (v.k == "const" and v.c is None):
            return True
        if v.k == "ext":
            return True
        return v.k == "seq" and v.items and all(self._is_type(i) for i in v.items)

    def is_pathish(self, v):
        return v.k == "typ" and v.c == "pathlib.Path"

    # comprehension
    def e_ListComp(self, e, st):
        return self._comp(e, "list", st)

    def e_SetComp(self, e, st):
        return self._comp(e, "set", st)

    def e_GeneratorExp(self, e, st):
        return self._comp(e, "list", st)

    def _comp(self, e, kind, st):
        saved_env = st.env
        outs = []

        def gen(i, x, acc):
            """acc: list of element values; returns [(elems, exact, State)]"""
            if i == len(e.generators):
                return [((v,), True, s) for v, s in self.ev(e.elt, x)]
            g = e.generators[i]
            res = []
            for itv, s1 in self.ev(g.iter, x):
                items = self.exact_items(itv)
                if items is not None and len(items) <= 40:
                    cur = [((), True, s1)]
                    for it in items:
                        nx = []
                        for els, ex, s2 in cur:
                            for s3 in self.assign(g.target, it, s2.copy()):
                                conds = [(True, s3)]
                                for c in g.ifs:
                                    conds = [(t2, z) for t, y in conds for t2, z in (self.cond(c, y) if t else [(False, y)])]
                                for t, y in conds:
                                    if not t:
                                        nx.append((els, ex, y))
                                    else:
                                        for e2, x2, z in gen(i + 1, y, acc):
                                            nx.append((els + e2, ex and x2, z))
                        cur = nx[:8] if len(nx) > 8 else nx
                    res += cur
                else:
                    el = self.elem_of(itv, g)
                    if el.k in ("top", "typ", "obj"):
                        el = el.with_sym(("cit", self.fr.ctx, e.lineno, e.col_offset, i))
                    got = False
                    for s3 in self.assign(g.target, el, s1.copy()):
                        conds = [(True, s3)]
                        for c in g.ifs:
                            conds = [(t2, z) for t, y in conds for t2, z in (self.cond(c, y) if t else [(False, y)])]
                        for t, y in conds:
                            if t:
                                for e2, x2, z in gen(i + 1, y, acc):
                                    res.append((e2, False, z))
                                    got = True
                    if not got:
                        res.append(((), False, s1))
            return res
        for els, exact, s in gen(0, st, [])[:16]:
            s = s.copy()
            env = dict(saved_env)
            for k in env:
                if k in s.env:
                    env[k] = saved_env[k]
            s.env = env
            if exact:
                outs.append((V("seq", kind, items=tuple(els)), s))
            else:
                lab = EMPTY
                el = None
                for v in els:
                    lab |= all_labels(v)
                    el = v if el is None else join(el, v)
                outs.append((V("typ", kind, lab, self.sym(e, "comp"), items=(el,) if el is not None else None, mn=False), s))
        return outs

    def e_DictComp(self, e, st):
        g = e.generators[0]
        outs = []
        for itv, s1 in self.ev(g.iter, st):
            items = self.exact_items(itv)
            if items is not None and len(items) <= 64 and len(e.generators) == 1:
                cur = [((), None, s1)]
                for it in items:
                    nx = []
                    for acc, rest, s2 in cur:
                        for s3 in self.assign(g.target, it, s2.copy()):
                            conds = [(True, s3)]
                            for c in g.ifs:
                                conds = [(t2, z) for t, y in conds for t2, z in (self.cond(c, y) if t else [(False, y)])]
                            for t, y in conds:
                                if not t:
                                    nx.append((acc, rest, y))
                                    continue
                                for kk, z in self.ev(e.key, y):
                                    for vv, w in self.ev(e.value, z):
                                        if kk.k == "const":
                                            nx.append((tuple((a, b) for a, b in acc if a != kk.c) + ((kk.c, vv),), rest, w))
                                        else:
                                            nx.append((acc, vv if rest is None else join(rest, vv), w))
                    cur = nx[:6]
                for acc, rest, s in cur:
                    s = s.copy()
                    s.env = dict(st.env)
                    src_rest = itv.oid if False else None
                    outs.append((V("dict", rest, EMPTY, self.sym(e, "dc"), acc), s))
            else:
                el = self.elem_of(itv, g)
                res = []
                for s3 in self.assign(g.target, el, s1.copy()):
                    conds = [(True, s3)]
                    for c in g.ifs:
                        conds = [(t2, z) for t, y in conds for t2, z in (self.cond(c, y) if t else [(False, y)])]
                    for t, y in conds:
                        if t:
                            for kk, z in self.ev(e.key, y):
                                for vv, w in self.ev(e.value, z):
                                    res.append((kk, vv, w))
                lab = all_labels(itv)
                rest = None
                s = s1.copy()
                for kk, vv, w in res:
                    rest = vv if rest is None else join(rest, vv)
                s.env = dict(st.env)
                outs.append((V("dict", rest if rest is not None else top(lab), lab, self.sym(e, "dc"), ()), s))
        return outs

    # ------------------------------------------------------------ helpers on containers
    def exact_items(self, v):
        if v.k == "seq":
            return list(v.items)
        if v.k == "dict" and v.c is None:
            return [const(k) for k, _ in v.items]
        if v.k == "const" and isinstance(v.c, (str,)) and len(v.c) == 0:
            return []
        return None

    def elem_of(self, v, node):
        if v.k == "seq":
            if not v.items:
                return top(v.lab, sym=self.sym(node, "el"))
            r = v.items[0]
            for i in v.items[1:]:
                r = join(r, i)
            return r
        if v.k == "typ" and v.items and isinstance(v.items[0], V):
            return v.items[0]
        if v.k == "union":
            r = None
            for a in v.items:
                x = self.elem_of(a, node)
                r = x if r is None else join(r, x)
            return r
        return top(all_labels(v), sym=("el", v.sym) if v.sym is not None else self.sym(node, "el"))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        outs = []
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            cls = None
            f = self.fr.func
            while f is not None and cls is None:
                cls = f.cls
                f = f.parent
            a = self.fr.func.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            me = st.env.get(names[0]) if names else None
            if me is None:
                me = st.env.get("self")
            if cls is not None and me is not None and me.k in ("obj", "cls"):
                return [(V("super", (cls, me.c), items=me), st)]
            return [(top(sym=self.sym(e)), st)]
        for fv, s1 in self.ev(e.func, st):
            for args, star, s2 in self._args(e, s1):
                pos, kw = args
                outs += self.call(e, fv, pos, kw, star, s2)
        if len(outs) > self.cap:
            # keep values apart, merge the states behind equal values
            by = {}
            for v, s in outs:
                by.setdefault((v, s.mon), []).append(s)
            outs = [(v, s) for (v, _), ss in by.items() for s in self.merge(ss)]
        return outs

    def _args(self, e, st):
        """-> [((pos list, kw dict), star info, State)]; star info: V of unexpandable *args / **kwargs"""
        outs = [([], {}, {}, st)]
        for a in e.args:
            nx = []
            for pos, kw, star, s in outs:
                if isinstance(a, ast.Starred):
                    for v, s2 in self.ev(a.value, s):
                        items = self.exact_items(v)
                        if items is not None:
                            nx.append((pos + items, kw, star, s2))
                        else:
                            st2 = dict(star)
                            st2["*"] = v
                            nx.append((pos, kw, st2, s2))
                else:
                    for v, s2 in self.ev(a, s):
                        nx.append((pos + [v], kw, star, s2))
            outs = nx[:64]
        for k in e.keywords:
            nx = []
            for pos, kw, star, s in outs:
                for v, s2 in self.ev(k.value, s):
                    if k.arg is not None:
                        nx.append((pos, {**kw, k.arg: v}, star, s2))
                    else:
                        kw2, star2 = dict(kw), dict(star)
                        alts = v.items if v.k == "union" else (v,)
                        for v1 in alts:
                            if v1.k == "dict":
                                for kk, vv in v1.items:
                                    kw2[kk] = vv
                                if v1.c is not None:
                                    r = v1.c
                                    star2["**"] = r if "**" not in star2 else join(star2["**"], r)
                                    star2.setdefault("**sym", v1.sym)
                            elif v1.k == "const" and v1.c is None:
                                pass
                            else:
                                r = top(all_labels(v1), sym=("dictrest", v1.sym))
                                star2["**"] = r if "**" not in star2 else join(star2["**"], r)
                                star2.setdefault("**sym", v1.sym)
                        nx.append((pos, kw2, star2, s2))
            outs = nx[:64]
        return [((p, k), stx, s) for p, k, stx, s in outs]

    def call(self, node, fv, pos, kw, star, st):
        self.stats["calls"] += 1
        if fv.k == "union":
            outs = []
            for a in fv.items:
                outs += self.call(node, a, pos, kw, star, st.copy())
            return outs
        h = self.H.on_call(self, st, node, fv, pos, kw, star)
        if h is not None:
            return h
        if fv.k == "fn":
            return self.call_func(fv.c, pos, kw, node, st, star=star, closure=fv.items[0] if fv.items else None)
        if fv.k == "bound":
            return self.call_func(fv.c, pos, kw, node, st, self_v=fv.items, star=star)
        if fv.k == "cls":
            return self.instantiate(node, fv.c, pos, kw, star, st)
        if fv.k == "obj" and fv.c.method("__call__"):
            return self.call_func(fv.c.method("__call__"), pos, kw, node, st, self_v=fv, star=star)
        if fv.k == "const" and fv.c is None:
            self.raises.append((Exc("TypeError", node, self.fr.func), st))
            return []
        r = self.builtin(node, fv, pos, kw, star, st)
        if r is not None:
            return r
        return self.opaque(node, fv, pos, kw, star, st)

    def opaque(self, node, fv, pos, kw, star, st, lab=None):
        if lab is None:
            lab = fv.lab
            for v in list(pos) + list(kw.values()) + [x for x in star.values() if isinstance(x, V)]:
                lab = lab | all_labels(v)
        if self.exc and self.H.may_raise(self, st, node, fv):
            self.raises.append((Exc("Exception", node, self.fr.func, maybe=True), st.copy()))
        name = fv.c if fv.k == "ext" else None
        v = V("top", None, lab, ("call", name) + self.sym(node, "c")[1:])
        t = _EXT_RESULT.get(name or "")
        if t:
            v = V("typ", t, lab, v.sym, mn=False)
        v = self.H.after_call(self, st, node, fv, pos, kw, v)
        return [(v, st)]

    def instantiate(self, node, cls, pos, kw, star, st):
        oid = ("new", self.fr.ctx, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        o = V("obj", cls, sym=oid, oid=oid, mn=False)
        st = st.copy()
        for k in [k for k in st.heap if k[0] == oid]:
            del st.heap[k]
        init = cls.lookup("__init__")
        if init is None:
            if cls.is_dataclass:
                fs = cls.dc_fields()
                names = [n for n, d, i in fs if i]
                given = dict(zip(names, pos))
                given.update(kw)
                if len(pos) > len(names) or any(n not in names for n in kw):
                    self.raises.append((Exc("TypeError", node, self.fr.func), st))
                    return []
                for n, d, i in fs:
                    if n in given:
                        st.heap[(oid, n)] = given[n]
                    elif "**" in star and i:
                        st.heap[(oid, n)] = star["**"]
                    elif isinstance(d, ast.Constant):
                        st.heap[(oid, n)] = const(d.value)
                    else:
                        st.heap[(oid, n)] = top(sym=("attr", oid, n))
                post = cls.lookup("__post_init__")
                if post is not None and post[1] == "method":
                    return [(o, s) for _, s in self.call_func(post[2], [], {}, node, st, self_v=o)]
                lab = EMPTY
            return [(o, st)]
        rs = self.call_func(init[2], pos, kw, node, st, self_v=o, star=star)
        return [(o, s) for _, s in rs]

    def bind(self, func, pos, kw, star, self_v, node):
        """-> (env, problem)"""
        a = func.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(pos)
        if self_v is not None:
            pos = [self_v] + pos
        problem = None
        extra = []
        for i, v in enumerate(pos):
            if i < len(params):
                env[params[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            if "*" in star:
                lab = all_labels(star["*"])
                for v in extra:
                    lab |= all_labels(v)
                env[a.vararg.arg] = typ("tuple", lab, sym=self.sym(node, "va"))
            else:
                env[a.vararg.arg] = V("seq", "tuple", items=tuple(extra))
        elif extra:
            problem = f"takes {len(params)} positional arguments but {len(pos)} were given"
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in params or k in kwonly:
                if k in env:
                    problem = problem or f"multiple values for argument '{k}'"
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                problem = problem or f"unexpected keyword argument '{k}'"
        defaults = self._defaults(func)
        dd = star.get("**")
        starv = star.get("*")
        for n in params + kwonly:
            if n in env:
                continue
            d = defaults.get(n)
            alt = None
            if dd is not None:
                alt = dd.with_sym(("item", star.get("**sym"), n)) if dd.k == "top" else dd
            elif starv is not None and n in params:
                alt = self.elem_of(starv, node)
            if d is not None:
                dv = self.default_value(func, d)
                if alt is None:
                    env[n] = dv
                else:
                    env[n] = self.maybe_kw(func, n, dv, alt)
            elif alt is not None:
                env[n] = alt
            else:
                problem = problem or f"missing required argument '{n}'"
                env[n] = top(sym=self.sym(node, "missing"))
        if a.kwarg:
            env[a.kwarg.arg] = V("dict", dd, EMPTY, star.get("**sym") or self.sym(node, "kw"), tuple(rest.items()))
        return env, problem

    def maybe_kw(self, func, name, dv, alt):
        """Parameter that may be supplied by an opaque **kwargs or left at its default."""
        x = self.fr.func
        ann = None
        for p in func.node.args.args + func.node.args.kwonlyargs:
            if p.arg == name:
                ann = p.annotation
        v = self.ann_value(ann, func.module, alt.sym)
        v = v.with_lab(v.lab | alt.lab)
        if dv.k == "const" and dv.c is None and v.k in ("obj", "typ", "top"):
            v = V(v.k, v.c, v.lab, v.sym, v.items, v.num, v.oid, True)
        return v

    def default_value(self, func, d):
        if isinstance(d, ast.Constant):
            return const(d.value)
        fr = Frame(func, func.module, func.cls, ("default", func.qual))
        self.frames.append(fr)
        saved, self.raises = self.raises, []
        try:
            r = self.ev(d, State())
        finally:
            self.frames.pop()
            self.raises = saved
        return r[0][0] if r else top()

    def on_bad_call(self, node, func, problem, st):
        pass

    def call_func(self, func, pos, kw, node, st, self_v=None, star=None, closure=None):
        star = star or {}
        if func.is_static or (self_v is not None and func.cls is None and func.parent is None):
            if func.is_static:
                self_v = None
        if any(d.split(".")[-1] == "abstractmethod" for d in func.decos) and not any(
                f.func.node is not func.node and f.func.name == func.name for f in self.frames[-1:]):
            return self.opaque_repo(node, func, self_v, pos, kw, star, st)
        env, problem = self.bind(func, pos, kw, star, self_v, node)
        if problem:
            self.on_bad_call(node, func, problem, st)
            self.raises.append((Exc("TypeError", node, self.fr.func, orig=problem), st))
            return []
        memo = self.memo_key(func, pos, kw, star, self_v)
        if memo is not None:
            if memo in st.heap:
                return [(st.heap[memo], st)]
            self._plain = func
            return [(v, s.keep(memo, v)) for v, s in self.call_func(func, pos, kw, node, st, self_v=self_v, star=star, closure=closure)]
        depth = self.fr.depth + 1
        rec = sum(1 for f in self.frames if f.func.node is func.node)
        if func.name == "__setattr__":
            depth -= 1
            rec -= 3
        if _is_generator(func) and isinstance(func.node, ast.FunctionDef) and any(d.split(".")[-1] == "contextmanager" for d in func.decos) and rec < self.H.max_rec and \
                depth <= self.max_depth and self.H.inline(self, func, depth):
            clo = closure.current(self.frames, st) if closure is not None else None
            ctx = self.fr.ctx + ((func.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)
            return [(V("cm", _Box((func, env, ctx, clo, depth)), sym=self.sym(node, "cm"), mn=False), st)]
        if rec >= self.H.max_rec or depth > self.max_depth or not self.H.inline(self, func, depth) or _is_generator(func):
            return self.opaque_repo(node, func, self_v, pos, kw, star, st)
        ctx = self.fr.ctx + ((func.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)
        if len(ctx) > 40:
            return self.opaque_repo(node, func, self_v, pos, kw, star, st)
        clo = closure
        if clo is not None:
            clo = clo.current(self.frames, st)
        caller_env = st.env
        shared = self.share_args(func, env, pos, kw, node, st, self_v)
        st2 = State(env, dict(st.heap), dict(st.facts), st.mon, st.trail)
        fr = Frame(func, func.module, func.cls, ctx, clo, depth)
        self.frames.append(fr)
        try:
            outs = self._body(func, st2)
        finally:
            self.frames.pop()
        res = []
        rets = []
        base_facts = st.facts
        for k, v, s in outs:
            fx = s.facts
            if len(fx) > len(base_facts):
                keep = v.sym if isinstance(v, V) else None
                fx = {a: b for a, b in fx.items() if a in base_facts or not _mentions(a, ctx) or (keep is not None and keep in a)}
            inner = s.env
            s = State(caller_env, s.heap, fx, s.mon, s.trail)
            for p, e, mark in shared:
                if inner.get("&" + p) == mark and p in inner and inner[p] != caller_env.get(e.id):
                    if s.env is caller_env:
                        s.env = dict(caller_env)
                    if mark.c[0] == "heap":
                        s.env[e.id] = inner[p]
                    else:
                        self.assign_back(e, inner[p], s)
            self.H.forget(self, s, ctx)
            if k == "raise":
                self.raises.append((v, s))
            else:
                rets.append((v if k == "ret" else NONE, s))
        if len(rets) > self.cap // 2:
            by = {}
            for v, s in rets:
                by.setdefault(v, []).append(s)
            rets = [(v, s) for v, ss in by.items() for s in self.merge(ss)]
            if len(rets) > self.cap:
                v0, s0 = rets[0]
                groups = {}
                for v, s in rets:
                    g = groups.get((s.mon, self.H.partition(s)))
                    groups[(s.mon, self.H.partition(s))] = (join(g[0], v), self.join_states(g[1], s)) if g else (v, s)
                rets = list(groups.values())
        return rets

    def share_args(self, func, env, pos, kw, node, st, self_v):
        """A list or dict handed over is the same object inside: mark the parameters that hold one."""
        if not isinstance(node, ast.Call) or any(isinstance(a, ast.Starred) for a in node.args) or len(node.args) != len(pos):
            return []
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if self_v is not None:
            names = names[1:]
        out = []
        for p, e, v in list(zip(names, node.args, pos)) + [(k.arg, k.value, kw[k.arg]) for k in node.keywords if k.arg in kw]:
            if not container(v) or env.get(p) != v or not isinstance(e, (ast.Name, ast.Attribute)):
                continue
            path = self.alias_of(e, v, st)
            if path is None and not (isinstance(e, ast.Name) and st.env.get(e.id) == v):
                continue
            mark = const(path or ("caller", e.id, len(self.frames)))
            env["&" + p] = mark
            if isinstance(e, ast.Name):
                out.append((p, e, mark))
        return out

    def opaque_repo(self, node, func, self_v, pos, kw, star, st):
        lab = EMPTY
        for v in list(pos) + list(kw.values()) + [x for x in star.values() if isinstance(x, V)]:
            lab = lab | all_labels(v)
        if self_v is not None:
            lab = lab | self_v.lab
        if self.exc and self.H.may_raise(self, st, node, V("fn", func)):
            self.raises.append((Exc("Exception", node, self.fr.func, maybe=True), st.copy()))
        if getattr(func, "is_setter_of", None) is not None and self_v is not None and self_v.k == "obj" and pos:
            st = st.copy()
            st.heap[(self_v.oid, "_" + func.name)] = pos[0]
        sym = ("rc", func.qual, self_v.sym if self_v is not None else None) if (self_v is not None and not pos and not kw and func.decos) else self.sym(node, "rc")
        v = self.ann_value(getattr(func.node, "returns", None), func.module, sym)
        if v.mn is not False and never_none(func.node):
            v = v.not_none()
        v = v.with_lab(v.lab | lab)
        v = self.H.after_call(self, st, node, V("bound" if self_v is not None else "fn", func, items=self_v), pos, kw, v)
        return [(v, st)]

    # ------------------------------------------------------------ builtins and containers
    def builtin(self, node, fv, pos, kw, star, st):
        if fv.k == "ext":
            f = getattr(self, "b_" + fv.c.replace(".", "_"), None)
            if f is not None:
                return f(node, pos, kw, star, st)
            last = fv.c.split(".")[-1]
            if fv.c.startswith("numpy."):
                r = self.np_call(node, last, pos, kw, st)
                if r is not None:
                    return r
            if fv.c in ("pathlib.Path",) and pos and len(pos) == 1:
                v = pos[0]
                if (v.k == "const" and v.c is None) or v.k == "num":
                    self.raises.append((Exc("TypeError", node, self.fr.func), st))
                    return []
                if self.is_pathish(v):
                    return [(v, st)]
                return [(V("typ", "pathlib.Path", all_labels(v), ("path", v.c if v.k == "const" else v.sym), items=(("pathof", v),), mn=False), st)]
            if fv.c == "object.__init__" and fv.items and fv.items[0].k == "obj" and "property" in fv.items[0].c.bases and (pos or kw):
                s2 = st.copy()
                for n, v in list(zip(("fget", "fset", "fdel", "__doc__"), pos)) + list(kw.items()):
                    s2.heap[(fv.items[0].oid, "__doc__" if n == "doc" else n)] = v
                return [(NONE, s2)]
            if fv.c == "object.__setattr__" and len(pos) == 2 and fv.items:
                pos = [fv.items[0]] + list(pos)
            if fv.c == "object.__setattr__" and len(pos) == 3 and pos[1].k == "const":
                s2 = st.copy()
                return [(NONE, s) for s in self.set_attr(node, pos[0], pos[1].c, pos[2], s2, raw=True)]
        # method of a container held in a variable or attribute
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            if fv.k == "top" and fv.items and isinstance(fv.items[0], V):
                o = fv.items[0]
                return self.method_on(node, o, node.func.attr, pos, kw, star, st)
        return None

    def method_on(self, node, o, m, pos, kw, star, st):
        k = o.k
        if k == "dict":
            if m == "items":
                items = tuple(V("seq", "tuple", items=(const(a), b)) for a, b in o.items)
                if o.c is None:
                    return [(V("seq", "list", items=items), st)]
                return [(V("typ", "list", o.lab, self.sym(node), items=(V("seq", "tuple", items=(
                    typ("str", sym=("key", o.sym)), self._dict_val(o))),), mn=False), st)]
            if m == "keys":
                if o.c is None:
                    return [(V("seq", "list", items=tuple(const(a) for a, _ in o.items)), st)]
                return [(typ("list", sym=self.sym(node)), st)]
            if m == "values":
                if o.c is None:
                    return [(V("seq", "list", items=tuple(b for _, b in o.items)), st)]
                return [(V("typ", "list", o.lab, self.sym(node), items=(self._dict_val(o),), mn=False), st)]
            if m in ("get", "pop", "setdefault") and pos and pos[0].k == "const":
                kk = pos[0].c
                hit = None
                for a, b in o.items:
                    if a == kk:
                        hit = b
                d = pos[1] if len(pos) > 1 else kw.get("default", NONE)
                outs = []
                if hit is not None:
                    outs = [(hit, True, st)]
                elif o.c is None:
                    if m == "pop" and len(pos) < 2:
                        self.raises.append((Exc("KeyError", node, self.fr.func), st))
                        return []
                    outs = [(d, False, st)]
                else:
                    fk = ("in", ("c", "str", str(kk)), o.sym)
                    for b in (True, False):
                        if st.facts.get(fk, b) != b:
                            continue
                        x = st.copy()
                        x.facts[fk] = b
                        rv = o.c.with_sym(("item", o.sym, kk)) if o.c.k == "top" else o.c
                        if b is False and m == "pop" and len(pos) < 2:
                            self.raises.append((Exc("KeyError", node, self.fr.func), x))
                            continue
                        outs.append((rv if b else d, b, x))
                res = []
                for v, present, x in outs:
                    x = x.copy()
                    if m == "pop" and present and hit is not None:
                        self.assign_back(node.func.value, V("dict", o.c, o.lab, o.sym, tuple((a, b) for a, b in o.items if a != kk)), x)
                    elif m == "setdefault" and hit is None:
                        self.assign_back(node.func.value, V("dict", o.c, o.lab, o.sym, o.items + ((kk, v),)), x)
                    res.append((v, x))
                return res
            if m == "update":
                x = st.copy()
                items, rest = o.items, o.c
                for p in pos:
                    items, rest = self.merge_dict(items, rest, p)
                for a, b in kw.items():
                    items = tuple((c, d) for c, d in items if c != a) + ((a, b),)
                if "**" in star:
                    rest = star["**"] if rest is None else join(rest, star["**"])
                self.assign_back(node.func.value, V("dict", rest, o.lab, o.sym, items), x)
                return [(NONE, x)]
            if m == "copy":
                return [(o, st)]
            if m == "clear":
                x = st.copy()
                self.assign_back(node.func.value, V("dict", None, EMPTY, o.sym, ()), x)
                return [(NONE, x)]
        if (k == "seq" and o.c == "list") or (k == "typ" and o.c == "list"):
            if m in ("append", "extend", "insert"):
                x = st.copy()
                arg = pos[-1] if pos else top()
                if k == "seq" and m == "append" and len(o.items) < 40:
                    nv = V("seq", "list", o.lab, o.sym, o.items + (arg,))
                elif k == "seq" and m == "extend" and self.exact_items(arg) is not None:
                    nv = V("seq", "list", o.lab, o.sym, o.items + tuple(self.exact_items(arg)))
                else:
                    el = self.elem_of(arg, node) if m == "extend" else arg
                    old = self.elem_of(o, node) if (k == "typ" and o.items) or (k == "seq" and o.items) else None
                    nv = V("typ", "list", o.lab | all_labels(arg), o.sym, items=(el if old is None else join(old, el),), mn=False)
                self.assign_back(node.func.value, nv, x)
                return [(NONE, x)]
            if m == "remove" and k == "seq" and len(pos) == 1 and all(i.k == "obj" and i.oid is not None for i in o.items) and pos[0].k == "obj":
                x = st.copy()
                at = next((n for n, i in enumerate(o.items) if i.oid == pos[0].oid), None)
                if at is not None:
                    self.assign_back(node.func.value, V("seq", "list", o.lab, o.sym, o.items[:at] + o.items[at + 1:]), x)
                    return [(NONE, x)]
            if m == "copy":
                return [(o, st)]
            if m == "pop" and k == "seq" and o.items and (not pos or (pos[0].k == "const" and isinstance(pos[0].c, int))):
                i = pos[0].c if pos else -1
                if -len(o.items) <= i < len(o.items):
                    x = st.copy()
                    l = list(o.items)
                    v = l.pop(i)
                    self.assign_back(node.func.value, V("seq", "list", o.lab, o.sym, tuple(l)), x)
                    return [(v, x)]
            if m == "pop":
                return [(self.elem_of(o, node), st)]
        if k == "seq" and o.c == "set" and m in ("add", "discard", "remove", "update", "clear", "copy", "union"):
            if m == "copy":
                return [(o, st)]
            x = st.copy()
            cur = list(o.items)
            new = None
            if m == "clear":
                new = []
            elif m == "add" and pos:
                new = cur + [pos[0]] if not any(i == pos[0] or (i.k == "const" and pos[0].k == "const" and i.c == pos[0].c) for i in cur) else cur
            elif m in ("discard", "remove") and pos and pos[0].k == "const" and all(i.k == "const" for i in cur):
                new = [i for i in cur if i.c != pos[0].c]
            elif m in ("update", "union") and all(self.exact_items(p_) is not None for p_ in pos):
                new = list(cur)
                for p_ in pos:
                    for y in self.exact_items(p_):
                        if not any(i == y or (i.k == "const" and y.k == "const" and i.c == y.c) for i in new):
                            new.append(y)
            nv = V("seq", "set", o.lab, o.sym, tuple(new)) if new is not None else V("typ", "set", o.lab, o.sym, mn=False)
            if m == "union":
                return [(nv, st)]
            self.assign_back(node.func.value, nv, x)
            return [(NONE, x)]
        if k == "const" and isinstance(o.c, str):
            if all(p.k == "const" for p in pos) and not kw and m in (
                    "lower", "upper", "title", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith",
                    "capitalize", "casefold", "split", "removeprefix", "removesuffix", "zfill"):
                try:
                    r = getattr(o.c, m)(*[p.c for p in pos])
                    if isinstance(r, list):
                        return [(V("seq", "list", items=tuple(const(i) for i in r)), st)]
                    return [(const(r, o.lab), st)]
                except TypeError:
                    self.raises.append((Exc("TypeError", node, self.fr.func), st))
                    return []
            if m == "join" and pos:
                return [(typ("str", all_labels(pos[0]), sym=self.sym(node)), st)]
        if k in ("const", "num") and not (k == "const" and isinstance(o.c, (str, bytes))) and not star:
            # attribute of a number / bool / None
            c = o.c if k == "const" else (0 if o.c == "int" else 0.5)
            if not hasattr(c, m):
                self.raises.append((Exc("AttributeError", node, self.fr.func), st))
                return []
        if k in ("seq",) and not hasattr([] if o.c == "list" else () if o.c == "tuple" else set(), m):
            self.raises.append((Exc("AttributeError", node, self.fr.func), st))
            return []
        return None

    def _dict_val(self, o):
        r = o.c
        for _, b in o.items:
            r = b if r is None else join(r, b)
        return r if r is not None else top()

    def b_copy_copy(self, node, pos, kw, star, st):
        if pos and pos[0].k == "obj":
            oid = ("copy" if self.whole(pos[0]) else "copied", self.fr.ctx, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
            st = st.copy()
            for (o, a), v in list(st.heap.items()):
                if o == pos[0].oid:
                    st.heap[(oid, a)] = v
            return [(V("obj", pos[0].c, pos[0].lab, sym=pos[0].sym, oid=oid, mn=pos[0].mn), st)]
        if pos and pos[0].k in ("const", "num", "seq", "dict"):
            return [(pos[0], st)]
        return None

    b_copy_deepcopy = b_copy_copy

    def b_vars(self, node, pos, kw, star, st):
        if pos and pos[0].k == "obj":
            return [(self.obj_dict(pos[0], st), st)]
        return None

    def b_type(self, node, pos, kw, star, st):
        if len(pos) == 1 and pos[0].k == "obj":
            return [(V("cls", pos[0].c), st)]
        return None

    def b_dict(self, node, pos, kw, star, st):
        items, rest = (), None
        for p in pos:
            if p.k == "seq" and all(i.k == "seq" and len(i.items) == 2 and i.items[0].k == "const" for i in p.items):
                items = tuple((i.items[0].c, i.items[1]) for i in p.items)
            else:
                items, rest = self.merge_dict(items, rest, p)
        for a, b in kw.items():
            items = tuple((c, d) for c, d in items if c != a) + ((a, b),)
        if "**" in star:
            rest = star["**"] if rest is None else join(rest, star["**"])
        return [(V("dict", rest, EMPTY, self.sym(node, "d"), items), st)]

    def b_list(self, node, pos, kw, star, st, kind="list"):
        if not pos:
            return [(V("seq", kind, items=()), st)]
        ii = self.exact_items(pos[0])
        if ii is not None:
            return [(V("seq", kind, pos[0].lab, items=tuple(ii)), st)]
        v = pos[0]
        if (v.k == "const" and (v.c is None or isinstance(v.c, (int, float)))) or v.k == "num":
            self.raises.append((Exc("TypeError", node, self.fr.func), st))
            return []
        return [(V("typ", kind, all_labels(v), ("list", v.sym) if v.sym else self.sym(node), items=(self.elem_of(v, node),), mn=False), st)]

    def b_set(self, node, pos, kw, star, st):
        return self.b_list(node, pos, kw, star, st, "set")

    b_frozenset = b_set

    def b_tuple(self, node, pos, kw, star, st):
        return self.b_list(node, pos, kw, star, st, "tuple")

    def b_sorted(self, node, pos, kw, star, st):
        if pos:
            return [(V("typ", "list", all_labels(pos[0]), ("sorted", pos[0].sym) if pos[0].sym else self.sym(node),
                       items=(self.elem_of(pos[0], node),), mn=False), st)]
        return None

    def b_reversed(self, node, pos, kw, star, st):
        ii = self.exact_items(pos[0]) if pos else None
        if ii is not None:
            return [(V("seq", "list", items=tuple(reversed(ii))), st)]
        return None

    def b_enumerate(self, node, pos, kw, star, st):
        ii = self.exact_items(pos[0]) if pos else None
        if ii is not None and len(ii) <= 40:
            return [(V("seq", "list", items=tuple(V("seq", "tuple", items=(const(i), v)) for i, v in enumerate(ii))), st)]
        if pos:
            return [(V("typ", "list", EMPTY, self.sym(node), items=(V("seq", "tuple", items=(
                V("num", "int", num=Interval(0, INF)), self.elem_of(pos[0], node))),), mn=False), st)]
        return None

    def b_zip(self, node, pos, kw, star, st):
        if not pos:
            return None
        iis = [self.exact_items(p) for p in pos]
        if all(i is not None for i in iis):
            return [(V("seq", "list", items=tuple(V("seq", "tuple", items=t) for t in zip(*iis))), st)]
        if any(i is not None and not i for i in iis):
            return [(V("seq", "list", items=()), st)]
        return [(V("typ", "list", EMPTY, self.sym(node), items=(V("seq", "tuple", items=tuple(
            self.elem_of(p, node) for p in pos)),), mn=False), st)]

    def b_range(self, node, pos, kw, star, st):
        if pos and all(p.k == "const" and isinstance(p.c, int) for p in pos):
            r = range(*[p.c for p in pos])
            if len(r) <= 12:
                return [(V("seq", "list", items=tuple(const(i) for i in r)), st)]
        return [(V("typ", "list", EMPTY, self.sym(node), items=(V("num", "int", num=Interval(-INF, INF)),), mn=False), st)]

    def b_len(self, node, pos, kw, star, st):
        v = pos[0] if pos else top()
        if v.k == "seq":
            return [(const(len(v.items)), st)]
        if v.k == "dict" and v.c is None:
            return [(const(len(v.items)), st)]
        if v.k == "const" and isinstance(v.c, str):
            return [(const(len(v.c)), st)]
        if v.k in ("const", "num"):
            self.raises.append((Exc("TypeError", node, self.fr.func), st))
            return []
        return [(V("num", "int", v.lab, ("len", v.sym) if v.sym is not None else self.sym(node), num=Interval(0, INF)), st)]

    def b_callable(self, node, pos, kw, star, st):
        v = pos[0]
        if v.k in ("fn", "bound", "cls"):
            return [(TRUE, st)]
        if v.k in ("const", "num", "seq", "dict"):
            return [(FALSE, st)]
        return None

    def b_getattr(self, node, pos, kw, star, st):
        if len(pos) >= 2 and pos[1].k == "const" and isinstance(pos[1].c, str):
            if pos[0].k == "obj" and len(pos) > 2 and (pos[0].oid, pos[1].c) not in st.heap and not pos[0].c.lookup(pos[1].c):
                if self.whole(pos[0]):
                    return [(pos[2], st)]
                return [(join(top(sym=("attr", pos[0].sym, pos[1].c)), pos[2]), st)]
            if pos[0].k == "cls" and len(pos) > 2 and not pos[0].c.lookup(pos[1].c) and not pos[0].c.ext_bases():
                return [(pos[2], st)]
            if pos[0].k in ("const", "num", "seq", "dict") and len(pos) > 2:
                c = pos[0].c if pos[0].k == "const" else {"num": 0.0, "seq": (), "dict": {}}[pos[0].k]
                if not hasattr(c, pos[1].c) and not (pos[0].k == "seq" and hasattr([], pos[1].c)):
                    return [(pos[2], st)]
            if len(pos) > 2:
                saved, self.raises = self.raises, []
                try:
                    outs = self.get_attr(node, pos[0], pos[1].c, st)
                    missing = [s for e, s in self.raises if e.name == "AttributeError"]
                    saved = saved + [r for r in self.raises if r[0].name != "AttributeError"]
                finally:
                    self.raises = saved
                return outs + [(pos[2], s) for s in missing]
            return self.get_attr(node, pos[0], pos[1].c, st)
        return None

    def b_dir(self, node, pos, kw, star, st):
        if len(pos) == 1 and pos[0].k in ("obj", "cls"):
            names = set()
            for c in pos[0].c.cmro():
                names |= set(c.methods) | set(c.props) | set(c.attrs)
            if pos[0].k == "obj":
                names |= {a for (oid, a) in st.heap if oid == pos[0].oid}
            return [(V("seq", "list", sym=self.sym(node), items=tuple(const(n) for n in sorted(names))), st)]
        return None

    def b_setattr(self, node, pos, kw, star, st):
        if len(pos) == 3 and pos[1].k == "const":
            return [(NONE, s) for s in self.set_attr(node, pos[0], pos[1].c, pos[2], st.copy())]
        if len(pos) == 3 and pos[0].k == "obj":
            # unknown attribute name: any attribute may have changed
            st = st.copy()
            for k in [k for k in st.heap if k[0] == pos[0].oid]:
                st.heap[k] = join(st.heap[k], top(pos[2].lab, sym=self.sym(node, "sa")))
            return [(NONE, st)]
        return None

    def b_dataclasses_fields(self, node, pos, kw, star, st):
        if len(pos) == 1 and pos[0].k in ("cls", "obj") and pos[0].c.is_dataclass:
            return [(V("seq", "tuple", items=tuple(typ("dataclasses.Field", sym=("FIELD", n, i)).not_none() for n, d, i in pos[0].c.dc_fields()), mn=False), st)]
        return None

    def b_dataclasses_asdict(self, node, pos, kw, star, st):
        if len(pos) == 1 and pos[0].k == "obj" and pos[0].c.is_dataclass:
            items = []
            for n, d, i in pos[0].c.dc_fields():
                vs = self.get_attr(node, pos[0], n, st)
                items.append((n, vs[0][0] if len(vs) == 1 else top(sym=self.sym(node, n))))
            return [(V("dict", None, sym=self.sym(node, "asdict"), items=tuple(items), mn=False), st)]
        return None

    def b_locals(self, node, pos, kw, star, st):
        f = self.fr.func.node
        names = set(local_names(f)) if not isinstance(f, ast.Lambda) else None
        if pos or kw or names is None:
            return None
        items = tuple((k, v) for k, v in sorted(st.env.items(), key=lambda x: str(x[0])) if isinstance(k, str) and k in names and isinstance(v, V))
        return [(V("dict", None, sym=self.sym(node, "locals"), items=items, mn=False), st)]

    def whole(self, o):
        """Everything that was ever stored in this object is in the heap (it was made here and no call that could store in it was skipped)."""
        return self.H.whole_objects and isinstance(o.oid, tuple) and o.oid[:1] in (("new",), ("copy",)) and not o.c.lookup("__getattr__") and not o.c.lookup("__getattribute__")

    def b_hasattr(self, node, pos, kw, star, st):
        if len(pos) == 2 and pos[1].k == "const" and pos[0].k == "obj":
            if (pos[0].oid, pos[1].c) in st.heap or pos[0].c.lookup(pos[1].c):
                return [(TRUE, st)]
            if pos[0].c.is_dataclass and not pos[0].c.lookup("__getattr__") and not pos[0].c.ext_bases() or self.whole(pos[0]):
                return [(FALSE, st)]
            if self.init_assigns(pos[0].c, pos[1].c):
                return [(FALSE if isinstance(pos[0].oid, tuple) and pos[0].oid[0] == "new" else TRUE, st)]
            if not pos[0].c.lookup("__getattr__") and not pos[0].c.lookup("__getattribute__") and not self._attr_written(pos[0].c, pos[1].c) \
                    and all(not isinstance(b, str) or b.split(".")[-1] in ("ABC", "object", "Protocol", "Generic") for k_ in pos[0].c.cmro() for b in k_.bases):
                return [(FALSE, st)]
            return [(V("typ", "bool", sym=("hasattr", pos[0].sym, pos[1].c), mn=False), st)]
        if len(pos) == 2 and pos[1].k == "const" and pos[0].k == "const":
            return [(const(hasattr(pos[0].c, pos[1].c)), st)]
        if len(pos) == 2 and pos[1].k == "const" and pos[0].k == "num":
            return [(const(hasattr(0.5, pos[1].c)), st)]
        if len(pos) == 2 and pos[1].k == "const" and pos[0].k == "seq":
            return [(const(hasattr([], pos[1].c)), st)]
        return None

    def isinst(self, v, t):
        """True/False/None for isinstance(v, t)"""
        if t.k == "seq":
            rs = [self.isinst(v, x) for x in t.items]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        if t.k == "const" and t.c is None:
            return self.is_none(v, State())
        if v.k == "union":
            rs = {self.isinst(a, t) for a in v.items}
            return rs.pop() if len(rs) == 1 else None
        if t.k == "cls":
            if v.k == "obj":
                if v.mn:
                    return None
                if v.c.is_subclass(t.c):
                    return True
                return None if t.c.is_subclass(v.c) else False
            if v.k in ("const", "num", "seq", "dict", "fn", "cls", "bound", "mod", "ext"):
                return False
            if v.k == "typ":
                return False if not v.mn else None if False else False
            return None
        if t.k == "ext":
            n = t.c
            tn = n.split(".")[-1]
            if v.k == "const":
                py = _TYPES.get(n)
                if py is not None:
                    return isinstance(v.c, py)
                if n in _NUMERIC_ABC or n == "numbers.Number":
                    return isinstance(v.c, (int, float))
                if tn in ("Callable", "Iterable") and isinstance(v.c, str):
                    return None
                return False
            if v.k == "num":
                if n == v.c or n in _NUMERIC_ABC:
                    return True
                return False
            if v.k == "seq":
                return n == v.c or tn in ("Sequence", "Iterable", "Collection")
            if v.k == "dict":
                return n == "dict" or tn in ("Mapping",)
            if v.k in ("fn", "bound"):
                return tn == "Callable" or tn == "FunctionType"
            if v.k == "cls":
                return n == "type"
            if v.k == "obj":
                if n in _TYPES:
                    return False
                if n in [x for x in v.c.ext_bases()]:
                    return True
                return False if not v.mn else None
            if v.k == "typ":
                if v.mn:
                    return None
                vt = v.c.split(".")[-1]
                if vt == tn:
                    return True
                if (v.c, n) in _SUBTYPES:
                    return True
                if v.c in _TYPES or v.c in ("pathlib.Path", "numpy.ndarray"):
                    return False
                return None
        return None

    def b_isinstance(self, node, pos, kw, star, st):
        if len(pos) != 2:
            return None
        v, t = pos
        if v.k == "union":
            outs = []
            an = node.args[0] if getattr(node, "args", None) else None
            for a in v.items:
                x = st.copy()
                if an is not None:
                    self.refine_to(an, a, x)
                outs += self.b_isinstance(node, [a, t], kw, star, x)
            return outs
        r = self.isinst(v, t)
        if r is None and v.sym is not None and st.facts.get(("none", v.sym)) is False and v.mn and v.k in ("obj", "typ"):
            r = self.isinst(v.not_none(), t)
        if r is None and v.sym is not None and st.facts.get(("none", v.sym)) is True:
            r = self.isinst(NONE, t)
        if r is not None:
            return [(const(r), st)]
        tk = _tkey(t)
        sym = ("isinst", v.sym, tk) if v.sym is not None else self.sym(node)
        f = st.facts.get(("t", sym))
        if f is not None:
            return [(const(f), st)]
        # fork here so that the tested variable can be narrowed
        outs = []
        an = node.args[0] if getattr(node, "args", None) else None
        for b in (True, False):
            x = st.copy()
            x.facts[("t", sym)] = b
            if b and v.k in ("top", "obj", "typ") and v.sym is not None:
                nt = self.narrow(v, t)
                if nt is not None and an is not None:
                    self.refine_to(an, nt, x)
                ns = t.items if t.k == "seq" else (t,)
                if not any(i.k == "const" and i.c is None for i in ns):
                    x.facts[("none", v.sym)] = False
            if not b and t.k == "const" and t.c is None and v.sym is not None:
                x.facts[("none", v.sym)] = False
            x.trail = x.trail + ((self.fr.func.short, getattr(node, "lineno", 0), b),)
            outs.append((const(b), x))
        return outs

    def narrow(self, v, t):
        ts = t.items if t.k == "seq" else (t,)
        if len(ts) != 1:
            return v.not_none() if not any(i.k == "const" for i in ts) else None
        t = ts[0]
        if t.k == "cls":
            return V("obj", t.c, v.lab, v.sym, oid=v.sym, mn=False)
        if t.k == "ext":
            if t.c in ("str", "bool", "list", "tuple", "dict", "pathlib.Path", "numpy.ndarray"):
                return typ(t.c, v.lab, v.sym)
            return v.not_none()
        return None

    def b_issubclass(self, node, pos, kw, star, st):
        if len(pos) == 2 and pos[0].k == "cls" and pos[1].k == "cls":
            return [(const(pos[0].c.is_subclass(pos[1].c)), st)]
        return None

    def _num_conv(self, node, pos, st, to):
        if not pos:
            return [(const(0 if to == "int" else 0.0), st)]
        v = pos[0]
        if v.k == "const":
            try:
                c = float(v.c) if to == "float" else int(v.c)
                return [(const(c, v.lab, v.sym), st)]
            except TypeError:
                self.raises.append((Exc("TypeError", node, self.fr.func), st))
                return []
            except (ValueError, OverflowError) as ex:
                self.raises.append((Exc(type(ex).__name__, node, self.fr.func), st))
                return []
        if v.k == "num":
            if to == "int" and v.c == "float":
                lo = math.trunc(v.num.lo) if abs(v.num.lo) != INF else v.num.lo
                hi = math.trunc(v.num.hi) if abs(v.num.hi) != INF else v.num.hi
                return [(V("num", "int", v.lab, ("int", v.sym), num=Interval(lo, hi)), st)]
            return [(V("num", to, v.lab, v.sym, num=v.num), st)]
        if v.k in ("seq", "dict", "fn", "bound", "cls"):
            self.raises.append((Exc("TypeError", node, self.fr.func), st))
            return []
        if v.k == "typ" and v.c in ("list", "dict", "tuple", "pathlib.Path") and not v.mn:
            self.raises.append((Exc("TypeError", node, self.fr.func), st))
            return []
        return [(V("top", None, v.lab, (to, v.sym) if v.sym is not None else self.sym(node), mn=False), st)]

    def b_float(self, node, pos, kw, star, st):
        return self._num_conv(node, pos, st, "float")

    def b_int(self, node, pos, kw, star, st):
        return self._num_conv(node, pos, st, "int")

    def b_bool(self, node, pos, kw, star, st):
        if not pos:
            return [(FALSE, st)]
        t = self.truth(pos[0], st)
        if t is not None:
            return [(const(t, pos[0].lab), st)]
        return [(V("typ", "bool", pos[0].lab, pos[0].sym, mn=False), st)]

    def b_str(self, node, pos, kw, star, st):
        if pos and pos[0].k == "const":
            return [(const(str(pos[0].c), pos[0].lab), st)]
        if pos:
            parts = str_parts(pos[0])
            return [(V("typ", "str", all_labels(pos[0]), ("str", pos[0].sym), items=(parts,) if parts else ((("fmt", pos[0], None),),), mn=False), st)]
        return [(const(""), st)]

    def b_abs(self, node, pos, kw, star, st):
        v = pos[0]
        if v.k == "const":
            try:
                return [(const(abs(v.c), v.lab), st)]
            except TypeError:
                self.raises.append((Exc("TypeError", node, self.fr.func), st))
                return []
        if v.k == "num":
            n = v.num
            if n.lo >= 0:
                return [(v, st)]
            if n.hi <= 0:
                return [(V("num", v.c, v.lab, None, num=Interval(-n.hi, -n.lo, n.hi_open, n.lo_open)), st)]
            return [(V("num", v.c, v.lab, None, num=Interval(0, max(-n.lo, n.hi))), st)]
        return None

    def _minmax(self, node, pos, kw, st, ismin):
        vs = pos
        if len(pos) == 1:
            vs = self.exact_items(pos[0])
            if vs is None:
                return None
        if not vs:
            return None
        ivs = [as_interval(v) for v in vs]
        lab = EMPTY
        for v in vs:
            lab |= v.lab
        if any(v.k == "const" and v.c is None for v in vs) and len(vs) > 1:
            self.raises.append((Exc("TypeError", node, self.fr.func), st))
            return []
        if all(v.k == "const" for v in vs):
            try:
                return [(const((min if ismin else max)(v.c for v in vs), lab), st)]
            except TypeError:
                return None
        if any(i is None for i in ivs):
            return None
        f = min if ismin else max
        return [(V("num", "float", lab, self.sym(node), num=Interval(f(i.lo for i in ivs), f(i.hi for i in ivs))), st)]

    def b_min(self, node, pos, kw, star, st):
        return self._minmax(node, pos, kw, st, True)

    def b_max(self, node, pos, kw, star, st):
        return self._minmax(node, pos, kw, st, False)

    def b_any(self, node, pos, kw, star, st):
        return self._anyall(pos, st, True)

    def b_all(self, node, pos, kw, star, st):
        return self._anyall(pos, st, False)

    def _anyall(self, pos, st, isany):
        ii = self.exact_items(pos[0]) if pos else None
        if ii is None:
            return None
        ts = [self.truth(i, st) for i in ii]
        if isany:
            r = True if True in ts else None if None in ts else False
        else:
            r = False if False in ts else None if None in ts else True
        if r is None:
            return [(V("typ", "bool", sym=("any" if isany else "all",) + tuple(i.sym if i.sym else i.c for i in ii), mn=False), st)]
        return [(const(r), st)]

    def b_sum(self, node, pos, kw, star, st):
        ii = self.exact_items(pos[0]) if pos else None
        if ii is not None and len(pos) == 1 and all(i.k == "const" and isinstance(i.c, (int, float)) for i in ii):
            return [(const(sum(i.c for i in ii)), st)]
        return None

    def b_print(self, node, pos, kw, star, st):
        return [(NONE, st)]

    def np_call(self, node, name, pos, kw, st):
        if name in ("full", "full_like") and len(pos) >= 2 and (pos[1].k == "num" or (pos[1].k == "const" and isinstance(pos[1].c, (int, float)))):
            return [(arr(pos[1]), st)]
        if name in ("atleast_1d", "asarray", "array") and pos:
            v = pos[0]
            if arr_elem(v) is not None:
                return [(v, st)]
            if v.k == "num" or (v.k == "const" and isinstance(v.c, (int, float)) and not isinstance(v.c, bool)):
                return [(arr(v), st)]
        if name in ("clip", "minimum", "maximum", "min", "max", "deg2rad", "rad2deg") and pos and not kw and all(
                p.k == "const" and isinstance(p.c, (int, float)) and not isinstance(p.c, bool) for p in pos):
            a = [p.c for p in pos]
            if name == "clip" and len(a) == 3:
                return [(const(min(max(a[0], a[1]), a[2]), pos[0].lab), st)]
            if name in ("minimum", "maximum") and len(a) == 2:
                return [(const(min(a) if name == "minimum" else max(a), pos[0].lab | pos[1].lab), st)]
            if name in ("deg2rad", "rad2deg") and len(a) == 1:
                return [(const(math.radians(a[0]) if name == "deg2rad" else math.degrees(a[0]), pos[0].lab), st)]
        if name in ("any", "all") and len(pos) == 1:
            v = pos[0] if arr_elem(pos[0]) is None else arr_elem(pos[0])
            if v.k == "const" and isinstance(v.c, bool):
                return [(v, st)]
            if v.k == "typ" and v.c == "bool":
                return [(v, st)]
        if name == "isscalar" and pos and arr_elem(pos[0]) is not None:
            return [(FALSE, st)]
        if name in ("isnan", "isinf", "isfinite", "isscalar", "abs", "absolute", "float64", "float32", "int64", "int32") and pos:
            v = pos[0]
            if name in ("float64", "float32"):
                return self._num_conv(node, pos, st, "float")
            if name in ("int64", "int32"):
                return self._num_conv(node, pos, st, "int")
            if name in ("abs", "absolute"):
                return self.b_abs(node, pos, kw, {}, st)
            if name == "isscalar":
                if v.k in ("const", "num"):
                    return [(const(v.c is not None), st)]
                if v.k in ("seq", "dict"):
                    return [(FALSE, st)]
                return None
            if v.k == "const":
                if isinstance(v.c, (int, float)):
                    f = {"isnan": math.isnan, "isinf": math.isinf, "isfinite": math.isfinite}[name]
                    return [(const(f(v.c)), st)]
                self.raises.append((Exc("TypeError", node, self.fr.func), st))
                return []
            if v.k == "num":
                if name == "isnan":
                    return [(FALSE, st)]
                hasinf = (v.num.hi == INF and not v.num.hi_open) or (v.num.lo == -INF and not v.num.lo_open)
                if not hasinf:
                    return [(const(name == "isfinite"), st)]
                return [(V("typ", "bool", sym=(name, v.sym), mn=False), st)]
            if v.k in ("dict",) or (v.k == "typ" and v.c == "str"):
                self.raises.append((Exc("TypeError", node, self.fr.func), st))
                return []
            if v.sym is not None:
                return [(V("typ", "bool", v.lab, (name, v.sym), mn=False), st)]
        return None


_EXT_RESULT = {"str": "str", "pathlib.Path": "pathlib.Path", "pathlib.Path.cwd": "pathlib.Path"}


_MC = {}


def arr(elem, lab=EMPTY):
    """An array of unknown shape all of whose elements are described by one value."""
    return V("typ", "numpy.ndarray", elem.lab | lab, ("arr", elem.sym) if elem.sym is not None else ("arrc", elem.c if elem.k == "const" else None),
             items=(elem,), mn=False)


def arr_elem(v):
    if v.k == "typ" and v.c == "numpy.ndarray" and v.items and isinstance(v.items[0], V):
        return v.items[0]
    return None


def lit_value(x, sym=None):
    if isinstance(x, dict):
        if not all(isinstance(k, (str, int, float, bool, type(None))) for k in x):
            return None
        items = tuple((k, lit_value(v)) for k, v in x.items())
        return V("dict", None, sym=sym, items=items)
    if isinstance(x, (list, tuple)):
        return V("seq", "list" if isinstance(x, list) else "tuple", sym=sym, items=tuple(lit_value(v) for v in x))
    return const(x, sym=sym)


def _mentions(key, ctx):
    """Does a fact talk about a value created inside the callee context ctx?"""
    n = len(ctx)
    stack = [key]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if len(x) >= n and x[:n] == ctx:
                return True
            stack.extend(x)
    return False


def str_parts(v):
    if v.k == "const" and isinstance(v.c, str):
        return (v.c,)
    if v.k == "typ" and v.c == "str" and v.items and isinstance(v.items[0], tuple):
        return v.items[0]
    if v.k == "typ" and v.c == "str":
        return (("fmt", v, None),)
    return None


def _trim(s, alt):
    n = 0
    stack = [s]
    while stack:
        x = stack.pop()
        n += 1
        if n > 60:
            return alt
        if isinstance(x, tuple):
            stack.extend(x)
    return s


def _tkey(t):
    if t.k == "seq":
        return tuple(sorted((_tkey(i) for i in t.items), key=str))
    if t.k == "cls":
        return t.c.qual
    return str(t.c)


_GEN = {}


def _is_generator(func):
    k = id(func.node)
    if k not in _GEN:
        from .model import own_nodes
        _GEN[k] = (not isinstance(func.node, ast.Lambda)) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(func.node))
    return _GEN[k]


class _EnvBox:
    """Captured environment of a closure."""

    __slots__ = ("env", "frame", "parent")

    def __init__(self, env, frame, parent=None):
        self.env = env
        self.frame = frame
        self.parent = frame.closure

    def current(self, frames, st):
        if frames and frames[-1] is self.frame:
            b = _EnvBox(st.env, self.frame)
            return b
        return self

    def __eq__(self, o):
        return isinstance(o, _EnvBox) and self.frame is o.frame

    def __hash__(self):
        return id(self.frame)


def _tail(n):
    if isinstance(n, ast.Attribute):
        return n.attr
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Call):
        return _tail(n.func)
    return None


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t2):
        if hasattr(n, "lineno"):
            n.lineno = t.lineno
            n.col_offset = t.col_offset
            n.end_col_offset = t.end_col_offset
    return t2


_BIN = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b,
}


@functools.lru_cache(maxsize=None)
def local_names(f):
    """Parameters and names assigned in a function (not in the functions inside it)."""
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}
    todo = list(f.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
        todo.extend(ast.iter_child_nodes(n))
    return out
