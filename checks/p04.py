"""P04: temporary switches are put back on every way out.

Typestate over all paths of every function, exceptional ones included (any call, subscript, arithmetic or import may
raise): a switch (an attribute of an object that some function of the package saves and puts back, or process-wide
state such as floating-point error handling, the working directory or warning filters) that a function changes must
be back at its saved value at every exit.  Setters and constructors establish the switch and are exempt; private
helpers that only change or only restore it are summarised and judged in their callers."""
from __future__ import annotations

import ast

from sa.inline import expand
from sa.flow import Walker, may_raise
from sa.model import AnalysisBroken, dotted, own_nodes
from sa.report import Result
from sa.resolve import Resolver

# process-wide state: callee -> (key, what it is, getter that returns the value to put back)
GLOBAL_SET = {
    "numpy.seterr": "floating-point error handling", "numpy.seterrcall": "floating-point error handling", "numpy.setbufsize": "buffer size",
    "os.chdir": "working directory", "os.umask": "file mode mask", "warnings.simplefilter": "warning filters", "warnings.filterwarnings": "warning filters",
    "warnings.resetwarnings": "warning filters", "numpy.random.seed": "global random state", "random.seed": "global random state", "numpy.random.set_state": "global random state",
    "sys.setrecursionlimit": "recursion limit", "numpy.set_printoptions": "print options", "locale.setlocale": "locale", "logging.disable": "logging",
    "xarray.set_options": "xarray options", "pandas.set_option": "pandas options", "matplotlib.use": "plotting backend", "matplotlib.pyplot.switch_backend": "plotting backend",
    "matplotlib.rc": "plotting settings", "matplotlib.pyplot.rc": "plotting settings", "matplotlib.rcParams.update": "plotting settings", "matplotlib.pyplot.rcParams.update": "plotting settings",
    "matplotlib.style.use": "plotting settings", "matplotlib.pyplot.style.use": "plotting settings", "os.putenv": "environment", "os.environ.update": "environment", "os.environ.setdefault": "environment",
    "signal.signal": "signal handling", "socket.setdefaulttimeout": "network timeout", "gc.disable": "garbage collection", "numba.set_num_threads": "number of threads",
}
GLOBAL_GET = {"numpy.seterr": "floating-point error handling", "numpy.geterr": "floating-point error handling", "numpy.seterrcall": "floating-point error handling",
              "os.getcwd": "working directory", "pathlib.Path.cwd": "working directory", "os.umask": "file mode mask", "sys.getrecursionlimit": "recursion limit",
              "numpy.get_printoptions": "print options", "locale.getlocale": "locale", "numpy.random.get_state": "global random state", "numpy.setbufsize": "buffer size",
              "matplotlib.rcParams.copy": "plotting settings", "matplotlib.pyplot.rcParams.copy": "plotting settings", "socket.getdefaulttimeout": "network timeout",
              "signal.getsignal": "signal handling", "signal.signal": "signal handling", "matplotlib.get_backend": "plotting backend"}
GUARDED = ("catch_warnings", "errstate", "rc_context", "printoptions", "chdir", "option_context", "set_options", "style.context")
GLOBAL_SUB = {"os.environ": "environment", "matplotlib.rcParams": "plotting settings", "matplotlib.pyplot.rcParams": "plotting settings"}
BASE_SWITCHES = {"ask_overwrite"}


def canon(attr):
    return attr.lstrip("_")


class Summary:
    def __init__(self):
        self.sets = frozenset()      # keys left changed on the normal exit
        self.restores = frozenset()  # (key, parameter index) put back from a parameter
        self.returns_saved = frozenset()


class Switches(Walker):
    """State: (saved names -> key, dirty keys, guarded global keys) as frozensets."""

    def __init__(self, C, f):
        self.C, self.f = C, f
        self.sites = {}

    # -- helpers
    def key(self, e):
        """The switch an expression denotes, as (object text, attribute)."""
        if isinstance(e, ast.Attribute) and canon(e.attr) in self.C.switches:
            o = ast.unparse(e.value)
            return (o, canon(e.attr))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and \
                isinstance(e.args[1].value, str) and canon(e.args[1].value) in self.C.switches:
            return (ast.unparse(e.args[0]), canon(e.args[1].value))
        return None

    def gkey_get(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                for k, it in self.C.R.callees(self.f, n):
                    if k == "ext" and it in GLOBAL_GET:
                        return ("", GLOBAL_GET[it])
        d = dotted(e)
        return None

    def values_of(self, st, e):
        """Key whose saved value the expression is."""
        saved = dict(st[0])
        if isinstance(e, ast.Name):
            return saved.get(e.id)
        if isinstance(e, ast.Attribute) or isinstance(e, ast.Subscript):
            t = ast.unparse(e)
            return saved.get(t)
        if isinstance(e, ast.Starred):
            return self.values_of(st, e.value)
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.IfExp):
            return None
        return None

    def assign(self, target, value, st, node):
        saved, dirty, g = st
        k = self.key(target)
        if k is not None:
            src = self.values_of(st, value) if value is not None else None
            cur = self.key(value) if value is not None else None
            if src == k or (cur == k):
                dirty = frozenset(d for d in dirty if d != k)
            else:
                self.sites.setdefault(k, node)
                dirty = dirty | {k}
            return (saved, dirty, g)
        if isinstance(target, ast.Subscript):
            r = dotted(target.value)
            nm = None
            if r is not None:
                rr = self.C.R.name(self.f, r)
                nm = GLOBAL_SUB.get(rr[1]) if rr is not None and rr[0] == "ext" else None
            if nm is not None and nm not in g:
                self.sites.setdefault(("", nm), node)
                dirty = dirty | {("", nm)}
            return (saved, dirty, g)
        if isinstance(target, ast.Name) and value is not None:
            sv = dict(saved)
            sv.pop(target.id, None)
            k = self.key(value)
            if k is not None:
                if k not in dirty:
                    sv[target.id] = k
            else:
                src = self.values_of(st, value)
                if src is not None:
                    sv[target.id] = src
                else:
                    gk = self.gkey_get(value)
                    if gk is not None and gk not in dirty:
                        sv[target.id] = gk
                    rs = self.call_summary(value)
                    for s, recv in rs:
                        for kk in s.returns_saved:
                            sv[target.id] = (recv, kk[1])
            return (frozenset(sv.items()), dirty, g)
        if isinstance(target, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts) else [None] * len(target.elts)
            new = st
            # simultaneous: saved values are read before any target changes
            pre = [self.key(v) if v is not None else None for v in vs]
            for t, v, p in zip(target.elts, vs, pre):
                if isinstance(t, ast.Name) and p is not None and p not in st[1]:
                    sv = dict(new[0])
                    sv[t.id] = p
                    new = (frozenset(sv.items()), new[1], new[2])
                else:
                    new = self.assign(t, v, new, node) if v is not None or not isinstance(t, ast.Name) else new
            return new
        return st

    def call_summary(self, e):
        out = []
        if isinstance(e, ast.Call):
            for k, it in self.C.R.callees(self.f, e):
                if k == "func" and it[0].qual in self.C.summ:
                    recv = ast.unparse(e.func.value) if isinstance(e.func, ast.Attribute) else ""
                    if recv == "super()":
                        recv = "self"
                    out.append((self.C.summ[it[0].qual], recv))
        return out

    def calls(self, node, st):
        """Effects of the calls in a statement."""
        saved, dirty, g = st
        for n in ast.walk(node):
            if not isinstance(n, ast.Call):
                continue
            if isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                t = ast.Attribute(value=n.args[0], attr=n.args[1].value, ctx=ast.Store())
                saved, dirty, g = self.assign(t, n.args[2], (saved, dirty, g), n)
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                t = ast.Attribute(value=n.args[0], attr=n.args[1].value, ctx=ast.Store())
                saved, dirty, g = self.assign(t, n.args[2], (saved, dirty, g), n)
                continue
            for k, it in self.C.R.callees(self.f, n):
                if k == "ext" and it in GLOBAL_SET:
                    what = ("", GLOBAL_SET[it])
                    if what[1] in g:
                        continue
                    args = list(n.args) + [x.value for x in n.keywords]
                    if any(self.values_of((saved, dirty, g), a) == what for a in args):
                        dirty = dirty - {what}
                    elif not args and it in ("numpy.seterr",):
                        pass
                    else:
                        self.sites.setdefault(what, n)
                        dirty = dirty | {what}
                elif k == "func" and it[0].qual in self.C.summ and it[0].qual != self.f.qual:
                    s = self.C.summ[it[0].qual]
                    recv = ast.unparse(n.func.value) if isinstance(n.func, ast.Attribute) else ""
                    if recv == "super()":
                        recv = "self"
                    back = set()
                    for key, pname in s.restores:
                        ps = [p for p in it[0].params() if p not in ("self", "cls")]
                        a = next((x.value for x in n.keywords if x.arg == pname), None)
                        if a is None and pname in ps and ps.index(pname) < len(n.args):
                            a = n.args[ps.index(pname)]
                        tgt = (recv, key[1]) if key[0] == "self" else key
                        if a is not None and self.values_of((saved, dirty, g), a) == tgt:
                            dirty = dirty - {tgt}
                            back.add(key)
                    for key in s.sets:
                        tgt = (recv, key[1]) if key[0] == "self" else key
                        if key not in back:
                            self.sites.setdefault(tgt, n)
                            dirty = dirty | {tgt}
        return (saved, dirty, g)

    # -- transfer
    def simple(self, s, st):
        if isinstance(s, ast.Return):
            if s.value is not None:
                st = self.calls(s.value, st)
                k = self.values_of(st, s.value)
                if k is not None:
                    self.C.returned.setdefault(self.f.qual, set()).add(k)
            return [st]
        before = st
        st = self.calls(s, st)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                st = self.assign(t, s.value, st, s)
                gk = self.gkey_get(s.value) if isinstance(t, ast.Name) else None
                if gk is not None and gk not in before[1]:
                    st = (st[0] | {(t.id, gk)}, st[1], st[2])  # the call that changes it returns the old value
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            st = self.assign(s.target, s.value, st, s)
        elif isinstance(s, ast.AugAssign):
            k = self.key(s.target)
            if k is not None:
                self.sites.setdefault(k, s)
                st = (st[0], st[1] | {k}, st[2])
            elif isinstance(s.target, ast.Name):
                d = dotted(s.target)
                rr = self.C.R.name(self.f, d)
                if rr is not None and rr[0] == "ext" and rr[1] in GLOBAL_SUB and GLOBAL_SUB[rr[1]] not in st[2]:
                    k = ("", GLOBAL_SUB[rr[1]])
                    self.sites.setdefault(k, s)
                    st = (st[0], st[1] | {k}, st[2])
        return [st]

    def expr(self, e, st):
        st = self.calls(e, st)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                st = self.assign(n.target, n.value, st, n)
        return [st]

    def test(self, e, st, truth):
        # saved is None / saved is not None etc. are not tracked
        return st

    def raises(self, node, st):
        if not (st[1]):
            return isinstance(node, ast.Raise)
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            k = self.key(node.targets[0])
            if k is not None and k in st[1] and (self.values_of(st, node.value) == k):
                return False
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            # putting back: a restoring call of saved state, not counted as failing
            st2 = self.calls(node, st)
            if st2[1] < st[1]:
                return False
            d = dotted(node.value.func)
            if d in ("print",):
                return True
        return may_raise(node)

    def after_raise(self, node, st):
        return ()

    def enter_with(self, item, st):
        st = self.calls(item.context_expr, st)
        e = item.context_expr
        d = (dotted(e.func) or "") if isinstance(e, ast.Call) else ""
        g = st[2]
        if d.endswith("catch_warnings"):
            g = g | {"warning filters"}
        elif d.endswith("errstate"):
            g = g | {"floating-point error handling"}
        elif d.endswith("rc_context") or d.endswith("style.context"):
            g = g | {"plotting settings"}
        elif d.endswith("printoptions"):
            g = g | {"print options"}
        elif d.endswith("chdir"):
            g = g | {"working directory"}
        elif d.endswith("set_options"):
            return [(st[0], st[1] - {("", "xarray options")}, st[2])]
        return [(st[0], st[1], g)]

    def leave_with(self, item, st):
        e = item.context_expr
        d = (dotted(e.func) or "") if isinstance(e, ast.Call) else ""
        g = st[2]
        for n, w in (("catch_warnings", "warning filters"), ("errstate", "floating-point error handling"), ("rc_context", "plotting settings"), ("printoptions", "print options"),
                     ("chdir", "working directory")):
            if d.endswith(n):
                g = g - {w}
        return [(st[0], st[1], g)]


class Check:
    def __init__(self, prog, res):
        self.P, self.res = prog, res
        self.R = Resolver(prog)
        self.summ = {}
        self.returned = {}
        self.switches = set(BASE_SWITCHES)
        self.expanded = set()
        for f in prog.all_funcs():
            if not isinstance(f.node, ast.Lambda):
                expand(prog, f, lambda g: any(isinstance(n, ast.Attribute) and (isinstance(n.ctx, ast.Store) or canon(n.attr) in BASE_SWITCHES) for n in ast.walk(g.node)), self.expanded)
        self.find_switches()

    def find_switches(self):
        """Attributes that some function saves, changes and puts back."""
        for f in self.P.all_funcs():
            saved = {}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute):
                    saved.setdefault(n.targets[0].id, set()).add((ast.unparse(n.value.value), canon(n.value.attr)))
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name):
                    k = (ast.unparse(n.targets[0].value), canon(n.targets[0].attr))
                    if k in saved.get(n.value.id, ()):
                        # put back after some other assignment of the same attribute
                        for m in own_nodes(f.node):
                            if isinstance(m, ast.Assign) and m is not n and any(isinstance(t, ast.Attribute) and (ast.unparse(t.value), canon(t.attr)) == k for t in m.targets):
                                self.switches.add(k[1])

    def exempt(self, f, key):
        obj, attr = key
        if obj == "":
            return False
        if f.name in ("__init__", "__new__", "__setattr__", "__post_init__", "maker", "__enter__", "__exit__", "__copy__", "__deepcopy__"):
            return True
        for c in self.P.classes.values():
            for p in c.props.values():
                if p.fset is f and canon(p.name) == attr:
                    return True
        # a new object made in this function is not a shared one
        root = obj.split(".")[0].split("[")[0]
        if root not in ("self", "cls") and root in self.R.scope(f).assigns and root not in self.R.scope(f).params:
            vs = self.R.scope(f).assigns[root]
            if all(isinstance(v, ast.Call) for v in vs):
                return True
        return False

    def blunt(self, f, W, k):
        """A constructor sets the switch to a constant, other than on a branch that depends on an answer of the user."""
        s = W.sites.get(k)
        if not isinstance(s, ast.Assign) or not isinstance(s.value, ast.Constant) or s.value.value is None:
            return False
        par = {c: p for p in ast.walk(f.node) for c in ast.iter_child_nodes(p)}
        answers = {t.id for n in own_nodes(f.node) if isinstance(n, ast.Assign) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "input" for c in ast.walk(n.value))
                   for t in n.targets if isinstance(t, ast.Name)}
        p = par.get(s)
        while p is not None and p is not f.node:
            if isinstance(p, ast.If) and any(isinstance(n, ast.Name) and n.id in answers for n in ast.walk(p.test)):
                return False
            p = par.get(p)
        return True

    def private(self, f):
        return f.name.startswith("_") and not f.name.startswith("__")

    def run(self):
        funcs = [f for f in self.P.all_funcs() if not isinstance(f.node, ast.Lambda) and f.qual not in self.expanded]
        cand = []
        for f in funcs:
            cand.append(f)
        results = {}
        for rnd in range(3):
            self.returned = {}
            changed = False
            for f in cand:
                W = Switches(self, f)
                try:
                    x = W.run(f.node, (frozenset(), frozenset(), frozenset()))
                except OverflowError:
                    self.res.count("undecided")
                    continue
                results[f.qual] = (f, W, x)
                s = Summary()
                normal = x.fall | x.ret
                if self.private(f) and normal:
                    s.sets = frozenset(k for st in normal for k in st[1] if not self.exempt(f, k))
                    s.returns_saved = frozenset(self.returned.get(f.qual, ()))
                # restore helpers: assigns a switch from a parameter
                ps = f.params()
                rs = set()
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in ps:
                        for t in n.targets:
                            k = W.key(t)
                            if k is not None:
                                rs.add((k, n.value.id))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[2], ast.Name) and n.args[2].id in ps \
                            and isinstance(n.args[1], ast.Constant) and canon(str(n.args[1].value)) in self.switches:
                        rs.add(((ast.unparse(n.args[0]), canon(n.args[1].value)), n.args[2].id))
                if self.private(f):
                    s.restores = frozenset(rs)
                if s.sets or s.restores or s.returns_saved:
                    o = self.summ.get(f.qual)
                    if o is None or (o.sets, o.restores, o.returns_saved) != (s.sets, s.restores, s.returns_saved):
                        self.summ[f.qual] = s
                        changed = True
                elif f.qual in self.summ:
                    del self.summ[f.qual]
                    changed = True
            if not changed:
                break
        called = set()
        for f in funcs:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for k, it in self.R.callees(f, n):
                        if k == "func":
                            called.add(it[0].qual)
        for q, (f, W, x) in results.items():
            self.res.count("functions")
            keys = {k for st in x.fall | x.ret | x.exc for k in st[1]}
            if W.sites:
                self.res.count("functions_changing_a_switch")
                self.res.count("switch_changes", len(W.sites))
            helper = self.private(f) and f.qual in self.summ and (self.summ[f.qual].sets or self.summ[f.qual].restores) and f.qual in called
            for k in keys:
                if f.name == "__init__" and k[0] == "self" and self.blunt(f, W, k) and any(k in st[1] for st in x.fall | x.ret):
                    self.res.add("not-restored", f"{f.short}:{k[1]}", f"{f.short} sets the {k[1]} of the new object to a constant instead of what the user asked for", f.path, W.sites[k].lineno)
                if self.exempt(f, k):
                    continue
                n_ = any(k in st[1] for st in x.fall | x.ret)
                e_ = any(k in st[1] for st in x.exc)
                if helper and n_:
                    # judged where it is called, unless nothing in the callers can tell
                    self.res.count("helpers")
                    continue
                if helper and any(k == r[0] for r in self.summ[f.qual].restores):
                    continue
                what = k[1] if k[0] == "" else f"{k[1]} of {k[0]}"
                site = W.sites.get(k)
                how = "returns" if n_ else "ends with an error"
                self.res.add("not-restored" if n_ else "not-restored-on-error", f"{f.short}:{k[1]}",
                             f"{f.short} changes the {what} and there is a way it {how} without putting the user's setting back", f.path, getattr(site, "lineno", f.node.lineno))
        # module level changes of process-wide state outside the package's own import-time configuration
        self.res.coverage["switches"] = sorted(self.switches)


def check(prog, tier):
    res = Result()
    c = Check(prog, res)
    c.run()
    res.require("functions", 300)
    res.notes = ["every path of every function including exceptional ones: a changed switch is back at its saved value at each exit"]
    res.assumptions = ["plain assignments and name lookups do not raise", "import-time warning filters of the package are its configuration"]
    return res
