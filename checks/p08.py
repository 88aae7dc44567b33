"""P08: an angle is used in the unit it is in.

Forward inference of the unit of every value within each function (degrees, radians, a multiple of pi, a conversion
factor, or unknown), following assignments, conversions, unit-preserving operations, calls and results between
functions.  Joins keep a unit only where all ways agree, so what is reported is a definite disagreement.

  trigonometry  a trigonometric function is given radians
  converted     what is converted is in the unit it is converted from
  mixed         no sum, difference, remainder or comparison of degrees with radians
  argument      what is given for a longitude, latitude, bearing or angle is in the unit the receiver takes
  stored        what is stored as a longitude, latitude, bearing or angle is in the unit it is kept in
  returned      what is returned is in the unit documented
"""
from __future__ import annotations

import ast
import re

from checks.p11 import native_calls
from sa.model import dotted, own_nodes
from sa.report import Result
from sa.resolve import Resolver
from sa.rust import Native

ANGLE = {"lon", "lat", "lons", "lats", "longitude", "longitudes", "latitude", "latitudes", "location", "locations", "lonlat", "lonlats",
         "bearing", "bearings", "orientation", "angle", "angles"}
NOT = {"cos", "sin", "tan", "n", "num", "idx", "index", "indices", "id", "ids", "count", "name", "names", "units", "frac", "fraction", "ratio", "scale", "factor", "str", "shape",
       "size", "dim", "dims", "key", "tree", "fn", "func", "file", "bin", "bins", "valid", "mask", "is", "has", "d2r", "r2d", "col", "attrs", "label", "distance", "distances", "km", "m",
       "list", "axis", "from", "sort", "dist", "var", "sigma", "pdf", "type", "fmt"}
PRESERVE = {"ravel", "asarray", "array", "astype", "reshape", "concatenate", "item", "atleast_1d", "copy", "flatten", "float", "squeeze", "tolist", "abs", "mean", "min", "max", "nanmin",
            "nanmax", "median", "amin", "amax", "sort", "sorted", "unique", "isel", "to_numpy", "tuple", "list", "vstack", "hstack", "column_stack", "stack", "transpose", "float64",
            "ascontiguousarray", "load", "compute", "minimum", "maximum", "clip", "round", "append", "asanyarray", "broadcast_to", "repeat", "tile", "full_like", "full", "nanmean", "absolute",
            "rename", "assign_coords", "atleast_2d", "r_", "c_", "deepcopy", "fabs", "flip", "roll", "interp", "rint", "floor", "ceil", "diff", "ptp", "meshgrid", "add", "subtract", "expand_dims"}
TRIG = {"sin", "cos", "tan"}
ARC = {"arcsin", "arccos", "arctan", "arctan2", "asin", "acos", "atan", "atan2"}
MATHMOD = {"numpy", "math", "numpy.ma"}
CIRCLE = {90.0, 180.0, 270.0, 360.0}


# values: None | 'deg' | 'rad' | 'pi' | 'd2r' | 'r2d' | 'degpi' | ('c', number) | ('t', (values...)) | ('rad180',)
def const(v):
    return isinstance(v, tuple) and v[0] == "c"


def flat(v):
    """One unit for a value used as a whole."""
    if isinstance(v, tuple) and v[0] == "t":
        us = {flat(x) for x in v[1]}
        us -= {u for u in us if const(u)}
        return us.pop() if len(us) == 1 else None
    return v


def join(a, b):
    if a == b:
        return a
    if const(a) and b in ("deg", "rad"):
        return b
    if const(b) and a in ("deg", "rad"):
        return a
    if {a, b} == {"rad", "pi"}:
        return "rad"
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "t" and len(a[1]) == len(b[1]):
        return ("t", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    return None


def unit(v):
    v = flat(v)
    return "rad" if v == "rad" else "deg" if v == "deg" else None


def is_rad(v):
    v = flat(v)
    return v in ("rad", "pi")


def by_name(name):
    toks = [t for t in re.split(r"[_\W]+", name.lower()) if t]
    if not toks:
        return None
    if toks[-1] in ("rad", "radians", "rads"):
        return "rad"
    if toks[-1] in ("deg", "degrees"):
        return "deg"
    core = [re.sub(r"\d+$", "", t) for t in toks]
    if any(t in NOT for t in core):
        return None
    if any(t in ANGLE for t in core):
        return "deg"
    return None


def doc_params(doc):
    """name -> unit from a numpy style docstring."""
    out = {}
    if not doc:
        return out
    cur, lines = None, doc.splitlines()
    sect = None
    for i, ln in enumerate(lines):
        s = ln.strip()
        if i + 1 < len(lines) and re.fullmatch(r"-{3,}", lines[i + 1].strip()):
            sect = s.lower()
            cur = None
            continue
        if sect not in ("parameters", "other parameters", "keyword arguments"):
            continue
        m = re.match(r"^(\*{0,2}\w+(?:\s*,\s*\w+)*)\s*:\s*(.*)$", s)
        if m and (len(ln) - len(ln.lstrip())) <= base_indent(lines):
            cur = [x.strip() for x in m.group(1).split(",")]
            text = m.group(2)
        else:
            text = s
        if cur:
            u = text_unit(text)
            for c in cur:
                if u:
                    out.setdefault(c, u)
    return out


def base_indent(lines):
    ind = [len(x) - len(x.lstrip()) for x in lines[1:] if x.strip()]
    return min(ind) if ind else 0


def text_unit(t):
    r, d = re.search(r"\bradians?\b", t, re.I), re.search(r"\bdegrees?\b|\[deg\]", t, re.I)
    if r and not d:
        return "rad"
    if d and not r:
        return "deg"
    return None


def doc_returns(doc):
    if not doc:
        return None
    m = re.search(r"^\s*(Returns|Yields)\s*\n\s*-{3,}\s*\n(.*?)(?=^\s*\w[\w ]*\n\s*-{3,}\s*$|\Z)", doc, re.S | re.M)
    if m:
        return text_unit(m.group(2))
    return None


class Units:
    def __init__(self, prog, R, native, res=None):
        self.P, self.R, self.native = prog, R, native
        self.res = res
        self.summ = {}       # qual -> return value
        self.calls = {}      # qual -> {param: set of values}
        self.prev_calls = {}
        self.finals = {}
        self.busy = set()
        self.nat = {}
        for f, call, name in native_calls(R, prog):
            self.nat[id(call)] = name
        self.report = False
        self.bodies = [prog.cls("Target"), prog.cls("Surface"), prog.cls("LocalSurface")]

    # ---- units of parameters and results
    def param_unit(self, f, p):
        f0 = f
        d = doc_params(ast.get_docstring(f.node) if not isinstance(f.node, ast.Lambda) else None)
        if p in d:
            return d[p]
        if p.endswith(("_rad", "_radians", "_deg", "_degrees")):
            return by_name(p)
        if f.parent is None and f.name == "__init__" and f.cls is not None:
            d = doc_params(ast.get_docstring(f.cls.node))
            if p in d:
                return d[p]
        if f0.parent is None and (not f0.name.startswith("_") or f0.name == "__init__"):
            return by_name(p)
        return None

    def declared_return(self, f):
        doc = ast.get_docstring(f.node) if not isinstance(f.node, ast.Lambda) else None
        u = doc_returns(doc)
        if u is None and f.cls is not None and f.parent is None and any(f is p.fget for p in f.cls.props.values()):
            u = text_unit((doc or "").split("\n\n")[0]) if doc else None
            u = u or by_name(f.name)
        return u

    def summary(self, f):
        if f.qual in self.summ:
            return self.summ[f.qual]
        u = self.declared_return(f)
        if u:
            return u
        if f.qual in self.busy:
            return None
        return self.analyse(f)

    # ---- analysis of one function
    def analyse(self, f):
        if f.qual in self.busy or isinstance(f.node, ast.Lambda):
            return None
        self.busy.add(f.qual)
        w = Fun(self, f)
        w.run()
        self.busy.discard(f.qual)
        self.summ[f.qual] = w.ret()
        self.finals[f.qual] = w.final
        return self.summ[f.qual]

    def add(self, rule, f, what, msg, node):
        if self.report and self.res is not None:
            self.res.add(rule, f"{f.short}|{what}", f"{f.short}: {msg}", f.path, getattr(node, "lineno", 0))

    def count(self, k):
        if self.report and self.res is not None:
            self.res.count(k)


class Fun:
    def __init__(self, U, f):
        self.U, self.f, self.R = U, f, U.R
        self.env = {}
        self.rets = []
        self.final = {}
        self.outer = {}
        self.first = True

    def run(self):
        f = self.f
        if f.parent is not None:
            g = f.parent
            chain = []
            while g is not None:
                chain.append(g)
                g = g.parent
            for g in reversed(chain):
                if g.qual not in self.U.finals and g.qual not in self.U.busy:
                    self.U.analyse(g)
                self.outer.update(self.U.finals.get(g.qual, {}))
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            u = self.U.param_unit(f, x.arg)
            if u is None:
                vs = self.U.prev_calls.get(f.qual, {}).get(x.arg)
                if vs and (f.parent is not None or f.name.startswith("_")):
                    vs = list(vs)
                    u = vs[0]
                    for v in vs[1:]:
                        u = join(u, v)
            self.env[x.arg] = u
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.env[x.arg] = None
        self.block(f.node.body)
        for k, v in self.env.items():
            self.final[k] = join(self.final[k], v) if k in self.final else v

    def ret(self):
        vs = [v for v in self.rets if v != "none"]
        if not vs:
            return None
        u = vs[0]
        for v in vs[1:]:
            u = join(u, v)
        return u

    # ---- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def branch(self, bodies):
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                outs.append(self.env)
            else:
                for k, v in self.env.items():
                    self.final[k] = join(self.final[k], v) if k in self.final else v
        if not outs:
            outs = [start]
        keys = set().union(*outs)
        env = {}
        for k in keys:
            vs = [o[k] for o in outs if k in o]
            u = vs[0]
            for v in vs[1:]:
                u = join(u, v)
            env[k] = u
        self.env = env

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.store(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            v = self.binop(s.op, self.ev(s.target), self.ev(s.value), s)
            self.store(s.target, v, s)
        elif isinstance(s, ast.Return):
            if s.value is None or (isinstance(s.value, ast.Constant) and s.value.value is None):
                self.rets.append("none")
            else:
                v = self.ev(s.value)
                self.rets.append(v)
                want = self.U.declared_return(self.f)
                if want:
                    self.U.count("results_documented")
                    for x in (v[1] if isinstance(v, tuple) and v[0] == "t" else (v,)):
                        if (want == "deg" and is_rad(x)) or (want == "rad" and flat(x) == "deg"):
                            self.U.add("returned", self.f, "result", f"returns {word(x)}, documented as {word(want)}", s)
                            break
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.branch([s.body, s.orelse])
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                pre = dict(self.env)
                self.store(s.target, self.elem(it, s.iter), s, quiet=True)
                self.block(s.body)
                for k in set(pre) & set(self.env):
                    self.env[k] = join(pre[k], self.env[k])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                pre = dict(self.env)
                self.ev(s.test)
                self.block(s.body)
                for k in set(pre) & set(self.env):
                    self.env[k] = join(pre[k], self.env[k])
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, None, s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            pre = dict(self.env)
            self.block(s.body)
            post = self.env
            merged = {k: (join(pre[k], post[k]) if k in pre and k in post else pre.get(k, post.get(k))) for k in set(pre) | set(post)}
            alts = [s.orelse] + [h.body for h in s.handlers]
            self.env = merged
            self.branch(alts)
            self.block(s.finalbody)
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.branch([c.body for c in s.cases] + [[]])
        elif isinstance(s, (ast.Assert,)):
            self.ev(s.test)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                pass
        elif isinstance(s, ast.Delete):
            pass

    def elem(self, it, e):
        if isinstance(it, tuple) and it[0] == "t":
            u = None
            for i, v in enumerate(it[1]):
                u = v if i == 0 else join(u, v)
            return u
        if isinstance(it, tuple) and it[0] == "zip":
            return ("t", it[1])
        return flat(it) if not const(it) else None

    def store(self, t, v, s, quiet=False):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.store(e.value, None, s)
                elif isinstance(v, tuple) and v[0] == "t":
                    self.store(e, v[1][i] if len(v[1]) == n else None, s, quiet)
                elif isinstance(v, tuple) and v[0] == "c":
                    self.store(e, None, s, quiet)
                else:
                    self.store(e, v if v in ("deg", "rad") else None, s, quiet)
        elif isinstance(t, ast.Attribute):
            want = by_name(t.attr)
            self.check_into("stored", t.attr, want, v, s, f"stores {word(v)} in {ast.unparse(t)}")
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                self.check_into("stored", t.slice.value, by_name(t.slice.value), v, s, f"stores {word(v)} in {ast.unparse(t)}")
            elif isinstance(t.value, ast.Name) and t.value.id in self.env:
                old = self.env[t.value.id]
                self.env[t.value.id] = v if old is None or const(old) and False else (join(old, v) if old in ("deg", "rad", "pi") else old)

    def check_into(self, rule, name, want, v, node, msg):
        if want is None:
            return
        self.U.count("places_of_known_unit")
        vs = v[1] if isinstance(v, tuple) and v[0] == "t" else (v,)
        for x in vs:
            if flat(x) in ("deg", "rad"):
                self.U.count("decided")
            if (want == "deg" and is_rad(x)) or (want == "rad" and flat(x) == "deg"):
                self.U.add(rule, self.f, name, f"{msg}, which is in {word(want)}", node)
                return

    # ---- expressions
    def ev(self, e):
        if e is None:
            return None
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return None

    def e_Constant(self, e):
        if isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return ("c", float(e.value))
        return None

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.outer:
            return self.outer[e.id]
        r = self.R.name(self.f, e.id)
        if r and r[0] == "ext" and r[1] in ("numpy.pi", "math.pi"):
            return "pi"
        return None

    def e_Attribute(self, e):
        d = dotted(e)
        if d:
            r = self.R.name(self.f, d)
            if r is not None:
                if r[0] == "ext" and r[1] in ("numpy.pi", "math.pi", "scipy.constants.pi"):
                    return "pi"
                if r[0] == "ext":
                    return None
        if e.attr in ("T", "data", "values", "flat", "real"):
            return self.ev(e.value)
        self.ev(e.value)
        cs = self.R.types(self.f, e.value)
        for c in cs:
            p = c.lookup(e.attr)
            if p and p[1] == "prop" and p[2].fget is not None:
                u = self.U.declared_return(p[2].fget)
                if u:
                    return u
                if by_name(e.attr) is None:
                    return None
        return by_name(e.attr)

    def e_Subscript(self, e):
        v = self.ev(e.value)
        self.ev(e.slice) if not isinstance(e.slice, ast.Constant) else None
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            return by_name(e.slice.value)
        if isinstance(v, tuple) and v[0] == "t":
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v[1]) <= e.slice.value < len(v[1]):
                return v[1][e.slice.value]
            return flat(v)
        return v if v in ("deg", "rad") else None

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            self.ev(x)

    def e_Tuple(self, e):
        return ("t", tuple(self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.elts)) if not any(isinstance(x, ast.Starred) for x in e.elts) else [self.ev(x) for x in e.elts] and None

    e_List = e_Tuple

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Dict(self, e):
        for k, v in zip(e.keys, e.values):
            x = self.ev(v)
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                self.check_into("stored", k.value, by_name(k.value), x, v, f"stores {word(x)} under '{k.value}'")
        return None

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub) and const(v):
            return ("c", -v[1])
        return v if isinstance(e.op, (ast.USub, ast.UAdd)) else None

    def e_IfExp(self, e):
        self.ev(e.test)
        return join(self.ev(e.body), self.ev(e.orelse))

    def e_BoolOp(self, e):
        vs = [self.ev(x) for x in e.values]
        u = vs[0]
        for v in vs[1:]:
            u = join(u, v)
        return u

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store(e.target, v, e)
        return v

    def e_Compare(self, e):
        left = self.ev(e.left)
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c)
            if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                self.mixed(left, r, e, "compares")
            left = r
        return None

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, ast.Div) and a is None and self.body_radius(e.right) and re.search(r"radius|distance|arc|dist|length", ast.unparse(e.left)):
            self.U.count("arcs_over_radius")
            return "rad"
        return self.binop(e.op, a, b, e)

    def body_radius(self, e, depth=0):
        """The radius of the target body, the surface or a region of it."""
        if isinstance(e, ast.Attribute) and e.attr == "radius":
            cs = self.R.types(self.f, e.value)
            return bool(cs) and all((c.is_subclass(self.U.bodies[0]) or c.is_subclass(self.U.bodies[1])) and not c.is_subclass(self.U.bodies[2]) for c in cs)
        if isinstance(e, ast.Name) and depth < 3:
            vs = self.R.scope(self.f).assigns.get(e.id, [])
            return len(vs) == 1 and self.body_radius(vs[0], depth + 1)
        return False

    def mixed(self, a, b, node, verb):
        a, b = flat(a), flat(b)
        bad = False
        if a in ("deg", "rad") or b in ("deg", "rad"):
            self.U.count("sums_and_comparisons")
        for x, y in ((a, b), (b, a)):
            if x == "deg" and y in ("rad", "pi"):
                bad = True
            if x == "rad" and const(y) and abs(y[1]) in CIRCLE:
                bad = True
        if bad:
            self.U.add("mixed", self.f, f"{word(a)} with {word(b)}", f"{verb} {word(a)} with {word(b)} in {ast.unparse(node)[:80]}", node)

    def binop(self, op, a, b, node):
        a, b = flat(a), flat(b)
        if isinstance(op, (ast.Add, ast.Sub)):
            self.mixed(a, b, node, "combines")
            if const(a) and const(b):
                return ("c", a[1] + b[1] if isinstance(op, ast.Add) else a[1] - b[1])
            for x in ("deg", "rad"):
                if a == x or b == x:
                    return x
            if a == "pi" and b == "pi":
                return "pi"
            if "pi" in (a, b) and ("upi",) in (a, b):
                return "rad"
            if "pi" in (a, b):
                return None
            return None
        if isinstance(op, ast.Mod):
            self.mixed(a, b, node, "takes the remainder of")
            return a if a in ("deg", "rad") else None
        if isinstance(op, (ast.Mult, ast.Div, ast.FloorDiv)):
            div = not isinstance(op, ast.Mult)
            if const(a) and const(b):
                if div and b[1] == 0:
                    return None
                return ("c", a[1] / b[1] if div else a[1] * b[1])
            if not div:
                for x, y in ((a, b), (b, a)):
                    if y in ("d2r", "r2d") and x in ("deg", "rad", "pi"):
                        self.converts("deg" if y == "d2r" else "rad", x, node)
                        return "rad" if y == "d2r" else "deg"
                    if y == "d2r" and const(x) or y == "d2r" and x is None:
                        return "rad" if x is None else "pi"
                    if y == "r2d" and x is None:
                        return "deg"
                    if x == "pi" and y == "deg":
                        return "degpi"
                    if x == "pi" and const(y):
                        return "pi"
                    if x == "pi" and y is None:
                        return ("upi",)
                    if x == "rad" and const(y) and y[1] == 180.0:
                        return ("rad180",)
                    if x in ("deg", "rad") and const(y):
                        return x
                return None
            if b in ("d2r", "r2d") and a in ("deg", "rad"):
                self.converts("rad" if b == "d2r" else "deg", a, node)
                return "deg" if b == "d2r" else "rad"
            if a == "pi" and const(b):
                return "d2r" if b[1] == 180.0 else "pi"
            if const(a) and b == "pi":
                return "r2d" if a[1] == 180.0 else None
            if a == "degpi" and const(b) and b[1] == 180.0:
                return "rad"
            if a == "deg" and const(b) and b[1] == 180.0:
                return ("turn",)
            if a == ("rad180",) and b == "pi":
                return "deg"
            if a in ("deg", "rad") and const(b):
                return a
            return None
        return None

    def converts(self, frm, v, node):
        self.U.count("conversions")
        v = flat(v)
        if frm == "deg" and v in ("rad", "pi") or frm == "rad" and v == "deg":
            self.U.add("converted", self.f, f"from {word(frm)}", f"converts {word(v)} as if in {word(frm)}: {ast.unparse(node)[:80]}", node)

    def e_Call(self, e):
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        d = dotted(fn)
        r = self.R.name(self.f, d) if d else None
        ext = r[1] if r and r[0] == "ext" else None
        mod = ext.rpartition(".")[0] if ext else ""
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        recv = self.ev(fn.value) if isinstance(fn, ast.Attribute) and not (ext and mod) else None
        starred = any(isinstance(a, ast.Starred) for a in e.args)
        if mod in MATHMOD:
            a0 = args[0] if args else None
            if name in ("radians", "deg2rad"):
                self.converts("deg", a0, e)
                return unpacked(a0, "rad")
            if name in ("degrees", "rad2deg"):
                self.converts("rad", a0, e)
                return unpacked(a0, "deg")
            if name in TRIG:
                self.U.count("trigonometric_calls")
                if flat(a0) == "deg":
                    self.U.add("trigonometry", self.f, name, f"{name} of degrees: {ast.unparse(e)[:80]}", e)
                return None
            if name in ARC:
                return "rad"
            if name in ("linspace", "arange"):
                if any(flat(x) in ("pi", "rad") for x in args):
                    if any(flat(x) == "deg" for x in args):
                        self.mixed("deg", "rad", e, "combines")
                    return "rad"
                if any(flat(x) == "deg" for x in args):
                    return "deg"
                if any(const(x) and abs(x[1]) in (180.0, 360.0) for x in args[:2]) and not all(const(x) and x[1] > 0 for x in args[:2]):
                    return "deg" if not (len(args) == 1) else None
                return None
            if name == "where" and len(args) == 3:
                return join(flat(args[1]), flat(args[2]))
            if name == "meshgrid":
                return ("t", tuple(flat(a) for a in args))
            if name == "unwrap":
                return "rad"
        if name == "zip" and ext == "zip":
            return ("zip", tuple(self.elem(a, None) for a in args))
        if name == "enumerate" and ext == "enumerate":
            return ("zip", (None, self.elem(args[0], None) if args else None))
        if name == "uniform":
            if any(flat(x) in ("pi",) for x in list(args) + list(kws.values())):
                return "rad"
            if any(flat(x) == "deg" or const(x) and abs(x[1]) == 360.0 for x in args[:2]):
                return "deg"
            return None
        if id(e) in self.U.nat:
            return self.native_call(e, self.U.nat[id(e)], args, kws)
        if name in ("fwd", "inv", "fwd_intermediate", "npts") and not starred and isinstance(fn, ast.Attribute):
            rad = kws.get("radians") is not None or any(k.arg == "radians" for k in e.keywords)
            if not rad:
                self.U.count("geodesic_calls")
                for i, a in enumerate(args[: 3 if name == "fwd" else 4]):
                    if is_rad(a):
                        self.U.add("argument", self.f, f"{name}|{i}", f"gives {word(a)} to {ast.unparse(fn)}, which takes degrees", e)
                return ("t", ("deg", "deg", "deg")) if name == "fwd" else ("t", ("deg", "deg", None)) if name == "inv" else None
        # calls within the package
        cands = self.R.callees(self.f, e)
        fs = []
        for k, it in cands:
            if k == "func":
                fs.append((it[0], it[0].name))
            elif k == "class":
                m = it.method("__init__")
                if m is not None:
                    fs.append((m, "__init__"))
        out, known = None, False
        for i, (g, _) in enumerate(fs):
            self.pass_args(e, g, args, kws, starred, i == 0)
        if fs and all(n != "__init__" for _, n in fs):
            vs = [self.U.summary(g) for g, _ in fs]
            out = vs[0]
            for v in vs[1:]:
                out = join(out, v)
            known = True
        if not fs:
            for k, v in kws.items():
                if k and by_name(k) is not None and k not in ("location", "locations"):
                    if mod.startswith(("numpy", "math", "pyvista", "matplotlib", "scipy")) or ext:
                        continue
                    self.check_into("argument", f"{name}|{k}", by_name(k), v, e, f"gives {word(v)} for '{k}' of {ast.unparse(fn)}")
        if known and out is None and fs and all(n in ("validate_and_normalize_location", "normalize_coords") for _, n in fs):
            return "deg"
        if known:
            return out
        if name in PRESERVE:
            if mod or ext:
                vs = [flat(a) for a in args if flat(a) is not None and not const(flat(a))]
                if name in ("full", "full_like", "repeat", "tile"):
                    return flat(args[1 if name.startswith("full") else 0]) if args else None
                if not args:
                    return None
                if name in ("tuple", "list", "asarray", "array", "sorted"):
                    return args[0] if not const(args[0]) else None
                if name in ("minimum", "maximum", "min", "max", "add", "subtract") and len(args) > 1:
                    self.mixed(args[0], args[1], e, "combines")
                us = set(vs)
                first = flat(args[0])
                if len(us) == 1 and (first in us or const(first)):
                    return first if first in ("deg", "rad") else us.pop()
                return None
            if isinstance(fn, ast.Attribute):
                return recv if recv in ("deg", "rad") or isinstance(recv, tuple) and recv[0] == "t" else None
        return None

    def native_call(self, e, name, args, kws):
        mod, _, fname = name.partition(".")
        N = self.U.native
        fn = N.py.get(mod, {}).get(N.exports.get(mod, {}).get(fname) or fname)
        if fn is None:
            return None
        names = [n for n, _ in fn.visible]
        given = dict(zip(names, args))
        given.update({k: v for k, v in kws.items() if k})
        for p, v in given.items():
            if re.match(r"(lon|lat)\d?(_v)?$|.*bearing", p):
                self.U.count("native_angles")
                if flat(v) == "deg":
                    self.U.add("argument", self.f, f"{fname}|{p}", f"gives degrees for {p} to the native {fname}, which computes in radians", e)
        if fname == "compute_bearings" or fname == "compute_location_from_distance_bearing":
            return "rad"
        if fname == "fit_rim":
            return ("t", ("deg", None, None, "rad"))
        return None

    def pass_args(self, e, g, args, kws, starred, record):
        names = g.params() if g.parent is None else [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        given = {}
        if not starred:
            given.update(zip(names, args))
        allp = {x.arg for x in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs}
        for k, v in kws.items():
            if k:
                given[k] = v
        rec = self.U.calls.setdefault(g.qual, {})
        for p in names:
            if p not in given and p in allp and starred:
                rec.setdefault(p, set()).add(None)
        for p, v in given.items():
            if p in allp:
                rec.setdefault(p, set()).add(flat(v) if not const(v) else v)
                want = self.U.param_unit(g, p)
            else:
                want = by_name(p)
            self.check_into("argument", f"{g.short}|{p}", want, v, e, f"gives {word(v)} for '{p}' of {g.short}")

    def comp(self, e, elt):
        saved = dict(self.env)
        for g in e.generators:
            it = self.ev(g.iter)
            self.store(g.target, self.elem(it, g.iter), e, quiet=True)
            for c in g.ifs:
                self.ev(c)
        v = [self.ev(x) for x in elt]
        self.env = saved
        return v

    def e_ListComp(self, e):
        v = flat(self.comp(e, [e.elt])[0])
        return v if v in ("deg", "rad") else None

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e):
        self.comp(e, [e.key, e.value])
        return None

    def e_Lambda(self, e):
        return None

    def e_JoinedStr(self, e):
        return None


def unpacked(a, u):
    if isinstance(a, tuple) and a[0] == "t":
        return ("t", tuple(u for _ in a[1]))
    if a == "pi":
        return u
    return u


def word(v):
    v = flat(v)
    if v == "deg":
        return "degrees"
    if v == "rad":
        return "radians"
    if v == "pi":
        return "a multiple of pi"
    if const(v):
        return f"{v[1]:g}"
    return "a value of unknown unit"


def check(prog, tier):
    res = Result()
    R = Resolver(prog)
    U = Units(prog, R, Native(prog.root if hasattr(prog, "root") else "/repo"), res)
    funcs = [f for f in prog.functions.values() if not isinstance(f.node, ast.Lambda)]
    for rnd in range(3):
        U.report = rnd == 2
        U.summ, U.finals = {}, {}
        U.prev_calls, U.calls = U.calls, {}
        for f in funcs:
            U.analyse(f)
    res.count("functions_analysed", len(funcs))
    res.require("trigonometric_calls", 10)
    res.require("conversions", 15)
    res.require("places_of_known_unit", 50)
    res.notes = ["unit inference for angles in every function of the package"]
    return res
