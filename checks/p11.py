"""P11: Python and native code agree at every crossing.

  unknown       the native function called is one the native module offers
  arguments     the call gives exactly the arguments the native function takes
  misplaced     no argument is given in the place of another one (longitude/latitude, face/node, one crater size for another)
  results       as many values are unpacked as are returned, and they are stored under the quantity they are
  attribute     every attribute and method the native side asks a Python object for is defined by the objects it is given
  native-field  the native side reads each quantity under its own name and hands it on in its own place
  number-type   arrays cast explicitly are cast to the number type the native side takes
"""
from __future__ import annotations

import ast
import re

from checks.p15 import Attrs, mismatch
from sa.model import dotted, own_nodes
from sa.report import Result
from sa.resolve import Resolver
from sa.rust import Native, balanced, split

PREFIX = "cratermaker.bindings."
SAME = {"radians", "deg2rad", "degrees", "rad2deg", "ravel", "asarray", "array", "atleast_1d", "ascontiguousarray", "astype", "copy", "flatten", "reshape",
        "float", "float64", "squeeze", "load", "item", "to_numpy", "validate_and_normalize_location"}
PAIR = re.compile(r"location|lonlat|coord")


def norm(n):
    n = n.strip("_")
    n = re.sub(r"_(v|py|arr|array|flat|rad|deg|radians|degrees)$", "", n)
    return n[:-1] if n.endswith("s") and not n.endswith("ss") else n


def chain(R, f, e, depth=0):
    """Names the value of an expression goes by, outermost first: the variable, what it was assigned, the attribute read."""
    out = []
    if depth > 6 or e is None:
        return out
    if isinstance(e, ast.Name):
        out.append(e.id)
        sc = R.scope(f)
        vs = sc.assigns.get(e.id, [])
        real = [v for v in vs if not isinstance(v, ast.Constant)]
        cand = [chain(R, f, v, depth + 1) for v in real if not any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v))]
        same = [v for v in real if any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v))]
        if len(cand) == 1 and all(wraps(v) for v in same):
            out += cand[0]
    elif isinstance(e, ast.Attribute):
        out.append(e.attr)
        if e.attr in ("data", "values", "T"):
            out += chain(R, f, e.value, depth + 1)
    elif isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if nm in SAME:
            if isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "math", "numpy")):
                out += chain(R, f, e.func.value, depth + 1)
            elif e.args:
                out += chain(R, f, e.args[0], depth + 1)
    elif isinstance(e, ast.Subscript):
        i = index(e.slice)
        base = chain(R, f, e.value, depth + 1)
        if i in (0, 1) and any(PAIR.search(b) for b in base):
            out.append("lon" if i == 0 else "lat")
        elif isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            out.append(e.slice.value)
        else:
            out += base if not isinstance(i, int) else []
    elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Div, ast.Mult)):
        out += chain(R, f, e.left, depth + 1) or chain(R, f, e.right, depth + 1)
    elif isinstance(e, ast.Starred):
        return []
    return out


def wraps(v):
    return isinstance(v, ast.Call) and ((isinstance(v.func, ast.Attribute) and v.func.attr in SAME) or (isinstance(v.func, ast.Name) and v.func.id in SAME))


def index(s):
    if isinstance(s, ast.Constant) and isinstance(s.value, int):
        return s.value
    if isinstance(s, ast.Tuple) and len(s.elts) == 2:
        a, b = s.elts
        if isinstance(b, ast.Constant) and isinstance(b.value, int) and isinstance(a, ast.Slice):
            return b.value
        if isinstance(a, ast.Constant) and a.value is Ellipsis and isinstance(b, ast.Constant):
            return b.value
    return None


def native_calls(R, prog):
    for f in prog.functions.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for k, it in R.callees(f, n):
                    if k == "ext" and it.startswith(PREFIX):
                        yield f, n, it[len(PREFIX):]
                        break


AXIS = ("lon", "lat")
CARTESIAN = ("x", "y", "z")


def role(name):
    """Which of a set of exclusive roles a name plays."""
    toks = re.split(r"[_\d]+", name.lower())
    for t in toks:
        if t in ("lon", "longitude", "lons", "longitudes"):
            return "lon"
        if t in ("lat", "latitude", "lats", "latitudes"):
            return "lat"
    if name.lower() in CARTESIAN or re.match(r"(face|node)_[xyz]$", name.lower()):
        return name.lower()[-1]
    return None


def kind(names):
    fk = {t for n in names for t in re.split(r"_", n) if t in ("face", "node")}
    return fk


def args_rules(res, R, f, call, fn):
    params = fn.visible
    names = [p for p, _ in params]
    given = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            return None
        if i >= len(names):
            res.add("arguments", f"{f.short}|{fn.name}|too many", f"{f.short} gives the native {fn.name} {len(call.args)} arguments, it takes {len(names)}", f.path, call.lineno)
            return None
        given[names[i]] = a
    star = any(k.arg is None for k in call.keywords)
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in names:
            res.add("arguments", f"{f.short}|{fn.name}|{k.arg}", f"{f.short} gives the native {fn.name} an argument {k.arg}, which it does not take ({fn.path}:{fn.line})", f.path, call.lineno)
            continue
        if k.arg in given:
            res.add("arguments", f"{f.short}|{fn.name}|{k.arg}", f"{f.short} gives the native {fn.name} {k.arg} twice", f.path, call.lineno)
        given[k.arg] = k.value
    if not star:
        for p in names:
            if p not in given and p not in fn.optional:
                res.add("arguments", f"{f.short}|{fn.name}|{p}", f"{f.short} gives the native {fn.name} no value for {p} ({fn.path}:{fn.line})", f.path, call.lineno)
    return given


def place_rules(res, R, f, call, fn, given):
    params = {norm(p): p for p, _ in fn.visible}
    mesh = {}
    for p, a in given.items():
        res.count("arguments")
        ch = chain(R, f, a)
        me = norm(p)
        hit = [norm(n) for n in ch]
        if not hit:
            continue
        other = [params[h] for h in hit if h in params and h != me]
        if me not in hit and other:
            res.add("misplaced", f"{f.short}|{fn.name}|{p}", f"{f.short} gives the native {fn.name} {ast.unparse(a)} for {p}, but that is its {other[0]}", f.path, call.lineno)
            continue
        rp = role(p)
        rs = [r for r in (role(n) for n in ch) if r]
        if rp and rs and rs[-1] != rp and (rp in AXIS) == (rs[-1] in AXIS):
            res.add("misplaced", f"{f.short}|{fn.name}|{p}", f"{f.short} gives the native {fn.name} {ast.unparse(a)} ({rs[-1]}) for {p}", f.path, call.lineno)
            continue
        conn = any("connectivity" in n for n in ch)
        if ("connectivity" in p) != conn and (conn or any(re.match(r"(face|node)_(lon|lat|[xyz]|area|elevation)$", n) for n in ch)):
            res.add("misplaced", f"{f.short}|{fn.name}|{p}", f"{f.short} gives the native {fn.name} {ast.unparse(a)} for {p}", f.path, call.lineno)
            continue
        k = kind(ch[-1:])
        if len(k) == 1:
            mesh[p] = next(iter(k))
        elif "connectivity" in ch[-1]:
            t = [x for x in ("face", "node") if f"_{x}_" in f"_{ch[-1].split('edge_')[-1]}"]
            if len(t) == 1:
                mesh[p] = t[0]
    for p, a in given.items():
        ch = chain(R, f, a)
        if ch and "connectivity" in ch[-1]:
            t = re.match(r"edge_(face|node)_connectivity", ch[-1])
            if t:
                mesh[p] = t.group(1)
    if len(set(mesh.values())) > 1:
        res.add("misplaced", f"{f.short}|{fn.name}|face/node", f"{f.short} mixes values of faces and nodes in one call of the native {fn.name}: " + ", ".join(f"{p}={ast.unparse(given[p])}" for p in mesh), f.path, call.lineno)


DT = {"float64": "f64", "float": "f64", "double": "f64", "float32": "f32", "int64": "i64", "int32": "i32", "uint32": "u32", "uint64": "u64", "int": "i64", "float16": "f16", "intp": "i64", "bool": "bool"}


def cast(R, f, e, depth=0):
    """Number type an expression was explicitly cast to last."""
    if depth > 5:
        return None
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        d = None
        if nm == "astype" and e.args:
            d = e.args[0]
        for k in e.keywords:
            if k.arg == "dtype":
                d = k.value
        if d is not None and (nm == "astype" or nm in ("array", "asarray", "zeros", "ones", "empty", "full", "zeros_like", "full_like", "ascontiguousarray", "arange", "fromiter")):
            t = d.value if isinstance(d, ast.Constant) else (dotted(d) or "").split(".")[-1]
            return DT.get(t)
        if nm in ("ravel", "flatten", "reshape", "copy", "squeeze", "atleast_1d", "ascontiguousarray", "asarray", "array"):
            if isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy")):
                return cast(R, f, e.func.value, depth + 1)
            return cast(R, f, e.args[0], depth + 1) if e.args else None
        return None
    if isinstance(e, ast.Name):
        vs = R.scope(f).assigns.get(e.id, [])
        ts = {cast(R, f, v, depth + 1) for v in vs}
        if e.id in R.scope(f).params:
            return None
        return ts.pop() if len(ts) == 1 else None
    return None


def roles_in_native(fn):
    """Returned tuple positions and the attribute each is stored under in the native code: Ok((a, b)) with x.attr = b."""
    ms = list(re.finditer(r"\bOk\s*\(\s*\(", fn.body))
    if not ms:
        return {}
    m = ms[-1]
    i = fn.body.index("(", m.start() + 2)
    i = fn.body.index("(", i + 1)
    names = [x.strip() for x in split(fn.body[i + 1:balanced(fn.body, i) - 1])]
    out = {}
    for k, v in enumerate(names):
        for g in re.finditer(rf"\b\w+\.(\w+)\s*=\s*{re.escape(v)}\b", fn.body):
            out[k] = g.group(1)
    return out


def result_rules(res, R, f, call, fn, parents):
    p = parents.get(call)
    n = fn.arity()
    if isinstance(p, ast.Assign) and p.value is call and len(p.targets) == 1 and isinstance(p.targets[0], (ast.Tuple, ast.List)):
        t = p.targets[0]
        res.count("unpacked_results")
        if not any(isinstance(x, ast.Starred) for x in t.elts) and n > 1 and len(t.elts) != n:
            res.add("results", f"{f.short}|{fn.name}", f"{f.short} unpacks {len(t.elts)} values from the native {fn.name}, which returns {n}", f.path, call.lineno)
            return
        roles = roles_in_native(fn)
        if not roles:
            return
        where = {}
        for k, x in enumerate(t.elts):
            if isinstance(x, ast.Attribute):
                where[k] = {x.attr}
            elif isinstance(x, ast.Name):
                where[k] = set()
                for y in own_nodes(f.node):
                    if isinstance(y, ast.Assign) and any(isinstance(z, ast.Attribute) for z in y.targets):
                        used = {z.id for z in ast.walk(y.value) if isinstance(z, ast.Name)}
                        if x.id in used and not any(w.id in used for j, w in enumerate(t.elts) if j != k and isinstance(w, ast.Name)):
                            where[k] |= {z.attr for z in y.targets if isinstance(z, ast.Attribute)}
        for k, attrs in where.items():
            for a in attrs:
                wrong = [j for j, r in roles.items() if r == a and j != k]
                if wrong:
                    res.add("results", f"{f.short}|{fn.name}|{a}", f"{f.short} stores value {k} of the native {fn.name} as {a}, which is its value {wrong[0]}", f.path, call.lineno)


def asked(native, fn):
    """(parameter, attribute or method, number of arguments or None, line) the native function asks of its Python objects."""
    out = []
    holders = {}
    for n, t in fn.visible:
        if "PyAny" in t:
            holders[n] = n
    # let x = y.getattr / aliases are not followed; only the parameters themselves and what they are re-bound to
    b = fn.raw
    for m in re.finditer(r"\b(\w+)\s*\.\s*getattr\(\s*\"(\w+)\"", b):
        out.append((m.group(1), m.group(2), None))
    for m in re.finditer(r"\b(\w+)\s*\.\s*call_method([01])\(\s*\"(\w+)\"\s*(,)?", b):
        k = 0
        if m.group(2) == "1":
            i = b.find("(", m.end())
            k = len(split(b[i + 1:balanced(b, i) - 1])) if i >= 0 else 0
        out.append((m.group(1), m.group(3), k))
    return [x for x in out if x[0] in dict(fn.visible)] + [x for x in out if x[0] == "region" and "region" not in dict(fn.visible)]


ARR = {"ravel", "asarray", "array", "atleast_1d", "ascontiguousarray", "concatenate", "zeros", "ones", "empty", "full", "linspace", "arange", "zeros_like", "full_like",
       "ones_like", "empty_like", "hstack", "vstack", "stack", "where", "unique", "flatten"}
KEEP = {"radians", "deg2rad", "degrees", "rad2deg", "abs", "sqrt", "copy", "astype", "squeeze"}
SCALAR = {"float", "int", "FloatLike", "bool", "integer", "floating"}


def of_ann(node):
    if node is None:
        return None
    t = ast.unparse(node).replace("'", "").replace('"', "")
    parts = {re.split(r"[\[.]", x.strip())[0] if "NDArray" in x or "np.ndarray" not in x else "ndarray" for x in t.split("|")} - {"None"}
    if parts and parts <= {"NDArray", "ndarray"}:
        return "array"
    if parts and parts <= SCALAR:
        return "scalar"
    return None


def shape(R, f, e, depth=0):
    """'object', 'array', 'scalar' when the kind of value is certain."""
    if depth > 6 or e is None:
        return None
    if R.types(f, e):
        return "object"
    if isinstance(e, ast.Constant):
        return "scalar" if isinstance(e.value, (int, float)) else None
    if isinstance(e, ast.Name):
        sc = R.scope(f)
        vs = sc.assigns.get(e.id, [])
        if not vs:
            return of_ann(sc.params.get(e.id))
        ks = {shape(R, f, v, depth + 1) for v in vs if not any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v))}
        return ks.pop() if len(ks) == 1 and e.id not in sc.params else None
    if isinstance(e, ast.Attribute):
        for c in R.types(f, e.value):
            r = c.lookup(e.attr)
            if r and r[1] == "prop" and r[2].fget is not None:
                return of_ann(r[2].fget.node.returns)
            for k in c.cmro():
                if e.attr in k.anns:
                    return of_ann(k.anns[e.attr])
        for c in R.P.classes.values():       # crater: delegated to its parts
            if c.name in ("CraterFixed", "CraterVariable", "MorphologyCraterFixed", "MorphologyCraterVariable") or c.name.endswith(("CraterFixed", "CraterVariable")):
                if any(t.name.endswith("Crater") for t in R.types(f, e.value)) and e.attr in c.anns:
                    return of_ann(c.anns[e.attr])
        return None
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        np_ = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy", "math")
        if np_ and nm in ARR:
            return "array"
        if nm in ("ravel", "flatten", "reshape") and not np_:
            return "array"
        if nm in ("integers", "uniform", "normal", "random") and isinstance(e.func, ast.Attribute) and "rng" in ast.unparse(e.func.value):
            return "array" if len(e.args) > 2 or any(k.arg == "size" for k in e.keywords) else "scalar"
        if nm in KEEP:
            if np_:
                return shape(R, f, e.args[0], depth + 1) if e.args else None
            return shape(R, f, e.func.value, depth + 1) if isinstance(e.func, ast.Attribute) else None
        if isinstance(e.func, ast.Name) and nm in ("float", "int", "len", "bool"):
            return "scalar"
        return None
    if isinstance(e, ast.BinOp):
        a, b = shape(R, f, e.left, depth + 1), shape(R, f, e.right, depth + 1)
        if "array" in (a, b):
            return "array"
        return "scalar" if a == b == "scalar" else None
    if isinstance(e, ast.Subscript):
        i = index(e.slice)
        if isinstance(e.slice, ast.Constant) and i is not None and any(PAIR.search(b) for b in chain(R, f, e.value)) and not any("locations" in b for b in chain(R, f, e.value)):
            return "scalar"
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            return "array"
    return None


def real_number(R, f, e):
    if isinstance(e, ast.Attribute):
        for c in R.types(f, e.value):
            r = c.lookup(e.attr)
            if r and r[1] == "prop" and r[2].fget is not None and r[2].fget.node.returns is not None:
                return "float" in ast.unparse(r[2].fget.node.returns).lower() and "int" not in ast.unparse(r[2].fget.node.returns)
        return shape(R, f, e) == "scalar" and e.attr.endswith(("diameter", "radius", "depth", "height", "width"))
    return isinstance(e, ast.Constant) and isinstance(e.value, float)


def native_shape(t):
    if "PyReadonlyArray" in t:
        return "array"
    if "PyAny" in t or re.fullmatch(r"&?\w*Crater", t):
        return "object"
    return "scalar" if re.fullmatch(r"f64|f32|[ui](8|16|32|64|size)|bool", t) else None


class FakeCall:
    def __init__(self, k):
        self.args = [ast.Constant(value=0)] * k
        self.keywords = []


def native_side(res, prog, native, R):
    A = Attrs(prog, R)
    cls = {c.name: c for c in prog.classes.values()}
    local, surf, crater = cls.get("LocalSurface"), cls.get("Surface"), cls.get("Crater")
    for m, fs in native.py.items():
        for fn in fs.values():
            for who, attr, k in asked(native, fn):
                c = {"region": local, "surface": surf, "obj": local}.get(who)
                if c is None:
                    continue
                res.count("native_requests")
                r = c.lookup(attr)
                if not A.has(c, attr) and not (r and r[1]):
                    res.add("attribute", f"{fn.name}|{attr}", f"the native {fn.name} asks its {who} for {attr}, which a {c.name} does not have", fn.path, fn.line)
                elif k is not None and c.method(attr) is not None:
                    pr = mismatch(c.method(attr), True, FakeCall(k))
                    if pr:
                        res.add("attribute", f"{fn.name}|{attr}()", f"the native {fn.name} calls {attr} of its {who} with {pr}", fn.path, fn.line)
    # structures filled from Python objects
    for (mod, name), (fields, path, line) in native.structs.items():
        c = crater if name == "Crater" else None
        if c is None:
            continue
        for fl, t in fields:
            res.count("native_requests")
            if not A.has(c, fl) or not crater_has(A, prog, fl):
                res.add("attribute", f"{name}|{fl}", f"the native {name} reads {fl} of a crater, which it does not have", path, line)
    # LocalSurface: from_local_surface
    for p in native.files:
        raw = p.read_text()
        rel = str(p.relative_to(native.root))
        for m in re.finditer(r"\bobj\s*\.\s*getattr\(\s*\"(\w+)\"\s*\)|getattr_optional\(\s*obj\s*,\s*\"(\w+)\"\s*\)", raw):
            a = m.group(1) or m.group(2)
            res.count("native_requests")
            line = raw.count("\n", 0, m.start()) + 1
            if local is not None and not A.has(local, a):
                res.add("attribute", f"LocalSurface|{a}", f"the native side reads {a} of a local surface, which it does not have", rel, line)
            before = re.search(r"(\w+)\s*:\s*(?:[\w:]+\()?\s*$", raw[max(0, m.start() - 60):m.start()])
            if before and before.group(1) != a and not before.group(1).endswith("_obj"):
                res.add("native-field", f"{before.group(1)}|{a}", f"the native side fills {before.group(1)} from the attribute {a}", rel, line)
        from sa.rust import strip
        s = strip(raw)
        for m in re.finditer(r"\b(\w+)\s*:\s*self\.(\w+)\s*(?:\.as_ref\(\)\.map\([^)]*\)\s*\)?|\.as_array\(\))?\s*,", s):
            res.count("native_fields")
            if m.group(1) != m.group(2):
                res.add("native-field", f"{m.group(1)}|{m.group(2)}", f"the native side fills {m.group(1)} from {m.group(2)}", rel, s.count("\n", 0, m.start()) + 1)
    # hand-over from the bindings to the numerical functions
    for m, fs in native.py.items():
        for fn in fs.values():
            for g in re.finditer(r"cratermaker_components::(?:\w+::)*(\w+)::(\w+)\s*\(", fn.body):
                core = native.core.get((g.group(1), g.group(2)))
                if core is None:
                    continue
                i = g.end() - 1
                args = [re.sub(r"^[&\s]*(mut\s+)?", "", x) for x in split(fn.body[i + 1:balanced(fn.body, i) - 1])]
                names = [norm(p) for p, _ in core.params]
                res.count("native_handovers")
                if len(args) != len(names):
                    res.add("native-field", f"{fn.name}|{core.name}", f"the native {fn.name} hands {len(args)} values to {core.name}, which takes {len(names)}", fn.path, fn.line)
                    continue
                for p, a in zip(names, args):
                    a = re.sub(r"\.as_array\(\)|\.clone\(\)|\.view\(\)|\?$", "", a)
                    if re.fullmatch(r"\w+", a) and norm(a) != p and norm(a) in names:
                        res.add("native-field", f"{fn.name}|{core.name}|{p}", f"the native {fn.name} hands its {a} to {core.name} as {p}", fn.path, fn.line)


def crater_has(A, prog, a):
    """Crater delegates to its fixed and variable parts: the attribute must be a field or property of one of them."""
    out = set()
    for c in prog.classes.values():
        if c.name in ("Crater", "CraterFixed", "CraterVariable"):
            out |= A.defined(c)[0]
    return a in out


def check(prog, tier):
    res = Result()
    R = Resolver(prog)
    native = Native(prog.root)
    parents = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
    for f, call, name in native_calls(R, prog):
        res.count("native_calls")
        mod, _, fname = name.partition(".")
        src = native.exports.get(mod, {}).get(fname)
        fn = native.py.get(mod, {}).get(src or fname)
        if src is None or fn is None:
            res.add("unknown", f"{f.short}|{name}", f"{f.short} calls the native {name}, which the native module does not offer", f.path, call.lineno)
            continue
        given = args_rules(res, R, f, call, fn)
        if given is not None:
            place_rules(res, R, f, call, fn, given)
            types = dict(fn.visible)
            for p, a in given.items():
                want, have = native_shape(types[p]), shape(R, f, a)
                if have:
                    res.count("kinds_known")
                if want and have and want != have:
                    res.add("misplaced", f"{f.short}|{fn.name}|{p}", f"{f.short} gives the native {fn.name} {ast.unparse(a)} ({have}) for {p}, which takes {types[p]}", f.path, call.lineno)
                if re.fullmatch(r"[ui]\d+", types[p]) and real_number(R, f, a):
                    res.add("misplaced", f"{f.short}|{fn.name}|{p}", f"{f.short} gives the native {fn.name} {ast.unparse(a)} (a real number) for {p}, which takes {types[p]}", f.path, call.lineno)
                if want == "object" and have == "object":
                    cs = {c.name for c in R.types(f, a)}
                    iscr = any(x.endswith("Crater") for x in cs)
                    if iscr != bool(re.search(r"Crater", types[p])):
                        res.add("misplaced", f"{f.short}|{fn.name}|{p}", f"{f.short} gives the native {fn.name} {ast.unparse(a)} (a {sorted(cs)[0]}) for {p}", f.path, call.lineno)
                t = re.match(r"PyReadonlyArray\w*<'\w*,\s*(\w+)>", types[p])
                c = cast(R, f, a)
                if t and c and c != t.group(1):
                    res.add("number-type", f"{f.short}|{fn.name}|{p}", f"{f.short} gives the native {fn.name} an array of {c} for {p}, it takes {t.group(1)}", f.path, call.lineno)
        result_rules(res, R, f, call, fn, parents)
    native_side(res, prog, native, R)
    res.require("native_calls", 5)
    res.require("native_requests", 30)
    res.notes = ["every call from Python into the native modules against the signatures in crates/, and every request of the native code to Python objects against the classes of the package"]
    return res
