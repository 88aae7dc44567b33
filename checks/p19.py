"""P19: a crater records what it was asked for, its sizes agree, its identity is determined by its fixed properties, and these never change.

Abstract clients make craters from every kind of size, with the other properties given or not, and from other craters; all quantities
are symbols and the arithmetic is kept as monomials over them, the scaling relations and the projectile being opaque functions.

  recorded   each fixed property handed to the crater is the one given, or the one that follows from it
  measured   each measured property is the one given, or starts out as the fixed one
  identity   the identity number is computed from every fixed property, unrounded, and from nothing else
  copy       a crater made from another keeps what was not given anew
  kept       the crater object holds what it was handed, and derived sizes follow from the stored ones
  fixed      no fixed property can be assigned, and no code goes round that
"""
from __future__ import annotations

import ast

from sa import algebra as A
from sa.model import dotted, own_nodes
from sa.probe import ProbeHooks, run_probe
from sa.report import Result
from sa.values import V, const, top, typ

PI = 3.141592653589793
ONE = {"projectile_to_transient": "TP", "transient_to_projectile": "PJ"}
TWO = {"final_to_transient": "FT", "transient_to_final": "TF"}
LABEL = {"TP": "transient_diameter", "FT": "transient_diameter", "PJ": "projectile_diameter", "TF": "semimajor_axis"}
FIXED = ["semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_mass",
         "projectile_velocity", "projectile_angle", "location", "time"]
PROJ = {"velocity": "projectile_velocity", "mass": "projectile_mass", "angle": "projectile_angle", "direction": "orientation", "location": "location", "density": "projectile_density"}
LOSSY = {"round", "int", "floor", "ceil", "rint", "around", "trunc"}


def fl(name, label=None):
    return typ("float", sym=name).not_none().add_lab(label or name)


def fn(tag, p):
    """The value of an opaque relation."""
    return A.atom((tag, A.sym_of(p)))


def val(p, like, *labels):
    v = V("typ", "float", frozenset().union(*[x.lab for x in like]), A.sym_of(p), mn=False)
    for x in labels:
        v = v.add_lab(x)
    return v


class Make(ProbeHooks):
    """Opaque scaling relations and projectile; records what reaches the constructor."""

    def __init__(self, stop=True):
        super().__init__(set())
        self.stop = stop
        self.problems = []

    def inline(self, I, func, depth):
        return not (func.cls is not None and func.cls.name in ("Target", "Projectile", "Scaling"))

    def on_binop(self, I, st, node, op, l, r, res):
        if res.k == "const":
            return res
        a, b = A.of(l), A.of(r)
        p = None
        if a is not None and b is not None:
            if isinstance(op, ast.Add):
                p = A.add(a, b)
            elif isinstance(op, ast.Sub):
                p = A.add(a, b, -1.0)
            elif isinstance(op, ast.Mult):
                p = A.mul(a, b)
            elif isinstance(op, ast.Div):
                p = A.div(a, b)
            elif isinstance(op, ast.Pow) and (not b or set(b) == {()}):
                p = A.power(a, b.get((), 0.0))
            elif isinstance(op, ast.Mod):
                p = A.atom(("mod", A.sym_of(a), A.sym_of(b)))
        if p is None or len(p) > 8:
            return V(res.k, res.c, res.lab | l.lab | r.lab, ("join", "unknown"), res.items, res.num, res.oid, res.mn) if res.k in ("top", "typ", "num") else res
        return V("typ", "float", res.lab | l.lab | r.lab, A.sym_of(p), mn=False)

    def rec(self, st, ev):
        s = st.copy()
        s.mon = (s.mon or ()) + (ev,)
        return s

    def projectile(self, kw, base=None):
        given = dict(base or ())
        given.update({k: v for k, v in kw.items() if k in PROJ and isinstance(v, V) and not (v.k == "const" and v.c is None)})
        return V("typ", "PROJECTILE", sym=("projectile",), items=tuple(sorted(given.items())), mn=False)

    def on_attr_read(self, I, st, node, o, attr):
        if o.k == "typ" and o.c == "PROJECTILE":
            g = dict(o.items or ())
            if attr in g:
                v = g[attr]
                if attr in ("direction",):
                    return v
                return v
            if attr == "location":
                return V("seq", "tuple", items=(fl("P.lon", "location"), fl("P.lat", "location")), mn=False)
            if attr in ("velocity", "vertical_velocity", "angle", "direction", "density", "mass"):
                lab = PROJ.get(attr, "projectile_velocity")
                return fl("P." + attr, "projectile_mass" if attr == "density" else lab)
            return fl("P." + attr, "P")
        if o.k == "typ" and o.c == "SCALING":
            if attr == "projectile":
                return o.items[0] if o.items else top(sym=("projectile",), mn=False)
            return top(sym=("scaling", attr), mn=False)
        if o.k == "obj" and (o.oid, attr) not in st.heap and not o.c.lookup(attr) and any(k[0] == o.oid for k in st.heap if isinstance(k, tuple)):
            g = o.c.lookup("__getattr__")
            if g and g[1] == "method" and not (attr.startswith("__") or attr in ("_fixed", "_var")):
                return I.call_func(g[2], [const(attr)], {}, node, st, self_v=o)
        return None

    def on_compare(self, I, st, node, op, l, r, truth):
        if isinstance(op, (ast.Eq, ast.NotEq)) and truth == isinstance(op, ast.Eq):
            a, b = A.of(l), A.of(r)
            if {l.k, r.k} == {"const", "typ"} and any(x.k == "const" and isinstance(x.c, str) for x in (l, r)) and any(x.c == "float" for x in (l, r)) or a and b and not A.same(a, b) and any(a) and any(b):
                st.mon = (st.mon or ()) + (("coincidence",),)

    def on_call(self, I, st, node, fv, pos, kw, star):
        f = node.func
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if n in ONE and pos:
            p = A.of(pos[0])
            return [(val(fn(ONE[n], p), pos[:1], LABEL[ONE[n]]) if p is not None else typ("float", sym=("join", n)), st)]
        if n in TWO and pos:
            p = A.of(pos[0])
            if p is None:
                return [(V("seq", "tuple", items=(typ("float", sym=("join", n)), typ("str", sym=("join", "mt"))), mn=False), st)]
            v = val(fn(TWO[n], p), pos[:1], LABEL[TWO[n]])
            return [(V("seq", "tuple", items=(v, V("typ", "str", sym=("MT", TWO[n], A.sym_of(p)), mn=False)), mn=False), st)]
        if n == "new_projectile":
            o = f.value
            base = None
            for v, s in I.ev(o, st):
                if v.k == "typ" and v.c == "PROJECTILE":
                    base = v.items
            return [(self.projectile(kw, base), st)]
        if n == "maker" and fv.k in ("fn", "bound") and fv.c.cls is not None and fv.c.cls.name in ("Target", "Projectile", "Scaling"):
            c = fv.c.cls.name
            if c == "Projectile":
                return [(self.projectile(kw), st)]
            if c == "Scaling":
                p = kw.get("projectile")
                return [(V("typ", "SCALING", sym=("scaling",), items=(p,) if p is not None else (), mn=False), st)]
            return [(top(sym=("target",), mn=False), st)]
        if n == "recompute":
            return [(const(None), st)]
        if fv.k == "cls" and fv.c.name == "CratermakerBase":
            return [(top(sym=("base",), mn=False), st)]
        if n == "vars" and isinstance(f, ast.Name):
            return [(V("dict", None, sym=("common",), items=tuple((k, top(sym=("common", k), mn=False)) for k in ("simdir", "rng", "rng_seed", "rng_state")), mn=False), st)]
        if fv.k == "cls" and self.stop and any(c.name == "Crater" for c in fv.c.cmro()) and I.fr.func.name != "client":
            return [(top(sym=("crater",), mn=False), self.rec(st, ("made", tuple(kw.items()))))]
        if fv.k not in ("fn", "bound", "cls"):
            if n == "sqrt" and len(pos) == 1:
                p = A.of(pos[0])
                q = A.power(p, 0.5) if p is not None else None
                return [(V("typ", "float", pos[0].lab, A.sym_of(q) if q is not None else ("join", "sqrt"), mn=False), st)]
            if n in ("cbrt",) and len(pos) == 1:
                p = A.of(pos[0])
                q = A.power(p, 1 / 3) if p is not None else None
                return [(V("typ", "float", pos[0].lab, A.sym_of(q) if q is not None else ("join", "cbrt"), mn=False), st)]
            if n in ("radians", "deg2rad", "sin") and len(pos) == 1 and A.of(pos[0]) is not None:
                return [(V("typ", "float", pos[0].lab, ("sin" if n == "sin" else "rad", A.sym_of(A.of(pos[0]))), mn=False), st)]
            if n in ("float", "float64", "abs") and len(pos) == 1 and pos[0].k == "typ":
                return [(V("typ", "float", pos[0].lab, pos[0].sym, mn=False), st)]
            if n in LOSSY and len(pos) >= 1 and pos[0].lab and pos[0].k != "const" and A.of(pos[0]) is not None and pos[0].c in ("float", None):
                return [(V("typ", "float", pos[0].lab | {"rounded"}, ("join", n), mn=False), st)]
        return super().on_call(I, st, node, fv, pos, kw, star)


IMPORT = "from cratermaker import Crater\n"


def location(a="lon", b="lat"):
    return V("seq", "tuple", items=(fl(a, "location"), fl(b, "location")), mn=False)


def derive(kind, D=None, rho="rho"):
    """The fixed sizes that follow from a size asked for: semimajor, semiminor, transient, projectile diameter."""
    half = A.num(0.5)
    if kind in ("diameter", "radius", "final_diameter", "final_radius"):
        a = A.mul(D, half) if kind.endswith("diameter") else D
        t = fn("FT", A.mul(a, A.num(2)))
        return a, a, t, fn("PJ", t)
    if kind in ("transient_diameter", "transient_radius"):
        t = D if kind.endswith("diameter") else A.mul(D, A.num(2))
        a = A.mul(fn("TF", t), half)
        return a, a, t, fn("PJ", t)
    if kind in ("projectile_diameter", "projectile_radius", "projectile_mass"):
        if kind == "projectile_mass":
            p = A.mul(A.power(A.mul(D, A.num(3.0 / (4.0 * PI))), 1 / 3), A.mul(A.power(A.atom(rho), -1 / 3), A.num(2)))
        else:
            p = D if kind.endswith("diameter") else A.mul(D, A.num(2))
        t = fn("TP", p)
        a = A.mul(fn("TF", t), half)
        return a, a, t, p


def rename(p, old, new):
    """Replace a symbol by another, within opaque terms too."""
    def go(x):
        if x == old:
            return new
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return {tuple(sorted(((go(a), e) for a, e in m), key=repr)): c for m, c in p.items()}


SIZES = ["diameter", "radius", "final_diameter", "final_radius", "transient_diameter", "transient_radius", "projectile_diameter", "projectile_radius", "projectile_mass"]


def expect_sizes(kind, rho):
    a, b, t, p = derive(kind, A.atom("S"), rho) if kind != "axes" else (None,) * 4
    if kind == "axes":
        a, b = A.atom("A"), A.atom("B")
        t = fn("FT", A.mul(A.power(A.mul(a, b), 0.5), A.num(2)))
        p = fn("PJ", t)
    m = A.mul(A.mul(A.power(A.mul(p, A.num(0.5)), 3), A.num(4.0 / 3.0 * PI)), A.atom(rho))
    out = {"semimajor_axis": a, "semiminor_axis": b, "transient_diameter": t, "projectile_diameter": p, "projectile_mass": m}
    return out


def cases(tier):
    out = []
    base = {"location": location()}
    full = {"location": location(), "projectile_velocity": fl("vel"), "projectile_angle": fl("ang"), "time": fl("time"), "orientation": fl("dir"), "projectile_density": fl("rho")}
    for k in SIZES:
        for extra in (base, full):
            out.append((k, {k: fl("S", "size"), **extra}))
    out.append(("axes", {"semimajor_axis": fl("A", "size"), "semiminor_axis": fl("B", "size"), **full}))
    out.append(("axes", {"semimajor_axis": fl("A", "size"), "semiminor_axis": fl("B", "size"), **base}))
    out.append(("radius", {"semimajor_axis": fl("S", "size"), **full}))
    out.append(("radius", {"semiminor_axis": fl("S", "size"), **full}))
    d = {"diameter": fl("S", "size"), **full}
    nm = {"name": V("typ", "str", frozenset({"name"}), "name", mn=False)}
    for m in ("measured_diameter", "measured_radius", "measured_semimajor_axis", "measured_semiminor_axis"):
        out.append(("diameter", {**d, m: fl("M", m)}))
    out.append(("diameter", {**d, "measured_semimajor_axis": fl("MA", "measured"), "measured_semiminor_axis": fl("MB", "measured")}))
    out.append(("diameter", {**d, "measured_location": V("seq", "tuple", items=(fl("mlon", "measured_location"), fl("mlat", "measured_location")), mn=False),
                             "measured_orientation": fl("mdir", "measured_orientation")}))
    out.append(("diameter", {**d, **nm, "measured_rim_height": fl("rim", "measured_rim_height"), "measured_floor_depth": fl("floor", "measured_floor_depth"), "degradation_state": fl("deg", "degradation_state")}))
    out.append(("diameter", {**d, "production_time": fl("ptime", "production_time"), "production_sequence": V("typ", "int", frozenset({"production_sequence"}), "pseq", mn=False)}))
    lon = {k: v for k, v in d.items() if k != "location"}
    out.append(("diameter", {**lon, "longitude": fl("lon", "location"), "latitude": fl("lat", "location")}))
    out.append(("diameter", {**lon, "projectile_location": location()}))
    pd = {k: v for k, v in d.items() if k != "orientation"}
    out.append(("diameter", {**pd, "projectile_direction": fl("dir", "orientation")}))
    out.append(("diameter", {"diameter": fl("S", "size"), "location": location(), "projectile_velocity": fl("vel")}))
    out.append(("diameter", {"diameter": fl("S", "size"), "location": location(), "projectile_angle": fl("ang")}))
    return out


def expected(kind, given):
    """name -> algebraic value (or tuple of them) that the crater must be handed."""
    e = dict(expect_sizes(kind, "rho" if "projectile_density" in given else "P.density"))
    at = A.atom
    e["projectile_velocity"] = at("vel" if "projectile_velocity" in given else "P.velocity")
    e["projectile_angle"] = at("ang" if "projectile_angle" in given else "P.angle")
    e["orientation"] = at("dir" if "orientation" in given or "projectile_direction" in given else "P.direction")
    e["location"] = (at("lon"), at("lat"))
    e["time"] = at("time") if "time" in given else None
    a, b = e["semimajor_axis"], e["semiminor_axis"]
    if "measured_diameter" in given:
        a = b = A.mul(at("M"), A.num(0.5))
    elif "measured_semimajor_axis" in given and "measured_semiminor_axis" in given:
        a, b = at("MA"), at("MB")
    elif any(k in given for k in ("measured_radius", "measured_semimajor_axis", "measured_semiminor_axis")):
        a = b = at("M")
    e["measured_semimajor_axis"], e["measured_semiminor_axis"] = a, b
    e["measured_orientation"] = at("mdir") if "measured_orientation" in given else e["orientation"]
    e["measured_location"] = (at("mlon"), at("mlat")) if "measured_location" in given else e["location"]
    for k, s in (("measured_rim_height", "rim"), ("measured_floor_depth", "floor"), ("degradation_state", "deg"), ("production_time", "ptime"), ("production_sequence", "pseq"), ("name", "name")):
        if k in given:
            e[k] = at(s)
    return e


def got_value(v):
    if v is None or (v.k == "const" and v.c is None):
        return None
    if v.k == "seq" and v.items is not None and v.items:
        t = tuple(A.of(x) for x in v.items)
        return t if all(x is not None for x in t) else "unknown"
    if v.k == "typ" and v.c == "str" and isinstance(v.sym, tuple) and v.sym[:1] == ("str",):
        return A.atom(v.sym[1])
    p = A.of(v)
    return p if p is not None else "unknown"


def agree(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(A.same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return A.same(a, b)
    return a is None and b is None


NAMES = {"S": "the size given", "vel": "the velocity given", "ang": "the angle given", "rho": "the density given", "dir": "the orientation given", "time": "the time given",
         "FT": "transient(final)", "TF": "final(transient)", "PJ": "projectile(transient)", "TP": "transient(projectile)"}


def nm(a):
    if isinstance(a, tuple) and len(a) == 2 and a[0] in NAMES:
        return f"{NAMES[a[0]]}[{A.show(A.of_sym(a[1]), nm)}]"
    return NAMES.get(a, str(a)) if isinstance(a, str) else str(a)[:50]


def show(x):
    if isinstance(x, tuple):
        return "(" + ", ".join(A.show(y, nm) for y in x) + ")"
    return "nothing" if x is None else x if isinstance(x, str) else A.show(x, nm)


def made(outs):
    for k, v, s in outs:
        if ("coincidence",) in (s.mon or ()):
            continue  # two different quantities that happen to be equal: either branch is right
        for e in s.mon or ():
            if e[0] == "made":
                yield k, dict(e[1])
                break


def creation(prog, res):
    f = prog.cls("Crater").lookup("maker")[2]
    where = (f.path, f.node.lineno)
    for kind, given in cases(res):
        label = ", ".join(given)
        src = IMPORT + f"def client({', '.join(given)}):\n    return Crater.maker({', '.join(f'{k}={k}' for k in given)})\n"
        outs, I = run_probe(prog, src, given, hooks=Make(), mon=(), cap=200, budget=120000, max_depth=20)
        if outs is None:
            res.count("undecided")
            continue
        exp = expected(kind, given)
        n = 0
        for k, kw in made(outs):
            n += 1
            for p, want in exp.items():
                have = got_value(kw.get(p))
                if have == "unknown":
                    res.count("values_undecided")
                    continue
                res.count("values_decided")
                if not agree(have, want):
                    rule = "measured" if p.startswith("measured") else "recorded"
                    res.add(rule, f"{f.short}|{p}", f"{f.short} given {label} records {p} = {show(have)} instead of {show(want)}", *where)
            identity(res, f, kw, label, where)
        if n:
            res.count("requests_followed")
        elif outs and all(k == "raise" for k, v, s in outs):
            res.add("recorded", f"{f.short}|refused", f"{f.short} given {label} is always refused", *where)
        else:
            res.count("undecided")


def identity(res, f, kw, label, where):
    i = kw.get("id")
    if i is None or (i.k == "const" and i.c is None):
        res.add("identity", f"{f.short}|none", f"{f.short} given {label} leaves the crater without an identity", *where)
        return
    res.count("identities_followed")
    labs = i.lab
    for p in FIXED:
        v = kw.get(p)
        if v is None or v.k == "const":
            continue
        need = v.lab if v.k != "seq" else frozenset().union(*[x.lab for x in v.items])
        if need and not (need - {"given"}) <= labs:
            res.add("identity", f"{f.short}|{p}", f"{f.short} given {label}: the identity does not depend on {p}: two craters that differ in it are the same", *where)
    allowed = frozenset().union(*[(kw[p].lab if kw[p].k != "seq" else frozenset().union(*[x.lab for x in kw[p].items])) for p in FIXED if p in kw])
    extra = labs - allowed - {"given", "rounded"}
    if extra:
        res.add("identity", f"{f.short}|extra", f"{f.short} given {label}: the identity depends on {', '.join(sorted(extra))}, which is no fixed property", *where)
    if "rounded" in labs:
        res.add("identity", f"{f.short}|rounded", f"{f.short} given {label}: the identity is computed from rounded values, so that different craters get the same", *where)


CFIX = ["semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_mass", "projectile_velocity", "projectile_angle", "time"]
CVAR = ["measured_semimajor_axis", "measured_semiminor_axis", "measured_orientation", "measured_rim_height", "measured_floor_depth", "degradation_state"]


def old_crater(round_one=True):
    """An existing crater of which every property is a symbol."""
    h = {("c", "_fixed"): None, ("c", "_var"): None}
    for k in CFIX:
        h[("cf", k)] = fl("c." + k, k)
    h[("cf", "location")] = V("seq", "tuple", items=(fl("c.lon", "location"), fl("c.lat", "location")), sym="c.location", mn=False)
    h[("cf", "morphology_type")] = V("typ", "str", sym="c.morphology_type", mn=False)
    h[("cf", "id")] = V("typ", "int", sym="c.id", mn=False)
    r = A.power(A.mul(A.atom("c.semimajor_axis"), A.atom("c.semiminor_axis")), 0.5)
    lab = frozenset({"semimajor_axis", "semiminor_axis"})

    def d(p, *l):
        return V("typ", "float", frozenset(l), A.sym_of(p), mn=False)
    h[("cf", "radius")] = d(r, *lab)
    h[("cf", "diameter")] = d(A.mul(r, A.num(2)), *lab)
    h[("cf", "transient_radius")] = d(A.mul(A.atom("c.transient_diameter"), A.num(0.5)), "transient_diameter")
    h[("cf", "projectile_radius")] = d(A.mul(A.atom("c.projectile_diameter"), A.num(0.5)), "projectile_diameter")
    h[("cf", "projectile_density")] = d(A.mul(A.mul(A.atom("c.projectile_mass"), A.power(A.atom("c.projectile_diameter"), -3)), A.num(6 / PI)), "projectile_mass", "projectile_diameter")
    h[("cf", "projectile_vertical_velocity")] = fl("c.vertical_velocity", "projectile_velocity")
    h[("cf", "projectile_direction")] = fl("c.orientation", "orientation")
    for k in CVAR:
        h[("cv", "_" + k)] = fl("c." + k, k)
    if round_one:
        h[("cv", "_measured_semiminor_axis")] = fl("c.measured_semimajor_axis", "measured_semimajor_axis")
    h[("cv", "_measured_location")] = V("seq", "tuple", items=(fl("c.mlon", "measured_location"), fl("c.mlat", "measured_location")), sym="c.mloc", mn=False)
    h[("cv", "_measured_radius")] = const(None)
    h[("cv", "_production_time")] = V("seq", "tuple", items=(fl("c.t0", "p"), fl("c.t1", "p")), sym="c.pt", mn=False)
    h[("cv", "_production_ND")] = const(None)
    h[("cv", "_production_sequence")] = V("typ", "int", sym="c.pseq", mn=False)
    h[("cv", "_name")] = V("typ", "str", frozenset({"name"}), "c.name", mn=False)
    return h


def kept_of_old(round_one):
    at = A.atom
    e = {k: at("c." + k) for k in CFIX + CVAR}
    if round_one:
        e["measured_semiminor_axis"] = at("c.measured_semimajor_axis")
    e["location"] = (at("c.lon"), at("c.lat"))
    e["measured_location"] = (at("c.mlon"), at("c.mlat"))
    e["production_time"] = (at("c.t0"), at("c.t1"))
    e["production_sequence"] = at("c.pseq")
    e["name"] = at("c.name")
    return e


def copies():
    at = A.atom
    M = {"measured_semimajor_axis": at("M"), "measured_semiminor_axis": at("M")}
    out = [({}, {})]
    out.append(({"name": V("typ", "str", frozenset({"name"}), "name", mn=False)}, {"name": at("name")}))
    out.append(({"location": location()}, {"location": (at("lon"), at("lat"))}))
    for k in ("time", "projectile_velocity", "projectile_angle"):
        out.append(({k: fl("X", k)}, {k: at("X")}))
    out.append(({"orientation": fl("X", "orientation")}, {"orientation": at("X")}))
    out.append(({"projectile_direction": fl("X", "orientation")}, {"orientation": at("X")}))
    out.append(({"measured_diameter": fl("M", "m")}, {k: A.mul(v, A.num(0.5)) for k, v in M.items()}))
    out.append(({"measured_radius": fl("M", "m")}, M))
    out.append(({"measured_semimajor_axis": fl("MA", "m"), "measured_semiminor_axis": fl("MB", "m")}, {"measured_semimajor_axis": at("MA"), "measured_semiminor_axis": at("MB")}))
    out.append(({"measured_orientation": fl("X", "m")}, {"measured_orientation": at("X")}))
    for k in ("measured_rim_height", "measured_floor_depth", "degradation_state"):
        out.append(({k: fl("X", "m")}, {k: at("X")}))
    out.append(({"production_time": fl("X", "p")}, {"production_time": at("X")}))
    out.append(({"measured_location": V("seq", "tuple", items=(fl("mlon", "m"), fl("mlat", "m")), mn=False)}, {"measured_location": (at("mlon"), at("mlat"))}))
    for k in SIZES:
        given = {k: fl("S", "size")}
        new = dict(expect_sizes(k, "c.rho"))
        out.append((given, {**new, "measured_semimajor_axis": ANY, "measured_semiminor_axis": ANY, "projectile_mass": ANY, **({"*": ANY} if k == "projectile_mass" else {})}))
    return out


ANY = "any"


def two(kw):
    """Bring measured sizes to the two axes, as the constructor would."""
    d = got_value(kw.get("measured_diameter"))
    r = got_value(kw.get("measured_radius"))
    return d, r


def copying(prog, res):
    f = prog.cls("Crater").lookup("maker")[2]
    where = (f.path, f.node.lineno)
    for round_one in (True, False):
        heap = old_crater(round_one)
        heap[("c", "_fixed")] = V("obj", prog.cls("CraterFixed"), sym=("o", "cf"), oid="cf", mn=False)
        heap[("c", "_var")] = V("obj", prog.cls("CraterVariable"), sym=("o", "cv"), oid="cv", mn=False)
        for given, changes in copies():
            label = ("a round crater" if round_one else "an elliptical crater") + (" and " + ", ".join(given) if given else "")
            src = IMPORT + f"def client({', '.join(['c'] + list(given))}):\n    return Crater.maker({', '.join(['c'] + [f'{k}={k}' for k in given])})\n"
            outs, I = run_probe(prog, src, given, objs={"c": "Crater"}, hooks=Make(), heap=heap, mon=(), cap=200, budget=120000, max_depth=20)
            if outs is None:
                res.count("undecided")
                continue
            exp = {**kept_of_old(round_one), **changes}
            n = 0
            for k, kw in made(outs):
                n += 1
                for p, want in exp.items():
                    if want == ANY or p == "*" or "*" in exp and p in ("semimajor_axis", "semiminor_axis", "transient_diameter", "projectile_diameter"):
                        continue
                    have = got_value(kw.get(p))
                    if have == "unknown":
                        res.count("values_undecided")
                        continue
                    res.count("values_decided")
                    if not agree(have, want):
                        res.add("copy", f"{f.short}|{p}", f"{f.short} given {label} records {p} = {show(have)} instead of {show(want)}", *where)
                identity(res, f, kw, label, where)
            if n:
                res.count("copies_followed")
            elif outs and all(k == "raise" for k, v, s in outs):
                res.add("copy", f"{f.short}|refused", f"{f.short} given {label} is always refused", *where)
            else:
                res.count("undecided")


DERIVED = {
    "radius": A.power(A.mul(A.atom("A"), A.atom("B")), 0.5),
    "diameter": A.mul(A.power(A.mul(A.atom("A"), A.atom("B")), 0.5), A.num(2)),
    "transient_radius": A.mul(A.atom("T"), A.num(0.5)),
    "projectile_radius": A.mul(A.atom("P"), A.num(0.5)),
    "projectile_density": A.mul(A.mul(A.atom("M"), A.power(A.atom("P"), -3)), A.num(6 / PI)),
    "projectile_vertical_velocity": A.mul(A.atom("vel"), A.atom(("sin", ("rad", "ang")))),
    "projectile_direction": A.atom("dir"),
}
FULL = {"semimajor_axis": "A", "semiminor_axis": "B", "transient_diameter": "T", "projectile_diameter": "P", "projectile_mass": "M", "projectile_velocity": "vel",
        "projectile_angle": "ang", "orientation": "dir", "time": "time", "morphology_type": "mt", "id": "id"}
MEAS = {"measured_orientation": "mo", "measured_rim_height": "mr", "measured_floor_depth": "mf", "degradation_state": "ds", "name": "name", "production_sequence": "ps"}
SETTABLE = ["measured_diameter", "measured_radius", "measured_rim_height", "measured_floor_depth", "degradation_state"]


class Keep(Make):
    """Constructors are followed; values are taken as they are."""

    def __init__(self):
        super().__init__(stop=False)

    def on_call(self, I, st, node, fv, pos, kw, star):
        n = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
        if n in ("validate_and_normalize_location", "normalize_coords") and pos:
            return [(pos[0], st)]
        if n in ("str", "int") and isinstance(node.func, ast.Name) and len(pos) == 1 and pos[0].k == "typ" and isinstance(pos[0].sym, str):
            return [(pos[0], st)]
        return super().on_call(I, st, node, fv, pos, kw, star)

    def on_binop(self, I, st, node, op, l, r, res):
        if isinstance(op, ast.Mod) and r.k == "const" and r.c in (360, 360.0) and l.k == "typ":
            return l  # an angle brought to the full circle
        return super().on_binop(I, st, node, op, l, r, res)


def sval(s):
    return V("typ", "str" if s in ("name", "mt") else "int" if s in ("id", "ps") else "float", frozenset({"v"}), s, mn=False)


def pack(*names):
    return V("seq", "tuple", items=tuple(fl(n, "v") for n in names), sym=("pack",) + names, mn=False)


SPECIAL = [
    # properties given, what they read as
    ({"production_time": fl("t0", "v")}, {"production_time": (A.atom("t0"), A.num(0))}),
    ({"production_ND": pack("D", "N")}, {"production_ND": (A.atom("D"), A.atom("N"), A.num(0))}),
    ({"measured_semimajor_axis": const(10.0), "measured_semiminor_axis": const(20.0)}, {"measured_semimajor_axis": A.num(20), "measured_semiminor_axis": A.num(10)}),
    ({"measured_semimajor_axis": const(20.0), "measured_semiminor_axis": const(10.0)}, {"measured_semimajor_axis": A.num(20), "measured_semiminor_axis": A.num(10)}),
    ({"measured_radius": fl("R", "v")}, {"measured_semimajor_axis": A.atom("R"), "measured_semiminor_axis": A.atom("R"), "measured_diameter": A.mul(A.atom("R"), A.num(2))}),
    ({"measured_diameter": fl("R", "v")}, {"measured_semimajor_axis": A.mul(A.atom("R"), A.num(0.5)), "measured_semiminor_axis": A.mul(A.atom("R"), A.num(0.5)), "measured_diameter": A.atom("R")}),
    ({}, {n: None for n in ("measured_semimajor_axis", "measured_semiminor_axis", "measured_diameter", "measured_radius", "measured_orientation", "measured_location", "measured_rim_height",
                            "measured_floor_depth", "degradation_state", "production_time", "production_ND", "production_sequence", "name", "time", "orientation", "radius", "diameter",
                            "transient_radius", "projectile_radius", "projectile_density", "projectile_vertical_velocity", "projectile_direction")}),
]
ASSIGNED = [
    ({"measured_semimajor_axis": const(20.0), "measured_semiminor_axis": const(10.0)}, "measured_semimajor_axis", const(5.0), {"measured_semimajor_axis": A.num(10), "measured_semiminor_axis": A.num(5)}),
    ({"measured_semimajor_axis": const(20.0), "measured_semiminor_axis": const(10.0)}, "measured_semiminor_axis", const(50.0), {"measured_semimajor_axis": A.num(50), "measured_semiminor_axis": A.num(20)}),
    ({"measured_semimajor_axis": const(20.0), "measured_semiminor_axis": const(10.0)}, "measured_radius", const(5.0), {"measured_semimajor_axis": A.num(5), "measured_semiminor_axis": A.num(5)}),
    ({"measured_semimajor_axis": const(20.0), "measured_semiminor_axis": const(10.0)}, "measured_semimajor_axis", const(30.0), {"measured_semimajor_axis": A.num(30), "measured_semiminor_axis": A.num(10)}),
] + [({n: fl("old", "v")}, n, const(None), {n: None}) for n in ("measured_rim_height", "measured_floor_depth", "degradation_state", "measured_orientation", "measured_diameter", "measured_radius")] + [
    ({"measured_location": pack("a", "b")}, "measured_location", const(None), {"measured_location": None}),
    ({"measured_location": pack("a", "b")}, "measured_location", pack("x", "y"), {"measured_location": (A.atom("x"), A.atom("y"))}),
    ({"production_time": pack("a", "b")}, "production_time", pack("x", "y"), {"production_time": (A.atom("x"), A.atom("y"))}),
    ({"name": sval("name")}, "name", sval("mt"), {"name": A.atom("mt")}),
]


def crater_classes(prog):
    return [c for c in prog.classes.values() if any(x.name == "Crater" for x in c.cmro()) and c.lookup("__getattr__")]


def fixed_class(prog, K):
    """The class of the fixed properties of a crater class: the default of the constructor."""
    init = K.lookup("__init__")[2]
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    for n, d in zip(reversed(names), reversed(a.defaults)):
        c = prog.classes.get(init.module.name + "." + d.id) if isinstance(d, ast.Name) else None
        c = c or (prog.cls(d.id) if isinstance(d, ast.Name) else None)
        if c is not None and any(x.name == "CraterFixed" for x in c.cmro()):
            return c
    return prog.cls("CraterFixed")


def keeping(prog, res):
    loc, mloc = location(), V("seq", "tuple", items=(fl("mlon"), fl("mlat")), mn=False)
    at = A.atom
    for F in [c for c in prog.classes.values() if any(x.name == "CraterFixed" for x in c.cmro())]:
        where = (F.module.relpath, F.node.lineno)
        imp = f"from {F.module.name} import {F.name}\n"
        args = {k: sval(v) for k, v in FULL.items()}
        args["location"] = loc
        names = list(FULL) + list(DERIVED)
        src = imp + f"def client({', '.join(args)}):\n    x = {F.name}({', '.join(f'{k}={k}' for k in args)})\n    return ({', '.join('x.' + n for n in names)})\n"
        outs, I = run_probe(prog, src, args, hooks=Keep(), mon=(), cap=60, budget=30000)
        want = {**{k: at(v) for k, v in FULL.items()}, **DERIVED}
        judge(res, "kept", F.name, f"{F.name} created with every property", outs, names, want, where)
        for n in names:
            src = imp + f"def client({', '.join(args)}, v):\n    x = {F.name}({', '.join(f'{k}={k}' for k in args)})\n    x.{n} = v\n    return x\n"
            outs, I = run_probe(prog, src, {**args, "v": sval("new")}, hooks=Keep(), mon=(), cap=60, budget=30000)
            refuse(res, F.name, n, outs, where)
    for K in crater_classes(prog):
        where = (K.module.relpath, K.node.lineno)
        imp = f"from {K.module.name} import {K.name}\n"
        args = {**{k: sval(v) for k, v in {**FULL, **MEAS}.items()}, "location": loc, "measured_location": mloc,
                "measured_semimajor_axis": sval("MA"), "measured_semiminor_axis": sval("MA"),
                "production_time": pack("t0", "t1"), "production_ND": pack("D", "N", "Ns")}
        names = list(FULL) + list(DERIVED) + list(MEAS) + ["location", "measured_location", "measured_semimajor_axis", "measured_semiminor_axis", "production_time", "production_ND"]
        want = {**{k: at(v) for k, v in {**FULL, **MEAS}.items()}, **DERIVED, "location": (at("lon"), at("lat")), "measured_location": (at("mlon"), at("mlat")),
                "measured_semimajor_axis": at("MA"), "measured_semiminor_axis": at("MA"), "production_time": (at("t0"), at("t1")), "production_ND": (at("D"), at("N"), at("Ns"))}
        own = {n for x in K.cmro() if x.name not in ("Crater",) and not x.name.startswith("Cratermaker") and x.name != "ComponentBase" for n in x.props}
        names = [n for n in names if n not in own]          # measured on the surface
        src = imp + f"def client({', '.join(args)}):\n    x = {K.name}({', '.join(f'{k}={k}' for k in args)})\n    return ({', '.join('x.' + n for n in names)})\n"
        outs, I = run_probe(prog, src, args, hooks=Keep(), mon=(), cap=60, budget=60000)
        judge(res, "kept", K.name, f"{K.name} created with every property", outs, names, want, where)
        src = imp + f"def client({', '.join(args)}):\n    c = {K.name}({', '.join(f'{k}={k}' for k in args)})\n    x = {K.name}(crater=c)\n    return ({', '.join('x.' + n for n in names)})\n"
        outs, I = run_probe(prog, src, args, hooks=Keep(), mon=(), cap=60, budget=60000)
        judge(res, "kept", K.name, f"{K.name} created from another crater", outs, names, want, where)
        for given, exp in SPECIAL:
            ns = [n for n in exp if n not in own]
            if not ns:
                continue
            src = imp + f"def client({', '.join(given)}):\n    x = {K.name}({', '.join(f'{k}={k}' for k in given)})\n    return ({''.join('x.' + n + ', ' for n in ns)})\n"
            outs, I = run_probe(prog, src, given, hooks=Keep(), mon=(), cap=60, budget=60000)
            judge(res, "kept", K.name, f"{K.name} created with {', '.join(given) or 'nothing'}", outs, ns, exp, where)
        for given, n, v, exp in ASSIGNED:
            ns = [m for m in exp if m not in own]
            if not ns:
                continue
            src = imp + f"def client({', '.join(list(given) + ['v'])}):\n    x = {K.name}({', '.join(f'{k}={k}' for k in given)})\n    x.{n} = v\n    return ({''.join('x.' + m + ', ' for m in ns)})\n"
            outs, I = run_probe(prog, src, {**given, "v": v}, hooks=Keep(), mon=(), cap=60, budget=60000)
            judge(res, "measured", K.name, f"{K.name} whose {n} is assigned", outs, ns, exp, where)
        for n, exp in (("measured_diameter", {"measured_diameter": at("new")}), ("measured_radius", {"measured_radius": at("new")}), ("measured_rim_height", {"measured_rim_height": at("new")}),
                       ("name", {"name": at("new")}), ("degradation_state", {"degradation_state": at("new")})):
            if n in own:
                continue
            ns = [m for m in names if not (m == n or n in ("measured_diameter", "measured_radius") and m.startswith("measured_semi"))]
            src = imp + f"def client({', '.join(args)}, v):\n    c = {K.name}({', '.join(f'{k}={k}' for k in args)})\n    x = {K.name}(crater=c, {n}=v)\n    return ({', '.join('x.' + m for m in [n] + ns)})\n"
            outs, I = run_probe(prog, src, {**args, "v": sval("new") if n != "name" else V("typ", "str", sym="new", mn=False)}, hooks=Keep(), mon=(), cap=60, budget=60000)
            judge(res, "kept", K.name, f"{K.name} created from another crater with a new {n}", outs, [n] + ns, {**want, **exp}, where)
        F = fixed_class(prog, K)
        extra = [n for n, d, i in F.dc_fields() if n not in FULL and n not in DERIVED and n != "location"]
        made = "x = {0}({1})".format(K.name, ", ".join(f"{k}={k}" for k in args))
        for n in list(FULL) + ["location"] + list(DERIVED) + extra:
            src = imp + f"def client({', '.join(args)}, v):\n    {made}\n    x.{n} = v\n    return x\n"
            outs, I = run_probe(prog, src, {**args, "v": sval("new")}, hooks=Keep(), mon=(), cap=60, budget=60000)
            refuse(res, K.name, n, outs, where)
        fixed = list(FULL) + ["location"] + list(DERIVED)
        for n in [n for n in SETTABLE if n not in own]:
            src = imp + f"def client({', '.join(args)}, v):\n    {made}\n    x.{n} = v\n    return ({', '.join('x.' + m for m in [n] + fixed)})\n"
            outs, I = run_probe(prog, src, {**args, "v": sval("new")}, hooks=Keep(), mon=(), cap=60, budget=60000)
            judge(res, "measured", K.name, f"{K.name} whose {n} is assigned", outs, [n] + fixed, {**want, n: at("new")}, where)


def judge(res, rule, who, label, outs, names, want, where):
    if outs is None:
        res.count("undecided")
        return
    n = 0
    for k, v, s in outs:
        if k != "ret" or v.k != "seq" or ("coincidence",) in (s.mon or ()):
            continue
        n += 1
        for p, x in zip(names, v.items):
            if p not in want:
                continue
            have = got_value(x)
            if have == "unknown":
                res.count("values_undecided")
                continue
            res.count("values_decided")
            if not agree(have, want[p]):
                res.add(rule, f"{who}|{p}", f"{label} has {p} = {show(have)} instead of {show(want[p])}", *where)
    if n:
        res.count("objects_followed")
    elif outs and all(k == "raise" for k, v, s in outs):
        res.add(rule, f"{who}|refused", f"{label} is always refused", *where)
    else:
        res.count("undecided")


def refuse(res, who, name, outs, where):
    if outs is None or not outs:
        res.count("undecided")
        return
    res.count("assignments_followed")
    if any(k == "ret" for k, v, s in outs):
        res.add("fixed", f"{who}|{name}", f"assigning the fixed property {name} of a {who} is not refused", *where)


def around(prog, res):
    """Code that goes round the protection of fixed properties."""
    crater = {c.qual for c in prog.classes.values() if any(x.name in ("Crater", "CraterFixed") for x in c.cmro())}
    names = {n for c in prog.classes.values() if any(x.name == "CraterFixed" for x in c.cmro()) for n, d, i in c.dc_fields()}
    uses = {}
    for f in prog.functions.values():
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                uses.setdefault(n.id if isinstance(n, ast.Name) else n.attr, set()).add(f.qual)
    building = {f.qual for f in prog.functions.values() if f.cls is not None and f.cls.qual in crater and f.name in ("__init__", "__post_init__", "__new__", "__setstate__")}
    grown = True
    while grown:
        more = {f.qual for f in prog.functions.values() if f.qual not in building and uses.get(f.name) and uses[f.name] <= building}
        grown = bool(more)
        building |= more
    for f in prog.functions.values():
        if isinstance(f.node, ast.Lambda):
            continue
        own = f.qual in building
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or "").endswith("object.__setattr__") and len(n.args) == 3:
                res.count("direct_writes")
                a = n.args[1]
                if isinstance(a, ast.Constant):
                    if a.value in names and not (own or f.cls is not None and f.cls.qual not in crater):
                        res.add("fixed", f"{f.short}|{a.value}", f"{f.short} writes the fixed property {a.value} past the protection of the crater", f.path, n.lineno)
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else n.targets if isinstance(n, ast.Delete) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr == "_fixed":
                    res.count("direct_writes")
                    if not own:
                        res.add("fixed", f"{f.short}|_fixed", f"{f.short} replaces the fixed properties of a crater that exists", f.path, n.lineno)


def restoring(prog, res):
    """A crater made from the record of every property of another, as a saved list of craters is read."""
    f = prog.cls("Crater").lookup("maker")[2]
    where = (f.path, f.node.lineno)
    at = A.atom
    h = old_crater(True)
    rec = {k: h[("cf", k)] for k in CFIX + ["radius", "diameter", "transient_radius", "projectile_radius", "projectile_density", "projectile_vertical_velocity", "projectile_direction", "morphology_type"]}
    rec["location"] = V("seq", "list", items=(fl("c.lon", "location"), fl("c.lat", "location")), mn=False)
    rec["longitude"], rec["latitude"] = fl("c.lon", "location"), fl("c.lat", "location")
    rec.update({k: h[("cv", "_" + k)] for k in CVAR if not k.startswith("measured_semi")})
    rec["measured_location"] = V("seq", "list", items=(fl("c.mlon", "m"), fl("c.mlat", "m")), mn=False)
    rec["name"] = h[("cv", "_name")]
    rec["production_sequence"] = h[("cv", "_production_sequence")]
    rec["production_time"] = h[("cv", "_production_time")]
    base = {k: at("c." + k) for k in CFIX + CVAR if not k.startswith("measured_semi")}
    base.update({"location": (at("c.lon"), at("c.lat")), "measured_location": (at("c.mlon"), at("c.mlat")), "production_time": (at("c.t0"), at("c.t1")),
                 "production_sequence": at("c.pseq"), "name": at("c.name")})
    shapes = [("a round measured rim", {"measured_diameter": fl("M", "m")}, {"measured_semimajor_axis": A.mul(at("M"), A.num(0.5)), "measured_semiminor_axis": A.mul(at("M"), A.num(0.5))}),
              ("an elliptical measured rim", {"measured_semimajor_axis": fl("MA", "m"), "measured_semiminor_axis": fl("MB", "m")}, {"measured_semimajor_axis": at("MA"), "measured_semiminor_axis": at("MB")})]
    for label, more, exp in shapes:
        for absent in ((), ("time",), ("name", "production_time", "production_sequence", "degradation_state")):
            args = {k: v for k, v in {**rec, **more}.items() if k not in absent}
            want = {k: (None if k in absent else v) for k, v in {**base, **exp}.items()}
            src = IMPORT + f"def client({', '.join(args)}):\n    return Crater.maker({', '.join(f'{k}={k}' for k in args)}, check_redundant_inputs=False)\n"
            outs, I = run_probe(prog, src, args, hooks=Make(), mon=(), cap=200, budget=120000, max_depth=20)
            n = 0
            for k, kw in made(outs or ()):
                n += 1
                for p, w in want.items():
                    have = got_value(kw.get(p))
                    if have == "unknown":
                        res.count("values_undecided")
                        continue
                    res.count("values_decided")
                    if not agree(have, w):
                        res.add("restored", f"{f.short}|{p}", f"{f.short} given every property of a saved crater with {label} records {p} = {show(have)} instead of {show(w)}", *where)
                identity(res, f, kw, "every property of a saved crater", where)
            if n:
                res.count("records_followed")
            elif outs and all(k == "raise" for k, v, s in outs):
                res.add("restored", f"{f.short}|refused", f"{f.short} given every property of a saved crater is always refused", *where)
            else:
                res.count("undecided")


def tuples(prog, res):
    """Splitting pairs into columns for a file and joining them again gives the same crater."""
    conv = [g for g in prog.functions.values() if g.name == "_convert_tuple_vars"]
    if not conv:
        res.count("undecided")
        return
    f = conv[0]
    at = A.atom
    imp = f"from {f.module.name} import {f.name}\n"
    args = {"t": fl("t"), "lon": fl("lon"), "lat": fl("lat"), "mlon": fl("mlon"), "mlat": fl("mlat"), "D": fl("D"), "N": fl("N"), "s": fl("s"), "pt": fl("pt"), "ps": fl("ps")}
    src = imp + f"""def client({', '.join(args)}):
    d = {f.name}({{"time": t, "location": (lon, lat), "measured_location": (mlon, mlat), "production_ND": (D, N, s), "production_time": (pt, ps)}})
    x = {f.name}(d, inverse=True)
    return (x["time"], x["location"], x["measured_location"], x["production_ND"], x["production_time"])
"""
    outs, I = run_probe(prog, src, args, hooks=Keep(), mon=(), cap=60, budget=60000)
    names = ["time", "location", "measured_location", "production_ND", "production_time"]
    want = {"time": at("t"), "location": (at("lon"), at("lat")), "measured_location": (at("mlon"), at("mlat")), "production_ND": (at("D"), at("N"), at("s")), "production_time": (at("pt"), at("ps"))}
    judge(res, "restored", f.short, "a crater whose pairs are split into columns and joined again", outs, names, want, (f.path, f.node.lineno))


def check(prog, tier):
    res = Result()
    restoring(prog, res)
    tuples(prog, res)
    keeping(prog, res)
    around(prog, res)
    creation(prog, res)
    copying(prog, res)
    res.require("requests_followed", 10)
    return res
