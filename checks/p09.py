"""P09: lengths, crater numbers and times are converted once and in the right direction.

Units are inferred along every path of abstract clients: arithmetic is kept as monomials over symbols of known unit, where the
user's length unit (uL) and number unit (uN) only become metres and numbers per square metre through the two conversion factors.

  relation  the production function is asked for a diameter in metres, a number per square metre, a time
  report    crater numbers handed on are a diameter in metres and a count; densities a number per square metre
  merge     the N(D) pair handed to the quasi-Monte Carlo merge is in the user's units
  clock     the accumulated crater number is in the user's units
  sum       no path adds, subtracts or compares quantities of different unit
"""
from __future__ import annotations

import ast

from sa import algebra as A
from sa.par import run_jobs
from sa.probe import ProbeHooks, run_probe
from sa.report import Result
from sa.values import V, const, top, typ

BASE = ("m", "uL", "uN", "t")
M, UL, UN, T, ONE = (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, 0)
AREA, DENS = (2, 0, 0, 0), (-2, 0, 0, 0)
DC, NC = (1, -1, 0, 0), (2, 0, 1, 0)
NAME = {"m": "metre", "uL": "user length unit", "uN": "user number unit", "t": "My"}


ROUNDS = set()


def q(name, dim, label=None):
    return typ("float", sym=("Q", name, dim)).not_none()


def opaque(tag, dim, lab=frozenset()):
    return V("typ", "float", lab, ("Q", tag, dim), mn=False)


def dim_of_atom(a):
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "Q":
        return a[2]
    if isinstance(a, str) and a.startswith("#"):
        return ONE
    if isinstance(a, tuple) and len(a) == 4 and a[0] == "it" and a[2:] in ROUNDS:
        return ONE                       # the count of a loop over a range
    if isinstance(a, tuple) and len(a) >= 2 and a[0] in ("item", "idx", "float", "slice"):
        d = dim(A.of_sym(a[1]))          # a part of an array is in its unit
        return d if known(d) else None
    return None


def dim(p):
    """Unit of an algebraic value: a vector, 'any' for a plain number, None when unknown, ('mixed', a, b) when terms disagree."""
    if p is None:
        return None
    d = "any"
    for m in p:
        if not m:
            continue
        v = [0, 0, 0, 0]
        for a, e in m:
            x = dim_of_atom(a)
            if x is None:
                return None
            v = [s + e * t for s, t in zip(v, x)]
        v = tuple(v)
        if d != "any" and d != v:
            return ("mixed", d, v)
        d = v
    return d


def words(d):
    if d is None:
        return "unknown"
    if d == "any" or tuple(d) == ONE:
        return "a plain number"
    if d[0] == "mixed":
        return f"a sum of {words(d[1])} and {words(d[2])}"
    return " ".join(NAME[b] + ("" if e == 1 else f"^{e}") for b, e in zip(BASE, d) if e)


def known(d):
    return d is not None and d != "any" and d[0] != "mixed"


PASS = {"float", "float64", "abs", "asarray", "array", "atleast_1d", "squeeze", "item", "fabs", "absolute", "unique", "ravel", "flatten", "copy", "round", "sorted", "sum", "nansum", "mean", "median", "nanmean"}
JOIN = {"max", "min", "maximum", "minimum", "clip", "fmax", "fmin", "linspace", "geomspace", "hypot", "isclose", "allclose"}


class Units(ProbeHooks):
    def __init__(self, res, noinline=()):
        super().__init__(set(noinline) | {"_rng_init", "_simdir_init"})
        self.res = res
        self.seen = 0

    # ---- reporting
    def found(self, I, node, rule, what, msg):
        f = I.fr.func
        self.res.add(rule, f"{f.short}|{what}", f"{f.short}: {msg}", f.path, getattr(node, "lineno", f.node.lineno))

    def expect(self, I, node, rule, what, v, wants, count="units_checked"):
        """The unit of a value that is handed on."""
        if v is None or v.k == "const":
            return
        d = dim(A.of(v))
        if d is None:
            self.res.count("units_unknown")
            return
        if d == "any":
            return
        self.res.count(count)
        if d[0] == "mixed" or d not in wants:
            self.found(I, node, rule, what, f"{what} is in {words(d)}, it must be in {' or '.join(words(w) for w in wants)}")

    @staticmethod
    def loops(fn, call):
        """Remember the loops over this range."""
        names = {t.id for x in ast.walk(fn) if isinstance(x, ast.Assign) and x.value is call for t in x.targets if isinstance(t, ast.Name)}
        names |= {x.optional_vars.id for x in ast.walk(fn) if isinstance(x, ast.withitem) and x.context_expr is call and isinstance(x.optional_vars, ast.Name)}
        for x in ast.walk(fn):
            if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and (x.iter is call or isinstance(x.iter, ast.Call) and any(a is call for a in x.iter.args) and getattr(x.iter.func, "id", "") in ("tqdm", "list", "iter")
                                          or isinstance(x.iter, ast.Name) and x.iter.id in names):
                ROUNDS.add((x.lineno, x.col_offset))

    # ---- arithmetic
    def on_binop(self, I, st, node, op, l, r, res):
        if res.k == "const":
            return res
        if l.k == "seq" or r.k == "seq" or res.k == "seq":
            return res
        a, b = A.of(l), A.of(r)
        p = None
        if a is not None and b is not None:
            if isinstance(op, (ast.Add, ast.Sub)):
                self.agree(I, node, "added" if isinstance(op, ast.Add) else "subtracted", a, b)
                p = A.add(a, b, 1.0 if isinstance(op, ast.Add) else -1.0)
                d = dim(p)
                if known(d) and len(p) > 3:
                    p = A.atom(("Q", ("sum", node.lineno, node.col_offset), d))
            elif isinstance(op, ast.Mult):
                p = A.mul(a, b)
            elif isinstance(op, ast.Div):
                p = A.div(a, b)
                if p is None:
                    da, db = dim(a), dim(b)
                    da, db = (ONE if x == "any" else x for x in (da, db))
                    if known(da) and known(db):
                        p = A.atom(("Q", ("ratio", node.lineno, node.col_offset), tuple(x - y for x, y in zip(da, db))))
            elif isinstance(op, ast.Pow) and (not b or set(b) == {()}):
                p = A.power(a, b.get((), 0.0))
        lab = res.lab | l.lab | r.lab
        if p is None or len(p) > 8:
            return V(res.k, res.c, lab, ("join", "unknown"), res.items, res.num, res.oid, res.mn) if res.k in ("top", "typ", "num") else res
        return V("typ", "float", lab, A.sym_of(p), mn=False)

    def agree(self, I, node, what, a, b):
        da, db = dim(a), dim(b)
        if known(da) and known(db) and self.nonzero(a) and self.nonzero(b):
            self.res.count("sums_and_comparisons")
            if da != db:
                self.found(I, node, "sum", f"{what} {words(da)}|{words(db)}", f"a quantity in {words(da)} is {what} with one in {words(db)}")

    @staticmethod
    def nonzero(p):
        return bool(p)

    def on_compare(self, I, st, node, op, l, r, truth):
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and l.k != "seq" and r.k != "seq":
            a, b = A.of(l), A.of(r)
            if a is not None and b is not None:
                self.agree(I, node, "compared", a, b)

    # ---- calls
    def args(self, fv, pos, kw):
        f = fv.c
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if names and names[0] in ("self", "cls"):
            names = names[1:]
        out = dict(zip(names, pos))
        out.update(kw)
        return out

    def pair(self, I, node, rule, what, v, d0, d1):
        if v is None or v.k != "seq" or v.items is None or len(v.items) != 2:
            return
        self.expect(I, node, rule, what + " diameter", v.items[0], [d0])
        self.expect(I, node, rule, what + " number", v.items[1], d1)

    def on_call(self, I, st, node, fv, pos, kw, star):
        f = node.func
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if fv.k in ("fn", "bound") and fv.c.name not in ("client",):
            n = fv.c.name
            own = fv.c.cls.name if fv.c.cls is not None else ""
            ours = any(c.name == "Production" for c in fv.c.cls.cmro()) if fv.c.cls is not None else False
            a = self.args(fv, pos, kw)
            if ours and n == "age_from_D_N":
                self.res.count("relations_asked")
                self.expect(I, node, "relation", "the diameter of an N(D)", a.get("diameter"), [M])
                self.expect(I, node, "relation", "the number of an N(D)", a.get("cumulative_number_density"), [DENS])
                return [(opaque(("age", node.lineno, node.col_offset), T), st)]
            if ours and n == "function" and I.fr.func.name != "client":
                self.res.count("relations_asked")
                self.expect(I, node, "relation", "the diameter of the production function", a.get("diameter"), [M])
                for k in ("time_start", "time_end", "age"):
                    self.expect(I, node, "relation", "the time of the production function", a.get(k), [T])
                return [(opaque(("production", node.lineno, node.col_offset), DENS), st)]
            if ours and n == "csfd" and I.fr.func.name != "client":
                self.res.count("relations_asked")
                self.expect(I, node, "relation", "the diameter of the size distribution", a.get("diameter"), [M])
                return [(opaque(("csfd", node.lineno, node.col_offset), DENS), st)]
            if ours and n == "chronology" and I.fr.func.name != "client":
                for k in ("time_start", "time_end", "age"):
                    self.expect(I, node, "relation", "the time of the chronology", a.get(k), [T])
                return [(opaque(("chronology", node.lineno, node.col_offset), ONE), st)]
            if ours and n == "_validate_csfd":
                return [(V("seq", "tuple", items=(a.get("diameter", const(None)), a.get("cumulative_number_density", const(None))), mn=False), st)]
            if ours and n == "compute_time":
                self.expect(I, node, "relation", "the diameters whose times are drawn", a.get("diameters"), [M])
                for k in ("time_start", "time_end"):
                    self.expect(I, node, "relation", "the time that bounds the times drawn", a.get(k), [T])
                return [(opaque(("times", node.lineno, node.col_offset), T), st)]
            if ours and n == "sample" and I.fr.func.name != "client":
                self.handed(I, node, a)
                return [(V("seq", "tuple", items=(opaque(("diameters", node.lineno, node.col_offset), M), opaque(("times", node.lineno, node.col_offset), T)), mn=False), st)]
            if ours and n == "quasimc_merge" and I.fr.func.name != "client":
                self.res.count("merges")
                for k in ("N_D", "N_D_end"):
                    self.pair(I, node, "merge", "the N(D) handed to the merge", a.get(k), UL, [UN])
                for k in ("time_start", "time_end"):
                    self.expect(I, node, "merge", "the time handed to the merge", a.get(k), [T])
                return [(top(sym=I.sym(node, n), mn=False), st)]
            if n == "populate" and own == "Simulation" and I.fr.func.name != "client":
                self.handed(I, node, a)
                return [(top(sym=I.sym(node, n), mn=False), st)]
            if n == "get_random_size":
                self.expect(I, node, "report", "the diameters to draw from", a.get("diameters"), [M])
                self.expect(I, node, "report", "the expected number of craters", a.get("mu"), [ONE], "expected_numbers")
                return [(opaque(("drawn", node.lineno, node.col_offset), M), st)]
            if n in ("save", "emplace", "to_config", "reset", "get_random_location_on_face") or own == "Crater" and n == "maker":
                for k, d in (("diameter", M), ("projectile_diameter", M), ("time", T)):
                    self.expect(I, node, "report", f"the {k} of a crater", a.get(k) if own == "Crater" else None, [d])
                return [(top(sym=I.sym(node, n), mn=False), st)]
        elif n in ("range", "trange") and pos and not all(p.k == "const" for p in pos):
            self.loops(I.fr.func.node, node)
            return [(V("typ", "list", sym=("rounds",), items=(typ("int", sym="#i").not_none(),), mn=False), st)]
        elif n in ("max", "min") or fv.k not in ("cls", "obj"):
            r = self.numeric(I, st, node, n, fv, pos, kw)
            if r is not None:
                return [(r, st)]
        return super().on_call(I, st, node, fv, pos, kw, star)

    def handed(self, I, node, a):
        self.res.count("numbers_handed_on")
        for k in ("diameter_number", "diameter_number_end"):
            self.pair(I, node, "report", f"the {k.replace('_', ' and ').replace(' and end', ' at the end')}", a.get(k), M, [ONE])
        for k in ("N_D", "N_D_end"):
            self.pair(I, node, "report", "the N(D)", a.get(k), UL, [UN])
        self.expect(I, node, "report", "the area", a.get("area"), [AREA])
        for k in ("age", "time_start", "time_end"):
            self.expect(I, node, "report", "the time", a.get(k), [T])
        r = a.get("diameter_range")
        if r is not None and r.k == "seq" and r.items:
            for x in r.items:
                self.expect(I, node, "report", "the range of diameters", x, [M])

    def numeric(self, I, st, node, n, fv, pos, kw):
        if n in JOIN and len(pos) >= 2:
            ds = [dim(A.of(p)) if p.k not in ("seq", "dict") else None for p in pos]
            ks = [d for d in ds if known(d)]
            if len(ks) == len([d for d in ds if d != "any"]) and ks:
                if any(d != ks[0] for d in ks):
                    other = next(d for d in ks if d != ks[0])
                    self.found(I, node, "sum", f"{n} {words(ks[0])}|{words(other)}", f"{n} of a quantity in {words(ks[0])} and one in {words(other)}")
                    return None
                if n not in ("isclose", "allclose"):
                    return opaque((n, node.lineno, node.col_offset), ks[0])
            return None
        if n in ("sqrt", "cbrt") and len(pos) == 1:
            d = dim(A.of(pos[0]))
            p = A.power(A.of(pos[0]), 0.5 if n == "sqrt" else 1 / 3) if A.of(pos[0]) is not None else None
            if p is not None:
                return V("typ", "float", pos[0].lab, A.sym_of(p), mn=False)
            if known(d):
                e = 2 if n == "sqrt" else 3
                return opaque((n, node.lineno, node.col_offset), tuple(A.frac(x) / e for x in d))
        if n in PASS and len(pos) == 1 and pos[0].k == "typ" and known(dim(A.of(pos[0]))):
            return pos[0]
        if n in PASS and len(pos) == 1 and pos[0].k == "seq" and pos[0].items:
            ds = [dim(A.of(x)) for x in pos[0].items]
            if all(known(d) for d in ds) and len(set(ds)) == 1 and n not in ("asarray", "array", "atleast_1d", "sorted", "unique", "copy"):
                return opaque((n, node.lineno, node.col_offset), ds[0])
        if n in ("normal", "uniform") and (pos or kw):
            ds = {dim(A.of(v)) for v in [*pos, *[kw[k] for k in ("loc", "scale", "low", "high") if k in kw]] if v.k == "typ"}
            ds = {d for d in ds if known(d)}
            if len(ds) > 1:
                x, y = sorted(ds, key=repr)[:2]
                self.found(I, node, "sum", f"{n} {words(x)}|{words(y)}", f"a number is drawn with a mean or width in {words(x)} and another in {words(y)}")
            elif ds:
                return opaque((n, node.lineno, node.col_offset), ds.pop())
        if n == "item" and isinstance(node.func, ast.Attribute) and not node.args:
            for v, s in I.ev(node.func.value, st):
                if known(dim(A.of(v))):
                    return v
                break
        return None

    def on_attr_read(self, I, st, node, o, attr):
        if o.k == "obj" and o.oid == "surf" and attr in SURFACE:
            return typ("numpy.ndarray", sym=("Q", attr, SURFACE[attr])).not_none()
        if o.k == "obj" and o.c.name == "Crater" and o.oid.startswith("gen"):
            return (CRATERS.get(o.oid) or {}).get(attr)
        return None

    def on_attr_write(self, I, st, node, obj, attr, value):
        if obj.oid == "o" and attr == "_elapsed_n1":
            self.expect(I, node, "clock", "the accumulated crater number", value, [UN], "clock_writes")
        if obj.oid == "o" and attr in ("_elapsed_time", "_time"):
            self.expect(I, node, "clock", "the time", value, [T], "clock_writes")


def nd(*ds):
    return V("seq", "tuple", items=tuple(q(f"{i}{n}", d) for i, (n, d) in enumerate(ds)), mn=False)


def given(what):
    return {"D": nd(("D", UL), ("N", UN)), "DE": nd(("DE", UL), ("NE", UN)), "C": nd(("d", M), ("n", ONE)), "CE": nd(("d", M), ("ne", ONE)),
            "S": q("start", T), "E": q("end", T), "A": q("area", AREA), "I": q("interval", T), "K": typ("int", sym="#n").not_none(),
            "R": nd(("dlo", M), ("dhi", M)), "DS": q("diameters", M)}[what]


SURFACE = {"face_bin_area": AREA, "face_area": AREA, "face_size": M, "face_bin_min_sizes": M, "face_bin_max_sizes": M, "smallest_crater": M}
CRATERS = {
    "gen_nd": {"production_ND": nd(("pD", UL), ("pN", UN), ("sN", UN)), "production_time": const(None), "production_sequence": const(None)},
    "gen_nds": {"production_ND": nd(("pD", UL), ("pN", UN), ("sN", UN)), "production_time": const(None), "production_sequence": const(1)},
    "gen_time": {"production_ND": const(None), "production_time": nd(("pt", T), ("st", T)), "production_sequence": const(2)},
    "gen_none": {"production_ND": const(None), "production_time": const(None), "production_sequence": const(3)},
}
for c in CRATERS.values():
    c.update({"diameter": q("diameter", M), "projectile_diameter": q("pdiameter", M), "time": q("ctime", T), "name": const(None)})


SIM = ["N_D=D", "N_D=D, N_D_end=DE", "diameter_number=C", "diameter_number=C, diameter_number_end=CE", "time_start=S, time_end=E", "age=S"]
PROD = [c + ", area=A" for c in SIM] + ["time_start=S, area=A", "time_start=S, N_D_end=DE, area=A"]
EVERY = ("D", "DE", "C", "CE", "S", "E", "A", "I", "K", "R", "DS")


def names(call):
    return {x.split("=")[1].strip() for x in call.split(",") if "=" in x}


def sim_heap(prog):
    return {("o", "_production"): V("obj", prog.cls("NeukumProduction"), sym="prod", oid="prod", mn=False), ("o", "_surface"): V("obj", prog.cls("IcosphereSurface"), sym="surf", oid="surf", mn=False),
            ("o", "_counting"): V("obj", prog.cls("DepthCount"), sym="cnt", oid="cnt", mn=False), ("surf", "_area"): q("area", AREA),
            ("o", "_time"): q("now", T), ("o", "_interval"): typ("int", sym="#i").not_none(), ("o", "_elapsed_time"): q("elapsed", T), ("o", "_elapsed_n1"): q("n1", UN), ("o", "_is_new"): const(False),
            **prod_heap("prod")}


def prod_heap(oid):
    return {(oid, "_D_conversion_factor"): q("Dc", DC), (oid, "_N_conversion_factor"): q("Nc", NC), (oid, "_diameter_range"): nd(("dmin", M), ("dmax", M)), (oid, "_generator_type"): const("crater")}


def returned(res, f, outs):
    """What the validator of a production hands back."""
    for k, v, s in outs:
        if k != "ret" or v.k != "dict" or not v.items:
            continue
        res.count("validated_arguments")
        d = dict(v.items)
        for key, want in (("diameter_number", ONE), ("diameter_number_end", ONE), ("diameter_number_density", DENS), ("diameter_number_density_end", DENS)):
            x = d.get(key)
            if x is None or x.k != "seq" or not x.items or len(x.items) != 2:
                continue
            for part, y, w in (("diameter", x.items[0], M), ("number", x.items[1], want)):
                u = dim(A.of(y)) if y.k != "const" else "any"
                if u is None:
                    res.count("units_unknown")
                elif u != "any":
                    res.count("units_checked")
                    if u != w:
                        res.add("report", f"{f.short}|{key} {part}", f"{f.short}: the {part} of {key} is in {words(u)}, it must be in {words(w)}", f.path, f.node.lineno)
        for key in ("time_start", "time_end"):
            x = d.get(key)
            if x is not None and x.k != "const":
                u = dim(A.of(x))
                if known(u):
                    res.count("units_checked")
                    if u != T:
                        res.add("report", f"{f.short}|{key}", f"{f.short}: {key} is in {words(u)}, it must be in {words(T)}", f.path, f.node.lineno)


def probe(res, prog, kind, call):
    what = names(call)
    a = {n: given(n) for n in EVERY if n in what}
    if kind in ("_validate_sample_args", "sample"):
        owner, heap = "NeukumProduction", prod_heap("o")
    else:
        owner, heap = "Simulation", sim_heap(prog)
        if kind == "populate":
            heap["o", "_do_quasimc"] = const(True)
    outs, I = run_probe(prog, f"def client(o, {', '.join(a)}):\n    return o.{kind}({call})\n", a, objs={"o": owner}, hooks=Units(res), heap=heap, cap=40, budget=400000)
    if outs is None:
        res.count("undecided")
        return
    res.count("paths", len(outs))
    if kind == "_validate_sample_args":
        returned(res, prog.cls("Production").lookup(kind)[2], outs)


def dating(res, prog, gen, hooks):
    outs, I = run_probe(prog, f"def client(o, {', '.join(gen)}):\n    return o._process_quasimc_craters([{', '.join(gen)}])\n", {}, objs={"o": "NeukumProduction", **{n: "Crater" for n in gen}},
                        hooks=hooks(res), heap=prod_heap("o"), cap=60, budget=150000, loop=4)
    if outs is None:
        res.count("undecided")
    else:
        res.count("paths", len(outs))


def check(prog, tier):
    res = Result()
    jobs = [(probe, (prog, k, c)) for k in ("_validate_sample_args", "sample") for c in PROD]
    jobs += [(probe, (prog, "populate", c)) for c in SIM]
    jobs += [(probe, (prog, "run", c + x)) for x in ("", ", ninterval=K", ", time_interval=I") for c in SIM if "interval=I" not in x or "S" in names(c)]
    jobs += [(dating, (prog, g, h)) for h in (Units, Dates) for g in (["gen_nd"], ["gen_nds"], ["gen_time"], ["gen_nds", "gen_none"], ["gen_nds", "gen_time", "gen_none"])]
    run_jobs(res, jobs)
    res.require("relations_asked", 20)
    res.require("units_checked", 60)
    res.notes = ["all paths of sampling, populating, running and dating with arguments in every form, units inferred from the arithmetic"]
    res.assumptions = ["the conversion factors are those the configuration documents: user length to metres, numbers per square metre to the user's number unit"]
    return res


class Dates(Units):
    """Dating with the extents of the sequences taken as given: pairs of numbers per square metre."""

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k in ("fn", "bound") and fv.c.short.split(".")[-2:-1] == ["_process_quasimc_craters"] and not any(v.k == "obj" and v.c.name == "Crater" for v in [*pos, *kw.values()]):
            if any(v.k == "seq" for v in pos):
                return [(V("dict", nd(("lo", DENS), ("hi", DENS)), sym="extents", items=(), mn=False), st)]
            return [(top(sym=I.sym(node, fv.c.name), mn=False), st)]
        return super().on_call(I, st, node, fv, pos, kw, star)
