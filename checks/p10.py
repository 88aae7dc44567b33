"""P10: a saved mesh is used again exactly when it was made from the same settings.

(1) Dependence slices: every stored setting that the mesh generator of a surface type reads, directly or through
its properties and helpers, is one of the values the identity of the mesh is computed from, unchanged.
(2) Abstract clients: the identity uses every one of those values; the stored identity decides about reuse; a mesh
that does not match is generated again, carries the new identity, and the data of the old mesh is reset."""
from __future__ import annotations

import ast

from sa.deps import Deps, chain, parents_of, returns
from sa.interp import Exc
from sa.par import run_jobs
from sa.probe import ProbeHooks, run_probe
from sa.report import Result
from sa.resolve import Resolver
from sa.values import V, all_labels, const, top, typ

# plumbing handed to every part; it does not shape a mesh
PLUMBING = {"_simdir", "_rng", "_rng_seed", "_rng_state", "_ask_overwrite", "_show_progress", "_config_readonly"}
KEEP = {"str", "repr", "float", "tuple", "list", "append", "extend", "insert", "Path", "array", "asarray", "format", "dict", "items", "values"}


def generators(prog):
    S = prog.cls("Surface")
    out = []
    for K in prog.subclasses(S, strict=True):
        m = K.method("_generate_face_distribution")
        if m is not None and m.cls is not S:
            out.append((K, m))
    return out


def hashed(prog, R, K):
    """Attribute paths that enter the identity unchanged -> set of paths (as written and, for plain accessors, as stored)."""
    h = K.lookup("_hashvars")
    fs, out, parts = [], set(), {}
    todo = [h[2].fget if h[1] == "prop" else h[2]]
    while todo:
        f = todo.pop()
        if f in fs:
            continue
        fs.append(f)
        par = parents_of(f.node)
        s = Deps(R, K).slicer(f.node)
        for e in s.run([(r.value, r) for r in returns(f.node)]):
            for n in ast.walk(e):
                if not isinstance(n, ast.Attribute) or isinstance(par.get(n), ast.Attribute):
                    continue
                b, ch = chain(n)
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                    r = K.lookup(ch[0], after=f.cls)
                    if r is not None:
                        todo.append(r[2].fget if r[1] == "prop" else r[2])
                    continue
                if not (isinstance(b, ast.Name) and b.id == "self"):
                    continue
                p = par.get(n)
                if isinstance(p, ast.Call) and p.func is n:
                    g = K.method(ch[0]) if len(ch) == 1 else None
                    if g is not None:
                        todo.append(g)
                    continue
                path = ".".join(ch)
                sub = None
                if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.slice, ast.Constant):
                    sub, n, p = p.slice.value, p, par.get(p)
                if direct(n, p, par, e, f.node):
                    if sub is None:
                        out.add(path)
                    else:
                        parts.setdefault(path, set()).add(sub)
    for path, subs in parts.items():
        if {0, 1} <= subs or {0, -1} <= subs:
            out.add(path)
    return out, fs


def direct(n, p, par, top_e, fnode):
    """n enters the list of identity values as it is (not rounded, compared, divided, ...)."""
    while p is not None and p is not fnode:
        if isinstance(p, ast.Call) and n is not p.func:
            name = p.func.attr if isinstance(p.func, ast.Attribute) else p.func.id if isinstance(p.func, ast.Name) else ""
            if name not in KEEP:
                return False
        elif isinstance(p, ast.BinOp) and not isinstance(p.op, ast.Add):
            return False
        elif isinstance(p, ast.BinOp) and not (isinstance(n, (ast.List, ast.Tuple, ast.BinOp, ast.ListComp)) or isinstance(p.left, (ast.List, ast.Constant)) or isinstance(p.right, (ast.List, ast.Constant, ast.Name))):
            return False
        elif isinstance(p, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Subscript, ast.Slice)):
            return False
        elif isinstance(p, ast.IfExp):
            return False
        elif isinstance(p, ast.FormattedValue) and p.format_spec is not None:
            return False
        elif isinstance(p, ast.stmt):
            for t in getattr(p, "targets", ()):
                if isinstance(t, (ast.Tuple, ast.List)) and not isinstance(getattr(p, "value", None), (ast.Tuple, ast.List)):
                    used = {x.id for x in ast.walk(fnode) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                    if any(isinstance(x, ast.Name) and x.id not in used for x in t.elts):
                        return False     # only a part of the value is used
            return True
        n, p = p, par.get(p)
    return True


def plain_store(prog, R, K, path, depth=0):
    """Stored path behind an accessor that returns it unchanged."""
    from sa.model import ClassInfo
    cur, pre = K, ""
    parts = path.split(".")
    for i, a in enumerate(parts):
        r = cur.lookup(a)
        if i < len(parts) - 1:
            ts = {c for c in R.attr_types(cur, a) if isinstance(c, ClassInfo)}
            if not ts:
                return None
            cur, pre = sorted(ts, key=lambda c: c.name)[0], pre + a + "."
            continue
        if r is None or r[1] != "prop":
            return None
        rs = returns(r[2].fget.node) if r[2].fget is not None else []
        if len(rs) == 1:
            b, ch = chain(rs[0].value)
            if isinstance(b, ast.Name) and b.id == "self" and ch:
                q = pre + ".".join(ch)
                return q if depth > 3 else (plain_store(prog, R, K, q, depth + 1) or q)
    return None


def slices(res, prog):
    R = Resolver(prog)
    for K, m in generators(prog):
        res.count("surface_types")
        covered, fs = hashed(prog, R, K)
        stored = {plain_store(prog, R, K, p) for p in covered} - {None}
        d = Deps(R, K, covered=covered | stored | {"target.name", "target._name"})
        d.entry = m.qual
        d.of_returns(m)
        g = K.method("_generate_grid")
        d.entry = None
        seeds = [(a, c) for c in ast.walk(g.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr.startswith("from_")
                 for a in c.args + [k.value for k in c.keywords]]
        d.of_exprs(g, seeds)
        res.count("expressions_sliced", d.exprs)
        res.count("functions_reached", len([x for x in d.reached if x[0] == "ret"]))
        res.count("unresolved", len(d.unknown))
        res.count("identity_values", len(covered))
        for leaf, (f, n) in sorted(d.leaves.items()):
            res.count("settings_read_by_generators")
            if leaf in PLUMBING:
                continue
            res.add("not-in-identity", f"{K.name}|{leaf}", f"the mesh of a {K.name} depends on {leaf} (read in {f.short}, reached from {m.short}), which is not one of the "
                    f"values its identity is computed from ({', '.join(sorted(covered))}): a mesh made with another value would be taken for the same one", f.path, n.lineno)
        if not any(c.split(".")[-1] in ("component_name", "_component_name", "__class__", "__name__") for c in covered):
            res.add("not-in-identity", f"{K.name}|type", f"the identity of a {K.name} mesh does not include the type of surface", fs[0].path, fs[0].node.lineno)


HEAVY = {"_generate_face_distribution", "_compute_face_size", "extract_region", "_set_local_identifiers", "local", "common_args", "update_elevation", "maker", "__init__", "add_data",
         "ask_overwrite", "_add_new_data", "uxgrid", "uxds", "n_face", "n_node", "radius", "target", "pix", "output_dir", "grid_file", "simdir"}


class GridHooks(ProbeHooks):
    def __init__(self, same=None, ident=None, stored=None, exists=None, regrid=None, follow=()):
        super().__init__()
        self.same, self.ident, self.stored, self.exists, self.regrid, self.follow = same, ident, stored, exists, regrid, follow
        self.seen = set()

    max_rec = 2

    def inline(self, I, func, depth):
        return func.name in self.follow or func.name not in HEAVY

    def on_attr_read(self, I, st, node, o, attr):
        if attr == "_is_same_grid" and self.same is not None and o.k == "obj":
            return [(const(self.same), st)]
        if attr == "_id" and self.ident is not None and o.k == "obj":
            return [(const(self.ident), st)]
        return None

    def mark(self, st, what):
        st = st.copy()
        st.mon = frozenset(st.mon or ()) | {what}
        return st

    def on_call(self, I, st, node, fv, pos, kw, star):
        name = fv.c.name if fv.k in ("fn", "bound") else (node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None)
        if name in ("exists", "is_file") and self.exists is not None:
            return [(const(self.exists), st)]
        if name in self.follow:
            return None
        if name == "_generate_grid":
            return [(const(None), self.mark(st, "generated"))]
        if name == "_regrid_if_needed" and self.regrid is not None:
            return [(const(self.regrid), st)]
        if name == "_write_grid_file":
            return [(const(None), self.mark(st, "written" if "id-stored" in (st.mon or ()) else "written-early"))]
        if name in ("update", "assign_attrs"):
            st = st.copy()
            self.entries(st, V("dict", None, items=tuple(kw.items())))
            for p in pos:
                if p.k == "dict":
                    self.entries(st, p)
            return [(top(sym=("updated",)), st)] if "id-stored" in (st.mon or ()) else None
        if name == "reset" and fv.k == "bound":
            return [(const(None), self.mark(st, "reset"))]
        if name == "read_saved_output":
            r = kw.get("reset")
            return [(top(sym=("saved",)), self.mark(st, "read-reset" if r is not None and r.k == "const" and r.c else "read"))]
        if fv.k == "ext" and fv.c in ("numpy.load",):
            return [(top(sym=("loaded",)), self.mark(st, "indices-loaded"))]
        if self.stored is not None and name == "get" and pos and pos[0].k == "const" and pos[0].c == "_id":
            return [(const(self.stored), st)]
        return None

    def on_subscript(self, I, st, node, o, key, res):
        if self.stored is not None and key is not None and key.k == "const" and key.c == "_id":
            return const(self.stored)
        return res

    def on_attr_write(self, I, st, node, o, attr, v):
        if attr == "attrs" and v.k == "dict":
            self.entries(st, v)

    def entries(self, st, d):
        for k, v in d.items or ():
            if k == "_id":
                self.on_store_item(None, st, None, None, const("_id"), v)

    def on_store_item(self, I, st, node, o, key, v):
        if key is not None and key.k == "const" and key.c == "_id":
            if v.k == "const" and v.c == self.ident:
                st.mon = frozenset(st.mon or ()) | {"id-stored"}
            else:
                st.mon = frozenset(st.mon or ()) | {"other-id"}


def run(prog, K, src, H, extra=None):
    return run_probe(prog, "def client(s, x):\n" + src, {"x": extra or const(None)}, objs={"s": K.name}, hooks=H, max_depth=11, mon=frozenset(), budget=60000)[0]


def truthy(v):
    return None if v.k != "const" else bool(v.c)


def where(K, name):
    r = K.lookup(name)
    it = r[2].fget if r[1] == "prop" else r[2]
    return it.path, it.node.lineno


def decide(res, K, name, key, text, bad):
    res.count("obligations")
    if bad is None:
        res.count("undecided")
    elif bad:
        res.add("reuse", f"{K.name}|{key}", f"{K.name}: {text}", *where(K, name))


def same_grid_job(res, prog, K):
    for ident, stored, want in (("A", "A", True), ("A", "B", False), ("A", None, False)):
        outs = run(prog, K, "    return s._is_same_grid\n", GridHooks(ident=ident, stored=stored, follow=("_is_same_grid",)) if stored is not None else NoId(ident="A", follow=("_is_same_grid",)))
        if outs is None:
            decide(res, K, "_is_same_grid", "", "", None)
            continue
        vals = [truthy(v) for k, v, s in outs if k == "ret"]
        if want:
            decide(res, K, "_is_same_grid", "match", "a mesh file with the identity of this surface is not recognised as its own", None if not vals else not any(v in (True, None) for v in vals))
        else:
            decide(res, K, "_is_same_grid", "mismatch" if stored else "no-identity", "a mesh file " + ("with another identity" if stored else "without an identity") + " is taken for the mesh of this surface",
                   None if not vals or (None in vals and True not in vals) else True in vals)


    if K.lookup("_is_same_grid"):
        outs = run(prog, K, "    return s._is_same_grid\n", Unreadable(ident="A", follow=("_is_same_grid",)))
        vals = [truthy(v) for k, v, s in outs or () if k == "ret"]
        decide(res, K, "_is_same_grid", "unreadable", "a mesh file that cannot be read is taken for the mesh of this surface", None if outs is None else any(v is not False for v in vals))


class Unreadable(GridHooks):
    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k == "ext" and fv.c.split(".")[-1] in ("open_dataset", "load_dataset", "open_grid"):
            I.raises.append((Exc("OSError", node, I.fr.func), st))
            return []
        return super().on_call(I, st, node, fv, pos, kw, star)


class NoId(GridHooks):
    def on_call(self, I, st, node, fv, pos, kw, star):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "get" and pos and pos[0].k == "const" and pos[0].c == "_id":
            return [(pos[1] if len(pos) > 1 else const(None), st)]
        return super().on_call(I, st, node, fv, pos, kw, star)


def regrid_job(res, prog, K):
    fol = ("_regrid_if_needed",)
    for regrid, exists, same, must in ((False, True, False, True), (True, True, True, True), (False, False, True, True), (False, True, True, None)):
        outs = run(prog, K, f"    return s._regrid_if_needed(regrid={regrid})\n", GridHooks(same=same, exists=exists, follow=fol))
        if outs is None:
            decide(res, K, "_regrid_if_needed", "", "", None)
            continue
        rets = [(truthy(v), "generated" in (s.mon or ())) for k, v, s in outs if k == "ret"]
        why = "asked to" if regrid else "the mesh file is missing" if not exists else "the saved mesh has another identity" if not same else ""
        if must:
            decide(res, K, "_regrid_if_needed", f"regrid={regrid},exists={exists},same={same}", f"no new mesh is generated although {why}", None if not rets else any(not g for _, g in rets))
        else:
            decide(res, K, "_regrid_if_needed", "needless", "a mesh that matches is always generated again", None if not rets else all(g for _, g in rets))
        decide(res, K, "_regrid_if_needed", f"answer:{regrid},{exists},{same}", "the answer of the regridding step does not say whether a new mesh was generated, so old data may be kept for a new mesh",
               None if not rets else any((t is False and g) or (t is True and not g) for t, g in rets))


def load_job(res, prog, K):
    fol = ("_load_from_files", "is_new")
    for regrid in (True, False):
        outs = run(prog, K, "    s._load_from_files(reset=False, regrid=False)\n    return s.is_new\n", GridHooks(regrid=regrid, same=not regrid, exists=True, follow=fol))
        if outs is None:
            decide(res, K, "_load_from_files", "", "", None)
            continue
        rets = [(truthy(v), s.mon or ()) for k, v, s in outs if k == "ret"]
        if regrid:
            decide(res, K, "_load_from_files", "old-data", "the data saved for the old mesh is not discarded when a new mesh was generated",
                   None if not rets else any("reset" not in m or "read-reset" not in m for _, m in rets))
            decide(res, K, "_load_from_files", "not-new", "a surface whose mesh was generated again is not marked as new (the run would be resumed on a different mesh)",
                   None if not rets else any(t is False for t, _ in rets))
            decide(res, K, "_load_from_files", "old-indices", "face indices saved for the old mesh are used with a new mesh", None if not rets else any("indices-loaded" in m for _, m in rets))
        else:
            decide(res, K, "_load_from_files", "needless-reset", "the saved data is discarded although the mesh is the same and no reset was asked for",
                   None if not rets else any("reset" in m or "read-reset" in m for _, m in rets))


class MakeHooks(ProbeHooks):
    """Records what the construction of a surface asks of the loading step, and the loading step of the regridding step."""

    def __init__(self, watch, noinline):
        super().__init__(noinline)
        self.watch = watch
        self.calls = []

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k == "bound" and fv.c.name == self.watch and not (isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Call) and "super" in ast.dump(node.func.value)):
            try:
                b = I.bind(fv.c, list(pos), dict(kw), star, fv.items, node)
            except Exception:
                b = None
            self.calls.append((b if isinstance(b, dict) else dict(kw), pos, fv.c, node, I.fr.func))
            return [(const(True), st)]
        return None


MAKE = {"icosphere": "gridlevel=3", "arbitrary_resolution": "pix=1.0e5", "hireslocal": "pix=10.0, local_radius=1.0e3, local_location=(0.0, 0.0), superdomain_scale_factor=10.0"}


def asked_job(res, prog):
    """A request to regrid reaches the regridding step."""
    from checks.p02 import IMPORTS, TARGET_HEAP
    for name, args in MAKE.items():
        H = MakeHooks("_load_from_files", {"_compute_face_size", "_simdir_init", "_rng_init"})
        src = IMPORTS + f"def client(d, target):\n    return Surface.maker('{name}', target=target, {args}, simdir=d, reset=False, regrid=True)\n"
        outs, I = run_probe(prog, src, {"d": typ("str", sym=("simdir",))}, objs={"target": "Target"}, hooks=H, max_depth=20, budget=100000, heap=TARGET_HEAP)
        passed_on(res, name, H, "regrid", True, "the request to generate a new mesh does not reach the loading step")
        passed_on(res, name, H, "reset", False, "the request to keep the saved data does not reach the loading step")
    for K, _ in generators(prog):
        H = MakeHooks("_regrid_if_needed", {"read_saved_output", "reset", "extract_region", "_set_local_identifiers", "common_args"})
        run(prog, K, "    s._load_from_files(reset=False, regrid=True)\n", H)
        passed_on(res, K.name, H, "regrid", True, "the request to generate a new mesh does not reach the regridding step")
        H = MakeHooks("_load_from_files", {"maker", "curve_fit"})
        if K.method("set_superdomain") is not None:
            H = MakeHooks("_load_from_files", {"maker", "rmax", "superdomain_function"})
            run(prog, K, "    s.set_superdomain(reset=False, regrid=True)\n", H)
            passed_on(res, K.name + ".set_superdomain", H, "regrid", True, "the request to generate a new mesh does not reach the loading step")


def passed_on(res, name, H, arg, want, text):
    res.count("obligations")
    if not H.calls:
        res.count("undecided")
        return
    for kw, pos, f, node, fn in H.calls:
        i = f.params().index(arg) if arg in f.params() else None
        v = kw.get(arg)
        if v is None and i is not None and 0 <= i < len(pos):
            v = pos[i]
        if v is None or (v.k == "const" and v.c != want):
            res.add("request-lost", f"{name}|{arg}", f"{name}: {text}", fn.path, node.lineno)
            return


def generate_job(res, prog, K):
    outs = run(prog, K, "    return s._generate_grid()\n", GridHooks(same=True, ident="A", follow=("_generate_grid",)))
    if outs is None:
        return decide(res, K, "_generate_grid", "", "", None)
    rets = [s.mon or () for k, v, s in outs if k == "ret"]
    decide(res, K, "_generate_grid", "identity-not-saved", "the generated mesh is saved without its identity, or with another one",
           None if not rets else any("written" not in m or "other-id" in m for m in rets))
    outs = run(prog, K, "    return s._generate_grid()\n", GridHooks(same=False, ident="A", follow=("_generate_grid",)))
    return None


class IdHooks(ProbeHooks):
    def __init__(self, n):
        super().__init__()
        self.n = n
        self.empty_join = None

    def on_attr_read(self, I, st, node, o, attr):
        if attr == "_hashvars":
            return [(V("seq", "list", items=tuple(typ("float", frozenset({f"h{i}"}), ("h", i)) for i in range(self.n))), st)]
        return None

    def on_call(self, I, st, node, fv, pos, kw, star):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "join" and isinstance(node.func.value, ast.Constant) and node.func.value.value == "":
            self.empty_join = node
        return None


def id_job(res, prog, K):
    H = IdHooks(5)
    outs = run(prog, K, "    return s._id\n", H)
    vals = [v for k, v, s in outs or () if k == "ret"]
    decide(res, K, "_id", "identity-incomplete", "not every identity value enters the identity of the mesh", None if not vals else any({f"h{i}" for i in range(5)} - all_labels(v) for v in vals))
    decide(res, K, "_id", "identity-ambiguous", "identity values are joined without a separator: different settings can give the same identity", H.empty_join is not None)


def check(prog, tier):
    res = Result()
    jobs = [(slices, (prog,))]
    for K, _ in generators(prog):
        for j in (same_grid_job, regrid_job, load_job, generate_job, id_job):
            jobs.append((j, (prog, K)))
    jobs.append((asked_job, (prog,)))
    run_jobs(res, jobs)
    res.require("surface_types", 4)
    res.require("obligations", 60)
    res.require("settings_read_by_generators", 2)
    res.notes = ["dependence slices of every mesh generator against the values of the mesh identity, and abstract runs of the reuse decision for matching, different and missing identities"]
    return res
