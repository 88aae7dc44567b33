"""P03: exports and resets touch an existing user file only with consent.

Path rule.  Entry points: every public export/file-writing method and every reset of every
concrete component class and of the simulation.  On every path from an entry to an operation
that deletes or overwrites a file F, one of these facts must have been established before, on
that same path:
  * F was tested and does not exist,
  * the user's ask-before-overwriting switch (attribute as the user set it, or the argument of
    the call) is off,
  * a prompt naming F (or naming the whole operation) was answered with y / yes, or any
    prompt with a / all.
A switch turned off by the code itself is not consent."""
from __future__ import annotations

import ast

from sa.callgraph import Skipper, call_names, is_property, rel_names, relevance
from sa.files import FileHooks, SINK_NAMES, has_file_sink, path_key
from sa.interp import Budget, Interp, State, _mentions
from sa.model import AnalysisBroken, own_nodes
from sa.report import Result
from sa.values import V, all_labels, const, top, typ

ACCEPT = {"y", "yes", "a", "all", "Y", "A"}
ALL = {"a", "all", "A"}


class ConsentHooks(FileHooks):
    def __init__(self, prog, res, rel):
        self.prog = prog
        self.res = res
        self.rel = rel
        self.entry = None
        self.is_reset = False
        self.sites = set()
        self.viol = {}
        self.nested = set()
        self.skip = Skipper(rel_names(rel) | SINK_NAMES | {"input", "exists", "ask_overwrite", "_ask_overwrite"})

    def skip_stmt(self, I, s):
        return self.skip(s, I.fr.func)

    def partition(self, st):
        """Keep states apart that differ in the path a variable names."""
        out = []
        for n, v in st.env.items():
            for a in (v.items if v.k == "seq" and v.items and len(v.items) < 4 else (v,)):
                if a.k == "typ" and a.c == "pathlib.Path":
                    out.append((n, a.sym))
        return frozenset(out)

    def inline(self, I, func, depth):
        if func.name in I.P.helpers() and (I.fr.func.qual in self.rel or I.fr.func.name in I.P.helpers()):
            return True
        return func.qual in self.rel or func.name in ("output_filename", "ask_overwrite")

    # -- facts
    def on_attr_read(self, I, st, node, o, attr):
        if o.k == "obj" and attr in ("output_dir", "plot_dir", "config_file", "grid_file", "export_dir", "simdir"):
            lab = frozenset() if attr in ("export_dir", "simdir") else frozenset(["own"])
            if (o.oid, attr) in st.heap:
                return None
            return [(V("typ", "pathlib.Path", lab, ("attr", o.sym, attr), mn=False), st)]
        return None

    def _sync(self, st):
        """Translate branch facts into consent."""
        mon = set(st.mon or ())
        for k, v in st.facts.items():
            if k[0] == "t" and isinstance(k[1], tuple):
                s = k[1]
                if s[0] == "exists" and v is False:
                    mon.add(("fresh", s[1]))
                elif is_ask(s) and v is False:
                    mon.add("ALLOFF")
                elif s[0] == "askneg" and v is True:
                    mon.add("ALLOFF")
                elif s[0] == "accepts" and v is True:
                    mon |= grants(s[1], s[2])
                elif s[0] == "cmp" and isinstance(s[1], tuple):
                    self._eqfact(s[1], v == s[2], mon)
            elif k[0] in ("eq", "in"):
                self._eqfact(k, v, mon)
        st.mon = frozenset(mon)

    def _eqfact(self, k, v, mon):
        if k is None or not v:
            return
        if k[0] == "eq":
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if isinstance(a, tuple) and a[:2] == ("c", "str") and isinstance(b, tuple) and b and b[0] == "input":
                    if a[2] in ACCEPT:
                        mon |= grants(b, a[2])
        elif k[0] == "in":
            b, coll = k[1], k[2]
            if isinstance(b, tuple) and b and b[0] == "input" and isinstance(coll, tuple) and coll[0] == "s":
                vals = [x[2] for x in coll[1:]]
                if vals and all(x in ACCEPT for x in vals):
                    mon |= grants(b, "y")

    def forget(self, I, st, ctx):
        last = ctx[-1][0] if ctx and isinstance(ctx[-1], tuple) else ""
        if is_entry_name(last):
            # a finished export/reset: what was granted for single files is of no use any more
            st.mon = frozenset(x for x in (st.mon or ()) if isinstance(x, str))
        elif st.mon:
            st.mon = frozenset(x for x in st.mon if isinstance(x, str) or not _mentions(x[1], ctx))

    def on_branch(self, I, st, node, truth):
        self._sync(st)

    def on_return(self, I, st, fr, value):
        self._sync(st)

    def on_attr_write(self, I, st, node, o, attr, value):
        if attr.lstrip("_") == "ask_overwrite":
            self._sync(st)
            user = value.sym is not None and is_ask(value.sym)
            r = o.c.lookup(attr) if o.k == "obj" and o.c is not None else None
            if r and r[1] == "prop" and r[2].recording:
                # the recording wrapper of the setter is not followed here
                st.heap[(o.oid, "_ask_overwrite")] = value
            if not user and not (value.k == "const" and value.c is None):
                # switch changed by the code: earlier "off" knowledge is void
                st.mon = frozenset(x for x in (st.mon or ()) if x != "ALLOFF")
            for k in [k for k in st.facts if k[0] == "t" and is_ask(k[1]) and not user]:
                pass

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k == "bound" and is_entry_name(fv.c.name) and I.fr.depth >= 0 and fv.items is not None and fv.items.k == "obj":
            # analysed as an entry of its own: here only the switch it will see matters
            self._sync(st)
            self.nested.add((I.fr.func.qual, fv.c.qual))
            o = fv.items
            if not ({"ALLYES", "ALLOFF"} & (st.mon or frozenset())):
                cur = [kw.get("ask_overwrite")]
                if cur[0] is None or (cur[0].k == "const" and cur[0].c is None):
                    cur = [st.heap.get((o.oid, "_ask_overwrite"))]
                for v in cur:
                    if v is None:
                        continue
                    for a in (v.items if v.k == "union" else (v,)):
                        if a.k == "const" and a.c is False:
                            f = I.fr.func
                            self.viol.setdefault(f"{f.short}:call {fv.c.name}", (f, node, f"call of {fv.c.name} with asking switched off by the code", self.entry, ""))
            return [(I.ann_value(None, fv.c.module, I.sym(node, "entry")), st)]
        # tests and prompts
        if fv.k == "top" and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and fv.items and isinstance(fv.items[0], V):
            recv, meth = fv.items[0], node.func.attr
            if meth in ("exists", "is_file", "is_dir"):
                if meth == "exists":
                    return [(V("typ", "bool", recv.lab, ("exists", path_key(recv)), mn=False), st)]
                return [(V("typ", "bool", recv.lab, (meth, path_key(recv)), mn=False), st)]
            if meth in ("lower", "strip", "casefold", "upper") and isinstance(recv.sym, tuple) and recv.sym[0] == "input":
                return [(recv, st)]
            if meth == "startswith" and isinstance(recv.sym, tuple) and recv.sym[0] == "input" and pos and pos[0].k == "const":
                if pos[0].c in ACCEPT:
                    return [(V("typ", "bool", recv.lab, ("accepts", recv.sym, pos[0].c), mn=False), st)]
            if meth in ("resolve", "absolute", "expanduser") and I.is_pathish(recv):
                return [(V("typ", "pathlib.Path", recv.lab, ("pathnorm", recv.sym), mn=False), st)]
            if meth == "replace" and (recv.k == "typ" and recv.c == "str"):
                return [(typ("str", recv.lab, ("repl", recv.sym) + tuple(p.c if p.k == "const" else p.sym for p in pos)), st)]
        if fv.k == "ext" and fv.c == "input":
            keys = frozenset(k for p in pos for k in self._paths_in(p))
            return [(typ("str", sym=("input", keys, I.sym(node))), st)]
        if fv.k == "ext" and fv.c in ("os.path.exists", "os.path.isfile", "os.path.lexists") and pos:
            return [(V("typ", "bool", sym=("exists", path_key(pos[0])), mn=False), st)]
        if fv.k == "ext" and (fv.c.startswith("tempfile.")):
            return [(top(frozenset(["temp"]), sym=I.sym(node, "tmp"), mn=False), st)]
        return FileHooks.on_call(self, I, st, node, fv, pos, kw, star)

    def _paths_in(self, v, d=0):
        out = set()
        if d > 6:
            return out
        if v.k == "typ" and v.c == "str" and v.items and isinstance(v.items[0], tuple):
            for p in v.items[0]:
                if not isinstance(p, str):
                    out |= self._paths_in(p[1], d + 1)
                    k = path_key(p[1])
                    if k is not None:
                        out.add(k)
        return out

    def file_op(self, I, st, node, kind, p, extra=None):
        self._sync(st)
        alts = p.items if p.k == "union" else (p,)
        for a in alts:
            lab = all_labels(a)
            if "temp" in lab:
                continue
            if "own" in lab and (not self.is_reset or kind != "delete" or any(f.func.name == "save" for f in I.frames)):
                continue  # re-saving the current state into the simulation's own storage
            self.sites.add((I.fr.func.qual, kind))
            k = path_key(a)
            mon = st.mon or frozenset()
            if "ALLOFF" in mon or "ALLYES" in mon or ("yes", k) in mon or ("fresh", k) in mon:
                continue
            if kind == "write" and ("gone", k) in mon:
                continue
            f = I.fr.func
            trail = " -> ".join(f"{a}:{b}{'+' if c else '-'}" for a, b, c in st.trail[-6:])
            key = f"{f.short}:{kind}"
            if key not in self.viol:
                self.viol[key] = (f, node, kind, self.entry, trail)
        return


def grants(inp, ans):
    if ans in ALL:
        return {"ALLYES"}
    keys = inp[1]
    return {("yes", k) for k in keys} if keys else {"ALLYES"}


def is_ask(s):
    return isinstance(s, tuple) and len(s) >= 3 and ((s[0] == "attr" and s[2] in ("ask_overwrite", "_ask_overwrite") and root_user(s[1])) or
                                                     (s[0] == "p" and s[2] == "ask_overwrite") or (s[0] == "item" and s[2] == "ask_overwrite"))


def root_user(s):
    return True


def is_entry_name(n):
    return n == "reset" or n == "export" or n.startswith("export_") or (n.startswith("to_") and n.endswith("_file"))


def entries(prog):
    base = prog.cls("CratermakerBase")
    seen = set()
    for c in prog.subclasses(base):
        conc = c.registered is not None or not any(m.is_abstract for k in c.cmro() for m in k.methods.values()) or c.name.startswith("Local")
        if not (c.registered is not None or c.name in ("Simulation", "LocalSurface", "LocalHiResLocalSurface") or not prog.subclasses(c, True)):
            continue
        names = set()
        for k in c.cmro():
            names |= set(k.methods)
        for n in sorted(names):
            if n.startswith("_"):
                continue
            if is_entry_name(n):
                m = c.method(n)
                if m is None or m.is_abstract:
                    continue
                yield c, m


def all_entries(prog):
    done = set()
    for c, m in entries(prog):
        done.add(m.qual)
        yield c, m
    base = prog.cls("CratermakerBase")
    for c in prog.subclasses(base):
        for n, m in c.methods.items():
            if is_entry_name(n) and m.qual not in done and not m.is_abstract:
                yield c, m


def left_off(res, H, c, m, me, outs):
    """On no returning path may the switch be left off where the user had it on."""
    res.count("exits")
    for k, x, st in outs:
        vals = [b for a, b in st.heap.items() if a[1] == "_ask_overwrite"]
        if k != "ret":
            continue
        if any(a.k == "const" and a.c is False for v in vals for a in (v.items if v.k == "union" else (v,))):
            H._sync(st)
            if "ALLOFF" not in (st.mon or ()):
                res.add("switch-left-off", f"{c.name}.{m.name}", f"{c.name}.{m.name} returns with the overwrite question switched off by the program, so later files are overwritten unasked",
                        m.path, m.node.lineno)
                return


def _barrier(f):
    return is_property(f) or f.name in ("__init__", "maker", "read_saved_output", "plot", "show", "show3d", "pyvista_plotter", "run", "populate",
                                        "_load_from_files", "cleanup", "register")


def check(prog, tier):
    res = Result()
    rel = relevance(prog, lambda f: has_file_sink(f) or "input" in call_names(f), barrier=_barrier)
    H = ConsentHooks(prog, res, rel)
    n = 0
    for c, m in all_entries(prog):
        H.entry = f"{c.name}.{m.name}"
        H.is_reset = m.name == "reset"
        I = Interp(prog, H, max_depth=11, cap=6, budget=120000)
        st = State(mon=frozenset())
        me = I.self_obj(c)
        outs = I.run(m, st=st, self_v=me)
        n += 1
        left_off(res, H, c, m, me, outs)
        res.count("paths", I.stats["paths"])
        res.count("calls_resolved", I.stats["calls"])
    # the shared prompt itself: an answer is for one operation only
    base = prog.cls("CratermakerBase")
    m = base.method("_overwrite_check")
    if m is not None:
        I = Interp(prog, H, max_depth=11, cap=6, budget=120000)
        me = I.self_obj(base)
        H.entry, H.is_reset = "overwrite question", False
        left_off(res, H, base, m, me, I.run(m, st=State(mon=frozenset()), self_v=me))
    res.count("entry_points", n)
    res.count("destructive_sites", len(H.sites))
    for key, (f, node, kind, entry, trail) in H.viol.items():
        res.add("no-consent", key, f"{kind} of a file that may already exist is reached from {entry} without the user's consent "
                f"(decisions on the path: {trail or 'none'})", f.path, node.lineno)
    res.require("entry_points", 12)
    res.require("destructive_sites", 5)
    res.coverage["sites"] = sorted(f"{a}:{b}" for a, b in H.sites)
    res.assumptions = ["loops: first and repeated iteration", "file operations are recognised by resolved callee (pathlib, shutil, os, open, xarray/geopandas/rasterio/vtk writers)",
                       "the simulation's own storage directories may be rewritten by export (it re-saves the current state) but not by reset without consent"]
    return res
