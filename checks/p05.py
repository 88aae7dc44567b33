"""P05: saving is crash-safe.

Ordering rule over every path of every function that touches the simulation's own files (mesh, surface data, crater
lists, configuration): the previous version is never deleted or opened for writing; the new version is written
completely to a temporary file in the same file system, closed, and then moved over the old one in one step.
Deleting is left to resets and to the question to the user."""
from __future__ import annotations

import ast

from sa.callgraph import Skipper, is_property, rel_names, relevance
from sa.files import SINK_NAMES, FileHooks, has_file_sink, path_key
from sa.interp import Budget, Interp, State
from sa.par import run_jobs
from sa.report import Result
from sa.probe import run_probe
from sa.values import V, all_labels, const, top, typ

OWN_DIRS = ("output_dir", "config_file", "grid_file", "local_grid_indices_file", "_output_dir")
from checks.p03 import is_entry_name  # noqa: E402


class SaveHooks(FileHooks):
    def __init__(self, prog, res, rel):
        self.prog, self.res, self.rel = prog, res, rel
        self.skip = Skipper(rel_names(rel) | SINK_NAMES | {"exists", "tempfile"})
        self.sites = set()
        self.viol = {}
        self.entry = None

    def skip_stmt(self, I, s):
        return self.skip(s, I.fr.func)

    def partition(self, st):
        out = []
        for n, v in st.env.items():
            if v.k == "typ" and v.c == "pathlib.Path":
                out.append((n, v.sym))
        return frozenset(out)

    def inline(self, I, func, depth):
        if func.name in I.P.helpers() and (I.fr.func.qual in self.rel or I.fr.func.name in I.P.helpers()):
            return True
        return func.qual in self.rel and not is_entry_name(func.name)

    def on_attr_read(self, I, st, node, o, attr):
        if o.k == "obj" and attr in OWN_DIRS and o.c is not None:
            if (o.oid, attr) in st.heap:
                return None
            local = any(c.name == "LocalSurface" for c in o.c.cmro())
            lab = {"own"}
            if attr == "local_grid_indices_file" or (local and attr == "grid_file"):
                lab.add("derived")
            return [(V("typ", "pathlib.Path", frozenset(lab), ("attr", o.sym, attr), mn=False), st)]
        return None

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k == "bound" and is_entry_name(fv.c.name) and fv.items is not None and fv.items.k == "obj":
            return [(I.ann_value(None, fv.c.module, I.sym(node, "entry")), st)]
        if fv.k == "top" and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and fv.items and isinstance(fv.items[0], V):
            recv, meth = fv.items[0], node.func.attr
            if meth in ("exists", "is_file"):
                return [(V("typ", "bool", frozenset(), ("exists", path_key(recv)), mn=False), st)]
            if meth in ("resolve", "absolute", "expanduser") and I.is_pathish(recv):
                return [(V("typ", "pathlib.Path", recv.lab, ("pathnorm", recv.sym), mn=False), st)]
            if meth in ("with_suffix", "with_name", "with_stem", "joinpath") and I.is_pathish(recv):
                return [(V("typ", "pathlib.Path", recv.lab, ("repl", meth, recv.sym) + tuple(p.c if p.k == "const" else p.sym for p in pos), mn=False), st)]
            if meth == "replace" and recv.k == "typ" and recv.c == "str":
                return [(typ("str", recv.lab, ("repl", recv.sym) + tuple(p.c if p.k == "const" else p.sym for p in pos)), st)]
            if meth == "close" and "temp" not in recv.lab:
                k = handle_key(recv)
                if k is not None:
                    s2 = st.copy()
                    s2.mon = frozenset(x for x in (st.mon or ()) if x != ("open", k))
                    return [(top(), s2)]
        if fv.k == "ext" and fv.c.startswith("tempfile."):
            d = kw.get("dir")
            lab = {"temp"}
            if d is not None and not (d.k == "const" and d.c is None):
                lab.add("beside" if "own" in all_labels(d) else "elsewhere?")
            return [(top(frozenset(lab), sym=I.sym(node, "tmp"), mn=False), st)]
        if fv.k == "ext" and fv.c == "os.path.exists" and pos:
            return [(V("typ", "bool", sym=("exists", path_key(pos[0])), mn=False), st)]
        ops = self.classify(I, st, node, fv, pos, kw)
        if not ops:
            return None
        s2 = st.copy()
        for kind, p, extra in ops:
            if p is None:
                continue
            for a in p.items if p.k == "union" else (p,):
                self.op(I, s2, node, kind, a, extra)
        name = fv.c if fv.k == "ext" else node.func.attr
        if name.split(".")[-1] == "open":
            # the handle: its content is complete when it is closed
            k = path_key(ops[0][1])
            s2.mon = frozenset(s2.mon or ()) | {("open", k)}
            return [(top(ops[0][1].lab - {"own"}, sym=("handle", k), mn=False), s2)]
        return [(top(sym=I.sym(node, "io")), s2)]

    def leave_ctx(self, I, st, v):
        k = handle_key(v)
        if k is not None and ("open", k) in (st.mon or ()):
            st = st.copy()
            st.mon = frozenset(x for x in st.mon if x != ("open", k))
        return st

    def report(self, I, node, rule, text, key=None):
        f = I.fr.func
        self.viol.setdefault((f.short, rule), (f, node, text))

    def op(self, I, st, node, kind, p, extra):
        lab = all_labels(p)
        own = "own" in lab and "temp" not in lab
        k = path_key(p)
        mon = set(st.mon or ())
        if own or "temp" in lab:
            self.sites.add((I.fr.func.qual, kind, node.lineno))
        if kind == "delete":
            if own and "derived" not in lab:
                fresh = any(a[0] == "t" and a[1] == ("exists", k) and v is False for a, v in st.facts.items())
                if ("made", k) in mon or ("wrote", k) in [m[:2] for m in mon]:
                    mon = {m for m in mon if m[:2] != ("wrote", k)}
                elif not fresh and not self.resetting(I, st, node):
                    self.report(I, node, "deleted", "deletes a saved file that is still needed if what follows fails")
        elif kind == "write":
            if ("moved", k) in mon:
                self.report(I, node, "written-late", "writes to a temporary file after it was moved into place")
            if own:
                mon.add(("wrote", k, id(node), I.fr.func.qual))
                self.nodes[id(node)] = (I.fr.func, node)
        elif kind == "move":
            sk = path_key(extra) if extra is not None else None
            sl = all_labels(extra) if extra is not None else frozenset()
            if own or "own" in sl:
                if sk is not None and ("open", sk) in mon:
                    self.report(I, node, "moved-open", "moves a file into place before it is closed, so it may be incomplete")
                if "temp" in sl and "beside" not in sl:
                    self.report(I, node, "other-file-system", "moves a temporary file made in the system's temporary directory: across file systems that is a copy, which can be cut short")
                if "own" in sl and "temp" not in sl and not any(m[:2] in (("wrote", sk), ("made", sk)) for m in mon) and "temp" not in lab and own:
                    # moving the current version away leaves nothing in its place
                    if not self.resetting(I, st, node):
                        self.report(I, node, "deleted", "moves a saved file out of the way before its replacement is in place")
                mon = {m for m in mon if m[:2] != ("wrote", sk)}
                if self.entry == "Simulation.save" and not config_key(k) and any(m[0] == "made" and config_key(m[1]) for m in mon):
                    self.report(I, node, "state-before-data", "saves data after the configuration that records their state: a crash in between leaves a state without its data")
                mon.add(("moved", sk))
                mon.add(("made", k))
        st.mon = frozenset(mon)

    def resetting(self, I, st, node):
        if any(fr.func.name in ("reset", "_overwrite_check") for fr in I.frames):
            return True
        for a, v in st.facts.items():
            if a[0] == "t" and v is True and mentions(a[1], ("reset", "_reset")):
                return True
        # on the branch taken when a reset was asked for
        stack = [(I.fr.func.node, ())]
        while stack:
            n, conds = stack.pop()
            if n is node:
                return any("reset" in name for c in conds for name in words(c))
            for field, val in ast.iter_fields(n):
                for ch in val if isinstance(val, list) else [val]:
                    if isinstance(ch, ast.AST):
                        stack.append((ch, conds + ((n.test,) if isinstance(n, ast.If) and field == "body" else ())))
        return False


def words(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            yield n.id
        elif isinstance(n, ast.Attribute):
            yield n.attr


def config_key(k):
    return isinstance(k, tuple) and len(k) == 3 and k[0] == "attr" and k[2] == "config_file"


def mentions(s, names):
    if isinstance(s, tuple):
        return any(mentions(x, names) for x in s)
    return isinstance(s, str) and s in names


def handle_key(v):
    return v.sym[1] if isinstance(v.sym, tuple) and v.sym and v.sym[0] == "handle" else None


def one(res, prog, rel, f):
    H = SaveHooks(prog, res, rel)
    H.entry = f.short
    H.nodes = {}
    I = Interp(prog, H, max_depth=10, cap=8, budget=60000)
    try:
        outs = I.run(f, st=State(mon=frozenset()), self_v=I.self_obj(f.cls) if f.cls is not None and not f.is_static else None)
    except Budget:
        res.count("gave_up")
        outs = ()
    res.count("functions")
    res.count("paths", len(outs))
    for k, v, st in outs:
        if k != "ret":
            continue
        for m in st.mon or ():
            if m[0] == "wrote":
                g, node = H.nodes.get(m[2], (f, f.node))
                H.viol.setdefault((g.short, "in-place"), (g, node, "writes a saved file in place: an error or a crash in the middle leaves it truncated"))
    for (short, rule), (g, node, text) in H.viol.items():
        res.add(rule, short, f"{short} {text}", g.path, node.lineno)
    res.coverage["sites"] = set(H.sites)


STATE = {"interval": const(3), "time": const(10.0), "elapsed_time": const(20.0), "elapsed_n1": const(30.0)}


def state_first(res, prog, name):
    """Assigning the state of a run does not by itself commit it to the configuration file (its data are not saved yet)."""
    rel = relevance(prog, has_file_sink)
    H = SaveHooks(prog, res, rel)
    H.nodes = {}
    H.inline = lambda I, func, depth: func.name in ("__setattr__", name, "to_config") or func.qual in rel
    H.skip_stmt = lambda I, s: False
    src = f"def client(o, v):\n    o._user_defined = set(['{name}'])\n    o._config_readonly = False\n    o.{name} = v\n    return None\n"
    outs, I = run_probe(prog, src, {"v": STATE[name]}, {"o": "Simulation"}, hooks=H, mon=frozenset())
    if outs is None:
        res.count("undecided")
        return
    res.count("state_settings")
    for k, v, st in outs:
        if any(m[0] == "made" and config_key(m[1]) or m[0] == "wrote" and config_key(m[1]) for m in st.mon or ()):
            f = prog.cls("Simulation").method("__setattr__") or prog.cls("Simulation").method("__init__")
            res.add("state-before-data", name, f"setting the {name} of a run writes the configuration at once: a crash before the data of that state are saved leaves a state without its data", f.path, f.node.lineno)
            return


def resumed_data(res, prog):
    """A resumed simulation reads the data of the interval its saved state names, not merely the latest there are."""
    from checks.p02 import IMPORTS, SimHooks, saved_config
    from sa.values import all_labels as labels
    H = SimHooks(prog, saved_config())
    outs, I = run_probe(prog, IMPORTS + "def client(d):\n    s = Simulation(simdir=d, ask_overwrite=False, reset=False)\n    return s\n", {"d": typ("str", sym=("simdir",))}, hooks=H,
                        max_depth=20, max_rec=3, budget=150000)
    calls = [c for c in H.calls.get("Surface", ()) if c[3].cls is not None and c[3].cls.name == "Simulation"]
    if outs is None or not calls:
        res.count("undecided")
        return
    res.count("resume_loads")
    for pos, kw, node, fn in calls:
        if not any(v.k == "const" and v.c == 7 for v in kw.values()):
            res.add("resume-loads-latest", "Surface", "a resumed simulation loads the latest surface data there are instead of those of the interval in its saved state", fn.path, node.lineno)
            return


def check(prog, tier):
    res = Result()
    barrier = lambda f: (is_property(f) and not has_file_sink(f)) or f.name in ("__init__", "maker", "plot", "show", "show3d", "pyvista_plotter", "run", "populate", "register") or \
        (is_entry_name(f.name) and f.name != "reset")  # noqa: E731
    rel = relevance(prog, has_file_sink, barrier=barrier)
    H = SaveHooks(prog, res, rel)
    funcs = [f for f in prog.all_funcs() if f.qual in rel and f.parent is None and not isinstance(f.node, ast.Lambda)]
    run_jobs(res, [(one, (prog, rel, f)) for f in funcs] + [(state_first, (prog, n)) for n in STATE] + [(resumed_data, (prog,))])
    res.coverage["file_operations"] = len(res.coverage.get("sites", ()))
    res.coverage["sites"] = sorted(f"{a}:{b}" for a, b, _ in res.coverage.get("sites", ()))
    res.require("functions", 15)
    res.require("state_settings", 4)
    res.require("file_operations", 5)
    res.assumptions = ["a rename within one file system is one step", "writers complete the file they are given before they return, open handles when they are closed"]
    return res
