"""P16: craters are emplaced in the order of their time or of the list, each once, and only craters that do not overlap share a batch.

Abstract clients drive the queue with three craters, of which nothing is known but who they are; the sets of nodes and faces they
touch are opaque, every test of them is followed both ways and remembered with what it says.
"""
from __future__ import annotations

import ast

from sa.probe import ProbeHooks, run_probe
from sa.report import Result
from sa.values import V, Interval, const, top, typ

def parts(mon, s):
    """The sets of craters that a set value is made of."""
    if isinstance(s, tuple) and s:
        if s[0] == "touched":
            return {s}
        if s[0] == "or":
            return parts(mon, s[1]) | parts(mon, s[2])
        if s[0] == "rs":
            out = set()
            for e in mon or ():
                if e == ("new", s):
                    out = set()
                elif e[0] == "upd" and e[1] == s:
                    out |= e[2]
            return out
        if s[0] in ("set", "copy"):
            return parts(mon, s[1])
    return {("unknown",)}


def who(v):
    """The crater a value stands for."""
    o = getattr(v, "oid", None)
    while isinstance(o, tuple) and len(o) == 2 and o[0] == "o":
        o = o[1]
    return o


class Queue(ProbeHooks):
    def __init__(self):
        super().__init__(set())

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k == "ext" and fv.c == "OVERLAP":
            who = pos[0].oid if pos else None
            sets = tuple(typ("set", sym=("touched", k, who)) for k in ("nodes", "faces"))
            return [(V("seq", "tuple", items=sets, mn=False), st)]
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in ("set", "frozenset") and isinstance(f, ast.Name):
            if not pos:
                s = st.copy()
                s.mon = (s.mon or ()) + (("new", ("rs", id(node))),)
                return [(typ("set", sym=("rs", id(node))), s)]
            return [(typ("set", sym=("set", pos[0].sym)), st)]
        if isinstance(f, ast.Attribute) and fv.k not in ("fn", "bound"):
            if name in ("update", "isdisjoint", "intersection", "union", "copy", "issubset"):
                outs = []
                for o, s in I.ev(f.value, st):
                    if o.k == "typ" and o.c == "set" and isinstance(o.sym, tuple):
                        outs += self.set_op(name, o, pos, s, node)
                if outs:
                    return outs
        if name == "remove_complex_data":
            return [(top(mn=False), st)]
        return super().on_call(I, st, node, fv, pos, kw, star)

    def set_op(self, name, o, pos, st, node):
        if name == "copy":
            return [(typ("set", sym=("copy", o.sym)), st)]
        a = pos[0].sym if pos else None
        if name == "union":
            s = o.sym
            for p in pos:
                s = ("or", s, p.sym)
            return [(typ("set", sym=s), st)]
        if name == "intersection":
            return [(typ("set", sym=("and", o.sym, a)), st)]
        st = st.copy()
        if name == "update":
            got = set()
            for p in pos:
                got |= parts(st.mon, p.sym)
            st.mon = (st.mon or ()) + (("upd", o.sym, frozenset(got)),)
            return [(const(None), st)]
        if name == "isdisjoint":
            outs = []
            l, r = parts(st.mon, o.sym), parts(st.mon, a)
            for t in (True, False) if l and r else (True,):
                x = st.copy()
                x.mon = (st.mon or ()) + (("disjoint", frozenset(l), frozenset(r), t),)
                outs.append((const(t), x))
            return outs
        return [(top(mn=False), st)]

    def on_binop(self, I, st, node, op, l, r, res):
        if isinstance(op, (ast.BitOr, ast.BitAnd)) and l.k == "typ" and l.c == "set":
            return typ("set", sym=("or" if isinstance(op, ast.BitOr) else "and", l.sym, r.sym))
        return res


class Emplace(Queue):
    """Follows craters from the request to their formation."""

    def __init__(self, mode):
        super().__init__()
        self.mode = mode            # what is known of overlaps: None, "apart", "touching"

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k in ("fn", "bound"):
            n = fv.c.name
            if n == "overlap_function":
                w = who(pos[-1]) if pos else None
                return [(V("seq", "tuple", items=tuple(typ("set", sym=("touched", k, w)) for k in ("nodes", "faces")), mn=False), st)]
            if n == "form_crater":
                c = pos[0] if pos else kw.get("crater")
                s = st.copy()
                s.mon = (s.mon or ()) + (("form", who(c)),)
                return [(const(None), s)]
            if n == "maker" and fv.c.cls is not None and (fv.c.cls.name == "Crater" or any(k.name == "Crater" for k in fv.c.cls.cmro())):
                given = [p for p in list(pos) + list(kw.values()) if p.k == "obj" and p.c.lookup("maker") and any(k.name == "Crater" for k in p.c.cmro())]
                rec = fv.items if isinstance(fv.items, V) and fv.items.k == "cls" else V("cls", fv.c.cls)
                return [(V("obj", rec.c, sym=("made", node.lineno), oid=who(given[0]) if given else "new", mn=False), st)]
            if n in ("compute_subpixel_degradation", "tally", "apply_subpixel_degradation", "form_ejecta"):
                return [(top(mn=False), st)]
        if isinstance(node.func, ast.Attribute) and node.func.attr == "tqdm" or getattr(node.func, "id", "") == "tqdm":
            if pos:
                return [(pos[0], st)]
        return super().on_call(I, st, node, fv, pos, kw, star)

    def set_op(self, name, o, pos, st, node):
        if name == "isdisjoint" and self.mode is not None:
            l, r = parts(st.mon, o.sym), parts(st.mon, pos[0].sym if pos else None)
            return [(const(self.mode == "apart" or not l or not r), st)]
        return super().set_op(name, o, pos, st, node)

    def on_attr_read(self, I, st, node, obj, attr):
        if attr == "emplaceable" and obj.k == "obj":
            known = next((e[2] for e in st.mon or () if e[0] == "emplaceable" and e[1] == who(obj)), None)
            if known is not None:
                return const(known)
            if self.mode is not None:
                return const(True)
            outs = []
            for t in (True, False):
                s = st.copy()
                s.mon = (s.mon or ()) + (("emplaceable", who(obj), t),)
                outs.append((const(t), s))
            return outs
        return super().on_attr_read(I, st, node, obj, attr)


def manager(prog, res):
    if not prog.has_cls("CraterQueueManager"):
        res.count("undecided")
        return
    k = prog.cls("CraterQueueManager")
    f = k.methods.get("peek_next_batch") or next(iter(k.methods.values()))
    where = (f.path, f.node.lineno)
    args = {"Q": V("cls", k), "fn": V("ext", "OVERLAP")}
    objs = {n: "MorphologyCrater" for n in "abc"}
    head = "def client(Q, fn, a, b, c):\n    q = Q(fn)\n    q.push(a)\n    q.push(b)\n    q.push(c)\n"

    def run(body):
        outs, I = run_probe(prog, head + body, args, objs=objs, hooks=Queue(), mon=(), cap=30, budget=60000)
        return [o for o in outs or () if o[0] == "ret"] if outs is not None else None

    def names(v):
        return [i.oid for i in v.items] if v.k == "seq" and all(i.k == "obj" for i in v.items) else None

    outs = run("    return q.peek_next_batch()\n")
    for _, v, s in outs or ():
        got = names(v)
        if got is None:
            res.count("undecided")
            continue
        res.count("batches")
        if got != ["a", "b", "c"][: len(got)]:
            res.add("batch", f"{f.short}|order", f"{f.short}: of the craters 1, 2, 3 waiting, a batch holds {said(got)}: not the ones that have waited longest, in their order", *where)
        if not got:
            res.add("batch", f"{f.short}|empty", f"{f.short}: with craters waiting a batch can be empty, so the queue is never worked off", *where)
        for n, x in enumerate(got):
            for y in got[:n]:
                for what in ("nodes", "faces"):
                    res.count("overlaps_checked")
                    if not any(e[0] == "disjoint" and e[3] and ((("touched", what, x) in e[1] and ("touched", what, y) in e[2]) or (("touched", what, y) in e[1] and ("touched", what, x) in e[2])) for e in s.mon):
                        if any(e[0] == "disjoint" and ("unknown",) in e[1] | e[2] for e in s.mon) or not any(e[0] == "disjoint" for e in s.mon):
                            res.count("undecided")
                            continue
                        res.add("batch", f"{f.short}|{what}", f"{f.short}: craters {said([y])} and {said([x])} share a batch although nothing established that they touch different {what}", *where)
    for body, want in (("    q.pop_batch([a])\n    return q.peek_next_batch()\n", ["b"]), ("    q.pop_batch([a, b])\n    return q.peek_next_batch()\n", ["c"]),
                       ("    q.pop_batch(q.peek_next_batch())\n    return q.peek_next_batch()\n", None)):
        for _, v, s in run(body) or ():
            got = names(v)
            if got is None:
                res.count("undecided")
                continue
            res.count("removals")
            if want is not None and got[:1] != want:
                res.add("removal", f"{f.short}|removed", f"{k.name}: after the first {'crater is' if want == ['b'] else 'two craters are'} removed the next batch starts with {said(got[:1])}", *where)
            if want is None and "a" in got:
                res.add("removal", f"{f.short}|removed", f"{k.name}: a crater is in two batches", *where)
    for body, want in (("    return q.is_empty\n", False), ("    q.pop_batch([a, b, c])\n    return q.is_empty\n", True), ("    q.pop_batch([a, b])\n    return q.is_empty\n", False)):
        for _, v, s in run(body) or ():
            if v.k != "const":
                res.count("undecided")
                continue
            res.count("removals")
            if bool(v.c) != want:
                res.add("removal", f"{f.short}|empty", f"{k.name}: the queue counts as {'empty while craters wait' if not want else 'not empty after all craters are removed'}", *where)


def said(names):
    return "nothing" if not names else ", ".join({"a": "1", "b": "2", "c": "3"}.get(n, str(n)) for n in names)


MORPH = {"BasicMoonMorphology": "BasicMoonCrater"}


def requests(prog):
    """(label, client source, objects, order expected) for the emplacement of craters."""
    out = []
    eleven = [f"c{n}" for n in range(11)]
    for kind, cls in (("craters of the morphology", "BasicMoonCrater"), ("plain craters", "Crater")):
        two = {"a": cls, "b": cls}
        out.append((f"a list of two {kind}", "def client(o, a, b):\n    return o.emplace([a, b])\n", two, ["a", "b"], (None, "apart", "touching")))
        out.append((f"a tuple of two {kind}", "def client(o, a, b):\n    return o.emplace((a, b))\n", two, ["a", "b"], ("apart",)))
        out.append((f"one of the {kind}", "def client(o, a):\n    return o.emplace(a)\n", {"a": cls}, ["a"], (None,)))
    out.append(("a list of eleven craters", f"def client(o, {', '.join(eleven)}):\n    return o.emplace([{', '.join(eleven)}])\n", {n: "BasicMoonCrater" for n in eleven}, eleven, ("apart",)))
    out.append(("two requests in a row", "def client(o, a, b):\n    o.emplace(a)\n    return o.emplace([b])\n", {"a": "BasicMoonCrater", "b": "BasicMoonCrater"}, ["a", "b"], ("apart",)))
    out.append(("a diameter", "def client(o):\n    return o.emplace(diameter=1000.0)\n", {}, ["new"], (None,)))
    return out


def emplacement(prog, res):
    for owner in ("Simulation", "BasicMoonMorphology", "RealisticMoonMorphology"):
        if not prog.has_cls(owner):
            continue
        r = prog.cls(owner).lookup("emplace")
        f = r[2]
        where = (f.path, f.node.lineno)
        for label, src, objs, want, modes in requests(prog):
            if owner != "Simulation" and len(want) > 2:
                continue
            for mode in modes:
                heap = {("o", "_counting"): V("obj", prog.cls("DepthCount"), sym="cnt", oid="cnt", mn=False)}
                if owner == "Simulation":
                    heap = {("o", "_morphology"): V("obj", prog.cls("BasicMoonMorphology"), sym="m", oid="m", mn=False), ("m", "_queue_manager"): const(None)}
                else:
                    heap[("o", "_queue_manager")] = const(None)
                outs, I = run_probe(prog, src, {}, objs={"o": owner, **objs}, hooks=Emplace(mode), heap=heap, mon=(), cap=40, budget=150000, loop=4)
                if outs is None:
                    res.count("undecided")
                    continue
                if outs and not any(o[0] == "ret" for o in outs):
                    res.add("emplaced", f"{f.short}|refused|{label}", f"{f.short}: {label} is refused", *where)
                for k, v, s in outs:
                    if k != "ret":
                        continue
                    res.count("requests_followed")
                    small = {e[1] for e in s.mon or () if e[0] == "emplaceable" and not e[2]}
                    exp = [c for c in want if c not in small]
                    got = [e[1] for e in s.mon or () if e[0] == "form" and e[1] not in small]
                    if got == exp:
                        continue
                    if any(g not in want for g in got):
                        res.count("undecided")
                        continue
                    missing = [c for c in exp if c not in got]
                    twice = [c for c in exp if got.count(c) > 1]
                    how = "is never formed" if missing else "is formed more than once" if twice else "are formed in another order"
                    who = f"one of {label}" if missing or twice else label
                    touch = {"apart": ", none touching another,", "touching": ", all touching,", None: ""}[mode]
                    res.add("emplaced", f"{f.short}|{how}", f"{f.short}: given {label}{touch} {who if missing or twice else 'the craters'} {how}", *where)


class Form(Emplace):
    """Follows the formation of one crater."""

    def on_call(self, I, st, node, fv, pos, kw, star):
        f = node.func
        n = fv.c.name if fv.k in ("fn", "bound") else f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        own = fv.c.cls.name if fv.k in ("fn", "bound") and fv.c.cls is not None else ""
        if n in ("update_elevation", "form_ejecta", "compute_volume", "slope_collapse", "crater_shape", "extract_subregion", "add_data") or n == "add" and own == "Counting":
            s = st.copy()
            if n in ("update_elevation", "form_ejecta", "add"):
                c = pos[0] if pos else kw.get("crater")
                s.mon = (s.mon or ()) + ((n, who(c) if n != "update_elevation" and c is not None else None),)
            return [(top(sym=I.sym(node, n), mn=n == "extract_subregion"), s)]
        if n == "form_crater":
            return ProbeHooks.on_call(self, I, st, node, fv, pos, kw, star)
        return super().on_call(I, st, node, fv, pos, kw, star)

    def on_attr_read(self, I, st, node, obj, attr):
        if attr == "do_counting" and obj.k == "obj":
            outs = []
            for t in (True, False):
                s = st.copy()
                s.mon = (s.mon or ()) + (("do_counting", t),)
                outs.append((const(t), s))
            return outs
        return super().on_attr_read(I, st, node, obj, attr)


def formation(prog, res):
    for owner in ("BasicMoonMorphology", "RealisticMoonMorphology"):
        if not prog.has_cls(owner):
            continue
        f = prog.cls(owner).lookup("form_crater")[2]
        where = (f.path, f.node.lineno)
        heap = {("o", "_counting"): V("obj", prog.cls("DepthCount"), sym="cnt", oid="cnt", mn=False), ("cnt", "_emplaced"): V("seq", "list", sym="list", items=(), mn=False)}
        outs, I = run_probe(prog, "def client(o, a):\n    return o.form_crater(a)\n", {}, objs={"o": owner, "a": "BasicMoonCrater"}, hooks=Form(None), heap=heap, mon=(), cap=40, budget=150000)
        if outs is None:
            res.count("undecided")
            continue
        fit = [s for k, v, s in outs if k == "ret" and ("emplaceable", "a", False) not in (s.mon or ())]
        if not any(e[0] == "update_elevation" for s in fit for e in s.mon or ()):
            res.add("recorded", f"{f.short}|formed", f"{f.short}: a crater that is large enough for the mesh never changes its elevation", *where)
        for k, v, s in outs:
            if k != "ret":
                continue
            res.count("formations_followed")
            mon = s.mon or ()
            kinds = [e[0] for e in mon]
            changed = "update_elevation" in kinds
            rec = s.heap.get(("cnt", "_emplaced"))
            small = ("emplaceable", "a", False) in mon
            if changed and small:
                res.add("recorded", f"{f.short}|small", f"{f.short}: a crater too small for the mesh changes its elevation", *where)
            if rec is not None and rec.k == "seq":
                n = len([i for i in rec.items if who(i) == "a"])
                res.count("records_checked")
                if n != (1 if changed else 0):
                    res.add("recorded", f"{f.short}|emplaced", f"{f.short}: a crater that {'changes' if changed else 'does not change'} the surface is recorded {n} times among the emplaced craters", *where)
            for e in ("form_ejecta",):
                if kinds.count(e) != (1 if changed else 0):
                    res.add("recorded", f"{f.short}|ejecta", f"{f.short}: a crater that {'changes' if changed else 'does not change'} the surface has its ejecta formed {kinds.count(e)} times", *where)
            told = [e[1] for e in mon if e[0] == "do_counting"]
            if changed and told:
                res.count("records_checked")
                if kinds.count("add") != (1 if told[-1] else 0):
                    res.add("recorded", f"{f.short}|counted", f"{f.short}: with counting {'on' if told[-1] else 'off'} a new crater is handed to the counting {kinds.count('add')} times", *where)
            elif changed and "add" not in kinds:
                res.add("recorded", f"{f.short}|counted", f"{f.short}: a new crater is not handed to the counting", *where)


def sort_key(node):
    """What a sort orders by: "age" for decreasing time, "other", or None when it cannot be told."""
    kw = {k.arg: k.value for k in node.keywords}
    key, rev = kw.get("key"), kw.get("reverse")
    if key is None or None in kw or rev is not None and not isinstance(rev, ast.Constant):
        return None
    down = bool(rev.value) if rev is not None else False
    if isinstance(key, ast.Lambda) and len(key.args.args) == 1:
        b = key.body
        if isinstance(b, ast.UnaryOp) and isinstance(b.op, ast.USub):
            b, down = b.operand, not down
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == key.args.args[0].arg:
            return "age" if b.attr == "time" and down else "other"
        if isinstance(b, ast.Tuple) and b.elts and down and isinstance(b.elts[0], ast.Attribute) and b.elts[0].attr == "time":
            return "age"
    if isinstance(key, ast.Call) and key.args and isinstance(key.args[0], ast.Constant) and getattr(key.func, "attr", getattr(key.func, "id", "")) == "attrgetter":
        return "age" if key.args[0].value == "time" and down else "other"
    return None


class Order(ProbeHooks):
    """Follows a list of craters: made, sorted, merged, emplaced."""

    def __init__(self, stop, module):
        super().__init__({"_rng_init", "_simdir_init"})
        self.stop, self.module = stop, module

    def inline(self, I, func, depth):
        """Only what the module itself does with the list matters."""
        return (func.module is self.module or func.module.name.startswith("sa_client")) and not any(d.split(".")[-1] in ("property", "parameter", "cached_property") for d in func.decos)

    @staticmethod
    def rec(st, *ev):
        s = st.copy()
        s.mon = (s.mon or ()) + (ev,)
        return s

    def on_call(self, I, st, node, fv, pos, kw, star):
        f = node.func
        n = fv.c.name if fv.k in ("fn", "bound") else f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if fv.k in ("fn", "bound"):
            own = fv.c.cls.name if fv.c.cls is not None else ""
            if n == "maker" and (own == "Crater" or any(k.name == "Crater" for k in (fv.c.cls.cmro() if fv.c.cls is not None else ()))):
                return [(V("obj", fv.c.cls, sym=I.sym(node, "made"), oid=I.sym(node, "made"), mn=False), self.rec(st, "made", node.lineno))]
            if n in self.stop:
                return [(typ("list", sym=I.sym(node, n)), self.rec(st, n, node.lineno))]
            if n in ("_validate_run_args", "_validate_sample_args"):
                return [(V("dict", top(mn=True), sym=I.sym(node, n), items=()), st)]
            if n in ("compute_time", "sample", "get_random_location_on_face", "_get_diameter_limit"):
                v = top(sym=I.sym(node, n), mn=False)
                return [(V("seq", "tuple", items=(v, v), mn=False) if n == "sample" else v, st)]
        elif n == "maker":
            return [(top(sym=I.sym(node, "made"), mn=False), self.rec(st, "made", node.lineno))]
        elif n == "sort" and isinstance(f, ast.Attribute) or n == "sorted" and isinstance(f, ast.Name):
            st.mon = (st.mon or ()) + (("sort", sort_key(node), node.lineno),)
        elif n in ("argsort", "lexsort", "shuffle", "permutation", "reverse", "reversed", "heapify"):
            st.mon = (st.mon or ()) + (("sort", None, node.lineno),)
        if n == "tqdm" and pos:
            return [(pos[0], st)]
        return super().on_call(I, st, node, fv, pos, kw, star)


def order(prog, res):
    f = prog.cls("Simulation").lookup("populate")[2]
    heap = {("o", "_production"): V("obj", prog.cls("NeukumProduction"), sym="prod", oid="prod", mn=False), ("o", "_surface"): V("obj", prog.cls("IcosphereSurface"), sym="surf", oid="surf", mn=False),
            ("o", "_morphology"): V("obj", prog.cls("BasicMoonMorphology"), sym="m", oid="m", mn=False)}
    outs, I = run_probe(prog, "def client(o, S, E):\n    return o.populate(time_start=S, time_end=E)\n", {"S": typ("float", sym="S"), "E": typ("float", sym="E")},
                        objs={"o": "Simulation"}, hooks=Order({"emplace", "quasimc_merge"}, f.module), heap=heap, mon=(), cap=40, budget=150000)
    if outs is None:
        res.count("undecided")
    for k, v, s in outs or ():
        if k != "ret":
            continue
        last = None
        for e in s.mon or ():
            if e[0] in ("made", "sort", "quasimc_merge"):
                last = e
            elif e[0] == "emplace" and last is not None:
                res.count("populations_followed")
                if last[0] == "made":
                    res.add("order", f"{f.short}|unsorted", f"{f.short}: generated craters are emplaced without having been put in the order of their time", f.path, e[1])
                elif last[0] == "sort" and last[1] == "other":
                    res.add("order", f"{f.short}|sorted", f"{f.short}: generated craters are emplaced in another order than from the oldest to the youngest", f.path, last[2])
    f = prog.cls("Production").lookup("quasimc_merge")[2]
    for label, L in (("craters", typ("list", sym="L")),):
        outs, I = run_probe(prog, "def client(o, L, S, E):\n    return o.quasimc_merge(L, time_start=S, time_end=E)\n", {"L": V("typ", "list", sym="L", items=(V("obj", prog.cls("Crater"), sym="one", oid="one", mn=False),), mn=False), "S": typ("float", sym="S"), "E": typ("float", sym="E")},
                            objs={"o": "NeukumProduction"}, hooks=Order(set(), f.module), heap={("o", "_quasimc_craters"): V("typ", "list", sym="qmc", mn=False)}, mon=(), cap=40, budget=150000)
        if outs is None:
            res.count("undecided")
        for k, v, s in outs or ():
            if k != "ret" or v.k == "seq" and not v.items:
                continue
            sorts = [e for e in s.mon or () if e[0] == "sort"]
            res.count("merges_followed")
            if not sorts:
                res.add("order", f"{f.short}|unsorted", f"{f.short}: the merged craters are returned without having been put in the order of their time", f.path, f.node.lineno)
            elif sorts[-1][1] == "other":
                res.add("order", f"{f.short}|sorted", f"{f.short}: the merged craters are returned in another order than from the oldest to the youngest", f.path, sorts[-1][2])


class Merge(Order):
    """Merging with the planned craters when it is known which of them belong to the interval."""

    def __init__(self, module, planned, times):
        super().__init__(set(), module)
        self.planned, self.times = planned, times

    def on_attr_read(self, I, st, node, obj, attr):
        if attr in ("quasimc_craters", "_quasimc_craters"):
            return self.planned
        if obj.k == "obj" and who(obj) in self.times:
            if attr == "time":
                return self.times[who(obj)]
            if attr == "diameter":
                return typ("float", sym=("diameter", who(obj)))
        return super().on_attr_read(I, st, node, obj, attr)

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k in ("fn", "bound") and fv.c.name == "_validate_sample_args":
            return [(V("dict", top(), sym="args", items=(("time_start", const(3.0)), ("time_end", const(0.5))), mn=False), st)]
        return super().on_call(I, st, node, fv, pos, kw, star)


INSIDE = V("num", "float", sym="t", num=Interval(1.0, 2.0), mn=False)
EARLY = V("num", "float", sym="t", num=Interval(4.0, 5.0), mn=False)
LATE = V("num", "float", sym="t", num=Interval(0.1, 0.2), mn=False)
MERGES = [
    ("two generated and two planned craters", "ab", "pq", {}),
    ("three generated craters and a planned one", "abc", "p", {}),
    ("a generated crater and two planned ones", "a", "pq", {}),
    ("two generated craters and none planned", "ab", "", {}),
    ("no generated craters and two planned", "", "pq", {}),
    ("planned craters before and after the interval", "ab", "pqr", {"q": EARLY, "r": LATE}),
    ("a planned crater at the start of the interval", "a", "p", {"p": const(3.0)}),
    ("a planned crater at the end of the interval, where the next one starts", "a", "p", {"p": const(0.5)}),
]


def merging(prog, res):
    f = prog.cls("Production").lookup("quasimc_merge")[2]
    where = (f.path, f.node.lineno)
    for label, gen, plan, special in MERGES:
        def crater(n):
            return V("obj", prog.cls("Crater"), sym=("crater", n), oid=n, mn=False)
        times = {n: special.get(n, INSIDE.with_sym(("time", n))) for n in gen + plan}
        hooks = Merge(f.module, V("seq", "list", sym="planned", items=tuple(crater(n) for n in plan), mn=False), times)
        src = f"def client(o, S, E{''.join(', ' + n for n in gen)}):\n    return o.quasimc_merge([{', '.join(gen)}], time_start=S, time_end=E)\n"
        outs, I = run_probe(prog, src, {"S": const(3.0), "E": const(0.5)}, objs={"o": "NeukumProduction", **{n: "Crater" for n in gen}}, hooks=hooks, mon=(), cap=60, budget=150000, loop=4)
        if outs is None:
            res.count("undecided")
            continue
        keep = [n for n in plan if n not in special or special[n] is times[n] and special[n].k == "const" and special[n].c == 3.0]
        lost = False
        full = False
        for k, v, s in outs:
            if k != "ret":
                continue
            if v.k != "seq" or not all(x.k == "obj" for x in v.items):
                res.count("undecided")
                lost = True
                continue
            got = [who(x) for x in v.items]
            res.count("merges_decided")
            for n in keep:
                if got.count(n) != 1:
                    res.add("merge", f"{f.short}|planned", f"{f.short}: with {label}, a planned crater that belongs to the interval is returned {got.count(n)} times", *where)
            for n in plan:
                if n not in keep and n in got:
                    res.add("merge", f"{f.short}|outside", f"{f.short}: with {label}, a planned crater is returned that does not belong to the interval", *where)
            for n in gen:
                if got.count(n) > 1:
                    res.add("merge", f"{f.short}|generated", f"{f.short}: with {label}, a generated crater is returned {got.count(n)} times", *where)
            gone = [n for n in gen if n not in got]
            full = full or not gone
            if len(gone) > len(keep):
                res.add("merge", f"{f.short}|lost", f"{f.short}: with {label}, {len(gone)} generated craters are left out for {len(keep)} planned ones", *where)
        if not lost and not full and outs and any(o[0] == "ret" for o in outs):
            res.add("merge", f"{f.short}|lost", f"{f.short}: with {label}, generated craters are left out whatever the sizes are", *where)
        if outs and not any(o[0] == "ret" for o in outs):
            res.add("merge", f"{f.short}|refused", f"{f.short}: {label} are refused", *where)


def check(prog, tier):
    res = Result()
    manager(prog, res)
    emplacement(prog, res)
    formation(prog, res)
    order(prog, res)
    merging(prog, res)
    res.require("batches", 1)
    res.require("requests_followed", 4)
    return res
