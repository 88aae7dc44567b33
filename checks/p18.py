"""P18: the intervals of a run are contiguous and each is populated, accounted for and saved exactly once.

Abstract clients call run() with symbolic start, end and interval (or crater numbers).  Every path through up to two
rounds is followed with the arithmetic kept as polynomials over the symbols; the sequence of populate / change of the
clock, the interval index and the accumulated quantities / save is compared with the protocol of an interval.

  order        emptied list of emplaced craters, populate, each quantity advanced once, save; nothing left unsaved
  clock        the clock is set to the end of the interval populated
  elapsed      the elapsed time grows by what the clock advanced
  accumulated  the accumulated crater number grows by the production between the same two times
  contiguous   the next interval starts where this one ends, the first one where the run starts
  start        a fresh run sets the clock to its start and the index to zero before anything is saved or populated
"""
from __future__ import annotations

import ast
import zlib

from sa.probe import ProbeHooks, run_probe
from sa.report import Result
from sa.values import V, const, top, typ

KERNELS = {"get_random_size", "compute_time", "_rng_init", "_simdir_init"}
WATCH = {"_time": "time", "_interval": "interval", "_elapsed_time": "elapsed", "_elapsed_n1": "n1"}
SHAPE = {"float", "int", "item", "round", "abs", "float64", "asarray", "squeeze", "max", "min"}


# ---- polynomials over opaque symbols: {sorted tuple of atoms: coefficient}
def poly(v):
    if isinstance(v, V):
        if v.k == "const" and isinstance(v.c, (int, float)) and not isinstance(v.c, bool):
            return {(): v.c} if v.c else {}
        if v.k in ("const", "union") or v.sym is None or vague(v.sym):
            return None
        return psym(v.sym)
    return None


def vague(s):
    """A value that depends on the path, joined: nothing can be said of it."""
    return isinstance(s, tuple) and bool(s) and (s[0] == "join" or any(vague(x) for x in s))


def psym(s):
    if isinstance(s, tuple) and s and s[0] == "POLY":
        return dict(s[1])
    if isinstance(s, tuple) and s and s[0] in ("float", "int") and len(s) == 2:
        return psym(s[1])
    if isinstance(s, tuple) and s and s[0] == "c" and len(s) in (2, 3):
        try:
            return {(): float(s[-1])} if float(s[-1]) else {}
        except ValueError:
            return {(s,): 1.0}
    return {(s,): 1.0}


def add(a, b, k=1.0):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0.0) + k * c
        if abs(out[m]) < 1e-12:
            del out[m]
    return out


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            out[k] = out.get(k, 0.0) + c * d
    return {m: c for m, c in out.items() if abs(c) > 1e-12}


def frozen(p):
    return tuple(sorted(p.items(), key=repr))


def sym_of(p):
    if list(p) == [k for k in p if len(k) == 1] and len(p) == 1 and list(p.values())[0] == 1.0:
        return list(p)[0][0]
    return ("POLY", frozen(p))


def same(a, b):
    return not add(a, b, -1.0)


def subst(p, atom, by):
    out = {}
    for m, c in p.items():
        t = {tuple(x for x in m if x != atom): c}
        for _ in range(sum(1 for x in m if x == atom)):
            t = mul(t, by)
        out = add(out, t)
    return out


def show(p):
    if p is None:
        return "something unknown"
    if not p:
        return "0"
    return " ".join(f"{'+' if c > 0 else '-'} {'' if abs(c) == 1 and m else f'{abs(c):g} '}{'*'.join(name(a) for a in m)}".strip() for m, c in sorted(p.items(), key=repr)).lstrip("+ ")


def name(a):
    if isinstance(a, str):
        return NAMES.get(a, a)
    if isinstance(a, tuple) and a and a[0] == "AGE":
        return "age(" + ", ".join(show(psym(x)) for x in a[1:]) + ")"
    if isinstance(a, tuple) and a and a[0] == "QUOT":
        return f"({show(dict(a[1]))})/({show(dict(a[2]))})"
    if isinstance(a, tuple) and a and a[0] == "round":
        return "round"
    return str(a)[:40]


NAMES = {"S": "start", "E": "end", "D": "interval", "N": "number of intervals", "AREA": "area", "n0": "number at start", "n1": "number at end", "d0": "diameter", "IDX": "i"}


class Log(ProbeHooks):
    def __init__(self):
        super().__init__(KERNELS)

    @staticmethod
    def rec(st, ev):
        s = st.copy()
        s.mon = (s.mon or ()) + (ev,)
        return s

    def on_binop(self, I, st, node, op, l, r, res):
        if res.k == "const":
            return res
        a, b = poly(l), poly(r)
        if a is None or b is None:
            return V(res.k, res.c, res.lab, ("join", "unknown"), res.items, res.num, res.oid, res.mn) if res.k in ("top", "typ", "num") else res
        if isinstance(op, ast.Add):
            p = add(a, b)
        elif isinstance(op, ast.Sub):
            p = add(a, b, -1.0)
        elif isinstance(op, ast.Mult):
            p = mul(a, b)
        elif isinstance(op, ast.Div):
            if set(b) == {()}:
                p = mul(a, {(): 1.0 / b[()]})
            elif same(a, b):
                p = {(): 1.0}
            else:
                p = {(("QUOT", frozen(a), frozen(b)),): 1.0}
        else:
            return res
        if len(p) > 12:
            return res
        return V(res.k, res.c, res.lab, sym_of(p), res.items, res.num, res.oid, res.mn)

    def after_call(self, I, st, node, fv, pos, kw, v):
        n = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
        if n in ("float", "item", "float64") and v.k in ("top", "typ", "num"):
            src = pos[0] if pos else None
            if n == "item" and fv.k not in ("fn", "bound"):
                return v
            if src is not None and src.sym is not None and src.k != "const":
                return v.with_sym(src.sym)
        if n in ("max", "min", "maximum", "minimum", "clip", "fmax", "fmin") and fv.k not in ("fn", "bound") and v.k in ("top", "typ", "num"):
            ages = [p for p in pos if isinstance(p.sym, tuple) and p.sym and p.sym[0] == "AGE"]
            if n in ("max", "maximum") and len(pos) == 2 and len(ages) == 1 and any(poly(p) == {} for p in pos):
                return v.with_sym(ages[0].sym)          # an age cut at the present
            return v.with_sym(("join", n))
        return super().after_call(I, st, node, fv, pos, kw, v)

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k in ("fn", "bound"):
            n = fv.c.name
            own = fv.c.cls.name if fv.c.cls is not None else ""
            if n == "function" and "Production" in own:
                names = ["diameter", "time_start", "time_end"]
                given = dict(zip(names, pos))
                given.update(kw)
                a, b = poly(given.get("time_start") or const("?")), poly(given.get("time_end") or const(0.0))
                s = ("PROD", frozen(a), frozen(b)) if a is not None and b is not None else None
                return [(typ("numpy.ndarray", sym=s or ("join", "production")), st)]
            if n == "age_from_D_N":
                ps = [poly(p) for p in pos] + [poly(kw[k]) for k in ("diameter", "cumulative_number_density") if k in kw]
                s = ("AGE",) + tuple(sym_of(p) for p in ps) if all(p is not None for p in ps) else None
                return [(typ("float", sym=s or ("join", "age")), st)]
            if n in ("populate", "save") and own in ("Simulation", "CratermakerBase"):
                a = dict(zip(["age", "time_start", "time_end", "N_D", "N_D_end", "diameter_number", "diameter_number_end"], pos)) if n == "populate" else {}
                a.update(kw)
                ev = (n, id(node)) + tuple(a.get(k) for k in ("time_start", "time_end", "diameter_number", "diameter_number_end")) if n == "populate" else (n,)
                return [(top(sym=I.sym(node, n), mn=False), self.rec(st, ev))]
            if n in ("to_config", "emplace", "reset"):
                return [(top(sym=I.sym(node, n), mn=False), st)]
        if fv.k not in ("fn", "bound") and getattr(node.func, "id", "") in ("range", "trange") and len(pos) in (1, 2) and not kw:
            st.mon = (st.mon or ()) + (("range", pos[0] if len(pos) == 2 else const(0), pos[-1], id(node)),)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "item" and not node.args:
            for v, s in I.ev(f.value, st):
                if isinstance(v.sym, tuple) and v.sym and v.sym[0] in ("PROD", "AGE"):
                    return [(typ("float", sym=v.sym), s)]
                break
        return super().on_call(I, st, node, fv, pos, kw, star)

    def on_compare(self, I, st, node, op, l, r, truth):
        """Comparisons of the ends of an interval with the end of the run or with nothing left."""
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            a, b = poly(l), poly(r)
            if a is None or b is None or not (loop_atom(a) or loop_atom(b) or "AGE" in repr(a) or "AGE" in repr(b)):
                return
            if isinstance(op, (ast.Gt, ast.LtE)):
                a, b = b, a
            if isinstance(op, (ast.LtE, ast.GtE)):
                truth = not truth
            st.mon = (st.mon or ()) + (("lt", frozen(a), frozen(b), truth),)

    def on_attr_write(self, I, st, node, obj, attr, value):
        if obj.oid == "o" and attr in WATCH:
            ev = ("set", WATCH[attr], value, id(node))
            if not (st.mon and st.mon[-1][:2] == ev[:2] and (st.mon[-1][2] == value or (value.sym is not None and st.mon[-1][2].sym == value.sym))):
                st.mon = (st.mon or ()) + (ev,)
        elif obj.oid == "cnt" and attr == "_emplaced":
            ev = ("clear" if value.k == "seq" and not value.items else "filled", id(node))
            if not (st.mon and st.mon[-1] == ev):
                st.mon = (st.mon or ()) + (ev,)


def fl(s):
    return typ("float", sym=s)


def pair(a, b):
    return V("seq", "tuple", items=(fl(a), fl(b)), sym=("pair", a, b), mn=False)


CASES = [
    ("times and an interval", "time_start=S, time_end=E, time_interval=D", {"S": fl("S"), "E": fl("E"), "D": fl("D")}),
    ("an age and an interval", "age=S, time_interval=D", {"S": fl("S"), "D": fl("D")}),
    ("times and a number of intervals", "time_start=S, time_end=E, ninterval=N", {"S": fl("S"), "E": fl("E"), "N": typ("int", sym="N")}),
    ("crater numbers and a number of intervals", "diameter_number=A, diameter_number_end=B, ninterval=N", {"A": pair("d0", "n0"), "B": pair("d0", "n1"), "N": typ("int", sym="N")}),
    ("an age", "age=S", {"S": fl("S")}),
]


def segments(mon):
    """-> (events before the first interval, [events of each interval])"""
    pre, segs, cur = [], [], None
    for e in mon:
        if e[0] in ("clear", "populate") and (cur is None or any(x[0] == "save" for x in cur)):
            if cur is not None:
                segs.append(cur)
            cur = []
        (pre if cur is None else cur).append(e)
    if cur is not None:
        segs.append(cur)
    return pre, segs


def below(facts, a, b):
    """Is it known on this path whether a < b?  -> True / False / None"""
    if not isinstance(facts, dict):
        for e in facts:
            if e[0] == "lt":
                if same(dict(e[1]), a) and same(dict(e[2]), b):
                    return e[3]
                if e[3] and same(dict(e[1]), b) and same(dict(e[2]), a):
                    return False
        return None
    for k, t in facts.items():
        if isinstance(k, tuple) and len(k) == 3 and k[0] == "lt" and not vague(k):
            l, r = psym(k[1]), psym(k[2])
            if same(l, a) and same(r, b):
                return t
            if t and same(l, b) and same(r, a):
                return False
    return None


class Judge:
    def __init__(self, res, f):
        self.res, self.f = res, f
        self.nodes = {id(n): n for n in ast.walk(f.module.tree)}

    def add(self, rule, what, msg, ev=None):
        line = self.f.node.lineno
        for x in (ev or ()):
            if isinstance(x, int) and x in self.nodes:
                line = self.nodes[x].lineno
        self.res.add(rule, f"{self.f.short}|{what}", f"{self.f.short}: {msg}", self.f.path, line)

    def interval(self, label, seg, before, last, idx):
        """before: polynomials of clock, index, elapsed and accumulated before this interval."""
        kinds = [e[0] if e[0] != "set" else "set " + e[1] for e in seg]
        self.res.count("intervals_followed")
        if kinds.count("populate") != 1:
            self.add("order", "populate", f"with {label}, an interval is populated {kinds.count('populate')} times between two saves")
            return None
        ip = kinds.index("populate")
        if "clear" not in kinds[:ip]:
            self.add("order", "emplaced", f"with {label}, the list of craters emplaced in the interval is not emptied before the interval is populated", seg[ip])
        if "clear" in kinds[ip:]:
            self.add("order", "emplaced", f"with {label}, the list of craters emplaced in the interval is emptied after it is populated and before it is saved", seg[ip])
        saves = [i for i, k in enumerate(kinds) if k == "save"]
        if len(saves) != 1:
            self.add("order", "save", f"with {label}, an interval is saved {len(saves)} times")
        if saves and saves[0] < ip:
            self.add("order", "save", f"with {label}, an interval is saved before it is populated")
        now = dict(before)
        for what in ("time", "interval", "elapsed", "n1"):
            at = [i for i, k in enumerate(kinds) if k == "set " + what]
            if len(at) != 1:
                self.add("order", what, f"with {label}, {WORDS[what]} is changed {len(at)} times in an interval")
                if not at:
                    continue
            if saves and at[0] > saves[-1]:
                self.add("order", what, f"with {label}, {WORDS[what]} is advanced after the interval is saved, so the saved state does not include it", seg[at[0]])
            now[what] = poly(seg[at[-1]][2])
        pop = seg[ip]
        _, nid, ts, te, dn, dne = pop
        start = poly(ts) if ts is not None else None
        end = poly(te) if te is not None else None
        tnew = now.get("time")
        if start is None and dn is not None and dn.k == "seq" and len(dn.items) == 2:
            d, n = poly(dn.items[0]), poly(dn.items[1])
            if d is not None and n is not None:
                start = {(("AGE", sym_of(d), sym_of(div(n, {("AREA",): 1.0}))),): 1.0}
        if end is None and dne is not None and dne.k == "seq" and len(dne.items) == 2 and tnew is not None:
            d, n = poly(dne.items[0]), poly(dne.items[1])
            if d is not None and n is not None:
                want = {(("AGE", sym_of(d), sym_of(div(n, {("AREA",): 1.0}))),): 1.0}
                if not tnew or same(tnew, want):
                    end = tnew          # an end below nothing is the present
                else:
                    end = want
        if end is not None and tnew is not None:
            self.res.count("clock_checked")
            if not same(end, tnew):
                self.add("clock", "end", f"with {label}, the clock is set to {show(tnew)} although the interval was populated until {show(end)}", pop)
        if start is not None and tnew is not None and now.get("elapsed") is not None and before.get("elapsed") is not None:
            self.res.count("elapsed_checked")
            grown = add(now["elapsed"], before["elapsed"], -1.0)
            if not same(grown, add(start, tnew, -1.0)):
                self.add("elapsed", "amount", f"with {label}, the elapsed time grows by {show(grown)} while the interval runs from {show(start)} to {show(tnew)}", pop)
        if now.get("interval") is not None and before.get("interval") is not None and not same(add(now["interval"], before["interval"], -1.0), {(): 1.0}):
            self.add("order", "index", f"with {label}, the interval index changes by {show(add(now['interval'], before['interval'], -1.0))} in an interval")
        if start is not None and tnew is not None and now.get("n1") is not None and before.get("n1") is not None:
            g = add(now["n1"], before["n1"], -1.0)
            fs = [a for m in g for a in m if isinstance(a, tuple) and a and a[0] == "PROD"]
            if fs:
                self.res.count("accumulated_checked")
                for a in fs:
                    if not (same(dict(a[1]), start) and same(dict(a[2]), tnew)):
                        self.add("accumulated", "amount", f"with {label}, the accumulated crater number grows by the production between {show(dict(a[1]))} and {show(dict(a[2]))}, the interval runs from {show(start)} to {show(tnew)}", pop)
                if len(g) != 1 or list(g.values())[0] <= 0:
                    self.add("accumulated", "amount", f"with {label}, the accumulated crater number grows by {show(g)}", pop)
        return now, start, end, dn, dne


def div(a, b):
    return {(("QUOT", frozen(a), frozen(b)),): 1.0} if a else {}


WORDS = {"time": "the clock", "interval": "the interval index", "elapsed": "the elapsed time", "n1": "the accumulated crater number"}


def atoms_of(p):
    out = set()
    for m in p:
        for a in m:
            out.add(a)
            if isinstance(a, tuple) and a and a[0] in ("QUOT", "PROD"):
                for x in a[1:]:
                    out |= atoms_of(dict(x))
    return out


def value(p, seed):
    """Value of an expression with the symbols replaced by numbers (identity of rational functions)."""
    tot = 0.0
    for m, c in p.items():
        t = c
        for a in m:
            if isinstance(a, tuple) and a and a[0] == "QUOT":
                t *= value(dict(a[1]), seed) / value(dict(a[2]), seed)
            elif isinstance(a, tuple) and a and a[0] == "PROD":
                x, y = value(dict(a[1]), seed), value(dict(a[2]), seed)
                t *= (x + 0.3 * x * x) - (y + 0.3 * y * y)
            else:
                t *= 0.5 + (zlib.crc32(repr((seed, a)).encode()) % 9973) / 997.0
        tot += t
    return tot


def equal(p, q):
    try:
        return all(abs(value(p, k) - value(q, k)) <= 1e-9 * (abs(value(p, k)) + abs(value(q, k))) for k in range(3))
    except ZeroDivisionError:
        return False


def loop_atom(p):
    out = set()
    for m in p or {}:
        for a in m:
            if isinstance(a, tuple) and a and a[0] in ("asg", "it"):
                out.add(a)
    return out


def check(prog, tier):
    res = Result()
    f = prog.func("Simulation", "run")
    J = Judge(res, f)
    for label, call, args in CASES:
        for fresh in (False, True):
            heap = {("o", "_production"): V("obj", prog.cls("NeukumProduction"), sym="prod", oid="prod", mn=False),
                    ("o", "_surface"): V("obj", prog.cls("IcosphereSurface"), sym="surf", oid="surf", mn=False),
                    ("o", "_counting"): V("obj", prog.cls("DepthCount"), sym="cnt", oid="cnt", mn=False),
                    ("o", "_time"): const(None) if fresh else fl("NOW"), ("o", "_interval"): const(None) if fresh else typ("int", sym="ITV"),
                    ("o", "_elapsed_time"): fl("EL"), ("o", "_elapsed_n1"): fl("N1"),
                    ("o", "_is_new"): const(fresh), ("surf", "_area"): fl("AREA")}
            outs, I = run_probe(prog, f"def client(o, {', '.join(args)}):\n    return o.run({call})\n", args, objs={"o": "Simulation"}, hooks=Log(), heap=heap, mon=(), cap=40, budget=400000)
            if outs is None:
                res.count("undecided")
                continue
            what = label + (" on a fresh simulation" if fresh else "")
            cuts = {"free": None, "cut": 0, "unknown": 0}
            for k, v, s in outs:
                if k != "ret":
                    continue
                res.count("paths")
                pre, segs = segments(s.mon or ())
                before = {"time": poly(heap["o", "_time"]), "interval": {("ITV",): 1.0} if not fresh else None, "elapsed": {("EL",): 1.0}, "n1": {("N1",): 1.0}}
                kinds = [e[0] if e[0] != "set" else "set " + e[1] for e in pre]
                if fresh and (segs or "save" in kinds):
                    for w in ("time", "interval"):
                        at = [i for i, x in enumerate(kinds) if x == "set " + w]
                        if not at or ("save" in kinds and at[0] > kinds.index("save")):
                            J.add("start", w, f"with {what}, {WORDS[w]} is not set before the first state is saved or the first interval populated")
                for e in pre:
                    if e[0] == "set":
                        before[e[1]] = poly(e[2])
                if fresh and before["interval"] is not None and before["interval"] != {}:
                    J.add("start", "interval", f"with {what}, the interval index starts at {show(before['interval'])}")
                if fresh and segs and before["time"] is not None:
                    if "S" in args:
                        want = [{("S",): 1.0}]
                        if "N" in args or "D" not in args:
                            want.append(before["time"] if "AGE" in repr(before["time"]) else want[0])
                    else:
                        want = [before["time"]]
                        dn = next((e[4] for e in segs[0] if e[0] == "populate"), None)
                        if dn is not None and dn.k == "seq" and len(dn.items) == 2:
                            d, n = poly(dn.items[0]), poly(dn.items[1])
                            if d is not None and n is not None and len(loop_atom(n)) == 1:
                                n = subst(n, loop_atom(n).pop(), {})
                                want = [{(("AGE", sym_of(d), sym_of(div(n, {("AREA",): 1.0}))),): 1.0}]
                    res.count("starts_checked")
                    if not any(same(before["time"], w) for w in want):
                        J.add("start", "clock", f"with {what}, the clock starts at {show(before['time'])}, the run at {show(want[0])}")
                rng = next((e for e in reversed(pre) if e[0] == "range"), None)
                if segs and rng is not None and not fresh:
                    resume(J, res, what, rng, args, s.facts)
                if segs and not fresh and "S" in args and below(s.facts, {("S",): 1.0}, {("NOW",): 1.0}):
                    J.add("start", "later", f"with {what}, a run that starts after the current time is carried out")
                if fresh and segs and "save" not in kinds:
                    J.add("start", "save", f"with {what}, the initial state is not saved before the first interval is populated")
                t0 = before["time"]
                for n, seg in enumerate(segs):
                    r = J.interval(what, seg, before, n == len(segs) - 1, n)
                    if r is None:
                        break
                    before, start, end, dn, dne = r
                    contiguous(J, res, what, seg, start, end, dn, dne, args, seg, cuts)
            if "D" in args and cuts["free"] and not cuts["cut"] and not cuts["unknown"]:
                J.add("contiguous", "last", f"with {what}, no path cuts the last interval at the end of the run", cuts["free"])
    res.require("intervals_followed", 4)
    res.require("elapsed_checked", 2)
    res.notes = ["all paths of a run with up to two rounds, with symbolic times, interval and crater numbers"]
    res.assumptions = ["the production function, populate and save are taken as given"]
    return res


def resume(J, res, what, rng, args, facts):
    """The first interval of a resumed run is the one the clock stands at."""
    at = poly(rng[1])
    if at is None:
        return
    S, N = {("S",): 1.0}, {("N",): 1.0}
    E = {("E",): 1.0} if "E" in args else {}
    if "S" not in args:
        return
    res.count("resumed_starts")
    done = add(S, {("NOW",): 1.0}, -1.0)
    if "D" in args:
        want = [div(done, {("D",): 1.0}), div(done, add(S, E, -1.0))]
    elif "N" in args:
        whole = add(S, E, -1.0)
        d = {(("QUOT", frozen(whole), frozen(N)),): 1.0}
        want = [div(done, d), div(done, whole)]
    else:
        want = [div(done, add(S, E, -1.0)), {}]
    prods = [x for x in atoms_of(at) if isinstance(x, tuple) and x and x[0] == "PROD"]
    if prods:
        # progress counted in craters: the share of the run's production that the clock is past, times the number
        want = []
        for x in prods:
            if not same(dict(x[2]), {("NOW",): 1.0}):
                a = {(("PROD", x[1], frozen({("NOW",): 1.0})),): 1.0}
                want.append(div(mul(a, N), {(x,): 1.0}))
        want = want or [div(done, add(S, E, -1.0))]
    if any(same(at, w) or equal(at, w) for w in want):
        return
    J.add("start", "resume", f"with {what}, a run that is continued goes on with interval {show(at)}, the clock stands at {show(want[0])}", rng)


def contiguous(J, res, what, seg, start, end, dn, dne, args, facts, cuts):
    pop = next(e for e in seg if e[0] == "populate")
    sets = [e for e in seg if e[0] == "set" and e[1] == "time"]
    clock = poly(sets[-1][2]) if sets else None
    if dne is not None and dne.k == "seq" and len(dne.items) == 2 and clock == {}:
        n = poly(dne.items[1])
        if n is not None and below(facts, {}, n) and start is not None:
            d = poly(dne.items[0])
            age = {(("AGE", sym_of(d), sym_of(div(n, {("AREA",): 1.0}))),): 1.0} if d is not None else None
            if age is None or not below(facts, age, {}):
                J.add("clock", "end", f"with {what}, the clock is set to the present although {show(n)} craters are left", pop)
    pairs = []
    if pop[2] is not None and pop[3] is not None:
        pairs.append((poly(pop[2]), poly(pop[3]), {("S",): 1.0}))
    if dn is not None and dne is not None and dn.k == "seq" and dne.k == "seq" and len(dn.items) == len(dne.items) == 2:
        pairs.append((poly(dn.items[1]), poly(dne.items[1]), {("n0",): 1.0}))
        d0, d1 = poly(dn.items[0]), poly(dne.items[0])
        if d0 is not None and d1 is not None and not same(d0, d1):
            J.add("contiguous", "diameter", f"with {what}, the interval starts with a number above {show(d0)} and ends with a number above {show(d1)}", pop)
    for a, b, first in pairs:
        if a is None or b is None:
            continue
        atoms = loop_atom(a) | loop_atom(b)
        if len(atoms) != 1:
            continue
        i = atoms.pop()
        if loop_atom(b):
            res.count("contiguity_of_times" if first == {("S",): 1.0} else "contiguity_of_numbers")
            nxt = subst(a, i, {(i,): 1.0, (): 1.0})
            if not same(nxt, b):
                J.add("contiguous", "next", f"with {what}, an interval ends at {show(b)} and the next one starts at {show(nxt)}", pop)
        if first == {("S",): 1.0} and "D" in args:
            stop = {("E",): 1.0} if "E" in args else {}
            whole = subst(a, i, {(i,): 1.0, (): 1.0})
            if same(b, stop):
                cuts["cut"] += 1
                if below(facts, whole, stop) is False:
                    J.add("contiguous", "cut", f"with {what}, an interval is cut at {show(stop)} although it ends at {show(whole)} before that", pop)
            elif same(b, whole):
                cuts["free"] = pop
                if below(facts, whole, stop):
                    J.add("contiguous", "cut", f"with {what}, an interval goes on to {show(whole)}, beyond the end of the run at {show(stop)}", pop)
            elif not (set(b) <= {()}):
                cuts["unknown"] += 1
        if loop_atom(a) and first[list(first)[0]] and (("S" if first == {("S",): 1.0} else "A") in args):
            zero = subst(a, i, {})
            if not same(zero, first):
                J.add("contiguous", "first", f"with {what}, the first interval starts at {show(zero)}, not at {show(first)}", pop)
