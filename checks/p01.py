"""P01: every random decision comes from the one generator of the run.

Rules (each decided on the current syntax tree, names resolved through imports, locals and types):
 sources   no other source of randomness or of process/clock dependent values: module level numpy.random functions,
           random, secrets, uuid, os.urandom, hash()/id(), pids; a generator is created only by the generator
           initialisation (and helpers only it calls); clock values end up only in text
 receiver  every draw is made on the `rng` of a component, on a generator passed in, or on the result of the generator
           initialisation called with such a generator
 handover  every call of a function or constructor of this package that takes a generator and may draw passes one on
 state     only the generator initialisation and the state setter assign the state of a generator
 order     nothing draws inside a loop over a set, an unsorted directory listing or in a worker thread
 init      truth table of the generator initialisation (abstract interpretation)
 clients   the random-number functions called with a marked generator draw from it and from nothing else
 native    the Rust sources take their randomness from the seed they are given only
"""
from __future__ import annotations

import ast
import re
from pathlib import Path

from sa.interp import Hooks
from sa.model import AnalysisBroken, dotted, own_nodes
from sa.par import run_jobs
from sa.probe import run_probe
from sa.report import Result
from sa.resolve import Resolver
from sa.values import V, const, top, typ

DRAWS = {"random", "uniform", "normal", "integers", "choice", "permutation", "permuted", "shuffle", "standard_normal", "standard_exponential", "exponential",
         "poisson", "binomial", "lognormal", "beta", "gamma", "standard_gamma", "bytes", "pareto", "power", "rayleigh", "weibull", "triangular", "vonmises",
         "geometric", "laplace", "logistic", "multinomial", "multivariate_normal", "chisquare", "dirichlet", "zipf", "gumbel", "wald", "hypergeometric"}
NPR_OK = {"Generator", "BitGenerator", "SeedSequence", "RandomState", "PCG64", "Philox", "SFC64", "MT19937", "default_rng", "get_state"}
BANNED = ("random.", "secrets.", "uuid.", "numpy.random.")
BANNED_EXACT = {"os.urandom", "os.getpid", "os.getppid", "threading.get_ident", "hash", "id", "os.getrandom", "scipy.stats.qmc.Halton"}
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "datetime.datetime.now",
         "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.localtime", "time.gmtime", "time.ctime"}
INIT = "_rng_init"
LISTINGS = {"glob", "rglob", "iterdir"}
LIST_EXT = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob"}


class Rules:
    def __init__(self, prog, res):
        self.P, self.res = prog, res
        self.R = Resolver(prog)
        self.init = next((f for f in prog.all_funcs() if f.name == INIT and f.cls is None), None)
        if self.init is None:
            raise AnalysisBroken("the generator initialisation function is gone")
        self.callers()
        self.init_family = self.only_from(self.init)
        self.drawing()

    # -- call graph (resolved calls, names as fall-back)
    def callers(self):
        self.calls = {}
        self.called_by = {}
        for f in self.P.all_funcs():
            out = set()
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for k, it in self.R.callees(f, n):
                        if k == "func":
                            out.add(it[0].qual)
                        elif k == "class":
                            m = it.method("__init__")
                            if m is not None:
                                out.add(m.qual)
            if f.parent is not None:
                self.calls.setdefault(f.parent.qual, set()).add(f.qual)
            self.calls.setdefault(f.qual, set()).update(out)
        for a, bs in self.calls.items():
            for b in bs:
                self.called_by.setdefault(b, set()).add(a)

    def only_from(self, f):
        """f and the functions called from nowhere but f's family."""
        fam = {f.qual}
        changed = True
        while changed:
            changed = False
            for q, by in self.called_by.items():
                if q not in fam and by and by <= fam:
                    fam.add(q)
                    changed = True
        return fam

    def drawing(self):
        d = set()
        for f in self.P.all_funcs():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and self.is_draw(f, n):
                    d.add(f.qual)
        changed = True
        while changed:
            changed = False
            for a, bs in self.calls.items():
                if a not in d and bs & d:
                    d.add(a)
                    changed = True
        # a component class draws when any method of the class or a subclass draws
        self.draws = d
        base = self.P.cls("CratermakerBase")
        self.cls_draws = set()
        for c in self.P.classes.values():
            fam = [k for s_ in self.P.subclasses(c) for k in s_.cmro()]
            if any(m.qual in d for k in fam for m in k.methods.values() if m.name not in ("__init__", "maker")) or \
                    any(p.fget is not None and p.fget.qual in d for k in fam for p in k.props.values()):
                self.cls_draws.add(c.qual)
        self.base = base

    def is_draw(self, f, n):
        if not isinstance(n.func, ast.Attribute) or n.func.attr not in DRAWS | {"rvs"}:
            return False
        if n.func.attr == "rvs" or any(k.arg == "random_state" for k in n.keywords):
            return True
        dd = dotted(n.func)
        if dd is not None:
            r = self.R.name(f, dd)
            if r is not None:
                return False  # module functions are judged by the source rule
        return self.gen(f, n.func.value) in ("ok", "fresh")

    # -- provenance of generator expressions
    def gen(self, f, e, depth=0, seen=()):
        """'ok' owner's or passed generator | 'fresh' a private or copied one | 'none' | None unknown"""
        if depth > 8:
            return None
        if isinstance(e, ast.Constant) and e.value is None:
            return "none"
        if isinstance(e, ast.Attribute):
            if e.attr in ("rng", "_rng"):
                return "ok"
            return None
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Call) and self.called(f, e.value) == INIT:
                return self.gen(f, e.value, depth + 1, seen) if isinstance(e.slice, ast.Constant) and e.slice.value == 0 else None
            if isinstance(e.slice, ast.Constant) and e.slice.value in ("rng", "_rng"):
                return "ok"
            return None
        if isinstance(e, ast.Name):
            sc = self.R.scope(f)
            if e.id in seen:
                return "skip"
            vals = sc.assigns.get(e.id, ())
            out = {self.gen(f, v, depth + 1, seen + (e.id,)) for v in vals} - {"skip"}
            if e.id in sc.params:
                out.add("ok" if e.id in ("rng", "_rng", "generator", "gen") or "Generator" in ast.dump(sc.params[e.id] or ast.Constant(value=0)) or not vals else None)
                if e.id not in ("rng", "_rng", "generator", "gen") and not vals and "Generator" not in ast.dump(sc.params[e.id] or ast.Constant(value=0)):
                    return None
            if not out:
                m = f.module
                if e.id in m.assigns:
                    return "fresh" if self.fresh_call(f, m.assigns[e.id]) else None
                return None
            if "fresh" in out:
                return "fresh"
            if None in out:
                return None
            return "ok" if "ok" in out else "none"
        if isinstance(e, ast.IfExp):
            return self.join(self.gen(f, e.body, depth + 1, seen), self.gen(f, e.orelse, depth + 1, seen))
        if isinstance(e, ast.BoolOp):
            out = "none"
            for v in e.values:
                out = self.join(out, self.gen(f, v, depth + 1, seen))
            return out
        if isinstance(e, ast.Call):
            c = self.called(f, e)
            if c == INIT:
                for k in e.keywords:
                    if k.arg == "rng":
                        g = self.gen(f, k.value, depth + 1, seen)
                        return "fresh" if g in ("none", "fresh") else g
                if e.args:
                    g = self.gen(f, e.args[0], depth + 1, seen)
                    return "fresh" if g in ("none", "fresh") else g
                if any(k.arg is None for k in e.keywords):
                    return "ok" if any(k.arg is None and self.kw_has_rng(f, k.value) for k in e.keywords) else None
                return "fresh"
            if self.fresh_call(f, e):
                return "fresh"
            if c in ("getattr",) and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and e.args[1].value in ("rng", "_rng"):
                return "ok"
        return None

    def join(self, a, b):
        if "fresh" in (a, b):
            return "fresh"
        if None in (a, b):
            return None
        return "ok" if "ok" in (a, b) else "none"

    def called(self, f, e):
        for k, it in self.R.callees(f, e):
            if k == "func":
                return it[0].name
            if k == "ext":
                return it
        return None

    def fresh_call(self, f, e):
        if not isinstance(e, ast.Call):
            return False
        for k, it in self.R.callees(f, e):
            if k == "ext" and (it in ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator")):
                return True
            if k == "ext" and it in ("copy.copy", "copy.deepcopy") and e.args and self.gen(f, e.args[0], 4) == "ok":
                return True
        return False

    # -- does a mapping carry the generator on?
    def kw_has_rng(self, f, e, depth=0, seen=()):
        if depth > 8:
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "vars" and e.args:
                a = e.args[0]
                if isinstance(a, ast.Attribute) and a.attr == "common_args":
                    return True
                return None
            if isinstance(e.func, ast.Name) and e.func.id == "dict":
                if any(k.arg == "rng" for k in e.keywords):
                    return True
                return any(self.kw_has_rng(f, x, depth + 1, seen) for x in list(e.args) + [k.value for k in e.keywords if k.arg is None])
            if isinstance(e.func, ast.Attribute) and e.func.attr == "_asdict":
                return True
            return None
        if isinstance(e, ast.Dict):
            rs = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    rs.append(self.kw_has_rng(f, v, depth + 1, seen))
                elif isinstance(k, ast.Constant) and k.value == "rng":
                    rs.append(True)
            return True if True in rs else (None if None in rs else False)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.kw_has_rng(f, e.left, depth + 1, seen), self.kw_has_rng(f, e.right, depth + 1, seen)
            return True if True in (a, b) else (None if None in (a, b) else False)
        if isinstance(e, ast.IfExp):
            a, b = self.kw_has_rng(f, e.body, depth + 1, seen), self.kw_has_rng(f, e.orelse, depth + 1, seen)
            return True if a is True and b is True else (False if False in (a, b) else None)
        if isinstance(e, ast.DictComp):
            return None
        if isinstance(e, ast.Name):
            if e.id in seen:
                return False
            sc = self.R.scope(f)
            rs = [self.kw_has_rng(f, v, depth + 1, seen + (e.id,)) for v in sc.assigns.get(e.id, ())]
            for g in sc.chain:
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                        rs += [self.kw_has_rng(f, a, depth + 1, seen + (e.id,)) for a in n.args] + [True for k in n.keywords if k.arg == "rng"]
                    elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and
                                                           isinstance(t.slice, ast.Constant) and t.slice.value == "rng" for t in n.targets):
                        rs.append(True)
            for g in sc.chain:
                a = g.node.args
                if a.kwarg is not None and a.kwarg.arg == e.id:
                    # whoever calls this function puts the generator in, unless it takes one by name
                    rs.append("rng" not in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs])
                    break
            else:
                if e.id in sc.params:
                    rs.append(None)
            return True if True in rs else (None if None in rs or not rs else False)
        return None

    # -- the rules
    def run(self):
        for f in self.P.all_funcs():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    self.source(f, n)
                    self.receiver(f, n)
                    self.handover(f, n)
                elif isinstance(n, (ast.Assign, ast.AugAssign)):
                    self.state(f, n)
                elif isinstance(n, ast.For):
                    self.order(f, n)
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    self.threads(f, n)
        for m in self.P.modules.values():
            for s in m.tree.body:
                for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(n, ast.Call):
                        d = dotted(n.func)
                        if d and self.ext_name(m, d) and self.banned(self.ext_name(m, d)):
                            self.add("module-source", m.name, f"module level call of {d}", m.relpath, n.lineno)

    def ext_name(self, m, d):
        h, _, r = d.partition(".")
        if h in m.imports:
            k, it = self.P.canonical(m.imports[h] + ("." + r if r else ""))
            return it if k == "ext" else None
        return None

    def add(self, rule, key, msg, path, line):
        self.res.add(rule, key, msg, path, line)

    def banned(self, d):
        if d in BANNED_EXACT:
            return True
        if d.startswith("numpy.random."):
            return d.split(".")[2] not in NPR_OK or d == "numpy.random.default_rng"
        if d.startswith("numpy.random.mtrand"):
            return True
        return any(d.startswith(b) for b in BANNED)

    def source(self, f, n):
        for k, it in self.R.callees(f, n):
            if k != "ext":
                continue
            self.res.count("external_calls")
            if it in ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator"):
                self.res.count("generator_creations")
                if f.qual not in self.init_family:
                    self.add("new-generator", f"{f.short}:{it}", f"{f.short} creates its own random generator ({it}) outside the generator initialisation", f.path, n.lineno)
            elif it in ("hash", "id"):
                if f.name not in ("__hash__", "__repr__", "__eq__") and (f.qual in self.draws or self.feeds_value(f, n)):
                    self.add("process-dependent", f"{f.short}:{it}", f"{f.short} uses {it}(), whose value differs from process to process", f.path, n.lineno)
            elif self.banned(it):
                self.add("other-source", f"{f.short}:{it}", f"{f.short} calls {it}, which does not come from the generator of the run", f.path, n.lineno)
            elif it in CLOCK or (it.startswith("datetime.") and it.split(".")[-1] in ("now", "today", "utcnow")):
                self.res.count("clock_reads")
                if self.feeds_value(f, n):
                    self.add("clock", f"{f.short}:{it}", f"{f.short} lets the clock ({it}) influence more than a text", f.path, n.lineno)

    def feeds_value(self, f, call):
        """Does the value of the call end up anywhere but in a text that is written or printed?"""
        parents = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        names = set()

        def bad(e):
            p = parents.get(e)
            while p is not None:
                if isinstance(p, (ast.JoinedStr, ast.FormattedValue)):
                    return False
                if isinstance(p, ast.Call):
                    d = dotted(p.func) or ""
                    if isinstance(p.func, ast.Attribute) and e is p.func and p.func.attr in ("isoformat", "strftime", "ctime", "hex"):
                        return False
                    if d in ("str", "repr", "print", "format") or d.endswith(".write") or d.endswith(".format") or d.startswith(("warnings.", "logging.", "logger.")) or d == "warn":
                        return False
                    if e in p.args or any(k.value is e for k in p.keywords):
                        return True
                elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
                    ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                    if any(not isinstance(t, ast.Name) for t in ts):
                        return True
                    for t in ts:
                        if t.id in names:
                            return False
                        names.add(t.id)
                        for m in ast.walk(f.node):
                            if isinstance(m, ast.Name) and m.id == t.id and isinstance(m.ctx, ast.Load) and bad(m):
                                return True
                    return False
                elif isinstance(p, ast.Return):
                    return True
                elif isinstance(p, ast.stmt):
                    return isinstance(p, (ast.If, ast.While, ast.For, ast.Assert))
                e, p = p, parents.get(p)
            return False
        return bad(call)

    def receiver(self, f, n):
        if not isinstance(n.func, ast.Attribute):
            return
        for k in n.keywords:
            if k.arg in ("random_state",):
                self.res.count("draw_sites")
                if self.gen(f, k.value) in ("none", "fresh") or (isinstance(k.value, ast.Constant)):
                    self.add("draw-not-from-run", f"{f.short}:{n.func.attr}", f"{f.short} draws from a generator that is not the one of the run", f.path, n.lineno)
        if n.func.attr == "rvs":
            if not any(k.arg in ("random_state", None) for k in n.keywords) and len(n.args) < 2:
                self.res.count("draw_sites")
                self.add("draw-not-from-run", f"{f.short}:rvs", f"{f.short} samples a distribution without handing it the generator of the run", f.path, n.lineno)
            return
        if n.func.attr not in DRAWS:
            return
        dd = dotted(n.func)
        if dd is not None and self.R.name(f, dd) is not None:
            return
        g = self.gen(f, n.func.value)
        if g == "ok":
            self.res.count("draw_sites")
        elif g == "fresh" and f.qual not in self.init_family:
            self.res.count("draw_sites")
            self.add("draw-not-from-run", f"{f.short}:{n.func.attr}", f"{f.short} draws from a generator that is not the one of the run", f.path, n.lineno)
        elif g is None and dotted(n.func.value) is not None:
            self.res.count("unknown_receivers")

    def handover(self, f, n):
        for k, it in self.R.callees(f, n):
            if k == "class":
                fn, c = it.method("__init__"), it
            elif k == "func":
                fn, c = it
            else:
                continue
            if fn is None or fn.qual in self.init_family:
                continue
            owner = c or fn.cls
            if "rng" not in fn.params():
                a = fn.node.args
                comp = owner is not None and self.base in owner.cmro() and fn.name in ("__init__", "maker") and a.kwarg is not None
                if not comp:
                    continue
            if fn.name in ("__init__", "maker"):
                if owner is None or not (owner.qual in self.cls_draws or fn.qual in self.draws or any(x.qual in self.cls_draws for x in owner.cmro())):
                    continue
                if owner.qual not in self.cls_draws and fn.qual not in self.draws:
                    continue
            elif fn.qual not in self.draws:
                continue
            # does the caller have a generator at all?
            names = [x for g in self.R.scope(f).chain for x in g.params()]
            has_self = self.R.self_name(f) == "self"
            has_kw = any(g.node.args.kwarg is not None for g in self.R.scope(f).chain)
            if not (has_self or "rng" in names or has_kw):
                self.res.count("handovers_without_generator")
                continue
            self.res.count("handovers")
            kw = {x.arg: x.value for x in n.keywords}
            r = None
            if "rng" in kw:
                g = self.gen(f, kw["rng"])
                r = False if g in ("none", "fresh") else True
            else:
                i = fn.params().index("rng") if "rng" in fn.params() else len(fn.params()) + 99
                if len(n.args) > i and not any(isinstance(x, ast.Starred) for x in n.args):
                    g = self.gen(f, n.args[i])
                    r = False if g in ("none", "fresh") else True
                elif None in kw or any(x.arg is None for x in n.keywords):
                    rs = [self.kw_has_rng(f, x.value) for x in n.keywords if x.arg is None]
                    r = True if True in rs else (None if None in rs else False)
                    if r is True and fn.cls is None and has_self and f.name not in ("__init__", "maker") and \
                            all(isinstance(x.value, ast.Name) and x.value.id in {g.node.args.kwarg.arg for g in self.R.scope(f).chain if g.node.args.kwarg is not None}
                                and not self.R.scope(f).assigns.get(x.value.id) for x in n.keywords if x.arg is None):
                        r = False  # a component method must hand on its own generator to a random-number function
                else:
                    r = False
            if r is False and self.object_passed(f, n, fn):
                r = True
            if r is None:
                self.res.count("handovers_vague")
            elif r is False:
                self.add("generator-not-passed", f"{f.short}:{fn.short}", f"{f.short} calls {fn.short} without handing on its random generator, so that one draws from a private generator",
                         f.path, n.lineno)

    GEOMETRY = {"to_geoseries", "diameter", "radius", "location"}

    def object_passed(self, f, n, fn):
        """Calls that make no random decision, or whose generator travels with the receiver:
        the crater class of a component (bound to its generator), a ready component passed through its maker,
        a circle (size and location given) of which only the geometry is used."""
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "Crater":
            d = dotted(n.func)
            if d is None or self.R.name(f, d) is None:
                self.res.count("bound_crater_class_calls")
                return True
        c = fn.cls
        if fn.name in ("maker", "__init__") and any(k.arg == "morphology" for k in n.keywords) and c is not None and any(x.name in ("MorphologyCrater", "Crater") for x in c.cmro()):
            self.res.count("craters_of_a_morphology")  # judged by the crater clients
            return True
        if c is not None and fn.name == "maker" and any(x.name == "Surface" for x in c.cmro()) and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Name):
            return True  # a surface passed through
        if c is not None and fn.name == "maker":
            for a in list(n.args[:1]) + [k.value for k in n.keywords if k.arg == c.name.lower()]:
                a = self.through_names(f, a)
                if isinstance(a, ast.Attribute) and f.name not in ("__init__", "maker") and \
                        (a.attr == c.name.lower() or any(c in t.cmro() for t in self.R.types(f, a))):
                    return True
            kw = {k.arg for k in n.keywords}
            if c.name == "Crater" and "location" in kw and kw & {"diameter", "radius"} and len(kw) == 2 and not n.args:
                names = {t.id for s in own_nodes(f.node) if isinstance(s, ast.Assign) and s.value is n for t in s.targets if isinstance(t, ast.Name)}
                par = {ch: p for p in ast.walk(f.node) for ch in ast.iter_child_nodes(p)}
                uses = [x for x in own_nodes(f.node) if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load)]
                uses = uses or [n]
                return all(isinstance(par.get(u), ast.Attribute) and par[u].attr in self.GEOMETRY for u in uses)
        return False

    def through_names(self, f, e):
        """The expression a local name stands for, when it is assigned exactly once."""
        for _ in range(4):
            if not isinstance(e, ast.Name):
                break
            vs = [s.value for s in own_nodes(f.node) if isinstance(s, ast.Assign) and len(s.targets) == 1
                  and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id]
            if len(vs) != 1 or e.id in f.params():
                break
            e = vs[0]
        return e

    def state(self, f, n):
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
            if isinstance(t, ast.Attribute) and t.attr == "state" and isinstance(t.value, ast.Attribute) and t.value.attr == "bit_generator":
                self.res.count("state_assignments")
                fam = set(self.init_family)
                for c in self.P.classes.values():
                    p = c.props.get("rng_state")
                    if p is not None and p.fset is not None:
                        fam |= self.only_from(p.fset)
                if f.qual not in fam and not (f.name == "rng_state"):
                    self.add("state-rewound", f.short, f"{f.short} sets the state of a random generator", f.path, n.lineno)

    def set_typed(self, f, e, depth=0):
        if depth > 4:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
                return True
            if isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "enumerate", "reversed", "iter") and e.args:
                return self.set_typed(f, e.args[0], depth + 1)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference") and self.set_typed(f, e.func.value, depth + 1):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in LISTINGS:
                return True
            return any(k == "ext" and it in LIST_EXT for k, it in self.R.callees(f, e))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.set_typed(f, e.left, depth + 1) and (isinstance(e.op, ast.Sub) or self.set_typed(f, e.right, depth + 1))
        if isinstance(e, ast.Name):
            vs = self.R.scope(f).assigns.get(e.id, ())
            return bool(vs) and all(self.set_typed(f, v, depth + 1) for v in vs)
        return False

    def order(self, f, n):
        if not self.set_typed(f, n.iter):
            return
        self.res.count("unordered_loops")
        for m in n.body:
            for x in ast.walk(m):
                if isinstance(x, ast.Call) and (self.is_draw(f, x) or any(k == "func" and it[0].qual in self.draws for k, it in self.R.callees(f, x))):
                    self.add("unordered-draw", f.short, f"{f.short} draws random numbers inside a loop whose order is not determined", f.path, x.lineno)
                    return

    def threads(self, f, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("submit", "map", "imap", "imap_unordered", "apply_async", "starmap") and n.args:
            ks = self.R.callees(f, ast.Call(func=n.args[0], args=[], keywords=[]))
            dd = dotted(n.func.value) or ""
            pool = any(w in dd.lower() for w in ("pool", "executor", "exec"))
            if pool and any(k == "func" and it[0].qual in self.draws for k, it in ks):
                self.add("concurrent-draw", f.short, f"{f.short} draws random numbers in worker threads, in no determined order", f.path, n.lineno)


# -- abstract clients ---------------------------------------------------------------------------------------
G = V("typ", "numpy.random.Generator", sym=("marked generator",), mn=False)
MC_CALLS = [
    ("get_random_location", "get_random_location(size=3, rng=g)"),
    ("get_random_location_on_face", "get_random_location_on_face(grid, i, rng=g)"),
    ("get_random_impact_angle", "get_random_impact_angle(size=3, rng=g)"),
    ("get_random_impact_direction", "get_random_impact_direction(size=3, rng=g)"),
    ("get_random_velocity", "get_random_velocity(vmean=1.0e4, vescape=1.0e3, size=3, rng=g)"),
    ("get_random_velocity", "get_random_velocity(vmean=1.0e4, size=3, rng=g)"),
    ("get_random_size", "get_random_size(diameters=ds, cdf=cs, size=3, rng=g)"),
    ("get_random_size", "get_random_size(diameters=ds, cdf=cs, mu=3, rng=g)"),
    ("bounded_norm", "bounded_norm(1.0, 0.1, size=3, rng=g)"),
]


class Draws(Hooks):
    max_rec = 2

    def __init__(self):
        self.seen = []

    def on_call(self, I, st, node, fv, pos, kw, star):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            m = node.func.attr
            recv = fv.items[0] if fv.k == "top" and fv.items and isinstance(fv.items[0], V) else None
            if m in DRAWS and recv is not None and recv.k in ("typ", "top") and (recv.c == "numpy.random.Generator" or "rng" in ast.dump(node.func.value)):
                self.seen.append((recv, node, I.fr.func))
            if m == "rvs":
                self.seen.append((kw.get("random_state", pos[1] if len(pos) > 1 else const(None)), node, I.fr.func))
        return None


def mc_job(res, prog, fname, call):
    try:
        prog.mod_func("cratermaker.utils.montecarlo_utils", fname)
    except AnalysisBroken:
        res.count("missing_entry_points")
        return
    H = Draws()
    src = f"from cratermaker.utils.montecarlo_utils import {fname}\ndef client(g, grid, i, ds, cs):\n    return {call}\n"
    outs, I = run_probe(prog, src, {"g": G, "grid": top(sym=("grid",)), "i": typ("int", sym=("face",)), "ds": typ("numpy.ndarray", sym=("diameters",)), "cs": typ("numpy.ndarray", sym=("cdf",))}, hooks=H, max_depth=10, budget=60000)
    res.count("obligations")
    bad = [s for s in H.seen if s[0].sym != G.sym]
    if not H.seen:
        res.count("undecided")
    for v, node, fn in bad[:1]:
        res.add("draw-not-from-given", f"{fname}:{fn.short}", f"{call}: a draw in {fn.short} does not use the generator that was given", fn.path, node.lineno)


S_ = typ("dict", sym=("marked state",))
SEED = typ("int", sym=("marked seed",))


class InitHooks(Hooks):
    max_rec = 2

    def __init__(self):
        self.states = []

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k == "ext" and fv.c == "numpy.random.default_rng":
            a = pos[0] if pos else kw.get("seed")
            tag = "unseeded" if a is None or (a.k == "const" and a.c is None) else ("seeded", a.sym)
            return [(V("typ", "numpy.random.Generator", sym=("new", tag), mn=False), st)]
        return None

    def on_attr_write(self, I, st, node, o, attr, value):
        if attr == "state":
            st.mon = frozenset(st.mon or ()) | {("state", o.sym, value.sym)}


def init_job(res, prog):
    f = prog.mod_func("cratermaker.core.base", INIT)
    rows = [
        ("a given generator", {"rng": G}, G.sym, False),
        ("a given generator and a seed", {"rng": G, "rng_seed": SEED}, G.sym, False),
        ("a given generator and a state", {"rng": G, "rng_state": S_}, G.sym, False),
        ("a seed", {"rng_seed": SEED}, ("new", ("seeded", SEED.sym)), False),
        ("a state", {"rng_state": S_}, None, True),
        ("a seed and a state", {"rng_seed": SEED, "rng_state": S_}, None, True),
    ]
    for label, args, want, state in rows:
        res.count("obligations")
        H = InitHooks()
        names = list(args)
        src = f"from cratermaker.core.base import {INIT}\ndef client({', '.join('a_' + n for n in names)}):\n    return {INIT}({', '.join(n + '=a_' + n for n in names)})\n"
        from sa.client import client
        from sa.interp import Interp, State
        c = client(prog, src)
        I = Interp(prog, H, max_depth=10, cap=12, budget=20000)
        outs = I.run(c, args={"a_" + n: v for n, v in args.items()}, st=State(mon=frozenset()))
        rets = [(v, s) for k, v, s in outs if k == "ret" and v.k == "seq" and len(v.items) == 2]
        if not rets:
            if outs and all(k == "raise" for k, v, s in outs):
                res.add("generator-init", label, f"given {label}, the generator initialisation always fails", f.path, f.node.lineno)
            else:
                res.count("undecided")
            continue
        for v, s in rets:
            g = v.items[0]
            if g.k == "union" or g.sym is None:
                res.count("vague")
                continue
            if want is not None and g.sym != want:
                res.add("generator-init", label, f"given {label}, the generator initialisation uses {g!r} ({g.sym})", f.path, f.node.lineno)
                break
            touched = {m[2] for m in (s.mon or ()) if m[0] == "state"}
            if state and S_.sym not in touched:
                res.add("generator-init", label, f"given {label}, the state is not restored", f.path, f.node.lineno)
                break
            if not state and touched:
                res.add("generator-init", label, f"given {label}, the state of the generator is changed", f.path, f.node.lineno)
                break


BASE_ROWS = [
    ("creation with a generator", "o = CratermakerBase(rng=g)\n    return o.rng", "g", G.sym, None),
    ("creation with a generator and a seed", "o = CratermakerBase(rng=g, rng_seed=s)\n    return o.rng", "gs", G.sym, None),
    ("creation with a seed", "o = CratermakerBase(rng_seed=s)\n    return o.rng", "s", ("new", ("seeded", SEED.sym)), None),
    ("creation with a state", "o = CratermakerBase(rng_state=t)\n    return o.rng", "t", None, "result"),
    ("creation with a seed and a state", "o = CratermakerBase(rng_seed=s, rng_state=t)\n    return o.rng", "st", None, "result"),
    ("assignment of a state", "o = CratermakerBase(rng=g)\n    o.rng_state = t\n    return o.rng", "gt", G.sym, "result"),
    ("assignment of a generator", "o = CratermakerBase(rng=g)\n    o.rng = h\n    return o.rng", "gh", ("second generator",), None),
    ("reading the seed", "o = CratermakerBase(rng_seed=s)\n    return o.rng_seed", "s", SEED.sym, None),
]


def base_job(res, prog):
    f = prog.cls("CratermakerBase").method("__init__")
    vals = {"g": G, "s": SEED, "t": S_, "h": V("typ", "numpy.random.Generator", sym=("second generator",), mn=False)}
    for label, body, args, want, state in BASE_ROWS:
        res.count("obligations")
        H = InitHooks()
        src = f"from cratermaker.core.base import CratermakerBase\ndef client({', '.join(args)}):\n    {body}\n"
        outs, I = run_probe(prog, src, {a: vals[a] for a in args}, hooks=H, max_depth=12, budget=60000, mon=frozenset())
        if outs is None:
            res.count("undecided")
            continue
        rets = [(v, s) for k, v, s in outs if k == "ret"]
        if not rets:
            if outs and all(k == "raise" for k, v, s in outs):
                res.add("generator-init", label, f"{label} always fails", f.path, f.node.lineno)
            else:
                res.count("undecided")
            continue
        for v, s in rets:
            if v.k == "union" or v.sym is None:
                res.count("vague")
                continue
            if want is not None and v.sym != want:
                res.add("generator-init", label, f"{label}: the generator in use is {v!r} {v.sym}", f.path, f.node.lineno)
                break
            if state and not any(m[0] == "state" and m[2] == S_.sym for m in (s.mon or ())):
                res.add("generator-init", label, f"{label}: the state is not restored", f.path, f.node.lineno)
                break


# -- native sources --------------------------------------------------------------------------------------------
RUST_BANNED = {"thread_rng", "from_entropy", "from_os_rng", "OsRng", "SystemTime", "ThreadRng", "getrandom", "from_rng_thread"}


def strip_rust(s):
    s = re.sub(r"//[^\n]*", "", s)
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    return re.sub(r'"(?:\\.|[^"\\])*"', '""', s)


def rust_job(res, root):
    files = sorted(Path(root, "crates").rglob("*.rs"))
    for p in files:
        res.count("rust_files")
        s = strip_rust(p.read_text())
        rel = str(p.relative_to(root))
        for m in re.finditer(r"\b[A-Za-z_][A-Za-z_0-9]*\b", s):
            w = m.group(0)
            line = s.count("\n", 0, m.start()) + 1
            nxt = s[m.end():m.end() + 12]
            prev = s[max(0, m.start() - 6):m.start()]
            if w in RUST_BANNED or (w in ("rng", "random") and prev.endswith("rand::") and nxt.lstrip().startswith(("(", "::<"))) or \
                    (w == "now" and prev.endswith(("ant::", "ime::"))):
                res.add("native-source", f"{rel}:{w}", f"{rel} takes randomness or time from {w} instead of the seed it is given", rel, line)
            if w == "seed_from_u64":
                res.count("native_seeds")
                a = s[m.end():m.end() + 60].lstrip().lstrip("(").split(")")[0].strip()
                if re.fullmatch(r"[0-9_]+(u64)?|0x[0-9a-fA-F_]+", a):
                    res.add("native-source", f"{rel}:constant-seed", f"{rel} seeds its generator with the constant {a} instead of the seed it is given", rel, line)


CRATER_CALLS = [
    ("crater made by a morphology", "o = MorphologyCrater.maker(diameter=1.0e3, morphology=morphology)"),
    ("crater with its own kind of projectile made by a morphology", "o = MorphologyCrater.maker(diameter=1.0e3, projectile='comets', morphology=morphology)"),
    ("crater made by the basic Moon morphology", "o = BasicMoonCrater.maker(diameter=1.0e3, morphology=morphology)"),
    ("crater promoted by the basic Moon morphology", "o = BasicMoonCrater.maker(crater, morphology=morphology)"),
]


def crater_job(res, prog, label, body):
    from checks.p14 import Calls, IMPORTS, NO, OBJS, heap_of, same
    src = IMPORTS + "from cratermaker.components.crater import Crater\nfrom cratermaker.components.morphology import MorphologyCrater\n" + \
        "from cratermaker.components.morphology.basicmoon import BasicMoonCrater\n" + f"def client(g, d, w, {', '.join(OBJS)}):\n    {body}\n    return o\n"
    H = Calls(NO | {"Crater.__init__", "MorphologyCrater.__init__", "BasicMoonCrater.__init__", "rmax"}, {"Crater.maker": {}})
    OBJS = {**OBJS, "crater": "Crater"}
    heap = {**heap_of(prog), ("surface", "_target"): V("obj", prog.cls("Target"), oid="surface.target", sym=("surface.target",), mn=False),
            ("morphology", "_scaling"): V("obj", prog.cls("MonteCarloScaling"), oid="morphology.scaling", sym=("morphology.scaling",), mn=False),
            ("morphology", "_rng"): V("typ", "numpy.random.Generator", sym=("generator of the morphology",), mn=False), ("morphology", "_Crater"): const(None)}
    outs, I = run_probe(prog, src, {"g": G, "d": typ("pathlib.Path", sym=("dir",)), "w": typ("bool", sym=("sw",))}, objs=OBJS, hooks=H, max_depth=22, budget=150000, heap=heap)
    calls = [c for c in H.seen.get("Crater.maker", []) if c[3].name == "maker"]
    if not calls:
        res.count("undecided")
        return
    res.count("obligations")
    for pos, kw, node, fn, st in calls:
        got = kw.get("rng")
        r = False if got is None else same(heap[("morphology", "_rng")], got)
        if r is False:
            res.add("generator-not-passed", label, f"{label}: the crater is created with rng={got!r} instead of the generator of the morphology", fn.path, node.lineno)
            break
        if r is None:
            res.count("vague")


def check(prog, tier):
    res = Result()
    Rules(prog, res).run()
    run_jobs(res, [(mc_job, (prog, n, c)) for n, c in MC_CALLS] + [(init_job, (prog,)), (base_job, (prog,))] + [(crater_job, (prog,) + c) for c in CRATER_CALLS] + [(rust_job, (str(prog.root),))])
    res.require("draw_sites", 25)
    res.require("handovers", 15)
    res.require("generator_creations", 1)
    res.notes = ["every call of the package is resolved and judged by the source, receiver, handover, state and order rules; draws and handovers counted"]
    res.assumptions = ["external numerical libraries are deterministic", "the Rust sources are scanned for the usual entropy sources only"]
    return res
