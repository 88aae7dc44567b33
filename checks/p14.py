"""P14: the parts created for a component or a simulation share its body, mesh, random generator, directory and
overwrite switch.

Abstract clients create or assign parts with a marked generator, directory, switch and marked sub-objects; on
every returning path the part read back must carry exactly the marked object.  Where a nested creation is too
expensive to follow, the arguments of the creation call are compared instead."""
from __future__ import annotations

import ast

from checks.p02 import IMPORTS, TARGET_HEAP
from sa.interp import Hooks
from sa.par import run_jobs
from sa.probe import ProbeHooks, run_probe
from sa.report import Result
from sa.values import V, const

K = "rng=g, simdir=d, ask_overwrite=w"
G = V("typ", "numpy.random.Generator", sym=("marked generator",), mn=False)
D = V("typ", "pathlib.Path", sym=("marked directory",), mn=False)
W = V("typ", "bool", sym=("marked overwrite switch",), mn=False)
MARKS = {"_rng": G, "simdir": D, "ask_overwrite": W}
NO = {"_load_from_files", "Surface.save", "_generate_grid", "get_location_extents", "_compute_face_size", "recompute", "_simdir_init", "read_saved_output",
      "from_xarray", "reset", "_write_grid_file", "set_superdomain", "extract_region"}
OBJS = {"surface": "IcosphereSurface", "scaling": "MonteCarloScaling", "production": "NeukumProduction", "counting": "DepthCount", "target": "Target",
        "projectile": "AsteroidProjectiles", "morphology": "BasicMoonMorphology"}
MORPH = "Morphology.maker('{m}', surface=surface, scaling=scaling, production=production, counting=counting, %s)"
# label, creation, statement afterwards, what must be what: path -> marked attribute name or the name of an object
CLIENTS = [
    ("target", "Target.maker('Moon', %s)", "", {"o._rng": 0, "o.simdir": 0, "o.ask_overwrite": 0}),
    ("projectile", "Projectile.maker('asteroids', target=target, %s)", "", {"o._rng": 0, "o.target": "target"}),
    ("projectile", "Projectile.maker('comets', target=target, %s)", "", {"o._rng": 0, "o.target": "target"}),
    ("projectile", "Projectile.maker('generic', target=target, mean_velocity=1.0e4, %s)", "", {"o._rng": 0, "o.target": "target"}),
    ("sampled projectile", "Projectile.maker('generic', target=target, mean_velocity=1.0e4, %s).new_projectile()", "", {"o._rng": 0, "o.target": "target"}),
    ("production", "Production.maker('neukum', target=target, %s)", "", {"o._rng": 0, "o.simdir": 0}),
    ("production", "Production.maker('powerlaw', target=target, %s)", "", {"o._rng": 0, "o.simdir": 0}),
    ("scaling", "Scaling.maker('montecarlo', target=target, projectile=projectile, %s)", "", {"o._rng": 0, "o.target": "target", "o.projectile": "projectile"}),
    ("scaling", "Scaling.maker('ctem', target=target, projectile=projectile, %s)", "", {"o._rng": 0, "o.target": "target", "o.projectile": "projectile"}),
    ("surface", "Surface.maker('icosphere', target=target, gridlevel=5, %s)", "", {"o._rng": 0, "o.simdir": 0, "o.ask_overwrite": 0, "o.target": "target"}),
    ("surface", "Surface.maker('arbitrary_resolution', target=target, pix=1.0e5, %s)", "", {"o._rng": 0, "o.simdir": 0, "o.ask_overwrite": 0, "o.target": "target"}),
    ("surface", "Surface.maker('hireslocal', target=target, pix=10.0, local_radius=1.0e3, local_location=(0.0, 0.0), %s)", "", {"o._rng": 0, "o.simdir": 0, "o.ask_overwrite": 0, "o.target": "target"}),
    ("counting", "Counting.maker('depthcount', surface=surface, %s)", "", {"o._rng": 0, "o.simdir": 0, "o.ask_overwrite": 0, "o.surface": "surface"}),
    ("morphology", MORPH.format(m="basicmoon"), "", {"o._rng": 0, "o.simdir": 0, "o.ask_overwrite": 0, "o.surface": "surface", "o.scaling": "scaling", "o.production": "production", "o.counting": "counting",
                                                 "o.counting.morphology": "o"}),
    ("morphology", MORPH.format(m="realisticmoon"), "", {"o._rng": 0, "o.simdir": 0, "o.ask_overwrite": 0, "o.surface": "surface", "o.scaling": "scaling", "o.production": "production", "o.counting": "counting"}),
    ("morphology with named parts", "Morphology.maker('basicmoon', surface='icosphere', target=target, scaling=scaling, production='neukum', counting='depthcount', %s)", "",
     {"o.surface._rng": 0, "o.surface.simdir": 0, "o.surface.ask_overwrite": 0, "o.production._rng": 0, "o.counting._rng": 0, "o.counting.simdir": 0, "o.counting.ask_overwrite": 0}),
    ("morphology with a given surface", "Morphology.maker('basicmoon', surface=surface, scaling=scaling, production='neukum', counting='depthcount', %s)", "",
     {"o.counting._rng": 0, "o.counting.simdir": 0, "o.counting.surface": "surface", "o.counting.morphology": "o", "o.production._rng": 0}),
    ("production assigned to a morphology", MORPH.format(m="basicmoon"), "o.production = 'powerlaw'", {"o.production._rng": 0}),
    ("counting assigned to a morphology", MORPH.format(m="basicmoon"), "o.counting = 'depthcount'", {"o.counting._rng": 0, "o.counting.simdir": 0, "o.counting.surface": "surface", "o.counting.morphology": "o"}),
    ("surface assigned to a morphology", MORPH.format(m="basicmoon"), "o.surface = 'icosphere'", {"o.surface._rng": 0, "o.surface.simdir": 0, "o.surface.ask_overwrite": 0}),
]
# label, client body (uses the objects), creation calls not followed, expected arguments of each such call
CALLS = [
    ("scaling created by name", "o = Scaling.maker('montecarlo', target=target, projectile='asteroids', " + K + ")", {"Projectile.maker": {"rng": G, "target": "target"}}),
    ("projectile assigned to a scaling", "o = Scaling.maker('montecarlo', target=target, projectile=projectile, " + K + ")\n    o.projectile = 'comets'", {"Projectile.maker": {"rng": G, "target": "target"}}),
    ("morphology without a scaling model", "o = Morphology.maker('basicmoon', surface=surface, production=production, counting=counting, " + K + ")",
     {"Scaling.maker": {"rng": G, "target": "surface.target"}}),
    ("morphology without a production", "o = Morphology.maker('basicmoon', surface=surface, scaling=scaling, counting=counting, " + K + ")",
     {"Production.maker": {"rng": G, "target": "surface.target"}}),
    ("production assigned to a morphology", "o = Morphology.maker('basicmoon', surface=surface, scaling=scaling, production=production, counting=counting, " + K + ")\n    o.production = 'powerlaw'",
     {"Production.maker": {"rng": G, "target": "surface.target"}}),
    ("crater from a projectile", "o = Crater.maker(projectile_diameter=1.0e3, target=target, projectile='asteroids', scaling='montecarlo', rng=g)",
     {"Projectile.maker": {"rng": G, "target": "target"}, "Scaling.maker": {"rng": G, "target": "target", "projectile": "any"}}),
    ("crater made by a morphology", "o = MorphologyCrater.maker(diameter=1.0e3, morphology=morphology)", {"Crater.maker": {"scaling": "morphology.scaling"}}),
]


class Calls(Hooks):
    max_rec = 3

    def __init__(self, noinline, watch):
        self.noinline = noinline
        self.watch = watch
        self.seen = {}

    def inline(self, I, func, depth):
        if func.short in self.watch and depth > 1:
            return False
        return func.name not in self.noinline and func.short not in self.noinline

    def after_call(self, I, st, node, fv, pos, kw, v):
        f = fv.c if fv.k in ("fn", "bound") else None
        if f is not None and f.short in self.watch and I.fr.func.name != "client":
            if not (f.name == "maker" and pos and pos[0].k == "obj"):
                self.seen.setdefault(f.short, []).append((list(pos), dict(kw), node, I.fr.func, st))
            if f.name == "maker" and f.cls is not None:
                return V("obj", f.cls, sym=("made", f.cls.name), oid=("made", f.cls.name), mn=False)
        return v


def same(want, got):
    """True / False / None (cannot tell)."""
    if got.k == "union":
        rs = {same(want, x) for x in got.items}
        return None if None in rs or len(rs) > 1 else rs.pop()
    if want.k == "obj":
        if got.k == "obj":
            return got.oid == want.oid
        return False if got.k in ("const", "num", "seq", "dict") else None
    if got.sym == want.sym and got.sym is not None:
        return True
    if got.k == "top" and "default_rng" not in str(got.sym):
        return None
    return False


def heap_of(prog):
    h = {k: v for k, v in TARGET_HEAP.items() if k != ("projectile", "_target")}
    for o in ("projectile", "scaling"):
        h[(o, "_target")] = V("obj", prog.cls("Target"), oid="target", sym=("target",), mn=False)
    h[("scaling", "_projectile")] = V("obj", prog.cls("AsteroidProjectiles"), oid="projectile", sym=("projectile",), mn=False)
    return h


def client_job(res, prog, label, make, stmt, wants):
    expr = make % K
    paths = list(wants)
    names = [x for x in OBJS if x in expr]
    src = IMPORTS + f"def client(g, d, w, {', '.join(OBJS)}):\n    o = {expr}\n" + (f"    {stmt}\n" if stmt else "") + \
        f"    return ({', '.join(paths)}, o)\n"
    outs, I = run_probe(prog, src, {"g": G, "d": D, "w": W}, objs=OBJS, hooks=ProbeHooks(NO, 3), max_depth=22, budget=150000, heap=heap_of(prog))
    what = label + (f" ({make.split('(')[1].split(',')[0]})" if "'" in make else "")
    if outs is None:
        res.count("undecided")
        return
    rets = [x for k, x, s in outs if k == "ret" and x.k == "seq" and len(x.items) == len(paths) + 1]
    if not rets:
        res.count("undecided")
        return
    c = prog.cls(make.split(".")[0])
    m = c.method("maker") or c.method("__init__")
    for i, p in enumerate(paths):
        res.count("obligations")
        w = wants[p]
        for x in rets:
            if w == 0:
                want = MARKS[p.split(".")[-1]]
            elif w == "o":
                want = x.items[-1]
            else:
                want = V("obj", prog.cls(OBJS[w]), oid=w)
            r = same(want, x.items[i])
            if r is None:
                res.count("vague")
            if r is False:
                res.add("not-shared", f"{what}:{p[2:]}", f"{what}: {p[2:].replace('_rng', 'random generator')} is {x.items[i]!r} instead of "
                        f"{'the one given' if w == 0 else 'the component itself' if w == 'o' else 'the given ' + w}", m.path, m.node.lineno)
                break


def call_job(res, prog, label, body, watch):
    src = IMPORTS + "from cratermaker.components.crater import Crater\nfrom cratermaker.components.morphology import MorphologyCrater\n" + \
        f"def client(g, d, w, {', '.join(OBJS)}):\n    {body}\n    return o\n"
    H = Calls(NO, watch)
    heap = {**heap_of(prog), ("surface", "_target"): V("obj", prog.cls("Target"), oid="surface.target", sym=("surface.target",), mn=False),
            ("morphology", "_scaling"): V("obj", prog.cls("MonteCarloScaling"), oid="morphology.scaling", sym=("morphology.scaling",), mn=False)}
    outs, I = run_probe(prog, src, {"g": G, "d": D, "w": W}, objs=OBJS, hooks=H, max_depth=22, budget=150000, heap=heap)
    for name, want in watch.items():
        calls = H.seen.get(name, [])
        if not calls:
            res.count("undecided")
            continue
        for arg, w in want.items():
            res.count("obligations")
            for pos, kw, node, fn, st in calls:
                got = kw.get(arg)
                wv = w if isinstance(w, V) else V("obj", None, oid=w)
                if got is None and fn.cls is not None and fn.cls.name == name.split(".")[0]:
                    continue
                r = False if got is None else got.k != "const" if w == "any" else same(wv, got)
                if r is None:
                    res.count("vague")
                if r is False:
                    res.add("not-passed-on", f"{label}:{name}:{arg}", f"{label}: {name} is called with {arg}={got!r} instead of "
                            f"{'the random generator of its owner' if isinstance(w, V) else 'the ' + w + ' of its owner'}", fn.path, node.lineno)
                    break


class SimCalls(Hooks):
    pass


# Simulation.__init__: maker -> argument -> component that must be passed
WIRING = {"Production": {"target": "Target"}, "Projectile": {"target": "Target"}, "Scaling": {"target": "Target", "projectile": "Projectile"}, "Surface": {"target": "Target"},
          "Counting": {"surface": "Surface"}, "Morphology": {"surface": "Surface", "production": "Production", "counting": "Counting", "scaling": "Scaling"}}


def sim_job(res, prog):
    from checks.p02 import SimHooks, saved_config
    from sa.values import typ
    for extra in ("", ", target='Mars', surface='hireslocal', production='powerlaw'"):
        src = IMPORTS + f"def client(d, g):\n    return Simulation(simdir=d, rng=g, ask_overwrite=False, reset=True{extra})\n"
        H = SimHooks(prog, saved_config())
        outs, I = run_probe(prog, src, {"d": typ("str", sym=("simdir",)), "g": G}, hooks=H, max_depth=20, budget=150000)
        if outs is None:
            res.count("undecided")
            continue
        for comp, want in WIRING.items():
            calls = [c for c in H.calls.get(comp, []) if c[3].cls is not None and c[3].cls.name == "Simulation"]
            for arg, other in want.items():
                res.count("obligations")
                for pos, kw, node, fn in calls:
                    got = kw.get(arg)
                    if got is None or (got.k == "obj" and got.oid != ("made", other)) or got.k == "const":
                        res.add("not-wired", f"Simulation:{comp}:{arg}", f"the {comp.lower()} of a simulation is created with {arg}={got!r} instead of the simulation's own {other.lower()}", fn.path, node.lineno)
                        break
            for arg in ("rng", "simdir", "ask_overwrite"):
                res.count("obligations")
                for pos, kw, node, fn in calls:
                    got = kw.get(arg)
                    if got is None or (got.k == "const" and arg != "ask_overwrite") or (arg == "rng" and got.sym not in (G.sym, ("generator",))):
                        res.add("not-wired", f"Simulation:{comp}:{arg}", f"the {comp.lower()} of a simulation is created with {arg}={got!r} instead of the simulation's own", fn.path, node.lineno)
                        break


def check(prog, tier):
    res = Result()
    jobs = [(client_job, (prog,) + c) for c in CLIENTS] + [(call_job, (prog,) + c) for c in CALLS] + [(sim_job, (prog,))]
    run_jobs(res, jobs)
    res.require("obligations", 80)
    res.notes = ["abstract clients create or assign every kind of part with marked generator, directory, switch and sub-objects; on all returning paths the part must carry exactly the marked object"]
    return res
