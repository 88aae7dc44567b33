"""P02: what the user configured is saved and comes back when a run is resumed.

Round trips are interpreted abstractly: build a component with a setting (or assign it afterwards), ask for
its saved configuration, build the component again from that configuration, read the setting.  Every
returning path must read back the value that was given, for whole classes of values.  The hand-over of the
saved configuration to each component in the simulation is followed on every path of its constructor."""
from __future__ import annotations

import ast

from sa.interp import Hooks
from sa.probe import NEG, POS, POSINT, FALSE, TRUE, lit, outcome, pyval, rng, run_probe
from sa.par import run_jobs
from sa.report import Result
from sa.values import V, const, top, typ

IMPORTS = """from cratermaker.components.target import Target
from cratermaker.components.projectile import Projectile
from cratermaker.components.production import Production
from cratermaker.components.scaling import Scaling
from cratermaker.components.surface import Surface
from cratermaker.components.morphology import Morphology
from cratermaker.components.counting import Counting
from cratermaker.core.simulation import Simulation
from cratermaker.utils.general_utils import _set_properties
"""
NO = {"_load_from_files", "Surface.save", "_generate_grid", "get_location_extents", "_compute_face_size"}
T = "name='Somewhere', radius=1.0e6, mass=1.0e22, transition_scale_type='silicate', material='Soft Rock'"
PFIX = "projectile='generic', target='Moon', sample=False, mean_velocity=1.0e4, velocity=2.0e4, angle=45.0, direction=10.0, location=(1.0, 2.0), density=1.0e3"
HR = "surface='hireslocal', pix=10.0, local_radius=1.0e3, local_location=(0.0, 0.0), superdomain_scale_factor=100.0"


def without(s, k):
    """The argument list s without argument k."""
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch in "([{"
        depth -= ch in ")]}"
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return ", ".join(a for a in out if not a.startswith(k + "="))


# (factory, arguments without which it cannot be rebuilt, full construction arguments, setting -> value class, assign afterwards too)
COMPONENTS = [
    ("Target", "name='Somewhere'", T, {"radius": POS, "mass": POS, "transition_scale_type": lit("ice"), "material": lit("Hard Rock"), "density": POS}, True),
    ("Target", "name='Moon'", "name='Moon'", {"radius": POS, "mass": POS, "transition_scale_type": lit("ice"), "density": POS}, True),
    ("Projectile.maker", "projectile='generic', target='Moon'", "projectile='generic', target='Moon', mean_velocity=1.0e4, density=1.0e3",
     {"mean_velocity": POS, "density": POS}, True),
    ("Projectile.maker", "projectile='generic', target='Moon'", PFIX, {"velocity": POS, "angle": rng(1, 90), "direction": rng(1, 359), "density": POS, "sample": FALSE}, False),
    ("Projectile.maker", "projectile='asteroids', target='Moon'", "projectile='asteroids', target='Moon', density=1.0e3", {"density": POS, "sample": TRUE}, True),
    ("Projectile.maker", "projectile='comets', target='Titan'", "projectile='comets', target='Titan', density=1.0e3", {"density": POS, "sample": TRUE}, True),
    ("Production.maker", "production='powerlaw', target='Somewhere'", "production='powerlaw', target='Moon'",
     {"N1_coef": POS, "slope": NEG, "generator_type": lit("projectile"), "D_conversion_factor": lit(1.0), "N_conversion_factor": lit(1.0e6), "diameter_range": pyval((5.0, 7.0))}, True),
    ("Production.maker", "production='neukum', target='Moon'", "production='neukum', target='Moon'",
     {"version": lit("Mars"), "D_conversion_factor": lit(1.0), "N_conversion_factor": lit(1.0e6), "diameter_range": pyval((5.0, 7.0))}, True),
    ("Scaling.maker", "scaling='montecarlo', target=target, projectile=projectile", "scaling='montecarlo', target=target, projectile=projectile",
     {"K1": POS, "mu": POS, "Ybar": POS, "material": lit("Hard Rock"), "monte_carlo_scaling": FALSE}, True),
    ("Scaling.maker", "scaling='ctem', target=target, projectile=projectile", "scaling='ctem', target=target, projectile=projectile",
     {"K1": POS, "mu": POS, "Ybar": POS, "material": lit("Hard Rock")}, True),
    ("Surface.maker", "surface='icosphere', target='Moon'", "surface='icosphere', target='Moon'", {"gridlevel": POSINT}, True),
    ("Surface.maker", "surface='arbitrary_resolution', target='Moon'", "surface='arbitrary_resolution', target='Moon', pix=10.0", {"pix": POS}, True),
    ("Surface.maker", "surface='hireslocal', target='Moon'", HR + ", target='Moon'",
     {"pix": POS, "local_radius": POS, "superdomain_scale_factor": rng(1, 1.0e9), "local_location": pyval((5.0, 7.0))}, True),
    ("Morphology.maker", "morphology='basicmoon', surface=surface, production=production, counting=counting, scaling=scaling",
     "morphology='basicmoon', surface=surface, production=production, counting=counting, scaling=scaling",
     {"ejecta_truncation": POS, "dorays": TRUE, "do_subpixel_degradation": FALSE, "do_slope_collapse": FALSE, "do_counting": FALSE}, True),
    ("Morphology.maker", "morphology='realisticmoon', surface=surface, production=production, counting=counting, scaling=scaling",
     "morphology='realisticmoon', surface=surface, production=production, counting=counting, scaling=scaling",
     {"ejecta_truncation": POS, "dorays": TRUE, "do_subpixel_degradation": FALSE, "do_slope_collapse": FALSE, "do_counting": FALSE}, True),
]
OBJS = {"target": "Target", "projectile": "AsteroidProjectiles", "surface": "IcosphereSurface", "production": "PowerLawProduction", "counting": "DepthCount", "scaling": "MonteCarloScaling"}
TARGET_HEAP = {("target", "_name"): const("Moon"), ("target", "_material"): const("Soft Rock"), ("target", "_density"): POS[1](("tdens",)), ("target", "_transition_scale_type"): const("silicate"),
               ("target", "_material_catalogue"): const(None), ("target", "_radius"): POS[1](("trad",)), ("target", "_mass"): POS[1](("tmass",)), ("projectile", "_density"): POS[1](("pdens",)),
               ("projectile", "_target"): const(None)}
COMPS = ("target", "production", "projectile", "scaling", "surface", "counting", "morphology")
SIM_SETTINGS = {"time": POS, "elapsed_time": POS, "elapsed_n1": POS, "interval": POSINT, "ask_overwrite": FALSE, "rng_seed": POSINT}
CLEAN = "    o._user_defined = set()\n" + "".join(f"    o._{c} = None\n" for c in COMPS)
NAME = {"target": "Somewhere", "production": "powerlaw", "projectile": "generic", "scaling": "montecarlo", "surface": "icosphere", "morphology": "basicmoon"}
IN_SIM = {"target": ("Target", "mass", POS), "production": ("PowerLawProduction", "slope", NEG), "projectile": ("GenericProjectiles", "mean_velocity", POS), "scaling": ("MonteCarloScaling", "K1", POS),
          "surface": ("IcosphereSurface", "gridlevel", POSINT), "counting": ("DepthCount", None, None), "morphology": ("BasicMoonMorphology", "ejecta_truncation", POS)}


def differs(given, x):
    if x.k == "const" and given.k == "const":
        if isinstance(given.c, str) and isinstance(x.c, str):
            return given.c.lower() != x.c.lower()
        return x.c != given.c
    if x.k == "const":
        return given.k in ("num", "seq")
    if x.k == "num":
        return given.k != "num" or x.num.lo > given.num.hi or x.num.hi < given.num.lo or (x.sym != given.sym and "given" not in x.lab)
    if x.k == "seq" and given.k == "seq":
        return len(x.items) != len(given.items) or any(differs(a, b) for a, b in zip(given.items, x.items))
    return False


def round_trip(res, prog, what, src, v, objs, where):
    outs, I = run_probe(prog, src, {"v": v}, objs=objs, noinline=NO | ({"recompute", "Projectile.maker"} if "projectile" in objs else set()), max_depth=22, max_rec=3, budget=150000,
                        heap=TARGET_HEAP if "target" in objs else None)
    if outs is None:
        res.count("undecided")
        return
    rets = [(x, s) for k, x, s in outs if k == "ret"]
    if not rets:
        e = next((x for k, x, s in outs if k == "raise"), None)
        res.count("obligations")
        res.add("not-restorable", what, f"{what}: building it again from its own saved configuration always fails "
                f"({e.name if e else '?'} in {e.func.short if e else '?'}:{getattr(e.node, 'lineno', 0) if e else 0})", *where)
        return
    given = v[1](("given", "v"))
    bad = [(x, s) for x, s in rets if differs(given, x)]
    vague = [x for x, s in rets if x.k in ("top", "typ", "union", "dict") and "given" not in x.lab]
    if bad:
        res.count("obligations")
        res.add("lost-setting", what, f"{what}: given {v[0]}, a resumed run gets {bad[0][0]!r}", *where)
    elif vague and len(vague) == len(rets):
        res.count("undecided")
    else:
        res.count("obligations")


class SimHooks(Hooks):
    """Follows Simulation.__init__ with a saved configuration in which every component has one marked setting."""
    max_rec = 3
    SUB = {"Target": "Target", "Production": "PowerLawProduction", "Projectile": "GenericProjectiles", "Scaling": "MonteCarloScaling",
           "Surface": "IcosphereSurface", "Counting": "DepthCount", "Morphology": "BasicMoonMorphology"}

    def __init__(self, prog, saved):
        self.prog = prog
        self.calls = {}
        self.restored = []
        self.saved = saved
        self.no = {"_simdir_init", "to_config", "Simulation.reset", "set_superdomain", "save", "face_size", "smallest_crater", "largest_crater", "plot", "_rng_init", "_process_quasimc_craters", "quasimc_craters", "function", "csfd", "format_large_units", "_validate_csfd"}

    def inline(self, I, func, depth):
        if func.name == "maker" and func.cls is not None:
            return False
        return func.name not in self.no and func.short not in self.no

    def on_attr_write(self, I, st, node, obj, attr, value):
        if attr == "state" and obj.k != "obj":
            self.restored.append((value, node, I.fr.func))

    def on_attr_read(self, I, st, node, obj, attr):
        if attr in ("state", "bit_generator") and obj.k != "obj":
            return V("top", None, sym=(attr, obj.sym), mn=False)
        return None

    def after_call(self, I, st, node, fv, pos, kw, v):
        if fv.k in ("fn", "bound") and fv.c.name == "_rng_init":
            g = V("typ", "numpy.random.Generator", sym=("generator",), mn=False)
            return V("seq", "tuple", items=(g, V("top", None, sym=("generator state",), mn=False)))
        if fv.k == "ext" and str(fv.c) in ("yaml.safe_load", "yaml.load", "yaml.full_load"):
            return self.saved
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("exists", "is_file"):
            return const(True)
        f = fv.c if fv.k in ("fn", "bound") else None
        if f is not None and f.name == "maker" and f.cls is not None:
            self.calls.setdefault(f.cls.name, []).append((list(pos), dict(kw), node, I.fr.func))
            sub = self.SUB.get(f.cls.name)
            if sub and self.prog.has_cls(sub):
                return V("obj", self.prog.cls(sub), sym=("made", f.cls.name), oid=("made", f.cls.name), mn=False)
        return v


SAVED = {"target": "Mars", "production": "powerlaw", "projectile": "generic", "scaling": "montecarlo", "surface": "icosphere", "counting": "depthcount", "morphology": "basicmoon"}
OTHER = {"target": "Titan", "production": "neukum", "projectile": "comets", "scaling": "ctem", "surface": "datasurface", "counting": "someothercount", "morphology": "realisticmoon"}
MARK = {"target": "mass", "production": "slope", "projectile": "velocity", "scaling": "K1", "surface": "gridlevel", "counting": "marked_option", "morphology": "ejecta_truncation"}
SAVED_SIM = {"interval": 7, "time": 111.0, "elapsed_time": 222.0, "elapsed_n1": 333.0, "rng_seed": 4444, "simdir": "somewhere"}


def saved_config():
    from sa.interp import lit_value
    items = [(k, lit_value(v, ("saved", k))) for k, v in SAVED_SIM.items()]
    for c in COMPS:
        items.append((c, const(SAVED[c], sym=("saved", c))))
        items.append((c + "_config", V("dict", None, sym=("saved", c + "_config"), items=((MARK[c], const("saved value of " + c)), ("shared_option", const("saved shared of " + c))) +
                      ((("do_counting", const(False)),) if c == "morphology" else ()), mn=False)))
    items.append(("save_actions", lit_value([{"plot": {}}, {"plot": {}}, {"plot": {}}], ("saved", "save_actions"))))
    items.append(("rng_state", V("dict", None, sym=("saved", "rng_state"), items=(("bit_generator", const("PCG64")),), mn=False)))
    return V("dict", None, sym=("saved",), items=tuple(items), mn=False)


def hand_over(res, prog, label, extra, expect, random_state=True, actions=3, reset=False):
    """expect(comp name, value lookup) -> list of (rule, message) for one maker call."""
    init = prog.cls("Simulation").method("__init__")
    has_ro = prog.cls("Simulation").lookup("config_readonly") is not None
    src = IMPORTS + f"def client(d, g):\n    s = Simulation(simdir=d, ask_overwrite=False, reset={reset}{extra})\n    return (" + ", ".join("s." + k for k in SAVED_SIM if k != "simdir") + f", len(s.save_actions), {'s.config_readonly' if has_ro else 'None'})\n"
    H = SimHooks(prog, saved_config())
    outs, I = run_probe(prog, src, {"d": typ("str", sym=("simdir",)), "g": V("typ", "numpy.random.Generator", sym=("given generator",), mn=False)}, hooks=H, max_depth=20, max_rec=3, budget=150000)
    if outs is None:
        res.count("undecided")
        return
    rets = [(x, s) for k, x, s in outs if k == "ret"]
    if not rets:
        e = next((x for k, x, s in outs if k == "raise"), None)
        res.count("obligations")
        res.add("not-restorable", f"resume {label}", f"resuming a simulation {label} always fails ({e.name if e else '?'} in {e.func.short if e else '?'}:{getattr(e.node, 'lineno', 0) if e else 0})",
                init.path, init.node.lineno)
        return
    for comp in COMPS:
        cls = comp.capitalize()
        calls = H.calls.get(cls, [])
        calls = [c for c in calls if c[3].cls is not None and c[3].cls.name == "Simulation"]
        res.count("obligations")
        if not calls:
            res.add("hand-over", f"{comp} {label}", f"no {cls}.maker call on the way when a simulation is resumed {label}", init.path, init.node.lineno)
            continue
        res.count("maker_calls", len(calls))
        for pos, kw, node, fn in calls:
            for rule, msg in expect(comp, pos, kw):
                res.add(rule, f"{comp} {label}", f"{comp}: {msg} when a simulation is resumed {label}", fn.path, node.lineno)
    back = [x for x in H.restored if x[0].sym == ("saved", "rng_state")]
    res.count("obligations")
    if random_state and not back and not reset:
        res.add("random-state-lost", label, f"the saved state of the random number generator is never put back into the generator when a simulation is resumed {label}", init.path, init.node.lineno)
    if not random_state and back:
        res.add("explicit-argument-loses", "rng " + label, f"the saved random state overrides the generator asked for when a simulation is resumed {label}", back[0][2].path, back[0][1].lineno)
    names = [k for k in SAVED_SIM if k != "simdir"]
    given = dict(SAVED_SIM)
    for x, s in rets:
        if x.k != "seq" or len(x.items) != len(names) + 2:
            continue
        ro, n = x.items[-1], x.items[-2]
        if ro.k == "const" and ro.c is True:
            res.add("later-changes-lost", f"{label}", f"nothing that happens to a simulation resumed {label} is written to its configuration any more: settings, interval and time of the continued run are lost",
                    init.path, init.node.lineno)
        if n.k == "const" and n.c != actions:
            res.add("state-lost", f"save_actions {label}", f"of {actions} save actions {n.c} are left when a simulation is resumed {label}", init.path, init.node.lineno)
        if reset:
            continue
        for n, y in zip(names, x.items):
            res.count("state_values")
            if n == "rng_seed" and not random_state:
                continue
            if y.k == "const" and y.c != given[n]:
                res.add("state-lost", f"{n} {label}", f"the saved {n} ({given[n]!r}) becomes {y!r} when a simulation is resumed {label}", init.path, init.node.lineno)
            elif y.k in ("typ", "top", "num"):
                res.count("state_vague")


def got(kw, name):
    return kw.get(name)


def first(pos, kw, comp):
    return pos[0] if pos else kw.get(comp)


def expect_saved(skip=()):
    def f(comp, pos, kw):
        out = []
        v = got(kw, MARK[comp])
        if comp not in skip:
            if v is None or v.k != "const" or v.c != "saved value of " + comp:
                out.append(("config-not-handed-over", f"the saved settings do not reach {comp.capitalize()}.maker (got {v!r} for {MARK[comp]})"))
            w = got(kw, "shared_option")
            if w is not None and w.k == "const" and w.c != "saved shared of " + comp:
                out.append(("config-mixed-up", f"the saved settings of another component are applied ({w.c})"))
            n = first(pos, kw, comp)
            if n is not None and n.k == "const" and n.c != SAVED[comp]:
                out.append(("component-lost", f"the saved choice {SAVED[comp]!r} becomes {n.c!r}"))
        return out
    return f


def expect_counting(want, more=None):
    def f(comp, pos, kw):
        out = more(comp, pos, kw) if more else []
        if comp == "morphology":
            v = kw.get("do_counting")
            if v is not None and v.k == "const" and v.c is not want:
                out = out + [("config-not-handed-over", f"do_counting becomes {v.c} instead of {want}")]
        if comp in ("surface",):
            v = kw.get("reset")
            if v is not None and v.k == "const" and v.c is not False:
                out = out + [("reset-on-resume", "the saved surface is reset")]
        return out
    return f


def expect_fresh(comp, pos, kw):
    out = []
    v = kw.get(MARK[comp])
    if v is not None and v.k == "const" and str(v.c).startswith("saved value"):
        out.append(("stale-settings", "the settings of the old run are used although a reset was asked for"))
    n = first(pos, kw, comp)
    if n is not None and n.k == "const" and n.c == SAVED[comp] and comp in ("target", "production", "projectile"):
        out.append(("stale-settings", f"the {comp} of the old run ({n.c!r}) is used although a reset was asked for"))
    if comp == "surface":
        v = kw.get("reset")
        if v is not None and v.k == "const" and v.c is not True:
            out.append(("no-reset", "the surface is not reset although a reset was asked for"))
    return out


def expect_explicit(value):
    def f(comp, pos, kw):
        v = got(kw, MARK[comp])
        if v is None or v.k != "const" or v.c != value:
            return [("explicit-argument-loses", f"an argument given explicitly does not win over the saved one (got {v!r} for {MARK[comp]})")]
        return []
    return f


def expect_other(changed):
    def f(comp, pos, kw):
        if comp != changed:
            return expect_saved()(comp, pos, kw)
        out = []
        n = first(pos, kw, comp)
        if n is not None and n.k == "const" and n.c != OTHER[comp]:
            out.append(("explicit-argument-loses", f"the component asked for explicitly ({OTHER[comp]!r}) becomes {n.c!r}"))
        v = got(kw, MARK[comp])
        if v is not None and v.k == "const" and str(v.c).startswith("saved value"):
            out.append(("stale-settings", f"settings saved for {SAVED[comp]!r} are applied to {OTHER[comp]!r}"))
        return out
    return f


def check(prog, tier):
    res = Result()
    jobs = []
    # ---- A, B: every component by itself
    for fac, base, full, settings, assign in COMPONENTS:
        cls = fac.split(".")[0]
        c = prog.cls(cls)
        where = (c.module.relpath if hasattr(c.module, "relpath") else c.module.path.name, 0)
        objs = {k: v for k, v in OBJS.items() if k + "=" + k in full}
        par = ", ".join(list(objs) + ["v"])
        for name, v in settings.items():
            label = f"{full.split(',')[0].split('=')[1]} {cls.lower()} setting {name}"
            again = f"{fac}({base}, **c).{name}" if base else f"{fac}(**c).{name}"
            args = without(full, name)
            src = IMPORTS + f"def client({par}):\n    o = {fac}({args}, {name}=v)\n    c = o.to_config(remove_common_args=True)\n    return {again}\n"
            jobs.append((round_trip, (prog, label + " given at construction", src, v, objs, where)))
            if assign:
                src = IMPORTS + f"def client({par}):\n    o = {fac}({full})\n    o.{name} = v\n    c = o.to_config(remove_common_args=True)\n    return {again}\n"
                jobs.append((round_trip, (prog, label + " assigned later", src, v, objs, where)))
    # ---- D: the simulation records its own state and the settings of each of its components
    init = prog.cls("Simulation").method("to_config")
    simwhere = (init.path, init.node.lineno)
    for name, v in SIM_SETTINGS.items():
        src = IMPORTS + f"def client(o, v):\n{CLEAN}    o.{name} = v\n    return o.to_config(save_to_file=False)['{name}']\n"
        jobs.append((round_trip, (prog, f"simulation setting {name}", src, v, {"o": "Simulation"}, simwhere)))
    for comp, (cls, attr, v) in IN_SIM.items():
        if attr is None:
            continue
        src = IMPORTS + f"def client(o, c, v):\n{CLEAN}    c._user_defined = set()\n    o._{comp} = c\n    c.{attr} = v\n    return o.to_config(save_to_file=False)['{comp}_config']['{attr}']\n"
        jobs.append((round_trip, (prog, f"simulation records {comp} setting {attr}", src, v, {"o": "Simulation", "c": cls}, simwhere)))
        src = IMPORTS + f"def client(o, c, v):\n{CLEAN}    c._user_defined = set()\n    o._{comp} = c\n    return o.to_config(save_to_file=False)['{comp}']\n"
        jobs.append((round_trip, (prog, f"simulation records choice of {comp}", src, lit(NAME[comp]), {"o": "Simulation", "c": cls}, simwhere)))
    # ---- C: the simulation hands every saved setting to its component; explicit arguments win; stale settings are dropped
    jobs.append((hand_over, (prog, "as it was", "", expect_counting(False, expect_saved()))))
    jobs.append((hand_over, (prog, "with explicit do_counting and save_actions", ", do_counting=True, save_actions=None", expect_counting(True, expect_saved()), True, 0)))
    jobs.append((hand_over, (prog, "with a reset", "", expect_fresh, False, 1, True)))
    allmarks = ", ".join(f"{MARK[c]}='explicit'" for c in COMPS)
    jobs.append((hand_over, (prog, "with explicit settings", ", " + allmarks, expect_explicit("explicit"))))
    for c in COMPS:
        jobs.append((hand_over, (prog, f"with another {c}", f", {c}={OTHER[c]!r}", expect_other(c))))
    jobs.append((hand_over, (prog, "with an explicit seed", ", rng_seed=12", lambda *a: [], False)))
    jobs.append((hand_over, (prog, "with an explicit generator", ", rng=g", lambda *a: [], False)))
    run_jobs(res, jobs)
    res.require("obligations", 60)
    res.notes = ["abstract round trips setting -> saved configuration -> rebuilt component over whole classes of values"]
    return res
