"""P06: values that make no sense for a setting are refused, values that do are stored as given.

Abstract client programs  obj.setting = value; return obj.setting  and  Component(setting=value)
are interpreted over whole classes of values (intervals, NaN, infinity, wrong types, unknown
option names).  For a class of invalid values no path may return normally; for a class of valid
values some path must, and every value it reads back must be the one given."""
from __future__ import annotations

from sa.model import AnalysisBroken
from sa.probe import (BADSTR, DICT, FALSE, INF, LIST, NAN, NEG, NEGINT, NONE, NONPOS, PINF, POS, POSINT, QUAD, SINGLE, STR, TRIPLE, pyval, TRUE, ZERO, lit, outcome,
                      rng, run_probe, strong)
from sa.par import run_jobs
from sa.report import Result
from sa.values import all_labels

# setting classes: (invalid values, valid values)
NONNEG = ((NEG, NEGINT, STR, LIST), (POS, POSINT))
NONNEG_OPT = ((NEG, NEGINT, STR, LIST), (POS, POSINT, NONE))
POSITIVE = ((NONPOS, ZERO, NEGINT), (POS, POSINT))
POSITIVE_OPT = ((NONPOS, ZERO, NEGINT, STR), (POS, POSINT, NONE))
POSFIN = ((NONPOS, ZERO, NEGINT, NAN, PINF, STR, LIST), (POS, POSINT))
NUMBER = ((STR, LIST, DICT), (POS, NEG))
NUMBER_OPT = ((STR, LIST, DICT), (POS, NONE))
SWITCH = ((lit(1), lit(0), lit(0.5), STR, LIST), (TRUE, FALSE))
SWITCH_NN = ((lit(1), lit(0), lit(0.5), STR, LIST, NONE), (TRUE, FALSE))
TEXT_OPT = ((POS, NEG, TRUE, LIST), (lit("Some Text"), NONE))


def choice(*valid, invalid=(BADSTR,)):
    return (tuple(invalid), tuple(lit(v) for v in valid))


# public class -> setting -> class of values
SETTINGS = {
    "Target": {"radius": POSITIVE, "mass": POSITIVE, "density": POSITIVE_OPT, "name": TEXT_OPT, "material": TEXT_OPT,
               "transition_scale_type": choice("silicate", "ice", None, invalid=(BADSTR, lit("rock"), POS, TRUE))},
    "GenericProjectiles": {"mean_velocity": NONNEG, "velocity": NONNEG_OPT, "angle": NONNEG, "direction": NONNEG, "density": NONNEG, "sample": SWITCH_NN},
    "AsteroidProjectiles": {"mean_velocity": NONNEG, "velocity": NONNEG_OPT, "angle": NONNEG, "direction": NONNEG, "density": NONNEG, "sample": SWITCH_NN},
    "CometProjectiles": {"mean_velocity": NONNEG, "velocity": NONNEG_OPT, "angle": NONNEG, "direction": NONNEG, "density": NONNEG, "sample": SWITCH_NN},
    "MonteCarloScaling": {"material": ((POS, LIST, TRUE), (NONE,)), "K1": NONNEG, "mu": NONNEG, "Ybar": NONNEG, "monte_carlo_scaling": SWITCH_NN},
    "CTEMScaling": {"K1": NONNEG, "mu": NONNEG, "Ybar": NONNEG},
    "PowerLawProduction": {"N1_coef": NONNEG, "slope": NUMBER,
                           "generator_type": choice("crater", "projectile", invalid=(BADSTR, lit("asteroid"), POS, TRUE)),
                           "D_conversion_factor": choice(1.0, 1000.0, invalid=(BADSTR, NONPOS, rng(2, 999), rng(1001, INF, False, True))),
                           "N_conversion_factor": choice(1.0, 1.0e6, 1.0e12, invalid=(BADSTR, NONPOS, rng(2, 999), rng(2.0e6, 9.0e11))),
                           "diameter_range": ((POS, lit(5), STR, TRIPLE, SINGLE), ())},
    "NeukumProduction": {"generator_type": ((lit("crater"), lit("projectile"), BADSTR), ()),
                         "quasimc_craters": ((POS, STR, DICT, LIST), ()), "quasimc_file": ((POS, LIST, TRUE), ()), "version": choice("Moon", "Mars", "Projectile", invalid=(BADSTR, lit("Venus"))),
                         "D_conversion_factor": choice(1.0, 1000.0, invalid=(NONPOS, rng(2, 999))),
                         "N_conversion_factor": choice(1.0, 1.0e6, 1.0e12, invalid=(NONPOS, rng(2, 999)))},
    "BasicMoonMorphology": {"ejecta_truncation": NUMBER_OPT, "dorays": SWITCH_NN, "do_subpixel_degradation": SWITCH_NN, "do_slope_collapse": SWITCH_NN,
                            "do_counting": SWITCH_NN, "surface": ((POS, LIST, TRUE), ()), "production": ((POS, LIST, TRUE), ()),
                            "counting": ((POS, LIST, TRUE), ()), "scaling": ((POS, LIST, STR, NONE), ())},
    "ArbitraryResolutionSurface": {"is_new": SWITCH_NN, "pix": POSFIN},
    "HiResLocalSurface": {"pix": POSFIN, "local_radius": POSFIN,
                          "superdomain_scale_factor": ((NONPOS, rng(0, 1, False, True), NAN, PINF, STR, LIST), (rng(1, INF, False, True),)),
                          "local_location": ((POS, STR, NONE, LIST, TRIPLE, SINGLE), ())},
    "DataSurface": {"pix": POSFIN, "local_radius": POSFIN,
                    "superdomain_scale_factor": ((NONPOS, rng(0, 1, False, True), NAN, PINF, STR, LIST), (rng(1, INF, False, True),)),
                    "superdomain_dem_file": ((POS, LIST, TRUE), ()), "dem_file_list": ((POS, TRUE, DICT), ())},
    "IcosphereSurface": {"gridlevel": ((NEG, NEGINT, rng(-INF, -0.5, True, False)), (POSINT, lit(0)))},
    "DepthCount": {"surface": ((POS, LIST, STR, NONE), ()), "morphology": ((POS, LIST, STR, NONE), ())},
    "Simulation": {"interval": ((NEGINT, POS, STR, NONE), (POSINT, lit(0))), "is_new": SWITCH_NN, "ask_overwrite": SWITCH,
                   "target": ((POS, LIST, NONE), ()), "surface": ((POS, LIST, NONE), ()), "production": ((POS, LIST, NONE), ()),
                   "scaling": ((POS, LIST, NONE), ()), "morphology": ((POS, LIST, NONE), ()), "projectile": ((POS, LIST, NONE), ()),
                   "counting": ((POS, LIST, NONE), ()), "do_quasimc": ((POS, STR, LIST), (TRUE, FALSE)),
                   "elapsed_time": ((LIST, DICT), (POS,)), "time": ((LIST, DICT), (POS,)), "elapsed_n1": ((LIST, DICT), (POS,))},
    "CraterVariable": {"measured_diameter": ((NONPOS, ZERO), (POS, NONE)), "measured_radius": ((NONPOS, ZERO), (POS, NONE)),
                       "measured_semimajor_axis": ((NONPOS, ZERO), (NONE,)), "measured_semiminor_axis": ((NONPOS, ZERO), (NONE,)),
                       "measured_rim_height": ((LIST, DICT), (POS, NEG, NONE)), "measured_floor_depth": ((LIST, DICT), (POS, NEG, NONE)),
                       "measured_orientation": ((LIST, DICT), ()), "production_sequence": ((LIST, DICT), (POSINT,)),
                       "degradation_state": ((LIST, DICT), (POS, NONE)),
                       "production_ND": ((POS, LIST, TRUE, QUAD, SINGLE), (NONE,)), "production_time": ((LIST, TRIPLE, SINGLE), (NONE,))},
}
COMMON = {"ask_overwrite": SWITCH, "rng_seed": ((NEGINT, NEG, NAN, PINF, STR, LIST), (POSINT, NONE)),
          "save_actions": ((POS, STR, DICT, LIST, pyval([{"no_such_method": {}}]), pyval([{"save": 5}])), ())}
SETTINGS_ALL_COMPONENTS = ("Simulation", "DepthCount", "NeukumProduction", "Target")

IMPORTS = """from cratermaker.components.target import Target
from cratermaker.components.crater import Crater
from cratermaker.components.projectile import Projectile
from cratermaker.components.production import Production
from cratermaker.components.scaling import Scaling
from cratermaker.components.surface import Surface
from cratermaker.components.morphology import Morphology
from cratermaker.components.counting import Counting
"""

# construction: public factory call with one free value -> class of values
CONSTRUCT = [
    ("Target('Somewhere', radius={v}, mass=1.0e22, transition_scale_type='silicate')", "radius", "radius", POSITIVE),
    ("Target('Somewhere', radius=1.0e6, mass={v}, transition_scale_type='silicate')", "mass", "mass", POSITIVE),
    ("Target('Somewhere', radius=1.0e6, mass=1.0e22, density={v}, transition_scale_type='silicate')", "density", "density", ((NONPOS, STR), (POS,))),
    ("Target('Somewhere', radius=1.0e6, mass=1.0e22, transition_scale_type={v})", "transition_scale_type", "transition_scale_type", choice("silicate", "ice", invalid=(BADSTR, lit("rock")))),
    ("Target('Somewhere', diameter={v}, mass=1.0e22, transition_scale_type='silicate')", "diameter", None, POSITIVE),
    ("Target('Moon', radius={v})", "radius", "radius", POSITIVE),
    ("Target('Mars', density={v})", "density", "density", ((NONPOS, STR), (POS,))),
    ("Target.maker('Moon', radius={v})", "radius", "radius", POSITIVE),
    ("Target.maker({v})", "target", None, ((POS, LIST, TRUE), ())),
    ("Projectile.maker('generic', target='Moon', mean_velocity=1.0e4, density={v})", "density", "density", ((NEG, STR), (POS,))),
    ("Projectile.maker('generic', target='Moon', mean_velocity=1.0e4, velocity={v})", "velocity", "velocity", ((NEG, STR), (POS,))),
    ("Projectile.maker('generic', target='Moon', mean_velocity=1.0e4, angle={v})", "angle", "angle", ((NEG, STR), (POS,))),
    ("Projectile.maker('generic', target='Moon', mean_velocity=1.0e4, direction={v})", "direction", "direction", ((NEG, STR), (POS,))),
    ("Production.maker('powerlaw', N1_coef={v})", "N1_coef", "N1_coef", ((NEG, STR, LIST), (POS,))),
    ("Production.maker('powerlaw', slope={v})", "slope", None, ((STR, LIST), (POS,))),
    ("Production.maker('powerlaw', generator_type={v})", "generator_type", "generator_type", choice("crater", "projectile", invalid=(BADSTR,))),
    ("Production.maker('neukum', version={v})", "version", "version", choice("Moon", "Mars", "Projectile", invalid=(BADSTR, lit("Venus")))),
    ("Production.maker('powerlaw', D_conversion_factor={v})", "D_conversion_factor", "D_conversion_factor", choice(1.0, 1000.0, invalid=(NONPOS, rng(2, 999)))),
    ("Production.maker({v})", "production", None, ((BADSTR, POS, LIST), ())),
    ("Scaling.maker({v})", "scaling", None, ((BADSTR, POS, LIST), ())),
    ("Surface.maker({v})", "surface", None, ((BADSTR, POS, LIST), ())),
    ("Counting.maker({v})", "counting", None, ((BADSTR, POS, LIST), ())),
    ("Scaling.maker('montecarlo', K1={v})", "K1", None, ((NEG, STR), (POS,))),
    ("Scaling.maker('montecarlo', mu={v})", "mu", None, ((NEG, STR), (POS,))),
    ("Scaling.maker('montecarlo', Ybar={v})", "Ybar", None, ((NEG, STR), (POS,))),
    ("Scaling.maker('montecarlo', monte_carlo_scaling={v})", "monte_carlo_scaling", None, ((lit(1), STR), (TRUE, FALSE))),
    ("Surface.maker('icosphere', gridlevel={v})", "gridlevel", None, ((NEG, NEGINT), (POSINT,))),
    ("Surface.maker('arbitrary_resolution', pix={v})", "pix", None, ((NONPOS, NAN, PINF, STR), (POS,))),
    ("Surface.maker('hireslocal', pix={v}, local_radius=1.0e3, local_location=(0.0, 0.0))", "pix", None, ((NONPOS, NAN, PINF, STR), (POS,))),
    ("Surface.maker('hireslocal', pix=10.0, local_radius={v}, local_location=(0.0, 0.0))", "local_radius", None, ((NONPOS, NAN, PINF, STR), (POS,))),
    ("Surface.maker('hireslocal', pix=10.0, local_radius=1.0e3, local_location=(0.0, 0.0), superdomain_scale_factor={v})", "superdomain_scale_factor", None, ((rng(0, 1, True, True), NAN, PINF, STR), ())),
    ("Crater.maker(diameter={v})", "diameter", None, ((NEG,), ())),
    ("Crater.maker(radius={v})", "radius", None, ((NEG,), ())),
    ("Crater.maker(transient_diameter={v})", "transient_diameter", None, ((NEG,), ())),
    ("Crater.maker(projectile_diameter={v})", "projectile_diameter", None, ((NEG,), ())),
    ("Crater.maker(diameter=1.0e3, projectile_velocity={v})", "projectile_velocity", None, ((NEG,), ())),
    ("Crater.maker(diameter=1.0e3, projectile_density={v})", "projectile_density", None, ((NEG,), ())),
    ("Morphology.maker('basicmoon', surface=None, dorays={v})", "dorays", None, ((lit(1), STR), (TRUE, FALSE))),
]

# methods whose arguments are checked: (class, call, invalid values, valid values)
CALLS = [
    ("MonteCarloScaling", "o.projectile_to_transient({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("MonteCarloScaling", "o.transient_to_projectile({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("MonteCarloScaling", "o.final_to_transient({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("MonteCarloScaling", "o.transient_to_final({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("MonteCarloScaling", "o.get_morphology_type({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("CTEMScaling", "o.projectile_to_transient({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("CTEMScaling", "o.transient_to_projectile({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("CTEMScaling", "o.final_to_transient({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("CTEMScaling", "o.transient_to_final({v})", (NONPOS, ZERO, NAN, PINF), (POS,)),
    ("NeukumProduction", "o.sample(time_start=100.0, diameter_range=(1.0e3, 1.0e4), area={v})", (NEG,), (POS,)),
    ("NeukumProduction", "o.sample(time_start=100.0, diameter_range=({v}, 1.0e4))", (NONPOS, ZERO), (rng(1, 10),)),
    ("NeukumProduction", "o.sample(time_start=100.0, diameter_range=(1.0e3, {v}))", (NONPOS, rng(0, 999)), (rng(1001, INF, False, True),)),
    ("NeukumProduction", "o.sample(time_start=100.0, diameter_range={v})", (POS, LIST, TRIPLE, SINGLE), ()),
    ("NeukumProduction", "o.sample(time_start=100.0, diameter_range=(1.0e3, 1.0e4), compute_time={v})", (POS, STR), (TRUE, FALSE)),
    ("NeukumProduction", "o.sample(time_start={v}, diameter_range=(1.0e3, 1.0e4))", (LIST, STR, NEG, rng(4500.5, INF, False, True)), (rng(1, 100),)),
    ("NeukumProduction", "o.sample(time_start=100.0, time_end={v}, diameter_range=(1.0e3, 1.0e4))", (LIST, STR, rng(101, INF, False, True)), (rng(1, 99),)),
    ("PowerLawProduction", "o.sample(time_start=100.0, time_end={v}, diameter_range=(1.0e3, 1.0e4))", (LIST, STR, rng(101, INF, False, True)), (rng(1, 99),)),
    ("NeukumProduction", "o.sample(diameter_number={v}, diameter_range=(1.0e3, 1.0e4))", (LIST, POS, TRIPLE, SINGLE), ()),
    ("NeukumProduction", "o.sample(diameter_number=({v}, 10.0), diameter_range=(1.0e3, 1.0e4))", (NEG,), ()),
    ("NeukumProduction", "o.sample(diameter_number=(1.0e3, {v}), diameter_range=(1.0e3, 1.0e4), area=1.0)", (NEG,), ()),
    ("NeukumProduction", "o.sample(diameter_number=(1.0e3, 10.0), diameter_number_end={v}, diameter_range=(1.0e3, 1.0e4), area=1.0)", (LIST, POS, TRIPLE, SINGLE), ()),
    ("NeukumProduction", "o.csfd({v})", (NEG,), ()),
    ("NeukumProduction", "o.function(diameter={v}, time_start=100.0)", (NEG,), ()),
    ("NeukumProduction", "o.function(diameter=1.0e3, time_start={v})", (NEG, STR, rng(4500.5, INF, False, True)), ()),
    ("NeukumProduction", "o.function(diameter=1.0e3, time_start=100.0, time_end={v})", (STR, rng(101, INF, False, True)), ()),
    ("PowerLawProduction", "o.function(diameter={v}, time_start=100.0)", (NEG,), ()),
    ("PowerLawProduction", "o.function(diameter=1.0e3, time_start=100.0, time_end={v})", (STR, rng(101, INF, False, True)), ()),
    ("NeukumProduction", "o.chronology(time_start={v})", (NEG, STR, rng(4500.5, INF, False, True)), ()),
    ("NeukumProduction", "o.age_from_D_N(diameter={v}, cumulative_number_density=1.0e-8)", (NEG,), ()),
    ("NeukumProduction", "o.age_from_D_N(diameter=1.0e3, cumulative_number_density={v})", (NEG,), ()),
    ("NeukumProduction", "o.quasimc_merge({v})", (POS, STR, LIST), ()),
    ("LocalSurface", "o.apply_diffusion({v})", (NEG,), ()),
    ("LocalSurface", "o.elevation_to_cartesian(element={v})", (BADSTR, lit("edge")), ()),
    ("BasicMoonMorphology", "o.form_crater({v})", (POS, STR, NONE), ()),
    ("BasicMoonMorphology", "o.form_ejecta({v})", (POS, STR, NONE), ()),
    ("DepthCount", "o.add({v})", (POS, STR, NONE), ()),
    ("DepthCount", "o.fit_rim({v})", (POS, STR, NONE), ()),
    ("DepthCount", "o.score_rim({v})", (POS, STR, NONE), ()),
    ("DepthCount", "o.save(crater_type={v})", (BADSTR, lit("all"), POS), ()),
    ("DepthCount", "o.save(time_variables={v})", (POS, STR, LIST), ()),
    ("LocalSurface", "o.save(time_variables={v})", (POS, STR, LIST), ()),
    ("DepthCount", "o.add_save_action({v})", (POS, STR, LIST, pyval({"no_such_method": {}}), pyval({"save": 5})), ()),
    ("Simulation", "o.run(age=100.0, ninterval={v})", (NEGINT, lit(0), lit(2.5), STR, LIST), ()),
    ("Simulation", "o.run(age=100.0, time_interval={v})", (NEG, ZERO, rng(100.5, INF, False, True), STR), ()),
    ("Simulation", "o.run(age={v})", (LIST, STR, TRIPLE), ()),
    ("Simulation", "o.run(time_start={v})", (LIST, STR, TRIPLE), ()),
    ("Simulation", "o.run(time_start=100.0, time_end={v})", (LIST, STR, TRIPLE, rng(101, INF, False, True)), ()),
    ("Simulation", "o.run(N_D={v})", (LIST, POS, TRIPLE, SINGLE), ()),
    ("Simulation", "o.run(N_D=(1.0, 10.0), N_D_end={v})", (LIST, POS, TRIPLE, SINGLE), ()),
    ("Simulation", "o.reset(skip_component={v})", (POS, STR, DICT), ()),
]
# numerical kernels behind the sampling interface: their results do not decide acceptance
NUMERIC = {"get_random_size", "compute_time", "NeukumProduction.function", "PowerLawProduction.function", "age_from_D_N", "csfd"}
NOINLINE = {"Simulation.populate", "Simulation.emplace", "plot", "Projectile.maker", "Surface._load_from_files", "reset", "save", "_overwrite_check", "Surface._generate_grid", "Simulation.to_config"}


def name_of(v):
    return v[0]


def probe(res, prog, what, src, vals, noinline, objs, where, read=True, cls=None, heap=None):
    invalid, valid = vals
    for v in invalid:
        outs, I = run_probe(prog, src, {"v": v}, objs=objs, noinline=noinline, heap=heap)
        r = outcome(outs)
        if r == "unknown":
            res.count("undecided")
            continue
        if r != "reject" and not strong(outs):
            res.count("undecided")
            continue
        res.count("obligations")
        if r != "reject":
            tr = strong(outs)[0][2].trail
            res.add("accepted-invalid", f"{what}:{name_of(v)}", f"{what} is set to {name_of(v)} without an error "
                    f"(path: {' -> '.join(f'{a}:{b}' + ('+' if c else '-') for a, b, c in tr[-6:]) or 'straight'})", *where)
    for v in valid:
        outs, I = run_probe(prog, src, {"v": v}, objs=objs, noinline=noinline, heap=heap)
        r = outcome(outs)
        if r == "unknown":
            res.count("undecided")
            continue
        res.count("obligations")
        if r == "reject":
            e = next(x for k, x, s in outs if k == "raise")
            res.add("refused-valid", f"{what}:{name_of(v)}", f"{what} = {name_of(v)} is always refused ({e.name} in {e.func.short}:{getattr(e.node, 'lineno', 0)})", *where)
            continue
        if read:
            given = v[1](("given", "v"))
            if given.k == "const" and given.c is None:
                continue
            rets = [x for k, x, s in outs if k == "ret"]
            for x in rets:
                if definitely_other(given, x) and (x.k != "const" or x.c is not None or all(r.k == "const" and r.c is None for r in rets)):
                    res.add("stored-differently", f"{what}:{name_of(v)}", f"{what} = {name_of(v)} reads back as {x!r}", *where)
                    break


def definitely_other(given, x):
    if x.k == "const":
        if given.k == "const":
            if isinstance(given.c, str) and isinstance(x.c, str):
                return given.c.lower() != x.c.lower()
            return given.c != x.c
        if given.k == "num":
            n = given.num
            return True
        return False
    if x.k == "num" and given.k == "num":
        if x.sym == given.sym:
            return False
        return x.num != given.num and not (x.sym and "given" in str(x.sym))
    return False


def check(prog, tier):
    res = Result()
    jobs = []
    table = {c: dict(t) for c, t in SETTINGS.items()}
    for c in SETTINGS_ALL_COMPONENTS:
        for k, v in COMMON.items():
            table[c].setdefault(k, v)
    for cname, attrs in table.items():
        if not prog.has_cls(cname):
            res.count("missing_classes")
            continue
        c = prog.cls(cname)
        for attr, vals in attrs.items():
            p = c.prop(attr)
            if p is None or p.fget is None:
                res.count("missing_settings")
                continue
            f = p.fset or p.fget
            src = f"def client(o, v):\n    o.{attr} = v\n    return o.{attr}\n"
            res.count("settings")
            jobs.append((probe, (prog, f"{cname}.{attr}", src, vals, NOINLINE, {"o": cname}, (f.path, f.node.lineno), True, None, HEAP.get((cname, attr)))))
    for call, what, attr, vals in CONSTRUCT:
        src = IMPORTS + "def client(v):\n    o = " + call.format(v="v") + "\n    return o" + (f".{attr}" if attr else "") + "\n"
        res.count("constructions")
        no = set(NOINLINE)
        if call.startswith("Projectile.maker"):
            no.discard("Projectile.maker")
        if call.startswith("Crater.maker"):
            no |= {"Target.maker", "Scaling.maker", "ComponentBase.maker"}
        if call.startswith(("Scaling", "Surface", "Production")) and "neukum" not in call:
            no |= {"Target.maker"}
        label = call.split("(")[0] + f"({call.split('(', 1)[1].split(',')[0]}..., {what}=)" if "," in call else call
        jobs.append((probe, (prog, label, src, vals, no, {}, ("", 0), attr is not None)))
    for cname, call, invalid, valid in CALLS:
        if not prog.has_cls(cname):
            continue
        m = prog.cls(cname).method(call[2:].split("(")[0])
        if m is None:
            res.count("missing_settings")
            continue
        src = "def client(o, v):\n    return " + call.format(v="v") + "\n"
        res.count("calls")
        jobs.append((probe, (prog, f"{cname}.{call[2:]}", src, (invalid, valid), (NOINLINE | (NUMERIC if "sample(" in call or ".run(" in call else set())) - {call[2:].split("(")[0]}, {"o": cname}, (m.path, m.node.lineno), False)))
    run_jobs(res, jobs)
    res.require("obligations", 150)
    res.assumptions = ["values are explored as classes (intervals, NaN, infinities, wrong types, unknown names), not single samples",
                       "the spec of what is invalid for each setting is the table in checks/p06.py, taken from the documentation and error messages"]
    res.notes = ["every setting of the table is assigned (and every construction made) by an abstract client over each class of values; all paths of setter and constructor code are followed"]
    return res


HEAP = {("HiResLocalSurface", "local_radius"): {("o", "_pix"): POS[1](("pix",))}, ("DataSurface", "local_radius"): {("o", "_pix"): POS[1](("pix",))}}
