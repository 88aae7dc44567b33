"""P07: contradictory or incomplete argument combinations are refused.

Each obligation is an abstract client that makes one call with a combination of arguments; every path
through the called code must end in an error for an illegal combination, and some path must succeed for
a legal one."""
from __future__ import annotations

from itertools import combinations

from sa.interp import Exc
from sa.probe import ProbeHooks, NEG, NEGINT, POS, POSINT, STR, ZERO, lit, num, outcome, pyval, rng, run_probe, strong
from sa.report import Result

IMPORTS = """from cratermaker.components.target import Target
from cratermaker.components.crater import Crater
from cratermaker.components.projectile import Projectile
from cratermaker.components.production import Production
from cratermaker.components.morphology import Morphology, MorphologyCrater
from cratermaker.utils.montecarlo_utils import get_random_size
"""
LOC = pyval((10.0, 20.0))
ND = pyval((1.0, 10.0))
SIZE = {"diameter": POS, "radius": POS, "transient_diameter": POS, "transient_radius": POS, "projectile_diameter": POS,
        "projectile_radius": POS, "projectile_mass": POS}
KERNELS = {"get_random_size", "compute_time", "NeukumProduction.function", "PowerLawProduction.function", "age_from_D_N", "csfd"}
CRATER_NO = {"Projectile.maker", "Target.maker", "Scaling.maker", "ComponentBase.maker", "new_projectile", "recompute", "CratermakerBase.__init__",
             "Crater.__init__", "Crater.__post_init__", "_set_id", "final_to_transient", "transient_to_projectile", "transient_to_final",
             "projectile_to_transient", "_convert_for_yaml", "normalize_coords"}
RUN_NO = KERNELS | {"populate", "save", "emplace", "to_config", "reset"}


num0 = lit(0)


class Kernels(ProbeHooks):
    """A production function that is asked for without a time, a size or a number cannot answer."""

    def on_call(self, I, st, node, fv, pos, kw, star):
        if fv.k in ("fn", "bound") and fv.c.name in ("function", "age_from_D_N", "csfd") and fv.c.cls is not None and "Production" in fv.c.cls.name:
            for v in list(pos) + list(kw.values()):
                if v.k == "const" and v.c is None:
                    I.raises.append((Exc("TypeError", node, I.fr.func), st))
                    return []
        return super().on_call(I, st, node, fv, pos, kw, star)


def cases():
    """(group, entry class or None, call prefix, dict of arguments, legal?, names never inlined)"""
    out = []
    a = out.append
    # ---- crater construction
    for x, y in combinations(SIZE, 2):
        a(("crater sizes", None, "Crater.maker", {x: POS, y: POS}, False, CRATER_NO))
    for x in SIZE:
        if x not in ("diameter", "radius"):
            a(("crater sizes", None, "Crater.maker", {"semimajor_axis": POS, "semiminor_axis": POS, x: POS}, False, CRATER_NO))
    for x in ("diameter", "radius"):
        for y in ("semimajor_axis", "semiminor_axis"):
            a(("crater sizes", None, "Crater.maker", {x: POS, y: POS}, False, CRATER_NO))
        a(("crater sizes", None, "Crater.maker", {x: POS, "semimajor_axis": POS, "semiminor_axis": POS}, False, CRATER_NO))
    a(("crater sizes", None, "Crater.maker", {}, False, CRATER_NO))
    for x in ({"diameter": POS}, {"semimajor_axis": POS}, {"semiminor_axis": POS}, {"semimajor_axis": POS, "semiminor_axis": POS}):
        a(("crater sizes", None, "Crater.maker", {**x, "projectile": lit("generic")}, True, CRATER_NO))
    a(("crater sizes", None, "Crater.maker", {"location": LOC}, False, CRATER_NO))
    D = {"diameter": POS}
    a(("crater location", None, "Crater.maker", {**D, "longitude": rng(-179, 179)}, False, CRATER_NO))
    a(("crater location", None, "Crater.maker", {**D, "latitude": rng(-89, 89)}, False, CRATER_NO))
    a(("crater location", None, "Crater.maker", {**D, "longitude": rng(-179, 179), "latitude": rng(-89, 89), "location": LOC}, False, CRATER_NO))
    a(("crater location", None, "Crater.maker", {**D, "longitude": rng(-179, 179), "latitude": rng(-89, 89), "projectile_location": LOC}, False, CRATER_NO))
    a(("crater location", None, "Crater.maker", {**D, "location": LOC, "projectile_location": LOC}, False, CRATER_NO))
    a(("crater orientation", None, "Crater.maker", {**D, "orientation": rng(0, 359), "projectile_direction": rng(0, 359)}, False, CRATER_NO))
    a(("crater velocity", None, "Crater.maker", {**D, "location": LOC, "projectile_velocity": POS, "projectile_vertical_velocity": POS, "projectile_angle": rng(1, 89)}, False, CRATER_NO))
    a(("crater velocity", None, "Crater.maker", {**D, "location": LOC, "projectile_mean_velocity": POS, "projectile_velocity": POS}, False, CRATER_NO))
    a(("crater velocity", None, "Crater.maker", {**D, "location": LOC, "projectile_mean_velocity": POS, "projectile_vertical_velocity": POS}, False, CRATER_NO))
    a(("crater measurements", None, "Crater.maker", {**D, "measured_diameter": POS, "measured_radius": POS}, False, CRATER_NO))
    for m in ("measured_semimajor_axis", "measured_semiminor_axis"):
        a(("crater measurements", None, "Crater.maker", {**D, m: POS, "measured_diameter": POS, "measured_radius": POS}, False, CRATER_NO))
    a(("crater measurements", None, "Crater.maker", {**D, "measured_diameter": POS}, True, CRATER_NO))
    a(("crater measurements", None, "Crater.maker", {**D, "measured_semimajor_axis": POS, "measured_semiminor_axis": POS}, True, CRATER_NO))
    a(("crater input", None, "Crater.maker", {"crater": POS}, False, CRATER_NO))
    # ---- emplacement
    a(("emplacement location", "BasicMoonMorphology", "MorphologyCrater.maker",
       {"morphology": "o", **D, "location": LOC, "relative_location": pyval({"distance": 10.0, "bearing": 5.0})}, False, CRATER_NO | {"Morphology.maker", "Crater.maker"}))
    for bad in ({"distance": 10.0}, {"bearing": 5.0}, {}, (10.0, 5.0)):
        a(("emplacement location", "BasicMoonMorphology", "MorphologyCrater.maker", {"morphology": "o", **D, "relative_location": pyval(bad)}, False,
           CRATER_NO | {"Morphology.maker", "Crater.maker"}))
    # ---- target
    T = {"name": lit("Somewhere"), "mass": POS, "transition_scale_type": lit("silicate")}
    a(("target size", None, "Target", {**T, "radius": POS, "diameter": POS}, False, set()))
    a(("target size", None, "Target", {**T}, False, set()))
    a(("target size", None, "Target", {"name": lit("Somewhere"), "radius": POS, "transition_scale_type": lit("silicate")}, False, set()))
    a(("target size", None, "Target", {"name": lit("Somewhere"), "radius": POS, "mass": POS}, False, set()))
    a(("target size", None, "Target", {"name": lit("Moon"), "radius": POS, "diameter": POS}, False, set()))
    a(("target size", None, "Target", {**T, "radius": POS}, True, set()))
    a(("target size", None, "Target", {**T, "diameter": POS}, True, set()))
    # ---- projectile
    no = {"CratermakerBase.__init__"}
    base = {"projectile": lit("generic"), "target": lit("Moon"), "sample": lit(False), "mean_velocity": POS}
    a(("fixed projectile", None, "Projectile.maker", base, False, no))
    a(("sampled projectile", None, "Projectile.maker", {"projectile": lit("generic"), "target": lit("Moon"), "sample": lit(True), "velocity": POS}, False, no))
    a(("sampled projectile", None, "Projectile.maker", {"projectile": lit("generic"), "target": lit("Moon"), "sample": lit(True), "mean_velocity": POS}, True, no))
    full = {"velocity": POS, "angle": rng(1, 89), "direction": rng(0, 359), "location": LOC, "density": POS}
    for k in list(full)[1:] + [None]:
        # everything but the speed has a documented default
        a(("fixed projectile", None, "Projectile.maker", {**base, **{n: v for n, v in full.items() if n != k}}, True, no))
    for n in list(full)[1:]:
        a(("fixed projectile", None, "Projectile.maker", {**base, n: full[n]}, False, no))
    # ---- production: quasi-Monte Carlo sources
    for p in ("powerlaw", "neukum"):
        a(("quasi-Monte Carlo source", None, "Production.maker", {"production": lit(p), "quasimc_file": lit("craters.csv"), "quasimc_craters": pyval([])}, False, set()))
    # ---- sampling
    S = {"diameter_range": pyval((1.0e3, 1.0e4))}
    for c in ("NeukumProduction", "PowerLawProduction"):
        for extra in ({}, {"area": POS}, {"time_end": rng(0, 10)}, {"N_D_end": ND}):
            a(("sampling start", c, "o.sample", {**S, **extra}, False, KERNELS))
        for x, y in combinations(("time_start", "N_D", "diameter_number"), 2):
            a(("sampling start", c, "o.sample", {**S, x: rng(1, 100) if x == "time_start" else ND, y: ND}, False, KERNELS))
        a(("sampling start", c, "o.sample", {**S, "age": rng(1, 100), "N_D": ND}, False, KERNELS))
        a(("sampling start", c, "o.sample", {**S, "age": rng(1, 100), "diameter_number": ND}, False, KERNELS))
        for x, y in combinations(("time_end", "N_D_end", "diameter_number_end"), 2):
            a(("sampling end", c, "o.sample", {**S, "time_start": rng(50, 100), x: rng(1, 10) if x == "time_end" else ND, y: ND}, False, KERNELS))
        for y in ("N_D_end", "diameter_number_end"):
            a(("sampling end", c, "o.sample", {**S, "time_start": rng(50, 100), "time_end": ZERO, y: ND}, False, KERNELS))
            a(("sampling end", c, "o.sample", {**S, "diameter_number": ND, "time_end": ZERO, y: ND}, False, KERNELS))
        for y in ("N_D", "diameter_number"):
            a(("sampling start", c, "o.sample", {**S, "time_start": ZERO, y: ND}, False, KERNELS))
            a(("sampling start", c, "o.sample", {**S, "age": ZERO, y: ND}, False, KERNELS))
        for st in ({"time_start": rng(50, 100)}, {"age": rng(50, 100)}, {"N_D": ND}, {"diameter_number": ND}):
            a(("sampling start", c, "o.sample", {**S, **st}, True, KERNELS))
        TS = {"time_start": rng(50, 100)}
        for bad in (1.0, (1.0, 2.0, 3.0), (1.0,)):
            a(("sampling shapes", c, "o.sample", {**S, "diameter_number": pyval(bad)}, False, KERNELS))
            a(("sampling shapes", c, "o.sample", {**S, **TS, "diameter_number_end": pyval(bad)}, False, KERNELS))
            a(("sampling shapes", c, "o.sample", {**TS, "diameter_range": pyval(bad)}, False, KERNELS))
        for bad in ((0.0, 10.0), (-1.0, 10.0), (10.0, 1.0)):
            a(("sampling limits", c, "o.sample", {**TS, "diameter_range": pyval(bad)}, False, KERNELS))
        for bad in ((-1.0, 10.0), (10.0, -1.0)):
            a(("sampling limits", c, "o.sample", {**S, "diameter_number": pyval(bad)}, False, KERNELS))
            a(("sampling limits", c, "o.sample", {**S, **TS, "diameter_number_end": pyval(bad)}, False, KERNELS))
        a(("sampling limits", c, "o.sample", {**S, **TS, "area": NEG}, False, KERNELS))
        a(("sampling shapes", c, "o.sample", {**S, **TS, "area": pyval([1.0, 2.0])}, False, KERNELS))
        a(("sampling shapes", c, "o.sample", {**S, **TS, "compute_time": STR}, False, KERNELS))
        a(("sampling shapes", c, "o.sample", {**S, "time_start": pyval([5.0, 1.0])}, False, KERNELS))
        a(("sampling shapes", c, "o.sample", {**S, **TS, "time_end": pyval([5.0, 1.0])}, False, KERNELS))
        a(("sampling limits", c, "o.sample", {**S, "time_start": rng(1, 10), "time_end": rng(20, 30)}, False, KERNELS))
        a(("sampling limits", c, "o.sample", {**S, "time_start": NEG}, False, KERNELS))
        for ok in ({**S, **TS, "area": POS}, {**S, **TS, "time_end": rng(1, 10)}, {**S, **TS, "N_D_end": ND}, {**S, **TS, "diameter_number_end": ND},
                   {**S, "N_D": ND, "N_D_end": pyval((1.0, 2.0))}, {**S, "diameter_number": ND, "diameter_number_end": pyval((1.0, 2.0))},
                   {**S, "diameter_number": ND, "diameter_number_end": pyval((2.0, 2.0))}, {**S, **TS, "compute_time": lit(False)}):
            a(("sampling start", c, "o.sample", ok, True, KERNELS))
        for f, legal in (({"time_start": rng(1, 10), "time_end": rng(20, 30)}, False), ({"time_start": STR}, False), ({"time_start": rng(20, 30), "time_end": STR}, False),
                         ({"time_start": NEG}, False),
                         ({"time_start": rng(20, 30), "time_end": rng(1, 10)}, True),
                         ({"time_start": pyval([5.0, 6.0])}, True)):
            a(("ages", c, "o._validate_age", f, legal, set()))
        for f, legal in (({}, False), ({"diameter": NEG}, False), ({"cumulative_number_density": NEG}, False),
                         ({"diameter": POS}, True),
                         ({"diameter": pyval([1.0, 2.0]), "cumulative_number_density": pyval([1.0, 3.0])}, True)):
            a(("size-frequency arguments", c, "o._validate_csfd", f, legal, set()))
    # ---- simulation runs
    a(("run start", "Simulation", "o.run", {}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {"N_D_end": ND}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {"ninterval": POSINT}, False, RUN_NO))
    AGE = {"age": rng(50, 100)}
    TS = {"time_start": rng(50, 100)}
    a(("run start", "Simulation", "o.run", {**AGE, **TS}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {**AGE, "time_end": rng(1, 10)}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {**AGE, "N_D": ND}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {**AGE, "time_end": ZERO}, False, RUN_NO))
    for z in ("age", "time_start"):
        for o in ("N_D", "diameter_number"):
            a(("run start", "Simulation", "o.run", {z: ZERO, o: ND}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {**AGE, "diameter_number": ND}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {**TS, "N_D": ND}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {**TS, "diameter_number": ND}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {"N_D": ND, "diameter_number": ND}, False, RUN_NO))
    a(("run start", "Simulation", "o.run", {"N_D": ND, "diameter_number_end": ND}, False, RUN_NO))
    for st in (AGE, TS, {"N_D": ND}):
        a(("run intervals", "Simulation", "o.run", {**st, "ninterval": POSINT, "time_interval": rng(1, 10)}, False, RUN_NO))
    for bad in (5.0, (1.0,), (1.0, 2.0, 3.0)):
        a(("run shapes", "Simulation", "o.run", {"N_D": pyval(bad)}, False, RUN_NO))
        a(("run shapes", "Simulation", "o.run", {"N_D": ND, "N_D_end": pyval(bad)}, False, RUN_NO))
    for st in (AGE, TS, {"N_D": ND}):
        a(("run intervals", "Simulation", "o.run", {**st, "ninterval": num0}, False, RUN_NO))
        a(("run intervals", "Simulation", "o.run", {**st, "ninterval": NEGINT}, False, RUN_NO))
        a(("run intervals", "Simulation", "o.run", {**st, "ninterval": rng(1.25, 1.75)}, False, RUN_NO))
        a(("run intervals", "Simulation", "o.run", {**st, "time_interval": NEG}, False, RUN_NO))
        a(("run intervals", "Simulation", "o.run", {**st, "time_interval": ZERO}, False, RUN_NO))
    a(("run intervals", "Simulation", "o._validate_run_args", {**AGE, "time_interval": rng(200, 300)}, False, RUN_NO))
    a(("run intervals", "Simulation", "o._validate_run_args", {**TS, "time_end": rng(1, 10), "time_interval": rng(200, 300)}, False, RUN_NO))
    a(("run shapes", "Simulation", "o.run", {"age": pyval([1.0, 2.0])}, False, RUN_NO))
    a(("run shapes", "Simulation", "o.run", {"time_start": pyval([1.0, 2.0])}, False, RUN_NO))
    a(("run shapes", "Simulation", "o.run", {**TS, "time_end": pyval([1.0, 2.0])}, False, RUN_NO))
    a(("run limits", "Simulation", "o._validate_run_args", {"age": NEG}, False, RUN_NO))
    a(("run limits", "Simulation", "o._validate_run_args", {"time_start": rng(1, 10), "time_end": rng(20, 30)}, False, RUN_NO))
    VN = RUN_NO
    for st in (AGE, TS, {**TS, "time_end": rng(1, 10)}, {"N_D": ND}, {"N_D": ND, "N_D_end": pyval((1.0, 2.0))}, {"diameter_number": ND},
               {"diameter_number": ND, "diameter_number_end": pyval((1.0, 2.0))}, {"diameter_number": ND, "diameter_number_end": pyval((2.0, 2.0))}):
        for iv in ({}, {"ninterval": POSINT}, {"time_interval": rng(1, 10)}):
            a(("run start", "Simulation", "o._validate_run_args", {**st, **iv}, True, VN))
    # ---- drawing sizes
    a(("size drawing", None, "get_random_size", {"diameters": None, "cdf": None, "size": POSINT, "mu": POSINT}, False, set()))
    # ---- size limits used by a simulation
    a(("size limits", "Simulation", "o._get_diameter_limit", {"limit": lit("smallest")}, False, {"Crater.maker", "Scaling.maker"}))
    a(("size limits", "Simulation", "o._get_diameter_limit", {"limit": lit("smallest"), "crater_diameter": POS, "projectile_diameter": POS}, False, {"Crater.maker", "Scaling.maker"}))
    return out


def check(prog, tier):
    from sa.values import V, top
    res = Result()
    for group, cls, fn, args, legal, no in cases():
        if cls is not None and (not prog.has_cls(cls) or (fn.startswith("o.") and prog.cls(cls).method(fn[2:]) is None)):
            res.count("missing_entry_points")
            continue
        pos = ", ".join(f"{k}={'o' if v == 'o' else 'a_' + k}" for k, v in args.items())
        params = ", ".join((["o"] if cls else []) + ["a_" + k for k, v in args.items() if v != "o"])
        src = IMPORTS + f"def client({params}):\n    return {fn}({pos})\n"
        vals = {"a_" + k: (v if v is not None else top(sym=("arg", k))) for k, v in args.items() if v != "o"}
        heap = {}
        if cls == "Simulation":
            heap = {("o", "_production"): V("obj", prog.cls("NeukumProduction"), sym="prod", oid="prod", mn=False),
                    ("o", "_surface"): V("obj", prog.cls("IcosphereSurface"), sym="surf", oid="surf", mn=False),
                    ("surf", "_area"): POS[1](("area",))}
        outs, I = run_probe(prog, src, vals, objs={"o": cls} if cls else {}, hooks=Kernels(set(no) | {"_rng_init", "_simdir_init"}), heap=heap)
        what = f"{fn[2:] if fn.startswith('o.') else fn}({', '.join(args) or 'nothing'})" + (f" on {cls}" if cls else "")
        r = outcome(outs)
        if r == "unknown":
            res.count("undecided")
            continue
        if not legal and r != "reject":
            ok = strong(outs)
            if not ok:
                res.count("undecided")
                continue
            res.count("obligations")
            tr = ok[0][2].trail
            res.add("accepted-combination", f"{group}:{what}", f"{group}: {what} is accepted although the arguments contradict each other or are incomplete "
                    f"(path: {' -> '.join(f'{x}:{y}' + ('+' if z else '-') for x, y, z in tr[-5:]) or 'straight'})")
            continue
        res.count("obligations")
        if legal and r == "reject":
            e = next(x for k, x, s in outs if k == "raise")
            res.add("refused-combination", f"{group}:{what}", f"{group}: the legal call {what} always fails ({e.name} in {e.func.short}:{getattr(e.node, 'lineno', 0)})",
                    e.func.path, getattr(e.node, "lineno", 0))
    res.require("obligations", 90)
    res.assumptions = ["the table of legal and illegal combinations in checks/p07.py is the specification (documentation and error messages of the package)"]
    res.notes = ["one abstract client per combination; all paths through the inlined argument handling are followed for whole classes of argument values"]
    return res
