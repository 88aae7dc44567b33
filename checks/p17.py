"""P17: what a part reports follows the settings in force, whatever it was set to or asked before.

Two histories of the same part are interpreted and compared:
  A  make it, read the derived value, assign the setting, (recompute), read the derived value
  B  make it with the setting, (recompute), read the derived value
The values that come out must be the same, path by path.  A value that was computed earlier and kept, and that the assignment
does not renew, differs; so does one that only the constructor derives."""
from __future__ import annotations

import hashlib

from sa.par import run_jobs
from sa.probe import FALSE, NEG, POS, POSINT, ProbeHooks, lit, pyval, rng, run_probe
from sa.report import Result
from sa.values import V, const, typ

IMPORTS = """from cratermaker.components.target import Target
from cratermaker.components.projectile import Projectile
from cratermaker.components.production import Production
from cratermaker.components.scaling import Scaling
from cratermaker.components.surface import Surface
from pathlib import Path
"""
NO = {"_load_from_files", "Surface.save", "_generate_grid", "get_location_extents", "_compute_face_size", "_rng_init", "_simdir_init"}
DIRS = ["o.output_dir", "o.export_dir", "o.plot_dir", "o.common_args.simdir"]
PATH = ("a directory", lambda s: typ("pathlib.Path", sym=s).not_none())
NL = "    pass\n"
T = ["name='Somewhere'", "radius=1.0e6", "mass=1.0e22", "transition_scale_type='silicate'", "material='Soft Rock'", "density=2.0e3"]
P = ["projectile='generic'", "target='Moon'", "sample=False", "mean_velocity=1.0e4", "velocity=2.0e4", "angle=45.0", "direction=10.0", "location=(1.0, 2.0)", "density=1.0e3"]
S = ["scaling='montecarlo'", "target=target", "projectile=projectile", "monte_carlo_scaling=False", "K1=0.2", "mu=0.5", "Ybar=1.0e6"]
C = ["scaling='ctem'", "target=target", "projectile=projectile", "K1=0.2", "mu=0.5", "Ybar=1.0e6"]
# (class, factory, arguments, setting -> value, extra derived expressions, statement before reading)
PARTS = [
    ("Target", "Target.maker", T, {"radius": POS, "mass": POS, "density": POS, "transition_scale_type": lit("ice")}, [], ""),
    ("GenericProjectiles", "Projectile.maker", P, {"velocity": POS, "angle": rng(1, 90), "mean_velocity": POS, "direction": rng(1, 359), "density": POS, "location": pyval((5.0, 7.0))}, [], ""),
    ("PowerLawProduction", "Production.maker", ["production='powerlaw'", "target='Moon'", "N1_coef=1.0e-6", "slope=-2.0", "generator_type='crater'", "D_conversion_factor=1000.0", "N_conversion_factor=1.0e6"],
     {"N1_coef": POS, "slope": NEG, "generator_type": lit("projectile"), "D_conversion_factor": lit(1.0), "N_conversion_factor": lit(1.0e12)},
     ["o.function(7.0e3, 1000.0, validate_inputs=False)", "o.csfd(7.0e3)", "o.chronology(1000.0, validate_inputs=False)"], ""),
    ("NeukumProduction", "Production.maker", ["production='neukum'", "target='Moon'", "version='Moon'", "D_conversion_factor=1000.0", "N_conversion_factor=1.0e6"],
     {"version": lit("Mars"), "D_conversion_factor": lit(1.0), "N_conversion_factor": lit(1.0e12)},
     ["o.function(7.0e3, 1000.0, validate_inputs=False)", "o.csfd(7.0e3)", "o.chronology(1000.0, validate_inputs=False)"], ""),
    ("NeukumProduction", "Production.maker", ["production='neukum'", "target='Moon'", "version='Moon'"], {"version": lit("Projectile")},
     ["o.function(7.0e3, 1000.0, validate_inputs=False)", "o.csfd(7.0e3)", "o.chronology(1000.0, validate_inputs=False)"], ""),
    ("MonteCarloScaling", "Scaling.maker", S, {"K1": POS, "mu": POS, "Ybar": POS, "material": lit("Hard Rock"), "target.mass": POS, "target.radius": POS, "target.transition_scale_type": lit("ice"), "projectile.velocity": POS, "projectile.angle": rng(1, 90), "projectile.density": POS},
     ["o.projectile_to_transient(7.0e3)", "o.final_to_transient(7.0e3, morphology_type='simple')", "o.final_to_transient(7.0e5, morphology_type='complex')"], "o.recompute()"),
    ("CTEMScaling", "Scaling.maker", C, {"K1": POS, "mu": POS, "Ybar": POS, "material": lit("Hard Rock"), "target.mass": POS, "target.radius": POS, "target.transition_scale_type": lit("ice"), "projectile.velocity": POS, "projectile.density": POS},
     ["o.projectile_to_transient(7.0e3)", "o.final_to_transient(7.0e3, morphology_type='simple')", "o.final_to_transient(7.0e5, morphology_type='complex')"], "o.recompute()"),
    ("IcosphereSurface", "Surface.maker", ["surface='icosphere'", "target='Moon'", "gridlevel=8", "simdir=old"], {"gridlevel": POSINT, "simdir": PATH}, ["o._hashvars", "o.gridlevel", *DIRS], ""),
    ("ArbitraryResolutionSurface", "Surface.maker", ["surface='arbitrary_resolution'", "target='Moon'", "pix=1.0e4"], {"pix": POS}, ["o._hashvars", "o.pix"], ""),
    ("PowerLawProduction", "Production.maker", ["production='powerlaw'", "target='Moon'", "simdir=old"], {"simdir": PATH}, DIRS, ""),
]


PURE = ("math.", "numpy.", "sum", "min", "max", "abs", "round", "float", "int", "len")
IMPURE = ("numpy.random", "numpy.vectorize")


class Follow(ProbeHooks):
    """Results of side-effect free external functions are named by the function and what it was given, not by where it was called."""
    whole_objects = True

    def after_call(self, I, st, node, fv, pos, kw, v):
        v = super().after_call(I, st, node, fv, pos, kw, v)
        name = str(fv.c) if fv.k in ("ext", "builtin") else None
        if name is not None and name.startswith(PURE) and not name.startswith(IMPURE) and v.k in ("top", "typ", "num") and isinstance(v.sym, tuple):
            v = V(v.k, v.c, v.lab, short(("pure", name, tuple(shape(x) for x in pos) + tuple((k, shape(x)) for k, x in sorted(kw.items())))), v.items, num=v.num, mn=v.mn)
        return v

    def on_binop(self, I, st, node, op, l, r, res):
        if res.k in ("top", "num") or res.k == "typ" and res.c in ("float", "int"):
            res = V(res.k, res.c, res.lab, short((type(op).__name__, shape(l), shape(r))), res.items, num=res.num, mn=res.mn)
        return res


def short(s):
    """A long symbol by its digest."""
    r = repr(s)
    return s if len(r) < 300 else ("long", hashlib.sha1(r.encode()).hexdigest(), *(("@",) if vague(s) else ()))


def plain(s):
    """A symbol without the places it was made at."""
    if isinstance(s, tuple):
        if s and s[0] == "sa_client.client":
            return ("@", s[-1][0] if isinstance(s[-1], tuple) else s[-1])
        return tuple(plain(x) for x in s)
    return s if isinstance(s, (str, int, float, bool, type(None))) else type(s).__name__


def shape(v, n=0):
    """What is known of a value."""
    if n > 8:
        return "..."
    if v.k == "const":
        return ("c", float(v.c) if type(v.c) in (int, float) else repr(v.c))
    if v.k == "seq":
        return ("s", v.c, tuple(shape(x, n + 1) for x in v.items))
    if v.k == "dict" and v.items:
        return ("d", tuple(sorted((str(k), shape(x, n + 1)) for k, x in v.items)))
    if v.k == "num":
        return ("n", plain(v.sym))
    if v.k in ("obj", "fn", "bound", "cls", "cm"):
        return (v.k, getattr(v.c, "qual", "@"))
    return ("v", plain(v.sym) if v.sym is not None else "@")


def values(prog, src, args, objs, heap):
    outs, I = run_probe(prog, src, args, objs=objs, hooks=Follow(NO, 3), max_depth=22, max_rec=3, budget=150000, heap=heap, cap=24)
    if outs is None:
        return None
    return {shape(v): v for k, v, s in outs if k == "ret"}


def vague(x):
    r = repr(x)
    return "'@'" in r or "..." in r or "'join'" in r


def show(x):
    s = str(x)
    return s if len(s) < 160 else s[:157] + "..."


def compare(res, prog, cls, maker, args, s, v, d, before):
    K = prog.cls(cls)
    objs, heap = {}, None
    if "target=target" in args:
        objs = {"target": "Target", "projectile": "GenericProjectiles"}
        heap = {("target", a): x for a, x in {"_name": const("Moon"), "_material": const("Soft Rock"), "_density": POS[1](("tdens",)), "_transition_scale_type": const("silicate"),
                                              "_material_catalogue": const(None), "_radius": POS[1](("trad",)), "_mass": POS[1](("tmass",))}.items()}
        heap.update({("projectile", a): x for a, x in {"_density": POS[1](("pdens",)), "_velocity": POS[1](("pv",)), "_angle": rng(1, 90)[1](("pa",)), "_target": const(None)}.items()})
    owner = K
    if "." in s:
        owner = prog.cls(objs[s.split(".")[0]])
    r = owner.lookup(s.split(".")[-1])
    f = r[2].fset if r and r[1] == "prop" and r[2].fset is not None else None
    where = (f.path, f.node.lineno) if f is not None else (K.module.path, K.node.lineno)
    names = ", ".join([*objs, "v", "old"])
    base = list(args)
    if s == "material":  # it decides these
        base = [a for a in base if a.split("=")[0] not in ("K1", "mu", "Ybar", "density")]
    pre = f"    {before}\n" if before else NL
    if "." in s:
        a = f"    pass\n    o = {maker}({', '.join(base)})\n    x = {d}\n    {s} = v\n"
        b = f"    {s} = v\n    o = {maker}({', '.join(base)})\n    pass\n    pass\n"
    else:
        with_s = [x for x in base if not x.startswith(s + "=")] + [f"{s}=v"]
        a = f"    pass\n    o = {maker}({', '.join(base)})\n    x = {d}\n    o.{s} = v\n"
        b = f"    pass\n    o = {maker}({', '.join(with_s)})\n    pass\n    pass\n"
    A, B = (values(prog, f"{IMPORTS}def client({names}):\n{x}{pre}    return {d}\n", {"v": v, "old": PATH}, objs, heap) for x in (a, b))
    if not A or not B:
        res.count("undecided")
        return
    res.count("histories_compared")
    if not any(vague(x) for x in [*A, *B]):
        res.count("values_exact")
    stale = [x for x in A if x not in B and not vague(x)]
    if stale:
        fresh = [x for x in B if x not in A]
        res.add("stale", f"{cls}.{d.removeprefix('o.').split('(')[0]}|{s}", f"{cls}: after {d.removeprefix('o.')} was read and {s} assigned ({v[0]}), it is {show(stale[0])}; "
                f"made with that {s} it is {show(next(iter(fresh), next(iter(B))))}", *where)


def check(prog, tier):
    res = Result()
    jobs = []
    for cls, maker, args, settings, more, before in PARTS:
        if not prog.has_cls(cls):
            continue
        K = prog.cls(cls)
        reads = [] if cls.endswith("Surface") or set(settings) == {"simdir"} else sorted(
            {"o." + n for k in K.cmro() if k.name not in ("CratermakerBase", "ComponentBase") for n, p in k.props.items() if p.fget is not None and not n.startswith("_")})
        for s, v in settings.items():
            for d in [*reads, *more]:
                jobs.append((compare, (prog, cls, maker, args, s, v, d, before)))
    run_jobs(res, jobs)
    res.require("histories_compared", 250)
    res.require("values_exact", 120)
    res.notes = ["pairs of histories (read, assign, read; made with the setting, read) followed on all paths"]
    return res
