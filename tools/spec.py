"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None, assumptions=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


C = "cratermaker/components/"

prop("P01", "Same seed, same result: all randomness comes from the run's generator",
     "Every random decision of a simulation or of a component (crater and projectile properties, production samples, ages, morphology, rays) is drawn from the one generator the "
     "run or component was given or made from its seed or saved state, in an order that the inputs determine. No other source of randomness, no clock, process or "
     "memory-address dependent value, and no unordered collection decides anything in a result; a given generator is used as it is, never reseeded or replaced.",
     ["inputs", "histories", "schedules"],
     "every call site that draws, creates, hands on or restores a generator in the whole package, and the native sources",
     "a stray generator gives plausible results; only a comparison of complete runs for every combination of options would expose it, and the tests do none",
     ["cratermaker/core/base.py", "cratermaker/utils/montecarlo_utils.py", C + "projectile/__init__.py", C + "production/__init__.py", C + "scaling/montecarlo.py", C + "morphology/__init__.py", C + "morphology/basicmoon.py"],
     [("generator initialisation", "core/base.py _rng_init, rng/rng_state setters"), ("draws", "utils/montecarlo_utils.py get_random_*, bounded_norm"), ("hand-over", "makers, constructors and recompute methods of the components")],
     technique="call-site dataflow rules on the resolved syntax tree (provenance of generator expressions, taint of clock values, order of iteration) plus abstract interpretation of the generator initialisation and of crater creation",
     note="about 2400 external calls judged as sources, 44 draws, over 110 hand-overs; flow-insensitive provenance, unknown provenance is counted and never alarmed")

prop("P02", "What the user configured is saved and comes back when a run is resumed",
     "Every setting of a target, projectile, production, scaling, surface or morphology given at creation or assigned later is part of the saved configuration, and building the part again from it gives the same value. "
     "When a simulation is resumed every saved setting, the run state and the random generator state reach the part they belong to; arguments given explicitly win over saved ones. "
     "Settings saved for one kind of part are not applied to a different one, and a reset uses nothing of the old run.",
     ["inputs", "histories", "configurations"],
     "every documented setting of every component, whole value classes, given at construction or later; every resume, reset and override combination of the components",
     "no test saves and resumes with non-default settings; the product of settings, components and overrides is far too large to sample",
     ["cratermaker/core/base.py", "cratermaker/core/simulation.py", "cratermaker/utils/general_utils.py", C + "target/__init__.py", C + "production/__init__.py", C + "scaling/montecarlo.py"],
     [("recorded settings", "utils/general_utils.py Parameter; core/base.py _to_config"), ("hand-over", "core/simulation.py Simulation.__init__, _set_properties"), ("generator state", "core/base.py rng_state, _rng_init")],
     technique="abstract interpretation of round trips (construct/assign, save configuration, rebuild, read) and of the simulation constructor with a marked saved configuration",
     note="over 220 round-trip and hand-over obligations on all paths; YAML text encoding itself is trusted; settings are those of the table in the check")

prop("P03", "Existing files are overwritten or deleted only with the user's consent",
     "Whenever an export or a reset is asked for, no file that already exists is deleted or overwritten in the export area, and no saved output "
     "is deleted by a reset, unless the user switched the overwrite question off or answered it with yes (or all) for that file in this operation. "
     "Any other answer, including just pressing Enter, leaves the file as it is. The program never switches the question off on the user's behalf to get round this.",
     ["inputs", "histories", "configurations"],
     "every export/reset entry point of every component class and of the simulation, every combination of existing files, switch setting and answers to the prompts",
     "tests run non-interactively with the question switched off, so the prompting paths and most exporters with pre-existing files are never entered",
     ["cratermaker/core/base.py", C + "surface/__init__.py", C + "counting/__init__.py", "cratermaker/core/simulation.py"],
     [("overwrite check", "cratermaker/core/base.py CratermakerBase._overwrite_check"), ("exporters", "surface/__init__.py LocalSurface.to_*_file, export*; counting/__init__.py Counting.to_*_file")],
     technique="path-sensitive abstract interpretation (typestate of consent facts per path) over all export/reset entry points, calls inlined",
     note="every path through the inlined call tree (loops: first and repeated iteration); writers recognised by resolved callee name")

prop("P04", "Temporary switches are put back on every way out, failures included",
     "An operation that changes a switch for its own duration (the overwrite question, floating-point error handling, working directory, warning filters, plotting or "
     "print settings, environment) puts it back to what it was before on every way out: normal end, early end, refusal or error. "
     "After any sequence of operations the switches have the values the user gave them.",
     ["inputs", "histories", "crash_points"],
     "every function of the package, every way through it and every statement at which it can fail",
     "the state left behind by a failed or early-ending operation is only seen by the next operation; tests stop at the error or use a fresh process",
     ["cratermaker/core/simulation.py", C + "surface/__init__.py", C + "surface/datasurface.py", C + "surface/hireslocal.py", C + "counting/__init__.py"],
     [("overwrite question", "Simulation.export/reset, Counting.export, LocalSurface.export, Surface._load_from_files"), ("floating-point errors", "Surface._generate_grid")],
     technique="typestate analysis with exceptional control flow over every function (saved value / changed / put back), helper summaries",
     note="every call, subscript, arithmetic operation and import is taken to be able to fail; plain assignments are not")

prop("P05", "Saving is crash-safe: old files are replaced only by complete new ones",
     "A save that fails or is killed at any step leaves every previously saved file (mesh, surface data, crater lists, configuration) either as it was or completely replaced: "
     "the old version is never deleted, moved away or written into first, and the new one is complete and closed before it is moved into place on the same file system. "
     "The configuration that records the state of a run is written after the data of that state.",
     ["crash_points", "inputs"],
     "every file operation on the simulation's own files on every path of every function that can reach one",
     "a crash at a chosen instant cannot be tried for every instant of every save; the tests never interrupt a save",
     [C + "surface/__init__.py", C + "surface/hireslocal.py", C + "counting/__init__.py", "cratermaker/core/simulation.py"],
     [("surface data and mesh", "Surface._save_data, _write_grid_file"), ("crater lists", "Counting.save"), ("configuration", "Simulation.to_config, __setattr__, save")],
     technique="path-sensitive ordering analysis of file operations (typestate per path: written, closed, moved into place) with calls inlined",
     note="a rename is taken as one step; writers complete the file they are given before they return; six functions exceed the path budget and are judged through the helpers they call")

prop("P06", "Settings refuse values that make no sense and keep valid ones as given",
     "Assigning an invalid value to a public setting (a negative size, density or speed, an unknown option name, a value of the wrong kind, not-a-number or "
     "infinity where a resolution is asked for) or passing it when a component, target or crater is created is always refused with an error. "
     "A valid value is accepted, and reading the setting back gives that value.",
     ["inputs", "configurations"],
     "every public numeric, switch and option setting of every component and every value of each class (whole intervals, not samples)",
     "each setting has infinitely many invalid values and tests try one or two for a handful of settings; most settings have no test of refusal at all",
     [C + "target/__init__.py", C + "projectile/__init__.py", C + "scaling/montecarlo.py", C + "production/__init__.py", C + "morphology/__init__.py",
      C + "surface/hireslocal.py", C + "crater/__init__.py"],
     [("validating setters", "property setters of the component classes"), ("argument checks", "Crater.maker, Crater.__init__, component constructors")],
     technique="abstract interpretation (intervals, type and option classes) of abstract client programs `obj.setting = v; return obj.setting`",
     note="every path through setter or constructor for whole classes of values; a few obligations the domain cannot decide are counted as undecided, never alarmed")

prop("P07", "Contradictory or incomplete argument combinations are refused, legal ones work",
     "Creating a crater, target or projectile, sampling a production function and running a simulation accept exactly the documented combinations of arguments: "
     "two sources for the same quantity, a missing required quantity, an end without a start, malformed pairs, reversed or negative times and non-positive intervals are errors. "
     "Every documented combination gets past the argument handling.",
     ["inputs", "configurations"],
     "all pairwise contradictory size, location, orientation and velocity inputs of a crater; all start/end/interval combinations of runs and samples; whole classes of argument values",
     "the space of argument combinations is exponential and the existing tests try a few; several combinations need a full simulation to be tried at all",
     [C + "crater/__init__.py", C + "target/__init__.py", C + "projectile/__init__.py", C + "production/__init__.py", "cratermaker/core/simulation.py", C + "morphology/__init__.py"],
     [("crater arguments", "Crater.maker"), ("sample arguments", "Production._validate_sample_args, _validate_age, _validate_csfd"), ("run arguments", "Simulation._validate_run_args")],
     technique="abstract interpretation of one abstract client per argument combination: all paths must raise (illegal) or some path must return (legal)",
     note="table of about 260 combinations; numerical kernels (scaling laws, production functions) treated as opaque non-failing functions")

prop("P08", "Degrees and radians are never confused",
     "Every angle the program holds is in one unit, degrees or radians, from where it is computed, read or documented to where it is used: each is converted exactly once on the way to a trigonometric function, "
     "to the compiled numerical code or to a geodesic routine, and back where a result is given in the documented unit. Angles of different units are never added, subtracted or compared, and an angle in "
     "degrees is never wrapped by, or compared with, multiples of pi.",
     ["inputs", "configurations"],
     "every expression of the package whose angular unit is known from a conversion, trigonometric function, name, documentation, attribute or native signature",
     "a wrong unit gives coordinates and orientations that are plausible numbers; tests look at few places, and several are on branches (rasters, ellipses, local grids) that no test runs",
     [C + "surface/__init__.py", C + "surface/hireslocal.py", C + "counting/__init__.py", C + "morphology/__init__.py", C + "morphology/basicmoon.py", C + "crater/__init__.py", "cratermaker/utils/general_utils.py", C + "projectile/__init__.py", C + "scaling/montecarlo.py", "crates/cratermaker-py/src"],
     [("conversions", "np.radians, np.degrees, np.deg2rad, np.rad2deg"), ("uses", "trigonometric calls, cratermaker.bindings, pyproj.Geod"), ("results", "documented return units of properties and functions")],
     technique="forward unit inference (degrees, radians, multiples of pi) on the syntax tree with branch joins, checked at conversions, trigonometric calls, sums, comparisons, native and geodesic calls and documented results",
     note="250 places of known unit, 77 conversions, 89 trigonometric calls, 30 native angles; unknown units are not alarmed")

prop("P09", "Units are converted once and in the right direction",
     "Crater sizes and crater numbers given in the user's units are turned into metres and into numbers per square metre or per surface exactly once, by the conversion factors the user set, before any relation of the "
     "production is asked, and back when they are reported in the user's units. A count is never taken for a density, nor a time for either. Quantities of different unit are never added, subtracted, compared or mixed in one draw.",
     ["inputs", "configurations"],
     "every form of the arguments of sampling, populating and running, and every kind of dated crater, with symbolic values and symbolic conversion factors",
     "with the default factors or an area of one a wrong conversion is a plausible number; tests use the defaults, and pairs of numbers with an end, or dated craters with other units, are on branches they do not take",
     [C + "production/__init__.py", "cratermaker/core/simulation.py"],
     [("arguments", "Production._validate_sample_args, Simulation._validate_run_args"), ("dated craters", "Production._process_quasimc_craters"), ("use", "Simulation.run, populate; Production.sample"), ("factors", "Production.D_conversion_factor, N_conversion_factor")],
     technique="dimension inference by abstract interpretation: monomials over symbols of known unit, checked where relations are asked, numbers handed on and quantities added or compared",
     note="about 18000 units checked on 1800 paths; units lost through collections are unknown and not alarmed; constants fit any unit, so a hard-wired factor is seen only where it replaces the user's")

prop("P10", "A saved mesh is reused exactly when it was made from the same settings",
     "A mesh found on disk is used again only if it was made for the same kind of surface and body with the same values of every setting that shapes the mesh; such a mesh is recognised and kept. "
     "Otherwise, or when the user asks for it, a new mesh is generated and saved with the identity of its settings, and the data and index files of the old mesh are not used with it.",
     ["inputs", "histories", "configurations"],
     "every kind of surface, every setting its generator reads, matching, different and missing saved identities, with and without the request to regrid",
     "reuse of a wrong mesh needs two runs in one directory that differ in exactly the forgotten setting; nothing fails visibly",
     [C + "surface/__init__.py", C + "surface/hireslocal.py", C + "surface/datasurface.py", C + "surface/icosphere.py", C + "surface/arbitrary_resolution.py"],
     [("identity", "Surface._hashvars, _id and the overrides"), ("reuse", "Surface._is_same_grid, _regrid_if_needed, _generate_grid, _load_from_files"), ("generators", "_generate_face_distribution of each surface type")],
     technique="dependence slices of the mesh generators down to stored settings, compared with the identity values; abstract interpretation of the reuse decision",
     note="settings inside called external libraries and files on disk (elevation models) are outside the slices; two pairs of known findings about the fitted size law")

prop("P11", "Python and native code agree at every crossing",
     "Every call from Python into the compiled numerical code names a function it offers, gives each of its parameters once, in the right place and of the right kind (coordinates, face or node values, "
     "crater sizes, number types), and takes its results apart and stores them as what they are. Every attribute and method the compiled code asks of the objects it is handed exists under that name, and it passes each quantity on in its own place.",
     ["inputs", "configurations"],
     "every call site of the native modules and every attribute, method and hand-over in the native sources",
     "the two languages are checked by different tools and meet only at run time; swapped values of equal type give wrong craters without any error, and the existing tests run only a few of the crossings",
     [C + "surface/__init__.py", C + "morphology/basicmoon.py", C + "morphology/__init__.py", C + "counting/__init__.py", "crates/cratermaker-py/src/surface_bindings.rs", "crates/cratermaker-py/src/counting_bindings.rs", "crates/cratermaker-py/src/morphology_bindings.rs"],
     [("calls", "users of cratermaker.bindings"), ("signatures", "crates/cratermaker-py"), ("field reads", "PyReadonlyLocalSurface::from_local_surface, Crater")],
     technique="signature and role matching of call sites in the Python syntax tree against signatures, result types and attribute requests read from the native sources",
     note="about 20 calls with 80 arguments, 70 requests, 20 hand-overs; a role is judged from variable, attribute and annotation names along local assignments, unknown roles are not alarmed; the native arithmetic itself is not analysed")

prop("P12", "Excavated and deposited volumes balance",
     "The material a crater deposits around itself, and moves downhill later, equals the material it excavated within the accuracy asked for, on every surface.",
     ["inputs", "configurations"], "every crater on every surface",
     "tests check single craters on one mesh",
     [C + "morphology/__init__.py", C + "morphology/basicmoon.py"], [("ejecta", "Morphology.form_ejecta, BasicMoonMorphology")],
     na="the balance is the outcome of sums over mesh faces and of an iterative correction at run time; no static argument in reach bounds these sums")

prop("P13", "No option that is offered is ignored",
     "Every documented option of a command changes what it says it changes, whatever the other options are.",
     ["inputs", "configurations"], "every documented option of every public command",
     "an option that is dropped leaves a valid result, only not the one asked for; tests combine few options",
     ["cratermaker/core/simulation.py", C + "surface/__init__.py", C + "counting/__init__.py"], [("options", "keyword arguments of public methods")],
     na="whether an option reaches what it controls can be read from the flow of arguments, but which effect is owed is only in prose and many options are meant to be unused by some variants; a draft of the analysis alarmed on correct variants and was dropped")

prop("P14", "The parts of a simulation share one body, mesh, generator and directory",
     "Whenever a component is created for another one or for a simulation, directly, by name, by default or by later assignment, it uses the same target body, surface mesh, "
     "random generator, output directory and overwrite switch as its owner, and a part passed in as an object is the very object used.",
     ["inputs", "configurations", "histories"],
     "every kind of part, every way of supplying it (object, name, default, later assignment), every component class",
     "a part that silently gets its own generator, directory or default body gives plausible results; tests use the default body and do not look at the sharing",
     ["cratermaker/core/simulation.py", C + "morphology/__init__.py", C + "scaling/__init__.py", C + "counting/__init__.py", C + "projectile/__init__.py", C + "surface/__init__.py"],
     [("wiring", "core/simulation.py Simulation.__init__"), ("makers and setters", "Morphology.maker/__init__/setters, Scaling.maker, Crater.maker, Projectile.maker"), ("common arguments", "core/base.py common_args")],
     technique="abstract interpretation of creation/assignment clients with marked generator, directory, switch and parts; argument comparison at nested creation calls",
     note="about 140 sharing obligations on all paths of the creation code")

prop("P15", "No option or branch ends in a name, attribute or argument that does not exist",
     "Whatever combination of options, inputs and earlier calls is used, the program never reads a name or local variable nothing was assigned to, never asks one of its own objects for an attribute "
     "or method that is not defined for it, and never calls one of its own functions or methods with arguments it does not take or without arguments it requires.",
     ["inputs", "configurations"],
     "every name read, every path to every local variable read, every attribute read of an object whose class is known, every call of a function or method of the package",
     "such a mistake sits on one branch of one option and shows only when that branch runs; large parts of the plotting, exporting and resuming code are not run by any test",
     ["cratermaker/core/base.py", "cratermaker/core/simulation.py", C + "counting/__init__.py", C + "surface/__init__.py", C + "surface/hireslocal.py", C + "crater/__init__.py", C + "morphology/realisticmoon.py", "cratermaker/utils/general_utils.py"],
     [("names and locals", "every function of the package"), ("attributes", "objects of the component classes"), ("calls", "functions, methods, constructors")],
     technique="symbol tables of the module as it exists at run time; path enumeration with correlated branch facts for definite assignment; type inference of receivers with class member lookup; signature matching of resolved calls",
     note="5900 names, 740 functions, 2800 attribute reads, 840 calls; loops are taken to run at least once and constants compared with one subject to be all its values, so those two kinds of unassigned variable are not reported; objects of other libraries are not judged")

prop("P16", "Craters are emplaced from oldest to youngest, each exactly once",
     "Every crater handed over for emplacement, alone or in a list, is formed exactly once in the order given if the mesh can hold it, and one that changes the surface is recorded once as emplaced, has its ejecta formed once and is handed to the counting exactly when counting is on. "
     "Craters processed together are those that have waited longest and touch no common node or face, and each leaves the queue when it is formed. "
     "Generated craters, merged with the planned ones that belong to the interval, each planned one exactly once, are emplaced from the oldest to the youngest.",
     ["inputs", "histories", "schedules"],
     "every path of a request with one, two or eleven craters of unknown size, place and overlap, of the queue with three, of the formation of one, and of the merge of up to three generated with up to three planned craters",
     "a lost, doubled or misplaced crater leaves a surface that looks right; order matters only where craters overlap, and tests emplace few that do not",
     [C + "morphology/__init__.py", C + "morphology/basicmoon.py", C + "production/__init__.py", "cratermaker/core/simulation.py"],
     [("requests", "Simulation.emplace, Morphology.emplace"), ("queue", "Morphology.CraterQueueManager, Morphology._process_queue"), ("formation", "Morphology.form_crater"), ("order", "Simulation.populate, Production.quasimc_merge")],
     technique="abstract interpretation of emplacement and queue clients with identified craters and opaque sets of touched nodes and faces; event order on every path",
     note="about 570 request paths, 34 formation paths, 18 merges; what is touched, sizes and times are opaque; up to four rounds of the queue")

prop("P17", "What a part reports follows the settings in force now",
     "Whatever a target, projectile, production, scaling model or surface was set to or asked before, what it derives from its settings is what it would be had it been made with the settings it has now. "
     "This covers gravity and escape velocity, the vertical velocity, the coefficients, units and numbers of a production, crater and projectile sizes of a scaling model after it is recomputed, and the directories files go to. "
     "It also covers settings changed on the target and projectile that a scaling model uses.",
     ["inputs", "histories", "configurations"],
     "every pair of a setting and a derived value of the standard parts, with the value read before the assignment, whole value classes",
     "a value that was computed once and kept is right in every test that sets a part up once; only reading, changing and reading again shows it",
     [C + "target/__init__.py", C + "projectile/__init__.py", C + "production/__init__.py", C + "production/neukum.py", C + "production/powerlaw.py", C + "scaling/montecarlo.py", C + "scaling/ctem.py", "cratermaker/core/base.py"],
     [("derived values", "properties of Target, Projectile, Production, NeukumProduction, MonteCarloScaling, CTEMScaling"), ("kept values", "NeukumProduction.version/Clin/Cexp, MonteCarloScaling.recompute"),
      ("directories", "core/base.py simdir, output_dir, export_dir, plot_dir")],
     technique="relational abstract interpretation of two histories (read, assign, read; made with the setting, read) with symbolic values, memoising decorators included",
     note="about 650 pairs of histories; results of pure external functions are terms over their arguments; values that end in an opaque term are not judged")

prop("P18", "Run intervals have no gap or overlap and are accounted for once",
     "A run divides the time or the crater numbers it was asked for into intervals of which the first starts where the run starts or stands, each next one starts where the last one ended, and none goes past the end. "
     "In each interval the list of new craters is emptied, the surface is populated once, the clock is set to the end of the interval, the interval count, the elapsed time and the accumulated crater number grow by just that interval, and the state is saved once afterwards. "
     "A new run sets its clock and count and saves its initial state first.",
     ["inputs", "histories", "configurations"],
     "every path of a run of up to two intervals, for all ways of giving times, interval lengths, interval counts and crater numbers, on new and resumed simulations, with symbolic values",
     "the end state of a short run looks right if an interval is skipped, doubled, cut wrongly or miscounted; tests run one or two whole intervals and compare no clocks",
     ["cratermaker/core/simulation.py"],
     [("intervals", "core/simulation.py Simulation.run"), ("arguments", "Simulation._validate_run_args")],
     technique="path enumeration by abstract interpretation with exact polynomial arithmetic over symbolic times and numbers, checked against an interval protocol",
     note="about 2500 intervals on 1800 paths; production function and age inversion taken as opaque functions; rounding is not modelled")

prop("P19", "A crater keeps the fixed properties it was made with, and its identity",
     "A crater records exactly what it was asked for, its sizes agree with each other through the scaling relations, and its measured properties are the given ones or else start out as the fixed ones. "
     "Its identity is determined by all of its fixed properties, unrounded, and by nothing else, and no fixed property can be changed once the crater exists. "
     "A crater copied from another, or read back from its saved record, keeps everything that is not given anew.",
     ["inputs", "configurations"],
     "every way of giving a size, with every other property given or not; copies with each property overridden; reading back; all classes of crater; symbolic values",
     "tests compare a few craters with round numbers; a wrong axis, a stale derived size or a property missing from the identity shows only for particular combinations",
     ["cratermaker/components/crater/__init__.py", C + "morphology/basicmoon.py", C + "morphology/__init__.py", C + "scaling/__init__.py"],
     [("making", "crater/__init__.py Crater.maker"), ("identity", "Crater._set_id"), ("fixed and variable parts", "CraterFixed, CraterVariable, Crater.__getattr__/__setattr__"),
      ("saved records", "Crater._convert_tuple_vars, as_dict, to_xarray")],
     technique="abstract interpretation of crater creation, copying, restoring and assignment with exact monomial arithmetic over symbolic quantities; syntax rule for writes that bypass protection",
     note="about 5300 values decided over 190 requests and copies; scaling relations and the projectile are opaque functions; rounding is not modelled")

prop("P20", "Sampled craters follow the production function",
     "The sizes and times of sampled craters are distributed as the production function says, for every range of sizes and times.",
     ["inputs"], "every range of sizes, times and areas",
     "a distribution is seen only over many samples", [C + "production/__init__.py", "cratermaker/utils/montecarlo_utils.py"], [("sampling", "Production.sample, compute_time; get_random_size")],
     na="a statement about probability distributions of computed numbers, outside what the form of the source can decide")

prop("P21", "Scaling relations and their inverses agree",
     "Converting between projectile, transient and final sizes and back returns the size one started with.",
     ["inputs"], "every size, velocity, angle and material",
     "tests try few sizes, away from the transitions", [C + "scaling/__init__.py", C + "scaling/montecarlo.py"], [("relations", "Scaling.*_to_*")],
     na="the inverses are found by numerical root finding and fits with transitions; they agree to a tolerance that depends on magnitudes")

prop("P22", "The mesh covers the body once at the resolution asked for",
     "The faces of a mesh cover the body without gap or overlap, and their sizes are those asked for.",
     ["configurations"], "every kind of surface and resolution",
     "tests make few coarse meshes", [C + "surface/icosphere.py", C + "surface/arbitrary_resolution.py", C + "surface/hireslocal.py"], [("generation", "_generate_face_distribution")],
     na="the mesh is made by a third-party generator from points computed at run time; its geometry is not in this source")

prop("P23", "Diffusion is stable and never sharpens relief",
     "Downhill transport keeps the total volume and does not raise hills or deepen hollows, for every strength and mesh.",
     ["inputs"], "every mesh, strength and duration",
     "tests use one mesh and a weak strength", [C + "surface/__init__.py", "crates/cratermaker-py/src/surface_bindings.rs"], [("transport", "LocalSurface.apply_diffusion")],
     na="stability depends on the step size against face sizes and slopes at run time, inside the native kernels")

prop("P24", "Results do not depend on the number of threads",
     "The same run gives the same surface however many threads the native code uses.",
     ["schedules"], "every number of threads and every schedule",
     "tests run with one number of threads", ["crates/cratermaker-py/src"], [("kernels", "parallel loops of the native code")],
     na="races are excluded by the type system of the native language, but the order of parallel floating-point sums is a run-time quantity; that no worker draws random numbers is decided with P01")
