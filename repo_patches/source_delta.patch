From 2e2c3f5a4d006979cd4c1bf183b9538525345895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:57 +0000
Subject: [PATCH 01/53] fix: ask before overwriting in export_region_polygon
 and to_geotiff_file

---
 cratermaker/components/surface/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 6ef1cae..436f0f1 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3228,6 +3228,8 @@ class LocalSurface(CratermakerBase):
                 "transform": transform,
                 "nodata": np.nan,
             }
+            if not self._overwrite_check(output_filename):
+                return
             print(f"Exporting to {output_filename}")
             with rio.open(output_filename, "w", **profile) as dst:
                 dst.write(raster, 1)
@@ -3805,6 +3807,8 @@ class LocalSurface(CratermakerBase):
             )
             gdf = gpd.GeoDataFrame(data=df, geometry=geoms, crs=self.crs)
             filename = self.export_dir / f"local_surface_AREA.{file_extension}"
+            if not self._overwrite_check(filename):
+                return
 
             if file_extension == "shp":
                 gdf.to_file(filename, driver=driver, **kwargs)
-- 
2.43.0


From 1e196bc071dd7fcd312c385c7424fd6926805508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 02/53] fix: Production.maker honours an explicit version and
 derives the default one from the target

---
 cratermaker/components/production/__init__.py | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index b8ae8bc..c03317f 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -160,20 +160,20 @@ class Production(ComponentBase):
             production = production.lower()
             if production == "neukum":
                 set_version = True
-            if set_version:
-                version = kwargs.pop("version", None)
-                if target is None and version is not None and version in ["Moon", "Mars"]:
-                    target = version
-                target = Target.maker(target, **kwargs)
-                if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
-                    production = "neukum"
-                    if version is None or version != "projectile":
-                        if target.name in ["Moon", "Mars"]:
-                            version = target.name
-                        else:
-                            version = "projectile"
-                else:
-                    production = "powerlaw"
+        if set_version:
+            version = kwargs.pop("version", None)
+            if target is None and version is not None and version.title() in ["Moon", "Mars"]:
+                target = version.title()
+            target = Target.maker(target, **kwargs)
+            if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
+                production = "neukum"
+                if version is None:
+                    if target.name in ["Moon", "Mars"]:
+                        version = target.name
+                    else:
+                        version = "projectile"
+            else:
+                production = "powerlaw"
 
         return super().maker(
             component=production,
-- 
2.43.0


From 224712c214fe4b83639bb92fc08dc58ed68a748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:49 +0000
Subject: [PATCH 03/53] fix: validate and record monte_carlo_scaling given at
 construction

---
 cratermaker/components/scaling/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index e31b463..33d1b25 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -105,7 +105,7 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_simple_enlargement_factor", None)
         object.__setattr__(self, "_final_exp", None)
         object.__setattr__(self, "_material_catalogue", None)
-        object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
+        self.monte_carlo_scaling = monte_carlo_scaling
 
         if material is None:
             self.material = self.target.material
-- 
2.43.0


From 34b6a6c10ca7aa5da243abc32075d54dfda49e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 04/53] fix: a crater given by only one of its semi-axes is
 circular instead of refused

---
 cratermaker/components/crater/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 2fd5682..d58cc8e 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -789,14 +789,14 @@ class Crater(ComponentBase):
 
         # Validate ellipticity parameters
         if semimajor_axis is not None or semiminor_axis is not None:
-            if semimajor_axis is None or semiminor_axis is None:  # We will assume circular if only one is set
-                radius = semimajor_axis if semiminor_axis is None else semiminor_axis
-                semimajor_axis = radius
-                semiminor_axis = radius
             if check_redundant_inputs and (diameter is not None or radius is not None):
                 raise ValueError(
                     "diameter or radius cannot be used for elliptical craters; use semimajor_axis and semiminor_axis instead."
                 )
+            if semimajor_axis is None or semiminor_axis is None:  # We will assume circular if only one is set
+                radius = semimajor_axis if semiminor_axis is None else semiminor_axis
+                semimajor_axis = radius
+                semiminor_axis = radius
 
         # Turn any circular crater arguments into elliptial ones
         if semimajor_axis is None and semiminor_axis is None:
-- 
2.43.0


From 5f13945d4c696d0ff8ba0fbe484c45e1ff4798b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 05/53] fix: keep the name given when copying a crater

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index d58cc8e..a1ffce6 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -962,7 +962,7 @@ class Crater(ComponentBase):
 
             measured_orientation = args.pop("measured_orientation", None)
             measured_location = args.pop("measured_location", None)
-            name = args.pop("name", None)
+            name = args.pop("name", name)
             if crater is not None:
                 mt = crater.morphology_type
             else:
-- 
2.43.0


From 895a8395fe78babb6e9896a6c63af4421e217b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:50 +0000
Subject: [PATCH 06/53] fix: time_interval works when a run is given by crater
 number instead of age

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index cf34545..491a6f4 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -411,6 +411,8 @@ class Simulation(CratermakerBase):
         kwargs["ninterval"] = ninterval
         kwargs["time_interval"] = time_interval
         kwargs = self.production._validate_sample_args(**kwargs)
+        time_start = kwargs["time_start"]
+        time_end = kwargs["time_end"]
 
         if is_time_interval:
             if time_interval is None:
-- 
2.43.0


From 1ed9d21757c1c3297e9839ee16bf4aa066cbb2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 07/53] fix: remember slope and N1_coef of a power law
 production for a resumed run

---
 cratermaker/components/production/powerlaw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 67b671f..382323b 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -7,6 +7,7 @@ from numpy.typing import ArrayLike, NDArray
 
 from cratermaker.components.production import Production
 from cratermaker.constants import FloatLike
+from cratermaker.utils.general_utils import parameter
 
 
 @Production.register("powerlaw")
@@ -196,7 +197,7 @@ class PowerLawProduction(Production):
         """
         return self.N1_coef * diameter**self.slope
 
-    @property
+    @parameter
     def N1_coef(self):
         """The N1 coefficient of the power law production function."""
         return self._N1_coef
@@ -209,7 +210,7 @@ class PowerLawProduction(Production):
             raise ValueError("N1_coef must be positive")
         self._N1_coef = value
 
-    @property
+    @parameter
     def slope(self):
         """The slope of the power law production function."""
         return self._slope
-- 
2.43.0


From 46da4b4bbd31931914a6a6af38d5f698a03966a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 08/53] fix: remember the version of a Neukum production for a
 resumed run

---
 cratermaker/components/production/neukum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index 5c29c32..f3a7b2d 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -67,8 +67,8 @@ class NeukumProduction(Production):
         object.__setattr__(self, "_Clin", None)
         object.__setattr__(self, "_tau", None)
 
-        self.version = version or "Moon"
         super().__init__(rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
+        self.version = version or "Moon"
 
     def __str__(self) -> str:
         str_repr = super().__str__()
-- 
2.43.0


From f653156e3046c3694aaf433bb0dbe4caf28cb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 09/53] fix: remember ejecta_truncation and dorays for a
 resumed run

---
 cratermaker/components/morphology/basicmoon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index 0b81ef8..fa3d29d 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -165,9 +165,9 @@ class BasicMoonMorphology(Morphology):
         """
         object.__setattr__(self, "_ejecta_truncation", None)
         object.__setattr__(self, "_node", None)
+        super().__init__(surface=surface, rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         self.ejecta_truncation = ejecta_truncation
         self.dorays = dorays
-        super().__init__(surface=surface, rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         return
 
     def __str__(self) -> str:
-- 
2.43.0


From 97bdfdd827f36f24e1818816652f1f1dc00c18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 10/53] fix: remember the diameter range of a production and
 accept version for any production

---
 cratermaker/components/production/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index c03317f..a18c5f9 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -153,7 +153,7 @@ class Production(ComponentBase):
 
         """
         set_version = False
-        version = None
+        version = kwargs.pop("version", None)
         if production is None:
             set_version = True
         elif isinstance(production, str):
@@ -161,7 +161,6 @@ class Production(ComponentBase):
             if production == "neukum":
                 set_version = True
         if set_version:
-            version = kwargs.pop("version", None)
             if target is None and version is not None and version.title() in ["Moon", "Mars"]:
                 target = version.title()
             target = Target.maker(target, **kwargs)
@@ -1328,7 +1327,7 @@ class Production(ComponentBase):
         else:
             self._quasimc_craters = self._process_quasimc_craters(value)
 
-    @property
+    @parameter
     def diameter_range(self) -> tuple[float, float]:
         """
         The lower and upper range of diameters that will be returned from :py:meth:`~cratermaker.components.production.Production.sample`.
-- 
2.43.0


From 7130814bc03fbf17fd61137443b6a22f9ed4cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 11/53] fix: remember mass and transition scale type of a
 target, and save a custom target by name

---
 cratermaker/components/target/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index 6011b59..ede489f 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -146,6 +146,7 @@ class Target(ComponentBase):
 
         if self._density is None and self.material in self._density_catalogue:
             self._density = self._density_catalogue[self.material]
+        self._component_name = self.name
 
     def __str__(self) -> str:
         diameter = format_large_units(self.diameter, quantity="length")
@@ -270,7 +271,7 @@ class Target(ComponentBase):
         if self.radius is not None:
             return 2 * np.pi * self.radius
 
-    @property
+    @parameter
     def mass(self) -> float | None:
         """The mass of the target body in kilograms."""
         return self._mass
@@ -350,7 +351,7 @@ class Target(ComponentBase):
         """The key used to identify the property used as the key in a catalogue."""
         return "name"
 
-    @property
+    @parameter
     def transition_scale_type(self):
         """The type of simple-to-complex transition scaling used for the surface, either 'silicate' or 'ice'."""
         return self._transition_scale_type
-- 
2.43.0


From a6e1cc630976687b4054c2661303cebbf7c3eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 12/53] fix: validate and remember the projectile settings
 given at construction

---
 cratermaker/components/projectile/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index e8d8f35..bc571de 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -96,10 +96,14 @@ class Projectile(ComponentBase):
 
         super().__init__(rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
 
-        object.__setattr__(self, "_sample", sample)
-        object.__setattr__(self, "_mean_velocity", mean_velocity)
+        self.sample = sample
+        object.__setattr__(self, "_mean_velocity", None)
+        if mean_velocity is not None:
+            self.mean_velocity = mean_velocity
         object.__setattr__(self, "_velocity", velocity)
-        object.__setattr__(self, "_density", density)
+        object.__setattr__(self, "_density", None)
+        if density is not None:
+            self.density = density
         object.__setattr__(self, "_angle", angle)
         object.__setattr__(self, "_direction", direction)
         object.__setattr__(self, "_location", location)
@@ -117,6 +121,8 @@ class Projectile(ComponentBase):
                 raise ValueError("direction must be provided when sample is False")
             if self.location is None:
                 raise ValueError("location must be provided when sample is False")
+            # A fixed projectile is described by these values, so they belong to the configuration
+            self._user_defined.update(("velocity", "angle", "direction", "location"))
 
         if self.density is None:
             raise ValueError("density must be provided")
-- 
2.43.0


From f0dd66b4b577e9bfb0bc7f4e5768424a28c1acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 13/53] fix: remember the DEM files of a DataSurface for a
 resumed run

---
 cratermaker/components/surface/datasurface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 5f05bdf..69f997e 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -132,7 +132,11 @@ class DataSurface(HiResLocalSurface):
         }
         super().__init__(**super_kwargs)
 
-        self._superdomain_dem_file = superdomain_dem_file
+        # The base constructor starts a new record of user-defined settings, so add the files given here to it
+        if dem_file_list is not None:
+            self._user_defined.add("dem_file_list")
+        if superdomain_dem_file is not None:
+            self.superdomain_dem_file = superdomain_dem_file
         self.ask_overwrite = ask_overwrite
         return
 
-- 
2.43.0


From 416a0554421bb693c3cd6477fd2281c3411f1980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:52 +0000
Subject: [PATCH 14/53] fix: a version derived from the target is not saved as
 a user setting

---
 cratermaker/components/production/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index a18c5f9..a82c294 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -154,6 +154,7 @@ class Production(ComponentBase):
         """
         set_version = False
         version = kwargs.pop("version", None)
+        default_version = version is None
         if production is None:
             set_version = True
         elif isinstance(production, str):
@@ -174,7 +175,7 @@ class Production(ComponentBase):
             else:
                 production = "powerlaw"
 
-        return super().maker(
+        obj = super().maker(
             component=production,
             version=version,
             target=target,
@@ -188,6 +189,10 @@ class Production(ComponentBase):
             rng_state=rng_state,
             **kwargs,
         )
+        if set_version and default_version:
+            # A version that follows the target is not a user-defined setting
+            obj._user_defined.discard("version")
+        return obj
 
     def sample(
         self,
-- 
2.43.0


From 8465e43a5eb7a1be507f12faebd6f1a3860cad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:52 +0000
Subject: [PATCH 15/53] fix: do not apply the saved settings of one component
 to a different one given on resume

---
 cratermaker/core/simulation.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 491a6f4..665d813 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -129,10 +129,28 @@ class Simulation(CratermakerBase):
         else:
             config_file = None
 
+        component_args = {
+            "target": target,
+            "scaling": scaling,
+            "production": production,
+            "morphology": morphology,
+            "projectile": projectile,
+            "surface": surface,
+            "counting": counting,
+        }
+        saved_config = {}
+        if config_file is not None:
+            try:
+                with Path.open(config_file) as f:
+                    saved_config = yaml.safe_load(f) or {}
+            except (OSError, yaml.YAMLError):
+                saved_config = {}  # _set_properties warns about unreadable files
         config_override = {}
         for component in _COMPONENT_NAMES:
-            # Set to true if a local variable from the argument list with the component name is set to something other than None, otherwise false
-            config_override[component] = getattr(self, f"_{component}") is not None
+            # The saved settings of a component do not apply to a different one given as an argument
+            arg = component_args[component]
+            arg = getattr(arg, "component_name", arg)
+            config_override[component] = arg is not None and arg != saved_config.get(component)
 
         _, unmatched = _set_properties(
             self,
-- 
2.43.0


From 56cb2184343d6304a255173765048ccdb59cc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:25 +0000
Subject: [PATCH 16/53] fix: remember do_counting=False when a simulation is
 resumed

---
 cratermaker/core/simulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 665d813..1e2126e 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -59,7 +59,7 @@ class Simulation(CratermakerBase):
     reset : bool, optional
         Flag to indicate whether to reset the simulation or resume from an old simulation. If False, the simulation will attempt to load the previous state from the config file. Default is False if `ask_overwrite=False` and a config file is detected, otherwise default is True.
     do_counting : bool, optional
-        If True, the counting component will keep track of observable craters during the simulation. If False, emplaced craters that are large enoug to be observable are saved, but the observability of craters on the surface is not evaluated and observed craters are not tracked. Default is True.
+        If True, the counting component will keep track of observable craters during the simulation. If False, emplaced craters that are large enoug to be observable are saved, but the observability of craters on the surface is not evaluated and observed craters are not tracked. Default is True, or the saved value when resuming an old simulation.
     save_actions: list[dict[str, dict]], optional
         A dictionary of actions to perform when the save method is called. The keys are the names of the actions and the values are dictionaries of keyword arguments to pass to the corresponding component's save method. For example, if you want to automatically generate a hillshade plot every time the simulation is saved, you can pass `save_actions=[{"plot": {"plot_style": "hillshade", "cmap": "pink", "scalebar": True, "label": "Mars region simulation", "show": True, "save": True}}]`. This will call the surface's save method with the specified keyword arguments every time the simulation is saved. Default is to save a hillshade plot of the surface every time the simulation is saved. Set to None to disable or "default" to use the default save actions.
     **kwargs : Any
@@ -82,7 +82,7 @@ class Simulation(CratermakerBase):
         rng_state: dict | None = None,
         reset: bool = None,
         ask_overwrite: bool = True,
-        do_counting: bool = True,
+        do_counting: bool | None = None,
         save_actions: list[dict[str, dict]] | None | str = "default",
         **kwargs: Any,
     ):
@@ -223,7 +223,9 @@ class Simulation(CratermakerBase):
             **counting_config,
         )
 
-        morphology_config = {**morphology_config, **kwargs, "do_counting": do_counting}
+        morphology_config = {"do_counting": True, **morphology_config, **kwargs}
+        if do_counting is not None:
+            morphology_config["do_counting"] = do_counting
         self.morphology = Morphology.maker(
             self.morphology,
             surface=self.surface,
-- 
2.43.0


From baf52dfb33e7c88a98d8dc5a58c280155a730879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:29 +0000
Subject: [PATCH 17/53] fix: restore the saved random number generator state
 when a run is resumed

---
 cratermaker/core/base.py       | 7 ++++++-
 cratermaker/core/simulation.py | 9 +++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 2b561b7..bacf72d 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -770,6 +770,11 @@ class CratermakerBase:
 
     @rng_state.setter
     def rng_state(self, value):
+        if value is not None and self.rng is not None:
+            try:
+                self.rng.bit_generator.state = value
+            except Exception as e:
+                raise ValueError("Invalid rng_state provided.") from e
         _, self._rng_state = _rng_init(rng=self.rng, rng_seed=self.rng_seed, rng_state=value)
 
     @property
@@ -941,7 +946,7 @@ def _rng_init(
         if not isinstance(rng, Generator):
             raise ValueError("rng must be a numpy.random.Generator instance.")
     else:
-        if rng_seed is None:
+        if rng_seed is None or rng_state is not None:
             rng = np.random.default_rng()
         if rng_state is not None:
             if not isinstance(rng_state, dict):
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 1e2126e..a925209 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1,3 +1,4 @@
+import warnings
 from pathlib import Path
 from typing import Any, Literal
 
@@ -263,6 +264,14 @@ class Simulation(CratermakerBase):
 
         self.save_actions = save_actions
 
+        # Continue the random sequence where the saved run left off, unless the user asked for a different one
+        saved_state = saved_config.get("rng_state")
+        if rng is None and rng_seed is None and rng_state is None and saved_state is not None:
+            if saved_state.get("bit_generator") == type(self.rng.bit_generator).__name__:
+                self.rng_state = saved_state
+            else:
+                warnings.warn("The saved random number generator state cannot be restored", stacklevel=2)
+
         self.to_config()
 
         return
-- 
2.43.0


From e2307dd84f517380acbeedb146af5efeaaf5f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:29 +0000
Subject: [PATCH 18/53] fix: keep the saved save_actions when a run is resumed

---
 cratermaker/core/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index a925209..fda52a0 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -262,7 +262,8 @@ class Simulation(CratermakerBase):
             skip_components = ["surface"]
             self.reset(skip_component=skip_components)
 
-        self.save_actions = save_actions
+        if save_actions != "default" or "save_actions" not in saved_config:
+            self.save_actions = save_actions
 
         # Continue the random sequence where the saved run left off, unless the user asked for a different one
         saved_state = saved_config.get("rng_state")
-- 
2.43.0


From 4eaaab76c7e4fcf378e923ce290203c70891fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 19/53] fix: a scaling model created by a morphology uses the
 body of its surface

---
 cratermaker/components/morphology/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index ad7b963..6bf97e6 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -416,7 +416,11 @@ class Morphology(ComponentBase):
         else:
             self.counting = Counting.maker(counting, surface=self.surface, morphology=self, **kwargs)
 
-        self.scaling = Scaling.maker(scaling, **kwargs)
+        if isinstance(scaling, Scaling):
+            self.scaling = scaling
+        else:
+            # Be sure to use the associated Target object from the Surface object when initializing a new Scaling object
+            self.scaling = Scaling.maker(scaling, **{"target": self.surface.target, **kwargs})
 
         if do_counting is not None:
             if do_counting and self.counting is None:
-- 
2.43.0


From 2d35ea20ddafd7dcc720143d37933e35ccc88130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 20/53] fix: a production assigned by name to a morphology
 shares its random generator and body

---
 cratermaker/components/morphology/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index 6bf97e6..f57f3dd 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -821,7 +821,7 @@ class Morphology(ComponentBase):
         if isinstance(production, Production):
             self._production = production
         elif production is None or isinstance(production, str):
-            self._production = Production.maker(production)
+            self._production = Production.maker(production, target=self.surface.target, **vars(self.common_args))
         else:
             raise TypeError("production must be an instance of Production a string or None")
 
-- 
2.43.0


From 160061436f3515467085f3e7cc820a9bb97a989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 21/53] fix: a projectile assigned by name to a scaling model
 uses its body

---
 cratermaker/components/scaling/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/scaling/__init__.py b/cratermaker/components/scaling/__init__.py
index 4ee2d82..2d50281 100644
--- a/cratermaker/components/scaling/__init__.py
+++ b/cratermaker/components/scaling/__init__.py
@@ -158,7 +158,7 @@ class Scaling(ComponentBase):
     def projectile(self, value):
         from cratermaker.components.projectile import Projectile
 
-        self._projectile = Projectile.maker(value, **vars(self.common_args))
+        self._projectile = Projectile.maker(value, target=self.target, **vars(self.common_args))
         return
 
     @property
-- 
2.43.0


From a7892542c3ba80f19f27131ef4e1376e07b74971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:03 +0000
Subject: [PATCH 22/53] fix: a surface or counting assigned by name to a
 morphology uses its directory and random generator

---
 cratermaker/components/morphology/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index f57f3dd..a311bd9 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -804,7 +804,7 @@ class Morphology(ComponentBase):
         if isinstance(surface, Surface):
             self._surface = surface
         elif surface is None or isinstance(surface, str):
-            self._surface = Surface.maker(surface)
+            self._surface = Surface.maker(surface, **vars(self.common_args))
         else:
             raise TypeError("surface must be an instance of Surface, a string, or None")
         self._queue_manager: self.CraterQueueManager | None = None
@@ -838,7 +838,7 @@ class Morphology(ComponentBase):
         if isinstance(counting, Counting):
             self._counting = counting
         elif isinstance(counting, str):
-            self._counting = Counting.maker(counting, surface=self.surface, Crater=self.Crater)
+            self._counting = Counting.maker(counting, surface=self.surface, Crater=self.Crater, **vars(self.common_args))
         elif counting is None:
             self.do_counting = False
             self._counting = None
-- 
2.43.0


From 862b27139aa5d1ce6d183e99862118fcccada205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 23/53] fix: N_D given to a production is per unit of the
 conversion factor, as everywhere else

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index a82c294..621baa4 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -670,14 +670,14 @@ class Production(ComponentBase):
             if time_start is not None:
                 raise ValueError("Cannot provide both N_D and time_start")
             time_start = self.age_from_D_N(
-                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] * self.N_conversion_factor
+                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] / self.N_conversion_factor
             )
 
         if N_D_end is not None:
             if time_end is not None:
                 raise ValueError("Cannot provide both N_D_end and time_end")
             time_end = self.age_from_D_N(
-                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] * self.N_conversion_factor
+                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] / self.N_conversion_factor
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-- 
2.43.0


From 1fd915a706eeb20a6963b0f3fc58c6b21980471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 24/53] fix: diameter_number_end may use another diameter than
 diameter_number

---
 cratermaker/components/production/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 621baa4..4740e37 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -746,6 +746,8 @@ class Production(ComponentBase):
             # If not, we need to adjust the end diameter value it so that they match
             if diameter_number is not None:
                 if diameter_number_density_end[0] != diameter_number_density[0]:
+                    if time_end is None:
+                        time_end = self.age_from_D_N(*diameter_number_density_end)
                     diameter_number_density_end = (
                         diameter_number_density[0],
                         self.function(diameter=diameter_number_density[0], time_start=time_end),
-- 
2.43.0


From 4d143d2d84a0a3a797ef404ccac2f151950b0a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:26 +0000
Subject: [PATCH 25/53] fix: a crater made by a morphology model draws from the
 generator of that model

---
 cratermaker/components/morphology/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index a311bd9..125b151 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -174,6 +174,9 @@ class MorphologyCrater(Crater):
         from cratermaker.components.morphology import Morphology
 
         morphology = Morphology.maker(morphology, **kwargs)
+        # Unless told otherwise, draw any random properties from the generator of the morphology model
+        if all(kwargs.get(k) is None for k in ("rng", "rng_seed", "rng_state")):
+            kwargs = {**kwargs, **vars(morphology.common_args)}
         if relative_location is not None:
             if location is not None and check_redundant_inputs:
                 raise ValueError("Cannot provide both location and relative_location")
-- 
2.43.0


From 84db298b90ada1af546b17f4695b5d63ce28663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:37 +0000
Subject: [PATCH 26/53] fix: a sub-region of a high-resolution local surface
 shares the generator, directory and overwrite switch

---
 cratermaker/components/surface/hireslocal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index d49a930..b9db53b 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -1007,7 +1007,7 @@ class LocalHiResLocalSurface(LocalSurface):
         if region is None:
             return None
 
-        return LocalHiResLocalSurface(region)
+        return LocalHiResLocalSurface(region, **vars(self.common_args))
 
     @property
     def local_grid_indices_file(self) -> Path:
-- 
2.43.0


From 7fac3088e8e12fcbb41015ec22a8e44bbb922be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 27/53] fix: the overwrite question and floating-point error
 handling are put back when an operation fails

---
 cratermaker/components/counting/__init__.py   | 113 +++++++++---------
 cratermaker/components/surface/__init__.py    |  80 +++++++------
 cratermaker/components/surface/datasurface.py |  10 +-
 cratermaker/components/surface/hireslocal.py  |   6 +-
 cratermaker/core/simulation.py                |  82 +++++++------
 5 files changed, 151 insertions(+), 140 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a8b9e86..be0973b 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -529,65 +529,66 @@ class Counting(ComponentBase):
         ask_overwrite_orig = self.ask_overwrite
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
-        if crater_type not in ["observed", "emplaced", "both"]:
-            raise ValueError("crater_type must be 'observed', 'emplaced', or 'both")
-
-        observed, emplaced = self.read_saved_output(interval=interval)
-        if crater_type == "both":
-            crater_types = ["observed", "emplaced"]
-            crater_ds_list = [observed, emplaced]
-        else:
-            crater_types = [crater_type]
-            if crater_type == "observed":
-                crater_ds_list = [observed]
-            elif crater_type == "emplaced":
-                crater_ds_list = [emplaced]
+        try:
+            if crater_type not in ["observed", "emplaced", "both"]:
+                raise ValueError("crater_type must be 'observed', 'emplaced', or 'both")
 
-        for crater_type, crater_ds in zip(crater_types, crater_ds_list, strict=True):
-            if isinstance(crater_ds, dict):
-                interval_numbers = list(crater_ds.keys())
-            elif isinstance(crater_ds, xr.Dataset) and "interval" in crater_ds.coords:
-                interval_numbers = crater_ds.interval.values
+            observed, emplaced = self.read_saved_output(interval=interval)
+            if crater_type == "both":
+                crater_types = ["observed", "emplaced"]
+                crater_ds_list = [observed, emplaced]
             else:
-                if interval is None:
-                    interval_numbers = [0]
+                crater_types = [crater_type]
+                if crater_type == "observed":
+                    crater_ds_list = [observed]
+                elif crater_type == "emplaced":
+                    crater_ds_list = [emplaced]
+
+            for crater_type, crater_ds in zip(crater_types, crater_ds_list, strict=True):
+                if isinstance(crater_ds, dict):
+                    interval_numbers = list(crater_ds.keys())
+                elif isinstance(crater_ds, xr.Dataset) and "interval" in crater_ds.coords:
+                    interval_numbers = crater_ds.interval.values
                 else:
-                    interval_numbers = [interval]
-            for interval in interval_numbers:
-                craters = self.Crater.from_xarray(crater_ds, interval=interval) if crater_ds is not None else []
-                if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
-                    self.to_vtk_file(
-                        craters=craters,
-                        interval=interval,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() == "CSV" and crater_ds is not None:
-                    self.to_csv_file(
-                        craters=craters,
-                        interval=interval,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() == "SCC":
-                    if crater_ds is None:
-                        crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
-                    self.to_scc_file(
-                        craters=craters,
-                        interval=interval,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
-                    self.to_vector_file(
-                        craters=craters,
-                        interval=interval,
-                        crater_type=crater_type,
-                        driver=driver,
-                        **kwargs,
-                    )
-
-        self.ask_overwrite = ask_overwrite_orig
+                    if interval is None:
+                        interval_numbers = [0]
+                    else:
+                        interval_numbers = [interval]
+                for interval in interval_numbers:
+                    craters = self.Crater.from_xarray(crater_ds, interval=interval) if crater_ds is not None else []
+                    if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
+                        self.to_vtk_file(
+                            craters=craters,
+                            interval=interval,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() == "CSV" and crater_ds is not None:
+                        self.to_csv_file(
+                            craters=craters,
+                            interval=interval,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() == "SCC":
+                        if crater_ds is None:
+                            crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
+                        self.to_scc_file(
+                            craters=craters,
+                            interval=interval,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
+                        self.to_vector_file(
+                            craters=craters,
+                            interval=interval,
+                            crater_type=crater_type,
+                            driver=driver,
+                            **kwargs,
+                        )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
         return
 
     def plot(
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 436f0f1..c4415e7 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1096,16 +1096,17 @@ class Surface(ComponentBase):
         if regrid:
             self.ask_overwrite = False
 
-        # Read in only the last saved data file
-        uxds = self.read_saved_output(interval=interval, reset=reset, **kwargs)
-        if "interval" in uxds.dims:
-            uxds = uxds.isel(interval=-1)
-        object.__setattr__(self, "_uxds", uxds)
-
-        if reset:
-            self.reset(**kwargs)
+        try:
+            # Read in only the last saved data file
+            uxds = self.read_saved_output(interval=interval, reset=reset, **kwargs)
+            if "interval" in uxds.dims:
+                uxds = uxds.isel(interval=-1)
+            object.__setattr__(self, "_uxds", uxds)
 
-        self.ask_overwrite = ask_overwrite  # Restore in case we had to set it to False for the reset during regridding
+            if reset:
+                self.reset(**kwargs)
+        finally:
+            self.ask_overwrite = ask_overwrite  # Restore in case we had to set it to False for the reset during regridding
 
         return
 
@@ -1164,19 +1165,18 @@ class Surface(ComponentBase):
         Generate a tessellated mesh of a sphere of based on the particular Surface component that is being used.
         """
         # Ignore divide by zero warnings that occur due to matmul on some systems (e.g. MacOS with M4 chips). These warnings do not affect the functionality of the code, so we can safely ignore them.
-        orig_settings = np.seterr(divide="ignore", over="ignore", invalid="ignore")
-        points = self._generate_face_distribution(**kwargs)
+        with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
+            points = self._generate_face_distribution(**kwargs)
 
-        threshold = min(10 ** np.floor(np.log10(self.pix / self.radius)), 1e-7)
-        uxgrid = uxr.Grid.from_points(points, method="spherical_voronoi", threshold=threshold)
-        uxgrid.attrs["_id"] = self._id
-        self._write_grid_file(uxgrid=uxgrid)
+            threshold = min(10 ** np.floor(np.log10(self.pix / self.radius)), 1e-7)
+            uxgrid = uxr.Grid.from_points(points, method="spherical_voronoi", threshold=threshold)
+            uxgrid.attrs["_id"] = self._id
+            self._write_grid_file(uxgrid=uxgrid)
 
-        regrid = not self._is_same_grid
-        if regrid:
-            raise ValueError("Grid file does not match the expected parameters.")
-        self._compute_face_size(uxgrid)
-        np.seterr(**orig_settings)
+            regrid = not self._is_same_grid
+            if regrid:
+                raise ValueError("Grid file does not match the expected parameters.")
+            self._compute_face_size(uxgrid)
 
         return
 
@@ -2798,25 +2798,27 @@ class LocalSurface(CratermakerBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        if interval is not None:
-            self.surface.save(interval=interval, **kwargs, skip_actions=True)
-        if driver.upper() in ["VTK", "VTP"]:
-            self.to_vtk_file(
-                interval=interval,
-                **kwargs,
-            )
-        elif driver.upper() in ["GEOTIFF", "GTIFF", "TIFF", "TIF"]:
-            self.to_geotiff_file(
-                interval=interval,
-                **kwargs,
-            )
-        elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP:
-            self.to_vector_file(
-                driver=driver,
-                interval=interval,
-                **kwargs,
-            )
-        self.ask_overwrite = ask_overwrite_orig
+        try:
+            if interval is not None:
+                self.surface.save(interval=interval, **kwargs, skip_actions=True)
+            if driver.upper() in ["VTK", "VTP"]:
+                self.to_vtk_file(
+                    interval=interval,
+                    **kwargs,
+                )
+            elif driver.upper() in ["GEOTIFF", "GTIFF", "TIFF", "TIF"]:
+                self.to_geotiff_file(
+                    interval=interval,
+                    **kwargs,
+                )
+            elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP:
+                self.to_vector_file(
+                    driver=driver,
+                    interval=interval,
+                    **kwargs,
+                )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
         return
 
     def to_vector_file(
diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 69f997e..e4b346f 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -459,14 +459,12 @@ class DataSurface(HiResLocalSurface):
         from pyproj import Transformer
         from scipy.interpolate import LinearNDInterpolator
 
-        ask_overwrite = self.ask_overwrite
         # If we haven't cached global DEM samples yet, build the exterior lon/lat lists
         if self._global_dem_data is None:
             # This will trigger setting the file automatically from the superdomain_scale_factor if not already set.
             self.superdomain_dem_file = self._superdomain_dem_file
 
         if self._global_dem_data is None:
-            self.ask_overwrite = False
             self._global_dem_data = {}
 
             # Build index arrays for exterior faces/nodes (sorted for reproducibility)
@@ -536,9 +534,13 @@ class DataSurface(HiResLocalSurface):
         self.update_elevation(elevation)
 
         # Save so we can reload later without re-downloading / re-sampling the DEM
-        self.save(filename=self._dem_output_file, skip_actions=True)
+        ask_overwrite = self.ask_overwrite
+        self.ask_overwrite = False
+        try:
+            self.save(filename=self._dem_output_file, skip_actions=True)
+        finally:
+            self.ask_overwrite = ask_overwrite
         self._global_dem_data = None  # Clear temporary DEM data storage
-        self.ask_overwrite = ask_overwrite
         return
 
     @parameter
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index b9db53b..6f69d40 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -669,8 +669,10 @@ class HiResLocalSurface(Surface):
         else:
             _ = self.local  # triggers extraction of local surface and saving of local grid indices file
             self.ask_overwrite = False
-        if reset:
-            self.reset(reset=reset, **kwargs)
+        try:
+            if reset:
+                self.reset(reset=reset, **kwargs)
+        finally:
             self.ask_overwrite = ask_overwrite  # Restore the original value of ask_overwrite after the reset
         return
 
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index fda52a0..addd02f 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -945,29 +945,31 @@ class Simulation(CratermakerBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        if interval is not None and interval < 0:
-            interval = self.interval + 1 + interval
-        self.save(skip_actions=True, ask_overwrite=ask_overwrite, **kwargs)
-        if driver.lower() == "opencratertool":
-            surface_driver = "GeoTIFF"
-            counting_driver = "SCC"
-        else:
-            surface_driver = driver
-            counting_driver = driver
-        self.surface.export(
-            driver=surface_driver,
-            interval=interval,
-            ask_overwrite=ask_overwrite,
-            **kwargs,
-        )
+        try:
+            if interval is not None and interval < 0:
+                interval = self.interval + 1 + interval
+            self.save(skip_actions=True, ask_overwrite=ask_overwrite, **kwargs)
+            if driver.lower() == "opencratertool":
+                surface_driver = "GeoTIFF"
+                counting_driver = "SCC"
+            else:
+                surface_driver = driver
+                counting_driver = driver
+            self.surface.export(
+                driver=surface_driver,
+                interval=interval,
+                ask_overwrite=ask_overwrite,
+                **kwargs,
+            )
 
-        self.counting.export(
-            driver=counting_driver,
-            interval=interval,
-            ask_overwrite=ask_overwrite,
-            **kwargs,
-        )
-        self.ask_overwrite = ask_overwrite_orig
+            self.counting.export(
+                driver=counting_driver,
+                interval=interval,
+                ask_overwrite=ask_overwrite,
+                **kwargs,
+            )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
 
         return
 
@@ -1374,25 +1376,27 @@ class Simulation(CratermakerBase):
         ask_overwrite_original = (
             self.ask_overwrite
         )  # Saves the value of ask_overwrite in case the user selects 'a' for this operation
-        if self.ask_overwrite:
-            files_to_remove = []
+        try:
+            if self.ask_overwrite:
+                files_to_remove = []
+                for component in _COMPONENT_NAMES:
+                    if component not in skip_component and hasattr(self, component):
+                        files_to_remove += getattr(self, component).saved_output_files()
+                if len(files_to_remove) > 0:
+                    print("The following files will be deleted:")
+                    for f in files_to_remove:
+                        print(f"  {f}")
+                    print("To disable this message, set `ask_overwrite=False` to this instance.")
+                    response = input(f"Are you sure you want to delete {len(files_to_remove)} files? [y/N/a]: ")
+                    if response.lower() == "a":
+                        self.ask_overwrite = False
+                    elif response.lower() != "y":
+                        raise RuntimeError("User aborted the reset operation.")
             for component in _COMPONENT_NAMES:
                 if component not in skip_component and hasattr(self, component):
-                    files_to_remove += getattr(self, component).saved_output_files()
-            if len(files_to_remove) > 0:
-                print("The following files will be deleted:")
-                for f in files_to_remove:
-                    print(f"  {f}")
-                print("To disable this message, set `ask_overwrite=False` to this instance.")
-                response = input(f"Are you sure you want to delete {len(files_to_remove)} files? [y/N/a]: ")
-                if response.lower() == "a":
-                    self.ask_overwrite = False
-                elif response.lower() != "y":
-                    raise RuntimeError("User aborted the reset operation.")
-        for component in _COMPONENT_NAMES:
-            if component not in skip_component and hasattr(self, component):
-                getattr(self, component).reset()
-        self.ask_overwrite = ask_overwrite_original
+                    getattr(self, component).reset()
+        finally:
+            self.ask_overwrite = ask_overwrite_original
 
         self._interval = 0
         self._elapsed_time = None
-- 
2.43.0


From 068079ba58f03c5fc62df8abbc8ada1bc2e53675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:38 +0000
Subject: [PATCH 28/53] fix: saved files are replaced only when the new version
 is complete

---
 cratermaker/components/counting/__init__.py  | 10 ++++++---
 cratermaker/components/surface/__init__.py   | 22 ++++++++------------
 cratermaker/components/surface/hireslocal.py | 19 ++++++++++-------
 cratermaker/core/simulation.py               | 10 +++++++--
 4 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index be0973b..7d6cefa 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import os
+import tempfile
 from abc import abstractmethod
 from collections.abc import Callable
 from pathlib import Path
@@ -490,9 +492,11 @@ class Counting(ComponentBase):
                 if time_variables is not None:
                     for k, v in time_variables.items():
                         ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
-                if filename.exists():
-                    filename.unlink()
-                ds.to_netcdf(filename)
+                # Replace the previous file only when the new one is complete
+                with tempfile.TemporaryDirectory(dir=filename.parent, ignore_cleanup_errors=True) as temp_dir:
+                    temp_file = Path(temp_dir) / filename.name
+                    ds.to_netcdf(temp_file)
+                    os.replace(temp_file, filename)
         save_args = {"interval": interval, **kwargs}
         super().save(**save_args)
         return
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index c4415e7..92c03b9 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 import hashlib
 import os
-import shutil
 import tempfile
 import warnings
 from abc import abstractmethod
@@ -1132,9 +1131,8 @@ class Surface(ComponentBase):
         else:
             grid_file = Path(grid_file)
 
-        grid_file.unlink(missing_ok=True)
-
-        with tempfile.NamedTemporaryFile(delete=False) as temp_file:
+        with tempfile.TemporaryDirectory(dir=grid_file.parent, ignore_cleanup_errors=True) as temp_dir:
+            temp_file = Path(temp_dir) / grid_file.name
             ds = uxgrid.to_xarray()
 
             # There is some issue that is causing a mismatch between the data variables and the grid_topology attributes that is causing problems when reading the file back in under some circumstances, such as deleting the grid file and reinitializing the surface. To get around this, we will check that all of the attributes are correct before writing the file.
@@ -1151,12 +1149,10 @@ class Surface(ComponentBase):
                         del ds.grid_topology.attrs["face_coordinates"]
                         break
 
-            ds.to_netcdf(temp_file.name)
-            temp_file.flush()
-            os.fsync(temp_file.fileno())
+            ds.to_netcdf(temp_file)
 
-        # Replace the original file only if writing succeeded
-        shutil.move(temp_file.name, grid_file)
+            # Replace the original file only if writing succeeded
+            os.replace(temp_file, grid_file)
 
         return
 
@@ -1264,8 +1260,8 @@ class Surface(ComponentBase):
             filename = self.output_filename(interval)
         else:
             filename = Path(filename)
-        with tempfile.TemporaryDirectory(ignore_cleanup_errors=True, **kwargs) as temp_dir:
-            data_file = self.output_dir / filename
+        data_file = self.output_dir / filename
+        with tempfile.TemporaryDirectory(dir=data_file.parent, ignore_cleanup_errors=True, **kwargs) as temp_dir:
             if data_file.exists():
                 with xr.open_mfdataset(data_file) as ds_old:
                     ds_old = ds_old.load()
@@ -1273,14 +1269,14 @@ class Surface(ComponentBase):
             else:
                 ds_file = ds
 
-            temp_file = Path(temp_dir) / filename
+            temp_file = Path(temp_dir) / data_file.name
 
             comp = {"zlib": True, "complevel": 9}
             encoding = dict.fromkeys(ds_file.data_vars, comp)
             ds_file.to_netcdf(temp_file, encoding=encoding, **kwargs)
             ds_file.close()
             ds.close()
-            shutil.move(temp_file, data_file)
+            os.replace(temp_file, data_file)
 
         return
 
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 6f69d40..1a2820b 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import os
 import tempfile
 import warnings
 from pathlib import Path
@@ -713,14 +714,16 @@ class HiResLocalSurface(Surface):
         if self._local is None:
             self._local = self.extract_region(location=self.local_location, region_radius=self.local_radius)
             self.local.grid_file.unlink(missing_ok=True)
-            self.local_grid_indices_file.unlink(missing_ok=True)
-            np.savez_compressed(
-                file=self.local_grid_indices_file,
-                face_indices=self.local.face_indices,
-                node_indices=self.local.node_indices,
-                edge_indices=self.local.edge_indices,
-                allow_pickle=False,
-            )
+            with tempfile.TemporaryDirectory(dir=self.local_grid_indices_file.parent, ignore_cleanup_errors=True) as temp_dir:
+                temp_file = Path(temp_dir) / self.local_grid_indices_file.name
+                np.savez_compressed(
+                    file=temp_file,
+                    face_indices=self.local.face_indices,
+                    node_indices=self.local.node_indices,
+                    edge_indices=self.local.edge_indices,
+                    allow_pickle=False,
+                )
+                os.replace(temp_file, self.local_grid_indices_file)
             self._set_local_identifiers()
 
         return self._local
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index addd02f..4175d27 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1,3 +1,5 @@
+import os
+import tempfile
 import warnings
 from pathlib import Path
 from typing import Any, Literal
@@ -1349,8 +1351,12 @@ class Simulation(CratermakerBase):
 
         # Write the combined configuration to a YAML file
         if save_to_file and not self._config_readonly:
-            with Path.open(self.config_file, "w") as f:
-                yaml.safe_dump(sim_config, f, indent=4)
+            # Replace the previous file only when the new one is complete
+            with tempfile.TemporaryDirectory(dir=self.config_file.parent, ignore_cleanup_errors=True) as temp_dir:
+                temp_file = Path(temp_dir) / self.config_file.name
+                with Path.open(temp_file, "w") as f:
+                    yaml.safe_dump(sim_config, f, indent=4)
+                os.replace(temp_file, self.config_file)
 
         return sim_config
 
-- 
2.43.0


From 2382efcadf9ddcc2922e5e1be20c13355ba0e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:01 +0000
Subject: [PATCH 29/53] fix: a resumed run keeps its saved configuration up to
 date

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 4175d27..054df33 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -275,6 +275,8 @@ class Simulation(CratermakerBase):
             else:
                 warnings.warn("The saved random number generator state cannot be restored", stacklevel=2)
 
+        # From here on the configuration follows the simulation, also when it was resumed
+        object.__setattr__(self, "_config_readonly", False)
         self.to_config()
 
         return
-- 
2.43.0


From 576fdf3b53f73b22dd2fd52de61f9bc0fa973458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:23 +0000
Subject: [PATCH 30/53] fix: the state of a run is written to the configuration
 after the data it describes

---
 cratermaker/core/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 054df33..8e9a3af 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -321,6 +321,9 @@ class Simulation(CratermakerBase):
         super().__setattr__(name, value)
         if name not in self._user_defined:
             return
+        # The state of the run is written by save(), after the data it describes
+        if name in ("interval", "time", "elapsed_time", "elapsed_n1"):
+            return
         # Avoid recursive calls during initialization or early access
         if (
             not self._config_readonly
-- 
2.43.0


From 33c75ee5e57d9e9967ff621256cd3f729f74a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:25 +0000
Subject: [PATCH 31/53] fix: export a dict of craters without touching an
 unassigned variable

---
 cratermaker/components/counting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 7d6cefa..3030399 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -981,7 +981,7 @@ class Counting(ComponentBase):
                     interval, []
                 )  # Get the dataset for the specified interval, or an empty dataset if not found
             else:
-                return list(crater_ds.values())  # like observed dicts keyed by crater id
+                return list(craters.values())  # like observed dicts keyed by crater id
 
         if isinstance(craters, dict):
             craters = list(craters.values())
-- 
2.43.0


From 93a5fd94d961a6b8f7f52cbbb14cd4bbff602588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:25 +0000
Subject: [PATCH 32/53] fix: dir() of a crater reads the existing parts of the
 crater

---
 cratermaker/components/crater/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index a1ffce6..b545eab 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -506,8 +506,8 @@ class Crater(ComponentBase):
         Expose delegated attributes for autocomplete/introspection.
         """
         base = set(super().__dir__())
-        base.update(dir(self.fixed))
-        base.update(dir(self.var))
+        base.update(dir(self._fixed))
+        base.update(dir(self._var))
         return sorted(base)
 
     def __str__(self):
-- 
2.43.0


From 4b8d6e5e400246ac32053ef07583e766689f480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:25 +0000
Subject: [PATCH 33/53] fix: Surface.to_geotiff_file calls the method that
 exists

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 92c03b9..1ea70f9 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -789,7 +789,7 @@ class Surface(ComponentBase):
         **kwargs : Any
             |kwargs|
         """
-        return self._full().to_geotiff(
+        return self._full().to_geotiff_file(
             interval=interval,
             variable_name=variable_name,
             **kwargs,
-- 
2.43.0


From 5be9ed39cc8fbe35fc378cb6c069125210f11db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:25 +0000
Subject: [PATCH 34/53] fix: read time variables of one interval from a
 dictionary of datasets

---
 cratermaker/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index bacf72d..77cd757 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -369,7 +369,7 @@ class CratermakerBase:
                         tda.append(extract_time_vars_from_ds(d))
                     tda = xr.concat(tda, dim="interval", coords="all", compat="override")
                 else:
-                    tda = extract_time_vars_from_ds(d, interval)
+                    tda = extract_time_vars_from_ds(ds[interval], interval)
             else:
                 tda = extract_time_vars_from_ds(ds, interval)
             output_time_vars.append(tda)
-- 
2.43.0


From 9a297c33342aa8c767652b8bfaa841adcd820952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:25 +0000
Subject: [PATCH 35/53] fix: set the local projections of a HiResLocalSurface
 without a missing attribute

---
 cratermaker/components/surface/hireslocal.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 1a2820b..7ac3ff2 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -498,16 +498,14 @@ class HiResLocalSurface(Surface):
         """
         Set the face projection for the local surface.
         """
-        if self.is_local:
-            self.local.set_face_proj()
+        self.local.set_face_proj()
         return
 
     def set_node_proj(self):
         """
         Set the node projection for the local surface.
         """
-        if self.is_local:
-            self.local.set_node_proj()
+        self.local.set_node_proj()
         return
 
     def _rotate_point_cloud(self, points):
-- 
2.43.0


From 85e30fa4cce4cfb4fc3ce1e50a4c299cf1d6af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 36/53] fix: tally craters in a region without a missing name

---
 cratermaker/components/counting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 3030399..46fcae4 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -348,6 +348,8 @@ class Counting(ComponentBase):
         .. [#] Minton, D.A., Fassett, C.I., Hirabayashi, M., Howl, B.A., Richardson, J.E., (2019). The equilibrium size-frequency distribution of small craters reveals the effects of distal ejecta on lunar landscape morphology. Icarus 326, 63-87. `doi: 10.1016/j.icarus.2019.02.021 <https://doi.org/10.1016/j.icarus.2019.02.021>`_
 
         """
+        from cratermaker.components.surface import LocalSurface
+
         if region is None:
             region = self.surface
             if hasattr(self.surface, "crater_id"):
-- 
2.43.0


From 948c95d190128d81d12a30d70f19f72b73d19baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 37/53] fix: report an unknown crater file extension

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index b545eab..86fab48 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1254,6 +1254,8 @@ class Crater(ComponentBase):
             craters = cls.from_csv_file(filename, **kwargs)
         elif extension == "scc":
             craters = cls.from_scc_file(filename, **kwargs)
+        else:
+            raise ValueError(f"Unrecognized crater file extension '{filename.suffix}'. Must be one of .nc, .csv, or .scc")
         return craters
 
     @classmethod
-- 
2.43.0


From 39f62cd1fd4c5789e10f1d861e41bbe1a062ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 38/53] fix: give the power spectral density helpers the crater
 they need

---
 .../components/morphology/realisticmoon.py    | 74 ++++++++++---------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/cratermaker/components/morphology/realisticmoon.py b/cratermaker/components/morphology/realisticmoon.py
index c4290ad..6860f9d 100644
--- a/cratermaker/components/morphology/realisticmoon.py
+++ b/cratermaker/components/morphology/realisticmoon.py
@@ -35,7 +35,7 @@ class RealisticMoonMorphology(BasicMoonMorphology):
     def __init__(self, **kwargs: Any):
         super().__init__(**kwargs)
 
-    def _get_1D_power_spectral_density(self, feature, psd_coef, num_psd_component_effec=100) -> NDArray:
+    def _get_1D_power_spectral_density(self, crater, feature, psd_coef, num_psd_component_effec=100) -> NDArray:
         """
         Construct a 1D power spectral density.
 
@@ -43,6 +43,8 @@ class RealisticMoonMorphology(BasicMoonMorphology):
 
         Parameters
         ----------
+        crater : Crater
+            The crater the power spectral density is for
         feature : string
             For a 1D feature, choose from ejecta, rim, and floor
         psd_coef : dict (.json)
@@ -65,35 +67,35 @@ class RealisticMoonMorphology(BasicMoonMorphology):
         # ------------------------------------------------------------------------------------------------------------------
         num_psd_component = 5000
         # ------------------------------------------------------------------------------------------------------------------
-        if self.crater.diameter < psd_coef["1D"][feature]["slope_12"]["D_tie"]:
-            slope_12 = psd_coef["1D"][feature]["slope_12"]["k1"] * self.crater.diameter + psd_coef["1D"][feature]["slope_12"]["b1"]
+        if crater.diameter < psd_coef["1D"][feature]["slope_12"]["D_tie"]:
+            slope_12 = psd_coef["1D"][feature]["slope_12"]["k1"] * crater.diameter + psd_coef["1D"][feature]["slope_12"]["b1"]
             slope_12_sigma = psd_coef["1D"][feature]["slope_12"]["sigma_1"]
         else:
-            slope_12 = psd_coef["1D"][feature]["slope_12"]["k2"] * self.crater.diameter + psd_coef["1D"][feature]["slope_12"]["b2"]
+            slope_12 = psd_coef["1D"][feature]["slope_12"]["k2"] * crater.diameter + psd_coef["1D"][feature]["slope_12"]["b2"]
             slope_12_sigma = psd_coef["1D"][feature]["slope_12"]["sigma_2"]
-        if self.crater.diameter < psd_coef["1D"][feature]["bp2_x"]["D_tie"]:
-            bp2_x = psd_coef["1D"][feature]["bp2_x"]["k1"] * self.crater.diameter + psd_coef["1D"][feature]["bp2_x"]["b1"]
+        if crater.diameter < psd_coef["1D"][feature]["bp2_x"]["D_tie"]:
+            bp2_x = psd_coef["1D"][feature]["bp2_x"]["k1"] * crater.diameter + psd_coef["1D"][feature]["bp2_x"]["b1"]
             bp2_x_sigma = psd_coef["1D"][feature]["bp2_x"]["sigma_1"]
         else:
-            bp2_x = psd_coef["1D"][feature]["bp2_x"]["k2"] * self.crater.diameter + psd_coef["1D"][feature]["bp2_x"]["b2"]
+            bp2_x = psd_coef["1D"][feature]["bp2_x"]["k2"] * crater.diameter + psd_coef["1D"][feature]["bp2_x"]["b2"]
             bp2_x_sigma = psd_coef["1D"][feature]["bp2_x"]["sigma_2"]
-        if self.crater.diameter < psd_coef["1D"][feature]["bp2_y"]["D_tie"]:
-            bp2_y = psd_coef["1D"][feature]["bp2_y"]["k1"] * self.crater.diameter + psd_coef["1D"][feature]["bp2_y"]["b1"]
+        if crater.diameter < psd_coef["1D"][feature]["bp2_y"]["D_tie"]:
+            bp2_y = psd_coef["1D"][feature]["bp2_y"]["k1"] * crater.diameter + psd_coef["1D"][feature]["bp2_y"]["b1"]
             bp2_y_sigma = psd_coef["1D"][feature]["bp2_y"]["sigma_1"]
         else:
-            bp2_y = psd_coef["1D"][feature]["bp2_y"]["k2"] * self.crater.diameter + psd_coef["1D"][feature]["bp2_y"]["b2"]
+            bp2_y = psd_coef["1D"][feature]["bp2_y"]["k2"] * crater.diameter + psd_coef["1D"][feature]["bp2_y"]["b2"]
             bp2_y_sigma = psd_coef["1D"][feature]["bp2_y"]["sigma_2"]
-        if self.crater.diameter < psd_coef["1D"][feature]["bp3_y"]["D_tie"]:
-            bp3_y = psd_coef["1D"][feature]["bp3_y"]["k1"] * self.crater.diameter + psd_coef["1D"][feature]["bp3_y"]["b1"]
+        if crater.diameter < psd_coef["1D"][feature]["bp3_y"]["D_tie"]:
+            bp3_y = psd_coef["1D"][feature]["bp3_y"]["k1"] * crater.diameter + psd_coef["1D"][feature]["bp3_y"]["b1"]
             bp3_y_sigma = psd_coef["1D"][feature]["bp3_y"]["sigma_1"]
         else:
-            bp3_y = psd_coef["1D"][feature]["bp3_y"]["k2"] * self.crater.diameter + psd_coef["1D"][feature]["bp3_y"]["b2"]
+            bp3_y = psd_coef["1D"][feature]["bp3_y"]["k2"] * crater.diameter + psd_coef["1D"][feature]["bp3_y"]["b2"]
             bp3_y_sigma = psd_coef["1D"][feature]["bp3_y"]["sigma_2"]
-        if self.crater.diameter < psd_coef["1D"][feature]["bp4_y"]["D_tie"]:
-            bp4_y = psd_coef["1D"][feature]["bp4_y"]["k1"] * self.crater.diameter + psd_coef["1D"][feature]["bp4_y"]["b1"]
+        if crater.diameter < psd_coef["1D"][feature]["bp4_y"]["D_tie"]:
+            bp4_y = psd_coef["1D"][feature]["bp4_y"]["k1"] * crater.diameter + psd_coef["1D"][feature]["bp4_y"]["b1"]
             bp4_y_sigma = psd_coef["1D"][feature]["bp4_y"]["sigma_1"]
         else:
-            bp4_y = psd_coef["1D"][feature]["bp4_y"]["k2"] * self.crater.diameter + psd_coef["1D"][feature]["bp4_y"]["b2"]
+            bp4_y = psd_coef["1D"][feature]["bp4_y"]["k2"] * crater.diameter + psd_coef["1D"][feature]["bp4_y"]["b2"]
             bp4_y_sigma = psd_coef["1D"][feature]["bp4_y"]["sigma_2"]
         slope_12 = self.rng.normal(slope_12, slope_12_sigma)
         bp2_x = self.rng.normal(bp2_x, bp2_x_sigma)
@@ -129,7 +131,7 @@ class RealisticMoonMorphology(BasicMoonMorphology):
         return psd
 
     def _get_2D_power_spectral_density(
-        self, feature, psd_coef, ejecta_radius_norm, floor_radius_norm, max_effec_freq
+        self, crater, feature, psd_coef, ejecta_radius_norm, floor_radius_norm, max_effec_freq
     ) -> tuple[NDArray, NDArray, NDArray, NDArray, NDArray, NDArray]:
         """
         Constructs a 2D power spectral density.
@@ -138,6 +140,8 @@ class RealisticMoonMorphology(BasicMoonMorphology):
 
         Parameters
         ----------
+        crater : Crater
+            The crater the power spectral density is for
         feature : string
             For a 2D feature, choose from ejecta, wall, and floor
         psd_coef : dict (.json)
@@ -200,32 +204,32 @@ class RealisticMoonMorphology(BasicMoonMorphology):
         freq_theta_quadrant = freq_theta[r_number // 2 :, theta_number // 2 :]
         freq_r_quadrant = freq_r[r_number // 2 :, theta_number // 2 :]
         # ------------------------------------------------------------------------------------------------------------------
-        if self.crater.diameter < psd_coef["2D"][feature]["p_max"]["D_tie"]:
-            p_max = psd_coef["2D"][feature]["p_max"]["k1"] * self.crater.diameter + psd_coef["2D"][feature]["p_max"]["b1"]
+        if crater.diameter < psd_coef["2D"][feature]["p_max"]["D_tie"]:
+            p_max = psd_coef["2D"][feature]["p_max"]["k1"] * crater.diameter + psd_coef["2D"][feature]["p_max"]["b1"]
             p_max_sigma = psd_coef["2D"][feature]["p_max"]["sigma_1"]
         else:
-            p_max = psd_coef["2D"][feature]["p_max"]["k2"] * self.crater.diameter + psd_coef["2D"][feature]["p_max"]["b2"]
+            p_max = psd_coef["2D"][feature]["p_max"]["k2"] * crater.diameter + psd_coef["2D"][feature]["p_max"]["b2"]
             p_max_sigma = psd_coef["2D"][feature]["p_max"]["sigma_2"]
-        if self.crater.diameter < psd_coef["2D"][feature]["p_diff"]["D_tie"]:
-            p_diff = psd_coef["2D"][feature]["p_diff"]["k1"] * self.crater.diameter + psd_coef["2D"][feature]["p_diff"]["b1"]
+        if crater.diameter < psd_coef["2D"][feature]["p_diff"]["D_tie"]:
+            p_diff = psd_coef["2D"][feature]["p_diff"]["k1"] * crater.diameter + psd_coef["2D"][feature]["p_diff"]["b1"]
             p_diff_sigma = psd_coef["2D"][feature]["p_diff"]["sigma_1"]
         else:
-            p_diff = psd_coef["2D"][feature]["p_diff"]["k2"] * self.crater.diameter + psd_coef["2D"][feature]["p_diff"]["b2"]
+            p_diff = psd_coef["2D"][feature]["p_diff"]["k2"] * crater.diameter + psd_coef["2D"][feature]["p_diff"]["b2"]
             p_diff_sigma = psd_coef["2D"][feature]["p_diff"]["sigma_2"]
-        if self.crater.diameter < psd_coef["2D"][feature]["nu_fall"]["D_tie"]:
-            nu_fall = psd_coef["2D"][feature]["nu_fall"]["k1"] * self.crater.diameter + psd_coef["2D"][feature]["nu_fall"]["b1"]
+        if crater.diameter < psd_coef["2D"][feature]["nu_fall"]["D_tie"]:
+            nu_fall = psd_coef["2D"][feature]["nu_fall"]["k1"] * crater.diameter + psd_coef["2D"][feature]["nu_fall"]["b1"]
             nu_fall_sigma = psd_coef["2D"][feature]["nu_fall"]["sigma_1"]
         else:
-            nu_fall = psd_coef["2D"][feature]["nu_fall"]["k2"] * self.crater.diameter + psd_coef["2D"][feature]["nu_fall"]["b2"]
+            nu_fall = psd_coef["2D"][feature]["nu_fall"]["k2"] * crater.diameter + psd_coef["2D"][feature]["nu_fall"]["b2"]
             nu_fall_sigma = psd_coef["2D"][feature]["nu_fall"]["sigma_2"]
-        if self.crater.diameter < psd_coef["2D"][feature]["psd_sigma"]["D_tie"]:
+        if crater.diameter < psd_coef["2D"][feature]["psd_sigma"]["D_tie"]:
             psd_sigma = (
-                psd_coef["2D"][feature]["psd_sigma"]["k1"] * self.crater.diameter + psd_coef["2D"][feature]["psd_sigma"]["b1"]
+                psd_coef["2D"][feature]["psd_sigma"]["k1"] * crater.diameter + psd_coef["2D"][feature]["psd_sigma"]["b1"]
             )
             psd_sigma_sigma = psd_coef["2D"][feature]["psd_sigma"]["sigma_1"]
         else:
             psd_sigma = (
-                psd_coef["2D"][feature]["psd_sigma"]["k2"] * self.crater.diameter + psd_coef["2D"][feature]["psd_sigma"]["b2"]
+                psd_coef["2D"][feature]["psd_sigma"]["k2"] * crater.diameter + psd_coef["2D"][feature]["psd_sigma"]["b2"]
             )
             psd_sigma_sigma = psd_coef["2D"][feature]["psd_sigma"]["sigma_2"]
         p_max = self.rng.normal(p_max, p_max_sigma)
@@ -236,11 +240,11 @@ class RealisticMoonMorphology(BasicMoonMorphology):
         freq_r_matrix = np.sqrt(freq_theta_quadrant**2 + freq_r_quadrant**2)
         freq_theta_matrix = np.arctan2(freq_r_quadrant, freq_theta_quadrant)
         if feature == "ejecta":
-            if self.crater.diameter < psd_coef["2D"][feature]["E_rad"]["D_tie"]:
-                E_rad = psd_coef["2D"][feature]["E_rad"]["k1"] * self.crater.diameter + psd_coef["2D"][feature]["E_rad"]["b1"]
+            if crater.diameter < psd_coef["2D"][feature]["E_rad"]["D_tie"]:
+                E_rad = psd_coef["2D"][feature]["E_rad"]["k1"] * crater.diameter + psd_coef["2D"][feature]["E_rad"]["b1"]
                 E_rad_sigma = psd_coef["2D"][feature]["E_rad"]["sigma_1"]
             else:
-                E_rad = psd_coef["2D"][feature]["E_rad"]["k2"] * self.crater.diameter + psd_coef["2D"][feature]["E_rad"]["b2"]
+                E_rad = psd_coef["2D"][feature]["E_rad"]["k2"] * crater.diameter + psd_coef["2D"][feature]["E_rad"]["b2"]
                 E_rad_sigma = psd_coef["2D"][feature]["E_rad"]["sigma_2"]
             E_rad = self.rng.normal(E_rad, E_rad_sigma)
             psd_log_quadrant = (
@@ -248,11 +252,11 @@ class RealisticMoonMorphology(BasicMoonMorphology):
                 + p_max
             )
         if feature == "wall":
-            if self.crater.diameter < psd_coef["2D"][feature]["E_circ"]["D_tie"]:
-                E_circ = psd_coef["2D"][feature]["E_circ"]["k1"] * self.crater.diameter + psd_coef["2D"][feature]["E_circ"]["b1"]
+            if crater.diameter < psd_coef["2D"][feature]["E_circ"]["D_tie"]:
+                E_circ = psd_coef["2D"][feature]["E_circ"]["k1"] * crater.diameter + psd_coef["2D"][feature]["E_circ"]["b1"]
                 E_circ_sigma = psd_coef["2D"][feature]["E_circ"]["sigma_1"]
             else:
-                E_circ = psd_coef["2D"][feature]["E_circ"]["k2"] * self.crater.diameter + psd_coef["2D"][feature]["E_circ"]["b2"]
+                E_circ = psd_coef["2D"][feature]["E_circ"]["k2"] * crater.diameter + psd_coef["2D"][feature]["E_circ"]["b2"]
                 E_circ_sigma = psd_coef["2D"][feature]["E_circ"]["sigma_2"]
             E_circ = self.rng.normal(E_circ, E_circ_sigma)
             psd_log_quadrant = (
-- 
2.43.0


From d98d0f27994d1e8e589253f175da3ea3491fd88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 39/53] fix: plot a list of craters

---
 cratermaker/components/counting/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 46fcae4..41ae063 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -916,6 +916,13 @@ class Counting(ComponentBase):
                 measured = [False]
                 toggle = ["t"]
                 crater_color = [crater_color[-1]]
+        else:
+            craterlistlist = [list(crater_type)]
+            crater_type = "craters"
+            namelist = ["selected"]
+            measured = [False]
+            toggle = ["c"]
+            crater_color = [crater_color[0]]
 
         if enable_interactive:
             styles = valid_crater_styles
-- 
2.43.0


From 4cab9cdbdfd83821061999d68b91cefcc1c318c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 40/53] fix: sample the global DEM again after a failed attempt

---
 cratermaker/components/surface/datasurface.py | 115 +++++++++---------
 1 file changed, 57 insertions(+), 58 deletions(-)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index e4b346f..08cff97 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -464,64 +464,63 @@ class DataSurface(HiResLocalSurface):
             # This will trigger setting the file automatically from the superdomain_scale_factor if not already set.
             self.superdomain_dem_file = self._superdomain_dem_file
 
-        if self._global_dem_data is None:
-            self._global_dem_data = {}
-
-            # Build index arrays for exterior faces/nodes (sorted for reproducibility)
-            exterior_face_ind = np.array(sorted(set(range(self.n_face)) - set(self.local.face_indices)), dtype=int)
-            exterior_node_ind = np.array(sorted(set(range(self.n_node)) - set(self.local.node_indices)), dtype=int)
-
-            # Cache exterior point coordinates in geodetic lon/lat (degrees)
-            self._global_dem_data["face_indices"] = exterior_face_ind
-            self._global_dem_data["node_indices"] = exterior_node_ind
-            self._global_dem_data["face_longitudes"] = np.asarray(self.face_lon)[exterior_face_ind]
-            self._global_dem_data["face_latitudes"] = np.asarray(self.face_lat)[exterior_face_ind]
-            self._global_dem_data["node_longitudes"] = np.asarray(self.node_lon)[exterior_node_ind]
-            self._global_dem_data["node_latitudes"] = np.asarray(self.node_lat)[exterior_node_ind]
-
-            # Read and sample the global DEM at those exterior points.
-            print("Reading global DEM file:")
-            print(f"  {self.superdomain_dem_file}")
-            with rasterio.open(self.superdomain_dem_file) as dataset:
-                if dataset.crs is None:
-                    raise ValueError("Global DEM has no CRS; cannot sample elevations.")
-
-                # Transform from geodetic lon/lat (self.crs) into the DEM's CRS
-                to_dem = Transformer.from_crs(self.crs, dataset.crs, always_xy=True)
-
-                # Determine unit scaling (match local DEM logic)
-                units = getattr(dataset, "units", "") or ""
-                if isinstance(units, (list, tuple, ArrayLike)):
-                    units = units[0] if len(units) else ""
-                scale_factor = 1000.0 if "KILOMETER" in str(units).upper() else 1.0
-
-                nodata = dataset.nodata
-
-                def _sample(lons_deg: NDArray, lats_deg: NDArray) -> NDArray:
-                    xs, ys = to_dem.transform(lons_deg, lats_deg)
-                    # rasterio.sample expects an iterable of (x, y)
-                    samples = np.fromiter(
-                        (v[0] for v in dataset.sample(zip(xs, ys, strict=False))),
-                        dtype=np.float32,
-                        count=len(lons_deg),
-                    )
-                    samples = samples.astype(np.float32) * scale_factor
-
-                    # Replace nodata / NaN with mean of valid samples
-                    if nodata is None or np.isnan(nodata):
-                        valid = np.isfinite(samples)
-                    else:
-                        valid = np.isfinite(samples) & (samples != nodata)
-
-                    if np.any(valid):
-                        mean_val = float(np.mean(samples[valid]))
-                    else:
-                        mean_val = 0.0
-                    samples[~valid] = mean_val
-                    return samples
-
-                face_samples = _sample(self._global_dem_data["face_longitudes"], self._global_dem_data["face_latitudes"])
-                node_samples = _sample(self._global_dem_data["node_longitudes"], self._global_dem_data["node_latitudes"])
+        self._global_dem_data = {}
+
+        # Build index arrays for exterior faces/nodes (sorted for reproducibility)
+        exterior_face_ind = np.array(sorted(set(range(self.n_face)) - set(self.local.face_indices)), dtype=int)
+        exterior_node_ind = np.array(sorted(set(range(self.n_node)) - set(self.local.node_indices)), dtype=int)
+
+        # Cache exterior point coordinates in geodetic lon/lat (degrees)
+        self._global_dem_data["face_indices"] = exterior_face_ind
+        self._global_dem_data["node_indices"] = exterior_node_ind
+        self._global_dem_data["face_longitudes"] = np.asarray(self.face_lon)[exterior_face_ind]
+        self._global_dem_data["face_latitudes"] = np.asarray(self.face_lat)[exterior_face_ind]
+        self._global_dem_data["node_longitudes"] = np.asarray(self.node_lon)[exterior_node_ind]
+        self._global_dem_data["node_latitudes"] = np.asarray(self.node_lat)[exterior_node_ind]
+
+        # Read and sample the global DEM at those exterior points.
+        print("Reading global DEM file:")
+        print(f"  {self.superdomain_dem_file}")
+        with rasterio.open(self.superdomain_dem_file) as dataset:
+            if dataset.crs is None:
+                raise ValueError("Global DEM has no CRS; cannot sample elevations.")
+
+            # Transform from geodetic lon/lat (self.crs) into the DEM's CRS
+            to_dem = Transformer.from_crs(self.crs, dataset.crs, always_xy=True)
+
+            # Determine unit scaling (match local DEM logic)
+            units = getattr(dataset, "units", "") or ""
+            if isinstance(units, (list, tuple, ArrayLike)):
+                units = units[0] if len(units) else ""
+            scale_factor = 1000.0 if "KILOMETER" in str(units).upper() else 1.0
+
+            nodata = dataset.nodata
+
+            def _sample(lons_deg: NDArray, lats_deg: NDArray) -> NDArray:
+                xs, ys = to_dem.transform(lons_deg, lats_deg)
+                # rasterio.sample expects an iterable of (x, y)
+                samples = np.fromiter(
+                    (v[0] for v in dataset.sample(zip(xs, ys, strict=False))),
+                    dtype=np.float32,
+                    count=len(lons_deg),
+                )
+                samples = samples.astype(np.float32) * scale_factor
+
+                # Replace nodata / NaN with mean of valid samples
+                if nodata is None or np.isnan(nodata):
+                    valid = np.isfinite(samples)
+                else:
+                    valid = np.isfinite(samples) & (samples != nodata)
+
+                if np.any(valid):
+                    mean_val = float(np.mean(samples[valid]))
+                else:
+                    mean_val = 0.0
+                samples[~valid] = mean_val
+                return samples
+
+            face_samples = _sample(self._global_dem_data["face_longitudes"], self._global_dem_data["face_latitudes"])
+            node_samples = _sample(self._global_dem_data["node_longitudes"], self._global_dem_data["node_latitudes"])
 
         # Create full-sized elevation arrays and insert the sampled values at the exterior indices
         face_elevations = np.zeros(self.n_face, dtype=np.float32)
-- 
2.43.0


From 1237aa240df777c8746a9d6369154a210981211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 41/53] fix: plot a surface with minimum_plot_width turned off

---
 cratermaker/components/surface/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 1ea70f9..ec2196e 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3469,6 +3469,7 @@ class LocalSurface(CratermakerBase):
         else:
             raise ValueError("plot_style must be either 'map' or 'hillshade'")
 
+        dpi = W
         if minimum_plot_width is not None:
             dpi = max(minimum_plot_width, W)
 
-- 
2.43.0


From d1316f904c49d31a5dcb0235a1138f168dcf0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 42/53] fix: compute_slope passes the native function the
 arguments it takes

---
 cratermaker/components/surface/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index ec2196e..e142772 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2409,10 +2409,7 @@ class LocalSurface(CratermakerBase):
         NDArray[np.float64]
             The slope of all faces in degrees.
         """
-        slope = surface_bindings.compute_slope(
-            face_elevation=self.face_elevation,
-            region=self,
-        )
+        slope = surface_bindings.compute_slope(region=self)
 
         return np.rad2deg(np.arctan(slope))
 
-- 
2.43.0


From b4676068fc3cb323266744199f64722543747050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 43/53] fix: convert the first longitude to radians when a DEM
 is composed onto the mesh

The converted value was bound to a misspelled name, so degrees were compared with radians.
---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index e142772..37d5ac3 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4629,7 +4629,7 @@ class DataComposer(AbstractContextManager):
             raise ValueError(f"{type(self).__name__} is already finished or cancelled.")
 
         def _orderable_distance(lon1, lat1, lon2, lat2):
-            _nnon1 = np.deg2rad(lon1)
+            lon1 = np.deg2rad(lon1)
             lat1 = np.deg2rad(lat1)
             lon2 = np.deg2rad(lon2)
             lat2 = np.deg2rad(lat2)
-- 
2.43.0


From 62c59a1b3587445d5d47abe07cfa9fcf9a0110f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 44/53] fix: wrap the longitude difference around zero when a
 DEM is composed onto the mesh

The difference was left shifted by pi, so points at the same longitude were ordered as antipodal.
---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 37d5ac3..f106540 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4634,7 +4634,7 @@ class DataComposer(AbstractContextManager):
             lon2 = np.deg2rad(lon2)
             lat2 = np.deg2rad(lat2)
 
-            dlon = (lon2 - lon1 + np.pi) % (2 * np.pi)
+            dlon = (lon2 - lon1 + np.pi) % (2 * np.pi) - np.pi
             dlat = lat2 - lat1
             return np.pow(np.sin(dlat / 2), 2) + np.cos(lat1) * np.cos(lat2) * np.pow(np.sin(dlon / 2), 2)
 
-- 
2.43.0


From 40f0b85aeef3bb63dbc448a84a7ec4ea67f3ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 45/53] fix: the elapsed time grows by the length of the
 interval emplaced

When the run is not a whole number of intervals the last one is cut at the end time, but the full interval was added.
---
 cratermaker/core/simulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 8e9a3af..e31d7f5 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -668,8 +668,7 @@ class Simulation(CratermakerBase):
                         current_time_end = 0.0
                     if current_time_end < 0.0:
                         current_time_end = 0.0
-                    time_interval = time - current_time_end
-                self.elapsed_time += time_interval
+                self.elapsed_time += time - current_time_end
                 self.elapsed_n1 += (
                     self.production.function(
                         diameter=_DSTD,
-- 
2.43.0


From d4328173574fcdff50361595c86ed142119e012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 46/53] fix: a crater made from another with a new transient or
 projectile size no longer keeps the old semiminor axis

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 86fab48..4a430bf 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -901,7 +901,7 @@ class Crater(ComponentBase):
                 make_copy = True
             else:  # The user is passing a size parameter, so we cannot use any of the values from the crater object
                 make_copy = False
-                for field in size_inputs:
+                for field in (*size_inputs, "semiminor_axis"):
                     old_parameters.pop(field, None)
             if projectile_mean_velocity is None:
                 # Be sure to keep only two velocitity components, with a preference for angle over vertical velocity
-- 
2.43.0


From 64e39c18380b24ce50fe5998a0d998c7cced16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 47/53] fix: a measured radius or axes given with a crater to
 copy from were overridden by its measured diameter

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 4a430bf..ac49354 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -894,6 +894,8 @@ class Crater(ComponentBase):
             for field in crater.as_dict():
                 if field in locals() and locals()[field] is None and getattr(crater, field) is not None:
                     old_parameters[field] = getattr(crater, field)
+            if measured_radius is not None or measured_semimajor_axis is not None or measured_semiminor_axis is not None:
+                old_parameters.pop("measured_diameter", None)  # The measured size of the old crater is replaced
             if (
                 n_size_inputs == 0
             ):  # The user has not passed any size parameters, so we will use the size parameters from the crater object
-- 
2.43.0


From dbc18a8ea63d1b1e84f56a05abb19eccfae86cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 48/53] fix: a crater made from another with a new size lost
 its name, measured location and measured orientation

---
 cratermaker/components/crater/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index ac49354..984dd0b 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1073,6 +1073,11 @@ class Crater(ComponentBase):
             if b is None:
                 b = fr
 
+            # Keep what was copied from an input crater and doesn't depend on its size
+            name = args.pop("name", name)
+            measured_orientation = args.pop("measured_orientation", measured_orientation)
+            measured_location = args.pop("measured_location", measured_location)
+
             if a < 0 or b < 0 or td < 0 or pd < 0:
                 raise ValueError("Crater and projectile sizes must be non-negative.")
             if pv < 0:
-- 
2.43.0


From 83044c57914628c30d723b22ad0a036fef58f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 49/53] fix: a crater with a single measured axis was always
 refused

---
 cratermaker/components/crater/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 984dd0b..f2fb5b4 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1103,9 +1103,9 @@ class Crater(ComponentBase):
                     raise ValueError(
                         "If providing measured properties for an elliptical crater, either both measured_semimajor_axis and measured_semiminor_axis, or one of measured_diameter or measured_radius must be provided."
                     )
-                measured_radius = measured_semimajor_axis if measured_semiminor_axis is None else measured_semiminor_axis
-                measured_semimajor_axis = measured_radius
-                measured_semiminor_axis = measured_radius
+                measured_axis = measured_semimajor_axis if measured_semiminor_axis is None else measured_semiminor_axis
+                measured_semimajor_axis = measured_axis
+                measured_semiminor_axis = measured_axis
             if check_redundant_inputs and (measured_diameter is not None or measured_radius is not None):
                 raise ValueError(
                     "measured_diameter or measured_radius cannot be used for elliptical craters; use measured_semimajor_axis and measured_semiminor_axis instead."
-- 
2.43.0


From c226eb1d4f04fd1479f8811339c0b4aec28ade42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 50/53] fix: a measured radius or diameter smaller than the old
 one gave an elliptical crater

---
 cratermaker/components/crater/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index f2fb5b4..9c7ad7b 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -235,8 +235,11 @@ class CraterVariable:
             self.measured_semimajor_axis = None
             self.measured_semiminor_axis = None
         else:
-            self.measured_semimajor_axis = value
-            self.measured_semiminor_axis = value
+            if value <= 0:
+                raise ValueError("measured_radius must be positive.")
+            # Both at once, because setting the axes one after the other compares them with the old ones
+            self._measured_semimajor_axis = float(value)
+            self._measured_semiminor_axis = float(value)
         return
 
     @property
-- 
2.43.0


From e8ad369820a8244fd41455cffaab68bb46c58cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 51/53] fix: assigning a fixed property of a specialised crater
 was silently ignored instead of refused

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 9c7ad7b..ea0a6b3 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -484,7 +484,7 @@ class Crater(ComponentBase):
             object.__setattr__(self, name, value)
             return
 
-        if name in CraterFixed.__dataclass_fields__:
+        if name in type(self._fixed).__dataclass_fields__:
             raise AttributeError(f"{name!r} is a fixed attribute and cannot be modified.")
 
         # Call the setters in CraterVariable if they exist
-- 
2.43.0


From 3b668338b64e214e87153996fa0847e732580231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:09 +0000
Subject: [PATCH 52/53] fix: changing the version of a Neukum production kept
 the chronology coefficients of the old one

---
 cratermaker/components/production/neukum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index f3a7b2d..9f6a893 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -239,6 +239,9 @@ class NeukumProduction(Production):
         if value.title() not in self.valid_versions:
             raise ValueError(f"Invalid version '{value}'. Valid options are {self.valid_versions}")
         self._version = value.title()
+        # These are derived from the version
+        self._Clin = None
+        self._Cexp = None
 
         if self._version == "Projectile":
             self._generator_type = "projectile"
-- 
2.43.0


From 43212f01ecaceaeb07139813b82d8e1b0500fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:17 +0000
Subject: [PATCH 53/53] fix: N(D) of quasi-Monte Carlo craters ignored the
 diameter conversion factor

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 4740e37..08526b9 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1002,7 +1002,7 @@ class Production(ComponentBase):
             elif crater.production_ND is not None and crater.production_ND != [None, None, None]:
                 # N(D) values take precedence over time values
                 prod_diam, nmean, nsig = crater.production_ND
-                prod_diam *= 1e3
+                prod_diam *= self.D_conversion_factor
                 nmean /= self.N_conversion_factor
                 nsig /= self.N_conversion_factor
                 # Convert from N(prod_diam) to N(1) for alignment
@@ -1086,7 +1086,7 @@ class Production(ComponentBase):
                     crater = valid_craters[i]
                     if crater.production_ND is not None and crater.production_ND != [None, None, None]:
                         prod_diam, nmean, nstdev = crater.production_ND
-                        prod_diam *= 1e3
+                        prod_diam *= self.D_conversion_factor
                         nmean /= self.N_conversion_factor
                         nstdev /= self.N_conversion_factor
                         # Convert from N(prod_diam) to N(1) for alignment
-- 
2.43.0

