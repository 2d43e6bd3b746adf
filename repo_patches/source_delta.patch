From 7be1df8558adf0765574b20830bac55e6a1cd014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 01/29] fix: accept length-1 bounds in
 map_interpolator_regular_binning_1d as documented

---
 appletree/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 4f79a70..815fd63 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -109,7 +109,9 @@ def map_interpolator_regular_binning_1d(pos, ref_pos_lowers, ref_pos_uppers, ref
     """
     assert len(pos.shape) == 1, "pos must have 1 columns"
 
-    ref_pos = jnp.linspace(ref_pos_lowers, ref_pos_uppers, len(ref_val))
+    ref_pos = jnp.linspace(
+        jnp.reshape(ref_pos_lowers, ()), jnp.reshape(ref_pos_uppers, ()), len(ref_val)
+    )
     val = curve_interpolator(pos, ref_pos, ref_val)
 
     return val
-- 
2.43.0


From 23db5b88fc5e2bc0c578cb047fce7d6287fba080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:02 +0000
Subject: [PATCH 02/29] fix: keep inverse-distance grid interpolation finite at
 the grid nodes

---
 appletree/interpolation.py | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 815fd63..b8622d2 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -159,8 +159,12 @@ def map_interpolator_regular_binning_2d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
-    val = val1 / dr1 + val2 / dr2 + val3 / dr3 + val4 / dr4
-    val /= 1.0 / dr1 + 1.0 / dr2 + 1.0 / dr3 + 1.0 / dr4
+    # Weights relative to the nearest node, since 1 / dr overflows at the nodes
+    dr = jnp.stack([dr1, dr2, dr3, dr4])
+    weights = jnp.min(dr, axis=0) / dr
+
+    val = jnp.sum(jnp.stack([val1, val2, val3, val4]) * weights, axis=0)
+    val /= jnp.sum(weights, axis=0)
 
     return val
 
@@ -223,26 +227,12 @@ def map_interpolator_regular_binning_3d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr7 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos7 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr8 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos8 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
-    val = (
-        val1 / dr1
-        + val2 / dr2
-        + val3 / dr3
-        + val4 / dr4
-        + val5 / dr5
-        + val6 / dr6
-        + val7 / dr7
-        + val8 / dr8
-    )
-    val /= (
-        1.0 / dr1
-        + 1.0 / dr2
-        + 1.0 / dr3
-        + 1.0 / dr4
-        + 1.0 / dr5
-        + 1.0 / dr6
-        + 1.0 / dr7
-        + 1.0 / dr8
-    )
+    # Weights relative to the nearest node, since 1 / dr overflows at the nodes
+    dr = jnp.stack([dr1, dr2, dr3, dr4, dr5, dr6, dr7, dr8])
+    weights = jnp.min(dr, axis=0) / dr
+
+    val = jnp.sum(jnp.stack([val1, val2, val3, val4, val5, val6, val7, val8]) * weights, axis=0)
+    val /= jnp.sum(weights, axis=0)
 
     return val
 
-- 
2.43.0


From 39ddf7362c44d725cf464f35406f0c7b56a775fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 03/29] fix: use the configured files of a SigmaMap that is
 built without a likelihood

---
 appletree/config.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4845980..193cb01 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -463,24 +463,25 @@ class SigmaMap(Config):
 
         sigmas = ["median", "lower", "upper"]
         for i, sigma in enumerate(sigmas):
-            default = self._resolve_sigma_value(
+            # Raise if the default is invalid
+            self._resolve_sigma_value(
                 _configs_default,
                 i,
                 "default configuration",
             )
+            value = self._resolve_sigma_value(
+                _configs,
+                i,
+                "configuration",
+            )
             m = Map(
                 method=self.method,
                 name=f"{self.name}_{sigma}",
-                default=default,
+                default=value,
             )
             setattr(self, sigma, m)
 
             if self.llh_name is not None:
-                value = self._resolve_sigma_value(
-                    _configs,
-                    i,
-                    "configuration",
-                )
                 self._update_sigma_cache(m.name, value)
 
         self.median.build(llh_name=self.llh_name)
-- 
2.43.0


From 2a0dff6fb6b4ca5e173c3d844caca69ef6b96010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 04/29] fix: do not take log10 of the values of log_point maps

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 193cb01..07a632c 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -265,7 +265,7 @@ class Map(Config):
         val = self.interpolator(
             self.preprocess(pos),
             self.preprocess(self.coordinate_system),
-            self.preprocess(self.map),
+            self.map,
         )
         return val
 
-- 
2.43.0


From 17ba07e7b93f827d2e59a91c776028aeee667737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:24 +0000
Subject: [PATCH 05/29] fix: write GPU memory fractions below 10% and of 1
 correctly

---
 appletree/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 6b08084..79bd11f 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -267,11 +267,11 @@ def set_gpu_memory_usage(fraction=0.3):
     See more on https://jax.readthedocs.io/en/latest/gpu_memory_allocation.html
 
     """
-    if fraction > 1:
+    if fraction >= 1:
         fraction = 0.99
     if fraction <= 0:
         raise ValueError("fraction must be positive!")
-    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f".{int(fraction * 100):d}"
+    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f".{int(fraction * 100):02d}"
 
 
 @export
-- 
2.43.0


From f5430176dc3386e620f96e4838dcc010c71c78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 06/29] fix: draw below the centre in scalar TwoHalfNorm.rvs
 with Python float widths

---
 appletree/randgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6d9a3ea..157dc58 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -554,7 +554,7 @@ class TwoHalfNorm:
         pos_half_prob = sigma_pos / (sigma_pos + sigma_neg)
 
         use_pos_half = np.random.uniform(size=size) < pos_half_prob
-        use_neg_half = ~use_pos_half
+        use_neg_half = np.logical_not(use_pos_half)
 
         n_sigma = np.abs(np.random.normal(size=size))
         offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
-- 
2.43.0


From 4d782af36e2c0bf43849776115d3597f01ea1fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 07/29] fix: give copied parameters a configuration of their
 own

The copy shared the configuration object with its source, so editing one
of them silently changed the other.
---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 2e49d3e..66d68ba 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -450,7 +450,7 @@ class Context:
             for k, v in likelihood["copy_parameters"].items():
                 # specify rate scale
                 # normalization factor, for AC & ER, etc.
-                self.par_config.update({k: self.par_config[v]})
+                self.par_config.update({k: copy.deepcopy(self.par_config[v])})
                 from_parameters.append(v)
                 needed_parameters.add(k)
             for k in likelihood["components"].keys():
-- 
2.43.0


From a3d1a07c5c2875cb92661753a7635f6aec6ddb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 08/29] fix: report post-fit parameters of the current chain

get_post_parameters cached the chain for the lifetime of the context, so
after continuing or repeating a fit it kept reporting (and writing to the
chain file) the best fit of the old chain.
---
 appletree/context.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index 66d68ba..ec4c6bc 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -321,12 +321,13 @@ class Context:
             random parameter set from the posterior distribution. 'median' is the marginal medians.
 
         """
-        # Assign attributes for the first time
+        # Read the chain only when the sampler changed or made new steps
         # This speeds up if the user wanna call this function many times
-        if not hasattr(self, "_logp"):
+        sampled = (self.sampler, self.sampler.iteration)
+        if getattr(self, "_sampled", None) != sampled:
             self._logp = self.sampler.get_log_prob(flat=True)
-        if not hasattr(self, "_chain"):
             self._chain = self.sampler.get_chain(flat=True)
+            self._sampled = sampled
         if which == "mpe":
             _parameters = self._chain[np.argmax(self._logp)]
         elif which == "random":
-- 
2.43.0


From efd5142fcd09218a42be9c14829b657a2e1cdda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 09/29] fix: read the stored instructions as JSON when
 restoring a context

They are written by json.dumps; evaluating them as Python fails for
null, true and false.
---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index ec4c6bc..996ef18 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -60,7 +60,7 @@ class Context:
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
-            instruct = eval(file["mcmc"].attrs["instruct"])
+            instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
         tree = cls(instruct)
-- 
2.43.0


From f5b6010ce5e1f4ee68661c2ffd907da1f0fce489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 10/29] fix: normalise on simulation without an energy plugin

Component._use_mcinput assumed that every component has a plugin providing
energy, so norm_type on_sim raised AttributeError for ComponentFixed and
KeyError for simulations not starting from an energy plugin.
---
 appletree/component.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index de7c5d6..cba010b 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -80,7 +80,9 @@ class Component:
 
     @property
     def _use_mcinput(self):
-        return "Bootstrap" in self._plugin_class_registry["energy"].__name__
+        # ComponentFixed has no plugins, and not every simulation starts from an energy plugin
+        registry = getattr(self, "_plugin_class_registry", dict())
+        return "energy" in registry and "Bootstrap" in registry["energy"].__name__
 
     def simulate_hist(self, *args, **kwargs):
         """Hook for simulation with histogram output."""
-- 
2.43.0


From 392bf42f258cb56b41eca72f091dd4ea64a07f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 11/29] fix: apply parameter aliases when making post-fit
 templates

Context.get_template gave the post-fit parameters to the component directly,
so a likelihood with parameter_alias was simulated without the aliased
parameter (KeyError) or with a value belonging to another likelihood.
---
 appletree/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index 996ef18..dfd6492 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -406,10 +406,11 @@ class Context:
             seed: random seed.
 
         """
-        parameters = self.get_post_parameters()
+        likelihood = self[likelihood_name]
+        parameters = likelihood.replace_alias(self.get_post_parameters())
         key = randgen.get_key(seed=seed)
 
-        key, result = self[likelihood_name][component_name].simulate(
+        key, result = likelihood[component_name].simulate(
             key,
             batch_size,
             parameters,
-- 
2.43.0


From 49a85f76675dcd17a41e35cf16d2cfb388889fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 12/29] fix: draw side and width of twohalfnorm from different
 seeds

The same seed was used for the uniform choice of the side and for the normal
deviate, so the two were correlated.
---
 appletree/randgen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 157dc58..db7102a 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -640,6 +640,7 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
     use_pos_half = random.uniform(seed, shape, minval=0.0, maxval=1.0) < pos_half_prob
     use_neg_half = ~use_pos_half
 
+    key, seed = random.split(key)
     n_sigma = jnp.abs(random.normal(seed, shape=shape))
     offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
     rvs = offset + mu
-- 
2.43.0


From 28fc7cb292e09e3ff7932bfa45c969d2e6a18c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 13/29] fix: keep overridden outputs of plugins with several
 outputs

When one output of a plugin is provided by a plugin registered later, the
generated code could assign it again from the overridden plugin.
---
 appletree/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index cba010b..87bee84 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -376,7 +376,10 @@ class ComponentSim(Component):
         code += f"def {func_name}(key, {nodep_data_name}, parameters):\n"
 
         for work in self.worksheet:
-            provides = "key, " + ", ".join(work[1])
+            # Do not overwrite the quantities which are overridden by other plugins
+            provides = "key, " + ", ".join(
+                p if self._plugin_class_registry[p].__name__ == work[0] else "_" for p in work[1]
+            )
             depends_on = ", ".join(work[2])
             instance = work[0] + "_" + self.name
             code += f"{indent}{provides} = {instance}(key, parameters, {depends_on})\n"
-- 
2.43.0


From 5d0750da309e23ee575de49aea5f8e68f6099cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 14/29] fix: let several simulated components share the
 functions of a likelihood

Registering a second simulated component to a likelihood always failed with
'Likelihood name ... is already cached'. Only functions and instances which
are already cached are protected from being overwritten.
---
 appletree/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index 87bee84..b84e581 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -386,8 +386,8 @@ class ComponentSim(Component):
         output = "key, " + "[" + ", ".join(data_names) + "]"
         code += f"{indent}return {output}\n"
 
-        self.code = code
         self.instances = instances
+        self.code = code
 
         if func_name in _cached_functions[self.llh_name].keys():
             warning = f"Function name {func_name} is already cached. "
@@ -402,7 +402,11 @@ class ComponentSim(Component):
     @code.setter
     def code(self, code):
         self._code = code
-        _cached_functions[self.llh_name] = dict()
+        # Components of the same likelihood share the namespace,
+        # but functions and instances already cached are never overwritten
+        cached = _cached_functions.get(self.llh_name)
+        if cached is None or not cached.keys().isdisjoint({self.func_name, *self.instances}):
+            _cached_functions[self.llh_name] = dict()
         self._compile = partial(exec, self.code, _cached_functions[self.llh_name])
 
     def deduce(
-- 
2.43.0


From 911d5490b9e51f590c3e2571b5ae8aab56e7fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 15/29] fix: recompile repeated simulations without a "g4"
 config

---
 appletree/component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index b84e581..e304382 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -115,7 +115,8 @@ class Component:
         limit of GPU."""
         results_pile = []
         for _ in range(times):
-            if _cached_configs["g4"] and self._use_mcinput:
+            # there is no "g4" config without MC input
+            if self._use_mcinput and _cached_configs["g4"]:
                 if isinstance(_cached_configs["g4"], dict):
                     g4_file_name = _cached_configs["g4"][self.llh_name][0]
                     _cached_configs["g4"][self.llh_name] = [
-- 
2.43.0


From 0ff8f3f2e466b66174ba3de54a4c5825f0057bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 16/29] fix: return the efficiency again after deducing without
 it

---
 appletree/component.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index e304382..a3bfb7b 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -434,9 +434,8 @@ class ComponentSim(Component):
             data_names.remove("eff")
         if not force_no_eff:
             data_names += ["eff"]
-        else:
-            # track status of component
-            self.force_no_eff = True
+        # track status of component
+        self.force_no_eff = force_no_eff
 
         dependencies = self.dependencies_deduce(data_names, nodep_data_name=nodep_data_name)
         self.dependencies_simplify(dependencies)
-- 
2.43.0


From 53dac5df37090ed8942d2850f87adad0bc11b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 17/29] fix: refuse contradictory files of a SigmaMap given for
 all likelihoods

---
 appletree/config.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 07a632c..1ae33f4 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -443,11 +443,14 @@ class SigmaMap(Config):
                 self.llh_name,
                 value,
             )
-            if existing != value:
-                raise ValueError(
-                    f"You give different values for {self.name} in "
-                    f"configs, find {existing} and {value}."
-                )
+        else:
+            existing = _cached_configs[map_name]
+        if existing != value and get_file_path(existing) != get_file_path(value):
+            raise ValueError(
+                f"You give different values for {self.name} in "
+                f"configs, find {existing} and {value}."
+            )
+        if isinstance(_cached_configs[map_name], dict):
             _cached_configs[map_name][self.llh_name] = value
 
     def build(self, llh_name: Optional[str] = None):
-- 
2.43.0


From d7932af9b86a94465626efe64fb41769b0071fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 18/29] fix: report the configurations of the plugin itself in
 its lineage

---
 appletree/plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 212ad6b..5661e6f 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -100,7 +100,8 @@ class Plugin:
             "takes_config": dict(
                 zip(
                     self.takes_config.keys(),
-                    [v.lineage for v in self.takes_config.values()],
+                    # the configurations in use, self.takes_config is shared by all instances
+                    [getattr(self, name).lineage for name in self.takes_config],
                 )
             ),
         }
-- 
2.43.0


From 5e5d847ab03e40130f6aa754d626ab55e67cbb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 19/29] fix: keep the lineage of a component when another one
 takes its cache

After clear_cache(), a new component of the same likelihood fills the cache
again, and the lineage (and a recompilation) of the first component reported
the plugins of the new one, or failed.
---
 appletree/component.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index a3bfb7b..112a6c9 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -408,7 +408,9 @@ class ComponentSim(Component):
         cached = _cached_functions.get(self.llh_name)
         if cached is None or not cached.keys().isdisjoint({self.func_name, *self.instances}):
             _cached_functions[self.llh_name] = dict()
-        self._compile = partial(exec, self.code, _cached_functions[self.llh_name])
+        # The cache may be cleared and filled by other components later
+        self._namespace = _cached_functions[self.llh_name]
+        self._compile = partial(exec, self.code, self._namespace)
 
     def deduce(
         self,
@@ -444,7 +446,7 @@ class ComponentSim(Component):
     def compile(self):
         """Build simulation function and cache it to share._cached_functions."""
         self._compile()
-        self.simulate = _cached_functions[self.llh_name][self.func_name]
+        self.simulate = self._namespace[self.func_name]
 
     def simulate_hist(self, key, batch_size, parameters):
         """Simulate and return histogram.
@@ -594,7 +596,7 @@ class ComponentSim(Component):
             "instances": dict(
                 zip(
                     self.instances,
-                    [_cached_functions[self.llh_name][p].lineage for p in self.instances],
+                    [self._namespace[p].lineage for p in self.instances],
                 )
             ),
             **bins_dict,
-- 
2.43.0


From 639bb653eded31aa4378afc19c1c441d780b749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 20/29] fix: uncertainty maps keep and report the scaler they
 were built with

The scaler was looked up again in the global configs at every evaluation, so
it followed later changes of them, and the lineage did not tell apart maps
with different scalers.
---
 appletree/config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 1ae33f4..95007ef 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -458,6 +458,8 @@ class SigmaMap(Config):
         self.llh_name = llh_name
         _configs = self.get_configs()
         _configs_default = self.get_default()
+        # What is used after building, no matter how the configs change later
+        self._configs = _configs
 
         if isinstance(_configs, list) and len(_configs) > 4:
             raise ValueError(f"You give too much information in {self.name}'s configs.")
@@ -533,7 +535,10 @@ class SigmaMap(Config):
 
     def required_parameter(self, llh_name=None):
         """Get required parameter of SigmaMap."""
-        _configs = self.get_configs(llh_name=llh_name)
+        if llh_name is None and hasattr(self, "_configs"):
+            _configs = self._configs
+        else:
+            _configs = self.get_configs(llh_name=llh_name)
         # Find required parameter
         if isinstance(_configs, list):
             if len(_configs) == 4:
@@ -565,6 +570,7 @@ class SigmaMap(Config):
             "median": self.median.lineage,
             "lower": self.lower.lineage,
             "upper": self.upper.lineage,
+            "required_parameter": self.required_parameter(),
         }
 
 
-- 
2.43.0


From f03e3d3bb13af01792d7a35aa2a4b9c9f9574e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 21/29] fix: plot the maps each likelihood uses

The maps were taken from the plugin classes, which hold those of the
likelihood built last, and a plugin whose first output is overridden was
looked up as the overriding one.
---
 appletree/plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index b291874..a2cec33 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -469,11 +469,12 @@ def _collect_maps(context):
             # Only iterate over plugins actually used in the
             # simulation (worksheet), not all registered plugins.
             for work in component.worksheet:
-                provides = work[1]
-                # Look up the plugin class via its first provides name
-                plugin_class = component._plugin_class_registry[provides[0]]
+                # The instances hold the maps in use, while the classes
+                # are shared by all likelihoods
+                plugin = component._namespace[work[0] + "_" + component.name]
 
-                for config in plugin_class.takes_config.values():
+                for config_name in plugin.takes_config:
+                    config = getattr(plugin, config_name)
                     if isinstance(config, SigmaMap):
                         key = (
                             config.median.file_path,
-- 
2.43.0


From 50f65a690db710ac0838c251d23c65552c5e5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 22/29] fix: clip equiprobable bins by the range of their own
 dimension

---
 appletree/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 79bd11f..589365f 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -341,18 +341,22 @@ def get_equiprob_bins_2d(
     mask &= data[:, 1] > y_clip[0]
     mask &= data[:, 1] < y_clip[1]
 
-    x_bins, y_bins = GOFevaluation.utils.get_equiprobable_binning(
+    # The first bins are on the dimension that is partitioned first
+    first_bins, second_bins = GOFevaluation.utils.get_equiprobable_binning(
         data[mask],
         n_partitions,
         order=order,
         integer=integer,
         left=left,
     )
+    first_clip, second_clip = x_clip, y_clip
+    if order is not None and order[0] == 1:
+        first_clip, second_clip = y_clip, x_clip
     # To be strict, clip the inf(s)
-    x_bins = np.clip(x_bins, *x_clip)
-    y_bins = np.clip(y_bins, *y_clip)
+    first_bins = np.clip(first_bins, *first_clip)
+    second_bins = np.clip(second_bins, *second_clip)
 
-    return which_np.array(x_bins), which_np.array(y_bins)
+    return which_np.array(first_bins), which_np.array(second_bins)
 
 
 @export
-- 
2.43.0


From 3eac98e320578d3b68e847370ac4b319da98cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 23/29] fix: do not replace existing attributes by modules of
 packages

---
 appletree/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 589365f..a9e9a99 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -575,7 +575,8 @@ def add_extensions(module1, module2, base, force=False):
 
     """
     # Assign the module2 as attribute of module1
-    is_exists = module2.__name__ in dir(module1)
+    name = module2.__name__.split(".")[-1]
+    is_exists = name in dir(module1)
     if is_exists and not force:
         raise ValueError(
             f"{module2.__name__} already existed in {module1.__name__}, "
@@ -584,7 +585,7 @@ def add_extensions(module1, module2, base, force=False):
     else:
         if is_exists:
             print(f"You have forcibly registered {module2.__name__} to {module1.__name__}")
-        setattr(module1, module2.__name__.split(".")[-1], module2)
+        setattr(module1, name, module2)
 
     # Iterate the module2 and assign the single Plugin(s) as attribute(s)
     for x in dir(module2):
-- 
2.43.0


From ff5ea86359e987fd62baf37b1f46da3484267c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 24/29] fix: keep the registered plugins when refusing a
 contradictory one

---
 appletree/component.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index 112a6c9..a3c38a8 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -219,11 +219,12 @@ class ComponentSim(Component):
         if isinstance(plugin_class.provides, str):
             plugin_class.provides = tuple([plugin_class.provides])
 
+        registry = dict(self._plugin_class_registry)
         for p in plugin_class.provides:
-            self._plugin_class_registry[p] = plugin_class
+            registry[p] = plugin_class
 
         already_seen = []
-        for plugin in self._plugin_class_registry.values():
+        for plugin in registry.values():
             if plugin in already_seen:
                 continue
             already_seen.append(plugin)
@@ -248,6 +249,8 @@ class ComponentSim(Component):
                         )
                         raise ValueError(mes)
 
+        self._plugin_class_registry = registry
+
     def register_all(self, module):
         """Register all plugins defined in module.
 
-- 
2.43.0


From ff0ccde55b03f6b3b54637349f96ce63a339d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 25/29] fix: plot iterations at their own number when others
 are dropped

---
 appletree/plot.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index a2cec33..cf30e20 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -40,6 +40,7 @@ class Plotter:
         # We drop iterations with inf and nan posterior
         mask = np.isfinite(self.posterior)
         mask = np.all(mask, axis=1)
+        self.iterations = (np.arange(len(mask)) * self.thin + self.discard)[mask]
         self.chain = self.chain[mask]
         self.posterior = self.posterior[mask]
         self.prior = self.prior[mask]
@@ -132,35 +133,35 @@ class Plotter:
             ax = fig.add_subplot(n_rows, n_cols, i + 1)
             for j in range(self.n_walker):
                 ax.plot(
-                    np.arange(self.chain.shape[0]) * self.thin + self.discard,
+                    self.iterations,
                     self.chain[:, j, i],
                     **plot_kwargs,
                 )
             ax.set_ylabel(self.param_names[i])
-            ax.set_xlim(self.discard, self.n_iter * self.thin + self.discard)
+            ax.set_xlim(self.discard, self.iterations[-1] + self.thin)
             axes.append(ax)
 
         ax = fig.add_subplot(n_rows, n_cols, self.n_param + 1)
         for j in range(self.n_walker):
             ax.plot(
-                np.arange(self.posterior.shape[0]) * self.thin + self.discard,
+                self.iterations,
                 self.posterior[:, j],
                 **plot_kwargs,
             )
         ax.set_ylabel("log posterior")
-        ax.set_xlim(self.discard, self.n_iter * self.thin + self.discard)
+        ax.set_xlim(self.discard, self.iterations[-1] + self.thin)
         ax.set_ylim(self.posterior.max() - 100, self.posterior.max())
         axes.append(ax)
 
         ax = fig.add_subplot(n_rows, n_cols, self.n_param + 2)
         for j in range(self.n_walker):
             ax.plot(
-                np.arange(self.prior.shape[0]) * self.thin + self.discard,
+                self.iterations,
                 self.prior[:, j],
                 **plot_kwargs,
             )
         ax.set_ylabel("log prior")
-        ax.set_xlim(self.discard, self.n_iter * self.thin + self.discard)
+        ax.set_xlim(self.discard, self.iterations[-1] + self.thin)
         ax.set_ylim(self.prior.max() - 100, self.prior.max())
         axes.append(ax)
 
@@ -414,20 +415,20 @@ class Plotter:
         # Plot average acceptance fraction
         ax = axes[0]
         ax.plot(
-            np.arange(1, n_iter) * self.thin + self.discard,
+            self.iterations[1:],
             avg_acceptance_fraction,
             label="cumulative",
             **plot_kwargs,
         )
         ax.plot(
-            np.arange(window_length, n_iter) * self.thin + self.discard,
+            self.iterations[window_length:],
             moving_avg_acceptance_fraction,
             label="moving average",
             **plot_kwargs,
         )
         ax.axhspan(0.2, 0.5, color="grey", alpha=0.3, label="Healthy region (0.2 - 0.5)")
         ax.set_ylabel("Average Acceptance Fraction")
-        ax.set_xlim(self.discard, self.n_iter * self.thin + self.discard)
+        ax.set_xlim(self.discard, self.iterations[-1] + self.thin)
         ax.set_ylim(0, 1)
         ax.set_xlabel("Number of iterations")
         ax.legend()
-- 
2.43.0


From f6ae395d0c9632260cd6aa5a8f1d5589d95cae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 26/29] fix: profile the plugin instances that the simulation
 uses

---
 appletree/profiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/appletree/profiler.py b/appletree/profiler.py
index d18219b..bfb6935 100644
--- a/appletree/profiler.py
+++ b/appletree/profiler.py
@@ -89,6 +89,9 @@ def profile_component(
             f"Component {component.name} has no worksheet. " "Make sure deduce() has been called."
         )
 
+    if not all(instance in component._namespace for instance in component.instances):
+        component.compile()
+
     results = []
     key = randgen.get_key()
     data_store: Dict[str, Any] = {"batch_size": batch_size}
@@ -109,8 +112,8 @@ def profile_component(
         plugin_name = work[0]
         provides = work[1]
 
-        plugin_class = component._plugin_class_registry[provides[0]]
-        plugin_instance = plugin_class(component.llh_name)
+        # The instance that the simulation uses
+        plugin_instance = component._namespace[f"{plugin_name}_{component.name}"]
 
         key, output_data, mean_time, std_time = profile_plugin(
             plugin_instance,
@@ -121,7 +124,10 @@ def profile_component(
             n_runs=n_runs,
         )
 
-        data_store.update(output_data)
+        # Do not overwrite the quantities which are overridden by other plugins
+        for name, data in output_data.items():
+            if component._plugin_class_registry[name].__name__ == plugin_name:
+                data_store[name] = data
         total_time += mean_time
 
         result = {
-- 
2.43.0


From 5798869156dbad062bff49219e45a0729ecc873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 27/29] fix: lineage of a constant set can be dumped

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 95007ef..2aa345f 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -606,5 +606,5 @@ class ConstantSet(Config):
     def lineage(self):
         return {
             "llh_name": self.llh_name,
-            "value": self.value,
+            "value": {k: v.tolist() for k, v in self.value.items()},
         }
-- 
2.43.0


From 21e586b59f2fb6a93994a6906184f188e8bffd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 28/29] fix: data names on every node of the plugin graph when
 asked for

---
 appletree/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/utils.py b/appletree/utils.py
index a9e9a99..387ba51 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -558,6 +558,7 @@ def add_plugins_to_graph_tree(
                 graph_tree,
                 plugin.depends_on,
                 _seen,
+                with_data_names,
             )
         _seen.append(plugin_name)
     return graph_tree, _seen
-- 
2.43.0


From 36b4724b359edca21df6d485f269a7249de2cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 29/29] fix: normalise on the bootstrapped events of the
 component itself

---
 appletree/component.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index a3c38a8..1b98976 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -168,9 +168,8 @@ class Component:
             if self._use_mcinput:
                 bootstrap_name = self._plugin_class_registry["energy"].__name__
                 bootstrap_name = bootstrap_name + "_" + self.name
-                n_events_selected = _cached_functions[self.llh_name][
-                    bootstrap_name
-                ].g4.n_events_selected
+                # the instance used in the simulation, the cache may be filled by other components
+                n_events_selected = self._namespace[bootstrap_name].g4.n_events_selected
                 normalization_factor = 1 / n_events_selected * parameters[self.rate_name]
             else:
                 normalization_factor = 1 / batch_size * parameters[self.rate_name]
-- 
2.43.0

