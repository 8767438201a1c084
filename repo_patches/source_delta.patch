From 012dbdd9db25c054aa056ad6ac3fed3ce11bb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:55 +0000
Subject: [PATCH 01/13] fix: look up impressions by spend in the price-ordered
 log

impressions_by_spend bisected over the prices in the order they were passed
in, so an unsorted log gave impression counts that disagree with
user_counts_by_spend.
---
 src/data_generators/publisher_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/publisher_data.py b/src/data_generators/publisher_data.py
index b90c2d8..c1f32c6 100644
--- a/src/data_generators/publisher_data.py
+++ b/src/data_generators/publisher_data.py
@@ -80,7 +80,7 @@ class PublisherData:
         self._name = name
         if not self._name:
             self._name = "{:012d}".format(randint(0, 1e12))
-        self._spends = [spend for (_, spend) in impression_log_data]
+        self._spends = [spend for (_, spend) in self._data]
         self._max_spend = max([spend for (_, spend) in impression_log_data])
         self._max_reach = len(set([id for (id, _) in impression_log_data]))
 
-- 
2.43.0


From 6bc1f7eba4816b6966a149a6ea7c87ac046f67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:40 +0000
Subject: [PATCH 02/13] fix: import randint where unnamed data sets use it

DataSet without a name raised NameError instead of getting a random name.
---
 src/data_generators/data_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 50e6789..a774a28 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
     filesystem_wrapper_base,
-- 
2.43.0


From 6f09b5180b9d1626fd8fd205fe5186de1549b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:40 +0000
Subject: [PATCH 03/13] fix: name publishers read from storage after their file

read_data_set named each publisher by the full path of its file.  Publishers
therefore changed their name on every round trip, and writing a data set that
had been read overwrote the files it was read from (joining a directory with an
absolute path gives that path), so copying it to another design wrote nothing
there.
---
 src/data_generators/data_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index a774a28..f8b089f 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -272,7 +272,7 @@ class DataSet:
                 with filesystem.open(filepath) as file:
                     try:
                         pdf = PublisherData.read_publisher_data(file)
-                        pdf.name = str(filepath)
+                        pdf.name = filesystem.name(filepath)
                         pdf_list.append(pdf)
                     except (ValueError, RuntimeError) as e:
                         raise RuntimeError(
-- 
2.43.0


From 74ead5eea2b38ee8cfb722cd9c1df874e8041d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:11 +0000
Subject: [PATCH 04/13] fix: refuse a short spend vector before spending
 privacy budget

simulated_reach_by_spend released (and logged) a noised estimate for a spend
vector with too few entries and only then failed.
---
 src/simulator/halo_simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulator/halo_simulator.py b/src/simulator/halo_simulator.py
index 5df8fb7..e21880c 100644
--- a/src/simulator/halo_simulator.py
+++ b/src/simulator/halo_simulator.py
@@ -168,6 +168,9 @@ class HaloSimulator:
             Liquid Legions sketches, one per publisher, combining them, and
             adding differentially private noise to the result.
         """
+        # Fails for a spend vector of the wrong length, before any noised
+        # quantity is released.
+        impressions = self._data_set.impressions_by_spend(spends)
         combined_sketch = self._publishers[0].liquid_legions_sketch(spends[0])
         estimator = StandardizedHistogramEstimator(
             max_freq=max_frequency,
@@ -212,7 +215,6 @@ class HaloSimulator:
             )
 
         # convert result to a ReachPoint
-        impressions = self._data_set.impressions_by_spend(spends)
         if np.sum(impressions) <= kplus_reaches[0]:
             kplus_reaches = [max(np.sum(impressions) - 1, 1)] + [0] * max(
                 0, max_frequency - 1
-- 
2.43.0


From d80a2b54f6a2f693ffcbe66f4cfff3119beb53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:11 +0000
Subject: [PATCH 05/13] fix: clip a negative noised cardinality estimate at
 zero

A negative estimate scaled the Venn diagram regions to negative reaches, so
that larger subsets of publishers reached fewer people.
---
 src/simulator/halo_simulator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simulator/halo_simulator.py b/src/simulator/halo_simulator.py
index e21880c..bc98942 100644
--- a/src/simulator/halo_simulator.py
+++ b/src/simulator/halo_simulator.py
@@ -579,8 +579,13 @@ class HaloSimulator:
                 seed=self._params.generator.integers(low=0, high=1e9)
             ),
         )
-        cardinality_estimate = noiser(
-            self._params.generator.normal(true_cardinality, std_cardinality_estimate)
+        cardinality_estimate = max(
+            0,
+            noiser(
+                self._params.generator.normal(
+                    true_cardinality, std_cardinality_estimate
+                )
+            ),
         )
         noise_event = NoisingEvent(
             PrivacyBudget(
-- 
2.43.0


From 360c162b237cb0ee30dc3a795f364baa57096e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:57 +0000
Subject: [PATCH 06/13] fix: refuse multi-publisher training data in the
 k-inflated and Dirac mixture curves

---
 src/models/dirac_mixture_single_publisher_model.py | 1 +
 src/models/kinflated_gamma_poisson_model.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/models/dirac_mixture_single_publisher_model.py b/src/models/dirac_mixture_single_publisher_model.py
index 84b2608..71d080a 100644
--- a/src/models/dirac_mixture_single_publisher_model.py
+++ b/src/models/dirac_mixture_single_publisher_model.py
@@ -333,6 +333,7 @@ class DiracMixtureSinglePublisherModel(ReachCurve):
                 our experience, 100 components are enough, and more components
                 are also fine (they will not introduce overfitting).
         """
+        super().__init__(data)
         if len(data) != 1:
             raise ValueError("Exactly one ReachPoint must be specified")
         if data[0].impressions[0] < 0.001:
diff --git a/src/models/kinflated_gamma_poisson_model.py b/src/models/kinflated_gamma_poisson_model.py
index ea407e3..062cd15 100644
--- a/src/models/kinflated_gamma_poisson_model.py
+++ b/src/models/kinflated_gamma_poisson_model.py
@@ -256,6 +256,7 @@ class KInflatedGammaPoissonModel(ReachCurve):
             in the inventory is less than extrapolation_multiplier * the observed number
             of impressions in the data.
         """
+        super().__init__(data)
         if len(data) != 1:
             raise ValueError("Exactly one ReachPoint must be specified")
         if data[0].impressions[0] < 0.001:
-- 
2.43.0


From 799c1241b98cfeacb114628d585dda9fb636dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:57 +0000
Subject: [PATCH 07/13] fix: predict zero reach at zero impressions for a Goerg
 curve of zero reach

---
 src/models/goerg_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/goerg_model.py b/src/models/goerg_model.py
index 719afee..3761076 100644
--- a/src/models/goerg_model.py
+++ b/src/models/goerg_model.py
@@ -76,6 +76,10 @@ class GoergModel(ReachCurve):
             raise ValueError("Impressions vector must have a length of 1.")
         kplus_reach_list = []
         for k in range(1, max_frequency + 1):
+            if not impressions[0]:
+                # Avoids 0 / 0 for a curve that was fit to a reach of zero.
+                kplus_reach_list.append(0.0)
+                continue
             kplus_reach = (
                 self._rho * (impressions[0] / (impressions[0] + self._beta)) ** k
             )
-- 
2.43.0


From 3ea73a61f9dc7fb2c933655d3cf9787047703c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:16 +0000
Subject: [PATCH 08/13] fix: draw Latin hypercube test points from the trial's
 own random source

---
 .../latin_hypercube_random_test_point_generator.py    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/driver/latin_hypercube_random_test_point_generator.py b/src/driver/latin_hypercube_random_test_point_generator.py
index f5cfe4b..5dd923d 100644
--- a/src/driver/latin_hypercube_random_test_point_generator.py
+++ b/src/driver/latin_hypercube_random_test_point_generator.py
@@ -78,7 +78,16 @@ class LatinHypercubeRandomTestPointGenerator(TestPointGenerator):
             max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS),
             MAXIMUM_NUMBER_OF_TEST_POINTS,
         )
-        design = pyDOE.lhs(n=self._npublishers, samples=num_points, criterion="maximin")
+        # pyDOE draws from the global random source.  Seed it from this generator's
+        # own source, so that the points depend on nothing else, and put it back.
+        global_state = np.random.get_state()
+        np.random.seed(self._rng.integers(2 ** 32, dtype=np.uint32))
+        try:
+            design = pyDOE.lhs(
+                n=self._npublishers, samples=num_points, criterion="maximin"
+            )
+        finally:
+            np.random.set_state(global_state)
         design = design[self._rng.permutation(num_points), :][
             :, self._rng.permutation(self._npublishers)
         ]
-- 
2.43.0


From 6dee91e4db41440e7e89ca93c930a316f6c779f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:54 +0000
Subject: [PATCH 09/13] fix: tell trials apart that differ only in the Liquid
 Legions random seed

---
 src/simulator/system_parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator/system_parameters.py b/src/simulator/system_parameters.py
index 2d2a82d..7abd068 100644
--- a/src/simulator/system_parameters.py
+++ b/src/simulator/system_parameters.py
@@ -66,6 +66,10 @@ class SystemParameters(NamedTuple):
         ll_str = "decay_rate={},sketch_size={}".format(
             self.liquid_legions.decay_rate, self.liquid_legions.sketch_size
         )
+        # The default seed is not shown, so that the names of previously computed
+        # trials remain valid.
+        if self.liquid_legions.random_seed != LiquidLegionsParameters().random_seed:
+            ll_str += ",random_seed={}".format(self.liquid_legions.random_seed)
         return "spends=({}),{}".format(spend_str, ll_str)
 
     def update_from_dataset(self, dataset: DataSet) -> "SystemParameters":
-- 
2.43.0


From 4a782b188fc7cfa4f8337e22c2a23c2f67b94240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:44 +0000
Subject: [PATCH 10/13] fix: evaluating a trial no longer advances the
 generator shared with other trials

The generator held by a trial's system parameters is shared by every data
set the configuration is applied to, so the noise drawn by one trial
depended on which trials had been evaluated before it (and on whether
those were cached).  Each evaluation now draws from its own copy.
---
 src/driver/experimental_trial.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 2356818..3fcc97b 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -18,6 +18,7 @@ against a specific DataSet, with specific SystemParameters.
 """
 
 from absl import logging
+import copy
 from datetime import datetime
 import hashlib
 import numpy as np
@@ -172,9 +173,11 @@ class ExperimentalTrial:
 
         dataset = self._data_design.by_name(self._data_set_name)
         privacy_tracker = PrivacyTracker()
-        halo = HaloSimulator(
-            dataset, self._trial_descriptor.system_params, privacy_tracker
-        )
+        # The generator in the system parameters is shared between trials.  Each
+        # trial draws from its own copy, so that its result does not depend on
+        # which other trials were evaluated before it.
+        system_params = copy.deepcopy(self._trial_descriptor.system_params)
+        halo = HaloSimulator(dataset, system_params, privacy_tracker)
         privacy_budget = self._trial_descriptor.experiment_params.privacy_budget
         modeling_strategy = (
             self._trial_descriptor.modeling_strategy.instantiate_strategy()
@@ -182,9 +185,7 @@ class ExperimentalTrial:
         single_publisher_dataframe = pd.DataFrame()
         max_frequency = self._trial_descriptor.experiment_params.max_frequency
         try:
-            reach_surface = modeling_strategy.fit(
-                halo, self._trial_descriptor.system_params, privacy_budget
-            )
+            reach_surface = modeling_strategy.fit(halo, system_params, privacy_budget)
             test_points = list(
                 self._trial_descriptor.experiment_params.generate_test_points(
                     dataset, rng
-- 
2.43.0


From f23bb525fbcdbbaabaf3f862bac6ee30e7ebec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:06 +0000
Subject: [PATCH 11/13] fix: do not reuse the stored result of an evaluation
 that was cut short

A crash while a trial's result file is being written leaves a prefix of
it behind.  Many prefixes still parse as CSV, so a rerun reported the torn
row (or none at all) as the trial's result.  The pending entry is removed
only after the result has been written, so a result is reused only when
no pending entry remains.
---
 src/driver/experimental_trial.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 3fcc97b..9859783 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -149,7 +149,17 @@ class ExperimentalTrial:
         if trial_results_path.startswith("gs://"):
             filesystem.set_default_client_to_gs_client()
 
-        if filesystem.is_file(trial_results_path):
+        # The pending directory contains one entry for each currently executing
+        # experimental trial.  If a computation appears to hang, this can be
+        # used to check which evaluations are still pending.
+        experiment_dir_parent = filesystem.parent(self._experiment_dir)
+        pending_path = f"{experiment_dir_parent}/pending/{hashlib.md5(trial_results_path.encode()).hexdigest()}"
+
+        # A leftover pending entry means that an earlier evaluation was cut short,
+        # in which case the stored result may be incomplete and is not used.
+        if filesystem.is_file(trial_results_path) and not filesystem.is_file(
+            pending_path
+        ):
             logging.vlog(2, "  --> Returning previously computed result")
             try:
                 with filesystem.open(trial_results_path) as file:
@@ -160,11 +170,6 @@ class ExperimentalTrial:
                     2, f"  --> {e}. Failed reading existing result. Re-evaluate."
                 )
 
-        # The pending directory contains one entry for each currently executing
-        # experimental trial.  If a computation appears to hang, this can be
-        # used to check which evaluations are still pending.
-        experiment_dir_parent = filesystem.parent(self._experiment_dir)
-        pending_path = f"{experiment_dir_parent}/pending/{hashlib.md5(trial_results_path.encode()).hexdigest()}"
         filesystem.mkdir(filesystem.parent(pending_path), parents=True, exist_ok=True)
         filesystem.write_text(
             pending_path,
-- 
2.43.0


From 85f5b38e83e8bb0dbd52a4c8ea1429061d8780c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:50 +0000
Subject: [PATCH 12/13] fix: seed the global random source after the data set
 has been read

Reading a data set draws random publisher names from the global source,
but only if the data set is not cached in the process.  A strategy that
uses the global source therefore gave different results in worker
processes, or depending on which data sets had been read before.
---
 src/driver/experimental_trial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 9859783..b77c92e 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -142,7 +142,6 @@ class ExperimentalTrial:
         logging.vlog(2, f"Trial   {self._trial_descriptor}")
 
         rng = np.random.default_rng(seed=seed)
-        np.random.seed(seed)
 
         trial_results_path = self._compute_trial_results_path()
 
@@ -177,6 +176,9 @@ class ExperimentalTrial:
         )
 
         dataset = self._data_design.by_name(self._data_set_name)
+        # Reading a data set draws from the global random source, unless the data
+        # set has been read before.  So, the seed is set only now.
+        np.random.seed(seed)
         privacy_tracker = PrivacyTracker()
         # The generator in the system parameters is shared between trials.  Each
         # trial draws from its own copy, so that its result does not depend on
-- 
2.43.0


From 4ab92850bc57729d71934baf2636026d17fd8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:19 +0000
Subject: [PATCH 13/13] fix: single publisher analysis of a campaign that
 reaches nobody

The maximum nonzero frequency of a point without any reach is 0.  Taking
the maximum of an empty list instead failed the whole trial, so that all
scores of a model that worked were lost.
---
 src/driver/experimental_trial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index b77c92e..c268184 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -354,7 +354,8 @@ class ExperimentalTrial:
                         (i + 1)
                         for i, f in enumerate(training_point._kplus_reaches)
                         if f != 0
-                    ]
+                    ],
+                    default=0,
                 )
             ]
             if training_point._kplus_reaches
@@ -362,7 +363,12 @@ class ExperimentalTrial:
         )
         data_point = halo.true_reach_by_spend(halo.campaign_spends, max_frequency)
         results["max_nonzero_frequency_from_data"] = (
-            [max([(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0])]
+            [
+                max(
+                    [(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0],
+                    default=0,
+                )
+            ]
             if data_point._kplus_reaches
             else [0]
         )
-- 
2.43.0

