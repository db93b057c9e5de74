From b627a97a3438091292868fc6abe74474ef4dc9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 01/10] fix: import randint in data_set, used to name anonymous
 data sets

---
 src/data_generators/data_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 50e6789..a774a28 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
     filesystem_wrapper_base,
-- 
2.43.0


From 1d16f025740f945683e4640820e04949a6a58f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 02/10] fix: name publishers read from disk after the file, not
 its full path

---
 src/data_generators/data_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index a774a28..f8b089f 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -272,7 +272,7 @@ class DataSet:
                 with filesystem.open(filepath) as file:
                     try:
                         pdf = PublisherData.read_publisher_data(file)
-                        pdf.name = str(filepath)
+                        pdf.name = filesystem.name(filepath)
                         pdf_list.append(pdf)
                     except (ValueError, RuntimeError) as e:
                         raise RuntimeError(
-- 
2.43.0


From f2eebdd04a5d5fe45cf4a7d385c283052cb3b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 03/10] fix: honour the minimum number of uniformly random test
 points

---
 src/driver/uniformly_random_test_point_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/uniformly_random_test_point_generator.py b/src/driver/uniformly_random_test_point_generator.py
index da57b74..a7857c3 100644
--- a/src/driver/uniformly_random_test_point_generator.py
+++ b/src/driver/uniformly_random_test_point_generator.py
@@ -70,5 +70,5 @@ class UniformlyRandomTestPointGenerator(TestPointGenerator):
           surface.
         """
         num_points = max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS)
-        for i in range(self._npoints):
+        for i in range(num_points):
             yield list(self._max_spends * self._rng.random(size=self._npublishers))
-- 
2.43.0


From a2cd794464b5066e75f882d5b7ef843b456e9c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:17 +0000
Subject: [PATCH 04/10] fix: answer impressions_by_spend from the sorted
 impression log

---
 src/data_generators/publisher_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/publisher_data.py b/src/data_generators/publisher_data.py
index b90c2d8..c1f32c6 100644
--- a/src/data_generators/publisher_data.py
+++ b/src/data_generators/publisher_data.py
@@ -80,7 +80,7 @@ class PublisherData:
         self._name = name
         if not self._name:
             self._name = "{:012d}".format(randint(0, 1e12))
-        self._spends = [spend for (_, spend) in impression_log_data]
+        self._spends = [spend for (_, spend) in self._data]
         self._max_spend = max([spend for (_, spend) in impression_log_data])
         self._max_reach = len(set([id for (id, _) in impression_log_data]))
 
-- 
2.43.0


From 85702c59ab0776f88616ea8b96808e3ac9fd7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:17 +0000
Subject: [PATCH 05/10] fix: lazy fit of the k-inflated model no longer depends
 on the first query

---
 src/models/kinflated_gamma_poisson_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/kinflated_gamma_poisson_model.py b/src/models/kinflated_gamma_poisson_model.py
index ea407e3..078f026 100644
--- a/src/models/kinflated_gamma_poisson_model.py
+++ b/src/models/kinflated_gamma_poisson_model.py
@@ -623,7 +623,7 @@ class KInflatedGammaPoissonModel(ReachCurve):
         if len(impressions) != 1:
             raise ValueError("Impressions vector must have a length of 1.")
 
-        self._fit(impressions[0] + 1)
+        self._fit()
 
         p = min(impressions[0] / self._max_impressions, 1.0)
         freqs = self._max_reach * self._dist.kreach(np.arange(1, max_frequency), p)
-- 
2.43.0


From c985e8a4087c9bb13e3d93577e41de8474bee5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:03 +0000
Subject: [PATCH 06/10] fix: k-inflated and Dirac mixture models copy their
 training data

---
 src/models/dirac_mixture_single_publisher_model.py | 2 +-
 src/models/kinflated_gamma_poisson_model.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/dirac_mixture_single_publisher_model.py b/src/models/dirac_mixture_single_publisher_model.py
index 84b2608..57358b3 100644
--- a/src/models/dirac_mixture_single_publisher_model.py
+++ b/src/models/dirac_mixture_single_publisher_model.py
@@ -333,6 +333,7 @@ class DiracMixtureSinglePublisherModel(ReachCurve):
                 our experience, 100 components are enough, and more components
                 are also fine (they will not introduce overfitting).
         """
+        super().__init__(data)
         if len(data) != 1:
             raise ValueError("Exactly one ReachPoint must be specified")
         if data[0].impressions[0] < 0.001:
@@ -341,7 +342,6 @@ class DiracMixtureSinglePublisherModel(ReachCurve):
             raise ValueError(
                 "Cannot have a model with fewer impressions than reached people"
             )
-        self._data = data
         self._reach_point = data[0]
         self.hist = np.array(self._reach_point.zero_included_histogram)
         if data[0].spends:
diff --git a/src/models/kinflated_gamma_poisson_model.py b/src/models/kinflated_gamma_poisson_model.py
index 078f026..e1d5e59 100644
--- a/src/models/kinflated_gamma_poisson_model.py
+++ b/src/models/kinflated_gamma_poisson_model.py
@@ -256,6 +256,7 @@ class KInflatedGammaPoissonModel(ReachCurve):
             in the inventory is less than extrapolation_multiplier * the observed number
             of impressions in the data.
         """
+        super().__init__(data)
         if len(data) != 1:
             raise ValueError("Exactly one ReachPoint must be specified")
         if data[0].impressions[0] < 0.001:
@@ -264,7 +265,6 @@ class KInflatedGammaPoissonModel(ReachCurve):
             raise ValueError(
                 "Cannot have a model with fewer impressions than reached people"
             )
-        self._data = data
         self._reach_point = data[0]
         self._kmax = kmax
         self._debug = debug
-- 
2.43.0


From c8cf9848947063c0fdbd1181875b8a839deed2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:21 +0000
Subject: [PATCH 07/10] fix: seed the default generator of
 HomogeneousImpressionGenerator like its siblings

---
 src/data_generators/homogeneous_impression_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/homogeneous_impression_generator.py b/src/data_generators/homogeneous_impression_generator.py
index a330566..02b0c2e 100644
--- a/src/data_generators/homogeneous_impression_generator.py
+++ b/src/data_generators/homogeneous_impression_generator.py
@@ -49,7 +49,7 @@ class HomogeneousImpressionGenerator(ImpressionGenerator):
         if random_generator:
             self.random_generator = random_generator
         else:
-            self.random_generator = default_rng()
+            self.random_generator = default_rng(seed=1)
 
     def __call__(self) -> List[int]:
         """Generate a random sequence of impressions.
-- 
2.43.0


From 85cf56030b5b7842a75ae4433e968f23cb353636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 08/10] fix: make the test points of a trial depend only on the
 data set and the seed

---
 src/driver/experimental_trial.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 2356818..b43b499 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -140,9 +140,6 @@ class ExperimentalTrial:
         logging.vlog(2, f"Dataset {self._data_set_name}")
         logging.vlog(2, f"Trial   {self._trial_descriptor}")
 
-        rng = np.random.default_rng(seed=seed)
-        np.random.seed(seed)
-
         trial_results_path = self._compute_trial_results_path()
 
         if trial_results_path.startswith("gs://"):
@@ -181,15 +178,20 @@ class ExperimentalTrial:
         )
         single_publisher_dataframe = pd.DataFrame()
         max_frequency = self._trial_descriptor.experiment_params.max_frequency
+        # Seeding happens after the data set is loaded (loading may or may not draw
+        # random numbers, as it is cached), and the test points are generated before
+        # the model is fit, so that they depend on nothing but the seed.
+        rng = np.random.default_rng(seed=seed)
+        np.random.seed(seed)
         try:
-            reach_surface = modeling_strategy.fit(
-                halo, self._trial_descriptor.system_params, privacy_budget
-            )
             test_points = list(
                 self._trial_descriptor.experiment_params.generate_test_points(
                     dataset, rng
                 )
             )
+            reach_surface = modeling_strategy.fit(
+                halo, self._trial_descriptor.system_params, privacy_budget
+            )
             true_reach = [
                 halo.true_reach_by_spend(
                     t, self._trial_descriptor.experiment_params.max_frequency
-- 
2.43.0


From 884d077c127c5d8370f75e0c032cf1a35fa1c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 09/10] fix: give each trial its own noise generator so results
 do not depend on earlier trials

---
 src/driver/experimental_trial.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index b43b499..34d541f 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -169,9 +169,12 @@ class ExperimentalTrial:
 
         dataset = self._data_design.by_name(self._data_set_name)
         privacy_tracker = PrivacyTracker()
-        halo = HaloSimulator(
-            dataset, self._trial_descriptor.system_params, privacy_tracker
+        # The generator in the descriptor may be shared with other trials, so each
+        # trial draws its noise from a generator of its own.
+        system_params = self._trial_descriptor.system_params._replace(
+            generator=np.random.default_rng(seed=seed)
         )
+        halo = HaloSimulator(dataset, system_params, privacy_tracker)
         privacy_budget = self._trial_descriptor.experiment_params.privacy_budget
         modeling_strategy = (
             self._trial_descriptor.modeling_strategy.instantiate_strategy()
@@ -189,9 +192,7 @@ class ExperimentalTrial:
                     dataset, rng
                 )
             )
-            reach_surface = modeling_strategy.fit(
-                halo, self._trial_descriptor.system_params, privacy_budget
-            )
+            reach_surface = modeling_strategy.fit(halo, system_params, privacy_budget)
             true_reach = [
                 halo.true_reach_by_spend(
                     t, self._trial_descriptor.experiment_params.max_frequency
-- 
2.43.0


From ce597a80a5814e9b1a7a3c7e8eb1a9a4ec9d2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:03 +0000
Subject: [PATCH 10/10] fix: single publisher models use their own copy of the
 training point

The models copied the training points but kept a reference to the caller's
point, which the lazy fit and later queries read.
---
 src/models/dirac_mixture_single_publisher_model.py | 2 +-
 src/models/gamma_poisson_model.py                  | 2 +-
 src/models/kinflated_gamma_poisson_model.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/dirac_mixture_single_publisher_model.py b/src/models/dirac_mixture_single_publisher_model.py
index 57358b3..029f28e 100644
--- a/src/models/dirac_mixture_single_publisher_model.py
+++ b/src/models/dirac_mixture_single_publisher_model.py
@@ -342,7 +342,7 @@ class DiracMixtureSinglePublisherModel(ReachCurve):
             raise ValueError(
                 "Cannot have a model with fewer impressions than reached people"
             )
-        self._reach_point = data[0]
+        self._reach_point = self._data[0]
         self.hist = np.array(self._reach_point.zero_included_histogram)
         if data[0].spends:
             self._cpi = data[0].spends[0] / data[0].impressions[0]
diff --git a/src/models/gamma_poisson_model.py b/src/models/gamma_poisson_model.py
index d3aca19..968d017 100644
--- a/src/models/gamma_poisson_model.py
+++ b/src/models/gamma_poisson_model.py
@@ -140,7 +140,7 @@ class GammaPoissonModel(ReachCurve):
             raise ValueError(
                 "Cannot have a model with fewer impressions than reached people"
             )
-        self._reach_point = data[0]
+        self._reach_point = self._data[0]
         self._max_reach = max_reach
         self._extrapolation_multiplier = extrapolation_multiplier
         self._extrapolation_value = extrapolation_multiplier * data[0].impressions[0]
diff --git a/src/models/kinflated_gamma_poisson_model.py b/src/models/kinflated_gamma_poisson_model.py
index e1d5e59..000e609 100644
--- a/src/models/kinflated_gamma_poisson_model.py
+++ b/src/models/kinflated_gamma_poisson_model.py
@@ -265,7 +265,7 @@ class KInflatedGammaPoissonModel(ReachCurve):
             raise ValueError(
                 "Cannot have a model with fewer impressions than reached people"
             )
-        self._reach_point = data[0]
+        self._reach_point = self._data[0]
         self._kmax = kmax
         self._debug = debug
         self._fit_computed = False
-- 
2.43.0

