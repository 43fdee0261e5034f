From 1f3b5dccbb50b480817ee69fe034d3e1632768c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 01/72] fix: keep a transition's label images independent of
 its raw images

Transition.to_proto decided whether to store a label image from the presence
of the raw image: labels without an image were dropped, and an image without a
label failed to serialize.
---
 putting_dune/microscope_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0930f2f..f20ac76 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -701,12 +701,12 @@ class Transition(ProtoModel[putting_dune_pb2.Transition]):
 
     label_image_before = (
         tf.make_tensor_proto(self.label_image_before)
-        if self.image_before is not None
+        if self.label_image_before is not None
         else None
     )
     label_image_after = (
         tf.make_tensor_proto(self.label_image_after)
-        if self.image_after is not None
+        if self.label_image_after is not None
         else None
     )
 
-- 
2.43.0


From 6e1b85a80b3ea68cc8216f0a85d7f9158a8f7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 02/72] fix: read a stored drift vector as floats

Drift.from_proto read the drift into an integer array, truncating it to whole
angstroms.
---
 putting_dune/microscope_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index f20ac76..d4d4070 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -812,7 +812,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
     num_atoms = len(proto_drift.jitter)
 
     jitter = np.empty((num_atoms, 2), dtype=np.float32)
-    drift = np.empty(2, dtype=np.int32)
+    drift = np.empty(2, dtype=np.float32)
 
     for i, atom in enumerate(proto_drift.jitter):
       jitter[i, 0] = atom.x
-- 
2.43.0


From 71b5aa308fde5d006600289cf7520476da13cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 03/72] fix: keep the label image when applying a drift to an
 observation

---
 putting_dune/microscope_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d4d4070..d7b8177 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -803,6 +803,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
         controls=observation.controls,
         elapsed_time=observation.elapsed_time,
         image=observation.image,
+        label_image=observation.label_image,
     )
     return shifted_observation
 
-- 
2.43.0


From 91f6988a51ee5a2264058a1b64873025c6fd0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 04/72] fix: compare empty atomic grids instead of raising

The nearest-neighbor search behind AtomicGrid equality rejects an empty grid.
---
 putting_dune/microscope_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d7b8177..7eb24e5 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -156,6 +156,8 @@ class AtomicGrid(ProtoModel[putting_dune_pb2.AtomicGrid]):
       return False
     if self.atomic_numbers.shape != other.atomic_numbers.shape:
       return False
+    if not self.atomic_numbers.size:
+      return True
 
     neighbor_distances, neighbor_indices = (
         neighbors.NearestNeighbors(n_neighbors=1)
-- 
2.43.0


From 11d66f362bd21bc10e7be0a0047f1e4883e49a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 05/72] fix: point the human prior's peak at the neighbor it
 belongs to

HumanPriorRatePredictor rotated its mean clockwise by the neighbor's
(counter-clockwise) angle, so the most likely beam position for a neighbor at
+60 degrees was at -60 degrees.
---
 putting_dune/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 746c636..1d90afc 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,7 +220,7 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, -angle)
+      rotated_mean = geometry.rotate_coordinates(self.mean, angle)
       rate = single_silicon_prior_rates(
           relative_beam_position, rotated_mean, self.cov, self.max_rate
       )
-- 
2.43.0


From 454f4c6514855a9299f28c21f979c1eb94259f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 06/72] fix: treat a total rate of zero as no transition

1.0 / total_rate raised ZeroDivisionError when a rate function returned plain
float zeros.
---
 putting_dune/graphene.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 1d90afc..039a0b9 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -659,6 +659,8 @@ class PristineSingleDopedGraphene(Material):
       rates = self._rate_function(
           self.grid, geometry.PointMaterialFrame(control.position)
       )
+      if rates.total_rate <= 0:
+        break  # No transition can happen from this state.
 
       # The time at which the next transition takes place is modeled
       # by an exponential distribution, with the total rate as the
-- 
2.43.0


From 988090a64838d227d917d311a63cf6a06362e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 07/72] fix: do not invent a transition after one hour of
 exposure

Waiting times were clipped to one hour, so that an exposure of an hour or more
always ended in transitions, however small the rates.
---
 putting_dune/graphene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 039a0b9..767daf2 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -666,8 +666,9 @@ class PristineSingleDopedGraphene(Material):
       # by an exponential distribution, with the total rate as the
       # parameter. Scale is the inverse rate.
       transition_seconds = rng.exponential(scale=1.0 / rates.total_rate)
-      # Avoid np.inf when using very small rates. Clip arbitrarily to 1 hour.
-      transition_seconds = min(transition_seconds, 3600)
+      # With very small rates this can be arbitrarily long, or np.inf.
+      if transition_seconds > control.dwell_time.total_seconds():
+        break
       transition_time = dt.timedelta(seconds=transition_seconds)
       elapsed_time += transition_time
 
-- 
2.43.0


From 805f544959d9ef943b7030d2b8104aa13842bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 08/72] fix: pass a control's voltage and current on to the
 material

The simulator rebuilt each control from its position and dwell time only, so
the material and the observers saw the default voltage and current.
---
 putting_dune/simulator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/putting_dune/simulator.py b/putting_dune/simulator.py
index 26618ea..1025bde 100644
--- a/putting_dune/simulator.py
+++ b/putting_dune/simulator.py
@@ -134,11 +134,8 @@ class PuttingDuneSimulator:
     for control in controls:
       # Convert the control from the microscope frame to material frame.
       # TODO(joshgreaves): Control clipping to [0, 1]?
-      control_position = self._fov.microscope_frame_to_material_frame(
-          control.position
-      )
       control = microscope_utils.BeamControlMaterialFrame(
-          microscope_utils.BeamControl(control_position, control.dwell_time)
+          self._fov.microscope_frame_to_material_frame(control)
       )
 
       for observer in self._observers:
-- 
2.43.0


From 10a4ba7be6407fa8bd74aa996fd8c216b2e8d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 09/72] fix: follow the same silicon in every part of the
 features

With no silicon in view the goal delta raised a ValueError rather than
SiliconNotFoundError, and with several it could not be computed at all.
---
 putting_dune/feature_constructors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/feature_constructors.py b/putting_dune/feature_constructors.py
index 410f980..17b87e1 100644
--- a/putting_dune/feature_constructors.py
+++ b/putting_dune/feature_constructors.py
@@ -66,7 +66,7 @@ def _get_silicon_goal_delta(
     goal: goals.SingleSiliconGoalReaching,
 ) -> np.ndarray:
   """Gets the delta from the current silicon position to goal in angstroms."""
-  silicon_position = graphene.get_silicon_positions(grid).reshape(2)
+  silicon_position = graphene.get_single_silicon_position(grid)
   silicon_position_material_frame = fov.microscope_frame_to_material_frame(
       silicon_position
   )
@@ -188,7 +188,10 @@ class SingleSiliconMaterialFrameFeatureConstructor(FeatureConstructor):
     goal = typing.cast(goals.SingleSiliconGoalReaching, goal)
     grid = observation.fov.microscope_frame_to_material_frame(observation.grid)
 
-    silicon_position = graphene.get_single_silicon_position(grid)
+    # Which silicon to follow is decided in the microscope frame.
+    silicon_position = observation.fov.microscope_frame_to_material_frame(
+        graphene.get_single_silicon_position(observation.grid)
+    )
 
     # Ensure the silicon position shape is correct.
     silicon_position = silicon_position.reshape(2)
-- 
2.43.0


From c4a0f6959413df55416a36755ffe03041071c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 10/72] fix: number an episode's record as its steps are
 numbered

---
 putting_dune/microscope_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 69e07bb..a206654 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -225,8 +225,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> None:
     if self._episode_step > 0:
-      self._episode += 1
       self._episode_records.append(self._make_episode_record())
+      self._episode += 1
     if self._current_trajectory:
       self._trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
-- 
2.43.0


From b290f6238cd50f2f079d1942da56dc94a92dc58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 11/72] fix: flushing the agent's log twice does not write an
 episode twice

---
 putting_dune/microscope_agent.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index a206654..fb2d351 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -188,17 +188,19 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       self.flush()
 
   def flush(self) -> None:
+    # The episode in progress may go on after this, so it is written without
+    # being added to the finished ones.
+    trajectories = list(self._trajectories)
+    episode_records = list(self._episode_records)
     if self._current_trajectory:
-      self._trajectories.append(
-          microscope_utils.Trajectory(self._current_trajectory)
-      )
+      trajectories.append(microscope_utils.Trajectory(self._current_trajectory))
     if self._episode_step != 0:
-      self._episode_records.append(self._make_episode_record())
+      episode_records.append(self._make_episode_record())
 
     # Write the records
     pdio.write_records(
         self._logdir / 'trajectories.tfrecords',
-        self._trajectories,
+        trajectories,
     )
 
     # Write steps
@@ -216,7 +218,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
           fp, fieldnames=typing.get_type_hints(EpisodeRecord).keys()
       )
       writer.writeheader()
-      for record in self._episode_records:
+      for record in episode_records:
         writer.writerow(record)
 
   def reset(
-- 
2.43.0


From 6f19bcfac01bf2a86a7a8b6256bf9852bf2123b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 12/72] fix: log a step without silicon instead of failing on
 it

The logger also asked the goal a second time for every step, which goals
do not expect.
---
 putting_dune/microscope_agent.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index fb2d351..1ff3cab 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -48,6 +48,8 @@ class MicroscopeAgent:
     self.feature_constructor = adapters_and_goal.feature_constructor
     self.goal = adapters_and_goal.goal
     self._is_first_step = True
+    # What the goal returned for the last step.
+    self.last_goal_return = goals.GoalReturn(0.0, False, False)
 
   def reset(
       self,
@@ -73,6 +75,7 @@ class MicroscopeAgent:
       # TODO(joshgreaves): This is desirable for now, but we will need to
       # rethink it in the future.
       # If we couldn't find a silicon, rescan.
+      self.last_goal_return = goals.GoalReturn(0.0, False, False)
       return [
           microscope_utils.BeamControlMicroscopeFrame(
               microscope_utils.BeamControl(
@@ -82,6 +85,7 @@ class MicroscopeAgent:
           )
       ]
 
+    self.last_goal_return = goal_return
     elapsed_seconds = observation.elapsed_time.total_seconds()
     discount = constants.GAMMA_PER_SECOND**elapsed_seconds
 
@@ -245,9 +249,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-        observation
-    )
+    # The goal expects to be asked once per step, so don't ask it again.
+    goal_return = self.__wrapped__.last_goal_return
     self._episode_step += 1
     self._episode_return += goal_return.reward
 
-- 
2.43.0


From 6324351279853e10abd0d7006501fa2a3c11c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 13/72] fix: tell the two lattice sites apart by bond
 direction, not wrapped angles

---
 putting_dune/alignment.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 2caa0e0..c5486ae 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -826,6 +826,24 @@ def naive_merge(
   return positions, counts
 
 
+def _get_bond_orientations(relative_neighbor_positions: np.ndarray) -> np.ndarray:
+  """Describes the directions of an atom's bonds, regardless of their order.
+
+  Bonds are 120 degrees apart, so tripling their angles makes them coincide,
+  and the two types of lattice atom, which are 60 degrees apart, opposite.
+
+  Args:
+    relative_neighbor_positions: (num_atoms, 3, 2) offsets to the neighbors.
+
+  Returns:
+    (num_atoms, 2) array of the mean direction of the tripled angles.
+  """
+  angles = 3 * np.stack(
+      [geometry.get_angles(x) for x in relative_neighbor_positions]
+  )
+  return np.stack([np.cos(angles), np.sin(angles)], axis=-1).mean(axis=1)
+
+
 def get_lattice_clusterer(grid: np.ndarray) -> cluster.KMeans:
   """Trains a K-Means model to classify lattice atoms based on bond angles.
 
@@ -847,13 +865,8 @@ def get_lattice_clusterer(grid: np.ndarray) -> cluster.KMeans:
   neighbor_positions = grid[neighbors]
   relative_neighbor_positions = neighbor_positions - grid[:, None]
 
-  angles = np.stack(
-      [geometry.get_angles(x) for x in relative_neighbor_positions]
-  )
-  angles = np.sort(angles, axis=-1)
-
   clusters = cluster.KMeans(2)
-  clusters.fit(angles)
+  clusters.fit(_get_bond_orientations(relative_neighbor_positions))
   return clusters
 
 
@@ -882,10 +895,9 @@ def classify_lattice_types(
   neighbor_positions = grid[neighbors]
   relative_neighbor_positions = neighbor_positions - grid[:, None]
 
-  angles = np.stack(
-      [geometry.get_angles(x) for x in relative_neighbor_positions]
+  classes = clusters.predict(
+      _get_bond_orientations(relative_neighbor_positions)
   )
-  classes = clusters.predict(angles)
   classes = propagate_graphene_classes(classes, grid)
 
   return classes
-- 
2.43.0


From f8e8c2b3fba45f542c794f4c3ff3a5ac0cbe62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 14/72] fix: keep one alignment's drift out of the next one's
 starting point

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index c5486ae..6af6093 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -121,7 +121,7 @@ def align_latest(
   if init_shift is None:
     cumulative_drift = np.zeros(new_coordinates.shape[-1])
   else:
-    cumulative_drift = init_shift
+    cumulative_drift = np.array(init_shift, dtype=float)
   noise_scales = np.linspace(noise_scale, 0, num=iterations)
   class_masks = [new_classes == i for i in set(new_classes)]
   reference_class_masks = [reference_classes == i for i in set(new_classes)]
-- 
2.43.0


From 6ed15c89aa61898ef8bc33e1ec9cf3461304fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 15/72] fix: merge points without moving the caller's first set
 of them

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 6af6093..f2ba698 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -801,7 +801,7 @@ def naive_merge(
       mapped to each merged point.
   """
   coordinates = [c for c in coordinates if c.shape[0]]
-  positions = coordinates[0]
+  positions = coordinates[0].copy()
   counts = np.ones(coordinates[0].shape[:1])
 
   for m in coordinates[1:]:
-- 
2.43.0


From e4993b0137d9eacc7643f667856d7714235bcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 16/72] fix: give a mask the rows and columns asked for

---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 12874d2..fbcd991 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -98,7 +98,7 @@ def generate_grid_mask(
   # We need to work with a grid in the material frame to work out distances
   # in angstroms.
   material_grid = fov.microscope_frame_to_material_frame(grid)
-  mask = np.zeros(image_dimensions, dtype=np.uint8)
+  mask = np.zeros((height, width), dtype=np.uint8)
 
   for pos, atomic_number in zip(
       material_grid.atom_positions, material_grid.atomic_numbers
-- 
2.43.0


From 94bad7dcebd92b908b031eb055bdac12f6019405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 17/72] fix: keep atoms round in an image of an oblong field of
 view

---
 putting_dune/imaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index fbcd991..a67d914 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -158,7 +158,8 @@ def generate_clean_image(
   # For example, at 512 pixels with 20 angstrom FOV => sigma = 12
   # => sigma = 200 / FOV ~= image_size / (2 * FOV)
   # Empirically, this looks about right.
-  sigma = (image_size / (2.15 * fov_width), image_size / (2.15 * fov_height))
+  # The rows of the image run along y, and its columns along x.
+  sigma = (image_size / (2.15 * fov_height), image_size / (2.15 * fov_width))
 
   image = ndimage.gaussian_filter(image, sigma, mode='constant')
 
-- 
2.43.0


From a9800b3283809b1163ac24c4675cf25a29d88b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 18/72] fix: render a view without atoms as a dark image
 instead of NaN

---
 putting_dune/imaging.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index a67d914..a2d132a 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -72,6 +72,11 @@ def sample_noisy_image_parameters(
   )
 
 
+def _normalize(image: np.ndarray) -> np.ndarray:
+  """Scales an image to a maximum of 1, leaving a dark one dark."""
+  return image / (np.max(image) or 1.0)
+
+
 def generate_grid_mask(
     grid: microscope_utils.AtomicGrid,
     fov: microscope_utils.MicroscopeFieldOfView,
@@ -169,7 +174,7 @@ def generate_clean_image(
   ]
 
   # Normalize
-  image = image / np.max(image)
+  image = _normalize(image)
 
   return image
 
@@ -201,7 +206,7 @@ def apply_poisson_noise(
     image: np.ndarray, poisson_rate_multiplier: float, rng: np.random.Generator
 ) -> np.ndarray:
   image = rng.poisson(image * poisson_rate_multiplier)
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_salt_and_pepper_noise(
@@ -212,7 +217,7 @@ def apply_salt_and_pepper_noise(
 
 def apply_blur(image: np.ndarray, amount: float) -> np.ndarray:
   image = ndimage.gaussian_filter(image, amount)
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_contrast(image: np.ndarray, gamma: float) -> np.ndarray:
@@ -226,7 +231,7 @@ def apply_exponential_noise(
 ) -> np.ndarray:
   noise = rng.exponential(noise_scale, size=image.shape)
   image = image + noise
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def apply_uniform_noise(
@@ -234,7 +239,7 @@ def apply_uniform_noise(
 ) -> np.ndarray:
   noise = rng.uniform(0.0, noise_scale, size=image.shape)
   image = image + noise
-  return image / np.max(image)
+  return _normalize(image)
 
 
 def generate_stem_image(
-- 
2.43.0


From 17182aa06b35218ab1bcede0d991e1c6e41d6951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 19/72] fix: find one centroid per atom instead of wrapping
 distances around

---
 putting_dune/atom_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 69c9742..2ec9890 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -51,7 +51,7 @@ def compute_centroids(
 
   # Perform distance transform on the masked image
   dists = cv2.distanceTransform(masked, cv2.DIST_L2, cv2.DIST_MASK_PRECISE)
-  dists = (dists * 255).astype(np.uint8)
+  dists = np.minimum(dists * 255, 255).astype(np.uint8)
 
   # Threshold the distances by the threshold value.
   _, dists = cv2.threshold(dists, threshold_value, 255, cv2.THRESH_BINARY)
-- 
2.43.0


From 3a7c45afe010c41e8d6097a08b91459d71e94b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 20/72] fix: report an atom of a single pixel where it is, not
 in the corner

---
 putting_dune/atom_detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 2ec9890..19cb8bf 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -71,7 +71,8 @@ def compute_centroids(
       c_x = int(m["m10"] / m["m00"])
       c_y = int(m["m01"] / m["m00"])
     else:
-      c_x, c_y = 0, 0
+      # There is no area to take moments of, such as in a single pixel.
+      c_x, c_y = (int(c) for c in contour.reshape(-1, 2).mean(axis=0))
 
     # Normalize centroid values so that 0,0 is bottom left and 1,1 is top right
     centroids.append((c_x / 256, 1.0 - c_y / 256))
-- 
2.43.0


From 18a5298620b9c019f5c8eaabc7b96f110445179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 21/72] fix: detect atoms in images that lack carbon or silicon

---
 putting_dune/atom_detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 19cb8bf..2249e3e 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -176,11 +176,11 @@ class AtomDetector:
 
     return microscope_utils.AtomicGridMicroscopeFrame(
         microscope_utils.AtomicGrid(
-            atom_positions=np.concatenate(
-                [carbon_centroids, silicon_centroids]
+            atom_positions=np.reshape(
+                carbon_centroids + silicon_centroids, (-1, 2)
             ),
             atomic_numbers=np.concatenate(
                 [carbon_atomic_numbers, silicon_atomic_numbers]
-            ),
+            ).astype(np.int32),
         )
     )
-- 
2.43.0


From c6d770a62fd6862c2d451724a454465869b44eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 22/72] fix: normalize centroids by the image's own width and
 height

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index f2ba698..e0b3dae 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -399,7 +399,7 @@ class ImageAligner:
         c_x, c_y = 0, 0
 
       # Normalize so that 0,0 is bottom left and 1,1 is top right
-      centroids.append((c_x / classes.shape[0], 1.0 - c_y / classes.shape[1]))
+      centroids.append((c_x / classes.shape[1], 1.0 - c_y / classes.shape[0]))
     return centroids
 
   @classmethod
-- 
2.43.0


From 2ad3148da5cb32ae7d43f2b0f30df8e8772b1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 23/72] fix: do not report a blob without area as an atom in
 the corner

---
 putting_dune/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index e0b3dae..8d996ae 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -396,7 +396,8 @@ class ImageAligner:
         c_x = int(m['m10'] / m['m00'])
         c_y = int(m['m01'] / m['m00'])
       else:
-        c_x, c_y = 0, 0
+        # Without an area this is too small a blob to be an atom.
+        continue
 
       # Normalize so that 0,0 is bottom left and 1,1 is top right
       centroids.append((c_x / classes.shape[1], 1.0 - c_y / classes.shape[0]))
-- 
2.43.0


From f6a51cd0af2ace4d1e8cd723a06891a0f0d267da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 24/72] fix: silicon was only detected where softmax rounds to
 exactly 1

---
 putting_dune/atom_detector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 2249e3e..be062a6 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -157,6 +157,11 @@ class AtomDetector:
 
     # Silicon is 2-indexed
     silicon_probs = np.asarray(probs[:, :, 2])
+    # Only certain silicon counts. Depending on the kernel, a 32 bit softmax may
+    # fall short of 1 by a rounding error.
+    _, silicon_probs = cv2.threshold(
+        silicon_probs, 1.0 - 1e-6, 1.0, cv2.THRESH_BINARY
+    )
     # Mask the silicon segmentation with the dilated carbon segmentation.
 
     # Mask out any silicon that overlaps with likely carbon
-- 
2.43.0


From 5156c31a36d04f102e05101b8f6ec5e54eb97d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 25/72] fix: carbon without any silicon probability was
 detected as silicon

---
 putting_dune/atom_detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index be062a6..027633a 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -165,7 +165,9 @@ class AtomDetector:
     # Mask the silicon segmentation with the dilated carbon segmentation.
 
     # Mask out any silicon that overlaps with likely carbon
-    masked_silicon_probs = cv2.bitwise_xor(silicon_probs, dilated_carbon_probs)
+    masked_silicon_probs = np.where(
+        dilated_carbon_probs > 0, 0.0, silicon_probs
+    )
 
     # Find the centroids for both the carbon and silicon layers
     carbon_centroids = compute_centroids(carbon_probs.astype(np.uint8), 1, 25)
-- 
2.43.0


From 437bc6c267d80ca3ce5e111c3dc0ace2e3137a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 26/72] fix: atom detector only accepted 32 bit images

---
 putting_dune/atom_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 027633a..649d220 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -133,6 +133,7 @@ class AtomDetector:
         (256, 256),
         method="nearest",
     )
+    image = tf.cast(image, tf.float32)
     image_min, image_max = tf.reduce_min(image), tf.reduce_max(image)
     image = (image - image_min) / (image_max - image_min)
 
-- 
2.43.0


From 71ed452ddbca15241e53003a7026b4b7341c6e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 27/72] fix: a blank image was normalized to NaN

---
 putting_dune/alignment.py     | 2 +-
 putting_dune/atom_detector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 8d996ae..4ba3d98 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -531,7 +531,7 @@ class ImageAligner:
         method='nearest',
     )
     image_min, image_max = tf.reduce_min(image), tf.reduce_max(image)
-    image = (image - image_min) / (image_max - image_min)
+    image = tf.math.divide_no_nan(image - image_min, image_max - image_min)
     if self.needs_reset:
       self.reset(history_length=self.history_length, example_image=image)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 649d220..7dd57b2 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -135,7 +135,7 @@ class AtomDetector:
     )
     image = tf.cast(image, tf.float32)
     image_min, image_max = tf.reduce_min(image), tf.reduce_max(image)
-    image = (image - image_min) / (image_max - image_min)
+    image = tf.math.divide_no_nan(image - image_min, image_max - image_min)
 
     # Feed image through the detection model to get the logits
     logits = self.model.signatures["serving_default"](
-- 
2.43.0


From 0a8c3d6626aa20230fb7b1c688ceea8c6a3ce671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 28/72] fix: synthetic prior data numbered neighbors clockwise

---
 putting_dune/rate_learning/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index f5b457f..5d0a8e1 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -255,6 +255,9 @@ def generate_synthetic_data(
         cov=constants.SIGR_PRIOR_RATE_COV,
         max_rate=constants.SIGR_PRIOR_MAX_RATE,
     )
+    # Turning the position by n steps yields the rate of the neighbor n steps
+    # clockwise, while states are counted counter-clockwise.
+    rates = jnp.roll(rates[::-1], 1)
     total_rate = jnp.sum(rates, -1)
     p = rates / total_rate
     next_state = jax.random.choice(state_key, len(rates), (), p=p)
-- 
2.43.0


From 07623970c8b31dc6fd0b20fd49e8e7b991cf220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 29/72] fix: bootstrapping failed when every row was drawn

---
 putting_dune/rate_learning/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 5d0a8e1..7cb2da0 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -323,7 +323,7 @@ def bootstrap_dataset(data: Mapping[str, np.ndarray], rng: jnp.ndarray):
   )
   train_data = {k: a[indices] for k, a in data.items()}
   test_indices = set(range(original_length)) - set(np.array(indices))
-  test_indices = np.array(list(test_indices))
+  test_indices = np.array(list(test_indices), dtype=np.int32)
   test_data = {k: a[test_indices] for k, a in data.items()}
   return train_data, test_data
 
-- 
2.43.0


From cefcffa5fdffa6d755bc9e720becbce5cc01b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 30/72] fix: rates could not be learned without voltage and
 current in the context

---
 putting_dune/pipeline/train_rate_learner.py | 13 ++++++--
 putting_dune/rate_learning/learn_rates.py   | 36 +++++++++++----------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 081695a..b86c2df 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -684,6 +684,11 @@ def main(args: Args) -> None:
     # to a constant 1 will cause a shift to regular classification.
     stacked_data['dt'].fill(1)
 
+  # The context is None if it has no contents.
+  training_arrays = {
+      k: jnp.asarray(v) for k, v in stacked_data.items() if v is not None
+  }
+
   visualize_data(
       stacked_data['next_state'],
       stacked_data['position'],
@@ -716,7 +721,7 @@ def main(args: Args) -> None:
     )
 
     training_metrics = rate_predictor.train(
-        {k: jnp.asarray(v) for k, v in stacked_data.items()},
+        training_arrays,
         rate_predictor_keys[1],
         bootstrap=args.bootstrap,
     )
@@ -755,14 +760,16 @@ def main(args: Args) -> None:
 
       rate_predictor.distill(augmented_data, config=distillation_defaults)
 
-    avg_context = np.median(stacked_data['context'], axis=0)
+    avg_context = None
+    if stacked_data['context'] is not None:
+      avg_context = np.median(stacked_data['context'], axis=0)
     rate_predictor.save(args.workdir.as_posix(), fixed_context=avg_context)
     rate_prediction_function = rate_predictor.apply_model
 
   # Using a scikit-learn classifier
   else:
     train_datasets, test_datasets = learn_rates.create_dataset_splits(
-        {k: jnp.asarray(v) for k, v in stacked_data.items()},
+        training_arrays,
         num_splits=args.num_models,
         key=rng_key,
         bootstrap=args.bootstrap,
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7bd6898..d0bd7fd 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -550,6 +550,9 @@ def create_dataset_splits(
     Training datasets and testing datasets, stacked along axis 0.
   """
 
+  # Context is optional, and may be missing.
+  train_data = {k: v for k, v in train_data.items() if v is not None}
+
   data_keys = jax.random.split(key, num_splits)
   if bootstrap:
     datasets = [
@@ -575,9 +578,9 @@ def create_dataset_splits(
     ]
     test_datasets = [data_utils.augment_data(**data) for data in test_datasets]
 
-  test_set_len = min([a['context'].shape[0] for a in test_datasets])
+  test_set_len = min([a['next_state'].shape[0] for a in test_datasets])
   test_datasets = [
-      {k: a[:test_set_len] for k, a in d.items()} for d in test_datasets
+      {k: d[k][:test_set_len] for k in train_data.keys()} for d in test_datasets
   ]
 
   train_datasets = {
@@ -587,15 +590,15 @@ def create_dataset_splits(
       k: jnp.stack([d[k] for d in test_datasets]) for k in train_data.keys()
   }
 
-  if 'position' in train_datasets and 'context' in train_datasets:
-    train_datasets['context'] = jnp.concatenate(
-        [train_datasets['context'], train_datasets['position']], -1
-    )
-    test_datasets['context'] = jnp.concatenate(
-        [test_datasets['context'], test_datasets['position']], -1
-    )
-    del train_datasets['position']
-    del test_datasets['position']
+  if 'position' in train_datasets:
+    for datasets in (train_datasets, test_datasets):
+      position = datasets.pop('position')
+      if 'context' in datasets:
+        datasets['context'] = jnp.concatenate(
+            [datasets['context'], position], -1
+        )
+      else:
+        datasets['context'] = position
 
   return train_datasets, test_datasets
 
@@ -796,13 +799,12 @@ class LearnedTransitionRatePredictor:
         self.config.learning_rate, weight_decay=self.config.weight_decay
     )
 
-    data_mean = np.concatenate(
-        [train_data['context'].mean(0), train_data['position'].mean(0)], 0
-    )
+    inputs = train_data['position']
+    if train_data.get('context') is not None:
+      inputs = np.concatenate([train_data['context'], inputs], -1)
 
-    data_scale = np.concatenate(
-        [train_data['context'].std(0), train_data['position'].std(0)], 0
-    )
+    data_mean = np.mean(inputs, 0)
+    data_scale = np.std(inputs, 0)
 
     distillation_params, distillation_state, self.rng, distill_metrics = (
         distill_multiple_models_to_single(
-- 
2.43.0


From 98718a62de4de508acefe2f9082d27f22a1700c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 31/72] fix: transitions with too few atoms stopped the
 conversion to data

---
 putting_dune/pipeline/train_rate_learner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index b86c2df..6fff6e6 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -353,6 +353,13 @@ def transitions_to_datapoints(
       wrong_number_of_silicons_count += 1
       continue
 
+    if grid_before.atom_positions.shape[0] < 1 + 9:
+      wrong_number_of_neighbors_count += 1
+      continue
+    if grid_after.atom_positions.shape[0] < 1 + 3:
+      wrong_number_of_next_step_neighbors_count += 1
+      continue
+
     # Get the neighbors of the grid before.
     _, neighbor_indices_before = (
         skneighbors.NearestNeighbors(
-- 
2.43.0


From 44d0d23795a4cf1155a0605972f4d9e05c20a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 32/72] fix: transitions could not be plotted

---
 putting_dune/pipeline/train_rate_learner.py | 23 +++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 6fff6e6..82e01ac 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -210,11 +210,12 @@ def plot_transition(
     image = np.zeros((512, 512, 1), dtype=np.uint8)
   else:
     image = transition.image_before
-  imsize = image.shape[0]
+  # In pixels, (width, height).
+  imsize = image.shape[1], image.shape[0]
   plt.imshow(image, cmap='gray', alpha=0.5)
   plt.scatter(
-      transition.grid_before.atom_positions[:, 0] * imsize,
-      imsize - transition.grid_before.atom_positions[:, 1] * imsize,
+      transition.grid_before.atom_positions[:, 0] * imsize[0],
+      imsize[1] - transition.grid_before.atom_positions[:, 1] * imsize[1],
       c='k',
       marker='o',
       label='Atoms before transition',
@@ -227,8 +228,8 @@ def plot_transition(
       material_frame_grid_after
   )
   plt.scatter(
-      before_frame_grid_after.atom_positions[:, 0] * imsize,
-      imsize - before_frame_grid_after.atom_positions[:, 1] * imsize,
+      before_frame_grid_after.atom_positions[:, 0] * imsize[0],
+      imsize[1] - before_frame_grid_after.atom_positions[:, 1] * imsize[1],
       marker='d',
       c='k',
       label='Atoms after transition',
@@ -237,8 +238,8 @@ def plot_transition(
   beam_position = transition.controls[0].position
 
   plt.scatter(
-      beam_position.x * imsize,
-      imsize - beam_position.y * imsize,
+      beam_position.x * imsize[0],
+      imsize[1] - beam_position.y * imsize[1],
       marker='o',
       label='Beam position',
   )
@@ -249,13 +250,13 @@ def plot_transition(
       silicon_position_after
   )
   plt.scatter(
-      imsize * silicon_position[0, 0],
-      imsize - imsize * silicon_position[0, 1],
+      imsize[0] * silicon_position[0, 0],
+      imsize[1] - imsize[1] * silicon_position[0, 1],
       label='Si position (before)',
   )
   plt.scatter(
-      imsize * silicon_position_after[0, 0],
-      imsize - imsize * silicon_position_after[0, 1],
+      imsize[0] * silicon_position_after[0, 0],
+      imsize[1] - imsize[1] * silicon_position_after[0, 1],
       label='Si position (after)',
   )
 
-- 
2.43.0


From 3805975a3f4c9bffdd1a8a0a3141eefc02f575b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 33/72] fix: loss reported the total rate instead of the rates
 of the neighbors

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index d0bd7fd..903cd2b 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -148,7 +148,7 @@ def batched_loss_fn(
       next_state_logprobs[jnp.arange(next_state.shape[0]), next_state - 1]
       * did_transition
   )
-  next_state_probs = jax.nn.softmax(predicted_rates[:, -1:], axis=-1)
+  next_state_probs = jax.nn.softmax(predicted_rates[:, :-1], axis=-1)
 
   losses = (
       next_state_loss * class_loss_weight + total_rate_loss * rate_loss_weight
-- 
2.43.0


From 6f5f39182870cb383d0b36babc298138d5ce0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 34/72] fix: loss mixed up the rows of data with columns, such
 as synthetic data

---
 putting_dune/rate_learning/learn_rates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 903cd2b..3a6e6ff 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -133,6 +133,11 @@ def batched_loss_fn(
   predicted_rates, network_state = apply_fn(
       params, network_state, key, context, is_training
   )
+  # These may also be columns, which would not line up with the rates.
+  next_state = next_state.reshape(-1)
+  elapsed_time = elapsed_time.reshape(-1)
+  did_transition = did_transition.reshape(-1)
+
   predicted_total_rate = predicted_rates[:, -1]
   no_transition_prob = jnp.exp(-predicted_total_rate * elapsed_time)
   no_transition_prob = jnp.clip(no_transition_prob, a_max=1 - 1e-6)
-- 
2.43.0


From b24ba06bfd6b2b02fc783d3ab6d260275f7734fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 35/72] fix: training failed on less data than one batch

---
 putting_dune/rate_learning/learn_rates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 3a6e6ff..be0d943 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -198,6 +198,7 @@ def train_epoch(
   """
   key, data_key = jax.random.split(key)
   data_size = list(train_data.values())[0].shape[0]
+  batch_size = min(batch_size, data_size)
   indices = jax.random.permutation(
       data_key, jnp.arange(data_size), independent=True
   )
-- 
2.43.0


From 5fb25f6dfb0172e328c4c47b5bd52910c92b71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 36/72] fix: rates with a context could only be drawn on square
 numbers of points

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index be0d943..1fc6a36 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -1011,7 +1011,7 @@ def visualize_rates(
   coords = np.stack([xs, ys], -1)
   context = coords.reshape(-1, *coords.shape[2:])
   if fixed_context is not None:
-    fixed_context = np.repeat(fixed_context[None], num_points, 0)
+    fixed_context = np.repeat(fixed_context[None], context.shape[0], 0)
     context = np.concatenate([fixed_context, context], axis=-1)
 
   pred_rates = predict_rates(context)
-- 
2.43.0


From d4f12d972de3f78704b9b801210483e6e2443f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 37/72] fix: learned rate predictor could not predict

---
 putting_dune/rate_learning/learn_rates.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 1fc6a36..a7d5f1c 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -967,11 +967,13 @@ class LearnedTransitionRatePredictor:
     )
     context = new_beam_pos
     if self.config.use_voltage:
-      context = np.concatenate([voltage_kv, context], axis=-1)
+      context = np.concatenate([[[voltage_kv]], context], axis=-1)
     if self.config.use_current:
-      context = np.concatenate([current_na, context], axis=-1)
+      context = np.concatenate([[[current_na]], context], axis=-1)
 
-    rates = np.asarray(self.packaged_model(context))[0]
+    # A module that was not loaded from disk cannot be called directly.
+    rates = self.packaged_model.__call__(context.astype(np.float32))
+    rates = np.asarray(rates)[0]
 
     # neighbor_order is an array mapping the canonical order of neighbors
     # (increasing angle from (1, 0)) to the order they were given in.
-- 
2.43.0


From d86f13c9d247a29c59c76b839e1318605768b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 38/72] fix: packaged rate predictor returned network outputs
 instead of rates

---
 putting_dune/rate_learning/learn_rates.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index a7d5f1c..6f69a27 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -662,6 +662,13 @@ def train_multiple_models(
   )
 
 
+def ensemble_rates(outputs: jnp.ndarray) -> jnp.ndarray:
+  """Averages the rates of each neighbor over the outputs of all models."""
+  total_rate = outputs[..., -1:]
+  weights = jax.nn.softmax(outputs[..., :-1], axis=-1)
+  return (total_rate * weights).mean(0)
+
+
 class LearnedTransitionRatePredictor:
   """Class wrapping rate learning and prediction."""
 
@@ -736,9 +743,7 @@ class LearnedTransitionRatePredictor:
       )
       rates = rates[None]
 
-    total_rate = rates[..., -1:]
-    weights = jax.nn.softmax(rates[..., :-1], axis=-1)
-    return (total_rate * weights).mean(0)
+    return ensemble_rates(rates)
 
   def train(
       self,
@@ -908,7 +913,7 @@ class LearnedTransitionRatePredictor:
       rates, _ = self.batch_apply(
           self.params, self.state, context, self.rng, False
       )
-      return jnp.squeeze(rates, axis=0)
+      return ensemble_rates(rates)
 
     apply_model = functools.partial(apply_model, fixed_context=fixed_context)
     apply_model = jax.jit(apply_model)
-- 
2.43.0


From ce2003d77603f2be963f1ca3311c61887503e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 39/72] fix: learned rates were predicted in bond lengths but
 learned in angstroms

---
 putting_dune/rate_learning/learn_rates.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 6f69a27..a256b13 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -31,7 +31,6 @@ import matplotlib.pyplot as plt
 from ml_collections import config_dict
 import numpy as np
 import optax
-from putting_dune import constants
 from putting_dune import geometry
 from putting_dune import microscope_utils
 from putting_dune.rate_learning import data_utils
@@ -965,7 +964,6 @@ class LearnedTransitionRatePredictor:
     neighbor_positions = grid.atom_positions[neighbor_indices, :]
     neighbor_positions = neighbor_positions - current_position
     beam_pos = beam_pos - current_position
-    beam_pos = beam_pos / constants.CARBON_BOND_DISTANCE_ANGSTROMS
     new_beam_pos, _, neighbor_order = data_utils.standardize_beam_and_neighbors(
         beam_pos,
         neighbor_positions,
-- 
2.43.0


From e22b017a41ae4b2ff37c86adbee019589521cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 40/72] fix: learned rates could not be predicted with a fixed
 context

---
 putting_dune/rate_learning/learn_rates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index a256b13..0ed0ca7 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -919,6 +919,8 @@ class LearnedTransitionRatePredictor:
 
     predictor_tf = jax2tf.convert(apply_model, with_gradient=False)
     tf_module = tf.Module()
+    # Inputs that are not fixed; saved along with the model.
+    tf_module.input_dim = tf.Variable(input_shape[1], trainable=False)
 
     tf_module.__call__ = tf.function(
         predictor_tf,
@@ -974,6 +976,10 @@ class LearnedTransitionRatePredictor:
     if self.config.use_current:
       context = np.concatenate([[[current_na]], context], axis=-1)
 
+    # Leave out what was fixed when the model was packaged.
+    input_dim = getattr(self.packaged_model, 'input_dim', context.shape[1])
+    context = context[:, -int(input_dim) :]
+
     # A module that was not loaded from disk cannot be called directly.
     rates = self.packaged_model.__call__(context.astype(np.float32))
     rates = np.asarray(rates)[0]
-- 
2.43.0


From ea62202b6fe50d924ce4289878096d04d4d3a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 41/72] fix: learned rates were predicted as before training
 once predicted

---
 putting_dune/rate_learning/learn_rates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 0ed0ca7..2eaeef7 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -698,6 +698,7 @@ class LearnedTransitionRatePredictor:
     self.params = tree_stack(all_params)
     self.state = tree_stack(all_states)
     self.num_states = num_states
+    self.packaged_model = None
 
     self.config = config
 
@@ -760,6 +761,7 @@ class LearnedTransitionRatePredictor:
     Returns:
       Training metrics.
     """
+    self.packaged_model = None
     self.rng, data_key, train_key = jax.random.split(key, 3)
     optim = optax.adamw(
         self.config.learning_rate, weight_decay=self.config.weight_decay
@@ -831,6 +833,7 @@ class LearnedTransitionRatePredictor:
             data_scale=data_scale,
         )
     )
+    self.packaged_model = None
     self.params = tree_stack([distillation_params])
     self.state = tree_stack([distillation_state])
 
@@ -959,7 +962,7 @@ class LearnedTransitionRatePredictor:
       a 3-dimensional array of rate constants for transitioning to the 3
         nearest neighbors.
     """
-    if not hasattr(self, 'packaged_model'):
+    if self.packaged_model is None:
       self.package_model()
     # Convert the beam_pos into a numpy array for convenience
     beam_pos = np.asarray([[beam_pos.x, beam_pos.y]])  # Shape = [1, -1]
-- 
2.43.0


From 05ddc4e58cc2fe30a15687b798073a452c46c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 42/72] fix: loaded rate networks lacked the statistics they
 were trained with

---
 putting_dune/rate_learning/learn_rates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 2eaeef7..470cb30 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -859,6 +859,9 @@ class LearnedTransitionRatePredictor:
     path = epath.Path(checkpoint_path)
     with path.open('wb') as f:
       f.write(flax.serialization.to_bytes(self.params))
+    # The networks' states, such as statistics of the data.
+    with epath.Path(checkpoint_path + '.state').open('wb') as f:
+      f.write(flax.serialization.to_bytes(self.state))
 
     self.package_model(fixed_context=fixed_context)
     logging.info('Saving tf saved model to %s', save_dir)
@@ -887,6 +890,10 @@ class LearnedTransitionRatePredictor:
       path = epath.Path(checkpoint_path)
       with path.open('rb') as f:
         self.params = flax.serialization.from_bytes(self.params, f.read())
+      path = epath.Path(checkpoint_path + '.state')
+      if path.exists():
+        with path.open('rb') as f:
+          self.state = flax.serialization.from_bytes(self.state, f.read())
     self.packaged_model = tf.saved_model.load(load_dir)
 
     if load_config:
-- 
2.43.0


From aa94dc2c0511a4491405e6de558dc27fa643aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 43/72] fix: rate predictor could not be used before training

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 470cb30..500b416 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -692,7 +692,7 @@ class LearnedTransitionRatePredictor:
     all_params = []
     all_states = []
     for key in keys:
-      params, state = self.init_fn(x=jnp.zeros(self.context_dim), rng=key)
+      params, state = self.init_fn(x=jnp.zeros((1, self.context_dim)), rng=key)
       all_params.append(params)
       all_states.append(state)
     self.params = tree_stack(all_params)
-- 
2.43.0


From 7354c06b1abbc67fecada75f63ed413d167ea986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 44/72] fix: learning with a scikit-learn MLP failed

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 82e01ac..ad2b33e 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -131,7 +131,7 @@ def get_sklearn_classifier(
     model = sknn.MLPClassifier(
         alpha=config.weight_decay,
         max_iter=config.epochs,
-        learning_rate=config.learning_rate,
+        learning_rate_init=config.learning_rate,
         **kwargs,
     )
   elif learner_type == LearnerType.KNN:
-- 
2.43.0


From 32f3fca10f287395d3e2146ef1fe32abadd3b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 45/72] fix: ensembles of SVMs could not predict rates

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index ad2b33e..86bc779 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -145,7 +145,7 @@ def get_sklearn_classifier(
         max_depth=5, n_estimators=10, **kwargs
     )
   elif learner_type == LearnerType.SVM:
-    model = sksvm.SVC(gamma=2, C=1, **kwargs)
+    model = sksvm.SVC(gamma=2, C=1, probability=True, **kwargs)
   else:
     raise ValueError('Invalid learner type specified.')
 
-- 
2.43.0


From 68a4e1cedb49100fccd21eb481154c9b0abdd38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 46/72] fix: classification networks could not be saved with
 their dwell time

---
 putting_dune/pipeline/train_rate_learner.py | 8 ++++++--
 putting_dune/rate_learning/learn_rates.py   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 86bc779..73868fb 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -678,11 +678,12 @@ def main(args: Args) -> None:
     counts[t['next_state']] += 1
   print(counts, flush=True)
 
+  dwell_time_in_context = args.learner_type != LearnerType.RATE_NETWORK
   stacked_data = stack_data(
       processed_transitions,
       use_current=args.use_current,
       use_voltage=args.use_voltage,
-      dwell_time_in_context=args.learner_type != LearnerType.RATE_NETWORK,
+      dwell_time_in_context=dwell_time_in_context,
   )
 
   rng_key = jax.random.PRNGKey(args.seed)
@@ -715,7 +716,10 @@ def main(args: Args) -> None:
       ),
   )
 
-  frozen_config = config_dict.FrozenConfigDict(dataclasses.asdict(args))
+  frozen_config = config_dict.FrozenConfigDict({
+      **dataclasses.asdict(args),
+      'dwell_time_in_context': dwell_time_in_context,
+  })
 
   if (
       args.learner_type == LearnerType.RATE_NETWORK
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 500b416..d71d01f 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -688,6 +688,7 @@ class LearnedTransitionRatePredictor:
         dropout_rate=config.dropout_rate,
     )
     self.context_dim = position_dim + config.use_current + config.use_voltage
+    self.context_dim += config.get('dwell_time_in_context', False)
     self.rng, *keys = jax.random.split(init_key, self.num_models + 1)
     all_params = []
     all_states = []
-- 
2.43.0


From c5c387a2798c1639578258e21b2919135cc3c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 47/72] fix: states missing from the data shifted the rates of
 the others

---
 putting_dune/pipeline/train_rate_learner.py | 24 ++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 73868fb..d28ad20 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -181,6 +181,26 @@ def train_sklearn_classifier(
   return model, train_accuracy, test_accuracy
 
 
+def ensemble_probabilities(
+    models: Sequence[Any], context: np.ndarray, num_states: int = 3
+) -> np.ndarray:
+  """Averages the probabilities of every state over classifiers.
+
+  Args:
+    models: Trained classifiers, which may not have seen every state.
+    context: Inputs to the classifiers.
+    num_states: The number of neighbors.
+
+  Returns:
+    Probabilities of staying, and of moving to each neighbor.
+  """
+  probabilities = np.zeros((len(models), context.shape[0], num_states + 1))
+  for i, model in enumerate(models):
+    states = np.asarray(model.classes_, dtype=int)
+    probabilities[i][:, states] = model.predict_proba(context)
+  return probabilities.mean(axis=0)
+
+
 def plot_transition(
     transition,
     neighbor_positions,
@@ -836,7 +856,9 @@ def main(args: Args) -> None:
       with path.open('wb') as file:
         np.savez_compressed(file, **training_metrics)
 
-    rate_prediction_function = lambda x: ensemble.predict_proba(x)[..., 1:]
+    rate_prediction_function = lambda x: ensemble_probabilities(models, x)[
+        ..., 1:
+    ]
 
   if stacked_data['context'] is not None:
     min_context = stacked_data['context'].min(axis=0)
-- 
2.43.0


From b0e11c8df192c24a764489fc5febdaf917ef6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 48/72] fix: saved ensembles of classifiers could not predict
 states

---
 putting_dune/pipeline/train_rate_learner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index d28ad20..399c725 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -845,6 +845,9 @@ def main(args: Args) -> None:
     )
     # SKLearn doesn't recognize that the models are already trained by default.
     ensemble.estimators_ = models
+    ensemble.le_ = skpreprocessing.LabelEncoder()
+    ensemble.le_.fit(np.asarray(train_datasets['next_state']).reshape(-1))
+    ensemble.classes_ = ensemble.le_.classes_
     save_path = epath.Path(
         os.path.join(args.workdir, f'{args.learner_type}_ensemble.joblib')
     )
-- 
2.43.0


From 2dc854e5471d55436ae5d8ac795cfba070c8fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 49/72] fix: clocks on plots rounded up to a hundredth
 hundredth of a second

---
 putting_dune/plotting_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 8f9a1a1..24ec3d1 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -33,10 +33,10 @@ _SimulatorEventType = simulator_observers.SimulatorEventType
 
 
 def format_timedelta(delta: dt.timedelta) -> str:
-  total_seconds = delta.total_seconds()
-  minutes = int(total_seconds) // 60
-  seconds = int(total_seconds) % 60
-  remainder = round((total_seconds - int(total_seconds)) * 100)
+  # Round before splitting, so that 0.999s carries over into the seconds.
+  hundredths = round(delta / dt.timedelta(milliseconds=10))
+  seconds, remainder = divmod(hundredths, 100)
+  minutes, seconds = divmod(seconds, 60)
   return f'{minutes:02d}:{seconds:02d}:{remainder:02d}'
 
 
-- 
2.43.0


From 871d8d8ff65aaa78bf68a04337922ba058190286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 50/72] fix: videos of histories without a control could not be
 drawn

---
 putting_dune/plotting_utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 24ec3d1..46923df 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -195,20 +195,26 @@ def generate_video_from_simulator_events(
     microscope_grid = args['fov'].material_frame_to_microscope_frame(
         args['grid']
     )
-    # We make a grid containing just the goal and control to make it easy
-    # to convert them to the microscope frame.
+    # We make a grid containing just the goal and control (if there has been
+    # one) to make it easy to convert them to the microscope frame.
+    positions = [goal_position]
+    if args['control_position'] is not None:
+      positions.append(args['control_position'])
     material_frame_data = microscope_utils.AtomicGrid(
-        atom_positions=np.stack([goal_position, args['control_position']]),
+        atom_positions=np.stack(positions),
         atomic_numbers=np.asarray(()),  # Unused.
     )
     microscope_frame_data = args['fov'].material_frame_to_microscope_frame(
         material_frame_data
     )
+    microscope_positions = microscope_frame_data.atom_positions
     plot_microscope_frame(
         ax=axes[1],
         grid=microscope_grid,
-        goal_position=microscope_frame_data.atom_positions[0],
-        control_position=microscope_frame_data.atom_positions[1],
+        goal_position=microscope_positions[0],
+        control_position=(
+            microscope_positions[1] if len(microscope_positions) > 1 else None
+        ),
     )
 
     if events_contain_images and args['image'] is not None:
-- 
2.43.0


From df39eb33320671005e7463e4a0c3a39c78ff1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 51/72] fix: recordings with an empty list of dopants could not
 be uploaded

---
 putting_dune/pipeline/upload_microscope_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index e6eccd6..389bd80 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -98,7 +98,7 @@ def load_dataset(
     try:
       coordinates[frame]['dopant'] = downscale_factor * np.asarray(
           val['Blast coordinates']['Dopants']
-      )
+      ).reshape(-1, 2)
       coordinates[frame]['beam loc'] = downscale_factor * np.asarray(
           val['Beam location']
       ).reshape(-1, 2)
-- 
2.43.0


From 2fc3ef3389838c7f27cf7b6228a147fbbd26c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 52/72] fix: uploaded beam controls were in the material frame

---
 putting_dune/pipeline/upload_microscope_data.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 389bd80..d0b8f7e 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -167,14 +167,18 @@ def convert_dataset_to_proto(
       elapsed_time = dt.timedelta(seconds=2.0)
     else:
       beam_loc = coordinate_dict[str(t)]['beam loc'][0] / rescale_factor
+      # The controls of an observation are in the microscope frame.
       beam_loc = geometry.PointMicroscopeFrame(
           geometry.Point(beam_loc[0], beam_loc[1])
       )
-      beam_loc = fov.microscope_frame_to_material_frame(beam_loc)
       beam_control = (
-          microscope_utils.BeamControl(
-              beam_loc,
-              dt.timedelta(seconds=float(parameters[str(t)]['beam dwelltime'])),
+          microscope_utils.BeamControlMicroscopeFrame(
+              microscope_utils.BeamControl(
+                  beam_loc,
+                  dt.timedelta(
+                      seconds=float(parameters[str(t)]['beam dwelltime'])
+                  ),
+              )
           ),
       )
       elapsed_time = dt.timedelta(
-- 
2.43.0


From 0f95520e5ef86f21c5b0c74d2913d658ea7d59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 53/72] fix: images with channels, as documented, could not be
 uploaded

---
 putting_dune/pipeline/upload_microscope_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index d0b8f7e..3f7fc0b 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -141,7 +141,7 @@ def convert_dataset_to_proto(
   observations = []
   for t in range(length):
     fov = parameters[str(t)]['FOV']
-    rescale_factor = np.array(raw_image_stack.shape[1:])
+    rescale_factor = np.array(raw_image_stack.shape[1:3])  # Without C.
     grid = coordinate_dict[str(t)]['image'][:, :2] / rescale_factor
     atomic_numbers = np.zeros(grid.shape[0], dtype=np.int32) + 6
     if len(coordinate_dict) <= 3:
-- 
2.43.0


From 0d100d9366833c3364ceadacc057a7496e75cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 54/72] fix: training programs could not create their metric
 writer

---
 putting_dune/atom_detection/train.py  | 5 +----
 putting_dune/graph_alignment/train.py | 5 +----
 putting_dune/image_alignment/train.py | 2 --
 3 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index d6c584e..91fe08c 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -154,10 +154,7 @@ def prefix_dict_keys(mapping: Dict[str, Any], prefix: str) -> Dict[str, Any]:
 
 def train(config: Config) -> TrainState:
   """Train function."""
-  writer = metric_writers.create_default_writer(
-      write_to_xm_measurements=False,
-      write_to_datatable=True,
-  )
+  writer = metric_writers.create_default_writer()
 
   chkpt_manager = checkpoint.CheckpointManager(
       config.workdir,
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 05bf998..5fa635f 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -264,10 +264,7 @@ def prefix_dict_keys(mapping: Dict[str, Any], prefix: str) -> Dict[str, Any]:
 
 def train(config: Config) -> TrainState:
   """Train function."""
-  writer = metric_writers.create_default_writer(
-      write_to_xm_measurements=False,
-      write_to_datatable=True,
-  )
+  writer = metric_writers.create_default_writer()
   seed = np.random.SeedSequence(config.seed)
   seed, dataset_seed = tuple(seed.generate_state(n_words=2))
   key = jax.random.PRNGKey(seed)
diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index f06924b..1e9f388 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -270,8 +270,6 @@ def prefix_dict_keys(mapping: Dict[str, Any], prefix: str) -> Dict[str, Any]:
 def train(config: Config) -> TrainState:
   """Train function."""
   writer = metric_writers.create_default_writer(
-      write_to_xm_measurements=False,
-      write_to_datatable=True,
       just_logging=jax.process_index() > 0,
   )
 
-- 
2.43.0


From 1d5f3bf81b8b376c7217bb6841a4a11279a69361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 55/72] fix: training ignored the configured batch size

---
 putting_dune/atom_detection/train.py  | 1 +
 putting_dune/graph_alignment/train.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index 91fe08c..227fcba 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -190,6 +190,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = atom_detection_dataset.AtomDetectionDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = atom_detection_dataset.make_dataset(
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 5fa635f..3f27265 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -281,6 +281,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = graph_alignment_dataset.GraphAlignmentDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = graph_alignment_dataset.make_dataset(
-- 
2.43.0


From 2b45e878a024712bd3df627b895315ccc09746de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 56/72] fix: alignment accuracy compared every pixel with one
 flat index

---
 putting_dune/image_alignment/train.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index 1e9f388..591fa7e 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -124,7 +124,9 @@ def train_step(
     drift_losses = jnp.square(batch['drift'] - pred_drift).sum(-1)
     drift_loss = jnp.mean(drift_losses)
     final_drift_loss = jnp.mean(drift_losses[..., -1])
-    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+        batch['mask'], axis=-1
+    )
     accuracy = jnp.mean(accuracies)
     final_accuracy = jnp.mean(accuracies[..., -1])
     drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
@@ -177,7 +179,9 @@ def eval_step(
   drift_loss = jnp.mean(drift_losses)
   final_drift_loss = jnp.mean(drift_losses[..., -1])
 
-  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+        batch['mask'], axis=-1
+    )
   accuracy = jnp.mean(accuracies)
   final_accuracy = jnp.mean(accuracies[..., -1])
   drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
-- 
2.43.0


From d93abe97590ee5b72121476d3fad54f2cea96a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 57/72] fix: an interrupted training run repeated or lost its
 last epoch

---
 putting_dune/atom_detection/train.py  | 3 +--
 putting_dune/graph_alignment/train.py | 6 +-----
 putting_dune/image_alignment/train.py | 3 +--
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index 227fcba..c079ebb 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -258,7 +258,7 @@ def train(config: Config) -> TrainState:
 
       with progress.timed('save-checkpoint'):
         chkpt_manager.save(
-            step=epoch,
+            step=epoch + 1,
             items=state,
             metrics=metrics,
         )
@@ -271,7 +271,6 @@ def train(config: Config) -> TrainState:
       for hook in hooks:
         hook(epoch)
 
-  chkpt_manager.save(step=config.epochs, items=state)
   return state
 
 
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 3f27265..314d2ad 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -429,7 +429,7 @@ def train(config: Config) -> TrainState:
       logging.info(metrics)
       with progress.timed('save-checkpoint'):
         chkpt_manager.save(
-            step=epoch,
+            step=epoch + 1,
             items=clean_state,
             metrics=metrics,
         )
@@ -442,10 +442,6 @@ def train(config: Config) -> TrainState:
       for hook in hooks:
         hook(epoch)
 
-  clean_state = sanitize_state_keys(
-      state, (('/', 'dummy_slash'), ('~', 'dummy_tilde'))
-  )
-  chkpt_manager.save(step=config.epochs, items=clean_state)
   return state
 
 
diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index 591fa7e..233fbec 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -435,7 +435,7 @@ def train(config: Config) -> TrainState:
 
         with progress.timed('save-checkpoint'):
           chkpt_manager.save(
-              step=epoch,
+              step=epoch + 1,
               items=state,
               metrics=metrics,
           )
@@ -448,7 +448,6 @@ def train(config: Config) -> TrainState:
         for hook in hooks:
           hook(epoch)
 
-    chkpt_manager.save(step=config.epochs, items=state)
     return state
 
 
-- 
2.43.0


From 087635b4f726b5756caf4a5b04fb077051d44b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 58/72] fix: the best graph alignment checkpoint was the one of
 greatest loss

---
 putting_dune/graph_alignment/train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 314d2ad..c6a8cef 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -274,6 +274,7 @@ def train(config: Config) -> TrainState:
       checkpointers=checkpoint.PyTreeCheckpointer(),
       options=checkpoint.CheckpointManagerOptions(
           best_fn=lambda metrics: metrics['eval/total_loss'],
+          best_mode='min',
           create=True,
       ),
       metadata=config.to_dict(),
-- 
2.43.0


From 39b3654475aaf32cdcdcaadcaf4a33e2ffbe2b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 59/72] fix: saved atom detectors could not be loaded by
 AtomDetector

---
 putting_dune/atom_detection/save_model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index e815f51..ff0f26b 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -95,7 +95,9 @@ def save(config: Config):
       autograph=False,
       input_signature=[
           tf.TensorSpec(
-              shape=config.input_shape, dtype=np.float32, name='image'
+              shape=config.input_shape,
+              dtype=np.float32,
+              name='preprocessed_inputs_0',
           )
       ],
   )
@@ -113,15 +115,18 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    save_path = epath.Path(tmpdir) / 'packaged'
+    save_path = epath.Path(tmpdir) / 'atom-detection-model'
     zip_path = epath.Path(tmpdir) / 'packaged.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      zipped.write(dirname)
+      arcname = os.path.relpath(dirname, tmpdir)
+      zipped.write(dirname, arcname)
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        zipped.write(
+            os.path.join(dirname, filename), os.path.join(arcname, filename)
+        )
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From 582ab96d097511e29345859bf4e5e1afdf81c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 60/72] fix: an aligner saved at a relative path was lost

---
 putting_dune/image_alignment/save_model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/putting_dune/image_alignment/save_model.py b/putting_dune/image_alignment/save_model.py
index 1d43531..64c4286 100644
--- a/putting_dune/image_alignment/save_model.py
+++ b/putting_dune/image_alignment/save_model.py
@@ -136,17 +136,18 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    os.chdir(tmpdir)
     save_path = epath.Path(tmpdir) / 'image-alignment-model'
-    zip_path = epath.Path('image-alignment-model.zip')
+    zip_path = epath.Path(tmpdir) / 'image-alignment-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      dirname = dirname.replace(tmpdir + '/', '')
-      zipped.write(dirname)
+      arcname = os.path.relpath(dirname, tmpdir)
+      zipped.write(dirname, arcname)
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        zipped.write(
+            os.path.join(dirname, filename), os.path.join(arcname, filename)
+        )
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From d8bf2c47202a049f196140c69fe8469d99db0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 61/72] fix: the graph alignment network was built without its
 edges

---
 putting_dune/graph_alignment/model.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/putting_dune/graph_alignment/model.py b/putting_dune/graph_alignment/model.py
index 85831c7..35f2387 100644
--- a/putting_dune/graph_alignment/model.py
+++ b/putting_dune/graph_alignment/model.py
@@ -222,15 +222,18 @@ def create_sparse_neighbor_list(
     to initialize edges.
   """
   idx_matrix = jnp.zeros((2, capacity), jnp.int32)
-  overflow = jnp.zeros((), dtype=jnp.bool_)
+  # JaxMD only rebuilds a neighbor list once some position has moved away from
+  # its reference, so the reference must not be the initial position itself.
   neighbor_list = partition.NeighborList(  # type: ignore
-      idx_matrix,
-      initial_position,
-      overflow,
-      cell_list_capacity,
-      capacity,
-      partition.Sparse,
-      update_fn,
+      idx=idx_matrix,
+      reference_position=initial_position + 0.5,
+      error=partition.PartitionError(jnp.zeros((), jnp.uint8)),
+      cell_list_capacity=cell_list_capacity,
+      max_occupancy=capacity,
+      format=partition.Sparse,
+      cell_size=None,
+      cell_list_fn=None,
+      update_fn=update_fn,
   )
   return neighbor_list
 
-- 
2.43.0


From a12ccc0675394b656f932777f35daf8c6da68b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 62/72] fix: graph alignment training could not be resumed

---
 putting_dune/graph_alignment/train.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index c6a8cef..bc63152 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -363,7 +363,12 @@ def train(config: Config) -> TrainState:
 
   if latest_step := chkpt_manager.latest_step():
     with progress.timed('restore-checkpoint'):
-      restored = chkpt_manager.restore(latest_step, items=state)
+      restored = chkpt_manager.restore(
+          latest_step,
+          items=sanitize_state_keys(
+              state, (('/', 'dummy_slash'), ('~', 'dummy_tilde'))
+          ),
+      )
       restored = sanitize_state_keys(
           restored, (('dummy_slash', '/'), ('dummy_tilde', '~'))
       )
-- 
2.43.0


From c9b98a7e3d42634c78661182cc30f11369f2d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 63/72] fix: a failed download or extraction was taken for the
 model

---
 putting_dune/alignment.py     | 15 +++++++++++----
 putting_dune/atom_detector.py | 12 +++++++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 4ba3d98..0f7fdf6 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -17,6 +17,7 @@
 import collections
 import copy
 import functools
+import tempfile
 import typing
 from typing import Any, Deque, Optional, Sequence, Tuple
 import zipfile
@@ -482,10 +483,16 @@ class ImageAligner:
       workdir = epath.resource_path('putting_dune')
     model_path = epath.Path(workdir) / 'model_weights' / 'image-alignment-model'
     if not model_path.exists() or reload:
-      model_path.mkdir(parents=True, exist_ok=True)
-      with path.open('rb') as model_zip_fp:
-        with zipfile.ZipFile(model_zip_fp) as model_zip:
-          model_zip.extractall(model_path.parent)
+      # Extract next to the destination, so that an extraction that fails
+      # halfway is not mistaken for the model later on.
+      model_path.parent.mkdir(parents=True, exist_ok=True)
+      with tempfile.TemporaryDirectory(dir=model_path.parent) as tmpdir:
+        with path.open('rb') as model_zip_fp:
+          with zipfile.ZipFile(model_zip_fp) as model_zip:
+            model_zip.extractall(tmpdir)
+        if model_path.exists():
+          model_path.rmtree()
+        (epath.Path(tmpdir) / model_path.name).rename(model_path)
 
     return ImageAligner(model_path=model_path, **kwargs)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 7dd57b2..aa4c30d 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -16,6 +16,7 @@
 import dataclasses
 import functools
 import io
+import tempfile
 from typing import Any, List, Tuple
 import urllib
 import zipfile
@@ -109,10 +110,15 @@ class AtomDetector:
     )
 
     if not model_path.exists():
-      model_path.mkdir(parents=True)
       with urllib.request.urlopen(url) as request:
-        with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
-          model_zip.extractall(model_path.parent)
+        model_bytes = io.BytesIO(request.read())
+      # Extract next to the destination, so that a download or an extraction
+      # that fails halfway is not mistaken for the model later on.
+      model_path.parent.mkdir(parents=True, exist_ok=True)
+      with tempfile.TemporaryDirectory(dir=model_path.parent) as tmpdir:
+        with zipfile.ZipFile(model_bytes) as model_zip:
+          model_zip.extractall(tmpdir)
+        (epath.Path(tmpdir) / model_path.name).rename(model_path)
 
     return AtomDetector(model_path=model_path)
     # pylint: enable=unreachable
-- 
2.43.0


From c25297a5108d6c54acb5af648ae320fb6ae587a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 64/72] fix: images that are not normalized could not be
 aligned

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 0f7fdf6..05f18c1 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -530,6 +530,8 @@ class ImageAligner:
     image = image.astype(np.float32)
 
     if self.adaptive_normalization:
+      # Equalization only accepts floating point images within [-1, 1].
+      image = exposure.rescale_intensity(image, out_range=(0.0, 1.0))
       image = exposure.equalize_adapthist(image)
 
     image: tf.Tensor = tf.image.resize(
-- 
2.43.0


From 6a0d48532194fcaea8aa3f2171a2e168d175d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:00 +0000
Subject: [PATCH 65/72] fix: recordings in directories with a dot in their name
 overwrote each other

---
 putting_dune/pipeline/upload_microscope_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 3f7fc0b..5eb683a 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -217,6 +217,7 @@ def main(args: Args) -> None:
   for dataset_path in (pbar := tqdm.tqdm(paths)):
     # Create a filename by converting each part of the path to be
     # "underscored" and then split path parts with a dash.
+    # The suffix is added, since a directory name may well contain a dot.
     filename = pathlib.Path(
         '-'.join(
             map(
@@ -224,7 +225,8 @@ def main(args: Args) -> None:
                 dataset_path.relative_to(args.directory).parts,
             )
         )
-    ).with_suffix('.riegeli')
+        + '.riegeli'
+    )
     pbar.set_postfix_str(filename)
 
     # Load dataset
-- 
2.43.0


From 08d11469e05be5be491e76d231dffa35d39add71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:00 +0000
Subject: [PATCH 66/72] fix: a damaged recording kept the others from being
 uploaded

---
 putting_dune/pipeline/upload_microscope_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 5eb683a..b42febe 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -229,10 +229,10 @@ def main(args: Args) -> None:
     )
     pbar.set_postfix_str(filename)
 
-    # Load dataset
+    # Load dataset. It may be incomplete or damaged in any way.
     try:
       dataset = load_dataset(dataset_path)
-    except ValueError as e:
+    except Exception as e:  # pylint: disable=broad-except
       print(
           termcolor.colored(
               f'Failed to load dataset {dataset_path}: {e}', 'red'
-- 
2.43.0


From 1f3748ec9dda4a9f4b6834dfe05566878a13f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 67/72] fix: aligning a directory of records found none of them

---
 putting_dune/pipeline/align_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/align_trajectories.py b/putting_dune/pipeline/align_trajectories.py
index 5d681e4..4c215d1 100644
--- a/putting_dune/pipeline/align_trajectories.py
+++ b/putting_dune/pipeline/align_trajectories.py
@@ -94,7 +94,7 @@ def do_alignment(
 def main(args: Args) -> None:
   trajectories = []
   if args.source_path.is_dir():
-    files = list(args.source_path.glob('*.recordio'))
+    files = list(args.source_path.glob('*.tfrecords'))
   else:
     files = [args.source_path]
   for file in files:
-- 
2.43.0


From b8d0cb1031b65a58cfe0a47e7787d64eae006ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 68/72] fix: a damaged download of an agent was taken for the
 agent

---
 putting_dune/experiments/registry.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/putting_dune/experiments/registry.py b/putting_dune/experiments/registry.py
index 9f7df26..1d2ecfe 100644
--- a/putting_dune/experiments/registry.py
+++ b/putting_dune/experiments/registry.py
@@ -17,6 +17,7 @@
 import dataclasses
 import datetime as dt
 import functools
+import tempfile
 from typing import Callable, Optional, Tuple
 import urllib.request
 import zipfile
@@ -93,19 +94,20 @@ class _TfAgentCreator:
     # Download the file if necessary.
     if not model_path.exists():
       logging.info("Couldn't find agent checkpointing. Downloading...")
-      zip_path = model_weights_path / 'tmp.zip'
-      zip_path_str = str(zip_path)
-      urllib.request.urlretrieve(
-          self.download_url,
-          zip_path_str,
-      )
-
-      logging.info('Unzipping agent checkpoint...')
-      with zipfile.ZipFile(zip_path_str, mode='r') as zf:
-        zf.extractall(model_weights_path)
-
-      # Delete the zip file.
-      zip_path.unlink()
+      # Download and unzip next to the destination, so that a download or an
+      # extraction that fails halfway is not mistaken for the model later on.
+      with tempfile.TemporaryDirectory(dir=model_weights_path) as tmpdir:
+        zip_path_str = str(epath.Path(tmpdir) / 'tmp.zip')
+        urllib.request.urlretrieve(
+            self.download_url,
+            zip_path_str,
+        )
+
+        logging.info('Unzipping agent checkpoint...')
+        with zipfile.ZipFile(zip_path_str, mode='r') as zf:
+          zf.extractall(tmpdir)
+
+        (epath.Path(tmpdir) / self.model_name).rename(model_path)
 
     agent = tf_eval_agent.TfEvalAgent(str(model_path))
     logging.info('Agent loaded!')
-- 
2.43.0


From 3ecfcc77eed4a7be6a27e0afb89c2fef20028729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 69/72] fix: rendering the environment failed once there was a
 control

---
 putting_dune/putting_dune_environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index ccee73b..90864d6 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -170,7 +170,7 @@ class PuttingDuneEnvironment(dm_env.Environment):
     # TODO(joshgreaves): beam_position lags by 1 timestep.
     previous_controls = self.last_microscope_observation.controls
     if previous_controls:
-      beam_position = np.asarray(previous_controls[-1].position.coords)
+      beam_position = np.asarray(previous_controls[-1].position.coords)[0]
     else:
       beam_position = None
 
-- 
2.43.0


From 842098e9e9f8cb148f97970a9f1ecf95ff7337b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 70/72] fix: rendering showed the beam where it was not after
 the view had moved

---
 putting_dune/putting_dune_environment.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index 90864d6..8ad5e83 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -69,6 +69,9 @@ class PuttingDuneEnvironment(dm_env.Environment):
         dt.timedelta(seconds=0),
     )
 
+    # The field of view in which the last controls were given.
+    self._controls_fov = self.last_microscope_observation.fov
+
     # We need to reset if:
     #   1. We have just made the environment and reset has not been called yet.
     #   2. The last step was terminal.
@@ -122,6 +125,8 @@ class PuttingDuneEnvironment(dm_env.Environment):
         self.last_microscope_observation, action
     )
 
+    self._controls_fov = self.last_microscope_observation.fov
+
     # 2. Step the simulator with the action returned from ActionAdapter.
     self.last_microscope_observation = self.sim.step_and_image(
         rng=self._rng,
@@ -170,7 +175,13 @@ class PuttingDuneEnvironment(dm_env.Environment):
     # TODO(joshgreaves): beam_position lags by 1 timestep.
     previous_controls = self.last_microscope_observation.controls
     if previous_controls:
-      beam_position = np.asarray(previous_controls[-1].position.coords)[0]
+      # The controls are in the view they were given in; it may have moved.
+      fov = self.last_microscope_observation.fov
+      beam_position = fov.material_frame_to_microscope_frame(
+          self._controls_fov.microscope_frame_to_material_frame(
+              np.asarray(previous_controls[-1].position.coords)[0]
+          )
+      )
     else:
       beam_position = None
 
-- 
2.43.0


From 06dc7aaec4f029b63ef6df597a34694a6c740b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 71/72] fix: every rendering left a figure open

---
 putting_dune/putting_dune_environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index 8ad5e83..a31ede3 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -203,4 +203,5 @@ class PuttingDuneEnvironment(dm_env.Environment):
     fig.canvas.draw()
     img = np.frombuffer(fig.canvas.tostring_rgb(), dtype=np.uint8)
     img = img.reshape(fig.canvas.get_width_height()[::-1] + (3,))
+    plt.close(fig)
     return img
-- 
2.43.0


From d706e85e5e1247fb26c5ffd718440f29b1be2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:39 +0000
Subject: [PATCH 72/72] fix: the shape of the human-prior rate did not turn
 with the bond

---
 putting_dune/graphene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 767daf2..4f778da 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,9 +220,12 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, angle)
+      # The prior is for a neighbor at (1, 0), so turn the scene, not the prior.
+      rotated_beam_position = geometry.rotate_coordinates(
+          relative_beam_position, -angle
+      )
       rate = single_silicon_prior_rates(
-          relative_beam_position, rotated_mean, self.cov, self.max_rate
+          rotated_beam_position, self.mean, self.cov, self.max_rate
       )
       rates[i] = np.asarray(rate)
 
-- 
2.43.0

