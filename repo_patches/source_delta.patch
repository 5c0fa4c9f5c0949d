From c981018bee797a4a2486548e047110963098e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 01/41] fix: tile Cartesian motifs along the lattice vectors,
 not along the matrix rows

---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e364bc0..891e512 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -82,7 +82,7 @@ class PeriodicStructure:
         vec_coeffs = get_points_in_box([0 for _ in range(new_lattice.dim)], num_cells)
         for vec_coeff_set in vec_coeffs:
             if not frac_coords:  # convert lattice points to "cartesian coordinates"
-                point = lattice.matrix @ np.array(vec_coeff_set)
+                point = lattice.get_cartesian_coords(vec_coeff_set)
             else:
                 point = np.array(vec_coeff_set)
 
-- 
2.43.0


From f60c8ca65da801e37285f584187d961e005a5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 02/41] fix: site lookup no longer depends on float noise on
 the faces of the cell

---
 src/pylattica/core/periodic_structure.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 891e512..e709e31 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -3,7 +3,7 @@ from typing import Dict, Iterable, List, Tuple, Union
 import numpy as np
 
 from .coordinate_utils import get_points_in_box
-from .lattice import Lattice
+from .lattice import Lattice, periodize
 from .constants import LOCATION, SITE_CLASS, SITE_ID, OFFSET_PRECISION
 
 import copy
@@ -143,8 +143,17 @@ class PeriodicStructure:
     def _coords_with_offset(self, location: Iterable[float]) -> Iterable[float]:
         return self._get_rounded_coords(location + self._offset_vector)
 
+    def _periodized_coords(self, location: Iterable[float]) -> Iterable[float]:
+        # Locations are only resolved to OFFSET_PRECISION decimals, so a location
+        # within that distance of a lower face of the cell counts as being on it.
+        # Otherwise float noise decides which of two opposite faces is chosen.
+        frac = self.lattice.get_fractional_coords(location)
+        margin = VEC_OFFSET * np.abs(self.lattice.inv_matrix).sum(axis=0)
+        periodized = periodize(frac + margin, self.lattice.periodic) - margin
+        return self.lattice.get_cartesian_coords(periodized)
+
     def _transformed_coords(self, location: Iterable[float]) -> Iterable[float]:
-        periodized_coords = self.lattice.get_periodized_cartesian_coords(location)
+        periodized_coords = self._periodized_coords(location)
         offset_periodized_coords = self._coords_with_offset(periodized_coords)
         return offset_periodized_coords
 
@@ -166,9 +175,7 @@ class PeriodicStructure:
         """
         new_site_id = len(self._sites)
 
-        periodized_coords = self._get_rounded_coords(
-            self.lattice.get_periodized_cartesian_coords(location)
-        )
+        periodized_coords = self._get_rounded_coords(self._periodized_coords(location))
         offset_periodized_coords = tuple(self._transformed_coords(location))
 
         assert (
-- 
2.43.0


From b39d79d3e0bf9b7481bbc054a3139abaaba76dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 03/41] fix: batch update with SITES but no GENERAL no longer
 creates a site named SITES

---
 src/pylattica/core/simulation_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index b6a92ab..5c49e2b 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -155,11 +155,11 @@ class SimulationState:
             The updates to apply as a batch.
         """
 
-        if GENERAL in update_batch:
+        if GENERAL in update_batch or SITES in update_batch:
             for site_id, updates in update_batch.get(SITES, {}).items():
                 self.set_site_state(site_id, updates)
 
-            self.set_general_state(update_batch[GENERAL])
+            self.set_general_state(update_batch.get(GENERAL, {}))
         else:
             for site_id, updates in update_batch.items():
                 self.set_site_state(site_id, updates)
-- 
2.43.0


From 59e9261acc735e88c54d05a55aaa4e7ecfe627c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 04/41] fix: reload results whose updates hold SITES and
 GENERAL maps

---
 src/pylattica/core/simulation_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 44d3440..c0eb24b 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -4,6 +4,7 @@ from typing import Dict, List
 
 from monty.serialization import dumpfn, loadfn
 import datetime
+from .constants import GENERAL, SITES
 from .simulation_state import SimulationState
 
 
@@ -25,7 +26,11 @@ class SimulationResult:
         diffs = res_dict["diffs"]
         res = cls(SimulationState.from_dict(res_dict["initial_state"]))
         for diff in diffs:
-            formatted = {int(k): v for k, v in diff.items() if k != "GENERAL"}
+            if SITES in diff or GENERAL in diff:
+                sites = {int(k): v for k, v in diff.get(SITES, {}).items()}
+                formatted = {SITES: sites, GENERAL: diff.get(GENERAL, {})}
+            else:
+                formatted = {int(k): v for k, v in diff.items()}
             res.add_step(formatted)
         return res
 
-- 
2.43.0


From 4342704361a15d17b4f02da6f004ef80d361a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 05/41] fix: iterate over every step of a result, as separate
 states

---
 src/pylattica/core/simulation_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index c0eb24b..852d368 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -77,9 +77,10 @@ class SimulationResult:
             The list of steps
         """
         live_state = self.initial_state.copy()
+        yield live_state.copy()
         for diff in self._diffs:
-            yield live_state
             live_state.batch_update(diff)
+            yield live_state.copy()
 
     @property
     def last_step(self) -> SimulationState:
-- 
2.43.0


From ae53ddd03175eb448e318f4e3919e56bd498c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 06/41] fix: get_step hands out a copy of a preloaded step

---
 src/pylattica/core/simulation_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 852d368..e001557 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -128,7 +128,7 @@ class SimulationResult:
 
         stored = self._stored_states.get(step_no)
         if stored is not None:
-            return stored
+            return stored.copy()
         else:
             state = self.initial_state.copy()
             for ud_idx in range(0, step_no):
-- 
2.43.0


From cfd2bfca3d0d5a5041b1b77fc5fbaa977cb87c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 07/41] fix: a step in which every returned update is None is
 an empty step

---
 src/pylattica/core/runner/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 2ef750d..48ae24e 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -2,12 +2,12 @@ from ..constants import GENERAL, SITES
 
 
 def merge_updates(new_updates, curr_updates=None, site_id=None):
-    if new_updates is None:
-        return curr_updates
-
     if curr_updates is None:
         curr_updates = {SITES: {}, GENERAL: {}}
 
+    if new_updates is None:
+        return curr_updates
+
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
         curr_updates[SITES].update(new_updates.get(SITES, {}))
-- 
2.43.0


From c9f9f24b5895af05279a6cf045457a2bffca1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 08/41] fix: get_random_site chooses one of the state's site
 ids

---
 src/pylattica/core/basic_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/basic_controller.py b/src/pylattica/core/basic_controller.py
index 33d6e04..8fa253e 100644
--- a/src/pylattica/core/basic_controller.py
+++ b/src/pylattica/core/basic_controller.py
@@ -25,7 +25,7 @@ class BasicController(ABC):
         pass
 
     def get_random_site(self, state: SimulationState):
-        return random.randint(0, len(state.site_ids()) - 1)
+        return random.choice(state.site_ids())
 
     def instantiate_result(self, starting_state: SimulationState):
         return SimulationResult(starting_state=starting_state)
-- 
2.43.0


From 80deed89bcddea8186dd01a17f6fc8d571f431d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 09/41] fix: parallel runs report their final state as output

---
 src/pylattica/core/runner/synchronous_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ab49ce7..18eb8ca 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -70,6 +70,7 @@ class SynchronousRunner(Runner):
                     updates = self._take_step_parallel(
                         updates, pool, chunk_size=chunk_size
                     )
+                    live_state.batch_update(updates)
                     result.add_step(updates)
         else:
             printif(verbose, "Running in series.")
-- 
2.43.0


From b0999602ceaefa3bd9b33a14e1dc7e685c3c6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 10/41] fix: parallel workers apply the rule to the current
 state

---
 .../core/runner/synchronous_runner.py         | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 18eb8ca..c353783 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -50,7 +50,6 @@ class SynchronousRunner(Runner):
         if self.parallel:
             global mp_globals  # pylint: disable=global-variable-not-assigned
             mp_globals["controller"] = controller
-            mp_globals["initial_state"] = initial_state
 
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
@@ -65,10 +64,9 @@ class SynchronousRunner(Runner):
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
             with mp.get_context("fork").Pool(PROCESSES) as pool:
-                updates = {}
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
-                        updates, pool, chunk_size=chunk_size
+                        live_state, pool, chunk_size=chunk_size
                     )
                     live_state.batch_update(updates)
                     result.add_step(updates)
@@ -82,16 +80,20 @@ class SynchronousRunner(Runner):
         result.set_output(live_state)
         return result
 
-    def _take_step_parallel(self, updates: dict, pool, chunk_size) -> SimulationState:
+    def _take_step_parallel(
+        self, state: SimulationState, pool, chunk_size
+    ) -> SimulationState:
         params = []
-        site_ids = mp_globals["initial_state"].site_ids()
+        site_ids = state.site_ids()
         num_sites = len(site_ids)
         site_batches = [
             site_ids[i : i + chunk_size] for i in range(0, num_sites, chunk_size)
         ]
 
         for batch in site_batches:
-            params.append([batch, updates])
+            # any worker may take any batch, so each batch travels with the
+            # complete state it has to be applied to
+            params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
@@ -109,9 +111,9 @@ class SynchronousRunner(Runner):
         return updates
 
 
-def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no cover
-    state = mp_globals["initial_state"]
-    state.batch_update(last_updates)
+def _step_batch_parallel(
+    id_batch: List[int], state: SimulationState
+):  # pragma: no cover
     return _step_batch(id_batch, state, mp_globals["controller"])
 
 
-- 
2.43.0


From b81d6a8cd13cfe2915b7791864b49f41a7841343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 11/41] fix: periodic distance is the distance to the nearest
 image in oblique lattices too

---
 src/pylattica/core/lattice.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index 8d081c3..115a614 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -5,6 +5,7 @@ from typing import List, Tuple, Union
 import numpy as np
 from numpy.typing import ArrayLike
 from .constants import OFFSET_PRECISION
+import itertools
 import math
 
 
@@ -79,8 +80,20 @@ def pbc_diff_cart(cart_coords1: ArrayLike, cart_coords2: ArrayLike, lattice: Lat
     fcoords1 = lattice.get_fractional_coords(cart_coords1)
     fcoords2 = lattice.get_fractional_coords(cart_coords2)
     frac_dist = pbc_diff_frac_vec(fcoords1, fcoords2, lattice.periodic)
+    cart_dist = np.linalg.norm(lattice.get_cartesian_coords(frac_dist))
+
+    # In an oblique lattice rounding each fractional component need not give the
+    # nearest image. A nearer one is shorter than cart_dist, which bounds each of
+    # its fractional components.
+    bounds = cart_dist * np.linalg.norm(lattice.inv_matrix, axis=0)
+    shifts = [
+        range(math.ceil(-b - f), math.floor(b - f) + 1) if p else (0,)
+        for b, f, p in zip(bounds, frac_dist, lattice.periodic)
+    ]
+    images = frac_dist + np.array([(0,) * lattice.dim, *itertools.product(*shifts)])
     return np.round(
-        np.linalg.norm(lattice.get_cartesian_coords(frac_dist)), OFFSET_PRECISION
+        np.linalg.norm(lattice.get_cartesian_coords(images), axis=1).min(),
+        OFFSET_PRECISION,
     )
 
 
-- 
2.43.0


From ac20764ca499dc59ccc06fa6e5383098647a0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 12/41] fix: motif neighbourhoods leave out offsets that reach
 no site

---
 src/pylattica/core/neighborhood_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 961754f..d2d6edc 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -246,7 +246,7 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         for neighbor_vec in self._motif:
             loc = tuple(s + n for s, n in zip(location, neighbor_vec))
             nb_id = struct.id_at(loc)
-            if nb_id != curr_site[SITE_ID]:
+            if nb_id is not None and nb_id != curr_site[SITE_ID]:
                 nbs.append((nb_id, self.distances.get_dist(neighbor_vec)))
         return nbs
 
-- 
2.43.0


From 3bec6aeb62d25f8e9d912fdc2c4e63ec7b5f5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 13/41] fix: distance maps accept offsets given as lists, as
 the motif builder documents

---
 src/pylattica/core/distance_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/distance_map.py b/src/pylattica/core/distance_map.py
index cf330f1..47e36c3 100644
--- a/src/pylattica/core/distance_map.py
+++ b/src/pylattica/core/distance_map.py
@@ -69,7 +69,7 @@ class DistanceMap:
         """
         distances = {}
         for loc in relative_neighbor_locs:
-            distances[loc] = self._distance(np.zeros(len(loc)), np.array(loc))
+            distances[tuple(loc)] = self._distance(np.zeros(len(loc)), np.array(loc))
 
         return distances
 
@@ -86,7 +86,7 @@ class DistanceMap:
         float
             The distance of that neighbor.
         """
-        return self.distances.get(relative_loc)
+        return self.distances.get(tuple(relative_loc))
 
 
 class EuclideanDistanceMap(DistanceMap):
-- 
2.43.0


From 19590b17f2764824934459309a92b900f006ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 14/41] fix: stochastic and per-class neighbourhood builders
 can be nested

---
 src/pylattica/core/neighborhood_builders.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index d2d6edc..8c89f36 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -73,7 +73,7 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self.builders = builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """For the provided structure, calculate the StochasticNeighborhood
         specified by the list of builders originally provided to this class.
 
@@ -81,13 +81,18 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neighborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
         Neighborhood
             The resulting StochasticNeighborhood
         """
-        return StochasticNeighborhood([b.get(struct) for b in self.builders])
+        return StochasticNeighborhood(
+            [b.get(struct, site_class=site_class) for b in self.builders]
+        )
 
 
 class DistanceNeighborhoodBuilder(NeighborhoodBuilder):
@@ -266,7 +271,7 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self._builders = nb_builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """Constructs the neighborhood of every site in the provided
         structure, conditional on the class of each site.
 
@@ -274,6 +279,9 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neigborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
@@ -282,7 +290,8 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         nbhood_map = {}
         for sclass, builder in self._builders.items():
-            nbhood = builder.get(struct, site_class=sclass)
-            nbhood_map[sclass] = nbhood
+            if site_class is None or sclass == site_class:
+                nbhood = builder.get(struct, site_class=sclass)
+                nbhood_map[sclass] = nbhood
 
         return SiteClassNeighborhood(struct, nbhood_map)
-- 
2.43.0


From 13c49d8fefe2700b8daa6ac9c5b61346518b7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 15/41] fix: pymatgen conversion keeps the periodicity of each
 axis

---
 src/pylattica/atomic/pymatgen_struct_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/atomic/pymatgen_struct_converter.py b/src/pylattica/atomic/pymatgen_struct_converter.py
index 2870f77..c9773e5 100644
--- a/src/pylattica/atomic/pymatgen_struct_converter.py
+++ b/src/pylattica/atomic/pymatgen_struct_converter.py
@@ -30,7 +30,7 @@ class PymatgenStructureConverter:
         Lattice
             A pylattica lattice
         """
-        pyl_lat = PylLattice(pmg_lat.matrix)
+        pyl_lat = PylLattice(pmg_lat.matrix, periodic=pmg_lat.pbc)
         return pyl_lat
 
     def to_pylattica_structure_builder(
@@ -107,7 +107,7 @@ class PymatgenStructureConverter:
         PmgLattice
             The resulting pymatgen Lattice
         """
-        return PmgLattice(pyl_lat.vecs)
+        return PmgLattice(pyl_lat.vecs, pbc=tuple(pyl_lat.periodic))
 
     def to_pymatgen_structure(self, pyl_struct: PeriodicStructure) -> PmgStructure:
         """Converts a pylattica PeriodicStructure into a pymatgen
-- 
2.43.0


From 346d93a5063916868c26f262af31b3d21c262484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 16/41] fix: the colours of the first thirty phases are all
 different

---
 src/pylattica/visualization/colors.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pylattica/visualization/colors.py b/src/pylattica/visualization/colors.py
index 75b85a9..9be34b1 100644
--- a/src/pylattica/visualization/colors.py
+++ b/src/pylattica/visualization/colors.py
@@ -21,9 +21,6 @@ COLORS = [
     (250, 128, 114),
     (128, 0, 0),
     (255, 255, 0),
-    (0, 128, 0),
-    (32, 178, 170),
-    (128, 0, 0),
     (0, 255, 0),
     (255, 255, 255),
     (128, 128, 0),
-- 
2.43.0


From 3afa3a39dca409fab26ebf0462cadf6b964116e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 17/41] fix: random sites give every phase its share

---
 src/pylattica/structures/square_grid/grid_setup.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pylattica/structures/square_grid/grid_setup.py b/src/pylattica/structures/square_grid/grid_setup.py
index 6249596..3831673 100644
--- a/src/pylattica/structures/square_grid/grid_setup.py
+++ b/src/pylattica/structures/square_grid/grid_setup.py
@@ -17,8 +17,6 @@ from .structure_builders import (
     SimpleSquare3DStructureBuilder,
 )
 
-from itertools import cycle
-
 
 class DiscreteGridSetup:
     """A class for setting up states. Provides helper methods for creating starting
@@ -338,13 +336,13 @@ class DiscreteGridSetup:
 
         real_num_sites = {p: 0 for p in nuc_species}
 
-        spec_provider = cycle(nuc_species)
+        # always seed the phase which is furthest from its share
         while len(nuc_identities) < num_sites_desired:
-            phase = next(spec_provider)
-
-            if real_num_sites.get(phase) < ideal_num_sites.get(phase):
-                nuc_identities.append(phase)
-                real_num_sites[phase] += 1
+            phase = max(
+                nuc_species, key=lambda p: ideal_num_sites[p] - real_num_sites[p]
+            )
+            nuc_identities.append(phase)
+            real_num_sites[phase] += 1
 
         while num_sites_planted < num_sites_desired:
             if total_attempts > 1000 * num_sites_desired:
-- 
2.43.0


From 6a984fed7582b39599645096106e4a098b33ecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 18/41] fix: the growth model can be imported first (circular
 import)

---
 src/pylattica/structures/square_grid/growth_setup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index 12ff005..9261950 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -1,7 +1,6 @@
 from ...core import SynchronousRunner, Simulation
 from ...core.neighborhood_builders import NeighborhoodBuilder
 from ...discrete import PhaseSet
-from ...models.growth import GrowthController
 from .grid_setup import DiscreteGridSetup
 
 from typing import Dict
@@ -63,6 +62,9 @@ class GrowthSetup:
         Simulation
             The resulting Simulation.
         """
+        # imported here because the growth model itself imports this package
+        from ...models.growth import GrowthController
+
         setup = DiscreteGridSetup(self._phases, dim=self.dim)
 
         simulation = setup.setup_random_sites(
-- 
2.43.0


From ca43e1a570726a94ecaf0e6598484016845eeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 19/41] fix: animation frames with taller legends are no longer
 cut off

---
 src/pylattica/visualization/result_artist.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 52c3c33..0c19aaa 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -111,7 +111,12 @@ class ResultArtist:
         wait = kwargs.get("wait", 0.8)
         imgs = self._get_images(**kwargs)
         img_names = []
+        # the height of a step's image depends on its legend, but the frames of
+        # an animation share one size
+        size = (max(img.width for img in imgs), max(img.height for img in imgs))
         for idx, img in enumerate(imgs):
+            if img.size != size:
+                img = img.crop((0, 0, *size))
             fname = f"tmp_pylat_step_{idx}.png"
             img.save(fname)
             img_names.append(fname)
-- 
2.43.0


From 473f2b81b0a1201ed396eb401edfa1b8b2583878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 20/41] fix: a step merges updates of several sites to the same
 site

---
 src/pylattica/core/runner/common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 48ae24e..6387759 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -1,6 +1,11 @@
 from ..constants import GENERAL, SITES
 
 
+def _merge_site_updates(curr_sites, new_sites):
+    for site_id, updates in new_sites.items():
+        curr_sites[site_id] = {**curr_sites.get(site_id, {}), **updates}
+
+
 def merge_updates(new_updates, curr_updates=None, site_id=None):
     if curr_updates is None:
         curr_updates = {SITES: {}, GENERAL: {}}
@@ -10,14 +15,14 @@ def merge_updates(new_updates, curr_updates=None, site_id=None):
 
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
-        curr_updates[SITES].update(new_updates.get(SITES, {}))
+        _merge_site_updates(curr_updates[SITES], new_updates.get(SITES, {}))
         curr_updates[GENERAL].update(new_updates.get(GENERAL, {}))
     # if these updates only include site updates
     elif set(map(type, new_updates.keys())) == {int}:
-        curr_updates[SITES].update(new_updates)
+        _merge_site_updates(curr_updates[SITES], new_updates)
     # if these updates only apply to a single site
     elif site_id is not None:
-        curr_updates[SITES].update({site_id: new_updates})
+        _merge_site_updates(curr_updates[SITES], {site_id: new_updates})
     else:
         raise ValueError("Bad combination of arguments for merge_updates")
 
-- 
2.43.0


From 3f098c3bf630b52432006f43a3b470bc462cd9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 21/41] fix: search for nearer images only in lattices whose
 vectors are not perpendicular

The search of the periodic distance made every distance in a rectangular
lattice, where rounding each component already gives the nearest image, cost
half as much again.
---
 src/pylattica/core/lattice.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index 115a614..bc46e8b 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -82,6 +82,9 @@ def pbc_diff_cart(cart_coords1: ArrayLike, cart_coords2: ArrayLike, lattice: Lat
     frac_dist = pbc_diff_frac_vec(fcoords1, fcoords2, lattice.periodic)
     cart_dist = np.linalg.norm(lattice.get_cartesian_coords(frac_dist))
 
+    if lattice.is_orthogonal:
+        return np.round(cart_dist, OFFSET_PRECISION)
+
     # In an oblique lattice rounding each fractional component need not give the
     # nearest image. A nearer one is shorter than cart_dist, which bounds each of
     # its fractional components.
@@ -148,6 +151,8 @@ class Lattice:
 
         self._matrix: np.ndarray = mat
         self._inv_matrix: np.ndarray | None = None
+        gram = mat @ mat.T
+        self._is_orthogonal = not np.any(gram - np.diag(np.diag(gram)))
 
         self.dim = len(vecs[0])
         self.vec_lengths = [np.linalg.norm(np.array(vec)) for vec in vecs]
@@ -171,6 +176,11 @@ class Lattice:
             self._inv_matrix.setflags(write=False)
         return self._inv_matrix
 
+    @property
+    def is_orthogonal(self) -> bool:
+        """Whether the lattice vectors are exactly perpendicular to each other."""
+        return self._is_orthogonal
+
     def get_cartesian_coords(self, fractional_coords: ArrayLike) -> np.ndarray:
         """Returns the Cartesian coordinates given fractional coordinates. (taken from pymatgen)
 
-- 
2.43.0


From 9fd419a3b54bcbb117884878db066de8f97db943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 22/41] fix: shell-only 3D rendering draws all three visible
 faces

---
 src/pylattica/visualization/square_grid_artist_3D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 408c375..5a6e9df 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -24,7 +24,9 @@ class SquareGridArtist3D(StructureArtist):
 
         for site in self.structure.sites():
             loc = site[LOCATION]
-            if not shell_only or (loc[1] == 0 or loc[0] == size or loc[2] == size):
+            if not shell_only or (
+                loc[1] == 0 or loc[0] == size - 1 or loc[2] == size - 1
+            ):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
                 color = self.cell_artist.get_color_from_cell_state(site_state)
-- 
2.43.0


From 4281c87012ef753d300ef232d079d470bde78f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 23/41] fix: conflicting updates in a parallel run are resolved
 as in a serial run

---
 src/pylattica/core/runner/synchronous_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index c353783..f012cde 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -98,7 +98,7 @@ class SynchronousRunner(Runner):
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
         for batch_update_res in results:
-            all_updates = merge_updates(all_updates, batch_update_res)
+            all_updates = merge_updates(batch_update_res, all_updates)
 
         return all_updates
 
-- 
2.43.0


From 03d53646c3b0f086ab7c4da55b80350e4e8e67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 24/41] fix: phases of a result are those of its current steps,
 not of the first query

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 151d823..c71e173 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -3,7 +3,6 @@ from typing import Dict, List, Tuple
 import matplotlib.pyplot as plt
 import numpy as np
 import plotly.graph_objects as go
-from functools import lru_cache
 
 from ..core import SimulationResult, SimulationState
 from .discrete_step_analyzer import DiscreteStepAnalyzer
@@ -25,7 +24,6 @@ class DiscreteResultAnalyzer:
         """
         self._result = result
 
-    @lru_cache
     def all_phases(self) -> List[str]:
         """Returns all of the phases present across the analyzed result.
 
-- 
2.43.0


From dd6af151b24f7cfe239cf47394a4efd80e0de1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 25/41] fix: a site without the searched key does not match a
 search for None

---
 src/pylattica/core/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/analyzer.py b/src/pylattica/core/analyzer.py
index d9faa59..7d08c57 100644
--- a/src/pylattica/core/analyzer.py
+++ b/src/pylattica/core/analyzer.py
@@ -97,7 +97,7 @@ class StateAnalyzer:
 
         def _criteria(site_state: Dict) -> bool:
             for state_key, state_val in search_pairs.items():
-                if site_state.get(state_key) != state_val:
+                if state_key not in site_state or site_state[state_key] != state_val:
                     return False
             return True
 
-- 
2.43.0


From 6a5f833157500bbbe9c9bbfd8be7c0bd163cffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 26/41] fix: runs of a state without sites take empty steps

---
 src/pylattica/core/runner/synchronous_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index f012cde..50dfdb3 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -58,7 +58,7 @@ class SynchronousRunner(Runner):
 
             printif(verbose, f"Running in parallel using {PROCESSES} workers")
             num_sites = initial_state.size
-            chunk_size = math.ceil(num_sites / PROCESSES)
+            chunk_size = max(1, math.ceil(num_sites / PROCESSES))
             printif(
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
@@ -96,7 +96,7 @@ class SynchronousRunner(Runner):
             params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
-        all_updates = None
+        all_updates = merge_updates(None)
         for batch_update_res in results:
             all_updates = merge_updates(batch_update_res, all_updates)
 
@@ -120,7 +120,7 @@ def _step_batch_parallel(
 def _step_batch(
     id_batch: List[int], previous_state: SimulationState, controller: BasicController
 ):
-    batch_updates = None
+    batch_updates = merge_updates(None)
     for site_id in id_batch:
         site_updates = controller.get_state_update(site_id, previous_state)
         batch_updates = merge_updates(site_updates, batch_updates, site_id)
-- 
2.43.0


From f968f4e225713715e44d45e462e18e7786fca9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 27/41] fix: plot_phase_counts plots the number of phases of
 each step of the result

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index c71e173..97a147f 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -104,8 +104,9 @@ class DiscreteResultAnalyzer:
         """In a jupyter notebook environment, plots the number of phases at each
         time step.
         """
-        xs = np.arange(len(self.steps))
-        ys = [step.phase_count for step in self.steps]
+        analyzer = DiscreteStepAnalyzer()
+        xs = np.arange(len(self._result))
+        ys = [analyzer.phase_count(step) for step in self._result.steps()]
         plt.plot(xs, ys)
 
     def _get_steps_to_plot(self) -> Tuple[List[int], List[SimulationState]]:
-- 
2.43.0


From 74ae73fccb928bd44b03e24ac5ef5d33f6a8d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 28/41] fix: structures keep their site ids whatever the order
 of the keys they are loaded from

---
 src/pylattica/core/periodic_structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e709e31..af4ebf8 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -132,7 +132,9 @@ class PeriodicStructure:
         struct = cls(Lattice.from_dict(d["lattice"]))
         sites = {int(k): v for k, v in d["_sites"].items()}
 
-        for _, site in sites.items():
+        # adding a site assigns the next ID, so the sites are added in the order of
+        # their IDs, which need not be the order in which the mapping lists them
+        for _, site in sorted(sites.items()):
             struct.add_site(site[SITE_CLASS], site[LOCATION])
 
         return struct
-- 
2.43.0


From 8bdfd7572dce368bdb57b69c40e5857507eba2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 29/41] fix: a simulation can be loaded from a file that may
 not be written

---
 src/pylattica/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation.py b/src/pylattica/core/simulation.py
index 0b590f8..6ff1567 100644
--- a/src/pylattica/core/simulation.py
+++ b/src/pylattica/core/simulation.py
@@ -42,7 +42,7 @@ class Simulation:
 
     @classmethod
     def from_file(cls, fname):
-        with open(fname, "r+", encoding="utf-8") as f:
+        with open(fname, "r", encoding="utf-8") as f:
             d = json.load(f)
             return cls.from_dict(d)
 
-- 
2.43.0


From a2792a2fabeae474b8436f6376ca7c207dbee1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 30/41] fix: growth runs long enough to cover every axis of a
 grid

---
 src/pylattica/structures/square_grid/growth_setup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index 9261950..ff08a56 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -83,5 +83,6 @@ class GrowthSetup:
         )
 
         runner = SynchronousRunner(parallel=True)
-        res = runner.run(simulation.state, controller, num_steps=size)
+        # a particle that grows along one axis at a time has to cover every axis
+        res = runner.run(simulation.state, controller, num_steps=size * self.dim)
         return Simulation(res.last_step, simulation.structure)
-- 
2.43.0


From 4218b07f4f8830bf3ed4e07e304cfd51e4d7f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 31/41] fix: the phase of random particles can be given by its
 name, as documented

---
 src/pylattica/structures/square_grid/grid_setup.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/structures/square_grid/grid_setup.py b/src/pylattica/structures/square_grid/grid_setup.py
index 3831673..c9e71bc 100644
--- a/src/pylattica/structures/square_grid/grid_setup.py
+++ b/src/pylattica/structures/square_grid/grid_setup.py
@@ -149,7 +149,7 @@ class DiscreteGridSetup:
         radius: int,
         num_particles: int,
         bulk_phase: str,
-        particle_phases: str,
+        particle_phases: typing.Union[str, typing.List[str]],
     ) -> Simulation:
         """Generates a starting state with a one phase in the background and num_particles particles distributed
         onto it randomly
@@ -164,14 +164,17 @@ class DiscreteGridSetup:
             The number of particles
         bulk_phase : str
             The name of the containing phase
-        particle_phases : str
-            The name of the particulate phase
+        particle_phases : Union[str, List[str]]
+            The name of the particulate phase, or the names of several
 
         Returns
         -------
         Simulation
             The resulting Simulation.
         """
+        if isinstance(particle_phases, str):
+            particle_phases = [particle_phases]
+
         structure = self._builder.build(size)
         state: SimulationState = self.setup_solid_phase(structure, bulk_phase)
         for _ in range(num_particles):
-- 
2.43.0


From d6d85ce80c91cb29be3c3c6ff476e65dff835dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 32/41] fix: updates may name sites by numpy integers

---
 src/pylattica/core/runner/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 6387759..8f4915e 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -1,8 +1,12 @@
+from numbers import Integral
+
 from ..constants import GENERAL, SITES
 
 
 def _merge_site_updates(curr_sites, new_sites):
     for site_id, updates in new_sites.items():
+        # numpy integers name sites too, but do not serialize as keys
+        site_id = int(site_id)
         curr_sites[site_id] = {**curr_sites.get(site_id, {}), **updates}
 
 
@@ -18,7 +22,7 @@ def merge_updates(new_updates, curr_updates=None, site_id=None):
         _merge_site_updates(curr_updates[SITES], new_updates.get(SITES, {}))
         curr_updates[GENERAL].update(new_updates.get(GENERAL, {}))
     # if these updates only include site updates
-    elif set(map(type, new_updates.keys())) == {int}:
+    elif new_updates and all(isinstance(k, Integral) for k in new_updates):
         _merge_site_updates(curr_updates[SITES], new_updates)
     # if these updates only apply to a single site
     elif site_id is not None:
-- 
2.43.0


From 0097d2c14d34f4351cec3d4bc434cbac2513b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 33/41] fix: the next site of an asynchronous run may be a
 numpy integer

---
 src/pylattica/core/runner/asynchronous_runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/asynchronous_runner.py b/src/pylattica/core/runner/asynchronous_runner.py
index fbfe19a..6f0a0df 100644
--- a/src/pylattica/core/runner/asynchronous_runner.py
+++ b/src/pylattica/core/runner/asynchronous_runner.py
@@ -1,4 +1,5 @@
 from collections import deque
+from numbers import Integral
 
 from tqdm import tqdm
 
@@ -61,7 +62,7 @@ class AsynchronousRunner(Runner):
 
         def _add_sites_to_queue():
             next_site = controller.get_random_site(live_state)
-            if isinstance(next_site, int):
+            if isinstance(next_site, Integral):
                 site_queue.append(next_site)
             elif isinstance(next_site, list):
                 site_queue.extend(next_site)
-- 
2.43.0


From 65788585d58d8698e9f9573a43572b1826dc3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 34/41] fix: animations are written without temporary files

---
 src/pylattica/visualization/result_artist.py | 22 ++++----------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 0c19aaa..607f3d7 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -1,5 +1,4 @@
 import multiprocessing as mp
-import os
 import time
 import sys
 
@@ -110,32 +109,19 @@ class ResultArtist:
         """
         wait = kwargs.get("wait", 0.8)
         imgs = self._get_images(**kwargs)
-        img_names = []
         # the height of a step's image depends on its legend, but the frames of
         # an animation share one size
         size = (max(img.width for img in imgs), max(img.height for img in imgs))
-        for idx, img in enumerate(imgs):
-            if img.size != size:
-                img = img.crop((0, 0, *size))
-            fname = f"tmp_pylat_step_{idx}.png"
-            img.save(fname)
-            img_names.append(fname)
-
-        reloaded_imgs = []
-        for fname in img_names:
-            reloaded_imgs.append(Image.open(fname))
-
-        reloaded_imgs[0].save(
+        frames = [img if img.size == size else img.crop((0, 0, *size)) for img in imgs]
+
+        frames[0].save(
             filename,
             save_all=True,
-            append_images=reloaded_imgs[1:],
+            append_images=frames[1:],
             duration=wait * 1000,
             loop=0,
         )
 
-        for fname in img_names:
-            os.remove(fname)
-
 
 def _get_img_parallel(step, step_kwargs):
     return _dsr_globals["artist"].get_img(step, **step_kwargs)
-- 
2.43.0


From 0dbe97ad7313fa2a18f956e6e2a3eb5fc8f59c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 35/41] fix: 2D grids of unequal sides are drawn completely

---
 .../visualization/square_grid_artist_2D.py       | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_2D.py b/src/pylattica/visualization/square_grid_artist_2D.py
index 016779e..9100658 100644
--- a/src/pylattica/visualization/square_grid_artist_2D.py
+++ b/src/pylattica/visualization/square_grid_artist_2D.py
@@ -1,3 +1,4 @@
+import numpy as np
 from PIL import Image, ImageDraw
 
 from ..core.constants import LOCATION, SITE_ID
@@ -15,11 +16,14 @@ class SquareGridArtist2D(StructureArtist):
 
         legend = self.cell_artist.get_legend(state)
         legend_order = sorted(legend.keys())
-        state_size = int(self.structure.lattice.vec_lengths[0])
-        width = state_size + 6
+        # the grid's extent along x and y, which need not be equal
+        grid_width, grid_height = (
+            round(extent) for extent in np.abs(self.structure.lattice.vecs).sum(axis=0)
+        )
+        width = grid_width + 6
 
         legend_border_width = 5
-        height = max(state_size, len(legend) + 1)
+        height = max(grid_height, len(legend) + 1)
         img = Image.new(
             "RGB",
             (width * cell_size + legend_border_width, height * cell_size),
@@ -34,7 +38,7 @@ class SquareGridArtist2D(StructureArtist):
             cell_state = state.get_site_state(site[SITE_ID])
             cell_color = self.cell_artist.get_color_from_cell_state(cell_state)
             p_x_start = int((loc[0]) * cell_size)
-            p_y_start = int((state_size - 1 - loc[1]) * cell_size)
+            p_y_start = int((grid_height - 1 - loc[1]) * cell_size)
             for p_x in range(p_x_start, p_x_start + cell_size):
                 for p_y in range(p_y_start, p_y_start + cell_size):
                     pixels[p_x, p_y] = cell_color
@@ -45,12 +49,12 @@ class SquareGridArtist2D(StructureArtist):
 
         for p_y in range(height * cell_size):
             for p_x in range(0, legend_border_width):
-                x = state_size * cell_size + p_x
+                x = grid_width * cell_size + p_x
                 pixels[x, p_y] = (255, 255, 255)
 
         for phase in legend_order:
             color = legend.get(phase)
-            p_col_start = state_size * cell_size + legend_border_width + legend_hoffset
+            p_col_start = grid_width * cell_size + legend_border_width + legend_hoffset
             p_row_start = count * cell_size + legend_voffset
             for p_x in range(p_col_start, p_col_start + cell_size):
                 for p_y in range(p_row_start, p_row_start + cell_size):
-- 
2.43.0


From 93b766353b748102081bff40a04db7657215a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 36/41] fix: 3D grids of unequal sides are drawn

---
 src/pylattica/visualization/square_grid_artist_3D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 5a6e9df..b8ba686 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -14,9 +14,9 @@ class SquareGridArtist3D(StructureArtist):
     def _draw_image(self, state: SimulationState, **kwargs):
         shell_only = kwargs.get("shell_only", False)
 
-        size = round(state.size ** (1 / 3))
-
-        shape = [size for _ in range(self.structure.dim)]
+        # the grid's extent along x, y and z, which need not be equal
+        extents = np.abs(self.structure.lattice.vecs).sum(axis=0)
+        shape = [round(extent) for extent in extents]
         dataset = {}
 
         dataset["empty"] = np.ones(shape)
@@ -25,7 +25,7 @@ class SquareGridArtist3D(StructureArtist):
         for site in self.structure.sites():
             loc = site[LOCATION]
             if not shell_only or (
-                loc[1] == 0 or loc[0] == size - 1 or loc[2] == size - 1
+                loc[1] == 0 or loc[0] == shape[0] - 1 or loc[2] == shape[2] - 1
             ):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
-- 
2.43.0


From ca0aa1495033937ff49b97e086bb545bd103519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 37/41] fix: the neighbours of a site are listed in the same
 order every time

---
 src/pylattica/core/neighborhoods.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhoods.py b/src/pylattica/core/neighborhoods.py
index 6278dd7..9d624a1 100644
--- a/src/pylattica/core/neighborhoods.py
+++ b/src/pylattica/core/neighborhoods.py
@@ -40,14 +40,15 @@ class Neighborhood(AbstractNeighborhood):
         list[int]
             Either a list of site IDs, or a list of tuples of (site ID, connection weight)
         """
-        nbs = self._graph.neighbors(site_id)
+        # the graph lists them in another order on every call
+        nbs = sorted(self._graph.neighbors(site_id))
         if include_weights:
             weighted_nbs = [
                 (nb_id, self._graph.get_edge_data(site_id, nb_id)) for nb_id in nbs
             ]
             return weighted_nbs
 
-        return list(nbs)
+        return nbs
 
 
 class MultiNeighborhood(AbstractNeighborhood):
-- 
2.43.0


From b379ecbac664b45077dfb8c33154c1b1b6026e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 38/41] fix: report a StopIteration raised by a rule in a
 parallel run

starmap took it for the end of its batch and dropped the batch's updates
---
 src/pylattica/core/runner/synchronous_runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 50dfdb3..c1a3628 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -95,10 +95,11 @@ class SynchronousRunner(Runner):
             # complete state it has to be applied to
             params.append([batch, state])
 
-        results = pool.starmap(_step_batch_parallel, params)
+        # starmap would take a StopIteration raised by a rule for the end of its batch
+        results = [pool.apply_async(_step_batch_parallel, p) for p in params]
         all_updates = merge_updates(None)
         for batch_update_res in results:
-            all_updates = merge_updates(batch_update_res, all_updates)
+            all_updates = merge_updates(batch_update_res.get(), all_updates)
 
         return all_updates
 
-- 
2.43.0


From 158a51b5eb1715dfa46c36e7aaa15dce7ef8ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 39/41] fix: SimulationState.from_dict leaves its dictionary
 unchanged

---
 src/pylattica/core/simulation_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index 5c49e2b..d649cb9 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -25,7 +25,7 @@ class SimulationState:
 
     @classmethod
     def from_dict(cls, state_dict):
-        state = state_dict["state"]
+        state = dict(state_dict["state"])
         state[SITES] = {int(k): v for k, v in state[SITES].items()}
         return cls(state)
 
-- 
2.43.0


From 3a6e3ebfe5bf80865affdf804083510b9333755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 40/41] fix: periodize takes batches of points with a single
 flag and lists of flags

---
 src/pylattica/core/lattice.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index bc46e8b..44bcb5b 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -25,9 +25,6 @@ def periodize(frac_coords, periodic: Union[Tuple[bool], bool] = True):
     ArrayLike
         The periodized coordinates
     """
-    if not isinstance(periodic, tuple):
-        periodic = [periodic for _ in frac_coords]
-
     return frac_coords - np.floor(frac_coords) * np.array(periodic, dtype=int)
 
 
-- 
2.43.0


From 496ac901ae932e828b65c5e253352caa11c48b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:27 +0000
Subject: [PATCH 41/41] fix: site lookup does not hang on float noise for sites
 one step below a face

The margin within which a location counts as lying on the lower face was
exactly one step of the resolution, so for a site at, say, x = -0.001 float
noise decided to which side of the cell it was moved, and lookups at some of
its periodic images found nothing.
---
 src/pylattica/core/periodic_structure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index af4ebf8..419cdd2 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -9,6 +9,9 @@ from .constants import LOCATION, SITE_CLASS, SITE_ID, OFFSET_PRECISION
 import copy
 
 VEC_OFFSET = 0.001
+# less than one step of the resolution, and no simple fraction of it, so that
+# no location that is given to that resolution lies just this far from a face
+FACE_MARGIN = VEC_OFFSET / np.sqrt(2)
 DEFAULT_SITE_CLASS = "A"
 
 
@@ -147,10 +150,10 @@ class PeriodicStructure:
 
     def _periodized_coords(self, location: Iterable[float]) -> Iterable[float]:
         # Locations are only resolved to OFFSET_PRECISION decimals, so a location
-        # within that distance of a lower face of the cell counts as being on it.
+        # within FACE_MARGIN of a lower face of the cell counts as being on it.
         # Otherwise float noise decides which of two opposite faces is chosen.
         frac = self.lattice.get_fractional_coords(location)
-        margin = VEC_OFFSET * np.abs(self.lattice.inv_matrix).sum(axis=0)
+        margin = FACE_MARGIN * np.abs(self.lattice.inv_matrix).sum(axis=0)
         periodized = periodize(frac + margin, self.lattice.periodic) - margin
         return self.lattice.get_cartesian_coords(periodized)
 
-- 
2.43.0

