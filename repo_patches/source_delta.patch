From f8b3beaa801043857032d4caf29d2b87289db56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 01/14] fix: keep the neighbour index two-dimensional in a
 static ring with k=1

The extra axis was added on every call, so a static ring with one neighbour
grew a dimension of neighbor_idx each iteration.
---
 pyswarms/backend/topology/ring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 0f1ca90..369d510 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -66,13 +66,14 @@ class Ring(Topology):
                 # Obtain the nearest-neighbors for each particle
                 tree = cKDTree(swarm.position)
                 _, self.neighbor_idx = tree.query(swarm.position, p=p, k=k)
+                if k == 1:
+                    self.neighbor_idx = self.neighbor_idx[:, np.newaxis]
 
             # Map the computed costs to the neighbour indices and take the
             # argmin. If k-neighbors is equal to 1, then the swarm acts
             # independently of each other.
             if k == 1:
                 # The minimum index is itself, no mapping needed.
-                self.neighbor_idx = self.neighbor_idx[:, np.newaxis]
                 best_neighbor = np.arange(swarm.n_particles)
             else:
                 idx_min = swarm.pbest_cost[self.neighbor_idx].argmin(axis=1)
-- 
2.43.0


From ff72b0fa97091ae99df635cfc4e553efe60e7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 02/14] fix: keep ragged neighbourhoods of Random and Pyramid
 topologies in a list

np.array() of neighbour lists of different lengths raises ValueError in
current numpy, so neither topology could run.
---
 pyswarms/backend/topology/pyramid.py | 11 +++++------
 pyswarms/backend/topology/random.py  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index d3d5b2a..9e7a5e1 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -78,12 +78,11 @@ class Pyramid(Topology):
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-                    self.neighbor_idx = np.array(
-                        [
-                            index_pointer[indices[i] : indices[i + 1]]
-                            for i in range(swarm.n_particles)
-                        ]
-                    )
+                    # The neighborhoods differ in size, hence a list
+                    self.neighbor_idx = [
+                        index_pointer[indices[i] : indices[i + 1]]
+                        for i in range(swarm.n_particles)
+                    ]
 
                 idx_min = np.array(
                     [
diff --git a/pyswarms/backend/topology/random.py b/pyswarms/backend/topology/random.py
index 7835448..377d5c1 100644
--- a/pyswarms/backend/topology/random.py
+++ b/pyswarms/backend/topology/random.py
@@ -65,12 +65,11 @@ class Random(Topology):
             # Check if the topology is static or dynamic and assign neighbors
             if (self.static and self.neighbor_idx is None) or not self.static:
                 adj_matrix = self.__compute_neighbors(swarm, k)
-                self.neighbor_idx = np.array(
-                    [
-                        adj_matrix[i].nonzero()[0]
-                        for i in range(swarm.n_particles)
-                    ]
-                )
+                # The neighborhoods differ in size, hence a list
+                self.neighbor_idx = [
+                    adj_matrix[i].nonzero()[0]
+                    for i in range(swarm.n_particles)
+                ]
             idx_min = np.array(
                 [
                     swarm.pbest_cost[self.neighbor_idx[i]].argmin()
-- 
2.43.0


From 5f175e0f2194908433555bd0bd210837989032d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 03/14] fix: move integer-typed swarms

Adding a float velocity in place to an integer position matrix raises
UFuncTypeError, so an integer init_pos could not be optimized.
---
 pyswarms/backend/operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index 71041e0..da27d5d 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -194,8 +194,7 @@ def compute_position(swarm, bounds, bh):
         New position-matrix
     """
     try:
-        temp_position = swarm.position.copy()
-        temp_position += swarm.velocity
+        temp_position = swarm.position + swarm.velocity
 
         if bounds is not None:
             temp_position = bh(temp_position, bounds)
-- 
2.43.0


From bf5088b0d11fbb957fbfafdf75e648296cdc9ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 04/14] fix: make end_opts optional for the random option
 strategy

The optimizers do not pass end_opts, so oh_strategy={'w': 'random'} raised
KeyError on the first iteration.
---
 pyswarms/backend/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 61680f5..fdd90b0 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -715,7 +715,7 @@ class OptionsHandler(HandlerMixin):
         """
         
         start = start_opts[opt]
-        if opt in kwargs["end_opts"]:
+        if "end_opts" in kwargs and opt in kwargs["end_opts"]:
             end = kwargs["end_opts"][opt]
         else:
             end = start + 1
-- 
2.43.0


From f4ca0bc62f70e6eb31ebd2bc86a83961f627c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 05/14] fix: give the star topology a best position before any
 finite cost

While every evaluation is inf or nan no particle is strictly better than
the initial inf, best_pos stays empty and the velocity update raises.
---
 pyswarms/backend/topology/star.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/star.py b/pyswarms/backend/topology/star.py
index 0a166b4..c85dc1e 100644
--- a/pyswarms/backend/topology/star.py
+++ b/pyswarms/backend/topology/star.py
@@ -63,7 +63,10 @@ class Star(Topology):
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-            if np.min(swarm.pbest_cost) < swarm.best_cost:
+            if (
+                swarm.best_pos.size == 0
+                or np.min(swarm.pbest_cost) < swarm.best_cost
+            ):
                 # Get the particle position with the lowest pbest_cost
                 # and assign it to be the best_pos
                 best_pos = swarm.pbest_pos[np.argmin(swarm.pbest_cost)]
-- 
2.43.0


From e42e41823d206cccc0c242d8b542383604aa3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 06/14] fix: forget the previous run's best when optimize() is
 called again

pbest_cost was reset but best_cost was not, so a second call could return
the first run's cost together with a position that does not have it.
---
 pyswarms/discrete/binary.py          | 2 ++
 pyswarms/single/general_optimizer.py | 2 ++
 pyswarms/single/global_best.py       | 2 ++
 pyswarms/single/local_best.py        | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index ed20b8f..4c0987c 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -189,6 +189,8 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index a46d3ed..56eef38 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,6 +240,8 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 3392bfb..cdff5b7 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,6 +202,8 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 146442d..cdf3725 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -226,6 +226,8 @@ class LocalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From 5ad84f596b455f8c034316c70c1bd89618eb40d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 07/14] fix: report the swarm's best cost from a ring with
 coincident particles

When particles coincide the k nearest neighbours of a position need not
include every particle at it, so the best particle could be in nobody's
neighbourhood and the reported cost missed the best personal best.
---
 pyswarms/backend/topology/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 369d510..6f8e3e5 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -81,7 +81,7 @@ class Ring(Topology):
                     np.arange(len(self.neighbor_idx)), idx_min
                 ]
             # Obtain best cost and position
-            best_cost = np.min(swarm.pbest_cost[best_neighbor])
+            best_cost = np.min(swarm.pbest_cost)
             best_pos = swarm.pbest_pos[best_neighbor]
         except AttributeError:
             self.rep.logger.exception(
-- 
2.43.0


From 63aa60d05f8e8a95b17915ae764c97b69d1f7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 08/14] fix: keep shrunk positions inside the bounds despite
 rounding

memory + sigma * velocity can exceed the bound it was scaled to by an ulp,
and the benchmark functions reject such positions.
---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index fdd90b0..49cab52 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -279,6 +279,8 @@ class BoundaryHandler(HandlerMixin):
                     velocity[greater_than_bound[0]].T,
                 ).T
             )
+            # Rounding may leave a particle slightly outside of the bounds
+            new_pos = np.clip(new_pos, lb, ub)
             self.memory = new_pos
         return new_pos
 
-- 
2.43.0


From 46a5dee5cf367299b9ddff8a297fec03de0a656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 09/14] fix: honour the velocity clamp in the zero and adjust
 strategies

zero never applied the clamp and adjust skipped it on its first call, so
velocities outside of velocity_clamp reached the position update.
---
 pyswarms/backend/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 49cab52..3a75fee 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -490,8 +490,8 @@ class VelocityHandler(HandlerMixin):
             else:
                 new_vel = kwargs["position"] - self.memory
                 self.memory = kwargs["position"]
-                if clamp is not None:
-                    new_vel = self.__apply_clamp(new_vel, clamp)
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' missing")
             raise
@@ -541,6 +541,8 @@ class VelocityHandler(HandlerMixin):
             new_vel = velocity
             new_vel[lower_than_bound[0]] = np.zeros(velocity.shape[1])
             new_vel[greater_than_bound[0]] = np.zeros(velocity.shape[1])
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' or 'bounds' missing")
             raise
-- 
2.43.0


From d9b4478bf625b5b392161238eafb929fe31d6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:35 +0000
Subject: [PATCH 10/14] fix: invert the velocity of an out-of-bounds particle
 only once

A particle below the bounds in one dimension and above them in another got
its velocity multiplied by -z twice, i.e. not inverted at all.
---
 pyswarms/backend/handlers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 3a75fee..7e0bca5 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -519,11 +519,12 @@ class VelocityHandler(HandlerMixin):
             lower_than_bound, greater_than_bound = self._out_of_bounds(
                 kwargs["position"], kwargs["bounds"]
             )
+            # A particle may exceed the bounds on both sides
+            out_of_bound = np.union1d(
+                lower_than_bound[0], greater_than_bound[0]
+            )
             new_vel = velocity
-            new_vel[lower_than_bound[0]] = (-z) * new_vel[lower_than_bound[0]]
-            new_vel[greater_than_bound[0]] = (-z) * new_vel[
-                greater_than_bound[0]
-            ]
+            new_vel[out_of_bound] = (-z) * new_vel[out_of_bound]
             if clamp is not None:
                 new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
-- 
2.43.0


From 4ea3611fe5412ce09b075187f44ea99876a04729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 11/14] fix: draw a random position for every out-of-bounds
 particle

The random boundary strategy drew one position and moved all particles
that exceeded the same side to it, collapsing them onto one point.
---
 pyswarms/backend/handlers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 7e0bca5..09e7b1b 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -296,19 +296,19 @@ class BoundaryHandler(HandlerMixin):
         )
         # Set indices that are greater than bounds
         new_pos = position
-        new_pos[greater_than_bound[0]] = np.array(
-            [
-                np.array([u - l for u, l in zip(ub, lb)])
-                * np.random.random_sample((position.shape[1],))
-                + lb
-            ]
+        new_pos[greater_than_bound[0]] = (
+            np.array([u - l for u, l in zip(ub, lb)])
+            * np.random.random_sample(
+                (greater_than_bound[0].size, position.shape[1])
+            )
+            + lb
         )
-        new_pos[lower_than_bound[0]] = np.array(
-            [
-                np.array([u - l for u, l in zip(ub, lb)])
-                * np.random.random_sample((position.shape[1],))
-                + lb
-            ]
+        new_pos[lower_than_bound[0]] = (
+            np.array([u - l for u, l in zip(ub, lb)])
+            * np.random.random_sample(
+                (lower_than_bound[0].size, position.shape[1])
+            )
+            + lb
         )
         return new_pos
 
-- 
2.43.0


From 483bed383e8f464bf5292109ccea2d20164dc360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 12/14] fix: compare each binary particle with its own random
 numbers

One random vector was shared by the whole swarm, although the position is
documented to be compared with a random matrix.
---
 pyswarms/discrete/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index 4c0987c..a3439b1 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -264,7 +264,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
             a Swarm class
         """
         return (
-            np.random.random_sample(size=swarm.dimensions)
+            np.random.random_sample(size=swarm.velocity.shape)
             < self._sigmoid(swarm.velocity)
         ) * 1
 
-- 
2.43.0


From 8681075014197cad8af4363fbed37fb85f6ecbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 13/14] fix: accept bounds given as lists in every boundary
 strategy

The documentation allows lists, but reflective, shrink and intermediate
index them with arrays and raised TypeError.
---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 09e7b1b..f6def4a 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -130,6 +130,8 @@ class BoundaryHandler(HandlerMixin):
         numpy.ndarray
             the adjusted positions of the swarm
         """
+        # Bounds may be given as lists
+        bounds = tuple(np.asarray(b) for b in bounds)
         try:
             new_position = self.strategies[self.strategy](
                 position, bounds, **kwargs
-- 
2.43.0


From 43f4a7475b19424de5c7848344324f06977d131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 14/14] fix: stop reflecting far-away particles forever

Beyond 2**53 bound widths a reflection no longer changes the magnitude of a
coordinate, so the loop never ended; already large excursions took one
iteration per bound width. Whole periods are now skipped first.
---
 pyswarms/backend/handlers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index f6def4a..b061b26 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -197,10 +197,15 @@ class BoundaryHandler(HandlerMixin):
             \end{gather*}
         """
         lb, ub = bounds
+        new_pos = position
+        # Two reflections, one at each bound, move a particle by one period.
+        # Skip those of remote particles, there may be too many to repeat.
+        period = 2 * (ub - lb)
+        remote = np.abs(new_pos - lb) > period
+        new_pos[remote] = (lb + np.mod(new_pos - lb, period))[remote]
         lower_than_bound, greater_than_bound = self._out_of_bounds(
-            position, bounds
+            new_pos, bounds
         )
-        new_pos = position
         while lower_than_bound[0].size != 0 or greater_than_bound[0].size != 0:
             if lower_than_bound[0].size > 0:
                 new_pos[lower_than_bound] = (
-- 
2.43.0

