From 96f2ac6f029b094d7789d86f8c3b65e8c235afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:15 +0000
Subject: [PATCH 01/12] fix: detect edge cells for particles in the first row
 or column

---
 dorado/lagrangian_walker.py | 5 +++--
 dorado/particle_track.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5dd6cce..5985cfa 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -398,8 +398,9 @@ def check_for_boundary(new_inds, current_inds, cell_type):
     # If so, then stop moving particle
     for i in range(0, len(new_inds)):
         # If particle borders an edge, cancel out any additional steps
-        if -1 in cell_type[current_inds[i][0]-1:current_inds[i][0]+2,
-                           current_inds[i][1]-1:current_inds[i][1]+2]:
+        # (window clamped at 0 so it never wraps around to the far edge)
+        if -1 in cell_type[max(0, current_inds[i][0]-1):current_inds[i][0]+2,
+                           max(0, current_inds[i][1]-1):current_inds[i][1]+2]:
             new_inds[i][0] = current_inds[i][0]
             new_inds[i][1] = current_inds[i][1]
 
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00ec552..c394a51 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -735,9 +735,10 @@ class Particles():
                 _iter_particles = []
 
                 # Only iterate if this particle isn't already at a boundary:
-                if -1 not in self.cell_type[all_xinds[ii][-1]-1:
+                # (window clamped at 0 so it never wraps to the far edge)
+                if -1 not in self.cell_type[max(0, all_xinds[ii][-1]-1):
                                             all_xinds[ii][-1]+2,
-                                            all_yinds[ii][-1]-1:
+                                            max(0, all_yinds[ii][-1]-1):
                                             all_yinds[ii][-1]+2]:
                     # Loop until |target time - current time| <
                     #            |target time - estimated next time|
-- 
2.43.0


From f9dba1e23265be20001b2b87853c65c8bf4536f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:19 +0000
Subject: [PATCH 02/12] fix: particles without an admissible direction stay in
 place

---
 dorado/lagrangian_walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5985cfa..9a5c9c5 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -427,6 +427,8 @@ def random_pick(probs):
     """
     probs[np.isnan(probs)] = 0  # any nans are assigned as 0
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    if cutoffs[-1] <= 0:
+        return 4  # no admissible direction, stay in the current cell
     # randomly pick indices from cutoffs based on uniform distribution
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
@@ -463,6 +465,8 @@ def steep_descent(probs):
     # is just 1, or it will randomly choose between values in the event
     # of a tie
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    if cutoffs[-1] <= 0:
+        return 4  # no admissible direction, stay in the current cell
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
     return idx
-- 
2.43.0


From 01588ecc6175808f90261a57981b39724e50dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 03/12] fix: never pick a direction of zero weight on a zero
 draw

---
 dorado/lagrangian_walker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 9a5c9c5..9ee948a 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -430,7 +430,9 @@ def random_pick(probs):
     if cutoffs[-1] <= 0:
         return 4  # no admissible direction, stay in the current cell
     # randomly pick indices from cutoffs based on uniform distribution
-    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    # ('right' so that a draw of exactly 0 cannot pick a zero probability)
+    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]),
+                               side='right')
 
     return idx
 
@@ -467,7 +469,9 @@ def steep_descent(probs):
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
     if cutoffs[-1] <= 0:
         return 4  # no admissible direction, stay in the current cell
-    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    # ('right' so that a draw of exactly 0 cannot pick a zero probability)
+    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]),
+                               side='right')
 
     return idx
 
-- 
2.43.0


From 89a8bed115dc05cf071dd23ae06cbdf08a6d8f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:25 +0000
Subject: [PATCH 04/12] fix: report every particle that exceeded the iteration
 limit

---
 dorado/particle_track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index c394a51..0c80a74 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -722,6 +722,9 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+            # init list for too many particle iterations
+            _iter_particles = []
+
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
@@ -731,9 +734,6 @@ class Particles():
                     est_next_dt = 0.1
                 count = 1
 
-                # init list for too many particle iterations
-                _iter_particles = []
-
                 # Only iterate if this particle isn't already at a boundary:
                 # (window clamped at 0 so it never wraps to the far edge)
                 if -1 not in self.cell_type[max(0, all_xinds[ii][-1]-1):
-- 
2.43.0


From 87f66937a566da5bc02211e2ad13a217373a5a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:29 +0000
Subject: [PATCH 05/12] fix: do not step late particles whose last step took no
 time

---
 dorado/particle_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 0c80a74..8754b09 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -728,7 +728,8 @@ class Particles():
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
-                    est_next_dt = all_times[ii][-1] - all_times[ii][-2]
+                    est_next_dt = max(0.1, all_times[ii][-1] -
+                                      all_times[ii][-2])
                 else:
                     # Initialize a guess for the next iteration's timestep
                     est_next_dt = 0.1
-- 
2.43.0


From 2569d733a967b847c1bd1154fe830af0bec466dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:01 +0000
Subject: [PATCH 06/12] fix: keep newly tracked variables aligned with existing
 histories

---
 dorado/particle_track.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 8754b09..e780e47 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -588,7 +588,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in self.walk_data:
                     internal_var = self.walk_data[var]
-                    optional_start_vars[var] = internal_var + new_var_list
+                else:
+                    # not tracked while these histories were recorded
+                    internal_var = [[None]*len(x) for x in internal_xinds]
+                optional_start_vars[var] = internal_var + new_var_list
 
         if previous_walk_data is not None:
             # If the generator has been run before, or if new
@@ -608,7 +611,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
                     prev_var = previous_walk_data[var]
-                    optional_start_vars[var] = prev_var + new_var_list
+                else:
+                    # not tracked while these histories were recorded
+                    prev_var = [[None]*len(x) for x in prev_xinds]
+                optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
         self.Np_tracer = len(start_xindices)
-- 
2.43.0


From f46f2c1fa0ecbc0427bb9179f3e23ba64e386dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 07/12] fix: give every parallel worker its own random stream

---
 dorado/parallel_routing.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 38aee2a..23d306f 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -37,8 +37,12 @@ def run_iter(pobj):
             any optional variables, with details same as input previous_walk_data
 
     """
+    # own stream of random numbers (forked workers inherit the parent's state)
+    if getattr(pobj, 'rng_seed', None) is not None:
+        np.random.seed(pobj.rng_seed)
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
+    all_walk = pobj.particles.walk_data
     # do iterations
     for i in list(range(0, pobj.num_iter)):
         all_walk = pobj.particles.run_iteration()
@@ -129,16 +133,20 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
             and travel times for each particle computed by that process/core
 
     """
-    # make parallel object to assign to function
-    pobj = parallel_obj()
-    pobj.particles = particles
-    pobj.num_iter = num_iter
-    pobj.Np_tracer = Np_tracer
-    pobj.seed_xloc = seed_xloc
-    pobj.seed_yloc = seed_yloc
-
     # define list to pass to actual function that will be mapped to in parallel
-    p_list = [pobj] * num_cores
+    # (one object per core, each with a different random seed)
+    base_seed = int(np.random.randint(0, 2**31 - 1))
+    p_list = []
+    for core in range(num_cores):
+        # make parallel object to assign to function
+        pobj = parallel_obj()
+        pobj.particles = particles
+        pobj.num_iter = num_iter
+        pobj.Np_tracer = Np_tracer
+        pobj.seed_xloc = seed_xloc
+        pobj.seed_yloc = seed_yloc
+        pobj.rng_seed = base_seed + core
+        p_list.append(pobj)
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-- 
2.43.0


From f75e1a7d8a4f2fe0536deee2cde5f9ad924a2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:08 +0000
Subject: [PATCH 08/12] fix: plotting drivers work with and without tracked
 variables

---
 dorado/routines.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 1de0eaa..f84597d 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -84,10 +84,10 @@ def steady_plots(particle, num_iter,
         walk_data = particle.run_iteration()
         if save_output:
             # Get current location
-            xi, yi, ti = get_state(walk_data)
+            xi, yi, ti = get_state(walk_data)[:3]
             if i == 0:
                 # Initialize figure
-                x0, y0, t0 = get_state(walk_data, 0)
+                x0, y0, t0 = get_state(walk_data, 0)[:3]
                 fig = plt.figure(dpi=200)
                 ax = fig.add_subplot(111)
                 im = ax.imshow(particle.depth)
@@ -346,10 +346,10 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
         walk_data = particle.run_iteration()
 
         # collect latest travel times
-        xi, yi, temptimes = get_state(walk_data)
+        xi, yi, temptimes = get_state(walk_data)[:3]
 
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = plt.gca()
@@ -614,7 +614,7 @@ def plot_exposure_time(walk_data,
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Record final travel times
-    x, y, end_time, optional_state = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     # Handle the timedelta
     if timedelta == 1:
@@ -818,7 +818,7 @@ def plot_exposure_time_thresholds(walk_data,
     """
 
     Np_tracer = len(walk_data['xinds'])
-    x, y, end_time = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     if timedelta == 1:
         timeunit = '[s]'
@@ -1087,9 +1087,9 @@ def plot_state(grid, walk_data, iteration=-1, target_time=None, c='b'):
 
     """
     if target_time is None:
-        x, y, t = get_state(walk_data, int(iteration))
+        x, y, t = get_state(walk_data, int(iteration))[:3]
     else:
-        x, y, t = get_time_state(walk_data, target_time)
+        x, y, t = get_time_state(walk_data, target_time)[:3]
     ax = plt.gca()
     ax.imshow(grid)
     plt.scatter(y, x, c=c)
-- 
2.43.0


From b14099e02b6875f42d5ea5e0e7efd029503bc20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:52 +0000
Subject: [PATCH 09/12] fix: count steps within boolean regions in full in
 exposure_time

---
 dorado/particle_track.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index e780e47..cde127c 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1011,6 +1011,10 @@ def exposure_time(walk_data,
             in order of particle ID.
 
     """
+    # Boolean flags would be combined logically instead of being added up
+    if region_of_interest.dtype == bool:
+        region_of_interest = region_of_interest.astype(int)
+
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Array to be populated
-- 
2.43.0


From b78a4654d51c949ba814995e8b4f1e2324503076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 10/12] fix: crop only the all-nan borders of gridded data, not
 rows inside

---
 dorado/particle_track.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index cde127c..5b8dde1 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1312,8 +1312,12 @@ def unstruct2grid(coordinates,
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
                 mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                rows, cols = np.where(mask)
+                if len(rows) > 0:
+                    gridded_data = gridded_data[rows.min():rows.max()+1,
+                                                cols.min():cols.max()+1]
+                else:
+                    gridded_data = gridded_data[:0, :0]
             return gridded_data
     else:
         # Inverse-distance interpolation
@@ -1338,8 +1342,12 @@ def unstruct2grid(coordinates,
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
                 mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                rows, cols = np.where(mask)
+                if len(rows) > 0:
+                    gridded_data = gridded_data[rows.min():rows.max()+1,
+                                                cols.min():cols.max()+1]
+                else:
+                    gridded_data = gridded_data[:0, :0]
             return gridded_data
 
     # Finally, call the interpolation function to create array:
-- 
2.43.0


From 580c6ce5c43fd35b31595a527628213fea6eec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:58 +0000
Subject: [PATCH 11/12] fix: reject every unknown logging level with ValueError

---
 dorado/logging_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dorado/logging_config.py b/dorado/logging_config.py
index 37df7c6..2c43200 100644
--- a/dorado/logging_config.py
+++ b/dorado/logging_config.py
@@ -42,6 +42,8 @@ def setup_logging(level="WARNING", handler=None):
     try:
         numeric_level = getattr(logging, level.upper())
     except AttributeError:
+        numeric_level = None
+    if not isinstance(numeric_level, int):
         raise ValueError(
             f"Invalid logging level: {level}. Must be one of DEBUG, INFO, WARNING, ERROR, CRITICAL"
         )
-- 
2.43.0


From 74f1c151bd614c98e29fbccb365ea9fa2875157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:01 +0000
Subject: [PATCH 12/12] fix: plot exposure thresholds when too few particles
 have exited

---
 dorado/routines.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index f84597d..ee7ca71 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -876,14 +876,13 @@ def plot_exposure_time_thresholds(walk_data,
     E75_idx = np.searchsorted(smooth_CDF, 0.75)
     E90_idx = np.searchsorted(smooth_CDF, 0.90)
 
-    E50_time = int(smooth_time_vect[E50_idx] / timedelta)
-    E75_time = int(smooth_time_vect[E75_idx] / timedelta)
-    E90_time = int(smooth_time_vect[E90_idx] / timedelta)
-
     handle_verbose_deprecation(verbose)
-    logger.info(f'E50: {E50_time} {timeunit}')
-    logger.info(f'E75: {E75_time} {timeunit}')
-    logger.info(f'E90: {E90_time} {timeunit}')
+    for name, idx in [('E50', E50_idx), ('E75', E75_idx), ('E90', E90_idx)]:
+        if idx < len(smooth_time_vect):
+            etime = int(smooth_time_vect[idx] / timedelta)
+            logger.info(f'{name}: {etime} {timeunit}')
+        else:
+            logger.info(f'{name}: not reached (max F={smooth_CDF.max():.3f})')
 
     for yval in [0.5, 0.75, 0.90]:
         ax1.axhline(y=yval, color='gray', linestyle='--', linewidth=0.75)
-- 
2.43.0

