From 51e953cdd4cdbcbb55881234f09d4cd2401489c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:11 +0000
Subject: [PATCH 01/50] fix: evolve_to_time no longer overwrites the user's
 max_steps

A call whose end time had already been reached set solver.max_steps to 0
(and fixed-step calls set it to the step count of that call), so every later
call on the same solver failed or stopped early.
---
 src/pyclaw/solver.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 72ce8e1..cb75089 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -582,13 +582,16 @@ class Solver(object):
 
         num_steps = 0
 
+        # Limit for this call only; self.max_steps is a user setting
+        max_steps = self.max_steps
+
         # Setup for the run
         if not self.dt_variable:
             if take_one_step:
-                self.max_steps = 1
+                max_steps = 1
             else:
-                self.max_steps = int((tend - tstart + 1e-10) / self.dt)
-                if abs(self.max_steps*self.dt - (tend - tstart)) >      \
+                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
                                     'is fixed!')
@@ -597,12 +600,12 @@ class Solver(object):
                             'CFL')
         if not take_one_step:
             if tend <= tstart:
-                self.logger.info("Already at or beyond end time: no evolution ",
+                self.logger.info("Already at or beyond end time: no evolution "
                                  "required.")
-                self.max_steps = 0
+                max_steps = 0
 
         # Main time-stepping loop
-        for n in range(self.max_steps):
+        for n in range(max_steps):
 
             state = solution.state
 
@@ -660,7 +663,7 @@ class Solver(object):
 
         if not take_one_step:
             if self.dt_variable and solution.t < tend \
-                    and num_steps == self.max_steps:
+                    and num_steps == max_steps:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From adc8597fd8bae48036451ec305a4a86b8f589e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:11 +0000
Subject: [PATCH 02/50] fix: evolve_to_time retakes rejected steps or raises,
 never returns short

If rejected steps used up part of max_steps, evolve_to_time returned
normally before the requested end time; in single-step mode it returned
without taking any step when the attempt was rejected.
---
 src/pyclaw/solver.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index cb75089..86f0f4b 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -580,8 +580,6 @@ class Solver(object):
         # Parameters for time-stepping
         tstart = solution.t
 
-        num_steps = 0
-
         # Limit for this call only; self.max_steps is a user setting
         max_steps = self.max_steps
 
@@ -638,7 +636,6 @@ class Solver(object):
 
                 self.write_gauge_values(solution)
                 # Increment number of time steps completed
-                num_steps += 1
                 self.status['numsteps'] += 1
 
             else:
@@ -655,15 +652,20 @@ class Solver(object):
 
             # See if we are finished yet
             if take_one_step:
-                break
+                # A rejected step must be retaken
+                if self.accept_step:
+                    break
             elif solution.t >= tend:
                 break
 
         # End of main time-stepping loop -------------------------------------
 
-        if not take_one_step:
-            if self.dt_variable and solution.t < tend \
-                    and num_steps == max_steps:
+        if self.dt_variable:
+            if take_one_step:
+                finished = self.accept_step
+            else:
+                finished = solution.t >= tend
+            if not finished:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From b8bf969df7649ad29fd90a5e782d448baf793c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:32 +0000
Subject: [PATCH 03/50] fix: apply the source term when the Courant number
 equals cfl_max

Such a step is accepted by evolve_to_time, but ClawSolver.step returned
before taking the (second half of the) source step.
---
 src/pyclaw/classic/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index e2fec21..0439171 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -131,7 +131,7 @@ class ClawSolver(Solver):
         # Check here if the CFL condition is satisfied. 
         # If not, return # immediately to evolve_to_time and let it deal with
         # picking a new step size (dt).
-        if self.cfl.get_cached_max() >= self.cfl_max:
+        if self.cfl.get_cached_max() > self.cfl_max:
             return False
 
         if self.step_source is not None:
-- 
2.43.0


From 6425e3654e15f7378e86debc23a451f8a0cb28d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:32 +0000
Subject: [PATCH 04/50] fix: deep copies of a State keep index_capa

Runge-Kutta stage registers and saved frames are deep copies; without the
capacity index SharpClaw's Python kernel ignored the capacity function in
every stage after the first.
---
 src/pyclaw/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 9608b0b..5e31ffd 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -312,7 +312,7 @@ class State(object):
         result = self.__class__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         result.__init__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         
-        for attr in ('t'):
+        for attr in ('t','index_capa'):
             setattr(result,attr,copy.deepcopy(getattr(self,attr)))
         
         if self.q is not None:
-- 
2.43.0


From 307c16801e31829e288b04e057ffbf0556e94638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:32 +0000
Subject: [PATCH 05/50] fix: SharpClaw solvers respect dt_max when choosing the
 next step

---
 src/pyclaw/sharpclaw/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 7f991e6..906d165 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -684,6 +684,8 @@ class SharpClawSolver(Solver):
         else:
             self.dt = self.dt * self.cfl_desired / cfl
 
+        self.dt = min(self.dt_max,self.dt)
+
 
 
 # ========================================================================
-- 
2.43.0


From 16311af1a1d09029b590702bf2b1c37158603347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:05 +0000
Subject: [PATCH 06/50] fix: grid coordinate arrays never go stale after a
 dimension changes

Changing a dimension's extent or number of cells and then reading the
dimension's own centers/nodes refilled the per-dimension cache, after which
grid.c_centers, p_centers, c_nodes and p_nodes returned the old coordinates.
---
 src/pyclaw/geometry.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 240b312..8f2b56a 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -211,6 +211,7 @@ class Grid(object):
         self._p_nodes = None
         self._c_centers = None
         self._c_nodes = None
+        self._cached_extents = None
 
         # Dimension parsing
         if isinstance(dimensions,Dimension):
@@ -227,6 +228,13 @@ class Grid(object):
         self._c_centers = None
         self._c_nodes = None
 
+    def _discard_stale_values(self):
+        # The extent or resolution of a dimension may have been changed
+        extents = [(dim.lower,dim.upper,dim.num_cells) for dim in self.dimensions]
+        if extents != self._cached_extents:
+            self._clear_cached_values()
+            self._cached_extents = extents
+
     # ========== Dimension Manipulation ======================================
     def add_dimension(self,dimension):
         r"""
@@ -280,8 +288,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._c_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+        self._discard_stale_values()
+        if recompute or (self._c_centers is None):
             index = np.indices(self.num_cells)
             self._c_centers = []
             for i,center_array in enumerate(self.get_dim_attribute('centers')):
@@ -293,8 +301,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._c_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+        self._discard_stale_values()
+        if recompute or (self._c_nodes is None):
             index = np.indices(n+1 for n in self.num_cells)
             self._c_nodes = []
             for i,edge_array in enumerate(self.get_dim_attribute('nodes')):
@@ -306,8 +314,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+        self._discard_stale_values()
+        if recompute or (self._p_centers is None):
             self._compute_c_centers(recompute=recompute)
             self._p_centers = self.mapc2p(*self._c_centers)
 
@@ -317,8 +325,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+        self._discard_stale_values()
+        if recompute or (self._p_nodes is None):
             self._compute_c_nodes(recompute=recompute)
             self._p_nodes = self.mapc2p(*self._c_nodes)
 
-- 
2.43.0


From 409109796f362a5edf59cf2b0ea02d66689d91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:52 +0000
Subject: [PATCH 07/50] fix: writing VTK output no longer changes the solution

The overlap markers were appended to state.q as an extra component on every
write.
---
 src/pyclaw/fileio/claw_vtk.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index e4c3785..82a98fc 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -111,7 +111,7 @@ def write(
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
-    _set_overlapped_status(solution)
+    overlapped_states = _get_overlapped_status(solution)
 
     global_origin = solution.state.patch.lower_global + [0.]  # base patch
     levels = [state.patch.level-1 for state in solution.states]
@@ -143,7 +143,10 @@ def write(
     amr.SetOrigin(global_origin)
 
     # get states and initialize the global index (used below)
-    states_sorted = sorted(solution.states, key=lambda a: a.patch.level)
+    order = sorted(range(len(solution.states)),
+                   key=lambda i: solution.states[i].patch.level)
+    states_sorted = [solution.states[i] for i in order]
+    overlapped_sorted = [overlapped_states[i] for i in order]
     global_index = 0
 
     # for each AMR level create the vtkAMRBox and vtkUniformGrid and add to
@@ -180,11 +183,9 @@ def write(
             # Set the data of the vtkUniformGrid
 
             # get the cell data, and add each to the uniform grid.
-            # ignore the last element of q, which provides info about overlapping.
-            # it is set next.
             q = states_sorted[local_index].q
 
-            for i in range(q.shape[0]-1):
+            for i in range(q.shape[0]):
                 array_name = "q_"+str(i)
                 q_i = q[i, ...]
                 q_i = q_i.transpose()
@@ -203,7 +204,7 @@ def write(
                 grid.GetCellData().AddArray(array)
 
             # mark overlapping cells using the vtkGhostType array name.
-            q_ol = q[-1, ...]  # last piece is used to mark overlapped cells
+            q_ol = overlapped_sorted[local_index][0, ...]
             q_ol = q_ol.transpose()
             array = numpy_support.numpy_to_vtk(q_ol.ravel(), deep=True, array_type=vtk.VTK_UNSIGNED_CHAR)
             array.SetName("vtkGhostType")
@@ -233,7 +234,7 @@ def write(
     assert success == 1
 
 
-def _set_overlapped_status(sol):
+def _get_overlapped_status(sol):
     """
     return a list, overlapped_states,
     whose entries denote overlapped status for each patch.
@@ -242,8 +243,8 @@ def _set_overlapped_status(sol):
     @param sol: Solution object of pyclaw that contains all information
                 of this time step.
     @rtype:     list
-    @return:    add a component to the solution q,
-                which contains overlapped status of each patch
+    @return:    overlapped status of the cells of each patch; the solution
+                itself is not modified
 
     @type level_count:       dictionary
     @variable level_count:   a dictionary that maps levels
@@ -276,6 +277,7 @@ def _set_overlapped_status(sol):
                             key=lambda a: a[0])]
     box_per_level = np.array(box_per_level)
 
+    overlapped_states = []
     for state in sol.states:
         level = state.patch.level-1
         xlower_coarse = state.patch.dimensions[0].lower
@@ -322,5 +324,6 @@ def _set_overlapped_status(sol):
             else:
                 continue
         # state.q is in fortran style
-        # state.q = np.vstack((state.q, overlapped_status.transpose(0, 2, 1)))
-        state.q = np.vstack((state.q, overlapped_status))
+        overlapped_states.append(overlapped_status)
+
+    return overlapped_states
-- 
2.43.0


From 213c9d89a366275778ffef187f7c37969d2bd2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:06 +0000
Subject: [PATCH 08/50] fix: the controller can write VTK output

Controller passes its frame counter, which is not an int, as the frame.
---
 src/pyclaw/fileio/claw_vtk.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index 82a98fc..fa987aa 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -107,7 +107,6 @@ def write(
     binary = options.get("binary", False)
 
     # check types.
-    assert(isinstance(frame, int))
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
-- 
2.43.0


From 52a33ec71e6195b9e7908f3bc90ef6da2bb565a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:06 +0000
Subject: [PATCH 09/50] fix: derived-quantity frames record their own number of
 components

The header of claw_p frames held the number of components of q, so they
could not be read back when it differs from mp.
---
 src/pyclaw/fileio/ascii.py | 4 +++-
 src/pyclaw/fileio/hdf5.py  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 39e3cb6..414516c 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -38,11 +38,13 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being written.  ``default = {}``
     """
+    num_eqn = solution.mp if write_p else solution.num_eqn
+
     # Write fort.txxxx file
     file_name = '%s.t%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as f:
         f.write("%18.8e     time\n" % solution.t)
-        f.write("%5i                  num_eqn\n" % solution.num_eqn)
+        f.write("%5i                  num_eqn\n" % num_eqn)
         f.write("%5i                  nstates\n" % len(solution.states))
         f.write("%5i                  num_aux\n" % solution.num_aux)
         f.write("%5i                  num_dim\n" % solution.domain.num_dim)
diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 69e2c54..fe56939 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -111,7 +111,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
 
                 # General patch properties
                 subgroup.attrs['t'] = state.t
-                subgroup.attrs['num_eqn'] = state.num_eqn
+                subgroup.attrs['num_eqn'] = state.mp if write_p else state.num_eqn
                 subgroup.attrs['num_aux'] = state.num_aux
                 for attr in ['num_ghost','patch_index','level']:
                     if hasattr(patch,attr):
-- 
2.43.0


From 74ddc4ee8c7e2dce630bed83e267e6e1fb01bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:06 +0000
Subject: [PATCH 10/50] fix: Solution.read uses the format's own default file
 prefix

As documented; a frame written to HDF5 with default arguments could not be
read back with default arguments.
---
 src/pyclaw/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 08d209b..d8f9533 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -303,7 +303,7 @@ class Solution(object):
 
         
     def read(self, frame, path='./_output', file_format=None, 
-                          file_prefix='fort', read_aux=True, options={}, **kargs):
+                          file_prefix=None, read_aux=True, options={}, **kargs):
         r"""
         Reads in a Solution object from a file
         
@@ -340,7 +340,7 @@ class Solution(object):
         
         try:
             [t,num_eqn,nstates,num_aux,num_dim,num_ghost,file_format2] = \
-                 read_t(frame,path,file_prefix=file_prefix)
+                 read_t(frame,path,file_prefix=file_prefix or 'fort')
         except:
             pass
 
-- 
2.43.0


From 28c4a980e51d0f9393bb075ae0afffbbb08613bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:06 +0000
Subject: [PATCH 11/50] fix: gauges can be recorded in a second run of the same
 grid

setup_gauge_files kept the closed files of the previous run.
---
 src/pyclaw/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 8f2b56a..9a13c56 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -424,6 +424,8 @@ class Grid(object):
             except OSError:
                 print("gauge directory already exists, ignoring")
 
+        # Files left over from an earlier run have been closed
+        self.gauge_files = []
         for gauge in self.gauge_file_names:
             gauge_file = os.path.join(gauge_path,gauge)
             if os.path.isfile(gauge_file):
-- 
2.43.0


From 9622b642a21db9ec53ec719443451b70651f065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 12/50] fix: CFL-dependent limiters act pointwise

Limiters 17, 18, 21, 22 and 23 reduced over the whole row of interfaces
instead of over the candidate values at each interface, so the value at one
interface depended on data arbitrarily far away.
---
 src/pyclaw/limiters/tvd.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 223be46..b2c0e8b 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -323,17 +323,17 @@ def beta_limiter(r,cfl,theta=0.95,beta=0.66666666666666666):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
-    ultra = np.max(b)
+    b[1,:] = np.min(a,axis=0)
+    ultra = np.max(b,axis=0)
     
     a[0,:] = 1.0 + (s2 - beta/2.0) * (r-1.0)
     a[1,:] = 1.0 + (s2 + beta/2.0) * (r-1.0)
     b[0,:] = ultra
-    b[1,:] = np.max(a)
+    b[1,:] = np.max(a,axis=0)
     a[0,:] = 0.0
-    a[1,:] = np.min(b)
+    a[1,:] = np.min(b,axis=0)
     
-    return np.max(a)
+    return np.max(a,axis=0)
 
 
 def hyperbee_limiter(r,cfl):
@@ -387,20 +387,20 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b = np.empty((3,len(r)))
 
     a[0,:] = cfl
-    cfl = np.min(a)
+    cfl = np.min(a,axis=0)
     a[1,:] = 0.05
-    cfl = np.max(a)
+    cfl = np.max(a,axis=0)
     
     # Multiply all parts except b[0,:] by (1.0 - epsilon) as well
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
-    b[1,::2] *= (1.0 - epsilon)
-    a[0,:] = np.min(b)
+    b[1:,:] *= (1.0 - epsilon)
+    a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
     
-    return np.max(a)
+    return np.max(a,axis=0)
     
 def cada_torrilhon_limiter_nonlinear(r,cfl):
     r"""
@@ -413,10 +413,10 @@ def cada_torrilhon_limiter_nonlinear(r,cfl):
     a[0,:] = 1.0 + s2 * (r - 1.0)
     a[1,:] = 2.0 * np.abs(r) / (0.6 + np.abs(r))
     a[2,:] = 5.0 / np.abs(r)
-    b[0,:] = np.min(a)
+    b[0,:] = np.min(a,axis=0)
     b[1,:] = -3.0 / np.abs(r)
     
-    return np.max(b)
+    return np.max(b,axis=0)
     
 def upper_bound_limiter(r,cfl,theta=1.0):
     r"""
@@ -439,9 +439,9 @@ def upper_bound_limiter(r,cfl,theta=1.0):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
+    b[1,:] = np.min(a,axis=0)
     
-    return np.max(b)
+    return np.max(b,axis=0)
 
 
 # ============================================================================
-- 
2.43.0


From 67960ce0e34b58b2d010a569095a301ca29e6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 13/50] fix: aux data missing from an HDF5 frame is marked as
 NaN

It was returned as uninitialized memory; the other formats use NaN.
---
 src/pyclaw/fileio/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index fe56939..e33e286 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -197,6 +197,10 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=True,
                 state.t = patch.attrs['t']
                 state.q = patch['q'][:].ravel(order='F').reshape(state.q.shape,order='F')
 
+                if state.num_aux > 0:
+                    # Write NaNs for now to indicate this is uninitialized
+                    state.aux[:] = np.nan
+
                 # Read in aux if applicable
                 if read_aux and patch.get('aux',None) is not None:
                     state.aux = patch['aux'][:].ravel(order='F').reshape(state.aux.shape,order='F')
-- 
2.43.0


From c6e69590e2b7f61a9c73f30fd8d8888aff9b06b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 14/50] fix: GaugeSolution.write handles one- and
 three-dimensional gauges

---
 src/pyclaw/gauges.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index f908ea8..ddd4ae1 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -248,8 +248,8 @@ class GaugeSolution(object):
         gauge_file_name = "gauge%s.txt" % str(self.id).zfill(5)
         with open(os.path.join(path, gauge_file_name), "w") as gauge_file:
 
-            gauge_file.write("# gauge_id= %s location=( %s %s ) num_eqn= %s\n" %
-                 (self.id, self.location[0], self.location[1], self.q.shape[0]))
+            gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
+                 (self.id, " ".join(str(x) for x in self.location), self.q.shape[0]))
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From 68751adc1b15a092fe27c0da77d5e8eedb2accc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 15/50] fix: binary aux data without ghost cells is read

The slice [0:-0] selected nothing.
---
 src/pyclaw/fileio/binary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index 6604815..1fc94ed 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -190,7 +190,9 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             auxpatch = np.reshape(auxpatch, aux_shape, order='F')
 
             # Fill in aux values
-            if patch.num_dim == 1:
+            if mbc == 0:
+                state.aux = auxpatch
+            elif patch.num_dim == 1:
                 ##  NOT YET TESTED ##
                 state.aux = auxpatch[:,mbc:-mbc]
             elif patch.num_dim == 2:
-- 
2.43.0


From 5011b021592f910702b18fb078d5aa12ca07178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 16/50] fix: Controller.run with no further output times
 returns the status

num_output_times=0 or a single out_time ended in an UnboundLocalError.
---
 src/pyclaw/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 772edb1..289d6ec 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -354,6 +354,7 @@ class Controller(object):
         self.log_info("Solution %s computed for time t=%f" %
                         (frame,self.solution.t) )
 
+        status = self.solver.status
         for t in output_times[1:]:
             if self.output_style < 3:
                 status = self.solver.evolve_to_time(self.solution,t)
-- 
2.43.0


From af171b7d567c1270df38cd5ee795dad670b2d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 17/50] fix: Solution.read replaces the contents of the
 solution

Reading a frame into a Solution that already held one appended the new
states behind the old ones, so the solution still showed the old frame.
---
 src/pyclaw/solution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index d8f9533..4158bb6 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -356,6 +356,7 @@ class Solution(object):
             options['format'] = file_format
 
         path = os.path.expandvars(os.path.expanduser(path))
+        self.states = []  # The frame replaces whatever was here before
         if file_prefix is None:
             read_func(self,frame,path,read_aux=read_aux,options=options)
         else:
-- 
2.43.0


From d6599cb5d7fa329d9b9d679a52055785fc297842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 18/50] fix: refuse to overwrite existing output before gauge
 files are touched

---
 src/pyclaw/controller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 289d6ec..55b9ca2 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -292,6 +292,12 @@ class Controller(object):
         if self.solver is None or self.solution is None:
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
+        # Check this first, since setting up gauges replaces existing files
+        if self.output_format is not None and self.overwrite is False \
+           and os.path.exists(self.outdir):
+            raise Exception("Refusing to overwrite existing output data. \
+             \nEither delete/move the directory or set controller.overwrite=True.")
+
         self.start_frame = self.solution.start_frame
         if len(self.solution.patch.grid.gauges)>0:
             self.solution.patch.grid.setup_gauge_files(self.outdir)
@@ -330,9 +336,6 @@ class Controller(object):
         if self.keep_copy:
             self.frames.append(copy.deepcopy(self.solution))
         if self.output_format is not None:
-            if os.path.exists(self.outdir) and self.overwrite is False:
-                raise Exception("Refusing to overwrite existing output data. \
-                 \nEither delete/move the directory or set controller.overwrite=True.")
             if self.compute_p is not None:
                 self.compute_p(self.solution.state)
                 self.solution.write(frame,self.outdir_p,
-- 
2.43.0


From 817f15732f96e7974fb30fae7e2b38bb8e996a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:29 +0000
Subject: [PATCH 19/50] fix: before_step sees the data of the stage with the RK
 integrator

---
 src/pyclaw/sharpclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 906d165..7bfb4e0 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -336,10 +336,10 @@ class SharpClawSolver(Solver):
             for i in range(1,num_stages):
                 self._registers[i].q[:] = state.q
                 self._registers[i].t = state.t + self.dt*self.c[i]
-                if self.call_before_step_each_stage:
-                    self.before_step(self,self._registers[i])
                 for j in range(i):
                     self._registers[i].q += self.a[i,j]*self._registers[j].q
+                if self.call_before_step_each_stage:
+                    self.before_step(self,self._registers[i])
 
                 # self._registers[i].q eventually stores dt*f(y_i) after stage solution y_i is computed
                 self._registers[i].q = self.dq(self._registers[i])
-- 
2.43.0


From e8706ca92988741320352f757da174670f7a7fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 20/50] fix: SharpClaw stages use the current auxiliary data
 and parameters

---
 src/pyclaw/sharpclaw/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 7bfb4e0..261eca4 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -288,6 +288,13 @@ class SharpClawSolver(Solver):
         """
         state = solution.states[0]
         step_index = self.status['numsteps'] + 1
+
+        # The stages must not use auxiliary data or parameters from setup time
+        for register in self._registers:
+            if state.num_aux > 0:
+                register.aux[:] = state.aux
+            register.problem_data = state.problem_data
+
         if self.accept_step == True:
             self.cfl.set_global_max(0.)
             self.dq_dt = self.dq(state) / self.dt
-- 
2.43.0


From 378147458a4d4e2d4b907d2657987085587553fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:40 +0000
Subject: [PATCH 21/50] fix: several SharpClaw solvers can exist in one process

---
 src/pyclaw/sharpclaw/ClawParams.f90  |  3 +++
 src/pyclaw/sharpclaw/reconstruct.f90 | 40 +++++++++-------------------
 src/pyclaw/sharpclaw/solver.py       | 35 +++++++++++++++++++-----
 src/pyclaw/sharpclaw/workspace.f90   | 11 +++++---
 4 files changed, 50 insertions(+), 39 deletions(-)

diff --git a/src/pyclaw/sharpclaw/ClawParams.f90 b/src/pyclaw/sharpclaw/ClawParams.f90
index b1e2835..d19a952 100644
--- a/src/pyclaw/sharpclaw/ClawParams.f90
+++ b/src/pyclaw/sharpclaw/ClawParams.f90
@@ -17,6 +17,9 @@ contains
 
     subroutine alloc_clawparams()
 
+        ! Another solver may have left its arrays behind
+        call dealloc_clawparams()
+
         allocate(xlower(num_dim))
         allocate(xupper(num_dim))
         allocate(dx(num_dim))
diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 4db6953..0a96755 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -18,6 +18,9 @@ contains
     subroutine alloc_recon_workspace(maxnx,num_ghost,num_eqn,num_waves,lim_type,char_decomp)
         integer,intent(in) :: maxnx,num_ghost,num_eqn,num_waves,char_decomp,lim_type
 
+        ! Another solver may have left its arrays behind
+        call dealloc_recon_workspace(lim_type,char_decomp)
+
         select case(lim_type)
             case(1)
             select case(char_decomp)
@@ -57,34 +60,15 @@ contains
     subroutine dealloc_recon_workspace(lim_type,char_decomp)
         integer,intent(in) :: lim_type,char_decomp
 
-        select case(lim_type)
-            case(1)
-            select case(char_decomp)
-                case(1) ! Storage for tvd2_wave()
-                    deallocate(uu)
-                case(2) ! Storage for tvd2_char()
-                    deallocate(dq)
-                    deallocate( u)
-                    deallocate(hh)
-            end select
-            case(2)
-             select case(char_decomp)
-                case(0)
-                    deallocate(uu)
-                    deallocate(dq1m)
-                case(2) ! Storage for weno5_char
-                    deallocate(dq)
-                    deallocate(uu)
-                    deallocate(hh)
-                case(3) ! Storage for weno5_trans
-                    deallocate(dq)
-                    deallocate(gg)
-                    deallocate( u)
-                    deallocate(hh)
-                    deallocate(uh)
-            end select
-            recon_alloc = .False.
-        end select
+        if (allocated(uu)) deallocate(uu)
+        if (allocated(dq1m)) deallocate(dq1m)
+        if (allocated(dq)) deallocate(dq)
+        if (allocated(gg)) deallocate(gg)
+        if (allocated(u)) deallocate(u)
+        if (allocated(hh)) deallocate(hh)
+        if (allocated(uh)) deallocate(uh)
+        recon_alloc = .False.
+
     end subroutine dealloc_recon_workspace
 
 ! ===================================================================
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 261eca4..cf50e25 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -255,10 +255,7 @@ class SharpClawSolver(Solver):
             if self.fmod is None:
                 so_name = 'clawpack.pyclaw.sharpclaw.sharpclaw'+str(self.num_dim)
                 self.fmod = __import__(so_name,fromlist=['clawpack.pyclaw.sharpclaw'])
-            state.set_cparam(self.fmod)
-            state.set_cparam(self.rp)
-            state.set_cparam(self.tfluct)
-            self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+            self._set_fortran_modules(state)
 
         self._allocate_bc_arrays(state)
 
@@ -271,9 +268,10 @@ class SharpClawSolver(Solver):
         Also delete Fortran objects, which otherwise tend to persist in Python sessions.
         """
         if self.kernel_language=='Fortran':
-            self.fmod.clawparams.dealloc_clawparams()
-            self.fmod.workspace.dealloc_workspace(self.char_decomp)
-            self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
+            if self._owns_fortran_parameters():
+                self.fmod.clawparams.dealloc_clawparams()
+                self.fmod.workspace.dealloc_workspace(self.char_decomp)
+                self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
             del self.fmod
 
         super(SharpClawSolver,self).__del__()
@@ -541,6 +539,10 @@ class SharpClawSolver(Solver):
         Evaluate dq/dt * (delta t)
         """
 
+        if self.kernel_language == 'Fortran' and not self._owns_fortran_parameters():
+            # Another solver has been set up since
+            self._set_fortran_modules(state)
+
         deltaq = self.dq_hyperbolic(state)
 
         if self.dq_src is not None:
@@ -567,6 +569,25 @@ class SharpClawSolver(Solver):
         return dq_dt.flatten('f')
 
 
+    def _owns_fortran_parameters(self):
+        """
+        The Fortran modules are shared by all solvers of the same dimension;
+        they hold the data of the solver that used them last.
+        """
+        return getattr(self.fmod,'_owner',None) == id(self)
+
+
+    def _set_fortran_modules(self,state):
+        """
+        Make the shared Fortran modules hold the parameters of this solver.
+        """
+        state.set_cparam(self.fmod)
+        state.set_cparam(self.rp)
+        state.set_cparam(self.tfluct)
+        self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+        self.fmod._owner = id(self)
+
+
     def _set_fortran_parameters(self,state,clawparams,workspace,reconstruct):
         """
         Set parameters for Fortran modules used by SharpClaw.
diff --git a/src/pyclaw/sharpclaw/workspace.f90 b/src/pyclaw/sharpclaw/workspace.f90
index 6dde6e4..020e2d5 100644
--- a/src/pyclaw/sharpclaw/workspace.f90
+++ b/src/pyclaw/sharpclaw/workspace.f90
@@ -16,6 +16,9 @@ contains
     subroutine alloc_workspace(maxnx,num_ghost,num_eqn,num_waves,char_decomp)
         integer,intent(in) :: maxnx,num_ghost,num_eqn,num_waves,char_decomp
 
+        ! Another solver may have left its arrays behind
+        call dealloc_workspace(char_decomp)
+
         allocate(ql(num_eqn,1-num_ghost:maxnx+num_ghost))
         allocate(qr(num_eqn,1-num_ghost:maxnx+num_ghost))
         allocate(amdq(num_eqn,1-num_ghost:maxnx+num_ghost))
@@ -49,11 +52,11 @@ contains
             deallocate(wave)
             deallocate(s)
             deallocate(dtdx)
+        endif
 
-            if (char_decomp>1) then
-                deallocate(evl)
-                deallocate(evr)
-            endif
+        if (allocated(evl)) then
+            deallocate(evl)
+            deallocate(evr)
         endif
 
         work_alloc = .False.
-- 
2.43.0


From b7ebf0e89c9c46e0f471564d506292a6a467eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:49 +0000
Subject: [PATCH 22/50] fix: SharpClaw Fortran kernels use the capacity of the
 right cell

---
 src/pyclaw/sharpclaw/flux1.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index e631ada..7fda373 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -57,7 +57,8 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
     dq1d(:,:) = 0.d0
 
     if (index_capa.gt.0) then
-        dtdx = dt / (dx(ixyz)*aux(index_capa,:))
+        ! Assigning to the whole array would change its bounds
+        dtdx(1-num_ghost:mx+num_ghost) = dt / (dx(ixyz)*aux(index_capa,:))
     else
         dtdx = dt / dx(ixyz)
     endif
-- 
2.43.0


From aa443e0429161014eb21812e92794dfa8501415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:44 +0000
Subject: [PATCH 23/50] fix: the solution after a classic step is a contiguous
 copy, not a view of the solver's work arrays

After a step state.q and state.aux were views of solver.qbc and solver.auxbc.
In two and three dimensions a second Controller.run was therefore refused
("Initial solution is not valid"), and using the same solver for a second
solution overwrote the first one.
---
 src/pyclaw/state.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 5e31ffd..5c0ad94 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -239,31 +239,33 @@ class State(object):
     def set_q_from_qbc(self,num_ghost,qbc):
         """
         Set the value of q using the array qbc. Typically this is called
-        after qbc has been updated by the solver.
+        after qbc has been updated by the solver.  The values are copied, since
+        the solver will use qbc again.
         """
         
         num_dim = self.patch.num_dim
         if num_dim == 1:
-            self.q = qbc[:,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost].copy('F')
         elif num_dim == 2:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         elif num_dim == 3:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
             
     def set_aux_from_auxbc(self,num_ghost,auxbc):
         """
-        Set the value of aux using the array auxbc. 
+        Set the value of aux using the array auxbc.  The values are copied, since
+        the solver will use auxbc again.
         """
         
         patch = self.patch
         if patch.num_dim == 1:
-            self.aux = auxbc[:,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost].copy('F')
         elif patch.num_dim == 2:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         elif patch.num_dim == 3:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
 
-- 
2.43.0


From 023f711de44138bd87993b6c427efacef8c0a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:43 +0000
Subject: [PATCH 24/50] fix: first-order 3D steps with the default transverse
 option used uninitialised memory

With order = 1 the correction waves were never computed, but transverse
options 20 to 22 (22 is the default) propagated them all the same.
---
 src/pyclaw/classic/flux3.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/classic/flux3.f90 b/src/pyclaw/classic/flux3.f90
index 545dea3..446ce4c 100644
--- a/src/pyclaw/classic/flux3.f90
+++ b/src/pyclaw/classic/flux3.f90
@@ -176,6 +176,8 @@ subroutine flux3(ixyz,maxm,num_eqn,num_waves,num_ghost,mx, &
     forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
         qadd(m,i) = 0.d0
         fadd(m,i) = 0.d0
+        ! no correction waves unless second order (also used below if m3 = 2)
+        cqxx(m,i) = 0.d0
     end forall
     forall (m=1:num_eqn,k=1:2, j = -1:1, i = 1-num_ghost:mx+num_ghost)
         gadd(m, k, j, i) = 0.d0
-- 
2.43.0


From 24b8aba3939f89944ae7812704ddccd8b96114ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:04 +0000
Subject: [PATCH 25/50] fix: periodic boundaries with fewer cells than ghost
 cells

The ghost cells were filled from other ghost cells, that is with values of
earlier steps.
---
 src/pyclaw/solver.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 86f0f4b..2ed973b 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -459,8 +459,11 @@ class Solver(object):
             for i in range(self.num_ghost):
                 array[:,i,...] = array[:,self.num_ghost,...]
         elif bc_type == BC.periodic:
-            # This process owns the whole patch
-            array[:,:self.num_ghost,...] = array[:,-2*self.num_ghost:-self.num_ghost,...]
+            # This process owns the whole patch; there may be fewer interior
+            # than ghost cells
+            n = array.shape[1] - 2*self.num_ghost
+            for i in range(self.num_ghost):
+                array[:,i,...] = array[:,self.num_ghost+(i-self.num_ghost)%n,...]
         elif bc_type == BC.wall:
             if name == 'q':
                 for i in range(self.num_ghost):
@@ -500,8 +503,11 @@ class Solver(object):
             for i in range(self.num_ghost):
                 array[:,-i-1,...] = array[:,-self.num_ghost-1,...]
         elif bc_type == BC.periodic:
-            # This process owns the whole patch
-            array[:,-self.num_ghost:,...] = array[:,self.num_ghost:2*self.num_ghost,...]
+            # This process owns the whole patch; there may be fewer interior
+            # than ghost cells
+            n = array.shape[1] - 2*self.num_ghost
+            for i in range(self.num_ghost):
+                array[:,self.num_ghost+n+i,...] = array[:,self.num_ghost+i%n,...]
         elif bc_type == BC.wall:
             if name == 'q':
                 for i in range(self.num_ghost):
-- 
2.43.0


From b6d2bf93655abfe465605d5407ebc84afbe4fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:03 +0000
Subject: [PATCH 26/50] fix: superbee limiter of the Python kernel

It was max(0,min(1,2r)) without the min(2,r) branch, so it differed from the
superbee limiter and from the Fortran kernel for steep data (r > 1).
---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index b2c0e8b..9b63221 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -157,7 +157,7 @@ def superbee_limiter(r,cfl):
     Superbee vectorized limiter
     """
     a = np.ones((2,len(r)))
-    b = np.zeros((2,len(r)))
+    b = 2.0*np.ones((2,len(r)))
     c = np.zeros((3,len(r)))
 
     a[1,:] = 2.0*r
-- 
2.43.0


From 9b1b0b8c26321c5f45b8c1c8f79e2a9df684a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:59 +0000
Subject: [PATCH 27/50] fix: the Courant number of the Python kernel ignores
 interfaces between ghost cells

The Fortran kernel takes the maximum over the edges of interior cells; the
Python kernel also included one interface between two ghost cells on the
left, so that boundary data could cause steps to be rejected.
---
 src/pyclaw/classic/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 0439171..8df6ae9 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -346,8 +346,9 @@ class ClawSolver1D(ClawSolver):
             # Compute maximum wave speed
             cfl = 0.0
             for mw in range(wave.shape[1]):
-                smax1 = np.max(dtdx[LL:UL]*s[mw,LL-1:UL-1])
-                smax2 = np.max(-dtdx[LL-1:UL-1]*s[mw,LL-1:UL-1])
+                # Only the edges of interior cells count
+                smax1 = np.max(dtdx[LL+1:UL]*s[mw,LL:UL-1])
+                smax2 = np.max(-dtdx[LL:UL-1]*s[mw,LL:UL-1])
                 cfl = max(cfl,smax1,smax2)
 
             # If we are doing slope limiting we have more work to do
-- 
2.43.0


From 92b7d38499c13c3ec0417d85003acfeb8d119fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:12 +0000
Subject: [PATCH 28/50] fix: sweeps of the split 3D classic solver leave outer
 ghost rows behind

---
 src/pyclaw/classic/step3ds.f90 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/classic/step3ds.f90 b/src/pyclaw/classic/step3ds.f90
index f9f2729..6fe2f5a 100644
--- a/src/pyclaw/classic/step3ds.f90
+++ b/src/pyclaw/classic/step3ds.f90
@@ -131,8 +131,10 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform x-sweeps
         ! ==================
     
-        do k = 0,mz+1
-            do j = 0,my+1
+        ! all ghost rows are included, since the sweeps in the other
+        ! directions use them
+        do k = 1-num_ghost,mz+num_ghost
+            do j = 1-num_ghost,my+num_ghost
             
                 forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -148,7 +150,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
                 ! Since dimensional splitting is used, only aux2 is needed.
             
                 if (num_aux > 0)  then
-                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost, ka = -1:1)
+                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost, &
+                            ka = max(-1,1-num_ghost-k):min(1,mz+num_ghost-k))
                     aux2(ma,i,2+ka) = aux(ma,i,j,k+ka)
                     end forall
                 endif
@@ -212,7 +215,7 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform y sweeps
         ! ==================
     
-        do k = 0, mz+1
+        do k = 1-num_ghost, mz+num_ghost
             do i = 0, mx+1
             
                 forall (m = 1:num_eqn, j = 1-num_ghost:my+num_ghost)
-- 
2.43.0


From 08c4ee3c43fbd4be2f0ec4cff0d27fd6a372274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:45 +0000
Subject: [PATCH 29/50] fix: SharpClaw TVD reconstruction with van Leer's
 limiter gave NaN where the data are flat

The ratio of consecutive jumps was formed by dividing by a zero jump, and
van Leer's limiter of an infinite or undefined ratio is not a number.
---
 src/pyclaw/sharpclaw/reconstruct.f90 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 0a96755..2c07335 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -590,7 +590,12 @@ contains
             do i=1,mx2-1
                 dqm=dqp
                 dqp=q(m,i+1)-q(m,i)
-                r=dqp/dqm
+                if (dqm.eq.0.d0) then
+                    ! No slope, whatever the ratio
+                    r=0.d0
+                else
+                    r=dqp/dqm
+                endif
 
                 select case(mthlim(m))
                 case(1)
-- 
2.43.0


From 0fae4119908993eb28b96db8791925872cf0b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:02 +0000
Subject: [PATCH 30/50] fix: wave-based TVD reconstruction in SharpClaw left
 out the last interface

The right edge of the last interior cell kept its cell average, so the
right-hand side there was first order and not translation invariant.
---
 src/pyclaw/sharpclaw/reconstruct.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 2c07335..64aeea0 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -756,7 +756,7 @@ contains
 
         do mw=1,num_waves
             dotr = 0.d0
-            do i=num_ghost,mx2-num_ghost
+            do i=num_ghost,mx2-num_ghost+1
                 wnorm2=0.d0
                 dotl=dotr
                 dotr=0.d0
-- 
2.43.0


From 1ca159f92b2a0f746d2efcdd2a46756f372eef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:20 +0000
Subject: [PATCH 31/50] fix: SharpClaw handed uninitialised reconstructions of
 the outermost ghost cells to the Riemann solver

---
 src/pyclaw/sharpclaw/flux1.f90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index 7fda373..381f1ee 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -63,6 +63,11 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
         dtdx = dt / dx(ixyz)
     endif
 
+    ! The reconstructions below leave out the outermost ghost cells, which are
+    ! nevertheless handed to the Riemann solver
+    ql(:,1-num_ghost:mx+num_ghost) = q1d
+    qr(:,1-num_ghost:mx+num_ghost) = q1d
+
     select case(lim_type)
         case(1) ! lim_type = 1: 2nd-order TVD reconstruction
         select case(char_decomp)
-- 
2.43.0


From 42acec4e15019cde9c65e52b6125aaecb88e51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:36 +0000
Subject: [PATCH 32/50] fix: SSPLMM integrators divided by zero when nothing
 moves

---
 src/pyclaw/sharpclaw/solver.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index cf50e25..6decf6d 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -448,14 +448,12 @@ class SharpClawSolver(Solver):
             self.prev_dq_dt_values.append(self.dq_dt)
             self.prev_dt_values.append(0.) # Not used
             if 'SSPLMM' in self.time_integrator:
-                cfl = self.cfl.get_cached_max()
-                dtFE = self.dt / cfl * self.cfl_max / self.sspcoeff
+                dtFE = self._get_dtFE()
                 self.prev_dtFE_values.append(dtFE)
                 self.sspcoeff0 = self._sspcoeff['SSP22']
         elif self.accept_step == True: # Previous step was accepted
             if 'SSPLMM' in self.time_integrator:
-                cfl = self.cfl.get_cached_max()
-                dtFE = self.dt / cfl * self.cfl_max / self.sspcoeff
+                dtFE = self._get_dtFE()
 
                 if self.time_integrator == 'SSPLMMk3' and self.check_lmm_cond:
                     self.lmm_cond = self.check_3rd_ord_cond(state,step_index,dtFE)
@@ -497,6 +495,17 @@ class SharpClawSolver(Solver):
         return step_index
 
 
+    def _get_dtFE(self):
+        r"""
+        Largest step allowed for the forward Euler method at the current solution.
+        """
+        cfl = self.cfl.get_cached_max()
+        if cfl == 0.:
+            # Nothing moves
+            return self.dt_max
+        return self.dt / cfl * self.cfl_max / self.sspcoeff
+
+
     def check_3rd_ord_cond(self,state,step_index,dtFE):
         r"""
         This routine checks the additional conditions for the 3rd-order SSPLMMs.
-- 
2.43.0


From 65fc0d5d0d935cba4b87df7e4fcc17eeae3f6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:14 +0000
Subject: [PATCH 33/50] fix: an explicit request for HDF5 was overridden by the
 text header of another frame in the same place

---
 src/pyclaw/solution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 4158bb6..d61f782 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -344,8 +344,9 @@ class Solution(object):
         except:
             pass
 
-        if file_format2 is not None:
-            # value was read in from file, use it:
+        if file_format2 is not None and file_format not in ('hdf','hdf5'):
+            # value was read in from file, use it (it does not describe any
+            # HDF5 files that may be in the same place):
             file_format = file_format2
 
         read_func = self.get_read_func(file_format)
-- 
2.43.0


From bf48f4c2d6510b273d33af263afe1c5746737f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:14 +0000
Subject: [PATCH 34/50] fix: binary frames with more data than their headers
 describe were silently misread

---
 src/pyclaw/fileio/binary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index 1fc94ed..e63e4ba 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -151,6 +151,10 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             patches.append(state.patch)
         solution.domain = pyclaw.geometry.Domain(patches)
 
+    if i_start_patch != qdata.size:
+        msg = "Amount of data in %s does not match the headers." % b_fname
+        logger.critical(msg)
+        raise IOError(msg)
 
     # Read auxiliary file if available and requested
     if solution.states[0].num_aux > 0 and read_aux:
-- 
2.43.0


From a3612fa610ef4850a1b01026081a72f52da0fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:40 +0000
Subject: [PATCH 35/50] fix: Grid.c_center and p_center returned whole slabs of
 the grid instead of one cell's center

---
 src/pyclaw/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 9a13c56..0634484 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -333,7 +333,7 @@ class Grid(object):
     def c_center(self,ind):
         r"""Compute center of computational cell with index ind."""
 
-        index = [np.array(i) for i in ind]
+        index = tuple(np.array(i) for i in ind)
         return np.array([self.c_centers[i][index] for i in range(self.num_dim)])
 
     def p_center(self,ind):
-- 
2.43.0


From 6dbc8f261b5897c47347706c8687511237c3001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:40 +0000
Subject: [PATCH 36/50] fix: a gauge just below the upper end of the domain was
 given a cell outside of it

---
 src/pyclaw/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 0634484..4788253 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -406,7 +406,9 @@ class Grid(object):
             # Check if gauge belongs to this grid:
             if all(self.lower[n]<=gauge[n]<self.upper[n] for n in range(self.num_dim)):
                 # Set indices relative to this grid
-                gauge_index = [int((gauge[n]-self.lower[n])//self.delta[n])
+                # (rounding must not move a gauge just below upper off the grid)
+                gauge_index = [min(int((gauge[n]-self.lower[n])//self.delta[n]),
+                                   self.num_cells[n]-1)
                                for n in range(self.num_dim)]
                 gauge_file_name = 'gauge'+'_'.join(str(coord) for coord in gauge)+'.txt'
                 self.gauge_file_names.append(gauge_file_name)
-- 
2.43.0


From 74c2214d93d38d833816bcc54972b7c657f7067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:40 +0000
Subject: [PATCH 37/50] fix: a refused extent or cell count was kept by the
 dimension

---
 src/pyclaw/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 4788253..ddfc0c5 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -569,6 +569,7 @@ class Dimension(object):
         return self._lower
     @lower.setter
     def lower(self,lower):
+        Dimension(lower,self.upper,self.num_cells)  # Refuse invalid values before changing anything
         self._lower = float(lower)
         self._centers = None  # Reset cached arrays
         self._nodes = None
@@ -578,6 +579,7 @@ class Dimension(object):
         return self._upper
     @upper.setter
     def upper(self,upper):
+        Dimension(self.lower,upper,self.num_cells)  # Refuse invalid values before changing anything
         self._upper = float(upper)
         self._centers = None  # Reset cached arrays
         self._nodes = None
@@ -587,6 +589,7 @@ class Dimension(object):
         return self._num_cells
     @num_cells.setter
     def num_cells(self,num_cells):
+        Dimension(self.lower,self.upper,num_cells)  # Refuse invalid values before changing anything
         self._num_cells = int(num_cells)
         self._centers = None  # Reset cached arrays
         self._nodes = None
-- 
2.43.0


From 0ae2e4678427cf3323d7fb9dc63afe9ca3bdc640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:40 +0000
Subject: [PATCH 38/50] fix: a dimension added to a patch was missing from its
 grid

---
 src/pyclaw/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index ddfc0c5..9d75995 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -704,6 +704,7 @@ class Patch(object):
 
         if isinstance(dimensions,Dimension):
             dimensions = [dimensions]
+        self.grid = None
         self._dimensions = []
         for dim in dimensions:
             dim.on_lower_boundary = True
@@ -730,6 +731,8 @@ class Patch(object):
 
         self._dimensions.append(dimension.name)
         setattr(self,dimension.name,dimension)
+        if self.grid is not None:
+            self.grid.add_dimension(dimension)
 
     def get_dim_attribute(self,attr):
         r"""
-- 
2.43.0


From 35ee78fed19293968f52f5cbe34c390489bc95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:28 +0000
Subject: [PATCH 39/50] fix: convert_gauges compared with the wrong function
 and always failed

---
 src/pyclaw/gauges.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index ddd4ae1..5f0710b 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -370,7 +370,7 @@ def convert_gauges(path, output_path=None):
         output_path = os.getcwd()
 
     # Load old data
-    data = np.loadtxt(path)
+    data = np.loadtxt(path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     unique_ids = np.asarray(list(set(old_ids)))
 
@@ -386,7 +386,7 @@ def convert_gauges(path, output_path=None):
         new_gauge.write(output_path)
 
         # Test gauge data
-        if not compare_gauges(path, output_path, gauge_id):
+        if not compare_old_gauges(path, output_path, gauge_id):
             print("WARNING:  New gauge data does not match old gauge data.")
             print("          gauge id = %s" % gauge_id)
 
@@ -420,7 +420,7 @@ def compare_old_gauges(old_path, new_path, gauge_id, plot=False, abs_tol=1e-14,
     """
 
     # Load old gauge data
-    data = np.loadtxt(old_path)
+    data = np.loadtxt(old_path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     gauge_indices = np.nonzero(old_ids == gauge_id)[0]
     q = data[gauge_indices, 3:]
-- 
2.43.0


From b14d49573e6e6e8fc45e85b72cfd1d5368ca3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:28 +0000
Subject: [PATCH 40/50] fix: reading another gauge kept data of the one read
 before

---
 src/pyclaw/gauges.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 5f0710b..8d1c206 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -102,6 +102,12 @@ class GaugeSolution(object):
         if path is None:
             path = os.getcwd()
 
+        # Forget what may have been read before
+        self.level = None
+        self.t = None
+        self.q = None
+        self.particle_path = None
+
         # First read header from .txt file:
         gauge_file_name = "gauge%s.txt" % str(gauge_id).zfill(5)
         gauge_path = os.path.join(path, gauge_file_name)
-- 
2.43.0


From a3fd0cd321095db68cf403424f70cc1772a337e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:28 +0000
Subject: [PATCH 41/50] fix: the type of a moving gauge was lost when writing
 it

---
 src/pyclaw/gauges.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 8d1c206..9c79bf0 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -256,6 +256,8 @@ class GaugeSolution(object):
 
             gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
                  (self.id, " ".join(str(x) for x in self.location), self.q.shape[0]))
+            if self.gtype == 'lagrangian':
+                gauge_file.write("# lagrangian gauge\n")
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From e16476be3d84f3b290113542e1cf4fd3105cf3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:27 +0000
Subject: [PATCH 42/50] fix: the states of a copied solution did not live on
 the patches of its domain

---
 src/pyclaw/solution.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index d61f782..91120d8 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -241,10 +241,16 @@ class Solution(object):
         result = self.__class__()
         result.__init__()
         
-        # Populate the states
-        for state in self.states:
-            result.states.append(copy.deepcopy(state))
         result.domain = copy.deepcopy(self.domain)
+
+        # Populate the states, which live on the patches of the new domain
+        for state in self.states:
+            new_state = copy.deepcopy(state)
+            if self.domain is not None:
+                for i,patch in enumerate(self.domain.patches):
+                    if state.patch is patch:
+                        new_state.patch = result.domain.patches[i]
+            result.states.append(new_state)
         
         return result
     
-- 
2.43.0


From ad4c730170d2e873cbf19a7ff80dbdf8a1412539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:07 +0000
Subject: [PATCH 43/50] fix: an unknown kernel language was refused only after
 data or files had been changed

---
 src/pyclaw/classic/solver.py   | 2 ++
 src/pyclaw/sharpclaw/solver.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 8df6ae9..558ea0c 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -213,6 +213,8 @@ class ClawSolver(Solver):
             self._allocate_workspace(solution)
         elif self.num_dim>1:
             raise Exception('Only Fortran kernels are supported in multi-D.')
+        elif self.kernel_language != 'Python':
+            raise Exception("Unrecognized kernel_language; choose 'Fortran' or 'Python'")
 
         self._allocate_bc_arrays(solution.states[0])
 
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 6decf6d..49b2011 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -206,6 +206,11 @@ class SharpClawSolver(Solver):
         if self.lim_type == 2:
             self.num_ghost = (self.weno_order+1)//2
 
+        if self.kernel_language not in ('Fortran','Python'):
+            raise Exception('Unrecognized value of solver.kernel_language.')
+        if self.kernel_language == 'Python' and self.num_dim > 1:
+            raise Exception('Only Fortran kernels are supported in multi-D.')
+
         if self.lim_type == 2 and self.weno_order != 5 and self.kernel_language == 'Python':
             raise Exception('Only 5th-order WENO reconstruction is implemented in Python kernels. \
                              Use Fortran for higher-order WENO.')
-- 
2.43.0


From 8f809ad32156d3927480e481ff9114185eaf96b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:07 +0000
Subject: [PATCH 44/50] fix: a desired Courant number above the maximum was
 refused only after a frame had been written

---
 src/pyclaw/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 2ed973b..2c8f984 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -281,6 +281,10 @@ class Solver(object):
         if (None in self.bc_lower) or (None in self.bc_upper):
             valid = False
             reason = 'One of the boundary conditions has not been set.'
+        if self.dt_variable and self.cfl_desired is not None \
+           and self.cfl_max is not None and self.cfl_desired > self.cfl_max:
+            valid = False
+            reason = 'Variable time-stepping and desired CFL > maximum CFL'
 
         if reason is not None:
             self.logger.debug(reason)
-- 
2.43.0


From 1266e26a52461e8060f2993816f811223354e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:07 +0000
Subject: [PATCH 45/50] fix: a misconfigured run replaced gauge files and
 frames before it was refused

---
 src/pyclaw/controller.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 55b9ca2..e341fc8 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -299,8 +299,6 @@ class Controller(object):
              \nEither delete/move the directory or set controller.overwrite=True.")
 
         self.start_frame = self.solution.start_frame
-        if len(self.solution.patch.grid.gauges)>0:
-            self.solution.patch.grid.setup_gauge_files(self.outdir)
         frame = FrameCounter()
 
         frame.set_counter(self.start_frame)
@@ -311,9 +309,6 @@ class Controller(object):
 
         self.check_validity()
 
-        # Write initial gauge values
-        self.solver.write_gauge_values(self.solution)
-
         # Output styles
         if self.output_style == 1:
             output_times = np.linspace(self.solution.t,self.tfinal,
@@ -332,6 +327,18 @@ class Controller(object):
                 print("Simulation has already reached tfinal.")
             return None
 
+        # Refuse unknown formats before any file is written
+        if isinstance(self.output_format,str):
+            self.solution.get_write_func(self.output_format)
+        elif self.output_format is not None:
+            for file_format in self.output_format:
+                self.solution.get_write_func(file_format)
+
+        # Write initial gauge values
+        if len(self.solution.patch.grid.gauges)>0:
+            self.solution.patch.grid.setup_gauge_files(self.outdir)
+        self.solver.write_gauge_values(self.solution)
+
         # Output and save initial frame
         if self.keep_copy:
             self.frames.append(copy.deepcopy(self.solution))
-- 
2.43.0


From 59d59136929a9d5cd0df03edb692d3186141b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:13 +0000
Subject: [PATCH 46/50] fix: record gauges of three-dimensional runs

A run in three dimensions with gauges raised an UnboundLocalError, since
only one- and two-dimensional gauges were looked up.
---
 src/pyclaw/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 2c8f984..f6cd791 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -710,6 +710,11 @@ class Solver(object):
                 if solution.num_aux > 0:
                     aux = solution.state.aux[:,ix,iy]
                 q=solution.state.q[:,ix,iy]
+            elif self.num_dim == 3:
+                ix, iy, iz = gauge
+                if solution.num_aux > 0:
+                    aux = solution.state.aux[:,ix,iy,iz]
+                q=solution.state.q[:,ix,iy,iz]
             p=self.compute_gauge_values(q,aux)
             if not hasattr(p,'__iter__'):
                 p = [p]
-- 
2.43.0


From 24def34cfcd6923268ded784c1fca62f6eade7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:50 +0000
Subject: [PATCH 47/50] fix: variants of an application collected before being
 run all ran the last one

gen_variants yields functions that look up their parameters when they are
called; in a list of them every one ran the variant generated last, and a
failure of the others went unnoticed.
---
 src/pyclaw/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/util.py b/src/pyclaw/util.py
index 6fa22a4..69e22c0 100755
--- a/src/pyclaw/util.py
+++ b/src/pyclaw/util.py
@@ -168,7 +168,7 @@ def gen_variants(application, verifier, kernel_languages=('Fortran',), disable_p
             solver_info = 'solver_type={solver_type!s}, '
         else:
             solver_info = ''
-        test = lambda: test_app(application, verifier, test_kwargs)
+        test = lambda test_kwargs=test_kwargs: test_app(application, verifier, test_kwargs)
         test.description = '%s(%s)' % (test_name, str(kwargs))
         yield test
     return
-- 
2.43.0


From dc9a85f8abd5fa698facf44e607ec26afb45e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:50 +0000
Subject: [PATCH 48/50] fix: solutions of different numbers of dimensions could
 be taken for the same

check_solutions_are_same compared only as many dimensions as both have.
---
 src/pyclaw/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/util.py b/src/pyclaw/util.py
index 69e22c0..936a1a9 100755
--- a/src/pyclaw/util.py
+++ b/src/pyclaw/util.py
@@ -310,6 +310,7 @@ def check_solutions_are_same(sol_a,sol_b):
 
         dims = patch.dimensions
         ref_dims = ref_patch.dimensions
+        assert len(dims) == len(ref_dims)
         for dim, ref_dim in zip(dims,ref_dims):
             # Required dim attributes
             for attr in ['num_cells','lower','delta']:
-- 
2.43.0


From de6aa5562a561a2fc97a85d425149437971d2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:39 +0000
Subject: [PATCH 49/50] fix: a Solution can be made from a single Patch or
 Dimension

The documentation promises it, but the argument was assigned to an
element of the argument tuple, which always raised a TypeError.
---
 src/pyclaw/solution.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 91120d8..a73e0bf 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -146,15 +146,16 @@ class Solution(object):
 
         elif len(arg) == 2:
             #Set domain
-            if isinstance(arg[1],Domain):
-                self.domain = arg[1]
+            geom = arg[1]
+            if isinstance(geom,Domain):
+                self.domain = geom
             else:
-                if not isinstance(arg[1],(list,tuple)):
-                    arg[1] = list(arg[1])
-                if isinstance(arg[1][0],Dimension):
-                    self.domain = Domain(Patch(arg[1]))
-                elif isinstance(arg[1][0],Patch):
-                    self.domain = Domain(arg[1])
+                if not isinstance(geom,(list,tuple)):
+                    geom = [geom]
+                if isinstance(geom[0],Dimension):
+                    self.domain = Domain(Patch(geom))
+                elif isinstance(geom[0],Patch):
+                    self.domain = Domain(geom)
                 else:
                     raise Exception("Invalid arguments for Solution initialization.")
 
-- 
2.43.0


From 40af9347bebb312f61f8c0ecb7e5ee1f1b54e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:39 +0000
Subject: [PATCH 50/50] fix: a Solution made from (num_eqn, num_aux) has a list
 of states

The State itself was stored in place of the list, so that no attribute
of the solution could be used.
---
 src/pyclaw/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index a73e0bf..e29d800 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -168,7 +168,7 @@ class Solution(object):
                     # List of States
                     self.states = arg[0]
                 elif isinstance(arg[0][0],int):
-                    self.states = State(self.domain,arg[0][0],arg[0][1])
+                    self.states.append(State(self.domain,arg[0][0],arg[0][1]))
                 else:
                     raise Exception("Invalid arguments for Solution initialization.")
             elif isinstance(arg[0],int):
-- 
2.43.0

