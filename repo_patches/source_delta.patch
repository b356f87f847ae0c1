From b95488390d14a7693f628a15b7dc74406f0dff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 01/44] fix: report run statistics when a run ends before or at
 the end of warmup

---
 dedalus/core/solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c63a5fb..32767bb 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -755,13 +755,16 @@ class InitialValueSolver(SolverBase):
     def log_stats(self, format=".4g"):
         """Log timing statistics with specified string formatting (optional)."""
         self.run_time_end = self.wall_time
+        if self.iteration == self.initial_iteration:
+            # No steps taken: setup extends to now
+            self.start_time_end = self.run_time_end
         start_time = self.start_time_end
         logger.info(f"Final iteration: {self.iteration}")
         logger.info(f"Final sim time: {self.sim_time}")
         logger.info(f"Setup time (init - iter 0): {start_time:{format}} sec")
         if self.profile:
             self.dump_profiles(self.run_profiler, "runtime")
-        if self.iteration >= self.initial_iteration + self.warmup_iterations:
+        if self.iteration > self.initial_iteration + self.warmup_iterations:
             warmup_time = self.warmup_time_end - self.warmup_time_start
             run_time = self.run_time_end - self.run_time_start
             profile_output_time = (self.warmup_time_start-self.start_time_end) + (self.run_time_start-self.warmup_time_end)
-- 
2.43.0


From 5d38668751d5ff8cb8f84a71c8f23d383a8a8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 02/44] fix: merge virtual output files written by the current
 file handlers

---
 dedalus/tools/post.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index 92c2f65..d9b8ad9 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -157,7 +157,7 @@ def merge_virtual_file(virtual_file_path, cleanup=False):
 
     # Cleanup after completed merge, if directed
     if cleanup:
-        folder = merged_file_path.parent.joinpath("{}/".format(virtual_file_path.stem))
+        folder = merged_file_path.parent.joinpath("{}/".format(merged_file_path.stem))
         logger.info("cleaning up {}".format(folder))
         if os.path.isdir(folder):
             shutil.rmtree(folder)
@@ -276,14 +276,19 @@ def merge_setup(joint_file, proc_paths, virtual=False):
                                                     dtype=proc_dset.dtype,
                                                     chunks=True)
             # Dataset metadata
-            joint_dset.attrs['task_number'] = proc_dset.attrs['task_number']
+            if 'task_number' in proc_dset.attrs:
+                joint_dset.attrs['task_number'] = proc_dset.attrs['task_number']
             joint_dset.attrs['constant'] = proc_dset.attrs['constant']
             joint_dset.attrs['grid_space'] = proc_dset.attrs['grid_space']
             joint_dset.attrs['scales'] = proc_dset.attrs['scales']
 
             for i, proc_dim in enumerate(proc_dset.dims):
                 joint_dset.dims[i].label = proc_dim.label
-                if joint_dset.dims[i].label == 't':
+                if virtual:
+                    # Reattach copied scales
+                    for scale in proc_dim.values():
+                        joint_dset.dims[i].attach_scale(joint_file[scale.name])
+                elif joint_dset.dims[i].label == 't':
                     for scalename in ['sim_time', 'wall_time', 'timestep', 'iteration', 'write_number']:
                         scale = joint_file['scales'][scalename]
                         joint_dset.dims.create_scale(scale, scalename)
-- 
2.43.0


From 23a3beb6368d99eedd0e062e7a96dff7c36b707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 03/44] fix: store each axis' own grid and mode numbers as file
 output scales

---
 dedalus/core/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f500020..7aa2b01 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -547,13 +547,15 @@ class H5FileHandlerBase(Handler):
                 if basis is None:
                     sn = lookup = 'constant'
                 else:
-                    subaxis = axis - self.dist.get_basis_axis(basis)
+                    basis_axis = self.dist.get_basis_axis(basis)
+                    subaxis = axis - basis_axis
                     if layout.grid_space[axis]:
                         sn = basis.coordsys.coords[subaxis].name
-                        data = basis.global_grids(self.dist, scales)[subaxis].ravel()
+                        basis_scales = scales[basis_axis:basis_axis+basis.dim]
+                        data = basis.global_grids(self.dist, basis_scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
-                        data = layout.global_group_arrays(op.domain, scales)[subaxis]
+                        data = layout.global_group_arrays(op.domain, scales)[axis]
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-- 
2.43.0


From 2037ee7193b317298b0f0a8a60ec11341a73e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 04/44] fix: append file output next to unrelated files and
 with special characters in the handler name

---
 dedalus/core/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 7aa2b01..c0d3dec 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -413,10 +413,10 @@ class H5FileHandlerBase(Handler):
                 set_nums = []
                 if sets:
                     for set in sets:
-                        m = re.match("{}_s(\d+)$".format(base_path.stem), set.stem)
+                        m = re.match(r"{}_s(\d+)$".format(re.escape(base_path.stem)), set.stem)
                         if m:
                             set_nums.append(int(m.groups()[0]))
-                    max_set = max(set_nums)
+                    max_set = max(set_nums, default=0)
                     joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
                     p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
                     if os.path.exists(str(joined_file)):
-- 
2.43.0


From e05411674b0dbb518c9fd0d7983ae402f5174b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 05/44] fix: evaluate handler tasks given as strings

FutureField.cast imported an operator that no longer exists and did not pass the
tensor signature and dtype that Operand.cast requires, so every string task failed.
---
 dedalus/core/future.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/future.py b/dedalus/core/future.py
index 58f9cd9..69d3c9c 100644
--- a/dedalus/core/future.py
+++ b/dedalus/core/future.py
@@ -273,14 +273,16 @@ class FutureField(Future):
     @staticmethod
     def cast(arg, dist):
         """Cast an object to a FutureField."""
-        from .operators import FieldCopy
+        from .operators import Copy
         # Cast to Operand (checks dist)
-        arg = Operand.cast(arg, dist)
+        tensorsig = arg.tensorsig if isinstance(arg, Operand) else ()
+        dtype = arg.dtype if isinstance(arg, Operand) else dist.dtype
+        arg = Operand.cast(arg, dist, tensorsig=tensorsig, dtype=dtype)
         # Cast to FutureField
         if isinstance(arg, FutureField):
             return arg
         else:
-            return FieldCopy(arg)
+            return Copy(arg)
 
 
 class FutureLockedField(Future):
-- 
2.43.0


From 8bac3831ee63bfb734d1fc0c682e4f83c213d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 06/44] fix: restart multistep history and output schedules
 when loading a state

---
 dedalus/core/evaluator.py | 4 ++++
 dedalus/core/solvers.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index c0d3dec..c571496 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -238,6 +238,10 @@ class Handler:
         self.iter = iter
         self.custom_schedule = custom_schedule
         self.tasks = []
+        self.reset_schedule()
+
+    def reset_schedule(self):
+        """Reset evaluation schedule, as when starting a new run."""
         # Set initial divisors to be -1 to trigger output on first iteration
         self.last_wall_div = -1
         self.last_sim_div = -1
diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 32767bb..6de6e52 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -670,6 +670,10 @@ class InitialValueSolver(SolverBase):
                     logger.warning(f"Field '{field.name}' not found in savefile.")
                 else:
                     raise IOError(f"Field '{field.name}' not found in savefile. Set allow_missing=True to ignore this error.")
+        # Restart multistep history and output schedules from the loaded state
+        self.timestepper = type(self.timestepper)(self)
+        for handler in self.evaluator.handlers:
+            handler.reset_schedule()
         return write, dt
 
     def enforce_hermitian_symmetry(self, fields):
-- 
2.43.0


From cee9051ab9b0d30551bd17cda9d3170af4a72e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 07/44] fix: pass replacement arguments in order when replacing
 operator types

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4547146..714c8aa 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -694,7 +694,7 @@ class LinearOperator(FutureField):
             return new
         # Check base and call with replaced arguments
         elif isinstance(old, type) and isinstance(self, old):
-            new_operand = self.operand.replace(new, old)
+            new_operand = self.operand.replace(old, new)
             return new(new_operand)
         # Call with replaced arguments
         else:
-- 
2.43.0


From eb90178bbf8324a8694252c0f3008e27890e539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 08/44] fix: rewrite linear operators of vanishing operands to
 zero

---
 dedalus/core/operators.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 714c8aa..0c64254 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -672,6 +672,13 @@ class LinearOperator(FutureField):
         # Subclasses must implement with correct arguments
         raise NotImplementedError("%s has not implemented the new_operand method." %type(self))
 
+    def _linear_new_operand(self, operand):
+        """New operand, or zero if the new operand vanishes."""
+        if isinstance(operand, Number) and operand == 0:
+            return 0
+        else:
+            return self.new_operand(operand)
+
     def split(self, *vars):
         """Split into expressions containing and not containing specified operands/operators."""
         # Check for matching operator
@@ -680,12 +687,12 @@ class LinearOperator(FutureField):
                 if isinstance(self, var):
                     return (self, 0)
         # Distribute over split operand
-        return tuple(self.new_operand(arg) for arg in self.operand.split(*vars))
+        return tuple(self._linear_new_operand(arg) for arg in self.operand.split(*vars))
 
     def sym_diff(self, var):
         """Symbolically differentiate with respect to specified operand."""
         # Differentiate argument
-        return self.new_operand(self.operand.sym_diff(var))
+        return self._linear_new_operand(self.operand.sym_diff(var))
 
     def replace(self, old, new):
         """Replace specified operand/operator."""
@@ -699,7 +706,7 @@ class LinearOperator(FutureField):
         # Call with replaced arguments
         else:
             new_operand = self.operand.replace(old, new)
-            return self.new_operand(new_operand)
+            return self._linear_new_operand(new_operand)
 
     def expand(self, *vars):
         """Expand expression over specified variables."""
@@ -718,7 +725,7 @@ class LinearOperator(FutureField):
                 return self._expand_multiply(operand, vars)
             # Apply to expanded operand
             else:
-                return self.new_operand(operand)
+                return self._linear_new_operand(operand)
         else:
             return self
 
@@ -731,7 +738,8 @@ class LinearOperator(FutureField):
         """Expand over addition."""
         # There are no sums of sums since addition is flattened
         # Apply to arguments and re-expand to cover sums of products
-        return sum((self.new_operand(arg) for arg in operand.args)).expand(*vars)
+        out = sum((self.new_operand(arg) for arg in operand.args))
+        return out.expand(*vars) if isinstance(out, Operand) else out
 
     def _expand_multiply(self, operand, vars):
         """Expand over multiplication."""
@@ -1020,6 +1028,12 @@ class TimeDerivative(LinearOperator):
     def base(self):
         return TimeDerivative
 
+    def new_operand(self, operand, **kw):
+        # Handle numbers
+        if isinstance(operand, Number):
+            return 0
+        return TimeDerivative(operand, **kw)
+
     def _expand_linop(self, operand, vars):
         """Expand over linear operator."""
         # Halt expansion when hitting another time derivative
@@ -1036,7 +1050,7 @@ class TimeDerivative(LinearOperator):
         partial_diff = lambda i: prod([self.new_operand(arg) if i==j else arg for j,arg in enumerate(args)])
         out = sum((partial_diff(i) for i in range(len(args))))
         # Re-expand to continue propagating
-        return out.expand(*vars)
+        return out.expand(*vars) if isinstance(out, Operand) else out
 
     # def separability(self, *vars):
     #     """Determine separable dimensions of expression as a linear operator on specified variables."""
-- 
2.43.0


From e6f4c8ac22b607f8ae174c5cb9dafe2ac74fd31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 09/44] fix: expand products through new_operands and keep
 numeric factors

---
 dedalus/core/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 64daa53..e491ba9 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -320,11 +320,11 @@ class Product(Future):
         """Expand expression over specified variables."""
         if self.has(*vars):
             # Expand arguments
-            args = [arg.expand(*vars) for arg in self.args]
+            args = [arg.expand(*vars) if isinstance(arg, Operand) else arg for arg in self.args]
             # Sum over cartesian product of sums including specified variables
             arg_sets = [arg.args if (isinstance(arg, Add) and arg.has(*vars)) else [arg] for arg in args]
             arg_sets = itertools.product(*arg_sets)
-            return sum(self.new_operand(*args) for args in arg_sets)
+            return sum(self.new_operands(*args) for args in arg_sets)
         else:
             return self
 
-- 
2.43.0


From 9ab87f3d18418103004db883407fef4e276da2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 10/44] fix: rewrite interpolations, integrals and averages of
 constant operands

---
 dedalus/core/operators.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 0c64254..d10c67c 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1143,6 +1143,9 @@ class Interpolate(SpectralOperator, metaclass=MultiClass):
         return '{}({}, {}={})'.format(self.name, str(self.operand), self.coord.name, self.position)
 
     def new_operand(self, operand, **kw):
+        # Pass through operands that are constant along the interpolation coordinate
+        if isinstance(operand, Operand) and operand.domain.get_basis(self.coord) is None:
+            return operand
         return Interpolate(operand, self.coord, self.position, **kw)
 
     def subspace_matrix(self, layout):
@@ -1225,6 +1228,9 @@ class Integrate(LinearOperator, metaclass=MultiClass):
         self.dtype = operand.dtype
 
     def new_operand(self, operand, **kw):
+        # Retain integration basis for operands that are constant along the integration coordinate
+        if isinstance(operand, Operand) and operand.domain.get_basis(self.coord) is None:
+            operand = Convert(operand, self.input_basis)
         return Integrate(operand, self.coord, **kw)
 
 
@@ -1297,6 +1303,12 @@ class Average(LinearOperator, metaclass=MultiClass):
         self.tensorsig = operand.tensorsig
         self.dtype = operand.dtype
 
+    def new_operand(self, operand, **kw):
+        # Pass through operands that are constant along the averaging coordinate
+        if isinstance(operand, Operand) and operand.domain.get_basis(self.coord) is None:
+            return operand
+        return Average(operand, self.coord, **kw)
+
 
 # # CHECK NEW
 # @parseable('filter', 'f')
-- 
2.43.0


From c9027a1d06962628a6ab1b2507b1942ac254405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 11/44] fix: keep all bases when combining operands with
 different coordinates

---
 dedalus/core/arithmetic.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index e491ba9..235ee00 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -48,6 +48,15 @@ def enum_indices(tensorsig):
     return enumerate(np.ndindex(shape))
 
 
+def combined_coords(args):
+    """Collect coordinates keying the bases of all arguments."""
+    bases_by_coord = [arg.domain.bases_by_coord for arg in args]
+    coords = dict.fromkeys(coord for bases in bases_by_coord for coord in bases)
+    # Skip coordinates covered by a basis over their entire coordinate system
+    covered = lambda coord: any(bases.get(getattr(coord, 'cs', None), None) is not None for bases in bases_by_coord)
+    return [coord for coord in coords if not covered(coord)]
+
+
 class Add(Future, metaclass=MultiClass):
     """Addition operator."""
 
@@ -98,7 +107,7 @@ class Add(Future, metaclass=MultiClass):
         """Build output bases."""
         dist = unify_attributes(args, 'dist')
         bases = []
-        for coord in args[0].domain.bases_by_coord:
+        for coord in combined_coords(args):
             ax_bases = tuple(arg.domain.bases_by_coord.get(coord, None) for arg in args)
             # All constant bases yields constant basis
             if all(basis is None for basis in ax_bases):
@@ -270,9 +279,9 @@ class Product(Future):
         bases = []
         arg0_bases = arg0.domain.bases_by_coord
         arg1_bases = arg1.domain.bases_by_coord
-        for coord in arg0_bases:
-            b0 = arg0_bases[coord]
-            b1 = arg1_bases[coord]
+        for coord in combined_coords((arg0, arg1)):
+            b0 = arg0_bases.get(coord, None)
+            b1 = arg1_bases.get(coord, None)
             # All constant bases yields constant basis
             if b0 is None and b1 is None:
                 continue
-- 
2.43.0


From ea5f7866d1195b15d596365a9f816afac2ce928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 12/44] fix: apply matrices on wraparound axes and
 noncontiguous outputs, and return solutions

---
 dedalus/tools/array.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index ab9caf8..06c1e06 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -85,6 +85,8 @@ def apply_matrix(matrix, array, axis, **kw):
 def apply_dense_einsum(matrix, array, axis, optimize=True, **kw):
     """Apply dense matrix along any axis of an array."""
     dim = len(array.shape)
+    # Resolve wraparound axis
+    axis = axis % dim
     # Build Einstein signatures
     mat_sig = [dim, axis]
     arr_sig = list(range(dim))
@@ -198,8 +200,13 @@ def apply_sparse(matrix, array, axis, out=None, check_shapes=False, num_threads=
     matrix_data = matrix.data
     if matrix_data.dtype != out.dtype:
         matrix_data = matrix_data.astype(out.dtype)
-    # Call cython routine
-    cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, out, axis, num_threads)
+    # Resolve wraparound axis
+    axis = axis % array.ndim
+    # Call cython routine with contiguous output
+    temp = out if out.flags.c_contiguous else np.empty(out.shape, dtype=out.dtype)
+    cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, temp, axis, num_threads)
+    if temp is not out:
+        np.copyto(out, temp)
     return out
 
 
@@ -228,8 +235,14 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
             raise ValueError("Axis out of bounds.")
         if not (matrix.shape[0] == matrix.shape[1] == rhs.shape[axis]):
             raise ValueError("Matrix shape mismatch.")
-    # Call cython routine
-    cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    # Resolve wraparound axis
+    axis = axis % rhs.ndim
+    # Call cython routine with contiguous output
+    temp = out if out.flags.c_contiguous else out.copy(order='C')
+    cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, temp, axis, num_threads)
+    if temp is not out:
+        np.copyto(out, temp)
+    return out
 
 
 def csr_matvec(A_csr, x_vec, out_vec):
-- 
2.43.0


From 1b21e2e7b6ba28ef4dba1c4bfe890674cf36a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 13/44] fix: solve with sparse matrices whose canonical format
 flag is not yet known

---
 dedalus/tools/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 06c1e06..8b0d8aa 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -218,7 +218,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
     # Check matrix
     if not isinstance(matrix, sparse.csr_matrix):
         raise ValueError("Matrix must be in CSR format.")
-    if not matrix._has_canonical_format: # avoid property hook (without underscore)
+    if not getattr(matrix, '_has_canonical_format', False): # avoid property hook (without underscore)
         matrix.sum_duplicates()
     # Setup output = rhs
     if out is None:
-- 
2.43.0


From c1b17a427999ee13c563ce7f19552c23ea677111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 14/44] fix: transpose field groups without data to the right
 layout and plan MPI transposes from chunks

---
 dedalus/core/distributor.py |  2 +-
 dedalus/core/transposes.pyx | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c4cc766..b017e3a 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -921,7 +921,7 @@ class Transpose:
             else:
                 # No communication: just update field layouts
                 for field in fields:
-                    field.preset_layout(self.layout1)
+                    field.preset_layout(self.layout0)
 
     # def increment_group(self, *fields):
     #     """Transpose group from layout0 to layout1."""
diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 145b7ee..f885a61 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -267,6 +267,7 @@ cdef class AlltoallvTranspose:
     cdef readonly int datasize, axis
     cdef readonly int N0, N1, N2, N3
     cdef readonly int[::1] global_shape
+    cdef readonly int[::1] chunk_shape
     cdef readonly int[::1] col_starts
     cdef readonly int[::1] row_starts
     cdef readonly int[::1] col_ends
@@ -284,10 +285,11 @@ cdef class AlltoallvTranspose:
     cdef readonly int local_col_count
     cdef readonly int local_row_count
 
-    def __init__(self, global_shape, dtype, axis, pycomm):
+    def __init__(self, global_shape, chunk_shape, dtype, axis, pycomm):
         logger.debug("Building MPI transpose plan for (dtype, gshape, axis) = (%s, %s, %s)" %(dtype, global_shape, axis))
         # Attributes
-        self.global_shape = global_shape = global_shape.astype(np.int32)
+        self.global_shape = global_shape = np.array(global_shape, dtype=np.int32)
+        self.chunk_shape = chunk_shape = np.array(chunk_shape, dtype=np.int32)
         self.datasize = {np.float64: 1, np.complex128: 2}[np.dtype(dtype).type]
         self.axis = axis
         self.pycomm = pycomm
@@ -296,9 +298,18 @@ cdef class AlltoallvTranspose:
         self.N1 = N1 = global_shape[axis]
         self.N2 = N2 = global_shape[axis+1]
         self.N3 = N3 = prod(global_shape[axis+2:]) * self.datasize
-        # Blocks
-        B1 = math.ceil(global_shape[axis] / pycomm.size)
-        B2 = math.ceil(global_shape[axis+1] / pycomm.size)
+        # Chunks
+        C1 = chunk_shape[axis]
+        C2 = chunk_shape[axis+1]
+        # Global number of chunks
+        CG1 = -(-global_shape[axis] // C1)  # ceil
+        CG2 = -(-global_shape[axis+1] // C2)  # ceil
+        # Local number of chunks
+        CL1 = -(-CG1 // pycomm.size)
+        CL2 = -(-CG2 // pycomm.size)
+        # Blocks (local number of elements)
+        B1 = C1 * CL1
+        B2 = C2 * CL2
         # Starting indices
         ranks = np.arange(pycomm.size, dtype=np.int32)
         self.col_starts = col_starts = np.minimum(B2*ranks, global_shape[axis+1])
-- 
2.43.0


From 1263d60f99ec070c49adf3897e11682a7f4a3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 15/44] fix: allocate transpose buffers for blocks spanning an
 axis

---
 dedalus/core/transposes.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index f885a61..c56c33f 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -160,6 +160,8 @@ cdef class FFTWTranspose:
                 &start0,
                 &local1,
                 &start1)
+        # Ensure space for local data, since FFTW ignores blocks spanning the full output dimension here
+        alloc_doubles = max(alloc_doubles, prod(self.CL_reduced_shape)*self.datasize, prod(self.RL_reduced_shape)*self.datasize)
         cdef cnp.ndarray buffer0 = fftw.create_buffer(alloc_doubles)
         cdef cnp.ndarray buffer1 = fftw.create_buffer(alloc_doubles)
         if in_place:
-- 
2.43.0


From 7a3329793e1419e968cbaf21fb0a02cf1040b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 16/44] fix: load global data of tensor fields and of any grid
 size

---
 dedalus/core/field.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ac68dc5..c385807 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -622,8 +622,9 @@ class Field(Current):
         return copy
 
     def set_global_data(self, global_data):
-        elements = self.layout.local_elements(self.domain, self.scales)
-        self.set_local_data(global_data[np.ix_(*elements)])
+        component_slices = tuple(slice(None) for cs in self.tensorsig)
+        spatial_slices = self.layout.slices(self.domain, self.scales)
+        self.set_local_data(global_data[component_slices + spatial_slices])
 
     def set_local_data(self, local_data):
         copyto(self.data, local_data)
@@ -766,7 +767,11 @@ class Field(Current):
         dim = self.dist.dim
         layout = self.dist.grid_layout
         # Set scales to match saved data
-        scales = np.array(global_data.shape[-dim:]) / np.array(layout.global_shape(self.domain, scales=1))
+        data_shape = np.array(global_data.shape[-dim:])
+        base_shape = np.array(layout.global_shape(self.domain, scales=1))
+        scales = data_shape / base_shape
+        # Round down scales that overshoot the data shape
+        scales = np.where(scales*base_shape > data_shape, np.nextafter(scales, 0), scales)
         self.preset_scales(scales)
         # Extract local data from global data
         component_slices = tuple(slice(None) for cs in self.tensorsig)
-- 
2.43.0


From 09e42f3ecf0c39722e37b6e93fc6f3722fa6a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 17/44] fix: zero unresolved cosine modes when only the mean is
 resolved

---
 dedalus/core/transforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 00758fb..8200187 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -730,9 +730,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.forward_rescale_pos, data_out[posfreq])
-            if self.KM > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KM > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
     def resize_rescale_backward(self, data_in, data_out, axis, Kmax):
         """Resize by padding/trunction and rescale to unit amplitude."""
@@ -741,9 +741,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.backward_rescale_pos, data_out[posfreq])
-            if self.KN > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KN > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
 
 #@register_transform(basis.Cosine, 'scipy')
-- 
2.43.0


From a6176c9f3151daf52438cf589e91c96a64813251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 18/44] fix: zero unresolved modes in half-complex FFT when
 only the mean is resolved

---
 dedalus/core/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 8200187..e377c78 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -610,7 +610,7 @@ class FFTWHalfComplexFFT(FFTWBase, RealFourierTransform):
         np.multiply(cdata_posfreq_cos, (1 / 2), temp_posfreq_cos)
         np.multiply(cdata_posfreq_msin, (1 / 2), temp_posfreq_msin)
         # Zero k > Kmax data
-        temp[axslice(axis, Kmax+1, -Kmax)] = 0
+        temp[axslice(axis, Kmax+1, self.N-Kmax)] = 0
 
     def forward(self, gdata, cdata, axis):
         """Apply forward transform along specified axis."""
-- 
2.43.0


From 02239b09c1f72911af6541f51892e03c37760150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 19/44] fix: zero unresolved colatitude modes when the order
 exceeds the grid size

---
 dedalus/core/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index e377c78..7de66d8 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -1311,7 +1311,7 @@ class SWSHColatitudeTransform(NonSeparableTransform):
                 Yfull = np.zeros((Lmax+1-abs(m), self.Ntheta))
                 Yfull[Lmin-abs(m):, :] = (Y*weights).astype(np.float64)
                 # Zero higher coefficients than can be correctly computed with base Gauss quadrature
-                Yfull[self.Ntheta-abs(m):, :] = 0
+                Yfull[max(self.Ntheta-abs(m),0):, :] = 0
                 m_matrices[m] = np.asarray(Yfull, order='C')
         return m_matrices
 
@@ -1335,7 +1335,7 @@ class SWSHColatitudeTransform(NonSeparableTransform):
                 Yfull = np.zeros((self.Ntheta, Lmax+1-abs(m)))
                 Yfull[:, Lmin-abs(m):] = Y.T.astype(np.float64)
                 # Zero higher coefficients than can be correctly computed with base Gauss quadrature
-                Yfull[:, self.Ntheta-abs(m):] = 0
+                Yfull[:, max(self.Ntheta-abs(m),0):] = 0
                 m_matrices[m] = np.asarray(Yfull, order='C')
         return m_matrices
 
-- 
2.43.0


From 3314ce40ee60c5cce5d721a54e3afc99cbee1a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 20/44] fix: single azimuthal mode layouts of polar bases with
 two azimuthal points

---
 dedalus/core/basis.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e7705f4..4922014 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1819,18 +1819,16 @@ class PolarBasis(SpinBasis):
         elif grid_space[1]:
             # coeff-grid space
             shape = list(grid_shape)
-            shape[0] = self.shape[0]
+            shape[0] = self.shape[0] if self.mmax > 0 else 1
             return tuple(shape)
         else:
             # coeff-coeff space
-            Nphi = self.shape[0]
-            if self.dtype == np.complex128:
+            if self.mmax > 0:
                 return self.shape
+            elif self.dtype == np.complex128:
+                return (1, self.shape[1])
             elif self.dtype == np.float64:
-                if Nphi > 1:
-                    return self.shape
-                else:
-                    return (2, self.shape[1])
+                return (2, self.shape[1])
             # DRAFT Repacked triangular truncation for DiskBasis
             # if Nphi > 1:
             #     if self.dtype == np.complex128:
-- 
2.43.0


From 1f6dedcdef0a896bad38bd516633a7d93f08b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 21/44] fix: distinct keys and size bound in function caches

---
 dedalus/tools/cache.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/dedalus/tools/cache.py b/dedalus/tools/cache.py
index 6bccbf9..6ae2f55 100644
--- a/dedalus/tools/cache.py
+++ b/dedalus/tools/cache.py
@@ -65,29 +65,39 @@ class CachedFunction:
 
     def __call__(self, *args, **kw):
         # First try direct call signature
-        direct_call = (args, tuple(kw.items()))
+        # (tagged so that direct and resolved keys cannot coincide)
+        direct_call = ('direct', args, tuple(kw.items()))
         try:
             return self.cache[direct_call]
         except KeyError:
             pass
         # Then try full resolved call
-        resolved_call = serialize_call(args, kw, self.argnames, self.defaults)
+        resolved_call = ('resolved', serialize_call(args, kw, self.argnames, self.defaults), self._extra_items(args, kw))
         try:
             result = self.cache[resolved_call]
             # Add direct call key to avoid resolving it in subsequent calls
-            self.cache[direct_call] = result
+            self._store(direct_call, result)
             return result
         except KeyError:
             pass
-        # Reduce cache size if necessary
-        while len(self.cache) >= self.max_size:
-            self.cache.popitem(last=False)
         # Compute and cache result
         result = self.function(*args, **kw)
-        self.cache[direct_call] = result
-        self.cache[resolved_call] = result
+        self._store(direct_call, result)
+        self._store(resolved_call, result)
         return result
 
+    def _extra_items(self, args, kw):
+        """Keywords that do not fill the remaining named arguments."""
+        named = self.argnames[len(args):]
+        return tuple(sorted(item for item in kw.items() if item[0] not in named))
+
+    def _store(self, call, result):
+        """Store result, evicting the oldest entries if necessary."""
+        while self.cache and len(self.cache) >= self.max_size:
+            self.cache.popitem(last=False)
+        if self.max_size > 0:
+            self.cache[call] = result
+
 
 class CachedMethod(CachedFunction):
     """Descriptor for caching method outputs."""
-- 
2.43.0


From 714441f23cb30888366cfdecb1776061587d10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 22/44] fix: keep a subclass's cached method when its parent's
 is called

---
 dedalus/tools/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/cache.py b/dedalus/tools/cache.py
index 6ae2f55..b02c00e 100644
--- a/dedalus/tools/cache.py
+++ b/dedalus/tools/cache.py
@@ -113,7 +113,9 @@ class CachedMethod(CachedFunction):
         bound_method = types.MethodType(new_cached_method, instance)
         # Set bound method as instance attribute
         # (overrides reference to descriptor from instance)
-        setattr(instance, self.__name__, bound_method)
+        # unless overridden by a subclass and accessed through super
+        if getattr(type(instance), self.__name__, self) is self:
+            setattr(instance, self.__name__, bound_method)
 
         return bound_method
 
-- 
2.43.0


From 6c390dafeda03026add4ecac4821550673a000c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 23/44] fix: hold cached instances while they are looked up

---
 dedalus/tools/cache.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dedalus/tools/cache.py b/dedalus/tools/cache.py
index b02c00e..34f82db 100644
--- a/dedalus/tools/cache.py
+++ b/dedalus/tools/cache.py
@@ -141,11 +141,12 @@ class CachedClass(type):
         if call.kwargs:
             raise ValueError("Required keyword arguments not supported.")
         full_args = cls._preprocess_cache_args(*call.args[1:])
+        # Bind to local variable so weakref persists until return
+        instance = cls._instance_cache.get(full_args)
         # Instantiate for new call
-        if full_args not in cls._instance_cache:
-            # Bind to local variable so weakref persists until return
+        if instance is None:
             cls._instance_cache[full_args] = instance = super().__call__(*full_args)
-        return cls._instance_cache[full_args]
+        return instance
 
     def _preprocess_args(cls, *args, **kw):
         """Process arguments and keywords prior to checking cache."""
-- 
2.43.0


From d08af557acfac92fbf4ce25be24cc052d59fae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 24/44] fix: keep the sparseqr module for SPQR solves

---
 dedalus/libraries/matsolvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/libraries/matsolvers.py b/dedalus/libraries/matsolvers.py
index f301d4f..a8f265c 100644
--- a/dedalus/libraries/matsolvers.py
+++ b/dedalus/libraries/matsolvers.py
@@ -200,10 +200,11 @@ class SPQR_solve(SparseSolver):
 
     def __init__(self, matrix, solver=None):
         import sparseqr
+        self.sparseqr = sparseqr
         self.matrix = matrix.copy()
 
     def solve(self, vector):
-        return sparseqr.solve(self.matrix, vector)
+        return self.sparseqr.solve(self.matrix, vector)
 
 
 @add_solver
-- 
2.43.0


From 124c21b6ae63721bfa1bbc89322291ba7504ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 25/44] fix: keep the inverse of 1x1 matrices two-dimensional
 in SparseInverse

---
 dedalus/libraries/matsolvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/libraries/matsolvers.py b/dedalus/libraries/matsolvers.py
index a8f265c..6a55f90 100644
--- a/dedalus/libraries/matsolvers.py
+++ b/dedalus/libraries/matsolvers.py
@@ -226,6 +226,9 @@ class SparseInverse(SparseSolver):
 
     def __init__(self, matrix, solver=None):
         self.matrix_inverse = spla.inv(matrix.tocsc())
+        # Fix return shape for 1x1 matrices
+        if matrix.shape == (1, 1):
+            self.matrix_inverse = self.matrix_inverse.reshape(matrix.shape)
 
     def solve(self, vector):
         return self.matrix_inverse @ vector
-- 
2.43.0


From c3bae7e6b7d6ee6a1bd53376ccc6d286926bc243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 26/44] fix: take the fundamental wavenumber from the interval
 in Fourier product matrices

Bases too small to hold the fundamental mode raised IndexError.
---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 4922014..a832907 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -983,7 +983,7 @@ class ComplexFourier(FourierBase, metaclass=CachedClass):
     def product_matrix(self, arg_basis, out_basis, i):
         # Directly compare wavenumber arrays to handle any permutations
         # First turn them into integer mode numbers to avoid floating point issues
-        k0 = self.wavenumbers[1]
+        k0 = 1 / self.COV.stretch
         k_ncc = np.round(self.wavenumbers[i]/k0).astype(int)
         k_out = np.round(out_basis.wavenumbers/k0).astype(int)
         if arg_basis is None:
@@ -1137,7 +1137,7 @@ class RealFourier(FourierBase, metaclass=CachedClass):
     def product_matrix(self, arg_basis, out_basis, i):
         # Directly compare wavenumber arrays to handle any permutations
         # First turn them into integer mode numbers to avoid floating point issues
-        k0 = self.wavenumbers[2]
+        k0 = 1 / self.COV.stretch
         k_ncc = np.round(self.wavenumbers[i]/k0).astype(int)
         k_out = np.round(out_basis.wavenumbers/k0).astype(int)
         if arg_basis is None:
-- 
2.43.0


From 84f58b5a9979ec82ea1384d9777654e7e2929fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 27/44] fix: drop sine columns of RealFourier product matrices
 for constant arguments

---
 dedalus/core/basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index a832907..1380214 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1179,7 +1179,9 @@ class RealFourier(FourierBase, metaclass=CachedClass):
         rows = np.concatenate(rows)
         cols = np.concatenate(cols)
         data = np.concatenate(data)
-        matrix = sparse.coo_matrix((data, (rows, cols)), shape=(k_out.size, k_arg.size)).tocsr()
+        # Constant arguments only have a cosine part
+        keep = cols < k_arg.size
+        matrix = sparse.coo_matrix((data[keep], (rows[keep], cols[keep])), shape=(k_out.size, k_arg.size)).tocsr()
         return matrix
 
 
-- 
2.43.0


From 14b3643eacef3bb7c480bda9cc87f2b417fb0e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 28/44] fix: let spherical matrices depend on ell

Spin and regularity validity and the radial truncation depend on ell: equations
without ell dependence raised broadcasting errors in the ball and lost valid
modes of higher-rank tensors in shells and on spheres.
---
 dedalus/core/basis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 1380214..de3525d 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2776,6 +2776,8 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
         matrix_dependence = matrix_coupling.copy()
         if matrix_coupling[1]:
             matrix_dependence[0] = True
+        # Spin validity depends on ell
+        matrix_dependence[1] = True
         return matrix_dependence
 
     def global_shape(self, grid_space, scales):
@@ -4188,6 +4190,8 @@ class Spherical3DBasis(MultidimensionalBasis):
         matrix_dependence = matrix_coupling.copy()
         if matrix_coupling[1]:
             matrix_dependence[0] = True
+        # Regularity validity and radial truncation depend on ell
+        matrix_dependence[1] = True
         return matrix_dependence
 
     @CachedAttribute
-- 
2.43.0


From c9603ed401c105081fbc026c49c7a70f25f73148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 29/44] fix: default build_EVP backgrounds to the IVP variables

The documented default raised TypeError.
---
 dedalus/core/problems.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 5da537f..a300599 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -388,6 +388,8 @@ class InitialValueProblem(ProblemBase):
         variables = self.variables
         if eigenvalue is None:
             eigenvalue = self.dist.Field(name='λ')
+        if backgrounds is None:
+            backgrounds = variables
         if perturbations is None:
             perturbations = [var.copy() for var in variables]
             for pert, var in zip(perturbations, variables):
-- 
2.43.0


From 75587ca8b2a411904b5ed26ad1f28e488b24a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 30/44] fix: accept numbers on the right-hand side in build_EVP

---
 dedalus/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index a300599..b894705 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -413,7 +413,7 @@ class InitialValueProblem(ProblemBase):
                 for var, pert in zip(variables, perturbations):
                     L = L.replace(var, pert)
             # Take Frechet differential of F(X)
-            if F:
+            if isinstance(F, Operand):
                 if F.has(self.time):
                     raise UnsupportedEquationError("Cannot convert time-dependent IVP to EVP.")
                 dF = F.frechet_differential(variables=variables, perturbations=perturbations, backgrounds=backgrounds)
-- 
2.43.0


From 77812987a03bed6500679ceabcbc39923ff7b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 31/44] fix: keep equation conditions in build_EVP

---
 dedalus/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index b894705..4868a1b 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -420,7 +420,7 @@ class InitialValueProblem(ProblemBase):
             else:
                 dF = 0
             # Add linearized equation and copy valid modes
-            evp_eqn = EVP.add_equation((M + L - dF, 0))
+            evp_eqn = EVP.add_equation((M + L - dF, 0), condition=eqn['condition'])
             evp_eqn['valid_modes'][:] = eqn['valid_modes']
         # Add backgrounds to EVP namespace
         for var in backgrounds:
-- 
2.43.0


From 2524faf7d8499b30c4a7ffafac08fa0f6c638e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:18 +0000
Subject: [PATCH 32/44] fix: use the shifted matrix dtype in scipy_sparse_eigs

Real matrices with a complex target lost imaginary parts inside ARPACK and
returned pairs that are not eigenpairs.
---
 dedalus/tools/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 8b0d8aa..a629373 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -437,7 +437,7 @@ def scipy_sparse_eigs(A, B, left, N, target, matsolver, **kw):
     solver = matsolver(C)
     def matvec(x):
         return solver.solve(B.dot(x))
-    D = spla.LinearOperator(dtype=A.dtype, shape=A.shape, matvec=matvec)
+    D = spla.LinearOperator(dtype=C.dtype, shape=A.shape, matvec=matvec)
     # Solve using scipy sparse algorithm
     evals, evecs = spla.eigs(D, k=N, which='LM', sigma=None, **kw)
     # Rectify eigenvalues
@@ -447,7 +447,7 @@ def scipy_sparse_eigs(A, B, left, N, target, matsolver, **kw):
         # Note: left_D is not equal to D^H
         def matvec_left(x):
             return solver.solve_H(B.conj().T.dot(x))
-        left_D = spla.LinearOperator(dtype=A.dtype, shape=A.shape, matvec=matvec_left)
+        left_D = spla.LinearOperator(dtype=C.dtype, shape=A.shape, matvec=matvec_left)
         # Solve using scipy sparse algorithm
         left_evals, left_evecs = spla.eigs(left_D, k=N, which='LM', sigma=None, **kw)
         # Rectify left eigenvalues
-- 
2.43.0


From 581b5e482de3767b0f8a5bed071a8ea0a67d1575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:33 +0000
Subject: [PATCH 33/44] fix: rebuild pencil views when fields change buffers

Views into field data were cached per field: after a field was put on scales
beyond its dealias scales, gathers and scatters kept using its old buffer, and
solvers silently stepped stale data.
---
 dedalus/core/subsystems.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index e684c00..0856ca5 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -265,6 +265,7 @@ class Subproblem:
             self._build_buffers()
 
     def _build_buffers(self):
+        self._field_views = {}
         self._input_buffer, self._input_views = self._build_buffer_views(self.problem.LHS_variables)
         if 'F' in self.problem.equations[0]:
             self._output_buffer, self._output_views = self._build_buffer_views([eqn['F'] for eqn in self.problem.equations])
@@ -319,23 +320,26 @@ class Subproblem:
             views.append(field_views)
         return buffer, views
 
-    @CachedMethod
     def _input_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._input_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._build_field_views(self._input_views, fields)
 
-    @CachedMethod
     def _output_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._output_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._build_field_views(self._output_views, fields)
+
+    def _build_field_views(self, buffer_views, fields):
+        # Reuse views while the fields keep their buffers (changing scales may replace them)
+        key = (id(buffer_views), fields)
+        buffers, views = self._field_views.get(key, ((), ()))
+        if len(buffers) != len(fields) or any(field.buffer is not buffer for field, buffer in zip(fields, buffers)):
+            buffers = tuple(field.buffer for field in fields)
+            views = []
+            for field, buffer_data in zip(fields, buffer_views):
+                for buffer_view, field_slices in buffer_data:
+                    field_view = field.data[field_slices]
+                    views.append((buffer_view, field_view))
+            views = tuple(views)
+            self._field_views[key] = (buffers, views)
+        return views
 
     def gather_inputs(self, fields, out=None):
         """Gather and precondition subproblem data from input-like field list."""
-- 
2.43.0


From fbe0b166de2fe3322a8002e2ec49f0f1fd381527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 34/44] fix: spin_recombination_matrix modified the cached list
 of factors

---
 dedalus/core/basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index de3525d..4fb7b59 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1578,7 +1578,8 @@ class SpinRecombinationBasis:
 
     def spin_recombination_matrix(self, tensorsig, n_upstream):
         # Combine factors, replacing None placeholders
-        factors = self.spin_recombination_factors(tensorsig)
+        # Copy to avoid modifying cached list
+        factors = list(self.spin_recombination_factors(tensorsig))
         for i, cs in enumerate(tensorsig):
             if factors[i] is None:
                 factors[i] = np.identity(cs.dim)
-- 
2.43.0


From d0ab6ec053bbe99540641635e759084f4cdf8beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 35/44] fix: compare all coordinates of coordinate systems

---
 dedalus/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/coords.py b/dedalus/core/coords.py
index 39ffa2c..1e3818f 100644
--- a/dedalus/core/coords.py
+++ b/dedalus/core/coords.py
@@ -24,7 +24,7 @@ class CoordinateSystem:
                 for i, coord in enumerate(self.coords):
                     if coord != other.coords[i]:
                         return False
-                    return True
+                return True
         return False
 
     def __hash__(self):
-- 
2.43.0


From 422d008af7156102d2436130926aa3836b2edb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 36/44] fix: components of later and negative indices of
 Cartesian and product tensors

---
 dedalus/core/operators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index d10c67c..1afbfcf 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3341,6 +3341,7 @@ class CartesianComponent(CartCompBase):
     cs_type = (coords.CartesianCoordinates, coords.Coordinate)
 
     def __init__(self, operand, index, comp, out=None):
+        if index < 0: index += len(operand.tensorsig)
         super().__init__(operand, out=out)
         self.index = index
         self.comp = comp
@@ -3380,7 +3381,7 @@ class CartesianComponent(CartCompBase):
         # Set output layout
         out.preset_layout(arg0.layout)
         # Copy specified comonent
-        take_comp = tuple([None] * self.index + [self.coord_subaxis])
+        take_comp = tuple([slice(None)] * self.index + [self.coord_subaxis])
         out.data[:] = arg0.data[take_comp]
 
 
@@ -3389,6 +3390,7 @@ class DirectProductComponent(CartCompBase):
     cs_type = coords.DirectProduct
 
     def __init__(self, operand, index, comp, out=None):
+        if index < 0: index += len(operand.tensorsig)
         super().__init__(operand, out=out)
         self.index = index
         self.comp = comp
@@ -3404,7 +3406,7 @@ class DirectProductComponent(CartCompBase):
         self.dtype = operand.dtype
         # Slicing for component
         comp_slice = slice(self.comp_subaxis, self.comp_subaxis+comp.dim)
-        self.comp_slices = tuple([None]*index + [comp_slice])
+        self.comp_slices = tuple([slice(None)]*index + [comp_slice])
 
     def check_conditions(self):
         """Check that operands are in a proper layout."""
-- 
2.43.0


From 80eec2ee2e87a06178b22302b09e07eaece96e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 37/44] fix: tensor signature of radial, angular and azimuthal
 components for negative indices

---
 dedalus/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 1afbfcf..81f156d 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2271,6 +2271,7 @@ class RadialComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
@@ -2296,6 +2297,7 @@ class AngularComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         if isinstance(self.coordsys, coords.PolarCoordinates):
             self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
@@ -2329,6 +2331,7 @@ class AzimuthalComponent(Component, metaclass=MultiClass):
         super().__init__(operand, index=index, out=out)
         if not isinstance(self.coordsys, coords.PolarCoordinates):
             raise ValueError("Can only take the AzimuthalComponent of a PolarCoordinate vector")
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
-- 
2.43.0


From 89ae5fcc6765fdf750258a0e96caf71b7d9777ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 38/44] fix: transpose of negative tensor indices exchanged
 spatial axes

---
 dedalus/core/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 81f156d..34ed243 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1953,8 +1953,8 @@ class TransposeComponents(LinearOperator, metaclass=MultiClass):
         self.input_basis = self.domain.get_basis(self.coordsys)
         # Store new axis order
         new_axis_order = np.arange(len(self.tensorsig) + self.dist.dim)
-        new_axis_order[indices[0]] = indices[1]
-        new_axis_order[indices[1]] = indices[0]
+        new_axis_order[i0] = i1
+        new_axis_order[i1] = i0
         self.new_axis_order = tuple(new_axis_order)
 
     def new_operand(self, operand, **kw):
-- 
2.43.0


From 684904e90f35d567df76a6658175897f079e76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 39/44] fix: skew of negative indices and its matrix for real
 data

---
 dedalus/core/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 34ed243..2ff745b 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2093,6 +2093,7 @@ class Skew(LinearOperator, metaclass=MultiClass):
         return False
 
     def __init__(self, operand, index=0, out=None):
+        if index < 0: index += len(operand.tensorsig)
         super().__init__(operand, out=out)
         self.index = index
         self.coordsys = operand.tensorsig[index]
@@ -2169,7 +2170,7 @@ class SpinSkew(Skew):
             factors[self.index] = 1j * factors[self.index]
         else:
             azimuth_index = len(self.tensorsig) + self.azimuth_axis
-            id_m = sparse.identity(shape[self.azimuth_axis]//2, format='csr')
+            id_m = sparse.identity(shape[azimuth_index]//2, format='csr')
             mul_1j = np.array([[0, -1], [1, 0]])
             factors[azimuth_index] = sparse.kron(id_m, mul_1j)
         return reduce(sparse.kron, factors, 1).tocsr()
-- 
2.43.0


From 125037f136ac96f545de5aac79fb490b69259426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 40/44] fix: dot product accepted an index equal to the rank

---
 dedalus/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 235ee00..e529e8f 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -633,7 +633,7 @@ class DotProduct(Product, FutureField):
         arg1_rank = len(arg1.tensorsig)
         indices = list(indices)
         for i,(index,rank) in enumerate(zip(indices,(arg0_rank,arg1_rank))):
-            if index > rank or index < -rank:
+            if index >= rank or index < -rank:
                 raise ValueError("index %i out of range for field with rank %i" %(index,rank))
             if index < 0:
                 index += rank
-- 
2.43.0


From 162a71a4105b6e691d6393aa450a1b93b4d34f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 41/44] fix: polar coordinates have a separate m=0 group

---
 dedalus/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/coords.py b/dedalus/core/coords.py
index 1e3818f..44a289e 100644
--- a/dedalus/core/coords.py
+++ b/dedalus/core/coords.py
@@ -261,7 +261,7 @@ class PolarCoordinates(SeparableIntertwiners, CurvilinearCoordinateSystem):
 
     spin_ordering = (-1, +1)
     dim = 2
-    default_nonconst_groups = (0, 0)
+    default_nonconst_groups = (1, 0) # m=0 has different validity
 
     def __init__(self, azimuth, radius):
         self.names = (azimuth, radius)
-- 
2.43.0


From 1621d3f885c2e755dcd80093e0dfef9c5627e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 42/44] fix: L2 norm of rank-2 tensors used names that do not
 exist

---
 dedalus/core/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index c385807..dcca8cc 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -856,7 +856,7 @@ class Field(Current):
         elif rank == 1:
             self_inner_product = arithmetic.dot(np.conj(self), self)
         elif rank == 2:
-            self_inner_product = arithmetic.Trace(arithmetic.Dot(operators.Transpose(np.conj(self)), self))
+            self_inner_product = operators.Trace(arithmetic.DotProduct(operators.TransposeComponents(np.conj(self)), self))
         else:
             raise ValueError("Norms only implemented up to rank-2 tensors.")
         # Compute L2 norm
-- 
2.43.0


From f43a1cf0566d550e9d1b0cc6d0d7d22174fe697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 43/44] fix: low_pass_filter to a grid shape kept one mode pair
 too many when the ratio rounds up

---
 dedalus/core/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index dcca8cc..f0edd65 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -964,8 +964,11 @@ class Field(Current):
         if shape is not None:
             if scales is not None:
                 raise ValueError("Specify either shape or scales.")
-            global_shape = self.dist.grid_layout.global_shape(self.domain, scales=1)
-            scales = np.array(shape) / global_shape
+            shape = np.array(shape)
+            global_shape = np.array(self.dist.grid_layout.global_shape(self.domain, scales=1))
+            scales = shape / global_shape
+            # Round down scales that overshoot the shape
+            scales = np.where(scales*global_shape > shape, np.nextafter(scales, 0), scales)
         # Low-pass filter by changing scales
         self.change_scales(scales)
         self.require_grid_space()
-- 
2.43.0


From 21eb42c8af589964025022941f0706e87d4ed7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 44/44] fix: CFL spacing of Chebyshev axes outside the first
 coordinate system

---
 dedalus/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 4fb7b59..1400e04 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6097,7 +6097,7 @@ class CartesianAdvectiveCFL(operators.AdvectiveCFL):
                 N = basis.grid_shape((dealias,))[0]
             if isinstance(basis, Jacobi) and basis.a == -1/2 and basis.b == -1/2:
                 #Special case for ChebyshevT (a=b=-1/2)
-                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[i]
+                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[self.dist.get_axis(c)]
                 i = np.arange(N)[local_elements].reshape(axis_spacing.shape)
                 theta = np.pi * (i + 1/2) / N
                 axis_spacing[:] = dealias * basis.COV.stretch * np.sin(theta) * np.pi / N
-- 
2.43.0

