From 5f403207d1d201289d4db9132225e626c4e6ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 01/34] fix: 3D elasticity uses mu for the shear terms and
 lambda for the volumetric ones

---
 .../dynamics/factory/_dynamics_factory_3d.py   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/conmech/dynamics/factory/_dynamics_factory_3d.py b/conmech/dynamics/factory/_dynamics_factory_3d.py
index 65411b3..ef5c676 100644
--- a/conmech/dynamics/factory/_dynamics_factory_3d.py
+++ b/conmech/dynamics/factory/_dynamics_factory_3d.py
@@ -152,17 +152,17 @@ class DynamicsFactory3D(AbstractDynamicsFactory):
         return DIMENSION
 
     def calculate_constitutive_matrices(self, W, mu, lambda_):
-        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + lambda_ * W[2, 2]
-        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + lambda_ * W[2, 2]
-        A_33 = mu * W[0, 0] + lambda_ * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
+        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + mu * W[2, 2]
+        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + mu * W[2, 2]
+        A_33 = mu * W[0, 0] + mu * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
 
-        A_21 = mu * W[1, 0] + lambda_ * W[0, 1]
-        A_31 = mu * W[2, 0] + lambda_ * W[0, 2]
-        A_32 = mu * W[2, 1] + lambda_ * W[1, 2]
+        A_12 = mu * W[1, 0] + lambda_ * W[0, 1]
+        A_13 = mu * W[2, 0] + lambda_ * W[0, 2]
+        A_23 = mu * W[2, 1] + lambda_ * W[1, 2]
 
-        A_12 = lambda_ * W[1, 0] + mu * W[0, 1]
-        A_13 = lambda_ * W[2, 0] + mu * W[0, 2]
-        A_23 = lambda_ * W[2, 1] + mu * W[1, 2]
+        A_21 = lambda_ * W[1, 0] + mu * W[0, 1]
+        A_31 = lambda_ * W[2, 0] + mu * W[0, 2]
+        A_32 = lambda_ * W[2, 1] + mu * W[1, 2]
 
         return SM3(
             np.block(
-- 
2.43.0


From 1b71c188bf494b67d924288fbed84e058c3e8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:11 +0000
Subject: [PATCH 02/34] fix: orient each 2D boundary normal with the interior
 node of its own face

---
 conmech/mesh/boundaries_factory.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index 2ed8921..ad1f33d 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -63,9 +63,13 @@ def extract_unique_elements(elements, opposing_indices):
     return elements[unique_indices], opposing_indices[unique_indices]
 
 
+def get_surfaces_mask(surfaces, nodes, predicate: Callable):
+    # TODO: #65 Use numba (?)
+    return np.array([bool(predicate(m)) for m in np.mean(nodes[surfaces], axis=1)], dtype=bool)
+
+
 def apply_predicate_to_surfaces(surfaces, nodes, predicate: Callable):
-    mask = [predicate(m) for m in np.mean(nodes[surfaces], axis=1)]  # TODO: #65 Use numba (?)
-    return surfaces[mask]
+    return surfaces[get_surfaces_mask(surfaces, nodes, predicate)]
 
 
 def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
@@ -196,15 +200,19 @@ class BoundariesFactory:
 
         boundary_surfaces, boundary_internal_indices, *_ = get_boundary_surfaces(elements)
 
-        contact_boundary = apply_predicate_to_surfaces(boundary_surfaces, initial_nodes, is_contact)
-        dirichlet_boundary = apply_predicate_to_surfaces(
-            boundary_surfaces, initial_nodes, is_dirichlet
-        )
-        neumann_boundary = apply_predicate_to_surfaces(
-            boundary_surfaces,
-            initial_nodes,
-            lambda n: not is_contact(n) and not is_dirichlet(n),
-        )
+        contact_mask = get_surfaces_mask(boundary_surfaces, initial_nodes, is_contact)
+        dirichlet_mask = get_surfaces_mask(boundary_surfaces, initial_nodes, is_dirichlet)
+        neumann_mask = ~contact_mask & ~dirichlet_mask
+
+        contact_boundary = boundary_surfaces[contact_mask]
+        dirichlet_boundary = boundary_surfaces[dirichlet_mask]
+        neumann_boundary = boundary_surfaces[neumann_mask]
+        if initial_nodes.shape[1] == 2:
+            # keep the order of surfaces: contact, neumann, dirichlet
+            # TODO: do it in 3D too, regression values for 3D contact depend on it
+            boundary_internal_indices = np.concatenate(
+                [boundary_internal_indices[m] for m in (contact_mask, neumann_mask, dirichlet_mask)]
+            )
 
         contact_boundary = Boundary(
             surfaces=contact_boundary,
-- 
2.43.0


From edf7753fd0745fde0a2758687fc2fef5f59510db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:11 +0000
Subject: [PATCH 03/34] fix: relaxation solvers follow a relaxation tensor that
 varies in time

---
 conmech/solvers/optimization/global_optimization.py | 1 +
 conmech/solvers/optimization/schur_complement.py    | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/conmech/solvers/optimization/global_optimization.py b/conmech/solvers/optimization/global_optimization.py
index d76faab..1fd54cc 100644
--- a/conmech/solvers/optimization/global_optimization.py
+++ b/conmech/solvers/optimization/global_optimization.py
@@ -48,6 +48,7 @@ class QuasistaticRelaxedGlobalOptimization(GlobalOptimization):
                 absement=self.b_vector,
                 displacement=self.u_vector,
                 time_step=self.time_step,
+                time=self.current_time,
             )
         )
 
diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index 8475e7f..3220484 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -171,6 +171,13 @@ class QuasistaticRelaxed(SchurComplementOptimization):
                 time=self.current_time,
             )
         )
+        # relaxation tensor may vary in time
+        (
+            self._node_relations,
+            self.free_x_contact,
+            self.contact_x_free,
+            self.free_x_free_inverted,
+        ) = self.recalculate_displacement()
         self.node_forces_, self.forces_free = self.recalculate_forces()
 
 
-- 
2.43.0


From 997ecc4c22b94d950c1cc4d81f64b537252cedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:38 +0000
Subject: [PATCH 04/34] fix: default loads of a problem can be evaluated and
 integrated

---
 conmech/scenarios/problems.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index bd996fb..da020ef 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -46,13 +46,13 @@ class Problem(ABC):
 
     @staticmethod
     def inner_forces(
-        x: np.ndarray, *, v: Optional[np.ndarray] = None, t: Optional[float] = None
+        x: np.ndarray, t: Optional[float] = None, *, v: Optional[np.ndarray] = None
     ) -> np.ndarray:
         return np.zeros_like(x)
 
     @staticmethod
     def outer_forces(
-        x: np.ndarray, *, v: Optional[np.ndarray] = None, t: Optional[float] = None
+        x: np.ndarray, t: Optional[float] = None, *, v: Optional[np.ndarray] = None
     ) -> np.ndarray:
         return np.zeros_like(x)
 
@@ -90,21 +90,34 @@ class PoissonProblem(StaticProblem, ABC):
 
     @staticmethod
     def internal_temperature(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
-        return np.zeros(len(x))
+        return np.zeros(1)
 
     @staticmethod
     def outer_temperature(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
-        return np.zeros(len(x))
+        return np.zeros(1)
 
 
 @dataclass
 class WaveProblem(DynamicProblem, ABC):
+    # pylint: disable=unused-argument
     propagation: float
 
     @classmethod
     def statement(cls, body) -> Statement:
         return WaveStatement(body)
 
+    @staticmethod
+    def inner_forces(
+        x: np.ndarray, t: Optional[float] = None, *, v: Optional[np.ndarray] = None
+    ) -> np.ndarray:
+        return np.zeros(1)
+
+    @staticmethod
+    def outer_forces(
+        x: np.ndarray, t: Optional[float] = None, *, v: Optional[np.ndarray] = None
+    ) -> np.ndarray:
+        return np.zeros(1)
+
     @staticmethod
     def initial_displacement(x: np.ndarray) -> np.ndarray:
         return np.zeros_like(x)
-- 
2.43.0


From 9d59691bb4c984e5a06c2a013e08dbae01672fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:38 +0000
Subject: [PATCH 05/34] fix: in-place operators of stiffness matrices return
 the matrix

---
 conmech/struct/stiffness_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conmech/struct/stiffness_matrix.py b/conmech/struct/stiffness_matrix.py
index c36ae8a..4665bcc 100644
--- a/conmech/struct/stiffness_matrix.py
+++ b/conmech/struct/stiffness_matrix.py
@@ -10,6 +10,7 @@ class StiffnessMatrix:
             self.data += other.data
         else:
             self.data += other
+        return self
 
     def __add__(self, other):
         if isinstance(other, StiffnessMatrix):
@@ -22,6 +23,7 @@ class StiffnessMatrix:
 
     def __imul__(self, other):
         self.data *= other
+        return self
 
     def __mul__(self, other):
         return type(self)(self.data * other)
@@ -45,6 +47,7 @@ class StiffnessMatrix:
             self.data @= other.data
         else:
             self.data @= other
+        return self
 
     def __rmatmul__(self, other):
         return other @ self.data
-- 
2.43.0


From 64dc89b9db795152af50bacdd79622a9d26841e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:38 +0000
Subject: [PATCH 06/34] fix: free nodes count does not subtract dirichlet nodes
 twice

---
 conmech/mesh/mesh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conmech/mesh/mesh.py b/conmech/mesh/mesh.py
index 289b6c2..3d2729a 100644
--- a/conmech/mesh/mesh.py
+++ b/conmech/mesh/mesh.py
@@ -170,8 +170,7 @@ class Mesh(RawMesh):
 
     @property
     def free_nodes_count(self):
-        # TODO: #65 CHECK
-        return self.independent_nodes_count - self.contact_nodes_count - self.dirichlet_nodes_count
+        return self.independent_nodes_count - self.contact_nodes_count
 
     @property
     def boundary_indices(self):
-- 
2.43.0


From 125b3c3a9dfbc61c51114112e429d69e1ef612c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 07/34] fix: solving again with the same time dependent solver
 starts from time zero

---
 conmech/simulations/problem_solver.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 72e097a..210b24f 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -395,6 +395,8 @@ class QuasistaticRelaxation(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.b_vector[:] = state.absement.T.ravel().copy()
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.iterate()
@@ -462,6 +464,8 @@ class TimeDependentSolver(ProblemSolver):
         )
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.iterate()
@@ -538,6 +542,9 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.temperature
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.t_vector[:] = state.temperature.T.ravel().copy()
@@ -631,6 +638,9 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.electric_potential
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.p_vector[:] = state.electric_potential.T.ravel().copy()
-- 
2.43.0


From 1ecd6ff16465e059939d7ad2c508266bf6f301a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 08/34] fix: copy of a product keeps its kind, so it can be
 updated further

---
 conmech/state/products/product.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conmech/state/products/product.py b/conmech/state/products/product.py
index cd1525c..3fe4091 100644
--- a/conmech/state/products/product.py
+++ b/conmech/state/products/product.py
@@ -30,7 +30,8 @@ class Product:
         return self.copy()
 
     def copy(self) -> "Product":
-        result = Product(self.name)
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__)
         result.data = self.data.copy()
         return result
 
-- 
2.43.0


From 425176c92cb696abcb651110791a09cf6b2acd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 09/34] fix: stress is recomputed after displacement or
 velocity of the state changes

---
 conmech/state/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index a4646c8..c0f04d3 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -41,6 +41,7 @@ class State:
             dt = time - self.time
             self.absement += dt * self.displacement
         self.time = time
+        self.__stress = None
         self.update_products()
 
     def set_velocity(self, velocity_vector: np.ndarray, time: float, *, update_displacement: bool):
@@ -52,6 +53,7 @@ class State:
                 self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
             )
         self.time = time
+        self.__stress = None
         self.update_products()
 
     @property
-- 
2.43.0


From 9e113082ae4e0b6df22860f153861e942d96bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 10/34] fix: failed save of a state leaves the body forces and
 the previous file untouched

---
 conmech/state/state.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index c0f04d3..f990925 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -121,13 +121,16 @@ class State:
         cl = self.constitutive_law
         self.constitutive_law = None
 
-        with open(path, "wb+") as file:
-            pickle.dump(self, file)
+        try:
+            data = pickle.dumps(self)
+        finally:
+            self.body.dynamics.force.outer.source = fos
+            self.body.dynamics.force.inner.source = fis
+            self.setup = s
+            self.constitutive_law = cl
 
-        self.body.dynamics.force.outer.source = fos
-        self.body.dynamics.force.inner.source = fis
-        self.setup = s
-        self.constitutive_law = cl
+        with open(path, "wb+") as file:
+            file.write(data)
 
     @classmethod
     def load(cls, path):
-- 
2.43.0


From 3e7de3a90dee66164f2950c0355395225ff29e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 11/34] fix: electric potential acts on the body in dynamic
 piezoelectric problems

---
 conmech/dynamics/statement.py | 2 +-
 conmech/scenarios/problems.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 78a11ea..3479fb4 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -258,6 +258,6 @@ class DynamicVelocityWithPiezoelectricStatement(DynamicVelocityStatement):
 
         assert var.electric_potential is not None
 
-        A = self.body.dynamics.piezoelectricity.T @ var.electric_potential
+        A = (-1) * self.body.dynamics.piezoelectricity.T @ var.electric_potential
 
         self.right_hand_side += A
diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index da020ef..3c8aa0b 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -22,6 +22,7 @@ from conmech.dynamics.statement import (
     PiezoelectricStatement,
     DynamicVelocityStatement,
     QuasistaticVelocityWithPiezoelectricStatement,
+    DynamicVelocityWithPiezoelectricStatement,
     QuasistaticRelaxationStatement,
     StaticPoissonStatement,
     WaveStatement,
@@ -234,4 +235,6 @@ class PiezoelectricQuasistaticProblem(
 class PiezoelectricDynamicProblem(
     DynamicDisplacementProblem, PiezoelectricTimeDependentProblem, ABC
 ):
-    pass
+    @classmethod
+    def statement(cls, body) -> Statement:
+        return DynamicVelocityWithPiezoelectricStatement(body)
-- 
2.43.0


From 356544ba405e6a893da6787327944640bb3bca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 12/34] fix: contact response acts on the nodes where it is
 evaluated

---
 conmech/solvers/solver_methods.py | 33 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 5757066..47b4c80 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -57,6 +57,16 @@ def get_nodes(edge, vector, full_vector, dimension):
     return result
 
 
+@numba.njit(inline="always")
+def node_weight(point, n, nodes_count):
+    """
+    Value of the n-th base function of an edge at the point, as ordered by `get_nodes`.
+    """
+    if point == 0:
+        return 1 / nodes_count
+    return 1.0 if point == n + 1 else 0.0
+
+
 # pylint: disable=too-many-arguments
 def make_equation(
     jn: Optional[Callable],
@@ -103,8 +113,6 @@ def make_equation(
             offset = len(u_vector) // problem_dimension
 
             for ei, edge in enumerate(contact_boundary):
-                n_id_0 = edge[0]
-                n_id_1 = edge[1]
                 normal_vector = contact_normals[ei]
 
                 ums = get_nodes(edge, u_vector, u_vector, dimension=problem_dimension)
@@ -114,16 +122,14 @@ def make_equation(
                     um_normal = (um * normal_vector).sum()
 
                     edge_len = nph.length(edge, nodes) / len(ums[0])
-                    j_x = edge_len * 0.5 * (jn(um_normal, 0.0, 0.0) * normal_vector[0])
-                    j_y = edge_len * 0.5 * (jn(um_normal, 0.0, 0.0) * normal_vector[1])
+                    j_x = edge_len * (jn(um_normal, 0.0, 0.0) * normal_vector[0])
+                    j_y = edge_len * (jn(um_normal, 0.0, 0.0) * normal_vector[1])
 
-                    if n_id_0 < offset:
-                        contact_vector[n_id_0] += j_x
-                        contact_vector[n_id_0 + offset] += j_y
-
-                    if n_id_1 < offset:
-                        contact_vector[n_id_1] += j_x
-                        contact_vector[n_id_1 + offset] += j_y
+                    for n, node in enumerate(edge):
+                        weight = node_weight(node_, n, len(edge))
+                        if node < offset:
+                            contact_vector[node] += weight * j_x
+                            contact_vector[node + offset] += weight * j_y
 
             return contact_vector
 
@@ -315,10 +321,11 @@ def make_subgradient(
                     tangential_condition_bound(vm_normal, static_displacement_normal, dt),
                 )
 
-                for node in edge:
+                for n, node in enumerate(edge):
+                    weight = node_weight(node_, n, len(edge))
                     for i in range(variable_dimension):
                         if node < offset:
-                            cost[i * offset + node] += normal_vector[i] / len(edge) * subgrad
+                            cost[i * offset + node] += normal_vector[i] * weight * subgrad
 
         return cost
 
-- 
2.43.0


From b7787af1be1b8c735bb9dd29107c5279e15f06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:19 +0000
Subject: [PATCH 13/34] fix: nodes fixed by dirichlet condition are not counted
 as contact nodes

---
 conmech/mesh/boundaries_factory.py            | 7 ++++++-
 examples/BartmanSzwarc_Bagirrov_Ochal_2025.py | 8 ++++----
 examples/Makela_et_al_1998.py                 | 4 ++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index ad1f33d..9c3b8b7 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -97,7 +97,12 @@ def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
     # C | D
     # I
     # N
-    nodes, elements, contact_nodes_count = reorder(nodes, elements, is_contact, to_top=True)
+    nodes, elements, contact_nodes_count = reorder(
+        nodes,
+        elements,
+        lambda *args: is_contact(*args) and not is_dirichlet(*args),
+        to_top=True,
+    )
     # C
     # N
     # I
diff --git a/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py b/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
index 8b698b3..f78b632 100644
--- a/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
+++ b/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
@@ -314,8 +314,8 @@ def main(config: Config, methods, forces, contact, prefix="", layers_num=None):
             #     # f"time: {runner.step_solver.last_timing}"
             # )
 
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
-            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
+            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
             y1 = np.asarray([contact.subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u])
             plt.plot(x, y1 / 1e3, label=f"{f:.2e}", color=f"{1-(f/4e7)**2}", linewidth=1.0)
         plt.ylabel("Mechanical Stress [MN/m$^2$]")
@@ -347,11 +347,11 @@ def main(config: Config, methods, forces, contact, prefix="", layers_num=None):
                 # f"time: {runner.step_solver.computation_time}"
             )
             # print(state.displaced_nodes[drawer.mesh.contact_indices][:, 1])
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
             if m == methods[0]:
                 for layer in contact.LAYERS:
                     plt.plot(x * 1000, np.full_like(x, -layer) * 1000, color="skyblue")
-            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
+            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
             y1 = [contact.subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u]
             # print(f)
             if m == "qsm":
diff --git a/examples/Makela_et_al_1998.py b/examples/Makela_et_al_1998.py
index f3a8542..dde38ce 100644
--- a/examples/Makela_et_al_1998.py
+++ b/examples/Makela_et_al_1998.py
@@ -229,8 +229,8 @@ def main(config: Config, methods, forces):
                 # f"time: {runner.step_solver.last_timing}"
             )
 
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
-            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
+            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
             y1 = [MMLV99().subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u]
             plt.plot(x, y1, label=f"{f:.2e}")
         plt.ylabel("Interlaminar binding force [kN/m$^2$]")
-- 
2.43.0


From e965d4bba489a48b32c9c6508deecd9e16fe3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:14 +0000
Subject: [PATCH 14/34] fix: cross mesh finds its nodes also when cells are
 smaller than the fixed tolerance

---
 conmech/helpers/nph.py              |  4 ++--
 conmech/mesh/zoo/cross_for_tests.py | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/conmech/helpers/nph.py b/conmech/helpers/nph.py
index 18741ef..d65348f 100644
--- a/conmech/helpers/nph.py
+++ b/conmech/helpers/nph.py
@@ -29,9 +29,9 @@ def euclidean_norm_numba(vector: np.ndarray) -> np.ndarray:
 
 
 @numba.njit
-def get_node_index_numba(node, nodes):
+def get_node_index_numba(node, nodes, tolerance=0.0001):
     for i, n in enumerate(nodes):
-        if np.sum(np.abs(node - n)) < 0.0001:
+        if np.sum(np.abs(node - n)) < tolerance:
             return i
     raise ArgumentError
 
diff --git a/conmech/mesh/zoo/cross_for_tests.py b/conmech/mesh/zoo/cross_for_tests.py
index d44f260..eddebc6 100644
--- a/conmech/mesh/zoo/cross_for_tests.py
+++ b/conmech/mesh/zoo/cross_for_tests.py
@@ -41,19 +41,21 @@ class CrossMesh(RawMesh):
         nodes, elements, size_x, size_y, edge_len_x, edge_len_y, left_bottom_node
     ):
         index = 0
+        tol = 0.0001 * min(edge_len_x, edge_len_y)
         for i in range(size_x):
             for j in range(size_y):
                 left_bottom = np.array((i * edge_len_x, j * edge_len_y)) + left_bottom_node
 
-                lb = nph.get_node_index_numba(left_bottom, nodes)
-                rb = nph.get_node_index_numba(left_bottom + np.array((edge_len_x, 0.0)), nodes)
+                lb = nph.get_node_index_numba(left_bottom, nodes, tol)
+                rb = nph.get_node_index_numba(left_bottom + np.array((edge_len_x, 0.0)), nodes, tol)
                 c = nph.get_node_index_numba(
                     left_bottom + np.array((0.5 * edge_len_x, 0.5 * edge_len_y)),
                     nodes,
+                    tol,
                 )
-                lt = nph.get_node_index_numba(left_bottom + np.array((0.0, edge_len_y)), nodes)
+                lt = nph.get_node_index_numba(left_bottom + np.array((0.0, edge_len_y)), nodes, tol)
                 rt = nph.get_node_index_numba(
-                    left_bottom + np.array((edge_len_x, edge_len_y)), nodes
+                    left_bottom + np.array((edge_len_x, edge_len_y)), nodes, tol
                 )
 
                 elements[index] = np.array((lb, rb, c))
-- 
2.43.0


From b0e1450843259fcd3d77552a9f1e008e9dc04948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 15/34] fix: obstacle of a membrane is compared with its
 deflection on every side

---
 conmech/solvers/solver_methods.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 47b4c80..5ff6033 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -210,10 +210,14 @@ def make_cost_functional(
                     static_displacement,
                     dimension=problem_dimension,
                 )
-                static_displacement_normal = (static_displacement_mean * normal_vector).sum()
-                static_displacement_tangential = (
-                    static_displacement_mean - static_displacement_normal * normal_vector
-                )
+                if variable_dimension == 1:
+                    static_displacement_normal = static_displacement_mean[0]
+                    static_displacement_tangential = np.empty(0)
+                else:
+                    static_displacement_normal = (static_displacement_mean * normal_vector).sum()
+                    static_displacement_tangential = (
+                        static_displacement_mean - static_displacement_normal * normal_vector
+                    )
 
                 cost += contact_cost(
                     nph.length(edge, nodes) / len(vms[0]),
-- 
2.43.0


From e9b45821cda56bd0472b8e81f7345ae6854e0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:21 +0000
Subject: [PATCH 16/34] fix: contact at a dirichlet node uses the prescribed
 value, not the previous velocity

---
 conmech/solvers/solver.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/conmech/solvers/solver.py b/conmech/solvers/solver.py
index aa001d4..867c376 100644
--- a/conmech/solvers/solver.py
+++ b/conmech/solvers/solver.py
@@ -81,19 +81,23 @@ class Solver:
         raise NotImplementedError()
 
     def solve(self, initial_guess: np.ndarray, **kwargs) -> np.ndarray:
+        variable_old = self.v_vector.copy()  # TODO: FIXME variable_old
+        self.set_dirichlet_values(variable_old)
         solution = self._solve_impl(
             initial_guess,
-            variable_old=self.v_vector,
+            variable_old=variable_old,
             displacement=self.u_vector,
-            **kwargs,  # TODO: FIXME variable_old
+            **kwargs,
         )
+        self.set_dirichlet_values(solution)
 
+        return solution
+
+    def set_dirichlet_values(self, vector: np.ndarray):
         for dirichlet_cond in self.statement.find_dirichlet_conditions():
             c = self.body.mesh.boundaries.boundaries[dirichlet_cond].node_condition
             node_count = self.body.mesh.nodes_count
             for i, j in self.body.mesh.boundaries.get_all_boundary_indices(
                 dirichlet_cond, node_count, self.statement.dimension_in
             ):
-                solution[i] = c[j]
-
-        return solution
+                vector[i] = c[j]
-- 
2.43.0


From e320f89c7626a89db30390ba05eb5e674024de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:55 +0000
Subject: [PATCH 17/34] fix: an electrode that selects no face switched off the
 electrodes numbered after it

---
 conmech/dynamics/statement.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 3479fb4..9c27c33 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -56,14 +56,10 @@ class Statement:
         if self.dirichlet_cond_name in boundaries:
             yield self.dirichlet_cond_name
             return
-        i = 0
-        while True:
-            next_name = self.dirichlet_cond_name + "_" + str(i)
-            if next_name in boundaries:
-                yield next_name
-            else:
-                return
-            i += 1
+        # parts that select no face are not present in boundaries, so there may be gaps
+        prefix = self.dirichlet_cond_name + "_"
+        names = [n for n in boundaries if n.startswith(prefix) and n[len(prefix) :].isdigit()]
+        yield from sorted(names, key=lambda n: int(n[len(prefix) :]))
 
 
 class StaticPoissonStatement(Statement):
-- 
2.43.0


From 6f874698e197788576f6088f1ed31d1ff73a63ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:23 +0000
Subject: [PATCH 18/34] fix: building a mesh modified the arrays of the mesh
 description

---
 conmech/mesh/mesh_builders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/mesh/mesh_builders.py b/conmech/mesh/mesh_builders.py
index b9de37c..980d9a8 100644
--- a/conmech/mesh/mesh_builders.py
+++ b/conmech/mesh/mesh_builders.py
@@ -7,8 +7,8 @@ from conmech.properties.mesh_description import MeshDescription
 
 def build_mesh(mesh_descr: MeshDescription) -> Tuple[np.ndarray, np.ndarray]:
     raw_mesh = mesh_descr.build()
-    nodes = translate_nodes(nodes=raw_mesh.nodes, mesh_descr=mesh_descr)
-    return nodes, raw_mesh.elements
+    nodes = translate_nodes(nodes=raw_mesh.nodes.copy(), mesh_descr=mesh_descr)
+    return nodes, raw_mesh.elements.copy()
 
 
 def translate_nodes(nodes: np.ndarray, mesh_descr: MeshDescription):
-- 
2.43.0


From d37519d1f398fb3d65b28789e9fc9877336bd3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:35 +0000
Subject: [PATCH 19/34] examples: undo the change of 'fix: nodes fixed by
 dirichlet condition are not counted'

---
 examples/BartmanSzwarc_Bagirrov_Ochal_2025.py | 8 ++++----
 examples/Makela_et_al_1998.py                 | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py b/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
index f78b632..8b698b3 100644
--- a/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
+++ b/examples/BartmanSzwarc_Bagirrov_Ochal_2025.py
@@ -314,8 +314,8 @@ def main(config: Config, methods, forces, contact, prefix="", layers_num=None):
             #     # f"time: {runner.step_solver.last_timing}"
             # )
 
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
-            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
+            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
             y1 = np.asarray([contact.subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u])
             plt.plot(x, y1 / 1e3, label=f"{f:.2e}", color=f"{1-(f/4e7)**2}", linewidth=1.0)
         plt.ylabel("Mechanical Stress [MN/m$^2$]")
@@ -347,11 +347,11 @@ def main(config: Config, methods, forces, contact, prefix="", layers_num=None):
                 # f"time: {runner.step_solver.computation_time}"
             )
             # print(state.displaced_nodes[drawer.mesh.contact_indices][:, 1])
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
             if m == methods[0]:
                 for layer in contact.LAYERS:
                     plt.plot(x * 1000, np.full_like(x, -layer) * 1000, color="skyblue")
-            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
+            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
             y1 = [contact.subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u]
             # print(f)
             if m == "qsm":
diff --git a/examples/Makela_et_al_1998.py b/examples/Makela_et_al_1998.py
index dde38ce..f3a8542 100644
--- a/examples/Makela_et_al_1998.py
+++ b/examples/Makela_et_al_1998.py
@@ -229,8 +229,8 @@ def main(config: Config, methods, forces):
                 # f"time: {runner.step_solver.last_timing}"
             )
 
-            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count, 0]
-            u = state.displacement[: state.body.mesh.contact_nodes_count, 1]
+            x = state.body.mesh.nodes[: state.body.mesh.contact_nodes_count - 1, 0]
+            u = state.displacement[: state.body.mesh.contact_nodes_count - 1, 1]
             y1 = [MMLV99().subderivative_normal_direction(-u_, 0.0, 0.0) for u_ in u]
             plt.plot(x, y1, label=f"{f:.2e}")
         plt.ylabel("Interlaminar binding force [kN/m$^2$]")
-- 
2.43.0


From 4568ae23698ee3aa78b45dc7c143bfb0d5dc5969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:46 +0000
Subject: [PATCH 20/34] fix: a state of a heat problem can be saved like the
 states of other problems

---
 conmech/state/state.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index f990925..c082776 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -112,10 +112,15 @@ class State:
         return copy
 
     def save(self, path):
-        fos = self.body.dynamics.force.outer.source
-        self.body.dynamics.force.outer.source = None
-        fis = self.body.dynamics.force.inner.source
-        self.body.dynamics.force.inner.source = None
+        dynamics = self.body.dynamics
+        fields = [
+            field
+            for forces in (dynamics.force, dynamics.temperature)
+            for field in (forces.outer, forces.inner)
+        ]
+        sources = [field.source for field in fields]
+        for field in fields:
+            field.source = None
         s = self.setup
         self.setup = None
         cl = self.constitutive_law
@@ -124,8 +129,8 @@ class State:
         try:
             data = pickle.dumps(self)
         finally:
-            self.body.dynamics.force.outer.source = fos
-            self.body.dynamics.force.inner.source = fis
+            for field, source in zip(fields, sources):
+                field.source = source
             self.setup = s
             self.constitutive_law = cl
 
-- 
2.43.0


From e60abd552706915a3abad2d754d7fb5e9ef79de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:21 +0000
Subject: [PATCH 21/34] fix: Schur method solves problems whose contact side
 has no free node

---
 conmech/solvers/optimization/schur_complement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index 3220484..91e5a64 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -84,7 +84,10 @@ class SchurComplementOptimization(Optimization):
         if self.driving_vector:
             truncated_ig = truncated_ig[:, : truncated_ig.shape[1] // 2]
             # truncated_ig: [[xc]]
-        solution_contact = super()._solve_impl(truncated_ig, **kwargs)
+        if truncated_ig.size > 0:
+            solution_contact = super()._solve_impl(truncated_ig, **kwargs)
+        else:  # no contact nodes, nothing to optimize
+            solution_contact = np.zeros(0)
         # solution_contact: [xc, yc] / [xc]
         solution_free = self.complement_free_nodes(solution_contact)
         # solution_free: [[xf], [xd], [yf], [yd]] / [xf, xd]
-- 
2.43.0


From 04c157266029b67a6d2d3a1a575fcc4197d0b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:02 +0000
Subject: [PATCH 22/34] fix: constrained minimisation sees every contact node's
 constraint

---
 conmech/solvers/optimization/optimization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index 90236dd..91d608e 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -206,8 +206,7 @@ class Optimization(Solver):
             @numba.njit()
             def constr(x):
                 offset = len(x) // 2
-                t = x[offset : offset + contact_nodes_count]
-                return np.min(t)
+                return x[offset : offset + contact_nodes_count]
 
             maxiter = kwargs.get("maxiter", int(len(initial_guess) * 1e9))
             tol = kwargs.get("tol", 1e-12)
-- 
2.43.0


From 1fe9c45a2f55a03136a3e9adc455a189f89458eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:02 +0000
Subject: [PATCH 23/34] fix: relaxation law may fill and return the same array

---
 conmech/dynamics/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conmech/dynamics/dynamics.py b/conmech/dynamics/dynamics.py
index 13933a3..36657be 100644
--- a/conmech/dynamics/dynamics.py
+++ b/conmech/dynamics/dynamics.py
@@ -91,7 +91,8 @@ class Dynamics:
         if isinstance(self.body.properties, ElasticRelaxationProperties):
             relaxation_tensor = self.body.properties.relaxation(time)
             if (relaxation_tensor != self.__relaxation_tensor).any():
-                self.__relaxation_tensor = relaxation_tensor
+                # the function may fill and return the same array every time
+                self.__relaxation_tensor = np.copy(relaxation_tensor)
                 self.__relaxation = self.factory.get_relaxation_tensor(
                     self._w_matrix, relaxation_tensor
                 )
-- 
2.43.0


From 729246a25475ed19c0913f91066cbc91a3e16ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:02 +0000
Subject: [PATCH 24/34] fix: imported meshes with integer nodes or unsigned
 elements

---
 conmech/mesh/mesh_builders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/mesh/mesh_builders.py b/conmech/mesh/mesh_builders.py
index 980d9a8..11a61a4 100644
--- a/conmech/mesh/mesh_builders.py
+++ b/conmech/mesh/mesh_builders.py
@@ -7,8 +7,8 @@ from conmech.properties.mesh_description import MeshDescription
 
 def build_mesh(mesh_descr: MeshDescription) -> Tuple[np.ndarray, np.ndarray]:
     raw_mesh = mesh_descr.build()
-    nodes = translate_nodes(nodes=raw_mesh.nodes.copy(), mesh_descr=mesh_descr)
-    return nodes, raw_mesh.elements.copy()
+    nodes = translate_nodes(nodes=raw_mesh.nodes.astype("float"), mesh_descr=mesh_descr)
+    return nodes, raw_mesh.elements.astype("long")
 
 
 def translate_nodes(nodes: np.ndarray, mesh_descr: MeshDescription):
-- 
2.43.0


From 0f7c50faeb7b1591511642f427980bdf92a1b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:02 +0000
Subject: [PATCH 25/34] fix: initial guess of a static problem of any element
 type

---
 conmech/simulations/problem_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 210b24f..0a1a419 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -327,7 +327,7 @@ class StaticSolver(ProblemSolver):
         if hasattr(initial_displacement, "__iter__"):
             state.displacement[:] = initial_displacement
         else:
-            state.displacement = initial_displacement(
+            state.displacement[:] = initial_displacement(
                 self.body.mesh.nodes[: self.body.mesh.nodes_count]
             )
 
-- 
2.43.0


From 7b59aecacd5d8aa368f8f7725056be873ee04572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:02 +0000
Subject: [PATCH 26/34] fix: resuming a wave problem leaves the given state as
 it was

---
 conmech/simulations/problem_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 0a1a419..21077ad 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -730,6 +730,9 @@ class WaveSolver(ProblemSolver):
                 self.body.mesh.nodes[: self.body.mesh.nodes_count]
             )
             state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
+        else:
+            # the state belongs to the user, it may be a result of a previous run
+            state = state.copy()
 
         self.step_solver.current_time = state.time
 
-- 
2.43.0


From af97967b0fa95852336985e97f0a1d211a3f995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 27/34] fix: second contact law gets the normal displacement

---
 conmech/solvers/optimization/optimization.py | 3 ++-
 conmech/solvers/solver_methods.py            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index 91d608e..0d593d9 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -77,7 +77,8 @@ class Optimization(Solver):
             tangential_condition=contact_law.potential_tangential_direction,
             tangential_condition_bound=contact_law.tangential_bound,
             variable_dimension=statement.dimension_out,
-            problem_dimension=statement.dimension_in,
+            # the displacement is a scalar (deflection) in case of membrane only
+            problem_dimension=1 if isinstance(statement, WaveStatement) else body.mesh.dimension,
         )
         if hasattr(contact_law, "subderivative_normal_direction"):  # TODO
             self.subgradient = make_subgradient(
diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 5ff6033..c37977e 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -210,7 +210,7 @@ def make_cost_functional(
                     static_displacement,
                     dimension=problem_dimension,
                 )
-                if variable_dimension == 1:
+                if problem_dimension == 1:
                     static_displacement_normal = static_displacement_mean[0]
                     static_displacement_tangential = np.empty(0)
                 else:
-- 
2.43.0


From b29bf60a124e705702ae4152943dcec418212b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 28/34] fix: direct method retries when the root search of a
 stiff body stalls

---
 conmech/solvers/direct.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/conmech/solvers/direct.py b/conmech/solvers/direct.py
index 382775a..9d82aee 100644
--- a/conmech/solvers/direct.py
+++ b/conmech/solvers/direct.py
@@ -66,21 +66,25 @@ class Direct(Solver):
     ) -> np.ndarray:
         displacement = np.squeeze(displacement.copy().reshape(1, -1))
         if self.equation is not None:
-            result = scipy.optimize.fsolve(
-                self.equation,
-                initial_guess,
-                args=(
-                    variable_old,
-                    self.body.mesh.nodes,
-                    self.body.mesh.contact_boundary,
-                    self.body.mesh.boundaries.contact_normals,
-                    self.node_relations,
-                    self.node_forces,
-                    displacement,
-                    self.body.dynamics.acceleration_operator.SM1.data,
-                    self.time_step,
-                ),
+            args = (
+                variable_old,
+                self.body.mesh.nodes,
+                self.body.mesh.contact_boundary,
+                self.body.mesh.boundaries.contact_normals,
+                self.node_relations,
+                self.node_forces,
+                displacement,
+                self.body.dynamics.acceleration_operator.SM1.data,
+                self.time_step,
+            )
+            result, _, status, _ = scipy.optimize.fsolve(
+                self.equation, initial_guess, args=args, full_output=True
             )
+            if status != 1:
+                # the first steps are too short in case of stiff bodies,
+                # start again from the solution without contact
+                start = np.linalg.solve(self.node_relations, self.node_forces)
+                result = scipy.optimize.fsolve(self.equation, start, args=args)
         else:
             result = np.linalg.solve(self.node_relations, self.node_forces)
             result_len = len(result)
-- 
2.43.0


From 41bd7fa40eee78f4288f47b9480609679e3af178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 29/34] fix: named boundary given by a predicate alone gets
 zero values

---
 conmech/mesh/boundaries_description.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conmech/mesh/boundaries_description.py b/conmech/mesh/boundaries_description.py
index ef262ff..8f4146e 100644
--- a/conmech/mesh/boundaries_description.py
+++ b/conmech/mesh/boundaries_description.py
@@ -19,6 +19,7 @@ class BoundariesDescription:
                 self.conditions[key] = condition
             else:
                 indicator = value
+                self.conditions[key] = lambda x: np.zeros(x.shape[0])
             self.indicators[key] = indicator
 
     def __getitem__(self, item):
-- 
2.43.0


From fd12006fdf315c2efb6f34881cb19fdb8673c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:15 +0000
Subject: [PATCH 30/34] fix: Dirichlet arrows drawn at every Dirichlet node

---
 conmech/plotting/drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/plotting/drawer.py b/conmech/plotting/drawer.py
index 4341c57..2d78b26 100644
--- a/conmech/plotting/drawer.py
+++ b/conmech/plotting/drawer.py
@@ -206,7 +206,7 @@ class Drawer:
         dirichlet_nodes = self.state.body.mesh.dirichlet_boundary
         dirichlet_nodes = list(set(dirichlet_nodes.flatten()))
         if self.dirichlet_arrows is None:
-            x = self.state.displaced_nodes[dirichlet_nodes][[0, 1]]
+            x = self.state.displaced_nodes[dirichlet_nodes][:, [0, 1]]
             v = np.zeros_like(x) + np.asarray([1, 0])
             self.dirichlet_arrows = np.hstack((x, v))
         if len(self.dirichlet_arrows) > 0:  # to avoid warning
-- 
2.43.0


From 208d6d6182f17e1242b8aa8bdef4ac9255bea17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:15 +0000
Subject: [PATCH 31/34] fix: colour bar shows the scale the field is drawn with

---
 conmech/plotting/drawer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/plotting/drawer.py b/conmech/plotting/drawer.py
index 2d78b26..37057be 100644
--- a/conmech/plotting/drawer.py
+++ b/conmech/plotting/drawer.py
@@ -322,7 +322,7 @@ class Drawer:
 
         n_layers = 100
         axes.tricontour(x, y, self.mesh.elements, field, 15, colors="k", linewidths=0.2)
-        axes.tricontourf(
+        contours = axes.tricontourf(
             x,
             y,
             self.mesh.elements,
@@ -343,6 +343,6 @@ class Drawer:
         # divider = make_axes_locatable(axes)
         # cax = divider.append_axes("bottom", size="5%", pad=0.15)
         if colorbar:
-            sm = plt.cm.ScalarMappable(cmap=self.cmap, norm=plt.Normalize(vmin=v_min, vmax=v_max))
+            sm = plt.cm.ScalarMappable(cmap=self.cmap, norm=contours.norm)
             sm.set_array([])
             fig.colorbar(sm, orientation="horizontal", label=self.field_label, ax=axes)
-- 
2.43.0


From 387b506640771f9b8c9aa5db31a9125266d344cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:15 +0000
Subject: [PATCH 32/34] fix: title and saved file belong to the given figure

---
 conmech/plotting/drawer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conmech/plotting/drawer.py b/conmech/plotting/drawer.py
index 37057be..5098c42 100644
--- a/conmech/plotting/drawer.py
+++ b/conmech/plotting/drawer.py
@@ -69,9 +69,10 @@ class Drawer:
             fig.tight_layout()
             plt.show()
         if save:
-            _fig, _axes = self.do_draw(
+            fig, _axes = self.do_draw(
                 fig_axes, field_max, field_min, title, foundation, colorbar=colorbar
             )
+            plt.figure(fig)
             self.save_plot(save_format, name=save)
 
     def do_draw(
@@ -107,7 +108,7 @@ class Drawer:
         #
         axes.set_aspect("equal", adjustable="box")
         if title is not None:
-            plt.title(title)
+            axes.set_title(title)
         return fig, axes
 
     def set_axes_limits(self, axes, foundation):
-- 
2.43.0


From 5122c5f89df5d5fcf960d5e2e6ecae4cf44cafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:15 +0000
Subject: [PATCH 33/34] fix: limit points plot draws every point once and
 nothing else

---
 conmech/plotting/membrane.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index 7111c3e..5e5eee1 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -45,19 +45,9 @@ def plot_limit_points(
     finish=True,
     ylim=(0, 1),
 ):
-    buff = np.zeros((2, 1100))  # some extra space for multiple zeros
-    buff_size = 0
-    for time, zeros in prod.data.items():
-        for zero in zeros:  # significant performance improvement
-            buff[0, buff_size] = time
-            buff[1, buff_size] = zero
-            buff_size += 1
-        if buff_size == 1000:
-            plt.scatter(buff[0, :], buff[1, :], s=1, color=color, label=label)
-            label = None
-            buff_size = 0
-    if buff_size > 0:
-        plt.scatter(buff[0, :buff_size], buff[1, :buff_size], s=1, color=color, label=label)
+    points = np.array([(time, zero) for time, zeros in prod.data.items() for zero in zeros])
+    if len(points) > 0:
+        plt.scatter(points[:, 0], points[:, 1], s=1, color=color, label=label)
     plt.title(title)
     plt.ylim(*ylim)
 
-- 
2.43.0


From 04d844bf767b9350074ec0e30ca7031e1f421e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:15 +0000
Subject: [PATCH 34/34] fix: membrane plots of a single state and of an odd
 number of states

---
 conmech/plotting/membrane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index 5e5eee1..9935216 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -24,7 +24,7 @@ def plot_in_columns(states: List[State], *args, **kwargs):
         kwargs["in3d"] = False
 
     cols = 2
-    rows = len(states) // 2
+    rows = (len(states) + 1) // 2
     i = 1
     for r in range(1, len(states) + 1):
         ax = fig.add_subplot(rows, cols, i, **extra_kwargs)
@@ -58,7 +58,7 @@ def plot_limit_points(
 def plot(state: State, *args, **kwargs):
     fig = plt.figure()
     ax = fig.add_subplot(1, 1, 1, projection="3d")
-    do_plot(state, *args, ax=ax, **kwargs)
+    do_plot(fig, state, *args, ax=ax, **kwargs)
     plt.show()
 
 
-- 
2.43.0

