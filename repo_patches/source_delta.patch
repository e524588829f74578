From 053a8105433c6e3b17b3ff9e1d4af7ecfbbbcb9e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 01/22] fix: project the step onto the unitary manifold when it
 is NOT unitary

unitary_error_check projected exactly the steps that passed the check and left
the non-unitary ones untouched.
---
 oranssi/opt_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a552551..79b3dd2 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -184,7 +184,7 @@ class LocalLieAlgebraLayer(LieLayer):
                         omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                         self.op = omega * pauli
                         U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                        if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                        if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                             U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                         circuit_unitary = U_riemann_approx @ circuit_unitary
                         self.op.fill(0)
@@ -194,7 +194,7 @@ class LocalLieAlgebraLayer(LieLayer):
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
                     self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -276,7 +276,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                     self.op = omega * pauli
                     U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
                     self.op.fill(0)
@@ -288,7 +288,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                 self.op = sum(
                     omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                 circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -358,7 +358,7 @@ class StochasticLieAlgebraLayer(LieLayer):
             pauli = self.lastate.full_paulis[(self.current_direction, *self.current_qubits)]
             omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
             U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * omega * pauli)
-            if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+            if (self.unitary_error_check) and not (self._is_unitary(U_riemann_approx)):
                 U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
             circuit_unitary = U_riemann_approx @ circuit_unitary
 
-- 
2.43.0


From e2cbce1f5223fb2549141aeab8511976428b175b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 02/22] fix: get_lie_algebra_directions on layers that store
 dense observables

Local, custom-direction and stochastic layers keep the observables as matrices, so
get_lie_algebra_directions (and return_omegas=True) raised AttributeError.
---
 oranssi/opt_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 79b3dd2..fce64ae 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -32,6 +32,7 @@ class LieLayer(object):
         self.obs_qnode = qml.QNode(circuit_observable_from_unitary, device)
         self.su_state = None
         self.nqubits = nqubits
+        self.qml_observables = observables
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
 
@@ -96,7 +97,7 @@ class LieLayer(object):
         Returns:
             Dictionary containing the directions and corresponding SU(2^N) directions.
         """
-        return get_all_su_n_directions(circuit_unitary, self.observables, self.device)
+        return get_all_su_n_directions(circuit_unitary, self.qml_observables, self.device)
 
 
 class LocalLieAlgebraLayer(LieLayer):
-- 
2.43.0


From df7f7ef9d92ee9ccbc8b616c2a556088b09c5617 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 03/22] fix: CustomDirectionLieAlgebraLayer with
 directions=None

The direction keys were zipped with themselves, so the layer multiplied tuples
instead of Pauli matrices.
---
 oranssi/opt_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index fce64ae..02c71a6 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -239,14 +239,14 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
         self.lastate = AlgebraSU4(self.nqubits, add_su2=True)
         self.lastate.get_all_directions_and_qubits()
         self.directions =list(self.lastate.full_paulis.keys())
-        self.paulis = self.lastate.full_paulis
+        self.paulis = list(self.lastate.full_paulis.values())
         if directions is not None:
             assert all(d in self.lastate.directions for d in directions), \
                 f'Supplied Lie algebra directions are invalid, ' \
                 f'expected {self.lastate.directions}, received {directions}'
             new_directions = []
             new_paulis = []
-            for d, pauli in self.paulis.items():
+            for d, pauli in zip(self.directions, self.paulis):
                 print(d)
                 if d[0] in directions:
                     new_directions.append(d)
-- 
2.43.0


From bfb2ed16f5750fa9e094801f7367725bac31736d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 04/22] fix: rotosolve on two- and three-qubit directions

The closed form for the optimal angle assumes the rotation exp(-i eta/2 P). With the
generator scaled by 2**locality the returned angle is not optimal for locality > 1
and the cost could even increase.
---
 oranssi/opt_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 02c71a6..60c0e13 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1279,7 +1279,8 @@ def rotosolve(pauli, observables, obs_qnode, circuit_unitary, nqubits):
         observables: List of PennyLane observables
         obs_qnode: observable Qnode
         circuit_unitary: Matrix corresponding to the circuit unitary.
-        nqubits: number of qubits.
+        nqubits: number of qubits the pauli acts on. The rotation exp(-i eta/2 pauli) is the same
+        for every locality.
 
     Returns:
         Circuit unitary with optimal angle.
@@ -1290,17 +1291,17 @@ def rotosolve(pauli, observables, obs_qnode, circuit_unitary, nqubits):
             unitary=circuit_unitary,
             observable=o)
     H_p = 0.
-    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_p += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     H_m = 0.
-    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_m += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
-    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2)
     return U_riemann_approx @ circuit_unitary, eta
-- 
2.43.0


From eb7701a78cdb3f7fb0cc93cbca060ab455a57f2c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 05/22] fix: random SU(2)+SU(4) direction sampling

A stray raise at the top of AlgebraSU4.get_random_direction_and_qubits made
StochasticLieAlgebraLayer unusable.
---
 oranssi/opt_tools.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 60c0e13..1f4059d 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1158,7 +1158,6 @@ class AlgebraSU4():
         Returns:
 
         """
-        raise NotImplementedError
         idx = np.where(self.qubits_left == 0)[0].tolist()
         # allow SU(4) samples
         if not idx:
-- 
2.43.0


From b64822a2a094ff126a59f7e25e8a6409ad95eabe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 06/22] fix: get_commuting_set returned overlapping or reversed
 edges, or crashed

Two colors are not enough for graphs with a vertex of degree three or more
(IndexError/KeyError in the heuristic), on odd cycles the selected edges overlapped,
and edges came back in networkx orientation, e.g. (2, 1) for (1, 2).
---
 oranssi/circuit_tools.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index ee5dc75..c419d16 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -186,6 +186,13 @@ def get_commuting_set(edge_list):
         return edge_list
     else:
         g = nx.from_edgelist(edge_list)
-        applyHeuristic(g, 2, 50, 50)
-        edge_coloring = [e for e in g.edges() if g[e[0]][e[1]]['color'] == 0]
+        # the heuristic needs at least as many colors as the maximum degree
+        applyHeuristic(g, max(degree for _, degree in g.degree()), 50, 50)
+        # the coloring can fail, so skip edges that overlap with an edge that is already selected
+        edge_coloring = []
+        qubits_used = set()
+        for e in edge_list:
+            if g[e[0]][e[1]]['color'] == 0 and qubits_used.isdisjoint(e):
+                edge_coloring.append(e)
+                qubits_used.update(e)
         return edge_coloring
-- 
2.43.0


From a90f070a6ac36b714e35d24ba14bac97c8518310 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 07/22] fix: products and conjugates ignored the coefficient of
 a PauliMonomial

commutator, scalar_mul and simplify set the coefficient of the monomial, but products
were built from the site coefficients (so nested commutators lost factors), and conj
left the coefficient of the monomial unconjugated.
---
 oranssi/pauli.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e5d6ac7..b605af2 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -133,16 +133,20 @@ class PauliMonomial(object):
         sites_other_unique = set_other_locations - sites_in_common
         # Take the product of the common paulis and add them
         for i in sites_in_common:
-            new_monomial.append(self[self.locations.index(i)] * other[other.locations.index(i)])
+            p, q = self[self.locations.index(i)], other[other.locations.index(i)]
+            new_monomial.append(Pauli(p.alpha, p.gamma) * Pauli(q.alpha, q.gamma))
         # Create new Pauli objects for the unique locations so we don't get reference issues
         for j in sites_self_unique:
             p = self[self.locations.index(j)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         for k in sites_other_unique:
             p = other[other.locations.index(k)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         # creating a new PauliMonomial will automatically sort based on site
-        return PauliMonomial(new_monomial)
+        product = PauliMonomial(new_monomial)
+        # the coefficient of a monomial can differ from the product of its site coefficients
+        product.coeff = product.coeff * self.coeff * other.coeff
+        return product
 
     def __eq__(self, other):
         # monomials are equal of all paulis are equal. If they are not of equal length they cannot be compared and
@@ -218,6 +222,7 @@ class PauliMonomial(object):
         # conjugate all paulis in the monomial
         for p in self.monomial:
             p.conj()
+        self.coeff = np.conj(self.coeff)
         return self
 
     def commutes_with(self, operator):
-- 
2.43.0


From 4b69812d294250e59f13b98d19d113115dae8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 08/22] fix: PauliSum arithmetic modified its operands

Sums shared their monomials, so A + B changed A, A - B negated B and A - A was -2A.
---
 oranssi/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index b605af2..46cf595 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -264,7 +264,8 @@ class PauliSum(object):
             'All PauliMonomials must have the same length, found multiple different length: ' \
             f'{[len(ps) for ps in list_of_pauli_monomials]} ' \
             f'where the tuple indicates (location, number of occurences)'
-        self.pauli_sum = list_of_pauli_monomials
+        # simplify and scalar_mul change coefficients in place, so never share monomials
+        self.pauli_sum = copy.deepcopy(list_of_pauli_monomials)
         self.simplify()
 
     def __getitem__(self, item):
@@ -308,7 +309,7 @@ class PauliSum(object):
 
     def __sub__(self, other):
         # enable multiplication of monomials
-        other_pauli_sum = copy.copy(other)
+        other_pauli_sum = copy.deepcopy(other)
         other_pauli_sum.scalar_mul(-1)
         new_pauli_sum = copy.copy(self.pauli_sum) + other_pauli_sum.pauli_sum
         return PauliSum(new_pauli_sum)
-- 
2.43.0


From f68068cb264be61b98bac8adc8c432276562fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 09/22] fix: PauliMonomial ordering of real and complex
 coefficients

Both a < b and b < a were true, contrary to the documented "a real coefficient is
larger than a complex one".
---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 46cf595..e51b24f 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -180,7 +180,7 @@ class PauliMonomial(object):
             if (~np.isreal(self.coeff) & np.isreal(other.coeff)):
                 return True
             elif (np.isreal(self.coeff) & ~np.isreal(other.coeff)):
-                return True
+                return False
             # if the coefficients are in the same domain, we simply decide by sign.
             else:
                 # can now be either +-a + i0 < +-a' + i0 or 0 + +-ib < 0 + +-ib'
-- 
2.43.0


From 8c2f6c39522f69fe9b00892474e59ead44af6388 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 10/22] fix: state_to_spherical returned NaN near the south
 pole

Rounding can push the z coordinate outside [-1, 1].
---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 0e7c5e6..bf619b0 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -62,7 +62,7 @@ def state_to_spherical(rho):
     assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'
     paulis = get_su_2_operators()
     coeffs = [np.trace(rho @ paulis[i]).real for i in range(3)]
-    theta = np.arccos(coeffs[2])
+    theta = np.arccos(np.clip(coeffs[2], -1., 1.))
     phi = np.arctan2(coeffs[1], coeffs[0])
     phi %= (2 * np.pi)
     theta %= (2 * np.pi)
-- 
2.43.0


From ea436d41bd87e382dfc48373b7269f1836178e98 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 11/22] fix: plot_su16_directions_separate called
 get_all_su_n_directions with too many arguments

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index bf619b0..1e0c7d4 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -96,7 +96,7 @@ def change_label_fontsize(ax: plt.Axes, newsize: int):
 def plot_su16_directions_separate(nqubits:int, unitaries, observables, device):
     omegas = []
     for uni in unitaries:
-        omegas.append(get_all_su_n_directions(uni, observables, nqubits, device))
+        omegas.append(get_all_su_n_directions(uni, observables, device))
 
     fig, axs = plt.subplots(2, 2)
     fig.set_size_inches(16, 16)
-- 
2.43.0


From 6f24503c46891904f92991b58ed58d8cf1b61207 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 12/22] fix: AdaptVQELayer appended to the parameter list of
 the caller

---
 oranssi/opt_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 1f4059d..3e9d375 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -573,7 +573,7 @@ class AdaptVQELayer(LieLayer):
                             qml.PauliRot(params[j][idx], layer[0], wires=(i, i + 1))
                         qml.PauliRot(params[j][-1], layer[0], wires=(0, self.nqubits - 1))
 
-        params_ext.append([0.1 for _ in range(self.nqubits)])
+        params_ext = list(params_ext) + [[0.1 for _ in range(self.nqubits)]]
 
         costs, params_ext = ps_optimizer(circuit_vqe, params_ext, self.observables, self.dev,
                                          return_params=True, eta=0.01, tol=1e-5)
-- 
2.43.0


From 59a5b1e7c9ab1a2b682ee3c84c2661381bcbe79e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 13/22] fix: approximate_lie_optimizer with commute=True

The commuting mode of SquaredLieAlgebraLayer returns (unitary, gates); the tuple was used
as the circuit unitary and return_gates never returned any gates.
---
 oranssi/optimizers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index f5ab25b..1b5bc1e 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -7,7 +7,7 @@ import itertools as it
 
 from oranssi.circuit_tools import get_full_operator, get_ops_from_qnode, circuit_state_from_unitary, \
     circuit_observable_from_unitary, param_shift_comm
-from oranssi.opt_tools import AdaptVQELayer, LieLayer
+from oranssi.opt_tools import AdaptVQELayer, LieLayer, SquaredLieAlgebraLayer
 
 
 def parameter_shift_optimizer(circuit, params: List, observables: List, device: qml.Device,
@@ -344,6 +344,10 @@ def approximate_lie_optimizer(circuit, params: List, observables: List, device:
         if isinstance(layer, AdaptVQELayer):
             circuit_unitary, params = layer(circuit_unitary, optimizer=parameter_shift_optimizer,
                                             params=params, **kwargs)
+        elif isinstance(layer, SquaredLieAlgebraLayer) and kwargs.get('commute', False):
+            circuit_unitary, gate = layer(circuit_unitary, **{'optimizer': parameter_shift_optimizer,
+                                                              **kwargs})
+            gates.append(gate)
         else:
             circuit_unitary = layer(circuit_unitary, **kwargs)
 
-- 
2.43.0


From 06077d02fb3ee761c3f7e9c24f666e4180df66ab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 14/22] fix: validate return_params in
 parameter_shift_optimizer

---
 oranssi/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index 1b5bc1e..3fb04e6 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -49,7 +49,7 @@ def parameter_shift_optimizer(circuit, params: List, observables: List, device:
     assert (isinstance(return_state, bool)), \
         f'`return_state` must be a boolean, received {return_state}'
     return_params = kwargs.get('return_params', False)
-    assert (isinstance(return_state, bool)), \
+    assert (isinstance(return_params, bool)), \
         f'`return_params` must be a boolean, received {return_params}'
     if return_state:
         def circuit_state(params):
-- 
2.43.0


From eacf8a217c3bab043014d90a5e4dd273260639a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 15/22] fix: ZassenhausLayer crashed when no SU(8) candidate
 has a gradient

---
 oranssi/opt_tools.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 3e9d375..3363b9b 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -814,6 +814,7 @@ class ZassenhausLayer(LieLayer):
             print(self.current_pauli)
             print(omegas_su8)
             print(omegas_su4)
+            B, k_max = None, None
             for k,v in omegas_su8.items():
                 if abs(v)>1e-3:
                     print(k,v)
@@ -829,21 +830,23 @@ class ZassenhausLayer(LieLayer):
             # probs = np.array([omegas_su8[om] for om in omegas_sorted])
             # probs /= np.sum(probs)
             # k_max = omegas_sorted[np.random.choice(list(range(len(omegas_sorted))), p=probs)]
-            omegas_AB = 0
-            # B = omegas_su8_k[k_max]
-            pauli = self.lastates[2].full_paulis[k_max]
-            for oi, obs in enumerate(self.observables_full):
-                omegas_AB += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
-            omegas_B = -((omegas_AB * 2) / omegas_A)  / omegas_su8_signs[k_max]
-            if np.sign(omegas_B)==np.sign(omegas_su4[omegas_su8_k[k]]):
-                print("SAME SIGN")
-            else:
-                print('DIFFERENT SIGN')
-            U_riemann_approx = ssla.expm(
-                # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
-                -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
-            circuit_unitary = U_riemann_approx @ circuit_unitary
-            print(omegas_A, omegas_B, omegas_AB)
+            # without a SU(8) candidate there is no gate to apply in this step
+            if k_max is not None and omegas_A != 0:
+                omegas_AB = 0
+                # B = omegas_su8_k[k_max]
+                pauli = self.lastates[2].full_paulis[k_max]
+                for oi, obs in enumerate(self.observables_full):
+                    omegas_AB += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
+                omegas_B = -((omegas_AB * 2) / omegas_A)  / omegas_su8_signs[k_max]
+                if np.sign(omegas_B)==np.sign(omegas_su4[omegas_su8_k[k]]):
+                    print("SAME SIGN")
+                else:
+                    print('DIFFERENT SIGN')
+                U_riemann_approx = ssla.expm(
+                    # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
+                    -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
+                circuit_unitary = U_riemann_approx @ circuit_unitary
+                print(omegas_A, omegas_B, omegas_AB)
             # omegas_B = 0
             # pauli = self.lastates[1].full_paulis[B]
             # for oi, obs in enumerate(self.observables_full):
@@ -875,7 +878,8 @@ class ZassenhausLayer(LieLayer):
             #     self.observables, self.obs_qnode, circuit_unitary,
             #     len(k_max[0]))
 
-            self.current_pauli = B
+            if B is not None:
+                self.current_pauli = B
             # self.previous_eta = eta
             self.counter += 1
             if self.counter >= self.ratio[1]:
-- 
2.43.0


From 7d715dbd456fa3bac6fcc6e16446f3a991fffbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:56 +0000
Subject: [PATCH 16/22] fix: PauliSum combines like terms with real and complex
 coefficients

simplify() compared monomials with ==, which tells real from complex
coefficients, so X + iX kept two terms and (1+i)X - X - iX did not cancel.
---
 oranssi/pauli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e51b24f..13de3c6 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -273,7 +273,9 @@ class PauliSum(object):
         return self.pauli_sum[item]
 
     def simplify(self):
-        duplicates = set([i for i in self.pauli_sum if self.pauli_sum.count(i)>1])
+        # like terms have the same Paulis on the same sites, whatever their coefficients
+        words = [i.__repr__(coeff=False) for i in self.pauli_sum]
+        duplicates = set([i for i in words if words.count(i)>1])
         if not len(duplicates):
             return
         else:
@@ -283,7 +285,7 @@ class PauliSum(object):
                 remove_idx = []
                 # collect total coefficient and store indices of duplicates in pauli_sum
                 for j, ps in enumerate(self.pauli_sum):
-                    if ps == dup:
+                    if ps.__repr__(coeff=False) == dup:
                         coeff += ps.coeff
                         remove_idx.append(j)
                 if len(remove_idx)>1:
-- 
2.43.0


From c44a38bc66183d4fb78f8c110c1b47c338867f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:56 +0000
Subject: [PATCH 17/22] fix: get_full_operator refuses negative wires

They passed the range check and indexed the column axes from the end, so the
transpose of the operator was embedded.
---
 oranssi/circuit_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index c419d16..bd65e46 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -37,6 +37,7 @@ def get_full_operator(op: np.ndarray, wires: Tuple[int, ...], nqubits: int) -> n
     """
     assert max(
         wires) < nqubits, f'Operator is acting on qubit {max(wires)}, but nqubits is {nqubits}'
+    assert min(wires) >= 0, f'Operator is acting on qubit {min(wires)}, which does not exist'
     opsize = int(np.log2(op.shape[0]))
     assert opsize == len(
         wires), f'Operator is shape {op.shape} acting on {opsize} qubits, but wires = {wires}'
-- 
2.43.0


From 4b203fe7c784c33406c6931b345a5aa95691a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:04 +0000
Subject: [PATCH 18/22] fix: commutes_with with symbolic coefficients

It compared the coefficients of AB and BA structurally, so commuting monomials
with coefficients such as 1+1j and x were reported not to commute.
---
 oranssi/pauli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 13de3c6..3057807 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -230,10 +230,15 @@ class PauliMonomial(object):
         # check if the coefficients are equal, we do it there.
         assert isinstance(operator,
                           type(self)), f'expected `operator` to be a PauliMonomial object, received {type(operator)}'
+        if self.coeff == 0 or operator.coeff == 0:
+            return True
+        # The scalars in front do not matter, and equal symbolic products of them can look different
+        A = PauliMonomial([Pauli(p.alpha, p.gamma) for p in self.monomial])
+        B = PauliMonomial([Pauli(p.alpha, p.gamma) for p in operator.monomial])
         # A*B
-        left_side = self * operator
+        left_side = A * B
         # B*A
-        right_side = operator * self
+        right_side = B * A
         return (right_side.coeff == left_side.coeff)
 
     def commutator(self, operator):
-- 
2.43.0


From 1619317953b78437fa6fb688bb5bc874be2abdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:44 +0000
Subject: [PATCH 19/22] fix: preColoring took other edge attributes for colors

The greedy pre-coloring removed the values of all edge attributes from the
available colors, so a graph with e.g. integer edge weights could fail to be
colored with 2 * max_degree - 1 colors, and unhashable attributes raised.
---
 oranssi/edge_coloring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oranssi/edge_coloring.py b/oranssi/edge_coloring.py
index 3afa299..7558f20 100644
--- a/oranssi/edge_coloring.py
+++ b/oranssi/edge_coloring.py
@@ -106,8 +106,8 @@ def preColoring(G, D):  # Pre-coloring with a greedy algorithm
         G[e[0]][e[1]]['color'] = G[e[1]][e[0]]['color'] = None
     for e in G.edges():
         available_colors = set(range(D))
-        available_colors -= set([y for x in G[e[0]].values() for y in x.values()])
-        available_colors -= set([y for x in G[e[1]].values() for y in x.values()])
+        available_colors -= set([x['color'] for x in G[e[0]].values()])
+        available_colors -= set([x['color'] for x in G[e[1]].values()])
         if available_colors == set():
             G[e[0]][e[1]]['color'] = G[e[1]][e[0]]['color'] = randint(0, D - 1)
         else:
-- 
2.43.0


From caa158e230686a9c1875ba0e4f873ed06f34405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 20/22] fix: save_path_creator raised when another process
 created the folder at the same time

Several experiments started in parallel ask for the same folder; the one that
loses the race between the existence check and makedirs crashed.
---
 oranssi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/utils.py b/oranssi/utils.py
index e94cee0..d01f5f5 100644
--- a/oranssi/utils.py
+++ b/oranssi/utils.py
@@ -118,5 +118,5 @@ def operator_2_norm(R: np.ndarray) -> float:
 def save_path_creator(path, experiment_name):
     save_path = os.path.join(path, experiment_name)
     if not os.path.exists(save_path):
-        os.makedirs(save_path)
+        os.makedirs(save_path, exist_ok=True)
     return save_path
-- 
2.43.0


From da4bcc12628a763c88166f167f66ec5bd18a4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:55 +0000
Subject: [PATCH 21/22] fix: hash Paulis consistently with their equality

---
 oranssi/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 3057807..3d5b564 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -83,8 +83,8 @@ class Pauli(object):
             return f'S({self.alpha},{self.gamma})'
 
     def __hash__(self):
-        # unique hash representation of the object
-        return hash(repr(self))
+        # unique hash representation of the object; equality ignores the coefficient, so the hash must as well
+        return hash(self.__repr__(coeff=False))
 
     def tex(self):
         # method access to tex
-- 
2.43.0


From 82f25c386d81a6aef35fdc168ab4548fc2feb53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:46 +0000
Subject: [PATCH 22/22] fix: ZassenhausLayer lost unitarity when the last
 line-search angle is tiny

---
 oranssi/opt_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 3363b9b..13e3719 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -842,9 +842,11 @@ class ZassenhausLayer(LieLayer):
                     print("SAME SIGN")
                 else:
                     print('DIFFERENT SIGN')
+                # the angle has period 2 pi; a large one makes expm inaccurate
+                angle = (self.eta * omegas_B / 2**self.nqubits) % (2 * np.pi)
                 U_riemann_approx = ssla.expm(
                     # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
-                    -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
+                    -1j * angle * self.lastates[1].full_paulis[B])
                 circuit_unitary = U_riemann_approx @ circuit_unitary
                 print(omegas_A, omegas_B, omegas_AB)
             # omegas_B = 0
-- 
2.43.0

