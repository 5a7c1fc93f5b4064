From 8e96cc94ed59ed7be5dd7937a1be96c7aa75c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:16 +0000
Subject: [PATCH 01/14] fix: stochastic sampler of SU(4) directions raised
 NotImplementedError

StochasticLieAlgebraLayer could not take a single step: the sampler started with a
leftover 'raise NotImplementedError' in front of its complete implementation.
---
 oranssi/opt_tools.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a552551..9bd4bc2 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1157,7 +1157,6 @@ class AlgebraSU4():
         Returns:
 
         """
-        raise NotImplementedError
         idx = np.where(self.qubits_left == 0)[0].tolist()
         # allow SU(4) samples
         if not idx:
-- 
2.43.0


From cf5d888de4e1d6be68fefe03490c365ac0317ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:16 +0000
Subject: [PATCH 02/14] fix: unitary_error_check projected the matrices that
 were unitary

The condition was inverted: a step that had drifted off the unitary manifold was left
as it was, although the warning announcing its projection was printed.
---
 oranssi/opt_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 9bd4bc2..a5f6918 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -184,7 +184,7 @@ class LocalLieAlgebraLayer(LieLayer):
                         omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                         self.op = omega * pauli
                         U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                        if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                        if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                             U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                         circuit_unitary = U_riemann_approx @ circuit_unitary
                         self.op.fill(0)
@@ -194,7 +194,7 @@ class LocalLieAlgebraLayer(LieLayer):
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
                     self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -276,7 +276,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                     self.op = omega * pauli
                     U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
                     self.op.fill(0)
@@ -288,7 +288,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                 self.op = sum(
                     omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                 circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -358,7 +358,7 @@ class StochasticLieAlgebraLayer(LieLayer):
             pauli = self.lastate.full_paulis[(self.current_direction, *self.current_qubits)]
             omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
             U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * omega * pauli)
-            if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+            if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                 U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
             circuit_unitary = U_riemann_approx @ circuit_unitary
 
-- 
2.43.0


From 23c5b6056992134eaf9490ad3c78f7cc0847906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:43 +0000
Subject: [PATCH 03/14] fix: return_omegas crashed for layers that store their
 observables as matrices

get_lie_algebra_directions needs the PennyLane observables, but the local, custom and
stochastic layers keep full matrices in self.observables (AttributeError).
---
 oranssi/opt_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a5f6918..a8de752 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -32,6 +32,8 @@ class LieLayer(object):
         self.obs_qnode = qml.QNode(circuit_observable_from_unitary, device)
         self.su_state = None
         self.nqubits = nqubits
+        # subclasses are free to turn `self.observables` into matrices
+        self.pennylane_observables = observables
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
 
@@ -96,7 +98,7 @@ class LieLayer(object):
         Returns:
             Dictionary containing the directions and corresponding SU(2^N) directions.
         """
-        return get_all_su_n_directions(circuit_unitary, self.observables, self.device)
+        return get_all_su_n_directions(circuit_unitary, self.pennylane_observables, self.device)
 
 
 class LocalLieAlgebraLayer(LieLayer):
-- 
2.43.0


From 5344c6f3ec980e7748f5ff1d884d066dfe54c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:25 +0000
Subject: [PATCH 04/14] fix: custom direction layer without directions paired
 the direction names with themselves

directions=None (all directions) built a dictionary of names instead of matrices, so the
first step failed.
---
 oranssi/opt_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a8de752..1d0a6f9 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -254,6 +254,8 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     new_paulis.append(pauli)
             self.paulis = new_paulis
             self.directions = new_directions
+        else:
+            self.paulis = list(self.paulis.values())
         self.full_paulis = dict(zip(self.directions, self.paulis))
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
-- 
2.43.0


From b8bec921686a0703f29591a042c0ab4b6722a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:25 +0000
Subject: [PATCH 05/14] fix: exact optimizer returned a unitary perturbed after
 the last recorded step

A perturbation triggered by the final step was applied after its cost and state had been
recorded, so return_unitary handed out a circuit other than the recorded one.
---
 oranssi/optimizers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index f5ab25b..df3f877 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -202,6 +202,9 @@ def exact_lie_optimizer(circuit, params: List, observables: List, device: qml.De
         if step > 3:
             if np.isclose(cost_exact[-1], cost_exact[-2], atol=tol):
                 if perturbation:
+                    if step == nsteps_optimizer - 1:
+                        # no step follows: keep the returned unitary in line with the last cost
+                        break
                     perturbations.append(step)
                     print(f'Cost difference between steps < {tol}, perturbing at step {step}...')
                     random_matrix = np.random.randn(2 ** nqubits, 2 ** nqubits) * 0.1
-- 
2.43.0


From 707feeb7040df09da58827810eb446450a4b4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:35 +0000
Subject: [PATCH 06/14] fix: Zassenhaus layer crashed when no SU(8) direction
 can be generated

Without a candidate above the threshold the second phase used an unassigned variable
(UnboundLocalError), and a preceding step of zero angle made it divide by zero. Such a
step now leaves the circuit as it is.
---
 oranssi/opt_tools.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 1d0a6f9..b7945ff 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -817,6 +817,7 @@ class ZassenhausLayer(LieLayer):
             print(self.current_pauli)
             print(omegas_su8)
             print(omegas_su4)
+            B, k_max = None, None
             for k,v in omegas_su8.items():
                 if abs(v)>1e-3:
                     print(k,v)
@@ -832,21 +833,24 @@ class ZassenhausLayer(LieLayer):
             # probs = np.array([omegas_su8[om] for om in omegas_sorted])
             # probs /= np.sum(probs)
             # k_max = omegas_sorted[np.random.choice(list(range(len(omegas_sorted))), p=probs)]
-            omegas_AB = 0
-            # B = omegas_su8_k[k_max]
-            pauli = self.lastates[2].full_paulis[k_max]
-            for oi, obs in enumerate(self.observables_full):
-                omegas_AB += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
-            omegas_B = -((omegas_AB * 2) / omegas_A)  / omegas_su8_signs[k_max]
-            if np.sign(omegas_B)==np.sign(omegas_su4[omegas_su8_k[k]]):
-                print("SAME SIGN")
-            else:
-                print('DIFFERENT SIGN')
-            U_riemann_approx = ssla.expm(
-                # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
-                -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
-            circuit_unitary = U_riemann_approx @ circuit_unitary
-            print(omegas_A, omegas_B, omegas_AB)
+            # without an SU(8) direction that can be generated from here the circuit is left as it is
+            if k_max is not None and omegas_A != 0:
+                omegas_AB = 0
+                # B = omegas_su8_k[k_max]
+                pauli = self.lastates[2].full_paulis[k_max]
+                for oi, obs in enumerate(self.observables_full):
+                    omegas_AB += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
+                omegas_B = -((omegas_AB * 2) / omegas_A)  / omegas_su8_signs[k_max]
+                if np.sign(omegas_B)==np.sign(omegas_su4[omegas_su8_k[k]]):
+                    print("SAME SIGN")
+                else:
+                    print('DIFFERENT SIGN')
+                U_riemann_approx = ssla.expm(
+                    # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
+                    -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
+                circuit_unitary = U_riemann_approx @ circuit_unitary
+                print(omegas_A, omegas_B, omegas_AB)
+                self.current_pauli = B
             # omegas_B = 0
             # pauli = self.lastates[1].full_paulis[B]
             # for oi, obs in enumerate(self.observables_full):
@@ -878,7 +882,6 @@ class ZassenhausLayer(LieLayer):
             #     self.observables, self.obs_qnode, circuit_unitary,
             #     len(k_max[0]))
 
-            self.current_pauli = B
             # self.previous_eta = eta
             self.counter += 1
             if self.counter >= self.ratio[1]:
-- 
2.43.0


From d9661d70402b4557a0522d66c904bf993ba63855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:39 +0000
Subject: [PATCH 07/14] fix: squared layer excluded a direction it had never
 applied after a failed step

The direction was remembered before the line search ran; if the device failed there, the
retry skipped the steepest direction.
---
 oranssi/opt_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index b7945ff..c982138 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -466,11 +466,12 @@ class SquaredLieAlgebraLayer(LieLayer):
         else:
             k_max = max(omegas, key=omegas.get)
             print(k_max)
-            self.current_pauli = k_max
-            self.previous_pauli = k_max
-            circuit_unitary, eta = rotosolve(self.lastate.full_paulis[self.current_pauli],
+            circuit_unitary, eta = rotosolve(self.lastate.full_paulis[k_max],
                                              self.observables, self.obs_qnode, circuit_unitary,
                                              len(k_max[0]))
+            # only remember the direction once the step has been taken
+            self.current_pauli = k_max
+            self.previous_pauli = k_max
 
             return circuit_unitary
 
-- 
2.43.0


From c387d05c9e02880cd70592f848f705a00bbe015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:39 +0000
Subject: [PATCH 08/14] fix: failed adapt-VQE step left a layer behind and
 changed the caller's parameters

The new layer and its parameters were appended (the latter to the caller's list) before
the inner optimization ran, so after a failure ansatz and parameters no longer matched.
---
 oranssi/opt_tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index c982138..e4c8716 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -556,14 +556,13 @@ class AdaptVQELayer(LieLayer):
                                                        omegas[(direction, 0, self.nqubits - 1)]
         k_max = max(layer_omegas, key=layer_omegas.get)
         print(k_max)
-        self.layers.append(k_max)
-        self.previous_direction = k_max[0]
+        layers = self.layers + [k_max]
         single_layer = {'X': qml.RX, 'Y': qml.RY, 'Z': qml.RZ}
 
         def circuit_vqe(params, **kwargs):
             for j in range(self.nqubits):
                 qml.Hadamard(wires=j)
-            for j, layer in enumerate(self.layers):
+            for j, layer in enumerate(layers):
                 if len(layer[0]) == 1:
                     for i in range(0, self.nqubits):
                         single_layer[layer[0]](params[j][i], wires=i)
@@ -577,7 +576,7 @@ class AdaptVQELayer(LieLayer):
                             qml.PauliRot(params[j][idx], layer[0], wires=(i, i + 1))
                         qml.PauliRot(params[j][-1], layer[0], wires=(0, self.nqubits - 1))
 
-        params_ext.append([0.1 for _ in range(self.nqubits)])
+        params_ext = params_ext + [[0.1 for _ in range(self.nqubits)]]
 
         costs, params_ext = ps_optimizer(circuit_vqe, params_ext, self.observables, self.dev,
                                          return_params=True, eta=0.01, tol=1e-5)
@@ -593,6 +592,9 @@ class AdaptVQELayer(LieLayer):
 
         for op, wires in zip(circuit_as_numpy_ops, circuit_as_numpy_wires):
             circuit_unitary = get_full_operator(op, wires, self.nqubits) @ circuit_unitary
+        # only remember the new layer once the step has been taken
+        self.layers = layers
+        self.previous_direction = k_max[0]
 
         return circuit_unitary, params_ext[-1].tolist()
 
-- 
2.43.0


From b7581948fbb504f22e424d2d63859eecc35fa2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:12 +0000
Subject: [PATCH 09/14] fix: get_commuting_set crashed or returned overlapping
 or reversed edges

Two colors are not enough as soon as a node has three edges or the edges form an odd
cycle: the heuristic then raised KeyError/IndexError or gave up, and overlapping edges
were returned. Edges could also come back reversed, so that the direction they stand for
was not found (or another one was used) by the squared layer.
---
 oranssi/circuit_tools.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index ee5dc75..7573701 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -186,6 +186,15 @@ def get_commuting_set(edge_list):
         return edge_list
     else:
         g = nx.from_edgelist(edge_list)
-        applyHeuristic(g, 2, 50, 50)
-        edge_coloring = [e for e in g.edges() if g[e[0]][e[1]]['color'] == 0]
+        # max degree + 1 colors always suffice (Vizing)
+        applyHeuristic(g, max(degree for _, degree in g.degree()) + 1, 50, 50)
+        color_classes = {}
+        for e in edge_list:
+            color_classes.setdefault(g[e[0]][e[1]]['color'], []).append(e)
+        # the heuristic can fail, in which case a color class may still contain overlapping edges
+        edge_coloring, used_nodes = [], set()
+        for e in max(color_classes.values(), key=len):
+            if used_nodes.isdisjoint(e):
+                edge_coloring.append(e)
+                used_nodes.update(e)
         return edge_coloring
-- 
2.43.0


From de9322c10abecfd03a4232deb64dcdae1db420f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 10/14] fix: rotosolve only found the minimum for a single
 qubit

The rotation was scaled by 2**nqubits while the closed form for the optimal
angle assumes exp(-i theta P / 2), so for more than one qubit the line search
ended away from the minimum and could raise the cost.
---
 oranssi/opt_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index e4c8716..6fc2612 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1298,17 +1298,17 @@ def rotosolve(pauli, observables, obs_qnode, circuit_unitary, nqubits):
             unitary=circuit_unitary,
             observable=o)
     H_p = 0.
-    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_p += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     H_m = 0.
-    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_m += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
-    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2)
     return U_riemann_approx @ circuit_unitary, eta
-- 
2.43.0


From 5fa6a63cde6c53927629d88e97909370dc223cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 11/14] fix: Zassenhaus layer divided by a vanishing angle and
 left the unitary group

A first-phase rotation of about 1e-17 made the second-phase angle about 1e16,
for which expm returns a matrix that is not unitary.
---
 oranssi/opt_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 6fc2612..db34e5e 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -837,7 +837,7 @@ class ZassenhausLayer(LieLayer):
             # probs /= np.sum(probs)
             # k_max = omegas_sorted[np.random.choice(list(range(len(omegas_sorted))), p=probs)]
             # without an SU(8) direction that can be generated from here the circuit is left as it is
-            if k_max is not None and omegas_A != 0:
+            if k_max is not None and abs(omegas_A) > 1e-3:
                 omegas_AB = 0
                 # B = omegas_su8_k[k_max]
                 pauli = self.lastates[2].full_paulis[k_max]
-- 
2.43.0


From 5f6e98822152af2aa2dee13583e7145f57257d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 12/14] fix: save_path_creator failed when two runs created the
 directory, or accepted a file

exists() followed by makedirs() raised FileExistsError when another process
created the directory in between, and reported success when the path exists
but is not a directory.
---
 oranssi/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oranssi/utils.py b/oranssi/utils.py
index e94cee0..f44ef33 100644
--- a/oranssi/utils.py
+++ b/oranssi/utils.py
@@ -117,6 +117,5 @@ def operator_2_norm(R: np.ndarray) -> float:
 
 def save_path_creator(path, experiment_name):
     save_path = os.path.join(path, experiment_name)
-    if not os.path.exists(save_path):
-        os.makedirs(save_path)
+    os.makedirs(save_path, exist_ok=True)
     return save_path
-- 
2.43.0


From 5d48ede9017ce5364b6e214a5bde74d91705ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 13/14] fix: PauliSum changed the coefficients of its operands

a - b negated b, and simplifying a sum with equal terms, or scaling it,
rescaled the monomials it was built from.
---
 oranssi/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e5d6ac7..9ee237e 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -259,7 +259,8 @@ class PauliSum(object):
             'All PauliMonomials must have the same length, found multiple different length: ' \
             f'{[len(ps) for ps in list_of_pauli_monomials]} ' \
             f'where the tuple indicates (location, number of occurences)'
-        self.pauli_sum = list_of_pauli_monomials
+        # copy the monomials, since simplify and scalar_mul change the coefficients in place
+        self.pauli_sum = [copy.deepcopy(ps) for ps in list_of_pauli_monomials]
         self.simplify()
 
     def __getitem__(self, item):
@@ -303,7 +304,7 @@ class PauliSum(object):
 
     def __sub__(self, other):
         # enable multiplication of monomials
-        other_pauli_sum = copy.copy(other)
+        other_pauli_sum = copy.deepcopy(other)
         other_pauli_sum.scalar_mul(-1)
         new_pauli_sum = copy.copy(self.pauli_sum) + other_pauli_sum.pauli_sum
         return PauliSum(new_pauli_sum)
-- 
2.43.0


From cea77f811e92ccff3914e030400ca56fbd8e8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:45 +0000
Subject: [PATCH 14/14] fix: PauliMonomial lost its coefficient in products and
 conjugates

A coefficient set by commutator or by scaling was not carried into later
products, conj() left the total coefficient as it was, and monomials shared
(and conjugated) the Pauli objects they were built from.
---
 oranssi/pauli.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 9ee237e..1afcfee 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -113,9 +113,9 @@ class PauliMonomial(object):
             f'{[(loc, locations.count(loc)) for loc in set(locations) if locations.count(loc) > 1]} ' \
             f'where the tuple indicates (location, number of occurences)'
         self.locations = locations
-        self.monomial = list_of_paulis
-        # get the total coefficient from all the individual coefficients
-        self.coeff = np.prod([p.coeff for p in self.monomial])
+        # the coefficient is kept in one place: total coefficient from all the individual coefficients
+        self.coeff = np.prod([p.coeff for p in list_of_paulis])
+        self.monomial = [Pauli(p.alpha, p.gamma) for p in list_of_paulis]
 
     def __getitem__(self, item):
         # this makes it possible to call the Paulimonomial as paulimon[i]
@@ -142,7 +142,9 @@ class PauliMonomial(object):
             p = other[other.locations.index(k)]
             new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
         # creating a new PauliMonomial will automatically sort based on site
-        return PauliMonomial(new_monomial)
+        product = PauliMonomial(new_monomial)
+        product.coeff = self.coeff * other.coeff * product.coeff
+        return product
 
     def __eq__(self, other):
         # monomials are equal of all paulis are equal. If they are not of equal length they cannot be compared and
@@ -215,9 +217,8 @@ class PauliMonomial(object):
             return self.__tex__(coeff=False)
 
     def conj(self):
-        # conjugate all paulis in the monomial
-        for p in self.monomial:
-            p.conj()
+        # conjugate the monomial by taking the complex conjugate of the coefficient
+        self.coeff = np.conj(self.coeff)
         return self
 
     def commutes_with(self, operator):
-- 
2.43.0

