From f36fa4b299b42d2a1981b2369b064bfae7292655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 01/44] fix: pauli_channel uses the Kraus coefficients it
 documents

---
 graphix/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d807814..99e8eb2 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -212,10 +212,10 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
     p_i = 1 - px - py - pz
     return KrausChannel(
         [
-            KrausData(np.sqrt(1 - p_i), Ops.I),
-            KrausData(np.sqrt(px / 3.0), Ops.X),
-            KrausData(np.sqrt(py / 3.0), Ops.Y),
-            KrausData(np.sqrt(pz / 3.0), Ops.Z),
+            KrausData(np.sqrt(p_i), Ops.I),
+            KrausData(np.sqrt(px), Ops.X),
+            KrausData(np.sqrt(py), Ops.Y),
+            KrausData(np.sqrt(pz), Ops.Z),
         ]
     )
 
-- 
2.43.0


From 8d21d9dcd293b6573e62f32b5140b2c29068b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 02/44] fix: do not mutate command domains shared with copies
 of a pattern

---
 graphix/pattern.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6597aab..0208b7c 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -806,7 +806,7 @@ class Pattern(InplaceParameterizable):
         assert x.kind == CommandKind.X
         assert m.kind == CommandKind.M
         if x.node == m.node:
-            m.s_domain ^= x.domain
+            m.s_domain = m.s_domain ^ x.domain
             self.__seq.pop(target)  # del X
             return True
         self._commute_with_following(target)
@@ -826,7 +826,7 @@ class Pattern(InplaceParameterizable):
         assert z.kind == CommandKind.Z
         assert m.kind == CommandKind.M
         if z.node == m.node:
-            m.t_domain ^= z.domain
+            m.t_domain = m.t_domain ^ z.domain
             self.__seq.pop(target)  # del Z
             return True
         self._commute_with_following(target)
@@ -846,7 +846,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert x.kind == CommandKind.X
         if s.node in x.domain:
-            x.domain ^= s.domain
+            x.domain = x.domain ^ s.domain
         self._commute_with_following(target)
 
     def _commute_zs(self, target: int) -> None:
@@ -863,7 +863,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert z.kind == CommandKind.Z
         if s.node in z.domain:
-            z.domain ^= s.domain
+            z.domain = z.domain ^ s.domain
         self._commute_with_following(target)
 
     def _commute_ms(self, target: int) -> None:
@@ -880,9 +880,9 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert m.kind == CommandKind.M
         if s.node in m.s_domain:
-            m.s_domain ^= s.domain
+            m.s_domain = m.s_domain ^ s.domain
         if s.node in m.t_domain:
-            m.t_domain ^= s.domain
+            m.t_domain = m.t_domain ^ s.domain
         self._commute_with_following(target)
 
     def _commute_ss(self, target: int) -> None:
@@ -899,7 +899,7 @@ class Pattern(InplaceParameterizable):
         assert s1.kind == CommandKind.S
         assert s2.kind == CommandKind.S
         if s1.node in s2.domain:
-            s2.domain ^= s1.domain
+            s2.domain = s2.domain ^ s1.domain
         self._commute_with_following(target)
 
     def _commute_with_following(self, target: int) -> None:
-- 
2.43.0


From b22e1f16ac516e362200e67e5b4557bcf91cbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 03/44] fix: FixedBranchSelector forwards the generator to its
 default selector

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a8b6a75..a871395 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -131,7 +131,7 @@ class FixedBranchSelector(BranchSelector, Generic[_T]):
         if result is None:
             if self.default is None:
                 raise ValueError(f"Unexpected measurement of qubit {qubit}.")
-            return self.default.measure(qubit, f_expectation0)
+            return self.default.measure(qubit, f_expectation0, rng, stacklevel=stacklevel + 1)
         return result
 
 
-- 
2.43.0


From 162f42e433d373f4280d6ac92e8bebfe392d49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 04/44] fix: transpile the instructions that follow an identity
 gate

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 046500b..c17d796 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -940,7 +940,7 @@ def instructions_to_jcz(instrs: Iterable[InstructionType]) -> Iterator[instructi
             case InstructionKind.J | InstructionKind.CZ | InstructionKind.M:
                 yield instr
             case InstructionKind.I:
-                return
+                pass
             case InstructionKind.H:
                 yield instruction.J(instr.target, 0)
             case InstructionKind.S:
-- 
2.43.0


From 2b758d35ace9042c27ac90dc3f0b10e06f0bf2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 05/44] fix: Circuit.is_parameterized takes J gates into
 account

---
 graphix/transpiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index c17d796..f3dfd75 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -700,7 +700,13 @@ class Circuit(InplaceParameterizable):
         """
         for instr in self.instruction:
             match instr.kind:
-                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ:
+                case (
+                    InstructionKind.RZZ
+                    | InstructionKind.RX
+                    | InstructionKind.RY
+                    | InstructionKind.RZ
+                    | InstructionKind.J
+                ):
                     if not isinstance(instr.angle, SupportsFloat):
                         return True
         return False
-- 
2.43.0


From 79ffbee71ac277ad5593b264118c55c0313d7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 06/44] fix: index output nodes by the qubits of the swapped
 circuit

---
 graphix/transpiler.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index f3dfd75..44802ba 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1015,13 +1015,9 @@ class TranspileSwapsResult:
 
     def extract_output_node_indices(self) -> tuple[int, ...]:
         """Return for each output node, sorted in the order of the original circuit, the index of the corresponding output node in the order of the swapped circuit."""
-        reduced_index = {}
-        reduced_counter = 0
-        for index, output in enumerate(self.outputs):
-            if output.kind == OutputKind.Qubit:
-                reduced_index[index] = reduced_counter
-                reduced_counter += 1
-        return tuple(reduced_index[index] for index in self.extract_outputs(OutputKind.Qubit))
+        outputs = self.extract_outputs(OutputKind.Qubit)
+        reduced_index = {index: reduced for reduced, index in enumerate(sorted(outputs))}
+        return tuple(reduced_index[index] for index in outputs)
 
     def swap_output_nodes(self, output_nodes: Sequence[Node]) -> tuple[Node, ...]:
         """Reorder the output nodes of a pattern obtained from a swapped circuit to restore the qubit ordering of the original circuit."""
-- 
2.43.0


From 1ec9d64de32da1dc21d7631c7fc35e48b4d70591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 07/44] fix: keep the classical outputs of a transpiled circuit
 in the order of the gates

---
 graphix/transpiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 44802ba..e647e79 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -514,8 +514,8 @@ class Circuit(InplaceParameterizable):
         swap = _transpile_swaps(self, copy=True)
         result = swap.circuit.transpile_to_causalflow().to_pattern()
         result.pattern.reorder_output_nodes(swap.swap_output_nodes(result.pattern.output_nodes))
-        classical_outputs = swap.swap_classical_outputs(result.classical_outputs)
-        return TranspiledPattern(result.pattern, classical_outputs)
+        # Eliminating SWAP gates does not change the order of the measurements.
+        return TranspiledPattern(result.pattern, result.classical_outputs)
 
     @overload
     def simulate(
-- 
2.43.0


From 8d315932be131a19190ee38c05ba2fb295fb3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 08/44] fix: keep track of measured qubits in rewritten
 circuits

---
 graphix/transpiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index e647e79..d4006ac 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -662,7 +662,7 @@ class Circuit(InplaceParameterizable):
         if copy:
             result = Circuit(self.width)
             for instr in self.instruction:
-                result.instruction.append(instr.visit(visitor, copy=True))
+                result.add(instr.visit(visitor, copy=True))
             return result
         for instr in self.instruction:
             instr.visit(visitor, copy=False)
@@ -1109,6 +1109,7 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             new_circuit.add(instr.visit(visitor, copy=copy))
     if not copy:
         circuit.instruction = new_circuit.instruction
+        circuit.active_qubits = new_circuit.active_qubits
         new_circuit = circuit
     return TranspileSwapsResult(new_circuit, tuple(visitor.outputs))
 
-- 
2.43.0


From 651c3912eba092aeed8e24c81b8e13bc8854e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 09/44] fix: keep the offset when the parameters of two affine
 expressions cancel

---
 graphix/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/parameter.py b/graphix/parameter.py
index 891986f..647609a 100644
--- a/graphix/parameter.py
+++ b/graphix/parameter.py
@@ -202,7 +202,7 @@ class AffineExpression(Expression):
                 raise PlaceholderOperationError
             a = self.a + other.a
             if a == 0:
-                return 0
+                return self.b + other.b
             return AffineExpression(a=a, x=self.x, b=self.b + other.b)
         return NotImplemented
 
-- 
2.43.0


From 67059d05bcdfc98fd3596117735350642694e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 10/44] fix: ComposeNoiseModel forwards the generator to the
 input noise of its models

---
 graphix/noise_models/noise_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index 94b2237..b350965 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,7 +150,7 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
-        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, stacklevel=stacklevel + 1)]
+        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
     def command(
-- 
2.43.0


From 3d39317428d99885320966413fc6404c179ae0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 11/44] fix: measuring Z on an isolated filled node of a graph
 state yields the chosen outcome

---
 graphix/graphsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 8e91292..24efae6 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -460,7 +460,7 @@ class GraphState(Graph):
         if choice:
             for i in self.neighbors(node):
                 self.flip_sign(i)
-        result = choice if not isolated else outcome(self.nodes[node]["sign"])
+        result = choice if isolated != 1 else outcome(self.nodes[node]["sign"])
         self.remove_node(node)
         return result
 
-- 
2.43.0


From 1f52e891110b8b06457c4f6172e1d7a7a8da1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 12/44] fix: extract GHZ clusters until no node has more than
 two edges left

---
 graphix/extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index eea0dc3..c1100f3 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -98,7 +98,7 @@ def graph_to_fusion_network(
     # Find GHZ graphs in the graph and remove their edges from the graph.
     # All nodes that have more than 2 edges become the roots of the GHZ clusters.
     for v, _ in sorted(neighbors_list, key=operator.itemgetter(1), reverse=True):
-        if len(adjdict[v]) > 2:
+        while len(adjdict[v]) > 2:
             nodes = [v]
             while len(adjdict[v]) > 0 and len(nodes) < max_ghz:
                 n, _ = adjdict[v].popitem()
-- 
2.43.0


From 8a539673afdec6eabb821a993e964fcea5819165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 13/44] fix: accept the empty measurement order when there is
 nothing to measure

---
 graphix/flow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 1cea8c4..0365225 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -392,6 +392,9 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         shift = 1 if self.og.output_nodes else 0
         measured_layers = list(reversed(self.partial_order_layers[shift:]))
 
+        if not measured_layers:
+            return True
+
         i = 0
         n_measured_layers = len(measured_layers)
         layer = measured_layers[0]
-- 
2.43.0


From 2472c612a6dd21a6e90a4715730959f75e2fa9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 14/44] fix: reject X-corrections on input nodes when
 extracting a Pauli flow

---
 graphix/flow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 0365225..a9e7e0f 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -1484,6 +1484,8 @@ def _solve_pauli_correction_set(
     self_fixed_in = label in {Plane.XZ, Plane.YZ, Axis.Z}
     if self_fixed_in and node not in non_inputs:
         return None  # ``node`` must correct itself but is an input node.
+    if not x_corr <= non_inputs:
+        return None  # Input nodes cannot belong to a correction set.
 
     # Free variables of the GF(2) system: the X/Y-measured, non-input nodes that are not in the
     # future of ``node`` (the "anachronical" candidates, plus ``node`` itself when it qualifies).
-- 
2.43.0


From b2520ecc22686a4f9e3f4e510011b83e88bbe435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 15/44] fix: computing an expectation value does not normalize
 the density matrix in place

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad42a0e..d4fdfb0 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -278,7 +278,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         if op.shape != (2, 2):
             raise ValueError("op must be 2x2 matrix.")
 
-        st1 = _copy.copy(self)
+        st1 = DensityMatrix(self)
         st1.normalize()
 
         nqubit = self.nqubit
-- 
2.43.0


From 5b188cfd727b951721d8f51d0dc32cc186e17cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 16/44] fix: reject input states whose length is not a power of
 two even if nqubit is given

---
 graphix/sim/statevec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0cb4eac..6611e38 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -187,9 +187,9 @@ class Statevector(DenseState):
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
         elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
             inferred_nqubit = length.bit_length() - 1
+            if length & (length - 1):
+                raise ValueError(f"Length of input data is not a power of two: {length}.")
             if nqubit is None:
-                if length & (length - 1):
-                    raise ValueError(f"Length of input data is not a power of two: {length}.")
                 nqubit = inferred_nqubit
             elif nqubit != inferred_nqubit:
                 raise ValueError(f"Mismatch between nqubit and inferred nqubit: {nqubit} != {inferred_nqubit}.")
-- 
2.43.0


From c31f82d7df0b34c6646f773d22bccf2c78aed28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 17/44] fix: compose an empty open graph with another one

---
 graphix/opengraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index a896a92..21afe60 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -711,7 +711,7 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
             if vm is not None and (uc := self.output_cliffords.get(u)) is not None:
                 measurements_other[v] = vm.clifford(uc)
 
-        shift = max((*self.graph.nodes, *mapping.values())) + 1
+        shift = max((*self.graph.nodes, *mapping.values()), default=-1) + 1
 
         mapping_sequential = {
             node: i for i, node in enumerate(sorted(other.graph.nodes - mapping.keys()), start=shift)
-- 
2.43.0


From 4f02f4afe70096484d5becc43f9a3af35df73494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 18/44] fix: do not warn about non-Pauli measurements when
 removing isolated Pauli-measured nodes

---
 graphix/remove_pauli_measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 71decac..adc4a4e 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -497,7 +497,7 @@ class _RemovePauliMeasurements:
         # modified while enumerating isolated nodes.
         for node in list(nx.isolates(self.graph)):
             if node not in self.input_node_set and node not in self.output_node_set:
-                if node not in self.pauli_measurements:
+                if self.node_specs[node].pauli_measurement is None:
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
                 self._remove_node(node)
 
-- 
2.43.0


From 422b428de69a65bd9cc2bc758058ca5cb24f9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 19/44] fix: keep isolated measurements whose outcome is
 deterministically 1

---
 graphix/remove_pauli_measurements.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index adc4a4e..b475fc2 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -497,7 +497,11 @@ class _RemovePauliMeasurements:
         # modified while enumerating isolated nodes.
         for node in list(nx.isolates(self.graph)):
             if node not in self.input_node_set and node not in self.output_node_set:
-                if self.node_specs[node].pauli_measurement is None:
+                pauli_measurement = self.node_specs[node].pauli_measurement
+                if pauli_measurement == PauliMeasurement(Axis.X, Sign.MINUS):
+                    # The outcome of this measurement is deterministically 1.
+                    continue
+                if pauli_measurement is None:
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
                 self._remove_node(node)
 
-- 
2.43.0


From 74b629bea9f728204ce0607eb95fcf626a6ded5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 20/44] fix: removing an identity Clifford command does not
 rename its node

---
 graphix/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index a571218..b700afd 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -630,6 +630,8 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
     for cmd in pattern:
         match cmd.kind:
             case CommandKind.C:
+                if cmd.clifford == Clifford.I:
+                    continue
                 cmd_node = reindex(cmd.node)
                 clifford_pattern = cmd.clifford.to_opengraph().to_pattern()
                 (output_node,) = clifford_pattern.output_nodes
-- 
2.43.0


From e28058875e421cf7a4a203bbd9ac48ac2010e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 21/44] fix: never select outcome 0 when its probability is 0

rng.random() can return exactly 0.0, and 0.0 > 0 is false, so outcome 0 (the
zero-probability branch) was selected and the projected state became NaN.
---
 graphix/branch_selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a871395..1ba6d11 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -86,7 +86,9 @@ class RandomBranchSelector(BranchSelector):
         rng = ensure_rng(rng, stacklevel=stacklevel + 1)
         if self.pr_calc:
             prob_0 = f_expectation0()
-            return outcome(rng.random() > prob_0)
+            # `random` draws from [0, 1): the comparison is not strict, so that outcome 0 is never
+            # selected if its probability is 0.
+            return outcome(rng.random() >= prob_0)
         result: Outcome = rng.choice([0, 1])
         return result
 
-- 
2.43.0


From 6a83a22fa0811da6d38e0e0245ae58cd7a479e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 22/44] fix: do not rewrite nodes prepared in another state
 than plus when removing Pauli measurements

---
 graphix/remove_pauli_measurements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index b475fc2..f048ee3 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -36,6 +36,7 @@ from graphix.command import Command
 from graphix.fundamentals import Axis, Sign
 from graphix.measurements import PauliMeasurement
 from graphix.optimization import StandardizedPattern
+from graphix.states import BasicStates
 
 if TYPE_CHECKING:
     from collections.abc import Iterable, Mapping
@@ -239,7 +240,9 @@ class _RemovePauliMeasurements:
     Nodes are given with the indexing of the original pattern: use ``node_map`` to retrieve the index in the graph."""
 
     input_node_set: set[Node]
-    """Set of input nodes: inputs nodes are never pivoted, therefore their indexing is preserved."""
+    """Set of nodes that are not prepared in the plus state: input nodes and nodes prepared in another state.
+
+    These nodes are neither removed nor pivoted, therefore their indexing is preserved."""
 
     output_node_set: set[Node]
     """Set of output nodes, using the new indexing."""
@@ -267,6 +270,9 @@ class _RemovePauliMeasurements:
         self.measurements = cut.measurements
         self.pauli_measurements = {axis: set() for axis in Axis}
         self.input_node_set = set(cut.original_pattern.input_nodes)
+        self.input_node_set.update(
+            cmd_n.node for cmd_n in cut.original_pattern.n_list if cmd_n.state != BasicStates.PLUS
+        )
         self.output_node_set = set(cut.original_pattern.output_nodes)
         for cmd_m in self.cut.pauli_measurements:
             if not isinstance(cmd_m.measurement, PauliMeasurement):  # pragma: no cover
-- 
2.43.0


From 0c5fe1374fd3a4c252c63b61cdceecb6bdc44b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 23/44] fix: keep the number of nodes up to date in in-place
 removal of Pauli measurements and Clifford commands

---
 graphix/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 0208b7c..44aed30 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1923,6 +1923,7 @@ class Pattern(InplaceParameterizable):
             return pattern
         self.__seq = pattern.__seq
         self.__output_nodes = pattern.__output_nodes
+        self.__n_node = pattern.__n_node
         return self
 
     def remove_local_clifford_commands(self, *, copy: bool = False) -> Pattern:
@@ -1953,6 +1954,7 @@ class Pattern(InplaceParameterizable):
             return new_pattern
         self.__seq = new_pattern.__seq
         self.__output_nodes = new_pattern.__output_nodes
+        self.__n_node = new_pattern.__n_node
         return self
 
 
-- 
2.43.0


From 571e422fb0f808bbcc531f14465b8c54a6f4c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 24/44] fix: shifting signals does not modify commands shared
 with other patterns

---
 graphix/pattern.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 44aed30..e9b1f7a 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -806,7 +806,7 @@ class Pattern(InplaceParameterizable):
         assert x.kind == CommandKind.X
         assert m.kind == CommandKind.M
         if x.node == m.node:
-            m.s_domain = m.s_domain ^ x.domain
+            self.__seq[target + 1] = dataclasses.replace(m, s_domain=m.s_domain ^ x.domain)
             self.__seq.pop(target)  # del X
             return True
         self._commute_with_following(target)
@@ -826,7 +826,7 @@ class Pattern(InplaceParameterizable):
         assert z.kind == CommandKind.Z
         assert m.kind == CommandKind.M
         if z.node == m.node:
-            m.t_domain = m.t_domain ^ z.domain
+            self.__seq[target + 1] = dataclasses.replace(m, t_domain=m.t_domain ^ z.domain)
             self.__seq.pop(target)  # del Z
             return True
         self._commute_with_following(target)
@@ -846,7 +846,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert x.kind == CommandKind.X
         if s.node in x.domain:
-            x.domain = x.domain ^ s.domain
+            self.__seq[target + 1] = dataclasses.replace(x, domain=x.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_zs(self, target: int) -> None:
@@ -863,7 +863,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert z.kind == CommandKind.Z
         if s.node in z.domain:
-            z.domain = z.domain ^ s.domain
+            self.__seq[target + 1] = dataclasses.replace(z, domain=z.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_ms(self, target: int) -> None:
@@ -879,10 +879,9 @@ class Pattern(InplaceParameterizable):
         m = self.__seq[target + 1]
         assert s.kind == CommandKind.S
         assert m.kind == CommandKind.M
-        if s.node in m.s_domain:
-            m.s_domain = m.s_domain ^ s.domain
-        if s.node in m.t_domain:
-            m.t_domain = m.t_domain ^ s.domain
+        s_domain = m.s_domain ^ s.domain if s.node in m.s_domain else m.s_domain
+        t_domain = m.t_domain ^ s.domain if s.node in m.t_domain else m.t_domain
+        self.__seq[target + 1] = dataclasses.replace(m, s_domain=s_domain, t_domain=t_domain)
         self._commute_with_following(target)
 
     def _commute_ss(self, target: int) -> None:
@@ -899,7 +898,7 @@ class Pattern(InplaceParameterizable):
         assert s1.kind == CommandKind.S
         assert s2.kind == CommandKind.S
         if s1.node in s2.domain:
-            s2.domain = s2.domain ^ s1.domain
+            self.__seq[target + 1] = dataclasses.replace(s2, domain=s2.domain ^ s1.domain)
         self._commute_with_following(target)
 
     def _commute_with_following(self, target: int) -> None:
@@ -1019,8 +1018,9 @@ class Pattern(InplaceParameterizable):
                 extracted_signal = extract_signal(cmd.measurement.to_bloch().plane, cmd.s_domain, cmd.t_domain)
                 if extracted_signal.signal:
                     self.__seq.insert(pos + 1, command.S(node=cmd.node, domain=extracted_signal.signal))
-                    cmd.s_domain = extracted_signal.s_domain
-                    cmd.t_domain = extracted_signal.t_domain
+                    self.__seq[pos] = dataclasses.replace(
+                        cmd, s_domain=extracted_signal.s_domain, t_domain=extracted_signal.t_domain
+                    )
                     pos += 1
                 signal_dict[cmd.node] = extracted_signal.signal
             pos += 1
-- 
2.43.0


From 210bf4ce5492d27134c7c3b72a3cbc81a8d94c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 25/44] fix: parallelize patterns without output nodes

---
 graphix/pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index e9b1f7a..b1e18d7 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1159,7 +1159,8 @@ class Pattern(InplaceParameterizable):
             optimal measurement order for parallel computing
         """
         partial_order_layers = self.partial_order_layers()
-        return list(itertools.chain(*reversed(partial_order_layers[1:])))
+        shift = 1 if self.output_nodes else 0  # The first layer contains the output nodes if there are any.
+        return list(itertools.chain(*reversed(partial_order_layers[shift:])))
 
     def sort_measurement_commands(self, meas_order: list[int]) -> list[command.M]:
         """Convert measurement order to sequence of measurement commands.
-- 
2.43.0


From 767c885a6ae74609418727948055f6634f23e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 26/44] fix: corrections on nodes outside of the open graph are
 not well formed

---
 graphix/flow/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index a9e7e0f..56951f1 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -420,6 +420,7 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         -----
         A correct ``XZCorrections`` instance verifies the following properties:
             - Keys of the correction dictionaries are measured nodes, i.e., a subset of :math:`O^c`.
+            - Values of the correction dictionaries are nodes of the open graph.
             - Corrections respect the partial order.
             - The first layer of the partial order contains all the output nodes if there are any.
             - The partial order contains all the nodes (without duplicates) and it does not have empty layers.
@@ -437,6 +438,10 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         if not oc_set.issuperset(self.x_corrections.keys() | self.z_corrections.keys()):
             raise XZCorrectionsGenericError(XZCorrectionsGenericErrorReason.IncorrectKeys)
 
+        for corrections in (self.x_corrections, self.z_corrections):
+            if not all(correction_set <= self.og.graph.nodes for correction_set in corrections.values()):
+                raise XZCorrectionsGenericError(XZCorrectionsGenericErrorReason.IncorrectValues)
+
         first_layer = self.partial_order_layers[0]
 
         # Unlike for flows, XZCorrections can be well defined on open graphs without outputs
-- 
2.43.0


From c0e46e9ca197e0aace2abbb6409c56fd42c8c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 27/44] fix: Pattern.connected_nodes failed when the pattern
 ends with an entangling command

---
 graphix/pattern.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index b1e18d7..1ed28d6 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1273,15 +1273,13 @@ class Pattern(InplaceParameterizable):
         node_list = []
         ind = self._find_op_to_be_moved(CommandKind.E)
         if ind is not None:  # end -> 'node' is isolated
-            cmd = self.__seq[ind]
-            while cmd.kind == CommandKind.E:
+            while ind < len(self.__seq) and (cmd := self.__seq[ind]).kind == CommandKind.E:
                 if cmd.nodes[0] == node:
                     if cmd.nodes[1] not in prepared:
                         node_list.append(cmd.nodes[1])
                 elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
                     node_list.append(cmd.nodes[0])
                 ind += 1
-                cmd = self.__seq[ind]
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From 1048b872b511c24be241c6e730e96d601b5c0d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 28/44] fix: Pattern.space_list did not count the input nodes

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 1ed28d6..6341a8e 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1373,7 +1373,7 @@ class Pattern(InplaceParameterizable):
         N_list : list
             time evolution of 'space' at each 'N' and 'M' commands of pattern.
         """
-        nodes = 0
+        nodes = len(self.__input_nodes)
         n_list = []
         for cmd in self.__seq:
             match cmd.kind:
-- 
2.43.0


From f4eb84d567824e9ae70a62df6dc3cfed66b0c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 29/44] fix: Pattern.compose failed on an empty left operand

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6341a8e..3e0e5ba 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -358,7 +358,7 @@ class Pattern(InplaceParameterizable):
                 stacklevel=2,
             )
 
-        shift = max((*nodes_p1, *mapping.values())) + 1
+        shift = max((*nodes_p1, *mapping.values()), default=-1) + 1
         mapping_complete = other.node_mapping(mapping, start=shift)
         other = other.reindex(mapping_complete, copy=True)
 
-- 
2.43.0


From 39252f1d6be9a005ca6bdf6be02ef00acfee49ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 30/44] fix: density matrices given by real numbers could not
 be extended nor normalized

---
 graphix/sim/density_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index d4fdfb0..f53ccb7 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -103,6 +103,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                     raise ValueError("Cannot interpret the provided density matrix as a qubit operator.")
                 check_size_consistency(self.rho)
                 if self.rho.dtype != np.object_:
+                    # Real-valued data must be promoted: operations expect either complex or symbolic matrices.
+                    self.rho = self.rho.astype(np.complex128, copy=False)
                     if not lv.is_unit_trace(self.rho):
                         raise ValueError("Density matrix must have unit trace.")
                     if not lv.is_psd(self.rho):
-- 
2.43.0


From 0ed460f48723503ce695a19baf60e8a616084e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 31/44] fix: DensityMatrix.fidelity failed on rounding errors
 in the imaginary part

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index f53ccb7..ad6ac4f 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -408,7 +408,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
         if isinstance(result, Expression):
             return result
-        assert math.isclose(result.imag, 0)
+        assert math.isclose(result.imag, 0, abs_tol=1e-9)
         return result.real
 
     def flatten(self) -> Matrix:
-- 
2.43.0


From 0d0d2bed653f3c00ca375194b9c30dac63532234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 32/44] fix: ComposeNoiseModel.input_nodes gave iterators of
 nodes to its first model only

---
 graphix/noise_models/noise_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index b350965..5a834b9 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,6 +150,8 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
+        # `nodes` may be a single-use iterator, and every model has to see all the nodes.
+        nodes = list(nodes)
         return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
-- 
2.43.0


From 003f9c5583e060abd27de1b18cd7254c7ee235f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 33/44] fix: density matrices partially substituted lost or
 refused entries of another type than the first

---
 graphix/sim/density_matrix.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad6ac4f..b0787d8 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -32,7 +32,7 @@ from graphix.sim.statevec import Statevector, _check_permutation
 from graphix.states import BasicStates, State
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping, Sequence
+    from collections.abc import Callable, Mapping, Sequence
     from typing import SupportsComplex, SupportsFloat
 
     from graphix.noise_models.noise_model import Noise
@@ -40,6 +40,15 @@ if TYPE_CHECKING:
     from graphix.sim.data import Data
 
 
+def _map_entries(f: Callable[[object], object], rho: Matrix) -> Matrix:
+    """Apply a substitution to every entry; the result is numeric if no expression is left."""
+    # Without `otypes`, `np.vectorize` would cast all the entries to the type of the first one.
+    result: Matrix = np.vectorize(f, otypes=[np.object_])(rho)
+    if any(isinstance(value, Expression) for value in result.flat):
+        return result
+    return result.astype(np.complex128)
+
+
 class DensityMatrix(DenseState, InplaceParameterizable):
     """DensityMatrix object."""
 
@@ -470,7 +479,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameter(
         self, variable: Parameter, substitute: ExpressionOrSupportsFloat, *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameter(value, variable, substitute))(self.rho)
+        rho = _map_entries(lambda value: with_parameter(value, variable, substitute), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -482,7 +491,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameters(
         self, assignment: Mapping[Parameter, ExpressionOrSupportsFloat], *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameters(value, assignment))(self.rho)
+        rho = _map_entries(lambda value: with_parameters(value, assignment), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
-- 
2.43.0


From 077f7ab86700861a9df5014805069d435ae9138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 34/44] fix: keep track of measured qubits in circuits visited
 in place

---
 graphix/transpiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index d4006ac..1d6ebab 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -664,8 +664,11 @@ class Circuit(InplaceParameterizable):
             for instr in self.instruction:
                 result.add(instr.visit(visitor, copy=True))
             return result
+        self.active_qubits = set(range(self.width))
         for instr in self.instruction:
             instr.visit(visitor, copy=False)
+            if instr.kind == InstructionKind.M:
+                self.active_qubits.discard(instr.target)
         return self
 
     def apply_angle(self, f: Callable[[ParameterizedAngle], ParameterizedAngle], *, copy: bool = False) -> Circuit:
-- 
2.43.0


From 435a8303f8e30400379af820da4feb4c5938210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 35/44] fix: extraction strings of inputs measured along a
 negative Pauli axis had the wrong sign

---
 graphix/circ_ext/extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 5d5fa14..430ec93 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -551,7 +551,8 @@ def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node)
     negative_sign ^= bool(len(inter_c_odd_set) // 2 % 2)
 
     # One phase flip per node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
-    for n in c_set | odd_c_set:
+    # The corrected node itself is not absorbed.
+    for n in (c_set | odd_c_set) - {node}:
         meas = og.measurements.get(n, None)
         if isinstance(meas, PauliMeasurement):
             negative_sign ^= meas.sign == Sign.MINUS
-- 
2.43.0


From 3ea6069826052b230cd5f9f4444d4579b63cbd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 36/44] fix: S on a hollow node with a loop and without sign
 left the wrong signs on the neighbours of the graph state

---
 graphix/graphsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 24efae6..ee2602e 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -248,6 +248,9 @@ class GraphState(Graph):
                 self.local_complement(node)
                 for i in self.neighbors(node):
                     self.advance(i)
+                if not self.nodes[node]["sign"]:
+                    for i in self.neighbors(node):
+                        self.flip_sign(i)
             else:
                 self.local_complement(node)
                 for i in self.neighbors(node):
-- 
2.43.0


From c11601740b3f062894fbf2727e9487bc8e33b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 37/44] fix: GraphState.apply_vops refused the identity

---
 graphix/graphsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index ee2602e..4310163 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -132,6 +132,8 @@ class GraphState(Graph):
         for node, vop in vops.items():
             for lc in reversed(vop.hsz):
                 match lc:
+                    case Clifford.I:
+                        pass
                     case Clifford.Z:
                         self.z(node)
                     case Clifford.H:
-- 
2.43.0


From c325d134f8564a9330e96c220db56f399f480600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 38/44] fix: minimizing the space of patterns with preparations
 other than |+> failed instead of skipping the causal flow heuristic

---
 graphix/space_minimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/space_minimization.py b/graphix/space_minimization.py
index 35e7bdd..031d132 100644
--- a/graphix/space_minimization.py
+++ b/graphix/space_minimization.py
@@ -193,7 +193,7 @@ class SpaceMinimizationHeuristics:
         """
         try:
             cf = pattern.to_xzcorrections().downcast_bloch().to_causalflow()
-        except (TypeError, FlowError):
+        except (TypeError, ValueError, FlowError):
             return None
         else:
             meas_order = tuple(chain(*reversed(cf.partial_order_layers[1:])))
-- 
2.43.0


From 22ab4c0ee6455073bb9519483a49cf2ae050f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 39/44] fix: the representation of instruction angles was
 truncated and could not be evaluated

---
 graphix/instruction.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/graphix/instruction.py b/graphix/instruction.py
index c70d589..2bd5c2f 100644
--- a/graphix/instruction.py
+++ b/graphix/instruction.py
@@ -6,6 +6,7 @@ import enum
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, field
 from enum import Enum
+from fractions import Fraction
 from typing import TYPE_CHECKING, ClassVar, Literal, SupportsFloat, TypeAlias
 
 # Self introduced in Python 3.11
@@ -24,16 +25,21 @@ from graphix.repr_mixins import DataclassReprMixin
 
 def repr_angle(angle: ParameterizedAngle) -> str:
     """
-    Return the representation string of an angle in radians.
+    Return the representation string of an angle, as an expression in ``pi``.
 
     This is used for pretty-printing instructions with `angle` parameters.
-    Delegates to :func:`pretty_print.angle_to_str`.
+    Simple fractions of π are delegated to :func:`pretty_print.angle_to_str`;
+    other angles are printed with all their digits, so that the result evaluates to
+    the angle if ``pi`` is bound to :data:`~graphix.fundamentals.ANGLE_PI`.
     """
     # Non-float-supporting objects are returned as-is
     if not isinstance(angle, SupportsFloat):
         return str(angle)
 
-    return angle_to_str(angle, OutputFormat.ASCII)
+    value = float(angle)
+    if value != float(Fraction(value).limit_denominator(1000)):
+        return f"{value}*pi"
+    return angle_to_str(value, OutputFormat.ASCII, multiplication_sign=True)
 
 
 class InstructionKind(Enum):
-- 
2.43.0


From 8d563fa6c1722d7070e6d2d3ca5ea79cc98584f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 40/44] fix: a copy of a pattern shared the domains of its
 commands with the original

---
 graphix/pattern.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 3e0e5ba..9a17461 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1623,7 +1623,7 @@ class Pattern(InplaceParameterizable):
     def copy(self) -> Pattern:
         """Return a copy of the pattern."""
         result = self.__new__(self.__class__)
-        result.__seq = [copy.copy(cmd) for cmd in self.__seq]
+        result.__seq = [_copy_command(cmd) for cmd in self.__seq]
         result.__input_nodes = self.__input_nodes.copy()
         result.__output_nodes = self.__output_nodes.copy()
         result.__n_node = self.__n_node
@@ -1957,6 +1957,15 @@ class Pattern(InplaceParameterizable):
         return self
 
 
+def _copy_command(cmd: CommandType) -> CommandType:
+    """Return a copy of the command, with its own domains."""
+    result = copy.copy(cmd)
+    for name, value in vars(result).items():
+        if isinstance(value, (list, set)):
+            setattr(result, name, value.copy())
+    return result
+
+
 class PatternError(Exception):
     """Exception subclass to handle pattern errors."""
 
-- 
2.43.0


From 7eef408cd7599d290e1d1ec45a9a52ef7cb193f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:27 +0000
Subject: [PATCH 41/44] fix: a copy of a tensor network shared the index
 bookkeeping with the original and lost its output nodes

---
 graphix/sim/tensornet.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c9f4b3b..504a6c7 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -70,7 +70,13 @@ class MBQCTensorNet(TensorNetwork):
         if ts is None:
             ts = []
         super().__init__(ts=ts, virtual=virtual)
-        self._dangling = ts._dangling if isinstance(ts, MBQCTensorNet) else {}
+        if isinstance(ts, MBQCTensorNet):
+            # The new network must not share its bookkeeping with `ts`.
+            self._dangling = dict(ts._dangling)
+            if default_output_nodes is None:
+                default_output_nodes = ts.default_output_nodes
+        else:
+            self._dangling = {}
         self.default_output_nodes = None if default_output_nodes is None else list(default_output_nodes)
         # prepare the graph state if graph_nodes and graph_edges are given
         if graph_nodes is not None and graph_edges is not None:
-- 
2.43.0


From baf67aa6448682ea82a27550d13b0adf4a64375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:48 +0000
Subject: [PATCH 42/44] fix: the tensor network backend measured isolated nodes
 with wrong probabilities or failed after local operations

---
 graphix/sim/tensornet.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 504a6c7..fa1272d 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -765,21 +765,22 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         measurement : Measurement
             measure plane and angle
         """
+        bloch = measurement.to_bloch()
+        if isinstance(bloch.angle, Expression):
+            raise TypeError("Parameterized pattern unsupported.")
+        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
         if node in self._isolated_nodes:
-            vector: npt.NDArray[np.complex128] = self.state.open_tensor(node)
-            probs = (np.abs(vector) ** 2).astype(np.float64)
-            probs /= np.sum(probs)
-            result: Outcome = self.branch_selector.measure(node, lambda: probs[0], rng=rng, stacklevel=stacklevel + 1)
+            # All the tensors of an isolated node together are its state.
+            tensors = self.state.select(str(node)).tensors
+            vector = qtn.tensor_contract(*tensors, output_inds=[self.state._dangling[str(node)]]).data
+            prob0 = abs(np.vdot(vec, vector)) ** 2 / np.vdot(vector, vector).real
+            result: Outcome = self.branch_selector.measure(node, lambda: prob0, rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
-            buffer = 1 / probs[result] ** 0.5
+            buffer = 1 / abs(1 - prob0 if result else prob0) ** 0.5
         else:
             result = self.branch_selector.measure(node, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
             buffer = 2**0.5
-        bloch = measurement.to_bloch()
-        if isinstance(bloch.angle, Expression):
-            raise TypeError("Parameterized pattern unsupported.")
-        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
         if result:
             vec = Ops.from_axis(bloch.plane.orth) @ vec
         proj_vec = vec * buffer
-- 
2.43.0


From 63ba6d9cc4d34bb5a146ac86468b94b9831260a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:40 +0000
Subject: [PATCH 43/44] fix: qubits of a tensor network could not be prepared
 in a state given as an array

---
 graphix/sim/tensornet.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index fa1272d..170cb64 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -118,6 +118,12 @@ class MBQCTensorNet(TensorNetwork):
         ind = gen_str()
         tag = str(index)
         match state:
+            case np.ndarray():  # Should be the first case: comparing an array with a string is elementwise.
+                if state.shape != (2,):
+                    raise ValueError("state must be 2-element np.ndarray")
+                if not np.isclose(np.linalg.norm(state), 1):
+                    raise ValueError("state must be normalized")
+                vec = state
             case "plus":
                 vec = BasicStates.PLUS.to_statevector_numpy()
             case "minus":
@@ -131,13 +137,7 @@ class MBQCTensorNet(TensorNetwork):
             case "iminus":
                 vec = BasicStates.MINUS_I.to_statevector_numpy()
             case _:
-                if isinstance(state, str):
-                    raise TypeError(f"Unknown state: {state}")
-                if state.shape != (2,):
-                    raise ValueError("state must be 2-element np.ndarray")
-                if not np.isclose(np.linalg.norm(state), 1):
-                    raise ValueError("state must be normalized")
-                vec = state
+                raise TypeError(f"Unknown state: {state}")
         tsr = Tensor(vec, [ind], [tag, "Open"])
         self.add_tensor(tsr)
         self._dangling[tag] = ind
@@ -186,13 +186,16 @@ class MBQCTensorNet(TensorNetwork):
             # `states` is of type `PrepareState`, a type alias for
             # `str | npt.NDArray[np.complex128]`. To distinguish
             # between the two cases, we just need to check whether
-            # an element is a character or a complex number.
-            if len(states_list) == 0 or isinstance(states_list[0], SupportsComplex):
+            # an element is a character or a complex number
+            # (`np.ndarray` supports `complex` as well).
+            if len(states_list) == 0 or (
+                isinstance(states_list[0], SupportsComplex) and not isinstance(states_list[0], np.ndarray)
+            ):
                 states_iter = [np.array(states_list)] * len(indices)
             else:
 
                 def get_prepare_state(item: PrepareState | SupportsComplex) -> PrepareState:
-                    if isinstance(item, SupportsComplex):
+                    if not isinstance(item, (str, np.ndarray)):
                         raise TypeError("Unexpected complex")
                     return item
 
-- 
2.43.0


From 28e236d18249350fc6ab32612c1ab8fb070186b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:39 +0000
Subject: [PATCH 44/44] fix: two nodes carried by one tensor could not be
 entangled in a tensor network

---
 graphix/sim/tensornet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 170cb64..02f6487 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -731,8 +731,10 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
                 new_inds = [gen_str() for _ in range(3)]
 
                 # retag dummy indices
+                # (there is only one tensor if it carries both indices)
+                for tensor in tensors:
+                    tensor.retag({"Open": "Close"}, inplace=True)
                 for i in range(2):
-                    tensors[i].retag({"Open": "Close"}, inplace=True)
                     self.state._dangling[str(edge[i])] = new_inds[i]
                 cz_tn = TensorNetwork(
                     [
-- 
2.43.0

