"""Writes /verif/properties.jsonl (the list of properties; edited here, one tuple per property)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

p("C01", "The 24 single-qubit Clifford gates form a faithful group with exact tables",
  "Composing, inverting and decomposing the 24 single-qubit Clifford gates always agrees with the corresponding operations on their 2x2 unitaries up to a global phase, and every one of them is recognised from any scalar multiple of its matrix while no non-Clifford unitary is. Conjugating a Pauli operator (with sign) by a gate, moving a gate across X/Z corrections conditioned on two parities, and the emitted H/S/Z and OpenQASM decompositions all describe exactly that same unitary.",
  ["inputs"], "all 24 gates, all pairs, all signed Paulis, all membership patterns of the two parity sets, all global phases",
  "tests compare selected products and a handful of gates; table entries are data that no sampled run visits exhaustively together with domains, phases and decompositions",
  ["graphix/clifford.py", "graphix/_db.py"],
  [("composition, inverse, recognition from matrix", "graphix/clifford.py:Clifford.__matmul__, conj, try_from_matrix"),
   ("Pauli conjugation and domain commutation", "graphix/clifford.py:Clifford.measure, measure_axis, commute_domains"),
   ("tables", "graphix/_db.py"), ("as MBQC fragment", "graphix/clifford.py:Clifford.to_opengraph")])

p("C02", "Signs, complex units, Paulis, axes and planes follow matrix algebra",
  "Products, negations and scalar multiples of signs, fourth roots of unity and signed Pauli operators equal the products of the numbers and matrices they stand for, for every combination of operands including plain numbers. Axes, planes, eigenstates, planar states and rotation operators denote the Bloch vectors and matrices documented for them for every angle.",
  ["inputs"], "all operands and operand types; all real angles",
  "tests sample operand pairs and a few angles; the algebra must hold for each combination and for symbolic angles",
  ["graphix/fundamentals.py", "graphix/pauli.py", "graphix/states.py", "graphix/ops.py"],
  [("Sign, ComplexUnit, Axis, Plane", "graphix/fundamentals.py"), ("Pauli product", "graphix/pauli.py:Pauli.__matmul__, __mul__, eigenstate"),
   ("planar states", "graphix/states.py:PlanarState.to_statevector_numpy"), ("rotation matrices", "graphix/ops.py:Ops.rx, ry, rz, j, rzz")])

p("C03", "Measurement descriptions denote one basis under every conversion",
  "Converting a measurement between its Pauli form and its plane/angle form, recognising Pauli angles, negating it, or absorbing a single-qubit Clifford into it yields a description of exactly the basis (with outcome labels) that the operation stands for, for every plane and every real or symbolic angle. The two projectors a simulator derives from a description are the complementary rank-one projectors on the documented Bloch vector.",
  ["inputs"], "all planes, all angles (numeric and parametric), all signed Paulis, all 24 Cliffords, both outcomes",
  "tests draw random angles; wrap-around, sign and plane-orientation mistakes show only for particular plane/gate/angle-range combinations",
  ["graphix/measurements.py", "graphix/fundamentals.py", "graphix/sim/base_backend.py"],
  [("conversions", "graphix/measurements.py:PauliMeasurement.to_bloch, Measurement.to_pauli_or_none, to_pauli_or_bloch"),
   ("Clifford action", "graphix/measurements.py:BlochMeasurement.clifford, PauliMeasurement.clifford"),
   ("command level", "graphix/command.py:M.clifford"), ("projectors", "graphix/sim/base_backend.py:_outcome_to_operator_matrix")])

p("C04", "Simulation adapts every command to earlier outcomes exactly as specified",
  "When a pattern is executed, every command acts exactly once and in order on the nodes it names: a measurement with X- and Z-parity sets is performed in the basis conjugated by X and Z according to the parities of the already recorded outcomes, X/Z corrections are applied exactly when the parity of their set is odd, and every outcome is recorded under its node. The final state is ordered by the declared outputs and equals the normalised branch determined by the recorded outcomes.",
  ["inputs", "histories"], "all patterns, input states, backends and outcome histories",
  "tests run random patterns with sampled outcomes and compare pairs of executions; they do not fix the meaning of each command for each plane, parity and history",
  ["graphix/simulator.py", "graphix/sim/base_backend.py", "graphix/command.py"],
  [("command loop", "graphix/simulator.py:PatternSimulator.run"), ("adaptive basis", "graphix/simulator.py:DefaultMeasureMethod.describe_measurement, MeasureMethod.check_domain"),
   ("state update", "graphix/sim/base_backend.py:DenseStateBackend")],
  [("results", "recorded outcome per node", "graphix/simulator.py:DefaultMeasureMethod.results")])

p("C05", "Signal shifting preserves the outcome statistics and output states",
  "Shifting signals rewrites a pattern so that, for every assignment of outcomes, the rewritten pattern with outcomes relabelled through the returned signal map realises the same linear map on the outputs as the original. Afterwards no measurement in a Bloch plane depends on outcomes through a shiftable parity, all methods agree, and the relabelling function inverts it consistently.",
  ["inputs", "histories"], "all patterns with arbitrary (overlapping, nested) domains, all outcome histories, every method",
  "tests compare the fidelity of random patterns on a sampled branch; bugs that flip a domain only for particular planes or nested domains cancel in deterministic patterns",
  ["graphix/pattern.py"],
  [("direct method", "graphix/pattern.py:Pattern.shift_signals_direct, extract_signal"),
   ("Pauli commutation method", "graphix/pattern.py:Pattern.shift_signals, _commute_xs, _commute_zs, _commute_ms, _commute_ss"),
   ("relabelling", "graphix/pattern.py:shift_outcomes")])

p("C06", "Standardization reorders commands without changing the computation",
  "Standardizing a pattern yields an equivalent one, branch by branch and for every outcome assignment, in which preparations precede entanglements, which precede measurements, which precede corrections, with local Clifford gates absorbed into the measurements or merged into one trailing gate per output. The set of nodes, the inputs and outputs and their order, and the results of measurements are unchanged, and standardizing again changes nothing.",
  ["inputs", "histories"], "all runnable patterns over all command kinds and all outcome assignments",
  "tests use random circuits whose patterns exercise few of the commutation cases (Clifford past entanglement, corrections past Clifford, mixed planes)",
  ["graphix/optimization.py", "graphix/pattern.py"],
  [("standard form", "graphix/optimization.py:StandardizedPattern.from_pattern, _commute_clifford, _update_corrections, to_pattern"),
   ("in-place commutation", "graphix/pattern.py:Pattern.standardize, is_standard")])

p("C07", "Pushing and removing Pauli measurements preserves the computation",
  "Moving Pauli measurements to the front of a pattern and eliminating them from the graph yields a pattern that computes the same map from inputs to outputs, branch by branch up to the relabelling and post-selection the operation documents. After removal the only Pauli measurements left are those that the documentation allows, and their outcomes keep their probabilities.",
  ["inputs", "histories"], "all patterns over all graphs, Pauli bases and signs, Clifford decorations and domains, all outcome assignments",
  "tests compare final states of random circuits; sign and Clifford bookkeeping errors appear only for particular neighbourhood shapes and bases",
  ["graphix/remove_pauli_measurements.py", "graphix/optimization.py", "graphix/pattern.py"],
  [("pushing", "graphix/remove_pauli_measurements.py:PauliPushingCut.from_standardizedpattern"),
   ("removal", "graphix/remove_pauli_measurements.py:_RemovePauliMeasurements")])

p("C08", "Pattern clean-up passes preserve semantics and reach their normal form",
  "Splitting correction and measurement domains into singletons, dropping domains that cannot influence a Pauli measurement, removing local Clifford commands, removing input nodes, re-expressing measurements and renumbering nodes each yield a pattern that is equivalent for every outcome assignment. The result is in the normal form the pass is named after, and passes that return a copy leave the original pattern untouched.",
  ["inputs", "histories"], "all patterns, outcome assignments and node renamings",
  "tests check few hand-written patterns; domain arithmetic must be right for each plane and overlap of domains",
  ["graphix/optimization.py", "graphix/pattern.py", "graphix/command.py"],
  [("passes", "graphix/optimization.py:single_qubit_domains, remove_useless_domains, remove_local_clifford_commands"),
   ("renaming", "graphix/pattern.py:Pattern.reindex, graphix/command.py:*.reindex"), ("copies", "graphix/pattern.py:Pattern.copy, apply, map")])

p("C09", "Linear algebra over GF(2) is exact for matrices of every shape",
  "Matrix products, ranks, row reduction, null spaces, right inverses and solutions of linear systems over the two-element field are mathematically correct for matrices of every shape, including empty, rank-deficient and non-square ones. A right inverse is reported exactly when one exists, and inputs are never modified unless documented.",
  ["inputs"], "all binary matrices of all shapes and memory layouts",
  "tests use small lists and random matrices; index and pivot errors show only for particular rank profiles",
  ["graphix/_linalg.py"],
  [("kernels", "graphix/_linalg.py:_mat_mul_jit, _elimination_jit, _solve_f2_linear_system_jit"), ("matrix class", "graphix/_linalg.py:MatGF2")])

p("C10", "Dependency layers are a sound, complete, minimal-depth order",
  "The partial order computed from the dependencies of a pattern or of corrections places every node in exactly one layer, puts each measurement strictly before everything that depends on its outcome, puts the outputs last, and uses the smallest possible number of layers. A cyclic dependency is reported instead of ordered, and derived depths and total orders agree with the layers; the given graph or corrections are not modified.",
  ["inputs"], "all dependency relations over all node sets",
  "tests list a few graphs; soundness must hold for every relation and both construction routes",
  ["graphix/flow/_partial_order.py", "graphix/flow/core.py", "graphix/optimization.py", "graphix/pattern.py"],
  [("layering", "graphix/flow/_partial_order.py:compute_topological_generations"),
   ("from patterns", "graphix/optimization.py:StandardizedPattern.partial_order_layers"),
   ("from corrections", "graphix/flow/core.py:_corrections_to_partial_order_layers, XZCorrections.generate_total_measurement_order")])

p("C11", "XZ-corrections: validity checks and realised patterns are exact",
  "A set of X and Z corrections is accepted as well formed exactly when it corrects only measured nodes, refers to existing nodes, never acts on the past and its order is a partition of the nodes, and a total measurement order is declared compatible exactly when it lists the measured nodes once and respects the layers of the partial order (hence all corrections). The pattern built from accepted corrections applies precisely these corrections to each node and measures in a compatible order, and extracting corrections from it returns the same ones.",
  ["inputs"], "all open graphs, correction maps, layer structures and candidate orders",
  "tests enumerate a few malformed examples; acceptance must coincide with the definition for every combination",
  ["graphix/flow/core.py", "graphix/optimization.py"],
  [("checks", "graphix/flow/core.py:XZCorrections.check_well_formed, is_compatible"),
   ("pattern synthesis", "graphix/flow/core.py:XZCorrections.to_pattern"), ("extraction", "graphix/optimization.py:StandardizedPattern.to_xzcorrections")])

p("C12", "Flow verification accepts exactly the flows of the definition",
  "A candidate causal flow, generalised flow or Pauli flow with its layers is accepted if and only if it satisfies every proposition of the published definition on its open graph, and a rejection names a proposition that is actually violated. Focusedness is reported exactly when every correction set satisfies the focusing conditions.",
  ["inputs"], "all open graphs, correction functions, measurement labels and layer structures",
  "tests give a few hand-made ill-formed flows per error; equivalence with the definition quantifies over all candidates",
  ["graphix/flow/core.py", "graphix/flow/exceptions.py"],
  [("checks", "graphix/flow/core.py:PauliFlow.check_well_formed, GFlow.check_well_formed, CausalFlow.check_well_formed, _check_flow_general_properties, PauliFlow.is_focused")])

p("C13", "Flow finding is sound and complete with maximally delayed layers",
  "For every open graph the search returns a causal flow, generalised flow or Pauli flow exactly when one exists, what it returns satisfies the definition of the corresponding flow, and generalised and Pauli flows are focused with the minimal number of layers for the correction function. The result does not depend on node numbering.",
  ["inputs"], "all open graphs, planes, Pauli labels, numbers of inputs and outputs",
  "tests use curated graphs; the polynomial algorithm has separate branches for equal and unequal numbers of inputs and outputs whose incremental linear algebra only fails on rare graphs",
  ["graphix/flow/_find_gpflow.py", "graphix/flow/_find_cflow.py", "graphix/opengraph.py"],
  [("gflow and Pauli flow", "graphix/flow/_find_gpflow.py:AlgebraicOpenGraph, compute_correction_matrix, compute_partial_order_layers"),
   ("causal flow", "graphix/flow/_find_cflow.py:find_cflow"), ("entry points", "graphix/opengraph.py:OpenGraph.to_causalflow_or_none, to_gflow_or_none, to_pauliflow_or_none")])

p("C14", "Patterns built from flows are runnable, deterministic and reversible to flows",
  "The pattern generated from an open graph with causal, generalised or Pauli flow is runnable and produces, for every input and every outcome branch with equal probability, the same output state as post-selecting all measurements on outcome 0. Recovering the open graph, corrections and flow from such a pattern yields objects describing the same graph, measurements and corrections.",
  ["inputs", "histories"], "all open graphs with flow, all angles, all inputs and all outcome branches",
  "tests sample one branch of a few graphs; determinism quantifies over all branches and planes",
  ["graphix/flow/core.py", "graphix/opengraph.py", "graphix/pattern.py"],
  [("corrections from flow", "graphix/flow/core.py:PauliFlow.to_xzcorrections, GFlow.to_xzcorrections, CausalFlow.to_xzcorrections"),
   ("back to flows", "graphix/flow/core.py:XZCorrections.to_causalflow, to_gflow, to_pauliflow"),
   ("pattern", "graphix/opengraph.py:OpenGraph.to_pattern, graphix/pattern.py:Pattern.to_opengraph")])

p("C15", "A pattern is declared runnable exactly when it can be executed",
  "The runnability check accepts a pattern if and only if every node is prepared at most once and before use, no node is used after being measured, domains refer only to already measured nodes, and exactly the declared outputs are left unmeasured; a rejection names an offending command and node. Counts, node sets, output lists and space usage reported by a pattern agree with replaying its commands one by one.",
  ["inputs", "histories"], "all command sequences",
  "tests list single violations; the check must be equivalent to a replay for every sequence",
  ["graphix/pattern.py", "graphix/space_minimization.py"],
  [("check", "graphix/pattern.py:Pattern.check_runnability"), ("bookkeeping", "graphix/pattern.py:Pattern.add, extend, replace, nodes, n_node, max_space, space_list, reorder_output_nodes, max_degree, isolated_nodes, connected_nodes"),
   ("space", "graphix/space_minimization.py:pattern_max_space")])

p("C16", "Composing patterns or open graphs realises composition of maps",
  "Composing two patterns, or two open graphs, along any valid node mapping yields one whose action is the composition of both actions on shared nodes and their tensor product elsewhere, with inputs, outputs and results collected in the documented order and no unrelated nodes identified. Invalid mappings are rejected and neither operand is modified.",
  ["inputs"], "all pairs of patterns/open graphs and all partial node mappings",
  "tests use few fixed examples; name clashes, preserved mappings and merged ports depend on the mapping",
  ["graphix/pattern.py", "graphix/opengraph.py"],
  [("patterns", "graphix/pattern.py:Pattern.compose, node_mapping, reindex"), ("open graphs", "graphix/opengraph.py:OpenGraph.compose, neighbors, odd_neighbors, is_equal_structurally")])

p("C17", "State-vector operations are exact for every number of qubits and every qubit",
  "Applying one- and multi-qubit operators, controlled-Z, swaps, tensoring, qubit insertion, projection with removal, permutations and expectation values on a state vector computes the textbook linear-algebra result for every number of qubits, every choice of distinct qubits and every operator, including above the size at which computation becomes parallel. Amplitudes outside the action are untouched and memory shared with the caller is not modified.",
  ["inputs"], "all numbers of qubits, qubit positions, operators (numeric or symbolic) and amplitudes",
  "tests use up to a handful of qubits and never cross the parallel threshold for each kernel; bit-index arithmetic must hold for all sizes",
  ["graphix/sim/statevec.py"],
  [("kernels", "graphix/sim/statevec.py:_tensor_jit, _add_default_node_jit, _swap_jit, _entangle_jit, _evolve_single_jit, _expectation_single_jit, _evolve_single_and_compute_norm, _project_qubit_jit"),
   ("methods", "graphix/sim/statevec.py:Statevector")])

p("C18", "Density-matrix simulation coincides with the state-vector semantics",
  "Every operation on density matrices acts as conjugation by (or partial trace, Kraus sum, expectation of) the operator that the corresponding state-vector operation applies, so that pure states evolve identically in both representations. Traces are preserved by channels and unitaries, partial traces and fidelities equal their definitions, and results do not depend on qubit position conventions.",
  ["inputs"], "all density matrices, operators, qubit positions, subsets and channels",
  "tests compare selected operations on small random states; index contractions must be right for each subset and order",
  ["graphix/sim/density_matrix.py", "graphix/sim/base_backend.py"],
  [("operations", "graphix/sim/density_matrix.py:DensityMatrix"), ("contractions", "graphix/sim/base_backend.py:tensordot, kron, outer, vdot, matmul")])

p("C19", "Noise channels are the documented completely positive trace-preserving maps",
  "Every built-in channel, for every admissible probability, satisfies the completeness relation and acts as the Pauli, depolarising, dephasing or amplitude-damping map documented for it on one or two qubits. User-supplied Kraus operators are accepted exactly when they are square of one common power-of-two dimension, at most 4^n many for n qubits, and satisfy the completeness relation.",
  ["inputs"], "all probabilities in range, all density matrices, all Kraus lists",
  "tests sample probabilities; identities between coefficients must hold for all of them",
  ["graphix/channels.py", "graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py"],
  [("channels", "graphix/channels.py"), ("noise to channel", "graphix/noise_models/depolarising.py, amplitude_damping.py:to_krauschannel")])

p("C20", "Noise models insert exactly the documented noise around each command",
  "Transpiling a command sequence to a noisy one keeps all original commands in order and adds, next to each command, exactly the noise its model documents for that kind of command on exactly its nodes, with conditional noise firing only under its condition. Readout confusion flips recorded outcomes with the stated probability, and composing models inserts the noise of all of them.",
  ["inputs", "programs"], "all command sequences, probabilities, models and random generators",
  "tests look at total effect of one noise type at a time on tiny patterns",
  ["graphix/noise_models/noise_model.py", "graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py", "graphix/simulator.py"],
  [("per-command insertion", "graphix/noise_models/*.py:command, input_nodes, confuse_result"), ("execution", "graphix/simulator.py:PatternSimulator.run")])

p("C21", "Symbolic parameters commute with every numeric operation",
  "Substituting values for parameters in angles, measurements, commands, patterns, circuits, open graphs, flows or states and then computing gives the same as computing symbolically and then substituting, for all values and any set of parameters. Affine arithmetic on parameters is exact, simultaneous substitution does not leak between parameters, unrelated parameters are untouched, and an object reports being parameterised exactly while some parameter is left.",
  ["inputs", "programs"], "all affine expressions, assignments and parameterised objects",
  "tests check a few expressions; cancellation, renaming and simultaneous substitution are corner cases over all coefficients",
  ["graphix/parameter.py", "graphix/pattern.py", "graphix/transpiler.py", "graphix/measurements.py", "graphix/opengraph.py"],
  [("affine algebra", "graphix/parameter.py:AffineExpression, Placeholder"), ("containers", "graphix/parameter.py:with_parameter, with_parameters, Parameterizable"),
   ("objects", "graphix/pattern.py, transpiler.py, opengraph.py, flow/core.py: replace_parameters / with_parameters")])

p("C22", "Transpiling a circuit yields a pattern computing the same operation",
  "For every circuit and all angles, the pattern obtained by transpilation maps every input state to the state the circuit maps it to, in every outcome branch and up to global phase, with outputs in qubit order and classical results in the order of measurement. Each gate decomposition used on the way equals the gate it replaces.",
  ["programs", "inputs", "histories"], "all circuits over all gates, all angles, all inputs and outcome branches",
  "tests simulate sampled random circuits on one random branch; angle handling and output ordering depend on the gate mix and measurements",
  ["graphix/transpiler.py", "graphix/instruction.py"],
  [("transpilation", "graphix/transpiler.py:Circuit.transpile, transpile_to_causalflow, instructions_to_jcz"),
   ("decompositions", "graphix/transpiler.py:decompose_rzz, decompose_ccx, decompose_cnot, decompose_swap, decompose_y, decompose_rx, decompose_ry, decompose_rz, normalize_angle")])

p("C23", "Circuit rewriting passes preserve the circuit's action",
  "Eliminating swaps, rewriting J gates, moving measurements to the Z axis and mapping over qubits or angles produce circuits with the same unitary and the same measurement statistics, with outputs located where the pass says they are. Passes asked to copy leave the original unchanged and a circuit never acts on a qubit after measuring it.",
  ["programs"], "all circuits, with measurements anywhere and any pattern of swaps",
  "tests use a handful of circuits; interleavings of swaps, measurements and multi-qubit gates are unbounded",
  ["graphix/transpiler.py", "graphix/instruction.py"],
  [("swap elimination", "graphix/transpiler.py:transpile_swaps, TranspileSwapsResult"), ("axis and J rewriting", "graphix/transpiler.py:Circuit.transpile_measurements_to_z_axis, transpile_j_to_rzh"),
   ("visitors", "graphix/instruction.py:InstructionVisitor, *.visit; graphix/transpiler.py:Circuit.visit, apply_angle, add"),
   ("simulation", "graphix/transpiler.py:Circuit.simulate")])

p("C24", "Circuits extracted from flows implement the pattern",
  "The Pauli exponentials, Clifford map and circuit extracted from a pattern with Pauli flow implement, for all angles, the same isometry as the pattern up to global phase. Pauli strings and tableaux convert into each other without loss and the synthesised Clifford circuit realises the given stabiliser map including signs.",
  ["inputs", "programs"], "all open graphs with Pauli flow, all angles, all stabiliser tableaux",
  "tests compare states on selected graphs; sign and ordering mistakes depend on the flow structure",
  ["graphix/circ_ext/extraction.py", "graphix/circ_ext/compilation.py", "graphix/flow/core.py", "graphix/opengraph.py"],
  [("extraction", "graphix/circ_ext/extraction.py:PauliString, PauliExponential, PauliExponentialDAG, CliffordMap, extraction_ps_from_corrected_node"),
   ("synthesis", "graphix/circ_ext/compilation.py:er_to_circuit, pexp_ladder_pass, cm_berg_pass")])

p("C25", "Graph-state rewriting tracks the quantum state exactly",
  "Local gates, equivalence moves and Pauli measurements on a decorated graph state change the represented quantum state exactly as the gate, the identity, or the projection on the reported outcome would, for every graph and decoration. The reported outcome is the requested one unless the state forces another.",
  ["inputs", "histories"], "all graphs, node decorations, nodes and outcomes, and sequences of operations",
  "tests check a few small graphs; sign propagation depends on decorations of neighbours",
  ["graphix/graphsim.py"],
  [("rewrites", "graphix/graphsim.py:GraphState.local_complement, equivalent_graph_e1, equivalent_graph_e2, equivalent_fill_node, apply_vops"),
   ("measurements", "graphix/graphsim.py:GraphState.measure_x, measure_y, measure_z"), ("denotation", "graphix/graphsim.py:GraphState.to_statevector")])

p("C26", "Exported OpenQASM programs denote the exported circuit or pattern",
  "The OpenQASM 3 text emitted for a circuit applies, gate by gate, the circuit's operations with the right qubits and angles, and the text emitted for a pattern prepares, entangles, adaptively measures and corrects exactly as the pattern does. Every conditional in the text depends on exactly the outcomes of its parity set.",
  ["programs", "inputs"], "all circuits and patterns, all angles and domains",
  "tests compare text fragments or round-trip circuits through one parser; pattern export is not executed",
  ["graphix/qasm3_exporter.py"],
  [("circuits", "graphix/qasm3_exporter.py:circuit_to_qasm3_lines, instruction_to_qasm3, angle_to_qasm3"),
   ("patterns", "graphix/qasm3_exporter.py:pattern_to_qasm3_lines, command_to_qasm3_lines, domain_to_qasm3_lines")])

p("C27", "Space minimisation keeps the computation and never increases space",
  "Reordering a pattern to minimise the number of simultaneously live nodes, by any built-in heuristic, yields a runnable pattern with the same commands up to order and the same action, whose space never exceeds that of the standard form or of any heuristic considered. The predicted maximum space of a standardized pattern equals the one measured on the pattern that is generated from it.",
  ["inputs"], "all patterns and heuristics",
  "tests compare fixed examples; reordering must respect dependencies for every graph",
  ["graphix/space_minimization.py", "graphix/optimization.py", "graphix/pattern.py"],
  [("driver and heuristics", "graphix/space_minimization.py:minimize_space, SpaceMinimizationHeuristics"),
   ("emission", "graphix/space_minimization.py:standardized_to_space_optimal_pattern, standardized_pattern_max_space")])

p("C28", "Measurement outcomes are drawn with Born probabilities or as prescribed",
  "Outcomes are drawn by comparing one uniform variate with the Born probability of outcome 0 (values outside the unit interval counting as its bounds), never selecting a branch whose computed probability is zero, while constant and fixed selectors return exactly what was prescribed and defer to their fallback otherwise. With equal seeds, runs are reproducible and every source of randomness goes through the supplied generator.",
  ["inputs", "histories"], "all states, probabilities, selectors and seeds",
  "tests use statistics over few shots; boundary probabilities and forwarding of generators are not visible there",
  ["graphix/branch_selector.py", "graphix/sim/base_backend.py", "graphix/rng.py"],
  [("selectors", "graphix/branch_selector.py"), ("use", "graphix/sim/base_backend.py:DenseStateBackend.measure"), ("generators", "graphix/rng.py:ensure_rng")])

p("C29", "Fusion networks partition the edges of the graph",
  "For size bounds of at least three nodes, splitting a graph into GHZ and linear clusters always terminates and yields clusters whose edges together are exactly the edges of the graph, each edge once, each cluster being a genuine star or path of admissible size. The reported fusion nodes of two clusters are exactly the nodes they share.",
  ["inputs"], "all finite simple graphs and size bounds of at least 3",
  "tests list a few graphs; termination and partition must hold for every graph",
  ["graphix/extraction.py"],
  [("splitting", "graphix/extraction.py:graph_to_fusion_network, create_resource_graph, fusion_nodes")])

p("C30", "Node-to-qubit indexing stays a bijection under every history",
  "After any sequence of preparations, removals and swaps, the simulator's map between node labels and qubit positions is a bijection onto consecutive positions in which untouched nodes keep their relative order. Backends address exactly the qubit of the node named by a command, and reject unknown nodes.",
  ["histories"], "all operation histories over any node labels",
  "tests follow one or two short histories; the invariant is inductive over all of them",
  ["graphix/sim/base_backend.py"],
  [("index", "graphix/sim/base_backend.py:NodeIndex"), ("use", "graphix/sim/base_backend.py:DenseStateBackend.add_nodes, measure, finalize, entangle_nodes, apply_single")],
  [("list and dictionary", "positions of nodes and their inverse", "graphix/sim/base_backend.py:NodeIndex")])

p("C31", "Textual representations evaluate back to equal objects",
  "The representation of every command, instruction, measurement, Clifford gate, Pauli operator, state, circuit and pattern is a Python expression that evaluates to an equal object, for every finite field value (with parameters bound to their names and pi to the angle constant). Copies of patterns and circuits compare equal to their originals and share no mutable structure with them.",
  ["inputs", "programs"], "all objects and field values",
  "tests evaluate a few representations; default fields, signs and special angles change the text",
  ["graphix/repr_mixins.py", "graphix/command.py", "graphix/instruction.py", "graphix/measurements.py", "graphix/pattern.py", "graphix/transpiler.py"],
  [("representations", "graphix/repr_mixins.py:DataclassReprMixin, EnumReprMixin; graphix/measurements.py:__repr__; graphix/pattern.py:Pattern.__repr__; graphix/pretty_print.py"),
   ("copies", "graphix/pattern.py:Pattern.copy")])

p("C32", "The tensor-network backend agrees with the state-vector backend",
  "Executing a pattern that the tensor-network backend accepts (nodes prepared in |+>), with either way of preparing the graph state, yields for every outcome branch the same state as the state-vector backend up to normalisation and global phase: same amplitudes, expectation values and state vector, the output qubits in the order of the output nodes. Each operation of the network (preparation in any given state, single-qubit operators, CZ entanglement, measurement in any basis, swap and order of outputs, amplitudes, norms, expectation values) acts on the state as its definition says and leaves other nodes and operands alone; a copy of a network is independent of the original; unsupported inputs are rejected.",
  ["inputs", "histories"], "all patterns and outcome branches",
  "tests compare small circuits; contraction order and index naming vary with the graph",
  ["graphix/sim/tensornet.py"],
  [("backend", "graphix/sim/tensornet.py:TensorNetworkBackend, MBQCTensorNet")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
