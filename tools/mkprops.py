#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech],
                          "state": [{"name": s[0], "meaning": s[1]} for s in state], "observe_at": list(observe),
                          "hook_needed": None}})

prop("P01", "The dense CPU simulator applies exactly the unitary of every gate",
     "For every program of gates (single-qubit, controlled and anti-controlled with any control permutation, masked, register-wide, uniformly controlled, swap-like, Boolean-logic and rotation gates) the dense state-vector simulator on the CPU ends in the state given by the matrix product of those gates, up to a global phase and rounding. "
     "This includes programs that mix gates with state reads, cloning and re-preparation, small and large registers (one or many worker threads), with or without running normalization.",
     ["programs", "inputs", "configurations"],
     "All gate programs on all registers that fit, all parameters (including special angles, zero/identity/phase/inversion-shaped matrices), all thread splits, normalization on or off.",
     "The unit tests run each gate a few times on one prepared state and compare measured permutations or a few probabilities; matrix special cases, control permutations, queued normalization and stride boundaries combine multiplicatively.",
     ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qinterface/gates.cpp", "src/qinterface/rotational.cpp", "src/qinterface/logic.cpp", "include/qengine_cpu.hpp", "include/statevector.hpp", "include/qinterface.hpp"],
     [("2x2 kernel over amplitude pairs with skip masks", "src/qengine/state.cpp Apply2x2"), ("gate-to-matrix dispatch", "src/qinterface/gates.cpp")],
     [("amplitudes", "the 2^n complex amplitudes"), ("running norm", "pending normalization factor")],
     ["amplitudes read through GetQuantumState, also from a clone"])

prop("P02", "Automatic factorization of the register never changes the simulated state",
     "A simulator that keeps the register as separate entangled subsystems, splits off separable qubits, and buffers single-qubit, phase and inversion gates (on any of the dense, stabilizer, decision-diagram or paged backends) is observationally equal to one monolithic state vector. "
     "For every program the full amplitudes, probabilities and register size agree with the ideal ones up to a global phase, at default (exact) settings.",
     ["programs", "inputs", "configurations"],
     "All gate, register, arithmetic, structural and measurement programs over every backend configuration of the factorizing layer.",
     "The factorization state depends on the whole history (which qubits are buffered, in which basis, entangled with which others); tests only reach a handful of histories per gate.",
     ["src/qunit.cpp", "include/qunit.hpp", "include/qengineshard.hpp", "src/qengineshard.cpp", "src/qunitmulti.cpp", "include/qunitmulti.hpp"],
     [("entangle/separate on demand", "src/qunit.cpp EntangleInCurrentBasis, TrySeparate"), ("buffered controlled phase/inversion gates and their commutation", "src/qengineshard.cpp, src/qunit.cpp")],
     [("shards", "per-qubit buffers: basis, pending controlled gates, cached probability/phase"), ("units", "the entangled subsystems")],
     ["GetQuantumState, GetAmplitude, Prob* of the whole register"])

prop("P03", "Stabilizer simulation is exact at any width",
     "For every Clifford program (with measurement, forced measurement, composition and decomposition) the tableau simulators give the same state, measurement determinism, outcome correlations and probabilities as the Clifford group action, on any number of qubits up to hundreds. "
     "Non-Clifford gates are either refused with an exception that leaves the state unchanged or (when they act as a Clifford gate on the given operands) applied exactly.",
     ["programs", "inputs"],
     "All Clifford programs, register widths from 1 to a few hundred qubits, all measurement histories.",
     "Tests run Clifford circuits on a few qubits where the state vector can be compared; wide tableaus, row-sum phase tracking and qubit insertion/removal depend on history.",
     ["src/qstabilizer.cpp", "include/qstabilizer.hpp", "src/qunitclifford.cpp", "include/qunitclifford.hpp"],
     [("Aaronson-Gottesman tableau with phase offset", "src/qstabilizer.cpp"), ("per-shard tableau with qubit map", "src/qunitclifford.cpp")],
     [("x, z, r", "stabilizer and destabilizer rows"), ("phaseOffset", "global phase")],
     ["amplitudes, Prob, ForceM, Compose/Decompose"])

prop("P04", "Near-Clifford simulation agrees with the ideal state",
     "A simulator that stays in stabilizer form while it can, holds non-Clifford single-qubit gates in buffers or in injected ancilla qubits, and otherwise switches to a state vector or decision diagram, gives the same state, probabilities and measurement statistics as ideal simulation for every program. "
     "The switch between representations is never observable except in speed.",
     ["programs", "inputs", "configurations"],
     "All programs mixing Clifford and non-Clifford gates, measurements, structure changes and queries in any order; every representation switch point.",
     "Which representation is active depends on the order of Clifford and non-Clifford gates; tests rarely leave the first representation switch.",
     ["src/qstabilizerhybrid.cpp", "include/qstabilizerhybrid.hpp", "include/mpsshard.hpp", "src/qstabilizer.cpp"],
     [("single-qubit buffers commuted through Clifford gates", "src/qstabilizerhybrid.cpp FlushBuffers, InvertBuffer"), ("reverse-T gadget ancillae and their cleanup", "src/qstabilizerhybrid.cpp RdmCloneFlush, CombineAncillae")],
     [("shards", "per-qubit buffered matrices"), ("ancillae", "injected gadget qubits not visible to the user")])

prop("P05", "Decision-diagram simulation agrees with the ideal state",
     "For every program the binary-decision-diagram simulators (and their hybrid with a state vector) give the ideal state, probabilities, measurement outcomes and register size up to a global phase. Shared and pruned branches never leak an update made for one branch, or one clone, into another.",
     ["programs", "inputs"],
     "All programs of gates, controlled gates with any control permutation, structural operations and measurements, on states with any sharing pattern.",
     "Node sharing and pruning depend on amplitudes being equal or scaled copies; tests use few small states where most branches are trivial.",
     ["src/qbdt/tree.cpp", "src/qbdt/node.cpp", "src/qbdt/node_interface.cpp", "include/qbdt.hpp", "src/qbdthybrid.cpp"],
     [("branch/prune/push-state-down", "src/qbdt/node.cpp"), ("controlled traversal with copy-on-write", "src/qbdt/tree.cpp ApplyControlledSingle")])

prop("P06", "Paging the state vector is invisible",
     "A state vector split over any number of equally sized pages gives the same amplitudes, probabilities and measurement results as an unpaged one for every program, wherever the operand qubits fall relative to the page boundary, and across operations that change the register size.",
     ["programs", "inputs", "configurations"],
     "All programs and all page sizes from one qubit per page to a single page.",
     "The paged tests run with the default page size, under which test-sized registers occupy a single page or few.",
     ["src/qpager.cpp", "include/qpager.hpp"],
     [("meta-qubit gates exchange whole pages", "src/qpager.cpp SingleBitGate, MetaControlled"), ("combine/separate engines around operations pages cannot do alone", "src/qpager.cpp CombineEngines, SeparateEngines")])

prop("P07", "Deferred circuits give the same results as immediate execution",
     "The simulator layer that records gates as a circuit and simulates only when something is measured or read gives, for every program with any interleaving of gates, measurements, queries and clones, the results immediate execution would give.",
     ["programs", "histories"],
     "All interleavings of gates with mid-circuit measurement, reads, clones and structure changes, over each backend.",
     "Light-cone elimination and the layering of circuits around measurements depend on the whole history; tests mostly run one circuit and read once.",
     ["src/qtensornetwork.cpp", "include/qtensornetwork.hpp", "src/qcircuit.cpp"],
     [("circuit layers with recorded measurement results", "src/qtensornetwork.cpp MakeLayerStack"), ("past-light-cone reduction", "src/qcircuit.cpp PastLightCone")])

prop("P08", "Measurement follows the Born rule and collapses the state consistently",
     "Every measurement (single qubit, register, subset, parity, all) returns only outcomes of nonzero probability, with the Born-rule frequencies; afterwards the state is the renormalized projection onto that outcome, and repeating the measurement gives the same result. Forcing an outcome projects onto exactly that outcome, sampling without collapse leaves the state as it was, and repeated-shot sampling follows the same distribution and maps the requested qubits to output bits in the requested order.",
     ["programs", "inputs", "histories"],
     "All reachable states, all qubit subsets and orders, forced and random outcomes, all simulator stacks.",
     "Tests measure computational basis states or check one probability after; distributions, subset order and post-measurement amplitudes are not compared.",
     ["src/qengine/qengine.cpp", "src/qengine/state.cpp", "src/qinterface/qinterface.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp"],
     [("ForceM/ForceMReg/MAll/MultiShotMeasureMask", "each simulator layer")])

prop("P09", "Probability and expectation queries are exact and do not disturb the state",
     "Every query of a probability (bit, register, masked permutation, conditional, parity, all outcomes), of an expectation value or variance (of integers, weights, single-qubit Pauli or unitary bases), of an amplitude or of the distance of two states equals the value computed from the ideal amplitudes. No query changes the simulated state.",
     ["inputs", "programs"],
     "All states, qubit subsets and orders, weights and bases, on all simulator stacks.",
     "Tests query a few product states and one or two subsets; caching and basis-change shortcuts make the answer depend on history.",
     ["src/qinterface/qinterface.cpp", "src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp", "src/qtensornetwork.cpp"],
     [("Prob*, Expectation*, Variance*, SumSqrDiff", "each simulator layer")])

prop("P10", "Composing and decomposing registers is the tensor product and its inverse",
     "Composing registers (at the end or at any position), allocating, disposing and decomposing qubits give exactly the tensor product or the tensor factor of the previous state, return the documented start index, and leave the order of all other qubits unchanged. An attempt to separate reports success only if the subsystem really is separable, and never changes the state beyond its stated tolerance.",
     ["programs", "inputs", "histories"],
     "All positions and lengths, all sequences of structural operations interleaved with gates, on all simulator stacks.",
     "Tests compose or split one or two fixed product states at one position.",
     ["src/qengine/state.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qunitclifford.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp", "src/qtensornetwork.cpp", "src/qinterface/qinterface.cpp"],
     [("Compose/Decompose/Dispose/TryDecompose/Allocate/TrySeparate", "each simulator layer")])

prop("P11", "Quantum arithmetic computes its integer function on every basis state",
     "Addition, subtraction, multiplication, division, modular multiplication and exponentiation, table lookup and lookup-add, hashing, carry/overflow variants, comparison-conditioned phase flips, shifts and rotates, each controlled or not, map every basis state in a superposition to the basis state (and sign) given by their integer definition, with no change of the other qubits, and controlled variants act only where all controls hold.",
     ["inputs", "programs", "configurations"],
     "All operand values, register positions and lengths, carry and control positions, superposed inputs, on all simulator stacks.",
     "Tests add a few constants to a few register values; edge values (zero, full range, carry wrap) and superpositions with entangled controls are not sampled.",
     ["src/qengine/arithmetic.cpp", "src/qinterface/arithmetic.cpp", "src/qalu.cpp", "include/qalu.hpp", "src/arithmetic_qcircuit.cpp", "src/qunit.cpp", "src/qpager.cpp", "src/qbdt/tree.cpp"],
     [("permutation kernels", "src/qengine/arithmetic.cpp"), ("ripple-carry circuits", "src/qinterface/arithmetic.cpp")])

prop("P12", "A clone and its original are independent",
     "A clone has the state of its original at the moment of cloning, and no later operation on either one (gates, measurement, structure changes, destruction) is observable in the other, also while operations of the original are still queued.",
     ["programs", "histories", "schedules"],
     "All histories before and after cloning, chains of clones, all simulator stacks.",
     "Tests clone once and read once; shared nodes, pages, circuits and queued work only show with mutation on both sides.",
     ["src/qengine/state.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp", "src/qtensornetwork.cpp", "src/qunitclifford.cpp", "include/statevector.hpp"],
     [("Clone/Copy", "each simulator layer"), ("copy-on-write nodes", "src/qbdt/node.cpp")])

prop("P13", "Wide registers compute what their structure makes predictable",
     "On registers far wider than a dense vector could hold, a program followed by its inverse restores the initial state, reversible classical programs produce the classically computed permutation, and programs that act on disjoint groups of qubits give each group the state it would have alone.",
     ["programs", "inputs", "configurations"],
     "All programs whose entanglement the stack can represent, register widths up to and beyond 64 qubits.",
     "Tests stay under about 20 qubits, so index arithmetic beyond 32 and 64 bits and layers that only engage on wide registers are not exercised with a checkable answer.",
     ["src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qtensornetwork.cpp", "include/common/qrack_functions.hpp"],
     [("arbitrary-precision permutation indices", "include/common/big_integer.hpp, include/common/qrack_types.hpp")])

prop("P14", "Circuit objects preserve the meaning of the circuit",
     "A circuit object, however its gates were appended, merged, reordered or cancelled, applies the same unitary as the gates in their order; its inverse, its concatenation with another circuit, its past light cone (on the qubits it keeps) and its copy do what their names say.",
     ["programs", "inputs"],
     "All gate sequences and all sequences of circuit operations.",
     "Tests build a few circuits of commuting gates; merging and cancellation rules depend on the position and controls of every earlier gate.",
     ["src/qcircuit.cpp", "include/qcircuit.hpp"],
     [("AppendGate with combine/commute/cancel", "src/qcircuit.cpp")])

prop("P15", "Quantum neurons evaluate and train as specified",
     "A neuron applies, for each input permutation, exactly the rotation of its activation function and angle for that permutation; prediction returns the probability of the requested output, un-prediction undoes it, and a learning step restores inputs and never decreases the probability it was asked to improve beyond rounding.",
     ["inputs", "programs"],
     "All angle tables, activation functions, input superpositions and learning rates, on several simulator stacks.",
     "One test trains one power-of-two function with one activation function.",
     ["include/qneuron.hpp", "include/common/qneuron_activation_function.hpp", "src/qinterface/gates.cpp"],
     [("uniformly controlled RY", "include/qneuron.hpp Predict/Learn")])

prop("P16", "Stored and reloaded objects are equal to the originals",
     "Writing a circuit, a stabilizer state, a near-Clifford state or (lossily, within the stated precision) a state vector and reading it back gives an object with the same observable behaviour; reading or writing amplitudes (whole, page-wise or one at a time) round-trips exactly.",
     ["inputs", "programs"],
     "All states and circuits reachable by programs, including special values.",
     "Tests round-trip one circuit and one or two states.",
     ["src/qcircuit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qunitclifford.cpp", "src/qinterface/qinterface.cpp", "src/qengine/state.cpp", "src/pinvoke_api.cpp"],
     [("operator<< and operator>>", "each class"), ("LossySaveStateVector/LossyLoadStateVector", "src/qinterface/qinterface.cpp")])

prop("P17", "No program makes the simulators touch memory they do not own",
     "For every program of valid calls, no simulator reads or writes outside its allocations, uses freed or uninitialized storage, leaks through double release, or executes undefined arithmetic (oversized shifts, invalid casts, signed overflow).",
     ["programs", "inputs", "configurations"],
     "All valid call sequences on all simulator stacks and configurations.",
     "Out-of-bounds reads and oversized shifts usually leave results unchanged, so passing tests say nothing; the tests are not run under sanitizers.",
     ["src/qengine/state.cpp", "include/statevector.hpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp", "src/pinvoke_api.cpp", "include/common/qrack_functions.hpp"],
     [("index and mask arithmetic", "include/common/qrack_functions.hpp"), ("vector ownership", "include/statevector.hpp")])

prop("P18", "Simulator-internal threading is free of data races",
     "When one caller thread drives a simulator, the worker threads and queued operations it starts never access shared state without synchronization, and results do not depend on how worker threads are scheduled or how many there are.",
     ["schedules", "programs", "configurations"],
     "All thread counts and interleavings of caller, queue worker and parallel workers for all programs.",
     "A race rarely shows in one run of one schedule, and test-sized registers run single-threaded.",
     ["src/common/parallel_for.cpp", "src/common/dispatchqueue.cpp", "include/common/dispatchqueue.hpp", "src/qengine/state.cpp", "include/statevector.hpp", "src/qbdt/tree.cpp", "src/qunit.cpp"],
     [("FIFO dispatch queue with Finish()", "src/common/dispatchqueue.cpp"), ("chunked parallel loops", "src/common/parallel_for.cpp")])

prop("P19", "The C interface is faithful to the simulators and contains every error",
     "Every exported C function has the effect and result of the corresponding simulator operation on the simulator, circuit or neuron named by its id (with its own bit order and Pauli codes), ids stay valid exactly from creation to destruction and are never shared by two live objects, and an invalid id, qubit or argument sets the error code without terminating the process or affecting any other object.",
     ["programs", "histories", "inputs"],
     "All call histories, including creation and destruction in any order, re-used ids and invalid arguments.",
     "The unit tests do not call the C interface at all.",
     ["src/pinvoke_api.cpp", "include/pinvoke_api.hpp"],
     [("simulator/circuit/neuron tables with reservation flags and per-simulator qubit-id maps", "src/pinvoke_api.cpp")],
     [("shards", "map of user qubit ids to simulator positions"), ("errors", "last error per simulator")])

prop("P20", "Concurrent use of the C interface is safe and isolated",
     "Threads that concurrently create, use and destroy different simulators, circuits and neurons, or issue calls to the same simulator, never crash, race or deadlock; calls on one simulator take effect one at a time, and no thread observes effects of another thread's simulator.",
     ["schedules", "histories"],
     "All interleavings of concurrent callers.",
     "The unit tests are single-threaded with respect to the C interface.",
     ["src/pinvoke_api.cpp"],
     [("meta-operation mutex and per-simulator mutexes", "src/pinvoke_api.cpp")])

prop("P21", "Parallel loops visit every index once, and the work queue is ordered",
     "A parallel loop, whatever its range, mask, skipped bits, stride and thread count, calls its body exactly once for each index it should visit and no other, gives bodies distinct worker numbers while they overlap, and propagates the norm/probability reductions exactly; the asynchronous queue runs its items one at a time in the order they were queued, its finish waits for all of them, and a dump discards only items that have not started.",
     ["inputs", "schedules", "configurations"],
     "All ranges, masks, strides, thread counts and schedules.",
     "Tests cover four ranges with the default stride and no schedule pressure on the queue.",
     ["src/common/parallel_for.cpp", "include/common/parallel_for.hpp", "src/common/dispatchqueue.cpp", "include/common/dispatchqueue.hpp"],
     [("par_for family", "src/common/parallel_for.cpp"), ("DispatchQueue", "src/common/dispatchqueue.cpp")])

prop("P22", "Wide-integer arithmetic equals mathematical integers modulo the width",
     "All operations on the library's fixed-width wide integers (add, subtract, multiply, divide, remainder, shifts, bitwise, comparison, conversion, logarithm, power test, printing and parsing) equal those of unsigned integers modulo two to the width, including across word boundaries.",
     ["inputs", "configurations"],
     "All operand values and widths the build supports.",
     "The default test configuration hardly uses values over 64 bits.",
     ["include/common/big_integer.hpp", "src/common/big_integer.cpp", "include/common/qrack_types.hpp", "include/common/qrack_functions.hpp", "src/common/functions.cpp"],
     [("limb-wise arithmetic with carries", "include/common/big_integer.hpp")])

prop("P23", "The noise layer applies exactly its weak depolarizing channel",
     "With noise parameter zero the noisy simulator equals the ideal one for every program. With a parameter of L, each gate of the noise layer is followed, on every qubit that the layer assigns to the gate (the target of a controlled gate; all qubits of swaps, uniformly controlled gates, masks), by exactly one weak X-axis measurement whose event has probability sqrt(L) times the weight of the minus state: every trajectory is a normalized pure state in one of the two Kraus branches, taken with its probability, measurement and structural operations add no noise, and the reported fidelity is (1 - L) to the number of channels since the last reset. The environment setting overrides the parameter.",
     ["programs", "inputs"],
     "All programs and noise strengths from 0 to 1, changes of the parameter, clones, resets of the fidelity.",
     "The noisy simulator has only a smoke test, and no test looks at a trajectory.",
     ["src/qinterface_noisy.cpp", "include/qinterface_noisy.hpp", "src/qinterface/gates.cpp"],
     [("Apply1QbNoise after each gate", "include/qinterface_noisy.hpp"), ("DepolarizingChannelWeak1Qb", "src/qinterface/gates.cpp")])

prop("P24", "Approximation is reported and bounded, exactness is the default",
     "The reported fidelity estimate stays within zero and one, never increases except when reset, and is one while nothing has been approximated. With separability rounding or near-Clifford rounding enabled the state stays normalized, the program never fails, and the real fidelity with the ideal state does not fall substantially below the reported estimate.",
     ["programs", "configurations"],
     "All programs and rounding parameters.",
     "Tests enable rounding in one or two circuits and do not compare with the ideal state.",
     ["src/qunit.cpp", "src/qstabilizerhybrid.cpp", "src/qpager.cpp", "include/qunit.hpp"],
     [("SDRP/NCRP and logFidelity accounting", "src/qunit.cpp, src/qstabilizerhybrid.cpp")])

prop("P25", "Runs are reproducible from their seed",
     "Two runs of the same program on simulators of the same configuration with the same random seed produce identical measurement results, samples and final states, whatever the thread schedule.",
     ["programs", "schedules", "configurations"],
     "All programs, seeds, simulator stacks and thread schedules.",
     "Tests seed the generator but do not compare runs.",
     ["include/qinterface.hpp", "src/qinterface/qinterface.cpp", "src/qengine/qengine.cpp", "include/common/rdrandwrapper.hpp", "src/pinvoke_api.cpp"],
     [("shared seeded generator", "include/qinterface.hpp SetRandomSeed, Rand")])

prop("P26", "Arguments outside the register are refused and leave the state unchanged",
     "A call on a dense CPU, paged, factored (QUnit), stabilizer or noisy simulator that names a qubit index, register range, mask, permutation or control list outside the register, or a control that repeats another or the target, throws an exception, reads and writes no memory outside the simulator's, and afterwards the simulator still holds the state it had before and keeps working. (Convenience gates that are composed of several others may apply their first parts when a later part is refused.)",
     ["inputs", "programs", "histories"],
     "All public operations, all out-of-range argument combinations, at any point of a program, on QEngineCPU, QPager, QUnit, QUnit over QPager, QStabilizer, QUnitClifford and QInterfaceNoisy.",
     "Few tests pass invalid arguments and none checks the state afterwards.",
     ["src/qinterface/qinterface.cpp", "src/qinterface/gates.cpp", "src/qengine/state.cpp", "src/qengine/arithmetic.cpp", "src/qunit.cpp", "src/qstabilizer.cpp", "src/qunitclifford.cpp", "src/qpager.cpp", "include/common/qrack_functions.hpp"],
     [("range checks and ThrowIfQbIdArrayIsBad", "each operation")])

prop("P27", "Hamiltonian evolution is the matrix exponential",
     "Evolving under a Hamiltonian given as a list of (uniformly) controlled single-qubit terms applies, term by term, the exponential of minus i times the term and the time step, for every Hermitian term, control pattern and time, and single-qubit matrix exponentials and logarithms are inverse to each other.",
     ["inputs", "programs"],
     "All Hermitian terms, control lists with toggles, uniform tables, times.",
     "One test evolves one term on one qubit.",
     ["src/qinterface/gates.cpp", "include/hamiltonian.hpp", "src/common/functions.cpp", "src/qinterface/qinterface.cpp"],
     [("exp2x2/log2x2 by diagonalization", "src/common/functions.cpp"), ("TimeEvolve", "src/qinterface/qinterface.cpp")])

prop("P28", "Results do not depend on numeric width or storage tuning",
     "Building with another floating-point precision or integer width, or tuning parallel granularity, page size, decision-diagram and stabilizer thresholds through the environment, changes speed and rounding only: every program still gives the ideal state and probabilities.",
     ["configurations", "programs"],
     "All supported build options and environment settings.",
     "The test suite runs in a single build configuration with default settings.",
     ["CMakeLists.txt", "include/common/qrack_types.hpp", "include/common/qrack_functions.hpp", "src/qpager.cpp", "src/qbdt/tree.cpp", "src/qunit.cpp", "src/common/parallel_for.cpp"],
     [("type selection by FPPOW/QBCAPPOW", "include/common/qrack_types.hpp"), ("getenv knobs", "several")])

prop("P29", "Memory limits are enforced without corrupting state",
     "Constructing, growing or composing a dense simulator beyond the configured limit of qubits is refused with an exception that leaves every simulator involved as it was. On the separable simulator, a program whose entangled groups stay within the limit never fails and is exact; beyond the limit a gate may be refused or approximated, but the state can still be read, stays normalized, and the fidelity estimate stays within zero and one and never increases.",
     ["programs", "configurations", "fault_sequences"],
     "All limits and programs on both sides of the limit.",
     "Tests never set a limit.",
     ["include/qengine_cpu.hpp", "src/qengine/state.cpp", "src/qunit.cpp", "src/qpager.cpp", "src/qtensornetwork.cpp", "src/qstabilizerhybrid.cpp"],
     [("QRACK_MAX_CPU_QB, QRACK_MAX_PAGING_QB checks", "constructors, Compose, Entangle")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
