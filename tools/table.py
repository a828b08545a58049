MC = "stateless model checking of the real code: exhaustive enumeration of %s, each executed and compared with a dense reference"
prop("C01", "Every gate call acts as its definition says, on every simulator stack",
     "Every gate, controlled gate, swap-like gate, boolean-logic gate and Hamiltonian evolution call of the API transforms any "
     "state exactly as its mathematical definition says, for every choice of target, control and permutation arguments, up to an "
     "unobservable global phase. This holds identically for every simulator type and every combination of simulator layers.",
     ["inputs", "configurations"],
     "for every simulator stack, every start state, every gate call, and every placement of its qubit arguments",
     "The unit tests call each gate at one or two placements on a few start states, through whichever stack the command line "
     "selects; optimised special cases (phase, invert, permutation, Clifford, buffered) are selected by the state and placement.",
     ["src/qinterface/gates.cpp", "src/qinterface/rotational.cpp", "src/qinterface/logic.cpp", "src/qengine/state.cpp", "src/qunit.cpp",
      "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp", "src/qunitclifford.cpp", "include/qinterface.hpp"],
     [("dense 2x2 kernels", "QEngineCPU::Apply2x2"), ("basis-change buffers", "QUnit::Mtrx / RevertBasis*"),
      ("controlled decision-diagram gates", "QBdt::ApplyControlledSingle"), ("page-crossing gates", "QPager::CombineAndOpControlled"),
      ("separable-control shortcuts", "QUnit::ApplyEitherControlled, QUnitClifford::CGate")],
     "Exhaustive over 22 stacks x start-state menu (125 local preparations x 5 entanglers on 3 qubits; 8 states on 4 qubits) x every API "
     "call with every placement; gate angles come from a menu, so other angles are not covered.",
     MC % "(stack, start state, gate call, placement)", observe=["amplitudes after each call"])
prop("C02", "Circuits of gates and measurements give the same state on every stack",
     "After any history of gates and measurements, the state represented by any simulator stack is the state that quantum "
     "mechanics assigns to that history, up to a global phase. Internal buffering, separation, representation switching and "
     "compression never change it.",
     ["histories", "configurations"],
     "for every history over a universal gate alphabet with forced measurements up to the depth bound, on every stack",
     "Unit tests run fixed circuits and random benchmarks; they reach few of the buffered/entangled/compressed internal states "
     "in which the next operation takes a different path.",
     ["src/qunit.cpp", "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qbdthybrid.cpp", "src/qtensornetwork.cpp", "src/qpager.cpp",
      "src/qstabilizer.cpp", "src/qunitclifford.cpp", "src/qengine/state.cpp"],
     [("gate buffers and basis tracking", "QUnit shards"), ("non-Clifford buffers and ancilla gadgets", "QStabilizerHybrid"),
      ("compressed tree", "QBdt"), ("layered circuits", "QTensorNetwork")],
     "All histories to depth 4 (2 qubits) and 3 (3 qubits), plus depth 2 after 81 prepared states; slower stacks one level less.",
     MC % "operation histories", observe=["amplitudes at the end of each history"])

prop("C03", "Measurement follows the Born rule and collapses exactly",
     "Every measurement call returns an outcome that was possible, and over all answers of the random generator each outcome occurs "
     "with its Born probability, jointly for the measured qubits. The state afterwards is the normalised projection onto the reported "
     "outcome, no more and no less. Forced results are obeyed, and calls told not to apply the measurement leave the state unchanged.",
     ["inputs", "random choices", "configurations"],
     "for every stack, start state, measurement call with every qubit selection, and every answer of the random generator on a grid",
     "Tests measure a few states with a fixed generator; wrong correlations between outcomes or a lost relative phase after a "
     "collapse need particular buffered states and particular random answers.",
     ["src/qinterface/qinterface.cpp", "src/qengine/qengine.cpp", "src/qengine/state.cpp", "src/qunit.cpp", "src/qstabilizer.cpp",
      "src/qstabilizerhybrid.cpp", "src/qbdt/tree.cpp", "src/qpager.cpp", "src/qtensornetwork.cpp", "include/qbdt.hpp"],
     [("single-qubit measurement", "*::ForceM(bitLenInt, bool, bool, bool)"), ("register measurement", "*::ForceMReg, QEngine::ForceM(bits)"),
      ("whole-register measurement", "*::MAll"), ("parity measurement", "*::ForceMParity"), ("set a bit", "QInterface::SetBit")],
     "Complete choice trees (64 answers for one draw, 16 per draw for two, 8 for three) of every measurement call on every qubit "
     "selection of 2 and 3 qubits, from 50 to 625 start states, on 22 stacks; generator answers within 1e-5 of 0 or 1 are not covered.",
     MC % "(stack, start state, measurement call, random answers)", observe=["outcome", "amplitudes after the call"])
prop("C04", "Probability and expectation queries are exact and do not disturb the state",
     "Every query of probabilities, amplitudes, expectation values, variances, Pauli and general one-qubit observables, and state "
     "distances returns the value that quantum mechanics assigns to the current state, for every subset, order and weighting of qubits. "
     "No query changes the state, and none writes outside the caller's buffer.",
     ["inputs", "configurations"],
     "for every stack, every start state of the menu, every query call and every placement of its arguments",
     "Each query has its own implementation per layer (pages, separable units, tableau, decision diagram, buffered bases); tests call "
     "few of them, on few qubit selections, and do not look at the state afterwards.",
     ["src/qinterface/qinterface.cpp", "src/qengine/qengine.cpp", "src/qengine/state.cpp", "src/qunit.cpp", "src/qpager.cpp",
      "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qunitclifford.cpp", "src/qbdt/tree.cpp", "include/qinterface.hpp"],
     [("probabilities", "Prob, CProb, ACProb, ProbAll, ProbReg, ProbMask, ProbMaskAll, ProbBitsAll, ProbParity, GetProbs"),
      ("expectations", "ExpectationBitsAll, ExpVarFactorized, ExpVarUnitaryAll, ExpVarPauliAll"),
      ("comparison", "SumSqrDiff, ApproxCompare"), ("amplitudes", "GetAmplitude, QStabilizerHybrid::GetAmplitudeOrProb")],
     "All placements of every query on 2 and 3 qubits from 24 to 625 start states on 23 stacks. Weights and observables are fixed "
     "representatives; conditional probabilities are compared when the condition has probability above 0.02.",
     MC % "(stack, start state, query, arguments)", observe=["returned values", "amplitudes after the queries"])
prop("C05", "Registers compose, split, grow and shrink as tensor products",
     "Composing registers, allocating qubits, decomposing or disposing of separable qubits and trying to separate them produce exactly "
     "the tensor products and factors that quantum mechanics assigns, at every position, with the documented offsets returned. "
     "Registers that were copied in or split off are independent of each other afterwards. A failed attempt to decompose changes nothing.",
     ["histories", "inputs", "configurations"],
     "for every stack and every history of structural operations, gates and forced measurements up to the depth bound",
     "Tests compose and decompose a few basis states at a few positions; layers that map qubits to shared units, pages, tableaus or "
     "tree nodes go wrong only for ranges and orders that the tests do not use.",
     ["src/qunit.cpp", "src/qunitclifford.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp", "src/qpager.cpp", "src/qbdt/tree.cpp",
      "src/qengine/state.cpp", "src/qinterface/qinterface.cpp", "include/qbdthybrid.hpp", "include/qinterface_noisy.hpp",
      "include/qtensornetwork.hpp"],
     [("composition", "*::Compose, ComposeNoClone"), ("splitting", "*::Decompose, Dispose, TryDecompose, QUnit::Detach"),
      ("allocation", "*::Allocate"), ("separability", "*::TrySeparate"), ("ancillae", "QStabilizerHybrid::ComposeEither")],
     "All single structural calls from the start-state menus on 1 to 3 qubits, all pairs from selected states and from 12 states with "
     "T-gadget ancillae, all triples (thorough: fours) from |00>. The answer of TrySeparate is a hint and is not judged, nor is "
     "TryDecompose's at its default tolerance, which is of the order of rounding errors.",
     MC % "histories of structural operations and gates", observe=["amplitudes of every live register", "returned offsets", "TryDecompose answers"])
prop("C06", "Arithmetic acts on computational basis values as documented, in superposition",
     "Every integer operation on quantum registers (additions and subtractions with and without carry, sign, or controls; "
     "multiplication and division; modular multiplication and exponentiation; table lookup, lookup-add and hashing; comparisons; full "
     "and ripple adders; rotations; shifts) maps each basis value as the documented integer function says, linearly over superpositions "
     "and entanglement with other qubits, measures at most the carry it documents, and inverse calls undo forward calls.",
     ["inputs", "configurations"],
     "for every stack, register placement and integer argument at widths up to the bound, and every start state of the menu",
     "Tests add a few constants to a few basis states at one placement on eight-bit registers; carries into neighbouring qubits, moduli "
     "that are not powers of two, superposed carries and arithmetic over buffered or paged states are not sampled.",
     ["src/qinterface/arithmetic.cpp", "src/qengine/arithmetic.cpp", "src/qalu.cpp", "src/qunit.cpp", "src/qpager.cpp",
      "src/common/functions.cpp", "include/qbdt.hpp", "include/qstabilizerhybrid.hpp", "include/qbdthybrid.hpp"],
     [("increments", "INC, CINC, INCS, INCC, DECC, INCSC, DECSC"), ("multiplication", "MUL, DIV, MULModNOut, IMULModNOut, POWModNOut and controlled forms"),
      ("lookup", "IndexedLDA, IndexedADC, IndexedSBC, Hash"), ("adders", "FullAdd, IFullAdd, ADC, IADC, CADC, CIADC"), ("comparison", "PhaseFlipIfLess, CPhaseFlipIfLess")],
     "All placements and arguments on 3 and 4 qubits (multiplication 4 to 6, adders 5 to 8, modular powers with 6-bit exponents) "
     "from up to 324 start states, on 22 stacks. BCD and OpenCL variants are not built here.",
     MC % "(stack, start state, arithmetic call, arguments)", observe=["amplitudes after each call", "returned values"])
prop("C07", "A clone equals its original and the two never influence each other again",
     "Clone() returns a register with the same state, the same settings and the same reported fidelity, whatever is buffered, factored "
     "or paged at that moment. From then on, no gate, measurement, structural operation or destruction of one of them can be seen "
     "from the other, nor from a clone of the clone.",
     ["histories", "configurations"],
     "for every stack, every start state and every history that acts by turns on a register, its clone and a clone of the clone",
     "Layers share pages, units, tableaus, gate lists or tree nodes between copies and separate them on the first write; a missed "
     "separation shows only when the right kind of write follows the right kind of copy. Tests clone rarely and then drop one side.",
     ["src/qengine/utility.cpp", "src/qunit.cpp", "src/qunitclifford.cpp", "src/qstabilizer.cpp", "src/qstabilizerhybrid.cpp",
      "src/qpager.cpp", "src/qbdt/tree.cpp", "include/qbdthybrid.hpp", "include/qtensornetwork.hpp", "include/qinterface_noisy.hpp"],
     [("copies", "*::Clone, CloneEmpty, Copy"), ("unit copies", "QUnit::CloneBody, QUnitClifford::CloneBody"), ("copy on write", "QBdtNode::Branch, QTensorNetwork::GetCircuit")],
     "3-qubit registers that grow to 7 and shrink to 2; one letter after all start states of the menu, two letters (thorough: three) "
     "after a fixed subset, acting on original, clone and second clone in the listed orders, on 23 stacks.",
     MC % "histories over a register and its clones", observe=["amplitudes of every live register after every step", "settings", "fidelity"])
prop("C09", "A circuit object is the unitary of its gates through every transformation of it",
     "A QCircuit built by appending gates, with collapsing of adjacent gates on or off, with or without the near-Clifford mode, applies the "
     "product of the appended gates in order. Cloning, inverting, joining, appending circuits and registers, taking past light cones, "
     "post-selecting or deleting trailing phases, writing to and reading from text keep that meaning, and "
     "the reported sizes and involved qubits are right. Later changes of one circuit do not reach another.",
     ["inputs", "histories", "configurations"],
     "for every circuit over the gate alphabet up to the length bound, every mode and every transformation",
     "Merging and commuting gates past each other depends on the exact control sets, phases and polarities of the neighbours; tests use "
     "random circuits with collapsing off, or one circuit on one stack.",
     ["src/qcircuit.cpp", "include/qcircuit.hpp", "src/qinterface/arithmetic.cpp"],
     [("collapsing", "QCircuit::AppendGate, QCircuitGate::TryCombine, CanPass, Combine"), ("running", "QCircuit::Run"),
      ("light cones", "QCircuit::PastLightCone"), ("text", "operator<<, operator>>"), ("tensor network helpers", "DeletePhaseTarget, IsAnyInvolved")],
     "All circuits up to three gates over a 3-qubit alphabet with every control polarity (and longer ones over CNOTs), checked as "
     "operators on the Choi state; gate angles are fixed representatives; wide gates up to 70 qubits only for the text form.",
     MC % "circuits, modes and transformations", observe=["the operator applied to the Choi state", "sizes and involved qubits", "text round trips"])
prop("C11", "Asynchronous and multithreaded execution equals sequential execution",
     "Gates that are dispatched to a queue, loops that are spread over threads and shots that are sampled in threads have the outcome that "
     "the same calls have when each is finished before the next, in every interleaving of the threads: same amplitudes, same return values, "
     "no data race, no deadlock, no lost or reordered operation. The queue runs what is dispatched in order; finish() returns only when "
     "everything dispatched has run; dump() drops what has not started, and nothing runs after it returns.",
     ["schedules", "histories", "configurations"],
     "for every interleaving (within a preemption or delay bound) of the real threads, for every short program over the operations of the engine",
     "The tests run below the size from which gates are queued, or wait after each; a missing wait, a lost wake-up or a race shows only in "
     "some interleavings, which a stress test may never produce.",
     ["src/common/dispatchqueue.cpp", "include/common/dispatchqueue.hpp", "src/common/parallel_for.cpp", "src/qengine/state.cpp", "include/qengine_cpu.hpp",
      "src/qengine/utility.cpp", "src/qengine/arithmetic.cpp", "include/qinterface.hpp"],
     [("queue", "DispatchQueue"), ("asynchronous gates", "QEngineCPU::Dispatch and every Finish()"), ("loops", "ParallelFor::par_for_inc, par_norm, par_norm_exact"),
      ("sampling", "QInterface::MultiShotMeasureMask, Rand()")],
     "Programs of 1-3 calls (queue level: up to 5), 2-4 qubits, 2-4 cores; delay bound 1-3 or preemption bound 1-3 (see DESIGN); sequentially "
     "consistent atomics; accesses inside libc/libstdc++ are not seen by the race monitor (memcpy and the like are).",
     "model checking: systematic exploration of all interleavings of the real code, within a preemption or delay bound, under a controlled "
     "scheduler, with a happens-before race monitor and a sequential run as oracle",
     observe=["amplitudes", "return values", "order of operations in the queue", "accesses without happens-before order"])
prop("C17", "Multi-shot sampling draws whole registers from the state's distribution",
     "MultiShotMeasureMask, with map or array result, reports exactly as many outcomes as shots were asked for; each is the joint outcome of the "
     "listed qubits, in the order in which the caller listed them, drawn independently from the Born distribution of the present state, also "
     "across qubits that the simulator keeps apart; nothing is written outside the result; the state stays as it was.",
     ["inputs", "configurations", "random answers"],
     "for every stack, start state, ordered subset of qubits, both variants of the call, and every answer of the random generators",
     "Tests sample one order of one subset with one seed, and compare rough frequencies; pairing of outcomes between separate units, extreme "
     "draws and qubit order in the rarely used variants are not visible there.",
     ["src/qengine/qengine.cpp", "src/qunit.cpp", "src/qunitclifford.cpp", "src/qstabilizerhybrid.cpp", "include/qtensornetwork.hpp",
      "src/qbdt/tree.cpp", "src/qinterface/qinterface.cpp"],
     [("shots of an engine", "QEngine::MultiShotMeasureMask"), ("joining units", "QUnit::MultiShotMeasureMask, QUnitClifford::MultiShotMeasureMask"),
      ("buffered gates", "QStabilizerHybrid::MultiShotMeasureMask, CheckShots"), ("light cones", "QTensorNetwork::MultiShotMeasureMask"),
      ("clones", "QInterface::SampleClone, QBdt::MAllOptionalCollapse")],
     "Complete choice trees of one and two shots on grids of 64 / 16^2 / 8^3 answers; 400 shots with fixed seeds within 0.15; 2-4 qubits; all histories "
     "of 3-4 controlled gates for QUnit.",
     MC % "start states, qubit lists and random answers", observe=["reported outcomes", "state afterwards", "memory around the result"])
prop("C16", "Amplitudes written are the amplitudes read",
     "SetQuantumState, SetPermutation, SetAmplitude, SetAmplitudePage (from an array or another engine), ShuffleBuffers, CopyStateVec and "
     "ZeroAmplitudes change exactly the amplitudes they name, to the values given, in their own register and no other, whatever was stored, cached, "
     "buffered or released before; GetQuantumState, GetProbs, GetAmplitude, GetAmplitudePage and ProbAll all report that one state, after any "
     "gates that follow, write only inside their range, and change nothing.",
     ["inputs", "histories", "configurations"],
     "for every history of writing calls, gates and clones up to the length bound, range of amplitudes, register width and stack",
     "Pages, sharding, buffers and lazily released amplitudes all meet in these calls; a wrong offset or a stale norm or cache shows only for particular "
     "ranges after particular histories.",
     ["src/qengine/state.cpp", "include/qengine_cpu.hpp", "src/qpager.cpp", "include/qpager.hpp", "src/qunit.cpp", "include/qunit.hpp", "src/qbdt/tree.cpp",
      "src/qstabilizerhybrid.cpp", "src/qstabilizer.cpp"],
     [("pages", "QEngineCPU::SetAmplitudePage, GetAmplitudePage, ShuffleBuffers"), ("pages of pages", "QPager::GetSetAmplitudePage"),
      ("norms", "QEngineCPU::NormalizeState, UpdateRunningNorm, Apply2x2"), ("whole states", "SetQuantumState of all layers"), ("caches", "QUnit::SetAmplitude")],
     "Raw engines: all histories of 3 of 42 calls on 2 qubits and of 2 on 3 qubits; all stacks: 1-3 qubits, one writing call after each preparation, then up to 2 gates.",
     MC % "start states and histories of calls", observe=["amplitudes and probabilities by every reading call", "memory around the result"])
prop("C13", "Every C API call does what it says to exactly the qubits and simulators it names",
     "Through the C API (pinvoke), each call acts on the qubits whose ids it is given, in the order given, whatever history of init, clone, allocate, "
     "release, arithmetic, Compose, Decompose, Dispose and Separate placed them: gates, arithmetic, measurement, reading, circuits and neurons give the state and "
     "the numbers the same operations have on those qubits, and leave all other qubits, simulators, circuits and neurons unchanged. An id that is not "
     "known (simulator, qubit, circuit, neuron) is reported through get_error and changes nothing; a destroyed id can be reused.",
     ["inputs", "histories", "configurations"],
     "for every call, placement of its qubits, history of ids up to the bound and layer stack the API can build",
     "The API keeps its own maps from ids to positions, which arithmetic, release and Compose change; no test links it, and a wrong entry shows only after a particular history.",
     ["src/pinvoke_api.cpp", "include/pinvoke_api.hpp", "src/qunit.cpp", "include/qneuron.hpp", "include/qcircuit.hpp"],
     [("id maps", "GetSimShardId, FillSimShards, SwapShardValues, MapArithmetic"), ("allocation", "allocateQubit, release, init_clone"),
      ("registers", "Compose, Decompose, Dispose, Separate"), ("Pauli strings", "Exp, MCExp, TransformPauliBasis"), ("circuits", "qcircuit_append_mc, qcircuit_run"), ("neurons", "init_qneuron, clone_qneuron")],
     "3 qubits (arithmetic: 3 and 5, circuits: 4), nine layer stacks, nine histories of ids; allocation histories of 3 or 4 calls; one caller at a time.",
     MC % "layer stacks, histories of ids and calls", observe=["probabilities and amplitudes by id", "return values", "get_error"])
prop("C12", "Parallel loops do each item once, by one worker each, in every interleaving",
     "par_for, par_for_inc, par_for_skip, par_for_mask, par_for_set and par_for_sparse_compose call the body exactly once for every item and for "
     "no other; two calls with the same worker number never overlap; worker numbers are below the concurrency level; on return, "
     "every call has ended, also when one of them throws, and then the exception comes out. par_norm and par_norm_exact return the sum that a "
     "sequential loop has. The queueing level follows from the number of workers alone.",
     ["schedules", "inputs", "configurations"],
     "for every range, mask and item set up to the size bound, every stride and number of workers, and every interleaving within the bound",
     "Every gate and every probability of the dense simulator is such a loop, with scratch memory per worker number; tests use sizes at which the chunks divide the range, and one schedule.",
     ["src/common/parallel_for.cpp", "include/common/parallel_for.hpp"],
     [("chunks", "ParallelFor::par_for_inc"), ("skipping bits", "par_for_skip, par_for_mask"), ("sums", "par_norm, par_norm_exact"), ("levels", "SetConcurrencyLevel")],
     "Up to 9 items (16 for masks), strides 1, 2, 4, one to four workers; delay bound 1-3 and preemption bound 2; skipping loops begin at 0, as all callers have it.",
     "model checking: systematic exploration of all interleavings of the real code, within a delay or preemption bound, under a controlled "
     "scheduler with a happens-before race monitor, for an exhaustive set of ranges",
     observe=["items and worker numbers given to the body", "sums", "accesses without happens-before order"])
