#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])]))
    assert len(title)<=80,(id,len(title))
    P.append(d)
I="include/mqt-core/"
p("C01","DD simulation returns exactly the state the circuit defines",
 "For every unitary circuit and every computational-basis input, decision-diagram simulation returns the state vector obtained by multiplying the documented gate matrices in order, global phase included. This holds with positive and negative controls, with explicit SWAPs, with compound operations, and with any initial layout and output permutation (amplitudes are indexed by logical qubit as the output permutation prescribes).",
 ["programs","inputs"],"all circuits over all gate types, targets, controls, parameters, layouts and output permutations",
 "Tests simulate a few dozen fixed circuits; the space of gate/target/control/layout combinations and of interactions between virtual SWAPs and output permutations is infinite.",
 ["src/dd/Simulation.cpp",I+"dd/Operations.hpp","src/dd/Operations.cpp","src/dd/GateMatrixDefinitions.cpp",I+"dd/Package.hpp"],
 "simulate() folds applyUnitaryOperation over the operations with a running permutation and finally applies changePermutation and the global phase")
p("C02","DD functionality construction yields the circuit's unitary",
 "For every unitary circuit, both the sequential and the recursive functionality construction return the same decision diagram, and its matrix is the circuit's unitary with global phase, initial layout and output permutation taken into account. Ancillary and garbage qubits restrict exactly the documented columns and rows of that matrix.",
 ["programs"],"all circuits, layouts, output permutations, ancillary and garbage sets, and both construction algorithms",
 "Tests compare the two constructions on a handful of benchmark circuits and never compare complete matrices with layouts, ancillae and garbage combined.",
 ["src/dd/FunctionalityConstruction.cpp",I+"dd/FunctionalityConstruction.hpp",I+"dd/Operations.hpp","src/dd/Package.cpp"],
 "buildFunctionality / buildFunctionalityRecursive multiply gate DDs, then changePermutation, reduceAncillae and reduceGarbage")
p("C03","Every gate's DD is its documented matrix for all targets and controls",
 "The decision diagram built for any gate type, on any choice of distinct target and control qubits, with any control polarity and any parameters, represents the documented gate matrix embedded on those qubits with identity elsewhere; requesting the inverse gives its conjugate transpose. The same holds for sequences of operations as one operation, and on permuted qubits. Angle normalisation performed when an operation is created never changes the matrix.",
 ["inputs","configurations"],"all gate types x all target/control/polarity placements up to the checked width x parameter values including canonicalisation corner cases",
 "Unit tests check most gates on one placement with one parameter; qubit order and control position decide which construction path is taken.",
 ["src/dd/GateMatrixDefinitions.cpp","src/dd/Package.cpp",I+"dd/Operations.hpp","src/ir/operations/StandardOperation.cpp"],
 "makeGateDD/makeTwoQubitGateDD build level by level around targets and controls; StandardOperation canonicalises parameters")
p("C04","Measurement, reset and classical control follow the Born rule exactly",
 "In any interleaving of gates, measurements, resets and classically controlled operations, each observed outcome has non-zero quantum probability, reported outcome probabilities equal the exact ones, the state after a collapse is the normalised projection onto the observed outcome, a reset leaves the qubit in |0>, and a classically controlled operation acts iff its condition holds on the recorded bits. Collapsing all qubits leaves exactly the basis state that was returned.",
 ["programs","histories"],"all dynamic circuits and all outcome histories",
 "Tests run a few dynamic circuits with a fixed seed and check aggregate counts; they do not compare each post-measurement state with the projected one.",
 ["src/dd/Package.cpp",I+"dd/Operations.hpp","src/dd/Operations.cpp","src/dd/Simulation.cpp"],
 "measureOneCollapsing, measureAll, determineMeasurementProbabilities, performCollapsingMeasurement, applyMeasurement/applyReset/applyClassicControlledOperation")
p("C05","Sampling a circuit yields the outcomes its measurements define",
 "Sampling a circuit returns exactly the requested number of shots, every returned bitstring has non-zero probability under the circuit's exact semantics with bit i of the classical register at the documented position, and relative frequencies converge to the exact probabilities. This holds for final measurements in any qubit-to-bit assignment as well as for mid-circuit measurements, resets and classical control, and when no measurement is present.",
 ["programs","histories"],"all circuits with any measurement placement, any qubit-to-bit map, any seed and number of shots",
 "Tests sample a few fixed circuits and compare the most likely string; the choice between the static and the dynamic path depends on circuit structure.",
 ["src/dd/Simulation.cpp","src/dd/Package.cpp"],
 "sample() analyses whether the circuit is dynamic, then either samples the final DD and permutes bits or re-simulates per shot")
p("C06","Decision diagrams are canonical: equal functions share one node",
 "Within one package, two vectors (or matrices) that are equal up to the numerical tolerance are represented by the identical edge regardless of the sequence of operations that produced them, and different ones by different edges. Node weights are normalised, so that a represented state has the norm it should have. Numbers are canonical as well: looking up a value within the tolerance of a stored number yields that number (the constants 0, 1 and 1/sqrt(2) first) and any other value a new one, for every history of lookups, reference changes, collections and resets, also where the value lies at a border of the table's buckets.",
 ["histories","programs"],"all pairs of operation histories reaching the same or different functions",
 "Tests compare a few hand-picked pairs; canonicity must survive every order of insertions, garbage collections and cache hits.",
 [I+"dd/UniqueTable.hpp","src/dd/UniqueTable.cpp","src/dd/RealNumberUniqueTable.cpp","src/dd/Edge.cpp","src/dd/CachedEdge.cpp","src/dd/Node.cpp"],
 "normalize() of edges plus unique tables for nodes and real numbers with tolerance lookup")
p("C07","DD arithmetic agrees with linear algebra",
 "Addition, matrix-vector and matrix-matrix multiplication, Kronecker product, conjugation, transposition, inner product, fidelity, trace, partial trace, expectation values, ancilla/garbage reduction and element access on decision diagrams return what the same operation returns on the dense vectors and matrices they represent. The result does not depend on which operations were executed before (cached results are never stale or confused).",
 ["inputs","histories"],"all operand diagrams, all operations and all interleavings of operations on one package",
 "Tests check individual operations on small fixed operands in a fresh package; cache-key mistakes need specific histories of calls.",
 [I+"dd/Package.hpp","src/dd/Package.cpp","src/dd/Edge.cpp",I+"dd/ComputeTable.hpp",I+"dd/UnaryComputeTable.hpp"],
 "recursive DD algorithms memoised in compute tables keyed on operand nodes")
p("C08","Garbage collection never changes referenced DDs and frees the rest",
 "For every sequence of operations, reference increments and decrements, and garbage collections, every decision diagram holding a reference still represents the same function, later operations still give correct results, and once all references are released a forced collection returns the package to having no live nodes of that kind. Reference counts equal the number of outstanding references and no freed node is ever reached. A package that was reset behaves like a new one.",
 ["histories"],"all interleavings of operations, incRef, decRef and garbageCollect",
 "Tests trigger collection in a few fixed scenarios; use of stale cached results or double frees only shows up for specific interleavings.",
 [I+"dd/Package.hpp","src/dd/Package.cpp","src/dd/UniqueTable.cpp","src/dd/MemoryManager.cpp","src/dd/RealNumberUniqueTable.cpp"],
 "reference counting in nodes and real numbers, mark-free sweep of unique tables, clearing of compute tables")
p("C09","DD serialization round-trips",
 "Writing any vector or matrix decision diagram to text or binary and reading it back, into the same or another package, yields the same function; into the same package it yields the identical edge.",
 ["inputs"],"all diagrams and both formats",
 "Tests serialise two or three diagrams; identity levels, zero stubs, terminal roots and negative/complex weights each take different paths.",
 [I+"dd/Export.hpp","src/dd/Export.cpp",I+"dd/Package.hpp"],
 "serialize() numbers nodes and writes children indices and weights; deserialize() rebuilds bottom-up")
p("C10","Noise-aware simulation implements the specified quantum channels",
 "Deterministic noise simulation maps the density matrix exactly by the configured channels (amplitude damping, phase flip, depolarisation) on the qubits each operation uses, so traces stay one and the result is Hermitian and positive; measurement probabilities and collapses of density matrices follow the Born rule; stochastic noise applies after each operation only Kraus operators of the configured channels, keeps states normalised, and averages to the channel. A noise configuration is refused exactly if a probability lies outside [0,1] or an effect is unknown.",
 ["programs","configurations"],"all circuits, noise types, probabilities and multi-qubit factors",
 "Tests compare a few printed probabilities for one circuit (and are excluded from the baseline because of randomness).",
 ["src/dd/NoiseFunctionality.cpp",I+"dd/NoiseFunctionality.hpp",I+"dd/Package.hpp"],
 "per-qubit recursion over density-matrix nodes applying channel formulas; Kraus sampling for stochastic noise")
p("C11","Inverting a circuit or operation gives its exact inverse",
 "For every invertible circuit or operation, inverting it yields one whose unitary is the exact inverse, global phase included, for every gate type, control polarity and nesting; inverting twice restores the original functionality. Inverting something that has no inverse is refused rather than silently mishandled.",
 ["programs"],"all circuits including compound, controlled, symbolic and classically controlled operations",
 "Tests invert each gate once; nesting, negative controls, global phase and parameterised canonical forms combine freely.",
 ["src/ir/operations/StandardOperation.cpp","src/ir/operations/CompoundOperation.cpp","src/ir/operations/SymbolicOperation.cpp","src/ir/QuantumComputation.cpp"],
 "invert() on operations rewrites type/parameters; on circuits reverses the list")
p("C12","Operation equality, hashing, commutation and inverse tests are sound",
 "Two operations reported equal act identically (and hash identically), operations reported to commute at a qubit really commute there, and an operation reported to be the inverse of another is its inverse; a copy of an operation equals the original in every observable respect. Two circuits compare equal exactly if they agree in registers, layouts, ancillary and garbage roles, global phase and operations.",
 ["inputs"],"all pairs of operations of all kinds, and of circuits",
 "Tests check chosen pairs; soundness is a statement over all pairs of types, targets, controls and parameters.",
 ["src/ir/operations/Operation.cpp",I+"ir/operations/Operation.hpp","src/ir/operations/StandardOperation.cpp","src/ir/operations/CompoundOperation.cpp","src/ir/operations/ClassicControlledOperation.cpp","src/ir/operations/NonUnitaryOperation.cpp"],
 "structural comparison with special cases for symmetric and diagonal gates; commutesAtQubit; isInverseOf; clone")
p("C13","Symbolic expressions and circuits evaluate to the substituted circuit",
 "Expression arithmetic (sums, products and quotients by constants, assignment, evaluation) obeys ordinary algebra, and instantiating a symbolic circuit with an assignment of its variables gives the same circuit functionality as building it with those numeric parameters, wherever the symbolic operations are nested. A circuit's variable set is exactly the set of variables its operations still use, and a missing assignment is reported.",
 ["inputs","programs"],"all expressions, symbolic circuits and assignments",
 "Tests check single gates with one assignment.",
 [I+"ir/operations/Expression.hpp",I+"ir/operations/SymbolicOperation.hpp","src/ir/operations/SymbolicOperation.cpp","src/ir/QuantumComputation.cpp"],
 "Expression<T,U> keeps sorted terms and a constant; SymbolicOperation stores optional symbolic parameters; instantiate replaces them")
p("C14","Qubit, register and layout bookkeeping stays consistent under edits",
 "After every sequence of adding and removing qubits and registers, marking qubits ancillary or garbage, and adding or removing operations, the counts of qubits, ancillae, garbage qubits and classical bits agree with the registers; initial layout and output permutation stay injective (for requests that name a free output index) and refer to existing qubits, every physical qubit belongs to exactly one register location, and removed qubits can be restored. Invalid requests are rejected without corrupting the circuit.",
 ["histories"],"all sequences of structural edits",
 "Tests perform short fixed edit scripts; consistency is an invariant over all histories.",
 ["src/ir/QuantumComputation.cpp",I+"ir/QuantumComputation.hpp",I+"ir/Register.hpp"],
 "QuantumComputation keeps register maps, counters, ancillary/garbage vectors and two permutations in step")
p("C15","Layout inference and idle-qubit removal preserve what the circuit computes",
 "Deriving the I/O mapping from measurements (of circuits where no bit receives first results of two qubits) maps each measured qubit to the classical bit that receives its result and marks exactly the logical qubits whose index is no output, plus idle ancillary qubits, as garbage; appending measurements according to the output permutation and re-deriving it is the identity. Stripping idle qubits keeps the action on the remaining qubits unchanged.",
 ["programs"],"all circuits, measurement patterns and permutations",
 "Tests use a handful of measurement patterns.",
 ["src/ir/QuantumComputation.cpp"],
 "initializeIOMapping, appendMeasurementsAccordingToOutputPermutation, stripIdleQubits, setLogicalQubitGarbage")
p("C16","OpenQASM export followed by import preserves the circuit",
 "For every circuit that can be exported to OpenQASM 2 or 3, importing the exported text succeeds and yields a circuit with the same registers, layout, output permutation, measurements and classical control, and the same functionality up to global phase.",
 ["programs"],"all exportable circuits and both language versions",
 "Tests round-trip a few circuits and often compare text only; gates without a direct OpenQASM name, negative controls, multi-register indices and classical conditions each have their own export path.",
 ["src/ir/QuantumComputation.cpp","src/ir/operations/StandardOperation.cpp","src/ir/operations/NonUnitaryOperation.cpp","src/ir/operations/ClassicControlledOperation.cpp","src/qasm3/Importer.cpp","src/qasm3/Parser.cpp"],
 "dumpOpenQASM writes each operation; qasm3::Importer reads it")
p("C17","OpenQASM import gives each program its language semantics",
 "Importing any supported OpenQASM program yields a circuit with the semantics the language gives it: standard gates, user-defined (nested, parameterised) gates, ctrl/negctrl/inv modifiers, register broadcasting, constant expressions with the usual precedence, measurement and reset of registers, if/else with all comparison operators, and layout comments. Scoping of parameters and qubits in gate bodies follows lexical rules.",
 ["programs"],"all programs in the supported OpenQASM subset",
 "Tests compare parse results of about ninety fixed programs.",
 ["src/qasm3/Importer.cpp","src/qasm3/Parser.cpp","src/qasm3/Scanner.cpp","src/qasm3/passes/ConstEvalPass.cpp","src/qasm3/passes/TypeCheckPass.cpp",I+"qasm3/StdGates.hpp"],
 "scanner, recursive-descent parser, const-eval and type-check passes, visitor that emits IR operations")
p("C18","Malformed or unsupported OpenQASM is rejected with a diagnosed error",
 "For every input text, import terminates and either returns a circuit or reports an import error: undeclared identifiers, out-of-range indices, wrong operand or parameter counts, duplicate operands, redeclarations, type errors and syntax errors are all rejected. No input makes the importer crash, hang or accept an ill-formed program.",
 ["inputs"],"all texts, in particular all single mutations of valid programs",
 "Tests contain a fixed list of erroneous programs.",
 ["src/qasm3/Parser.cpp","src/qasm3/Scanner.cpp","src/qasm3/Importer.cpp","src/qasm3/passes/TypeCheckPass.cpp","src/qasm3/passes/ConstEvalPass.cpp"],
 "expect()/error() in the parser, type-check pass and checks in the importer")
p("C19","Optimisation passes on unitary circuits preserve functionality",
 "Single-qubit gate fusion, CNOT cancellation, SWAP reconstruction and decomposition, permutation elision, MCX/MCZ replacement, flattening, block collection, operation reordering, removal of identities and back-propagation of the output permutation leave the circuit's unitary unchanged up to global phase, with initial layout and output permutation taken into account; each pass also achieves its stated form. No pass fails on a well-formed circuit.",
 ["programs"],"all unitary circuits and all passes, alone and in sequence",
 "Tests run each pass on a few small circuits and compare gate lists; wrong rewrites need specific gate neighbourhoods.",
 ["src/circuit_optimizer/CircuitOptimizer.cpp","src/ir/QuantumComputation.cpp"],
 "DAG-based peephole rewriting over per-qubit operation queues")
p("C20","Optimisation passes on dynamic circuits preserve measurement statistics",
 "Deferring measurements, eliminating resets, removing final measurements, removing diagonal gates before measurement, and the passes for unitary circuits applied to dynamic ones leave the joint distribution of all classical results (and the resulting state wherever its qubits remain) unchanged for every circuit on which they succeed, and each pass achieves its stated form (no resets left, measurements last, no final measurement left). Deferral that its preconditions do not allow (resets, multi-qubit measurements, conditions on several bits or on the measured qubit itself) is refused.",
 ["programs","histories"],"all circuits with measurements, resets and classical control",
 "Tests use a few tiny circuits; unsoundness shows only in specific orders of gates and measurements on the same qubit.",
 ["src/circuit_optimizer/CircuitOptimizer.cpp"],
 "list rewriting that turns resets into fresh qubits, moves measurements behind unitaries and replaces classical by quantum control")
p("C21","Conversion of a circuit to a ZX-diagram is faithful",
 "For every circuit accepted for conversion, the constructed ZX-diagram denotes the circuit's unitary up to a non-zero scalar, with its wires labelled by the logical qubits of the initial layout; exactly the circuits announced as transformable are converted and all others are refused. Adjoint, composition, and fixing ancilla inputs and outputs of diagrams denote adjoint, product and the corresponding projection.",
 ["programs"],"all circuits of supported gates with any layout and controls",
 "Tests compare with a few reference diagrams or only sizes.",
 ["src/zx/FunctionalityConstruction.cpp","src/zx/ZXDiagram.cpp"],
 "parseOp adds spiders per gate onto per-qubit frontiers; decompositions for controlled rotations and Toffolis")
p("C22","ZX simplification preserves the denoted linear map and terminates",
 "Every simplification rule and every simplification strategy terminates and leaves the linear map denoted by the diagram unchanged up to a non-zero scalar, on any diagram, and leaves no remaining match of the rules it claims to exhaust.",
 ["inputs","histories"],"all diagrams and all sequences of rule applications",
 "Tests check resulting vertex counts on fixed diagrams, not the linear map.",
 ["src/zx/Rules.cpp","src/zx/Simplify.cpp","src/zx/ZXDiagram.cpp","src/zx/Utils.cpp"],
 "check*/apply rules mutate the graph in place; strategies iterate until no match")
p("C23","ZX phases obey exact arithmetic modulo two pi",
 "Phases are exact rationals of pi in the canonical interval: construction, addition, subtraction, negation, multiplication, division, comparison and conversion to and from floating point agree with exact rational arithmetic modulo 2, and symbolic phases add, cancel and compare accordingly.",
 ["inputs"],"all rationals and symbolic phase expressions",
 "Tests check a dozen values.",
 ["src/zx/Rational.cpp",I+"zx/Rational.hpp","src/zx/Utils.cpp",I+"zx/Utils.hpp"],
 "PiRational keeps a reduced fraction normalised to (-1,1]")
p("C24","Algorithm generators produce circuits that compute what they promise",
 "For every admissible size, parameter and seed the generated circuits compute their textbook result: QFT equals the Fourier matrix and its iterative form the same measurement statistics, phase estimation returns exactly representable phases, Bernstein-Vazirani returns the hidden string, Grover amplifies the target as theory predicts, GHZ/W/state-preparation circuits prepare exactly the requested state, and random Clifford circuits contain only Clifford gates and are reproducible from their seed.",
 ["inputs","configurations"],"all sizes, hidden strings, targets, phases, amplitude vectors and seeds",
 "Tests check sizes in steps and some only node counts; iterative and standard variants are compared for few instances.",
 ["src/algorithms/QFT.cpp","src/algorithms/QPE.cpp","src/algorithms/Grover.cpp","src/algorithms/BernsteinVazirani.cpp","src/algorithms/WState.cpp","src/algorithms/GHZState.cpp","src/algorithms/StatePreparation.cpp","src/algorithms/RandomCliffordCircuit.cpp"],
 "each generator appends gates, layouts and measurements to a QuantumComputation")
p("C25","Neutral-atom programs are accepted iff they respect the hardware rules",
 "Validation of a neutral-atom computation accepts exactly those operation sequences in which no operation names an atom twice, loads and stores alternate per atom with moves in between, and atoms moved by one operation keep their rows and columns together and in order; a rejection names the offending operation; locations are totally ordered consistently, and atom positions over time are those the operations produce.",
 ["histories","inputs"],"all sequences of load, move, store and gate operations on all atom placements",
 "Tests check about fourteen hand-written sequences.",
 ["src/na/NAComputation.cpp",I+"na/entities/Location.hpp",I+"na/NAComputation.hpp"],
 "validate() tracks currently shuttling atoms and compares pairwise start and end coordinates; getLocationOfAtomAfterOperation replays shuttles")
p("C26","The layer scheduler offers exactly the operations whose turn it is",
 "At every point of every execution order it permits, the set of executable operations offered for a circuit of a unitary circuit contains only operations whose unexecuted predecessors commute with them or cancel against them, so that every complete execution order has the same unitary as the circuit; executing offered operations always completes the circuit, each operation exactly once.",
 ["schedules","programs"],"all circuits and all choices among executable operations",
 "Tests follow one schedule on five circuits.",
 ["src/datastructures/Layer.cpp",I+"datastructures/Layer.hpp"],
 "per-qubit commuting groups with enable/disable counters on DAG vertices")
p("C27","Graph and set containers implement their mathematical meaning",
 "After any sequence of insertions, directed and undirected graphs, acyclic graphs, disjoint sets and symmetric matrices answer every query (adjacency, degree, counts, reachability, topological order, same-set, element) as the mathematical object does; an edge that would create a cycle in an acyclic graph is rejected and a topological order respects every edge.",
 ["histories","inputs"],"all insertion sequences and queries",
 "Tests build one or two graphs each.",
 [I+"datastructures/DirectedAcyclicGraph.hpp",I+"datastructures/DirectedGraph.hpp",I+"datastructures/UndirectedGraph.hpp",I+"datastructures/DisjointSet.hpp",I+"datastructures/SymmetricMatrix.hpp"],
 "adjacency matrices with index maps; incremental transitive closure; union by rank")
p("C28","MLIR translation and passes preserve the program",
 "Quantum programs in the dialects keep their meaning under every registered transformation: cancelling consecutive inverse gates, sinking operations to their uses, lowering to and raising from the core circuit representation, and any sequence of them terminate with a verifiable module in which every qubit state is still used at most once and every run (every sequence of measurement outcomes through branches and loops) returns the same results and leaves the qubits in the same state. Modules survive printing and parsing, gates with wrong numbers of targets, parameters or results are rejected, and programs the core representation cannot hold are refused.",
 ["programs"],"all modules over the dialect's operations and all pass sequences",
 "Four lit files match textual patterns for a few modules.",
 ["mlir/lib/Dialect/MQTOpt/Transforms","mlir/include/mlir/Dialect/MQTOpt"],
 "pattern rewriters on value-semantics quantum operations; translation to and from QuantumComputation")
p("C29","Qiskit import and export preserve circuits",
 "Converting any supported Qiskit circuit to this library's representation and back keeps qubits, classical bits, registers, initial layout and output permutation, (affine symbolic) parameters, controls and their states, measurements, resets, nested definitions and the functionality including global phases; unsupported instructions and parameter expressions are reported, never silently dropped or changed.",
 ["programs"],"all Qiskit circuits over supported instructions",
 "Tests convert a few dozen fixed circuits.",
 ["src/mqt/core/plugins/qiskit/qiskit_to_mqt.py","src/mqt/core/plugins/qiskit/mqt_to_qiskit.py","src/python/ir"],
 "instruction-by-instruction translation through the Python bindings")
p("C30","Permutations compose and apply consistently",
 "Applying a permutation to qubits, targets and controls maps each through the permutation (the empty permutation is the identity, any other one rejects qubits outside its domain), its application to an operation gives the operation on the renamed qubits with all other aspects unchanged, and transforming one permutation into another, as well as permuting the levels of a decision diagram, realises exactly that change of qubit order.",
 ["inputs"],"all permutations and operations",
 "Tests check single permutations of few qubits.",
 [I+"ir/Permutation.hpp","src/ir/Permutation.cpp",I+"dd/Operations.hpp","src/ir/operations/Operation.cpp","src/ir/operations/CompoundOperation.cpp","src/ir/operations/ClassicControlledOperation.cpp"],
 "Permutation::apply on Controls/Targets/Operation; changePermutation by transpositions")
p("C31","Queries and edits of operations agree with what they consist of",
 "For every circuit of gates, barriers, measurements, resets, conditions and (nested) compound operations, the numbers of operations and single-qubit gates, the depth, the qubits and bits an operation uses, idle qubits, and the unitary, non-unitary, compound, conditional, global and dynamic predicates are those of the operations it consists of; copies report the same and are independent; a circuit made of an operation has room for all its qubits and bits. Adding, removing, clearing or setting controls changes exactly the controls of what the operation computes (for compound and conditional operations: of every part), and a rejected edit changes nothing.",
 ["programs","histories"],"all nestings of operations, and all sequences of edits of controls",
 "Tests query a few flat circuits; the numbers feed cost functions, decisions to skip an operation as identity or barrier-free, and widths of circuits built by other tools, so a miscount for one nesting is silent.",
 ["src/ir/QuantumComputation.cpp","src/ir/operations/CompoundOperation.cpp","src/ir/operations/ClassicControlledOperation.cpp","src/ir/operations/StandardOperation.cpp","src/ir/operations/SymbolicOperation.cpp",I+"ir/operations/Operation.hpp","src/dd/Operations.cpp"],
 "virtual queries overridden per kind of operation; CompoundOperation and ClassicControlledOperation forward to their parts")
p("C32","The Python interface does what the library does",
 "Seen from Python, circuits and compound operations are mutable sequences of operations (indices, slices of any step, insertion, replacement, deletion, reversal, clearing and out-of-range errors as for Python's lists, with copies of the operations that are put in), permutations are mappings, registers, ancillary and garbage flags, names and the global phase read back as they were set; every gate, measurement, reset, condition, barrier and operation constructor builds the operation its documented arguments denote, in circuits with symbolic parameters, too; expressions and terms obey the laws of arithmetic; and every function of the decision-diagram package returns the decision diagram, number or array of the operation it names, which stays valid as long as Python refers to it.",
 ["inputs","histories"],"all calls and sequences of calls of the Python bindings",
 "The Python tests call a few functions once each; swapped or misnamed arguments, wrong slices and dangling results are not visible to the C++ tests at all.",
 ["src/python/ir","src/python/dd","src/mqt/core/ir","src/mqt/core/dd.pyi"],
 "pybind11 bindings: argument names and orders, slices, lifetime of returned objects")
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
