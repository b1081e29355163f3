#!/usr/bin/env python3
"""(development helper) writes the "fixed" entries of known_findings.json from
the fix: commits of /repo; findings that are recorded instead are kept."""
import json, subprocess
OWNER = {  # distinctive part of the subject -> property
    "buckets of the number table in order": "C06",
    "zeroed entries after a memory manager was reset": "C08",
    "recursive functionality construction of circuits": "C02",
    "account for the global phase in the construction": "C02",
    "off-diagonal entries of matrix DDs": "C07",
    "sampling of circuits whose qubits are measured": "C05",
    "transferring a DD to another package accessed": "C09",
    "partial trace of matrix DDs with skipped": "C07",
    "deserialization of DDs whose root": "C09",
    "order of the qubits in the fidelity of permuted": "C07",
    "clearing of unary compute tables": "C08",
    "garbage collection left stale entries": "C08",
    "transferring a DD with repeatedly used nodes": "C09",
    "garbage reduction with normalized weights of zero": "C07",
    "reducing (scaled) identities did not release": "C08",
    "garbage reduction of (scaled) identities ignored": "C07",
    "Kronecker product of matrix DDs": "C07",
    "partial traces that vanish": "C06",
    "inverting a circuit did not invert its global phase": "C11",
    "copies of classically controlled operations lost": "C12",
    "subtracting an expression from a term": "C13",
    "expressions over different variables compared equal": "C13",
    "expressions built from unsorted terms": "C13",
    "checking whether a circuit with symbolic operations is dynamic": "C13",
    "simplified symbolic operations kept parameters": "C13",
    "symbolic operations on different qubits": "C12",
    "reordering operations dropped global phases": "C19",
    "controlled Z rotations with exchanged qubits": "C12",
    "variables of nested and classically controlled": "C13",
    "I/O mapping of repeatedly measured": "C15",
    "measurements according to an output permutation with gaps": "C15",
    "depth and last-operation queries": "C14",
    "barriers and measurements of all qubits": "C14",
    "registers at different positions": "C14",
    "unifying its registers kept stale": "C14",
    "mixed up qubit flags": "C14",
    "forcibly stripping idle qubits": "C15",
    "registers created for single qubits": "C14",
    "permuted layouts miscounted": "C14",
    "control modifiers of OpenQASM gates were": "C17",
    "gate bodies saw the parameters": "C17",
    "conditions ignored bit indices": "C17",
    "changed the declared type": "C17",
    "unknown identifiers crashed": "C18",
    "integer arithmetic in OpenQASM": "C18",
    "function arguments were not converted": "C17",
    "recursive OpenQASM gates": "C18",
    "subtraction of OpenQASM number": "C17",
    "negation of unsigned constants": "C17",
    "constant expressions were not evaluated everywhere": "C17",
    "includes had to be followed": "C17",
    "mistaken for controlled user-defined": "C17",
    "version declarations without minor": "C17",
    "non-finite OpenQASM": "C18",
    "undeclared qubits in OpenQASM": "C18",
    "malformed number literals": "C18",
    "probabilities of density matrices whose top-most": "C10",
    "accessing zero entries of density matrices": "C10",
    "collapsing measurements of density matrices": "C10",
    "stochastic noise models shared": "C10",
    "stochastic amplitude damping of multi-qubit": "C10",
    "deterministic noise on operations without qubits": "C10",
    "negative or too large noise probabilities": "C10",
    "deterministic noise on maximally mixed": "C10",
    "stochastic amplitude damping after other noise": "C10",
    "matrices of density matrices with maximally mixed": "C10",
    "ordinary comments were mistaken": "C17",
    "negative differences of OpenQASM": "C17",
    "operations on parts of registers": "C16",
    "export of measurements repeated": "C16",
    "Peres gates dropped": "C16",
    "classically controlled operations conditioned only": "C16",
    "Peres gates exchanged": "C16",
    "letters beyond ASCII": "C17",
    "empty list of parameters": "C17",
    "quotients of integers": "C17",
    "negative literals with a base": "C17",
    "gates with any number of controls": "C17",
    "unterminated strings": "C18",
    "empty indices": "C18",
    "empty exponent": "C18",
    "removeOperation did not look": "C19",
    "singleQubitGateFusion fused": "C20",
    "decomposeSWAP dropped": "C19",
    "collectBlocks moved operations": "C19",
    "removeDiagonalGatesBeforeMeasure removed": "C20",
    "removeFinalMeasurements removed": "C20",
    "eliminateResets missed": "C20",
    "deferMeasurements changed": "C20",
    "sampling ignored the conditions": "C05",
    "renaming the qubits of classically controlled": "C30",
    "phases outside of [-3pi": "C23",
    "subtracting a phase from or dividing": "C23",
    "phases from very small": "C23",
    "global phase gates to ZX": "C21",
    "negative controls were ignored when converting": "C21",
    "ECR gate lacked": "C21",
    "XXplusYY and XXminusYY gates did not denote": "C21",
    "gadget fusion changed": "C22",
    "Pauli pivot did not": "C22",
    "adjacency matrix of diagrams": "C22",
    "wire with a Hadamard edge": "C22",
    "concatenating ZX-diagrams": "C21",
    "global phase of inverted and concatenated": "C21",
    "just above -pi": "C22",
    "transitive closure of acyclic": "C27",
    "undirected graphs ignored self-loops": "C27",
    "layer scheduler offered cancelling": "C26",
    "ZX iterators": "C22",
    "relations <= and >= of locations": "C25",
    "atoms loaded or stored twice": "C25",
    "edges of an empty ZX": "C22",
    "SXdg gates of Qiskit": "C29",
    "parameters that do not depend on any variable": "C29",
    "parameter expressions of Qiskit": "C29",
    "global phases of gate definitions": "C29",
    "global phases were lost when converting to Qiskit": "C29",
    "layouts of converted Qiskit": "C29",
    "cancelling inverse gates crashed": "C28",
    "pushing gates through branches reversed": "C28",
    "sinking gates did not terminate": "C28",
    "pushing gates through branches of loops": "C28",
    "controlled global phase gates were rejected in MLIR": "C28",
    "numbers of targets and parameters of MLIR": "C28",
    "shifting gates into blocks": "C28",
    "visited operations before the definition": "C28",
    "turned negative controls into positive": "C28",
    "permuted returned measurement results": "C28",
    "round trip rejected measurements of several": "C28",
    "round trip accessed erased": "C28",
    "round trip dropped operations": "C28",
    "removing several controls from an operation": "C31",
    "compound operations with measurements, resets or conditions": "C31",
    "whether a compound operation is global": "C31",
    "rejected controls were added to parts": "C31",
    "operation counts ignored the structure": "C31",
    "circuits made of compound operations had too few": "C31",
    "controls of global phases were ignored": "C31",
    "conditional compound operations did not contribute to the depth": "C31",
    "setting the global phase of a circuit from Python": "C32",
    "set_circuit_qubits_ancillary was not": "C32",
    "slices with negative steps": "C32",
    "assigning operations of a circuit to a slice": "C32",
    "insertion positions outside of circuits": "C32",
    "lifetime and errors of Python's view": "C32",
    "decision diagrams returned to Python": "C32",
    "indices beyond the end of a state": "C32",
    "clearing the operations of a circuit from Python": "C32",
    "measurements could not be applied to decision diagrams from Python": "C32",
}
try:
    OWNER.update(json.load(open("/verif/run/fix_owners.json")))
except FileNotFoundError:
    pass
f = "/verif/known_findings.json"
d = json.load(open(f))
keep = [k for k in d["findings"] if k.get("status") != "fixed"]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = [v for k, v in OWNER.items() if k in s]
    assert len(p) == 1, (s, p)
    what = s[5:]
    out.append(dict(id="fixed-" + h, property=p[0], status="fixed", commit=h, what=what, line=f"fixed: property={p[0]} {h} {what}"))
d["findings"] = out + keep
json.dump(d, open(f, "w"), indent=1)
print(len(out), "fixed,", len(keep), "recorded")
