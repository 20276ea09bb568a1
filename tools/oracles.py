"""How each property is decided: the oracle of its harness (used by design.py)."""
ORACLE = {
"C01": "Oracle: a map written in the harness from the statement. Each step of a history is a solver-branched choice of an operation on the real Dictionary; after it every key is read with every type and compared. Keys are arrays of symbolic bytes; string hash and comparison are executed.",
"C02": "Oracle: a vector of tagged values and a position. Operations, element types, values and start position are symbolic; after each step indexed and sequential reads are compared, including which exception is raised and that nothing moved.",
"C03": "Oracle: the set of identities handed out so far; the contents and validator threshold are symbolic. The concurrent entry runs document creation from several logical threads (`nf_atomic.hpp` maps std::atomic to engine atomics) under every interleaving and decides each pair of conflicting accesses.",
"C04": "Oracle: a map of names to collections in the harness; predicates with a symbolic threshold against a filter in the harness; object identity by address.",
"C05": "Two base classes with implementations defined in the harness, registered through the real macros-free templates; the name is symbolic text, the outcome is decided against the list of registered names (termination expected otherwise).",
"C06": "Oracle: first value per key; symbolic key bytes, all collision patterns of the hash.",
"C07": "The view of symbolic length and index is a sub-range of a larger block so that an escaped access would be a violation of the element found, and a block's end a memory violation. Compiled with and without NF_DEBUG.",
"C08": "Kernels count visits per index; the reductions' and scans' oracle is the sequential sum / maximum of the range. Iteration order, team split, range, values, previous result and executor are symbolic.",
"C09": "Oracle: a vector per field. Histories over two fields; memory of each executor tracked (allocation by the shim's kokkos_malloc with its space; frees matched).",
"C10": "Oracle: the operation on each element; unsized ranges, aliasing (field with itself) and unequal lengths are choices; lengths unequal must be refused before anything is touched.",
"C11": "Oracle: prefix sums; lengths are symbolic integers; every split of the scan.",
"C12": "Oracle: slices of the input lists by offset; patch sizes (also zero) are choices, all data symbolic.",
"C13": "Oracle: formulas of the unit interval in the number of cells; relations of geometry (closedness, outwardness, agreement of lists).",
"C14": "Oracle: for each cell, the set of faces which name it; owner and neighbour are symbolic.",
"C15": "Oracle: row = cell plus faces' other cells; offsets must be distinct and point at the right columns; symbolic connectivity (also parallel faces and self-connected ones).",
"C16": "Oracle: entry lists in the harness; row-wise sums for A x - b.",
"C17": "Oracle: formulas of the statement over symbolic geometry (reals; square roots as constrained variables); native replay decides the rare cases where the solver's real algebra does not.",
"C18": "Oracle: formula per face over symbolic connectivity; all overloads called; results for previous contents arbitrary.",
"C19": "Oracle: balance per cell summed in the harness; conservation as a sum over cells; `_interleaved` entries run every interleaving of atomic additions and race detection covers all others.",
"C20": "Oracle: matrix and right-hand side assembled in the harness entry by entry; `c20_agree` compares with the explicit operator on corrected boundary values.",
"C21": "Oracle: differences times coefficient per face, Gauss sum per cell; closedness gives zero for constants.",
"C22": "As C19 and C20 for diffusion.",
"C23": "Oracle: per-face rule of each type; the mixed representation (fraction, reference, gradient) must reproduce the value for every cell value.",
"C24": "Recording operators of the harness in real expressions; a term list in the harness; operators' contributions compared with coefficient times field. The compiled language functions are instantiated for every operator.",
"C25": "A recording linear solver registered under a name receives the system and answers arbitrary values; the time integrators are the real ones; oracle: the equation in the harness.",
"C26": "Real database, collections and fields; histories of requests and writes; oracle: a map of time levels.",
"C27": "The real integrator over a model of the documented stepper (it owns its state; output vectors are only written; the rate of change is evaluated twice per step); oracle: the forward step in the harness.",
"C29": "Ranks are logical processes in one run (shim/mpi.h); transfers and completions are chosen by the solver; the harness keeps what was written per rank.",
"C30": "As C29 through the communicator with maps of any pattern; oracle: senders' values at the start.",
"C31": "Oracle: maximum of sums in the harness, all team splits of the maximum reduction.",
"C32": "Oracle: component formulas; operands chosen to overlap.",
"C33": "Compiled with assertions throwing and terminating, debug and release; the message is symbolic text; side effects of the condition are counted.",
"C28": "The harnesses of the other properties are compiled with the GPU executor only and a separate memory space: in the engine every object carries a space; host code touching a device object, kernels touching host objects older than the loop (captured references, `this`), or a deep copy told the wrong space is a violation. Natively confirmed by page protection: device blocks are inaccessible outside of loops, host blocks inside.",
"C34": "The real back end over a model of coordinate assembly; the model records the system it is asked to solve and answers arbitrary values; oracle: the dense matrix in the harness. The orientation of the matrix is an entry of its own (a known finding).",
"C35": "The real back end over a model of Ginkgo's arrays (views and owners), matrices and configuration trees; the model records the system and answers arbitrary values.",
"C36": "Real operators, expressions, integrators and boundary conditions together with a recording solver; oracle: the balance of faces and sources in the harness, column sums, row sums and signs of the system.",
}
