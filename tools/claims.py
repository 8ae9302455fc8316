"""What each check claims; used by check.py (evidence) and mkmanifest.py (MANIFEST.json)."""
TB = [
    "Verus 0.2026.09.13 and Z3",
    "rustc's macro expansion (-Zunpretty=expanded), on which the extraction works",
    "extract/ (syn-based rewriting of the extracted functions into Verus' dialect; what it drops is listed in DESIGN.md)",
    "spec/prelude.rs: contracts of the primitives (pointer reads and writes as checked sequence accesses, float arithmetic as real arithmetic, elementary functions)",
]
AS = [
    "f32 arithmetic is treated as exact real arithmetic (C20 is not claimed)",
    "a tensor's buffer is modelled as its first size() elements; that the pool provides them is C03's obligation",
    "operands of one call do not share buffers, and all belong to the device the call goes to (device functions reject others: C14)",
    "integer arithmetic is machine arithmetic: every index computation is proved free of overflow",
]
HEAP = ["spec/lib_graph.rs: the heap of reference-counted operations and RefCells (allocation, shared and exclusive borrows), HashSet, VecDeque and BinaryHeap of the traversals",
        "spec/lib_op.rs: the list of gradient cells an operator is handed; spec/lib_link.rs: a boxed operator behaves as the operator boxed",
        "spec/lib_node.rs: node creation as seen by the node functions (Node_create_<Op>, derived from the operators' contracts; link_create proves the same of Node::create on the heap)"]
GRAPH = ["operators of the library only (a user's own Operator has to satisfy the trait contract LinkOp)", "fewer than 2^64 - 1 operations in a graph",
         "the sizes of the operands keep matmul's and the sparse cross entropy's backward within u32, and powi's exponent is greater than i32::MIN"]
MEM = ["spec/lib_mem.rs: the heap behind raw handles (vec_from_elem, heap_into_raw, heap_from_raw: one allocation each, given back once), the kernels' effect on the pool (mk_*), a tensor stored into or taken out of a place (Tensor_replace, Tensor_refer)"]
CLAIMS = {
    "C03": dict(title="memory pool", level="proof", trusted=TB + MEM, assumptions=["a device outlives its tensors and is one object (what its lifetime parameter enforces)", "allocation does not fail and a panicking call ends the history", "the pool's lock is held for the whole of a method (checked by rustc), so its methods are taken one after another"], bounded="random histories of creating, copying, moving, reshaping and dropping tensors, parameters and graphs, with poisoned and counted buffers"),
    "C13": dict(title="serialization", level="proof", trusted=TB + MEM + ["spec/lib_serde.rs: the serde primitives (structures, sequences and maps of named fields); a format gives back what was written (JSON and bincode in the bounded part)"], assumptions=["statistics are written and read entry by entry (HashMap's own implementation)", "struct names are not part of the data"], bounded="round trips of tensors, parameters and models through JSON and bincode; rejection of malformed data"),
    "C14": dict(title="ownership", level="proof", trusted=TB + MEM, assumptions=["a device outlives its tensors", "the order of the statistics of a parameter does not matter", "device functions are called on tensors of their device when they are to accept them (rejection of others is proved)"], bounded="histories of clones, assignments, conversions and moves between devices with poisoned buffers; every operation with one of its tensors on another device"),
    "C15": dict(title="models", level="proof", trusted=TB, assumptions=["syn parses a struct as written; the generated impl header is rustc's to check", "a parameter is read as its identity; a nested model lists its parameters as contracted (induction over the nesting)", "the optimizer's treatment of each listed parameter is C12's obligation"], bounded="derive(Model) end to end: whole generated implementations for structures with skipped fields in every position, other attributes, generics, nesting"),
    "C01": dict(title="shapes", level="proof", trusted=TB, assumptions=AS[3:], bounded="the public Shape API against an independent reference (also covers serde's and fmt's use of it)"),
    "C02": dict(title="shape rules", level="proof", trusted=TB, assumptions=AS, bounded="the same acceptance and result shapes on f32 execution"),
    "C04": dict(title="memory safety", level="proof", trusted=TB, assumptions=AS, bounded="canaries behind every buffer for kernels not under contract; mismatched gradients and in-place operands"),
    "C05": dict(title="elementwise values", level="proof", trusted=TB, assumptions=AS, bounded="the same functions through graph nodes, and f32 execution against an f64 reference"),
    "C06": dict(title="elementwise gradients", level="proof", trusted=TB, assumptions=AS, bounded="gradients through graphs against numeric derivatives"),
    "C07": dict(title="reductions", level="proof", trusted=TB + ["spec/lib_sort.rs: what sort_unstable_by does to a range of indices"], assumptions=AS, bounded="f32 execution against an f64 reference"),
    "C08": dict(title="matrix and layout", level="proof", trusted=TB, assumptions=AS, bounded="f32 execution against an f64 reference"),
    "C09": dict(title="slice, pick, concat", level="proof", trusted=TB, assumptions=AS + ["lists of ids hold at most 2^32 - 1 entries"], bounded="f32 execution against a reference"),
    "C17": dict(title="in-place", level="proof", trusted=TB, assumptions=AS, bounded="histories of in-place changes after a copy"),
    "C12": dict(title="optimizers", level="proof", trusted=TB, assumptions=AS + ["the names of statistics are read as 64-bit hashes of their text", "the trait's default methods are proved for an abstract optimizer whose update_parameter and configure_parameter have the contracts proved for SGD, MomentumSGD and Adam (up to the formula)", "at most 2^32 - 2 update steps"], bounded="training histories through models and serde against an independent reference (also update_model and configure_model)"),
    "C16": dict(title="initializers", level="proof", trusted=TB + ["spec/lib_tensor.rs: contracts of the fills as kernels call them (a uniform sample lies between its bounds, a Bernoulli sample is 0 or 1), spec/lib_rand.rs: the same of one sample of rand / rand_distr; DefaultRandomizer is proved over the latter"], assumptions=AS, bounded="Parameter creation on devices and through models, reading back"),
    "C10": dict(title="graph values", level="proof", trusted=TB + HEAP, assumptions=AS + GRAPH, bounded="random graphs, each node's value against the tensor function; number of evaluations"),
    "C11": dict(title="backpropagation", level="proof", trusted=TB + HEAP, assumptions=AS + GRAPH + ["the gradient of softmax_cross_entropy's first operand presumes targets that sum to one along the dimension"], bounded="random graphs against numeric derivatives, repeated backward, shared and repeated operands"),
    "C18": dict(title="contrib", level="proof", trusted=TB + ["spec/lib_tensor.rs: contracts of the rand fills"], assumptions=AS, bounded="the functions on graph nodes"),
}
NOT_APPLICABLE = {
    "C19": "Devices and pools are shared through `unsafe impl Send/Sync`, `Mutex` and raw handles; contracts are sequential, no verifier here accepts this code with a thread semantics.",
    "C20": "The contracts read f32 arithmetic as exact reals; no deductive verifier available here has a usable theory of f32 rounding for exp/log and reductions.",
    "C21": "A statement about the statistical distribution of a third-party generator (rand); no pre/postcondition expresses it."
}
