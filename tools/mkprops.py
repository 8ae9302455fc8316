import json
P="prima_undine/src/"
def p(id,title,st,over,text,why,files,mech,obs,hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
L=[
p("C01","Shapes are canonical and their arithmetic is exact",
 "A shape built from any accepted dimension list behaves as the infinite sequence of those dimensions followed by ones: two shapes are equal exactly when these sequences and their batch sizes agree, depth is the position of the last dimension other than one, volume is the exact product of all dimensions, lower volume the exact product of the first n, and size is volume times batch. Changing one dimension or the batch yields exactly the shape that would have been built directly, and comparison queries (same dims, same dims except one, compatible batch, scalar/column/matrix) answer accordingly. More than eight dimensions, a zero dimension, a zero batch, or a total size that does not fit the 32-bit size type is rejected, never wrapped.",
 ["inputs","histories"],"every dimension list, batch size, dimension index and every sequence of dimension/batch updates",
 "There is no test of shapes at all; kernels exercise a handful of shapes with small dimensions.",
 [P+"shape.rs"],[("Shape::new/update_dim/update_batch/has_same_loo_dims",P+"shape.rs")],["Shape public methods"]),
p("C02","Shape rules accept exactly the valid operand shapes",
 "For every operation the result shape is the mathematically expected one (elementwise, scalar, broadcast, matrix product, transpose, slice, pick, concatenation, batch pick/slice/concatenation), with a batch of one broadcasting against any other batch size. Operands whose dimensions, batch sizes, slice bounds or indices do not fit are rejected with a panic before any result is produced, and every fitting combination is accepted.",
 ["inputs"],"all operand shapes, dimensions, bounds and index lists",
 "The shape rules have no tests; kernel tests use only a few accepted shapes and check almost no rejection.",
 [P+"shape_ops.rs",P+"functions/basic/device.rs",P+"functions/arithmetic/device.rs"],[("shape_ops functions and device-level assertions",P+"shape_ops.rs")],["shape of the result tensor or node; panic"]),
p("C03","Memory pool never hands one buffer to two live owners",
 "A handle returned by the pool is not owned by anybody else until it has been given back, its buffer has room for at least the requested number of elements, and a buffer given back goes to the free list of its own capacity so that later requests that receive it still fit. Giving back a handle that is not currently owned is rejected, and dropping the pool releases every pooled buffer exactly once.",
 ["histories"],"every sequence of requests and releases of every size",
 "No test covers the pool; it must hold after any history of allocations and releases.",
 [P+"memory_pool.rs"],[("calculate_shifts, MemoryPool::new_handle/drop_handle",P+"memory_pool.rs")],["DeviceImpl::new_handle/drop_handle calls; handles"]),
p("C04","Tensor operations never touch memory outside their operands",
 "Whatever shapes, dimensions, indices and batch sizes are passed to a safe operation, the operation either panics before touching data or reads and writes only elements inside the buffers of its operands. In particular in-place and gradient-accumulating operations reject operands whose sizes do not match.",
 ["inputs"],"all operand shapes, dimensions, bounds and index lists accepted by the public API",
 "Out-of-bounds access through raw pointers usually goes unnoticed in a test, and the tests only use matching shapes.",
 [P+"devices/naive",P+"functions"],[("raw pointer loops in the kernels and the assertions in front of them",P+"devices/naive")],["process memory (heap) around the tensors' buffers"]),
p("C05","Elementwise operations compute their formula at every element",
 "Negation, +, -, *, /, power, integer power, square root, exp, log, trigonometric and hyperbolic functions, sigmoid, softplus, ReLU, leaky ReLU, PReLU, ELU and abs yield at every element of every batch the function named applied to the corresponding operand elements. A scalar tensor operand supplies its single per-batch value to every element, a constant operand is used on the side it was written, and an operand with batch one is reused for every batch element.",
 ["inputs"],"all shapes, batch combinations, constants and element values",
 "Tests sample one or two small shapes per kernel and never check operator sugar or the scalar/batch combinations at the API level.",
 [P+"devices/naive",P+"functions/arithmetic",P+"functions/basic"],[("define_fw_* kernels",P+"devices/naive/common.rs"),("operator overloads",P+"functions/arithmetic/tensor.rs")],["values of the result tensor"]),
p("C06","Elementwise gradients are the derivative times the output gradient",
 "The backward computation of every elementwise operation adds to the existing input gradient, at every element, the output gradient times the partial derivative of the operation with respect to that input, leaving other elements and tensors unchanged. When an operand was broadcast (scalar operand, or batch one against a larger batch) the contributions of all elements and batches it was used for are summed.",
 ["inputs"],"all shapes, batch combinations, constants, element values and prior gradient contents",
 "Tests check a few fixed vectors; they cannot cover every batch/scalar combination nor the accumulation into arbitrary prior gradients.",
 [P+"devices/naive",P+"functions/arithmetic/device.rs",P+"functions/basic/device.rs"],[("define_bw_* kernels",P+"devices/naive/common.rs")],["values of the gradient tensors"]),
p("C07","Reductions act along exactly the requested axis",
 "Sum, max, min, log-sum-exp, batch sum, argmax, argmin, argsort, softmax, log-softmax and softmax cross entropy combine exactly the elements that differ only in the requested dimension, separately for all other positions and batches, and broadcast repeats along exactly that dimension; argmax/argmin return the position of an extreme element along the dimension and argsort, along every line of the dimension, the storage positions of that line's elements in ascending order of value. Their backward computations add the matching gradient contributions to exactly the input elements that took part (the extreme element for max/min, softmax weights for log-sum-exp, softmax minus target for cross entropy with targets that sum to one).",
 ["inputs"],"all shapes, dimensions (also beyond the shape's depth), batch sizes and values",
 "Tests use one or two shapes per reduction and never a dimension beyond the depth at the node level.",
 [P+"devices/naive/sum.rs",P+"devices/naive/max.rs",P+"devices/naive/min.rs",P+"devices/naive/logsumexp.rs",P+"devices/naive/argmax.rs",P+"devices/naive/argmin.rs",P+"devices/naive/argsort.rs",P+"devices/naive/broadcast.rs",P+"devices/naive/batch_sum.rs",P+"functions/basic"],[("stride arithmetic in the reduction kernels",P+"devices/naive")],["values of result and gradient tensors"]),
p("C08","Matrix operations and layout permutations are exact with adjoint gradients",
 "Matrix product, transpose, lower/upper triangular extraction, identity, flip and dimension permutation produce the mathematically defined result for matrices of any size (also larger than the internal block size) in every batch element, broadcasting a batch of one. Their backward computations add exactly the adjoint map of the output gradient to the input gradients, summed over the batch where an operand was broadcast.",
 ["inputs"],"all matrix sizes, batch combinations, permutations and diagonals",
 "Tests use a few small sizes; blocked loops and batch skips depend on every size.",
 [P+"devices/naive/matmul.rs",P+"devices/naive/transpose.rs",P+"devices/naive/triangular_l.rs",P+"devices/naive/triangular_u.rs",P+"devices/naive/identity.rs",P+"devices/naive/flip.rs",P+"devices/naive/permute_dims.rs"],[("blocked loops and stride tables",P+"devices/naive/matmul.rs")],["values of result and gradient tensors"]),
p("C09","Slicing, picking, splitting and concatenating move the right elements",
 "Slice, split, pick, concat and their batch versions copy exactly the addressed elements to exactly the addressed positions, so that splitting and concatenating again (or slicing the pieces) reproduces the original tensor. Their backward computations add the output gradient back to exactly the positions it came from, once per use, including repeated indices and operands broadcast over the batch.",
 ["inputs"],"all shapes, dimensions, bounds, index lists and batch combinations",
 "Tests sample few shapes; batch pick/slice/split and their gradients are not reached at API level at all.",
 [P+"devices/naive/slice.rs",P+"devices/naive/pick.rs",P+"devices/naive/concat.rs",P+"devices/naive/batch_slice.rs",P+"devices/naive/batch_pick.rs",P+"devices/naive/batch_concat.rs",P+"functions/basic"],[("offset/skip arithmetic of the kernels",P+"devices/naive")],["values of result and gradient tensors"]),
p("C10","Lazy nodes and eager tensors give the same results",
 "Every function and operator available on graph nodes yields, once evaluated, the same shape and values as the function of the same name applied eagerly to tensors, for the same operands and parameters. The shape of a node is known, and invalid operands rejected, when the node is created, and evaluation computes each operation at most once, after its operands, however nodes are shared.",
 ["inputs","programs"],"all node functions, operands, parameters, and all graphs built from them",
 "No test builds a node.",
 [P+"functions/basic/node.rs",P+"functions/arithmetic/node.rs",P+"operators",P+"graph.rs"],[("operator forward_shape/forward",P+"operators"),("forward traversal",P+"graph.rs")],["node values and shapes"]),
p("C11","Backpropagation applies the chain rule over the whole graph",
 "Calling backward on a node sets the gradient of every node and parameter it depends on to the total derivative of the sum of that node's elements, summing over all paths, with shared subexpressions, repeated operands and operations with several outputs (of which some may be unused) handled correctly. Parameter gradients are accumulated on top of what they already held, and calling backward again, on the same or another node, again adds exactly the gradient of that node.",
 ["programs","histories"],"every expression graph and every sequence of backward calls on its nodes",
 "No test calls backward on a graph; it must hold for every graph.",
 [P+"graph.rs",P+"operators",P+"operators/common.rs"],[("depth-ordered traversal and gradient seeding",P+"graph.rs"),("Operator::backward",P+"operators")],["Node::inner_gradient, Parameter::gradient"]),
p("C12","Optimizers apply their update rule to every parameter",
 "One update step changes every parameter by exactly the published rule of the optimizer (SGD, momentum SGD, Adam with bias correction by the step count), with weight decay added to the gradient first, then clipping of the joint gradient norm over all parameters, and the learning rate scaling applied. After the step all gradients are zero, the step count has grown by one, and per-parameter state is kept separately for each parameter and survives across steps and repeated configuration.",
 ["inputs","histories"],"all hyperparameters, parameter sets, gradients and sequences of steps",
 "Optimizers have no tests; the rule must hold at every step of every training history.",
 [P+"optimizer.rs",P+"optimizers.rs",P+"optimizers/sgd.rs",P+"optimizers/momentum_sgd.rs",P+"optimizers/adam.rs",P+"parameter.rs"],[("Optimizer::update_parameters",P+"optimizer.rs")],["Parameter values, gradients, stats; epoch()"]),
p("C13","Serialized tensors, parameters and models load back unchanged",
 "Writing a shape, tensor, parameter or derived model with serde and reading it back yields an object with the same shape, values, gradients and optimizer state once moved to a device, and training continued from it proceeds exactly as from the original. Data whose number of values does not match its shape, or whose shape is invalid, is rejected and never read out of bounds.",
 ["inputs","histories"],"all shapes, contents, models and moments of saving",
 "Nothing tests serialization.",
 [P+"tensor.rs",P+"shape.rs",P+"parameter.rs",P+"model.rs","prima_undine_derive/src/lib.rs"],[("Serialize/Deserialize impls and move_to_device",P+"tensor.rs")],["serde output, values after move_to_device"]),
p("C14","A tensor owns its buffer; views never release or outlive it",
 "Every buffer obtained for a tensor is given back exactly once, when its owning tensor is dropped, whatever mix of allocation, referring, replacing, moving to a device, updating shape and moving in memory the tensor went through. A tensor that merely refers to another reads the same values and never gives the buffer back, and allocating or loading a tensor a second time, or combining tensors of different devices or shapes, is rejected.",
 ["histories"],"every sequence of tensor lifecycle operations",
 "Ownership errors surface only under particular histories (double release, reuse by the pool), and no test covers them.",
 [P+"tensor.rs",P+"memory_pool.rs",P+"device.rs"],[("Tensor::alloc/refer/replace/move_to_device/Drop",P+"tensor.rs")],["pool handles, tensor values"]),
p("C15","Models enumerate each of their parameters exactly once",
 "A derived model, a vector of models and a vector of parameters list every parameter they contain (recursively, except fields marked to be skipped) exactly once and in declaration order, and the shared and the mutable listing name the same parameters in the same order. Moving a model to a device or updating it with an optimizer reaches exactly these parameters.",
 ["programs"],"every model structure",
 "Neither the derive macro nor the Model implementations have any test.",
 [P+"model.rs",P+"parameter.rs","prima_undine_derive/src/lib.rs"],[("derive(Model)","prima_undine_derive/src/lib.rs"),("impl Model for Vec",P+"model.rs")],["parameters(), parameters_mut()"]),
p("C16","Initializers and random fills set every element as specified",
 "Creating a tensor or parameter from a constant, a slice, an initializer or a random source sets every element of every batch: constants and identity exactly, slices in order and read back unchanged, Xavier and bounded uniform initializers within the bound derived from the shape. Shapes an initializer is not defined for are rejected, and a new parameter starts with a zero gradient.",
 ["inputs"],"all shapes, constants, bounds and seeds",
 "Initializers are untested and the random kernels have no checks of range or coverage of all elements.",
 [P+"initializers",P+"device.rs",P+"devices/naive/random.rs",P+"devices/naive/reset_tensor.rs",P+"functions/random"],[("Initializer::apply",P+"initializers"),("reset kernels",P+"devices/naive/reset_tensor.rs")],["tensor values"]),
p("C17","In-place arithmetic and copies act exactly on their target",
 "Adding, subtracting or multiplying in place changes every element of the target by exactly the corresponding source element or constant, summing the source over its batch when only the source has one and reusing it when only the target has one, and leaves the source unchanged. A copied tensor has the same contents and is independent of the original afterwards.",
 ["inputs","histories"],"all shapes, batch combinations and values, and sequences of mutations after a copy",
 "Tests check one shape per kernel and no mismatching operands or copies.",
 [P+"devices/naive/add_assign.rs",P+"devices/naive/sub_assign.rs",P+"devices/naive/mul_assign_const.rs",P+"functions/arithmetic/device.rs",P+"device.rs"],[("add_assign/sub_assign/mul_assign_const",P+"functions/arithmetic/device.rs")],["tensor values"]),
p("C18","Contributed functions compute their textbook formula",
 "Mean, batch mean, dropout, dropout along dimensions, summed slices, batch normalization and layer normalization compute their textbook formula on eager tensors and on graph nodes alike. Dropout is the identity when disabled, zeroes or rescales by 1/(1-rate) each element otherwise, and yields zeros at rate one.",
 ["inputs"],"all shapes, dimensions, batch sizes, rates and values",
 "The contrib crate has no tests.",
 ["prima_undine_contrib/src/functions/contrib/tensor.rs","prima_undine_contrib/src/functions/contrib/node.rs"],[("ContribFunctions","prima_undine_contrib/src/functions/contrib/tensor.rs")],["values of the result"]),
p("C19","Devices and tensors may be shared between threads",
 "Operations run concurrently from several threads on one device give the same results as run one after another, and the memory pool stays consistent under every interleaving.",
 ["schedules"],"all interleavings of operations from several threads on one device",
 "No test is concurrent.",
 [P+"memory_pool.rs",P+"device.rs",P+"devices/naive/random.rs"],[("mutexes around pool and random generators",P+"memory_pool.rs")],["tensor values, pool handles"]),
p("C20","Floating-point results stay within rounding error of the exact value",
 "Every operation's result differs from the exact real-number result by no more than the accumulated rounding error of its single-precision evaluation, also for extreme inputs (overflow-safe log-sum-exp, softmax and softplus).",
 ["inputs"],"all element values, including extreme ones",
 "Tests compare a few moderate values.",
 [P+"devices/naive"],[("max-shifted log-sum-exp, tanh-based sigmoid",P+"devices/naive/logsumexp.rs")],["tensor values"]),
p("C21","Random sources follow their named distribution",
 "Bernoulli, uniform, normal and log-normal fills draw independent samples of the named distribution with the given parameters, and equal seeds give equal sequences.",
 ["inputs","histories"],"all parameters, seeds and draws",
 "Random kernels are only tested for not failing.",
 [P+"devices/naive/random.rs",P+"random.rs"],[("rand_distr samplers",P+"devices/naive/random.rs")],["tensor values"]),
]
with open('properties.jsonl','w') as f:
    for x in L: f.write(json.dumps(x)+"\n")
