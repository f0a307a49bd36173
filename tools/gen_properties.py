#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=None)))
T = "src/tensor/"
p("C01", "Backward computes the true gradient of any differentiable expression",
  """For any expression built from reference-counted tensors with addition and subtraction (with broadcasting), negation,
  element-wise or scalar multiplication, abs, relu, tanh, sum, dot and matrix product, calling backward on a one-element result leaves on every tensor the
  result depends on a gradient of that tensor's own shape, equal to the partial derivatives of the result wherever the
  expression is differentiable.  The result may have any one-element shape, a tensor may be used any number of times, and a
  gradient flowing out of any operation (including sum) is scaled by the gradient flowing into it.""",
  ["programs", "inputs"],
  """Every finite expression DAG over those operations, all non-empty operand shapes (ranks 0 and up, size-1 dimensions,
  broadcast in either direction, sizes on both sides of the internal block size), all element values away from kinks,
  integer and floating element types.""",
  """The unit tests differentiate about ten fixed expressions, nearly all a single operation followed by sum on 2x2 or
  3-element inputs; composition, sharing, broadcasting in both directions, scaling through sum and larger sizes are unsampled.""",
  [T+"autograd/jvp.rs", T+"functional/element_wise_ops.rs", T+"functional/misc.rs", T+"rc_tensor.rs", T+"raw_tensor.rs"],
  [("Derivative::compute_jvp recursion over recorded inputs", T+"autograd/jvp.rs"),
   ("per-operation vector-Jacobian products (generic_binop_jvp, generic_unary_jvp, bmm_jvp, dot_jvp, ones)", T+"functional/")],
  ["RcTensor::backward", "RcTensor::grad", "RcTensor::get"],
  [("grad_fn", "recorded inputs and derivative rule of a computed tensor", T+"raw_tensor.rs"), ("grad", "accumulated gradient", T+"raw_tensor.rs")])
p("C02", "Gradients accumulate exactly over any history of passes and resets",
  """Over any history of building expressions, running backward on any one-element results (repeatedly, on overlapping graphs),
  adding gradients by hand and resetting gradients, the gradient stored on each tensor equals the sum of exactly the
  contributions made to it since its last reset.  Clones of a tensor share one gradient, a deep clone has equal elements but no gradient and receives
  none from results of the original, a tensor that no pass reached has no gradient, and a gradient read earlier never changes afterwards.""",
  ["histories"],
  "Every finite interleaving of tensor creation, operations, clone, deep clone, backward, manual gradient update, gradient reset and gradient reads.",
  "Tests run one or two backward calls on a fresh graph; they never compare the stored gradients along a history, nor check what resets, clones and detached copies do to later passes.",
  [T+"raw_tensor.rs", T+"rc_tensor.rs", T+"tensor_like.rs", T+"autograd/jvp.rs"],
  [("update_grad adds to the stored gradient", T+"raw_tensor.rs"), ("zero_grad clears it", T+"raw_tensor.rs"), ("deep_clone drops grad and grad_fn", T+"tensor_like.rs")],
  ["TensorLike::update_grad", "TensorLike::zero_grad", "TensorLike::deep_clone", "RcTensor::grad", "RcTensor::backward"],
  [("grad", "accumulated gradient behind a lock", T+"raw_tensor.rs")])
p("C03", "Matrix product equals the mathematical product for every shape",
  """The matrix product of a matrix, or of a batch of matrices (three dimensions), with a matrix has shape [rows, columns]
  (respectively [batch, rows, columns]) and each element is the sum over the inner dimension of the products of the matching
  elements.  This holds for every combination of sizes, whichever kind of tensor or view each operand is, and is exact for integer elements.""",
  ["inputs"],
  "All batch, row, inner and column sizes (including 1 and 0, and sizes above any internal chunking), all element values, every pairing of owned tensors, shared tensors and views.",
  "Tests check values for one 2x2 matrix against 2x1 vectors, and for other shapes only that the call returns; the parallel split over columns and the batch path are never compared with a reference.",
  [T+"functional/misc.rs", T+"tensor_like.rs", T+"tensor_view.rs"],
  [("bmm_raw writes one output slot per spawned task", T+"functional/misc.rs")],
  ["TensorLike::bmm", "TensorLike::bmm_rc"])
p("C04", "Matrix product gradients land on the right elements at every size",
  """For a matrix product (optionally of a batch of matrices) with any gradient flowing into it, the gradient of each left element [b,i,k] is the sum over columns
  of incoming gradient [b,i,j] times right [k,j], and of each right element [k,j] is the sum over batches and rows of incoming
  gradient [b,i,j] times left [b,i,k].  This holds for all sizes, however the parallel accumulation is split, exactly for integer elements.""",
  ["inputs", "schedules"],
  "All batch, row, inner and column sizes (below, at, just above and far above the accumulation block size), arbitrary non-uniform incoming gradients, repeated executions.",
  "The two value tests of this gradient use 2x2 and 3x2 operands with an all-ones incoming gradient, far below the size at which work is split into more than one segment.",
  [T+"functional/misc.rs"],
  [("bmm_jvp spawns one task per (i,k,j) and sends contributions to per-segment accumulators", T+"functional/misc.rs"), ("SplitArrayWriter splits the output into segments", T+"functional/misc.rs")],
  ["RcTensor::backward", "RcTensor::grad"],
  [("segments", "disjoint slices of the gradient array, one receiver each", T+"functional/misc.rs")])
p("C05", "Addition and subtraction broadcast like numpy",
  """For tensors whose shapes are compatible when aligned at the last dimension (equal, or one of them 1, or absent), addition and subtraction
  return a tensor whose shape takes the larger size in each dimension, and each element is the sum or difference of the
  operand elements selected by broadcasting.  The reported broadcast-compatibility of two shapes is exactly this rule, and the kind of
  tensor (owned, shared, view) does not change the result.""",
  ["inputs"],
  "All pairs of shapes of any ranks, compatible or not, including scalars, size-1 and size-0 dimensions on either side; all element values; every operand kind for which the operator exists.",
  "Tests add a scalar or a 4x4 tensor to a 2x4x4 one with constant fillers; two-sided broadcasting, size-1 stretching in the middle and rank differences both ways are unsampled.",
  [T+"functional/element_wise_ops.rs", T+"tensor_like.rs", T+"utils.rs"],
  [("generic_binop_raw over IndexIterator of max_shape", T+"functional/element_wise_ops.rs"), ("broadcastable", T+"tensor_like.rs")],
  ["Add for &RawTensor and RcTensor", "Sub", "TensorLike::broadcastable"])
p("C06", "Multiplication and dot product match their definitions",
  """Multiplying tensors of the same shape multiplies corresponding elements, and multiplying by a scalar tensor on either side multiplies every
  element by it, in both cases keeping the shape of the non-scalar operand; multiplying by a scalar value on the left or right does the same.  The dot product of two
  tensors of the same shape is a one-element tensor holding the sum of the products of corresponding elements.""",
  ["inputs"],
  "All shapes including scalars and size-1 dimensions, all element values and element types, every operand kind for which the operator exists (owned, shared, view, by value or reference).",
  "Tests multiply two 3-element vectors, one constant vector by a constant, and take one 3-element dot product.",
  [T+"functional/misc.rs", T+"raw_tensor.rs", T+"rc_tensor.rs", T+"tensor_like.rs"],
  [("element_wise_multiplication", T+"functional/misc.rs"), ("left/right_scalar_multiplication", T+"tensor_like.rs"), ("dot_raw", T+"functional/misc.rs")],
  ["Mul", "functional::dot", "functional::dot_no_derivative", "TensorLike::left_scalar_multiplication"])
p("C07", "Element-wise maps and sums touch each element exactly once",
  """Negation, abs, relu, tanh and applying a caller-supplied function to a tensor return a tensor of the same shape in which each element is
  the function of the element at the same index and of nothing else.  Summing a tensor or view returns a scalar equal to the sum of all its elements.""",
  ["inputs"],
  "All shapes and ranks (including scalars and empty dimensions), all element values including zero, negative zero, infinities and not-a-number, all element types that support the operation, owned tensors, shared tensors and views.",
  "Tests cover abs and tanh on one or two fixed tensors and never relu's values, high ranks, special values or views.",
  [T+"functional/element_wise_ops.rs", T+"raw_tensor.rs", T+"tensor_view.rs"],
  [("generic_unary_op", T+"functional/element_wise_ops.rs"), ("sum", T+"raw_tensor.rs"), ("ElementIterator", T+"utils.rs")],
  ["functional::{tanh,relu,generic_unary_op}", "RcTensor::abs", "Neg", "TensorLike::sum", "TensorLike::elem"])
p("C08", "Every index reads its own element, every bad index is refused",
  """Reading a tensor or view at an index aligned to its last dimension returns the row-major element there, where size-1 dimensions accept
  any coordinate, extra leading coordinates are ignored, and leading coordinates may be omitted only for size-1 dimensions.  Any other index - a coordinate
  out of range or a missing one - yields an error result and never some element.""",
  ["inputs"],
  "All shapes and ranks and every index vector: in range, out of range in any position, shorter and longer than the shape, arbitrarily large coordinates, for owned tensors, shared tensors and views.",
  "Tests read a handful of positions in 3 shapes and never an out-of-range, short or over-long index except two documented examples.",
  [T+"utils.rs", T+"raw_tensor.rs", T+"tensor_view.rs"],
  [("global_index", T+"utils.rs")],
  ["TensorLike::get", "Index for RawTensor and TensorView", "TensorLike::get_first_elem"])
p("C09", "A view shows exactly its slice of the tensor, also nested and reshaped",
  """A slice of a tensor has, in each dimension, the length of its half-open range, and its element at an index is the tensor's element at that index
  shifted by the range starts; a slice of a view selects relative to that view; reshaping a view keeps its elements in row-major
  order.  Copying a view into a tensor, summing, counting, enumerating its indices and comparing all agree with that element set, and a range beyond the dimension, a reversed one, or a wrong number of ranges is refused.""",
  ["inputs", "histories"],
  "All shapes, all ranges (full, single-element, empty, interior), every chain of slice, slice-of-slice and reshape of any length, from owned and shared tensors.",
  "Two tests slice once with fixed ranges and look at a few elements; slicing a view, reshaping and empty ranges are never exercised.",
  [T+"tensor_view.rs", T+"utils.rs", T+"raw_tensor.rs"],
  [("TensorView::new range checks", T+"tensor_view.rs"), ("global_index with offset", T+"utils.rs"), ("TensorView::slice / reshape", T+"tensor_view.rs")],
  ["TensorLike::slice", "RcTensor::view", "TensorView::reshape", "TensorLike::to_tensor", "TensorLike::sum"],
  [("View", "shape and per-dimension ranges over the base tensor", T+"tensor_view.rs")])
p("C10", "An operation on a view equals the operation on a copy of it",
  """Wherever an operation accepts a view as an operand (addition with broadcasting, element-wise and scalar multiplication, dot and matrix product, sum,
  comparison, applying a function), its result equals the result of the same operation on a freshly constructed tensor holding the view's elements.""",
  ["inputs"],
  "All base shapes and view chains (offset, proper sub-ranges, size-1 ranges in larger dimensions, reshaped), in each operand position that accepts a view, combined with operands of any compatible shape.",
  "No test passes a view to any operation other than sum and equality.",
  [T+"tensor_view.rs", T+"tensor_like.rs", T+"functional/misc.rs", T+"functional/element_wise_ops.rs"],
  [("operations read operands through get / to_tensor", T+"tensor_like.rs")],
  ["Add for &RawTensor", "Mul", "TensorLike::bmm", "functional::dot_no_derivative", "functional::generic_unary_op"])
p("C11", "Construction, enumeration and equality are faithful",
  """A tensor built from a flat list and shape, from nested arrays or lists, or from a filler has exactly that shape and those elements in row-major order, and a flat list whose
  length disagrees with the shape or a ragged nesting is refused.  Enumerating a tensor's indices yields every valid index exactly once in row-major order, and printing it shows its elements in that order.
  Two tensors or views compare equal exactly when shapes and all elements are equal, whatever their gradients or how they were computed.""",
  ["inputs"],
  "All shapes and ranks (including scalars and empty dimensions), all element values and types, all mismatching lengths and ragged nestings, all pairs of tensors and views differing in nothing, in one element, or only in shape.",
  "Tests build a few constant shapes; mismatches, ragged nesting, rank above 3 and inequality by one element or by shape alone are unsampled.",
  [T+"raw_tensor.rs", T+"rc_tensor.rs", T+"utils.rs", T+"tensor_view.rs"],
  [("From<Vec<U>> / From<[U; N]>", T+"raw_tensor.rs"), ("RawTensor::new length assertion", T+"raw_tensor.rs"), ("IndexIterator", T+"utils.rs"), ("PartialEq", T+"raw_tensor.rs")],
  ["RawTensor::new", "RcTensor::from", "TensorLike::iter_indices", "PartialEq"])
p("C12", "Layers and MLPs compute their formula and keep parameters in order",
  """A linear layer maps an input matrix or batch to activation(input x weights + bias), with no activation meaning identity, and an MLP is the composition of its layers
  first to last.  A module lists its parameters as weights then bias per layer in layer order, and replacing the parameters with a list in that order makes the module behave as one
  built from that list.""",
  ["inputs", "configurations"],
  "Every layer count and width, input rows and batch size, bias shape that broadcasts, activation (none, relu, tanh, caller-supplied), and every parameter replacement.",
  "Tests evaluate one 2x2 layer without activation; an MLP is constructed but its output, parameter list and replacement are never checked (the one fitting test is ignored as too slow).",
  ["src/nn/linear.rs", "src/nn/feed_foward.rs", "src/nn/module.rs"],
  [("Linear::forward", "src/nn/linear.rs"), ("Mlp::forward / params / update_params", "src/nn/feed_foward.rs")],
  ["Module::forward", "Module::params", "Module::update_params"])
p("C13", "An SGD step moves every parameter by minus step size times its gradient",
  """One optimizer step on a module whose parameters all have gradients replaces each parameter with old value minus step size times old gradient, in place in the module's structure, keeping every
  shape.  The new parameters have no gradient and no link to the past: later forward and backward passes leave the gradients of the replaced parameters unchanged, and the replaced tensors keep their values.""",
  ["inputs", "histories"],
  "All layer shapes and counts, all parameter values, gradients (from backward or set by hand, single or accumulated) and step sizes (including zero and negative), any number of consecutive steps.",
  "No active test runs the optimizer at all.",
  ["src/optim/sgd.rs", "src/nn/linear.rs", "src/nn/feed_foward.rs"],
  [("sgd_step", "src/optim/sgd.rs"), ("update_params", "src/nn/")],
  ["optim::sgd::sgd_step", "Module::params"])
p("C14", "A training history equals the reference training of the same network",
  """Running any number of forward, loss, backward, step iterations on an MLP produces, up to rounding, the same outputs, losses, gradients and parameters as textbook
  backpropagation with gradient descent on the same data.  Each iteration depends only on the current parameter values and data, and the number of iterations that can be run is not limited by the length of the history.""",
  ["histories", "inputs"],
  "All network shapes, activations, batches, losses built from the library's operations, step sizes and iteration counts (including thousands of iterations on a small stack), reusing or replacing inputs, with gradients reset or accumulated between steps.",
  "The only training test is ignored because it is too slow, asserts only a loose final loss, and runs a single network shape.",
  ["src/optim/sgd.rs", "src/nn/feed_foward.rs", "src/nn/linear.rs", T+"autograd/jvp.rs", T+"functional/misc.rs"],
  [("forward/backward/sgd_step loop", "src/main.rs"), ("compute_jvp", T+"autograd/jvp.rs")],
  ["Mlp::forward", "RcTensor::backward", "sgd_step"])
p("C15", "Results do not depend on worker threads or calling context, and always arrive",
  """Forward and backward passes give the same values (exactly for integer elements, up to rounding for floating ones) whatever the number of worker threads in the pool, whether they are called from an ordinary thread or from inside
  a worker of that pool, and whatever else runs concurrently.  In every such context the call completes.""",
  ["schedules", "configurations"],
  "Every pool size from one thread up, calls from outside and inside the pool, several independent computations at once inside one pool or from several threads, operand sizes that use one or many accumulation segments.",
  "Tests call everything from outside the pool with the default thread count, one computation at a time.",
  [T+"functional/misc.rs"],
  [("rayon scopes in bmm_raw and bmm_jvp", T+"functional/misc.rs"), ("channel-based accumulation in SplitArrayWriter", T+"functional/misc.rs")],
  ["TensorLike::bmm", "RcTensor::backward"])
p("C16", "Concurrent backward passes never lose a gradient contribution",
  """When several threads add gradients to a shared tensor at the same time, directly or by running backward on results that depend on it, the stored gradient afterwards is the sum of all contributions.
  The same total is reached for every interleaving, including the very first contributions to a tensor without a gradient.  A gradient read meanwhile is a sum of whole contributions,
  holding at least those that had finished, and a reset meanwhile removes those that had finished and none that had not begun.""",
  ["schedules"],
  "Every interleaving of two or more threads running backward (or manual gradient updates, resets and reads) on graphs that share tensors, for any number of contributions per thread and any tensor size.",
  "No test shares a tensor between threads.",
  [T+"raw_tensor.rs", T+"autograd/jvp.rs"],
  [("update_grad under the gradient lock", T+"raw_tensor.rs")],
  ["TensorLike::update_grad", "RcTensor::backward", "RcTensor::grad"],
  [("grad", "lock-protected optional gradient shared by all clones", T+"raw_tensor.rs")])
p("C17", "Computing never changes the tensors it reads",
  """Evaluating any operation, taking any view, or running backward leaves the shape and elements of every existing tensor and view unchanged, and forward operations also leave every existing gradient unchanged and create none on
  their operands.  Evaluating the same expression again on the same tensors gives equal results.""",
  ["histories", "inputs"],
  "Every sequence of operations over a shared pool of tensors and views, including operations that fail, aliasing operands (x op x) and operands with pending gradients.",
  "Tests never re-read operands after an operation.",
  [T+"rc_tensor.rs", T+"raw_tensor.rs", T+"functional/element_wise_ops.rs", T+"functional/misc.rs", T+"tensor_view.rs"],
  [("operations allocate fresh results; gradients are the only interior-mutable state", T+"raw_tensor.rs")],
  ["all operators", "TensorLike::get", "RcTensor::grad"])
p("C18", "Incompatible operations are refused instead of returning a wrong answer",
  """Adding or subtracting tensors with incompatible shapes, multiplying or dotting tensors of different non-scalar shapes, matrix products whose inner sizes differ or whose operands have unsupported dimension counts, reading the
  single element of a non-scalar, running backward on a tensor with several elements, slicing outside a tensor or with a wrong number of ranges are all refused, and so are
  a forward pass whose input or layers do not fit, an optimizer step with a missing gradient, and a parameter list of the wrong length.  A refused call returns no tensor
  and leaves every operand, module and gradient usable and unchanged.""",
  ["inputs"],
  "Every pair of shapes that is not allowed for the operation, for owned tensors, shared tensors and views, in both operand orders.",
  "No test exercises a refusal.",
  [T+"functional/misc.rs", T+"functional/element_wise_ops.rs", T+"rc_tensor.rs", T+"tensor_like.rs", T+"tensor_view.rs"],
  [("shape assertions at operation entry", T+"functional/")],
  ["Add", "Mul", "bmm", "dot", "backward", "elem", "slice"])
p("C19", "Any program of forward operations agrees with reference array semantics",
  """Any sequence of constructions, views, reshapes, copies and forward operations, each fed with results of earlier ones, produces tensors whose shape and elements equal those a plain n-dimensional array interpreter
  computes for the same program.  Every tensor so produced is well formed: its element count is the product of its shape and every index in its shape can be read.""",
  ["programs"],
  "Every finite program over the public forward operations and tensor kinds, with arbitrary data flow between operations, shapes and values.",
  "Unit tests look at operations one at a time on freshly built inputs; results of one operation are hardly ever operands of another.",
  [T+"raw_tensor.rs", T+"rc_tensor.rs", T+"tensor_view.rs", T+"functional/element_wise_ops.rs", T+"functional/misc.rs", T+"utils.rs"],
  [("shape bookkeeping in each operation", T+"functional/"), ("row-major layout shared by all kinds", T+"utils.rs")],
  ["all public constructors, operators and TensorLike methods"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
