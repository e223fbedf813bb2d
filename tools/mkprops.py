#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (source of truth for the wording of the properties).
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

p('C01', 'Matrix arithmetic equals its mathematical definition',
  "For every matrix shape and every element values, each arithmetic, element-wise, comparison, product and reduction operation on matrices (sum, difference, Hadamard product and quotient, scalar operations, elementary functions, clipping, matrix and transposed product, dot product, sum, max, min, arg-max, softmax, cumulative sum, norm, power) returns exactly the matrix or number that its mathematical definition gives, with the documented result shape. The in-place variant of an operation leaves the receiver with exactly what the pure variant returns.",
  ['inputs', 'configurations'], 'all element values (as reals), all shapes up to the stated bound, both element types, every operand combination (row/column vectors, scalars, empty)',
  'Tests use a handful of literal matrices of one or two shapes; wrong results for other shapes, signs, sizes or operand orders are not sampled.',
  ['mat/dense.go', 'mat/matrix.go', 'mat/mathfunctions.go', 'mat/internal/matfuncs', 'mat/internal/f32', 'mat/internal/f64'],
  [('Dense arithmetic methods', 'mat/dense.go'), ('kernel dispatch', 'mat/internal/matfuncs/*.go'), ('GEMV/GER/AXPY wrappers', 'mat/internal/f32/gonum.go, mat/internal/f64/gonum.go')],
  ['public methods of mat.Matrix'])
p('C02', 'Matrix operations neither mutate nor alias their operands',
  "An operation that returns a new matrix never changes the elements or the shape of its receiver or arguments, and the returned matrix shares no mutable state with them: any later in-place change of the result leaves the operands as they were, and vice versa. Only operations documented as in-place, or as views of the backing data, are exempt.",
  ['inputs', 'histories'], 'all non-in-place operations, all shapes up to the bound, all element values, any in-place follow-up (element write, reshape, transpose, arithmetic) on either side',
  'Tests compare the returned value and almost never re-read the operands or mutate the result afterwards.',
  ['mat/dense.go', 'mat/dense_new.go', 'mat/matrix.go', 'mat/mathfunctions.go'],
  [('fresh allocation of result data and shape', 'mat/dense.go, mat/dense_new.go')], ['operand data and shape after the call'],
  [('shape slice', 'dimensions of a matrix', 'mat/dense.go Dense.shape'), ('data slice', 'row-major elements', 'mat/dense.go Dense.data')])
p('C03', 'Structural operations move every element to exactly its defined place',
  "Indexing, slicing, row and column access, reshaping, flattening, transposing, resizing, padding, rolling, concatenating, stacking, splitting, appending rows, tiling, and the constructors (identity, one-hot, constant, from function, from data) put each source element exactly at its defined position of a result with the defined shape, and fill every other position with the defined filler.",
  ['inputs', 'configurations'], 'all element values, all shapes, offsets and index combinations up to the bound, both element types',
  'Tests check single example matrices; off-by-one or row/column mix-ups that agree on square or small samples go unseen.',
  ['mat/dense.go', 'mat/matrix.go', 'mat/dense_new.go'],
  [('row-major offset computation and copies', 'mat/dense.go'), ('constructors', 'mat/dense_new.go')], ['result shape and elements'])
p('C04', 'Out-of-contract matrix calls are rejected, never answered',
  "A matrix call whose arguments are outside the documented contract (mismatched shapes, index or range out of bounds, wrong backing length, non-vector where a vector is required) panics or returns an error instead of returning a value, reading outside the matrix or modifying any matrix. Every call inside the contract returns normally.",
  ['inputs'], 'all shapes of the operands and all index values within the stated bound, negative ones included',
  'The set of bad shape/index combinations is a product space; tests try one or two bad combinations per operation.',
  ['mat/dense.go', 'mat/matrix.go', 'mat/dense_new.go'], [('argument validation', 'mat/dense.go')], ['panic/no panic of public methods'])
p('C05', 'SIMD kernels equal their scalar definition and stay in bounds',
  "Each hand-written vector kernel, for every slice length, alignment, stride and element values, writes exactly what the corresponding scalar loop defines into exactly the destination elements, returns the scalar result for reductions, and never reads or writes a byte outside the slices it was given. The single-precision exp and log kernels approximate the function to a few units in the last place for arguments whose result is a normal number. This holds on every CPU feature level the dispatcher can select.",
  ['inputs', 'configurations'], 'all element values, all lengths up to the bound covering every unrolled block and tail, AVX/SSE/FMA variants',
  'Tests run the variant of the host CPU only, on a few lengths, and cannot observe out-of-bounds reads.',
  ['mat/internal/matfuncs', 'mat/internal/f32/asm32', 'mat/internal/f64/asm64'],
  [('assembly kernels', 'mat/internal/matfuncs/*.s, mat/internal/f32/asm32/*.s, mat/internal/f64/asm64/*.s'), ('dispatch', 'mat/internal/matfuncs/*_amd64.go')], ['destination slices, result registers, touched addresses'])
p('C06', 'Every operator\'s backward is the exact derivative of its forward',
  "For every differentiable operator, all operand values at which it is differentiable, all operand shapes it accepts and every output gradient, the gradient accumulated on each operand is the vector-Jacobian product of the forward function computed by that operator. It has the operand's own shape, so it can be accumulated repeatedly, and parameters of an operator that are themselves differentiable operands receive theirs.",
  ['inputs', 'configurations'], 'all element values away from kinks, all accepted shapes up to the bound (row, column, matrix), all output gradients',
  'Tests compare against hard-coded numbers for one input per operator, mostly column vectors.',
  ['mat/gradfn', 'ag/operators.go'], [('Forward/Backward pairs', 'mat/gradfn/*.go')], ['operand Grad() after Backward'])
p('C07', 'Backward computes the exact chain-rule gradient on any graph',
  "For every computation graph (shared nodes, diamonds, several outputs, repeated operands) a backward pass leaves each leaf and operator that requires gradients with the sum, over all paths from the given outputs, of the chain-rule products, counted once each, with supplied or default output gradients. Gradients accumulate across passes until zeroed, and leaves not requiring gradients are untouched.",
  ['programs', 'inputs', 'histories'], 'all graph topologies up to the bound, all leaf values, all output gradients, any choice of roots and of leaves requiring gradients',
  'Tests exercise a few fixed graphs; gradient double counting or loss depends on the topology and on which nodes are roots.',
  ['ag/operator.go', 'ag/backward.go', 'mat/dense_grad.go'], [('pending gradient counting', 'ag/operator.go'), ('root handling', 'ag/backward.go')], ['Grad() of leaves and operators'])
p('C08', 'Concurrent forward and backward are schedule independent',
  "For every interleaving of the goroutines that evaluate operators and propagate gradients, evaluation and backward terminate without deadlock, without data race, and with the same values and gradients as sequential execution; a value or gradient is never observed before it is complete. This holds also when asynchronous execution is mixed with synchronous execution.",
  ['schedules', 'programs'], 'all interleavings of synchronisation and memory events of the explored graphs',
  'A test run observes one schedule chosen by the runtime.',
  ['ag/operator.go', 'ag/backward.go'], [('completion broadcast channels, gradient broadcast, atomic counters, semaphores', 'ag/operator.go')], ['events of the goroutines'])
p('C09', 'Gradient blocking and gradient requirements are respected',
  "No gradient ever reaches a tensor behind a gradient stop or a tensor that does not require gradients, the value seen through the stop is the unchanged value, and an operator requires gradients exactly when at least one operand does. Zeroing gradients removes exactly the accumulated gradient and nothing else.",
  ['programs', 'inputs'], 'all placements of stops and non-requiring leaves in graphs up to the bound, all values',
  'Few fixed placements are tested.',
  ['ag/gradientblocker.go', 'ag/operator.go', 'mat/dense_grad.go', 'nn/param.go', 'nn/buffer.go'], [('StopGrad wrapper', 'ag/gradientblocker.go')], ['Grad(), HasGrad(), RequiresGrad()'])
p('C10', 'Binary matrix serialization round-trips bit-exactly',
  "Decoding the encoding of any matrix restores the same shape, element type and bit-identical elements (NaN payloads, infinities and signed zeros included) and the gradient-requirement flag the format defines. The decoded matrix is independent of the caller's buffer, and encoding does not modify the matrix.",
  ['inputs', 'histories'], 'all bit patterns of the elements, all shapes up to the bound, later reuse of the buffer',
  'Tests round-trip a few literal matrices and never reuse the input buffer.',
  ['mat/dense_marshaling.go', 'mat/fbs/dense', 'nn/gob.go'], [('flatbuffers encoding and unsafe reinterpretation', 'mat/dense_marshaling.go')], ['decoded matrix'])
p('C11', 'Model traversal reaches each parameter exactly once',
  "Walking a model visits every parameter reachable through nested modules, slices, arrays, maps, pointers and interface fields, each field once and nothing else, calls every submodule callback, and zeroing or streaming gradients through the traversal affects exactly those parameters. Every built-in model exposes all of its trainable parameters.",
  ['programs', 'configurations'], 'all field-kind nestings up to the bound and all built-in models',
  'Tests use a few hand-written structs; a skipped container kind silently leaves parameters untrained.',
  ['nn/traversal.go', 'nn/model.go'], [('reflective walk', 'nn/traversal.go')], ['callback invocations'])
p('C12', 'Optimizers apply exactly their published update rule',
  "For every parameter value, gradient, accumulated state, hyper-parameters and step number, one optimization step of each method (gradient descent with plain and Nesterov momentum, AdaGrad, RMSProp, Adam, AdamW, RAdam, LAMB) changes the parameter by exactly its published rule, updates its state accordingly and consumes the gradient exactly once. Learning-rate decay schedules return the documented rate at every step.",
  ['inputs', 'histories'], 'all values as reals, all shapes up to the bound, sequences of steps up to the bound, all configuration flags',
  'Tests check a few literal steps with default hyper-parameters.',
  ['optimizers'], [('CalculateParamUpdate implementations', 'optimizers/*/')], ['parameter values after Optimize'])
p('C13', 'An optimization pass completes every update before it returns',
  "When an optimization pass returns, every parameter holding a gradient has been updated exactly once with its own gradient and its gradient cleared, and parameters without a gradient are unchanged; if any update fails, an error is returned. No update is still running after the return. This holds for every interleaving of the workers, without data race, deadlock or panic.",
  ['schedules', 'inputs', 'fault_sequences'], 'all interleavings of the update workers, any set of failing updates, any subset of parameters with gradients',
  'A test observes one schedule; the unsynchronised case usually happens to win.',
  ['optimizers/optimizer.go'], [('worker goroutines and wait group', 'optimizers/optimizer.go')], ['parameter state and error at return'])
p('C14', 'Gradient clipping enforces exactly its bound',
  "Clipping by value leaves every gradient element equal to the original clamped into the interval, and clipping by norm leaves the collection of gradients unchanged when its global norm plus the documented 1e-7 stabiliser does not exceed the limit, and otherwise scales all of them by the one common positive factor that brings it to the limit (up to the stabiliser). Parameters without gradients are skipped.",
  ['inputs', 'configurations'], 'all gradient values, any number of parameters and shapes up to the bound, any subset with gradients, all norm types',
  'Tests clip one literal gradient set.',
  ['optimizers/gradclipper'], [('ClipGradients', 'optimizers/gradclipper/clipper.go')], ['gradients after clipping'])
p('C15', 'CRF decoding and loss agree with exhaustive scoring',
  "For all emission and transition scores, the decoded tag sequence of the linear-chain CRF has the maximal score among all tag sequences of that length, and the loss equals the log of the sum over all sequences of exponentiated scores minus the score of the target sequence.",
  ['inputs'], 'all real scores, numbers of tags and sequence lengths up to the bound, all target sequences',
  'Tests use one literal example; the decoder must be right for every score ordering.',
  ['nn/crf'], [('Viterbi recursion', 'nn/crf/viterbi.go'), ('forward recursion', 'nn/crf/crf.go')], ['decoded path, loss value'])
p('C16', 'Normalising functions return distributions and are shift-safe',
  "For every input, softmax returns positive numbers and sparsemax non-negative numbers, each summing to one, sparsemax is the Euclidean projection onto the simplex, and log-sum-exp, softmax and their losses only exponentiate numbers that are not positive (so that no finite input overflows).",
  ['inputs'], 'all real vectors up to the bounded length, every ordering and ties',
  'Tests use single literal vectors.',
  ['mat/dense.go', 'mat/gradfn/softmax.go', 'mat/gradfn/sparsemax.go', 'mat/gradfn/sparsemax_loss.go', 'ag/operators.go', 'losses/losses.go'], [('maximum subtraction', 'mat/dense.go'), ('threshold search', 'mat/gradfn/sparsemax.go')], ['outputs and arguments of exp'])
p('C17', 'Loss functions equal their published formulas',
  "For all predictions and targets, each loss (absolute, squared, negative log-likelihood, cross-entropy with and without weights, focal, perplexity, distance, policy gradient, quantisation regularisers, sparsemax loss, and the sums and averages over sequences) equals its published formula, element for element, and its gradients with respect to the prediction follow from it.",
  ['inputs', 'configurations'], 'all real values, sizes and class indexes up to the bound, reduce-mean on and off',
  'Tests use single literal vectors.',
  ['losses/losses.go'], [('loss graphs', 'losses/losses.go')], ['loss value and gradient'])
p('C18', 'Random generation stays in range, unbiased in mapping and replayable',
  "For every state of the generator and every bound, integer draws lie in the half-open range, floating draws lie in [0,1), permutations and shuffles are permutations, discrete draws only return events with positive probability, the locked generator draws what the underlying one draws and goroutines sharing it get its draws in some order without a race, unique draws are distinct, accepted by the callback and able to reach every acceptable value, and equal seeds give equal sequences. Dropout and Bernoulli masks contain only the two allowed values, and initializers stay within their documented bounds.",
  ['inputs', 'histories'], 'all 64-bit raw generator outputs (as bit-vectors), all bounds, sizes up to the bound',
  'Tests draw a few thousand numbers; the failing raw outputs (rounding up to 1, modulo edges) have probability far below that.',
  ['mat/internal/rand', 'mat/rand', 'initializers', 'ag/rand.go', 'mat/gradfn/dropout.go'], [('range reduction and rejection', 'mat/internal/rand/rand.go')], ['returned draws'])
p('C19', 'Neural layers compute their published equations',
  "For all parameter values and inputs, each built-in layer (linear, highway, recurrent cells and their sequences, convolutions, normalizations, pooling, activations, squared distance, feed-forward and mixing blocks, gating units) outputs exactly its published equation, per element of the input sequence and in input order.",
  ['inputs', 'configurations'], 'all real parameters and inputs, layer sizes and sequence lengths up to the bound, all configuration flags',
  'Tests compare one literal configuration per layer.',
  ['nn'], [('layer Forward methods', 'nn/*/')], ['layer outputs'])
p('C20', 'Attention is exact, causal where asked, and cache-equivalent',
  "Scaled dot-product and multi-head attention return the softmax-weighted combination of the values for every input; with causal masking an output depends only on inputs at its own or earlier positions. Feeding a sequence in chunks through the key/value cache gives exactly the outputs of feeding it at once.",
  ['inputs', 'histories'], 'all real parameters and inputs, sequence lengths, head counts and chunkings up to the bound',
  'Tests use literal matrices and one chunking.',
  ['nn/attention'], [('causal mask and cache', 'nn/attention')], ['outputs and weights'])
p('C21', 'Bidirectional and recurrent processing keep positions aligned',
  "For every sequence length, bidirectional processing pairs at each position the forward state after reading the prefix and the backward state after reading the suffix, merged as configured, and continuing a recurrent layer from a previous state equals processing the concatenated sequence.",
  ['inputs', 'histories', 'schedules'], 'all values, lengths up to the bound, all merge modes, all split points',
  'Tests check one length; misalignment needs distinct values per position.',
  ['nn/birnn', 'nn/recurrent', 'nn/gnn/slstm'], [('reverse processing and merge', 'nn/birnn/birnn.go')], ['outputs per position'])
p('C22', 'Embedding lookups and sparse gradients stay per item',
  "Looking up an item returns exactly its stored vector, gradients accumulate only on the looked-up items, repeated look-ups of one item add up, and only items holding gradients are exposed for optimization; clearing gradients leaves no stale entry, also when goroutines use the table at the same time. This also holds after the table has been saved and loaded.",
  ['inputs', 'histories'], 'all vectors and gradients, table sizes and look-up sequences up to the bound',
  'Tests check short literal sequences.',
  ['nn/embedding'], [('per-item gradient index', 'nn/embedding')], ['item values and gradients'])
p('C23', 'Precision conversions preserve values',
  "Wrapping and converting scalars and slices between 32-bit and 64-bit floating point preserves every 32-bit value exactly, rounds 64-bit values once to nearest, keeps length and order, and reports the true element size; interchanging matrices of both precisions in an operation never reinterprets bits.",
  ['inputs'], 'all bit patterns, slice lengths up to the bound',
  'Tests check a few literals.',
  ['mat/float', 'mat/dense.go'], [('DTFloat/slice conversions', 'mat/float')], ['converted values'])
p('C24', 'Gradients of every built-in model are the derivatives of its outputs',
  "For every built-in model (linear, highway, recurrent cells, bidirectional and graph recurrences, convolutions, pooling, attention, normalizations, gating units, mixer, CRF, embedding), every value of its parameters and inputs at which each of its operations is differentiable and every output gradient, one backward pass ends and leaves on each trainable parameter, and on each input that requires gradients, the derivative of the model's outputs weighted by the output gradients. Nothing in the model stops, doubles or drops a gradient.",
  ['inputs', 'configurations', 'programs'], 'all parameter, input and output-gradient values, all configurations of a model, sequence lengths and sizes up to the bound, row and column vectors',
  'Tests compare hard-coded gradients of one configuration; a lost or doubled path through a parameter of another configuration is not seen.',
  ['nn', 'ag', 'mat/gradfn'], [('Forward methods of the models', 'nn/*'), ('graph construction and backward', 'ag/operator.go, ag/backward.go')], ['Grad() of the parameters and inputs after ag.Backward'])
p('C25', 'Every operator computes its mathematical definition',
  "For every operand value, each operator offered by package ag (arithmetic, activations, scalar and elementwise operations, matrix products, affine and bilinear maps, reductions, softmax family, sparsemax, pooling, views, slices, reshapings, concatenations, and the helpers over sequences) yields exactly the value and shape of its definition, whether its operands are leaves or results of other operators and however often it is read, leaves its operands unchanged, and rejects sizes its definition excludes.",
  ['inputs', 'programs'], 'all real operand values, both element types, shapes and numbers of operands up to the bound, leaf and operator operands',
  'Tests compare a few literal matrices per operator; helpers such as Mean, Maximum or PositiveELU are hardly tested.',
  ['ag/operators.go', 'mat/gradfn'], [('operator constructors', 'ag/operators.go'), ('Forward methods', 'mat/gradfn')], ['Value() of the operator'])
with open('/verif/properties.jsonl', 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
