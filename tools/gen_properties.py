#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that edits stay valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

C = "philtorch/csrc/"
LTI, LPV = "philtorch/lti/", "philtorch/lpv/"
INIT = "philtorch/__init__.py"

prop("C01", "Native recurrence kernels never touch memory outside their tensors",
 "Every call of a registered native recurrence operator either is rejected with an error before any element is accessed, or reads and writes only elements that exist in its argument and result tensors. This holds for every combination of ranks, sizes (including empty and mismatched batch, time or state sizes), strides and dtypes the operator accepts, and element offsets never wrap around for tensors larger than 2^31 elements.",
 ["inputs"], "All ranks, sizes, strides and dtypes of (A, zi, x) that the registered CPU operators accept.",
 "Tests only call the operators with matching sizes; an out-of-bounds read at other sizes returns garbage silently, and no finite sample of shapes bounds the index arithmetic.",
 [C+"host_recurN.cpp", C+"host_lti_recurN.cpp", C+"host_lti_recur.cpp", C+"host_recur2.cpp", C+"recur2.cu", C+"lti_recur.cu", C+"lti_recur2.cu"],
 [("mat_recur_N_order_cpu_omp_impl and its kernels", C+"host_recurN.cpp"), ("lti_mat_recur_N_order_cpu_impl and its kernels", C+"host_lti_recurN.cpp"), ("lti_recur_cpu_impl and its kernels", C+"host_lti_recur.cpp")],
 observe=["torch.ops.philtorch.{recur2,recurN,lti_recur2,lti_recurN,lti_recur}"])
prop("C02", "Native kernels give the same result under every thread schedule",
 "The result of a native recurrence operator does not depend on the number of threads or on how the parallel runtime schedules them: no two parallel iterations write the same element, and none reads an element another one writes.",
 ["schedules", "inputs"], "All interleavings of the parallel loops in the registered CPU operators, for all sizes.",
 "A data race shows up only under particular interleavings and thread counts; a passing run on one machine says nothing about the others.",
 [C+"host_recurN.cpp", C+"host_lti_recurN.cpp", C+"host_lti_recur.cpp"],
 [("omp parallel for over the batch", C+"host_recurN.cpp"), ("omp parallel for over the batch", C+"host_lti_recurN.cpp"), ("omp parallel for over the batch", C+"host_lti_recur.cpp")])
prop("C03", "Every kernel computes h[t] = A[t] h[t-1] + x[t] in order, from the initial state",
 "For every operator and every back end (native CPU, CUDA, Helion, pure-Python loop) step t of batch item b combines exactly the coefficient of time t and batch item b (row i against the whole previous state) with the state of step t-1 of the same batch item, adds the input of step t, and step 0 uses the initial state; every step and every state component of the result is produced. Storage layout of the arguments (strides, expanded or transposed views) makes no difference.",
 ["inputs", "configurations"], "All batch sizes, lengths and state sizes; all registered back ends, including the CUDA and Helion sources no test can run here.",
 "CUDA and Helion kernels are never executed by the tests, and the CPU ones only for a few sizes and contiguous layouts.",
 [C+"host_recurN.cpp", C+"host_lti_recurN.cpp", C+"host_lti_recur.cpp", C+"recur2.cuh", C+"recur2.cu", C+"lti_recur.cu", C+"lti_recur2.cu", "philtorch/_helion.py", LTI+"ssm.py", LPV+"ssm.py", LTI+"recur.py", LPV+"recur.py"],
 [("CPU kernels", C), ("Helion kernels", "philtorch/_helion.py"), ("python loops", LTI+"ssm.py:_recursion_loop, "+LPV+"ssm.py:_recursion_loop, recur.py:_scalar_recursion_loop")])
prop("C04", "Operator declarations, kernels, shape functions and gradients agree",
 "Every declared operator has exactly one CPU kernel, one shape function and one gradient rule, and every kernel, shape function and gradient is attached to a declared operator of the same mathematical kind. For every input the shape function accepts, the real kernel returns a tensor with the same shape, dtype, device and memory layout, and inputs the kernel rejects or cannot handle are rejected by the shape function as well.",
 ["inputs", "configurations"], "All operators; all argument ranks, sizes and strides; all registered device back ends.",
 "Tests check a handful of contiguous shapes with opcheck; a disagreement appears only under tracing/compilation with other layouts or sizes.",
 [INIT, C+"host_recur2.cpp", C+"host_recurN.cpp", C+"host_lti_recurN.cpp", C+"host_lti_recur.cpp", C+"recur2.cu", C+"lti_recur.cu", C+"lti_recur2.cu"],
 [("TORCH_LIBRARY / TORCH_LIBRARY_IMPL tables", C), ("register_fake / register_autograd", INIT)])
prop("C05", "Calls never modify the caller's tensors and keep no state between calls",
 "No public function writes to, resizes or re-tags a tensor the caller passed in (nor to storage shared with it), returns a tensor whose modification would alter saved internal state, or stores anything that a later call can observe; calling twice with equal arguments gives equal results.",
 ["histories", "inputs"], "All public functions and operators, all argument layouts and option combinations, any sequence of calls.",
 "Tests compare outputs, not the arguments after the call, and only for the combinations they sample.",
 [LTI, LPV, "philtorch/mat.py", "philtorch/poly.py", INIT, "philtorch/prototype", C],
 [("in-place updates", "philtorch/mat.py:companion, philtorch/poly.py:polydiv, "+LTI+"filtering.py:lfilter_zi"), ("kernels' in-place accumulation on a private copy", C)])
prop("C06", "Filters are exactly linear in (input, initial state)",
 "For fixed coefficients the output and the final state of every filtering, recurrence and state-space function are jointly homogeneous linear functions of the input signal and the initial state: no constant offset, no product of signal terms, no branch on signal values, for every form, back end, shape and block size.",
 ["inputs", "configurations"], "All signals and states (including zeros, infinities of scale), all forms, back ends, unroll factors, shapes, lengths not divisible by the block size.",
 "Superposition quantifies over all pairs of signals and all block sizes; tests evaluate single random signals.",
 [LTI, LPV], [("fir/lfilter/filtfilt/comb_filter", LTI+"filtering.py"), ("fir/allpole/lfilter", LPV+"filtering.py"), ("state_space, state_space_recursion, diag_state_space", LTI+"ssm.py, "+LPV+"ssm.py"), ("linear_recurrence", LTI+"recur.py, "+LPV+"recur.py"), ("cubic_spline", LTI+"interp.py")])
prop("C07", "Batch items are processed independently",
 "Row b of every batched result depends only on row b of the batched inputs (signal, coefficients, initial state) and on unbatched coefficients; no value leaks from one batch item into another, whichever shapes, form, back end or block size is used.",
 ["inputs", "configurations"], "All batch sizes, all shared/batched combinations of coefficients, all forms, back ends and unroll factors.",
 "Tests compare a few batched calls with a reference; block reshaping that mixes rows only for particular shared/batched/remainder combinations is not sampled.",
 [LTI, LPV, INIT, "philtorch/mat.py"], [("block reshaping", LTI+"ssm.py:state_space_recursion, "+LPV+"ssm.py:state_space_recursion"), ("delay folding into the batch axis", LTI+"filtering.py:comb_filter"), ("grouped convolution", LTI+"filtering.py:fir")])
prop("C08", "Output, state and coefficients stay time-aligned for every form and block size",
 "Scaling sample t of the input by r^t, tap k of every coefficient vector by r^k (or the state matrix by r) and the initial state consistently scales sample t of the output by exactly r^t, for every r, form, back end, block size and length; with time-varying coefficients the coefficient given for sample n is the one used at sample n. In particular outputs are causal, never shifted by a sample, and independent of how the sequence is cut into blocks.",
 ["inputs", "configurations"], "All r, all lengths N (divisible by the block size or not, shorter than the order or not), all unroll factors, forms, back ends, orders and shape combinations.",
 "The blocked algorithms have separate code for each shape/remainder/output-selection combination; tests sample few block sizes and lengths.",
 [LTI, LPV, "philtorch/mat.py"], [("blocked recursion", LTI+"ssm.py:state_space_recursion, "+LPV+"ssm.py:state_space_recursion, linear_recurrence"), ("matrix powers", "philtorch/mat.py:matrix_power_accumulate, matrices_cumdot"), ("direct/transposed forms", LTI+"filtering.py, "+LPV+"filtering.py"), ("skewing", LPV+"utils.py:diag_shift")])
prop("C09", "State-space results do not depend on the choice of state or channel basis",
 "Rescaling the state coordinates, the input channels and the output channels of a state-space model (transforming A, B, C, D, the initial state and the input accordingly) changes the output and final state only by that rescaling, for every accepted shape of A, B, C and D, block size, back end and selected output index. Rows and columns of the state, input and output matrices are never exchanged.",
 ["inputs", "configurations"], "All models and diagonal basis changes, all documented shapes of A, B, C, D (shared, batched, time varying), with and without an output index, all unroll factors.",
 "Many shape combinations of B, C and D are never exercised, and tests with symmetric sizes cannot see a transposed product.",
 [LTI+"ssm.py", LPV+"ssm.py", "philtorch/mat.py"], [("shape dispatch for B, C, D", LTI+"ssm.py:state_space/_ssm_C_D, "+LPV+"ssm.py:state_space"), ("blocked recursion", LTI+"ssm.py:state_space_recursion, "+LPV+"ssm.py:state_space_recursion")])
prop("C10", "Complex inputs are handled analytically: no stray conjugation in any form",
 "For complex tensors every output is a complex-analytic function of each coefficient, input and state tensor, so multiplying an input by the imaginary unit multiplies a linear output by it, all forms and back ends realise the same transfer function b/a, and no real or imaginary part is dropped.",
 ["inputs", "configurations"], "All complex-valued coefficients, inputs and states, mixed real/complex arguments, all forms and back ends.",
 "Almost all tests use real tensors, for which conjugation is invisible.",
 [LTI, LPV, "philtorch/mat.py"], [("vecdot / conj idioms", LTI+"ssm.py, "+LPV+"ssm.py, filtering.py"), ("transposed forms", LTI+"filtering.py, "+LPV+"filtering.py")])
prop("C11", "Reverse- and forward-mode gradient rules are the exact adjoint and tangent",
 "For every custom operator and differentiable function class the backward rule returns, for each argument, the correctly conjugated, transposed and time-reversed adjoint with the argument's own shape, and the forward-mode rule the corresponding tangent, for shared and batched coefficients, real and complex data and every subset of arguments that require gradients.",
 ["inputs", "configurations"], "All shapes (shared/batched, any order and length), real and complex dtypes, all subsets of differentiable arguments, operators registered directly and through the function classes.",
 "Numerical gradient checks run only on the function classes at one or two sizes; the rules registered for the operators themselves, for time-varying batched matrices or complex data are not compared with anything.",
 [INIT, LTI+"ssm.py", LTI+"recur.py", LPV+"ssm.py"], [("registered backward closures", INIT), ("LTIMatrixRecurrence, MatrixRecurrence, LTIRecurrence", LTI+"ssm.py, "+LPV+"ssm.py, "+LTI+"recur.py")])
prop("C12", "Final state is returned iff an initial one is given, and continues the stream",
 "A stateful call returns (output, final state) if and only if an initial state was supplied (in the forms that carry state), the final state has the shape of the initial state, and its components are the filter's state right after the last input sample in the same ordering, so that feeding it to the next call continues the stream for any chunk length including chunks shorter than the filter order.",
 ["histories", "inputs", "configurations"], "All chunkings of a stream (including chunks shorter than the order), all forms, back ends, orders (including zero) and block sizes.",
 "Tests compare a few long chunks; chunk lengths below the order, order zero and block sizes that leave a remainder are not covered.",
 [LTI, LPV], [("fir/lfilter/comb_filter state handling", LTI+"filtering.py"), ("fir/allpole/lfilter state handling", LPV+"filtering.py"), ("state_space", LTI+"ssm.py, "+LPV+"ssm.py")])
prop("C13", "Result shapes follow the documentation even when sizes coincide",
 "Every documented combination of argument shapes is accepted and yields the documented result shape and meaning, for every order, length, batch size, feature count and block size - also when some of these sizes happen to be equal, are one, or when the order exceeds the length.",
 ["inputs"], "All sizes, in particular coincidences such as batch = length, state size = features, order = 0, length < order, length = 1.",
 "Shape dispatch compares sizes, so failures appear only for particular coincidences the tests do not draw.",
 [LTI, LPV], [("match on shapes", LTI+"ssm.py, "+LPV+"ssm.py"), ("slices with negative computed bounds", LTI+"filtering.py, "+LPV+"filtering.py, "+LPV+"utils.py, "+LTI+"interp.py")])
prop("C14", "Every function works with and without the optional compiled back ends",
 "With any combination of the compiled extension and the Helion back end present or absent, on any device, each public function runs the computation on a back end that exists: an operator of an absent back end is never called, and the documented result is still produced by the pure-Python path.",
 ["configurations"], "All combinations of extension present/absent, Helion present/absent, CPU/CUDA, state sizes, block sizes and forms.",
 "Tests run in the single configuration in which the extension is present and no GPU exists.",
 [INIT, LTI, LPV, "philtorch/prototype/nl.py"], [("extension_backend_indicator / helion_backend_indicator", LTI+"ssm.py, "+LPV+"ssm.py"), ("EXTENSION_LOADED guards", LTI+"filtering.py, "+LTI+"interp.py, "+LTI+"ssm.py")])
prop("C15", "Gradients flow from outputs to every differentiable argument",
 "Every output of a public function stays connected to the autograd graph of each floating-point argument that influences it: no detaching, conversion to Python numbers, fresh-tensor copies or no-grad regions on the path, no in-place change of a value that backward needs, and backward rules are themselves built from differentiable operations so that higher derivatives exist.",
 ["inputs", "configurations", "programs"], "All functions, all argument subsets requiring gradients, all forms, back ends and block sizes, first and higher derivatives.",
 "A severed or invalidated graph is visible only when backward is run in exactly that configuration; tests do it for few.",
 [LTI, LPV, INIT, "philtorch/mat.py", "philtorch/poly.py", "philtorch/prototype"], [("custom Functions", LTI+"ssm.py, "+LTI+"recur.py, "+LPV+"ssm.py"), ("in-place construction", "philtorch/mat.py, philtorch/poly.py, "+LTI+"filtering.py")])
prop("C16", "Results keep the dtype and device of the inputs",
 "For inputs of one floating-point or complex dtype on one device, every intermediate and returned tensor has that dtype (its complex counterpart only inside eigen-decompositions) and lives on that device; no helper tensor is created with the default dtype or on the default device.",
 ["inputs", "configurations"], "All dtypes (half to complex128), all devices, all forms, back ends and block sizes.",
 "Tests run on CPU with the default dtype almost everywhere, where a wrong default is invisible.",
 [LTI, LPV, "philtorch/mat.py", "philtorch/prototype", INIT], [("helper tensors (eye, zeros, arange, tensor)", "philtorch/mat.py, "+LTI+", "+LPV+", philtorch/prototype"), ("dtype checks and dispatch in kernels", C)])
prop("C17", "Options are validated and never silently ignored",
 "An unknown form, back end, method or reduction name, an unsupported combination or a mismatched shape is rejected with an exception, and every documented option and every supplied tensor argument has its effect on the result in every branch that accepts it.",
 ["inputs", "configurations"], "All values of the string and integer options and all optional arguments, in every branch.",
 "Tests pass valid options only and cannot notice an argument that a branch never reads.",
 [LTI, LPV, "philtorch/prototype"], [("match on form/backend", LTI+"filtering.py, "+LPV+"filtering.py"), ("optional arguments", LTI+"ssm.py, "+LPV+"ssm.py")])
prop("N01", "Filter outputs agree numerically with the SciPy reference",
 "For stable filters the output equals the reference implementation's to rounding error.",
 ["inputs"], "All coefficient values and signals.", "Tests compare random samples with SciPy.",
 [LTI, LPV], [("lfilter", LTI+"filtering.py, "+LPV+"filtering.py")])
prop("N02", "Eigen-decomposition back end is accurate away from defective matrices",
 "The diagonalised evaluation equals the direct recursion up to an error bounded by the conditioning of the eigenvector basis.",
 ["inputs"], "All diagonalisable state matrices.", "Conditioning is a property of values.",
 [LTI+"ssm.py", "philtorch/mat.py"], [("diag_state_space / find_eigenvectors", LTI+"ssm.py, philtorch/mat.py")])
prop("N03", "Newton iteration converges to the sequential solution",
 "The parallel Newton solver reaches the fixed point of the sequential recursion within the tolerance whenever it stops early.",
 ["inputs"], "All differentiable transition functions.", "Convergence depends on the user's function.",
 ["philtorch/prototype/nl.py"], [("newton_solve", "philtorch/prototype/nl.py")])
prop("N04", "Partial-fraction expansions reconstruct the rational function",
 "Residues, poles and direct terms returned for a rational transfer function sum back to it.",
 ["inputs"], "All polynomials, including repeated and clustered roots.", "Root clustering is decided by a numeric tolerance.",
 ["philtorch/prototype/signal.py"], [("residue/residuez/sos2pfe", "philtorch/prototype/signal.py")])
prop("N05", "Spline interpolation passes through the samples",
 "The upsampled signal equals the input at the original sample positions and matches the reference spline between them.",
 ["inputs"], "All signals and factors.", "An approximation property of numeric kernels.",
 [LTI+"interp.py"], [("cubic_spline", LTI+"interp.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
