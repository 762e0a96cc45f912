import json
V="vector/src/vector_types/"
def P(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    return d
SIMD="cfg(basic_dsp_verif) verif_hooks::set_simd_level selects fallback, SSE2 or AVX2 code at run time"
L=[
P("C01","Element-wise operations compute the mathematical function of every element",
"Every element-wise operation (scale, offset, add/sub/mul/div and their smaller variants with a cycled argument, abs, roots, powers, exponentials, logarithms, trigonometric and hyperbolic functions, wrap/unwrap, conj, complex exponential, map) returns for each valid element the mathematically defined value within rounding error, for real and complex vectors of f32 and f64. The number of elements, the number space, the domain and (unless defined otherwise) delta stay the same. Map callbacks are given the element and its position and are called once per element. Complex division, roots and powers may calculate with squares of the values and are defined as long as those are representable.",
["inputs","configurations"],"every vector length, element value, argument, number type, storage, thread setting and instruction set",
"The tests use a handful of lengths and values, mostly one storage type and the default thread settings, so that they miss edges of vectorized parts, chunk borders and cyclic arguments.",
[V+"general/elementary.rs",V+"general/trigonometry_and_powers.rs",V+"general/mapping.rs",V+"real/real_ops.rs",V+"complex/complex_ops.rs",V+"general/diff_sum.rs"],
[("vectorized, chunked element-wise evaluation with scalar edges",V+"mod.rs"),("cyclic argument of the smaller operations",V+"general/elementary.rs")],
["DspVec::data, delta, is_complex, domain after the operation"],SIMD),
P("C02","Results don't depend on the thread settings",
"For every operation the result (data, length, metadata, error, scalar outputs) is the same whatever number of cores and thresholds are configured in the multi core settings, up to rounding errors from regrouping sums. No element is lost, processed twice or taken from the wrong position because the work was split, and every element is visited exactly once by map callbacks, whatever the order and delay in which the threads run. This also holds if several vectors are processed from different threads at the same time.",
["schedules","configurations","inputs"],"every number of cores, threshold, vector length and interleaving of the worker threads",
"Tests run with the default thresholds, under which nearly all vectors are processed by a single thread; odd splits and slow threads don't occur.",
["vector/src/multicore_support/threading.rs","vector/src/multicore_support/mod.rs",V+"mod.rs"],
[("Chunk::execute_* and get_chunked_results split the data and join the threads","vector/src/multicore_support/threading.rs"),("MultiCoreSettings thresholds","vector/src/multicore_support/threading.rs")],
["results of the same operation with different settings, log of callback invocations"],SIMD),
P("C03","Results don't depend on the instruction set or on the alignment of the data",
"For every operation the result is the same, up to rounding errors, whether the fallback, the SSE2 or the AVX2 code is used, and wherever in memory the vector starts. In particular the elements before the first and after the last full register are treated like all others, and nothing outside of the vector is changed. (The values are assumed to have squares which are representable.)",
["configurations","inputs"],"every supported instruction set, alignment offset, vector length and operation",
"A test process uses one instruction set chosen at build time and vectors at the alignment which the allocator happens to return.",
["vector/src/simd_extensions/mod.rs","vector/src/simd_extensions/simd_partition.rs","vector/src/simd_extensions/avx.rs","vector/src/simd_extensions/sse.rs","vector/src/simd_extensions/fallback.rs"],
[("sel_reg! selects the register type","vector/src/simd_extensions/mod.rs"),("SimdPartition splits a slice in aligned center and scalar edges","vector/src/simd_extensions/simd_partition.rs")],
["results of the same operation per instruction set and offset, guard elements around the slice"],SIMD),
P("C04","Results don't depend on storage type, unused capacity or scratch buffers",
"For every operation the result only depends on the valid elements of its operands: not on the kind of storage (Vec, Box, slice, array, fixed size), on unused capacity and what memory contains behind the valid data, or on what a scratch buffer contains, provided that the buffer hands out memory of the requested size. Operations which are offered with and without a buffer give the same result, and a buffer may be reused for any sequence of operations on vectors of different sizes.",
["configurations","histories","inputs"],"every storage type, amount and content of unused capacity, buffer implementation and history of a buffer",
"Tests create fresh vectors whose capacity equals their length, with one kind of storage and fresh buffers.",
[V+"buffer.rs",V+"support_core.rs",V+"support_std.rs",V+"mod.rs",V+"general/data_reorganization.rs"],
[("Buffer/BufferBorrow::trade",V+"buffer.rs"),("valid_len limits the used part of the storage",V+"mod.rs")],
["results of the same operation with different storages and buffers, recorded borrow and trade events"]),
P("C05","Safe code can't cause undefined behavior",
"No call of the public API from safe code reads or writes memory outside of the storage of the involved vectors, reads uninitialized memory, violates alignment or aliasing rules, or frees memory wrongly. This holds for all operations, operand sizes including empty vectors, storage types, thread settings and errors.",
["inputs","configurations","histories"],"every sequence of safe API calls",
"Most undefined behavior has no visible effect in a test; tests run without sanitizers and interpreters and avoid the sizes where pointers run out of bounds.",
["vector/src/lib.rs","vector/src/simd_extensions/mod.rs","vector/src/simd_extensions/simd_partition.rs",V+"time_freq/mod.rs",V+"to_from_vec_conversions.rs","vector/src/multicore_support/threading.rs","vector/src/inline_vector/fixed_size.rs"],
[("transmute_slice, array_to_complex and other reinterpretations of slices","vector/src/lib.rs"),("wrapping iterators over raw pointers",V+"time_freq/mod.rs"),("edge iterators","vector/src/simd_extensions/simd_partition.rs")],
["reports of AddressSanitizer and Miri"],SIMD),
P("C06","Multi threaded execution is free of data races",
"While an operation runs on several threads, no memory location is accessed by two threads without synchronization if one of them writes, whatever the timing of the threads. All worker threads are finished before an operation returns.",
["schedules","inputs","configurations"],"every interleaving of the worker threads, thread setting and operation",
"Races don't show up as failures in ordinary runs and nearly all test vectors are too small to be processed by several threads.",
["vector/src/multicore_support/threading.rs",V+"mod.rs",V+"general/mapping.rs"],
[("crossbeam scoped threads on disjoint chunks","vector/src/multicore_support/threading.rs"),("Send and Sync of vectors and arguments",V+"mod.rs")],
["reports of ThreadSanitizer, calls of callbacks after the operation returned"]),
P("C07","FFT and inverse FFT follow their definition and invert each other",
"plain_fft, fft and windowed_fft of every real or complex time vector of any length return the discrete Fourier transform (with DC first or shifted to the center, after applying the window), and plain_ifft, ifft and windowed_ifft return the inverse transform, scaled and unwindowed so that a transform followed by its inverse gives back the data. The result is complex and in the opposite domain; vectors in the wrong domain are rejected as documented.",
["inputs","configurations"],"every length (even, odd, prime, 1, 0), data, number type, domain and buffer",
"The tests use a few fixed lengths and signals.",
[V+"time_freq/time_to_freq.rs",V+"time_freq/freq_to_time.rs",V+"time_freq/freq.rs"],
[("fft via rustfft with a buffer",V+"time_freq/mod.rs"),("fft_shift and ifft_shift",V+"time_freq/mod.rs")],["result vectors compared with an independently implemented DFT"],SIMD),
P("C08","Symmetric FFTs are the FFT of real signals and invert each other",
"For every real time vector with an odd number of points plain_sfft, sfft and windowed_sfft return the half of the spectrum from DC upwards; plain_sifft, sifft and windowed_sifft return the real signal to which such a half spectrum belongs. Inputs which aren't suitable (complex, even length, wrong domain, spectrum not symmetric) are rejected with the documented error.",
["inputs","configurations"],"every odd length, data, number type, and unsuitable input","The tests use a few fixed lengths.",
[V+"time_freq/time_to_freq.rs",V+"time_freq/freq_to_time.rs",V+"time_freq/freq.rs"],
[("unmirror and mirror of the spectrum",V+"time_freq/mod.rs"),("conversion to a real vector",V+"time_freq/freq_to_time.rs")],["result vectors compared with an independently implemented DFT"],SIMD),
P("C09","Convolution and frequency responses follow their definition",
"convolve_signal equals the circular convolution with the centered impulse response, convolve with a function equals the sum over the function sampled around each point, and multiply_frequency_response multiplies each bin with the response at the frequency of the bin, for all sizes of data and responses, symmetric or not. All algorithms which are chosen depending on the size (scalar, vectorized, overlap discard, FFT) agree; arguments which don't fit are rejected with the documented error.",
["inputs","configurations"],"every length of data and impulse response, ratio, function, number type and setting",
"The algorithm depends on sizes and thresholds and the tests compare few size combinations with symmetric functions.",
[V+"time_freq/convolution.rs",V+"time_freq/mod.rs"],
[("overlap_discard",V+"time_freq/convolution.rs"),("convolve_signal_simd with shifted copies",V+"time_freq/mod.rs"),("convolve_function_priv and multiply_function_priv",V+"time_freq/mod.rs")],["results compared with the defining sums"],SIMD),
P("C10","Correlation follows its definition",
"prepare_argument, prepare_argument_padded and correlate compute the cross correlation of two complex time signals as the sum over the conjugate products, with the zero lag at the documented position, for all lengths with padding as documented. Vectors which aren't complex, aren't in time domain or don't fit each other are rejected with the documented error.",
["inputs","configurations"],"every pair of lengths, data and number type","The tests use few fixed signals.",
[V+"time_freq/correlation.rs"],[("FFT based correlation with zero padding",V+"time_freq/correlation.rs")],["results compared with the defining sum"],SIMD),
P("C11","Interpolation and decimation follow their definition",
"interpolatef equals the sum of the samples (continued periodically) weighted with the function evaluated at the delayed distance, interpolatei, interpolate and interpft equal zero insertion or padding in frequency domain with the response and delay applied, interpolate_lin and interpolate_hermite equal the piecewise polynomials, and decimatei keeps every n-th point, for every length, factor, function and delay. The vectorized and the general code agree.",
["inputs","configurations"],"every length, factor, delay, window length and (a)symmetric function","The tests use few lengths and factors, symmetric functions, and tolerances of 10 %.",
[V+"time_freq/interpolation.rs",V+"time_freq/real_interpolation.rs"],
[("interpolate_priv_scalar and interpolate_priv_simd",V+"time_freq/interpolation.rs"),("multiply_function_priv",V+"time_freq/mod.rs"),("apply_linear_phase",V+"time_freq/interpolation.rs")],["results compared with the defining sums"],SIMD),
P("C12","Sums, dot products and statistics follow their definition",
"sum, sum_sq, dot_product, statistics and statistics_split return for every real or complex vector the values defined by the elements (sum, count, average, rms, minimum and maximum with their positions; for a split those of every n-th element), and merging statistics of parts gives the statistics of the whole. Unsuitable arguments (different lengths or kinds, too many pieces) are rejected with the documented error. The rms is defined as long as the squares of the elements are representable.",
["inputs","configurations"],"every length, data, split, partition into parts and setting","The tests check few vectors whose extremes are at convenient positions.",
[V+"general/statistics.rs",V+"general/dot_products.rs","vector/src/vector_types/general/diff_sum.rs"],
[("statistics_split by index modulo",V+"general/statistics.rs"),("Stats::merge","vector/src/vector_types/general/statistics.rs")],["returned statistics compared with exact sums"],SIMD),
P("C13","Precise sums, dot products and statistics lose nearly no accuracy",
"sum_prec, sum_sq_prec, dot_product_prec, statistics_prec and statistics_split_prec have an error of only a few roundings relative to the sum of the magnitudes, independent of the number of elements, also if the terms cancel each other or have very different magnitudes. They agree with the ordinary versions in everything else.",
["inputs","configurations"],"every length, order and magnitude of elements","The tests only compare with the ordinary versions on short, benign vectors.",
[V+"general/precise_stats.rs",V+"general/dot_products.rs"],
[("Kahan summation and f64 accumulators",V+"general/precise_stats.rs")],["results compared with exact sums"],SIMD),
P("C14","Reorganizing data moves every element to its defined place",
"reverse, swap_halves, zero_pad and zero_pad_b (all options), zero_interleave and zero_interleave_b, split_into, merge, fft_shift/ifft_shift, mirror, resize, diff, cum_sum and their variants return exactly the elements, zeros and order which they define, for every length, and split_into and merge as well as the shifts invert each other. Arguments which don't fit are rejected and leave the data as it was.",
["inputs","configurations","histories"],"every length (even, odd, empty), amount of padding, factor and number of parts","The tests use few lengths, mostly even, and vectors without unused capacity.",
[V+"general/data_reorganization.rs",V+"general/diff_sum.rs",V+"time_freq/mod.rs"],
[("zero_pad, zero_interleave",V+"general/data_reorganization.rs"),("swap_halves_priv",V+"mod.rs")],["exact comparison of the result"],SIMD),
P("C15","Conversions between complex vectors and their parts are exact",
"to_complex, to_real, to_imag, magnitude, magnitude_squared, phase and their buffered, in place, getter and setter variants (real and imaginary part, magnitude and phase) return for each point the defined part, in vectors with the right length, number space and domain, whatever the destination contained and held before. Setting the parts of a complex vector from its own parts gives the vector back. Magnitudes are defined as long as the squares of the parts are representable.",
["inputs","configurations"],"every length, data, and destination of any previous size and content","The tests use fresh destinations and one length.",
[V+"complex/complex_to_real.rs",V+"real/real_to_complex.rs"],
[("pure_complex_to_real_operation",V+"mod.rs"),("get_*/set_*",V+"complex/complex_to_real.rs")],["result and destination vectors"],SIMD),
P("C16","Every sequence of operations ends in a valid state with right metadata",
"After every sequence of operations on vectors the number space, domain, delta, length and settings are those which the operations define; an operation on the wrong kind of vector gives a documented error or a vector marked as invalid (length zero, delta not a number) and doesn't panic (statistics and sums have neither, so nothing is said about them on the wrong kind of vector). Failed operations don't change the operands, an invalid vector stays invalid under all further operations, and vectors never claim more elements than their storage holds.",
["histories","inputs","configurations"],"every sequence of operations on every kind of vector","Tests call one operation at a time on valid operands of the right kind.",
[V+"mod.rs",V+"checks_and_results.rs",V+"rededicate_and_relations.rs",V+"vec_impl_and_indexers.rs"],
[("mark_vector_as_invalid",V+"mod.rs"),("assert_* checks and ErrorReason",V+"checks_and_results.rs"),("rededicate",V+"rededicate_and_relations.rs")],["metadata and errors after each step of random histories"],SIMD),
P("C17","Vectors with run time checks behave like statically typed vectors",
"For each operation which the types of a statically typed vector allow, a vector of the generic type with the same number space and domain gives the same data, metadata, errors and scalar results. Rededicating one into the other keeps the data if number space and domain agree, gives an empty vector otherwise, and keeps storage and settings; operations which the static types forbid are rejected at run time.",
["inputs","programs"],"every operation, length, data and kind of vector","The tests use one of the two types per operation.",
[V+"mod.rs",V+"rededicate_and_relations.rs",V+"requirements.rs","vector/src/meta.rs"],
[("RealOrComplexData and TimeOrFrequencyData","vector/src/meta.rs"),("RededicateOps",V+"rededicate_and_relations.rs")],["pairs of results"],SIMD),
P("C18","Creating vectors and getting data out again preserves every element",
"Each way to create a vector from a container (Vec, Box, slices, arrays; real, complex, interleaved, generic; time or frequency) and each way to get the data back (get, into, magnitude/phase, slices, indexing, iterators, complex views) preserves all elements, their order and number, and sets the right number space, domain and length. Odd numbers of values for complex vectors are rejected as documented.",
["inputs","configurations","histories"],"every container, length including empty and odd, capacity and following operations","The tests convert few fixed containers.",
[V+"to_from_vec_conversions.rs",V+"support_core.rs",V+"support_std.rs",V+"vec_impl_and_indexers.rs","vector/src/inline_vector/dynamic.rs","vector/src/inline_vector/fixed_size.rs"],
[("To*Vector and From* traits",V+"to_from_vec_conversions.rs"),("Index implementations",V+"vec_impl_and_indexers.rs")],["elements in and out"]),
P("C19","Windows are applied and removed point by point",
"apply_window multiplies and unapply_window divides each point of a time vector by the window function evaluated at its position, for symmetric and asymmetric window functions and every length, thread setting and number space; the windowed transforms do the same before or after the transform. The triangular, Hamming, Blackman-Harris and rectangular window have their defined values.",
["inputs","configurations"],"every length, window function and setting","The tests use short vectors with one or two windows.",
["vector/src/window_functions.rs",V+"time_freq/time.rs",V+"time_freq/mod.rs"],
[("multiply_window_priv using the symmetry",V+"mod.rs"),("window functions","vector/src/window_functions.rs")],["results compared with the products"],SIMD),
P("C20","Matrices behave like a list of independent vectors",
"Every operation on a matrix (with a fixed or variable number of rows, with vector or matrix arguments) has the same result as the operation applied to each row as a vector on its own, including errors and metadata. Rows are never mixed, skipped or left in different states, and matrix convolutions equal the sum of the convolutions they stand for.",
["inputs","configurations"],"every number of rows, length, operation and kind of row","The few matrix tests check one or two operations with small matrices.",
["matrix/src/lib.rs","matrix/src/mat_impl.rs","matrix/src/time_freq.rs","matrix/src/real.rs","matrix/src/complex.rs","matrix/src/rededicate.rs","matrix/src/to_from_mat_conversions.rs"],
[("forwarding of operations to the rows","matrix/src/general"),("convolve_mat","matrix/src/time_freq.rs")],["rows after the operation compared with vectors"]),
P("C21","The C interface gives the same results as the Rust API",
"Each exported C function returns for a vector handle the result of the Rust operation it is named after: the same data, length, metadata, scalar results and error code, where zero means success, for 32 and 64 bit. A handle stays usable until it is deleted, and reading elements, metadata or parts doesn't consume or change the vector.",
["inputs","histories"],"every function, kind of vector, argument and sequence of calls","There are nearly no tests of the interop layer.",
["interop/src/facade32.rs","interop/src/facade64.rs","interop/src/lib.rs"],
[("VecBuf/TransRes conversions","interop/src/lib.rs"),("extern functions","interop/src/facade32.rs")],["handles, return codes and data after each call"]),
P("C22","Approximations stay within the documented accuracy",
"ln_approx, exp_approx, sin_approx, cos_approx, log_approx, expf_approx and powf_approx of real vectors differ from the exact function by less than the documented error (1 % for logarithms, exponentials and powers, 1e-6 for sine and cosine) for arguments in the documented range, and beyond it as long as arguments and results stay within single precision, at every position of a vector of any length. Complex vectors are rejected like in other real operations.",
["inputs","configurations"],"every argument in the documented range, length, number type and instruction set","The tests evaluate few arguments.",
["vector/src/simd_extensions/approximations.rs",V+"real/real_ops.rs"],
[("polynomial approximations on registers","vector/src/simd_extensions/approximations.rs")],["values compared with the exact function"],SIMD),
P("C23","Response functions and lookup tables have their defined values",
"The sinc and raised cosine functions return for every argument the defined impulse and frequency response, including the removable singularities and the edges of the pass band. Lookup tables made from functions return the function value at every sampled point and stay between or near neighboring values elsewhere, with linear lookups following the straight line, keep symmetry and conversion between real and complex, time and frequency.",
["inputs","configurations"],"every argument, roll off, table resolution and length","The tests check few points of each function.",
["vector/src/conv_types.rs"],[("RaisedCosineFunction, SincFunction and lookup tables","vector/src/conv_types.rs")],["values of the functions"]),
P("C24","Vectors in memory of a fixed size: the right result or a failure",
"An operation on a vector which borrows a slice or lives in an array of fixed capacity returns the right result if there is enough memory for the data, the result and what the operation works with (twice the data for operations on real vectors which go through the full complex spectrum). If there isn't enough memory then it fails with TypeCanNotResize and unchanged data, marks the vector as invalid or panics; it never truncates a result, never writes outside of the memory it was given and never returns something else than the right result. The same holds for destinations of getters.",
["inputs","configurations"],"every operation, kind of vector, size of the data and amount of memory, with every buffer","The tests use growing vectors, or fixed sizes which are large enough.",
[V+"support_core.rs",V+"mod.rs",V+"vec_impl_and_indexers.rs",V+"complex/complex_to_real.rs",V+"time_freq/mod.rs"],
[("try_resize and alloc_len of slices and arrays",V+"support_core.rs"),("FixedLenBuffer",V+"support_core.rs")],["result, error and data of the operation, memory around the slice"],SIMD),
]
import os
have=set(os.environ.get("HAVE","").split()) or None
with open("/verif/properties.jsonl","w") as f:
    for d in L:
        f.write(json.dumps(d)+"\n")
for d in L:
    assert len(d["title"])<=80, d["title"]
    for x in d["anchors"]["files"]:
        assert os.path.exists("/repo/"+x), (d["id"],x)
