TECH_AI = "abstract interpretation of the compiler's MIR (path-sensitive symbolic domain, loop fixpoints), exit states compared with a contract table"
NOTE_AI = ("Decides the property for every exit path the abstract interpreter finds of every public vector operation (monomorphised for runtime "
           "typed and all four statically typed f64 vectors over growable storage; thorough adds f32). Equality of symbolic results is decided by "
           "random interpretation of the path facts, so an undecidable obligation is counted in the evidence and never raises an alarm. Trusts the "
           "contract table, the models of core/alloc/rustfft calls and 64 bit arithmetic without overflow.")
W_IN = "The operation has to be right for every combination of length, number space, domain, sample step and argument; the tests call each operation on one or two well formed vectors of one kind."

TECH_PAN = "abstract interpretation of the compiled MIR: path conditions of every panicking path, searched for a satisfying input"
NOTE_PAN = "Paths whose condition mentions an abstracted loop quantity, an opaque float comparison or a callback of the caller are undecided and never reported. Chunked executions are seen with one chunk. Trusted: the MIR, the interpreter's transfer functions and models of std."

PROPS = [
 dict(id="P01", title="Statically typed vectors offer only operations valid for their type",
  statement="A vector whose type says real or complex and time or frequency domain offers exactly the operations which are defined for it: a program which calls an operation for the wrong number space or domain, mixes operands of different number space or domain, uses a vector after a transform consumed it, or uses a transform's result as another kind of vector than the one it is does not compile.",
  over=["programs"], qtext="for every program written against the public vector API",
  why="Tests only contain programs which compile; nothing in the suite exercises a program which must be rejected.",
  files=["vector/src/vector_types/requirements.rs", "vector/src/vector_types/rededicate_and_relations.rs", "vector/src/vector_types/time_freq/", "vector/src/vector_types/complex/", "vector/src/vector_types/real/", "vector/src/vector_types/general/"],
  mech=[("number space and domain marker traits and operand relation traits", "vector/src/vector_types/requirements.rs, rededicate_and_relations.rs"), ("bounds on the impl blocks of each operation trait", "vector/src/vector_types/**")],
  technique="compile-fail witnesses with compiling twins, checked by the type checker",
  note="Every (typed vector, operation) pair outside the definition table is a one line program which the type checker of the current tree has to reject; documented result and argument types are positive twins. Covers owned f64 vectors."),
 dict(id="P02", title="Calls which are not defined for their inputs are rejected as documented",
  statement="On vectors whose number space and domain are runtime properties, every operation called in the wrong number space or domain, with operands whose length, number space, domain or sample step do not match, or with an invalid length argument, returns the documented error or empties the vector and marks it as erroneous; with valid inputs it succeeds. This holds for all input combinations, independent of length and of the implementation branch which would be taken.",
  over=["inputs"], qtext="all vector states (length, number space, domain, sample step) and arguments of every vector operation", why=W_IN,
  files=["vector/src/vector_types/checks_and_results.rs", "vector/src/vector_types/general/", "vector/src/vector_types/complex/", "vector/src/vector_types/real/", "vector/src/vector_types/time_freq/"],
  mech=[("guard macros", "vector/src/vector_types/checks_and_results.rs"), ("guards at the start of each operation", "vector/src/vector_types/**")], technique=TECH_AI, note=NOTE_AI),
 dict(id="P03", title="An operation which returns an error leaves its operands unchanged",
  statement="When a vector operation which works in place or reads its operands returns an error, the length, sample step, number space, domain and all samples of the operands are the same as before the call. Exempt are only operations whose documentation says that a vector of the wrong number space or domain is emptied, which then is emptied completely.",
  over=["inputs"], qtext="all inputs for which an operation fails", why="Tests check the returned error of a few failing calls but not the state of the vector afterwards, and only for one input each.",
  files=["vector/src/vector_types/general/", "vector/src/vector_types/complex/complex_to_real.rs", "vector/src/vector_types/time_freq/"],
  mech=[("validation before modification", "vector/src/vector_types/**")], technique=TECH_AI, note=NOTE_AI),
 dict(id="P04", title="Number space and domain are tracked correctly by every operation",
  statement="After every operation the vector reports the number space and the domain which its data has: Fourier transforms switch the domain and yield complex data (real data for the symmetric inverse ones), conversions between real and complex switch the number space, conversions between runtime and statically typed vectors keep both, and every other operation leaves both as they were. This also holds for the flags of vectors which were invalidated.",
  over=["inputs", "histories"], qtext="all vector states and arguments of every vector operation", why=W_IN,
  files=["vector/src/vector_types/time_freq/", "vector/src/vector_types/complex/complex_to_real.rs", "vector/src/vector_types/real/real_to_complex.rs", "vector/src/vector_types/rededicate_and_relations.rs"],
  mech=[("flag updates at the end of the transforms", "vector/src/vector_types/time_freq/time_to_freq.rs, freq_to_time.rs"), ("rededication", "vector/src/vector_types/rededicate_and_relations.rs")], technique=TECH_AI, note=NOTE_AI),
 dict(id="P05", title="Sample step and multi core settings are tracked by every operation",
  statement="Fourier transforms multiply the sample step by the number of transformed points, resampling to a given number of points scales it by the ratio of the points, getters hand it over to their target vectors, and every other operation keeps it unless it is set explicitly. The multi core settings of a vector are carried over to the result of every operation.",
  over=["inputs", "histories"], qtext="all vector states and arguments of every vector operation", why=W_IN,
  files=["vector/src/vector_types/time_freq/mod.rs", "vector/src/vector_types/time_freq/interpolation.rs", "vector/src/vector_types/rededicate_and_relations.rs"],
  mech=[("sample step update of the transforms", "vector/src/vector_types/time_freq/mod.rs"), ("rededication", "vector/src/vector_types/rededicate_and_relations.rs")], technique=TECH_AI, note=NOTE_AI),
 dict(id="P06", title="Every operation yields the documented length within the storage",
  statement="After every operation the vector has the length which is documented for it, for every input length including empty and odd ones: elementwise operations keep it, zero padding and interleaving, resizing, mirroring, transforms, resampling, decimation and conversions between real and complex change it as specified. The length never exceeds the storage and complex vectors always hold an even number of values.",
  over=["inputs", "histories"], qtext="all vector lengths, kinds and arguments of every vector operation", why=W_IN,
  files=["vector/src/vector_types/vec_impl_and_indexers.rs", "vector/src/vector_types/general/data_reorganization.rs", "vector/src/vector_types/time_freq/"],
  mech=[("length bookkeeping", "vector/src/vector_types/**")], technique=TECH_AI, note=NOTE_AI),
]

TECH_EFF = "abstract interpretation of the compiler's MIR to effect summaries (closed form loop effects on storage), summaries compared for arbitrary contents"
NOTE_EFF = ("Decides the property on the effect summaries (symbolic position, guard and value of every write to float storage, loops in closed form) which the "
            "abstract interpreter derives for every exit path of every public vector operation (monomorphised for runtime typed and statically typed vectors over growable "
            "storage). Summaries are compared with the definition, or with themselves in the other setting, by random interpretation of the terms; what cannot be decided "
            "is counted in the evidence and never raises an alarm. Trusts the models of core/alloc/rustfft calls, the chunk executor (decided separately) and exact arithmetic.")
PROPS += [
 dict(id="P07", title="Results depend only on the valid samples of the operands",
  statement="The samples a vector operation yields depend only on the valid samples of its operands and on its arguments. They never depend on what storage beyond the valid length holds, on the former contents of a supplied buffer, or on what earlier operations left behind in them.",
  over=["inputs", "histories"], qtext="all contents of unused storage and buffers, all inputs of every vector operation",
  why="Tests start from freshly allocated vectors and buffers, whose unused storage is empty or zero.",
  files=["vector/src/vector_types/general/", "vector/src/vector_types/time_freq/", "vector/src/vector_types/real/", "vector/src/vector_types/complex/", "vector/src/vector_types/buffer.rs"],
  mech=[("swapping of buffer and data, zeroing of padding, slicing to the valid length", "vector/src/vector_types/**")], technique=TECH_EFF, note=NOTE_EFF),
 dict(id="P08", title="No operation accesses samples outside of its slices",
  statement="No vector operation, whether in its scalar, SIMD or parallel branch, reads or writes storage outside of the slice which it works on, for any length, alignment and argument; in particular SIMD loops with scalar head and tail cover the valid samples and nothing else.",
  over=["inputs"], qtext="all lengths, alignments and arguments of every vector operation",
  why="Unsafe and edge accesses only show for particular lengths and alignments; the tests use few of them.",
  files=["vector/src/vector_types/general/", "vector/src/vector_types/time_freq/", "vector/src/vector_types/mod.rs", "vector/src/simd_extensions/"],
  mech=[("index computations and iterators over the valid samples", "vector/src/vector_types/**")], technique=TECH_EFF, note=NOTE_EFF),
 dict(id="P09", title="Results do not depend on how the data is split among threads",
  statement="Every vector operation yields the same samples (up to the rounding of sums) and the same length whether the data is processed in one piece or is split into any number of chunks among threads, including operations which need the position of a sample or combine the results of the chunks.",
  over=["inputs", "schedules"], qtext="all numbers of threads, multi core settings and inputs of every vector operation",
  why="The existing tests use vectors which are too short to be split, or few sizes on the machine's core count.",
  files=["vector/src/multicore_support/mod.rs", "vector/src/multicore_support/threading.rs", "vector/src/vector_types/general/", "vector/src/vector_types/time_freq/", "vector/src/vector_types/complex/", "vector/src/vector_types/mod.rs"],
  mech=[("closures given to the chunk executor and the combination of their results", "vector/src/vector_types/**")], technique=TECH_EFF, note=NOTE_EFF),
 dict(id="P10", title="Elementwise operations compute their documented function for every sample",
  statement="Arithmetic, trigonometric, power, root, logarithm, exponential, offset, scale, mapping and wrapping operations, operations with a smaller operand, and the operations which combine or split real and imaginary part or magnitude and phase, apply the documented function to each sample exactly once. This holds for every length, alignment, kind of vector and branch of the implementation (scalar, SIMD and threaded).",
  over=["inputs"], qtext="all lengths, kinds, sample values and arguments of every elementwise operation", why=W_IN,
  files=["vector/src/vector_types/general/elementary.rs", "vector/src/vector_types/general/trigonometry_and_powers.rs", "vector/src/vector_types/complex/", "vector/src/vector_types/real/", "vector/src/vector_types/general/mapping.rs", "vector/src/vector_types/mod.rs"],
  mech=[("pure_*_operation and simd_*_operation helpers", "vector/src/vector_types/mod.rs"), ("each operation's closure", "vector/src/vector_types/**")], technique=TECH_EFF, note=NOTE_EFF),
 dict(id="P11", title="SIMD registers and slice partitions are equivalent to scalar code",
  statement="Every operation of the SIMD register types which the default build uses acts on each lane (for complex numbers on each pair of lanes) like the scalar operation of the same name, loads and stores exactly the lanes at the index it is given, and the partition of a slice into a scalar head, whole registers and a scalar tail covers every element of the slice exactly once, in order and with the right position, for every length and alignment.",
  over=["inputs"], qtext="all lane values, lengths and alignments", why="Values of single lanes and rare alignments only show up in the samples of an operation if a test happens to look at them.",
  files=["vector/src/simd_extensions/"], mech=[("register types", "vector/src/simd_extensions/fallback.rs"), ("partition and edge iteration", "vector/src/simd_extensions/simd_partition.rs"), ("alignment", "vector/src/simd_extensions/mod.rs")],
  technique="abstract interpretation of the compiled MIR: effect summaries of the register methods and partitions, compared with scalar lane semantics",
  note="Only the register types of the default build on stable Rust (f64x2 and f32x4 of the fallback module) are analysed; the SSE and AVX implementations need features which this configuration doesn't compile. Alignments are all multiples of the element size."),
 dict(id="P13", title="Every C function performs the operation it is named after on its arguments",
  statement="Every function of the C interface, in both precisions, carries out the vector operation it is named after on the vector it is given, passes on every argument in its role (numbers, lengths, enumerations, callback functions with their data and symmetry flag, other vectors), stores the vector which results from the operation, and reports the error code of the operation if it fails and zero if it succeeds; getters and constructors return what they promise.",
  over=["inputs"], qtext="all arguments and all outcomes of the operations, for every exported function", why="The interop crate has no tests at all, and its functions are written by hand.",
  files=["interop/src/"], mech=[("exported functions", "interop/src/facade32.rs, facade64.rs"), ("conversion of results and operands", "interop/src/lib.rs")],
  technique="abstract interpretation of the compiled MIR with opaque vector operations, compared with a table of names and argument roles",
  note="The table of names, operations and argument roles is trusted. The vector operations themselves are covered by the other properties."),
 dict(id="P14", title="C functions keep ownership of handles consistent and are all exported",
  statement="A C function frees a vector handle exactly if it is documented to consume it (by returning a new handle for it, or by deleting it) and uses no handle after it freed it; functions which only read or modify a vector leave it alive. Every function of the interface exists in 32 and 64 bit precision and is exported under its unmangled name.",
  over=["inputs", "histories"], qtext="all paths of every exported function", why="A double free or leak needs a C caller; the interop crate has no tests.",
  files=["interop/src/"], mech=[("boxes passed over the C interface", "interop/src/facade32.rs, facade64.rs"), ("no_mangle exports", "interop/src/")],
  technique="ownership (typestate) analysis of handles on every path of the compiled MIR, plus a query over the exported items",
  note="Paths which end in a panic inside a vector operation are not considered."),
 dict(id="P15", title="Matrix operations act on every row exactly once",
  statement="Every operation on a matrix (two, three or four rows, or any number of them) carries out the vector operation of the same name on every row exactly once, with the same arguments or with the matching row of a matrix argument, and returns or stores the results in the order of the rows. It reports an error exactly if the operation on a row fails, and it is that row's error; a transform which fails still returns all rows. Conversions to and from matrices keep the rows and their order.",
  over=["inputs"], qtext="all numbers of rows, arguments and outcomes of the row operations", why="The tests call a handful of the matrix operations on two rows.",
  files=["matrix/src/"], mech=[("row-wise forwarding", "matrix/src/general/, complex.rs, real.rs, time_freq.rs, rededicate.rs, mat_impl.rs"), ("transformation of collections of rows", "matrix/src/lib.rs"), ("conversions", "matrix/src/to_from_mat_conversions.rs")],
  technique="abstract interpretation of the compiled MIR with opaque row operations: call, argument, result and error obligations on every path",
  note="Matrices with any number of rows are analysed for zero to three rows; the code is generic in the rows' type, so it can't depend on their contents other than through the operations' results."),
 dict(id="P12", title="Reorganising operations move every sample to its documented position",
  statement="Zero padding, zero interleaving, resizing, reversing, half swapping, FFT shifts, mirroring, merging and splitting vectors, decimation, differences, cumulative sums, phase unwrapping, cloning and getters put every sample, and for complex vectors every pair of real and imaginary part, at exactly the documented position with the documented value, zeros included, for every length and argument.",
  over=["inputs"], qtext="all lengths, kinds, sample values and arguments of every reorganising operation", why=W_IN,
  files=["vector/src/vector_types/general/data_reorganization.rs", "vector/src/vector_types/general/diff_sum.rs", "vector/src/vector_types/general/mapping.rs", "vector/src/vector_types/time_freq/", "vector/src/vector_types/vec_impl_and_indexers.rs"],
  mech=[("in place permutations and padding", "vector/src/vector_types/general/data_reorganization.rs"), ("half swapping, mirroring", "vector/src/vector_types/time_freq/mod.rs")], technique=TECH_EFF, note=NOTE_EFF),
 dict(id="P16", title="Transforms combine window, FFT, scaling and reordering as documented",
  statement="Plain, shifted, windowed and symmetric Fourier transforms and their inverses apply exactly the documented sequence of windowing, forward or inverse transform of the right size, scaling by the number of points, half swapping, mirroring and unwindowing. A correlation is the inverse transform of the product of the padded vector's spectrum with its prepared argument. Windows and frequency responses weight every sample by the function value at the sample's own position.",
  over=["inputs"], qtext="all lengths, kinds, sample values, windows and arguments of the transforms", why=W_IN,
  files=["vector/src/vector_types/time_freq/"], mech=[("transform pipelines", "vector/src/vector_types/time_freq/time_to_freq.rs, freq_to_time.rs"), ("window and frequency response weights", "vector/src/vector_types/time_freq/mod.rs, freq.rs, time.rs")], technique=TECH_EFF,
  note=NOTE_EFF + " The FFT itself is an uninterpreted function of direction, size and all its inputs."),
 dict(id="P17", title="Sums, dot products and statistics cover every sample once",
  statement="Sums, sums of squares, dot products (plain and in extended precision) and statistics include every valid sample exactly once, and no other value, for every length, alignment and number of chunks. The statistics report the count, sum, root mean square, average and the smallest and largest sample together with their indices. Split statistics do so for every column of interleaved samples on its own.",
  over=["inputs"], qtext="all lengths, kinds and sample values", why=W_IN,
  files=["vector/src/vector_types/general/statistics.rs", "vector/src/vector_types/general/dot_products.rs", "vector/src/vector_types/general/precise_stats.rs"],
  mech=[("SIMD accumulation with scalar edges, merging of chunk results", "vector/src/vector_types/general/")], technique=TECH_EFF, note=NOTE_EFF),
 dict(id="P18", title="Convolutions compute the circular convolution sum",
  statement="Convolving a vector with an impulse response (another vector which isn't longer, or a function which is sampled at the distances -len..len from each point) replaces every point by the circular convolution sum of the vector and the impulse response, whose centre is the point (length - 1) / 2 (rounded down) of the response, whichever implementation is chosen because of the lengths, the alignment and the kind of the vector: the direct sum, SIMD registers with shifted copies of the response, or the registers for sampled functions.",
  over=["inputs"], qtext="all sample values and functions; the numbers of points are fixed per valuation", why="The implementation is selected by the lengths, and the tests compare a few vectors with a tolerance.",
  files=["vector/src/vector_types/time_freq/convolution.rs", "vector/src/vector_types/time_freq/mod.rs"],
  mech=[("direct sums over wrapping iterators", "vector/src/vector_types/time_freq/mod.rs (convolve_signal_scalar, convolve_function_priv, WrappingIterator)"), ("registers with shifted copies", "vector/src/vector_types/time_freq/mod.rs (convolve_signal_simd_impl, create_shifted_copies)"), ("selection of the implementation, sampling of functions", "vector/src/vector_types/time_freq/convolution.rs")],
  technique=TECH_EFF, note=NOTE_EFF + " The FFT based algorithm for complex vectors of more than 5000 points is not decided."),
 dict(id="P19", title="Windows, responses and lookup tables follow their formulas",
  statement="The triangular, Hamming, Blackman-Harris and rectangular windows, the sinc and raised cosine impulse and frequency responses evaluate to their documented formulas at every point, including the points where the formula is a limit, and a function which says it is symmetric is. A lookup table keeps the samples, the distance and the symmetry it is created from (a table made from a function holds its values at -len..len), yields its samples at the grid points, interpolates linearly in between and is zero outside (symmetrically), and its conversions and transforms keep the order of the samples.",
  over=["inputs"], qtext="all arguments; tables of any length", why="The tests compare a few points of a few functions, with one window length; special points, the ends of a table and small tables are not among them.",
  files=["vector/src/window_functions.rs", "vector/src/conv_types.rs"],
  mech=[("closed formulas", "vector/src/window_functions.rs, vector/src/conv_types.rs"), ("linear lookup tables", "vector/src/conv_types.rs")],
  technique="abstract interpretation of the compiled MIR; the symbolic value of every path is compared with the documented formula (identity testing), summaries of lookup tables with linear interpolation",
  note="The symbolic value of each path and the formula are analytic functions of the arguments, so they are compared by evaluating both terms at generic and at special points with a tolerance of 1e-9 (2e-5 for f32); the code itself is never run. Rounding errors are not bounded. Windows of length 0 and 1 are not compared (the formulas divide by length - 1). Trusted: the MIR, the interpreter and its models of num-traits and std."),
 dict(id="P20", title="Constructors and conversions keep the samples",
  statement="A vector which is constructed from storage holds the samples of the storage in their order, with the length of the storage (zero for an odd number of floats which should be complex), the kind the constructor is named after, and a sample distance of one or the given meta data; conversions back return the storage and the number of valid elements, or exactly the valid elements; interleaving alternates the samples of its arguments and rejects arguments of different lengths. No constructor or conversion panics, and parts of a vector always describe a whole allocation.",
  over=["inputs"], qtext="all lengths, capacities, kinds and sample values", why="The tests construct a few non-empty vectors of even length from literals.",
  files=["vector/src/vector_types/to_from_vec_conversions.rs", "vector/src/vector_types/support_std.rs", "vector/src/vector_types/support_core.rs"],
  mech=[("constructors per storage type", "vector/src/vector_types/support_std.rs, support_core.rs, to_from_vec_conversions.rs"), ("reinterpretation of allocations", "vector/src/vector_types/support_std.rs (complex_vec_to_interleaved_vec, interleaved_vec_to_complex_vec)")],
  technique="abstract interpretation of the compiled MIR; effect summaries and values of all paths compared with a specification per constructor",
  note="Decided for Vec, boxed slices, slices, mutable slices and ArrayVec (capacity 16) of f32 and f64, and vectors and slices of complex numbers. Lengths, capacities and valid lengths are enumerated (0..16), samples are symbolic. Trusted: the MIR, the interpreter's models of Vec, Box and ArrayVec."),
 dict(id="P21", title="Interpolations yield the defined samples",
  statement="Interpolating a vector with a function, with zero insertion and a frequency response, with transforms of another size, linearly or with splines yields, for every factor (also fractional ones and decimation), every number of points (even or odd) and every delay, as many points as the factor asks for, each with the value of the defining formula at its own position: the weighted sum over 2 len + 1 neighbours with the function at their distances, the inverse transform of the padded or cut spectrum with its frequency response and its linear phase, the line or the spline through the neighbours of the position.",
  over=["inputs"], qtext="all sample values and functions; the numbers of points, factors and delays are fixed per valuation", why="The tests compare a few vectors with tolerances, for integer factors mostly, even lengths and no delay.",
  files=["vector/src/vector_types/time_freq/interpolation.rs", "vector/src/vector_types/time_freq/real_interpolation.rs"],
  mech=[("interpolation with functions", "vector/src/vector_types/time_freq/interpolation.rs (interpolatef, function_to_vectors)"), ("interpolation with transforms", "vector/src/vector_types/time_freq/interpolation.rs (interpolate, interpolatei, interpft, apply_linear_phase)"), ("linear and spline interpolation", "vector/src/vector_types/time_freq/real_interpolation.rs")],
  technique=TECH_EFF, note=NOTE_EFF + " interpolatef is decided for the vectors and factors which take the direct sum; its register algorithm (more than 1000 points and an integer factor) is not decided. The FFT itself is an uninterpreted function of direction, size and all its inputs; delays are compared where the phases are multiples of a quarter of a circle. The negative highest frequency of a frequency response may be counted in either way."),
 dict(id="P22", title="Operations do not panic on valid inputs",
  statement="No operation on a vector panics, whatever the length of the vector (including empty vectors and vectors with a single point), the capacity of its storage and of the buffers, the kind of the vector and the lengths of its arguments: mismatches are reported as errors or mark the vector as invalid. The exceptions are an index argument outside of the vector, a decimation factor of zero, and interpolate_hermite and interpolate_lin with a delay outside of [0, 1) or, for the splines, on vectors with fewer than three points.",
  over=["inputs"], qtext="all lengths, kinds, storage capacities and argument lengths", why=W_IN,
  files=["vector/src/vector_types/"], mech=[("index, slice and length checks, assertions and unwraps in the operations", "vector/src/vector_types/"), ("SIMD partitions and edges", "vector/src/simd_extensions/simd_partition.rs")],
  technique=TECH_PAN, note=NOTE_PAN),
]

NA = [
 dict(id="N01", title="Forward and inverse Fourier transforms are inverse to each other",
  statement="For every vector, a forward transform followed by the matching inverse transform yields the original samples up to rounding errors.",
  over=["inputs"], qtext="all sample values and lengths", why="Needs all inputs; the tests round-trip a few random vectors.",
  files=["vector/src/vector_types/time_freq/"], mech=[("rustfft", "vector/src/vector_types/time_freq/mod.rs")],
  reason="A numerical round-trip equality over floating point data, computed by an external FFT library: no static argument in reach bounds it. The structural part (flags, lengths, scaling) is decided by P04-P06."),
 dict(id="N02", title="Both algorithms of interpolatef agree up to rounding errors",
  statement="The register based and the direct algorithm of interpolatef yield the same samples up to rounding errors for every number of points, factor and delay.",
  over=["inputs"], qtext="all sample values, lengths, ratios and delays", why="Needs all inputs; the tests compare a few vectors.",
  files=["vector/src/vector_types/time_freq/interpolation.rs"], mech=[("scalar and SIMD based branches", "vector/src/vector_types/time_freq/interpolation.rs")],
  reason="The register algorithm selects one of a computed number of stored registers by rounded floating point positions; the analysis doesn't resolve these selections, and agreement up to rounding errors is a numerical statement. The direct algorithm is decided by P21."),
 dict(id="N03", title="Windows and responses are accurate to the last digits",
  statement="The provided windows, impulse responses and frequency responses are correctly rounded for every argument.",
  over=["inputs"], qtext="all arguments", why="Needs all arguments; the tests sample a few.",
  files=["vector/src/window_functions.rs", "vector/src/conv_types.rs"], mech=[("closed formulas", "vector/src/window_functions.rs, conv_types.rs")],
  reason="The accuracy of transcendental floating point functions is a numerical property of the library functions and of the rounding of each operation; no static argument in reach bounds it. The formulas themselves are decided by P19."),
]
