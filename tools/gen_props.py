#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one call per property).  Run it after editing."""
import json, os
R = "include/boost/random/"
out = []
def P(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    out.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [f if f.startswith("src/") else R + f for f in files],
                  "mechanism": [{"name": n, "where": (w if w.startswith("src/") else R + w)} for n, w in mech],
                  "observe_at": observe or ["public API of the class"], "hook_needed": None}})

ENG = ["linear_congruential.hpp","additive_combine.hpp","inversive_congruential.hpp","lagged_fibonacci.hpp",
       "mersenne_twister.hpp","subtract_with_carry.hpp","discard_block.hpp","shuffle_order.hpp","independent_bits.hpp",
       "linear_feedback_shift.hpp","xor_combine.hpp","mixmax.hpp","splitmix64.hpp","ranlux.hpp","taus88.hpp"]

P("E01","Skipping ahead equals drawing and dropping the same number of values",
  "For every engine and engine adaptor, in every reachable state, skipping z values leaves the engine in the state reached by drawing and dropping z values one at a time: all later output is identical. This holds for z = 0, for skips inside one internal block, across block boundaries and for jumps too long to step, and two consecutive skips of a and b equal one skip of a + b.",
  ["inputs","histories"],"every engine type, every state reachable from any seeding, every skip count z",
  "One skip of 9307 from the default-seeded state per predefined engine; the skip code branches on the position inside the block and on z, and the pairs (position, z) are never enumerated.",
  ENG,[("block-position arithmetic of discard","subtract_with_carry.hpp"),("jump by polynomial","detail/polynomial.hpp"),("jump by modular power","linear_congruential.hpp"),("discard_block skip","discard_block.hpp")])
P("E02","Engine state saved as text restores the identical future",
  "Writing any engine (or engine adaptor) in any reachable state to a text stream and reading it back into any other object of that type, whatever that object did before, restores exactly the same future output. Reading consumes only that engine's own text, leaves the stream usable, and works for narrow and wide streams, so several saved objects and other data can follow each other in one stream.",
  ["inputs","histories"],"every engine type, every source state, every prior state of the target, any data after the saved text",
  "One state (after 9307 draws) per engine is written to a stream of its own and read into a fresh object; mid-block positions, used targets and following data are not reached.",
  ENG,[("stream inserters/extractors",x) for x in ["mersenne_twister.hpp","subtract_with_carry.hpp","mixmax.hpp","splitmix64.hpp","shuffle_order.hpp"]])
P("E03","Engines compare equal exactly when their futures agree; copies are independent",
  "Two engines of the same type compare equal if and only if they will produce the same infinite sequence of output, and != is always the negation of ==. A copy (constructed or assigned) equals its source, has the same future, and neither is affected by later use of the other.",
  ["inputs","histories"],"every engine type, every pair of reachable states, every way of reaching them",
  "Tests compare one default engine with itself and with itself after one draw; states that differ in one hidden component (carry, position, table entry) are never paired.",
  ENG,[("operator== of each engine",x) for x in ENG[:-2]])
P("E04","Engine outputs never leave the published [min(), max()] range",
  "Every value any engine or adaptor returns lies in the closed range it publishes through min() and max(); a floating-point engine returns values in [0, 1) only. The published range of each predefined engine is the documented one, so code that scales by the range is right.",
  ["inputs","histories"],"every engine type and parameter set, every seeding, every draw",
  "10000 draws from one seed per predefined engine; template parameters other than the predefined ones, edge seeds, and adaptors over unusual base ranges are not reached.",
  ENG,[("min/max of each engine",x) for x in ENG[:-2]])
P("E05","Each engine computes its published recurrence for every seed and parameter set",
  "For every parameter set the engine templates accept and for every seeding, the output sequence is the one defined by the published recurrence (linear, inversive, lagged Fibonacci, subtract with carry, Mersenne twister, feedback shift, MIXMAX, SplitMix). The predefined engines are those recurrences with the documented parameters, so their output is portable and reproducible.",
  ["inputs","configurations","histories"],"every engine template with every small parameter set, every seed, every position in the sequence; the predefined engines from many seeds",
  "A single value (the 10000th from the default seed) of each predefined engine is compared; most state words and parameter sets never influence it.",
  ENG,[("state update",x) for x in ENG[:-2]])
P("E06","Modular arithmetic of the congruential engines is exact for every modulus",
  "Linear and inversive congruential engines compute (a*x + c) mod m, respectively (a*inverse(x) + b) mod p, exactly for every modulus, multiplier, increment and state representable in the chosen signed or unsigned integer type. No intermediate overflow, wrong reduction or wrong special case changes a single value.",
  ["inputs","configurations"],"every (type, m, a, c, x) with small m, and the boundary values of every algorithm selection for 16-, 32- and 64-bit types",
  "The arithmetic picks one of several algorithms from the relation of a and m and of m to the type's range; tests try a few dozen random triples for a handful of moduli.",
  ["detail/const_mod.hpp","detail/large_arithmetic.hpp","linear_congruential.hpp","inversive_congruential.hpp"],
  [("mult_schrage / mult_small / mult_add / invert","detail/const_mod.hpp"),("muldiv, mulmod","detail/large_arithmetic.hpp")])
P("E07","Seeding from a value fixes the whole state, for every value and any history",
  "Constructing from an arithmetic value, calling seed with that value on an engine with any history, and constructing from any other arithmetic type holding the same value all give the same state, which depends on nothing else. Default construction equals seed() and the documented default, the documented seeding procedure is followed, and no seed leaves an engine in a degenerate state.",
  ["inputs","histories"],"every engine type, every seed value (all of them for small engines, boundaries and both signs for large ones), every prior history",
  "Four seed values are tried on fresh objects, and the oracle is the same constructor; degenerate states need specific seed values.",
  ENG+["detail/seed.hpp"],[("seed(value)",x) for x in ["linear_congruential.hpp","mersenne_twister.hpp","lagged_fibonacci.hpp","subtract_with_carry.hpp","linear_feedback_shift.hpp","mixmax.hpp","inversive_congruential.hpp"]])
P("E08","Seeding from word sequences is exact, complete and safe",
  "Seeding any engine from a seed sequence or from an iterator range builds the documented state from those 32-bit words alone, whatever the engine did before. The iterator form consumes exactly the documented number of words, advances the caller's iterator by that number, throws std::invalid_argument if fewer are available, and no sequence of words (all zero included) leaves a degenerate or out-of-range state.",
  ["inputs","histories"],"every engine type, every word sequence (all small ones), every available length, every prior history",
  "The iterator tests are disabled; the seed sequence tests use one sequence and one output value, so per-word use, exhaustion at each length and zero-state repair are not reached.",
  ["detail/seed_impl.hpp"]+ENG,[("seed_array_int / fill_array_real / get_one_int","detail/seed_impl.hpp"),("zero state repair","mersenne_twister.hpp")])
P("E09","seed_seq produces exactly the standard seeding sequence",
  "For every list of input words and every requested length, seed_seq fills the whole output range with the words defined by the C++ standard's seed_seq algorithm, without changing itself. size() and param() report the stored words, construction from any iterator, range or list stores the input values modulo 2^32, and results do not depend on the element type written to.",
  ["inputs"],"every input length and output length up to a bound crossing all branches of the algorithm, and all words from a small alphabet",
  "Two fixed vectors of words and one output length are compared with recorded values; the mixing constants depend on the output length through five branches.",
  ["seed_seq.hpp"],[("generate","seed_seq.hpp")])
P("E10","Engine adaptors do to any base engine exactly what they are documented to do",
  "Block-discarding returns the first r of every p base values and drops the rest; shuffling returns the table entry selected by the previous value, scaled exactly over the base range, and refills it; combining by addition or xor returns the documented combination of one fresh value of each base. This holds for every base engine output sequence, every base range and every adaptor parameter, and the adaptors use exactly the documented number of base values.",
  ["inputs","configurations","histories"],"all base output sequences over small alphabets (and boundary values of wide ranges), all small adaptor parameters",
  "Adaptors are tested only in their predefined combinations through one value; the table index is sensitive to base values near range ends and to the base range.",
  ["discard_block.hpp","shuffle_order.hpp","additive_combine.hpp","xor_combine.hpp","shuffle_output.hpp"],
  [("operator()","discard_block.hpp"),("index computation muldiv","shuffle_order.hpp"),("operator()","additive_combine.hpp"),("operator()","xor_combine.hpp")])
P("E11","independent_bits_engine makes exactly w unbiased bits from any base engine",
  "For every width w and every base engine range, including ranges that are not a power of two, smaller or larger than w bits, if the base values are independent and uniform then each of the 2^w results is returned with exactly the same probability. Results never exceed 2^w - 1, and the engine terminates with bounded expected use of the base.",
  ["inputs","configurations"],"all base ranges up to a bound, all widths, all base output sequences up to a depth; wide integer types by boundary alphabets",
  "Only two full-range 32-bit configurations are run; rejection limits and word splitting for other ranges are not exercised.",
  ["independent_bits.hpp"],[("n/n0/y0/y1 computation and rejection","independent_bits.hpp")])
P("E12","Block generation fills the whole range with uniform 32-bit words",
  "Filling an iterator range from any engine writes every element exactly once, in order, with a value below 2^32, derived only from that engine's next outputs, and if the engine's outputs are independent and uniform over any range so are the words (rand48 and splitmix64 instead assign their successive raw outputs). An empty range draws nothing, and after filling, the engine continues its sequence after the values it used.",
  ["inputs","histories"],"every engine value type and range, every length of range up to several blocks, all engine output sequences over small alphabets",
  "The test for block generation is disabled, so the word splitting loops are never executed by the suite.",
  ["detail/seed_impl.hpp","detail/generator_bits.hpp"],[("generate_from_int, generate_from_real","detail/seed_impl.hpp")])
P("E13","Objects share no hidden state: interleaved use equals separate use",
  "Using two engines, distributions, engine-distribution pairs or quasi-random generators alternately, in any order of operations, gives each of them exactly the results it would give used alone. Likewise const operations (reading parameters, comparing, copying, writing to a stream) change no later output. It follows that different objects may be used in different threads, and one object by const operations in several threads, without synchronisation: no operation touches memory that an operation on another object writes.",
  ["schedules","histories"],"all interleavings of short operation lists on two objects of the same or of related types; every pair of operations on two objects (and of constant operations on one) concurrently",
  "Tests use one object at a time; scratch buffers or tables that become shared would be invisible.",
  ["normal_distribution.hpp","exponential_distribution.hpp","poisson_distribution.hpp","detail/gray_coded_qrng.hpp","mersenne_twister.hpp","mixmax.hpp","uniform_on_sphere.hpp"],
  [("static tables","normal_distribution.hpp"),("per-object state","detail/gray_coded_qrng.hpp")])

P("D01","uniform_int_distribution is exactly uniform for any bounds and any engine",
  "For every pair of bounds of every integer type (signed, unsigned, full type range) and every engine range (smaller, equal, larger, power of two or not, offset from zero, floating-point), each integer in [min, max] is returned with exactly equal probability when the engine is exactly uniform, and nothing outside the bounds is ever returned. The same holds for per-call bounds and for multi-word integer types.",
  ["inputs","configurations"],"all bound pairs and engine ranges in small types, boundary values in wide types, all engine output sequences up to a rejection depth",
  "Statistical tests on a few ranges cannot see a bias below a percent or one wrong rejection limit; the code has separate branches per relation of the two ranges.",
  ["uniform_int_distribution.hpp","detail/uniform_int_float.hpp","detail/signed_unsigned_tools.hpp","uniform_int.hpp","random_number_generator.hpp"],
  [("generate_uniform_int","uniform_int_distribution.hpp"),("uniform_int_float","detail/uniform_int_float.hpp")])
P("D02","uniform_smallint maps one engine value into its range with the documented bias",
  "For every bounds and engine range, uniform_smallint uses one engine value per result, always returns a value in [min, max], and every result is hit by either floor or ceiling of (engine range / range) engine values. When the range divides the engine range it is exactly uniform.",
  ["inputs","configurations"],"all bound pairs and engine ranges in small types, boundary values in wide types, all engine values",
  "Tests run a histogram on full-size engines with tiny ranges, where a wrong divisor or an overflow at the ends is invisible.",
  ["uniform_smallint.hpp"],[("generate","uniform_smallint.hpp")])
P("D03","Uniform reals stay in the half-open interval and follow the uniform law",
  "uniform_01, generate_canonical and uniform_real_distribution return values v with lower <= v < upper for every engine output sequence (largest and smallest engine values included), for every floating type, for every finite interval and engine type, and terminate. Values follow the uniform law to within the resolution of the engine values used, and the canonical generator uses exactly the number of engine values the standard prescribes.",
  ["inputs","configurations"],"all engine values of small-range engines, boundary values and exhaustive grids of 32- and 64-bit engines, all floating types and a menu of intervals including rounding-critical ones",
  "Rounding up to the upper bound needs specific engine values with probability below 2^-24; tests draw a thousand values.",
  ["uniform_01.hpp","uniform_real_distribution.hpp","generate_canonical.hpp","uniform_real.hpp"],
  [("rejection of results equal to the upper bound","uniform_real_distribution.hpp"),("backward compatible uniform_01","uniform_01.hpp"),("generate_canonical","generate_canonical.hpp")])
P("D04","bernoulli_distribution hits its probability exactly to engine resolution",
  "For every probability p and every engine, the number of engine values giving true is p times the number of engine values, to within one value; p = 0 never gives true and p = 1 always does, and one engine value is used unless p is 0.",
  ["inputs","configurations"],"all values of small and medium engine ranges, boundary values of wide ranges, a dense grid of p including 0, 1 and the neighbours of every threshold",
  "Statistical tests see p to about one percent and never the end points of the engine range.",
  ["bernoulli_distribution.hpp"],[("operator()","bernoulli_distribution.hpp")])
P("D05","discrete_distribution draws each index with exactly its normalised weight",
  "For every list of weights (integral or floating-point, zeros, repeated, single, empty, very large or very small), index i is drawn with probability weight_i / sum of weights, never outside the list and never with zero weight. Stored-parameter and per-call-parameter draws agree with this, and probabilities() and parameters report the normalised weights (integral weights, which cannot be normalised, exactly as given).",
  ["inputs","configurations"],"all short weight lists over small integer alphabets plus extreme magnitudes, all engine output sequences up to a depth",
  "Tests check a few weight lists statistically; the alias table has data-dependent branches (small/large worklists, overflow handling) per list.",
  ["discrete_distribution.hpp"],[("alias table construction","discrete_distribution.hpp"),("integer_alias_table overflow handling","discrete_distribution.hpp")])
P("D06","Piecewise distributions follow the given densities on every interval list",
  "For every list of boundaries and weights, through every constructor form, piecewise_constant_distribution and piecewise_linear_distribution draw values inside [first, last] boundary with the exact law their weights define, and report intervals and densities of that law. Ill-formed or empty lists give the documented default of [0, 1).",
  ["inputs","configurations"],"all short lists over a small alphabet of boundaries and weights, all constructor forms, exhaustive grids of engine values",
  "Tests check a couple of lists statistically and the accessors of one; per-interval laws and zero-weight intervals are not checked.",
  ["piecewise_constant_distribution.hpp","piecewise_linear_distribution.hpp"],
  [("operator()","piecewise_constant_distribution.hpp"),("triangle/rectangle split","piecewise_linear_distribution.hpp")])
P("D07","Normal and exponential variates follow their exact laws, tails included",
  "With an exactly uniform engine, normal_distribution and exponential_distribution return values whose law is the normal or exponential law with the given parameters to numerical accuracy, in every region: each layer of the rejection scheme, the wedges and the tails. This holds for every floating-point type and every engine word size that feeds them.",
  ["inputs","configurations"],"all layers, exhaustive grids of the continuous coordinate, all continuation sequences over a grid up to a rejection depth; all floating types and engine word sizes from 1 to 64 bits",
  "Statistical tests with some thousands of samples cannot see an error in one of 256 layers, in the wedges (about 1 percent) or in the tail (below 0.1 percent).",
  ["normal_distribution.hpp","exponential_distribution.hpp","detail/int_float_pair.hpp"],
  [("ziggurat tables and tail","normal_distribution.hpp"),("ziggurat tables and tail","exponential_distribution.hpp"),("generate_int_float_pair","detail/int_float_pair.hpp")])
P("D08","Derived continuous distributions follow their stated laws",
  "The gamma, beta, chi-squared (central and non-central), Student t, Fisher F, Cauchy, Weibull, extreme value, Laplace, lognormal, triangle and hyperexponential distributions return values distributed by the stated cumulative distribution function for every valid parameter value, including each parameter regime that selects a different algorithm.",
  ["inputs","configurations"],"a grid of parameters crossing every regime boundary, exhaustive grids of engine values per draw up to a rejection depth",
  "Statistical tests sample random parameters with a few thousand draws; each parameter regime and the tails get little or no weight.",
  ["gamma_distribution.hpp","beta_distribution.hpp","chi_squared_distribution.hpp","non_central_chi_squared_distribution.hpp","student_t_distribution.hpp","fisher_f_distribution.hpp","cauchy_distribution.hpp","weibull_distribution.hpp","extreme_value_distribution.hpp","laplace_distribution.hpp","lognormal_distribution.hpp","triangle_distribution.hpp","hyperexponential_distribution.hpp"],
  [("operator()","gamma_distribution.hpp"),("operator()","triangle_distribution.hpp"),("operator()","hyperexponential_distribution.hpp")])
P("D09","Integer-valued distributions follow their probability mass functions",
  "The binomial, Poisson, geometric and negative binomial distributions return each value k with the probability given by the stated mass function, for every valid parameter value including each regime that selects a different algorithm (inversion or rejection, p above or below one half) and the degenerate ends (p = 0 or 1, zero trials).",
  ["inputs","configurations"],"a grid of parameters crossing every regime boundary, exhaustive two-dimensional grids of engine values up to a rejection depth",
  "Statistical tests use random parameters and a few thousand draws; wrong correction terms or mirrored regimes shift probabilities by less than they can see.",
  ["binomial_distribution.hpp","poisson_distribution.hpp","geometric_distribution.hpp","negative_binomial_distribution.hpp"],
  [("BTRD and inversion","binomial_distribution.hpp"),("PTRD and inversion","poisson_distribution.hpp")])
P("D10","Variates stay in the documented support and draws end for any engine output",
  "For every distribution, every valid parameter value whose law fits the result type, and every sequence of engine values (smallest and largest values, long runs of the same value included), a draw that returns yields a value between the distribution's min() and max(), finite where the support is, and never NaN. A draw ends once the engine supplies ordinary values, and min() and max() are the documented support.",
  ["inputs","configurations","histories"],"all engine output sequences over an alphabet of extreme and ordinary values up to a depth, a grid of parameters for every distribution",
  "Extreme engine values have probability near zero in sampled tests; yet log(0), division by zero and out-of-range conversions occur exactly there.",
  ["exponential_distribution.hpp","cauchy_distribution.hpp","geometric_distribution.hpp","extreme_value_distribution.hpp","weibull_distribution.hpp","laplace_distribution.hpp","triangle_distribution.hpp","binomial_distribution.hpp","poisson_distribution.hpp","uniform_int_distribution.hpp","uniform_real_distribution.hpp"],
  [("guards against 0 and 1","geometric_distribution.hpp"),("min/max","triangle_distribution.hpp")])
P("D11","Per-call, stored and constructor parameters are interchangeable",
  "For every distribution and valid parameter values, drawing with a parameter object passed per call gives the same value and uses the same engine values as a distribution constructed from it, or one whose parameters were replaced by it, and leaves the distribution's own parameters unchanged (discrete_distribution draws the same law per call by another method). Accessors report exactly the values given (real weights of discrete, piecewise and hyperexponential distributions normalised, to rounding), and default arguments are the documented ones.",
  ["inputs","histories"],"every distribution, all pairs of parameter values from a grid, all histories of construct, set and draw up to a depth",
  "Tests check accessors for one or two parameter values, and per-call drawing is only checked to compile and to advance.",
  ["normal_distribution.hpp","gamma_distribution.hpp","binomial_distribution.hpp","poisson_distribution.hpp","discrete_distribution.hpp","piecewise_constant_distribution.hpp","piecewise_linear_distribution.hpp","hyperexponential_distribution.hpp","uniform_on_sphere.hpp","triangle_distribution.hpp","geometric_distribution.hpp"],
  [("param() and operator()(eng, param)",x) for x in ["gamma_distribution.hpp","binomial_distribution.hpp","poisson_distribution.hpp","discrete_distribution.hpp"]])
P("D12","Distributions and their parameters round-trip through text and compare by value",
  "Writing any distribution or parameter object to a stream with enough precision and reading it into any other object of that type gives an equal object that draws the same values from the same engine (tables of real weights in discrete, piecewise and hyperexponential distributions are renormalised and agree to rounding); reading consumes only its own text and does not disturb what follows; reading text that is cut short, malformed, or names parameters outside the documented domain of an integer, triangle or geometric distribution fails the stream and leaves the distribution as it was. Objects are equal exactly when all their parameters are equal, and != negates ==.",
  ["inputs","histories"],"every distribution, all pairs of parameter values from a grid, any prior state of the target, data following in the stream, text cut at every token or with a bad token, narrow and wide streams",
  "Tests round-trip one or two parameter values alone in a stream; lists of differing lengths, used targets and following data are not tried.",
  ["detail/vector_io.hpp","detail/operators.hpp","discrete_distribution.hpp","piecewise_constant_distribution.hpp","piecewise_linear_distribution.hpp","hyperexponential_distribution.hpp","triangle_distribution.hpp","binomial_distribution.hpp"],
  [("stream operators","detail/operators.hpp"),("read_vector","detail/vector_io.hpp")])
P("D13","Draws depend only on parameters and engine; histories do not leak",
  "After reset(), or after replacing the parameters, the values a distribution draws depend only on its parameters and on later engine output, never on values drawn or parameters held before. Two equal distributions in that condition driven by equal engines stay in lockstep for ever, and copies do so from any state.",
  ["histories","inputs"],"every distribution, all histories of draws, parameter changes, per-call draws, resets, copies and reseeds up to a depth",
  "The reset tests draw once and compare once with one parameter set.",
  ["normal_distribution.hpp","uniform_on_sphere.hpp","binomial_distribution.hpp","poisson_distribution.hpp","gamma_distribution.hpp","discrete_distribution.hpp"],
  [("reset() and cached setup constants","binomial_distribution.hpp"),("param() recomputing caches","poisson_distribution.hpp")])
P("D14","uniform_on_sphere returns unit vectors of the requested dimension, isotropically",
  "For every dimension (0, 1, 2, 3 and higher) every returned vector has exactly that many components and, for dimension at least 1, Euclidean norm one to rounding, for every engine output sequence including ones that give null vectors. The direction is uniformly distributed and earlier results do not influence later ones.",
  ["inputs","configurations"],"all dimensions up to a bound, exhaustive grids of engine values with extremes, both floating types",
  "Tests only instantiate the class and check accessors and streaming; dimensions 1, 2 and 3 have special code.",
  ["uniform_on_sphere.hpp"],[("operator() cases by dimension","uniform_on_sphere.hpp")])
P("D15","Engine and distribution wrappers add nothing and lose nothing",
  "A variate generator over an engine by value, reference or pointer returns exactly what the distribution returns for that engine, advancing the shared engine in the reference and pointer forms and only its own copy otherwise, and reports the distribution's range. The random-number functor returns each integer in [0, n) for every n and can drive standard shuffles uniformly, and the older wrapper classes behave as the distributions they wrap.",
  ["inputs","histories","configurations"],"all engine holding forms, all distributions, all operation sequences up to a depth, all n up to a bound with all engine output sequences",
  "A test draws a few values from one wrapper; engine aliasing and exact uniformity are not checked.",
  ["variate_generator.hpp","random_number_generator.hpp","uniform_int.hpp","uniform_real.hpp","detail/ptr_helper.hpp"],
  [("engine holding","variate_generator.hpp"),("operator()(n)","random_number_generator.hpp")])
P("Q01","Quasi-random generators: every route to a position gives the same sequence",
  "For each quasi-random generator and dimension, drawing, skipping, seeding at a position, copying and text save/restore in any combination put the generator at a position of one fixed sequence, and output from there on is the same however it was reached. Two generators of the same dimension compare equal exactly when they are at the same position, and seed(n) places the generator at the n-th point.",
  ["histories","inputs"],"all three generators, small and large dimensions, all operation sequences up to a depth with arguments around coordinate and power-of-two boundaries",
  "Tests skip and seed from the start for a few counts; skips starting inside a point, combined with reads into used objects, are not tried.",
  ["detail/qrng_base.hpp","detail/gray_coded_qrng.hpp","faure.hpp","sobol.hpp","niederreiter_base2.hpp"],
  [("discard_vector / seed","detail/gray_coded_qrng.hpp"),("compute_seq / curr_elem","detail/qrng_base.hpp"),("seed","faure.hpp")])
P("Q02","Quasi-random points have the published low-discrepancy structure",
  "In every supported dimension the coordinates are those of the published constructions (Sobol with the Joe-Kuo direction numbers, Niederreiter base 2 after Bratley, Fox and Niederreiter, Faure in the smallest prime base b at least the dimension). Hence every aligned block of b^k consecutive points (b = 2 for the first two, counting the skipped zero point of these as point 0) puts one point in every interval of length b^-k of each Sobol and Faure coordinate, or b^t points in every interval of length b^(t-k) of a Niederreiter coordinate whose polynomial has degree t + 1, and projections meet the net bound published for them. Points lie in the half-open unit cube (in integer form, in the published range).",
  ["inputs","configurations"],"all supported dimensions, all k up to a bound, all points of each block",
  "Tests compare a few hundred points in a few dimensions with recorded tables; of thousands of table rows most are never used.",
  ["detail/sobol_table.hpp","detail/niederreiter_base2_table.hpp","sobol.hpp","niederreiter_base2.hpp","faure.hpp"],
  [("direction numbers","detail/sobol_table.hpp"),("polynomials","detail/niederreiter_base2_table.hpp"),("binomial matrix","faure.hpp")])
P("Q03","Quasi-random generators reject bad dimensions and never wrap silently",
  "Constructing with dimension zero or beyond the supported maximum, and drawing, seeding or skipping past the end of a generator's sequence, is reported by the documented exception rather than by wrong or repeated points. Everything before the end is produced normally, a refused draw, skip or seed leaves the generator at the position it had, and a generator that reported an error can be reseeded and used.",
  ["inputs","histories"],"all dimensions around the limits, all small-width generators driven over their whole length, positions at and around the end by every route",
  "Tests check dimension zero and one too large a dimension; no test gets near the end of a sequence.",
  ["sobol.hpp","niederreiter_base2.hpp","faure.hpp","detail/gray_coded_qrng.hpp","detail/qrng_base.hpp"],
  [("range errors","detail/gray_coded_qrng.hpp"),("dimension assertions","detail/qrng_base.hpp")])
P("N01","random_device delivers only bytes the system source produced, or throws",
  "Every value returned by random_device is made of bytes the operating-system source actually delivered for that call, whatever pattern of short reads, interruptions, end-of-file or errors the system gives; when it cannot get them it throws and returns no value. Opening failures are reported by an exception naming the failure, every descriptor opened is closed exactly once, and block generation fills every element.",
  ["fault_sequences","histories"],"all sequences of system answers (full, short at each length, zero, each error) for open, read and close up to a bound, over construct, draw, generate, destroy histories",
  "The real device never fails or reads short in tests.",
  ["src/random_device.cpp","random_device.hpp"],[("impl::next, impl ctor/dtor","src/random_device.cpp")],["open/read/close system calls","public API"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in out: f.write(json.dumps(p) + "\n")
print(len(out), "properties")
