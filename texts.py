"""What each check enumerates, against what, within what bounds.  Used for MANIFEST.json, the evidence files and DESIGN.md."""
T = {}
def t(i, technique, rule, oracle, bounds, assume=()):
    T[i] = {"technique": technique, "rule": rule, "oracle": oracle, "bounds": bounds, "assumptions": list(assume)}
REF = "a reference model of every engine written from the published recurrence in 128-bit arithmetic (harness/ref.hpp), stepped beside the real engine"
t("E01", "explicit-state exploration of the real engines: every position in a block x every skip, against stepping",
  "For every engine entry (about 138: all predefined engines, tiny-parameter instances whose whole state graph is enumerated, adaptors over them, floating engines of user-defined 113-bit and 40-digit reals), from several seedings, every position of the internal block (for blocks above 700 values: all positions around quarters and edges) is combined with every skip 0..11, every skip up to 4 blocks for blocks up to 64, every skip around 1-3 blocks and around the next two edges; the output that follows is compared with the output recorded by stepping. Pairs of skips a, b against a+b. Tiny engines: every z up to 4 periods and 2^b+d up to 2^64-1, against z mod period. Others: doubling chains 2^k = 2^(k-1)+2^(k-1) up to 2^63. A second binary lowers the Mersenne-twister jump threshold to 3, so that polynomial jump-ahead is taken for nearly every skip.",
  "the same engine stepped one value at a time; " + REF,
  "horizon: as many outputs as determine the state (capped at 4000; 400 for lagged Fibonacci above 5000); large blocks: every fifth z per position, shifted by position")
t("E02", "explicit-state exploration: every control state x prior state of the target x stream layout",
  "For every engine entry, several seedings, every block position (edges and quarters for blocks above 700): the text is written and read into six targets with other histories; equality, the whole future, and layouts of three engines with other numbers in one stream (three separators), narrow and wide streams.",
  "the source object's own future and the data that follow in the stream", "as E01 for positions; layouts at every position for blocks up to 300, every 50th otherwise")
t("E03", "explicit-state exploration: operator== over pairs of states reached in different ways, against reference-state identity",
  "Tiny engines: states from all small seeds and word vectors walked to every block phase, all pairs, and the same logical state reached in different phases. Others: every position of streams from three seedings (edges and quarters of large blocks), all pairs; states whose seeding words differ in exactly one bit of one word (first, last and spread words), at five positions. Copies by construction and assignment at every position are equal, have the same future and are unaffected by use of the source.",
  "canonical state of the reference model (same state = same future), adaptors by components", "1500 states per tiny engine (4000 thorough), at most 4 representatives per state")
t("E04", "explicit-state exploration: every output of every reachable state of tiny engines, edge states of the others",
  "Published min()/max() of every engine compared with the documented range; every output in every state reachable from all small seedings (tiny engines: whole cycles) and from edge seedings (0, all ones, single bits, negative seeds) of production engines lies in range as the engine's own type; floating engines in [0,1). Parameter sets include moduli at the ends of the types, signed types and offsets.",
  "documented ranges written in the reference models", "two blocks and more per seeding")
t("E05", "model checking by lockstep of the real engine and a reference model, all states of tiny instances, all seeds in a range for production engines",
  "Every engine entry is run beside its reference model from default construction, every seed in a range, word patterns, and (tiny instances) every vector of seeding words over an alphabet, states already visited being skipped: each through at least as many outputs as determine the state; predefined engines are bound to the documented parameters.",
  REF, "tiny: seeds -5..600 (3000) and up to 65536 word vectors; others: seeds -3..40 and 2^b-1..2^b+1, 16 (60) word patterns; 4 blocks and more per seeding")
t("E06", "exhaustive enumeration of (type, m, a, c, x) for small moduli and of boundary alphabets around every algorithm-selection edge",
  "linear and inversive congruential engines instantiated for every modulus 2..13, 16, 17 with every multiplier, increments 0, 1, m/2, m-1 and every state; boundary moduli of 16-, 32- and 64-bit signed and unsigned types with multipliers at 1, 2, sqrt(m)-1..sqrt(m)+1, m/3, m/2, m-1 and states from an alphabet of about 60 values; all states for moduli up to 4096 (70000 thorough); inversive engines for p = 3, 5, 7, 11, 13 with every a, b, x and boundary primes.",
  "128-bit arithmetic; the inverse by exhaustive search or extended Euclid in 128 bits", "as stated; six integer types")
t("E07", "exhaustive enumeration of seed values x arithmetic types x histories against the documented procedure",
  "For every engine: default construction, seed() and documented default agree; every value in the alphabet, from each of 11 arithmetic types that hold it, by construction and by seed() after 8 histories, gives the reference state; no degenerate state.",
  REF, "tiny: -300..700 (70000 thorough) and powers of two; others: -20..40, all powers of two +-1, multiples of the moduli; 12 values for the largest engines", ["a converted seed value is what the documentation of the engine says it is (C++ conversion to the engine's seed type)"])
t("E08", "exhaustive enumeration of word vectors x range lengths x histories against the documented procedure",
  "seed(SeedSeq) with scripted sequences (40 patterns; the requested number of words is recorded), with the library's and the standard's seed_seq; seed(first, last) over checking iterators that report over-reads: exact consumption, every short length throws and leaves the engine re-seedable; all vectors over an alphabet of up to 17 words for engines with at most 6 words.",
  REF, "200 patterns thorough; lengths above 2000 at edges only", ["congruential engines: a word is truncated to the state type and then reduced (the documented formula is silent)"])
t("E09", "exhaustive enumeration of input lists and lengths against the algorithm of the C++ standard",
  "All input lists over a small alphabet up to length 4 (6), all output lengths up to 700 (2100) with 11 input lengths around n each, inputs up to length 300, element types, construction forms, param()/size(), immutability.",
  "[rand.util.seedseq] written out with 64-bit arithmetic", "as stated")
t("E10", "choice-point exploration: the base engines are scripted and every base output sequence is enumerated",
  "discard_block: p in {1,2,3,4,5,7} with every r (and the production 223/24, 389/24, 389/11), every history of length 4 (5) of draw/discard/copy/save/seed over serial-numbered bases; shuffle_order: every base sequence over the full range for small ranges and over the values at every table boundary for wide ranges, tables of 1..256 entries; additive_combine: every pair of base values for m1 <= 14; xor_combine: every pair of base values twice for small ranges, boundary values for wide ones; all with number of base values used.",
  "the documented definition computed with 128-bit integers", "100000 sequences per instance (3 million thorough)")
t("E11", "choice-point exploration: all base output sequences up to a depth, exact counts per result",
  "For base ranges 2..48 (several types and offsets, negative too) and every width: every base sequence up to the depth is run and the number of sequences giving each result after each number of draws must be equal for all 2^w results; wide bases: acceptance thresholds and word splitting by boundary values.",
  "equal counts (exact integers)", "150000 sequences per instance (6 million thorough); 128/256-bit results by alphabets")
t("E12", "explicit-state exploration (lengths x positions) and choice-point exploration (scripted bases, exact counts)",
  "generate() of every engine at every block position for every length 0..40 and beyond, compared word by word and by the state left; ranges 2..48 and wide ranges of every engine type: all scripted outputs, exact uniformity of each word; element types of 8..64 bits.",
  "packing of the reference model's outputs as documented; exact counts", "production engines: about eight positions per block in the quick tier")
t("E13", "stateless exploration of all interleavings of operation lists on two objects, and pairwise race detection over all pairs of operations in unsynchronised threads",
  "Two objects A, B (every engine with itself and with neighbouring engines, every distribution type with three to all of its parameter sets and with the neighbouring type, every qrng dimension pair up to 4 (6) and large ones, variate_generator, uniform_01, random_number_generator, seed_seq): all operation lists of length 2+2 over 5-8 operations and 3+3 over the mutating ones, all merges, every result compared with the object's solo run; constant operations inserted anywhere in lists of length 4 (5). Race half (thread sanitizer): for every pair of operations, on different objects and for constant operations on one object, in both orders, the two run in threads ordered only by a relaxed atomic; any conflicting unsynchronised access is reported. Two operations without conflicting accesses commute, so the sequential merges then stand for every finer interleaving.",
  "the object's own solo run; happens-before race detection", "list lengths as stated, shorter for engines with thousands of words; thread sanitizer shadow history", ["libstdc++ streams are not instrumented"])
t("D01", "choice-point exploration: every engine output sequence up to a rejection depth, exact integer counts",
  "All types int8..int64 x engine types: all bound pairs of up to 34 (100) values at every placement (type ends, zero, negative) x all engine ranges up to 9..12 values: the numbers of sequences giving each result are equal. Wide: engine ranges and bounds around powers of two: the exact accept/divide boundaries of the algorithm are found by bisection on the outputs and counted. Floating-point engines, complete 16-bit engines, per-call bounds, legacy wrappers, multiprecision.",
  "equal counts", "3000 sequences per instance small (60000 thorough)")
t("D02", "exhaustive enumeration of engine values", "All engine ranges up to 40 (120), all interval lengths up to 48 (120), all type pairs and placements, all engine values: one value used, in range, floor/ceil counts, exact when the range divides; wide ranges by boundaries; floating engines of 9..12 bits exhaustively; multiprecision.", "counts floor/ceil(R/n)", "as stated")
t("D03", "exhaustive enumeration of small engine ranges, boundary values of wide ones, all sequences of extremes", "uniform_01, uniform_real(_distribution), generate_canonical over int16..uint64 engines of every range up to 40 (200) and around every power of two, float engines, at every placement; 20 intervals including those that round to the upper bound; number of values used; law compared to resolution; the same with reals of 113 and 168 bits and with engines whose results are 128-bit or unbounded integers, or those reals.", "k/range in long double; the standard's formula for generate_canonical", "as stated")
t("D04", "exhaustive enumeration of engine values x dense grid of p", "Every engine range 2..64 and 255..65536 with all values, p over k/R and k/(R-1) and their floating neighbours, k/64, k/61, 0, 1, denormal: number of values giving true, monotone in p, stored and per-call; wide engines of every width 2^14..2^64: values on both sides of the threshold; floating engines of 9..12 bits completely; p of 113- and 168-bit types, engines of big integers.", "p * R to within one value", "as stated")
t("D05", "choice-point exploration with exact counts (integral weights), exact measure of the engine-value plane (real weights)", "All weight lists over small alphabets up to length 4-7: every engine sequence for engine ranges 2, 6, 12: exact proportionality; extreme integral weights whose sums pass the type; real weights: the exact measure of each index, its boundaries found by bisection from a grid of 512 (4096) per alias row; per-call draws and all constructor forms, probabilities().", "weight_i / sum", "real-weight regions narrower than 1/512 (1/4096) of a row between equal neighbours could be missed", ["weight sums that overflow to infinity have no law"])
t("D06", "exhaustive enumeration of boundary and weight lists, the law of each piece recovered from outputs", "All boundary subsets of a 7-point alphabet, all weight lists over a small alphabet, all constructor forms, five value/weight types: per piece probability, density at both ends, range; choice-point exploration for per-call and stored form agreement.", "the piecewise density written as exact integrals", "lists up to 4 (6) points", ["float weights compared exactly only when their sum is a power of two"])
t("D07", "exhaustive enumeration of layers x grids of the continuous coordinates; density recovered as a pullback from the real code", "For each of the 128 (256) layers of the ziggurat in each of 3 floating types: layer boundaries, uniform interior, acceptance in the wedge (located by bisection on the second value against the density), tails; engines of every word size 1..64 bits and floating engines feed the same bits; a user-defined 113-bit real type too.", "exp(-x), exp(-x^2/2) in long double", "grid 300 per layer (20000 thorough)")
t("D08", "exhaustive grids of engine values through the real code; distribution function checked as a black-box map or as the stated function of base variates", "Maps of one uniform (cauchy, weibull, extreme value, triangle, ...): monotone and F(x(u)) = u at 2^14 (2^20) values; gamma: pullback of the acceptance region over (proposal, second value) grids per regime; compositions (chi-squared, beta, Student, Fisher, lognormal, Laplace, non-central, hyperexponential): value and engine use equal the stated function of independently drawn base variates over a product grid; a user-defined 113-bit real gives the same values as long double on every script of depth 4.", "distribution functions in long double", "grids as stated; parameters cross every regime boundary")
t("D09", "exhaustive two-dimensional grids of engine values; mass function recovered by counting and by locating acceptance boundaries", "binomial (inversion and rejection, p and 1-p, degenerate ends), Poisson (both regimes), geometric, negative binomial, over int, unsigned char, long long and three real types; each k compared with the mass function.", "log mass functions in long double (lgamma)", "512-2048 x 64 (512) grid", ["negative_binomial with p = 0 has no law"])
t("D10", "choice-point exploration: all engine scripts over an alphabet of extreme values", "Every distribution type and parameter set (about 140 types, among them a user-defined 113-bit real, x up to 15 sets, and for double, float and long double sets at the ends of the parameter domain: smallest and largest shapes, scales and means) x every script of length 3 (4) over 10-14 extreme values, constant runs up to 1000 values, three engine ranges: value in documented support, finite, not NaN, draw ends on ordinary values; min()/max() from a table.", "table of documented supports", "script length 3 (4)", ["parameter sets whose law does not fit the result type are excluded"])
t("D11", "explicit-state exploration of operation histories, lockstep on scripted engines", "Every distribution type (float, double, long double and a user-defined 113-bit real), all pairs of parameter sets: constructed, replaced and per-call forms give the same values and engine use on 8 scripts and two ordinary engines; own parameters unchanged; accessors; all constructor forms and defaults.", "lockstep equality", "5 draws per script")
t("D12", "explicit-state exploration: all (source, target, stream layout) triples", "Every distribution and parameter type (user-defined real included), all pairs of parameter sets, narrow and wide, fresh and used targets, several objects and numbers in one stream; every text cut after every token or with one token replaced by garbage, and parameters out of range, read into used targets (fail, unchanged); ==/!= over all pairs against equality of parameters.", "equality and lockstep", "all pairs of listed parameter sets")
t("D13", "explicit-state exploration of all operation histories to a depth", "draw, per-call draw, param(), reset(), copy, assign, save/restore: all histories of depth 3 (5); after reset() or param() lockstep with a fresh object.", "lockstep with a fresh object", "depth 3 (5)")
t("D14", "choice-point exploration over extreme alphabets and exhaustive area counts", "Dimensions 0..10 and 40: all scripts over extreme values to depth 5-9 (13): number of components, norm, per-call and history independence; dimensions of 4 and more equal the normalised normal variates; dims 2 and 3: exact counts of a complete 1024^2 (4096^2) grid in equal-area cells; dim 1: exact halves; a user-defined 113-bit real: unit norm to its own precision.", "norm to rounding; equal counts", "as stated")
t("D15", "explicit-state exploration of operation sequences on wrapper and model side by side", "variate_generator holding the engine by value, reference, pointer x every distribution: all sequences of 4 (5) of 10 operations; random_number_generator: exact counts for all n <= 34 and engine ranges up to 20, shuffles of 2-5 elements; uniform_01<Engine> all values; legacy classes in lockstep.", "engine object and distribution object used directly", "depth 4 (5)")
t("Q01", "explicit-state exploration of operation sequences from every position", "Small-width generators completely, production ones around coordinate and power-of-two boundaries: draw, discard, seed, seed(n), generate, copy, assign, save and load into used or other-dimension objects: all sequences of depth 1-3; far positions up to 2^63/dimension.", "the recorded sequence, and an object that drew one value at a time", "dimensions 1-7, 13, 40; depth 3")
t("Q02", "model bound to the code by conformance of every direction number; net property decided on all elementary intervals", "Generator matrices are built from the published constructions (Niederreiter polynomials, Faure Pascal matrices) or checked against them (Joe-Kuo numbers by digest and primitive polynomial, Property A); every direction number of all 3667 / 4720 dimensions and runs of drawn points are compared with the engines; ranks over all compositions for projections and counts of all points of aligned blocks decide the structure.", "published constructions", "pairs and triples of the first 22 (16 quick) dimensions; counts k <= 12")
t("Q03", "explicit-state exploration of all positions around the end, under the address sanitizer", "Small-width generators driven over their whole length; every position and every route past the end (draw, discard of 20 amounts up to 2^64-1, seed(n)); dimensions 0, maximum, maximum + 1 and larger for each generator; after every refusal the generator must still compare equal to a copy taken before and draw the same values; reuse after an error.", "position arithmetic in 128 bits", "as stated")
t("N01", "fault enumeration: every sequence of system answers at the open/read/close boundary", "open, read and close of random_device's object file are redirected at link time to a scripted system. Every sequence of answers (full, each short length, zero, EINTR, EAGAIN, EIO, ...) for construct, draw, generate, destroy histories is executed; an execution is non-trivial when at least one answer is a fault or short read. Values must consist of distinct bytes delivered during that call; descriptors are closed exactly once; exceptions name the failure. Real files, a FIFO, a directory and missing paths validate the script against the kernel.", "ledger of delivered bytes and descriptors", "3 (4) draws, up to 40 answers")
