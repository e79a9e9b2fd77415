NOGEN = "The stable tests use one generator (threefish) with one seed and no other. "
p("C09", "The XOR generator combines every selected component exactly once",
  "Each output of the XOR generator is the bitwise exclusive-or of exactly one fresh output of every selected component generator, and each component's outputs are used in order with none dropped or reused. Seeding it seeds every component from the one given seed, in the documented way, so that equal seeds give equal streams; reseeding starts every component over. A uniform is the same word scaled.",
  ["inputs", "configurations", "histories"], "all component outputs and seeds, 1..6 components, outputs before and after a reseeding",
  NOGEN, [L + "rng_XOR.c"], [("XOR_set, XOR_get", L + "rng_XOR.c")], ["returned numbers", "draws from and seeding of the components"])
p("C03", "Seeding fully determines a generator's stream, whatever it was used for before",
  "After one of the built-in generators (kiss, superkiss, ca, uvag, AES, Threefish, R's Wichmann-Hill, Marsaglia, super-duper and Mersenne Twister) is seeded, its outputs depend on the seed alone: not on what the generator object was seeded with or used for earlier, not on the previous contents of its memory, and not on bits that other code still has buffered. Equal seeds therefore always reproduce the same run.",
  ["inputs", "histories"], "all earlier states of the generator object and of the bit buffers; seeds as stated per query",
  NOGEN + "Each test process seeds its generator once.", [L + "rng_kiss.c", L + "rng_uvag.c", L + "rng_aes.c", L + "rng_threefish.c", L + "rngs_gnu_r.c"],
  [("*_set", L + "rng_*.c"), ("r_*_set", L + "rngs_gnu_r.c")], ["numbers returned after seeding"],
  note="superkiss and ca with their size constants reduced (41790 to 3, 2056 to 8); R_knuth_taocp is not covered (symbolic execution of its start-up does not finish). aes/threefish/R with fixed seeds and every earlier state. Outside the per-query bounds nothing is claimed.")
p("C11", "kiss, superkiss, ca and uvag compute their published recurrences",
  "The kiss, superkiss, ca and uvag generators produce exactly the sequence of their published algorithms: kiss the sum of a congruential, a xorshift and a multiply-with-carry sequence; superkiss the same with a lagged multiply-with-carry table refilled when used up; ca the rule-table driven cellular automaton after its warm-up; uvag the sum-and-index recurrence over its state bytes. All values lie in the declared 32-bit range and degenerate (zero) seed words are skipped where the algorithm demands it.",
  ["inputs"], "all states or seed words as stated per query, 1..8 outputs",
  NOGEN, [L + "rng_kiss.c", L + "rng_superkiss.c", L + "rng_ca.c", L + "rng_uvag.c"],
  [("kiss_get", L + "rng_kiss.c"), ("superkiss_get", L + "rng_superkiss.c"), ("ca_get", L + "rng_ca.c"), ("uvag_get", L + "rng_uvag.c")], ["returned numbers"],
  note="superkiss is checked with its table constant 41790 reduced to 3 and ca with its width 2056 reduced to 8 (the same code, the constant replaced textually in the compiled copy). Outside the per-query bounds nothing is claimed.")
p("C10", "AES and Threefish generators hand out their cipher's blocks completely, in order",
  "The AES generator is AES-128 in output-feedback mode and the Threefish generator is chained Threefish: each block is the cipher applied to the previous block under the key derived from the seed, the bytes of every block are handed out exactly once, in order, as 32-bit words, and the block cipher behind the AES generator agrees with FIPS-197 (key expansion and encryption).",
  ["inputs"], "all seeds and all cipher block values; all AES keys for the key expansion; encryption with one arbitrary plaintext byte",
  "One seed of one of the two generators is exercised, and its first block by far dominates what a test can see.", [L + "rng_aes.c", L + "rng_threefish.c", L + "rijndael-alg-fst.c"],
  [("aes_set, aes_get", L + "rng_aes.c"), ("threefish_set, threefish_get", L + "rng_threefish.c"), ("rijndaelKeySetupEnc, rijndaelEncrypt", L + "rijndael-alg-fst.c")], ["returned numbers", "cipher calls"],
  note="The Threefish block function itself is not decided (64-bit add/rotate equivalence over 72 rounds is out of the solvers' reach); only its use is. Outside the per-query bounds nothing is claimed.")
p("C12", "The binary matrix rank is the rank over GF(2) of exactly the given matrix",
  "For every binary matrix of the given number of rows and columns, the rank the rank tests count is the true rank over GF(2), including matrices with more columns than one machine word holds and non-square ones; the elimination writes only inside the matrix.",
  ["inputs"], "all matrix contents for the row/column sizes in the bounds",
  TESTS + "one 32x32 and one 6x8 rank test with random contents, where degenerate matrices hardly occur.", [L + "rank.c"], [("binary_rank", L + "rank.c")], ["returned rank", "matrix memory"])
p("C18", "Every command line option sets exactly its own parameter, bad lines are refused",
  "Each option of the dieharder command sets the parameter the manual names to the value given, for every number, and changes nothing else; parameters not mentioned keep their documented defaults; a repeated option's last value counts (for -g every value counts, in order). -D accepts exactly the documented flag names and numbers and combines them. Unknown options, missing arguments, unknown -D names and more generators than the tables hold end the program before anything is run, without writing outside the tables; file names are taken over unshortened.",
  ["inputs", "configurations"], "all numeric option values in range, for the option combinations in the bounds",
  "The stable tests use the option set -g -S -s -m -d -n with one value each.", [D + "parsecl.c", D + "set_globals.c", D + "globals.c"],
  [("parsecl", D + "parsecl.c"), ("set_globals", D + "set_globals.c")], ["parameters after parsing", "program exit"],
  note="Numbers 0..2^31-1 (-S 32 bit, -O 0..2, -D sums below 2^18). strtol/atoi/strtod and getopt are models of the C library functions. Outside the per-query bounds nothing is claimed.")
p("C19", "The generator run is the one asked for, or the program refuses",
  "A generator selected by number or by name is exactly the one registered under that number or name; unknown numbers, empty slots and unknown names are refused rather than replaced by another generator. Every built-in generator is registered once, under its documented number, and nothing is registered outside the tables. The XOR generator uses exactly the listed components, given by number or name, and is refused when one of them does not exist. The significant bits, the largest value and the range shown and used are those of the generator selected.",
  ["inputs", "configurations"], "all generator numbers (32 bit), the names in the bounds, all seeds, all sets of devices present",
  "Every stable test selects generator 206 by number.", [D + "choose_rng.c", L + "dieharder_rng_types.c"],
  [("choose_rng, select_rng, select_XOR", D + "choose_rng.c"), ("dieharder_rng_types", L + "dieharder_rng_types.c")], ["generator object made", "its seed", "program exit"],
  note="GSL's own generators are stand-in types. Names are compared by their first 20 characters, as documented for the tables. Outside the per-query bounds nothing is claimed.")
p("C20", "The tests run are exactly those asked for, over their documented parameters",
  "A test selected by number or name is the one registered there, and unknown ones are refused. Running all tests runs every registered good test once, in order of their numbers, and the tests with an n-tuple parameter over their whole documented range, or only for the n-tuple given. Every test is registered once, under its documented number, with its own parameters, and nothing is registered outside the tables.",
  ["inputs", "configurations"], "all n-tuple sizes, the test numbers and names in the bounds",
  "The stable tests select single tests by number; -a and names are never used.", [D + "run_all_tests.c", L + "dieharder_test_types.c", D + "run_test.c"],
  [("run_all_tests", D + "run_all_tests.c"), ("dieharder_test_types", L + "dieharder_test_types.c"), ("select_test", D + "run_test.c")], ["tests executed with their parameters"])
p("C21", "Lines are split into exactly their fields, inside the field buffers",
  "Splitting a line into fields gives exactly the character sequences between separators (blank, tab, comma, colon, line ends), in order, cut to the field size and always terminated, with the number of fields returned; fields beyond the table are dropped, the one after the last is empty, and nothing is written outside the tables or the line. Chopping a line removes exactly its last character and leaves an empty line alone.",
  ["inputs"], "all strings up to the length in the bounds",
  "No stable test reads a text file, so none of these functions runs.", [L + "parse.c"], [("split, parse, chop", L + "parse.c")], ["field table", "returned count", "memory around them"],
  note="The field table is reduced to a few short fields, its size constants being parameters of the code. Outside the per-query bounds nothing is claimed.")
p("C16", "The combined p-value is computed from all p-values with the right KS statistic",
  "The verdict on a set of p-values is the Kolmogorov-Smirnov probability of the largest distance between the sorted p-values and i/(n+1), i=1..n, using every p-value, whatever the order they came in; the exact distribution is used up to 4999 p-values and whenever the user asked for precision, the asymptotic one otherwise. No p-values give -1, a single one is its own verdict. The Kuiper variant uses the range of the distances from i/n.",
  ["inputs", "configurations"], "all p-values on the grid or in [0,1] as stated per query, all orders, all precision settings",
  TESTS + "they see one fixed number of p-values and one order.", [L + "kstest.c"], [("kstest, kstest_kuiper", L + "kstest.c")], ["value returned", "arguments of the distribution function"],
  note="The Kolmogorov and Kuiper distribution functions themselves (p_ks_new, q_ks, q_ks_kuiper) are not decided: matrix powers, exponentials and series in floating point are out of the solver's reach. The 4999 switch-over is checked with the constant reduced to 2 and 3. Outside the per-query bounds nothing is claimed.")
p("C17", "Chi-square and normal p-values are those of exactly the data handed in",
  "A chi-square evaluation sums (x-y)^2/y over every bin whose expected count reaches the cutoff, pools all others into one tail bin that counts only if its expectation reaches the cutoff, and uses one degree of freedom less than bins counted unless the caller gave a number. The Poisson, geometric, binomial and plain Pearson versions do the same over their bins with their own expectations. A normal evaluation is the normal probability of expected minus observed in units of the given deviation.",
  ["inputs"], "all observed counts within the bounds for the expected-count layouts listed; all doubles for the normal evaluation",
  TESTS + "a wrong treatment of a rare tail bin changes no printed verdict there.", [L + "Vtest.c", L + "Xtest.c", L + "chisq.c"],
  [("Vtest_eval", L + "Vtest.c"), ("Xtest_eval", L + "Xtest.c"), ("chisq_poisson, chisq_geometric, chisq_pearson, chisq_binomial", L + "chisq.c")], ["chi-square, degrees of freedom, p-value", "arguments of the distribution functions"],
  note="Expected counts are powers of two so that the sums are exact. The incomplete gamma and normal functions and the pdfs are recording stand-ins (GSL is trusted). chisq2d and chisq_uint_uniform_gtest are not covered. Outside the per-query bounds nothing is claimed.")
p("C22", "Test statistics count every sample drawn once, in its cell, rare ones included",
  "The monobit, runs, lagged-sum, permutation, craps, squeeze, greatest-common-divisor, bit-distribution and count-the-ones tests draw fresh numbers for every sample, count each sample exactly once in the cell its definition assigns - also when the outcome is a rare one (a very long or very short game, a tie, a number narrower than 32 bits) -, compare with the documented expectation, and store the p-value in the slot of the current repetition only.",
  ["inputs", "configurations"], "all generator outputs for the small sample numbers in the bounds",
  TESTS + "rare outcomes and other generator widths or n-tuples do not occur in them.", [L + f for f in ("sts_monobit.c", "sts_runs.c", "rgb_lagged_sums.c", "rgb_permutations.c", "diehard_craps.c", "diehard_squeeze.c", "marsaglia_tsang_gcd.c", "rgb_bitdist.c", "diehard_count_1s_stream.c", "diehard_count_1s_byte.c")],
  [("sts_monobit, sts_runs, rgb_lagged_sums, rgb_permutations", L + "*.c"), ("diehard_craps, diehard_squeeze, marsaglia_tsang_gcd", L + "*.c"), ("rgb_bitdist, diehard_count_1s_stream, diehard_count_1s_byte", L + "*.c")], ["observed and expected counts handed to the evaluation", "numbers drawn", "p-value slots"],
  note="1 to 5 samples; sizes reduced where stated (64 patterns per bit-distribution sample to 4, count-the-ones words from 4 and 5 letters to 1 and 2, squeeze steps 48 to 9, gcd numbers below 8). Expected counts of count-the-ones words and of the gcd step table are not decided. Outside the per-query bounds nothing is claimed.")

p("C25", "Missing-word, spacing, distance and serial tests use each sample exactly once",
  "The OPSO, OQSO, OPSO2, bitstream and DNA tests count as missing exactly the words that never occurred, however often the others did; the birthday tests count each sample by the number of spacings that occur more than once; the sphere and minimum-distance tests use the smallest distance between any two points; the parking lot test counts the cars that hit no parked one; the serial, block-monobit, byte-distribution and uniformity tests use every number drawn. Each draws fresh numbers, compares with its documented expectation, leaves generators too narrow for it unjudged, and stores its p-value in the slot of the current repetition only.",
  ["inputs"], "all generator outputs within the bounds",
  TESTS + "one stream never shows tied, constant or narrow outputs.",
  [L + "diehard_opso.c", L + "diehard_oqso.c", L + "dab_opso2.c", L + "diehard_bitstream.c", L + "diehard_dna.c", L + "diehard_birthdays.c", L + "dab_birthdays1.c", L + "sts_serial.c", L + "dab_monobit2.c", L + "dab_bytedistrib.c", L + "diehard_parking_lot.c", L + "diehard_3dsphere.c", L + "diehard_2dsphere.c", L + "rgb_minimum_distance.c", L + "rgb_kstest_test.c"],
  [("test functions", L + "*.c")], ["arguments of the evaluation functions", "numbers drawn", "stored p-value"],
  note="Holds for every value within the per-query bounds listed in the evidence file (unwinding assertions on); several tests are encoded with table sizes or point counts reduced, as listed. Nothing is claimed outside. Trusts CBMC, the environment models in lib/ and the oracle in harness/.")
p("C23", "The reference distributions are numerically accurate for every argument",
  "The Kolmogorov, Kuiper, chi-square (incomplete gamma), normal, binomial and Poisson probabilities the statistics are turned into are accurate to the precision the p-values are reported with, for every statistic value and sample size.",
  ["inputs"], "all statistic values and sample sizes",
  TESTS + "they only see the handful of statistic values that one seed produces.",
  [L + "kstest.c", L + "Vtest.c", L + "chisq.c"], [("p_ks_new, q_ks, q_ks_kuiper", L + "kstest.c"), ("gsl_sf_gamma_inc_Q, gsl_cdf_*", "GSL")], ["p-value for a given statistic"],
  na="Needs real analysis of truncated series, n x n matrix powers and GSL's incomplete gamma function in IEEE doubles; a bit-precise encoding of exp/erf/pow and of long floating point sums is out of reach of the solvers here. What feeds these functions (which statistic, count, degrees of freedom) is decided by C15, C16 and C17.")
p("C24", "A test's p-values are uniform when the generator is truly random",
  "For every test and every documented parameter, if the generator's outputs are independent and uniform then the p-values are uniformly distributed, so that failures are evidence against the generator.",
  ["inputs", "configurations"], "all tests and parameters",
  "A statement about a probability distribution; no finite number of runs settles it.",
  [L], [("every test kernel", L + "diehard_*.c, rgb_*.c, sts_*.c, dab_*.c, marsaglia_tsang_gcd.c")], ["distribution of p-values"],
  na="A measure over all generator streams, not a predicate over single executions: it would need model counting over 10^5..10^8 sample runs, not satisfiability. The per-sample part (every sample counted once in its cell, documented expectation used) is decided by C22 and C12 for the encodable kernels.")
