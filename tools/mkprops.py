import json
I="include/MTToolBox/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("P01","Minimal polynomial of an output bit is exact",
 "For any F2-linear generator, state and observed output bit position, the polynomial computed from the generator's output is exactly the minimal polynomial of that bit's output sequence: it annihilates the whole sequence and no polynomial of lower degree does. This holds whether the state size is taken from the generator or given explicitly, for 32-bit, 64-bit and wider output words, and for bits whose sequence is zero or has a degree below the state size.",
 ["inputs"],"all linear generators (any transition, output map, state incl. zero), all bit positions of the output word, any state-size argument at least the true degree",
 "The existing tests compute the polynomial of a handful of fixed generators and compare degrees; the bit position, degenerate bits, explicit sizes and reducible recurrences are unexplored.",
 [I+"period.hpp"],[("minpoly template: 2n outputs of the bit, minimal polynomial of the sequence",I+"period.hpp"),("getBitOfPos extracts the observed bit",I+"util.hpp")],["the returned polynomial"])
p("P02","Irreducibility and primitivity verdicts are exact",
 "A polynomial over F2 is reported irreducible exactly when it is irreducible. For n of at least 2, it is reported primitive of degree n exactly when it has degree n and the order of x modulo it is 2^n-1, given the complete list of the distinct prime factors of 2^n-1 in any order and in any of the accepted list forms. The list-free test reports a polynomial primitive exactly when it is irreducible and its degree is a Mersenne exponent; the list-free test object, used with a Mersenne exponent as expected degree, accepts exactly the irreducible polynomials of that degree. A number up to 25964951 is recognised as a Mersenne exponent exactly when it is one.",
 ["inputs"],"all polynomials over F2 of all degrees (including 0, 1, x, reducible, irreducible non-primitive), all expected degrees, all orders and forms of the factor list",
 "The tests check a few fixed polynomials per degree; irreducible but non-primitive polynomials whose order misses just one prime factor, wrong degrees, tiny degrees and list forms are infinite families.",
 ["lib/period.cpp","lib/AlgorithmPrimitivity.cpp",I+"period.hpp",I+"AlgorithmPrimitivity.hpp"],
 [("isIrreducible / isPrime overloads / isMexp","lib/period.cpp"),("AlgorithmPrimitivity functor, MersennePrimitivity","lib/AlgorithmPrimitivity.cpp")])
p("P03","Published factor lists of 2^n-1 are complete",
 "Every published list of prime factors for an exponent n contains only primes, each of which divides 2^n-1, contains no repeats, and leaves nothing of 2^n-1 once all of its members are divided out, so a primitivity decision made with it is right.",
 ["inputs"],"all 17 published lists (n = 128 ... 544 in steps of 32, 640, 800, 960) and every polynomial of those degrees decided with them",
 "The existing test multiplies and divides for some of the lists only (not 640, 800, 960) and never checks that members are prime, so a composite entry, which hides non-primitive polynomials, passes.",
 ["lib/AlgorithmPrimitivity.cpp",I+"AlgorithmPrimitivity.hpp"],[("prime_factors2_*_1 tables","lib/AlgorithmPrimitivity.cpp")])
p("P04","Extraction of the large irreducible factor is exact",
 "Asked whether a polynomial of degree below twice d has an irreducible factor of degree d, the answer is yes exactly when one exists; on yes the polynomial handed in has become exactly that factor.",
 ["inputs"],"all polynomials whose degree is below 2d, incl. repeated small factors, powers of x, large cofactors with several middle-sized factors, zero and constants",
 "The tests try a single product; which small-factor structures are stripped correctly (repeated factors, factors of x, cofactor factors with degree just under d) is a universally quantified claim.",
 ["lib/period.cpp",I+"period.hpp"],[("hasFactorOfDegree: strips gcds with x^(2^m)-x for growing m, then irreducibility test","lib/period.cpp")])
p("P05","Recursion search finds exactly the first full-period parameter",
 "A recursion search draws candidate parameters from the given parameter stream one per try, stops at the first one whose recurrence has full period (minimal polynomial of degree equal to the state size, accepted by the given primitivity test), and reports success exactly when one exists within the allowed number of tries. On success the generator holds that parameter, the reported polynomial is its minimal polynomial and the parameter string is its parameter string; the try counter equals the number of candidates examined since construction.",
 ["inputs","histories"],"all generators, parameter streams, try budgets (0 included), primitivity tests and repeated start calls on one search object",
 "The tests run a few searches and check success only; missed candidates, off-by-one budgets, stale polynomials after repeated starts are not observable there.",
 [I+"AlgorithmRecursionSearch.hpp"],[("start loop",I+"AlgorithmRecursionSearch.hpp"),("getMinPoly/getCount/getParamString",I+"AlgorithmRecursionSearch.hpp")],["setUpParam calls received by the generator","draws from the parameter stream"])
p("P06","Dimensions of equidistribution are exact",
 "For a generator whose state evolves with an irreducible recurrence, the reported k(v) is, for every v up to the requested accuracy, exactly the largest k such that the top v bits of k consecutive outputs take every value equally often over all states. The reported total is the sum of floor(n/v)-k(v), and the single-value form returns k at the requested accuracy together with the sum of the defects of all lower accuracies.",
 ["inputs","configurations"],"all linear generators with irreducible recurrence, any non-zero state, any accuracy from 1 to the word size, 32- and 64-bit words, normal and bit-reversed outputs, outputs with dead or duplicated bits",
 "The tests compare totals for a few fixed generators; exactness per v for arbitrary generators needs an independent rank computation.",
 [I+"AlgorithmEquidistribution.hpp"],[("lattice basis reduction: get_equidist_main, adjust, next_state",I+"AlgorithmEquidistribution.hpp"),("calc_1pos pivot",I+"util.hpp")],["veq array","returned sums"])
p("P07","Block-wise tempering search picks the optimum of every block",
 "The block-wise exhaustive tempering search changes only tempering bits inside the searched range, and in every block and for every tempering parameter leaves the pattern that minimises the total dimension defect over all patterns of that block given the earlier choices, preferring more one-bits among equals. In LSB mode the defect minimised is that of the bit-reversed output; afterwards the generator is left in normal output mode with the chosen pattern in effect.",
 ["inputs","configurations"],"all temperable generators, both directions, word sizes, block lengths, ranges not a multiple of the block length, numbers of tempering parameters",
 "The tests run one generator and print results; optimality over all patterns is universally quantified.",
 [I+"AlgorithmPartialBitPattern.hpp",I+"AlgorithmTempering.hpp",I+"TemperingCalculatable.hpp"],
 [("operator(), search_best_temper, make_mask",I+"AlgorithmPartialBitPattern.hpp")],["setTemperingPattern/setUpTempering/set/resetReverseOutput calls received by the generator"])
p("P08","Best-bits tempering search returns the best pattern it can reach",
 "The bit-wise tempering search extends, bit position by bit position, every tempering pattern that is currently best by all admissible settings of the tempering bits that influence the next output bit, keeps all of those with the least total defect of the accuracies considered so far, and finally leaves one of the surviving patterns in effect on the generator, in normal output mode.",
 ["inputs","configurations"],"all temperable generators, shift amounts, numbers of parameters and search depths",
 "The sample uses one generator and one pair of shifts, and no existing test runs this search; survivors and ties depend on the generator.",
 [I+"AlgorithmBestBits.hpp"],[("operator(), search_best_temper, make_pattern, inRange",I+"AlgorithmBestBits.hpp")],["setTemperingPattern calls received by the generator"])
p("P09","Combined search reports describe the generator it leaves",
 "After a combined recursion and tempering search, the generator has full period, the reported characteristic polynomial is that of its recurrence, the reported weight is the number of its non-zero terms, and the reported delta is the total dimension defect of the generator as left. The LSB stage runs before the MSB stage exactly when requested, and verbose reporting changes neither the result nor the parameter draws, and what it reports on the given stream about the final generator is true.",
 ["inputs","configurations"],"all generators, parameter streams, tempering stages, verbose on/off, LSB stage on/off, repeated searches on the same object",
 "The tests check that a search ends and one delta value; truth of all reported quantities for every outcome and option is not covered.",
 [I+"AlgorithmRecursionAndTempering.hpp"],[("search overloads, getWeight, getDelta, getCharacteristicPolynomial",I+"AlgorithmRecursionAndTempering.hpp")])
p("P10","Reducible search finds exactly the first parameter with a large factor",
 "A reducible-generator search examines one candidate per try and stops at the first whose minimal polynomial has an irreducible factor of the required Mersenne degree, and reports failure exactly when none of the allowed tries has one. On success the reported polynomial is the minimal polynomial of the found generator's sequence, and the reported factor is irreducible, has the required degree and divides it; the counter equals the number of candidates examined.",
 ["inputs","histories"],"all reducible generators, parameter streams, budgets, repeated starts",
 "No existing stable test exercises the reducible search with an oracle for skipped candidates.",
 [I+"AlgorithmReducibleRecursionSearch.hpp"],[("start",I+"AlgorithmReducibleRecursionSearch.hpp"),("hasFactorOfDegree","lib/period.cpp")])
p("P11","Characteristic polynomial and annihilation obey the linear algebra",
 "Applying a polynomial to a generator replaces its state s by p(T)s, where T is the generator's one-step transition, for every polynomial including zero and constants. The characteristic polynomial collected over all output bits is the least common multiple of the minimal polynomials of the bit sequences and of the polynomial handed in (any divisor of the transition's characteristic polynomial, 1 included), so that applying it leaves a generator all of whose outputs are zero.",
 ["inputs"],"all linear generators (invertible transition), states, polynomials of any degree, starting polynomials",
 "No existing test covers these two operations; they are stated for all states and polynomials.",
 [I+"ReducibleGenerator.hpp",I+"AlgorithmReducibleRecursionSearch.hpp",I+"util.hpp"],
 [("annihilate",I+"ReducibleGenerator.hpp"),("calcCharacteristicPolynomial",I+"AlgorithmReducibleRecursionSearch.hpp"),("LCM",I+"util.hpp")])
p("P12","Equidistribution of reducible generators is that of the large component",
 "For a reducible generator with an irreducible factor of Mersenne degree, the reported k(v), single values and totals are exactly those of the component of the state space that belongs to that factor. The generator handed in is not modified, and the combined reducible search leaves a generator with that component selected, whose reported factor and parity vector are those of the generator as left and whose reported delta is its total shortfall from the bound floor(n/v) for the full state size n.",
 ["inputs","configurations"],"all reducible generators, any non-degenerate state, any accuracy, both word sizes, and combined searches with and without an LSB stage",
 "No existing stable test covers reducible generators.",
 [I+"AlgorithmReducibleEquidistribution.hpp",I+"AlgorithmReducibleRT.hpp"],
 [("constructor: annihilates the cofactor",I+"AlgorithmReducibleEquidistribution.hpp"),("search",I+"AlgorithmReducibleRT.hpp")])
p("P13","Period certification vectors really certify",
 "The period certification (parity check) vector found for a reducible generator and its large factor is non-zero, and every state whose certification word has odd inner product with it has a non-zero component in the large factor, so its period is a multiple of 2^p-1. The vector is also handed to the generator, whose state is left alone; where the certification word is a word of the state, flipping one state bit selected by the vector turns any failing state into a passing one.",
 ["inputs"],"all reducible generators whose extra bits are fewer than the word size, all states",
 "No existing stable test computes a certification vector; it must hold for every state of a huge space, which linear algebra over the whole complement can judge.",
 [I+"AlgorithmCalculateParity.hpp"],[("searchParity, addBase, search_parity_check_vector",I+"AlgorithmCalculateParity.hpp")])
p("P14","32-bit parameter generator reproduces reference MT19937",
 "The 32-bit random parameter generator outputs exactly the reference MT19937 stream for every integer seed (taken modulo 2^32), every key array and every ASCII string used as a key of character codes, however long the stream and wherever it is reseeded. A 64-bit draw is two consecutive 32-bit draws, first one high.",
 ["inputs","histories"],"all seeds, keys of any length from 1 to beyond the state size, all interleavings of draws and reseeds, streams many times longer than the state",
 "The tests compare the first outputs for one seed and one key; later ring-buffer wraps, long keys, strings and reseeding are unexplored.",
 [I+"MersenneTwister.hpp"],[("seed, seed_array, next, getUint64",I+"MersenneTwister.hpp")])
p("P15","64-bit parameter generator reproduces reference MT19937-64",
 "The 64-bit random parameter generator outputs exactly the reference MT19937-64 stream for every integer seed, key array and ASCII string used as a key of character codes, however long the stream and wherever it is reseeded. A 32-bit draw is the upper half of one 64-bit draw.",
 ["inputs","histories"],"all seeds, keys of any length from 1 to beyond the state size, all interleavings of draws and reseeds, streams many times longer than the state",
 "No existing test covers the 64-bit generator.",
 [I+"MersenneTwister64.hpp"],[("seed, seed_array, next, getUint32",I+"MersenneTwister64.hpp")])
p("P16","Sequential parameter counter enumerates every value once",
 "The sequential parameter generator yields seed, seed-1, ..., 1, 0, each combined by exclusive or with the mask, so that every value from the seed down to zero is produced exactly once, and every further draw raises an underflow error until it is reseeded. Copies continue independently from the same point, and all draw forms advance the same counter.",
 ["inputs","histories"],"all masks, seeds, word types, and sequences of draws, reseeds and copies",
 "The tests do not cover the counter; the boundary at zero and the behaviour after it need histories.",
 [I+"Sequential.hpp"],[("next, reseed",I+"Sequential.hpp")],None,[("status/error","remaining counter and exhausted flag",I+"Sequential.hpp")])
p("P17","Bit and F2-vector utilities compute their mathematical definitions",
 "For every argument, the utilities return exactly their definition: population count, bit reversal, position of the lowest one-bit counted from the top, largest power of two not above a positive number, the range mapping onto [start,end], XOR-combination tables over all index subsets, bit get/set, least common multiple (the result may be one of the operands), and word to F2-vector conversion and back (most significant bit first). Printed polynomials list their coefficients from the constant term up with the right degree, and the optional SHA-1 digest of a polynomial is the digest of that coefficient text.",
 ["inputs"],"all 16/32/64-bit words including 0, all-ones, single-bit and sign-bit values; all index and range arguments in the documented domain; all polynomials",
 "The existing tests do not call most of these; single-bit-boundary inputs are the ones that break.",
 [I+"util.hpp"],[("count_bit, reverse_bit, calc_1pos, floor2p, get_range, fill_table, LCM, toGF2Vec, fromGF2Vec, print_binary, poly_sha1",I+"util.hpp")])
p("P18","Linearity tester accepts exactly the linear behaviour it observes",
 "The linearity tester accepts every generator whose outputs superpose (adding a state to itself gives all-zero output, adding two states gives the exclusive or of their outputs) and rejects every generator whose superposition visibly fails within the first hundred outputs of its two test states. It leaves the generator handed to it untouched.",
 ["inputs"],"all generators, any single output bit, step or state-dependent condition at which superposition fails within the horizon",
 "The existing test tries one linear and one non-linear generator.",
 [I+"TestLinearity.hpp"],[("operator(), test1, test2",I+"TestLinearity.hpp")])
p("P19","Analyses leave their inputs alone and are repeatable",
 "Analyses that take a generator to examine (equidistribution in all forms, linearity testing) leave that generator's state, parameters and later output unchanged and give the same answer every time. Two analysis, search or parameter-generator objects never influence each other, whatever the order in which their operations are interleaved, and searches with equal parameter streams give equal results.",
 ["histories","inputs"],"all interleavings of operations on independent objects in one thread, all generators and seeds, repeated runs",
 "Unit tests run each algorithm once, alone, on a fresh generator, so hidden shared state or input mutation cannot show.",
 [I+"AlgorithmEquidistribution.hpp",I+"AlgorithmReducibleEquidistribution.hpp",I+"TestLinearity.hpp",I+"MersenneTwister.hpp",I+"MersenneTwister64.hpp","lib/period.cpp"],
 [("analyses work on clones",I+"AlgorithmEquidistribution.hpp"),("no mutable shared state","lib/period.cpp")])
p("P20","Independent objects can be used from concurrent threads",
 "Threads that each work on generators, searches, parameter generators and polynomials of their own get, under every schedule, the same results as a single thread doing the same work, without data races inside the library.",
 ["schedules"],"all schedules of threads working on disjoint objects, including the very first use of each operation",
 "All tests are single-threaded.",
 ["lib/period.cpp","lib/AlgorithmPrimitivity.cpp",I+"AlgorithmEquidistribution.hpp",I+"util.hpp"],[("only immutable shared constants","lib/period.cpp"),("const primitivity object","lib/AlgorithmPrimitivity.cpp")])
p("P21","No memory errors, leaks or undefined behaviour in the library",
 "Every library operation used within its documented domain runs without invalid memory access, use of uninitialised values, undefined arithmetic or shifts, and without leaking the memory it allocated.",
 ["inputs","configurations","histories"],"all library operations over arbitrary generators, parameters, word sizes, seeds and options in the documented domain",
 "Tests run uninstrumented builds, where such errors are silent.",
 [I+"util.hpp",I+"AlgorithmCalculateParity.hpp",I+"AlgorithmReducibleEquidistribution.hpp",I+"AlgorithmEquidistribution.hpp",I+"Sequential.hpp",I+"MersenneTwister.hpp","lib/AlgorithmPrimitivity.cpp"],
 [("ownership of clones and arrays",I+"AlgorithmCalculateParity.hpp"),("unsigned bit arithmetic",I+"util.hpp")])
p("P22","Sample generators honour the generator contract",
 "Each generator class shipped with the samples is F2-linear with the state dimension it announces: clones continue identically and independently, adding a generator makes its outputs the exclusive or of both, zeroing and the zero test agree with the outputs, seeding is a deterministic complete reset, the n-bit output is the top n bits of the (possibly reversed) full output, single-bit states span the whole state, tempering patterns change exactly the masked bits, and period certification accepts exactly the states with odd inner product, otherwise repairing a single bit. Whatever the parameter stream delivers, the parameters set up for a search lie in their valid ranges and carry the requested identifier, and the parameters printed are the parameters run with. Seeds that differ in a bit the generator takes give different states, and the exponent announced is that of the parameters.",
 ["inputs","configurations","histories"],"MT, MTGP, RMT, TinyMT, SFMT and dSFMT sample generators over supported sizes, parameters, states and operation sequences",
 "Existing tests touch only the linearity of one or two of them with fixed seeds.",
 ["samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32search.hpp","samples/RMT/rmt64.hpp","samples/TinyMTDC/tinymt32search.hpp","samples/sfmtdc/sfmtsearch.hpp","samples/dSFMTdc/dSFMTsearch.hpp","samples/XORSHIFT/xorshift-5.cpp"],
 [("clone/add/setZero/isZero/seed/generate/setOneBit implementations","samples/*/*search.hpp, samples/RMT/rmt64.hpp, samples/MTDC/mt2.cpp")])
p("P23","SIMD equidistribution and 128-bit words are exact",
 "The 128-bit word operations compute their mathematical definitions, and the dimensions of equidistribution of the SFMT and dSFMT sample generators seen as 128-, 64-, 52- or 32-bit output streams are exactly those of the stream of words as emitted, restricted to the maximal-period component.",
 ["inputs","configurations"],"all 128-bit words and shift counts, parameters found for the supported small exponents, MSB and LSB directions, all accuracies",
 "Nothing in the test suite runs the SIMD equidistribution.",
 ["samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp","samples/sfmtdc/w128.hpp","samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp","samples/dSFMTdc/w128.hpp"],
 [("calc_SIMD_equidistribution","samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"),("calc_dSFMT equidistribution","samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp")])
p("P24","Dynamic creator programs print true parameters",
 "Every parameter line a dynamic creator sample program prints describes a generator with the promised period (full period, or a large irreducible factor with a valid certification vector), carries the requested identifier and exponent, and the delta printed with it is the true total defect of the printed parameters; so are the weight, digest or characteristic polynomial where one is printed. The same seed and options give the same output, and the requested number of lines is printed. An enumerating search (TinyMT) leaves out no parameter set, from whatever starting point, and a limit on the delta changes nothing else than which lines are printed. What the analysis programs (equidistribution, period, parity, fixed point, linearity, old format, xorshift) report about given parameters is true of them.",
 ["inputs","configurations"],"all seeds, identifiers, exponents and options accepted by the MT, MTGP, RMT, TinyMT, SFMT and dSFMT creators, and all parameter strings they print given to the analysis programs",
 "The test suite never runs these programs.",
 ["samples/MTDC/mt2.cpp","samples/MTGPDC/MTGP32dc.cpp","samples/RMT/rmt64dc.cpp","samples/TinyMTDC/tinymt32dc.cpp","samples/sfmtdc/sfmtdc.cpp","samples/dSFMTdc/dSFMTdc.cpp"],
 [("main/search of each program","samples/*/*dc.cpp, samples/MTDC/mt2.cpp"),("mains of the analysis programs","samples/RMT/calc_equidist.cpp, samples/RMT/calc_period.cpp, samples/sfmtdc/calc_*.cpp, samples/sfmtdc/test_*.cpp, samples/dSFMTdc/calc_*.cpp, samples/dSFMTdc/make_old_format.cpp, samples/XORSHIFT/*.cpp")])
p("P25","Sample programs reject bad arguments and never misbehave",
 "Sample programs given missing, malformed or out-of-range arguments end with a failure status and a usage message instead of printing parameters, crashing or reading uninitialised data, and valid arguments always lead to a defined result.",
 ["inputs","configurations"],"all argument vectors of the sample programs",
 "The test suite never runs these programs.",
 ["samples/MTGPDC/parse_opt.cpp","samples/TinyMTDC/parse_opt.cpp","samples/MTDC/mt2.cpp","samples/RMT/rmt64dc.cpp","samples/sfmtdc/sfmtdc.cpp","samples/dSFMTdc/dSFMTdc.cpp"],
 [("parse_opt functions","samples/*/parse_opt.cpp and the mains")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
