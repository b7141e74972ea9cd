import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("C01","Named Poseidon2 instances compute the published Poseidon2 permutation",
 "For every Poseidon2 instance the library names (15 instances over BabyBear, Goldilocks, BLS12-381, BN256, Pallas and Vesta) and every input state, the permutation returns exactly the t field elements that the Poseidon2 specification defines for the instance's width, S-box degree, round numbers, matrices and round constants as produced by the published generator. No input value (zero, one, minus one, repeated or structured elements, values that zero out an inner S-box) is an exception.",
 ["inputs","configurations"],"every named instance x every element of F^t",
 "The known-answer tests check one input (0,1,2,...) on 8 of the 15 instances; the other tests only compare the code with itself on 5 random inputs.",
 ["src/poseidon2/poseidon2.rs","src/poseidon2/poseidon2_params.rs","src/poseidon2/poseidon2_instance_*.rs"],
 [("permutation: initial linear layer, full/partial/full rounds","src/poseidon2/poseidon2.rs"),("external and internal matrix shortcuts per width","src/poseidon2/poseidon2.rs")],
 ["return value of the permutation, compared per call with an independent evaluation"])
p("C02","Named Poseidon instances compute the published Poseidon permutation",
 "For every Poseidon instance the library names (15 instances over six fields) and every input state, both the optimised and the plain evaluator return exactly the t field elements the Poseidon specification defines for the published width, degree, round numbers, MDS matrix and round constants. In particular the two evaluators always agree.",
 ["inputs","configurations"],"every named instance x every element of F^t x both evaluators",
 "Known answers exist for one input on a subset of the instances; agreement of the two evaluators is sampled on 5 random inputs, which never hit special inner states, and some instances have no known answer at all.",
 ["src/poseidon/poseidon.rs","src/poseidon/poseidon_params.rs","src/poseidon/poseidon_instance_*.rs"],
 [("optimised partial rounds (moved constants, sparse matrices)","src/poseidon/poseidon.rs"),("plain rounds","src/poseidon/poseidon.rs")],
 ["return values of both evaluators"])
p("C03","Published constant tables and instance parameters are exactly the standard ones",
 "Every public round-constant table and matrix of the Poseidon and Poseidon2 instances equals the output of the published Grain-LFSR generation procedure for that field and width, with internal matrices and their diagonals consistent with each other, and every named Poseidon and Poseidon2 instance is built from exactly these tables with its published degree and round numbers. Every named instance of all four hash families reports the width in its name, and every named GMiMC instance reports its documented round number, which is never below the documented bound.",
 ["configurations"],"every entry of every public table, every named instance",
 "Tests touch the tables only through one input on some instances; a changed entry in an instance without known answer, in the full internal matrices or in an untested width passes all tests.",
 ["src/poseidon2/poseidon2_instance_*.rs","src/poseidon/poseidon_instance_*.rs","src/gmimc/gmimc_instance_*.rs","src/neptune/neptune_instances.rs","poseidon2_rust_params.sage"],
 [("lazily built public tables decoded from hex","src/poseidon*/..._instance_*.rs")],
 ["contents of the public tables as read through the public API"])
p("C04","Poseidon2 with caller-supplied parameters follows the specification",
 "For every supported width (2, 3, 4, 8, 12, 16, 20, 24), S-box degree (3, 5, 7, 11), even number of full rounds and any number of partial rounds, over any prime field, with any round constants (t per full round, one used per partial round) and any internal diagonal, the permutation equals the Poseidon2 specification evaluated with those parameters. For widths 2 and 3 the internal matrix is the fixed one of the specification.",
 ["inputs","configurations"],"all parameter sets accepted by the constructor x all inputs; exhaustive over the whole state space for tiny fields",
 "No test runs a caller-supplied Poseidon2 parameter set successfully; degrees 3 and 11, most (field, width) pairs and unusual round numbers are never evaluated.",
 ["src/poseidon2/poseidon2.rs","src/poseidon2/poseidon2_params.rs"],
 [("parameter constructor splits rounds and stores tables","src/poseidon2/poseidon2_params.rs"),("degree and width dispatch","src/poseidon2/poseidon2.rs")],
 ["return value of the permutation for generated parameter sets"])
p("C05","Poseidon with caller-supplied parameters: optimised equals plain equals spec",
 "For every width of at least 2, S-box degree 3, 5 or 7, even number of full rounds and at least one partial round, over any prime field, with any round constants and any invertible matrix whose lower-right (t-1)x(t-1) block is invertible, both evaluators equal the Poseidon specification evaluated with those parameters.",
 ["inputs","configurations"],"all such parameter sets x all inputs x both evaluators",
 "The tests only use the named tables; no other matrix, width, degree or round split is ever evaluated.",
 ["src/poseidon/poseidon.rs","src/poseidon/poseidon_params.rs","src/utils.rs"],
 [("derivation of the equivalent matrices and constants in the constructor","src/poseidon/poseidon_params.rs")],
 ["return values of both evaluators for generated parameter sets"])
p("C06","GMiMC: fast and plain evaluators agree and follow the specification",
 "For every width of at least 2, S-box degree 3, 5 or 7 and round number of at least 1, over any prime field, the default and the plain GMiMC evaluator return the same t elements for every input, namely those of the GMiMC expanding-round-function Feistel: per round the d-th power of the first element plus that round's constant is added to all other elements, followed by a rotation of the state by one to the right except after the last round. This includes all 43 named instances.",
 ["inputs","configurations"],"all widths, degrees, round numbers (also fewer rounds than the width) and inputs",
 "Tests compare the two evaluators on 5 random inputs for 8 instances; widths 5, 9 and 12 to 24 over the large fields, Pallas and Vesta instances, short round numbers and degree 3 are never run, and no test has an independent expected value.",
 ["src/gmimc/gmimc.rs","src/gmimc/gmimc_params.rs","src/gmimc/gmimc_instance_*.rs"],
 [("accumulator queue of the fast evaluator","src/gmimc/gmimc.rs"),("switch between evaluators by width","src/gmimc/gmimc.rs")],
 ["return values of both evaluators"],"read access to the randomly generated round constants",
 [("acc / acc_queue","running sum of the last t-1 S-box outputs","src/gmimc/gmimc.rs")])
p("C07","Neptune permutation follows the Neptune specification",
 "For every even width, S-box degree 3, 5 or 7, even number of external rounds and any number of internal rounds, over any prime field, the Neptune permutation equals the specification evaluated with the instance's own generated parameters: external matrix first, external rounds of pairwise quadratic S-box (alpha = beta = 1), external matrix and constants, internal rounds of a power map on the first element, internal matrix (diagonal plus all-ones) and constants, then external rounds again. For widths 4 and 8 the external matrix is built from the circulants circ(2,1)/circ(1,2) and circ(3,2,1,1)/circ(1,1,2,3) on the even and odd positions.",
 ["inputs","configurations"],"all widths, degrees, round numbers and inputs, including the 12 named instances",
 "The tests compare the matrix shortcuts on 5 random inputs and check that the permutation is repeatable; the S-box, the round structure and the constants have no expected value anywhere.",
 ["src/neptune/neptune.rs","src/neptune/neptune_params.rs","src/neptune/neptune_instances.rs"],
 [("external/internal rounds and matrix shortcuts for widths 4 and 8","src/neptune/neptune.rs"),("parameter generation","src/neptune/neptune_params.rs")],
 ["return value of the permutation"],"read access to the randomly generated constants and matrices")
p("C08","Every permutation is a bijection on its state space",
 "For every named instance of Poseidon, Poseidon2, GMiMC and Neptune, distinct input states never map to the same output state, and every output state is reached from the input that the specification's inverse computes. The same holds for parameter sets over small fields whose matrices are invertible and whose S-box degree is coprime to p - 1.",
 ["inputs","configurations"],"all pairs of inputs; whole state space for small fields, inverse check on large ones",
 "Tests only compare two random inputs for inequality; collisions at special values have negligible probability of being sampled.",
 ["src/poseidon2/poseidon2.rs","src/poseidon/poseidon.rs","src/gmimc/gmimc.rs","src/neptune/neptune.rs"],
 [("S-box degrees coprime to p-1, invertible linear layers, Feistel structure","src/*/")],
 ["input/output pairs of the permutations: image sets and model inverse"],"read access to generated GMiMC/Neptune parameters")
p("C09","Hash results depend only on the instance and the input",
 "Whatever was computed before, by whichever object, clone or thread, and also after calls that were refused with a panic, a permutation or compression call returns the same value as the first call with that input on that instance. For the Poseidon and Poseidon2 named instances the value is also the same in every process.",
 ["histories","inputs"],"all call histories over all instances, clones and processes",
 "Tests call each instance twice in a row with the same input in one process; no test interleaves instances, perturbs inputs in place, survives a panic or compares processes.",
 ["src/poseidon2/poseidon2.rs","src/poseidon/poseidon.rs","src/gmimc/gmimc.rs","src/neptune/neptune.rs","src/fields/utils.rs"],
 [("evaluation takes a shared reference to immutable shared parameters","src/*/"),("lazily initialised global instances","src/*/*instance*.rs")],
 ["recorded histories of (instance, input, output) across objects, threads and processes"])
p("C10","Concurrent use of shared instances is race-free and correct",
 "Any number of threads may use the same instance, its clones, the global named instances (including their very first use) and Merkle trees at the same time: there is no data race or deadlock, all threads see the same parameters, and every call returns what it would return alone.",
 ["schedules","histories"],"all interleavings of concurrent first use and later use of instances and trees",
 "Each test uses its instances from a single thread.",
 ["src/poseidon2/","src/poseidon/","src/gmimc/","src/neptune/","src/merkle_tree/"],
 [("lazy one-time initialisation of global instances","src/*/*instance*.rs"),("reference-counted immutable parameters","src/*/")],
 ["ThreadSanitizer and Miri on stress runs; every concurrent result compared with the sequential one"])
p("C11","No memory error or undefined behaviour for any use of the safe API",
 "No sequence of calls through the safe public API, with valid or invalid arguments, reads or writes out of bounds, uses freed or uninitialised memory or otherwise triggers undefined behaviour; invalid arguments at most cause a panic. Well-formed calls never depend on an arithmetic overflow, every returned field element is canonical, and neither borrowed arguments nor earlier results are ever changed by a call.",
 ["inputs","histories"],"all call sequences over all hash families, trees, matrix and field helpers",
 "Tests run uninstrumented and only with well-formed arguments; an out-of-bounds access that happens to hit mapped memory passes.",
 ["src/"],[("safe Rust: bounds checks and length assertions","src/")],
 ["AddressSanitizer, Miri and checked-arithmetic builds running the whole API"])
p("C12","Merkle root over field elements is the balanced binary tree root",
 "For every non-empty list of leaves and any two-to-one compression function, the accumulated root is that of the balanced binary tree over the leaves in order, left child first, where the list is padded with copies of its last element to the next power of two and to at least two leaves. This holds for any list length and leaf values, and a tree object gives the same root whatever it accumulated before; an empty list is refused.",
 ["inputs","histories","configurations"],"all list lengths, leaf values, compression functions and call histories",
 "The Merkle trees have no tests at all; the benchmarks only run one power-of-two size.",
 ["src/merkle_tree/merkle_tree_fp.rs"],[("padding and level-by-level reduction","src/merkle_tree/merkle_tree_fp.rs")],
 ["root returned for a symbolic (injective, recording) compression function and for the real hashes"])
p("C13","Merkle root over byte digests is the balanced binary tree root",
 "For every non-empty list of digests and every digest algorithm, the accumulated root is that of the balanced binary tree whose inner nodes hash the concatenation left then right, with the list padded with copies of its last element to the next power of two and to at least two leaves. Reusing or cloning a tree object never changes a later root; an empty list is refused.",
 ["inputs","histories","configurations"],"all list lengths, digests, digest algorithms and call histories",
 "The digest tree has no tests and the hasher inside it is stateful.",
 ["src/merkle_tree/merkle_tree_f2.rs"],[("hasher reset between nodes","src/merkle_tree/merkle_tree_f2.rs")],
 ["root returned for several digest algorithms"],None,[("hasher","digest state carried between nodes and calls","src/merkle_tree/merkle_tree_f2.rs")])
p("C14","Orchard and Sapling trees: balanced root with correct level numbers",
 "For every non-empty list of leaves and any level-aware compression function, the Orchard and Sapling trees return the root of the balanced binary tree over the leaves in order, padded with copies of the last leaf to the next power of two and at least two leaves, where each node at height h above the leaves is compressed with level number h counted from 0 at the leaf level. Tree objects can be reused without influencing later roots; an empty list is refused.",
 ["inputs","histories"],"all list lengths, leaf values, compression functions and call histories",
 "These trees have no tests and no caller in the repository.",
 ["src/merkle_tree/merkle_tree_orchard.rs","src/merkle_tree/merkle_tree_sapling.rs"],[("level counter","src/merkle_tree/merkle_tree_{orchard,sapling}.rs")],
 ["root returned for a symbolic level-aware compression function"])
p("C15","Two-to-one compression is the permutation's first element on (a, b, 0...)",
 "Compressing (a, b) with Poseidon, Poseidon2 or GMiMC of width 3, or Neptune of width 4, returns the first element of the permutation of (a, b, 0) respectively (a, b, 0, 0), for all field elements a and b in that order. With an instance of any other width compression is refused instead of returning a value.",
 ["inputs","configurations"],"all pairs (a, b), all named and caller-made instances of these widths; all other widths",
 "No test calls compression.",
 ["src/poseidon2/poseidon2.rs","src/poseidon/poseidon.rs","src/gmimc/gmimc.rs","src/neptune/neptune.rs"],
 [("implementations of the tree compression trait","src/*/")],["return value of compression"])
p("C16","Matrix helpers: inverse, transpose and products are mathematically correct",
 "Over any prime field, inverting an invertible square matrix returns the matrix whose product with it, on either side, is the identity, and inverting a singular matrix is refused; transposing an r x c matrix returns the c x r matrix with rows and columns exchanged; the matrix-vector and matrix-matrix products of square matrices are the ordinary ones.",
 ["inputs"],"all matrices of all sizes, including zero pivots, permutation matrices and singular ones",
 "The helpers are only exercised on the named MDS matrices, which never have a zero pivot.",
 ["src/utils.rs","src/poseidon/poseidon_params.rs","src/poseidon2/poseidon2_params.rs"],
 [("Gaussian elimination","src/utils.rs")],["returned matrices and vectors"])
p("C17","The six fields are the standard prime fields with correct arithmetic",
 "The BabyBear, Goldilocks, BLS12-381 scalar, BN256 scalar, Pallas and Vesta field types have exactly the standard moduli, and addition, subtraction, negation, doubling, multiplication, squaring, inversion, exponentiation, square roots and conversions from and to integers and bytes agree with integer arithmetic modulo that prime. The declared generator is a primitive root, so that the derived root of unity has order exactly 2^s.",
 ["inputs"],"all operands of all operations on all six fields",
 "Tests use fields only as a carrier for hashes; the generator is never used, and special operands (near the modulus, limb boundaries) are never reached.",
 ["src/fields/babybear.rs","src/fields/goldilocks.rs","src/fields/bls12.rs","src/fields/bn256.rs","src/fields/pallas.rs","src/fields/vesta.rs"],
 [("modulus and generator attributes","src/fields/*.rs")],["results of field operations"])
p("C18","Hex decoding yields the big-endian value modulo the prime or is refused",
 "For every string consisting of the prefix 0x (or 0X) and an even number of hexadecimal digits of any length and letter case, decoding yields the big-endian integer reduced modulo the field's prime. Every other string (missing prefix, odd number of digits, foreign characters) is refused with a panic.",
 ["inputs"],"all strings, all fields",
 "Only well-formed lower-case literals of the natural length occur in tests and tables.",
 ["src/fields/utils.rs"],[("prefix removal, byte decoding, modular reduction","src/fields/utils.rs")],["returned element or panic"])
p("C19","Random elements and generated parameters are fresh, uniform and in range",
 "Random scalars are uniformly distributed over the whole field and independent between calls and threads, and the non-zero variant never returns zero but is otherwise uniform. Parameter sets generated for GMiMC and Neptune draw all their constants and generated matrix entries this way: two generated sets never share constants, no constant repeats within a large-field set, and no diagonal entry of Neptune's internal matrix is zero.",
 ["inputs","histories"],"all draws, all fields, all generated parameter sets",
 "No test looks at the distribution or at generated parameters; a constant or biased generator passes.",
 ["src/fields/utils.rs","src/gmimc/gmimc_params.rs","src/neptune/neptune_params.rs"],
 [("thread-local random generator, rejection of zero","src/fields/utils.rs")],["drawn elements; generated parameters"],"read access to generated parameters")
p("C20","Misuse is refused with a panic, never answered with a hash",
 "In debug and optimised builds alike, evaluating any permutation on a state whose length differs from the instance's width, constructing parameters with an unsupported S-box degree, an odd number of full rounds, an odd Neptune width, a Poseidon matrix with the wrong number of rows or Poseidon constant rows of the wrong length, evaluating Poseidon2 at an unsupported width, and evaluating with constant tables, or a diagonal table where it is used (widths from 4 on, with partial rounds), too short for the declared width and rounds is refused with a panic. Correct use afterwards is unaffected.",
 ["inputs","configurations","histories"],"all wrong lengths, degrees, round numbers and table shapes, in both build profiles",
 "No test feeds a wrong length or shape, and tests run with debug assertions on, so checks that vanish in optimised builds are invisible.",
 ["src/poseidon2/","src/poseidon/","src/gmimc/","src/neptune/"],
 [("length and parameter assertions","src/*/*.rs")],["panic or return of each misuse call"])
p("C21","Evaluation retains no memory",
 "After any number of permutation, compression, tree accumulation, matrix or decoding calls, of parameter sets and hash objects made and dropped, and of threads that used the library and ended, also calls that were refused with a panic, the memory held by the library does not grow with the number of calls made or with the inputs seen.",
 ["histories"],"all call histories",
 "Tests make a handful of calls and never look at memory.",
 ["src/"],[("no global mutable state besides one-time initialised instances","src/")],["live heap bytes seen by a counting allocator between equal call batches"])
p("C22","Derived tables for cheap partial rounds are equivalent to the plain ones",
 "For any invertible matrix (for Poseidon: with an invertible lower-right (t-1)x(t-1) block), any round constants and at least one partial round, the publicly derivable Poseidon tables (moved constants and sparse matrix factors) and the publicly derivable Poseidon2 moved constants make the cheap partial-round computation return, for every state, exactly what the plain partial rounds with full constants and full matrix return.",
 ["inputs","configurations"],"all matrices, constants, partial round numbers, split points and states",
 "The Poseidon2 derivation has no caller and no test; the Poseidon ones are exercised only on the named tables.",
 ["src/poseidon/poseidon_params.rs","src/poseidon2/poseidon2_params.rs"],
 [("moving constants through the inverse matrix; sparse factorisation","src/poseidon/poseidon_params.rs")],["returned tables, used to evaluate partial rounds and compared with the plain evaluation"])
p("C23","The parameter script reproduces the published Poseidon2 instances",
 "For the prime and width of every named Poseidon2 instance, poseidon2_rust_params.sage emits exactly that instance's S-box degree, round numbers, internal matrix, diagonal minus one and round constants, and as reference values the input (0, 1, ..., t-1) and its Poseidon2 permutation. For any other prime and supported width (2, 3 or a multiple of 4) it emits a set made by the same procedure: the smallest degree coprime to p - 1, round numbers that satisfy the security inequalities with the margin, constants drawn by rejection from the Grain generator seeded with these numbers, the first drawn diagonal whose matrix and all its powers up to 2t have irreducible characteristic polynomials, and reference values that fit the emitted set. For other widths no parameter set is emitted.",
 ["inputs","configurations"],"all primes and widths",
 "No test runs the script; its settings are edited by hand, and the committed settings show one prime and width only.",
 ["poseidon2_rust_params.sage"],[("round number search, Grain generator, matrix search, printed tables","poseidon2_rust_params.sage")],["printed tables, instance line and reference values"])
for x in P: assert len(x["title"])<=80,x["title"]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
