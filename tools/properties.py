ALLJ = ["inputs", "configurations", "histories"]

prop("J01", "Evaluation-proof challenges bind the whole statement and transcript",
     "Every random challenge used in a polynomial-commitment evaluation proof is derived, identically by prover and verifier, from the common "
     "reference string, all commitments, the evaluation point, all claimed values and all prover messages that precede it. No part of the statement "
     "or of an earlier message can be changed without changing every challenge that depends on it.",
     ["inputs", "configurations"], "every statement (any batch size, point, values, commitments), every parameter set and every adversarial prover message",
     "The tests run honest proofs of two fixed shapes; a challenge that ignores part of the statement still verifies.",
     ["jindo/verifier.go", "jindo/prover.go", "jindo/entities.go"],
     [("challenge derivation of the verifier", "jindo/verifier.go Verifier.Verify"), ("challenge derivation of the prover", "jindo/prover.go Prover.Evaluate")])

prop("J02", "Evaluation proofs are accepted exactly when all verification equations hold",
     "The verifier of the polynomial commitment accepts exactly when every part of proof and statement is well-formed, the combined opening satisfies the "
     "outer and inner commitment equations within the configured norm bounds, the response is consistent with the partial evaluations, and these "
     "combine to the claimed values. No equation, bound, index or component is skipped for any parameters, and malformed proofs are rejected rather than crashing.",
     ["inputs", "configurations"], "every proof and statement, well-formed or not, and every parameter set",
     "Soundness checks are only visible on adversarial proofs; the tests feed only honest proofs for two parameter shapes.",
     ["jindo/verifier.go", "jindo/encoder.go", "jindo/rns.go", "jindo/entities.go", "jindo/utils.go"],
     [("verification", "jindo/verifier.go Verifier.Verify"), ("decoding", "jindo/encoder.go Encoder.DecodeTo"), ("balanced representation", "jindo/rns.go RNSReconstructor.reconstructTo")])

prop("J03", "Commitments and evaluation proofs are the ones the scheme defines",
     "For every message vector up to the capacity, committing yields an opening whose encoded rows evaluate to the message, and the inner and outer commitments of that opening with "
     "the dropped bits; evaluating yields the true values and the combination of the openings under the challenges. The outputs are the same function of "
     "message, key, point, challenges and randomness for all parameters, batch sizes and message lengths.",
     ["inputs", "configurations"], "all messages of any length up to the capacity, all points, batch sizes and parameter sets",
     "The tests commit to full-length messages with batch sizes one and two of one parameter shape each.",
     ["jindo/prover.go", "jindo/rns.go", "jindo/utils.go"],
     [("commit", "jindo/prover.go Prover.Commit"), ("evaluate", "jindo/prover.go Prover.Evaluate"), ("residues of dropped coefficients", "jindo/rns.go RNSReconstructor.setBigCoeffTo")])

prop("J04", "Ring challenges are short, sparse and drawn from the full bounded range",
     "A challenge seed is expanded into a ring element whose only nonzero coefficients lie at the positions of the digit structure and are the balanced base digits of the seed, "
     "each within the configured challenge bound and covering that whole range. The result is the same in every ring, including residues of negative digits.",
     ["inputs", "configurations"], "every seed and every parameter set and ring",
     "A narrower, wider or biased range, or wrong residues in one modulus, does not affect the acceptance of honest proofs in tests.",
     ["jindo/utils.go", "jindo/params.go"],
     [("challenge expansion", "jindo/utils.go encodeChallengeTo"), ("bound", "jindo/params.go Parameters.ChallengeBound")])

prop("J05", "Commitment keys are a uniform deterministic expansion of the reference string",
     "Two parties with the same parameters and common reference string hold the same commitment key; every coefficient of every key element is a separate uniform draw below its modulus from one stream seeded by that "
     "string, in a fixed order, and no two entries share a draw. The key keeps its own copy of the string.",
     ["inputs", "configurations"], "every reference string and parameter set",
     "Repeated or non-uniform key entries do not affect honest executions; the tests never look at the key.",
     ["jindo/entities.go"],
     [("key expansion", "jindo/entities.go NewCommitKey")])

prop("J06", "Randomised encodings add exactly the prescribed Gaussian noise",
     "A randomised encoding is the digit encoding of the message plus (X^slots - base) times a fresh discrete Gaussian ring element, whose every coefficient is sampled with the requested width and centred such "
     "that the encoding is centred at zero. It decodes to the same message, and for each width the matching sampler is used with a separate sample per coefficient.",
     ["inputs", "configurations"], "all messages, widths and parameter sets",
     "A wrong centre, a shared sample or a wrongly shifted coefficient leaves honest proofs accepted but no longer hides the message; tests do not look at distributions.",
     ["jindo/encoder.go", "jindo/utils.go"],
     [("randomised encoding", "jindo/encoder.go Encoder.randEncodeTo"), ("centres", "jindo/encoder.go newEncoder"), ("signed residues", "jindo/utils.go setCoeffSigned")])

prop("J07", "Digit encodings are exact and decode to the encoded values",
     "Encoding a vector of field elements writes the base digits of every entry, least significant first, at stride slots and in every residue, and zero elsewhere; all digits but the last are below the base. Decoding any ring element "
     "returns for each slot the sum of its balanced coefficients times the powers of the base. Multi-word division used for digits is exact for all operands.",
     ["inputs", "configurations"], "all field elements, vector lengths up to the number of slots, ring elements and parameter sets",
     "Digit extraction errors show only for particular values and shorter vectors; the tests encode random full vectors.",
     ["jindo/encoder.go", "jindo/utils.go"],
     [("encoding", "jindo/encoder.go Encoder.encode"), ("decoding", "jindo/encoder.go Encoder.DecodeTo"), ("division", "jindo/utils.go divMod64")])

ALLB = "every circuit, witness and parameter set"

prop("J08", "Parameter search returns complete parameters that meet the hardness bounds",
     "For every polynomial length and batch size the search over column counts ends, a candidate whose inner or outer modulus would exceed the limit is passed over, and what is returned is the complete candidate of smallest estimated size: "
     "it holds at least the requested length (rank = (rows-1)*cols*slots), uses the base and exponent with modulus = base^exp + 1, and its module ranks, moduli, cut-offs, standard deviations and norm bounds are those the norm analysis gives for the very same numbers of rows, columns and polynomials, "
     "so the inner and the outer commitment are binding for the norms the verifier accepts. If there is none it panics instead of returning a partial parameter set.",
     ["configurations"], "every target length, batch size and witness modulus",
     "The tests build parameters for one length and two batch sizes, and a formula with a wrong factor, a bound from another candidate or a rank below the hardness bound still yields parameters with which honest proofs verify.",
     ["jindo/params.go"],
     [("search", "jindo/params.go NewParameters"), ("hardness", "jindo/params.go findMSISRank"), ("encoding", "jindo/params.go newEncodeParameters")])

prop("J09", "Copies for concurrent use share nothing that is ever written",
     "A copy of a prover, of its encoder or reconstructor, or of a table-based sampler made with SafeCopy behaves like a newly created one for the same parameters and reference string, draws its randomness from generators of its own, and whatever memory it shares with the original "
     "(parameters, keys, tables, constants) is never written by any method of either, so that original and copies may be used at the same time.",
     ["schedules", "configurations"], "every interleaving of calls on an original and its copies, for every parameter set",
     "No test copies a prover or runs two at once; a shared buffer or generator corrupts proofs or correlates masking noise only under particular interleavings.",
     ["jindo/prover.go", "jindo/encoder.go", "jindo/rns.go", "math/csprng/gaussian_twin_cdt.go"],
     [("prover copies", "jindo/prover.go Prover.SafeCopy"), ("encoder copies", "jindo/encoder.go Encoder.safeCopy"), ("reconstructor copies", "jindo/rns.go RNSReconstructor.safeCopy"), ("sampler copies", "math/csprng/gaussian_twin_cdt.go TwinCDTGaussianSampler.SafeCopy")])

prop("J10", "Every ring element is used in the ring it was created for",
     "The scheme works in two rings with different moduli. Committing, evaluating, verifying, encoding and decoding create every ring element in the ring whose operations, encoders, reconstructors and basis extensions it is then given to, and commitments, openings, proofs and commitment keys keep in each "
     "field elements of the ring that the code reading the field works in; only the conversions made for that purpose take an element from one ring to the other. An element of the wrong ring has residues of the wrong moduli, or too few of them.",
     ["inputs", "configurations"], "every parameter set, batch size, message and proof",
     "The two rings have modulus chains of the same length for the batch sizes the tests use, so that an element created in the wrong one goes unnoticed; for other batch sizes operations read missing residues, compare or absorb foreign ones, or honest proofs are rejected.",
     ["jindo/entities.go", "jindo/prover.go", "jindo/verifier.go", "jindo/encoder.go"],
     [("constructors", "jindo/entities.go NewProof"), ("committing", "jindo/prover.go Prover.Commit"), ("evaluating", "jindo/prover.go Prover.Evaluate"), ("verifying", "jindo/verifier.go Verifier.Verify"), ("encoding", "jindo/encoder.go Encoder.encode")])

prop("J11", "Using a prover, verifier or encoder again does not change its results",
     "Encodings, decodings, reconstructions, commitments, openings, evaluations, proofs and verdicts of the polynomial commitment are functions of the arguments of their own call, of the key and of fresh randomness only: "
     "nothing that an earlier call on the same encoder, reconstructor, prover or verifier was given is left in a buffer that a later call reads, and nothing a later call does changes what an earlier one returned.",
     ["histories", "inputs"], "every earlier and later call with any arguments, and every parameter set",
     "The tests use each object for a few calls of the same shape; a buffer that is not cleared gives encodings that are wrong, or grow and leak, only after other uses.",
     ["jindo/encoder.go", "jindo/rns.go", "jindo/prover.go", "jindo/verifier.go"],
     [("correction buffer", "jindo/encoder.go Encoder.randEncodeTo"), ("accumulator", "jindo/rns.go RNSReconstructor.reconstructTo"), ("prover", "jindo/prover.go Prover.Evaluate")])

prop("B01", "The prover builds the proof and the transcript the protocol prescribes",
     "Prove rejects an assignment of another circuit type or with the wrong number of witnesses. Otherwise it assigns the witnesses the compiler introduced (digits of norm-bounded witnesses and of squared norms, decomposition bases and masks, the projections "
     "derived from the transcript and their digits), commits once to every witness polynomial, mask, quotient and remainder, in the slot and with the number of coefficients the verifier expects, absorbs every public polynomial, commitment and mask sum under the label and in the order "
     "in which the verifier absorbs them and before the challenge they determine, and opens all committed polynomials at the evaluation point.",
     ["inputs", "configurations"], ALLB + " and assignment",
     "The tests prove one circuit with linear and ternary constraints: sums, norms of other bounds, two-norms and projections, and every combination of checks, go down paths no test runs.",
     ["buckler/prover.go"],
     [("proving", "buckler/prover.go Prover.Prove")])

prop("B02", "The verifier accepts only proofs satisfying every check of the circuit",
     "Verify returns true exactly if the circuit type and the public assignment fit the compiled circuit, the proof has every part, the polynomial commitment proof verifies at the Fiat-Shamir point, and each check that the circuit has "
     "(arithmetic, linear, sum) holds at that point: every constraint of the circuit enters with its own power of the batching challenge, the right quotient, remainder, mask and public evaluations are used, and remainders are bounded in degree. No proof is accepted with any of these violated.",
     ["inputs", "configurations"], ALLB + " and proof, including malformed proofs",
     "Existing tests verify honest proofs of one circuit; dropping or weakening a check leaves every honest proof accepted.",
     ["buckler/verifier.go"],
     [("verification", "buckler/verifier.go Verifier.Verify"), ("arithmetic check", "buckler/verifier.go Verifier.arithCheck"), ("linear check", "buckler/verifier.go Verifier.linCheck"), ("sum check", "buckler/verifier.go Verifier.sumCheck")])

prop("B03", "The prover's polynomials satisfy the identities the verifier tests",
     "Every polynomial the prover commits to for a check is the one defined by the compiled constraints: the batched arithmetic constraints divided by X^n-1; the batched linear and sum constraints plus the mask, divided by X^n-1, whose remainder is split at the "
     "claimed sum into a low part and a copy shifted to the top degree; each constraint weighted by its own power of the batching challenge, with every coefficient, public and secret factor; and masks with uniform coefficients and the sum they are declared to have.",
     ["inputs", "configurations"], "every compiled circuit, witness and challenge",
     "Tests run one circuit with arithmetic and linear constraints; sum constraints, several constraints of a kind, constants and mixed degrees go down other paths.",
     ["buckler/prover.go"],
     [("constraints", "buckler/prover.go Prover.evalCircuit"), ("arithmetic", "buckler/prover.go Prover.arithCheck"), ("linear", "buckler/prover.go Prover.linCheck"), ("sums", "buckler/prover.go Prover.sumCheck"), ("masks", "buckler/prover.go Prover.sumCheckMask")])

prop("B04", "Circuit builders record exactly the constraints that were requested",
     "Adding arithmetic terms and arithmetic, sum and linear constraints to a circuit records every term with its coefficient, its public multiplier and all its witnesses, and every constraint with its declared sum, each "
     "exactly once and independently of what was added before. The derived sizes (degree bounds, number of committed polynomials, commitment rank) cover the largest constraint of the circuit.",
     ["inputs", "configurations", "histories"], "every sequence of constraints over any number of terms and witnesses",
     "The tests compile one circuit of each kind; a dropped term or a degree bound that ignores one kind of term shows only for other circuits.",
     ["buckler/constraint.go", "buckler/context.go", "buckler/witness.go"],
     [("terms", "buckler/constraint.go ArithmeticConstraint.AddTermWithConst"), ("constraints", "buckler/context.go Context.AddArithmeticConstraint"), ("sizes", "buckler/context.go Context.commitRank")])

prop("B05", "Norm constraints bound the witness for every bound",
     "Infinity-norm, exact two-norm and approximate infinity-norm constraints register auxiliary witnesses and polynomial constraints that together hold exactly for witnesses within the requested bound: each digit is ternary, the digits "
     "weighted by the decomposition base recompose to the witness, its squared norm or its projection, and nothing else. This holds for every nonnegative bound, for several norm constraints on one witness, and negative bounds are rejected.",
     ["inputs", "configurations", "histories"], "every bound, every witness and every order of constraints",
     "The tests use only ternary bounds; missing or wrongly weighted digits do not affect honest proofs.",
     ["buckler/context.go", "buckler/utils.go"],
     [("infinity norm", "buckler/context.go Context.AddInfNormConstraintBig"), ("two norm", "buckler/context.go Context.AddSqTwoNormConstraintBig"), ("approximate norm", "buckler/context.go Context.AddApproxInfNormConstraintBig")])

prop("B06", "Bounds and values decompose completely into signed digits",
     "The decomposition base of a bound consists of weights whose signed ternary combinations range over exactly the integers of absolute value at most the bound. Decomposing a centred residue within the bound yields digits in {-1,0,1} "
     "whose weighted sum is that residue.",
     ["inputs"], "every bound, residue and modulus",
     "Powers of two, bounds whose halving leaves remainders and negative residues are values that random sampling of small bounds misses.",
     ["buckler/utils.go"],
     [("base", "buckler/utils.go decomposeBase"), ("digits", "buckler/utils.go decomposeBig")])

prop("B07", "Walks assign witnesses completely and in the compiler's order",
     "Compiling a circuit gives every public and secret witness reachable through pointers, interfaces, structs, slices and arrays its own number, in one fixed order; proving and verifying collect the witnesses of an assignment in that same order, so that every value is bound to the number "
     "its constraints refer to. Read-only fields, values of the wrong length, surplus witnesses and invalid parts are errors, and an error anywhere in the structure is reported, not dropped.",
     ["inputs", "configurations"], "every circuit type and assignment, of any nesting",
     "The circuit in the tests is a flat struct with complete witnesses; nested structures, empty parts and faulty assignments are never walked.",
     ["buckler/compile.go"],
     [("numbering", "buckler/compile.go walker.firstWalk"), ("assignment for proving", "buckler/compile.go walker.prvWalk"), ("assignment for verifying", "buckler/compile.go walker.vrfWalk")])

prop("B08", "Linear checkers apply one matrix and its exact transpose",
     "Each linear relation offered to circuits (negacyclic transform, ring automorphism in either representation, random projection, recomposition of digits) maps a vector to its product with a fixed matrix and, in the transposed direction, to its product with the transpose of that same matrix, "
     "for every rank, index, selection and bound. Every entry of the output is written whatever it held before, including the part beyond the dimension of the matrix, and indices without inverse are refused.",
     ["inputs", "configurations"], "every rank, index, projection matrix, bound and vector",
     "Tests run one circuit with a transform; a transpose that belongs to another matrix lets honest proofs of untested relations fail, or false ones pass, only for particular vectors.",
     ["buckler/linear.go"],
     [("transform", "buckler/linear.go nttChecker.TransposeTo"), ("automorphism", "buckler/linear.go autChecker.TransposeTo"), ("projection", "buckler/linear.go projChecker.TransposeTo"), ("recomposition", "buckler/linear.go projRecomposeChecker.TransposeTo")])

prop("B09", "Witness encodings interpolate the vector, hidden by a fresh multiple of X^n-1",
     "Encoding a vector gives the polynomial of degree below n whose values on the n-th roots of unity are the vector, with all higher coefficients zero and whatever the target held before overwritten; the randomised encoding adds r*(X^n-1) with a "
     "fresh uniform r, so that it agrees with the encoding on the roots of unity.",
     ["inputs", "configurations"], "every rank, embedding rank, vector and target polynomial",
     "The tests encode with fresh targets at one rank; stale coefficients, reused or missing randomness do not affect honest verification.",
     ["buckler/encoder.go"],
     [("encoding", "buckler/encoder.go Encoder.EncodeTo"), ("randomised encoding", "buckler/encoder.go Encoder.RandEncode")])


prop("B10", "Compilation gives both parties one consistent set of parameters",
     "Compiling a circuit returns a prover and a verifier for the same constraints, witness counts, circuit type, commitment parameters and reference string, with an embedding rank that is the least power of two holding every product of the circuit's constraints and commitment parameters large enough for every "
     "committed polynomial. A circuit that is no pointer or cannot be walked gives an error and neither party.",
     ["inputs", "configurations"], "every circuit, witness rank and reference string",
     "Only one circuit is compiled by the tests; ranks that are too small only show for circuits whose largest constraint is of another kind.",
     ["buckler/compile.go", "buckler/context.go"],
     [("compilation", "buckler/compile.go Compile"), ("context", "buckler/context.go newContext")])


prop("B11", "A constraint stays what it was when it was added",
     "The coefficients, sums and norm bounds of the constraints of a circuit are the values they had when the constraint was added: writing afterwards to a number that was passed in, or extending a constraint after it was added, "
     "changes neither the circuit nor what its prover and verifier check, and adding a constraint does not change the numbers that were passed in.",
     ["histories", "inputs"], "every coefficient, sum and bound, and everything the caller may do with them afterwards",
     "The tests pass constants they never use again; a constraint that refers to its caller's number is silently another one after the number is reused, for the verifier too.",
     ["buckler/constraint.go", "buckler/context.go"],
     [("coefficients", "buckler/constraint.go ArithmeticConstraint.AddTermWithConst"), ("sums", "buckler/context.go Context.AddSumCheckConstraintBig"), ("bounds", "buckler/context.go Context.AddInfNormConstraintBig")])

prop("T01", "The modulus search returns only moduli the scheme can work with",
     "For a range of bit lengths, findModulus of the modulus generator returns, if it returns one at all, a number p that passes the primality test and has a bit length in the range (the end excluded), with a base b of at most 2^25 and an exponent k >= 2 that is a power of two such that p = b^k + 1 and 2^31 divides p - 1 (so that transforms of every supported length exist). "
     "It tries the exponents in increasing order, for each of them every base from the smallest that reaches the range to the largest allowed, returns the first hit, and reports that there is none only after all of them; it ends for every range.",
     ["inputs"], "every range of bit lengths",
     "The generator has no tests. A modulus of another form only fails much later, in the transforms or in the encoding of the generated field, and only for long polynomials.",
     ["jindo-modulus/main.go"],
     [("modulus search", "jindo-modulus/main.go findModulus")])

prop("M01", "Polynomial and vector arithmetic is exact at every length, in place or not",
     "Every vector and polynomial operation over the prime fields (sum, difference, product, negation, scalar product, fused multiply-add and -subtract, copies, clearing, conversion between representations, with their allocating variants) gives for every coefficient the value the "
     "operation defines, for every length and for results stored over an operand, reads and writes nothing else, requires the operands to be in matching domains and lengths, and records the domain of the result.",
     ["inputs", "configurations"], "all vectors of every length, all polynomials and ranks, and all ways a result may alias an operand",
     "The unrolled loops, tails and aliasing combinations depend on lengths and calls no test uses; a stale domain flag or accumulator shows only in particular sequences of operations.",
     ["math/bigpoly/vec.go", "math/bigpoly/base_op.go", "math/bigpoly/poly.go", "math/bigpoly/cyclic.go", "math/bigpoly/cyclotomic.go"],
     [("vectors", "math/bigpoly/vec.go mulAddVecTo"), ("operations", "math/bigpoly/base_op.go baseOperator.MulAddTo"), ("polynomials", "math/bigpoly/poly.go Poly")])

prop("M02", "Ring automorphisms map X to X^d with the right signs",
     "Applying the automorphism of odd index d to a polynomial modulo X^n+1 moves the coefficient of X^i to X^(i*d), negated for every odd wrap around n; on the transformed representation it permutes the values accordingly, without changing any. Every entry is moved exactly once, including when the result "
     "is stored in the input, the representation is kept, and even indices and mismatched lengths are refused.",
     ["inputs", "configurations"], "every rank, odd index and polynomial",
     "The tests never apply an automorphism to a polynomial; a wrong sign shows only for coefficients that wrap.",
     ["math/bigpoly/cyclotomic.go"],
     [("automorphism", "math/bigpoly/cyclotomic.go CyclotomicEvaluator.AutTo")])

prop("M03", "Division by X^n-1, evaluation and modulus switching are exact",
     "Division of a polynomial of any degree by X^n-1 returns the quotient and the remainder of degree below n with input = quotient*(X^n-1) + remainder; evaluating a polynomial at a point gives the sum of its coefficients times the powers of the point; "
     "switching the modulus scales each coefficient by the ratio of the moduli and rounds it to the nearest residue.",
     ["inputs"], "every degree, rank, point and pair of moduli",
     "The only circuit in the tests divides polynomials of one degree and evaluates them on honest data, where the parts beyond twice the rank vanish.",
     ["math/bigpoly/cyclic.go", "math/bigpoly/poly.go", "math/bigpoly/cyclotomic.go"],
     [("division", "math/bigpoly/cyclic.go CyclicEvaluator.QuoRemByVanishing"), ("evaluation", "math/bigpoly/poly.go Poly.Evaluate"), ("modulus switch", "math/bigpoly/cyclotomic.go CyclotomicEvaluator.ModSwitchTo")])

prop("M04", "Transforms compute the number-theoretic transform at every length",
     "For every power of two n >= 2 for which the field has the roots, the forward transforms apply the complete decimation network to the input: in each of the log n stages every pair of elements of that stage is updated exactly once, with the factor of its group. "
     "The inverse transforms apply the inverse stages in the opposite order and scale by the inverse of n, so that they undo the forward transforms. Factors are the powers of a root of the right order and of its inverse, in bit-reversed order. Results may be stored over the input, "
     "and vectors of another length than the transformer's, or lengths that are no power of two or have no roots, are refused.",
     ["inputs", "configurations"], "every length, vector and field, in place or not",
     "Small lengths take another path than large ones, and the unrolled path has stages of its own; the tests use two or three lengths, so a wrong factor, bound or stage at any other length stays unseen.",
     ["math/bigpoly/ntt.go", "math/bigpoly/vec.go"],
     [("cyclic transform", "math/bigpoly/ntt.go CyclicTransformer.FwdNTTTo"), ("negacyclic transform", "math/bigpoly/ntt.go CyclotomicTransformer.InvNTTTo"), ("unrolled network", "math/bigpoly/ntt.go nttInPlaceUnroll"), ("factors", "math/bigpoly/ntt.go NewCyclotomicTransformer")])

prop("M05", "Samplers draw from the stated distributions, seeded ones reproducibly",
     "A generator made from a seed is AES-256 in counter mode keyed by the hash of the whole seed; its byte stream is used in order, each byte at most once, so equal seeds give equal samples. Bounded sampling below n rejects instead of reducing, "
     "so every value has the same chance; floats are 52 random bits in [0,1). The rounded Gaussian is the ziggurat of its tables, the twin-CDT sampler selects from the tables of the right base and center and copies share tables but never a generator, "
     "and the arbitrary-center sampler accepts with exactly the ratio of the target to the proposal density.",
     ["inputs", "configurations", "histories"], "every seed, bound, center, deviation and sequence of calls",
     "Biases from a reduction, a repeated stream or a wrong acceptance ratio are invisible in a handful of samples, and no test of the repository looks at the distribution.",
     ["math/csprng/uniform.go", "math/csprng/gaussian_rounded.go", "math/csprng/gaussian_twin_cdt.go", "math/csprng/gaussian_cosac.go"],
     [("uniform stream", "math/csprng/uniform.go UniformSampler.Sample"), ("rejection", "math/csprng/uniform.go UniformSampler.SampleN"), ("twin CDT", "math/csprng/gaussian_twin_cdt.go TwinCDTSampler.Sample"), ("arbitrary centers", "math/csprng/gaussian_cosac.go COSACSampler.Sample")])

prop("M06", "What an operation returns is memory of its own",
     "Polynomials, encodings, commitments, openings, evaluations and proofs returned by the library share no memory with the arguments of the call, with the object it was made on, or with a pooled scratch buffer: "
     "the caller may modify a result without changing an input or the object, and using the object again does not change the result.",
     ["inputs", "histories"], "every returned object of the polynomial arithmetic, the encoders, the polynomial commitment and the prover",
     "The tests never modify a result and compare inputs afterwards; shared memory shows only then.",
     ["math/bigpoly/base_op.go", "math/bigpoly/cyclic.go", "math/bigpoly/cyclotomic.go", "jindo/prover.go", "jindo/encoder.go", "buckler/encoder.go", "buckler/prover.go"],
     [("proofs", "jindo/prover.go Prover.Evaluate"), ("division", "math/bigpoly/cyclic.go CyclicEvaluator.QuoRemByVanishing"), ("encodings", "buckler/encoder.go Encoder.Encode")])

NA = dict(claimed=False)
prop("N01", "Field arithmetic is exact for every element",
     "The operations of the prime fields (sum, difference, product, inverse, conversion from and to integers and bytes) give the residue that arithmetic modulo the field's prime defines, for every element.",
     ["inputs"], "all elements of the five fields",
     "Carries between limbs and final reductions fail for a vanishing part of the inputs.",
     ["buckler/internal/zp220/element.go", "jindo/internal/zp/element.go"],
     [("product", "buckler/internal/zp220/element_purego.go Element.Mul")], reason="the fields are generated code (gnark-crypto) partly in assembly, which the Go type-checker does not see, and exactness of the Montgomery carries is a bit-precise arithmetic fact that dataflow abstractions lose; it needs a solver or a proof. All other properties treat field operations as the operations of an abstract field", **NA)
prop("N02", "Accepted proofs are sound and zero-knowledge",
     "No feasible adversary makes the verifier accept a false statement, and proofs reveal nothing about the witnesses beyond the statement.",
     ["inputs", "configurations"], "all feasible adversaries",
     "A statement about all adversaries and probability distributions.",
     ["buckler/verifier.go", "jindo/verifier.go", "jindo/params.go"],
     [("verification", "buckler/verifier.go Verifier.Verify"), ("parameters", "jindo/params.go NewParameters")], reason="rests on the hardness of lattice problems and on probability arguments outside the program text; what the program must do for it is decided by J01-J08 and B01-B10", **NA)
prop("N03", "Samples are statistically close to the ideal Gaussian",
     "The statistical distance of the integer samplers' outputs, in 64-bit floating point, from the ideal discrete Gaussian is negligible for every deviation and center in use.",
     ["inputs"], "every deviation and center",
     "Distances of 2^-40 and less cannot be seen in samples.",
     ["math/csprng/gaussian_cosac.go", "math/csprng/gaussian_twin_cdt.go"],
     [("arbitrary center", "math/csprng/gaussian_cosac.go COSACSampler.Sample")], reason="a bound on accumulated floating-point error and on sums of tail probabilities is a numerical fact; the static analyses here decide that the formulas and tables are the prescribed ones (M05), not how exact their floating-point evaluation is", **NA)
prop("N04", "Operations take time and memory independent of secrets",
     "Running time and memory access patterns of the prover do not depend on the witness.",
     ["inputs"], "all witnesses",
     "Timing is not observable in tests.",
     ["jindo/prover.go", "math/csprng/gaussian_rounded.go"],
     [("sampling", "math/csprng/gaussian_rounded.go RoundedGaussianSampler.Sample")], reason="the code does not aim for it: samplers reject and branch on secret values and math/big is not constant-time, so the property does not hold by design and nothing is claimed", **NA)
