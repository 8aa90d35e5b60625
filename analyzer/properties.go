package main

var assumptions = []string{
	"the type-checked program is the default linux/amd64 build",
	"library models: lattigo ring operations act on ring elements as their names say; big.Int, SHAKE and the Fiat-Shamir transcript follow their documentation",
	"integers do not overflow and slices passed by callers are not aliased unless stated",
}

const ownershipWhat = "Ownership analysis: the storage that the methods reachable from each copied type write to is collected from the effects of their abstract interpretation, and the copy, built by abstract interpretation of the copying method, must own every such storage. "
const historyWhat = "Non-interference by dataflow: entry points that use one object several times are interpreted abstractly with the arguments of the earlier uses marked; the resulting value graph of every result of the last use is searched for the marked arguments, and none may occur in it. "

const separateWhat = "Ownership by dataflow: the memory reachable from every result of the functions that return objects is followed in the abstract store, and each reference in it must be to an object created by the call itself, not to memory of an argument, of the receiver or of a pooled buffer. "

const ringsWhat = "Typestate analysis over allocation sites: the ring of every ring element is the one that allocated it (for elements of inputs, the one used by the constructors of the input's type for that field), elements are followed through the abstract interpretation of the entry points and everything they call, and at each use in an operation of a ring, an encoder, a reconstructor or a basis extender the ring of the operand must be that of the operation. "
const vgraph = "The source of the analysed functions is interpreted abstractly into gated value graphs (phi-functions, loop summaries, SSA-like values over symbolic inputs) and normalised; the graph of every result, of the conditions under which the function returns at all, and the set of input locations written are compared with those of a reference formulation in /verif/spec. A missing function, a construct the interpreter does not resolve or any difference fails. "

const schedWhat = "Loop-nest dependence analysis of the transforms: the subscripts of every update are affine expressions of the loop counters, read from the source for all lengths 2^L at once; each stage is shown to update disjoint pairs that are those of the decimation network, with its factors, and the stages to follow each other without gap. "

var properties = []property{
	{id: "J01", title: "challenges", min: 3, what: vgraph,
		rules: []rule{unit("jindo", "Verify", "challenges"), unit("jindo", "Evaluate", "challenges")}},
	{id: "J02", title: "acceptance", min: 3, what: vgraph,
		rules: []rule{unit("jindo", "Verify", "verdict"), unit("jindo", "Decode", ""), unit("jindo", "Reconstruct", "")}},
	{id: "J03", title: "prover", min: 3, what: vgraph,
		rules: []rule{unit("jindo", "Commit", ""), unit("jindo", "Evaluate", "verdict"), unit("jindo", "SetBigCoeff", "")}},
	{id: "J04", title: "challenge encoding", min: 3, what: vgraph,
		rules: []rule{unit("jindo", "Challenge", ""), unit("jindo", "DivMod64", "")}},
	{id: "J05", title: "commitment key", min: 3, what: vgraph,
		rules: []rule{unit("jindo", "CommitKey", "")}},
	{id: "J06", title: "randomised encodings", min: 8, what: vgraph,
		rules: []rule{unit("jindo", "RandEncode", ""), unit("jindo", "Delta", ""), unit("jindo", "SetCoeffSigned", "")}},
	{id: "J07", title: "encodings", min: 8, what: vgraph,
		rules: []rule{unit("jindo", "Encode", ""), unit("jindo", "BaseEncode", ""), unit("jindo", "Decode", ""), unit("jindo", "DivMod64", "")}},
	{id: "J08", title: "parameter search", min: 12, what: vgraph, rules: units("jindo", "EncodeParams", "FindRank", "NewParams")},
	{id: "J09", title: "copies", min: 20, what: ownershipWhat + vgraph, rules: []rule{unit("jindo", "ProverCopy", ""),
		ownership(copier{"jindo", "Prover", "SafeCopy"}, copier{"jindo", "Encoder", "safeCopy"}, copier{"jindo", "RNSReconstructor", "safeCopy"}),
		ownership(copier{"math/csprng", "TwinCDTGaussianSampler", "SafeCopy"})}},
	{id: "J10", title: "rings", min: 60, what: ringsWhat + vgraph, rules: []rule{
		ringDiscipline("jindo", []string{"NewCommitment", "NewOpening", "NewProof", "NewCommitKey"}, "Commit", "Evaluate", "Verify", "Encode", "BaseEncode", "Decode", "RandEncode", "CopyCommit"),
		unit("jindo", "Commit", ""), unit("jindo", "Evaluate", ""), unit("jindo", "Verify", ""), unit("jindo", "ProverCopy", "")}},
	{id: "B01", title: "prover's transcript", min: 5, what: vgraph,
		rules: []rule{unit("buckler", "Prove", "")}},
	{id: "B02", title: "verifier", min: 5, what: vgraph,
		rules: []rule{unit("buckler", "Verify", ""), unit("buckler", "VrfEval", ""), unit("buckler", "VrfArith", ""), unit("buckler", "VrfSum", ""), unit("buckler", "VrfLin", "")}},
	{id: "B03", title: "prover", min: 5, what: vgraph,
		rules: []rule{unit("buckler", "PrvEval", ""), unit("buckler", "PrvMask", ""), unit("buckler", "PrvArith", ""), unit("buckler", "PrvSum", ""), unit("buckler", "PrvLin", "")}},
	{id: "B04", title: "constraint builders", min: 8, what: vgraph,
		rules: []rule{unit("buckler", "AddTerm", ""), unit("buckler", "PlusTerm", ""), unit("buckler", "MinusTerm", ""), unit("buckler", "MaxRank", ""), unit("buckler", "Batch", ""), unit("buckler", "CommitRank", ""),
			unit("buckler", "Arith", ""), unit("buckler", "Sum", ""), unit("buckler", "Lin", ""), unit("buckler", "WitnessID", "")}},
	{id: "B05", title: "norm constraints", min: 8, what: vgraph,
		rules: []rule{unit("buckler", "InfNorm", ""), unit("buckler", "SqNorm", ""), unit("buckler", "ApproxNorm", ""), unit("buckler", "NormsU", "")}},
	{id: "B06", title: "decompositions", min: 3, what: vgraph,
		rules: []rule{unit("buckler", "DcmpBase", ""), unit("buckler", "Dcmp", "")}},
	{id: "B07", title: "walks", min: 6, what: vgraph,
		rules: []rule{unit("buckler", "FirstWalk", ""), unit("buckler", "PrvWalk", ""), unit("buckler", "VrfWalk", ""), unit("buckler", "WitnessID", "")}},
	{id: "B08", title: "linear checkers", min: 20, what: vgraph,
		rules: []rule{unit("buckler", "Proj", ""), unit("buckler", "ProjMul", ""), unit("buckler", "ProjTr", ""), unit("buckler", "Recomp", ""), unit("buckler", "RecompTr", ""),
			unit("buckler", "NTTFwd", ""), unit("buckler", "NTTTr", ""), unit("buckler", "AutFwd", ""), unit("buckler", "AutTr", ""), unit("buckler", "ModInv", "")}},
	{id: "B09", title: "encoder", min: 3, what: vgraph,
		rules: []rule{unit("buckler", "Ecd", ""), unit("buckler", "EcdTo", ""), unit("buckler", "RandEcd", "")}},
	{id: "B11", title: "constants of constraints", min: 30, what: historyWhat + vgraph, rules: append(units("buckler", "AddTerm", "PlusTerm", "MinusTerm", "Arith", "Sum", "Lin", "InfNorm", "SqNorm", "ApproxNorm", "NormsU"),
		again("buckler", "Term", "Sum", "Arith", "InfNorm", "SqNorm", "ApproxNorm"))},
	{id: "B10", title: "compilation", min: 4, what: vgraph,
		rules: []rule{unit("buckler", "Compile", ""), unit("buckler", "CommitRank", ""), unit("buckler", "Batch", ""), unit("buckler", "MaxRank", "")}},
	{id: "J11", title: "history independence", min: 18, what: historyWhat, rules: []rule{again("jindo", "Encoder", "Reconstruct", "Prover", "Verifier", "KeepProver", "KeepEncoder")}},
	{id: "T01", title: "modulus search", min: 3, what: vgraph, rules: units("jindo-modulus", "FindModulus")},
	{id: "M01", title: "polynomial arithmetic", min: 60, what: vgraph, rules: bigpolyRules()},
	{id: "M02", title: "automorphisms", min: 10, what: vgraph,
		rules: []rule{unit("math/bigpoly", "Aut", ""), unit("math/bigpoly", "AutNTT", ""), unit("math/bigpoly", "AutNew", ""), unit("math/bigpoly", "AutIn", "")}},
	{id: "M03", title: "division, evaluation, modulus switch", min: 3, what: vgraph,
		rules: []rule{unit("math/bigpoly", "QuoRem", ""), unit("math/bigpoly", "EvalPoly", ""), unit("math/bigpoly", "ModSwitch", ""), unit("math/bigpoly", "ModSwitchNew", ""), unit("math/bignum", "Exp", "")}},
	{id: "M04", title: "transforms", min: 70, what: schedWhat + vgraph, rules: []rule{
		schedule("math/bigpoly", "CyclicTransformer", "FwdNTTTo", false), schedule("math/bigpoly", "CyclicTransformer", "InvNTTTo", true),
		schedule("math/bigpoly", "CyclotomicTransformer", "FwdNTTTo", false), schedule("math/bigpoly", "CyclotomicTransformer", "InvNTTTo", true),
		unit("math/bigpoly", "CyclicTr", ""), unit("math/bigpoly", "CyclotomicTr", "")}},
	{id: "M05", title: "samplers", min: 17, what: vgraph, rules: units("math/csprng", "UniNew", "UniSeed", "UniSample", "UniRead", "SampleN", "SampleFloat",
		"Density", "Tables", "Normal", "Rounded", "CDT", "TwinNew", "Twin", "TwinCoset", "TwinCopy", "COSAC", "GaussNew")},
	{id: "M06", title: "ownership of results", min: 50, what: separateWhat, rules: []rule{
		separate("jindo", "Encode", "Commit", "Evaluate", "CopyCommit", "Encoder.encode", "Prover.Commit", "Prover.Evaluate"),
		separate("buckler", "Ecd", "RandEcd", "Prove", "PrvArith", "PrvSum", "PrvLin", "PrvMask", "Encoder.Encode", "Encoder.RandEncode"),
		separate("math/bigpoly", "CyclicAddNew", "CyclicMulNew", "CyclicSubNew", "CyclicNegNew", "CyclicScalarMulNew", "CyclicNTTNew", "CyclicInvNTTNew", "QuoRem", "AutNew", "ModSwitchNew", "EvalPoly",
			"CyclotomicAddNew", "CyclotomicMulNew", "CyclotomicSubNew", "CyclotomicNegNew", "CyclotomicScalarMulNew", "CyclotomicNTTNew", "CyclotomicInvNTTNew",
			"CyclicEvaluator.Add", "CyclicEvaluator.Sub", "CyclicEvaluator.Neg", "CyclicEvaluator.Mul", "CyclicEvaluator.ScalarMul", "CyclicEvaluator.QuoRemByVanishing", "CyclotomicEvaluator.Mul")}},
}

func units(pkg string, names ...string) []rule {
	var out []rule
	for _, n := range names {
		out = append(out, unit(pkg, n, ""))
	}
	return out
}

func bigpolyRules() []rule {
	var out []rule
	names := []string{"VecAdd", "Vec", "NewPoly", "Marshal", "CopyFrom", "Clear", "CyclicNew", "CyclotomicNew"}
	for _, op := range []string{"Neg", "ScalarMul", "ScalarMulAdd", "ScalarMulSub"} {
		names = append(names, "Cyclic"+op, "Cyclic"+op+"In", "Cyclotomic"+op)
	}
	for _, op := range []string{"Add", "Sub", "Mul", "MulAdd", "MulSub"} {
		names = append(names, "Cyclic"+op, "Cyclic"+op+"L", "Cyclic"+op+"R", "Cyclic"+op+"Sq", "Cyclotomic"+op)
	}
	for _, op := range []string{"NTT", "InvNTT"} {
		names = append(names, "Cyclic"+op, "Cyclic"+op+"In", "Cyclic"+op+"New", "Cyclotomic"+op, "Cyclotomic"+op+"In", "Cyclotomic"+op+"New")
	}
	for _, op := range []string{"Add", "Sub", "Mul", "Neg", "ScalarMul"} {
		names = append(names, "Cyclic"+op+"New", "Cyclotomic"+op+"New")
	}
	for _, n := range names {
		out = append(out, unit("math/bigpoly", n, ""))
	}
	return out
}
