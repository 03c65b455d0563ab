package main

// The properties of the primitives are decided by evaluating specification
// functions (spec/*) together with the repository's code they call, for
// arbitrary arguments.

type harnessSet struct {
	pkg     string
	targets map[string]string
}

func primCheck(rule string, n int, sets ...harnessSet) func(p *Program, r *Report) {
	return func(p *Program, r *Report) {
		for _, s := range sets {
			r.harness(p, rule, s.pkg, s.targets)
		}
		r.atLeast(rule, n)
	}
}

const primExpl = "The specification functions listed under instances call the repository's code; value numbering over its SSA form (arithmetic, group, hash and codec operations in normal form, loops as closed forms) shows that each of them returns true for every argument and on every path. "

func init() {
	const (
		ped = "zRep/primitive/pedersen"
		fo  = "zRep/primitive/fujiokam"
		pf  = "zRep/primitive/pedersen_fujiokam"
		lrs = "zRep/primitive/lrs"
		ut  = "zRep/util"
		br  = "zRep/cmd/bridge"
	)
	checks["C01"] = checkDef{[]string{"c01"}, primCheck("an honest signature verifies", 3, harnessSet{ut, map[string]string{
		"specSign": "ElGamalSign", "specTwice": "ElGamalVerify", "specSignBase": "ElGamalSign"}}), primExpl}
	checks["C02"] = checkDef{[]string{"c02"}, primCheck("verification is exactly the signature equation", 1, harnessSet{ut, map[string]string{
		"specVerifyExact": "ElGamalVerify"}}), primExpl}
	checks["C05"] = checkDef{[]string{"c05"}, primCheck("commitments open and are homomorphic", 8, harnessSet{ped, map[string]string{
		"specCommitWithR": "PedersenBase.CommitWithR", "specCommit": "PedersenBase.Commit", "specVerify": "PedersenBase.Verify",
		"specAdd": "PedersenBase.Add", "specSub": "PedersenBase.Sub", "specAddPoints": "PedersenBase.Add", "specSubPoints": "PedersenBase.Sub",
		"specRandomize": "PedersenBase.Randomize"}}), primExpl}
	checks["C06"] = checkDef{[]string{"c06"}, primCheck("an honest non-negativity proof is accepted", 5, harnessSet{fo, map[string]string{
		"specCommit": "FujiOkamBase.Commit", "specCommitWithR": "FujiOkamBase.CommitWithR", "specPartialSquares": "decomposeThreeSquare",
		"specPartialNonneg": "FujiOkamBase.ProveNonneg", "specPartialNonnegKeeps": "FujiOkamBase.ProveNonneg"}}), primExpl}
	checks["C07"] = checkDef{[]string{"c07"}, primCheck("acceptance implies both equations", 1, harnessSet{fo, map[string]string{
		"specAcceptsOnlyIf": "FujiOkamBase.VerifyNonneg"}}), primExpl}
	checks["C08"] = checkDef{[]string{"c08"}, primCheck("an honest equality proof is accepted", 1, harnessSet{pf, map[string]string{
		"specEqual": "ProveEqual"}}), primExpl}
	checks["C09"] = checkDef{[]string{"c09"}, primCheck("acceptance implies the bound challenge", 1, harnessSet{pf, map[string]string{
		"specAcceptsOnlyIf": "VerifyEqual"}}), primExpl}
	checks["C10"] = checkDef{[]string{"c10"}, primCheck("the honesty proof is complete and checks everything", 4, harnessSet{fo, map[string]string{
		"specPartialGenerators": "CreateBaseFromSuite", "specPartialComplete": "FujiOkamBase.AnswerAllGnHonesty",
		"specSound": "FujiOkamBase.CheckAllGnHonesty", "specChallengeSize": "FujiOkamBase.ChallengeAllGnHonesty"}}), primExpl}
	checks["C11"] = checkDef{[]string{"c11"}, primCheck("ring signatures verify and link", 5, harnessSet{lrs, map[string]string{
		"specSign": "LRSBase.SignHelper", "specSignPoints": "LRSBase.Sign", "specTag": "LRSBase.SignHelper",
		"specLinkable": "Linkable", "specKeeps": "LRSBase.SignHelper"}}), primExpl}
	checks["C12"] = checkDef{[]string{"c12"}, primCheck("acceptance implies the ring equation", 2, harnessSet{lrs, map[string]string{
		"specAcceptsOnlyIf": "LRSBase.VerifyHelper", "specPointsOnlyIf": "LRSBase.Verify"}}), primExpl}
	checks["C13"] = checkDef{[]string{"common", "c13"}, primCheck("the outputs are the permuted inputs with fresh masks", 6, harnessSet{shufPkg, map[string]string{
		"specPartialSizes": "Shuffle", "specPartialOut": "Shuffle", "specPartialIn": "Shuffle", "specPartialMask": "Shuffle",
		"specPartialKeeps": "Shuffle", "specPartialApart": "Shuffle"}}), primExpl}
	checks["C14"] = checkDef{[]string{"c14"}, primCheck("acceptance implies the equations of the protocol", 13, harnessSet{shufPkg, map[string]string{
		"specPartialTranscript": "PairShuffle.Verify", "specPartialPairs": "PairShuffle.Verify", "specPartialSums": "PairShuffle.Verify",
		"specPartialSimpleFirst": "SimpleShuffle.Verify", "specPartialSimpleLow": "SimpleShuffle.Verify",
		"specPartialSimpleHigh": "SimpleShuffle.Verify", "specPartialSimpleLast": "SimpleShuffle.Verify",
		"specPartialPairsBase": "PairShuffle.Verify", "specPartialSumsBase": "PairShuffle.Verify",
		"specPartialSimpleFirstBase": "SimpleShuffle.Verify", "specPartialSimpleLowBase": "SimpleShuffle.Verify",
		"specPartialSimpleHighBase": "SimpleShuffle.Verify", "specPartialSimpleLastBase": "SimpleShuffle.Verify"}}), primExpl}
	checks["C42"] = checkDef{[]string{"c42"}, primCheck("an honest shuffle proof is accepted", 21, harnessSet{shufPkg, map[string]string{
		"specRangeHonestOrder": "PairShuffle.Prove", "specPartialHonestPair": "PairShuffle.Prove", "specPartialHonestPairBase": "PairShuffle.Prove", "specPartialHonestSums": "PairShuffle.Prove", "specPartialHonestSumsBase": "PairShuffle.Prove", "specPartialHonestFrom": "PairShuffle.Prove", "specPartialHonestFromBase": "PairShuffle.Prove", "specPartialHonestTo": "PairShuffle.Prove", "specPartialHonestToBase": "PairShuffle.Prove", "specPartialHonestFirst": "SimpleShuffle.Prove", "specPartialHonestFirstBase": "SimpleShuffle.Prove", "specPartialHonestLow": "SimpleShuffle.Prove", "specPartialHonestLowBase": "SimpleShuffle.Prove", "specPartialHonestMiddle": "SimpleShuffle.Prove", "specPartialHonestMiddleBase": "SimpleShuffle.Prove", "specPartialHonestHigh": "SimpleShuffle.Prove", "specPartialHonestHighBase": "SimpleShuffle.Prove", "specPartialHonestLast": "SimpleShuffle.Prove", "specPartialHonestLastBase": "SimpleShuffle.Prove",
		"specRangeAccepts": "PairShuffle.Verify", "specRangeAcceptsBase": "PairShuffle.Verify"}}), primExpl}
	checks["C17"] = checkDef{[]string{"c17"}, primCheck("decoding an encoding gives the value back", 17,
		harnessSet{ut, map[string]string{
			"specPointList": "ProtobufDecodePointList", "specSecretList": "ProtobufDecodeSecretList", "specBoolList": "ProtobufDecodeBoolList",
			"specBigIntList": "ProtobufDecodeBigIntList", "specIntArray": "DecodeIntArray", "spec2DByteArray": "Decode2DByteArray",
			"specBigInt": "DecodeBigInt", "specPoint": "DecodePoint", "specSecret": "DecodeSecret", "specPointBigInt": "BigIntToPoint",
			"specSecretBigInt": "BigIntToSecret", "specARGnonneg": "DecodeARGnonneg", "specARGequal": "DecodeARGequal", "specIntByte": "ByteToInt"}},
		harnessSet{br, map[string]string{"specAssignment": "DecodeAssignment", "specAssignmentList": "DecodeAssignmentList"}},
		harnessSet{lrs, map[string]string{"specSignature": "ProtobufDecodeSignature"}}), primExpl}
}
