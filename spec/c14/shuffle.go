//overlay util/shuffle
package shuffle

import (
	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// The intrinsics below give the items of the proof transcript in the order in
// which the verifier takes them: what it reads from the prover and what it
// draws as public randomness.

// specOrder: for every item in turn, G if it was read, R if it was drawn
func specOrder() string { return "" }

// specReadAll: no read or draw failed
func specReadAll() bool { return false }

func specPoint(n int) abstract.Point      { return nil }
func specPoints(n int) []abstract.Point   { return nil }
func specSecret(n int) abstract.Secret    { return nil }
func specSecrets(n int) []abstract.Secret { return nil }

// the items of Neff's protocol
const (
	sGamma = iota
	sA
	sC
	sU
	sW
	sLambda1
	sLambda2
	sRho
	sD
	sLambda
	sSigma
	sTau
	sX
	sY
	sT
	sTheta
	sChal
	sAlpha
)

func specVerify(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	return Verifier(suite, g, h, X, Y, Xbar, Ybar)(ctx) == nil
}

// specPartialTranscript: what acceptance says about the tables and the transcript
func specPartialTranscript(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	if !specVerify(suite, g, h, X, Y, Xbar, Ybar, ctx) {
		return true
	}
	k := len(X)
	return specOrder() == "GGGGGGGRGRGGGGRGRG" && specReadAll() &&
		len(Y) == k && len(Xbar) == k && len(Ybar) == k &&
		len(specPoints(sA)) == k && len(specPoints(sC)) == k && len(specPoints(sU)) == k && len(specPoints(sW)) == k &&
		len(specSecrets(sRho)) == k && len(specPoints(sD)) == k && len(specSecrets(sSigma)) == k &&
		len(specPoints(sX)) == k && len(specPoints(sY)) == k &&
		len(specPoints(sTheta)) == 2*k && len(specSecrets(sAlpha)) == 2*k-1
}

// specPartialPairs: equation (33), and what the simple shuffle is about
func specPartialPairs(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext, i int) bool {
	if !specVerify(suite, g, h, X, Y, Xbar, Ybar, ctx) || i < 0 || i >= len(X) {
		return true
	}
	B := suite.Point().Sub(suite.Point().Mul(g, specSecrets(sRho)[i]), specPoints(sU)[i])
	R := suite.Point().Add(specPoints(sA)[i], suite.Point().Mul(B, specSecret(sLambda)))
	S := suite.Point().Add(specPoints(sC)[i], suite.Point().Mul(specPoints(sD)[i], specSecret(sLambda)))
	return suite.Point().Mul(specPoint(sGamma), specSecrets(sSigma)[i]).Equal(
		suite.Point().Add(specPoints(sW)[i], specPoints(sD)[i])) &&
		R.Equal(specPoints(sX)[i]) && S.Equal(specPoints(sY)[i])
}

// specPartialSums: equations (34) and (35)
func specPartialSums(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	if !specVerify(suite, g, h, X, Y, Xbar, Ybar, ctx) {
		return true
	}
	phi1, phi2 := suite.Point().Null(), suite.Point().Null()
	for i := range X {
		phi1.Add(phi1, suite.Point().Sub(suite.Point().Mul(Xbar[i], specSecrets(sSigma)[i]), suite.Point().Mul(X[i], specSecrets(sRho)[i])))
		phi2.Add(phi2, suite.Point().Sub(suite.Point().Mul(Ybar[i], specSecrets(sSigma)[i]), suite.Point().Mul(Y[i], specSecrets(sRho)[i])))
	}
	return suite.Point().Add(specPoint(sLambda1), suite.Point().Mul(g, specSecret(sTau))).Equal(phi1) &&
		suite.Point().Add(specPoint(sLambda2), suite.Point().Mul(h, specSecret(sTau))).Equal(phi2)
}

// The simple k-shuffle has 2k equations

func specSimple(suite abstract.Suite, g abstract.Point, i int, a, b abstract.Secret) bool {
	P := suite.Point().Sub(specPoints(sX)[i], suite.Point().Mul(g, specSecret(sT)))
	Q := suite.Point().Sub(specPoints(sY)[i], suite.Point().Mul(specPoint(sGamma), specSecret(sT)))
	return suite.Point().Sub(suite.Point().Mul(P, a), suite.Point().Mul(Q, b)).Equal(specPoints(sTheta)[i])
}

func specPartialSimpleFirst(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	if !specVerify(suite, g, h, X, Y, Xbar, Ybar, ctx) {
		return true
	}
	return specSimple(suite, g, 0, specSecret(sChal), specSecrets(sAlpha)[0])
}

func specPartialSimpleLow(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext, i int) bool {
	if !specVerify(suite, g, h, X, Y, Xbar, Ybar, ctx) || i < 1 || i >= len(X) {
		return true
	}
	return specSimple(suite, g, i, specSecrets(sAlpha)[i-1], specSecrets(sAlpha)[i])
}

func specPartialSimpleHigh(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext, i int) bool {
	k := len(X)
	if !specVerify(suite, g, h, X, Y, Xbar, Ybar, ctx) || i < k || i >= 2*k-1 {
		return true
	}
	return suite.Point().Sub(suite.Point().Mul(specPoint(sGamma), specSecrets(sAlpha)[i-1]),
		suite.Point().Mul(g, specSecrets(sAlpha)[i])).Equal(specPoints(sTheta)[i])
}

func specPartialSimpleLast(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	k := len(X)
	if !specVerify(suite, g, h, X, Y, Xbar, Ybar, ctx) {
		return true
	}
	return suite.Point().Sub(suite.Point().Mul(specPoint(sGamma), specSecrets(sAlpha)[2*k-2]),
		suite.Point().Mul(g, specSecret(sChal))).Equal(specPoints(sTheta)[2*k-1])
}

// The same with the standard base point for g, as the roles use it

func specPartialPairsBase(suite abstract.Suite, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext, i int) bool {
	return specPartialPairs(suite, nil, h, X, Y, Xbar, Ybar, ctx, i)
}

func specPartialSumsBase(suite abstract.Suite, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	return specPartialSums(suite, nil, h, X, Y, Xbar, Ybar, ctx)
}

func specPartialSimpleFirstBase(suite abstract.Suite, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	return specPartialSimpleFirst(suite, nil, h, X, Y, Xbar, Ybar, ctx)
}

func specPartialSimpleLowBase(suite abstract.Suite, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext, i int) bool {
	return specPartialSimpleLow(suite, nil, h, X, Y, Xbar, Ybar, ctx, i)
}

func specPartialSimpleHighBase(suite abstract.Suite, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext, i int) bool {
	return specPartialSimpleHigh(suite, nil, h, X, Y, Xbar, Ybar, ctx, i)
}

func specPartialSimpleLastBase(suite abstract.Suite, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	return specPartialSimpleLast(suite, nil, h, X, Y, Xbar, Ybar, ctx)
}
