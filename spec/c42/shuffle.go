//overlay util/shuffle
package shuffle

import (
	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// The intrinsics below give the items of the proof transcript in the order in
// which the verifier takes them: what it reads from the prover and what it
// draws as public randomness.

// specOrder: for every item in turn, G if it was read, R if it was drawn
func specOrder() string { return "" }

// specReadAll: no read or draw failed
func specReadAll() bool { return false }

func specPoint(n int) abstract.Point      { return nil }
func specPoints(n int) []abstract.Point   { return nil }
func specSecret(n int) abstract.Secret    { return nil }
func specSecrets(n int) []abstract.Secret { return nil }

// the items of Neff's protocol
const (
	sGamma = iota
	sA
	sC
	sU
	sW
	sLambda1
	sLambda2
	sRho
	sD
	sLambda
	sSigma
	sTau
	sX
	sY
	sT
	sTheta
	sChal
	sAlpha
)

// the k-shuffle is about R = A*B^lambda and S = C*D^lambda; equation (33)
func specPair(suite abstract.Suite, g abstract.Point, i int) bool {
	B := suite.Point().Sub(suite.Point().Mul(g, specSecrets(sRho)[i]), specPoints(sU)[i])
	R := suite.Point().Add(specPoints(sA)[i], suite.Point().Mul(B, specSecret(sLambda)))
	S := suite.Point().Add(specPoints(sC)[i], suite.Point().Mul(specPoints(sD)[i], specSecret(sLambda)))
	return suite.Point().Mul(specPoint(sGamma), specSecrets(sSigma)[i]).Equal(
		suite.Point().Add(specPoints(sW)[i], specPoints(sD)[i])) &&
		R.Equal(specPoints(sX)[i]) && S.Equal(specPoints(sY)[i])
}

// equations (34) and (35)
func specSums(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point) bool {
	phi1, phi2 := suite.Point().Null(), suite.Point().Null()
	for i := range X {
		phi1.Add(phi1, suite.Point().Sub(suite.Point().Mul(Xbar[i], specSecrets(sSigma)[i]), suite.Point().Mul(X[i], specSecrets(sRho)[i])))
		phi2.Add(phi2, suite.Point().Sub(suite.Point().Mul(Ybar[i], specSecrets(sSigma)[i]), suite.Point().Mul(Y[i], specSecrets(sRho)[i])))
	}
	return suite.Point().Add(specPoint(sLambda1), suite.Point().Mul(g, specSecret(sTau))).Equal(phi1) &&
		suite.Point().Add(specPoint(sLambda2), suite.Point().Mul(h, specSecret(sTau))).Equal(phi2)
}

// the first k equations of the simple k-shuffle
func specLow(suite abstract.Suite, g abstract.Point, i int, a, b abstract.Secret) bool {
	P := suite.Point().Sub(specPoints(sX)[i], suite.Point().Mul(g, specSecret(sT)))
	Q := suite.Point().Sub(specPoints(sY)[i], suite.Point().Mul(specPoint(sGamma), specSecret(sT)))
	return suite.Point().Sub(suite.Point().Mul(P, a), suite.Point().Mul(Q, b)).Equal(specPoints(sTheta)[i])
}

// the other k
func specHigh(suite abstract.Suite, g abstract.Point, i int, a, b abstract.Secret) bool {
	return suite.Point().Sub(suite.Point().Mul(specPoint(sGamma), a), suite.Point().Mul(g, b)).Equal(specPoints(sTheta)[i])
}

// specRangeAccepts: a transcript that satisfies every equation is accepted
func specRangeAccepts(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	k := len(X)
	if k < 2 || len(Y) != k || len(Xbar) != k || len(Ybar) != k {
		return true
	}
	if Verifier(suite, g, h, X, Y, Xbar, Ybar)(ctx) == nil {
		return true
	}
	alpha := specSecrets(sAlpha)
	good := specReadAll()
	for i := 0; i < k; i++ {
		good = good && specPair(suite, g, i)
	}
	good = good && specSums(suite, g, h, X, Y, Xbar, Ybar) && specLow(suite, g, 0, specSecret(sChal), alpha[0])
	for i := 1; i < k; i++ {
		good = good && specLow(suite, g, i, alpha[i-1], alpha[i])
	}
	for i := k; i < 2*k-1; i++ {
		good = good && specHigh(suite, g, i, alpha[i-1], alpha[i])
	}
	good = good && specHigh(suite, g, 2*k-1, alpha[2*k-2], specSecret(sChal))
	return !good
}

// The same with the standard base point for g, as the roles use it
func specRangeAcceptsBase(suite abstract.Suite, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) bool {
	return specRangeAccepts(suite, nil, h, X, Y, Xbar, Ybar, ctx)
}

// The prover's side: after specHonest the transcript holds what an honest
// prover put in, for challenges that can be anything.

func specHonest(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) ([]abstract.Point, []abstract.Point, bool) {
	Xbar, Ybar, prover, _, _ := Shuffle(suite, g, h, X, Y, suite.Cipher(abstract.RandomKey))
	return Xbar, Ybar, prover(ctx) == nil
}

// specRangeHonestOrder: the prover gets through and puts in all that is read
func specRangeHonestOrder(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	k := len(X)
	if k < 2 || len(Y) != k {
		return true
	}
	Xbar, Ybar, ok := specHonest(suite, g, h, X, Y, ctx)
	return ok && specOrder() == "GGGGGGGRGRGGGGRGRG" && len(Xbar) == k && len(Ybar) == k && len(specPoints(sA)) == k && len(specPoints(sC)) == k && len(specPoints(sU)) == k && len(specPoints(sW)) == k &&
		len(specSecrets(sRho)) == k && len(specPoints(sD)) == k && len(specSecrets(sSigma)) == k &&
		len(specPoints(sX)) == k && len(specPoints(sY)) == k &&
		len(specPoints(sTheta)) == 2*k && len(specSecrets(sAlpha)) == 2*k-1
}

func specPartialHonestPair(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, i int) bool {
	specHonest(suite, g, h, X, Y, ctx)
	return i < 0 || i >= len(X) || specPair(suite, g, i)
}

func specPartialHonestSums(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	Xbar, Ybar, _ := specHonest(suite, g, h, X, Y, ctx)
	return specSums(suite, g, h, X, Y, Xbar, Ybar)
}

func specPartialHonestFirst(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	specHonest(suite, g, h, X, Y, ctx)
	return specLow(suite, g, 0, specSecret(sChal), specSecrets(sAlpha)[0])
}

func specPartialHonestLow(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, i int) bool {
	specHonest(suite, g, h, X, Y, ctx)
	return i < 1 || i >= len(X) || specLow(suite, g, i, specSecrets(sAlpha)[i-1], specSecrets(sAlpha)[i])
}

// specExponent: the power of base that p is
func specExponent(p, base abstract.Point) abstract.Secret { return nil }

// specXhat and specYhat: the exponents of X[i] - t and Y[i] - gamma*t
func specXhat(suite abstract.Suite, base abstract.Point, i int) abstract.Secret {
	return suite.Secret().Sub(specExponent(specPoints(sX)[i], base), specSecret(sT))
}

func specYhat(suite abstract.Suite, base abstract.Point, i int) abstract.Secret {
	gamma := specExponent(specPoint(sGamma), base)
	return suite.Secret().Sub(specExponent(specPoints(sY)[i], base), suite.Secret().Mul(gamma, specSecret(sT)))
}

// specPartialHonestMiddle: where the two halves of the simple shuffle meet, the
// equation comes down to gamma * c * prod xhat/yhat = c * gamma^-(k-1)
func specPartialHonestMiddle(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	specHonest(suite, g, h, X, Y, ctx)
	k := len(X)
	base := suite.Point().Mul(g, suite.Secret().One())
	gamma := specExponent(specPoint(sGamma), base)
	first := suite.Secret().Set(specSecret(sChal))
	for i := 0; i < k; i++ {
		first.Mul(first, specXhat(suite, base, i))
		first.Div(first, specYhat(suite, base, i))
	}
	second := suite.Secret().Set(specSecret(sChal))
	inv := suite.Secret().Inv(gamma)
	for i := 1; i < k; i++ {
		second.Mul(second, inv)
	}
	alpha := specSecrets(sAlpha)
	left := suite.Point().Sub(suite.Point().Mul(specPoint(sGamma), alpha[k-1]), suite.Point().Mul(g, alpha[k]))
	rest := suite.Secret().Sub(suite.Secret().Mul(gamma, first), second)
	return left.Equal(suite.Point().Add(specPoints(sTheta)[k], suite.Point().Mul(g, rest)))
}

// which it does because the yhat are the gamma * xhat in another order:
// every yhat is one of them, and every one of them a yhat

func specPartialHonestFrom(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, i int) bool {
	specHonest(suite, g, h, X, Y, ctx)
	if i < 0 || i >= len(X) {
		return true
	}
	found := false
	for j := range X {
		if suite.Point().Mul(specPoints(sX)[j], specExponent(specPoint(sGamma), suite.Point().Mul(g, suite.Secret().One()))).Equal(specPoints(sY)[i]) {
			found = true
		}
	}
	return found
}

func specPartialHonestTo(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, j int) bool {
	specHonest(suite, g, h, X, Y, ctx)
	if j < 0 || j >= len(X) {
		return true
	}
	found := false
	for i := range X {
		if suite.Point().Mul(specPoints(sX)[j], specExponent(specPoint(sGamma), suite.Point().Mul(g, suite.Secret().One()))).Equal(specPoints(sY)[i]) {
			found = true
		}
	}
	return found
}

func specPartialHonestHigh(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, i int) bool {
	specHonest(suite, g, h, X, Y, ctx)
	k := len(X)
	return i <= k || i >= 2*k-1 || specHigh(suite, g, i, specSecrets(sAlpha)[i-1], specSecrets(sAlpha)[i])
}

func specPartialHonestLast(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	specHonest(suite, g, h, X, Y, ctx)
	k := len(X)
	return specHigh(suite, g, 2*k-1, specSecrets(sAlpha)[2*k-2], specSecret(sChal))
}

// The same with the standard base point for g, as the roles use it

func specPartialHonestPairBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, i int) bool {
	return specPartialHonestPair(suite, nil, h, X, Y, ctx, i)
}

func specPartialHonestSumsBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	return specPartialHonestSums(suite, nil, h, X, Y, ctx)
}

func specPartialHonestFirstBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	return specPartialHonestFirst(suite, nil, h, X, Y, ctx)
}

func specPartialHonestLowBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, i int) bool {
	return specPartialHonestLow(suite, nil, h, X, Y, ctx, i)
}

func specPartialHonestMiddleBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	return specPartialHonestMiddle(suite, nil, h, X, Y, ctx)
}

func specPartialHonestHighBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, i int) bool {
	return specPartialHonestHigh(suite, nil, h, X, Y, ctx, i)
}

func specPartialHonestLastBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext) bool {
	return specPartialHonestLast(suite, nil, h, X, Y, ctx)
}

func specPartialHonestFromBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, i int) bool {
	return specPartialHonestFrom(suite, nil, h, X, Y, ctx, i)
}

func specPartialHonestToBase(suite abstract.Suite, h abstract.Point, X, Y []abstract.Point, ctx proof.ProverContext, j int) bool {
	return specPartialHonestTo(suite, nil, h, X, Y, ctx, j)
}
