//overlay util/shuffle
package shuffle

import (
	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
	"github.com/dedis/crypto/random"
)

// specOrder is an intrinsic: the verifier's transcript is filled with given values
func specOrder() string { return "" }

// A prover's private randomness is drawn, its challenges are given.
func specPriList(v []abstract.Secret) {
	suite := nist.NewAES128SHA256QR512()
	for i := range v {
		v[i] = suite.Secret().Pick(random.Stream)
	}
}

func specPriOne(v *abstract.Secret) { *v = nist.NewAES128SHA256QR512().Secret().Pick(random.Stream) }

var specRho []abstract.Secret
var specLambda, specT, specC abstract.Secret

func specPub_ega2(v *ega2) { v.Zrho = specRho }
func specPub_ega4(v *ega4) { v.Zlambda = specLambda }
func specPub_ssa1(v *ssa1) { v.Zt = specT }
func specPub_ssa3(v *ssa3) { v.Zc = specC }

// specPathProve: how the shuffle's prover is used
func specPathProve(suite abstract.Suite, g, h abstract.Point, pi []int, beta []abstract.Secret, X, Y []abstract.Point, rho []abstract.Secret, lambda, t, c abstract.Secret, ctx proof.ProverContext) error {
	if len(rho) != len(X) || len(Y) != len(X) {
		return nil
	}
	specRho, specLambda, specT, specC = rho, lambda, t, c
	ps := new(PairShuffle)
	ps.Init(suite, len(X))
	return ps.Prove(pi, g, h, beta, X, Y, random.Stream, ctx)
}

// specPathVerify: how the shuffle's verifier is used
func specPathVerify(suite abstract.Suite, g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, ctx proof.VerifierContext) error {
	return Verifier(suite, g, h, X, Y, Xbar, Ybar)(ctx)
}
