//overlay util/shuffle
package shuffle

import (
	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
	"github.com/dedis/crypto/random"

	"zRep/util"
)

// specUniform is an intrinsic: p depends on one random order, and every order
// is as likely
func specUniform(p abstract.Point) bool { return false }

// the order and the masks of a shuffle are drawn
func specRawPartialOrder(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, i int) bool {
	XX, _, _, XXX, _ := Shuffle(suite, g, h, X, Y, suite.Cipher(abstract.RandomKey))
	if i < 0 || i >= len(X) {
		return true
	}
	b := util.SpecExponent(XXX[i], g)
	return util.SpecDrawn(b, i) && specUniform(suite.Point().Sub(XX[i], XXX[i]))
}

func specDrawn(s abstract.Secret, i int) bool { return false }

func specOther(a, b abstract.Secret) bool { return false }

func specExponent(out, in abstract.Point) abstract.Secret { return nil }

// A prover's private randomness is drawn.
func specPriList(v []abstract.Secret) {
	suite := nist.NewAES128SHA256QR512()
	for i := range v {
		v[i] = suite.Secret().Pick(random.Stream)
	}
}

func specPriOne(v *abstract.Secret) { *v = nist.NewAES128SHA256QR512().Secret().Pick(random.Stream) }

// Challenges are given; the last is zero, for which a response is its mask.
var specRho []abstract.Secret
var specLambda, specT abstract.Secret

func specPub_ega2(v *ega2) { v.Zrho = specRho }
func specPub_ega4(v *ega4) { v.Zlambda = specLambda }
func specPub_ssa1(v *ssa1) { v.Zt = specT }
func specPub_ssa3(v *ssa3) { v.Zc = nist.NewAES128SHA256QR512().Secret().Zero() }

// every secret of a shuffle's proof hides under a draw of its own
func specPartialProof(suite abstract.Suite, g, h abstract.Point, pi []int, beta []abstract.Secret, X, Y []abstract.Point, rho []abstract.Secret, lambda, t abstract.Secret, ctx proof.ProverContext, i, j int) bool {
	k := len(X)
	if len(rho) != k || len(Y) != k {
		return true
	}
	specRho, specLambda, specT = rho, lambda, t
	ps := new(PairShuffle)
	ps.Init(suite, k)
	if ps.Prove(pi, g, h, beta, X, Y, random.Stream, ctx) != nil {
		return true
	}
	if i < 0 || i >= k || j < 0 || j >= len(ps.pv6.p4.Zalpha) {
		return true
	}
	u := specExponent(ps.p1.U[i], g)
	a := specExponent(ps.p1.A[i], g)
	gamma := specExponent(ps.p1.Gamma, g)
	w := suite.Secret().Sub(rho[pi[i]], specExponent(ps.p1.U[pi[i]], g))
	w.Sub(ps.p5.Zsigma[i], w)
	m := ps.pv6.p4.Zalpha[j]
	tau := suite.Secret().Neg(ps.p5.Ztau)
	for l := 0; l < k; l++ {
		b := suite.Secret().Sub(rho[l], specExponent(ps.p1.U[l], g))
		tau.Add(tau, b.Mul(b, beta[l]))
	}
	return specDrawn(tau, -1) && specOther(tau, u) && specOther(tau, a) && specOther(tau, w) && specOther(tau, gamma) && specOther(tau, m) &&
		specDrawn(u, i) && specDrawn(a, i) && specDrawn(w, i) && specDrawn(gamma, -1) && specDrawn(m, j) &&
		specOther(u, a) && specOther(u, w) && specOther(u, gamma) && specOther(u, m) && specOther(a, w) &&
		specOther(a, gamma) && specOther(a, m) && specOther(w, gamma) && specOther(w, m) && specOther(gamma, m)
}
