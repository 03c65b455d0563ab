package shuffle

import (
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
)

// a prover whose output pairs are the squares of its input pairs
func TestForge(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	rand := suite.Cipher(abstract.RandomKey)
	k := 3
	h := suite.Point().Mul(nil, suite.Secret().Pick(rand))
	X := make([]abstract.Point, k)
	Y := make([]abstract.Point, k)
	Xb := make([]abstract.Point, k)
	Yb := make([]abstract.Point, k)
	beta := make([]abstract.Secret, k)
	two := suite.Secret().SetInt64(2)
	half := suite.Secret().Inv(two)
	for i := range X {
		X[i] = suite.Point().Mul(nil, suite.Secret().Pick(rand))
		Y[i] = suite.Point().Mul(nil, suite.Secret().Pick(rand))
		beta[i] = suite.Secret().Pick(rand)
		Xb[i] = suite.Point().Mul(nil, beta[i])
		Xb[i].Add(Xb[i], suite.Point().Mul(X[i], two))
		Yb[i] = suite.Point().Mul(h, beta[i])
		Yb[i].Add(Yb[i], suite.Point().Mul(Y[i], two))
	}
	ps := PairShuffle{}
	ps.Init(suite, k)
	prover := func(ctx proof.ProverContext) error {
		w := make([]abstract.Secret, k)
		x := make([]abstract.Secret, k)
		y := make([]abstract.Secret, k)
		gamma := suite.Secret().Pick(rand)
		l := suite.Secret().Pick(rand)
		p1 := &ps.p1
		p1.Gamma = suite.Point().Mul(nil, gamma)
		p1.Lambda1 = suite.Point().Mul(nil, l)
		p1.Lambda2 = suite.Point().Mul(h, l)
		for i := range w {
			w[i] = suite.Secret().Pick(rand)
			x[i] = suite.Secret().Pick(rand)
			y[i] = suite.Secret().Mul(gamma, x[i])
			ww := suite.Secret().Mul(two, w[i])
			p1.Lambda1.Add(p1.Lambda1, suite.Point().Mul(X[i], ww))
			p1.Lambda2.Add(p1.Lambda2, suite.Point().Mul(Y[i], ww))
			p1.A[i] = suite.Point().Mul(nil, w[i])
			p1.C[i] = p1.A[i]
			p1.U[i] = p1.A[i]
			p1.W[i] = p1.A[i]
		}
		if err := ctx.Put(p1); err != nil {
			return err
		}
		if err := ctx.PubRand(&ps.v2); err != nil {
			return err
		}
		ps.p5.Ztau = suite.Secret().Neg(l)
		for i := range w {
			s := suite.Secret().Mul(ps.v2.Zrho[i], half)
			s.Add(s, w[i])
			ps.p5.Zsigma[i] = s
			ps.p3.D[i] = suite.Point().Mul(p1.Gamma, s)
			ps.p3.D[i].Sub(ps.p3.D[i], p1.W[i])
			ps.p5.Ztau.Add(ps.p5.Ztau, suite.Secret().Mul(s, beta[i]))
		}
		if err := ctx.Put(&ps.p3); err != nil {
			return err
		}
		if err := ctx.PubRand(&ps.v4); err != nil {
			return err
		}
		if err := ctx.Put(&ps.p5); err != nil {
			return err
		}
		return ps.pv6.Prove(nil, gamma, x, y, rand, ctx)
	}
	prf, err := proof.HashProve(suite, "PairShuffle", rand, prover)
	if err != nil {
		t.Fatal(err)
	}
	if proof.HashVerify(suite, "PairShuffle", Verifier(suite, nil, h, X, Y, Xb, Yb), prf) == nil {
		t.Fatal("forged proof accepted")
	}
	// an honest one is
	Xb, Yb, P, _, _ := Shuffle(suite, nil, h, X, Y, rand)
	prf, err = proof.HashProve(suite, "PairShuffle", rand, P)
	if err != nil {
		t.Fatal(err)
	}
	if err := proof.HashVerify(suite, "PairShuffle", Verifier(suite, nil, h, X, Y, Xb, Yb), prf); err != nil {
		t.Fatal(err)
	}
}
