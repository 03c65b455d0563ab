//overlay primitive/fujiokam
package fujiokam

import (
	"crypto/sha256"
	"math/big"
)

func specChallenge(commitx *Point, arg *ARGnonneg) *big.Int {
	h := sha256.New()
	h.Write(commitx.V.Bytes())
	h.Write(arg.Commitrx.Bytes())
	h.Write(arg.C.Bytes())
	h.Write(arg.Cr.Bytes())
	return new(big.Int).SetBytes(h.Sum(nil))
}

// C^e*Cr = g2^x' g3^a' g4^b' g5^d' g6^(e(4x'+e)-a'^2-b'^2-d'^2) h^r'
func specSquares(base *FujiOkamBase, e *big.Int, arg *ARGnonneg) bool {
	left := base.Point().Exp(base.Point().SetBigInt(arg.C), e)
	left = base.Point().Mul(left, base.Point().SetBigInt(arg.Cr))
	d := new(big.Int).Mul(big.NewInt(4), arg.X_)
	d.Add(d, e)
	d.Mul(d, e)
	d.Sub(d, new(big.Int).Mul(arg.A_, arg.A_))
	d.Sub(d, new(big.Int).Mul(arg.B_, arg.B_))
	d.Sub(d, new(big.Int).Mul(arg.D_, arg.D_))
	right := base.Point().Exp(base.G2, arg.X_)
	right = base.Point().Mul(right, base.Point().Exp(base.G3, arg.A_))
	right = base.Point().Mul(right, base.Point().Exp(base.G4, arg.B_))
	right = base.Point().Mul(right, base.Point().Exp(base.G5, arg.D_))
	right = base.Point().Mul(right, base.Point().Exp(base.G6, d))
	right = base.Point().Mul(right, base.Point().Exp(base.H1, arg.R_))
	return left.Equal(right)
}

// commitment^e * announcement = g1^x' h^R
func specOpening(base *FujiOkamBase, commitx *Point, e *big.Int, arg *ARGnonneg) bool {
	left := base.Point().Exp(commitx, e)
	left = base.Point().Mul(left, base.Point().SetBigInt(arg.Commitrx))
	right := base.Point().Exp(base.G1, arg.X_)
	right = base.Point().Mul(right, base.Point().Exp(base.H1, arg.R))
	return left.Equal(right)
}

func specAcceptsOnlyIf(base *FujiOkamBase, commitx *Point, arg *ARGnonneg) bool {
	if !base.VerifyNonneg(commitx, arg) {
		return true
	}
	e := specChallenge(commitx, arg)
	return specSquares(base, e, arg) && specOpening(base, commitx, e, arg)
}
