//overlay primitive/fujiokam
package fujiokam

import (
	"crypto/sha256"
	"math/big"

	"github.com/dedis/crypto/abstract"
)

func specDrawnBelow(s, bound *big.Int, i int) bool { return false }

func specOtherInt(a, b *big.Int) bool { return false }

// specFree is an intrinsic: the part of the polynomial v without e
func specFree(v, e *big.Int) *big.Int { return nil }

// s+radius is a draw of the whole range
func specMask(base *FujiOkamBase, s *big.Int) bool {
	return specDrawnBelow(new(big.Int).Add(s, base.RandomRadius), base.RandomDiameter, -1)
}

func specApart(base *FujiOkamBase, a, b *big.Int) bool {
	return specOtherInt(new(big.Int).Add(a, base.RandomRadius), new(big.Int).Add(b, base.RandomRadius))
}

// a commitment's blinding is drawn for it
func specBlinding(base *FujiOkamBase, x, y *big.Int) bool {
	_, r := base.Commit(x)
	_, s := base.Commit(y)
	return specMask(base, r) && specMask(base, s) && specApart(base, r, s)
}

// every response of the range proof hides its secret under a draw of its own
func specPartialMasks(base *FujiOkamBase, v int64, c *Point, rc *big.Int) bool {
	x := big.NewInt(v)
	arg := base.ProveNonneg(x, c, rc)
	h := sha256.New()
	h.Write(c.V.Bytes())
	h.Write(arg.Commitrx.Bytes())
	h.Write(arg.C.Bytes())
	h.Write(arg.Cr.Bytes())
	e := new(big.Int).SetBytes(h.Sum(nil))
	m := []*big.Int{specFree(arg.X_, e), specFree(arg.A_, e), specFree(arg.B_, e), specFree(arg.D_, e)}
	return specMask(base, m[0]) && specMask(base, m[1]) && specMask(base, m[2]) && specMask(base, m[3]) &&
		specApart(base, m[0], m[1]) && specApart(base, m[0], m[2]) && specApart(base, m[0], m[3]) &&
		specApart(base, m[1], m[2]) && specApart(base, m[1], m[3]) && specApart(base, m[2], m[3])
}

func specDrawnInt(s *big.Int, i int) bool { return false }

func specDrawnBit(s bool, i int) bool { return false }

// every round of a proof about the generators has a secret of its own
func specPartialRounds(b *FujiOkamBase, k int) bool {
	secrets, _ := b.GenerateAllGnHonestyProof()
	return k < 0 || k >= len(secrets) || specDrawnInt(secrets[k], k)
}

// every bit of a challenge is drawn on its own
func specBits(b *FujiOkamBase, k int) bool {
	bits := b.ChallengeAllGnHonesty()
	return k < 0 || k >= len(bits) || specDrawnBit(bits[k], k)
}

// the exponents between the generators are drawn one by one
func specPartialTrapdoors(suite abstract.Suite) bool {
	b := CreateBaseFromSuite(suite)
	m := []*big.Int{b.alpha1, b.alpha2, b.alpha3, b.alpha4, b.alpha5, b.alpha6}
	return specMask(b, m[0]) && specMask(b, m[1]) && specMask(b, m[2]) && specMask(b, m[3]) && specMask(b, m[4]) && specMask(b, m[5]) &&
		specApart(b, m[0], m[1]) && specApart(b, m[0], m[2]) && specApart(b, m[0], m[3]) && specApart(b, m[0], m[4]) && specApart(b, m[0], m[5]) &&
		specApart(b, m[1], m[2]) && specApart(b, m[1], m[3]) && specApart(b, m[1], m[4]) && specApart(b, m[1], m[5]) &&
		specApart(b, m[2], m[3]) && specApart(b, m[2], m[4]) && specApart(b, m[2], m[5]) &&
		specApart(b, m[3], m[4]) && specApart(b, m[3], m[5]) && specApart(b, m[4], m[5])
}
