//overlay primitive/fujiokam
package fujiokam

import "math/big"

func specDrawnInt(s *big.Int, i int) bool { return false }

func specDrawnBit(s bool, i int) bool { return false }

// Every round of every generator has a secret of its own and h1 to that secret.
func specPartialRounds(b *FujiOkamBase, k int) bool {
	secrets, publics := b.GenerateAllGnHonestyProof()
	if len(secrets) != 480 || len(publics) != 480 {
		return false
	}
	if k < 0 || k >= 480 {
		return true
	}
	return specDrawnInt(secrets[k], k) && b.Point().SetBigInt(publics[k]).Equal(b.Point().Exp(b.H1, secrets[k]))
}

// Every bit of a challenge is drawn on its own.
func specBits(b *FujiOkamBase, k int) bool {
	bits := b.ChallengeAllGnHonesty()
	if len(bits) != 480 {
		return false
	}
	return k < 0 || k >= 480 || specDrawnBit(bits[k], k)
}
