//overlay primitive/fujiokam
package fujiokam

import (
	"math/big"

	"github.com/dedis/crypto/abstract"
)

// Each generator is h1 raised to the exponent kept for it.
func specPartialGenerators(suite abstract.Suite) bool {
	b := CreateBaseFromSuite(suite)
	return b.G1.Equal(b.Point().Exp(b.H1, b.alpha1)) && b.G2.Equal(b.Point().Exp(b.H1, b.alpha2)) &&
		b.G3.Equal(b.Point().Exp(b.H1, b.alpha3)) && b.G4.Equal(b.Point().Exp(b.H1, b.alpha4)) &&
		b.G5.Equal(b.Point().Exp(b.H1, b.alpha5)) && b.G6.Equal(b.Point().Exp(b.H1, b.alpha6))
}

// An honest answer to any challenge passes.
func specPartialComplete(suite abstract.Suite, bits []bool) bool {
	if len(bits) != 6*GN_HONESTY_PROOF_SIZE {
		return true
	}
	b := CreateBaseFromSuite(suite)
	secrets, publics := b.GenerateAllGnHonestyProof()
	answers := b.AnswerAllGnHonesty(bits, secrets, publics)
	c := CreateMinimumBase(suite, b.N)
	c.H1 = b.H1
	c.G1, c.G2, c.G3, c.G4, c.G5, c.G6 = b.G1, b.G2, b.G3, b.G4, b.G5, b.G6
	return c.CheckAllGnHonesty(answers, bits, publics) == 0
}

// h1^answer = announcement * generator^bit
func specRound(b *FujiOkamBase, answer *big.Int, bit bool, public *big.Int, g *Point) bool {
	right := b.Point().SetBigInt(public)
	if bit {
		right = b.Point().Mul(right, g)
	}
	return b.Point().Exp(b.H1, answer).Equal(right)
}

// The check passes only if every round of every generator holds.
func specSound(b *FujiOkamBase, answers []*big.Int, bits []bool, publics []*big.Int, k int) bool {
	const w = 80
	if k < 0 || k >= w || len(answers) != 6*w || len(bits) != 6*w || len(publics) != 6*w {
		return true
	}
	if b.CheckAllGnHonesty(answers, bits, publics) != 0 {
		return true
	}
	return specRound(b, answers[k], bits[k], publics[k], b.G1) &&
		specRound(b, answers[w+k], bits[w+k], publics[w+k], b.G2) &&
		specRound(b, answers[2*w+k], bits[2*w+k], publics[2*w+k], b.G3) &&
		specRound(b, answers[3*w+k], bits[3*w+k], publics[3*w+k], b.G4) &&
		specRound(b, answers[4*w+k], bits[4*w+k], publics[4*w+k], b.G5) &&
		specRound(b, answers[5*w+k], bits[5*w+k], publics[5*w+k], b.G6)
}

// Every challenge has one bit for each round of each generator.
func specChallengeSize(b *FujiOkamBase) bool {
	return len(b.ChallengeAllGnHonesty()) == 6*80
}
