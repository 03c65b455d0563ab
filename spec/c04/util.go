//overlay util
package util

import (
	"bytes"
	"math/big"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

// SpecNonce is an intrinsic: the nonce of a signature made by ElGamalSign
func SpecNonce(sig []byte) abstract.Secret { return specNonce(sig) }

func specNonce(sig []byte) abstract.Secret { return nil }

// SpecFresh is an intrinsic: s is a draw from the system's random source made
// during the analysed call, in each iteration of the loops around this write
func SpecFresh(s abstract.Secret) bool { return specFresh(s) }

func specFresh(s abstract.Secret) bool { return false }

// specNonceOf: the nonce the signature was made with, under this private key
func specNonceOf(suite abstract.Suite, sig []byte, key abstract.Secret) abstract.Secret {
	s := basicSig{}
	abstract.Read(bytes.NewBuffer(sig), &s, suite)
	return suite.Secret().Add(s.R, suite.Secret().Mul(key, s.C))
}

// SpecDrawnBelow is an intrinsic: s is a draw from the system's random source
// made during the analysed call, of [0,bound), and a different one for each i
func SpecDrawnBelow(s, bound *big.Int, i int) bool { return specDrawnBelow(s, bound, i) }

func specDrawnBelow(s, bound *big.Int, i int) bool { return false }

// a signature's nonce is drawn for it
func specRawSign(suite abstract.Suite, msg []byte, key abstract.Secret, g abstract.Point) bool {
	return SpecDrawn(specNonceOf(suite, ElGamalSign(suite, random.Stream, msg, key, g), key), -1)
}

// two signatures never share a nonce
func specRawSignTwice(suite abstract.Suite, msg, msg2 []byte, key abstract.Secret, g abstract.Point) bool {
	a := specNonceOf(suite, ElGamalSign(suite, random.Stream, msg, key, g), key)
	b := specNonceOf(suite, ElGamalSign(suite, random.Stream, msg2, key, g), key)
	return SpecDrawn(a, -1) && SpecDrawn(b, -1) && SpecOther(a, b)
}
