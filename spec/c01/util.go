//overlay util
package util

import (
	"crypto/cipher"

	"github.com/dedis/crypto/abstract"
)

// An honest signature verifies, for every message, key, generator and nonce,
// and signing changes none of its inputs.
func specSign(suite abstract.Suite, random cipher.Stream, message []byte, x abstract.Secret, g abstract.Point) bool {
	pub := suite.Point().Mul(g, x)
	sig := ElGamalSign(suite, random, message, x, g)
	return ElGamalVerify(suite, message, suite.Point().Mul(g, x), sig, g) == nil && pub.Equal(suite.Point().Mul(g, x))
}

// Checking a signature changes none of its inputs: it can be checked again.
func specTwice(suite abstract.Suite, random cipher.Stream, message []byte, x abstract.Secret, g abstract.Point) bool {
	pub := suite.Point().Mul(g, x)
	sig := ElGamalSign(suite, random, message, x, g)
	if ElGamalVerify(suite, message, pub, sig, g) != nil {
		return false
	}
	return ElGamalVerify(suite, message, pub, sig, g) == nil && pub.Equal(suite.Point().Mul(g, x))
}

// Under the standard base, given as nil or as an element.
func specSignBase(suite abstract.Suite, random cipher.Stream, message []byte, x abstract.Secret) bool {
	pub := suite.Point().Mul(nil, x)
	return ElGamalVerify(suite, message, pub, ElGamalSign(suite, random, message, x, nil), nil) == nil &&
		ElGamalVerify(suite, message, pub, ElGamalSign(suite, random, message, x, nil), suite.Point().Base()) == nil
}
