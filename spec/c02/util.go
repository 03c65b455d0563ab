//overlay util
package util

import (
	"bytes"

	"github.com/dedis/crypto/abstract"
)

// Verification accepts only signatures that decode and whose challenge is the
// hash of the message and generator^response * key^challenge.
func specVerifyExact(suite abstract.Suite, message []byte, pub abstract.Point, sig []byte, g abstract.Point) bool {
	got := ElGamalVerify(suite, message, pub, sig, g) == nil
	var s basicSig
	if abstract.Read(bytes.NewBuffer(sig), &s, suite) != nil {
		return !got
	}
	t := suite.Point().Add(suite.Point().Mul(g, s.R), suite.Point().Mul(pub, s.C))
	return got == specHash(suite, message, t).Equal(s.C)
}

// The challenge absorbs the announcement and then the whole message.
func specHash(suite abstract.Suite, message []byte, t abstract.Point) abstract.Secret {
	b, _ := t.MarshalBinary()
	c := suite.Cipher(b)
	c.Message(nil, nil, message)
	return suite.Secret().Pick(c)
}
