//overlay primitive/pedersen
package pedersen

import (
	"github.com/dedis/crypto/abstract"
)

func specDrawn(s abstract.Secret, i int) bool { return false }

func specOther(a, b abstract.Secret) bool { return false }

// a commitment's blinding is drawn for it
func specBlinding(base *PedersenBase, x, y abstract.Secret) bool {
	_, r := base.Commit(x)
	_, s := base.Commit(y)
	return specDrawn(r, -1) && specDrawn(s, -1) && specOther(r, s)
}

func specExponent(out, in abstract.Point) abstract.Secret { return nil }

// the base of the blindings is drawn
func specBase(suite abstract.Suite) bool {
	b := CreateBaseFromSuite(suite)
	return specDrawn(specExponent(b.HT, b.GT), -1)
}
