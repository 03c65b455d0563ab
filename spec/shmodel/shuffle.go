//overlay util/shuffle
package shuffle

import (
	"crypto/cipher"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

// specShuffle is what C13 states about Shuffle; roles are analysed with it.
func specShuffle(group abstract.Group, g, h abstract.Point, X, Y []abstract.Point, rand cipher.Stream) (XX, YY, XXX, YYY []abstract.Point) {
	k := len(X)
	if k != len(Y) || k <= 1 {
		panic("sizes")
	}
	id := random.Uint64(rand)
	beta := make([]abstract.Secret, k)
	XX, YY = make([]abstract.Point, k), make([]abstract.Point, k)
	XXX, YYY = make([]abstract.Point, k), make([]abstract.Point, k)
	for i := 0; i < k; i++ {
		beta[i] = group.Secret().Pick(rand)
	}
	for i := 0; i < k; i++ {
		j := specPerm(id, i, k)
		XXX[i] = group.Point().Mul(g, beta[j])
		YYY[i] = group.Point().Mul(h, beta[j])
		XX[i] = group.Point().Add(X[j], XXX[i])
		YY[i] = group.Point().Add(Y[j], YYY[i])
	}
	return
}

// specPerm is an intrinsic: position i of the permutation of k elements called id
func specPerm(id uint64, i, k int) int { return 0 }
