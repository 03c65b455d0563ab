//overlay primitive/pedersen_fujiokam
package pedersen_fujiokam

import (
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"

	"github.com/dedis/crypto/abstract"
)

// every response of the equality proof hides its secret under a draw of its own
func specMasks(pb *pedersen.PedersenBase, fb *fujiokam.FujiOkamBase, x, rp abstract.Secret, rf *big.Int, p abstract.Point, f *fujiokam.Point) bool {
	xr := new(big.Int).Set(SecretToBigInt(x))
	rr := new(big.Int).Set(SecretToBigInt(rp))
	arg := ProveEqual(pb, fb, x, p, rp, f, rf)
	t1 := specLess(pb, arg.S1, xr, arg.C)
	t2 := specLess(pb, arg.S2, rr, arg.C)
	t3 := specLess(pb, arg.S3, rf, arg.C)
	return specDrawn(t1, -1) && specDrawn(t2, -1) && specDrawn(t3, -1) &&
		specOther(t1, t2) && specOther(t1, t3) && specOther(t2, t3)
}

func specLess(pb *pedersen.PedersenBase, s, x, c *big.Int) abstract.Secret {
	t := new(big.Int).Mul(x, c)
	return BigIntToSecret(pb.Suite, t.Sub(s, t))
}

func specDrawn(s abstract.Secret, i int) bool { return false }

func specOther(a, b abstract.Secret) bool { return false }
