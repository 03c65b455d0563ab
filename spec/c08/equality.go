//overlay primitive/pedersen_fujiokam
package pedersen_fujiokam

import (
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"

	"github.com/dedis/crypto/abstract"
)

func specPed(b *pedersen.PedersenBase, x, r abstract.Secret) abstract.Point {
	return b.Suite.Point().Add(b.Suite.Point().Mul(b.GT, x), b.Suite.Point().Mul(b.HT, r))
}

func specFO(b *fujiokam.FujiOkamBase, x, r *big.Int) *fujiokam.Point {
	return b.Point().Mul(b.Point().Exp(b.G1, x), b.Point().Exp(b.H1, r))
}

// An honest proof that both commitments hold the same value is accepted, and
// neither side changes what it is given.
func specEqual(pb *pedersen.PedersenBase, fb *fujiokam.FujiOkamBase, x, rp abstract.Secret, rf *big.Int) bool {
	xr := new(big.Int).Set(SecretToBigInt(x))
	p := specPed(pb, x, rp)
	f := specFO(fb, xr, rf)
	arg := ProveEqual(pb, fb, x, p, rp, f, rf)
	ok := VerifyEqual(pb, fb, specPed(pb, x, rp), specFO(fb, xr, rf), arg)
	return ok && VerifyEqual(pb, fb, p, f, arg) &&
		p.Equal(specPed(pb, x, rp)) && f.Equal(specFO(fb, xr, rf)) && SecretToBigInt(x).Cmp(xr) == 0
}
