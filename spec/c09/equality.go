//overlay primitive/pedersen_fujiokam
package pedersen_fujiokam

import (
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"

	"github.com/dedis/crypto/abstract"
)

func specAcceptsOnlyIf(pb *pedersen.PedersenBase, fb *fujiokam.FujiOkamBase, p abstract.Point, f *fujiokam.Point, arg *ARGequal) bool {
	if !VerifyEqual(pb, fb, p, f, arg) {
		return true
	}
	s := pb.Suite
	t1 := s.Point().Mul(pb.GT, BigIntToSecret(s, arg.S1))
	t1 = s.Point().Add(t1, s.Point().Mul(pb.HT, BigIntToSecret(s, arg.S2)))
	t1 = s.Point().Sub(t1, s.Point().Mul(p, BigIntToSecret(s, arg.C)))
	b1, _ := t1.MarshalBinary()
	t2 := fb.Point().Exp(fb.G1, arg.S1)
	t2 = fb.Point().Mul(t2, fb.Point().Exp(fb.H1, arg.S3))
	t2 = fb.Point().Mul(t2, fb.Point().Exp(f, new(big.Int).Neg(arg.C)))
	h := s.Hash()
	h.Write(b1)
	h.Write(t2.V.Bytes())
	return new(big.Int).SetBytes(h.Sum(nil)).Cmp(arg.C) == 0
}
