//overlay primitive/lrs
package lrs

import (
	"bytes"
	"math/big"

	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

func specHash(base *LRSBase, parts ...[]byte) *big.Int {
	h := base.Suite.Hash()
	for _, p := range parts {
		h.Write(p)
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

// The challenges of a ring signature add up to the hash of the ring, the tag,
// the message and each member's two announcements.
func specEquation(base *LRSBase, m []byte, sig *Signature, y []*big.Int) bool {
	ring := new(bytes.Buffer)
	for _, v := range y {
		ring.Write(v.Bytes())
	}
	hm := base.Suite.Hash()
	hm.Write(m)
	h := new(big.Int).Exp(specHash(base, hm.Sum(nil), ring.Bytes()), big.NewInt(2), base.P)
	first, second := new(bytes.Buffer), new(bytes.Buffer)
	sum := new(big.Int)
	for i, v := range y {
		z := new(big.Int).Mul(new(big.Int).Exp(base.G, sig.S[i], base.P), new(big.Int).Exp(v, sig.C[i], base.P))
		first.Write(z.Mod(z, base.P).Bytes())
		w := new(big.Int).Mul(new(big.Int).Exp(h, sig.S[i], base.P), new(big.Int).Exp(sig.Y0, sig.C[i], base.P))
		second.Write(w.Mod(w, base.P).Bytes())
		sum.Add(sum, sig.C[i])
	}
	want := specHash(base, ring.Bytes(), sig.Y0.Bytes(), m, first.Bytes(), second.Bytes())
	want.Mod(want, base.Q)
	return sum.Mod(sum, base.Q).Cmp(want) == 0
}

func specAcceptsOnlyIf(base *LRSBase, m []byte, n, pi int, sig *Signature, y []*big.Int) bool {
	if !base.VerifyHelper(m, n, pi, sig, y) {
		return true
	}
	if len(y) != len(sig.S) || len(y) != len(sig.C) {
		return false
	}
	return specEquation(base, m, sig, y)
}

func specPointsOnlyIf(base *LRSBase, m []byte, n, pi int, sig *Signature, y []abstract.Point) bool {
	if !base.Verify(m, n, pi, sig, y) {
		return true
	}
	if len(y) != len(sig.S) || len(y) != len(sig.C) {
		return false
	}
	raw := make([]*big.Int, len(y))
	for i, v := range y {
		raw[i] = util.PointToBigInt(v)
	}
	return specEquation(base, m, sig, raw)
}
