//overlay primitive/lrs
package lrs

import (
	"math/big"

	"github.com/dedis/crypto/abstract"

	"zRep/util"
)

// every answer and challenge of the other members is drawn for its position,
// and the signer's own answer hides the key under another draw
func specPartialSign(base *LRSBase, m []byte, n, pi int, key abstract.Secret, y []abstract.Point, i int) bool {
	if n <= 0 || i < 0 || i >= n || i == pi || pi < 0 || pi >= n {
		return true
	}
	sig := base.Sign(m, n, pi, key, y)
	return util.SpecDrawnBelow(sig.S[i], base.Q, i) && util.SpecDrawnBelow(sig.C[i], base.Q, i) && specOtherInt(sig.S[i], sig.C[i])
}

func specOtherInt(a, b *big.Int) bool { return false }

func specPartialOwn(base *LRSBase, m []byte, n, pi int, key abstract.Secret, y []abstract.Point, i int) bool {
	if n <= 0 || i < 0 || i >= n || i == pi || pi < 0 || pi >= n {
		return true
	}
	x := new(big.Int).Set(util.SecretToBigInt(key))
	sig := base.Sign(m, n, pi, key, y)
	r := new(big.Int).Mul(sig.C[pi], x)
	r.Add(r, sig.S[pi])
	r.Mod(r, base.Q)
	return util.SpecDrawnBelow(r, base.Q, -1) && specOtherInt(r, sig.S[i]) && specOtherInt(r, sig.C[i])
}
