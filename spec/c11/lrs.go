//overlay primitive/lrs
package lrs

import (
	"bytes"
	"math/big"

	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

// A ring signature by the member at position pi verifies, for every message,
// ring, key and choice of the signer's randomness.
func specSign(g *big.Int, m []byte, n, pi int, x *big.Int, y []*big.Int) bool {
	if n <= 0 || pi < 0 || pi >= n || len(y) != n {
		return true
	}
	base := CreateBase(g)
	y[pi] = new(big.Int).Exp(base.G, x, base.P)
	sig := base.SignHelper(m, n, pi, x, y)
	return base.VerifyHelper(m, n, pi, sig, y)
}

func specSignPoints(suite abstract.Suite, m []byte, n, pi int, x abstract.Secret, g abstract.Point, y []abstract.Point) bool {
	if n <= 0 || pi < 0 || pi >= n || len(y) != n {
		return true
	}
	base := CreateBase(util.PointToBigInt(g))
	y[pi] = suite.Point().Mul(g, x)
	sig := base.Sign(m, n, pi, x, y)
	return base.Verify(m, n, pi, sig, y)
}

// h = H(H(m) || y1 || ... || yn)^2
func specTagBase(base *LRSBase, m []byte, y []*big.Int) *big.Int {
	buf := new(bytes.Buffer)
	for _, v := range y {
		buf.Write(v.Bytes())
	}
	h := base.Suite.Hash()
	h.Write(m)
	d := h.Sum(nil)
	h = base.Suite.Hash()
	h.Write(d)
	h.Write(buf.Bytes())
	r := new(big.Int).SetBytes(h.Sum(nil))
	return new(big.Int).Exp(r, big.NewInt(2), base.P)
}

// The link tag is the message's and ring's element raised to the signer's key,
// whatever else the signer chose.
func specTag(g *big.Int, m []byte, n, pi int, x *big.Int, y []*big.Int) bool {
	if n <= 0 || pi < 0 || pi >= n || len(y) != n {
		return true
	}
	base := CreateBase(g)
	want := new(big.Int).Exp(specTagBase(base, m, y), x, base.P)
	return base.SignHelper(m, n, pi, x, y).Y0.Cmp(want) == 0
}

// Two signatures are linked exactly when their tags are equal.
func specLinkable(a, b *Signature) bool {
	return Linkable(a, b) == (a.Y0.Cmp(b.Y0) == 0)
}

// Signing and checking change neither the ring nor the key.
func specKeeps(g *big.Int, m []byte, n, pi, k int, x *big.Int, y []*big.Int) bool {
	if n <= 0 || pi < 0 || pi >= n || len(y) != n || k < 0 || k >= n {
		return true
	}
	base := CreateBase(g)
	x0 := new(big.Int).Set(x)
	y0 := new(big.Int).Set(y[k])
	sig := base.SignHelper(m, n, pi, x, y)
	base.VerifyHelper(m, n, pi, sig, y)
	return x.Cmp(x0) == 0 && y[k].Cmp(y0) == 0
}
