//overlay primitive/fujiokam
package fujiokam

import "math/big"

// g1^x * h1^r
func specCommitment(base *FujiOkamBase, x, r *big.Int) *Point {
	return base.Point().Mul(base.Point().Exp(base.G1, x), base.Point().Exp(base.H1, r))
}

// Committing gives g1^x*h1^r, with the blinding that is returned.
func specCommit(base *FujiOkamBase, v int64) bool {
	x := big.NewInt(v)
	c, r := base.Commit(x)
	return c.Equal(specCommitment(base, big.NewInt(v), r)) && x.Cmp(big.NewInt(v)) == 0
}

func specCommitWithR(base *FujiOkamBase, x, r *big.Int) bool {
	want := specCommitment(base, x, r)
	return base.CommitWithR(x, r).Equal(want) && specCommitment(base, x, r).Equal(want)
}

// The three squares of every value that the search returns for are right.
func specPartialSquares(v int64) bool {
	if v < 0 {
		return true
	}
	x := big.NewInt(v)
	a, b, d := decomposeThreeSquare(x)
	s := new(big.Int).Mul(a, a)
	s.Add(s, new(big.Int).Mul(b, b))
	s.Add(s, new(big.Int).Mul(d, d))
	w := new(big.Int).Mul(big.NewInt(4), big.NewInt(v))
	w.Add(w, big.NewInt(1))
	return s.Cmp(w) == 0 && x.Cmp(big.NewInt(v)) == 0
}

// An honest proof for a commitment is accepted.
func specPartialNonneg(base *FujiOkamBase, v int64, rc *big.Int) bool {
	if v < 0 {
		return true
	}
	x := big.NewInt(v)
	c := specCommitment(base, x, rc)
	arg := base.ProveNonneg(x, c, rc)
	return base.VerifyNonneg(specCommitment(base, big.NewInt(v), rc), arg)
}

// Proving changes none of its inputs, verifying neither.
func specPartialNonnegKeeps(base *FujiOkamBase, v int64, rc *big.Int, c *Point) bool {
	if v < 0 {
		return true
	}
	x := big.NewInt(v)
	r0 := new(big.Int).Set(rc)
	c0 := new(big.Int).Set(&c.V)
	arg := base.ProveNonneg(x, c, rc)
	base.VerifyNonneg(c, arg)
	return x.Cmp(big.NewInt(v)) == 0 && rc.Cmp(r0) == 0 && c.V.Cmp(c0) == 0
}
