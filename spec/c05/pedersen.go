//overlay primitive/pedersen
package pedersen

import "github.com/dedis/crypto/abstract"

// GT^x * HT^r, written independently of the package's own code.
func specOpen(base *PedersenBase, x, r abstract.Secret) abstract.Point {
	return base.Suite.Point().Add(base.Suite.Point().Mul(base.GT, x), base.Suite.Point().Mul(base.HT, r))
}

// Committing to x with blinding r gives GT^x*HT^r, and changes neither.
func specCommitWithR(base *PedersenBase, x, r abstract.Secret) bool {
	want := specOpen(base, x, r)
	got := base.CommitWithR(x, r)
	return got.Equal(want) && specOpen(base, x, r).Equal(want)
}

// The returned blinding opens the commitment.
func specCommit(base *PedersenBase, x abstract.Secret) bool {
	x0 := base.Suite.Secret().Add(x, base.Suite.Secret().Zero())
	c, r := base.Commit(x)
	return c.Equal(specOpen(base, x0, r)) && x0.Equal(x)
}

// Verification accepts exactly the openings.
func specVerify(base *PedersenBase, x, r abstract.Secret, c abstract.Point) bool {
	want := specOpen(base, x, r).Equal(c)
	return base.Verify(x, r, c) == want && specOpen(base, x, r).Equal(c) == want
}

// The sum of two commitments opens to the sums, and the operands are kept.
func specAdd(base *PedersenBase, x, r, y, s abstract.Secret) bool {
	c, d := specOpen(base, x, r), specOpen(base, y, s)
	e := base.Add(c, d)
	return e.Equal(specOpen(base, base.Suite.Secret().Add(x, y), base.Suite.Secret().Add(r, s))) &&
		c.Equal(specOpen(base, x, r)) && d.Equal(specOpen(base, y, s))
}

// The difference likewise.
func specSub(base *PedersenBase, x, r, y, s abstract.Secret) bool {
	c, d := specOpen(base, x, r), specOpen(base, y, s)
	e := base.Sub(c, d)
	return e.Equal(specOpen(base, base.Suite.Secret().Sub(x, y), base.Suite.Secret().Sub(r, s))) &&
		c.Equal(specOpen(base, x, r)) && d.Equal(specOpen(base, y, s))
}

// Homomorphism holds for points in general, not only for known openings.
func specAddPoints(base *PedersenBase, c, d abstract.Point) bool {
	return base.Add(c, d).Equal(base.Suite.Point().Add(c, d))
}

func specSubPoints(base *PedersenBase, c, d abstract.Point) bool {
	return base.Sub(c, d).Equal(base.Suite.Point().Sub(c, d))
}

// Randomizing raises the commitment to the returned exponent.
func specRandomize(base *PedersenBase, c abstract.Point) bool {
	c0 := base.Suite.Point().Add(c, base.Suite.Point().Null())
	p, e := base.Randomize(c)
	return p.Equal(base.Suite.Point().Mul(c0, e)) && c0.Equal(c)
}

