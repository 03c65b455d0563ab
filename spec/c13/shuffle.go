//overlay util/shuffle
package shuffle

import (
	"github.com/dedis/crypto/abstract"

	"zRep/util"
)

func specShuffled(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point) (XX, YY, XXX, YYY []abstract.Point) {
	XX, YY, _, XXX, YYY = Shuffle(suite, g, h, X, Y, suite.Cipher(abstract.RandomKey))
	return
}

// specPartialSizes: nothing is lost or added
func specPartialSizes(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point) bool {
	XX, YY, XXX, YYY := specShuffled(suite, g, h, X, Y)
	k := len(X)
	return len(Y) == k && len(XX) == k && len(YY) == k && len(XXX) == k && len(YYY) == k
}

// specPartialOut: every output is some input with a fresh encryption of (0,0) added
func specPartialOut(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, i int) bool {
	XX, YY, XXX, YYY := specShuffled(suite, g, h, X, Y)
	if i < 0 || i >= len(X) {
		return true
	}
	found := false
	for j := range X {
		if suite.Point().Add(X[j], XXX[i]).Equal(XX[i]) && suite.Point().Add(Y[j], YYY[i]).Equal(YY[i]) {
			found = true
		}
	}
	return found
}

// specPartialIn: every input comes out somewhere
func specPartialIn(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, j int) bool {
	XX, YY, XXX, YYY := specShuffled(suite, g, h, X, Y)
	if j < 0 || j >= len(X) {
		return true
	}
	found := false
	for i := range X {
		if suite.Point().Add(X[j], XXX[i]).Equal(XX[i]) && suite.Point().Add(Y[j], YYY[i]).Equal(YY[i]) {
			found = true
		}
	}
	return found
}

// specPartialMask: the masks encrypt (0,0) under one fresh factor, drawn for this position
func specPartialMask(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, i int) bool {
	_, _, XXX, YYY := specShuffled(suite, g, h, X, Y)
	if i < 0 || i >= len(X) {
		return true
	}
	b := util.SpecExponent(XXX[i], g)
	return util.SpecDrawn(b, i) && suite.Point().Mul(g, b).Equal(XXX[i]) && suite.Point().Mul(h, b).Equal(YYY[i])
}

// specPartialKeeps: the inputs stay as they were
func specPartialKeeps(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, i int) bool {
	if i < 0 || i >= len(X) || i >= len(Y) {
		return true
	}
	x, y := suite.Point().Add(X[i], suite.Point().Null()), suite.Point().Add(Y[i], suite.Point().Null())
	g0, h0 := suite.Point().Add(g, suite.Point().Null()), suite.Point().Add(h, suite.Point().Null())
	Shuffle(suite, g, h, X, Y, suite.Cipher(abstract.RandomKey))
	return x.Equal(X[i]) && y.Equal(Y[i]) && g.Equal(g0) && h.Equal(h0)
}

// specPartialApart: writing to one result changes no other
func specPartialApart(suite abstract.Suite, g, h abstract.Point, X, Y []abstract.Point, i int) bool {
	XX, YY, XXX, YYY := specShuffled(suite, g, h, X, Y)
	if i < 0 || i >= len(X) {
		return true
	}
	x, y, yy := suite.Point().Add(XX[i], suite.Point().Null()), suite.Point().Add(YY[i], suite.Point().Null()), suite.Point().Add(YYY[i], suite.Point().Null())
	XXX[i].Add(XXX[i], g)
	return x.Equal(XX[i]) && y.Equal(YY[i]) && yy.Equal(YYY[i])
}

