//overlay util
package util

import (
	"bytes"
	"math/big"

	"github.com/dedis/crypto/abstract"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen_fujiokam"
)

func specPointList(l []abstract.Point, k int) bool {
	got := ProtobufDecodePointList(ProtobufEncodePointList(l))
	if len(got) != len(l) {
		return false
	}
	if k < 0 || k >= len(l) {
		return true
	}
	return got[k].Equal(l[k])
}

func specSecretList(l []abstract.Secret, k int) bool {
	got := ProtobufDecodeSecretList(ProtobufEncodeSecretList(l))
	if len(got) != len(l) {
		return false
	}
	if k < 0 || k >= len(l) {
		return true
	}
	return got[k].Equal(l[k])
}

func specBoolList(l []bool, k int) bool {
	got := ProtobufDecodeBoolList(ProtobufEncodeBoolList(l))
	if len(got) != len(l) {
		return false
	}
	if k < 0 || k >= len(l) {
		return true
	}
	return got[k] == l[k]
}

func specBigIntList(l []*big.Int, k int) bool {
	got := ProtobufDecodeBigIntList(ProtobufEncodeBigIntList(l))
	if len(got) != len(l) {
		return false
	}
	if k < 0 || k >= len(l) {
		return true
	}
	return got[k].Cmp(l[k]) == 0
}

func specIntArray(l []int, k int) bool {
	got := DecodeIntArray(EncodeIntArray(l))
	if len(got) != len(l) {
		return false
	}
	if k < 0 || k >= len(l) {
		return true
	}
	return got[k] == l[k]
}

func spec2DByteArray(l [][]byte, k int) bool {
	got := Decode2DByteArray(Encode2DByteArray(l))
	if len(got) != len(l) {
		return false
	}
	if k < 0 || k >= len(l) {
		return true
	}
	return bytes.Equal(got[k], l[k])
}

func specBigInt(v *big.Int) bool {
	return DecodeBigInt(EncodeBigInt(v)).Cmp(v) == 0
}

func specPoint(suite abstract.Suite, p abstract.Point) bool {
	return DecodePoint(suite, EncodePoint(p)).Equal(p)
}

func specSecret(suite abstract.Suite, s abstract.Secret) bool {
	return DecodeSecret(suite, EncodeSecret(s)).Equal(s)
}

func specPointBigInt(suite abstract.Suite, p abstract.Point) bool {
	return BigIntToPoint(suite, PointToBigInt(p)).Equal(p)
}

func specSecretBigInt(suite abstract.Suite, s abstract.Secret) bool {
	return BigIntToSecret(suite, SecretToBigInt(s)).Equal(s)
}

func specARGnonneg(a *fujiokam.ARGnonneg) bool {
	g := DecodeARGnonneg(EncodeARGnonneg(a))
	return g.Commitrx.Cmp(a.Commitrx) == 0 && g.C.Cmp(a.C) == 0 && g.Cr.Cmp(a.Cr) == 0 && g.R.Cmp(a.R) == 0 &&
		g.X_.Cmp(a.X_) == 0 && g.A_.Cmp(a.A_) == 0 && g.B_.Cmp(a.B_) == 0 && g.D_.Cmp(a.D_) == 0 && g.R_.Cmp(a.R_) == 0
}

func specARGequal(a *pedersen_fujiokam.ARGequal) bool {
	g := DecodeARGequal(EncodeARGequal(a))
	return g.C.Cmp(a.C) == 0 && g.S1.Cmp(a.S1) == 0 && g.S2.Cmp(a.S2) == 0 && g.S3.Cmp(a.S3) == 0
}

// Signed integers of four bytes keep their value, other integers are not sent this way.
func specIntByte(n int) bool {
	if n < 0 || n >= 1<<31 {
		return true
	}
	return ByteToInt(IntToByte(n)) == n
}
