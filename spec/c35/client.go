//overlay cmd/client
package client

import (
	"zRep/proto"
	"zRep/util"
)

// A client takes the commitment listed with its own pseudonym.
func specPartialOwn(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT_FINALIZE {
		return true
	}
	keys := util.ProtobufDecodePointList(ev.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(ev.Params["vals"].([]byte))
	nym := d.Suite.Point().Mul(util.DecodePoint(d.Suite, ev.Params["g"].([]byte)), d.PrivateKey)
	for i, k := range keys {
		if k.Equal(nym) {
			Handle(buf, d)
			return d.PCommr.Equal(vals[i]) && d.Index == i
		}
	}
	return true
}

// The blinding listed with it is added to its own, and no other.
func specPartialBlinding(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.BCAST_PEDERSEN_RDIFF {
		return true
	}
	keys := util.ProtobufDecodePointList(ev.Params["keys"].([]byte))
	rDiffs := util.ProtobufDecodeSecretList(ev.Params["rDiffs"].([]byte))
	want := d.Suite.Secret().Add(d.R, d.Suite.Secret().Zero())
	for i, k := range keys {
		if k.Equal(d.OnetimePseudoNym) {
			want = d.Suite.Secret().Add(want, rDiffs[i])
			break
		}
	}
	Handle(buf, d)
	return d.R.Equal(want)
}

// The difference listed with it is added to its reputation, and no other.
func specPartialReputation(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ROUND_END {
		return true
	}
	keys := util.ProtobufDecodePointList(ev.Params["keys"].([]byte))
	diffs := util.DecodeIntArray(ev.Params["diffs"].([]byte))
	want := d.Reputation
	for i, k := range keys {
		if k.Equal(d.OnetimePseudoNym) {
			want += diffs[i]
			break
		}
	}
	Handle(buf, d)
	return d.Reputation == want
}
