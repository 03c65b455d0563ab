//overlay cmd/client
package client

import (
	"zRep/proto"
	"zRep/util"
)

// A client adds the blinding sent with its own pseudonym to its own.
func specPartialBlinding(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.BCAST_PEDERSEN_RDIFF {
		return true
	}
	keys := util.ProtobufDecodePointList(ev.Params["keys"].([]byte))
	rDiffs := util.ProtobufDecodeSecretList(ev.Params["rDiffs"].([]byte))
	want := d.Suite.Secret().Add(d.R, d.Suite.Secret().Zero())
	for i, k := range keys {
		if k.Equal(d.OnetimePseudoNym) {
			want = d.Suite.Secret().Add(want, rDiffs[i])
			break
		}
	}
	rep := d.Reputation
	Handle(buf, d)
	return d.R.Equal(want) && d.Reputation == rep
}

// A client adds the difference sent with its own pseudonym to its reputation.
func specPartialReputation(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ROUND_END {
		return true
	}
	keys := util.ProtobufDecodePointList(ev.Params["keys"].([]byte))
	diffs := util.DecodeIntArray(ev.Params["diffs"].([]byte))
	want := d.Reputation
	for i, k := range keys {
		if k.Equal(d.OnetimePseudoNym) {
			want += diffs[i]
			break
		}
	}
	r := d.Suite.Secret().Add(d.R, d.Suite.Secret().Zero())
	Handle(buf, d)
	return d.Reputation == want && d.R.Equal(r)
}

// Nothing else changes blinding or reputation, but for registration.
func specPartialOther(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	rep := d.Reputation
	r := d.Suite.Secret().Add(d.R, d.Suite.Secret().Zero())
	Handle(buf, d)
	return (ev.EventType == proto.ROUND_END || d.Reputation == rep) &&
		(ev.EventType == proto.BCAST_PEDERSEN_RDIFF || ev.EventType == proto.INIT_PEDERSEN_R || d.R.Equal(r))
}
