//overlay cmd/client
package client

import (
	"zRep/proto"
	"zRep/util"
)

// A client takes over the round's generator, pseudonym and commitment bases.
func specPartialFinal(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT_FINALIZE {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	g := util.DecodePoint(d.Suite, p["g"].([]byte))
	key := d.PrivateKey
	Handle(buf, d)
	if len(d.AllClientsPublicKeys) != len(keys) {
		return false
	}
	for i := range keys {
		if !d.AllClientsPublicKeys[i].Equal(keys[i]) {
			return false
		}
	}
	return d.PedersenBase.GT.Equal(util.DecodePoint(d.Suite, p["GT"].([]byte))) && d.PedersenBase.HT.Equal(util.DecodePoint(d.Suite, p["HT"].([]byte))) &&
		d.G.Equal(g) && d.OnetimePseudoNym.Equal(d.Suite.Point().Mul(g, key)) && d.Status == MESSAGE
}

// The round's end leaves no assignments.
func specPartialEnded(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ROUND_END {
		return true
	}
	Handle(buf, d)
	return len(d.Assignments) == 0 && d.Status != MESSAGE
}
