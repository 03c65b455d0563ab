//overlay cmd/client
package client

import (
	"bytes"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
)

// A client takes over blinding and generator, and derives its pseudonym.
func specPartialInit(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.INIT_PEDERSEN_R {
		return true
	}
	rep := d.Reputation
	Handle(buf, d)
	r := util.DecodeSecret(d.Suite, ev.Params["r"].([]byte))
	g := util.DecodePoint(d.Suite, ev.Params["g"].([]byte))
	return d.R.Equal(r) && d.G.Equal(g) && d.OnetimePseudoNym.Equal(d.Suite.Point().Mul(g, d.PrivateKey)) && d.Reputation == rep
}

// A client starts with the starting credit.
func specPartialStart() bool {
	initClient()
	return dissentClient.Reputation == bridge.StartingCredit &&
		dissentClient.PublicKey.Equal(dissentClient.Suite.Point().Mul(nil, dissentClient.PrivateKey))
}

// A client registers its own key with the coordinator.
func specPartialAsk(d *DissentClient) bool {
	dissentClient = d
	util.SpecSent = nil
	register()
	if len(util.SpecSent) != 1 {
		return false
	}
	m := util.SpecSent[0]
	return m.Kind == proto.CLIENT_REGISTER_CONTROLLERSIDE && m.To == d.CoordinatorAddr && bytes.Equal(m.Params["public_key"].([]byte), util.EncodePoint(d.PublicKey))
}
