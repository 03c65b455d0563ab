//overlay cmd/client
package client

import (
	"math/big"
	"net"

	"zRep/proto"
	"zRep/util"
)

// a client's key is drawn when it starts
func specPartialKey() bool {
	initClient()
	d := dissentClient
	return util.SpecDrawn(d.PrivateKey, -1) && d.PublicKey.Equal(d.Suite.Point().Mul(nil, d.PrivateKey))
}

func specPartialPost(d *DissentClient, addr string) bool {
	dissentClient = d
	postBridge(addr)
	return true
}

func specPartialRequest(d *DissentClient, ind int) bool {
	dissentClient = d
	requestBridges(ind)
	return true
}

func specPartialVote(d *DissentClient, id, feedback int) bool {
	dissentClient = d
	sendVote(id, feedback)
	return true
}

// the nonce of every signature that is sent is drawn for it
func specOnSend(d *DissentClient, to *net.TCPAddr, kind int, params map[string]interface{}) bool {
	return util.SpecFresh(util.SpecNonce(params["signature"].([]byte)))
}

// specExponentInt is an intrinsic: the exponent that out has on in
func specExponentInt(out, in *big.Int) *big.Int { return nil }

// A request's blindings are drawn for it.
func specPartialBlindings(d *DissentClient, ind int) bool {
	dissentClient = d
	b := d.FujiOkamBase
	requestBridges(ind)
	for _, m := range util.SpecSent {
		if m.Kind != proto.REQUEST_BRIDGES {
			continue
		}
		r := d.Suite.Secret()
		r.UnmarshalBinary(m.Params["rind"].([]byte))
		s := specExponentInt(&b.Point().FromBinary(m.Params["FOCommd"].([]byte)).V, &b.H1.V)
		s.Add(s, b.RandomRadius)
		if !util.SpecDrawn(r, -1) || !util.SpecDrawnBelow(s, b.RandomDiameter, -1) {
			return false
		}
	}
	return true
}
