//overlay cmd/coordinator
package coordinator

import (
	"bytes"
	"net"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

func specFind(kind int) (util.SpecMessage, int) {
	var r util.SpecMessage
	n := 0
	for _, m := range util.SpecSent {
		if m.Kind == kind {
			r = m
			n++
		}
	}
	return r, n
}

// A new client's commitment is to the starting credit under the blinding that
// the client is sent, with the generator of the round.
func specPartialRegister(buf []byte, c *Coordinator) bool {
	ev, from := util.DecodeEvent(buf)
	if ev.EventType != proto.CLIENT_REGISTER_CONTROLLERSIDE || len(c.ServerList) == 0 || c.ServerList[0].Addr == nil {
		return true
	}
	gt, ht, g := c.PedersenBase.GT, c.PedersenBase.HT, c.G
	key := util.DecodePoint(c.Suite, ev.Params["public_key"].([]byte))
	util.SpecSent = nil
	Handle(buf, c)
	if len(util.SpecSent) != 2 {
		return false
	}
	m, n := specFind(proto.CLIENT_REGISTER_SERVERSIDE)
	i, k := specFind(proto.INIT_PEDERSEN_R)
	if n != 1 || k != 1 || m.To != c.ServerList[0].Addr || i.To != from {
		return false
	}
	r := util.DecodeSecret(c.Suite, i.Params["r"].([]byte))
	if !util.SpecDrawn(r, -1) {
		return false
	}
	credit := c.Suite.Secret().SetInt64(int64(bridge.StartingCredit))
	want := c.Suite.Point().Add(c.Suite.Point().Mul(gt, credit), c.Suite.Point().Mul(ht, r))
	return bytes.Equal(i.Params["g"].([]byte), util.EncodePoint(g)) && bytes.Equal(m.Params["public_key"].([]byte), ev.Params["public_key"].([]byte)) &&
		m.Params["addr"].(string) == from.String() && bytes.Equal(m.Params["pcomm"].([]byte), util.EncodePoint(want)) && c.Clients[key.String()] == from
}

// The pseudonym and commitment that come back wait for the round's end, and
// the client gets the coordinator's key and integer commitment parameters.
func specPartialReturned(buf []byte, c *Coordinator) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.CLIENT_REGISTER_SERVERSIDE {
		return true
	}
	util.DecodePoint(c.Suite, ev.Params["public_key"].([]byte))
	util.DecodePoint(c.Suite, ev.Params["pcomm"].([]byte))
	p := ev.Params
	old := c.NewClientsBuffer
	util.SpecSent = nil
	Handle(buf, c)
	if len(c.NewClientsBuffer) != len(old)+1 || len(util.SpecSent) != 1 {
		return false
	}
	for i := range old {
		if c.NewClientsBuffer[i] != old[i] {
			return false
		}
	}
	added := c.NewClientsBuffer[len(old)]
	m := util.SpecSent[0]
	to, err := net.ResolveTCPAddr("tcp", p["addr"].(string))
	f := c.FujiOkamBase
	return err == nil && m.To == to && m.Kind == proto.CLIENT_REGISTER_CONFIRMATION &&
		added.Nym.Equal(util.DecodePoint(c.Suite, p["public_key"].([]byte))) && added.PComm.Equal(util.DecodePoint(c.Suite, p["pcomm"].([]byte))) &&
		bytes.Equal(m.Params["public_key"].([]byte), util.EncodePoint(c.PublicKey)) && bytes.Equal(m.Params["n"].([]byte), f.N.Bytes()) &&
		bytes.Equal(m.Params["g1"].([]byte), f.G1.ToBinary()) && bytes.Equal(m.Params["g2"].([]byte), f.G2.ToBinary()) &&
		bytes.Equal(m.Params["g3"].([]byte), f.G3.ToBinary()) && bytes.Equal(m.Params["g4"].([]byte), f.G4.ToBinary()) &&
		bytes.Equal(m.Params["g5"].([]byte), f.G5.ToBinary()) && bytes.Equal(m.Params["g6"].([]byte), f.G6.ToBinary()) &&
		bytes.Equal(m.Params["h1"].([]byte), f.H1.ToBinary())
}

// At the round's end the waiting clients enter the table.
func specPartialEnter(c *Coordinator, key string) bool {
	anonCoordinator = c
	n := len(c.ServerList)
	if n == 0 || c.ServerList[n-1].Addr == nil {
		return true
	}
	k := map[string]abstract.Point{}
	v := map[string]abstract.Point{}
	for _, b := range c.NewClientsBuffer {
		k[b.Nym.String()] = b.Nym
		v[b.Nym.String()] = b.PComm
	}
	wantK, fresh := k[key]
	wantV := v[key]
	oldK, hadK := c.EndingKeyMap[key]
	oldV, hadV := c.EndingCommMap[key]
	roundEnd()
	nowK, hasK := c.EndingKeyMap[key]
	nowV, hasV := c.EndingCommMap[key]
	if fresh {
		return hasK && hasV && nowK.Equal(wantK) && nowV.Equal(wantV)
	}
	return hasK == hadK && hasV == hadV && nowK == oldK && nowV == oldV
}

var specBuf []byte

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

// Only returned registrations change what waits for the round's end.
func specOnNewClientsBuffer(c *Coordinator, old, now []ClientTuple) bool {
	ev, _ := util.DecodeEvent(specBuf)
	return ev.EventType == proto.CLIENT_REGISTER_SERVERSIDE
}
