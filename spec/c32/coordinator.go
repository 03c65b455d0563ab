//overlay cmd/coordinator
package coordinator

import (
	"net"

	"zRep/proto"
	"zRep/util"
)

// A new server is linked after the last one, and learns its predecessor.
func specPartialLink(buf []byte, c *Coordinator) bool {
	ev, from := util.DecodeEvent(buf)
	if ev.EventType != proto.SERVER_REGISTER {
		return true
	}
	old := c.ServerList
	n := len(old)
	if n > 0 && old[n-1].Addr == nil {
		return true
	}
	util.SpecSent = nil
	Handle(buf, c)
	if len(c.ServerList) != n+1 || c.ServerList[n].Addr != from || !c.ServerList[n].PublicKey.Equal(util.DecodePoint(c.Suite, ev.Params["public_key"].([]byte))) {
		return false
	}
	for i := range old {
		if c.ServerList[i] != old[i] {
			return false
		}
	}
	prev := c.LocalAddr
	if n > 0 {
		prev = old[n-1].Addr
		if len(util.SpecSent) != 2 {
			return false
		}
	} else if len(util.SpecSent) != 1 {
		return false
	}
	links := 0
	for _, m := range util.SpecSent {
		if m.Kind == proto.UPDATE_NEXT_HOP {
			links++
			to, err := net.ResolveTCPAddr("tcp", m.Params["next_hop"].(string))
			if m.To != prev || err != nil || to != from {
				return false
			}
		} else {
			to, err := net.ResolveTCPAddr("tcp", m.Params["prev_server"].(string))
			if m.Kind != proto.SERVER_REGISTER_REPLY || m.To != from || err != nil || to != prev || !m.Params["reply"].(bool) {
				return false
			}
		}
	}
	return links == len(util.SpecSent)-1
}

// The announcement starts at the first server.
func specPartialAnnounce(c *Coordinator) bool {
	anonCoordinator = c
	if len(c.ServerList) == 0 || c.ServerList[0].Addr == nil {
		return true
	}
	util.SpecSent = nil
	announce()
	return len(util.SpecSent) == 1 && util.SpecSent[0].Kind == proto.ANNOUNCEMENT && util.SpecSent[0].To == c.ServerList[0].Addr
}

// The round's end starts at the last server; the clients get the blindings.
func specPartialEnd(c *Coordinator, j int) bool {
	anonCoordinator = c
	n := len(c.ServerList)
	if n == 0 || c.ServerList[n-1].Addr == nil {
		return true
	}
	util.SpecSent = nil
	roundEnd()
	e, _ := specClosing()
	if len(util.SpecSent) != 1+len(c.Clients) || util.SpecSent[e].Kind != proto.ROUND_END || util.SpecSent[e].To != c.ServerList[n-1].Addr {
		return false
	}
	return !specBlindings(j) || util.SpecSent[j].Kind == proto.BCAST_PEDERSEN_RDIFF
}

// Commitment bases go to every server.
func specPartialBases(c *Coordinator, j int) bool {
	anonCoordinator = c
	util.SpecSent = nil
	configCommParams()
	if len(util.SpecSent) != len(c.ServerList) {
		return false
	}
	return j < 0 || j >= len(util.SpecSent) || util.SpecSent[j].Kind == proto.BCAST_PEDERSEN_H && util.SpecSent[j].To == c.ServerList[j].Addr
}

// The finished table goes to every client
func specPartialTable(buf []byte, c *Coordinator, addr string) bool {
	ev, _ := util.DecodeEvent(buf)
	to, member := c.Clients[addr]
	if ev.EventType != proto.ANNOUNCEMENT || !member {
		return true
	}
	util.SpecSent = nil
	Handle(buf, c)
	if len(util.SpecSent) != len(c.Clients)+len(c.ServerList) {
		return false
	}
	for _, m := range util.SpecSent {
		if m.To == to {
			return true
		}
	}
	return false
}

// and every server.
func specPartialTableServers(buf []byte, c *Coordinator, i int) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT || i < 0 || i >= len(c.ServerList) {
		return true
	}
	to := c.ServerList[i].Addr
	util.SpecSent = nil
	Handle(buf, c)
	if len(util.SpecSent) != len(c.Clients)+len(c.ServerList) {
		return false
	}
	for _, m := range util.SpecSent {
		if m.To == to {
			return true
		}
	}
	return false
}

// A new client's registration starts at the first server.
func specPartialClient(buf []byte, c *Coordinator) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.CLIENT_REGISTER_CONTROLLERSIDE || len(c.ServerList) == 0 || c.ServerList[0].Addr == nil {
		return true
	}
	util.SpecSent = nil
	Handle(buf, c)
	for _, m := range util.SpecSent {
		if m.Kind == proto.CLIENT_REGISTER_SERVERSIDE {
			return m.To == c.ServerList[0].Addr
		}
	}
	return false
}

// Requests for signatures go to every server.
func specPartialSign(buf []byte, c *Coordinator, j int) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.REQUEST_BRIDGES {
		return true
	}
	util.SpecSent = nil
	Handle(buf, c)
	n := len(util.SpecSent)
	if n != 0 && n != len(c.ServerList) {
		return false
	}
	return j < 0 || j >= n || util.SpecSent[j].Kind == proto.SIGN_ASSIGNMENTS && util.SpecSent[j].To == c.ServerList[j].Addr
}

var specBuf []byte

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

// Only a server's registration changes the chain.
func specOnServerList(c *Coordinator, old, now []ServerInfo) bool {
	ev, _ := util.DecodeEvent(specBuf)
	return ev.EventType == proto.SERVER_REGISTER
}

// specClosing: where the table and the first blindings are among the messages
// that end a round
func specClosing() (int, int) {
	if util.SpecSent[0].Kind == proto.ROUND_END {
		return 0, 1
	}
	return len(util.SpecSent) - 1, 0
}

// specBlindings: the messages that end a round are the table and one message of
// first blindings per client, in either order; j indexes one of the latter
func specBlindings(j int) bool {
	if util.SpecSent[0].Kind == proto.ROUND_END {
		return j >= 1 && j < len(util.SpecSent)
	}
	return j >= 0 && j < len(util.SpecSent)-1
}
