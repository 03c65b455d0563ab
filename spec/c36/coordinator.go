//overlay cmd/coordinator
package coordinator

import (
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

// The announced table replaces the old one, and nothing was voted on yet.
func specPartialAnnounced(buf []byte, c *Coordinator, key string) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	vals := util.ProtobufDecodePointList(p["vals"].([]byte))
	k := map[string]abstract.Point{}
	v := map[string]abstract.Point{}
	for i := range keys {
		k[keys[i].String()] = keys[i]
		v[keys[i].String()] = vals[i]
	}
	Handle(buf, c)
	want, there := k[key]
	got, ok := c.EndingKeyMap[key]
	comm, okc := c.EndingCommMap[key]
	if ok != there || okc != there || there && (!got.Equal(want) || !comm.Equal(v[key])) {
		return false
	}
	if len(c.AllClientsPublicKeys) != len(keys) {
		return false
	}
	for i := range keys {
		if !c.AllClientsPublicKeys[i].Equal(keys[i]) {
			return false
		}
	}
	_, diff := c.ReputationDiffMap[key]
	return c.ReputationDiffMap[key] == 0 && !diff && !c.VotedAssignments[key]
}

// The coordinator takes over the round's generator and commitment bases.
func specPartialBases(buf []byte, c *Coordinator) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT && ev.EventType != proto.ROUND_END {
		return true
	}
	g, p := c.G, ev.Params
	Handle(buf, c)
	if !c.PedersenBase.GT.Equal(util.DecodePoint(c.Suite, p["GT"].([]byte))) || !c.PedersenBase.HT.Equal(util.DecodePoint(c.Suite, p["HT"].([]byte))) {
		return false
	}
	if ev.EventType == proto.ROUND_END {
		return c.G == g && c.Status == READY_FOR_NEW_ROUND
	}
	return c.G.Equal(util.DecodePoint(c.Suite, p["g"].([]byte))) && c.Status == MESSAGE
}

// The table to start the next round from replaces the one before it.
func specPartialRestored(buf []byte, c *Coordinator, key string) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ROUND_END {
		return true
	}
	keys := util.ProtobufDecodePointList(ev.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(ev.Params["vals"].([]byte))
	k := map[string]abstract.Point{}
	v := map[string]abstract.Point{}
	for i := range keys {
		k[keys[i].String()] = keys[i]
		v[keys[i].String()] = vals[i]
	}
	Handle(buf, c)
	want, there := k[key]
	got, ok := c.BeginningKeyMap[key]
	comm, okc := c.BeginningCommMap[key]
	return ok == there && okc == there && (!there || got.Equal(want) && comm.Equal(v[key]))
}

// The end of a round leaves no bridge and no pending assignment, and closes it.
func specPartialClosed(c *Coordinator, key string) bool {
	anonCoordinator = c
	n := len(c.ServerList)
	if n > 0 && c.ServerList[n-1].Addr == nil {
		return true
	}
	roundEnd()
	_, b := c.Bridges[key]
	_, a := c.AssignmentSignaturesLog[key]
	return n == 0 || !a && !b && c.Status == CLOSING
}

// A new round starts without requesters or new clients of the last one.
func specCleared(c *Coordinator, key string) bool {
	anonCoordinator = c
	clearBuffer()
	_, r := c.RequesterAddrs[key]
	c.RequesterAddrs[key] = c.LocalAddr
	return !r && len(c.NewClientsBuffer) == 0
}
