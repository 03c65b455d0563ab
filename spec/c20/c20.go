//overlay cmd/coordinator
package coordinator

import (
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

var specBuf []byte

func specMember(list []abstract.Point, nym abstract.Point) bool {
	for _, k := range list {
		if k.Equal(nym) {
			return true
		}
	}
	return false
}

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

// A bridge is taken, or recorded by a valid post of that address by a current
// pseudonym.
func specOnBridges(c *Coordinator, addr string, old BridgeInfo, had bool, now BridgeInfo, has bool) bool {
	if had && now.Used && now.Nym == old.Nym || !has {
		return true
	}
	if had == has && now == old {
		return true
	}
	ev, _ := util.DecodeEvent(specBuf)
	if ev.EventType == proto.GOT_SIGNS {
		// an assignment in progress has its bridge recorded; an entry that is used from the start is never assigned
		return now.Used && !had
	}
	return ev.EventType == proto.POST_BRIDGE && addr == ev.Params["bridge_addr"].(string) && !had && specPost(c, ev.Params) &&
		!now.Used && now.Nym.Equal(util.DecodePoint(c.Suite, ev.Params["nym"].([]byte)))
}

func specPost(c *Coordinator, p map[string]interface{}) bool {
	nym := util.DecodePoint(c.Suite, p["nym"].([]byte))
	msg := append([]byte(p["bridge_addr"].(string)), p["nym"].([]byte)...)
	return c.Status == MESSAGE && specMember(c.AllClientsPublicKeys, nym) &&
		util.ElGamalVerify(c.Suite, msg, nym, p["signature"].([]byte), c.G) == nil
}

// A valid post is recorded.
func specPartialPost(buf []byte, c *Coordinator) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.POST_BRIDGE {
		return true
	}
	p := ev.Params
	addr := p["bridge_addr"].(string)
	if _, had := c.Bridges[addr]; had || c.G == nil || !specPost(c, p) {
		return true
	}
	Handle(buf, c)
	now, has := c.Bridges[addr]
	return has && now.Nym.Equal(util.DecodePoint(c.Suite, p["nym"].([]byte))) && !now.Used
}

// The bridges are only ever replaced by none.
func specPartialClosing(c *Coordinator, addr string) bool {
	anonCoordinator = c
	_, had := c.Bridges[addr]
	old := c.Bridges[addr]
	roundEnd()
	now, has := c.Bridges[addr]
	return !has || had && now == old
}
