//overlay cmd/coordinator
package coordinator

import (
	"net"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

// A bridge changes only from unused to used, by a request, and keeps its provider;
// it is new only by a post, and forgotten only as a whole.
func specOnBridges(c *Coordinator, addr string, old BridgeInfo, had bool, now BridgeInfo, has bool) bool {
	if !has || had && old == now {
		return true
	}
	ev, _ := util.DecodeEvent(specBuf)
	switch ev.EventType {
	case proto.POST_BRIDGE:
		return !had && !now.Used
	case proto.REQUEST_BRIDGES:
		return had && !old.Used && now.Used && old.Nym == now.Nym
	case proto.GOT_SIGNS:
		return now.Used && (!had || old.Nym == now.Nym)
	}
	return false
}

// The assignments of a request are no more than its indicator, each for a bridge that is marked
// as used, with its provider, for the requester.
func specOnSend(c *Coordinator, to *net.TCPAddr, kind int, p map[string]interface{}) bool {
	if kind != proto.SIGN_ASSIGNMENTS {
		return true
	}
	ev, _ := util.DecodeEvent(specBuf)
	nymR := util.DecodePoint(c.Suite, ev.Params["nym"].([]byte))
	l := bridge.DecodeAssignmentList(p["assignments"].([]byte))
	if len(l) > ev.Params["ind"].(int) {
		return false
	}
	for _, a := range l {
		b, ok := c.Bridges[a.Addr]
		if !ok || !b.Used || !b.Nym.Equal(a.Nym) || !nymR.Equal(a.NymR) {
			return false
		}
	}
	return true
}

