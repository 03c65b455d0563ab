//overlay cmd/coordinator
package coordinator

import (
	"net"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

// Nothing but signed fields is looked at.
func specPartialReads(buf []byte, c *Coordinator) bool {
	ev, _ := util.DecodeEvent(buf)
	p := ev.Params
	switch ev.EventType {
	case proto.POST_BRIDGE:
		Handle(buf, c)
		return util.SpecReads(p, "bridge_addr", "nym", "signature")
	case proto.REQUEST_BRIDGES:
		Handle(buf, c)
		return util.SpecReads(p, "ind", "nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal", "signature")
	case proto.VOTE:
		Handle(buf, c)
		return util.SpecReads(p, "nym", "assignment", "signatures", "feedback", "signature")
	}
	return true
}

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	c.PublicKey = c.Suite.Point().Mul(nil, c.PrivateKey)
	Handle(buf, c)
	return true
}

// specSigned: the message's sender has signed its content, made the same way
func specSigned(c *Coordinator) bool {
	ev, _ := util.DecodeEvent(specBuf)
	p := ev.Params
	var msg []byte
	switch ev.EventType {
	case proto.POST_BRIDGE:
		msg = bridge.MessageOfPostBridge(p)
	case proto.REQUEST_BRIDGES:
		msg = bridge.MessageOfRequestBridges(p)
	case proto.VOTE:
		msg = bridge.MessageOfVote(p)
	default:
		return true
	}
	nym := util.DecodePoint(c.Suite, p["nym"].([]byte))
	return util.ElGamalVerify(c.Suite, msg, nym, p["signature"].([]byte), c.G) == nil
}

// Nothing changes before the signature is checked.
func specOnBridges(c *Coordinator, addr string, old BridgeInfo, had bool, now BridgeInfo, has bool) bool {
	return specSigned(c)
}

func specOnRequesterAddrs(c *Coordinator, key string, old *net.TCPAddr, had bool, now *net.TCPAddr, has bool) bool {
	return specSigned(c)
}

func specOnAssignmentSignaturesLog(c *Coordinator, addr string, old AssignmentSignatures, had bool, now AssignmentSignatures, has bool) bool {
	return specSigned(c)
}

func specOnVotedAssignments(c *Coordinator, key string, old, had, now, has bool) bool { return specSigned(c) }

func specOnReputationDiffMap(c *Coordinator, key string, old int, had bool, now int, has bool) bool {
	return specSigned(c)
}

// Released assignments are signed as their receiver checks them.
func specOnSend(c *Coordinator, to *net.TCPAddr, kind int, p map[string]interface{}) bool {
	if kind == proto.GOT_SIGNS && util.ElGamalVerify(c.Suite, bridge.MessageOfGotSignatures(p), c.PublicKey, p["signature"].([]byte), nil) != nil {
		return false
	}
	return specSigned(c)
}

// the coordinator's signatures are its own
func specOwn(c *Coordinator, msg []byte) bool {
	c.PublicKey = c.Suite.Point().Mul(nil, c.PrivateKey)
	return util.ElGamalVerify(c.Suite, msg, c.PublicKey, c.SignMessage(msg), nil) == nil
}
