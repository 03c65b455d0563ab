//overlay cmd/client
package client

import (
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

// Nothing but signed fields of a released assignment is looked at.
func specPartialReads(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.GOT_SIGNS {
		return true
	}
	Handle(buf, d)
	return util.SpecReads(ev.Params, "assignment", "signatures", "signature")
}

func specPartialAny(buf []byte, d *DissentClient) bool {
	specBuf = buf
	Handle(buf, d)
	return true
}

// Only what the coordinator has signed is kept.
func specOnAssignments(d *DissentClient, old, now []AssignmentInfo) bool {
	if len(now) == 0 {
		return true
	}
	ev, _ := util.DecodeEvent(specBuf)
	return ev.EventType == proto.GOT_SIGNS &&
		util.ElGamalVerify(d.Suite, bridge.MessageOfGotSignatures(ev.Params), d.ControllerPublicKey, ev.Params["signature"].([]byte), nil) == nil
}

// specSigned: every message that was sent is signed as its receiver checks it
func specSigned(d *DissentClient) bool {
	for _, m := range util.SpecSent {
		p := m.Params
		var msg []byte
		switch m.Kind {
		case proto.POST_BRIDGE:
			msg = bridge.MessageOfPostBridge(p)
		case proto.REQUEST_BRIDGES:
			msg = bridge.MessageOfRequestBridges(p)
		case proto.VOTE:
			msg = bridge.MessageOfVote(p)
		default:
			return false
		}
		nym := util.DecodePoint(d.Suite, p["nym"].([]byte))
		if util.ElGamalVerify(d.Suite, msg, nym, p["signature"].([]byte), d.G) != nil {
			return false
		}
	}
	return true
}

// A client's pseudonym is G to its key (announcements keep it so).
func specStart(d *DissentClient) {
	d.OnetimePseudoNym = d.Suite.Point().Mul(d.G, d.PrivateKey)
	dissentClient = d
	util.SpecSent = nil
}

func specPartialPost(d *DissentClient, addr string) bool {
	if d.G == nil {
		return true
	}
	specStart(d)
	postBridge(addr)
	return specSigned(d) && len(util.SpecSent) == 1
}

func specPartialRequest(d *DissentClient, ind int) bool {
	if d.G == nil {
		return true
	}
	specStart(d)
	requestBridges(ind)
	return specSigned(d)
}

func specPartialVote(d *DissentClient, id, feedback int) bool {
	if d.G == nil {
		return true
	}
	specStart(d)
	sendVote(id, feedback)
	return specSigned(d) && len(util.SpecSent) == 1
}
