//overlay cmd/client
package client

import (
	"bytes"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

var specBuf []byte

func specPartialAny(buf []byte, d *DissentClient) bool {
	specBuf = buf
	Handle(buf, d)
	return true
}

// A client starts without a coordinator's key.
func specPartialStart() bool {
	initClient()
	return dissentClient.ControllerPublicKey == nil && len(dissentClient.Assignments) == 0
}

// specReleased: the coordinator's signature over assignment and signatures
func specReleased(d *DissentClient, p map[string]interface{}) bool {
	msg := append([]byte{}, p["assignment"].([]byte)...)
	msg = append(msg, p["signatures"].([]byte)...)
	return d.ControllerPublicKey != nil && util.ElGamalVerify(d.Suite, msg, d.ControllerPublicKey, p["signature"].([]byte), nil) == nil
}

func specSameInfo(a, b AssignmentInfo) bool {
	return a.Assignment == b.Assignment && bytes.Equal(a.ByteSignatures, b.ByteSignatures)
}

func specIs(i AssignmentInfo, p map[string]interface{}) bool {
	a, b := i.Assignment, bridge.DecodeAssignment(p["assignment"].([]byte))
	return a.Addr == b.Addr && a.Nym.Equal(b.Nym) && a.NymR.Equal(b.NymR) && bytes.Equal(i.ByteSignatures, p["signatures"].([]byte))
}

// Recorded assignments are dropped together, or one that was signed is added.
func specOnAssignments(d *DissentClient, old, now []AssignmentInfo) bool {
	if len(now) == 0 {
		return true
	}
	ev, _ := util.DecodeEvent(specBuf)
	if ev.EventType != proto.GOT_SIGNS || !specReleased(d, ev.Params) || len(now) != len(old)+1 {
		return false
	}
	for i := range old {
		if !specSameInfo(old[i], now[i]) {
			return false
		}
	}
	return specIs(now[len(old)], ev.Params)
}

// A released assignment is recorded; nothing else is.
func specPartialReleased(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.GOT_SIGNS {
		return true
	}
	ok := specReleased(d, ev.Params)
	old := d.Assignments
	Handle(buf, d)
	now := d.Assignments
	if !ok {
		return len(now) == len(old)
	}
	return len(now) == len(old)+1 && specIs(now[len(old)], ev.Params)
}

// The coordinator's key is the one received at registration.
func specPartialKey(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if d.ControllerPublicKey == nil && ev.EventType != proto.CLIENT_REGISTER_CONFIRMATION {
		Handle(buf, d)
		return d.ControllerPublicKey == nil
	}
	before := d.Suite.Point().Null()
	if d.ControllerPublicKey != nil {
		before.Add(d.ControllerPublicKey, before)
	}
	Handle(buf, d)
	if ev.EventType == proto.CLIENT_REGISTER_CONFIRMATION {
		before = util.DecodePoint(d.Suite, ev.Params["public_key"].([]byte))
	}
	return d.ControllerPublicKey.Equal(before)
}

// A vote carries the recorded assignment and signatures, to the coordinator.
func specPartialVote(d *DissentClient, i, feedback int) bool {
	if d.G == nil {
		return true
	}
	d.OnetimePseudoNym = d.Suite.Point().Mul(d.G, d.PrivateKey)
	dissentClient = d
	info := d.Assignments[i]
	raw := bridge.EncodeAssignment(info.Assignment)
	util.SpecSent = nil
	sendVote(i, feedback)
	if len(util.SpecSent) != 1 {
		return false
	}
	m := util.SpecSent[0]
	p := m.Params
	f := p["feedback"].(int)
	if m.Kind != proto.VOTE || m.To != d.CoordinatorAddr || !bytes.Equal(p["assignment"].([]byte), raw) ||
		!bytes.Equal(p["signatures"].([]byte), info.ByteSignatures) || f != 1 && f != -1 ||
		feedback == 1 && f != 1 || feedback == -1 && f != -1 {
		return false
	}
	msg := append([]byte{}, p["nym"].([]byte)...)
	msg = append(msg, raw...)
	msg = append(msg, info.ByteSignatures...)
	msg = append(msg, util.IntToByte(f)...)
	return bytes.Equal(p["nym"].([]byte), util.EncodePoint(d.OnetimePseudoNym)) &&
		util.ElGamalVerify(d.Suite, msg, d.OnetimePseudoNym, p["signature"].([]byte), d.G) == nil
}

// What was released is what is voted with: the assignment's bytes come back.
func specPartialRoundTrip(buf []byte, d *DissentClient, a *bridge.Assignment) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.GOT_SIGNS || !specReleased(d, ev.Params) || !bytes.Equal(ev.Params["assignment"].([]byte), bridge.EncodeAssignment(a)) {
		return true
	}
	n := len(d.Assignments)
	Handle(buf, d)
	dissentClient = d
	util.SpecSent = nil
	sendVote(n, 1)
	p := util.SpecSent[0].Params
	return bytes.Equal(p["assignment"].([]byte), bridge.EncodeAssignment(a)) && bytes.Equal(p["signatures"].([]byte), ev.Params["signatures"].([]byte))
}

var _ abstract.Point
