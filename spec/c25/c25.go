//overlay cmd/coordinator
package coordinator

import (
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

var specBuf []byte

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

func specMember(list []abstract.Point, nym abstract.Point) bool {
	for _, k := range list {
		if k.Equal(nym) {
			return true
		}
	}
	return false
}

// specVote: the conditions under which a vote counts
func specVote(c *Coordinator, p map[string]interface{}) bool {
	if c.Status != MESSAGE {
		return false
	}
	nym := util.DecodePoint(c.Suite, p["nym"].([]byte))
	if !specMember(c.AllClientsPublicKeys, nym) {
		return false
	}
	raw := p["assignment"].([]byte)
	feedback := p["feedback"].(int)
	msg := append([]byte{}, p["nym"].([]byte)...)
	msg = append(msg, raw...)
	msg = append(msg, p["signatures"].([]byte)...)
	msg = append(msg, util.IntToByte(feedback)...)
	if util.ElGamalVerify(c.Suite, msg, nym, p["signature"].([]byte), c.G) != nil {
		return false
	}
	sigs := util.Decode2DByteArray(p["signatures"].([]byte))
	if len(sigs) != len(c.ServerList)+1 {
		return false
	}
	for i, s := range c.ServerList {
		if util.ElGamalVerify(c.Suite, raw, s.PublicKey, sigs[i], nil) != nil {
			return false
		}
	}
	if util.ElGamalVerify(c.Suite, raw, c.PublicKey, sigs[len(c.ServerList)], nil) != nil {
		return false
	}
	return bridge.DecodeAssignment(raw).NymR.Equal(nym) && (feedback == 1 || feedback == -1)
}

// A difference changes exactly by a valid vote's feedback to the provider.
func specPartialVote(buf []byte, c *Coordinator, key string) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.VOTE {
		return true
	}
	p := ev.Params
	old := c.ReputationDiffMap[key]
	valid := specVote(c, p) && !c.VotedAssignments[string(p["assignment"].([]byte))]
	Handle(buf, c)
	now := c.ReputationDiffMap[key]
	if !valid || bridge.DecodeAssignment(p["assignment"].([]byte)).Nym.String() != key {
		return now == old
	}
	if c.G == nil && now == old {
		return true // no round was ever opened (C03)
	}
	return now == old+p["feedback"].(int) && c.VotedAssignments[string(p["assignment"].([]byte))]
}

// An assignment is marked as voted on only by a valid vote, and stays so until
// the next round.
func specOnVotedAssignments(c *Coordinator, key string, old bool, had bool, now bool, has bool) bool {
	ev, _ := util.DecodeEvent(specBuf)
	if old == now {
		return true
	}
	if ev.EventType == proto.ANNOUNCEMENT {
		return !now
	}
	return ev.EventType == proto.VOTE && now && key == string(ev.Params["assignment"].([]byte)) && specVote(c, ev.Params)
}

// Only a valid vote changes a difference (by how much: specPartialVote).
func specOnReputationDiffMap(c *Coordinator, key string, old int, had bool, now int, has bool) bool {
	ev, _ := util.DecodeEvent(specBuf)
	return old == now || ev.EventType == proto.ANNOUNCEMENT && !has || ev.EventType == proto.VOTE && specVote(c, ev.Params)
}
