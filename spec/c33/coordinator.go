//overlay cmd/coordinator
package coordinator

import (
	"bytes"

	"zRep/proto"
	"zRep/util"
)

// At the round's end the commitment under each key is multiplied by a
// commitment to the key's difference, and the blinding used for it is sent
// with the same key to every client.
func specPartialStep(c *Coordinator, i int) bool {
	anonCoordinator = c
	util.SpecKeyed(c.EndingKeyMap)
	n := len(c.ServerList)
	if n == 0 || c.ServerList[n-1].Addr == nil {
		return true
	}
	gt, ht := c.PedersenBase.GT, c.PedersenBase.HT
	util.SpecSent = nil
	roundEnd()
	e, f := specClosing()
	m := util.SpecSent[e]
	keys := util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(m.Params["vals"].([]byte))
	if m.Kind != proto.ROUND_END || len(keys) != len(c.EndingCommMap) && len(keys) != len(c.EndingKeyMap) || len(vals) != len(keys) {
		return false
	}
	if len(util.SpecSent) != 1+len(c.Clients) {
		return false
	}
	if len(c.Clients) < 1 || i < 0 || i >= len(keys) {
		return true
	}
	b := util.SpecSent[f]
	rDiffs := util.ProtobufDecodeSecretList(b.Params["rDiffs"].([]byte))
	if b.Kind != proto.BCAST_PEDERSEN_RDIFF || !bytes.Equal(b.Params["keys"].([]byte), m.Params["keys"].([]byte)) || len(rDiffs) != len(keys) {
		return false
	}
	k := keys[i].String()
	diff := c.Suite.Secret().SetInt64(int64(c.ReputationDiffMap[k]))
	if !util.SpecDrawn(rDiffs[i], i) {
		return false
	}
	step := c.Suite.Point().Add(c.Suite.Point().Mul(gt, diff), c.Suite.Point().Mul(ht, rDiffs[i]))
	return vals[i].Equal(c.Suite.Point().Add(c.EndingCommMap[k], step))
}

// Every client is sent the same blindings.
func specPartialAll(c *Coordinator, j int) bool {
	anonCoordinator = c
	n := len(c.ServerList)
	if n == 0 || c.ServerList[n-1].Addr == nil {
		return true
	}
	util.SpecSent = nil
	roundEnd()
	e, f := specClosing()
	if len(util.SpecSent) != 1+len(c.Clients) || util.SpecSent[e].To != c.ServerList[n-1].Addr {
		return false
	}
	if !specBlindings(j) {
		return true
	}
	a, b := util.SpecSent[f], util.SpecSent[j]
	return a.Kind == b.Kind && bytes.Equal(a.Params["keys"].([]byte), b.Params["keys"].([]byte)) && bytes.Equal(a.Params["rDiffs"].([]byte), b.Params["rDiffs"].([]byte))
}

// Every client is sent every difference, with its key.
func specPartialDiffs(buf []byte, c *Coordinator, i, j int) bool {
	util.SpecKeyed(c.EndingKeyMap)
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ROUND_END {
		return true
	}
	for k := range c.ReputationDiffMap {
		if _, ok := c.EndingKeyMap[k]; !ok {
			return true
		}
	}
	util.SpecSent = nil
	Handle(buf, c)
	if len(util.SpecSent) != len(c.Clients) {
		return false
	}
	if j < 0 || j >= len(c.Clients) {
		return true
	}
	m := util.SpecSent[j]
	keys := util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	diffs := util.DecodeIntArray(m.Params["diffs"].([]byte))
	if m.Kind != proto.ROUND_END || len(keys) != len(c.ReputationDiffMap) || len(diffs) != len(keys) {
		return false
	}
	return i < 0 || i >= len(keys) || diffs[i] == c.ReputationDiffMap[keys[i].String()]
}

// No difference is left out.
func specPartialComplete(buf []byte, c *Coordinator, key string) bool {
	util.SpecKeyed(c.EndingKeyMap)
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ROUND_END || len(c.Clients) < 1 {
		return true
	}
	if _, ok := c.ReputationDiffMap[key]; !ok {
		return true
	}
	for k := range c.ReputationDiffMap {
		if _, ok := c.EndingKeyMap[k]; !ok {
			return true
		}
	}
	util.SpecSent = nil
	Handle(buf, c)
	for _, k := range util.ProtobufDecodePointList(util.SpecSent[0].Params["keys"].([]byte)) {
		if k.String() == key {
			return true
		}
	}
	return false
}

// No client's commitment is left out, new clients' included.
func specPartialMembers(c *Coordinator, key string) bool {
	anonCoordinator = c
	util.SpecKeyed(c.EndingKeyMap)
	n := len(c.ServerList)
	if n == 0 || c.ServerList[n-1].Addr == nil {
		return true
	}
	_, member := c.EndingCommMap[key]
	for _, b := range c.NewClientsBuffer {
		if b.Nym.String() == key {
			member = true
		}
	}
	if !member {
		return true
	}
	for k := range c.EndingCommMap {
		if _, ok := c.EndingKeyMap[k]; !ok {
			return true
		}
	}
	util.SpecSent = nil
	roundEnd()
	e, _ := specClosing()
	for _, k := range util.ProtobufDecodePointList(util.SpecSent[e].Params["keys"].([]byte)) {
		if k.String() == key {
			return true
		}
	}
	return false
}

// specClosing: where the table and the first blindings are among the messages
// that end a round
func specClosing() (int, int) {
	if util.SpecSent[0].Kind == proto.ROUND_END {
		return 0, 1
	}
	return len(util.SpecSent) - 1, 0
}

// specBlindings: the messages that end a round are the table and one message of
// first blindings per client, in either order; j indexes one of the latter
func specBlindings(j int) bool {
	if util.SpecSent[0].Kind == proto.ROUND_END {
		return j >= 1 && j < len(util.SpecSent)
	}
	return j >= 0 && j < len(util.SpecSent)-1
}

// Whoever registers, those at other addresses go on being sent blindings.
func specPartialRegistered(buf []byte, c *Coordinator, key string) bool {
	ev, from := util.DecodeEvent(buf)
	if ev.EventType != proto.CLIENT_REGISTER_CONTROLLERSIDE {
		return true
	}
	pk := util.DecodePoint(c.Suite, ev.Params["public_key"].([]byte))
	old, had := c.Clients[key]
	if c.Clients == nil || had && old == nil {
		return true
	}
	Handle(buf, c)
	if key == pk.String() {
		return c.Clients[key] == from
	}
	now, has := c.Clients[key]
	return !had && !has || had && old.String() == from.String() || has && now == old
}
