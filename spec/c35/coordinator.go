//overlay cmd/coordinator
package coordinator

import (
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

// The table announced lists each key with its own commitment.
func specPartialAnnounce(c *Coordinator, i int) bool {
	anonCoordinator = c
	util.SpecKeyed(c.BeginningKeyMap)
	if len(c.ServerList) == 0 || c.ServerList[0].Addr == nil {
		return true
	}
	util.SpecSent = nil
	announce()
	p := util.SpecSent[0].Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	vals := util.ProtobufDecodePointList(p["vals"].([]byte))
	if len(util.SpecSent) != 1 || len(keys) != len(c.BeginningCommMap) || len(vals) != len(keys) {
		return false
	}
	return i < 0 || i >= len(keys) || vals[i].Equal(c.BeginningCommMap[keys[i].String()])
}

// It leaves nobody out.
func specPartialMembers(c *Coordinator, key string) bool {
	anonCoordinator = c
	util.SpecKeyed(c.BeginningKeyMap)
	if len(c.ServerList) == 0 || c.ServerList[0].Addr == nil {
		return true
	}
	if _, ok := c.BeginningCommMap[key]; !ok {
		return true
	}
	util.SpecSent = nil
	announce()
	for _, k := range util.ProtobufDecodePointList(util.SpecSent[0].Params["keys"].([]byte)) {
		if k.String() == key {
			return true
		}
	}
	return false
}

// Received tables are stored key by key.
func specPartialStored(buf []byte, c *Coordinator, key string) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT && ev.EventType != proto.ROUND_END {
		return true
	}
	keys := util.ProtobufDecodePointList(ev.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(ev.Params["vals"].([]byte))
	k := map[string]abstract.Point{}
	v := map[string]abstract.Point{}
	for i := range keys {
		k[keys[i].String()] = keys[i]
		v[keys[i].String()] = vals[i]
	}
	Handle(buf, c)
	ks, vs := c.EndingKeyMap, c.EndingCommMap
	if ev.EventType == proto.ROUND_END {
		ks, vs = c.BeginningKeyMap, c.BeginningCommMap
	}
	want, there := k[key]
	return !there || ks[key].Equal(want) && vs[key].Equal(v[key])
}

// The table goes on to clients and servers as it came.
func specPartialForward(buf []byte, c *Coordinator, j int) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT {
		return true
	}
	util.SpecSent = nil
	Handle(buf, c)
	if j < 0 || j >= len(util.SpecSent) {
		return true
	}
	m, p := util.SpecSent[j], ev.Params
	for _, f := range []string{"keys", "vals", "g", "GT", "HT"} {
		if string(m.Params[f].([]byte)) != string(p[f].([]byte)) {
			return false
		}
	}
	return m.Kind == proto.ANNOUNCEMENT_FINALIZE
}

// At the round's end commitments, blindings and keys are listed in step.
func specPartialEnd(c *Coordinator, i int) bool {
	anonCoordinator = c
	util.SpecKeyed(c.EndingKeyMap)
	n := len(c.ServerList)
	if n == 0 || c.ServerList[n-1].Addr == nil || len(c.Clients) < 1 {
		return true
	}
	gt, ht := c.PedersenBase.GT, c.PedersenBase.HT
	util.SpecSent = nil
	roundEnd()
	e, f := specClosing()
	keys := util.ProtobufDecodePointList(util.SpecSent[e].Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(util.SpecSent[e].Params["vals"].([]byte))
	to := util.ProtobufDecodePointList(util.SpecSent[f].Params["keys"].([]byte))
	rDiffs := util.ProtobufDecodeSecretList(util.SpecSent[f].Params["rDiffs"].([]byte))
	if len(vals) != len(keys) || len(rDiffs) != len(keys) || len(to) != len(keys) {
		return false
	}
	if i < 0 || i >= len(keys) {
		return true
	}
	k := keys[i].String()
	diff := c.Suite.Secret().SetInt64(int64(c.ReputationDiffMap[k]))
	step := c.Suite.Point().Add(c.Suite.Point().Mul(gt, diff), c.Suite.Point().Mul(ht, rDiffs[i]))
	return to[i].Equal(keys[i]) && vals[i].Equal(c.Suite.Point().Add(c.EndingCommMap[k], step))
}

// Differences are listed with their keys.
func specPartialDiffs(buf []byte, c *Coordinator, i, j int) bool {
	util.SpecKeyed(c.EndingKeyMap)
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ROUND_END {
		return true
	}
	for k := range c.ReputationDiffMap {
		if _, ok := c.EndingKeyMap[k]; !ok {
			return true
		}
	}
	util.SpecSent = nil
	Handle(buf, c)
	if j < 0 || j >= len(util.SpecSent) {
		return true
	}
	keys := util.ProtobufDecodePointList(util.SpecSent[j].Params["keys"].([]byte))
	diffs := util.DecodeIntArray(util.SpecSent[j].Params["diffs"].([]byte))
	return len(diffs) == len(keys) && (i < 0 || i >= len(keys) || diffs[i] == c.ReputationDiffMap[keys[i].String()])
}

// specClosing: where the table and the first blindings are among the messages
// that end a round
func specClosing() (int, int) {
	if util.SpecSent[0].Kind == proto.ROUND_END {
		return 0, 1
	}
	return len(util.SpecSent) - 1, 0
}
