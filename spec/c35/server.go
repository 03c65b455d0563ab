//overlay cmd/server
package server

import (
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

// The round's table is stored key by key.
func specPartialStored(buf []byte, s *AnonServer, key string) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT_FINALIZE {
		return true
	}
	keys := util.ProtobufDecodePointList(ev.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(ev.Params["vals"].([]byte))
	k := map[string]abstract.Point{}
	v := map[string]abstract.Point{}
	for i := range keys {
		k[keys[i].String()] = keys[i]
		v[keys[i].String()] = vals[i]
	}
	Handle(buf, s)
	want, there := k[key]
	return !there || s.EndingKeyMap[key].Equal(want) && s.EndingCommMap[key].Equal(v[key])
}
