//overlay cmd/server
package server

import (
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

// A server takes over the round's table, generator and commitment bases.
func specPartialFinal(buf []byte, s *AnonServer, key string) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT_FINALIZE {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	vals := util.ProtobufDecodePointList(p["vals"].([]byte))
	k := map[string]abstract.Point{}
	v := map[string]abstract.Point{}
	for i := range keys {
		k[keys[i].String()] = keys[i]
		v[keys[i].String()] = vals[i]
	}
	Handle(buf, s)
	want, there := k[key]
	got, ok := s.EndingKeyMap[key]
	comm, okc := s.EndingCommMap[key]
	if ok != there || okc != there || there && (!got.Equal(want) || !comm.Equal(v[key])) {
		return false
	}
	return s.PedersenBase.GT.Equal(util.DecodePoint(s.Suite, p["GT"].([]byte))) && s.PedersenBase.HT.Equal(util.DecodePoint(s.Suite, p["HT"].([]byte))) &&
		s.G.Equal(util.DecodePoint(s.Suite, p["g"].([]byte)))
}
