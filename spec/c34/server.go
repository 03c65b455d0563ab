//overlay cmd/server
package server

import (
	"bytes"

	"zRep/proto"
	"zRep/util"
)

// A server raises the client's key by its round key, remembers it, and passes
// the rest on.
func specPartialRegister(buf []byte, s *AnonServer, other string) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.CLIENT_REGISTER_SERVERSIDE {
		return true
	}
	p := ev.Params
	key := util.DecodePoint(s.Suite, p["public_key"].([]byte))
	raised := s.Suite.Point().Mul(key, s.Roundkey)
	old, had := s.KeyMap[other]
	util.SpecSent = nil
	Handle(buf, s)
	if len(util.SpecSent) != 1 {
		return false
	}
	m := util.SpecSent[0]
	now, has := s.KeyMap[other]
	if other == raised.String() {
		if !has || !now.Equal(key) {
			return false
		}
	} else if has != had || now != old {
		return false
	}
	return m.Kind == proto.CLIENT_REGISTER_SERVERSIDE && m.To == s.NextHop && bytes.Equal(m.Params["public_key"].([]byte), util.EncodePoint(raised)) &&
		m.Params["addr"].(string) == p["addr"].(string) && bytes.Equal(m.Params["pcomm"].([]byte), p["pcomm"].([]byte))
}
