//overlay cmd/server
package server

import (
	"net"

	"github.com/dedis/crypto/abstract"

	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

// a server's key and its first round key are drawn when it starts
func specPartialKey() bool {
	initAnonServer()
	s := anonServer
	return util.SpecDrawn(s.PrivateKey, -1) && util.SpecDrawn(s.Roundkey, -1) && util.SpecOther(s.PrivateKey, s.Roundkey) &&
		s.PublicKey.Equal(s.Suite.Point().Mul(nil, s.PrivateKey))
}

func specPartialAny(buf []byte, s *AnonServer) bool {
	specBuf = buf
	Handle(buf, s)
	return true
}

// a round key is replaced by a draw
func specOnRoundkey(s *AnonServer, old, now abstract.Secret) bool { return util.SpecFresh(now) }

// Every mask that goes into a message is drawn for it.
func specOnSend(s *AnonServer, to *net.TCPAddr, kind int, params map[string]interface{}) bool {
	ev, _ := util.DecodeEvent(specBuf)
	p := ev.Params
	switch kind {
	case proto.UPDATE_PEDERSEN_H:
		h, old := util.DecodePoint(s.Suite, params["h"].([]byte)), util.DecodePoint(s.Suite, p["h"].([]byte))
		return util.SpecFresh(util.SpecExponent(h, old))
	case proto.ROUND_END, proto.ANNOUNCEMENT:
		h, old := util.DecodePoint(s.Suite, params["HT"].([]byte)), util.DecodePoint(s.Suite, p["HT"].([]byte))
		return util.SpecFresh(util.SpecExponent(h, old))
	}
	return true
}

// the nonces of the signatures of a list of assignments are drawn for each
func specPartialSign(buf []byte, s *AnonServer, i int) bool {
	Handle(buf, s)
	for _, m := range util.SpecSent {
		if m.Kind != proto.GOT_SIGNS {
			continue
		}
		v, ok := m.Params["signatures"]
		if !ok {
			continue
		}
		sigs := util.Decode2DByteArray(v.([]byte))
		if i >= 0 && i < len(sigs) && !util.SpecDrawn(util.SpecNonce(sigs[i]), i) {
			return false
		}
	}
	return true
}

// the next round key is not what the table was masked with
func specPartialRoundkey(buf []byte, s *AnonServer) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ROUND_END {
		return true
	}
	old := util.DecodePoint(s.Suite, ev.Params["HT"].([]byte))
	Handle(buf, s)
	for _, m := range util.SpecSent {
		if m.Kind == proto.ROUND_END && !util.SpecOther(s.Roundkey, util.SpecExponent(util.DecodePoint(s.Suite, m.Params["HT"].([]byte)), old)) {
			return false
		}
	}
	return util.SpecDrawn(s.Roundkey, -1)
}
