//overlay cmd/server
package server

import (
	"zRep/proto"
	"zRep/util"
	"zRep/util/shuffle"

	"github.com/dedis/crypto/proof"
)

// specGood: the message is one a coordinator or server sends; its table was
// shuffled provably if it was shuffled
func specGood(s *AnonServer, ev *proto.Event, kind int) bool {
	p := ev.Params
	if ev.EventType != kind {
		return false
	}
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	vals := util.ProtobufDecodePointList(p["vals"].([]byte))
	if len(keys) != len(vals) || s.KeyMap == nil {
		return false
	}
	util.DecodePoint(s.Suite, p["GT"].([]byte))
	util.DecodePoint(s.Suite, p["HT"].([]byte))
	if g, ok := p["g"]; ok {
		util.DecodePoint(s.Suite, g.([]byte))
	}
	if _, shuffled := p["shuffled"]; shuffled {
		xbar := util.ProtobufDecodePointList(p["xbar"].([]byte))
		ybar := util.ProtobufDecodePointList(p["ybar"].([]byte))
		x := util.ProtobufDecodePointList(p["prev_keys"].([]byte))
		y := util.ProtobufDecodePointList(p["prev_vals"].([]byte))
		h := util.DecodePoint(s.Suite, p["public_key"].([]byte))
		return proof.HashVerify(s.Suite, "PairShuffle", shuffle.Verifier(s.Suite, nil, h, x, y, xbar, ybar), p["proof"].([]byte)) == nil
	}
	return true
}

// The bases: the generator is raised to the round key, both commitment bases
// to one fresh exponent; the table keeps its size; nothing else is sent.
func specBases(buf []byte, s *AnonServer) bool {
	ev, _ := util.DecodeEvent(buf)
	if !specGood(s, ev, proto.ANNOUNCEMENT) {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	GT := util.DecodePoint(s.Suite, p["GT"].([]byte))
	HT := util.DecodePoint(s.Suite, p["HT"].([]byte))
	g := s.Suite.Point().Mul(nil, s.Roundkey)
	if val, ok := p["g"]; ok {
		g = s.Suite.Point().Mul(util.DecodePoint(s.Suite, val.([]byte)), s.Roundkey)
	}
	key := s.Suite.Secret().Set(s.Roundkey)
	util.SpecSent = nil
	util.SpecMark()
	Handle(buf, s)
	if len(util.SpecSent) != 1 {
		return false
	}
	m := util.SpecSent[0]
	if m.Kind != proto.ANNOUNCEMENT || !util.DecodePoint(s.Suite, m.Params["g"].([]byte)).Equal(g) || !s.Roundkey.Equal(key) {
		return false
	}
	gt := util.DecodePoint(s.Suite, m.Params["GT"].([]byte))
	ht := util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	e := util.SpecExponent(gt, GT)
	if !util.SpecDrawn(e, -1) || !ht.Equal(s.Suite.Point().Mul(HT, e)) {
		return false
	}
	return len(util.ProtobufDecodePointList(m.Params["keys"].([]byte))) == len(keys) && len(util.ProtobufDecodePointList(m.Params["vals"].([]byte))) == len(keys)
}

// Every entry sent is an entry received with its key raised to the round key
// and its commitment to the bases' exponent, and the old key is remembered.
func specEntries(buf []byte, s *AnonServer, i int) bool {
	ev, _ := util.DecodeEvent(buf)
	if !specGood(s, ev, proto.ANNOUNCEMENT) {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	vals := util.ProtobufDecodePointList(p["vals"].([]byte))
	util.SpecDistinct(keys)
	if i < 0 || i >= len(keys) {
		return true
	}
	GT := util.DecodePoint(s.Suite, p["GT"].([]byte))
	util.SpecSent = nil
	util.SpecMark()
	Handle(buf, s)
	m := util.SpecSent[0]
	e := util.SpecExponent(util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), GT)
	k := util.ProtobufDecodePointList(m.Params["keys"].([]byte))[i]
	v := util.ProtobufDecodePointList(m.Params["vals"].([]byte))[i]
	for j := range keys {
		if k.Equal(s.Suite.Point().Mul(keys[j], s.Roundkey)) && v.Equal(s.Suite.Point().Mul(vals[j], e)) && s.KeyMap[k.String()].Equal(keys[j]) {
			return true
		}
	}
	return false
}

// No entry is lost.
func specAll(buf []byte, s *AnonServer, j int) bool {
	ev, _ := util.DecodeEvent(buf)
	if !specGood(s, ev, proto.ANNOUNCEMENT) {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	util.SpecDistinct(keys)
	if j < 0 || j >= len(keys) {
		return true
	}
	want := s.Suite.Point().Mul(keys[j], s.Roundkey)
	util.SpecSent = nil
	util.SpecMark()
	Handle(buf, s)
	for _, k := range util.ProtobufDecodePointList(util.SpecSent[0].Params["keys"].([]byte)) {
		if k.Equal(want) {
			return true
		}
	}
	return false
}
