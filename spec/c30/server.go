//overlay cmd/server
package server

import (
	"zRep/proto"
	"zRep/util"
	"zRep/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// specGood: the message is one a coordinator or server sends; its table was
// shuffled provably if it was shuffled
func specGood(s *AnonServer, ev *proto.Event, kind int) bool {
	p := ev.Params
	if ev.EventType != kind {
		return false
	}
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	vals := util.ProtobufDecodePointList(p["vals"].([]byte))
	if len(keys) != len(vals) || s.KeyMap == nil {
		return false
	}
	util.DecodePoint(s.Suite, p["GT"].([]byte))
	util.DecodePoint(s.Suite, p["HT"].([]byte))
	if g, ok := p["g"]; ok {
		util.DecodePoint(s.Suite, g.([]byte))
	}
	for _, k := range keys {
		if s.KeyMap[k.String()] == nil {
			return false
		}
	}
	if _, shuffled := p["shuffled"]; shuffled {
		xbar := util.ProtobufDecodePointList(p["xbar"].([]byte))
		ybar := util.ProtobufDecodePointList(p["ybar"].([]byte))
		x := util.ProtobufDecodePointList(p["prev_keys"].([]byte))
		y := util.ProtobufDecodePointList(p["prev_vals"].([]byte))
		h := util.DecodePoint(s.Suite, p["public_key"].([]byte))
		return proof.HashVerify(s.Suite, "PairShuffle", shuffle.Verifier(s.Suite, nil, h, x, y, xbar, ybar), p["proof"].([]byte)) == nil
	}
	return true
}

// remembered: the keys remembered for a table's keys
func specRemembered(s *AnonServer, keys []abstract.Point) []abstract.Point {
	old := make([]abstract.Point, len(keys))
	for i := range keys {
		old[i] = s.KeyMap[keys[i].String()]
	}
	return old
}

// Both commitment bases are raised to one fresh exponent, the table keeps its
// size, and on every path the round key is replaced by a fresh one and the
// remembered keys are forgotten.
func specBases(buf []byte, s *AnonServer) bool {
	ev, _ := util.DecodeEvent(buf)
	if !specGood(s, ev, proto.ROUND_END) {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	GT := util.DecodePoint(s.Suite, p["GT"].([]byte))
	HT := util.DecodePoint(s.Suite, p["HT"].([]byte))
	util.SpecSent = nil
	util.SpecMark()
	Handle(buf, s)
	if len(util.SpecSent) != 1 {
		return false
	}
	m := util.SpecSent[0]
	gt := util.DecodePoint(s.Suite, m.Params["GT"].([]byte))
	ht := util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	e := util.SpecExponent(gt, GT)
	if m.Kind != proto.ROUND_END || !util.SpecDrawn(e, -1) || !ht.Equal(s.Suite.Point().Mul(HT, e)) {
		return false
	}
	if !util.SpecDrawn(s.Roundkey, -1) || !util.SpecOther(s.Roundkey, e) || len(s.KeyMap) != 0 || s.KeyMap == nil {
		return false
	}
	return len(util.ProtobufDecodePointList(m.Params["keys"].([]byte))) == len(keys) && len(util.ProtobufDecodePointList(m.Params["vals"].([]byte))) == len(keys)
}

// Every entry sent is an entry received with the key remembered for its key
// and its commitment raised to the bases' exponent.
func specEntries(buf []byte, s *AnonServer, i int) bool {
	ev, _ := util.DecodeEvent(buf)
	if !specGood(s, ev, proto.ROUND_END) {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	vals := util.ProtobufDecodePointList(p["vals"].([]byte))
	old := specRemembered(s, keys)
	util.SpecDistinct(old)
	if i < 0 || i >= len(keys) {
		return true
	}
	GT := util.DecodePoint(s.Suite, p["GT"].([]byte))
	util.SpecSent = nil
	util.SpecMark()
	Handle(buf, s)
	m := util.SpecSent[0]
	e := util.SpecExponent(util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), GT)
	k := util.ProtobufDecodePointList(m.Params["keys"].([]byte))[i]
	v := util.ProtobufDecodePointList(m.Params["vals"].([]byte))[i]
	for j := range keys {
		if k.Equal(old[j]) && v.Equal(s.Suite.Point().Mul(vals[j], e)) {
			return true
		}
	}
	return false
}

// No entry is lost.
func specAll(buf []byte, s *AnonServer, j int) bool {
	ev, _ := util.DecodeEvent(buf)
	if !specGood(s, ev, proto.ROUND_END) {
		return true
	}
	p := ev.Params
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	old := specRemembered(s, keys)
	util.SpecDistinct(old)
	if j < 0 || j >= len(keys) {
		return true
	}
	util.SpecSent = nil
	util.SpecMark()
	Handle(buf, s)
	for _, k := range util.ProtobufDecodePointList(util.SpecSent[0].Params["keys"].([]byte)) {
		if k.Equal(old[j]) {
			return true
		}
	}
	return false
}
