//overlay cmd/server
package server

import (
	"net"

	"zRep/proto"
	"zRep/util"
	"zRep/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

var specBuf []byte

func specPartialAny(buf []byte, s *AnonServer) bool {
	specBuf = buf
	Handle(buf, s)
	return true
}

// specVerified: the shuffle proof in p is right for the tables and the key in p
func specVerified(s *AnonServer, p map[string]interface{}) bool {
	xbar := util.ProtobufDecodePointList(p["xbar"].([]byte))
	ybar := util.ProtobufDecodePointList(p["ybar"].([]byte))
	x := util.ProtobufDecodePointList(p["prev_keys"].([]byte))
	y := util.ProtobufDecodePointList(p["prev_vals"].([]byte))
	h := util.DecodePoint(s.Suite, p["public_key"].([]byte))
	return proof.HashVerify(s.Suite, "PairShuffle", shuffle.Verifier(s.Suite, nil, h, x, y, xbar, ybar), p["proof"].([]byte)) == nil
}

func specFromServer(ev *proto.Event) bool {
	_, g := ev.Params["g"]
	_, start := ev.Params["is_start"]
	return ev.EventType == proto.ANNOUNCEMENT && g || ev.EventType == proto.ROUND_END && !start
}

// A table leaves the server only after the proof it came with was verified,
// and with a proof that the next server will accept if it was shuffled.
func specOnSend(s *AnonServer, to *net.TCPAddr, kind int, p map[string]interface{}) bool {
	if kind != proto.ANNOUNCEMENT && kind != proto.ROUND_END {
		return true
	}
	if !specAccepted(s) {
		return false
	}
	if n := len(util.ProtobufDecodePointList(p["keys"].([]byte))); n <= 1 {
		return true
	}
	_, shuffled := p["shuffled"]
	return shuffled && specVerified(s, p) && util.DecodePoint(s.Suite, p["public_key"].([]byte)).Equal(s.PublicKey)
}

// specAccepted: the table in the message being handled was verified if it had to be
func specAccepted(s *AnonServer) bool {
	ev, _ := util.DecodeEvent(specBuf)
	_, shuffled := ev.Params["shuffled"]
	return !shuffled || !specFromServer(ev) || specVerified(s, ev.Params)
}

// Nor is anything remembered, or the round key given up, before that.
func specOnKeyMap(s *AnonServer, key string, old abstract.Point, had bool, new abstract.Point, has bool) bool {
	return specAccepted(s)
}

func specOnRoundkey(s *AnonServer, old, new abstract.Secret) bool { return specAccepted(s) }
