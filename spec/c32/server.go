//overlay cmd/server
package server

import (
	"net"

	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

func specPartialAny(buf []byte, s *AnonServer) bool {
	specBuf = buf
	Handle(buf, s)
	return true
}

// Each message goes to the neighbour its direction requires, and is of the
// kind that travels that way.
func specOnSend(s *AnonServer, to *net.TCPAddr, kind int, p map[string]interface{}) bool {
	ev, from := util.DecodeEvent(specBuf)
	switch kind {
	case proto.ANNOUNCEMENT:
		return ev.EventType == proto.ANNOUNCEMENT && to == s.NextHop
	case proto.CLIENT_REGISTER_SERVERSIDE:
		return ev.EventType == proto.CLIENT_REGISTER_SERVERSIDE && to == s.NextHop
	case proto.ROUND_END:
		return ev.EventType == proto.ROUND_END && to == s.PreviousHop
	case proto.GOT_SIGNS:
		return ev.EventType == proto.SIGN_ASSIGNMENTS && to == from
	case proto.UPDATE_PEDERSEN_H:
		return ev.EventType == proto.SERVER_REGISTER_REPLY && to == from
	}
	return false
}

// The next server is set by the coordinator's update only.
func specOnNextHop(s *AnonServer, old, now *net.TCPAddr) bool {
	ev, _ := util.DecodeEvent(specBuf)
	to, _ := net.ResolveTCPAddr("tcp", ev.Params["next_hop"].(string))
	return ev.EventType == proto.UPDATE_NEXT_HOP && now == to
}

// The previous one by the answer to the registration only.
func specOnPreviousHop(s *AnonServer, old, now *net.TCPAddr) bool {
	ev, _ := util.DecodeEvent(specBuf)
	to, _ := net.ResolveTCPAddr("tcp", ev.Params["prev_server"].(string))
	return ev.EventType == proto.SERVER_REGISTER_REPLY && now == to
}

func specPartialHops(buf []byte, s *AnonServer) bool {
	ev, _ := util.DecodeEvent(buf)
	next, prev := s.NextHop, s.PreviousHop
	if ev.EventType == proto.UPDATE_NEXT_HOP {
		next, _ = net.ResolveTCPAddr("tcp", ev.Params["next_hop"].(string))
	}
	if ev.EventType == proto.SERVER_REGISTER_REPLY {
		if v, ok := ev.Params["prev_server"]; ok {
			prev, _ = net.ResolveTCPAddr("tcp", v.(string))
		}
	}
	Handle(buf, s)
	return s.NextHop == next && s.PreviousHop == prev
}

// Each message of the chain is passed on, once.
func specPartialPassed(buf []byte, s *AnonServer) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.ANNOUNCEMENT && ev.EventType != proto.ROUND_END && ev.EventType != proto.CLIENT_REGISTER_SERVERSIDE {
		return true
	}
	util.SpecSent = nil
	Handle(buf, s)
	return len(util.SpecSent) == 1 && util.SpecSent[0].Kind == ev.EventType
}

// At first both neighbours are the coordinator.
func specPartialStart() bool {
	initAnonServer()
	return anonServer.NextHop == anonServer.CoordinatorAddr && anonServer.PreviousHop == anonServer.CoordinatorAddr
}

// A server registers with the coordinator.
func specPartialRegister(s *AnonServer) bool {
	anonServer = s
	util.SpecSent = nil
	serverRegister()
	return len(util.SpecSent) == 1 && util.SpecSent[0].Kind == proto.SERVER_REGISTER && util.SpecSent[0].To == s.CoordinatorAddr &&
		string(util.SpecSent[0].Params["public_key"].([]byte)) == string(util.EncodePoint(s.PublicKey))
}
