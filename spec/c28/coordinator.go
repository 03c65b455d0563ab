//overlay cmd/coordinator
package coordinator

import (
	"bytes"
	"math/big"
	"net"

	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

// A waiting proof is dropped, or replaced by one made for this registration.
func specOnGnHonestyProofs(c *Coordinator, addr string, old GnHonestyProof, had bool, now GnHonestyProof, has bool) bool {
	if !has || had && specSame(old.Secret, now.Secret) && specSame(old.Public, now.Public) {
		return true
	}
	ev, _ := util.DecodeEvent(specBuf)
	if ev.EventType != proto.CLIENT_REGISTER_SERVERSIDE || len(now.Secret) != 480 || len(now.Public) != 480 {
		return false
	}
	to, _ := net.ResolveTCPAddr("tcp", ev.Params["addr"].(string))
	return addr == to.String() && specNewProof(c, now)
}

// Nothing but a challenge is answered.
func specOnSend(c *Coordinator, to *net.TCPAddr, kind int, p map[string]interface{}) bool {
	ev, _ := util.DecodeEvent(specBuf)
	return kind != proto.GN_HONESTY_ANSWER || ev.EventType == proto.GN_HONESTY_CHALLENGE
}

func specSame(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// specNewProof: every secret was drawn now, on its own, and announced as h1 to it
func specNewProof(c *Coordinator, p GnHonestyProof) bool {
	b := c.FujiOkamBase
	for i := range p.Secret {
		if !util.SpecDrawnInt(p.Secret[i], i) || b.Point().Exp(b.H1, p.Secret[i]).V.Cmp(p.Public[i]) != 0 {
			return false
		}
	}
	return true
}

// A registered client gets the parameters and its own proof's announcements.
func specPartialConfirmed(buf []byte, c *Coordinator) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.CLIENT_REGISTER_SERVERSIDE {
		return true
	}
	util.DecodePoint(c.Suite, ev.Params["public_key"].([]byte))
	util.DecodePoint(c.Suite, ev.Params["pcomm"].([]byte))
	b := c.FujiOkamBase
	n, h := b.N.Bytes(), b.H1.ToBinary()
	g1, g2, g3, g4, g5, g6 := b.G1.ToBinary(), b.G2.ToBinary(), b.G3.ToBinary(), b.G4.ToBinary(), b.G5.ToBinary(), b.G6.ToBinary()
	util.SpecSent = nil
	Handle(buf, c)
	if len(util.SpecSent) != 1 {
		return false
	}
	m := util.SpecSent[0]
	p := m.Params
	own, ok := c.GnHonestyProofs[m.To.String()]
	to, _ := net.ResolveTCPAddr("tcp", ev.Params["addr"].(string))
	return ok && m.Kind == proto.CLIENT_REGISTER_CONFIRMATION && m.To.String() == to.String() &&
		bytes.Equal(p["honesty_prf"].([]byte), util.ProtobufEncodeBigIntList(own.Public)) &&
		bytes.Equal(p["n"].([]byte), n) && bytes.Equal(p["h1"].([]byte), h) &&
		bytes.Equal(p["g1"].([]byte), g1) && bytes.Equal(p["g2"].([]byte), g2) && bytes.Equal(p["g3"].([]byte), g3) &&
		bytes.Equal(p["g4"].([]byte), g4) && bytes.Equal(p["g5"].([]byte), g5) && bytes.Equal(p["g6"].([]byte), g6)
}

// specPartialOwn: and the proof that waits for it was made for it
func specPartialOwn(buf []byte, c *Coordinator) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.CLIENT_REGISTER_SERVERSIDE {
		return true
	}
	util.DecodePoint(c.Suite, ev.Params["public_key"].([]byte))
	util.DecodePoint(c.Suite, ev.Params["pcomm"].([]byte))
	Handle(buf, c)
	to, _ := net.ResolveTCPAddr("tcp", ev.Params["addr"].(string))
	own, ok := c.GnHonestyProofs[to.String()]
	return ok && specNewProof(c, own)
}

// A challenge is answered with the secrets waiting for its sender, which are
// forgotten; without them it is not answered.
func specPartialAnswered(buf []byte, c *Coordinator) bool {
	ev, addr := util.DecodeEvent(buf)
	if ev.EventType != proto.GN_HONESTY_CHALLENGE {
		return true
	}
	own, ok := c.GnHonestyProofs[addr.String()]
	util.SpecSent = nil
	Handle(buf, c)
	if _, still := c.GnHonestyProofs[addr.String()]; still {
		return false
	}
	if !ok {
		return len(util.SpecSent) == 0
	}
	if len(util.SpecSent) != 1 {
		return false
	}
	m := util.SpecSent[0]
	bits := util.ProtobufDecodeBoolList(ev.Params["honesty_chal"].([]byte))
	answer := c.FujiOkamBase.AnswerAllGnHonesty(bits, own.Secret, own.Public)
	return m.Kind == proto.GN_HONESTY_ANSWER && m.To == addr && bytes.Equal(m.Params["honesty_ans"].([]byte), util.ProtobufEncodeBigIntList(answer))
}

// Other clients' proofs stay.
func specPartialOthers(buf []byte, c *Coordinator, k string) bool {
	ev, addr := util.DecodeEvent(buf)
	old, had := c.GnHonestyProofs[k]
	Handle(buf, c)
	if ev.EventType == proto.CLIENT_REGISTER_SERVERSIDE || ev.EventType == proto.GN_HONESTY_CHALLENGE && k == addr.String() {
		return true
	}
	now, has := c.GnHonestyProofs[k]
	return has == had && specSame(old.Secret, now.Secret) && specSame(old.Public, now.Public)
}
