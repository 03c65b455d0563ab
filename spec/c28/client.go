//overlay cmd/client
package client

import (
	"bytes"
	"math/big"

	"zRep/proto"
	"zRep/util"
)

// A client challenges the parameters it was sent, with bits of its own.
func specPartialChallenges(buf []byte, d *DissentClient, k int) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.CLIENT_REGISTER_CONFIRMATION {
		return true
	}
	util.SpecSent = nil
	Handle(buf, d)
	p := ev.Params
	b := d.FujiOkamBase
	if len(util.SpecSent) != 1 || len(d.AllGnHonestyChallenge) != 480 {
		return false
	}
	m := util.SpecSent[0]
	if m.Kind != proto.GN_HONESTY_CHALLENGE || m.To != d.CoordinatorAddr || !bytes.Equal(m.Params["honesty_chal"].([]byte), util.ProtobufEncodeBoolList(d.AllGnHonestyChallenge)) {
		return false
	}
	if k >= 0 && k < 480 && !util.SpecDrawnBit(d.AllGnHonestyChallenge[k], k) {
		return false
	}
	public := util.ProtobufDecodeBigIntList(p["honesty_prf"].([]byte))
	if len(public) != len(d.AllGnHonestyProofPublic) {
		return false
	}
	for i := range public {
		if public[i].Cmp(d.AllGnHonestyProofPublic[i]) != 0 {
			return false
		}
	}
	return b.G1.Equal(b.Point().FromBinary(p["g1"].([]byte))) && b.G2.Equal(b.Point().FromBinary(p["g2"].([]byte))) && b.G3.Equal(b.Point().FromBinary(p["g3"].([]byte))) &&
		b.G4.Equal(b.Point().FromBinary(p["g4"].([]byte))) && b.G5.Equal(b.Point().FromBinary(p["g5"].([]byte))) && b.G6.Equal(b.Point().FromBinary(p["g6"].([]byte))) &&
		b.H1.Equal(b.Point().FromBinary(p["h1"].([]byte))) && b.N.Cmp(new(big.Int).SetBytes(p["n"].([]byte))) == 0
}

// It goes on only if the answer to its challenge passes.
func specPartialChecked(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType != proto.GN_HONESTY_ANSWER {
		return true
	}
	answer := util.ProtobufDecodeBigIntList(ev.Params["honesty_ans"].([]byte))
	res := d.FujiOkamBase.CheckAllGnHonesty(answer, d.AllGnHonestyChallenge, d.AllGnHonestyProofPublic)
	Handle(buf, d)
	return res == 0
}

// Challenge, announcements and parameters stay those of the registration.
func specPartialStays(buf []byte, d *DissentClient) bool {
	ev, _ := util.DecodeEvent(buf)
	if ev.EventType == proto.CLIENT_REGISTER_CONFIRMATION {
		return true
	}
	b := *d.FujiOkamBase
	old := *d
	Handle(buf, d)
	if len(old.AllGnHonestyChallenge) != len(d.AllGnHonestyChallenge) || len(old.AllGnHonestyProofPublic) != len(d.AllGnHonestyProofPublic) {
		return false
	}
	for i := range old.AllGnHonestyChallenge {
		if old.AllGnHonestyChallenge[i] != d.AllGnHonestyChallenge[i] {
			return false
		}
	}
	for i := range old.AllGnHonestyProofPublic {
		if old.AllGnHonestyProofPublic[i].Cmp(d.AllGnHonestyProofPublic[i]) != 0 {
			return false
		}
	}
	n := d.FujiOkamBase
	return b.N.Cmp(n.N) == 0 && b.G1.Equal(n.G1) && b.G2.Equal(n.G2) && b.G3.Equal(n.G3) && b.G4.Equal(n.G4) && b.G5.Equal(n.G5) && b.G6.Equal(n.G6) && b.H1.Equal(n.H1)
}
