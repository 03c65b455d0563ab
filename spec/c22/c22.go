//overlay cmd/server
package server

import (
	"bytes"
	"math/big"
	"net"

	"zRep/cmd/bridge"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

func specPartialAny(buf []byte, s *AnonServer) bool {
	specBuf = buf
	Handle(buf, s)
	return true
}

// specProven: the conditions under which a server signs
func specProven(s *AnonServer, p map[string]interface{}) bool {
	suite := s.Suite
	nym := util.DecodePoint(suite, p["nym"].([]byte))
	table, ok := s.EndingCommMap[nym.String()]
	if !ok {
		return false
	}
	ind := suite.Secret().SetInt64(int64(p["ind"].(int)))
	rind := util.DecodeSecret(suite, p["rind"].([]byte))
	own := suite.Point().Add(suite.Point().Mul(s.PedersenBase.GT, ind), suite.Point().Mul(s.PedersenBase.HT, rind))
	pcommind := util.DecodePoint(suite, p["PCommind"].([]byte))
	if !own.Equal(pcommind) {
		return false
	}
	pcommd := util.DecodePoint(suite, p["PCommd"].([]byte))
	if !pcommd.Equal(suite.Point().Sub(table, pcommind)) {
		return false
	}
	focommd := s.FujiOkamBase.Point().SetBigInt(new(big.Int).SetBytes(p["FOCommd"].([]byte)))
	if !s.FujiOkamBase.VerifyNonneg(focommd, util.DecodeARGnonneg(p["arg_nonneg"].([]byte))) {
		return false
	}
	arg := util.DecodeARGequal(p["arg_equal"].([]byte))
	if arg.S1.Sign() < 0 || arg.S1.BitLen() > suite.Secret().MarshalSize()*8 {
		return false
	}
	return pedersen_fujiokam.VerifyEqual(s.PedersenBase, s.FujiOkamBase, pcommd, focommd, arg)
}

// Signatures leave the server only for a proven request.
func specOnSend(s *AnonServer, to *net.TCPAddr, kind int, p map[string]interface{}) bool {
	if kind != proto.GOT_SIGNS {
		return true
	}
	ev, _ := util.DecodeEvent(specBuf)
	_, signed := p["signatures"]
	return ev.EventType == proto.SIGN_ASSIGNMENTS && (!p["success"].(bool) && !signed || specProven(s, ev.Params))
}

// A request is answered by every assignment's signature, or by a failure.
func specPartialSign(buf []byte, s *AnonServer) bool {
	s.PublicKey = s.Suite.Point().Mul(nil, s.PrivateKey)
	ev, from := util.DecodeEvent(buf)
	if ev.EventType != proto.SIGN_ASSIGNMENTS {
		return true
	}
	proven := specProven(s, ev.Params)
	util.SpecSent = nil
	Handle(buf, s)
	m := util.SpecSent[0]
	if len(util.SpecSent) != 1 || m.Kind != proto.GOT_SIGNS || m.To != from {
		return false
	}
	if !proven {
		_, signed := m.Params["signatures"]
		return !m.Params["success"].(bool) && !signed
	}
	list := bridge.DecodeAssignmentList(ev.Params["assignments"].([]byte))
	sigs := util.Decode2DByteArray(m.Params["signatures"].([]byte))
	if !m.Params["success"].(bool) || !bytes.Equal(m.Params["assignments"].([]byte), ev.Params["assignments"].([]byte)) || len(sigs) != len(list) {
		return false
	}
	for i := range list {
		if util.ElGamalVerify(s.Suite, bridge.EncodeAssignment(&list[i]), s.PublicKey, sigs[i], nil) != nil {
			return false
		}
	}
	return true
}
