//overlay cmd/coordinator
package coordinator

import (
	"bytes"
	"math/big"
	"net"

	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

// specRequest: the conditions under which bridges are allocated
func specRequest(c *Coordinator, p map[string]interface{}) bool {
	suite := c.Suite
	nym := util.DecodePoint(suite, p["nym"].([]byte))
	table, ok := c.EndingCommMap[nym.String()]
	if c.Status != MESSAGE || !ok {
		return false
	}
	msg := util.IntToByte(p["ind"].(int))
	for _, k := range []string{"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"} {
		msg = append(msg, p[k].([]byte)...)
	}
	if util.ElGamalVerify(suite, msg, nym, p["signature"].([]byte), c.G) != nil {
		return false
	}
	// the indicator's commitment
	ind := suite.Secret().SetInt64(int64(p["ind"].(int)))
	rind := util.DecodeSecret(suite, p["rind"].([]byte))
	own := suite.Point().Add(suite.Point().Mul(c.PedersenBase.GT, ind), suite.Point().Mul(c.PedersenBase.HT, rind))
	pcommind := util.DecodePoint(suite, p["PCommind"].([]byte))
	if !own.Equal(pcommind) {
		return false
	}
	// the difference's commitment
	pcommd := util.DecodePoint(suite, p["PCommd"].([]byte))
	if !pcommd.Equal(suite.Point().Sub(table, pcommind)) {
		return false
	}
	// the difference is not negative, small, and the same in both commitments
	focommd := c.FujiOkamBase.Point().SetBigInt(new(big.Int).SetBytes(p["FOCommd"].([]byte)))
	if !c.FujiOkamBase.VerifyNonneg(focommd, util.DecodeARGnonneg(p["arg_nonneg"].([]byte))) {
		return false
	}
	arg := util.DecodeARGequal(p["arg_equal"].([]byte))
	if arg.S1.Sign() < 0 || arg.S1.BitLen() > suite.Secret().MarshalSize()*8 {
		return false
	}
	return pedersen_fujiokam.VerifyEqual(c.PedersenBase, c.FujiOkamBase, pcommd, focommd, arg)
}

func specSame(a, b BridgeInfo) bool { return a == b }

// A bridge is taken only by a valid request.
func specOnBridges(c *Coordinator, addr string, old BridgeInfo, had bool, now BridgeInfo, has bool) bool {
	ev, _ := util.DecodeEvent(specBuf)
	return ev.EventType != proto.REQUEST_BRIDGES || specRequest(c, ev.Params)
}

// A new assignment is logged only for a valid request.
func specOnAssignmentSignaturesLog(c *Coordinator, addr string, old AssignmentSignatures, had bool, now AssignmentSignatures, has bool) bool {
	ev, _ := util.DecodeEvent(specBuf)
	return !has || had && bytes.Equal(old.Assignment, now.Assignment) || ev.EventType == proto.REQUEST_BRIDGES && specRequest(c, ev.Params)
}

// Servers are asked to sign only for a valid request.
func specOnSend(c *Coordinator, to *net.TCPAddr, kind int, p map[string]interface{}) bool {
	ev, _ := util.DecodeEvent(specBuf)
	return kind != proto.SIGN_ASSIGNMENTS || ev.EventType == proto.REQUEST_BRIDGES && specRequest(c, ev.Params)
}
