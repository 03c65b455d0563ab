//overlay cmd/client
package client

import (
	"math/big"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
)

// Nothing is asked for beyond the reputation.
func specWithin(d *DissentClient, ind int) bool {
	dissentClient = d
	if ind <= d.Reputation {
		return true
	}
	util.SpecSent = nil
	requestBridges(ind)
	return len(util.SpecSent) == 0
}

// One request is sent, to the coordinator, for what was asked.
func specPartialAsks(d *DissentClient, ind int) bool {
	dissentClient = d
	if ind > d.Reputation || d.G == nil {
		return true
	}
	util.SpecSent = nil
	requestBridges(ind)
	if len(util.SpecSent) != 1 {
		return false
	}
	m := util.SpecSent[0]
	return m.Kind == proto.REQUEST_BRIDGES && m.To == d.CoordinatorAddr && m.Params["ind"].(int) == ind
}

// The commitments relate to the table's one.
func specPartialCommitments(d *DissentClient, ind int) bool {
	dissentClient = d
	if ind > d.Reputation || d.G == nil {
		return true
	}
	util.SpecSent = nil
	requestBridges(ind)
	p := util.SpecSent[0].Params
	s := d.Suite
	rind := util.DecodeSecret(s, p["rind"].([]byte))
	PCommind, PCommd := util.DecodePoint(s, p["PCommind"].([]byte)), util.DecodePoint(s, p["PCommd"].([]byte))
	want := s.Point().Add(s.Point().Mul(d.PedersenBase.GT, s.Secret().SetInt64(int64(ind))), s.Point().Mul(d.PedersenBase.HT, rind))
	return util.SpecDrawn(rind, -1) && PCommind.Equal(want) && s.Point().Add(PCommd, PCommind).Equal(d.PCommr)
}

// The request passes the checks of coordinator and servers.
func specPartialPasses(d *DissentClient, ind int) bool {
	dissentClient = d
	s := d.Suite
	if ind > d.Reputation || d.G == nil {
		return true
	}
	d.PCommr = s.Point().Add(s.Point().Mul(d.PedersenBase.GT, s.Secret().SetInt64(int64(d.Reputation))), s.Point().Mul(d.PedersenBase.HT, d.R))
	d.OnetimePseudoNym = s.Point().Mul(d.G, d.PrivateKey)
	util.SpecSent = nil
	requestBridges(ind)
	p := util.SpecSent[0].Params
	arg := util.DecodeARGequal(p["arg_equal"].([]byte))
	if arg.S1.Sign() < 0 || arg.S1.BitLen() > s.Secret().MarshalSize()*8 {
		return true // a reputation beyond all bounds, see DESIGN.md
	}
	return bridge.VerifyInd(p, d.PCommr, s, d.PedersenBase, d.FujiOkamBase)
}

// The request is signed as the coordinator checks it.
func specPartialSigned(d *DissentClient, ind int) bool {
	dissentClient = d
	s := d.Suite
	if ind > d.Reputation || d.G == nil {
		return true
	}
	d.OnetimePseudoNym = s.Point().Mul(d.G, d.PrivateKey)
	util.SpecSent = nil
	requestBridges(ind)
	p := util.SpecSent[0].Params
	nym := util.DecodePoint(s, p["nym"].([]byte))
	msg := append([]byte{}, util.IntToByte(ind)...)
	for _, k := range []string{"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"} {
		msg = append(msg, p[k].([]byte)...)
	}
	return nym.Equal(d.OnetimePseudoNym) && util.ElGamalVerify(s, msg, nym, p["signature"].([]byte), d.G) == nil
}

// A request leaves the client as it was.
func specPartialKeeps(d *DissentClient, ind int) bool {
	dissentClient = d
	s := d.Suite
	rep := d.Reputation
	r, c, k := s.Secret().Add(d.R, s.Secret().Zero()), s.Point().Add(d.PCommr, s.Point().Null()), s.Secret().Add(d.PrivateKey, s.Secret().Zero())
	n, g := s.Point().Add(d.OnetimePseudoNym, s.Point().Null()), s.Point().Add(d.G, s.Point().Null())
	requestBridges(ind)
	return d.Reputation == rep && d.R.Equal(r) && d.PCommr.Equal(c) && d.PrivateKey.Equal(k) && d.OnetimePseudoNym.Equal(n) && d.G.Equal(g)
}

var _ big.Int
