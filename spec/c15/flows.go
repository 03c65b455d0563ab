//overlay cmd/client
package client

import (
	"bytes"
	"math/big"
	"net"
	"zRep/cmd/bridge"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zRep/util"
	"zRep/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// What one role sends is handed to the role it is sent to, as it was sent.
// From SpecMark on everything has to return: a field that is missing, of
// another type or in another encoding makes the receiver panic.

func specSameBase(a, b *fujiokam.FujiOkamBase) bool {
	return a.N.Cmp(b.N) == 0 && a.G1.Equal(b.G1) && a.G2.Equal(b.G2) && a.G3.Equal(b.G3) && a.G4.Equal(b.G4) && a.G5.Equal(b.G5) && a.G6.Equal(b.G6) && a.H1.Equal(b.H1)
}

// specOf: of two messages, the one of this kind
func specOf(kind int) util.SpecMessage {
	if util.SpecSent[0].Kind == kind {
		return util.SpecSent[0]
	}
	return util.SpecSent[1]
}

// numbers of the protocol are not negative
func specNonneg(b *fujiokam.FujiOkamBase) {
	for _, v := range []*big.Int{b.N, &b.G1.V, &b.G2.V, &b.G3.V, &b.G4.V, &b.G5.V, &b.G6.V, &b.H1.V} {
		v.Abs(v)
	}
}

// A server registers: the coordinator knows its address and key, its
// predecessor sends to it, and it knows its predecessor and the parameters.
func specServerFirst(c *coordinator.Coordinator, s *server.AnonServer) bool {
	c.ServerList = nil
	specNonneg(c.FujiOkamBase)
	util.SpecSent = nil
	server.SpecRegister(s)
	m := util.SpecSent[0]
	util.SpecSent = nil
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	if len(c.ServerList) != 1 || c.ServerList[0].Addr != s.LocalAddr || !c.ServerList[0].PublicKey.Equal(s.PublicKey) {
		return false
	}
	if len(util.SpecSent) != 1 {
		return false
	}
	m = util.SpecSent[0]
	if m.Kind != proto.SERVER_REGISTER_REPLY {
		return false
	}
	util.SpecSent = nil
	server.Handle(util.SpecDeliver(m), s)
	if s.PreviousHop != c.LocalAddr || !s.IsConnected || !specSameBase(s.FujiOkamBase, c.FujiOkamBase) {
		return false
	}
	m = util.SpecSent[0]
	h := s.Suite.Point().Add(c.PedersenBase.HT, s.Suite.Point().Null())
	coordinator.Handle(util.SpecDeliver(m), c)
	return util.SpecDrawn(util.SpecExponent(c.PedersenBase.HT, h), -1)
}

// The same behind a last server.
func specServerNext(c *coordinator.Coordinator, s, last *server.AnonServer) bool {
	n := len(c.ServerList)
	specNonneg(c.FujiOkamBase)
	if n == 0 || s == last || c.ServerList[n-1].Addr == nil {
		return true
	}
	prev := c.ServerList[n-1].Addr
	util.SpecSent = nil
	server.SpecRegister(s)
	m := util.SpecSent[0]
	util.SpecSent = nil
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	if len(c.ServerList) != n+1 || c.ServerList[n].Addr != s.LocalAddr || !c.ServerList[n].PublicKey.Equal(s.PublicKey) {
		return false
	}
	if len(util.SpecSent) != 2 {
		return false
	}
	link, m := specOf(proto.UPDATE_NEXT_HOP), specOf(proto.SERVER_REGISTER_REPLY)
	server.Handle(util.SpecDeliver(link), last)
	server.Handle(util.SpecDeliver(m), s)
	return last.NextHop == s.LocalAddr && s.PreviousHop == prev && s.IsConnected && specSameBase(s.FujiOkamBase, c.FujiOkamBase)
}

// The servers learn the base.
func specBases(c *coordinator.Coordinator, s *server.AnonServer, i int) bool {
	if i < 0 || i >= len(c.ServerList) {
		return true
	}
	util.SpecSent = nil
	coordinator.SpecBases(c)
	util.SpecMark()
	m := util.SpecSent[i]
	server.Handle(util.SpecDeliver(m), s)
	return m.To == c.ServerList[i].Addr && s.PedersenBase.HT.Equal(c.PedersenBase.HT)
}

// A client registers. Its key passes every server, and the coordinator
// keeps what arrives with the commitment it made.
func specRegisters(d *DissentClient, c *coordinator.Coordinator, s, next *server.AnonServer) bool {
	if len(c.ServerList) == 0 || s == next {
		return true
	}
	dissentClient = d
	util.SpecSent = nil
	register()
	m := util.SpecSent[0]
	util.SpecSent = nil
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	reg, init := specOf(proto.CLIENT_REGISTER_SERVERSIDE), specOf(proto.INIT_PEDERSEN_R)
	if c.Clients[d.PublicKey.String()] != d.LocalAddr || len(util.SpecSent) != 2 {
		return false
	}
	Handle(util.SpecDeliver(init), d)
	// through the servers
	util.SpecSent = nil
	server.Handle(util.SpecDeliver(reg), s)
	nym := s.Suite.Point().Mul(d.PublicKey, s.Roundkey)
	m = util.SpecSent[0]
	if !s.KeyMap[nym.String()].Equal(d.PublicKey) {
		return false
	}
	util.SpecSent = nil
	server.Handle(util.SpecDeliver(m), next)
	nym2 := s.Suite.Point().Mul(nym, next.Roundkey)
	m = util.SpecSent[0]
	if !next.KeyMap[nym2.String()].Equal(nym) {
		return false
	}
	// and back
	util.SpecSent = nil
	n := len(c.NewClientsBuffer)
	coordinator.Handle(util.SpecDeliver(m), c)
	if len(c.NewClientsBuffer) != n+1 || len(util.SpecSent) != 1 || util.SpecSent[0].To != d.LocalAddr {
		return false
	}
	t := c.NewClientsBuffer[n]
	want := c.Suite.Point().Add(c.Suite.Point().Mul(c.PedersenBase.GT, c.Suite.Secret().SetInt64(int64(bridge.StartingCredit))), c.Suite.Point().Mul(c.PedersenBase.HT, d.R))
	return t.Nym.Equal(nym2) && t.PComm.Equal(want) && d.G.Equal(c.G)
}

// It learns the parameters and checks them.
func specConfirmed(d *DissentClient, c *coordinator.Coordinator, m util.SpecMessage) bool {
	specNonneg(c.FujiOkamBase)
	m.Kind = proto.CLIENT_REGISTER_SERVERSIDE
	util.SpecSent = nil
	m.Params = map[string]interface{}{"public_key": util.EncodePoint(d.PublicKey), "addr": d.LocalAddr.String(), "pcomm": util.EncodePoint(d.PublicKey)}
	coordinator.Handle(util.SpecDeliver(m), c)
	conf := util.SpecSent[0]
	util.SpecSent = nil
	util.SpecMark()
	Handle(util.SpecDeliver(conf), d)
	if !specSameBase(d.FujiOkamBase, c.FujiOkamBase) || !d.ControllerPublicKey.Equal(c.PublicKey) {
		return false
	}
	p, ok := c.GnHonestyProofs[d.LocalAddr.String()]
	if !ok || len(p.Public) != len(d.AllGnHonestyProofPublic) {
		return false
	}
	for i := range p.Public {
		if p.Public[i].Cmp(d.AllGnHonestyProofPublic[i]) != 0 {
			return false
		}
	}
	return true
}

// The challenge and its answer.
func specChallenged(d *DissentClient, c *coordinator.Coordinator, m util.SpecMessage) bool {
	specNonneg(c.FujiOkamBase)
	m.Kind = proto.CLIENT_REGISTER_SERVERSIDE
	m.Params = map[string]interface{}{"public_key": util.EncodePoint(d.PublicKey), "addr": d.LocalAddr.String(), "pcomm": util.EncodePoint(d.PublicKey)}
	util.SpecSent = nil
	coordinator.Handle(util.SpecDeliver(m), c)
	conf := util.SpecSent[0]
	util.SpecSent = nil
	Handle(util.SpecDeliver(conf), d)
	chal := util.SpecSent[0]
	util.SpecSent = nil
	p := c.GnHonestyProofs[d.LocalAddr.String()]
	want := c.FujiOkamBase.AnswerAllGnHonesty(d.AllGnHonestyChallenge, p.Secret, p.Public)
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(chal), c)
	if len(util.SpecSent) != 1 || util.SpecSent[0].To != d.LocalAddr {
		return false
	}
	if d.FujiOkamBase.CheckAllGnHonesty(want, d.AllGnHonestyChallenge, d.AllGnHonestyProofPublic) != 0 {
		return true
	}
	Handle(util.SpecDeliver(util.SpecSent[0]), d)
	return true
}

// The table that is announced reaches the first server, entry by entry.
func specAnnounced(c *coordinator.Coordinator, s *server.AnonServer, i int) bool {
	if len(c.ServerList) == 0 {
		return true
	}
	util.SpecSent = nil
	coordinator.SpecAnnounce(c)
	m := util.SpecSent[0]
	keys := util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(m.Params["vals"].([]byte))
	util.SpecDistinct(keys)
	if i < 0 || i >= len(keys) {
		return true
	}
	util.SpecSent = nil
	util.SpecMark()
	server.Handle(util.SpecDeliver(m), s)
	m = util.SpecSent[0]
	gt, ht := util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	e := util.SpecExponent(gt, c.PedersenBase.GT)
	if !ht.Equal(s.Suite.Point().Mul(c.PedersenBase.HT, e)) {
		return false
	}
	k := util.ProtobufDecodePointList(m.Params["keys"].([]byte))[i]
	v := util.ProtobufDecodePointList(m.Params["vals"].([]byte))[i]
	for j := range keys {
		if k.Equal(s.Suite.Point().Mul(keys[j], s.Roundkey)) && v.Equal(s.Suite.Point().Mul(vals[j], e)) {
			return true
		}
	}
	return false
}

// specOut: the message of a server that got the announcement of a
// coordinator, with what it says
func specOut(c *coordinator.Coordinator, s *server.AnonServer) util.SpecMessage {
	util.SpecSent = nil
	coordinator.SpecAnnounce(c)
	m := util.SpecSent[0]
	util.SpecSent = nil
	server.Handle(util.SpecDeliver(m), s)
	m = util.SpecSent[0]
	util.SpecSent = nil
	return m
}

// specProven: what a message says about a shuffle verifies, and its table
// has a value for each key. A message keeps its fields, types and encodings.
func specProven(suite abstract.Suite, p map[string]interface{}) bool {
	keys := util.ProtobufDecodePointList(p["keys"].([]byte))
	vals := util.ProtobufDecodePointList(p["vals"].([]byte))
	if len(keys) != len(vals) {
		return false
	}
	if _, ok := p["shuffled"]; !ok {
		return true
	}
	xbar := util.ProtobufDecodePointList(p["xbar"].([]byte))
	ybar := util.ProtobufDecodePointList(p["ybar"].([]byte))
	x := util.ProtobufDecodePointList(p["prev_keys"].([]byte))
	y := util.ProtobufDecodePointList(p["prev_vals"].([]byte))
	h := util.DecodePoint(suite, p["public_key"].([]byte))
	return proof.HashVerify(suite, "PairShuffle", shuffle.Verifier(suite, nil, h, x, y, xbar, ybar), p["proof"].([]byte)) == nil
}

// A server's table reaches the next server: what it sends is accepted,
func specAccepted(c *coordinator.Coordinator, s, next *server.AnonServer) bool {
	if len(c.ServerList) == 0 || s == next {
		return true
	}
	m := specOut(c, s)
	util.SpecMark()
	server.Handle(util.SpecDeliver(m), next)
	return len(util.SpecSent) == 1 && util.SpecSent[0].To == next.NextHop
}

// and read as it was meant.
func specPassedOn(c *coordinator.Coordinator, s, next *server.AnonServer, i int) bool {
	if len(c.ServerList) == 0 || s == next {
		return true
	}
	m := util.SpecForget(specOut(c, s))
	if !specProven(s.Suite, m.Params) {
		return true
	}
	keys := util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(m.Params["vals"].([]byte))
	GT, HT := util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	g := util.DecodePoint(s.Suite, m.Params["g"].([]byte))
	util.SpecDistinct(keys)
	if i < 0 || i >= len(keys) {
		return true
	}
	util.SpecSent = nil
	util.SpecMark()
	server.Handle(util.SpecDeliver(m), next)
	m = util.SpecSent[0]
	gt, ht := util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	e := util.SpecExponent(gt, GT)
	if !ht.Equal(s.Suite.Point().Mul(HT, e)) || !util.DecodePoint(s.Suite, m.Params["g"].([]byte)).Equal(s.Suite.Point().Mul(g, next.Roundkey)) {
		return false
	}
	k := util.ProtobufDecodePointList(m.Params["keys"].([]byte))[i]
	v := util.ProtobufDecodePointList(m.Params["vals"].([]byte))[i]
	for j := range keys {
		if k.Equal(s.Suite.Point().Mul(keys[j], next.Roundkey)) && v.Equal(s.Suite.Point().Mul(vals[j], e)) {
			return true
		}
	}
	return false
}

// The last server's reaches the coordinator.
func specArrives(c *coordinator.Coordinator, s *server.AnonServer) bool {
	if len(c.ServerList) == 0 {
		return true
	}
	m := specOut(c, s)
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	return true
}

func specArrived(c *coordinator.Coordinator, s *server.AnonServer, i int) bool {
	if len(c.ServerList) == 0 {
		return true
	}
	m := util.SpecForget(specOut(c, s))
	if !specProven(c.Suite, m.Params) {
		return true
	}
	keys := util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(m.Params["vals"].([]byte))
	GT, HT := util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	g := util.DecodePoint(s.Suite, m.Params["g"].([]byte))
	util.SpecDistinct(keys)
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	if !c.PedersenBase.GT.Equal(GT) || !c.PedersenBase.HT.Equal(HT) || !c.G.Equal(g) || len(c.AllClientsPublicKeys) != len(keys) {
		return false
	}
	if i < 0 || i >= len(keys) {
		return true
	}
	k := keys[i].String()
	return c.AllClientsPublicKeys[i].Equal(keys[i]) && c.EndingKeyMap[k].Equal(keys[i]) && c.EndingCommMap[k].Equal(vals[i])
}

// What the last server's announcement makes the coordinator send
func specFinal(c *coordinator.Coordinator, g, GT, HT abstract.Point, keys, vals []abstract.Point, j int) (util.SpecMessage, bool) {
	util.SpecSent = nil
	coordinator.Handle(util.SpecDeliver(util.SpecMessage{Kind: proto.ANNOUNCEMENT, Params: map[string]interface{}{
		"g":    util.EncodePoint(g),
		"GT":   util.EncodePoint(GT),
		"HT":   util.EncodePoint(HT),
		"keys": util.ProtobufEncodePointList(keys),
		"vals": util.ProtobufEncodePointList(vals),
	}}), c)
	sent := util.SpecSent
	util.SpecSent = nil
	if j < 0 || j >= len(sent) {
		return util.SpecMessage{}, false
	}
	return sent[j], true
}

// The round's table and bases reach the servers
func specFinalServer(c *coordinator.Coordinator, s *server.AnonServer, g, GT, HT abstract.Point, keys, vals []abstract.Point, i, j int) bool {
	if len(keys) != len(vals) {
		return true
	}
	m, ok := specFinal(c, g, GT, HT, keys, vals, j)
	if !ok {
		return true
	}
	util.SpecDistinct(keys)
	util.SpecMark()
	server.Handle(util.SpecDeliver(m), s)
	if !s.G.Equal(c.G) || !s.PedersenBase.GT.Equal(c.PedersenBase.GT) || !s.PedersenBase.HT.Equal(c.PedersenBase.HT) || !c.G.Equal(g) {
		return false
	}
	if i < 0 || i >= len(keys) {
		return true
	}
	k := keys[i].String()
	return s.EndingKeyMap[k].Equal(keys[i]) && s.EndingCommMap[k].Equal(vals[i])
}

// and the clients.
func specFinalClient(d *DissentClient, c *coordinator.Coordinator, g, GT, HT abstract.Point, keys, vals []abstract.Point, j int) bool {
	nym := d.Suite.Point().Mul(g, d.PrivateKey)
	i := util.FindIndexWithinKeyList(keys, nym)
	if len(keys) != len(vals) || i < 0 {
		return true
	}
	m, ok := specFinal(c, g, GT, HT, keys, vals, j)
	if !ok {
		return true
	}
	util.SpecDistinct(keys)
	util.SpecMark()
	Handle(util.SpecDeliver(m), d)
	return d.G.Equal(c.G) && d.PedersenBase.GT.Equal(c.PedersenBase.GT) && d.PedersenBase.HT.Equal(c.PedersenBase.HT) && d.OnetimePseudoNym.Equal(nym) &&
		d.PCommr.Equal(vals[i]) && d.Status == MESSAGE
}

// A bridge that a client of the round provides is recorded under its pseudonym.
func specPosted(d *DissentClient, c *coordinator.Coordinator, addr string) bool {
	if !specAsking(d, c) {
		return true
	}
	if _, known := c.Bridges[addr]; known || util.FindIndexWithinKeyList(c.AllClientsPublicKeys, d.OnetimePseudoNym) < 0 {
		return true
	}
	dissentClient = d
	util.SpecSent = nil
	postBridge(addr)
	m := util.SpecSent[0]
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	b, ok := c.Bridges[addr]
	return ok && b.Nym.Equal(d.OnetimePseudoNym) && !b.Used
}

// specAsking: d is a client of c's open round
func specAsking(d *DissentClient, c *coordinator.Coordinator) bool {
	return c.Status == coordinator.MESSAGE && d.G.Equal(c.G) && d.OnetimePseudoNym.Equal(d.Suite.Point().Mul(d.G, d.PrivateKey))
}

// specRequest: the message with which a client requests bridges
func specRequest(d *DissentClient, ind int) (util.SpecMessage, bool) {
	dissentClient = d
	util.SpecSent = nil
	requestBridges(ind)
	sent := util.SpecSent
	util.SpecSent = nil
	if len(sent) == 0 {
		return util.SpecMessage{}, false
	}
	return sent[0], true
}

// A request whose proofs verify is one the coordinator will answer,
func specRequested(d *DissentClient, c *coordinator.Coordinator, ind int) bool {
	if !specAsking(d, c) || c.RequesterAddrs == nil {
		return true
	}
	m, ok := specRequest(d, ind)
	if !ok {
		return true
	}
	k := d.OnetimePseudoNym.String()
	comm, ok := c.EndingCommMap[k]
	util.SpecMark()
	if !ok || !bridge.VerifyInd(m.Params, comm, c.Suite, c.PedersenBase, c.FujiOkamBase) {
		return true
	}
	coordinator.Handle(util.SpecDeliver(m), c)
	return c.RequesterAddrs[k] == d.LocalAddr
}

// specSigning: a message with which the coordinator asks for signatures
// for what the client asked
func specSigning(d *DissentClient, c *coordinator.Coordinator, ind, j int) (asked, m util.SpecMessage, ok bool) {
	if !specAsking(d, c) || c.RequesterAddrs == nil {
		return asked, m, false
	}
	asked, ok = specRequest(d, ind)
	if !ok {
		return asked, m, false
	}
	coordinator.Handle(util.SpecDeliver(asked), c)
	sent := util.SpecSent
	util.SpecSent = nil
	if j < 0 || j >= len(sent) {
		return asked, m, false
	}
	return asked, sent[j], true
}

// Every server can answer it,
func specSignatures(d *DissentClient, c *coordinator.Coordinator, s *server.AnonServer, ind, j int) bool {
	asked, m, ok := specSigning(d, c, ind, j)
	if !ok {
		return true
	}
	util.SpecMark()
	server.Handle(util.SpecDeliver(m), s)
	if len(util.SpecSent) != 1 || util.SpecSent[0].To != c.LocalAddr {
		return false
	}
	comm, ok := s.EndingCommMap[d.OnetimePseudoNym.String()]
	if !ok || !bridge.VerifyInd(asked.Params, comm, s.Suite, s.PedersenBase, s.FujiOkamBase) {
		return true
	}
	r := util.SpecSent[0]
	return r.Params["success"].(bool) && bytes.Equal(r.Params["assignments"].([]byte), m.Params["assignments"].([]byte)) &&
		len(util.Decode2DByteArray(r.Params["signatures"].([]byte))) == len(bridge.DecodeAssignmentList(r.Params["assignments"].([]byte)))
}

// and the coordinator can read the answer: it keeps the server's signature
// of an assignment that waits for it,
func specGathered(c *coordinator.Coordinator, s *server.AnonServer, p map[string]interface{}, list []bridge.Assignment, i, k int) bool {
	p["assignments"] = bridge.EncodeAssignmentList(list)
	if c.Status != coordinator.MESSAGE || c.G == nil {
		return true
	}
	util.SpecSent = nil
	server.Handle(util.SpecDeliver(util.SpecMessage{Kind: proto.SIGN_ASSIGNMENTS, From: c.LocalAddr, Params: p}), s)
	m := util.SpecSent[0]
	util.SpecSent = nil
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	return true
}

// specWaits: c waits for a's signature by s, which is its server at k, and by
// n others
func specWaits(c *coordinator.Coordinator, s *server.AnonServer, a *bridge.Assignment, k, n int) bool {
	if c.Status != coordinator.MESSAGE || c.G == nil || k < 0 || k >= len(c.ServerList) || k != specServerAt(c, s.LocalAddr) || !c.ServerList[k].PublicKey.Equal(s.Suite.Point().Mul(nil, s.PrivateKey)) {
		return false
	}
	entry, ok := c.AssignmentSignaturesLog[a.Addr]
	return ok && bytes.Equal(entry.Assignment, bridge.EncodeAssignment(a)) && k < len(entry.Signatures) && entry.Signatures[k] == nil &&
		len(entry.Signatures) == len(c.ServerList)+1 && entry.Count == len(c.ServerList)-n
}

// specServerAt: the first server at an address
func specServerAt(c *coordinator.Coordinator, addr *net.TCPAddr) int {
	for i, s := range c.ServerList {
		if s.Addr.IP.Equal(addr.IP) && s.Addr.Port == addr.Port {
			return i
		}
	}
	return -1
}

func specSign(c *coordinator.Coordinator, s *server.AnonServer, p map[string]interface{}, a *bridge.Assignment) util.SpecMessage {
	p["assignments"] = bridge.EncodeAssignmentList([]bridge.Assignment{*a})
	util.SpecSent = nil
	server.Handle(util.SpecDeliver(util.SpecMessage{Kind: proto.SIGN_ASSIGNMENTS, From: c.LocalAddr, Params: p}), s)
	m := util.SpecSent[0]
	util.SpecSent = nil
	return m
}

func specKept(c *coordinator.Coordinator, s *server.AnonServer, p map[string]interface{}, a *bridge.Assignment, k, n int) bool {
	if !specWaits(c, s, a, k, n) {
		return true
	}
	m := specSign(c, s, p, a)
	if !m.Params["success"].(bool) {
		return true
	}
	sig := util.Decode2DByteArray(m.Params["signatures"].([]byte))[0]
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	return bytes.Equal(c.AssignmentSignaturesLog[a.Addr].Signatures[k], sig)
}

// and the client what it sends when no server is missing.
func specReleased(d *DissentClient, c *coordinator.Coordinator, s *server.AnonServer, p map[string]interface{}, a *bridge.Assignment, k, l int) bool {
	if !specWaits(c, s, a, k, 0) || !d.ControllerPublicKey.Equal(d.Suite.Point().Mul(nil, c.PrivateKey)) {
		return true
	}
	m := specSign(c, s, p, a)
	if !m.Params["success"].(bool) {
		return true
	}
	coordinator.Handle(util.SpecDeliver(m), c)
	util.SpecMark()
	if len(util.SpecSent) != 1 || util.SpecSent[0].To != c.RequesterAddrs[a.NymR.String()] {
		return false
	}
	n := len(d.Assignments)
	Handle(util.SpecDeliver(util.SpecSent[0]), d)
	if len(d.Assignments) != n+1 || d.Assignments[n].Assignment.Addr != a.Addr {
		return false
	}
	want, sigs := c.AssignmentSignaturesLog[a.Addr].Signatures, util.Decode2DByteArray(d.Assignments[n].ByteSignatures)
	return len(sigs) == len(want) && (l < 0 || l >= len(want) || bytes.Equal(sigs[l], want[l]))
}

// A vote is counted if it is the first for its assignment, and signed by all.
func specVoted(d *DissentClient, c *coordinator.Coordinator, id, feedback, k int) bool {
	if !specAsking(d, c) || id < 0 || id >= len(d.Assignments) || c.VotedAssignments == nil || c.ReputationDiffMap == nil {
		return true
	}
	if util.FindIndexWithinKeyList(c.AllClientsPublicKeys, d.OnetimePseudoNym) < 0 {
		return true
	}
	info := d.Assignments[id]
	a := info.Assignment
	sigs := util.Decode2DByteArray(info.ByteSignatures)
	b := bridge.EncodeAssignment(a)
	n := len(c.ServerList)
	if !a.NymR.Equal(d.OnetimePseudoNym) || len(sigs) != n+1 || c.VotedAssignments[string(b)] {
		return true
	}
	for i := 0; i < n; i++ {
		if util.ElGamalVerify(c.Suite, b, c.ServerList[i].PublicKey, sigs[i], nil) != nil {
			return true
		}
	}
	if util.ElGamalVerify(c.Suite, b, c.PublicKey, sigs[n], nil) != nil {
		return true
	}
	want := c.ReputationDiffMap[a.Nym.String()] - 1
	if feedback > 0 {
		want += 2
	}
	dissentClient = d
	util.SpecSent = nil
	sendVote(id, feedback)
	m := util.SpecSent[0]
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	return c.ReputationDiffMap[a.Nym.String()] == want && c.VotedAssignments[string(b)]
}

// The clients are told to vote.
func specTold(d *DissentClient, c *coordinator.Coordinator, j int) bool {
	util.SpecSent = nil
	coordinator.SpecVote(c)
	if j < 0 || j >= len(util.SpecSent) {
		return true
	}
	m := util.SpecSent[j]
	util.SpecMark()
	Handle(util.SpecDeliver(m), d)
	return true
}

// specClosing: what the coordinator sends when a round ends
func specClosing(c *coordinator.Coordinator, kind, j int) (util.SpecMessage, bool) {
	util.SpecSent = nil
	coordinator.SpecEnd(c)
	sent := util.SpecSent
	util.SpecSent = nil
	if j < 0 || j >= len(sent) || sent[j].Kind != kind {
		return util.SpecMessage{}, false
	}
	return sent[j], true
}

// The table that ends a round reaches the last server, entry by entry.
func specEnds(c *coordinator.Coordinator, s *server.AnonServer, i, j int) bool {
	m, ok := specClosing(c, proto.ROUND_END, j)
	if !ok {
		return true
	}
	m = util.SpecForget(m)
	keys := util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(m.Params["vals"].([]byte))
	return specUndone(s, m, keys, vals, i)
}

// specUndone: s accepts the table, and undoes what it did to the keys
func specUndone(s *server.AnonServer, m util.SpecMessage, keys, vals []abstract.Point, i int) bool {
	GT, HT := util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	if i < 0 || i >= len(keys) || len(vals) != len(keys) {
		return true
	}
	old := s.KeyMap
	var was []abstract.Point
	for _, k := range keys {
		was = append(was, old[k.String()])
	}
	util.SpecDistinct(was)
	util.SpecSent = nil
	util.SpecMark()
	server.Handle(util.SpecDeliver(m), s)
	m = util.SpecSent[0]
	gt, ht := util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	e := util.SpecExponent(gt, GT)
	if m.To != s.PreviousHop || !ht.Equal(s.Suite.Point().Mul(HT, e)) {
		return false
	}
	k := util.ProtobufDecodePointList(m.Params["keys"].([]byte))[i]
	v := util.ProtobufDecodePointList(m.Params["vals"].([]byte))[i]
	for j := range keys {
		if k.Equal(was[j]) && v.Equal(s.Suite.Point().Mul(vals[j], e)) {
			return true
		}
	}
	return false
}

// specUndo: the message of a server that ends a round
func specUndo(s *server.AnonServer, GT, HT abstract.Point, keys, vals []abstract.Point) util.SpecMessage {
	util.SpecSent = nil
	server.Handle(util.SpecDeliver(util.SpecMessage{Kind: proto.ROUND_END, Params: map[string]interface{}{
		"is_start": true,
		"GT":       util.EncodePoint(GT),
		"HT":       util.EncodePoint(HT),
		"keys":     util.ProtobufEncodePointList(keys),
		"vals":     util.ProtobufEncodePointList(vals),
	}}), s)
	m := util.SpecSent[0]
	util.SpecSent = nil
	return m
}

// A server's reaches the previous one: it is accepted,
func specBackAccepted(s, prev *server.AnonServer, GT, HT abstract.Point, keys, vals []abstract.Point) bool {
	if s == prev || len(keys) != len(vals) {
		return true
	}
	var was []abstract.Point
	for _, k := range keys {
		was = append(was, s.KeyMap[k.String()])
	}
	util.SpecDistinct(was)
	m := specUndo(s, GT, HT, keys, vals)
	util.SpecMark()
	server.Handle(util.SpecDeliver(m), prev)
	return len(util.SpecSent) == 1 && util.SpecSent[0].To == prev.PreviousHop
}

// and read as it was meant.
func specBack(s, prev *server.AnonServer, GT, HT abstract.Point, keys, vals []abstract.Point, i int) bool {
	if s == prev || len(keys) != len(vals) {
		return true
	}
	m := util.SpecForget(specUndo(s, GT, HT, keys, vals))
	if !specProven(s.Suite, m.Params) {
		return true
	}
	keys = util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	vals = util.ProtobufDecodePointList(m.Params["vals"].([]byte))
	return specUndone(prev, m, keys, vals, i)
}

// The first server's reaches the coordinator.
func specReturns(c *coordinator.Coordinator, s *server.AnonServer, GT, HT abstract.Point, keys, vals []abstract.Point) bool {
	if len(keys) != len(vals) {
		return true
	}
	m := specUndo(s, GT, HT, keys, vals)
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	return true
}

func specReturned(c *coordinator.Coordinator, s *server.AnonServer, GT, HT abstract.Point, keys, vals []abstract.Point, i int) bool {
	if len(keys) != len(vals) {
		return true
	}
	m := util.SpecForget(specUndo(s, GT, HT, keys, vals))
	if !specProven(c.Suite, m.Params) {
		return true
	}
	keys = util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	vals = util.ProtobufDecodePointList(m.Params["vals"].([]byte))
	GT, HT = util.DecodePoint(s.Suite, m.Params["GT"].([]byte)), util.DecodePoint(s.Suite, m.Params["HT"].([]byte))
	util.SpecDistinct(keys)
	util.SpecMark()
	coordinator.Handle(util.SpecDeliver(m), c)
	if !c.PedersenBase.GT.Equal(GT) || !c.PedersenBase.HT.Equal(HT) {
		return false
	}
	if i < 0 || i >= len(keys) {
		return true
	}
	k := keys[i].String()
	return c.BeginningKeyMap[k].Equal(keys[i]) && c.BeginningCommMap[k].Equal(vals[i])
}

// A client learns what its reputation changes by,
func specRated(d *DissentClient, c *coordinator.Coordinator, GT, HT abstract.Point, keys, vals []abstract.Point, i, j int) bool {
	if len(keys) != len(vals) {
		return true
	}
	util.SpecKeyed(c.EndingKeyMap)
	for k := range c.ReputationDiffMap {
		if _, ok := c.EndingKeyMap[k]; !ok {
			return true
		}
	}
	util.SpecSent = nil
	coordinator.Handle(util.SpecDeliver(util.SpecMessage{Kind: proto.ROUND_END, Params: map[string]interface{}{
		"GT":   util.EncodePoint(GT),
		"HT":   util.EncodePoint(HT),
		"keys": util.ProtobufEncodePointList(keys),
		"vals": util.ProtobufEncodePointList(vals),
	}}), c)
	sent := util.SpecSent
	util.SpecSent = nil
	if j < 0 || j >= len(sent) {
		return true
	}
	m := sent[j]
	util.SpecMark()
	mine := util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	diffs := util.DecodeIntArray(m.Params["diffs"].([]byte))
	want := d.Reputation
	if i := util.FindIndexWithinKeyList(mine, d.OnetimePseudoNym); i >= 0 {
		want += diffs[i]
	}
	if i >= 0 && i < len(mine) && (diffs[i] != c.ReputationDiffMap[mine[i].String()] || len(mine) != len(c.ReputationDiffMap)) {
		return false
	}
	Handle(util.SpecDeliver(m), d)
	return d.Reputation == want
}

// and what its blinding changes by.
func specBlinded(d *DissentClient, c *coordinator.Coordinator, j int) bool {
	m, ok := specClosing(c, proto.BCAST_PEDERSEN_RDIFF, j)
	if !ok {
		return true
	}
	util.SpecMark()
	keys := util.ProtobufDecodePointList(m.Params["keys"].([]byte))
	rDiffs := util.ProtobufDecodeSecretList(m.Params["rDiffs"].([]byte))
	i := util.FindIndexWithinKeyList(keys, d.OnetimePseudoNym)
	want := d.Suite.Secret().Add(d.R, d.Suite.Secret().Zero())
	if i >= 0 {
		want.Add(want, rDiffs[i])
	}
	Handle(util.SpecDeliver(m), d)
	return d.R.Equal(want)
}
