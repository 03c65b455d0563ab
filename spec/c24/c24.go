//overlay cmd/coordinator
package coordinator

import (
	"bytes"
	"net"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

var specBuf []byte

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

// specSigned: entry now is entry old with one more signature, which is of
// party i (with key pk), was missing, and is valid for the assignment
func specSigned(c *Coordinator, old, now AssignmentSignatures, i int, pk abstract.Point) bool {
	if !bytes.Equal(old.Assignment, now.Assignment) || now.Count != old.Count+1 ||
		len(old.Signatures) != len(now.Signatures) || i >= len(now.Signatures) || old.Signatures[i] != nil && len(old.Signatures[i]) != 0 {
		return false
	}
	for j := range now.Signatures {
		if j != i && !bytes.Equal(old.Signatures[j], now.Signatures[j]) {
			return false
		}
	}
	return util.ElGamalVerify(c.Suite, now.Assignment, pk, now.Signatures[i], nil) == nil
}

func specSame(old, now AssignmentSignatures) bool {
	if !bytes.Equal(old.Assignment, now.Assignment) || now.Count != old.Count || len(old.Signatures) != len(now.Signatures) {
		return false
	}
	for j := range now.Signatures {
		if !bytes.Equal(old.Signatures[j], now.Signatures[j]) {
			return false
		}
	}
	return true
}

// An entry starts with the coordinator's own signature; then each server's
// valid signature is added once.
func specStepAssignmentSignaturesLog(c *Coordinator, addr string, old AssignmentSignatures, had bool, now AssignmentSignatures, has bool) bool {
	c.PublicKey = c.Suite.Point().Mul(nil, c.PrivateKey)
	if !has || had && specSame(old, now) {
		return true
	}
	ev, from := util.DecodeEvent(specBuf)
	n := len(c.ServerList)
	if ev.EventType == proto.REQUEST_BRIDGES {
		first := AssignmentSignatures{now.Assignment, make([][]byte, n+1), 0}
		return specSigned(c, first, now, n, c.PublicKey)
	}
	if ev.EventType != proto.GOT_SIGNS || !had {
		return false
	}
	for i, s := range c.ServerList {
		if s.Addr.IP.Equal(from.IP) && s.Addr.Port == from.Port {
			return specSigned(c, old, now, i, s.PublicKey)
		}
	}
	return false
}

// What is sent to a requester is a complete entry: the assignment and all
// signatures, signed, to the address its request came from.
func specOnSend(c *Coordinator, to *net.TCPAddr, kind int, p map[string]interface{}) bool {
	if kind == proto.SIGN_ASSIGNMENTS {
		ev, from := util.DecodeEvent(specBuf)
		return c.RequesterAddrs[util.DecodePoint(c.Suite, ev.Params["nym"].([]byte)).String()] == from
	}
	if kind != proto.GOT_SIGNS {
		return true
	}
	c.PublicKey = c.Suite.Point().Mul(nil, c.PrivateKey)
	raw := p["assignment"].([]byte)
	a := bridge.DecodeAssignment(raw)
	e, ok := c.AssignmentSignaturesLog[a.Addr]
	if !ok || e.Count <= len(c.ServerList) || !bytes.Equal(raw, e.Assignment) || !bytes.Equal(p["signatures"].([]byte), util.Encode2DByteArray(e.Signatures)) {
		return false
	}
	msg := append([]byte{}, raw...)
	msg = append(msg, p["signatures"].([]byte)...)
	return util.ElGamalVerify(c.Suite, msg, c.PublicKey, p["signature"].([]byte), nil) == nil && to == c.RequesterAddrs[a.NymR.String()]
}

// The address kept for a pseudonym is that its own signed request came from.
func specOnRequesterAddrs(c *Coordinator, key string, old *net.TCPAddr, had bool, now *net.TCPAddr, has bool) bool {
	if !has {
		return true
	}
	ev, from := util.DecodeEvent(specBuf)
	if ev.EventType != proto.REQUEST_BRIDGES || now != from {
		return false
	}
	nymR := util.DecodePoint(c.Suite, ev.Params["nym"].([]byte))
	return key == nymR.String() && util.ElGamalVerify(c.Suite, bridge.MessageOfRequestBridges(ev.Params), nymR, ev.Params["signature"].([]byte), c.G) == nil
}
