//overlay cmd/coordinator
package coordinator

import (
	"net"

	"github.com/dedis/crypto/abstract"

	"zRep/proto"
	"zRep/util"
)

var specBuf []byte

// the coordinator's key is drawn when it starts
func specPartialKey() bool {
	initCoordinator()
	c := anonCoordinator
	return util.SpecDrawn(c.PrivateKey, -1) && c.PublicKey.Equal(c.Suite.Point().Mul(nil, c.PrivateKey))
}

// a signature's nonce is drawn for it
func specNonce(c *Coordinator, msg, msg2 []byte) bool {
	a, b := util.SpecNonce(c.SignMessage(msg)), util.SpecNonce(c.SignMessage(msg2))
	return util.SpecDrawn(a, -1) && util.SpecDrawn(b, -1) && util.SpecOther(a, b)
}

func specPartialAny(buf []byte, c *Coordinator) bool {
	specBuf = buf
	Handle(buf, c)
	return true
}

func specPartialFake(c *Coordinator, num int) bool {
	c.BeginningKeyMap, c.BeginningCommMap = make(map[string]abstract.Point), make(map[string]abstract.Point)
	anonCoordinator = c
	addFakeClients(num)
	return true
}

// the nonces of the coordinator's signatures of assignments are drawn for each
func specOnAssignmentSignaturesLog(c *Coordinator, addr string, old AssignmentSignatures, had bool, now AssignmentSignatures, has bool) bool {
	ev, _ := util.DecodeEvent(specBuf)
	if !has || ev.EventType != proto.REQUEST_BRIDGES {
		return true
	}
	s := now.Signatures[len(c.ServerList)]
	return s == nil || util.SpecFresh(util.SpecNonce(s))
}

// and so are those of the assignments it hands out
func specOnSend(c *Coordinator, to *net.TCPAddr, kind int, params map[string]interface{}) bool {
	return kind != proto.GOT_SIGNS || util.SpecFresh(util.SpecNonce(params["signature"].([]byte)))
}

// the keys and commitments of fake clients are drawn for each, and separately
func specOnBeginningKeyMap(c *Coordinator, key string, old abstract.Point, had bool, now abstract.Point, has bool) bool {
	return !has || util.SpecFresh(util.SpecExponent(now, c.Suite.Point().Base()))
}

func specOnBeginningCommMap(c *Coordinator, key string, old abstract.Point, had bool, now abstract.Point, has bool) bool {
	r := util.SpecExponent(now, c.PedersenBase.HT)
	pk, ok := c.BeginningKeyMap[key]
	return !has || util.SpecFresh(r) && (!ok || had || util.SpecOther(r, util.SpecExponent(pk, c.Suite.Point().Base())))
}
