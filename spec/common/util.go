//overlay util
package util

import (
	"math/big"
	"net"

	"zRep/proto"

	"github.com/dedis/crypto/abstract"
)

// SpecMessage is a message as it was when it was sent.
type SpecMessage struct {
	From, To *net.TCPAddr
	Kind     int
	Params   map[string]interface{}
}

// SpecSent lists the messages sent so far; SendEvent is analysed as specSend.
var SpecSent []SpecMessage

func specSend(laddr, raddr *net.TCPAddr, event *proto.Event) {
	SpecSent = append(SpecSent, SpecMessage{laddr, raddr, event.EventType, specCopy(event.Params)})
}

// specCopy is an intrinsic: a map with the same entries
func specCopy(m map[string]interface{}) map[string]interface{} { return m }

// SpecKeyed is an intrinsic: assume that every entry of m is stored under its
// own string form
func SpecKeyed(m map[string]abstract.Point) { specKeyed(m) }

func specKeyed(m map[string]abstract.Point) {}

// SpecDrawn is an intrinsic: s is a draw from the system's random source made
// during the analysed call, and a different one for each i (none if i < 0)
func SpecDrawn(s abstract.Secret, i int) bool { return specDrawn(s, i) }

func specDrawn(s abstract.Secret, i int) bool { return false }

// SpecDrawnInt and SpecDrawnBit are the same for integers and bits
func SpecDrawnInt(s *big.Int, i int) bool { return specDrawnInt(s, i) }

func specDrawnInt(s *big.Int, i int) bool { return false }

func SpecDrawnBit(s bool, i int) bool { return specDrawnBit(s, i) }

func specDrawnBit(s bool, i int) bool { return false }

// SpecExponent is an intrinsic: the e with out = in^e, if there is one
func SpecExponent(out, in abstract.Point) abstract.Secret { return specExponent(out, in) }

func specExponent(out, in abstract.Point) abstract.Secret { return nil }

// SpecOther is an intrinsic: a and b are separate draws
func SpecOther(a, b abstract.Secret) bool { return specOther(a, b) }

func specOther(a, b abstract.Secret) bool { return false }

// SpecDistinct is an intrinsic: assume that the elements of l are pairwise different
func SpecDistinct(l []abstract.Point) { specDistinct(l) }

func specDistinct(l []abstract.Point) {}

// SpecMark is an intrinsic: from here on the code has to return
func SpecMark() { specMark() }

func specMark() {}

// SpecReads is an intrinsic: of m, the analysed code has read no other keys
func SpecReads(m map[string]interface{}, keys ...string) bool { return specReads(m, keys) }

func specReads(m map[string]interface{}, keys []string) bool { return false }
