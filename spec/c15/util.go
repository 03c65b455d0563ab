//overlay util
package util

import "net"

// SpecDeliver is an intrinsic: the message as its receiver gets it. Values
// carry their types.
func SpecDeliver(m SpecMessage) []byte { return specDeliver(m.Kind, m.Params, m.From) }

func specDeliver(kind int, params map[string]interface{}, from *net.TCPAddr) []byte { return nil }

// SpecForget is an intrinsic: the same fields in the same types and
// encodings, with unknown points
func SpecForget(m SpecMessage) SpecMessage {
	return SpecMessage{m.From, m.To, m.Kind, specForget(m.Params)}
}

func specForget(params map[string]interface{}) map[string]interface{} { return params }
