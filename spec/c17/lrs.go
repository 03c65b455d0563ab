//overlay primitive/lrs
package lrs

func specSignature(s *Signature, k int) bool {
	g := ProtobufDecodeSignature(ProtobufEncodeSignature(s))
	if g.Y0.Cmp(s.Y0) != 0 || len(g.S) != len(s.S) || len(g.C) != len(s.C) {
		return false
	}
	if k >= 0 && k < len(s.S) && g.S[k].Cmp(s.S[k]) != 0 {
		return false
	}
	if k >= 0 && k < len(s.C) && g.C[k].Cmp(s.C[k]) != 0 {
		return false
	}
	return true
}
