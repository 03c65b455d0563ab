//overlay cmd/bridge
package bridge

func specSame(a, b *Assignment) bool {
	return a.Addr == b.Addr && a.Nym.Equal(b.Nym) && a.NymR.Equal(b.NymR)
}

func specAssignment(a *Assignment) bool {
	return specSame(DecodeAssignment(EncodeAssignment(a)), a)
}

func specAssignmentList(l []Assignment, k int) bool {
	got := DecodeAssignmentList(EncodeAssignmentList(l))
	if len(got) != len(l) {
		return false
	}
	if k < 0 || k >= len(l) {
		return true
	}
	return specSame(&got[k], &l[k])
}
