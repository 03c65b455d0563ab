//overlay cmd/bridge
package bridge

import "bytes"

// Another value of one field, the rest being the same, is another content.

func specDiffer(f func(map[string]interface{}) []byte, p, q map[string]interface{}) bool {
	return !bytes.Equal(f(p), f(q))
}

func specPost(addr, addr2 string, nym, nym2, sig []byte) bool {
	p := func(addr string, nym []byte) map[string]interface{} {
		return map[string]interface{}{"bridge_addr": addr, "nym": nym, "signature": sig}
	}
	f := MessageOfPostBridge
	return (addr == addr2 || specDiffer(f, p(addr, nym), p(addr2, nym))) &&
		(bytes.Equal(nym, nym2) || specDiffer(f, p(addr, nym), p(addr, nym2)))
}

func specReleased(a, a2, s, s2, sig []byte) bool {
	p := func(a, s []byte) map[string]interface{} {
		return map[string]interface{}{"assignment": a, "signatures": s, "signature": sig}
	}
	f := MessageOfGotSignatures
	return (bytes.Equal(a, a2) || specDiffer(f, p(a, s), p(a2, s))) &&
		(bytes.Equal(s, s2) || specDiffer(f, p(a, s), p(a, s2)))
}

func specVote(n, n2, a, a2, s, s2 []byte, v, v2 int, sig []byte) bool {
	p := func(n, a, s []byte, v int) map[string]interface{} {
		return map[string]interface{}{"nym": n, "assignment": a, "signatures": s, "feedback": v, "signature": sig}
	}
	f := MessageOfVote
	return (bytes.Equal(n, n2) || specDiffer(f, p(n, a, s, v), p(n2, a, s, v))) &&
		(bytes.Equal(a, a2) || specDiffer(f, p(n, a, s, v), p(n, a2, s, v))) &&
		(bytes.Equal(s, s2) || specDiffer(f, p(n, a, s, v), p(n, a, s2, v))) &&
		(v == v2 || specDiffer(f, p(n, a, s, v), p(n, a, s, v2)))
}

func specRequest(ind, ind2 int, n, n2, f, f2, d, d2, i, i2, r, r2, g, g2, e, e2 []byte, sig []byte) bool {
	p := func(ind int, n, f, d, i, r, g, e []byte) map[string]interface{} {
		return map[string]interface{}{"ind": ind, "nym": n, "FOCommd": f, "PCommd": d, "PCommind": i, "rind": r,
			"arg_nonneg": g, "arg_equal": e, "signature": sig}
	}
	m := MessageOfRequestBridges
	o := p(ind, n, f, d, i, r, g, e)
	return (ind == ind2 || specDiffer(m, o, p(ind2, n, f, d, i, r, g, e))) &&
		(bytes.Equal(n, n2) || specDiffer(m, o, p(ind, n2, f, d, i, r, g, e))) &&
		(bytes.Equal(f, f2) || specDiffer(m, o, p(ind, n, f2, d, i, r, g, e))) &&
		(bytes.Equal(d, d2) || specDiffer(m, o, p(ind, n, f, d2, i, r, g, e))) &&
		(bytes.Equal(i, i2) || specDiffer(m, o, p(ind, n, f, d, i2, r, g, e))) &&
		(bytes.Equal(r, r2) || specDiffer(m, o, p(ind, n, f, d, i, r2, g, e))) &&
		(bytes.Equal(g, g2) || specDiffer(m, o, p(ind, n, f, d, i, r, g2, e))) &&
		(bytes.Equal(e, e2) || specDiffer(m, o, p(ind, n, f, d, i, r, g, e2)))
}
