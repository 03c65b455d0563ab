package main

import "math/big"

// Arithmetic of exponents as in a field: a quotient times its divisor is the
// dividend, unless the divisor is zero. Used where the divisors are drawn at
// random or hide a challenge, so that they are zero with negligible
// probability (C42).
var fieldMode bool

// reindex writes a sum or product over all n positions, whose body reads
// through a permutation only, over the positions themselves.
func reindex(n, y, body *Term) *Term {
	if !fieldMode {
		return body
	}
	at := func(op string) *Term {
		var r *Term
		walk(body, func(t *Term) bool {
			if t.is(op) && t.args[1] == n && t.args[2] == y && !contains(t.args[0], y) {
				r = t
			}
			return r == nil
		})
		return r
	}
	if p := at("perminv"); p != nil {
		z := freshVar("i", n)
		body = replaceTerms(body, map[*Term]*Term{y: permAt("perm", p.args[0], z, n)})
		body = replaceTerms(body, map[*Term]*Term{z: y})
	}
	if p := at("perm"); p != nil {
		z := freshVar("i", n)
		b := replaceTerms(body, map[*Term]*Term{p: z})
		if !contains(b, y) {
			body = replaceTerms(b, map[*Term]*Term{z: y})
		}
	}
	return body
}

// cancelInverses divides what stands before the inverse of a polynomial by it.
func cancelInverses(e *Term) *Term {
	if e.k != KPoly {
		return e
	}
	for _, m := range e.ms {
		for _, s := range m.vs {
			if !s.is("sinv") {
				continue
			}
			d := s.args[0]
			if d.is("mod") {
				d = d.args[0]
			}
			if d.k == KIte || d.k == KNum {
				continue
			}
			coef, rest := map[string]mono{}, map[string]mono{}
			for _, m := range e.ms {
				k := -1
				for j, v := range m.vs {
					if v == s {
						k = j
					}
				}
				if k < 0 {
					rest[vsKey(m.vs)] = m
					continue
				}
				vs := append(append([]*Term{}, m.vs[:k]...), m.vs[k+1:]...)
				coef[vsKey(vs)] = mono{m.c, vs}
			}
			q, r := divide(fromPoly(coef), d)
			if q.isC(0) {
				continue
			}
			return cancelInverses(add(add(fromPoly(rest), q), mul(r, s)))
		}
	}
	return e
}

// divide: p = q*d + r, no term of r divisible by the leading term of d
func divide(p, d *Term) (q, r *Term) {
	lead := func(t *Term) mono {
		switch t.k {
		case KNum:
			return mono{t.n, nil}
		case KPoly:
			return t.ms[0]
		}
		return mono{big.NewInt(1), []*Term{t}}
	}
	ld := lead(d)
	q, r = num(0), num(0)
	for !p.isC(0) {
		lp := lead(p)
		t := monoDiv(lp, ld)
		if t == nil {
			t = mul(num(1), bigTerm(lp.c))
			for _, v := range lp.vs {
				t = mul(t, v)
			}
			r, p = add(r, t), sub(p, t)
			continue
		}
		q, p = add(q, t), sub(p, mul(t, d))
	}
	return q, r
}

// monoDiv: a/b, or nil
func monoDiv(a, b mono) *Term {
	c, m := new(big.Int).QuoRem(a.c, b.c, new(big.Int))
	if m.Sign() != 0 {
		return nil
	}
	left := append([]*Term{}, a.vs...)
	for _, v := range b.vs {
		k := -1
		for j, w := range left {
			if w == v {
				k = j
			}
		}
		if k < 0 {
			return nil
		}
		left = append(left[:k], left[k+1:]...)
	}
	r := bigTerm(c)
	for _, v := range left {
		r = mul(r, v)
	}
	return r
}

// stepFolds writes the value of a loop after n+k steps in terms of the value
// after n, where both occur in one equation.
func stepFolds(res *Term) *Term {
	m := map[*Term]*Term{}
	for _, a := range support(res) {
		if !a.is("geq") {
			continue
		}
		seen := map[*Term]bool{}
		walk(a, func(t *Term) bool {
			if t.is("fold") {
				seen[t] = true
			}
			return true
		})
		fs := sortedTerms(seen)
		na, in := a, tTrue
		for _, big := range fs {
			for _, small := range fs {
				if big.args[1] != small.args[1] || big.args[2] != small.args[2] {
					continue
				}
				d := sub(big.args[0], small.args[0])
				if d.k != KNum || d.n.Sign() <= 0 || d.n.Int64() > 3 {
					continue
				}
				v := small
				for k := int64(0); k < d.n.Int64(); k++ {
					v = applyLam(applyLam(big.args[2], add(small.args[0], num(k))), v)
				}
				na = replaceTerms(na, map[*Term]*Term{big: v})
				in = and(in, le0(neg(small.args[0])))
			}
		}
		if na != a {
			m[a] = ite(in, asBool(na), asBool(a))
		}
	}
	if len(m) == 0 {
		return res
	}
	r := res
	for _, a := range sortedTerms(keysAsSet(m)) {
		r = ite(m[a], cofAtom(r, a, true), cofAtom(r, a, false))
	}
	return r
}

func keysAsSet(m map[*Term]*Term) map[*Term]bool {
	r := map[*Term]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}
