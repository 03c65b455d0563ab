package main

import (
	"math/big"
	"sort"
)

// Cases whose integer comparisons contradict each other cannot occur. The
// decision diagrams treat each comparison as an atom of its own, so a path
// through one may say j >= 1, j <= n and n <= 0; linearPrune removes it.

// a linear constraint: sum of coef[k]*k + c <= 0
type linear struct {
	coef map[string]*big.Int
	c    *big.Int
}

const maxLinear = 300

func linearOf(p *Term, atoms map[string]*Term) *linear {
	if p.k == KIte || p == tInf || p == tUndef || p == tUnset {
		return nil
	}
	l := &linear{map[string]*big.Int{}, big.NewInt(0)}
	for _, m := range sortedMonos(p) {
		if len(m.vs) == 0 {
			l.c = m.c
			continue
		}
		k := vsKey(m.vs)
		l.coef[k] = m.c
		if len(m.vs) == 1 {
			atoms[k] = m.vs[0]
		}
	}
	return l
}

func (l *linear) negated(plus int64) *linear { // -l + plus <= 0
	r := &linear{map[string]*big.Int{}, new(big.Int).Add(new(big.Int).Neg(l.c), big.NewInt(plus))}
	for k, v := range l.coef {
		r.coef[k] = new(big.Int).Neg(v)
	}
	return r
}

func (l *linear) plus(n int64) *linear {
	return &linear{l.coef, new(big.Int).Add(l.c, big.NewInt(n))}
}

// inconsistent: Fourier-Motzkin elimination (over the rationals, hence sound
// for the integers)
func inconsistent(cs []*linear) bool {
	for {
		uses := map[string][2]int{}
		for _, l := range cs {
			if len(l.coef) == 0 && l.c.Sign() > 0 {
				return true
			}
			for k, v := range l.coef {
				u := uses[k]
				if v.Sign() > 0 {
					u[0]++
				} else {
					u[1]++
				}
				uses[k] = u
			}
		}
		if len(uses) == 0 {
			return false
		}
		best, cost := "", 0
		for k, u := range uses {
			if c := u[0] * u[1]; best == "" || c < cost || c == cost && k < best {
				best, cost = k, c
			}
		}
		var next, pos, neg []*linear
		for _, l := range cs {
			switch v := l.coef[best]; {
			case v == nil:
				next = append(next, l)
			case v.Sign() > 0:
				pos = append(pos, l)
			default:
				neg = append(neg, l)
			}
		}
		if len(next)+cost > maxLinear {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := new(big.Int).Neg(n.coef[best]), p.coef[best]
				r := &linear{map[string]*big.Int{}, new(big.Int)}
				r.c.Add(new(big.Int).Mul(a, p.c), new(big.Int).Mul(b, n.c))
				for k, v := range p.coef {
					r.coef[k] = new(big.Int).Mul(a, v)
				}
				for k, v := range n.coef {
					x := r.coef[k]
					if x == nil {
						x = new(big.Int)
					}
					r.coef[k] = new(big.Int).Add(x, new(big.Int).Mul(b, v))
				}
				for k, v := range r.coef {
					if v.Sign() == 0 {
						delete(r.coef, k)
					}
				}
				if len(r.coef) == 0 && r.c.Sign() <= 0 {
					continue
				}
				next = append(next, r)
			}
		}
		cs = next
	}
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// linearPrune drops the paths of b whose comparisons cannot all hold.
func linearPrune(b *Term) *Term {
	n := 0
	for _, a := range support(b) {
		if a.is("le0") {
			n++
		}
	}
	if n < 2 {
		return b
	}
	fuel := 2000
	var walk func(b *Term, cs []*linear, ds []*linear, atoms map[string]*Term) *Term
	walk = func(b *Term, cs, ds []*linear, atoms map[string]*Term) *Term {
		fuel--
		if b == tFalse || fuel < 0 {
			return b
		}
		if b.k != KIte {
			if len(cs) < 2 {
				return b
			}
			for _, k := range sortedKeys(atoms) {
				v := atoms[k]
				lo, hi := atomRange(v)
				if lo != nil && lo.k == KNum {
					cs = append(cs, &linear{map[string]*big.Int{k: big.NewInt(-1)}, lo.n})
				}
				if hi != nil {
					if l := linearOf(sub(v, hi), atoms); l != nil {
						cs = append(cs, l)
					}
				}
			}
			if inconsistent(cs) {
				return tFalse
			}
			for again := true; again; {
				again = false
				for i, d := range ds {
					if d == nil {
						continue
					}
					below, above := d.plus(1), d.negated(1)
					noBelow := inconsistent(append(cs[:len(cs):len(cs)], below))
					noAbove := inconsistent(append(cs[:len(cs):len(cs)], above))
					switch {
					case noBelow && noAbove:
						return tFalse
					case noBelow:
						cs = append(cs, above)
					case noAbove:
						cs = append(cs, below)
					default:
						continue
					}
					ds = append([]*linear{}, ds...)
					ds[i] = nil
					again = true
				}
			}
			return b
		}
		a := b.args[0]
		hc, lc, hd, ld := cs, cs, ds, ds
		if a.is("le0") {
			if l := linearOf(a.args[0], atoms); l != nil {
				hc = append(cs[:len(cs):len(cs)], l)
				lc = append(cs[:len(cs):len(cs)], l.negated(1))
			}
		} else if a.is("eq0") && isNumeric(a.args[0]) {
			if l := linearOf(a.args[0], atoms); l != nil {
				hc = append(cs[:len(cs):len(cs)], l, l.negated(0))
				ld = append(ds[:len(ds):len(ds)], l)
			}
		}
		hi, lo := walk(b.args[1], hc, hd, atoms), walk(b.args[2], lc, ld, atoms)
		if hi == b.args[1] && lo == b.args[2] {
			return b
		}
		return mkNode(a, hi, lo)
	}
	r := walk(b, nil, nil, map[string]*Term{})
	if fuel < 0 {
		return b
	}
	return r
}
