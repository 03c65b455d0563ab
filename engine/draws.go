package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Intrinsics of the specifications about random draws. A draw is a term that
// names the source, the range, the call path and the iteration it was made in.

var drawNames = map[string]func(x *Exec, st *State, a []*Term) *Term{
	"specDrawn":      func(x *Exec, st *State, a []*Term) *Term { return drawnAt(x.sec(st, a[0]), a[1], tQ) },
	"specDrawnInt":   func(x *Exec, st *State, a []*Term) *Term { return drawnAt(x.big(st, a[0]), a[1], nil) },
	"specDrawnBit":   func(x *Exec, st *State, a []*Term) *Term { return drawnBit(a[0], a[1]) },
	"specDrawnBelow": func(x *Exec, st *State, a []*Term) *Term { return drawnAt(x.big(st, a[0]), a[2], x.big(st, a[1])) },
	"specFree": func(x *Exec, st *State, a []*Term) *Term {
		e := x.big(st, a[1])
		return replaceTerms(x.big(st, a[0]), map[*Term]*Term{e: num(0)})
	},
	"specNonce": func(x *Exec, st *State, a []*Term) *Term {
		return liftN("nonce", func(v []*Term) *Term {
			if v[0].is("sig") {
				return v[0].args[3]
			}
			return rawApp("nononce", v[0])
		}, x.bytesVal(st, a[0]))
	},
	"specExponentInt": func(x *Exec, st *State, a []*Term) *Term {
		return liftN("exponent", func(v []*Term) *Term {
			b := v[1]
			if b.k == KGrp && len(b.fs) == 1 && b.fs[0].e.isC(1) {
				b = b.fs[0].b
			}
			for _, f := range v[0].fs {
				if f.b == b {
					return f.e
				}
			}
			return rawApp("noexponent", v[0], v[1])
		}, x.big(st, a[0]), x.big(st, a[1]))
	},
	"specFresh":    func(x *Exec, st *State, a []*Term) *Term { return x.freshHere(x.sec(st, a[0])) },
	"specUniform":  func(x *Exec, st *State, a []*Term) *Term { return uniformOrder(x.pt(st, a[0])) },
	"specOther":    func(x *Exec, st *State, a []*Term) *Term { return otherDraw(x.sec(st, a[0]), x.sec(st, a[1])) },
	"specOtherInt": func(x *Exec, st *State, a []*Term) *Term { return otherDraw(x.big(st, a[0]), x.big(st, a[1])) },
}

func (x *Exec) drawMode() {
	x.proverMode()
	for path := range x.p.pkgs {
		for n, op := range drawNames {
			if x.p.fn(path, n) == nil {
				continue
			}
			op, n := op, n
			x.opaque[path+"."+n] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
				r := op(x, st, c.args)
				if n == "specFree" || n == "specNonce" || n == "specExponentInt" {
					p := x.alloc(c.site)
					x.store(st, p, r, "")
					return p
				}
				return asBool(r)
			}
		}
	}
}

// proverMode: private randomness is drawn by the specification's specPri<type>
// and challenges are set by its specPub_<type>.
func (x *Exec) proverMode() {
	const ctx = "github.com/dedis/crypto/proof.ProverContext."
	if x.p.fn(shufPkg, "specPriList") == nil {
		return
	}
	x.opaque[ctx+"Put"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return tNil }
	each := func(what func(t types.Type) string) opaqueFn {
		return func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			l := x.listVal(st, c.args[1])
			if !l.is("lit") {
				panic(unsupportedf("randomness for %s", show(l)))
			}
			for i, r := range l.args {
				t := x.itypes[r]
				if t == nil {
					panic(unsupportedf("randomness for %s", show(r)))
				}
				n := what(t)
				g := x.p.fn(shufPkg, n)
				if g == nil {
					panic(unsupportedf("randomness: no %s", n))
				}
				x.run(g, []*Term{r}, nil, st, fmt.Sprintf("%s.%d", c.site, i), f)
			}
			return tNil
		}
	}
	x.opaque[ctx+"PriRand"] = each(func(t types.Type) string {
		if _, ok := t.Underlying().(*types.Slice); ok {
			return "specPriList"
		}
		return "specPriOne"
	})
	x.opaque[ctx+"PubRand"] = each(func(t types.Type) string {
		n := t.String()
		return "specPub_" + n[strings.LastIndexByte(n, '.')+1:]
	})
}

// steps reports whether a takes another value for every i.
func steps(a, i *Term) bool {
	if a == i || a.is("perm") && a.args[2] == i && !contains(a.args[0], i) {
		return true
	}
	if i.k == KNum || a.k != KPoly {
		return false
	}
	d := sub(replaceTerms(a, map[*Term]*Term{i: add(i, num(1))}), a)
	return d.k == KNum && d.n.Sign() != 0
}

// drawnAt decides whether v is a draw from the system's source, of the range
// given, and a different draw for each i (if i is not negative).
func drawnAt(v, i, rng *Term) *Term {
	one := i.k == KNum && i.n.Sign() < 0
	at := map[*Term][]*Term{}
	return localLift(v, func(l, _ *Term) *Term {
		if !isDraw(l) || rng != nil && l.args[1] != rng {
			return tFalse
		}
		if one {
			return tTrue
		}
		// two cases may not share a draw
		for _, o := range at[l.args[2]] {
			if o != l && !turnsDiffer(o, l) {
				return tFalse
			}
		}
		at[l.args[2]] = append(at[l.args[2]], l)
		for _, a := range l.args[3:] {
			if steps(a, i) {
				return tTrue
			}
		}
		return tFalse
	})
}

// turnsDiffer: the draws are made in different turns of an unrolled loop
func turnsDiffer(a, b *Term) bool {
	if len(a.args) != len(b.args) {
		return false
	}
	for j := 3; j < len(a.args); j++ {
		if a.args[j].k == KNum && b.args[j].k == KNum && a.args[j] != b.args[j] {
			return true
		}
	}
	return false
}

func isDraw(t *Term) bool { return t.is("rnd") && t.args[0] == tSysRnd }

// drawnBit decides the same for a bit.
func drawnBit(v, i *Term) *Term {
	if v.k != KIte {
		return tFalse
	}
	return localLift(bitOf(v), func(l, _ *Term) *Term { return drawnAt(l, i, num(2)) })
}

// bitOf turns decisions on a drawn bit into the bit.
func bitOf(v *Term) *Term {
	if v.k != KIte {
		return v
	}
	if isDraw(v.args[0]) && (v.args[1] == tTrue && v.args[2] == tFalse || v.args[1] == tFalse && v.args[2] == tTrue) {
		return v.args[0]
	}
	return mkIteRaw(v.args[0], bitOf(v.args[1]), bitOf(v.args[2]))
}

// otherDraw decides whether a and b are separate draws.
func otherDraw(a, b *Term) *Term {
	return liftN("otherdraw", func(t []*Term) *Term {
		a, b := t[0], t[1]
		if !isDraw(a) || !isDraw(b) {
			return tFalse
		}
		if a.args[2] != b.args[2] {
			return tTrue
		}
		for k := 3; k < len(a.args) && k < len(b.args); k++ {
			if d := sub(a.args[k], b.args[k]); d.k == KNum && d.n.Sign() != 0 {
				return tTrue
			}
		}
		return tFalse
	}, a, b)
}

// uniformOrder decides whether p depends on exactly one order of the elements,
// which is reached by exchanging each position with one drawn from those left.
func uniformOrder(p *Term) *Term {
	ids := map[*Term]*Term{}
	walk(p, func(t *Term) bool {
		if t.is("perm") || t.is("perminv") {
			ids[t.args[0]] = t.args[1]
		}
		return true
	})
	if len(ids) != 1 {
		return tFalse
	}
	for id, k := range ids {
		t := freshVar("i", nil)
		steps := id.args[0]
		switch {
		case id.is("inserts"):
			if steps == k && drawnIndex(applyLam(id.args[1], t), t, add(t, num(1))) {
				return tTrue
			}
		case id.is("swaps"):
			a, b := applyLam(id.args[1], t), applyLam(id.args[2], t)
			if a.k == KIte && b.k == KIte && a.args[0] == b.args[0] {
				// nothing is exchanged when both positions are the same
				c, w, v := a.args[0], a.args[1:3], b.args[1:3]
				if w[0] != num(0) || v[0] != num(0) || !c.is("eq0") || c.args[0] != sub(w[1], v[1]) && c.args[0] != sub(v[1], w[1]) {
					return tFalse
				}
				a, b = w[1], v[1]
			}
			for _, q := range [][2]*Term{{a, b}, {b, a}} {
				f, r := q[0], q[1]
				last := sub(sub(k, num(1)), t)
				all := steps == k || steps == sub(k, num(1))
				switch {
				case f == last && all && drawnIndex(r, t, sub(k, t)),
					f == t && steps == k && drawnIndex(r, t, add(t, num(1))),
					f == add(t, num(1)) && steps == sub(k, num(1)) && drawnIndex(r, t, add(t, num(2))),
					f == t && all && drawnIndex(sub(r, t), t, sub(k, t)):
					return tTrue
				}
			}
		}
	}
	return tFalse
}

// drawnIndex: j is drawn from [0,n), separately for each t
func drawnIndex(j, t, n *Term) bool {
	if j.is("arith:%") && j.args[1] == n {
		d := j.args[0]
		return isDraw(d) && d.args[1] == cst("2^64") && drawnAt(d, t, nil) == tTrue
	}
	return drawnAt(j, t, n) == tTrue
}

// freshHere decides whether v is a draw of its own for each iteration of the
// loops around the place that is looked at.
func (x *Exec) freshHere(v *Term) *Term {
	r := drawnAt(v, num(-1), tQ)
	for _, i := range x.lv {
		r = and(r, drawnAt(v, i, tQ))
	}
	return r
}
