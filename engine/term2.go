package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// mkApp builds op(args) through the smart constructor of op, if it has one.
func mkApp(op string, a []*Term) *Term {
	switch op {
	case "le0":
		return le0(a[0])
	case "eq0":
		return eq(a[0], num(0))
	case "eq":
		return eq(a[0], a[1])
	case "isnil":
		return eq(a[0], tNil)
	case "geq":
		return geqIdent(a[0])
	case "mod":
		return mod(a[0], a[1])
	case "sum":
		return mkSumL(a[0], a[1])
	case "gprod":
		return mkProdL(a[0], a[1])
	case "fold":
		if a[0].isC(0) {
			return a[1]
		}
	case "ex":
		return mkExL(a[0], a[1])
	case "first":
		return mkFirstL(a[0], a[1])
	case "lit":
		return mkLit(a)
	case "gen":
		return mkGenL(a[0], a[1])
	case "filt":
		return mkFiltL(a[0], a[1], a[2])
	case "elem":
		return elem(a[0], a[1])
	case "llen":
		return llen(a[0])
	case "lcat":
		return lcat(a...)
	case "lsub":
		return lsub(a[0], a[1], a[2])
	case "lupd":
		return lupd(a[0], a[1], a[2])
	case "lupdall":
		return lupdall(a[0], a[1], a[2], a[3], a[4])
	case "mget":
		return mget(a[0], a[1], nil)
	case "mhas":
		return mhas(a[0], a[1])
	case "mput":
		return mput(a[0], a[1], a[2])
	case "mdel":
		return mdel(a[0], a[1])
	case "mputall":
		return mputallL(a...)
	case "mdelall":
		return mdelallL(a[0], a[1], a[2], a[3])
	case "mcard":
		return mcard(a[0])
	case "mkey":
		return mkey(a[0], a[1], a[2])
	case "perm", "perminv":
		return permAt(op, a[0], a[2], a[1])
	case "fld":
		return mkField(a[0], a[1].op)
	case "blen":
		return blen(a[0])
	case "marsh":
		return marsh(a[0])
	case "num":
		return numOf(a[0])
	case "slice":
		return app("slice", a...)
	case "proj":
		return proj(a[0], int(a[1].n.Int64()))
	case "dec":
		return decOf(a[0], a[1])
	case "okdec":
		return okDec(a[0], a[1])
	case "sigok":
		return sigOk(a...)
	case "ieq":
		return ieq(a[0], a[1])
	case "secval":
		return secVal(a[0])
	case "sign":
		return signOf(a[0])
	case "bloop":
		return mkBloopL(a[0], a[1])
	case "zeros":
		return zerosOf(a[0])
	case "bytesof":
		return bytesOf(a[0])
	case "abs":
		return absOf(a[0])
	case "alloc", "afield", "aindex", "closure", "func", "global", "root", "mu":
		return app(op, a...)
	case "addr":
		return liftN("addr", func(a []*Term) *Term {
			if a[0].is("addrstr") {
				return a[0].args[0]
			}
			return rawApp("addr", a[0])
		}, a[0])
	case "bigdiv":
		return bigDiv("div", a[0], a[1])
	case "next":
	}
	return app(op, a...)
}

func geqIdent(r *Term) *Term {
	return liftN("geqid", func(x []*Term) *Term {
		if x[0].k == KGrp {
			return geq(x[0], mkGrp(x[0].args[0], nil))
		}
		return asBool(rawApp("geq", x[0]))
	}, r)
}

// marsh is the encoding of a group element or scalar (its argument is the value).
func marsh(v *Term) *Term {
	return liftN("marsh", func(a []*Term) *Term {
		if a[0] == tUnset || a[0] == tUndef {
			return a[0]
		}
		return rawApp("marsh", a[0])
	}, v)
}

// numOf: big-endian bytes as a number
func numOf(b *Term) *Term {
	return liftN("num", func(a []*Term) *Term {
		b := a[0]
		if b.is("bytesof") {
			return b.args[0]
		}
		if b == tUnset || b == tUndef {
			return b
		}
		if b.k == KStr {
			return bigTerm(new(big.Int).SetBytes([]byte(b.op)))
		}
		return rawApp("num", b)
	}, b)
}

func bytesOf(n *Term) *Term {
	return liftN("bytesof", func(a []*Term) *Term {
		b := a[0]
		if b == tUnset || b == tUndef {
			return b
		}
		return rawApp("bytesof", absOf(b))
	}, n)
}

// nonNeg: the term is known not to be negative
func nonNeg(t *Term) bool {
	switch t.k {
	case KNum:
		return t.n.Sign() >= 0
	case KGrp:
		return true
	case KApp:
		switch t.op {
		case "mod", "num", "abs", "len", "rnd", "val", "secval", "llen":
			return true
		case "dec":
			return t.args[0].op == "point" || t.args[0].op == "secret"
		}
	case KPoly:
		for _, m := range t.ms {
			if m.c.Sign() < 0 {
				return false
			}
			for i, v := range m.vs {
				if !nonNeg(v) && !(i+1 < len(m.vs) && m.vs[i+1] == v) && !(i > 0 && m.vs[i-1] == v) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// absOf: the absolute value (big integers lose their sign when written as bytes)
func absOf(a *Term) *Term {
	return liftN("abs", func(x []*Term) *Term {
		a := x[0]
		if a == tUnset || a == tUndef || nonNeg(a) {
			return a
		}
		if a.k == KNum {
			return bigTerm(new(big.Int).Abs(a.n))
		}
		return rawApp("abs", a)
	}, a)
}

// ---------------------------------------------------------------------------
// sums, products, quantifiers

func mkSum(n, v, body *Term) *Term { return mkSumL(n, mkLam(v, body)) }

func mkSumL(n, l *Term) *Term {
	return liftN("sum", func(a []*Term) *Term {
		n, l := a[0], a[1]
		if l.k != KLam {
			return rawApp("sum", n, l)
		}
		if n.isC(0) {
			return num(0)
		}
		if n.k == KNum && n.n.IsInt64() && n.n.Int64() <= 8 {
			r := num(0)
			for i := int64(0); i < n.n.Int64(); i++ {
				r = add(r, applyLam(l, num(i)))
			}
			return r
		}
		y := freshVar("i", n)
		b := applyLam(l, y)
		if b.k == KIte {
			// a case that only one index falls into is taken out
			for _, at := range support(b) {
				k := soleIndex(at, y)
				if k == nil {
					continue
				}
				hi := cofAtom(b, at, true)
				if hi.isC(0) {
					continue
				}
				in := and(le0(neg(k)), le0(add(sub(k, n), num(1))))
				one := applyLam(mkLam(y, hi), k)
				return add(ite(in, one, num(0)), mkSum(n, y, ite(at, num(0), cofAtom(b, at, false))))
			}
			// other case distinctions stay inside, one sum per monomial
			ls := leaves(b)
			if len(ls) > 16 {
				return rawApp("sum", n, l)
			}
			type part struct{ in, out *Term }
			parts := map[string]part{}
			for _, lf := range ls {
				if lf.k == KConst || lf.k == KIte {
					return rawApp("sum", n, l)
				}
				for k, m := range polyMap(lf) {
					p := part{num(1), num(1)}
					for _, v := range m.vs {
						if contains(v, y) {
							p.in = mul(p.in, v)
						} else {
							p.out = mul(p.out, v)
						}
					}
					parts[k] = p
				}
			}
			var keys []string
			for k := range parts {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			r := num(0)
			for _, k := range keys {
				sign := int64(0)
				body := localLift(b, func(lf, _ *Term) *Term {
					m, ok := polyMap(lf)[k]
					if !ok {
						return num(0)
					}
					if sign == 0 {
						sign = int64(m.c.Sign())
					}
					return mul(bigTerm(new(big.Int).Mul(m.c, big.NewInt(sign))), parts[k].in)
				})
				r = add(r, mul(mul(num(sign), parts[k].out), rawApp("sum", n, mkLam(y, body))))
			}
			return r
		}
		r := num(0)
		for _, m := range sortedMonos(b) {
			dep := false
			q := bigTerm(m.c)
			body := num(1)
			for _, v := range m.vs {
				if contains(v, y) {
					dep = true
					body = mul(body, v)
				} else {
					q = mul(q, v)
				}
			}
			if !dep {
				r = add(r, mul(q, n))
			} else {
				r = add(r, mul(q, rawApp("sum", n, mkLam(y, reindex(n, y, body)))))
			}
		}
		return r
	}, n, l)
}

// soleIndex: at is y = k for a k that does not depend on y
func soleIndex(at, y *Term) *Term {
	if !at.is("eq0") || !contains(at, y) {
		return nil
	}
	pm := polyMap(at.args[0])
	key := vsKey([]*Term{y})
	m, ok := pm[key]
	if !ok || !m.c.IsInt64() {
		return nil
	}
	c := m.c.Int64()
	if c != 1 && c != -1 {
		return nil
	}
	delete(pm, key)
	rest := fromPoly(pm)
	if contains(rest, y) {
		return nil
	}
	return mul(num(-c), rest)
}

// product of group elements, as an atom of the same group
func mkProdL(n, l *Term) *Term {
	return liftN("gprod", func(a []*Term) *Term {
		n, l := a[0], a[1]
		if l.k != KLam {
			return rawApp("gprod", n, l)
		}
		y := freshVar("i", n)
		b := applyLam(l, y)
		if n.k == KNum && n.n.IsInt64() && n.n.Int64() <= 8 && n.n.Sign() >= 0 && b.k != KApp {
			var r *Term
			for i := int64(0); i < n.n.Int64(); i++ {
				v := applyLam(l, num(i))
				if r == nil {
					r = v
				} else {
					r = gmul(r, v)
				}
			}
			if r != nil {
				return r
			}
		}
		if b.k != KGrp {
			if b.k == KIte {
				for _, g := range leaves(b) {
					if g.k == KGrp {
						return mkGrp(g.args[0], []factor{{rawApp("gprod", n, l), num(1)}})
					}
				}
			}
			return rawApp("gprod", n, l)
		}
		m := b.args[0]
		r := mkGrp(m, nil)
		for _, f := range b.fs {
			switch {
			case !contains(f.b, y):
				r = gmul(r, mkGrp(m, []factor{{f.b, mkSum(n, y, f.e)}}))
			case !contains(f.e, y):
				at := rawApp("gprod", n, mkLam(y, reindex(n, y, mkGrp(m, []factor{{f.b, num(1)}}))))
				r = gmul(r, mkGrp(m, []factor{{at, f.e}}))
			case fieldMode && f.e.k != KIte:
				// one product for each monomial of the exponent
				for _, mo := range sortedMonos(f.e) {
					out, in := bigTerm(mo.c), num(1)
					for _, v := range mo.vs {
						if contains(v, y) {
							in = mul(in, v)
						} else {
							out = mul(out, v)
						}
					}
					at := rawApp("gprod", n, mkLam(y, reindex(n, y, mkGrp(m, []factor{{f.b, in}}))))
					r = gmul(r, mkGrp(m, []factor{{at, out}}))
				}
			default:
				at := rawApp("gprod", n, mkLam(y, mkGrp(m, []factor{f})))
				r = gmul(r, mkGrp(m, []factor{{at, num(1)}}))
			}
		}
		return r
	}, n, l)
}

func mkEx(n, v, body *Term) *Term { return mkExL(n, mkLam(v, body)) }

// ex(n, λi.c): some i in [0,n) satisfies c
func mkExL(n, l *Term) *Term {
	return liftN("ex", func(a []*Term) *Term {
		n, l := a[0], a[1]
		if n.isC(0) {
			return tFalse
		}
		if l.k != KLam {
			return asBool(rawApp("ex", n, l))
		}
		body := l.args[0]
		if body == tFalse {
			return tFalse
		}
		if body == tTrue {
			if n == tInf {
				return tTrue
			}
			return not(le0(n))
		}
		if n.k == KNum && n.n.IsInt64() && n.n.Int64() <= 8 {
			r := tFalse
			for i := int64(0); i < n.n.Int64(); i++ {
				r = or(r, asBool(applyLam(l, num(i))))
			}
			return r
		}
		y := freshVar("i", n)
		b := asBool(applyLam(l, y))
		// conjuncts and disjuncts that do not depend on the index move out
		if b.k == KIte {
			at := b.args[0]
			if !contains(at, y) {
				return ite(asBool(at), mkEx(n, y, b.args[1]), mkEx(n, y, b.args[2]))
			}
			for _, at := range support(b) {
				if !contains(at, y) {
					c := mkIteRaw(at, tTrue, tFalse)
					return ite(c, mkEx(n, y, restrict(b, c)), mkEx(n, y, restrict(b, not(c))))
				}
			}
			if b == tTrue || b == tFalse {
				return mkEx(n, y, b)
			}
			if z, r := peelFirst(n, y, b); z != nil {
				if n == tInf {
					return or(z, mkEx(n, y, r))
				}
				return ite(le0(n), tFalse, or(z, mkEx(sub(n, num(1)), y, r)))
			}
			// parts of the range that are told apart
			if n != tInf {
				for _, at := range support(b) {
					if !at.is("le0") || at.args[0].k != KPoly {
						continue
					}
					p := at.args[0]
					from, above := add(p, y), true
					if contains(from, y) {
						from, above = sub(add(y, num(1)), p), false
					}
					if contains(from, y) || from.k == KIte || n.k == KIte || le0(from) == tTrue || le0(sub(n, from)) == tTrue {
						continue
					}
					c := mkIteRaw(at, tTrue, tFalse)
					lo, hi := restrict(b, not(c)), restrict(b, c)
					if !above {
						lo, hi = hi, lo
					}
					z := freshVar("i", sub(n, from))
					r := or(mkEx(from, y, lo), mkEx(sub(n, from), z, asBool(replaceTerms(hi, map[*Term]*Term{y: add(z, from)}))))
					if le0(sub(from, n)) != tTrue {
						r = ite(le0(sub(n, from)), mkEx(n, y, lo), r)
					}
					if le0(neg(from)) != tTrue {
						r = ite(le0(from), mkEx(n, y, hi), r)
					}
					return r
				}
			}
			// a position at hand is one
			for _, v := range l.fv {
				if v.k == KVar && n != tInf && n.k != KIte && le0(add(sub(v, n), num(1))) == tTrue && le0(neg(v)) == tTrue && applyLam(l, v) == tTrue {
					return tTrue
				}
			}
			// some key of a map that equals k
			if n.is("mcard") {
				for _, at := range support(b) {
					if !at.is("eq") || and(b, not(ite(at, tTrue, tFalse))) != tFalse {
						continue
					}
					for j := 0; j < 2; j++ {
						mk, k := at.args[j], at.args[1-j]
						if !mk.is("mkey") || mk.args[0] != n.args[0] || mk.args[1] != y || contains(mk.args[2], y) || contains(k, y) {
							continue
						}
						if r := asBool(replaceTerms(b, map[*Term]*Term{mk: k})); !contains(r, y) {
							return and(mhas(n.args[0], k), r)
						}
					}
				}
			}
			// a disjunction of conditions splits
			if ds := disjuncts(b); len(ds) > 1 {
				r := tFalse
				for _, d := range ds {
					r = or(r, mkEx(n, y, d))
				}
				return r
			}
			return asBool(rawApp("ex", n, mkLam(y, b)))
		}
		return mkEx(n, y, b)
	}, n, l)
}

// disjuncts: t as a disjunction of literals, if it is one
func disjuncts(t *Term) []*Term {
	var r []*Term
	for t.k == KIte {
		c := mkIteRaw(t.args[0], tTrue, tFalse)
		switch {
		case t.args[1] == tTrue:
			r = append(r, c)
			t = t.args[2]
		case t.args[2] == tTrue:
			r = append(r, not(c))
			t = t.args[1]
		default:
			return append(r, t)
		}
	}
	if t != tFalse {
		r = append(r, t)
	}
	return r
}

// peelFirst: a condition that distinguishes the first index from the others,
// as what it says about 0 and about y+1
func peelFirst(n, y, b *Term) (*Term, *Term) {
	for _, at := range support(b) {
		if at.is("le0") && at.args[0] == y {
			c := mkIteRaw(at, tTrue, tFalse)
			return subst(restrict(b, c), map[*Term]*Term{y: num(0)}),
				subst(restrict(b, not(c)), map[*Term]*Term{y: add(y, num(1))})
		}
	}
	return nil, nil
}

func mkFirst(n, v, body *Term) *Term { return mkFirstL(n, mkLam(v, body)) }

// first(n, λi.c): the least i in [0,n) satisfying c
func mkFirstL(n, l *Term) *Term {
	return liftN("first", func(a []*Term) *Term {
		n, l := a[0], a[1]
		if l.k == KLam && l.args[0] == tTrue {
			return num(0)
		}
		if l.k == KLam {
			y := freshVar("i", n)
			b := asBool(applyLam(l, y))
			for _, at := range support(b) {
				if !contains(at, y) {
					c := mkIteRaw(at, tTrue, tFalse)
					return ite(c, mkFirst(n, y, restrict(b, c)), mkFirst(n, y, restrict(b, not(c))))
				}
			}
			if n == tInf {
				if t := threshold(b, y); t != nil {
					return t
				}
			}
			// i = t
			if b.k == KIte && b.args[1] == tTrue && b.args[2] == tFalse && b.args[0].is("eq0") {
				p := b.args[0].args[0]
				pm := polyMap(p)
				if m, ok := pm[vsKey([]*Term{y})]; ok && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1) {
					delete(pm, vsKey([]*Term{y}))
					rest := fromPoly(pm)
					if !contains(rest, y) {
						return mul(num(-m.c.Int64()), rest)
					}
				}
			}
			if z, r := peelFirst(n, y, b); z != nil {
				m := n
				if n != tInf {
					m = sub(n, num(1))
				}
				return ite(z, num(0), add(num(1), mkFirst(m, y, r)))
			}
			l = mkLam(y, b)
		}
		return rawApp("first", n, l)
	}, n, l)
}

// ---------------------------------------------------------------------------
// lists

func mkLit(a []*Term) *Term { return rawApp("lit", a...) }

func mkGen(n, v, body *Term) *Term { return mkGenL(n, mkLam(v, body)) }

func mkGenL(n, l *Term) *Term {
	return liftN("gen", func(a []*Term) *Term {
		n, l := a[0], a[1]
		if n == tUndef {
			return tUndef
		}
		if n.isC(0) {
			return mkLit(nil)
		}
		if l.k != KLam {
			return rawApp("gen", n, l)
		}
		if n.k == KNum && n.n.IsInt64() && n.n.Int64() <= 64 && n.n.Sign() > 0 {
			var xs []*Term
			for i := int64(0); i < n.n.Int64(); i++ {
				xs = append(xs, applyLam(l, num(i)))
			}
			return mkLit(xs)
		}
		// eta
		b := l.args[0]
		if b.is("elem") && b.args[1] == bvar(l.aux) && !contains(b.args[0], bvar(l.aux)) && llen(b.args[0]) == n {
			return b.args[0]
		}
		return rawApp("gen", n, l)
	}, n, l)
}

// filt(n, λi.c, λi.v): the values v of the i that satisfy c
func mkFiltL(n, c, l *Term) *Term {
	return liftN("filt", func(a []*Term) *Term {
		n, c, l := a[0], a[1], a[2]
		if n.isC(0) {
			return mkLit(nil)
		}
		if c.k == KLam && c.args[0] == tTrue {
			return mkGenL(n, l)
		}
		if c.k == KLam && c.args[0] == tFalse {
			return mkLit(nil)
		}
		return rawApp("filt", n, c, l)
	}, n, c, l)
}

func llen(l *Term) *Term {
	return liftN("llen", func(a []*Term) *Term {
		l := a[0]
		switch {
		case l == tNil:
			return num(0)
		case l == tUndef:
			return tUndef
		case l.is("lit"):
			return num(int64(len(l.args)))
		case l.is("gen"):
			return l.args[0]
		case l.is("lupd"), l.is("lupdall"):
			return llen(l.args[0])
		case l.is("lsub"):
			return l.args[2]
		case l.is("lcat"):
			r := num(0)
			for _, x := range l.args {
				r = add(r, llen(x))
			}
			return r
		case l.k == KStr || l.k == KBytes || l.is("zeros") || isBytesLike(l):
			return blen(l)
		case l.is("llist"):
			return l.args[0]
		}
		return rawApp("llen", l)
	}, l)
}

func elem(l, i *Term) *Term {
	return liftN("elem", func(a []*Term) *Term {
		l, i := a[0], a[1]
		if l == tUndef || i == tUndef {
			return tUndef
		}
		switch {
		case l.is("lit"):
			if i.k == KNum {
				if i.n.Sign() >= 0 && i.n.IsInt64() && int(i.n.Int64()) < len(l.args) {
					return l.args[i.n.Int64()]
				}
				return tDead
			}
			same := true
			for _, x := range l.args {
				if x != l.args[0] {
					same = false
				}
			}
			if same && len(l.args) > 0 {
				return l.args[0]
			}
			if len(l.args) > 0 && len(l.args) <= 16 {
				r := l.args[len(l.args)-1]
				for k := len(l.args) - 2; k >= 0; k-- {
					r = ite(eq(i, num(int64(k))), l.args[k], r)
				}
				return r
			}
		case l.is("gen"):
			if l.args[1].k == KLam {
				return applyLam(l.args[1], i)
			}
		case l.is("lupd"):
			return ite(eq(l.args[1], i), l.args[2], elem(l.args[0], i))
		case l.is("lsub"):
			return elem(l.args[0], add(l.args[1], i))
		case l.is("lcat"):
			first := l.args[0]
			n := llen(first)
			rest := lcat(l.args[1:]...)
			return ite(le0(sub(add(i, num(1)), n)), elem(first, i), elem(rest, sub(i, n)))
		case l.is("llist"):
			return applyLam(l.args[1], i)
		case l.k == KStr:
			if i.k == KNum && i.n.IsInt64() && i.n.Sign() >= 0 && i.n.Int64() < int64(len(l.op)) {
				return num(int64(l.op[i.n.Int64()]))
			}
		case l.is("zeros"):
			return num(0)
		case l.is("lupdall"):
			n, c, ix, v := l.args[1], l.args[2], l.args[3], l.args[4]
			if c.k == KLam && ix.k == KLam && v.k == KLam && n.k != KIte {
				y := freshVar("i", n)
				ii := applyLam(ix, y)
				if (ii.is("perm") || ii.is("perminv")) && ii.args[1] == n && ii.args[2] == y && !contains(ii.args[0], y) && c.args[0] == tTrue {
					// every position is written once
					back := "perminv"
					if ii.is("perminv") {
						back = "perm"
					}
					in := and(le0(neg(i)), le0(sub(add(i, num(1)), n)))
					return ite(in, applyLam(v, permAt(back, ii.args[0], i, n)), elem(l.args[0], i))
				}
				for _, s := range []int64{1, -1} {
					off := sub(ii, mul(num(s), y))
					if contains(off, y) || off.k == KIte {
						continue
					}
					w := mul(num(s), sub(i, off)) // the iteration that writes i
					in := and(le0(neg(w)), le0(sub(add(w, num(1)), n)))
					return ite(and(in, asBool(applyLam(c, w))), applyLam(v, w), elem(l.args[0], i))
				}
			}
		}
		return rawApp("elem", l, i)
	}, l, i)
}

func isEmptyList(t *Term) bool {
	return t == tNil || t.is("lit") && len(t.args) == 0 || t.k == KStr && t.op == ""
}

func lcat(parts ...*Term) *Term {
	return liftN("lcat", func(a []*Term) *Term {
		var segs []*Term
		for _, x := range a {
			if x == tUndef {
				return tUndef
			}
		}
		var push func(t *Term)
		push = func(t *Term) {
			switch {
			case isEmptyList(t):
			case t.is("lcat"):
				for _, x := range t.args {
					push(x)
				}
			case t.is("lit") && len(segs) > 0 && segs[len(segs)-1].is("lit"):
				l := segs[len(segs)-1]
				segs[len(segs)-1] = mkLit(append(append([]*Term{}, l.args...), t.args...))
			default:
				// gen(n, f) ++ [f(n)]
				segs = append(segs, t)
			}
		}
		for _, t := range a {
			push(t)
		}
		if len(segs) == 0 {
			return mkLit(nil)
		}
		if len(segs) == 1 {
			return segs[0]
		}
		return rawApp("lcat", segs...)
	}, parts...)
}

func lsub(l, off, n *Term) *Term {
	return liftN("lsub", func(a []*Term) *Term {
		l, off, n := a[0], a[1], a[2]
		if l == tUndef {
			return tUndef
		}
		if off.isC(0) && llen(l) == n {
			return l
		}
		if n.isC(0) {
			return mkLit(nil)
		}
		if l.is("lsub") {
			return lsub(l.args[0], add(l.args[1], off), n)
		}
		if l.is("lit") && off.k == KNum && n.k == KNum {
			o, k := off.n.Int64(), n.n.Int64()
			if o >= 0 && k >= 0 && o+k <= int64(len(l.args)) {
				return mkLit(append([]*Term{}, l.args[o:o+k]...))
			}
		}
		if l.is("lcat") {
			n0 := llen(l.args[0])
			if off.isC(0) && n0 == n {
				return l.args[0]
			}
			if off == n0 {
				return lsub(lcat(l.args[1:]...), num(0), n)
			}
			rest := lcat(l.args[1:]...)
			if d := sub(off, n0); d.k == KNum && d.n.Sign() >= 0 {
				return lsub(rest, d, n)
			} else if d.k == KNum {
				// starts in the first part
				over := sub(add(off, n), n0)
				if over.k == KNum && over.n.Sign() <= 0 {
					return lsub(l.args[0], off, n)
				}
				if over.k == KNum || le0(neg(over)) == tTrue {
					return lcat(lsub(l.args[0], off, neg(d)), lsub(rest, num(0), over))
				}
			}
		}
		return rawApp("lsub", l, off, n)
	}, l, off, n)
}

func lupd(l, i, v *Term) *Term {
	return liftN("lupd", func(a []*Term) *Term {
		l, i := a[0], a[1]
		v := a[2]
		if l == tUndef {
			return tUndef
		}
		if l.is("lit") && i.k == KNum && i.n.IsInt64() {
			k := i.n.Int64()
			if k < 0 || k >= int64(len(l.args)) {
				return tDead
			}
			xs := append([]*Term{}, l.args...)
			xs[k] = v
			return mkLit(xs)
		}
		if l.is("lupd") && l.args[1] == i {
			return lupd(l.args[0], i, v)
		}
		if l.is("lupd") && l.args[1].k == KNum && i.k == KNum && l.args[1].n.Cmp(i.n) > 0 {
			return lupd(lupd(l.args[0], i, v), l.args[1], l.args[2])
		}
		if elem(l, i) == v {
			return l
		}
		if l.is("gen") && l.args[1].k == KLam {
			j := freshVar("i", l.args[0])
			return mkGen(l.args[0], j, ite(eq(j, i), v, applyLam(l.args[1], j)))
		}
		return rawApp("lupd", l, i, v)
	}, l, i, v)
}

// lupdall(l, n, λi.cond, λi.index, λi.value): writes of a loop
func lupdall(l, n, c, ix, v *Term) *Term {
	return liftN("lupdall", func(a []*Term) *Term {
		l, n, c, ix, v := a[0], a[1], a[2], a[3], a[4]
		if n.isC(0) || c.k == KLam && c.args[0] == tFalse {
			return l
		}
		if c.k == KLam && ix.k == KLam && v.k == KLam {
			y := freshVar("i", n)
			cc, ii := applyLam(c, y), applyLam(ix, y)
			if ii == y && llen(l) == n {
				return mkGen(n, y, ite(asBool(cc), applyLam(v, y), elem(l, y)))
			}
			if cc == tTrue {
				// descending or shifted writes that cover the list
				if d := sub(ii, y); d.isC(0) {
					rest := sub(llen(l), n)
					return lcat(mkGenL(n, v), lsub(l, n, rest))
				}
				if s := add(ii, y); s == sub(n, num(1)) && llen(l) == n {
					j := freshVar("i", n)
					return mkGen(n, j, applyLam(v, sub(sub(n, num(1)), j)))
				}
				if off := sub(ii, y); !contains(off, y) && off.k == KNum && off.n.Sign() > 0 {
					hd := lsub(l, num(0), off)
					tl := lsub(l, add(off, n), sub(sub(llen(l), n), off))
					return lcat(hd, mkGenL(n, v), tl)
				}
			}
		}
		return rawApp("lupdall", l, n, c, ix, v)
	}, l, n, c, ix, v)
}

// ---------------------------------------------------------------------------
// maps

var tMEmpty = cst("mempty")

func isMapConstKey(k *Term) bool { return k.k == KStr || k.k == KNum }

func mput(m, k, v *Term) *Term {
	return liftN("mput", func(a []*Term) *Term {
		m, k := a[0], a[1]
		v := a[2]
		if m == tUndef {
			return tUndef
		}
		if m == tNil {
			return tDead
		}
		if m.is("mput") || m.is("mdel") {
			c := eq(m.args[1], k)
			if c == tTrue {
				return mput(m.args[0], k, v)
			}
			if c == tFalse && m.is("mput") && isMapConstKey(k) && isMapConstKey(m.args[1]) && less(k, m.args[1]) {
				return mput(mput(m.args[0], k, v), m.args[1], m.args[2])
			}
		}
		return rawApp("mput", m, k, v)
	}, m, k, v)
}

func less(a, b *Term) bool {
	if a.k == KStr && b.k == KStr {
		return a.op < b.op
	}
	if a.k == KNum && b.k == KNum {
		return a.n.Cmp(b.n) < 0
	}
	return a.k < b.k
}

func mdel(m, k *Term) *Term {
	return liftN("mdel", func(a []*Term) *Term {
		m, k := a[0], a[1]
		if m == tMEmpty || m == tNil {
			return m
		}
		if m.is("mput") {
			c := eq(m.args[1], k)
			if c == tTrue {
				return mdel(m.args[0], k)
			}
			if c == tFalse {
				return mput(mdel(m.args[0], k), m.args[1], m.args[2])
			}
		}
		if m.is("mdel") && m.args[1] == k {
			return m
		}
		return rawApp("mdel", m, k)
	}, m, k)
}

// mputallL(m, n, λi.cond, λi.key, λi.value[, λi.name]): the name, if any, stands
// for the map after the first i additions
func mputallL(args ...*Term) *Term {
	return liftN("mputall", func(a []*Term) *Term {
		if n, c := a[1], a[2]; n.isC(0) || c.k == KLam && c.args[0] == tFalse {
			return a[0]
		}
		if r := putLiteral(a); r != nil {
			return r
		}
		return rawApp("mputall", a...)
	}, args...)
}

// putLiteral: the additions of a traversal of a map whose keys are all known,
// where the traversal's order cannot matter: one addition for each key
func putLiteral(a []*Term) *Term {
	n, c, k, v := a[1], a[2], a[3], a[4]
	if n.k != KNum || c.k != KLam || c.args[0] != tTrue || k.k != KLam || v.k != KLam {
		return nil
	}
	y := freshVar("i", n)
	at := applyLam(k, y)
	if !at.is("mkey") || at.args[1] != y {
		return nil
	}
	var keys []*Term
	m := at.args[0]
	for ; m.is("mput") && isMapConstKey(m.args[1]); m = m.args[0] {
		keys = append(keys, m.args[1])
	}
	if m != tMEmpty || !n.isC(int64(len(keys))) {
		return nil
	}
	r := a[0]
	for _, key := range keys {
		val := replaceTerms(applyLam(v, y), map[*Term]*Term{at: key})
		if occurs(val, y) {
			return nil
		}
		r = mput(r, key, val)
	}
	return r
}

// mname: the name of a map, if it has one
func mname(m *Term) *Term {
	if m.is("mputall") && len(m.args) > 5 && m.args[5].k == KLam && m.args[1].k != KIte {
		return applyLam(m.args[5], m.args[1])
	}
	return m
}

// mkey: the key at position i of a traversal
func mkey(m, i, ord *Term) *Term {
	return liftN("mkey", func(a []*Term) *Term { return rawApp("mkey", mname(a[0]), a[1], a[2]) }, m, i, ord)
}

// mdelallL: map m without the keys k(j), for the j below n with c(j)
func mdelallL(m, n, c, k *Term) *Term {
	return liftN("mdelall", func(a []*Term) *Term {
		m, n, c, k := a[0], a[1], a[2], a[3]
		if n.isC(0) || m == tMEmpty || c.k == KLam && c.args[0] == tFalse {
			return m
		}
		if n == mcard(m) && c.k == KLam && c.args[0] == tTrue && k.k == KLam {
			if y := freshVar("i", n); true {
				if mk := applyLam(k, y); mk.is("mkey") && mk.args[0] == m && mk.args[1] == y {
					return tMEmpty
				}
			}
		}
		return rawApp("mdelall", m, n, c, k)
	}, m, n, c, k)
}

// mget: the value at k; zero is what an absent key gives
func mget(m, k, zero *Term) *Term {
	z := ""
	if zero != nil {
		z = strconv.Itoa(zero.id)
	}
	if len(distinctLams) > 0 {
		z += "/" + strconv.Itoa(keyedGen)
	}
	return liftN("mget:"+z, func(a []*Term) *Term {
		m, k := a[0], a[1]
		if m == tUndef {
			return tUndef
		}
		switch {
		case m == tMEmpty || m == tNil:
			if zero == nil {
				return tNil
			}
			return zero
		case m.is("mput"):
			return ite(eq(m.args[1], k), m.args[2], mget(m.args[0], k, zero))
		case m.is("mdel") && zero != nil:
			return ite(eq(m.args[1], k), zero, mget(m.args[0], k, zero))
		case m.is("mdelall") && zero != nil && m.args[1].k != KIte:
			return ite(mhas(m, k), mget(m.args[0], k, zero), zero)
		case k.is("mkey") && m.is("mputall") && k.args[0] == mname(m):
			return keptFields(m, k, zero)
		case m.is("mputall"):
			// written by the loop, or what was there before
			if c := positionOf(m.args[3], k); c != nil && m.args[2].k == KLam && m.args[2].args[0] == tTrue && m.args[1].k != KIte {
				in := and(le0(neg(c)), le0(add(sub(c, m.args[1]), num(1))))
				return ite(in, applyLam(m.args[4], c), mget(m.args[0], k, zero))
			}
			if m.args[1].k != KIte && m.args[2].k == KLam && m.args[3].k == KLam && m.args[4].k == KLam && zero != nil {
				y := freshVar("i", m.args[1])
				ky := applyLam(m.args[3], y)
				// what is written depends on the key alone
				if v := replaceTerms(applyLam(m.args[4], y), map[*Term]*Term{ky: k}); contains(ky, y) && !contains(v, y) {
					return ite(mkEx(m.args[1], y, and(asBool(applyLam(m.args[2], y)), eq(ky, k))), v, mget(m.args[0], k, zero))
				}
			}
			if m.args[0] != tMEmpty && m.args[1].k != KIte && m.args[2].k == KLam && m.args[3].k == KLam {
				y := freshVar("i", m.args[1])
				hit := mkEx(m.args[1], y, and(asBool(applyLam(m.args[2], y)), eq(applyLam(m.args[3], y), k)))
				return ite(hit, rawApp("mget", rawApp("mputall", tMEmpty, m.args[1], m.args[2], m.args[3], m.args[4]), k), mget(m.args[0], k, zero))
			}
		}
		v := rawApp("mget", m, k)
		if zero != nil && v.k == KApp {
			mgetZero[v] = zero
		}
		return v
	}, m, k)
}

// keptFields: the value at a key met in a traversal of the named map m, with the
// fields that no addition changes read in the initial map
func keptFields(m, k, zero *Term) *Term {
	v := rawApp("mget", mname(m), k)
	y := freshVar("i", m.args[1])
	val := applyLam(m.args[4], y)
	if val.k != KStruct {
		return v
	}
	was, is := mget(m.args[0], applyLam(m.args[3], y), zero), mget(m.args[0], k, zero)
	if val.args[0] == was {
		w := v
		v = is
		for _, n := range val.names {
			v = setField(v, n, mkField(w, n))
		}
	}
	for i, n := range val.names {
		if val.args[i+1] == mkField(was, n) {
			v = setField(v, n, mkField(is, n))
		}
	}
	return v
}

// mgetZero: what reading an absent key gives
var mgetZero = map[*Term]*Term{}

func mhas(m, k *Term) *Term {
	return liftN("mhas", func(a []*Term) *Term {
		m, k := a[0], a[1]
		switch {
		case m == tMEmpty || m == tNil:
			return tFalse
		case m.is("mput"):
			return or(eq(m.args[1], k), mhas(m.args[0], k))
		case m.is("mdel"):
			return and(not(eq(m.args[1], k)), mhas(m.args[0], k))
		case k.is("mkey") && k.args[0] == mname(m):
			return tTrue
		case m.is("mdelall"):
			if m.args[1].k != KIte && m.args[2].k == KLam && m.args[3].k == KLam {
				y := freshVar("i", m.args[1])
				return and(not(mkEx(m.args[1], y, and(asBool(applyLam(m.args[2], y)), eq(applyLam(m.args[3], y), k)))), mhas(m.args[0], k))
			}
		case m.is("mputall"):
			if m.args[1].k != KIte && m.args[2].k == KLam && m.args[3].k == KLam {
				y := freshVar("i", m.args[1])
				cond, key := asBool(applyLam(m.args[2], y)), applyLam(m.args[3], y)
				was := mhas(m.args[0], k)
				if was != tFalse && was != tTrue && and(cond, not(mhas(m.args[0], key))) == tFalse {
					// it only changes entries it has
					return was
				}
				return or(mkEx(m.args[1], y, and(cond, eq(key, k))), was)
			}
		}
		return asBool(rawApp("mhas", m, k))
	}, m, k)
}

// keyedMaps: maps whose entries are assumed to be stored under their own
// string form
var keyedMaps = map[*Term]bool{}
var keyedGen int

func isKeyed(m *Term) bool {
	switch {
	case keyedMaps[m], m == tMEmpty:
		return true
	case m.k == KIte:
		return isKeyed(m.args[1]) && isKeyed(m.args[2])
	case m.is("mput"):
		return pstrOf(ptOfVal(m.args[2])) == m.args[1] && isKeyed(m.args[0])
	case m.is("mdel"):
		return isKeyed(m.args[0])
	case m.is("mputall"):
		if m.args[3].k != KLam || m.args[4].k != KLam {
			return false
		}
		y := freshVar("i", m.args[1])
		return pstrOf(ptOfVal(applyLam(m.args[4], y))) == applyLam(m.args[3], y) && isKeyed(m.args[0])
	}
	return false
}

// ofAssumed: m has the entries of a map that was assumed to be keyed. Those
// maps are read only for keys they have.
func ofAssumed(m *Term) bool {
	for {
		switch {
		case keyedMaps[m]:
			return true
		case m.is("mput"), m.is("mputall"):
			m = m.args[0]
		default:
			return false
		}
	}
}

// ptOfVal: a stored reference as the group element it denotes, where it is symbolic
func ptOfVal(v *Term) *Term {
	return localLift(v, func(l, _ *Term) *Term {
		if l.k == KGrp {
			return l
		}
		return grpAtom(l)
	})
}

// pstrOf: the string form of a group element
func pstrOf(v *Term) *Term {
	return liftN("pstr:"+strconv.Itoa(keyedGen), func(a []*Term) *Term {
		g := a[0]
		if len(keyedMaps) > 0 && g.k == KGrp && g.args[0] == tNil && len(g.fs) == 1 && g.fs[0].e.isC(1) && g.fs[0].b.is("mget") && isKeyed(g.fs[0].b.args[0]) {
			m, k := g.fs[0].b.args[0], g.fs[0].b.args[1]
			if ofAssumed(m) {
				return k
			}
			return ite(mhas(m, k), k, rawApp("pstr", g))
		}
		return rawApp("pstr", g)
	}, v)
}

func resetAssumptions() {
	keyedMaps = map[*Term]bool{}
	distinctLams = nil
	keyedGen++
}

// distinctLams: functions of a position that are assumed to be one-to-one
var distinctLams []*Term

// positionOf: the position at which a function of a position takes value k, if
// it is one-to-one by assumption
func positionOf(key, k *Term) *Term {
	if len(distinctLams) == 0 || key.k != KLam || k.k == KIte {
		return nil
	}
	y := freshVar("i", nil)
	ky := applyLam(key, y)
	inj := false
	for _, d := range distinctLams {
		dy := applyLam(d, y)
		if dy.k == KGrp && len(dy.fs) == 1 && dy.fs[0].e.isC(1) {
			dy = dy.fs[0].b
		}
		if !occurs(ky, dy) {
			continue
		}
		w := rawApp("sym", str("someelement"))
		if !contains(replaceTerms(ky, map[*Term]*Term{dy: w}), y) {
			inj = true
		}
	}
	if !inj {
		return nil
	}
	// candidates: the positions at which k reads lists
	at := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.is("elem") || t.is("mkey") {
			at[t.args[1]] = true
		}
		for _, c := range children(t) {
			walk(c)
		}
	}
	walk(k)
	for _, c := range sortedTerms(at) {
		if applyLam(key, c) == k {
			return c
		}
	}
	return nil
}

// permAt: position i of the permutation id of n elements, or of its inverse
func permAt(op string, id, i, n *Term) *Term {
	other := "perm"
	if op == "perm" {
		other = "perminv"
	}
	return liftN(op, func(a []*Term) *Term {
		id, n, i := a[0], a[1], a[2]
		if i.is(other) && i.args[0] == id && i.args[1] == n {
			return i.args[2]
		}
		return rawApp(op, id, n, i)
	}, id, n, i)
}

// permsIn lists the permutations used in t.
func permsIn(t *Term, seen, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.is("perm") {
		out[rawApp("permutation", t.args[0], t.args[1])] = true
	}
	for _, c := range children(t) {
		permsIn(c, seen, out)
	}
}

func mcard(m *Term) *Term {
	return liftN("mcard", func(a []*Term) *Term {
		m := a[0]
		switch {
		case m == tMEmpty || m == tNil:
			return num(0)
		case m.is("mput"):
			return add(mcard(m.args[0]), ite(mhas(m.args[0], m.args[1]), num(0), num(1)))
		}
		return rawApp("mcard", mname(m))
	}, m)
}

func proj(t *Term, k int) *Term {
	return liftN(fmt.Sprintf("proj%d", k), func(a []*Term) *Term {
		if a[0].is("tuple") {
			return a[0].args[k]
		}
		if a[0] == tUndef {
			return tUndef
		}
		return rawApp("proj", a[0], num(int64(k)))
	}, t)
}

// ---------------------------------------------------------------------------
// codecs: enc(kind, value) is a byte string; dec(kind, bytes) its inverse

func encOf(kind string, v *Term) *Term {
	return liftN("enc:"+kind, func(a []*Term) *Term {
		if a[0] == tUnset || a[0] == tUndef {
			return a[0]
		}
		return rawApp("enc", str(kind), a[0])
	}, v)
}

func decOf(kind, b *Term) *Term {
	return liftN("dec:"+kind.op, func(a []*Term) *Term {
		b := a[0]
		if kind.op == "point" && b.is("bytesof") && b.args[0].is("num") {
			// a group element is read as a number: leading zeros do not matter
			return decOf(kind, b.args[0].args[0])
		}
		if b.is("enc") && b.args[0] == kind {
			return b.args[1]
		}
		if b.is("marsh") && (kind.op == "point" || kind.op == "secret") {
			return b.args[0]
		}
		return rawApp("dec", kind, b)
	}, b)
}

func okDec(kind, b *Term) *Term {
	return liftN("okdec:"+kind.op, func(a []*Term) *Term {
		b := a[0]
		if kind.op == "point" && b.is("bytesof") && b.args[0].is("num") {
			// a group element is read as a number: leading zeros do not matter
			return okDec(kind, b.args[0].args[0])
		}
		if b.is("enc") && b.args[0] == kind {
			return tTrue
		}
		if b.is("marsh") && (kind.op == "point" || kind.op == "secret") {
			return tTrue
		}
		return asBool(rawApp("okdec", kind, b))
	}, b)
}

// ---------------------------------------------------------------------------
// printing

func show(t *Term) string {
	var b strings.Builder
	showTo(&b, t, 14)
	return b.String()
}

func showN(t *Term, max int) string {
	s := show(t)
	if len(s) > max {
		s = s[:max] + "..."
	}
	return s
}

func showTo(b *strings.Builder, t *Term, d int) {
	if b.Len() > 6000 {
		if !strings.HasSuffix(b.String(), "~") {
			b.WriteString("~")
		}
		return
	}
	if d == 0 {
		b.WriteString("…")
		return
	}
	list := func(ts []*Term) {
		for i, a := range ts {
			if i > 0 {
				b.WriteString(", ")
			}
			showTo(b, a, d-1)
		}
	}
	switch t.k {
	case KConst:
		b.WriteString(t.op)
	case KNum:
		if t.n.BitLen() > 64 {
			s := t.n.String()
			b.WriteString(s[:6] + "~" + strconv.Itoa(t.n.BitLen()))
		} else {
			b.WriteString(t.n.String())
		}
	case KStr:
		b.WriteString(strconv.Quote(t.op))
	case KVar:
		fmt.Fprintf(b, "%s%d", t.op, t.aux)
	case KBVar:
		fmt.Fprintf(b, "#%d", t.aux)
	case KFormal:
		fmt.Fprintf(b, "F%d", t.aux)
	case KApp:
		switch t.op {
		case "fld":
			showTo(b, t.args[0], d-1)
			b.WriteString("." + t.args[1].op)
			return
		case "elem":
			showTo(b, t.args[0], d-1)
			b.WriteString("[")
			showTo(b, t.args[1], d-1)
			b.WriteString("]")
			return
		}
		b.WriteString(t.op + "(")
		list(t.args)
		b.WriteString(")")
	case KPoly:
		b.WriteString("(")
		for i, m := range t.ms {
			if i > 0 {
				b.WriteString(" + ")
			}
			one := m.c.IsInt64() && m.c.Int64() == 1
			if !one || len(m.vs) == 0 {
				showTo(b, bigTerm(m.c), d-1)
			}
			for k, v := range m.vs {
				if k > 0 || !one {
					b.WriteString("*")
				}
				showTo(b, v, d-1)
			}
		}
		b.WriteString(")")
	case KGrp:
		b.WriteString("<")
		if t.args[0] != tNil {
			b.WriteString("mod ")
			showTo(b, t.args[0], d-1)
			b.WriteString(": ")
		}
		for i, f := range t.fs {
			if i > 0 {
				b.WriteString(" * ")
			}
			showTo(b, f.b, d-1)
			if !f.e.isC(1) {
				b.WriteString("^")
				showTo(b, f.e, d-1)
			}
		}
		b.WriteString(">")
	case KBytes:
		b.WriteString("[")
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(" | ")
			}
			showTo(b, a, d-1)
		}
		b.WriteString("]")
	case KIte:
		if t.args[1] == tTrue && t.args[2] == tFalse {
			showTo(b, t.args[0], d-1)
			return
		}
		if t.args[1] == tFalse && t.args[2] == tTrue {
			b.WriteString("!")
			showTo(b, t.args[0], d-1)
			return
		}
		b.WriteString("if{")
		showTo(b, t.args[0], d-1)
		b.WriteString(" ? ")
		showTo(b, t.args[1], d-1)
		b.WriteString(" : ")
		showTo(b, t.args[2], d-1)
		b.WriteString("}")
	case KLam:
		fmt.Fprintf(b, "λ#%d.", t.aux)
		showTo(b, t.args[0], d-1)
	case KStruct:
		b.WriteString("{")
		if t.args[0] != tNoBase {
			showTo(b, t.args[0], d-1)
			b.WriteString(" with ")
		}
		for i, n := range t.names {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(n + ":")
			showTo(b, t.args[i+1], d-1)
		}
		b.WriteString("}")
	}
}
