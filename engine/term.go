package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed: two values that normalise to the same form are the
// same pointer. Booleans and case distinctions are decision diagrams (KIte)
// whose variables are uninterpreted boolean atoms ordered by creation.

type Kind uint8

const (
	KConst  Kind = iota // op
	KNum                // n
	KStr                // op is the content
	KVar                // loop variable; args[0] = its bound (exclusive), may be nil
	KBVar               // variable bound by an enclosing KLam, aux = level
	KFormal             // formal index of a memory family, aux
	KApp                // op(args)
	KPoly               // integer polynomial over non-numeric leaves
	KGrp                // group element: product of base^exp, args[0] = modulus (nil constant: the suite's group)
	KBytes              // concatenation of segments
	KIte                // args: atom, then, else
	KLam                // aux = level, args[0] = body
	KStruct             // args[0] = base (zero base: constant nobase), args[1:] parallel to names
)

type mono struct {
	c  *big.Int
	vs []*Term // sorted by id, with repetition
}

type factor struct {
	b, e *Term
}

type Term struct {
	id    int
	k     Kind
	op    string
	n     *big.Int
	aux   int
	args  []*Term
	names []string
	ms    []mono
	fs    []factor
	fv    []*Term // free KVar, KBVar, KFormal
	h     int     // max level of contained lambdas
	size  int
	alloc bool // contains a reference to an allocated object
}

var table = map[string]*Term{}
var allTerms []*Term

func intern(key string, mk func() *Term) *Term {
	if t, ok := table[key]; ok {
		return t
	}
	t := mk()
	t.id = len(allTerms)
	if t.id > 10000000 {
		panic("too many terms")
	}
	allTerms = append(allTerms, t)
	table[key] = t
	set := map[*Term]bool{}
	t.size = 1
	add := func(a *Term) {
		if a == nil {
			return
		}
		for _, v := range a.fv {
			set[v] = true
		}
		if a.h > t.h {
			t.h = a.h
		}
		t.size += a.size
		if a.alloc {
			t.alloc = true
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.ms {
		for _, v := range m.vs {
			add(v)
		}
	}
	for _, f := range t.fs {
		add(f.b)
		add(f.e)
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	if t.k == KApp && t.op == "alloc" {
		t.alloc = true
	}
	if t.k == KVar || t.k == KBVar || t.k == KFormal {
		set[t] = true
		if t.k == KVar && len(t.args) > 0 {
			// the bound is information, not part of the value
			set = map[*Term]bool{t: true}
		}
	}
	if t.k == KLam {
		for v := range set {
			if v.k == KBVar && v.aux == t.aux {
				delete(set, v)
			}
		}
		if t.aux > t.h {
			t.h = t.aux
		}
	}
	for v := range set {
		t.fv = append(t.fv, v)
	}
	sort.Slice(t.fv, func(i, j int) bool { return t.fv[i].id < t.fv[j].id })
	return t
}

func idlist(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(strconv.Itoa(t.id))
		b.WriteByte(',')
	}
	return b.String()
}

func cst(op string) *Term {
	return intern("C:"+op, func() *Term { return &Term{k: KConst, op: op} })
}

var (
	tTrue   = cst("true")
	tFalse  = cst("false")
	tNil    = cst("nil")
	tUnset  = cst("unset")  // a group element or scalar that was never given a value
	tInf    = cst("inf")    // trip count of a loop without a condition
	tUndef  = cst("undef")  // content of an object of another iteration that is not known yet
	tNoBase = cst("nobase") // struct all of whose fields are listed
	tDead   = cst("dead")
	tQ      = cst("Q512") // order used by the suite's scalars
	tBase   = cst("B")    // the suite's standard base
	tSysRnd = cst("sysrand")
	tErr    = cst("err")
)

func bigTerm(n *big.Int) *Term {
	key := "N:" + n.String()
	return intern(key, func() *Term { return &Term{k: KNum, n: new(big.Int).Set(n)} })
}
func num(n int64) *Term { return bigTerm(big.NewInt(n)) }
func str(s string) *Term {
	return intern("S:"+s, func() *Term { return &Term{k: KStr, op: s} })
}

var varCount int

func freshVar(name string, bound *Term) *Term {
	varCount++
	id := varCount
	var args []*Term
	if bound != nil {
		args = []*Term{bound}
	}
	return intern(fmt.Sprintf("V:%d", id), func() *Term { return &Term{k: KVar, op: name, aux: id, args: args} })
}
func bvar(l int) *Term {
	return intern(fmt.Sprintf("BV:%d", l), func() *Term { return &Term{k: KBVar, aux: l} })
}
func formal(i int) *Term {
	return intern(fmt.Sprintf("F:%d", i), func() *Term { return &Term{k: KFormal, aux: i} })
}

// rawApp builds op(args) without looking at op.
func rawApp(op string, args ...*Term) *Term {
	return intern("A:"+op+":"+idlist(args), func() *Term {
		return &Term{k: KApp, op: op, args: append([]*Term{}, args...)}
	})
}

func (t *Term) isNum() bool       { return t.k == KNum }
func (t *Term) is(op string) bool { return t.k == KApp && t.op == op }
func (t *Term) isC(n int64) bool {
	return t.k == KNum && t.n.IsInt64() && t.n.Int64() == n
}

func contains(t *Term, v *Term) bool {
	for _, x := range t.fv {
		if x == v {
			return true
		}
	}
	return false
}

// occurs reports whether u is a subterm of t.
func occurs(t, u *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == u {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range children(t) {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func children(t *Term) []*Term {
	if t.k == KVar {
		return nil
	}
	if len(t.ms) == 0 && len(t.fs) == 0 {
		return t.args
	}
	var r []*Term
	r = append(r, t.args...)
	for _, m := range t.ms {
		r = append(r, m.vs...)
	}
	for _, f := range t.fs {
		r = append(r, f.b, f.e)
	}
	return r
}

// walk calls f on every distinct subterm.
func walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range children(t) {
			rec(a)
		}
	}
	rec(t)
}

// ---------------------------------------------------------------------------
// decision diagrams

func mkIteRaw(a, h, l *Term) *Term {
	if h == l {
		return h
	}
	return intern("I:"+idlist([]*Term{a, h, l}), func() *Term {
		return &Term{k: KIte, args: []*Term{a, h, l}}
	})
}

func topVar(ts ...*Term) *Term {
	var v *Term
	for _, t := range ts {
		if t.k == KIte && (v == nil || t.args[0].id < v.id) {
			v = t.args[0]
		}
	}
	return v
}

func cof(t, v *Term, hi bool) *Term {
	if t.k == KIte && t.args[0] == v {
		if hi {
			return t.args[1]
		}
		return t.args[2]
	}
	return t
}

type memoKey struct {
	op      string
	a, b, c int
}

var iteMemo = map[memoKey]*Term{}

// structural types are merged field by field, so that a case distinction on
// one field does not multiply the others
func sameShape(a, b *Term) bool {
	if a.k == KStruct && b.k == KStruct {
		if a.args[0] != b.args[0] || len(a.names) != len(b.names) {
			return false
		}
		for i := range a.names {
			if a.names[i] != b.names[i] {
				return false
			}
		}
		return true
	}
	if a.k == KApp && b.k == KApp && a.op == b.op && len(a.args) == len(b.args) {
		return strings.HasPrefix(a.op, "iface:") || a.op == "tuple"
	}
	return false
}

// ite(c, h, l) where c is boolean
func ite(c, h, l *Term) *Term {
	if c == tTrue {
		return h
	}
	if c == tFalse {
		return l
	}
	if h == l {
		return h
	}
	if h == tDead {
		return l
	}
	if l == tDead {
		return h
	}
	if c.k != KIte {
		c = asBool(c)
		if c.k != KIte {
			return ite(c, h, l)
		}
	}
	key := memoKey{"ite", c.id, h.id, l.id}
	if r, ok := iteMemo[key]; ok {
		return r
	}
	var r *Term
	if sameShape(h, l) {
		args := make([]*Term, len(h.args))
		for i := range h.args {
			if h.k == KStruct && i == 0 {
				args[0] = h.args[0]
				continue
			}
			args[i] = ite(c, h.args[i], l.args[i])
		}
		if h.k == KStruct {
			r = mkStruct(h.op, args[0], h.names, args[1:])
		} else {
			r = rawApp(h.op, args...)
		}
	} else {
		v := topVar(c, h, l)
		r = mkNode(v, ite(cof(c, v, true), cof(h, v, true), cof(l, v, true)),
			ite(cof(c, v, false), cof(h, v, false), cof(l, v, false)))
	}
	iteMemo[key] = r
	return r
}

// mkNode joins two branches under an atom that is before all of theirs.
func mkNode(v, h, l *Term) *Term {
	if h == l {
		return h
	}
	if h == tDead {
		return l
	}
	if l == tDead {
		return h
	}
	if sameShape(h, l) {
		return ite(mkIteRaw(v, tTrue, tFalse), h, l)
	}
	if (h.k == KIte && h.args[0].id <= v.id) || (l.k == KIte && l.args[0].id <= v.id) {
		return ite(mkIteRaw(v, tTrue, tFalse), h, l)
	}
	return mkIteRaw(v, h, l)
}

func asBool(t *Term) *Term {
	if t == tTrue || t == tFalse {
		return t
	}
	if t.k == KIte {
		return liftN("asbool", func(a []*Term) *Term { return asBool(a[0]) }, t)
	}
	if t == tDead || t == tUndef {
		return tFalse
	}
	return mkIteRaw(t, tTrue, tFalse)
}

func not(a *Term) *Term    { return ite(a, tFalse, tTrue) }
func and(a, b *Term) *Term { return ite(a, b, tFalse) }
func or(a, b *Term) *Term  { return ite(a, tTrue, b) }
func imp(a, b *Term) *Term { return ite(a, b, tTrue) }
func iff(a, b *Term) *Term { return ite(a, b, not(b)) }
func andAll(ts ...*Term) *Term {
	r := tTrue
	for _, t := range ts {
		r = and(r, t)
	}
	return r
}

var liftMemo = map[string]*Term{}

// liftN applies f to all combinations of the leaves of args. Memoised by op,
// so f must be determined by op.
func liftN(op string, f func([]*Term) *Term, args ...*Term) *Term {
	v := topVar(args...)
	if v == nil {
		for _, a := range args {
			if a == tDead {
				return tDead
			}
		}
		return f(args)
	}
	key := op + "|" + idlist(args)
	if r, ok := liftMemo[key]; ok {
		return r
	}
	hi := make([]*Term, len(args))
	lo := make([]*Term, len(args))
	for i, a := range args {
		hi[i] = cof(a, v, true)
		lo[i] = cof(a, v, false)
	}
	h := liftN(op, f, hi...)
	l := liftN(op, f, lo...)
	r := ite(mkIteRaw(v, tTrue, tFalse), h, l)
	liftMemo[key] = r
	return r
}

// app builds an uninterpreted application, with case distinctions moved out.
func app(op string, args ...*Term) *Term {
	return liftN("app:"+op, func(a []*Term) *Term { return rawApp(op, a...) }, args...)
}

var restrictMemo = map[memoKey]*Term{}

// restrict simplifies f using that care holds.
func restrict(f, care *Term) *Term {
	if care == tTrue {
		return f
	}
	if care == tFalse {
		return tDead
	}
	if f.k != KIte {
		if f.k == KStruct || (f.k == KApp && (f.op == "tuple" || strings.HasPrefix(f.op, "iface:") || f.op == "lit")) {
			any := false
			for _, a := range f.args {
				if a.k == KIte || a.k == KStruct || a.k == KApp {
					any = true
				}
			}
			if !any {
				return f
			}
			key := memoKey{"restrict", f.id, care.id, 0}
			if r, ok := restrictMemo[key]; ok {
				return r
			}
			args := make([]*Term, len(f.args))
			ch := false
			for i, a := range f.args {
				args[i] = restrict(a, care)
				if args[i] != a {
					ch = true
				}
			}
			r := f
			if ch {
				r = rebuildArgs(f, args)
			}
			restrictMemo[key] = r
			return r
		}
		return f
	}
	key := memoKey{"restrict", f.id, care.id, 0}
	if r, ok := restrictMemo[key]; ok {
		return r
	}
	var r *Term
	fv, cv := f.args[0], care.args[0]
	switch {
	case cv.id < fv.id:
		r = restrict(f, or(care.args[1], care.args[2]))
	case cv == fv:
		if care.args[1] == tFalse {
			r = restrict(f.args[2], care.args[2])
		} else if care.args[2] == tFalse {
			r = restrict(f.args[1], care.args[1])
		} else {
			r = mkNode(fv, restrict(f.args[1], care.args[1]), restrict(f.args[2], care.args[2]))
		}
	default:
		r = mkNode(fv, restrict(f.args[1], care), restrict(f.args[2], care))
	}
	restrictMemo[key] = r
	return r
}

// support lists the atoms of a decision diagram (not those below structures).
func support(t *Term) []*Term {
	seen := map[*Term]bool{}
	set := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if t.k != KIte || seen[t] {
			return
		}
		seen[t] = true
		set[t.args[0]] = true
		rec(t.args[1])
		rec(t.args[2])
	}
	rec(t)
	var r []*Term
	for a := range set {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func leaves(t *Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.k == KIte {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		r = append(r, t)
	}
	rec(t)
	return r
}

// ---------------------------------------------------------------------------
// integers

func vsKey(vs []*Term) string { return idlist(vs) }

func polyMap(t *Term) map[string]mono {
	m := map[string]mono{}
	switch t.k {
	case KNum:
		if t.n.Sign() != 0 {
			m[""] = mono{t.n, nil}
		}
	case KPoly:
		for _, x := range t.ms {
			m[vsKey(x.vs)] = x
		}
	default:
		m[vsKey([]*Term{t})] = mono{big.NewInt(1), []*Term{t}}
	}
	return m
}

func fromPoly(m map[string]mono) *Term {
	var keys []string
	for k, x := range m {
		if x.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return num(0)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := m[keys[i]].vs, m[keys[j]].vs
		if len(a) != len(b) {
			return len(a) > len(b)
		}
		for k := range a {
			if a[k] != b[k] {
				return a[k].id < b[k].id
			}
		}
		return false
	})
	if len(keys) == 1 {
		x := m[keys[0]]
		if len(x.vs) == 0 {
			return bigTerm(x.c)
		}
		if len(x.vs) == 1 && x.c.Cmp(big.NewInt(1)) == 0 {
			return x.vs[0]
		}
	}
	var ms []mono
	var kb strings.Builder
	kb.WriteString("P:")
	for _, k := range keys {
		x := m[k]
		ms = append(ms, x)
		kb.WriteString(x.c.String() + "*" + k + "+")
	}
	return intern(kb.String(), func() *Term { return &Term{k: KPoly, ms: ms} })
}

func absorbing(a []*Term) *Term {
	for _, x := range a {
		if x == tUndef {
			return tUndef
		}
	}
	for _, x := range a {
		if x == tUnset {
			return tUnset
		}
	}
	return nil
}

func addLeaf(a []*Term) *Term {
	if r := absorbing(a); r != nil {
		return r
	}
	if a[0] == tInf || a[1] == tInf {
		return tInf
	}
	m := polyMap(a[0])
	for k, x := range polyMap(a[1]) {
		if y, ok := m[k]; ok {
			m[k] = mono{new(big.Int).Add(x.c, y.c), x.vs}
		} else {
			m[k] = x
		}
	}
	return fromPoly(m)
}

func mulLeaf(a []*Term) *Term {
	if r := absorbing(a); r != nil {
		return r
	}
	m := map[string]mono{}
	for _, x := range polyMap(a[0]) {
		for _, y := range polyMap(a[1]) {
			vs := append(append([]*Term{}, x.vs...), y.vs...)
			sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
			k := vsKey(vs)
			c := new(big.Int).Mul(x.c, y.c)
			if z, ok := m[k]; ok {
				c.Add(c, z.c)
			}
			m[k] = mono{c, vs}
		}
	}
	// products of elements of one group stay one element
	return fromPoly(m)
}

func add(a, b *Term) *Term { return liftN("add", addLeaf, a, b) }
func mul(a, b *Term) *Term { return liftN("mul", mulLeaf, a, b) }
func neg(a *Term) *Term    { return mul(num(-1), a) }
func sub(a, b *Term) *Term { return add(a, neg(b)) }

// reducedMod: is the leaf known to lie in [0, M)?
func reducedMod(a, m *Term) bool {
	switch a.k {
	case KNum:
		if a.n.Sign() == 0 {
			return true
		}
		if m.k == KNum {
			return a.n.Sign() > 0 && a.n.Cmp(m.n) < 0
		}
		return a.n.Sign() > 0 && a.n.BitLen() < 200
	case KApp:
		switch a.op {
		case "scal", "hpick":
			return m == tQ
		case "rnd":
			return a.args[1] == m
		case "mod":
			return a.args[1] == m
		}
		if m == tQ && isSecretAtom(a) {
			return true
		}
	case KGrp:
		return a.args[0] == m
	}
	return false
}

// isSecretAtom: the value of a scalar object of unknown content, which is always reduced.
func isSecretAtom(a *Term) bool {
	return a.k == KApp && a.op == "secval"
}

// stripMod removes reductions modulo m that are repeated by an outer reduction modulo m.
func stripMod(p, m *Term) *Term {
	return liftN("strip:"+strconv.Itoa(m.id), func(a []*Term) *Term { return stripLeaf(a[0], m) }, p)
}
func stripLeaf(p, m *Term) *Term {
	if p.k == KNum || p == tUnset || p == tUndef {
		return p
	}
	has := false
	for _, x := range polyMap(p) {
		for _, v := range x.vs {
			if v.k == KApp && (v.op == "mod" && v.args[1] == m || v.op == "sum") {
				has = true
			}
		}
	}
	if !has {
		return p
	}
	r := num(0)
	for _, x := range sortedMonos(p) {
		q := bigTerm(x.c)
		for _, v := range x.vs {
			if v.k == KApp && v.op == "mod" && v.args[1] == m {
				q = mul(q, stripMod(v.args[0], m))
			} else if v.k == KApp && v.op == "sum" {
				y := freshVar("i", nil)
				q = mul(q, mkSum(v.args[0], y, stripMod(applyLam(v.args[1], y), m)))
			} else {
				q = mul(q, v)
			}
		}
		r = add(r, q)
	}
	return r
}

func sortedMonos(p *Term) []mono {
	if p.k == KPoly {
		return p.ms
	}
	var r []mono
	for _, x := range polyMap(p) {
		r = append(r, x)
	}
	return r
}

// mod(p, m) in [0, m)
func mod(p, m *Term) *Term {
	return liftN("mod", func(a []*Term) *Term {
		p, m := a[0], a[1]
		if r := absorbing(a); r != nil {
			return r
		}
		if reducedMod(p, m) {
			return p
		}
		if p.k == KNum && m.k == KNum && m.n.Sign() > 0 {
			return bigTerm(new(big.Int).Mod(p.n, m.n))
		}
		// a product of group elements is a group element
		if g := asGrp(p, m); g != nil {
			return g
		}
		s := stripMod(p, m)
		return liftN("mod2", func(a []*Term) *Term {
			if reducedMod(a[0], a[1]) {
				return a[0]
			}
			if g := asGrp(a[0], a[1]); g != nil {
				return g
			}
			return rawApp("mod", a[0], a[1])
		}, s, m)
	}, p, m)
}

// asGrp: a product with at least one factor that is a power modulo m
func asGrp(p, m *Term) *Term {
	var vs []*Term
	switch p.k {
	case KGrp:
		vs = []*Term{p}
	case KPoly:
		if len(p.ms) != 1 || p.ms[0].c.Cmp(big.NewInt(1)) != 0 {
			return nil
		}
		vs = p.ms[0].vs
	default:
		return nil
	}
	has := false
	for _, v := range vs {
		if v.k == KGrp && v.args[0] == m {
			has = true
		}
	}
	if !has {
		return nil
	}
	r := mkGrp(m, nil)
	for _, v := range vs {
		r = gmul(r, toGrp(v, m))
	}
	return r
}

// toGrp views a number as an element of the group modulo m
func toGrp(v, m *Term) *Term {
	return liftN("togrp", func(a []*Term) *Term {
		v, m := a[0], a[1]
		if v == tUnset || v == tUndef {
			return v
		}
		if v.k == KGrp && v.args[0] == m {
			return v
		}
		if v.isC(1) {
			return mkGrp(m, nil)
		}
		if v.k == KApp && v.op == "mod" && v.args[1] == m && v.args[0].k == KPoly && len(v.args[0].ms) == 1 &&
			v.args[0].ms[0].c.Cmp(big.NewInt(1)) == 0 {
			r := mkGrp(m, nil)
			for _, x := range v.args[0].ms[0].vs {
				r = gmul(r, toGrp(x, m))
			}
			return r
		}
		// the integer of an element of the suite's group
		if m.k == KNum && m.n.Cmp(suiteP) == 0 && v.k == KApp && v.op == "num" && v.args[0].is("marsh") && v.args[0].args[0].k == KGrp {
			g := v.args[0].args[0]
			r := mkGrp(m, nil)
			for _, f := range g.fs {
				b := app("num", app("marsh", grpAtom(f.b)))
				r = gmul(r, mkGrp(m, []factor{{b, f.e}}))
			}
			if len(g.fs) == 1 && g.fs[0].e.isC(1) {
				return mkGrp(m, []factor{{v, num(1)}})
			}
			return r
		}
		return mkGrp(m, []factor{{v, num(1)}})
	}, v, m)
}

var suiteP, _ = new(big.Int).SetString("10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263", 10)

// ---------------------------------------------------------------------------
// groups

// mkGrp builds the element of the group modulo m (tNil: the suite's group)
func mkGrp(m *Term, fs []factor) *Term {
	exps := map[*Term]*Term{}
	var order []*Term
	for _, f := range fs {
		if e, ok := exps[f.b]; ok {
			exps[f.b] = add(e, f.e)
		} else {
			exps[f.b] = f.e
			order = append(order, f.b)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []factor
	var ites []*Term
	for _, b := range order {
		e := exps[b]
		if m == tNil {
			e = stripMod(e, tQ)
			if fieldMode {
				e = cancelInverses(e)
			}
		} else if m.k == KNum && isPrime(m.n) {
			e = stripMod(e, bigTerm(new(big.Int).Sub(m.n, big.NewInt(1))))
		}
		if e.k == KIte {
			ites = append(ites, e)
		}
		if e.isC(0) {
			continue
		}
		if e == tUnset || e == tUndef {
			return e
		}
		out = append(out, factor{b, e})
	}
	if len(ites) > 0 {
		args := []*Term{m}
		for _, f := range out {
			args = append(args, f.b, f.e)
		}
		return liftN("mkgrp", func(a []*Term) *Term {
			var fs []factor
			for i := 1; i < len(a); i += 2 {
				fs = append(fs, factor{a[i], a[i+1]})
			}
			return mkGrp(a[0], fs)
		}, args...)
	}
	var kb strings.Builder
	kb.WriteString("G:" + strconv.Itoa(m.id) + ":")
	for _, f := range out {
		kb.WriteString(strconv.Itoa(f.b.id) + "^" + strconv.Itoa(f.e.id) + "*")
	}
	return intern(kb.String(), func() *Term { return &Term{k: KGrp, args: []*Term{m}, fs: out} })
}

// grpAtom: the element of the suite's group named by leaf t
func grpAtom(t *Term) *Term {
	return liftN("grpatom", func(a []*Term) *Term {
		t := a[0]
		if t.k == KGrp || t == tUnset || t == tUndef || t == tNil {
			return t
		}
		if w := solvedWitness(t); w != nil {
			return w
		}
		return mkGrp(tNil, []factor{{t, num(1)}})
	}, t)
}

func grpAtomRaw(t *Term) *Term {
	return mkGrp(tNil, []factor{{t, num(1)}})
}

var witnessBusy = map[*Term]bool{}

// solvedWitness: elem(L, first i such that x = elem(L, i)) is x
func solvedWitness(t *Term) *Term {
	if !t.is("elem") || witnessBusy[t] {
		return nil
	}
	witnessBusy[t] = true
	defer delete(witnessBusy, t)
	w := t.args[1]
	if !w.is("first") {
		return nil
	}
	if lb := w.args[1].args[0]; lb.k != KIte || lb.args[1] != tTrue || lb.args[2] != tFalse || !lb.args[0].is("geq") {
		return nil
	}
	body := applyLam(w.args[1], w)
	// body must be the single atom geq(ratio) asserting equality
	if body.k != KIte || body.args[1] != tTrue || body.args[2] != tFalse {
		return nil
	}
	at := body.args[0]
	if !at.is("geq") {
		return nil
	}
	g := at.args[0]
	var rest []factor
	var e *Term
	for _, f := range g.fs {
		if f.b == t {
			e = f.e
		} else {
			rest = append(rest, f)
		}
	}
	if e == nil {
		return nil
	}
	switch {
	case e.isC(1):
		return gexp(mkGrp(g.args[0], rest), num(-1))
	case e.isC(-1):
		return mkGrp(g.args[0], rest)
	}
	return nil
}

func gmul(a, b *Term) *Term {
	return liftN("gmul", func(a []*Term) *Term {
		if r := absorbing(a); r != nil {
			return r
		}
		x, y := a[0], a[1]
		if x.k != KGrp || y.k != KGrp {
			return rawApp("badgrp", x, y)
		}
		return mkGrp(x.args[0], append(append([]factor{}, x.fs...), y.fs...))
	}, a, b)
}

func gexp(a, e *Term) *Term {
	return liftN("gexp", func(a []*Term) *Term {
		if r := absorbing(a); r != nil {
			return r
		}
		x, e := a[0], a[1]
		if x.k != KGrp {
			return rawApp("badgrp", x, e)
		}
		var fs []factor
		for _, f := range x.fs {
			fs = append(fs, factor{f.b, mul(f.e, e)})
		}
		return mkGrp(x.args[0], fs)
	}, a, e)
}

// bigExp: a^e mod m of big integers
func bigExp(a, e, m *Term) *Term {
	if m == tNil {
		return app("pow", a, e)
	}
	return gexp(toGrp(a, m), e)
}

// ---------------------------------------------------------------------------
// comparison

func leadNeg(p *Term) bool {
	switch p.k {
	case KNum:
		return p.n.Sign() < 0
	case KPoly:
		return p.ms[0].c.Sign() < 0
	}
	return false
}

// le0: p <= 0
func le0(p *Term) *Term {
	return liftN("le0", func(a []*Term) *Term {
		p := a[0]
		if p == tInf {
			return tFalse
		}
		if p == tUndef || p == tUnset {
			return asBool(rawApp("le0", p))
		}
		if p.k == KNum {
			return boolc(p.n.Sign() <= 0)
		}
		if r := signCases(p, func(q *Term) *Term { return le0(q) }); r != nil {
			return r
		}
		// divide by the gcd of the non-constant coefficients
		if p.k == KPoly {
			g := new(big.Int)
			k := big.NewInt(0)
			for _, m := range p.ms {
				if len(m.vs) == 0 {
					k = m.c
				} else {
					g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
				}
			}
			if g.Cmp(big.NewInt(1)) > 0 {
				// sum g*q + k <= 0  iff  q <= floor(-k/g)
				pm := map[string]mono{}
				for _, m := range p.ms {
					if len(m.vs) > 0 {
						pm[vsKey(m.vs)] = mono{new(big.Int).Quo(m.c, g), m.vs}
					}
				}
				fl := new(big.Int).Div(new(big.Int).Neg(k), g)
				pm[""] = mono{new(big.Int).Neg(fl), nil}
				return le0(fromPoly(pm))
			}
		}
		if hi, ok := upper(p, 8); ok && hi.k == KNum && hi.n.Sign() <= 0 {
			return tTrue
		}
		if lo, ok := upper(sub(num(1), p), 8); ok && lo.k == KNum && lo.n.Sign() <= 0 {
			return tFalse
		}
		if leadNeg(p) {
			return not(mkIteRaw(rawApp("le0", sub(num(1), p)), tTrue, tFalse))
		}
		return mkIteRaw(rawApp("le0", p), tTrue, tFalse)
	}, p)
}

// signCases: a condition on c*sign(d)+k as a condition on d
func signCases(p *Term, f func(*Term) *Term) *Term {
	var sg *Term
	for _, m := range sortedMonos(p) {
		switch {
		case len(m.vs) == 0:
		case len(m.vs) == 1 && m.vs[0].is("sign") && sg == nil:
			sg = m.vs[0]
		default:
			return nil
		}
	}
	if sg == nil {
		return nil
	}
	var v [3]bool
	for k := -1; k <= 1; k++ {
		r := f(subst2(p, sg, num(int64(k))))
		if r != tTrue && r != tFalse {
			return nil
		}
		v[k+1] = r == tTrue
	}
	d := sg.args[0]
	switch v {
	case [3]bool{false, false, false}:
		return tFalse
	case [3]bool{true, true, true}:
		return tTrue
	case [3]bool{true, false, false}:
		return le0(add(d, num(1)))
	case [3]bool{false, true, true}:
		return not(le0(add(d, num(1))))
	case [3]bool{true, true, false}:
		return le0(d)
	case [3]bool{false, false, true}:
		return not(le0(d))
	case [3]bool{false, true, false}:
		return eq(d, num(0))
	}
	return not(eq(d, num(0)))
}

// diffOfGrps: x-y of two elements of one group
func diffOfGrps(d *Term) (x, y *Term) {
	if d.k != KPoly || len(d.ms) != 2 {
		return nil, nil
	}
	for _, m := range d.ms {
		if len(m.vs) != 1 || m.vs[0].k != KGrp || !m.c.IsInt64() {
			return nil, nil
		}
		switch m.c.Int64() {
		case 1:
			x = m.vs[0]
		case -1:
			y = m.vs[0]
		}
	}
	if x == nil || y == nil || x.args[0] != y.args[0] {
		return nil, nil
	}
	return
}

func subst2(p, v, by *Term) *Term {
	r := num(0)
	for _, m := range sortedMonos(p) {
		q := bigTerm(m.c)
		for _, w := range m.vs {
			if w == v {
				w = by
			}
			q = mul(q, w)
		}
		r = add(r, q)
	}
	return r
}

func boolc(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// bounds of atoms: lower and upper (inclusive), nil if unknown
func atomRange(v *Term) (lo, hi *Term) {
	switch v.k {
	case KVar:
		lo = num(0)
		if len(v.args) > 0 && v.args[0] != tInf {
			hi = sub(v.args[0], num(1))
		}
		if v.op == "mu" {
			lo, hi = nil, nil
		}
	case KFormal, KBVar:
	case KGrp:
		lo = num(0)
	case KApp:
		switch v.op {
		case "llen", "mcard", "blen", "bitlen", "cnt":
			lo = num(0)
		case "first":
			lo = num(0)
			if v.args[0] != tInf {
				hi = sub(v.args[0], num(1))
			}
		case "mpos":
			lo, hi = num(0), sub(mcard(v.args[0]), num(1))
		case "perm", "perminv":
			lo, hi = num(0), sub(v.args[1], num(1))
		case "num", "mod", "scal", "hpick", "secval", "abs":
			lo = num(0)
		case "rnd":
			lo = num(0)
		case "arith:%":
			if v.args[0].is("rnd") {
				lo = num(0)
				if w, ok := upper(neg(v.args[1]), 4); ok && w.n.Sign() < 0 {
					hi = sub(v.args[1], num(1))
				}
			}
		case "sign":
			lo, hi = num(-1), num(1)
		}
	}
	if hi != nil && hi.k == KIte {
		hi = nil
	}
	return
}

// upper bounds a polynomial by a constant if the ranges of its atoms allow it
func upper(p *Term, fuel int) (*Term, bool) {
	if p.k == KNum {
		return p, true
	}
	if fuel == 0 || p.k == KIte {
		return nil, false
	}
	for _, m := range sortedMonos(p) {
		if len(m.vs) == 0 {
			continue
		}
		if len(m.vs) != 1 {
			// a product of non-negative atoms with a negative coefficient
			allNonneg := m.c.Sign() < 0
			for _, v := range m.vs {
				if lo, _ := atomRange(v); lo == nil || lo.k != KNum || lo.n.Sign() < 0 {
					allNonneg = false
				}
			}
			if allNonneg {
				pm := polyMap(p)
				delete(pm, vsKey(m.vs))
				if r, ok := upper(fromPoly(pm), fuel-1); ok {
					return r, true
				}
			}
			return nil, false
		}
		v := m.vs[0]
		lo, hi := atomRange(v)
		b := hi
		if m.c.Sign() < 0 {
			b = lo
		}
		if b == nil {
			continue
		}
		pm := polyMap(p)
		delete(pm, vsKey(m.vs))
		if r, ok := upper(add(fromPoly(pm), mul(bigTerm(m.c), b)), fuel-1); ok {
			return r, true
		}
	}
	return nil, false
}

func isNumeric(t *Term) bool {
	switch t.k {
	case KNum, KPoly:
		return true
	case KVar, KFormal, KBVar:
		return t.op != "nu"
	case KApp:
		switch t.op {
		case "mu":
			return t.args[0].op == "mu"
		case "llen", "mcard", "first", "sum", "mod", "num", "rnd", "scal", "hpick", "blen", "secval", "bitlen", "sign", "cnt", "be32val", "mpos", "perm", "perminv":
			return true
		}
	}
	return false
}

func isBytesLike(t *Term) bool {
	switch t.k {
	case KStr, KBytes:
		return true
	case KApp:
		switch t.op {
		case "marsh", "pstr", "be32", "digest", "enc", "bytesof", "marshs", "itoa", "sconst":
			return true
		}
	}
	return false
}

// nonNil: certainly not the nil reference
func nonNil(t *Term) bool {
	switch t.k {
	case KApp:
		if t.op == "alloc" || t.op == "slice" || t.op == "closure" || t.op == "func" || strings.HasPrefix(t.op, "iface:") ||
			t.op == "iface" || t.op == "lit" || t.op == "gen" || t.op == "afield" || t.op == "aindex" || t.op == "root" || t.op == "global" || t.op == "errval" || t.op == "enc" {
			return true
		}
		if t.op == "lcat" {
			return nonNil(t.args[0]) || nonNil(t.args[1])
		}
		return isBytesLike(t) || isNumeric(t)
	case KGrp, KNum, KPoly, KStr, KBytes, KStruct:
		return true
	}
	return t == tErr || t == tUnset || t.k == KConst && t.op == "present"
}

// neverZero: the factors have a common divisor that the constant has not
func neverZero(d *Term) bool {
	if d.k != KPoly {
		return false
	}
	g, c := new(big.Int), new(big.Int)
	for _, m := range d.ms {
		if len(m.vs) == 0 {
			c = m.c
		} else {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	return c.Sign() != 0 && g.Sign() > 0 && new(big.Int).Mod(c, g).Sign() != 0
}

// eq compares values of any kind
func eq(a, b *Term) *Term {
	return liftN("eq", eqLeaf, a, b)
}

func eqLeaf(x []*Term) *Term {
	a, b := x[0], x[1]
	if a == b {
		return tTrue
	}
	if a == tUndef || b == tUndef {
		return asBool(rawApp("eq", a, b))
	}
	if a == tNil || b == tNil {
		o := a
		if a == tNil {
			o = b
		}
		if nonNil(o) {
			return tFalse
		}
		return asBool(rawApp("isnil", o))
	}
	if a.is("iface") && b.is("iface") {
		if a.args[0] != b.args[0] {
			return tFalse
		}
		return eq(a.args[1], b.args[1])
	}
	if a.k == KConst && b.k == KConst {
		return tFalse
	}
	if a.k == KStr && b.k == KStr {
		return boolc(a.op == b.op)
	}
	if a.k == KGrp || b.k == KGrp {
		if a.k == KGrp && b.k == KGrp && a.args[0] == b.args[0] {
			return geq(a, b)
		}
		m := a.args
		if b.k == KGrp {
			m = b.args
		}
		if m[0] != tNil {
			if isNumeric(a) || isNumeric(b) || a.k == KApp || b.k == KApp {
				return asBool(orient("eq", a, b))
			}
		}
		return asBool(orient("eq", a, b))
	}
	if isNumeric(a) || isNumeric(b) {
		d := sub(a, b)
		if d.k == KNum {
			return boolc(d.n.Sign() == 0)
		}
		if d.k == KIte {
			return eq(d, num(0))
		}
		if a.k == KApp && b.k == KApp && a.op == "num" && b.op == "num" && a.args[0].is("marsh") && b.args[0].is("marsh") {
			return eq(a.args[0].args[0], b.args[0].args[0])
		}
		if x, y := diffOfGrps(d); x != nil {
			return geq(x, y)
		}
		if r := signCases(d, func(q *Term) *Term { return eq(q, num(0)) }); r != nil {
			return r
		}
		// ranges
		if hi, ok := upper(d, 8); ok && hi.n.Sign() < 0 {
			return tFalse
		}
		if hi, ok := upper(neg(d), 8); ok && hi.n.Sign() < 0 {
			return tFalse
		}
		if leadNeg(d) {
			d = neg(d)
		}
		if neverZero(d) {
			return tFalse
		}
		return asBool(rawApp("eq0", d))
	}
	if a.k == KApp && b.k == KApp && a.op == b.op {
		switch a.op {
		case "pstr", "marsh":
			return eq(a.args[0], b.args[0])
		case "marshs", "be32", "itoa", "bytesof":
			return numEq(a.args[0], b.args[0])
		case "alloc":
			if a.args[0] != b.args[0] {
				return tFalse
			}
			r := tTrue
			for i := 1; i < len(a.args); i++ {
				r = and(r, eq(a.args[i], b.args[i]))
			}
			return r
		}
		if strings.HasPrefix(a.op, "iface:") {
			return eq(a.args[0], b.args[0])
		}
	}
	if a.k == KApp && b.k == KApp && strings.HasPrefix(a.op, "iface:") && strings.HasPrefix(b.op, "iface:") && a.op != b.op {
		return tFalse
	}
	if (a.is("alloc")) != (b.is("alloc")) && !a.is("elem") && !b.is("elem") && a.k != KFormal && b.k != KFormal {
		return tFalse
	}
	if a.k == KStruct && b.k == KStruct && sameShape(a, b) {
		r := tTrue
		for i := 1; i < len(a.args); i++ {
			r = and(r, eq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.k == KBytes || b.k == KBytes {
		// equal ends cancel
		x, y := segsOf(a), segsOf(b)
		n := len(x) + len(y)
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		if len(x)+len(y) < n {
			return eq(bcat(x...), bcat(y...))
		}
	}
	return asBool(orient("eq", a, b))
}

func segsOf(b *Term) []*Term {
	if b.k == KBytes {
		return b.args
	}
	return []*Term{b}
}

func orient(op string, a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return rawApp(op, a, b)
}

// geq: equality of two elements of one group, as "ratio is the identity"
func geq(a, b *Term) *Term {
	r := gmul(a, gexp(b, num(-1)))
	return liftN("geq", func(x []*Term) *Term {
		r := x[0]
		if r.k != KGrp {
			return asBool(rawApp("geq", r))
		}
		if len(r.fs) == 0 {
			return tTrue
		}
		if leadNeg(r.fs[0].e) {
			r = gexp(r, num(-1))
			if r.k == KIte {
				return geq(r, mkGrp(r.args[0], nil))
			}
		}
		return asBool(rawApp("geq", r))
	}, r)
}

// ---------------------------------------------------------------------------
// bytes

func bcat(parts ...*Term) *Term {
	return liftN("bcat", func(a []*Term) *Term {
		if absorbing(a) == tUndef {
			return tUndef
		}
		var segs []*Term
		var push func(t *Term)
		push = func(t *Term) {
			switch {
			case t == tNil:
			case t.k == KBytes:
				for _, s := range t.args {
					push(s)
				}
			case t.k == KStr:
				if t.op == "" {
					return
				}
				if n := len(segs); n > 0 && segs[n-1].k == KStr {
					segs[n-1] = str(segs[n-1].op + t.op)
					return
				}
				segs = append(segs, t)
			default:
				segs = append(segs, t)
			}
		}
		for _, t := range a {
			push(t)
		}
		// four big-endian bytes of one number
		for i := 0; i+4 <= len(segs); i++ {
			ok := true
			for k := 0; k < 4; k++ {
				s := segs[i+k]
				if !s.is("byteof") || s.args[0] != segs[i].args[0] || !s.args[1].isC(int64(24-8*k)) {
					ok = false
					break
				}
			}
			if ok {
				ns := append([]*Term{}, segs[:i]...)
				ns = append(ns, app("be32", segs[i].args[0]))
				segs = append(ns, segs[i+4:]...)
			}
		}
		if len(segs) == 0 {
			return str("")
		}
		if len(segs) == 1 {
			return segs[0]
		}
		return intern("B:"+idlist(segs), func() *Term { return &Term{k: KBytes, args: segs} })
	}, parts...)
}

func blen(b *Term) *Term {
	return liftN("blen", func(a []*Term) *Term {
		b := a[0]
		switch {
		case b == tNil:
			return num(0)
		case b.k == KStr:
			return num(int64(len(b.op)))
		case b.is("be32"):
			return num(4)
		case b.is("byteof"), b.is("byteval"):
			return num(1)
		case b.is("zeros"):
			return b.args[0]
		case b.is("digest"):
			return num(32)
		case b.k == KBytes:
			r := num(0)
			for _, s := range b.args {
				r = add(r, blen(s))
			}
			return r
		}
		return rawApp("blen", b)
	}, b)
}

// ---------------------------------------------------------------------------
// binders

var lamCount int

func mkLam(v, body *Term) *Term {
	h := body.h + 1
	b := subst(body, map[*Term]*Term{v: bvar(h)})
	// substitution may have changed the height of the body
	for b.h+1 != h {
		y := freshVar("r", nil)
		bb := subst(b, map[*Term]*Term{bvar(h): y})
		h = bb.h + 1
		b = subst(bb, map[*Term]*Term{y: bvar(h)})
	}
	return intern(fmt.Sprintf("L:%d:%d", h, b.id), func() *Term { return &Term{k: KLam, aux: h, args: []*Term{b}} })
}

func applyLam(l, x *Term) *Term {
	if l.k != KLam {
		panic("applyLam on " + show(l))
	}
	return subst(l.args[0], map[*Term]*Term{bvar(l.aux): x})
}

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}

func touches(t *Term, m map[*Term]*Term) bool {
	for _, v := range t.fv {
		if _, ok := m[v]; ok {
			return true
		}
	}
	return false
}

func substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if !touches(t, m) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.k == KLam {
		y := freshVar("s", nil)
		m2 := map[*Term]*Term{}
		for k, v := range m {
			if k != bvar(t.aux) {
				m2[k] = v
			}
		}
		m2[bvar(t.aux)] = y
		r = mkLam(y, subst(t.args[0], m2))
	} else {
		r = rebuild(t, func(a *Term) *Term { return substM(a, m, memo) })
	}
	memo[t] = r
	return r
}

// replaceTerms replaces arbitrary subterms (not only variables)
func replaceTerms(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.k == KLam {
			y := freshVar("s", nil)
			b := applyLam(t, y)
			nb := rec(b)
			if nb == b {
				r = t
			} else {
				r = mkLam(y, nb)
			}
		} else {
			ch := false
			for _, a := range children(t) {
				if rec(a) != a {
					ch = true
				}
			}
			if ch {
				r = rebuild(t, rec)
			} else {
				r = t
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// rebuild reconstructs t with every child mapped by f, renormalising.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	switch t.k {
	case KConst, KNum, KStr, KVar, KBVar, KFormal:
		return t
	case KIte:
		c := f(t.args[0])
		return ite(asBool(c), f(t.args[1]), f(t.args[2]))
	case KPoly:
		r := num(0)
		for _, m := range t.ms {
			q := bigTerm(m.c)
			for _, v := range m.vs {
				q = mul(q, f(v))
			}
			r = add(r, q)
		}
		return r
	case KGrp:
		m := f(t.args[0])
		r := mkGrp(m, nil)
		for _, x := range t.fs {
			var b *Term
			nb := f(x.b)
			if m == tNil {
				if nb == x.b {
					b = grpAtomRaw(nb)
				} else {
					b = grpAtom(nb)
				}
			} else {
				b = toGrp(nb, m)
			}
			r = gmul(r, gexp(b, f(x.e)))
		}
		return r
	case KBytes:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = f(a)
		}
		return bcat(args...)
	case KStruct, KApp:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = f(a)
		}
		return rebuildArgs(t, args)
	case KLam:
		panic("rebuild of a lambda")
	}
	panic("rebuild")
}

func rebuildArgs(t *Term, args []*Term) *Term {
	if t.k == KStruct {
		return mkStruct(t.op, args[0], t.names, args[1:])
	}
	if t.is("mget") {
		return mget(args[0], args[1], mgetZero[t])
	}
	return mkApp(t.op, args)
}

// ---------------------------------------------------------------------------
// structs

// mkStruct: names sorted; base is tNoBase or a symbolic value whose other fields are unchanged
func mkStruct(op string, base *Term, names []string, vals []*Term) *Term {
	type fv struct {
		n string
		v *Term
	}
	var l []fv
	for i, n := range names {
		if base != tNoBase && vals[i] == mkField(base, n) {
			continue
		}
		l = append(l, fv{n, vals[i]})
	}
	if base != tNoBase && len(l) == 0 {
		return base
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	args := []*Term{base}
	var ns []string
	for _, x := range l {
		args = append(args, x.v)
		ns = append(ns, x.n)
	}
	return intern("T:"+strings.Join(ns, ",")+":"+idlist(args), func() *Term {
		return &Term{k: KStruct, op: op, names: ns, args: args}
	})
}

func mkField(v *Term, name string) *Term {
	return liftN("field:"+name, func(a []*Term) *Term {
		v := a[0]
		switch {
		case v == tUndef:
			return tUndef
		case v.k == KStruct:
			for i, n := range v.names {
				if n == name {
					return v.args[i+1]
				}
			}
			if v.args[0] != tNoBase {
				return mkField(v.args[0], name)
			}
			return rawApp("nofield", v, str(name))
		}
		return rawApp("fld", v, str(name))
	}, v)
}

func setField(v *Term, name string, x *Term) *Term {
	return liftN("setfield:"+name+":"+strconv.Itoa(x.id), func(a []*Term) *Term {
		v := a[0]
		if v.k == KStruct {
			names := append([]string{}, v.names...)
			vals := append([]*Term{}, v.args[1:]...)
			for i, n := range names {
				if n == name {
					vals[i] = x
					return mkStruct(v.op, v.args[0], names, vals)
				}
			}
			return mkStruct(v.op, v.args[0], append(names, name), append(vals, x))
		}
		return mkStruct("", v, []string{name}, []*Term{x})
	}, v)
}
