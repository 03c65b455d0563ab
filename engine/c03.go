package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: operations on initialized elements, under matching bases.
//
// suite.Point() and suite.Secret() make elements that have no value yet; an
// operation that has such an operand (or, as base of an exponentiation, a
// reference that is only sometimes nil, which would silently select the
// standard base) is a violation. The fields of a role's state that start
// without a value may be without one in every state, except where an inductive
// invariant "in status s field F has been given" or "once given, F stays
// given" holds: the candidates that some entry point does not preserve are
// dropped until the rest is inductive.
//
// At every call of ElGamalSign and ElGamalVerify the key decides the base: the
// coordinator's and servers' own keys, which are made as standard base to the
// private key and never changed, go with the standard base, pseudonyms and a
// client's own signatures with the current round generator.

type keyRole struct {
	name, pkg, init string
	own             string   // base of its own signatures: "" standard, else a field
	keys            []string // fields holding standard-base keys others sign with
	nym             string   // field holding generator^private key
}

var keyRoles = []keyRole{
	{"coordinator", "zRep/cmd/coordinator", "initCoordinator", "", []string{"PublicKey", "ServerList"}, ""},
	{"server", "zRep/cmd/server", "initAnonServer", "", []string{"PublicKey"}, ""},
	{"client", "zRep/cmd/client", "initClient", "G", []string{"ControllerPublicKey"}, "OnetimePseudoNym"},
}

func init() {
	checks["C03"] = checkDef{[]string{"common", "shmodel", "c03"}, runC03, "Every entry point of the roles (their Handle per message code, the functions their main loops call) is evaluated, by value numbering over the SSA form of all code reached, on unknown contents in an unknown state of which only the invariants found are assumed; functions reached from none of them on unknown arguments. Obligations are the operands of every group operation, the base of every signature, the keys made at start, and the contents of every message. "}
}

// lateField: a field of a role's state without a value at start
type lateField struct {
	name  string
	kind  string // point or secret
	unset bool   // refers to an element without value, rather than nil
}

type keyCheck struct {
	p       *Program
	r       *Report
	visited map[string]bool // positions of operations evaluated
	bad     map[string]string
	seen    map[string][2]string // rule, construct by key
	order   []string
	colls   map[string]bool // collections of the role's state; true: a map
}

func (k *keyCheck) obligation(rule, what, pos string, why string) {
	key := rule + "|" + what + "|" + pos
	if _, ok := k.seen[key]; !ok {
		k.seen[key] = [2]string{rule, what}
		k.order = append(k.order, key)
	}
	if why != "" && k.bad[key] == "" {
		k.bad[key] = why
	}
}

// operands: which arguments an operation computes with
var operands = map[string][]int{
	"Point.Mul": {1, 2}, "Point.Add": {1, 2}, "Point.Sub": {1, 2}, "Point.Neg": {1}, "Point.MarshalBinary": {0},
	"Secret.Add": {1, 2}, "Secret.Sub": {1, 2}, "Secret.Mul": {1, 2}, "Secret.Div": {1, 2}, "Secret.Neg": {1}, "Secret.Inv": {1},
	"Secret.MarshalBinary": {0},
}

// feasible leaves of v under pc
func leavesUnder(v, pc *Term, f func(l, c *Term)) {
	for _, l := range leaves(v) {
		if l == tDead {
			continue
		}
		if c := and(pc, leafCond(v, l)); c != tFalse {
			f(l, c)
		}
	}
}

func isOperation(c *ssa.CallCommon) (string, bool) {
	if c.IsInvoke() {
		n := invokeName(c)
		_, ok := operands[n]
		return n, ok
	}
	if f := c.StaticCallee(); f != nil {
		if sg := f.Signature.Recv(); sg != nil && isNamed(stripPtr(sg.Type()), "zRep/primitive/fujiokam", "Point") {
			return "FO." + f.Name(), f.Name() != "SetBigInt" && f.Name() != "FromBinary" && f.Name() != "String"
		}
		n := funcFull(f)
		if n == utilPkg+".ElGamalSign" || n == utilPkg+".ElGamalVerify" {
			return n, true
		}
		if n == "(*math/big.Int).Exp" {
			return n, true
		}
	}
	return "", false
}

// entry evaluates one function. role, obj: whose state it works on.
type entryCfg struct {
	fn     *ssa.Function
	label  string
	role   *keyRole
	raw    bool
	kind   *Term
	assume *Term
	facts  map[int64]bool // statuses that were reached before
}

// candidate: a state with the status given, in which the collection some is
// not empty and the collection none is, has the field
type candidate struct {
	status     int64 // anyStatus; onceGiven: the field stays given
	some, none string
	field      string
}

const (
	onceGiven = -1
	anyStatus = -2
)

// in: the candidate's condition on a state
func (k *keyCheck) in(x *Exec, st *State, obj, status *Term, c candidate) *Term {
	r := tTrue
	if c.status >= 0 {
		r = eq(status, num(c.status))
	}
	if c.some != "" {
		r = and(r, k.nonempty(x, st, obj, c.some))
	}
	if c.none != "" {
		r = and(r, not(k.nonempty(x, st, obj, c.none)))
	}
	return r
}

// nonempty: a list or map of the role's state has elements
func (k *keyCheck) nonempty(x *Exec, st *State, obj *Term, coll string) *Term {
	return localLift(x.load(st, rawApp("afield", obj, str(coll)), ""), func(l, _ *Term) *Term {
		if l == tNil {
			return tFalse
		}
		if k.colls[coll] {
			return nonemptyMap(x.mapVal(st, l))
		}
		return not(eq(llen(x.listVal(st, l)), num(0)))
	})
}

func nonemptyMap(m *Term) *Term {
	return localLift(m, func(l, _ *Term) *Term {
		switch {
		case l == tMEmpty || l == tNil:
			return tFalse
		case l.is("mput"):
			return tTrue
		case l.is("mdel"), l.is("mdelall"):
			return nonemptyMap(l.args[0])
		case l.is("mputall"):
			return or(nonemptyMap(l.args[0]), not(eq(l.args[1], num(0))))
		}
		return asBool(rawApp("nonempty", l))
	})
}

// possible: c can be true, as a map with a key is not empty
func possible(c *Term) bool {
	if c == tFalse {
		return false
	}
	ok, _ := prove(withKeys(c), tFalse)
	return !ok
}

// addressOf: t is the address in an element of a list of the state; only
// addresses that exist are put there
func addressOf(t *Term) bool {
	return t.is("afield") && t.args[1] == str("Addr") || t.is("fld") && t.args[1] == str("Addr")
}

func withKeys(c *Term) *Term {
	seen := map[*Term]bool{}
	r := c
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.is("isnil") && len(t.fv) == 0 && addressOf(t.args[0]) {
			r = and(r, not(asBool(t)))
		}
		if t.is("mhas") && len(t.fv) == 0 {
			r = and(r, or(not(asBool(t)), nonemptyMap(t.args[0])))
		}
		for _, a := range children(t) {
			rec(a)
		}
	}
	rec(c)
	return r
}

func (k *keyCheck) entry(e entryCfg, late []lateField, cands map[candidate]bool) (dropped []candidate) {
	const rule = "the analysis completes"
	defer func() {
		if err := recover(); err != nil {
			k.obligation(rule, e.label, k.p.pos(e.fn.Pos()), fmt.Sprint(err))
		}
	}()
	p := k.p
	orderOf = map[*Term]*Term{}
	resetAssumptions()
	x := newExec(p)
	if e.raw {
		delete(x.opaque, utilPkg+".ElGamalSign")
		delete(x.opaque, utilPkg+".ElGamalVerify")
		delete(x.opaque, shufPkg+".Shuffle")
		delete(x.opaque, shufPkg+".Verifier")
	}
	st := x.newState()
	st.pc = e.assume
	if e.kind != nil {
		params := rawApp("sym", str("contents"))
		from := rawApp("sym", str("from"))
		x.opaque[utilPkg+".DecodeEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			ev := x.alloc(c.site)
			x.store(st, ev, mkStruct("", tNoBase, []string{"EventType", "Params", "SrcAddr"}, []*Term{e.kind, params, rawApp("addrstr", from)}), "")
			return rawApp("tuple", ev, from)
		}
	}
	var args []*Term
	var obj *Term
	for _, v := range e.fn.Params {
		a := x.symParam(v.Name(), v.Type())
		args = append(args, a)
		if e.role != nil && types.Identical(v.Type(), k.stateType(e.role)) && obj == nil {
			obj = a
		}
	}
	if e.role == nil && e.fn.Pkg != nil {
		for i := range keyRoles {
			if keyRoles[i].pkg == e.fn.Pkg.Pkg.Path() {
				x.store(st, x.globalRef(k.stateGlobal(&keyRoles[i])), rawApp("sym", str(keyRoles[i].name)), "")
			}
		}
	}
	given := map[string]*Term{}
	var status0 *Term
	if e.role != nil {
		if obj == nil {
			obj = rawApp("sym", str(e.role.name))
			g := k.stateGlobal(e.role)
			x.store(st, x.globalRef(g), obj, "")
		}
		status0 = x.load(st, rawApp("afield", obj, str("Status")), "")
		for _, f := range late {
			g := asBool(rawApp("given", str(f.name)))
			for c := range cands {
				if c.field != f.name || c.status == onceGiven {
					continue
				}
				g = or(g, k.in(x, st, obj, status0, c))
				if c.some == "" && e.facts[c.status] && cands[candidate{onceGiven, "", "", f.name}] {
					g = tTrue
				}
			}
			given[f.name] = g
		}
		if n := e.role.nym; n != "" && given[n] != nil && given[e.role.own] != nil {
			// the pseudonym is made with the generator
			given[e.role.own] = or(given[e.role.own], given[n])
		}
		sk := x.load(st, mkField(obj, "PrivateKey"), "secret")
		for _, f := range late {
			ref := mkField(obj, f.name)
			g := given[f.name]
			if f.unset {
				v := dflt(ref, f.kind)
				if f.name == e.role.nym {
					v = gexp(grpAtom(mkField(obj, e.role.own)), sk)
				}
				x.store(st, ref, ite(g, v, tUnset), f.kind)
			} else {
				x.store(st, rawApp("afield", obj, str(f.name)), ite(g, ref, tNil), "")
			}
		}
	}
	isGiven := func(st *State, f lateField) *Term {
		ref := x.load(st, rawApp("afield", obj, str(f.name)), "")
		return localLift(ref, func(l, _ *Term) *Term {
			if l == tNil || l == tDead {
				return tFalse
			}
			return localLift(x.loadLeaf(st, l, f.kind), func(m, _ *Term) *Term { return boolc(m != tUnset && m != tUndef) })
		})
	}
	drop := map[candidate]bool{}
	// the invariants hold where the state can be seen by the next message
	invariants := func(st *State) {
		if e.role == nil || st.pc == tFalse {
			return
		}
		now := x.load(st, rawApp("afield", obj, str("Status")), "")
		for _, f := range late {
			g := isGiven(st, f)
			for c := range cands {
				if c.field != f.name || drop[c] {
					continue
				}
				when := given[f.name]
				if c.status != onceGiven {
					when = k.in(x, st, obj, now, c)
				}
				if possible(and(and(st.pc, when), not(g))) {
					if os.Getenv("DBG03") != "" {
						fmt.Println("DROP", c, e.label)
					}
					drop[c] = true
				}
			}
		}
	}
	where := e.label
	operand := func(f *frame, st *State, c *callInfo, op string, i int) string {
		kind := "point"
		if strings.HasPrefix(op, "Secret.") || op == "Point.Mul" && i == 2 {
			kind = "secret"
		}
		var some, none *Term = tFalse, tFalse
		why := ""
		leavesUnder(c.args[i], st.pc, func(l, cnd *Term) {
			if l == tNil {
				none = or(none, cnd)
				return
			}
			some = or(some, cnd)
			leavesUnder(x.loadLeaf(st, l, kind), cnd, func(m, cnd *Term) {
				if m == tUnset && possible(cnd) {
					why = "an operand that was never given a value"
				}
			})
		})
		if op == "Point.Mul" && i == 1 && why == "" && possible(some) && possible(none) {
			why = "a base that may never have been given, which selects the standard base"
		}
		return why
	}
	sites := map[string]bool{}
	x.watch = func(x *Exec, f *frame, st *State, c *callInfo) {
		op, ok := isOperation(c.cc)
		if !ok || isSpec(f.fn) || !x.mon || st.pc == tFalse {
			return
		}
		pos := p.pos(c.pos)
		sites[pos] = true
		why := ""
		switch {
		case strings.HasSuffix(op, ".ElGamalSign"), strings.HasSuffix(op, ".ElGamalVerify"):
			if e.role == nil || !strings.Contains(funcName(f.fn), "cmd/") && f.fn.Pkg.Pkg.Path() != e.role.pkg {
				return
			}
			k.obligation("signatures under the base of their keys", funcName(f.fn), pos, k.base(x, st, e.role, obj, c, strings.HasSuffix(op, "Sign")))
			return
		case strings.HasPrefix(op, "FO."):
			for i, a := range c.args {
				if i >= len(c.cc.Args) || !isNamed(stripPtr(c.cc.Args[i].Type()), "zRep/primitive/fujiokam", "Point") {
					continue
				}
				if i == 0 && !strings.HasPrefix(op, "FO.To") && op != "FO.Equal" {
					continue
				}
				leavesUnder(a, st.pc, func(l, cnd *Term) {
					if l == tNil {
						return
					}
					leavesUnder(x.load(st, rawApp("afield", l, str("V")), "big"), cnd, func(m, cnd *Term) {
						if m.isC(0) && possible(cnd) {
							why = "an operand that was never given a value"
						}
					})
				})
			}
		case strings.HasPrefix(op, "(*math/big.Int)"):
			for _, i := range []int{1, 2} {
				leavesUnder(c.args[i], st.pc, func(l, cnd *Term) {
					if l == tNil {
						return
					}
					leavesUnder(x.load(st, l, "big"), cnd, func(m, cnd *Term) {
						if m.isC(0) && possible(cnd) {
							why = "an operand that is zero"
						}
					})
				})
			}
		default:
			for _, i := range operands[op] {
				if w := operand(f, st, c, op, i); w != "" {
					why = w
				}
			}
		}
		if why != "" {
			if os.Getenv("DBG03") != "" {
				fmt.Println("BAD", where, pos, op, why, "\n  pc", show(st.pc))
				for _, a := range c.args {
					fmt.Println("   ", show(a), " = ", show(x.deep(st, a)))
				}
			}
			why = where + ": " + op + " with " + why
		}
		k.obligation("operands have been given a value", funcName(f.fn), pos, why)
	}
	x.opaque[utilPkg+".SendEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		if !x.mon || st.pc == tFalse {
			return tNil
		}
		pm := x.deep(st, x.mapVal(st, x.load(st, rawApp("afield", c.args[2], str("Params")), "")))
		why := ""
		if unsetIn(pm, st.pc) {
			why = where + ": the message contains an element that was never given a value"
		}
		k.obligation("messages carry elements with a value", funcName(f.fn), p.pos(c.pos), why)
		return tNil
	}
	asserted := map[*Term]*Term{}
	x.onAssert = func(st *State, v *Term, pos string) {
		if !x.mon || e.role == nil || e.role.name == "client" {
			return
		}
		// one that was passed before does not fail
		if old := asserted[v]; old != nil {
			if ok, _ := prove(st.pc, old); ok {
				return
			}
			asserted[v] = or(old, st.pc)
		} else {
			asserted[v] = st.pc
		}
		invariants(st)
	}
	x.onPanic = func(f *frame, st *State, pos token.Pos) {
		if x.mon && e.role != nil && e.role.name != "client" {
			invariants(st)
		}
	}
	x.onWrite = func(f *frame, st *State, addr *Term, pos string) {
		if e.role == nil || isSpec(f.fn) {
			return
		}
		for _, l := range leaves(addr) {
			for _, fd := range rootField(l, obj) {
				if fd == "PublicKey" || fd == "PrivateKey" {
					k.obligation("keys do not change", funcName(f.fn), pos, where+": changes "+fd)
				}
			}
		}
	}
	x.mon = true
	x.run(e.fn, args, nil, st, "", nil)
	invariants(st)
	if e.role != nil && st.pc != tFalse {
		k.stateHas(x, st, e.role, obj, late, where, p.pos(e.fn.Pos()))
	}
	if e.role != nil && e.role.nym != "" && st.pc != tFalse {
		// the pseudonym is the generator to the private key
		why := ""
		ref := x.load(st, rawApp("afield", obj, str(e.role.nym)), "")
		g := x.load(st, rawApp("afield", obj, str(e.role.own)), "")
		sk := x.load(st, mkField(obj, "PrivateKey"), "secret")
		leavesUnder(ref, st.pc, func(l, c *Term) {
			leavesUnder(x.loadLeaf(st, l, "point"), c, func(m, c *Term) {
				if m == tUnset {
					return
				}
				leavesUnder(g, c, func(h, c *Term) {
					if h == tNil {
						if possible(c) {
							why = "the pseudonym has a value and the generator has none"
						}
						return
					}
					if ok, w := prove(c, eq(m, gexp(x.loadLeaf(st, h, "point"), sk))); !ok {
						why = "the pseudonym is not the generator to the private key " + w
					}
				})
			})
		})
		k.obligation("keys made under their base", where+": "+e.role.nym, p.pos(e.fn.Pos()), why)
	}
	for f := range x.funcs {
		if !strings.Contains(f, ".spec") {
			k.r.funcs[f] = true
		}
	}
	for s := range sites {
		k.visited[s] = true
	}
	for c := range drop {
		dropped = append(dropped, c)
	}
	return dropped
}

// stateHas: apart from the fields given later, the state holds elements with a value
func (k *keyCheck) stateHas(x *Exec, st *State, role *keyRole, obj *Term, late []lateField, where, pos string) {
	isLate := map[string]bool{}
	for _, f := range late {
		isLate[f.name] = true
	}
	s := k.stateType(role).(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if _, basic := s.Field(i).Type().Underlying().(*types.Basic); isLate[n] || basic {
			continue
		}
		why := ""
		if unsetIn(x.deep(st, x.load(st, rawApp("afield", obj, str(n)), "")), st.pc) {
			why = where + ": holds an element that was never given a value"
		}
		k.obligation("the state keeps elements with a value", role.name+": "+n, pos, why)
	}
}

// unsetIn: t mentions, where pc allows it, an element without a value
func unsetIn(t, pc *Term) bool {
	type key struct{ t, pc *Term }
	done := map[key]bool{}
	var rec func(t, pc *Term) bool
	rec = func(t, pc *Term) bool {
		if pc == tFalse || t == nil || done[key{t, pc}] {
			return false
		}
		done[key{t, pc}] = true
		if t == tUnset {
			return possible(pc)
		}
		if t.k == KIte {
			c := ite(t.args[0], tTrue, tFalse)
			return rec(t.args[1], and(pc, c)) || rec(t.args[2], and(pc, not(c)))
		}
		for _, a := range children(t) {
			if rec(a, pc) {
				return true
			}
		}
		return false
	}
	return rec(restrict(t, pc), pc)
}

// base judges the base of one signature
func (k *keyCheck) base(x *Exec, st *State, role *keyRole, obj *Term, c *callInfo, sign bool) string {
	base := c.args[4]
	why := ""
	standard := func(pc *Term) {
		leavesUnder(base, pc, func(l, cnd *Term) {
			if l == tNil {
				return
			}
			leavesUnder(x.loadLeaf(st, l, "point"), cnd, func(m, cnd *Term) {
				if ok, _ := prove(cnd, eq(m, grpAtom(tBase))); !ok {
					why = "not under the standard base"
				}
			})
		})
	}
	generator := func(pc *Term) {
		cur := x.load(st, rawApp("afield", obj, str("G")), "")
		leavesUnder(base, pc, func(l, cnd *Term) {
			if l == tNil {
				if possible(cnd) {
					why = "not under the round generator, which may not have been given"
				}
				return
			}
			leavesUnder(x.loadLeaf(st, l, "point"), cnd, func(m, cnd *Term) {
				leavesUnder(cur, cnd, func(h, cnd *Term) {
					if h == tNil {
						if possible(cnd) {
							why = "not under the round generator, which may not have been given"
						}
						return
					}
					if ok, _ := prove(cnd, eq(m, x.loadLeaf(st, h, "point"))); !ok {
						why = "not under the current round generator"
					}
				})
			})
		})
	}
	if sign {
		key := x.sec(st, c.args[3])
		own := x.load(st, mkField(obj, "PrivateKey"), "secret")
		if ok, _ := prove(st.pc, eq(key, own)); !ok {
			return "not with the role's own private key"
		}
		if role.own == "" {
			standard(st.pc)
		} else {
			generator(st.pc)
		}
		return why
	}
	leavesUnder(c.args[2], st.pc, func(l, cnd *Term) {
		if l == tNil {
			if possible(cnd) {
				why = "under a key that is nil"
			}
			return
		}
		content := x.loadLeaf(st, l, "point")
		leavesUnder(content, cnd, func(m, cnd *Term) {
			if m == tUnset {
				if possible(cnd) {
					why = "under a key that was never given a value"
				}
				return
			}
			fs := fieldsIn(x.deep(st, m), obj)
			std := false
			for _, f := range fs {
				for _, s := range role.keys {
					std = std || f == s
				}
			}
			if std {
				standard(cnd)
			} else {
				generator(cnd)
			}
		})
	})
	return why
}

// holdsPoint: an element of the type consists of group elements
func holdsPoint(t types.Type) bool {
	if objKind(t) == "point" {
		return true
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if objKind(s.Field(i).Type()) == "point" {
				return true
			}
		}
	}
	return false
}

func (k *keyCheck) stateType(role *keyRole) types.Type {
	h := k.p.fn(role.pkg, "Handle")
	return h.Params[len(h.Params)-1].Type()
}

// statuses that the role's code sets
func (k *keyCheck) statuses(role *keyRole) map[int64]bool {
	r := map[int64]bool{}
	for _, f := range k.p.allFuncs() {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != role.pkg || isSpec(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					fa, ok := s.Addr.(*ssa.FieldAddr)
					c, isc := s.Val.(*ssa.Const)
					if ok && isc && stripPtr(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "Status" && c.Value != nil && types.Identical(fa.X.Type(), k.stateType(role)) && c.Value.Kind() == constant.Int {
						r[c.Int64()] = true
					}
				}
			}
		}
	}
	return r
}

func (k *keyCheck) stateGlobal(role *keyRole) *ssa.Global {
	sp := k.p.pkgs[role.pkg]
	t := k.stateType(role)
	for _, n := range sortedMembers(sp) {
		if g, ok := sp.Members[n].(*ssa.Global); ok && types.Identical(g.Type().(*types.Pointer).Elem(), t) {
			return g
		}
	}
	return nil
}

// start evaluates the function that makes a role's state
func (k *keyCheck) start(role *keyRole) (late []lateField, status int64, lists []string, ok bool) {
	const rule = "keys made under their base"
	p := k.p
	f := p.fn(role.pkg, role.init)
	if f == nil {
		k.obligation(rule, role.name, "-", "no "+role.init)
		return nil, 0, nil, false
	}
	orderOf = map[*Term]*Term{}
	resetAssumptions()
	x := newExec(p)
	st := x.newState()
	x.mon = true
	x.run(f, nil, nil, st, "", nil)
	obj := x.load(st, x.globalRef(k.stateGlobal(role)), "")
	pos := p.pos(f.Pos())
	sk := x.load(st, x.load(st, rawApp("afield", obj, str("PrivateKey")), ""), "secret")
	pk := x.load(st, x.load(st, rawApp("afield", obj, str("PublicKey")), ""), "point")
	why := ""
	if ok, w := prove(st.pc, eq(pk, gexp(grpAtom(tBase), sk))); !ok || sk == tUnset || pk == tUnset {
		why = "the public key is not the standard base to the private key " + w
	}
	k.obligation(rule, role.name+": PublicKey", pos, why)
	s := k.stateType(role).(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		kind := objKind(fd.Type())
		if fd.Name() == "Status" {
			v := restrict(x.load(st, rawApp("afield", obj, str("Status")), ""), st.pc)
			if v.k == KNum {
				status = v.n.Int64()
			}
		}
		var el types.Type
		_, isMap := fd.Type().Underlying().(*types.Map)
		switch u := fd.Type().Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Map:
			el = u.Elem()
		}
		if el != nil && holdsPoint(el) {
			k.colls[fd.Name()] = isMap
			if restrict(k.nonempty(x, st, obj, fd.Name()), st.pc) == tFalse {
				lists = append(lists, fd.Name())
			}
		}
		if kind != "point" && kind != "secret" {
			continue
		}
		ref := restrict(x.load(st, rawApp("afield", obj, str(fd.Name())), ""), st.pc)
		if ref == tNil {
			late = append(late, lateField{fd.Name(), kind, false})
		} else if unsetIn(x.load(st, ref, kind), st.pc) {
			late = append(late, lateField{fd.Name(), kind, true})
		}
	}
	k.stateHas(x, st, role, obj, late, role.name+" at start", pos)
	return late, status, lists, true
}

// isStatus: v is the role's status
func isStatus(v ssa.Value, depth int) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			s, _ := stripPtr(fa.X.Type()).Underlying().(*types.Struct)
			return s != nil && s.Field(fa.Field).Name() == "Status"
		}
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && depth <= 3 {
			n := 0
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr != a || !isStatus(r.Val, depth+1) {
						return false
					}
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return n > 0
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || depth > 3 {
			return false
		}
		n := 0
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 || b == f.Recover {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || !isStatus(r.Results[0], depth+1) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	return false
}

// statusFacts: for every call, the statuses that were certainly seen before
// (-1-i: the one that is the function's i-th parameter)
func statusFacts(f *ssa.Function, busy map[*ssa.Function]bool) (at map[ssa.Instruction]map[int64]bool, end map[int64]bool) {
	at = map[ssa.Instruction]map[int64]bool{}
	if busy[f] || len(f.Blocks) == 0 {
		return at, nil
	}
	busy[f] = true
	defer delete(busy, f)
	in := map[*ssa.BasicBlock]map[int64]bool{} // nil: not reached yet
	out := func(b *ssa.BasicBlock, succ int) map[int64]bool {
		if in[b] == nil {
			return nil
		}
		r := map[int64]bool{}
		for s := range in[b] {
			r[s] = true
		}
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				m := map[int64]bool{}
				for s := range r {
					m[s] = true
				}
				at[i] = m
				if g := c.Call.StaticCallee(); g != nil && g.Pkg == f.Pkg {
					_, e := statusFacts(g, busy)
					for s := range e {
						if s >= 0 {
							r[s] = true
						} else if a, ok := c.Call.Args[-s-1].(*ssa.Const); ok && a.Value != nil && a.Value.Kind() == constant.Int {
							r[a.Int64()] = true
						}
					}
				}
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			cond, want := iff.Cond, succ == 0
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, want = u.X, !want
			}
			if o, ok := cond.(*ssa.BinOp); ok && (o.Op == token.EQL && want || o.Op == token.NEQ && !want) {
				for _, pr := range [][2]ssa.Value{{o.X, o.Y}, {o.Y, o.X}} {
					if !isStatus(pr[0], 0) {
						continue
					}
					if c, ok := pr[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						r[c.Int64()] = true
					}
					for i, q := range f.Params {
						if pr[1] == q {
							r[-int64(i)-1] = true
						}
					}
				}
			}
		}
		return r
	}
	in[f.Blocks[0]] = map[int64]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks[1:] {
			var m map[int64]bool
			for _, pr := range b.Preds {
				for i, s := range pr.Succs {
					if s != b {
						continue
					}
					o := out(pr, i)
					if o == nil {
						continue
					}
					if m == nil {
						m = o
						continue
					}
					for s := range m {
						if !o[s] {
							delete(m, s)
						}
					}
				}
			}
			if m != nil && (in[b] == nil || len(m) != len(in[b])) {
				in[b] = m
				changed = true
			}
		}
	}
	for _, b := range f.Blocks {
		if in[b] == nil {
			continue
		}
		o := out(b, 0)
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if end == nil {
				end = o
			} else {
				for s := range end {
					if !o[s] {
						delete(end, s)
					}
				}
			}
		}
	}
	return at, end
}

func runC03(p *Program, r *Report) {
	k := &keyCheck{p: p, r: r, visited: map[string]bool{}, bad: map[string]string{}, seen: map[string][2]string{}}
	sc := p.pkgs["zRep/proto"].Pkg.Scope()
	for ri := range keyRoles {
		role := &keyRoles[ri]
		h := p.fn(role.pkg, "Handle")
		launch := p.fn(role.pkg, "Launch")
		if h == nil || launch == nil {
			r.fail("the analysis completes", role.name, "-", "no Handle or Launch")
			continue
		}
		k.colls = map[string]bool{}
		late, first, lists, ok := k.start(role)
		if !ok {
			continue
		}
		var entries []entryCfg
		other := tTrue
		kv := rawApp("symint", str("kind"))
		for _, n := range sc.Names() {
			var rk *roleKinds
			for i := range roles16 {
				if roles16[i].pkg == role.pkg {
					rk = &roles16[i]
				}
			}
			c, ok := sc.Lookup(n).(*types.Const)
			if _, mine := rk.kinds[n]; !ok || !mine || c.Val().Kind() != constant.Int {
				continue
			}
			v, _ := constant.Int64Val(c.Val())
			other = and(other, not(eq(kv, num(v))))
			entries = append(entries, entryCfg{fn: h, label: role.name + ": " + n, role: role, kind: num(v), assume: tTrue})
		}
		entries = append(entries, entryCfg{fn: h, label: role.name + ": any other kind", role: role, kind: kv, assume: other})
		// what the main loop calls
		at, _ := statusFacts(launch, map[*ssa.Function]bool{})
		byFn := map[*ssa.Function]map[int64]bool{}
		var fns []*ssa.Function
		for i, facts := range at {
			g := i.(*ssa.Call).Call.StaticCallee()
			if g == nil || g.Pkg != launch.Pkg || g.Name() == role.init || g.Blocks == nil {
				continue
			}
			if old, ok := byFn[g]; ok {
				for s := range old {
					if !facts[s] {
						delete(old, s)
					}
				}
				continue
			}
			m := map[int64]bool{}
			for s := range facts {
				m[s] = true
			}
			byFn[g] = m
			fns = append(fns, g)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
		for _, g := range fns {
			entries = append(entries, entryCfg{fn: g, label: role.name + ": " + g.Name(), role: role, assume: tTrue, facts: byFn[g]})
		}
		// candidates for invariants
		statuses := k.statuses(role)
		cands := map[candidate]bool{}
		for _, f := range late {
			cands[candidate{onceGiven, "", "", f.name}] = true
			for _, l := range lists {
				cands[candidate{anyStatus, l, "", f.name}] = true
				for o := range k.colls {
					if o != l {
						cands[candidate{anyStatus, l, o, f.name}] = true
					}
				}
				for s := range statuses {
					cands[candidate{s, l, "", f.name}] = true
				}
			}
			for s := range statuses {
				if s != first {
					cands[candidate{s, "", "", f.name}] = true
				}
			}
		}
		evaluated := map[string]bool{}
		for round := 0; ; round++ {
			k2 := &keyCheck{p: p, r: r, visited: k.visited, colls: k.colls, bad: map[string]string{}, seen: map[string][2]string{}}
			n := 0
			for _, e := range entries {
				for _, c := range k2.entry(e, late, cands) {
					if cands[c] {
						delete(cands, c)
						n++
					}
				}
			}
			for f := range r.funcs {
				evaluated[f] = true
			}
			// changes of the status or of such a field that no entry contains
			for _, f := range p.allFuncs() {
				if f.Pkg != launch.Pkg || isSpec(f) || evaluated[funcName(f)] || f.Name() == role.init {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						s, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := s.Addr.(*ssa.FieldAddr)
						if !ok || !types.Identical(fa.X.Type(), k.stateType(role)) {
							continue
						}
						name := stripPtr(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
						for c := range cands {
							hit := c.field == name || c.some == name || c.none == name
							if name == "Status" && c.status >= 0 {
								v, isc := s.Val.(*ssa.Const)
								hit = !isc || v.Int64() == c.status
							}
							if hit {
								delete(cands, c)
								n++
							}
						}
					}
				}
			}
			if n == 0 {
				for _, key := range k2.order {
					k.obligation(k2.seen[key][0], k2.seen[key][1], key[strings.LastIndex(key, "|")+1:], k2.bad[key])
				}
				break
			}
		}
		for c := range cands {
			if os.Getenv("DBG03") != "" {
				fmt.Println("invariant", role.name, c)
			}
			r.analysed["inductive invariants on given fields"]++
		}
		r.analysed["entry points"] += len(entries)
		for _, f := range late {
			r.analysed["fields that start without a value"]++
			_ = f
		}
	}
	// the shuffle's proof as its users drive it
	for _, n := range []string{"specPathProve", "specPathVerify"} {
		if f := p.fn(shufPkg, n); f != nil {
			k.entry(entryCfg{fn: f, label: shufPkg + ": " + strings.TrimPrefix(n, "specPath"), raw: true, assume: tTrue}, nil, nil)
		}
	}
	// the rest of the code that computes
	n := 0
	for _, f := range p.allFuncs() {
		if isSpec(f) {
			continue
		}
		var sites []string
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, op := isOperation(c.Common()); op {
						sites = append(sites, p.pos(in.Pos()))
					}
				}
			}
		}
		n += len(sites)
		open := false
		for _, s := range sites {
			open = open || !k.visited[s]
		}
		if open && f.Parent() == nil {
			k.entry(entryCfg{fn: f, label: funcName(f), raw: true, assume: tTrue}, nil, nil)
		}
		for _, s := range sites {
			why := ""
			if !k.visited[s] {
				why = "not reached by the analysis"
			}
			k.obligation("every operation evaluated", funcName(f), s, why)
		}
	}
	for _, key := range k.order {
		r.check(k.bad[key] == "", k.seen[key][0], k.seen[key][1], key[strings.LastIndex(key, "|")+1:], "%s", k.bad[key])
	}
	r.analysed["operation call sites"] = n
	r.atLeast("operands have been given a value", 60)
	r.atLeast("signatures under the base of their keys", 8)
	r.atLeast("keys made under their base", 3)
}
