package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: a received value that fails to decode is never used.
//
// Every decoder yields the decoded value where it reports no error and the
// unspecified value "baddec" where it does. The roles' handlers are evaluated
// on an arbitrary message in an arbitrary state, and the functions that decode
// but that no handler uses on arbitrary arguments. In no case may a decision,
// a message, a stored value or a result depend on a baddec. The state is
// compared where the handler returns and, for the roles that survive a panic,
// where it panics.

type decodeUse struct {
	p       *Program
	r       *Report
	visited map[string]bool
	n       int
}

func init() {
	checks["C18"] = checkDef{[]string{"common", "shmodel"}, runC18, "Handlers are evaluated, by value numbering over the SSA form of all code reached, on an arbitrary message in an arbitrary state, with every decoder yielding an unspecified value where it reports an error. Obligations are the branches, messages, results and states whose terms must not mention such a value under their path condition. "}
}

func isDecode(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "UnmarshalBinary"
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	switch {
	case f.Name() == "UnmarshalBinary", f.Name() == "UnmarshalFrom":
		return true
	}
	if f.Pkg == nil || f.Object() == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "encoding/gob":
		return f.Name() == "Decode" || f.Name() == "DecodeValue"
	case "go.dedis.ch/protobuf":
		return f.Name() == "Decode" || f.Name() == "DecodeWithConstructors"
	case absPkg:
		return f.Name() == "Read"
	}
	return false
}

// bad18: a baddec on which t depends under pc
func (d *decodeUse) bad18(t, pc *Term) *Term {
	type key struct{ t, pc *Term }
	done := map[key]bool{}
	has := map[*Term]bool{}
	var mentions func(t *Term) bool
	mentions = func(t *Term) bool {
		if t == nil {
			return false
		}
		if r, ok := has[t]; ok {
			return r
		}
		r := t.is("baddec")
		for _, a := range children(t) {
			r = mentions(a) || r
		}
		has[t] = r
		return r
	}
	var rec func(t, pc *Term) *Term
	rec = func(t, pc *Term) *Term {
		if pc == tFalse || !mentions(t) {
			return nil
		}
		if t.is("baddec") {
			if ok, _ := prove(pc, okDec(t.args[0], t.args[1])); ok {
				return nil
			}
			return t
		}
		k := key{t, pc}
		if done[k] {
			return nil
		}
		done[k] = true
		if t.k == KIte {
			if b := rec(t.args[0], pc); b != nil {
				return b
			}
			c := ite(t.args[0], tTrue, tFalse)
			if b := rec(t.args[1], and(pc, c)); b != nil {
				return b
			}
			return rec(t.args[2], and(pc, not(c)))
		}
		if t.k == KLam {
			return rec(applyLam(t, freshVar("d", nil)), pc)
		}
		if t.k == KApp && len(t.args) > 1 {
			var n *Term
			switch t.op {
			case "mputall", "mdelall":
				n = t.args[1]
			case "gen", "ex", "first", "sum", "prod":
				n = t.args[0]
			}
			if n != nil {
				for _, a := range t.args {
					b := a
					if a.k == KLam {
						b = applyLam(a, freshVar("d", n))
					}
					if r := rec(b, pc); r != nil {
						return r
					}
				}
				return nil
			}
		}
		for _, a := range children(t) {
			if r := rec(a, pc); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t, pc)
}

// instances: what care says of all positions, of v
func instances(care, v *Term) *Term {
	if v.k != KVar || len(v.args) == 0 {
		return care
	}
	for _, a := range support(care) {
		if a.is("ex") && (a.args[0] == v.args[0] || less(v, a.args[0])) {
			care = and(care, imp(asBool(applyLam(a.args[1], v)), ite(a, tTrue, tFalse)))
		}
	}
	return care
}

func (d *decodeUse) obligation(rule, what, pos string, v, pc *Term) {
	if pc == tFalse {
		return
	}
	v = restrict(v, pc)
	b := d.bad18(v, pc)
	if b != nil && os.Getenv("DBG18") != "" {
		fmt.Println("BAD", rule, what, pos, "\n  b", show(b), "\n  v", show(v), "\n  pc", show(pc))
	}
	detail := ""
	if b != nil {
		detail = "depends on a value that could not be decoded: " + clip(show(b))
	}
	d.r.check(b == nil, rule, what, pos, "%s", detail)
	d.n++
}

// entry evaluates one function. survive: a panic leaves the state as it is.
func (d *decodeUse) entry(fn *ssa.Function, label string, survive, raw bool, kind, assume *Term) {
	const rule = "failed decodings are not used"
	defer func() {
		if e := recover(); e != nil {
			d.r.fail(rule, funcName(fn), d.p.pos(fn.Pos()), "the analysis could not be completed: %v", e)
		}
	}()
	p := d.p
	orderOf = map[*Term]*Term{}
	resetAssumptions()
	x := newExec(p)
	if raw {
		delete(x.opaque, utilPkg+".ElGamalSign")
		delete(x.opaque, utilPkg+".ElGamalVerify")
	}
	st := x.newState()
	st.pc = assume
	if kind != nil {
		params := rawApp("sym", str("contents"))
		from := rawApp("sym", str("from"))
		x.opaque[utilPkg+".DecodeEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			e := x.alloc(c.site)
			x.store(st, e, mkStruct("", tNoBase, []string{"EventType", "Params", "SrcAddr"}, []*Term{kind, params, rawApp("addrstr", from)}), "")
			return rawApp("tuple", e, from)
		}
	}
	var args []*Term
	var obj *Term
	for _, v := range fn.Params {
		a := x.symParam(v.Name(), v.Type())
		args = append(args, a)
		if _, ok := v.Type().Underlying().(*types.Pointer); ok && kind != nil {
			obj = a
		}
	}
	type tried struct{ pc, ok *Term }
	var decodes []tried
	x.onDecode = func(st *State, ok *Term) {
		if st.pc != tFalse && ok != tTrue {
			decodes = append(decodes, tried{st.pc, ok})
		}
	}
	// nothing may have failed to decode before
	after := func(what, where, pos string, pc *Term) {
		if pc == tFalse {
			return
		}
		detail := ""
		for _, t := range decodes {
			care := and(pc, t.pc)
			for _, v := range t.ok.fv {
				care = instances(care, v)
			}
			if r, _ := prove(care, t.ok); !r {
				if os.Getenv("DBG18") != "" {
					fmt.Println("AFTER", pos, "\n  pc", show(pc), "\n  at", show(t.pc), "\n  ok", show(t.ok))
				}
				detail = "also where " + clip(show(not(t.ok)))
				break
			}
		}
		d.r.check(detail == "", what, where, pos, "%s", detail)
	}
	sites := map[string]bool{}
	x.watch = func(x *Exec, f *frame, st *State, c *callInfo) {
		if isDecode(c.cc) {
			sites[p.pos(c.pos)] = true
		}
	}
	x.opaque[utilPkg+".SendEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		if !x.mon || st.pc == tFalse {
			return tNil
		}
		k := x.load(st, rawApp("afield", c.args[2], str("EventType")), "")
		pm := x.deep(st, x.mapVal(st, x.load(st, rawApp("afield", c.args[2], str("Params")), "")))
		after("no message after a failed decoding", label, p.pos(c.pos), st.pc)
		d.obligation("a message sent", funcName(f.fn), p.pos(c.pos), rawApp("tuple", k, c.args[1], pm), st.pc)
		return tNil
	}
	state := func(what, pos string, st *State) {
		var keys []*Term
		for k, v := range st.mem {
			if !k.is("alloc") && v != nil {
				keys = append(keys, k)
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		var vs []*Term
		for _, k := range keys {
			vs = append(vs, x.deep(st, st.mem[k]))
		}
		d.obligation(what, label, pos, rawApp("tuple", vs...), st.pc)
	}
	x.onWrite = func(f *frame, st *State, addr *Term, pos string) {
		localLift(addr, func(l, _ *Term) *Term {
			if obj != nil && len(rootField(l, obj)) > 0 {
				after("no change of state after a failed decoding", label, pos, and(st.pc, leafCond(addr, l)))
			}
			return l
		})
	}
	x.onBranch = func(f *frame, st *State, c *Term, pos token.Pos) {
		if !x.mon || isSpec(f.fn) {
			return
		}
		d.obligation("a decision", funcName(f.fn), p.pos(pos), c, st.pc)
	}
	x.onPanic = func(f *frame, st *State, pos token.Pos) {
		if x.mon && survive && st.pc != tFalse {
			state("the state after a panic", p.pos(pos), st)
		}
	}
	x.mon = true
	res := x.run(fn, args, nil, st, "", nil)
	state("the state", p.pos(fn.Pos()), st)
	if fn.Signature.Results().Len() > 0 {
		d.obligation("the result", label, p.pos(fn.Pos()), x.deep(st, res), st.pc)
	}
	for f := range x.funcs {
		if !strings.Contains(f, ".spec") {
			d.r.funcs[f] = true
		}
	}
	for s := range sites {
		d.visited[s] = true
	}
}

func runC18(p *Program, r *Report) {
	const rule = "failed decodings are not used"
	d := &decodeUse{p: p, r: r, visited: map[string]bool{}}
	var kinds []string
	sc := p.pkgs["zRep/proto"].Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.Int {
			kinds = append(kinds, n)
		}
	}
	for _, role := range roles16 {
		h := p.fn(role.pkg, "Handle")
		if h == nil {
			r.fail(rule, role.name, "-", "no Handle")
			continue
		}
		// a client does not survive a panic (C28)
		one := func(label string, kind, assume *Term) {
			d.entry(h, role.name+": "+label, role.name != "client", false, kind, assume)
		}
		other := tTrue
		kv := rawApp("symint", str("kind"))
		for _, n := range kinds {
			if _, ok := role.kinds[n]; ok {
				v, _ := constant.Int64Val(sc.Lookup(n).(*types.Const).Val())
				other = and(other, not(eq(kv, num(v))))
				one(n, num(v), tTrue)
			}
		}
		one("any other kind", kv, other)
	}
	if f := p.fn(utilPkg, "ElGamalVerify"); f != nil {
		d.entry(f, funcName(f), false, true, nil, tTrue)
	}
	// what the handlers do not use
	n := 0
	for _, f := range p.allFuncs() {
		if isSpec(f) || f.Parent() != nil {
			continue
		}
		var sites []string
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && isDecode(c.Common()) {
					sites = append(sites, p.pos(in.Pos()))
				}
			}
		}
		n += len(sites)
		open := false
		for _, s := range sites {
			open = open || !d.visited[s]
		}
		if open {
			d.entry(f, funcName(f), false, true, nil, tTrue)
		}
		for _, s := range sites {
			r.check(d.visited[s], "every decoding evaluated", funcName(f), s, "not reached by the analysis")
		}
	}
	r.analysed["decode sites"] = n
	r.analysed["decisions, messages, results and states"] = d.n
	r.atLeast("every decoding evaluated", 20)
	r.atLeast("a message sent", 20)
	r.atLeast("the state", 4)
}
