package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C38: no message ends the coordinator or a server.
//
//	listener-recovers  the listener reaches the message handler only inside a
//	                   frame that has already deferred an unconditional recover,
//	                   and that frame is called from a loop of an outer frame
//	no-uncaught-panic  outside such frames the listener cannot panic, except on
//	                   a failure of accepting connections
//	no-exit            nothing reachable from the listener ends the process
//	send-failure       a failure to reach a peer leads to no panic or exit
func init() {
	checks["C38"] = checkDef{run: runC38, expl: "exit/panic reachability over the call graph of the listener threads with a caught/uncaught context per frame, and an error-edge analysis of every network send"}
}

func isExit(f *ssa.Function) bool {
	return isStd(f, "os", "Exit") || isStd(f, "log", "Fatal", "Fatalf", "Fatalln") || isStd(f, "syscall", "Exit", "Kill") || isStd(f, "runtime", "Goexit")
}

func isExitCall(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if isExit(f) {
		return true
	}
	o := f.Object()
	if o != nil && o.Pkg() != nil && o.Pkg().Path() == "log" && strings.HasPrefix(o.Name(), "Fatal") {
		return true
	}
	return false
}

func runC38(p *Program, r *Report) {
	for _, role := range []string{"coordinator", "server"} {
		launch := p.fn(rolePath(role), "Launch")
		h := p.fn(rolePath(role), "Handle")
		if launch == nil || h == nil {
			r.fail("listener-recovers", role, "-", "no Launch or Handle function")
			continue
		}
		roots := map[*ssa.Function]bool{}
		var list []*ssa.Function
		for _, f := range p.reach(launch) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						for _, t := range p.callees(&g.Call) {
							if t.Blocks != nil && !roots[t] {
								roots[t] = true
								list = append(list, t)
							}
						}
					}
				}
			}
		}
		found := false
		for i := 0; i < len(list); i++ {
			w := &exitWalk{p: p, r: r, role: role, handle: h, memo: map[exitCtx]bool{}}
			w.walk(exitCtx{fn: list[i]})
			if w.reached {
				found = true
			}
			for _, t := range w.spawned {
				if !roots[t] {
					roots[t] = true
					list = append(list, t)
				}
			}
			for _, f := range p.reach(list[i]) {
				r.funcs[funcName(f)] = true
				bad := false
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok && isExitCall(c.Common()) {
							bad = true
							r.fail("no-exit", role+": "+funcName(f), p.pos(in.Pos()), "%s is reachable from the listener %s", callName(c.Common()), funcName(list[i]))
						}
					}
				}
				if !bad {
					r.pass("no-exit", role+": "+funcName(f), p.pos(f.Pos()))
				}
			}
		}
		r.check(found, "listener-recovers", role+": the listener reaches Handle", p.pos(h.Pos()), "no goroutine started by Launch reaches Handle")
	}
	// network failures
	ea := &errAn{p: p, memo: map[string]bool{}}
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !isNetSend(&c.Call) {
					continue
				}
				r.funcs[funcName(f)] = true
				errv := errResult(c)
				if errv == nil {
					r.pass("send-failure", funcName(f)+": "+callName(&c.Call), p.pos(in.Pos()))
					continue
				}
				why := ea.stops(f, errv)
				r.check(why == "", "send-failure", funcName(f)+": "+callName(&c.Call), p.pos(in.Pos()), "a failure to reach the peer leads to %s", why)
			}
		}
	}
	r.atLeast("send-failure", 2)
	r.atLeast("listener-recovers", 4)
	r.atLeast("no-exit", 40)
}

func (p *Program) reach(root *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{root: true}
	list := []*ssa.Function{root}
	for i := 0; i < len(list); i++ {
		for _, b := range list[i].Blocks {
			for _, in := range b.Instrs {
				var cs []*ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); !isGo {
						cs = p.callees(c.Common())
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					cs = append(cs, mc.Fn.(*ssa.Function))
				}
				for _, f := range cs {
					if f.Blocks != nil && !seen[f] {
						seen[f] = true
						list = append(list, f)
					}
				}
			}
		}
	}
	return list
}

type exitCtx struct {
	fn     *ssa.Function
	caught bool
	loop   bool // some outer frame called this one from a loop
	exempt bool
}

type exitWalk struct {
	p       *Program
	r       *Report
	role    string
	handle  *ssa.Function
	memo    map[exitCtx]bool
	reached bool
	spawned []*ssa.Function
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// soundRecover: the deferred function recovers on every path and does not panic or exit itself
func (w *exitWalk) soundRecover(f *ssa.Function) bool {
	if !recovers(f) {
		return false
	}
	var rec *ssa.BasicBlock
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				return false
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					if rec == nil || b.Dominates(rec) {
						rec = b
					}
				}
				if isExitCall(&x.Call) {
					return false
				}
				for _, g := range w.p.callees(&x.Call) {
					if g.Blocks == nil {
						continue
					}
					for _, h := range w.p.reach(g) {
						for _, bb := range h.Blocks {
							for _, i2 := range bb.Instrs {
								if _, ok := i2.(*ssa.Panic); ok {
									return false
								}
								if c2, ok := i2.(*ssa.Call); ok && isExitCall(&c2.Call) {
									return false
								}
							}
						}
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !rec.Dominates(b) {
			return false
		}
	}
	return true
}

func fromAccept(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	c, ok := e.Tuple.(*ssa.Call)
	return ok && strings.HasPrefix(callName(&c.Call), "Accept")
}

func (w *exitWalk) walk(c exitCtx) {
	if w.memo[c] {
		return
	}
	w.memo[c] = true
	f := c.fn
	if f == w.handle {
		w.reached = true
		w.r.check(c.caught, "listener-recovers", w.role+": Handle runs inside a recovering frame", w.p.pos(f.Pos()), "a panic in the message handler ends the process")
		if c.caught {
			w.r.check(c.loop, "listener-recovers", w.role+": serving continues after a recovery", w.p.pos(f.Pos()), "the frame that recovers is not called from a loop, so the listener ends with the first bad message")
		}
	}
	// a defer protects everything it dominates
	var guards []*ssa.Defer
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				for _, g := range w.p.callees(&d.Call) {
					if g.Blocks != nil && w.soundRecover(g) {
						guards = append(guards, d)
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for k, in := range b.Instrs {
			caught := c.caught
			for _, g := range guards {
				gb := g.Block()
				if gb == b {
					for _, e := range b.Instrs[:k] {
						if e == ssa.Instruction(g) {
							caught = true
						}
					}
				} else if gb.Dominates(b) {
					caught = true
				}
			}
			name := w.role + ": " + funcName(f)
			switch x := in.(type) {
			case *ssa.Panic:
				if !caught && !c.exempt {
					w.r.fail("no-uncaught-panic", name, w.p.pos(in.Pos()), "panic outside any recovering frame of the listener")
				}
			case *ssa.TypeAssert:
				if !caught && !x.CommaOk && !c.exempt {
					w.r.fail("no-uncaught-panic", name, w.p.pos(in.Pos()), "type assertion outside any recovering frame of the listener")
				}
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok && !caught && !c.exempt {
					w.r.fail("no-uncaught-panic", name, w.p.pos(in.Pos()), "indexing outside any recovering frame of the listener")
				}
			case *ssa.Go:
				for _, g := range w.p.callees(&x.Call) {
					if g.Blocks != nil {
						w.spawned = append(w.spawned, g)
					}
				}
			case *ssa.Call, *ssa.Defer:
				cc := x.(ssa.CallInstruction).Common()
				ex := c.exempt
				for _, a := range cc.Args {
					if fromAccept(a) {
						ex = true
					}
				}
				if cc.IsInvoke() && fromAccept(cc.Value) {
					ex = true
				}
				for _, cb := range callbacks(cc) {
					body := false
					for _, g := range w.p.callees(cc) {
						body = body || g.Blocks != nil
					}
					if body {
						continue
					}
					if cb.async {
						w.spawned = append(w.spawned, cb.fn)
					} else {
						w.walk(exitCtx{fn: cb.fn, caught: caught, loop: c.loop || (!caught && inLoop(b)), exempt: ex})
					}
				}
				for _, g := range w.p.callees(cc) {
					if g.Blocks == nil {
						continue
					}
					// once caught, an outer loop keeps the listener going
					w.walk(exitCtx{fn: g, caught: caught, loop: c.loop || (!caught && inLoop(b)), exempt: ex && g != w.handle})
				}
			}
		}
	}
	if !c.caught {
		w.r.pass("no-uncaught-panic", w.role+": "+funcName(f), w.p.pos(f.Pos()))
	}
}

func isNetSend(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	name := ""
	pkg := ""
	if f != nil && f.Object() != nil && f.Object().Pkg() != nil {
		name, pkg = f.Object().Name(), f.Object().Pkg().Path()
	} else if c.IsInvoke() && c.Method.Pkg() != nil {
		name, pkg = c.Method.Name(), c.Method.Pkg().Path()
	}
	return pkg == "net" && (strings.HasPrefix(name, "Dial") || name == "Write")
}

func errResult(c *ssa.Call) ssa.Value {
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	if isErr(c.Type()) {
		return c
	}
	for _, ref := range *c.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && isErr(e.Type()) {
			return e
		}
	}
	return nil
}

// errAn: what happens where an error value is known to be non-nil
type errAn struct {
	p    *Program
	memo map[string]bool
}

// aliases of the error: phis and interfaces it flows into
func aliases(v ssa.Value) map[ssa.Value]bool {
	s := map[ssa.Value]bool{v: true}
	work := []ssa.Value{v}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x.Referrers() == nil {
			continue
		}
		for _, ref := range *x.Referrers() {
			var y ssa.Value
			switch z := ref.(type) {
			case *ssa.Phi:
				y = z
			case *ssa.ChangeInterface:
				y = z
			case *ssa.MakeInterface:
				y = z
			}
			if y != nil && !s[y] {
				s[y] = true
				work = append(work, y)
			}
		}
	}
	return s
}

func (e *errAn) stops(f *ssa.Function, v ssa.Value) string {
	as := aliases(v)
	for a := range as {
		if a.Referrers() == nil {
			continue
		}
		for _, ref := range *a.Referrers() {
			switch x := ref.(type) {
			case *ssa.BinOp:
				var c *ssa.Const
				if k, ok := x.Y.(*ssa.Const); ok {
					c = k
				} else if k, ok := x.X.(*ssa.Const); ok {
					c = k
				}
				if c == nil || c.Value != nil || (x.Op != token.NEQ && x.Op != token.EQL) {
					continue
				}
				for _, u := range *x.Referrers() {
					i, ok := u.(*ssa.If)
					if !ok {
						continue
					}
					side := 0
					if x.Op == token.EQL {
						side = 1
					}
					if w := e.blockStops(f, i.Block().Succs[side], i.Block(), as); w != "" {
						return w
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				for _, g := range e.p.callees(cc) {
					if g.Blocks == nil {
						continue
					}
					for k, arg := range cc.Args {
						if arg == a && k < len(g.Params) {
							key := fmt.Sprintf("%p/%d", g, k)
							if e.memo[key] {
								continue
							}
							e.memo[key] = true
							w := e.stops(g, g.Params[k])
							delete(e.memo, key)
							if w != "" {
								return w
							}
						}
					}
				}
			case *ssa.Return:
				// the caller sees the error
				for k, res := range x.Results {
					if res != a {
						continue
					}
					for _, cl := range e.callersOf(f) {
						var rv ssa.Value = cl
						if len(x.Results) > 1 {
							rv = nil
							for _, rr := range *cl.Referrers() {
								if ex, ok := rr.(*ssa.Extract); ok && ex.Index == k {
									rv = ex
								}
							}
						}
						if rv == nil {
							continue
						}
						key := fmt.Sprintf("%p/ret%d", cl, k)
						if e.memo[key] {
							continue
						}
						e.memo[key] = true
						w := e.stops(cl.Parent(), rv)
						delete(e.memo, key)
						if w != "" {
							return w
						}
					}
				}
			}
		}
	}
	return ""
}

func (e *errAn) callersOf(f *ssa.Function) []*ssa.Call {
	var r []*ssa.Call
	for _, g := range e.p.allFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					for _, t := range e.p.callees(&c.Call) {
						if t == f {
							r = append(r, c)
						}
					}
				}
			}
		}
	}
	return r
}

// blockStops: does control that enters blk from from (the error is non-nil) panic or exit before it joins other paths
func (e *errAn) blockStops(f *ssa.Function, blk, from *ssa.BasicBlock, as map[ssa.Value]bool) string {
	if len(blk.Preds) > 1 {
		return ""
	}
	var rec func(b *ssa.BasicBlock) string
	rec = func(b *ssa.BasicBlock) string {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				return "the panic at " + e.p.pos(in.Pos())
			case ssa.CallInstruction:
				cc := x.Common()
				if isExitCall(cc) {
					return callName(cc) + " at " + e.p.pos(in.Pos())
				}
				if isStd(cc.StaticCallee(), "log", "Panic", "Panicf", "Panicln") {
					return callName(cc) + " at " + e.p.pos(in.Pos())
				}
				for _, g := range e.p.callees(cc) {
					if g.Blocks != nil && alwaysStops(e.p, g, 0) {
						return "the call of " + funcName(g) + " at " + e.p.pos(in.Pos())
					}
				}
			}
		}
		for _, d := range b.Dominees() {
			if w := rec(d); w != "" {
				return w
			}
		}
		return ""
	}
	return rec(blk)
}

// alwaysStops: no path of f returns
func alwaysStops(p *Program, f *ssa.Function, depth int) bool {
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		// is the return block behind a call that never returns?
		behind := false
		for _, o := range f.Blocks {
			if !o.Dominates(b) {
				continue
			}
			for _, in := range o.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if isExitCall(&c.Call) {
						behind = true
					}
					if depth < 4 {
						if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil && g != f && alwaysStops(p, g, depth+1) {
							behind = true
						}
					}
				}
			}
		}
		if !behind {
			return false
		}
	}
	return true
}
