package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C37: lock discipline of the three roles' shared state.
//
// A role's state is the struct type with a mutex field that a package-level
// pointer of the role's package points to. Threads are the role's Launch and
// every function it starts with "go". From the first go statement on, every
// access to a field that changes after it, and every use of a map, slice or
// object read from such a field, must happen with the mutex held; the mutex is
// not locked twice, is free again wherever the function that took it returns,
// and where a panic is caught it is released by a deferred call.

func init() {
	checks["C37"] = checkDef{run: runC37, expl: "interprocedural must-lockset analysis over go/ssa: every function reachable from a role's Launch and from the goroutines it starts is analysed per lock state at entry; obligations are the accesses to shared state, the lock operations and the exits of every function"}
}

type lockState int

const (
	lkFree lockState = iota
	lkHeld
	lkMixed
)

type lockCtx struct {
	fn     *ssa.Function
	st     lockState
	cover  bool // a deferred unlock is registered for the held lock
	shared bool // the second thread is running
	caught bool // a caller recovers from panics
	deriv  string
}

type lockRes struct {
	st     lockState
	shared bool
	ret    bool // the result is derived from shared state
}

type lockAn struct {
	p       *Program
	r       *Report
	role    string
	state   *types.Named
	glob    *ssa.Global
	memo    map[lockCtx]lockRes
	active  map[lockCtx]bool
	threads []lockCtx
	mutable map[string]bool
	collect bool
	done    map[string]bool
	calls   int
	gvars   map[*ssa.Global]map[string]bool // written/read per thread
	cells   map[ssa.Value]bool              // local variables that hold shared memory
	thread  string
}

func mutexField(st *types.Struct) int {
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex") {
			return i
		}
	}
	return -1
}

var roles = []string{"coordinator", "server", "client"}

func rolePath(role string) string { return modPath + "/cmd/" + role }

// roleState finds the role's shared state.
func roleState(p *Program, role string) (*types.Named, *ssa.Global) {
	sp := p.pkgs[rolePath(role)]
	if sp == nil {
		return nil, nil
	}
	for _, n := range sortedMembers(sp) {
		g, ok := sp.Members[n].(*ssa.Global)
		if !ok {
			continue
		}
		pt, ok := g.Type().(*types.Pointer).Elem().(*types.Pointer)
		if !ok {
			continue
		}
		nt, ok := pt.Elem().(*types.Named)
		if !ok {
			continue
		}
		if st, ok := nt.Underlying().(*types.Struct); ok && mutexField(st) >= 0 {
			return nt, g
		}
	}
	return nil, nil
}

func runC37(p *Program, r *Report) {
	for _, role := range roles {
		st, g := roleState(p, role)
		if st == nil {
			r.fail("shared-state", role, "-", "no package-level pointer to a state struct with a mutex")
			continue
		}
		r.pass("shared-state", role+": "+st.Obj().Name(), "-")
		a := &lockAn{p: p, r: r, role: role, state: st, glob: g, mutable: map[string]bool{}, done: map[string]bool{}, gvars: map[*ssa.Global]map[string]bool{}}
		a.run()
	}
	r.atLeast("access-under-lock", 80)
	r.atLeast("lock-released", 3)
	r.atLeast("thread", 6)
}

func (a *lockAn) run() {
	launch := a.p.fn(rolePath(a.role), "Launch")
	if launch == nil {
		a.r.fail("thread", a.role, "-", "no Launch function")
		return
	}
	for _, collect := range []bool{true, false} {
		a.collect = collect
		a.memo = map[lockCtx]lockRes{}
		a.active = map[lockCtx]bool{}
		a.threads = nil
		a.cells = map[ssa.Value]bool{}
		a.thread = "main"
		a.root(lockCtx{fn: launch}, launch)
		for i := 0; i < len(a.threads); i++ {
			a.thread = fmt.Sprintf("goroutine %s", funcName(a.threads[i].fn))
			a.root(a.threads[i], launch)
		}
	}
	a.r.pass("thread", a.role+": "+funcName(launch), a.p.pos(launch.Pos()))
	for _, t := range a.threads {
		a.r.pass("thread", a.role+": "+funcName(t.fn), a.p.pos(t.fn.Pos()))
	}
	if len(a.threads) == 0 {
		a.r.fail("thread", a.role, "-", "Launch starts no listener goroutine")
	}
	// the listener must reach the role's message handler
	h := a.p.fn(rolePath(a.role), "Handle")
	seen := false
	for c := range a.memo {
		if c.fn == h && c.shared {
			seen = true
		}
	}
	a.r.check(seen, "thread", a.role+": listener reaches Handle", "-", "the goroutine does not reach Handle")
	var gs []*ssa.Global
	for g := range a.gvars {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	for _, g := range gs {
		u := a.gvars[g]
		ths := map[string]bool{}
		write, both := false, false
		for k := range u {
			if strings.HasPrefix(k, "w ") {
				write = true
			}
			if len(k) > 2 && k[1] == ' ' {
				ths[k[2:]] = true
				// a goroutine other than the listener may run more than once
				if k[2:] != "main" && k[2:] != "goroutine "+funcName(a.threads[0].fn) {
					both = true
				}
			}
		}
		both = both || len(ths) > 1
		ok := !(write && both && u["free"])
		a.r.check(ok, "global-under-lock", a.role+": "+g.RelString(nil), a.p.pos(g.Pos()), "package variable used by both threads, written by one, and accessed without the lock")
	}
}

// root analyses a thread; it must not end with the mutex held.
func (a *lockAn) root(c lockCtx, launch *ssa.Function) {
	res := a.analyse(c)
	if c.fn == launch || a.collect {
		return
	}
	a.r.check(res.st == lkFree, "lock-released", a.role+": "+funcName(c.fn), a.p.pos(c.fn.Pos()), "the thread can end with the mutex %s", stName(res.st))
}

func (a *lockAn) spawn(f *ssa.Function, deriv string) {
	for _, t := range a.threads {
		if t.fn == f && t.deriv == deriv {
			return
		}
	}
	a.threads = append(a.threads, lockCtx{fn: f, shared: true, deriv: deriv})
}

// derivOf: which parameters and captured variables of f reach shared memory
func (a *lockAn) derivOf(f *ssa.Function, args []ssa.Value, closure ssa.Value, der map[ssa.Value]bool) string {
	dv := make([]byte, len(f.Params)+len(f.FreeVars))
	for i := range dv {
		dv[i] = '0'
	}
	for i := range f.Params {
		if i < len(args) && der[args[i]] {
			dv[i] = '1'
		}
	}
	if mc, ok := closure.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
		for i, b := range mc.Bindings {
			if der[b] || a.cells[b] {
				dv[len(f.Params)+i] = '1'
			}
		}
	}
	return string(dv)
}

// localRoot: the local variable an address belongs to
func localRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		case *ssa.Alloc, *ssa.FreeVar:
			return v
		default:
			return nil
		}
	}
}

func (a *lockAn) rep(ok bool, rule, construct string, in ssa.Instruction, f string, args ...interface{}) {
	if a.collect {
		return
	}
	pos := a.p.pos(in.Pos())
	key := rule + "|" + construct + "|" + fmt.Sprintf("%p", in)
	if ok {
		if !a.done[key] {
			a.done[key] = true
			a.r.pass(rule, construct, pos)
		}
		return
	}
	key += "|bad"
	if !a.done[key] {
		a.done[key] = true
		a.r.fail(rule, construct, pos, f+fmt.Sprintf(" [thread %s]", a.thread), args...)
	}
}

func (a *lockAn) isState(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok {
			return n.Obj() == a.state.Obj()
		}
	}
	return false
}

// lockOp: +1 lock, -1 unlock, 0 neither
func (a *lockAn) lockOp(c *ssa.CallCommon) (int, bool) {
	f := c.StaticCallee()
	if f == nil && c.IsInvoke() {
		if c.Method.Pkg() == nil || c.Method.Pkg().Path() != "sync" {
			return 0, false
		}
		return 0, false
	}
	if !isStd(f, "sync") || len(c.Args) == 0 {
		return 0, false
	}
	if !a.isMutex(c.Args[0]) {
		return 0, false
	}
	switch f.Name() {
	case "Lock":
		return 1, true
	case "Unlock":
		return -1, true
	case "RLock":
		return 1, true
	case "RUnlock":
		return -1, true
	}
	return 0, false
}

func (a *lockAn) isMutex(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || !a.isState(fa.X.Type()) {
		return false
	}
	st := a.state.Underlying().(*types.Struct)
	return fa.Field == mutexField(st)
}

var pureMethods = map[string]bool{"String": true, "Equal": true, "MarshalBinary": true, "MarshalSize": true, "MarshalTo": true, "Valid": true, "Data": true, "PickLen": true,
	"Suite": true, "Cmp": true, "Bytes": true, "BitLen": true, "Sign": true, "Int64": true, "Point": true, "Secret": true, "Cipher": true, "Hash": true, "PointLen": true, "SecretLen": true, "Len": true, "IsInt64": true, "Text": true, "Network": true}

// referenceKind: does a value of this type give access to memory that may change
func (a *lockAn) refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			pp := n.Obj().Pkg().Path()
			if pp == "net" || pp == "os" || pp == "bufio" {
				return false
			}
		}
		return true
	case *types.Interface:
		// group elements and scalars are objects that can be changed in place
		if n, ok := t.(*types.Named); ok && (n.Obj().Name() == "Point" || n.Obj().Name() == "Secret") {
			return true
		}
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if a.refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if a.refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isInPlace(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && (n.Obj().Name() == "Point" || n.Obj().Name() == "Secret") && types.IsInterface(t)
}

type lockBlk struct {
	st     lockState
	cover  bool
	shared bool
	defers []*ssa.Defer
	ok     bool
}

func sameDefers(x, y []*ssa.Defer) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func (a *lockAn) analyse(c lockCtx) lockRes {
	if r, ok := a.memo[c]; ok {
		return r
	}
	if a.active[c] {
		return lockRes{st: c.st, shared: c.shared}
	}
	a.active[c] = true
	defer delete(a.active, c)
	f := c.fn
	a.r.funcs[funcName(f)] = true
	// values derived from shared state
	der := map[ssa.Value]bool{}
	for i, prm := range f.Params {
		if i < len(c.deriv) && c.deriv[i] == '1' {
			der[prm] = true
		}
	}
	for i, fv := range f.FreeVars {
		if j := len(f.Params) + i; j < len(c.deriv) && c.deriv[j] == '1' {
			a.cells[fv] = true
		}
	}
	in := map[*ssa.BasicBlock]*lockBlk{}
	start := &lockBlk{st: c.st, cover: c.cover, shared: c.shared, ok: true}
	in[f.Blocks[0]] = start
	res := lockRes{st: -1, shared: c.shared}
	retDer := false
	work := []*ssa.BasicBlock{f.Blocks[0]}
	visits := map[*ssa.BasicBlock]int{}
	caught := c.caught
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		visits[b]++
		if visits[b] > 20 {
			continue
		}
		s := *in[b]
		dead := false
		for _, ins := range b.Instrs {
			if a.instr(c, &s, ins, der, &caught) {
				dead = true
				break
			}
			if ret, ok := ins.(*ssa.Return); ok {
				for _, v := range ret.Results {
					if der[v] && a.refType(v.Type()) {
						retDer = true
					}
				}
				if res.st == -1 {
					res.st = s.st
				} else if res.st != s.st {
					res.st = lkMixed
				}
				if s.shared {
					res.shared = true
				}
			}
		}
		if dead {
			continue
		}
		for _, n := range b.Succs {
			o := in[n]
			if o == nil {
				cp := s
				in[n] = &cp
				work = append(work, n)
				continue
			}
			nw := *o
			if o.st != s.st {
				nw.st = lkMixed
			}
			nw.cover = o.cover && s.cover
			nw.shared = o.shared || s.shared
			if !sameDefers(o.defers, s.defers) {
				if len(s.defers) < len(o.defers) {
					nw.defers = s.defers
				}
			}
			if nw.st != o.st || nw.cover != o.cover || nw.shared != o.shared || !sameDefers(nw.defers, o.defers) {
				in[n] = &nw
				work = append(work, n)
			}
		}
	}
	if res.st == -1 {
		res.st = c.st // never returns
	}
	res.ret = retDer
	a.memo[c] = res
	return res
}

func (a *lockAn) mut(field string) bool { return a.mutable[field] }

// instr interprets one instruction; true means control does not continue.
func (a *lockAn) instr(c lockCtx, s *lockBlk, ins ssa.Instruction, der map[ssa.Value]bool, caught *bool) bool {
	fname := funcName(c.fn)
	free := s.shared && s.st != lkHeld
	use := func(v ssa.Value, what string) {
		if der[v] {
			a.rep(!free, "use-under-lock", fname+": "+what, ins, "memory reached from the shared state is used without the lock")
		}
	}
	switch x := ins.(type) {
	case *ssa.FieldAddr:
		if a.isState(x.X.Type()) {
			st := a.state.Underlying().(*types.Struct)
			if x.Field == mutexField(st) {
				return false
			}
			name := st.Field(x.Field).Name()
			written := false
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					if y.Addr == x {
						written = true
					}
				case *ssa.UnOp:
					if a.refType(y.Type()) {
						for _, u := range *y.Referrers() {
							if a.collect && s.shared && a.changes(y, u) {
								written = true
							}
						}
					}
				case *ssa.DebugRef:
				default:
					written = true
				}
			}
			if a.collect && s.shared && written {
				a.mutable[name] = true
			}
			ft := st.Field(x.Field).Type()
			if a.refType(ft) && !isInPlace(ft) {
				if a.collect && s.shared {
					a.mutable[name] = true
				}
			}
			if !a.collect && s.shared && a.mut(name) {
				a.rep(!free, "access-under-lock", fname+": "+a.state.Obj().Name()+"."+name, ins, "field %s is accessed without holding the mutex", name)
			}
		} else if der[x.X] {
			use(x.X, "field of "+x.X.Name())
			der[x] = true
		}
	case *ssa.Field:
		if der[x.X] && a.refType(x.Type()) {
			der[x] = true
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && a.isState(fa.X.Type()) {
			st := a.state.Underlying().(*types.Struct)
			if a.refType(x.Type()) && (a.mut(st.Field(fa.Field).Name())) {
				der[x] = true
			}
		} else if g, ok := x.X.(*ssa.Global); ok {
			a.global(g, "r", s)
		} else if lr := localRoot(x.X); lr != nil && a.cells[lr] {
			if a.refType(x.Type()) {
				der[x] = true
			}
		} else if der[x.X] {
			use(x.X, "load")
			if a.refType(x.Type()) {
				der[x] = true
			}
		}
	case *ssa.Store:
		if g, ok := x.Addr.(*ssa.Global); ok {
			a.global(g, "w", s)
		}
		if lr := localRoot(x.Addr); lr != nil {
			if der[x.Val] {
				a.cells[lr] = true
			}
		} else if der[x.Addr] {
			use(x.Addr, "store")
		}
	case *ssa.IndexAddr:
		if der[x.X] {
			use(x.X, "element")
			der[x] = true
		}
	case *ssa.Lookup:
		if der[x.X] {
			use(x.X, "map lookup")
			if a.refType(x.Type()) {
				der[x] = true
			}
		}
	case *ssa.MapUpdate:
		use(x.Map, "map update")
	case *ssa.Range:
		if der[x.X] {
			use(x.X, "iteration")
			der[x] = true
		}
	case *ssa.Next:
		if der[x.Iter] {
			use(x.Iter, "iteration")
			der[x] = true
		}
	case *ssa.Extract:
		if der[x.Tuple] && a.refType(x.Type()) {
			der[x] = true
		}
	case *ssa.Slice:
		if der[x.X] {
			der[x] = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if der[e] {
				der[x] = true
			}
		}
	case *ssa.MakeInterface:
		if der[x.X] {
			der[x] = true
		}
	case *ssa.ChangeType:
		if der[x.X] {
			der[x] = true
		}
	case *ssa.TypeAssert:
		if der[x.X] && a.refType(x.AssertedType) {
			der[x] = true
		}
		if !x.CommaOk {
			a.mayPanic(c, s, ins, *caught, "type assertion")
		}
	case *ssa.Panic:
		a.mayPanic(c, s, ins, *caught, "panic")
		return true
	case *ssa.Go:
		for _, f := range a.p.callees(&x.Call) {
			if f.Blocks != nil {
				args := x.Call.Args
				if x.Call.IsInvoke() {
					args = append([]ssa.Value{x.Call.Value}, args...)
				}
				a.spawn(f, a.derivOf(f, args, x.Call.Value, der))
			}
		}
		s.shared = true
	case *ssa.Defer:
		nd := append([]*ssa.Defer{}, s.defers...)
		s.defers = append(nd, x)
		if op, ok := a.lockOp(&x.Call); ok && op < 0 && s.st == lkHeld {
			s.cover = true
		}
		for _, f := range a.p.callees(&x.Call) {
			if f.Blocks == nil {
				continue
			}
			if recovers(f) {
				*caught = true
			}
			if s.st == lkHeld && a.analyse(lockCtx{fn: f, st: lkHeld, shared: s.shared, deriv: a.derivOf(f, x.Call.Args, x.Call.Value, der)}).st == lkFree {
				s.cover = true
			}
		}
	case *ssa.RunDefers:
		for i := len(s.defers) - 1; i >= 0; i-- {
			a.call(c, s, ins, &s.defers[i].Call, der, caught, nil)
		}
		s.defers = nil
	case *ssa.Call:
		return a.call(c, s, ins, &x.Call, der, caught, x)
	}
	return false
}

func stName(s lockState) string { return []string{"free", "held", "held on some paths only"}[s] }

func (a *lockAn) global(g *ssa.Global, how string, s *lockBlk) {
	if g == a.glob || !s.shared || a.collect {
		return
	}
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) || strings.HasPrefix(g.Name(), "init$") {
		return
	}
	u := a.gvars[g]
	if u == nil {
		u = map[string]bool{}
		a.gvars[g] = u
	}
	u[how+" "+a.thread] = true
	if s.st != lkHeld {
		u["free"] = true
	}
}

// changes: does this use of a value read from a field change what the field holds
func (a *lockAn) changes(v ssa.Value, u ssa.Instruction) bool {
	switch y := u.(type) {
	case *ssa.MapUpdate:
		return y.Map == v
	case ssa.CallInstruction:
		cc := y.Common()
		if cc.IsInvoke() && cc.Value == v {
			return !pureMethods[cc.Method.Name()]
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			return true
		}
	case *ssa.FieldAddr:
		for _, r := range *y.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == y {
				return true
			}
		}
	case *ssa.IndexAddr:
		for _, r := range *y.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == y {
				return true
			}
		}
	}
	return false
}

func (a *lockAn) mayPanic(c lockCtx, s *lockBlk, ins ssa.Instruction, caught bool, what string) {
	if !caught || s.st == lkFree {
		return
	}
	a.rep(s.cover, "released-on-panic", funcName(c.fn)+": "+what, ins, "a panic here is recovered by a caller while the mutex stays locked")
}

func (a *lockAn) call(c lockCtx, s *lockBlk, ins ssa.Instruction, cc *ssa.CallCommon, der map[ssa.Value]bool, caught *bool, val ssa.Value) bool {
	fname := funcName(c.fn)
	if op, ok := a.lockOp(cc); ok {
		if op > 0 {
			a.rep(s.st == lkFree, "lock-order", fname+": Lock", ins, "Lock while the mutex is %s", stName(s.st))
			s.st = lkHeld
			s.cover = false
		} else {
			a.rep(s.st == lkHeld, "lock-order", fname+": Unlock", ins, "Unlock while the mutex is %s", stName(s.st))
			s.st = lkFree
			s.cover = false
		}
		return false
	}
	free := s.shared && s.st != lkHeld
	// values handed to code without a body
	fs := a.p.callees(cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "append", "copy":
			for _, v := range cc.Args {
				if der[v] {
					a.rep(!free, "use-under-lock", fname+": "+b.Name(), ins, "memory reached from the shared state is used without the lock")
				}
			}
			if b.Name() == "append" && val != nil {
				for _, v := range cc.Args {
					if der[v] {
						der[val] = true
					}
				}
			}
		}
		return false
	}
	body := false
	for _, f := range fs {
		if f.Blocks != nil {
			body = true
		}
	}
	if !body {
		f := cc.StaticCallee()
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for _, v := range args {
			if der[v] && a.refType(v.Type()) {
				a.rep(!free, "use-under-lock", fname+": argument of "+callName(cc), ins, "memory reached from the shared state is used without the lock")
			}
		}
		for _, g := range callbacks(cc) {
			dv := a.derivOf(g.fn, nil, g.closure, der)
			if g.async {
				a.spawn(g.fn, dv)
				s.shared = true
				continue
			}
			res := a.analyse(lockCtx{fn: g.fn, st: s.st, cover: s.cover, shared: s.shared, caught: *caught, deriv: dv})
			if res.st != s.st {
				s.st = lkMixed
			}
			s.shared = s.shared || res.shared
		}
		if val != nil && cc.IsInvoke() && der[cc.Value] && a.refType(val.Type()) {
			der[val] = true
		}
		switch {
		case isStd(f, "os", "Exit"), isStd(f, "log", "Fatal", "Fatalf", "Fatalln"), isStd(f, "runtime", "Goexit"):
			return true
		}
		if !isStd(f, "fmt") && !isStd(f, "sync") && !isStd(f, "time") {
			a.mayPanic(c, s, ins, *caught, "call of "+callName(cc))
		}
		return false
	}
	entry := *s
	first := true
	for _, f := range fs {
		if f.Blocks == nil {
			continue
		}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		res := a.analyse(lockCtx{fn: f, st: entry.st, cover: entry.cover, shared: entry.shared, caught: *caught, deriv: a.derivOf(f, args, cc.Value, der)})
		// a closure may use what its creator captured
		if res.ret && val != nil {
			der[val] = true
		}
		if first {
			s.st = res.st
		} else if s.st != res.st {
			s.st = lkMixed
		}
		if res.st != entry.st {
			s.cover = false
		}
		if res.shared {
			s.shared = true
		}
		first = false
	}
	return false
}

func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	return cc.Value.Name()
}

// recovers: does a deferred function stop a panic
func recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

type callback struct {
	fn      *ssa.Function
	closure ssa.Value
	async   bool
}

// callbacks: functions of the program handed to code without a body
func callbacks(cc *ssa.CallCommon) []callback {
	var r []callback
	f := cc.StaticCallee()
	async := isStd(f, "time") || isStd(f, "net/http") || isStd(f, "context")
	var find func(v ssa.Value, d int)
	find = func(v ssa.Value, d int) {
		if d > 6 {
			return
		}
		switch x := v.(type) {
		case *ssa.MakeClosure:
			r = append(r, callback{x.Fn.(*ssa.Function), x, async})
		case *ssa.Function:
			if x.Blocks != nil {
				r = append(r, callback{x, x, async})
			}
		case *ssa.MakeInterface:
			find(x.X, d+1)
		case *ssa.ChangeType:
			find(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				find(e, d+1)
			}
		}
	}
	for _, v := range cc.Args {
		find(v, 0)
	}
	return r
}
