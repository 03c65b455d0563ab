package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The analysis assigns to every SSA value the term it denotes and to every
// memory location the term it holds, for all inputs at once: at joins values
// are merged into decision diagrams over uninterpreted conditions, calls are
// analysed in place, and loops are replaced by the closed form of their
// recurrences (loop.go).

type State struct {
	pc  *Term
	mem map[*Term]*Term
	old map[*Term]*Term // mem at the last step (see step monitors); not changed
}

func (s *State) clone() *State {
	m := make(map[*Term]*Term, len(s.mem)+8)
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{s.pc, m, s.old}
}

// lookup: map m was read at key k (any key if nil) under pc
type lookup struct{ m, k, pc *Term }

type opaqueFn func(x *Exec, f *frame, st *State, c *callInfo) *Term

type Exec struct {
	nextCC *ssa.CallCommon // the call the next run is of
	p            *Program
	opaque       map[string]opaqueFn // functions of the repository that are left uninterpreted
	typed        bool                // values that became interface{} carry their type
	funcs        map[string]bool
	depth        int
	lv           []*Term // indices of the enclosing loops
	globals      map[*ssa.Global]*Term
	inits        map[*ssa.Package]*State
	steps        int
	notes        map[string]bool
	imprec       map[string]bool
	onLock       func(x *Exec, f *frame, st *State, ref *Term, lock bool)
	loopInfo     map[*ssa.Function]*loopForest
	allInit      bool
	draws        map[*Term]string // rnd term -> position
	recs         map[string]*callRec
	kinds        map[*Term]string // cell -> kind of element it holds
	watch        func(x *Exec, f *frame, st *State, c *callInfo)
	mon          bool // the state is one that can occur: writes are checked
	monitors     []*monitor
	marks        []*Term
	bounds       *[]bound             // positions of lists that are used, if they are to be in range
	lookups      []lookup             // reads of maps by the analysed code
	itypes       map[*Term]types.Type // pointers that became interfaces
	monObl       []monObl
	onAssert     func(st *State, v *Term, pos string)
	onBranch     func(f *frame, st *State, c *Term, pos token.Pos)
	onDecode     func(st *State, ok *Term)
	onPanic      func(f *frame, st *State, pos token.Pos)
	recovers     bool // recover yields something
	onPanicValue func(f *frame, st *State, v *Term, pos token.Pos)
	onWrite      func(f *frame, st *State, addr *Term, pos string)
}

type callRec struct {
	pos string
}

func newExec(p *Program) *Exec {
	x := &Exec{p: p, opaque: map[string]opaqueFn{}, funcs: map[string]bool{}, globals: map[*ssa.Global]*Term{}, inits: map[*ssa.Package]*State{},
		notes: map[string]bool{}, imprec: map[string]bool{}, loopInfo: map[*ssa.Function]*loopForest{}, draws: map[*Term]string{}, kinds: map[*Term]string{}, itypes: map[*Term]types.Type{}}
	if x.p.fn(shufPkg, "specOrder") != nil {
		x.transcriptMode()
	}
	if p.fn(utilPkg, "specSend") != nil {
		x.protocolMode()
	}
	x.drawMode()
	return x
}

type deferred struct {
	pc   *Term
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	site string
	pos  token.Pos
}

type frame struct {
	x      *Exec
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	cs     string
	defers []deferred
	rets   []retEdge
	parent *frame
	cc     *ssa.CallCommon // the call this frame runs, where its arguments are the parameters in order
}

type retEdge struct {
	st  *State
	val *Term
}

type edge struct {
	from, to *ssa.BasicBlock
	idx      int // which successor of from
	st       *State
}

func (x *Exec) newState() *State { return &State{pc: tTrue, mem: map[*Term]*Term{}} }

// ---------------------------------------------------------------------------
// references

func localLift(t *Term, f func(leaf, cond *Term) *Term) *Term {
	if t.k != KIte {
		return f(t, tTrue)
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.k != KIte {
			if r, ok := memo[t]; ok {
				return r
			}
			r := f(t, tTrue)
			memo[t] = r
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := ite(mkIteRaw(t.args[0], tTrue, tFalse), rec(t.args[1]), rec(t.args[2]))
		memo[t] = r
		return r
	}
	return rec(t)
}

// leafCond lists the leaves of t with the condition under which each is taken
func leafConds(t *Term) map[*Term]*Term {
	r := map[*Term]*Term{}
	for _, l := range leaves(t) {
		r[l] = leafCond(t, l)
	}
	return r
}

func leafCond(t, l *Term) *Term {
	return liftN(fmt.Sprintf("isleaf:%d", l.id), func(a []*Term) *Term { return boolc(a[0] == l) }, t)
}

func ieq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.k == KFormal || b.k == KFormal || a.k == KIte || b.k == KIte {
		if a.k == KIte || b.k == KIte {
			return liftN("ieq", func(x []*Term) *Term { return ieq(x[0], x[1]) }, a, b)
		}
		return asBool(orient("ieq", a, b))
	}
	return eq(a, b)
}

// fam splits a reference into its memory family and the indices within it
func fam(ref *Term) (*Term, []*Term) {
	var idx []*Term
	var rec func(t *Term) *Term
	f := func(i *Term) *Term {
		idx = append(idx, i)
		return formal(len(idx) - 1)
	}
	rec = func(t *Term) *Term {
		if t.k != KApp {
			return t
		}
		switch t.op {
		case "alloc":
			args := []*Term{t.args[0]}
			for _, a := range t.args[1:] {
				args = append(args, f(a))
			}
			return rawApp("alloc", args...)
		case "elem", "mget":
			b := rec(t.args[0])
			return rawApp(t.op, b, f(t.args[1]))
		case "fld":
			return rawApp("fld", rec(t.args[0]), t.args[1])
		}
		return t
	}
	k := rec(ref)
	return k, idx
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

const absPkg = "github.com/dedis/crypto/abstract"
const nistPkg = "github.com/dedis/crypto/nist"

// ifaceKind: "point", "secret", ... for the crypto library's types
func objKind(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	// an interface declared as another one (pedersen.Commitment)
	if n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case absPkg + ".Point":
			return "point"
		case absPkg + ".Secret":
			return "secret"
		case nistPkg + ".Int":
			return "secret"
		case "math/big.Int":
			return "big"
		}
		if it, ok := n.Underlying().(*types.Interface); ok {
			if absIface(it, "MarshalSize", "UnmarshalFrom", "Base", "Null") {
				return "point"
			}
			if absIface(it, "MarshalSize", "UnmarshalFrom", "One", "SetInt64") {
				return "secret"
			}
		}
	}
	return ""
}

func absIface(it *types.Interface, names ...string) bool {
	have := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		have[it.Method(i).Name()] = true
	}
	for _, n := range names {
		if !have[n] {
			return false
		}
	}
	return true
}

// dflt is what an object of unknown history holds
func dflt(ref *Term, kind string) *Term {
	switch kind {
	case "point":
		return grpAtom(ref)
	case "secret":
		return secVal(ref)
	}
	return ref
}

func secVal(ref *Term) *Term {
	return liftN("secval", func(a []*Term) *Term {
		r := a[0]
		if isNumeric(r) || r == tUnset || r == tUndef || r == tNil || r.k == KGrp {
			return r
		}
		return rawApp("secval", r)
	}, ref)
}

func (x *Exec) loadLeaf(st *State, ref *Term, kind string) *Term {
	switch {
	case ref == tNil || ref == tDead:
		return tDead
	case ref == tUndef:
		return tUndef
	case ref.is("afield"):
		return x.loadField(st, ref.args[0], ref.args[1].op)
	case ref.is("aindex"):
		return elem(x.load(st, ref.args[0], ""), ref.args[1])
	case ref.is("slice"):
		return x.listVal(st, ref)
	}
	key, idx := fam(ref)
	c, ok := st.mem[key]
	if !ok {
		if ref.is("global") {
			return x.globalInit(st, ref)
		}
		if key.is("alloc") {
			return tUndef
		}
		return dflt(ref, kind)
	}
	if len(idx) == 0 {
		return c
	}
	m := map[*Term]*Term{}
	for i, t := range idx {
		m[formal(i)] = t
	}
	return subst(c, m)
}

func (x *Exec) loadField(st *State, ref *Term, f string) *Term {
	return mkField(x.load(st, ref, ""), f)
}

func (x *Exec) load(st *State, ref *Term, kind string) *Term {
	return restrictPC(localLift(ref, func(l, _ *Term) *Term { return x.loadLeaf(st, l, kind) }), st.pc)
}

func restrictPC(t, pc *Term) *Term {
	if t.k != KIte && t.k != KStruct {
		return t
	}
	r := restrict(t, pc)
	return r
}

func (x *Exec) store(st *State, ref, v *Term, kind string) {
	lc := leafConds(ref)
	var ls []*Term
	for l := range lc {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		c := lc[l]
		if and(c, st.pc) == tFalse {
			continue
		}
		x.storeLeaf(st, l, v, c, kind)
	}
}

func (x *Exec) storeLeaf(st *State, ref, v, c *Term, kind string) {
	switch {
	case ref == tNil || ref == tDead || ref == tUndef:
		return
	case ref.is("afield"):
		old := x.load(st, ref.args[0], "")
		nv := setField(old, ref.args[1].op, ite(c, v, mkField(old, ref.args[1].op)))
		x.store(st, ref.args[0], nv, "")
		return
	case ref.is("aindex"):
		old := x.load(st, ref.args[0], "")
		nv := lupdB(old, ref.args[1], v)
		x.store(st, ref.args[0], ite(c, nv, old), "")
		return
	}
	key, idx := fam(ref)
	if !isLocation(key) {
		// a byte slice known only by its content: what it holds from now on is
		// unknown
		v = rawApp("opaque", str("written"), key, v)
	}
	if kind != "" {
		x.kinds[key] = kind
	}
	old, ok := st.mem[key]
	if !ok {
		if ref.is("global") {
			old = x.globalInit(st, ref)
		} else if key.is("alloc") {
			old = tUndef
		} else {
			old = dflt(key, kind)
		}
	}
	cond := c
	for i, t := range idx {
		cond = and(cond, ieq(formal(i), t))
	}
	st.mem[key] = ite(cond, v, old)
}

// isLocation: the term names a place, not a content
func isLocation(t *Term) bool {
	if t.k == KVar {
		return true
	}
	if t.k != KApp {
		return false
	}
	switch t.op {
	case "alloc", "global", "sym", "fld", "mget", "elem", "opaque", "root", "getparam":
		return true
	}
	return false
}

// lupdB: an element of a list or a byte of a byte array is replaced
func lupdB(l, i, v *Term) *Term {
	return lupd(l, i, v)
}

// listVal: the current elements of a slice
func (x *Exec) listVal(st *State, s *Term) *Term {
	return localLift(s, func(l, _ *Term) *Term {
		if l.is("slice") {
			return lsub(x.load(st, l.args[0], ""), l.args[1], l.args[2])
		}
		if l == tNil {
			return mkLit(nil)
		}
		key, _ := fam(l)
		if _, ok := st.mem[key]; ok {
			return x.loadLeaf(st, l, "")
		}
		return l
	})
}

// bytesVal: the current content of a byte slice
func (x *Exec) bytesVal(st *State, s *Term) *Term {
	r := x.listVal(st, s)
	return localLift(r, func(l, _ *Term) *Term { return toBytes(l) })
}

func toBytes(l *Term) *Term {
	if l.is("lit") {
		var parts []*Term
		for _, a := range l.args {
			parts = append(parts, liftN("byteseg", func(a []*Term) *Term {
				if a[0].k == KNum && a[0].n.IsInt64() {
					return str(string([]byte{byte(a[0].n.Int64())}))
				}
				if a[0].is("byteof") {
					return a[0]
				}
				return rawApp("byteval", a[0])
			}, a))
		}
		return bcat(parts...)
	}
	if l.is("lcat") {
		var parts []*Term
		for _, a := range l.args {
			parts = append(parts, toBytes(a))
		}
		return bcat(parts...)
	}
	if l == tNil {
		return str("")
	}
	return l
}

type bound struct {
	pc, in *Term
	pos    token.Pos
}

func (x *Exec) sliceLen(st *State, s *Term) *Term {
	return localLift(s, func(l, _ *Term) *Term {
		if l.is("slice") {
			return l.args[2]
		}
		return llen(l)
	})
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return str("")
		case u.Info()&(types.IsInteger) != 0:
			return num(0)
		case u.Info()&(types.IsFloat) != 0:
			return num(0)
		}
		return tNil
	case *types.Struct:
		switch objKind(t) {
		case "big":
			return num(0)
		case "secret":
			return tUnset
		}
		if isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Builder") {
			return str("")
		}
		if isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") || isNamed(t, "sync", "WaitGroup") || isNamed(t, "sync", "Once") {
			return cst("mutex")
		}
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, u.Field(i).Name())
			vals = append(vals, zeroOf(u.Field(i).Type()))
		}
		return mkStruct("", tNoBase, names, vals)
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return zerosOf(num(u.Len()))
		}
		z := zeroOf(u.Elem())
		y := freshVar("i", nil)
		return mkGen(num(u.Len()), y, z)
	case *types.Tuple:
		var vs []*Term
		for i := 0; i < u.Len(); i++ {
			vs = append(vs, zeroOf(u.At(i).Type()))
		}
		return rawApp("tuple", vs...)
	}
	return tNil
}

func zerosOf(n *Term) *Term {
	return liftN("zeros", func(a []*Term) *Term {
		if a[0].k == KNum && a[0].n.IsInt64() && a[0].n.Int64() <= 64 && a[0].n.Sign() >= 0 {
			var xs []*Term
			for i := int64(0); i < a[0].n.Int64(); i++ {
				xs = append(xs, num(0))
			}
			return mkLit(xs)
		}
		return rawApp("zeros", a[0])
	}, n)
}

// ---------------------------------------------------------------------------
// globals

func (x *Exec) globalRef(g *ssa.Global) *Term {
	if t, ok := x.globals[g]; ok {
		return t
	}
	t := rawApp("global", str(g.RelString(nil)))
	x.globals[g] = t
	return t
}

func (x *Exec) globalOf(ref *Term) *ssa.Global {
	for g, t := range x.globals {
		if t == ref {
			return g
		}
	}
	return nil
}

// globalInit: the value a package variable has after initialisation
func (x *Exec) globalInit(st *State, ref *Term) *Term {
	g := x.globalOf(ref)
	if g == nil {
		return ref
	}
	full := g.RelString(nil)
	switch full {
	case "github.com/dedis/crypto/random.Stream":
		return tSysRnd
	case "github.com/dedis/crypto/abstract.RandomKey":
		return cst("RandomKey")
	}
	if g.Pkg == nil || !x.p.ownPkg(g.Pkg) {
		return rawApp("extglobal", str(full))
	}
	s, ok := x.inits[g.Pkg]
	if !ok {
		s = x.runInit(g.Pkg)
		x.inits[g.Pkg] = s
	}
	copyInit(st, s)
	if v, ok := s.mem[ref]; ok {
		return v
	}
	return zeroOf(g.Type().(*types.Pointer).Elem())
}

// copyInit: objects created by an initialiser exist in every state
func copyInit(st, s *State) {
	for k, v := range s.mem {
		if k.is("global") {
			continue
		}
		if _, ok := st.mem[k]; !ok {
			st.mem[k] = v
		}
	}
}

// initAll makes the objects of every package initialiser present
func (x *Exec) initAll(st *State) {
	if !x.allInit {
		x.allInit = true
		for _, sp := range x.p.ownPkgs() {
			if _, ok := x.inits[sp]; !ok {
				x.inits[sp] = x.runInit(sp)
			}
		}
	}
	for _, sp := range x.p.ownPkgs() {
		if s := x.inits[sp]; s != nil {
			copyInit(st, s)
		}
	}
}

func (x *Exec) runInit(pkg *ssa.Package) *State {
	st := x.newState()
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return st
	}
	x.inits[pkg] = st
	// only this package's own assignments
	f := &frame{x: x, fn: fn, env: map[ssa.Value]*Term{}, cs: "init:" + pkg.Pkg.Path()}
	saveLv := x.lv
	x.lv = nil
	defer func() { x.lv = saveLv }()
	st.mem[x.globalRef(pkg.Members["init$guard"].(*ssa.Global))] = tFalse
	blocks := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		blocks[b] = true
	}
	f.region(blocks, fn.Blocks[0], []edge{{nil, fn.Blocks[0], 0, st.clone()}}, nil)
	out := x.newState()
	for _, r := range f.rets {
		for k, v := range r.st.mem {
			out.mem[k] = v
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// functions

func (x *Exec) run(fn *ssa.Function, args, binds []*Term, st *State, cs string, parent *frame) *Term {
	cc := x.nextCC
	x.nextCC = nil
	if x.depth > 60 {
		panic("call depth exceeded at " + funcName(fn))
	}
	for p := parent; p != nil; p = p.parent {
		if p.fn == fn && x.depth > 40 {
			x.imprec["recursion in "+funcName(fn)] = true
			return rawApp("opaque", str("rec:"+funcName(fn)))
		}
	}
	if x.depth == 0 {
		x.initAll(st)
	}
	x.depth++
	defer func() { x.depth-- }()
	x.funcs[funcName(fn)] = true
	f := &frame{x: x, fn: fn, env: map[ssa.Value]*Term{}, cs: cs, parent: parent, cc: cc}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = binds[i]
	}
	blocks := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		blocks[b] = true
	}
	f.region(blocks, fn.Blocks[0], []edge{{nil, fn.Blocks[0], 0, st.clone()}}, nil)
	if len(f.rets) == 0 {
		st.pc = tFalse
		return tDead
	}
	var es []edge
	for _, r := range f.rets {
		es = append(es, edge{st: r.st})
	}
	j := x.join(es)
	st.pc, st.mem, st.old = j.pc, j.mem, j.old
	v := tDead
	for i := len(f.rets) - 1; i >= 0; i-- {
		r := f.rets[i]
		if v == tDead {
			v = r.val
		} else {
			v = ite(r.st.pc, r.val, v)
		}
	}
	return restrictPC(v, st.pc)
}

func (x *Exec) join(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	r := &State{pc: tFalse, old: es[0].st.old}
	for _, e := range es {
		r.pc = or(r.pc, e.st.pc)
	}
	r.mem = x.joinMem(es, r.pc, func(s *State) map[*Term]*Term { return s.mem })
	for _, e := range es {
		if !sameMap(e.st.old, r.old) {
			r.old = x.joinMem(es, r.pc, func(s *State) map[*Term]*Term { return s.old })
			break
		}
	}
	return r
}

func sameMap(a, b map[*Term]*Term) bool {
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

func (x *Exec) joinMem(es []edge, pc *Term, mem func(s *State) map[*Term]*Term) map[*Term]*Term {
	r := map[*Term]*Term{}
	keys := map[*Term]bool{}
	for _, e := range es {
		for k := range mem(e.st) {
			keys[k] = true
		}
	}
	for k := range keys {
		var v *Term
		same := true
		for i := len(es) - 1; i >= 0; i-- {
			c, ok := mem(es[i].st)[k]
			if !ok {
				if k.is("alloc") {
					c = tUndef
				} else if k.is("global") {
					c = x.globalInit(es[i].st, k)
				} else {
					c = x.dfltFamily(k, es, k)
				}
			}
			if v == nil {
				v = c
				continue
			}
			if c != v {
				same = false
				if v == tUndef {
					v = c
				} else if c != tUndef {
					v = ite(es[i].st.pc, c, v)
				}
			}
		}
		if !same {
			v = restrict(v, pc)
			if v == tDead {
				v = tUndef
			}
		}
		r[k] = v
	}
	return r
}

// dfltFamily: the default content of a symbolic family, of the kind its other contents show
func (x *Exec) dfltFamily(k *Term, es []edge, key *Term) *Term {
	if kind, ok := x.kinds[key]; ok {
		return dflt(k, kind)
	}
	for _, e := range es {
		if c, ok := e.st.mem[key]; ok {
			for _, l := range leaves(c) {
				if l.k == KGrp && l.args[0] == tNil {
					return grpAtom(k)
				}
				if l.is("secval") {
					return secVal(k)
				}
			}
		}
	}
	return k
}

func (f *frame) order() []*ssa.BasicBlock {
	return f.x.forest(f.fn).rpo
}

// region evaluates the blocks of a loop body or function once. Edges to the
// header are returned as back edges, edges out of the region as exits.
func (f *frame) region(blocks map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, entry []edge, phis map[*ssa.Phi]*Term) (back, exits []edge) {
	x := f.x
	lf := x.forest(f.fn)
	pending := map[*ssa.BasicBlock][]edge{}
	pending[header] = entry
	done := map[*ssa.BasicBlock]bool{}
	deliver := func(e edge) {
		if e.st.pc == tFalse {
			return
		}
		switch {
		case e.to == header:
			back = append(back, e)
		case blocks[e.to]:
			pending[e.to] = append(pending[e.to], e)
		default:
			exits = append(exits, e)
		}
	}
	for _, b := range lf.rpo {
		if !blocks[b] || done[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if l := lf.byHeader[b]; l != nil && b != header {
			for _, e := range f.loop(l, es) {
				deliver(e)
			}
			for lb := range l.blocks {
				done[lb] = true
			}
			continue
		}
		if l := lf.byHeader[b]; l != nil && b == header && phis == nil && f.fn.Blocks[0] == b {
			// the function's entry block is a loop header
			for _, e := range f.loop(l, es) {
				deliver(e)
			}
			for lb := range l.blocks {
				done[lb] = true
			}
			continue
		}
		done[b] = true
		st := x.join(es)
		// phis
		var vals []*Term
		var ps []*ssa.Phi
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ps = append(ps, phi)
			if b == header && phis != nil {
				vals = append(vals, phis[phi])
				continue
			}
			vals = append(vals, restrictPC(f.phiVal(phi, es), st.pc))
		}
		for i, p := range ps {
			f.env[p] = vals[i]
		}
		for _, e := range f.block(b, st, len(ps)) {
			deliver(e)
		}
	}
	return
}

func (f *frame) phiVal(phi *ssa.Phi, es []edge) *Term {
	v := tDead
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i]
		k := predIndex(e)
		if k < 0 {
			continue
		}
		pv := f.val(e.st, phi.Edges[k])
		if v == tDead {
			v = pv
		} else if pv != v {
			v = ite(e.st.pc, pv, v)
		}
	}
	return v
}

// predIndex: which predecessor of e.to the edge is
func predIndex(e edge) int {
	n := 0
	// the k-th edge from e.from to e.to
	for i := 0; i < e.idx; i++ {
		if e.from.Succs[i] == e.to {
			n++
		}
	}
	for i, p := range e.to.Preds {
		if p == e.from {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return -1
}

func (f *frame) site(in ssa.Instruction) string {
	b := in.Block()
	for i, o := range b.Instrs {
		if o == in {
			return fmt.Sprintf("%s/%s.%d.%d", f.cs, f.fn.Name(), b.Index, i)
		}
	}
	return f.cs + "/?"
}

func (x *Exec) alloc(site string) *Term {
	return rawApp("alloc", append([]*Term{str(site)}, x.lv...)...)
}

func (f *frame) block(b *ssa.BasicBlock, st *State, start int) []edge {
	x := f.x
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.steps++
		if x.steps > 4000000 {
			panic("analysis budget exceeded in " + funcName(f.fn))
		}
		switch in := in.(type) {
		case *ssa.If:
			c := exclude(restrict(asBool(f.val(st, in.Cond)), st.pc), st.pc)
			if x.onBranch != nil {
				x.onBranch(f, st, c, in.Cond.Pos())
			}
			t, e := st, st.clone()
			pc := st.pc
			t = &State{and(pc, c), st.mem, st.old}
			e.pc = and(pc, not(c))
			return []edge{{b, b.Succs[0], 0, t}, {b, b.Succs[1], 1, e}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], 0, st}}
		case *ssa.Return:
			var v *Term
			switch len(in.Results) {
			case 0:
				v = tNil
			case 1:
				v = f.val(st, in.Results[0])
			default:
				var vs []*Term
				for _, r := range in.Results {
					vs = append(vs, f.val(st, r))
				}
				v = rawApp("tuple", vs...)
			}
			f.rets = append(f.rets, retEdge{st, v})
			return nil
		case *ssa.Panic:
			if x.onPanic != nil {
				x.onPanic(f, st, in.Pos())
			}
			if x.onPanicValue != nil {
				x.onPanicValue(f, st, f.val(st, in.X), in.Pos())
			}
			return nil
		default:
			f.instr(in, st)
			if st.pc == tFalse {
				return nil
			}
		}
	}
	return nil
}

// exclude: a value known to equal one constant equals no other
func exclude(c, pc *Term) *Term {
	if c.k != KIte || !c.args[0].is("eq0") || pc.k != KIte {
		return c
	}
	p := c.args[0].args[0]
	for _, a := range support(pc) {
		if !a.is("eq0") || a == c.args[0] {
			continue
		}
		if d := sub(a.args[0], p); d.k == KNum && d.n.Sign() != 0 && and(pc, not(ite(a, tTrue, tFalse))) == tFalse {
			return cofAtom(c, c.args[0], false)
		}
	}
	return c
}

func (f *frame) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return f.x.globalRef(v)
	case *ssa.Function:
		return rawApp("func", str(registerFn(v)))
	case *ssa.Builtin:
		return cst("builtin:" + v.Name())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	return tDead
}

var fnByName = map[string]*ssa.Function{}

func registerFn(f *ssa.Function) string {
	n := f.RelString(nil)
	if o, ok := fnByName[n]; ok && o != f {
		n = fmt.Sprintf("%s@%d", n, f.Pos())
	}
	fnByName[n] = f
	return n
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolc(constant.BoolVal(c.Value))
	case constant.String:
		return str(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
			return bigTerm(n)
		}
	}
	return rawApp("const", str(c.Value.ExactString()))
}

func (f *frame) pos(p token.Pos) string { return f.x.p.pos(p) }

func (f *frame) instr(in ssa.Instruction, st *State) {
	x := f.x
	set := func(v ssa.Value, t *Term) {
		if isBool(v.Type()) {
			t = asBool(t)
		}
		f.env[v] = restrictPC(t, st.pc)
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		r := x.alloc(f.site(in))
		set(in, r)
		x.store(st, r, zeroOf(in.Type().(*types.Pointer).Elem()), "")
	case *ssa.BinOp:
		set(in, f.binop(st, in))
	case *ssa.UnOp:
		a := f.val(st, in.X)
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				set(in, x.load(st, x.globalRef(g), ""))
				return
			}
			notNil(st, a)
			kind := objKind(in.X.Type())
			if kind == "" || kind == "point" {
				kind = ""
			}
			if kind == "" {
				t := x.load(st, a, "")
				set(in, t)
				return
			}
			set(in, x.load(st, a, kind))
		case token.NOT:
			set(in, not(asBool(a)))
		case token.SUB:
			set(in, neg(a))
		case token.ARROW:
			set(in, x.opaqueVal(f.site(in)))
		default:
			set(in, app("unop:"+in.Op.String(), a))
		}
	case *ssa.Store:
		notNil(st, f.val(st, in.Addr))
		x.onStore(f, st, f.val(st, in.Addr), f.val(st, in.Val), in.Pos())
		x.store(st, f.val(st, in.Addr), f.val(st, in.Val), objKind(in.Addr.Type()))
	case *ssa.FieldAddr:
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		name := stt.Underlying().(*types.Struct).Field(in.Field).Name()
		base := f.val(st, in.X)
		if isNamed(stt, nistPkg, "Int") {
			if name == "V" {
				// view a scalar as an integer
				for _, l := range leaves(base) {
					key, _ := fam(l)
					if _, ok := st.mem[key]; !ok && l != tNil {
						x.store(st, l, secVal(l), "secret")
					}
				}
				set(in, base)
				return
			}
			set(in, rawApp("nistM", base))
			st.mem[rawApp("nistM", base)] = cst("nistMval")
			st.mem[cst("nistMval")] = tQ
			return
		}
		set(in, localLift(base, func(l, _ *Term) *Term {
			if l == tNil || l == tDead {
				return tDead
			}
			return rawApp("afield", l, str(name))
		}))
		if base == tNil {
			st.pc = tFalse
		}
	case *ssa.Field:
		name := in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()
		v := f.val(st, in.X)
		if isNamed(in.X.Type(), nistPkg, "Int") && name == "V" {
			set(in, v)
			return
		}
		set(in, mkField(v, name))
	case *ssa.IndexAddr:
		base := f.val(st, in.X)
		i := f.val(st, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok && x.bounds != nil && x.mon && !isSpec(f.fn) {
			n := x.sliceLen(st, base)
			*x.bounds = append(*x.bounds, bound{st.pc, and(le0(neg(i)), le0(add(sub(i, n), num(1)))), in.Pos()})
		}
		set(in, liftN("iaddr", func(a []*Term) *Term {
			l, i := a[0], a[1]
			if l == tNil || l == tDead {
				return tDead
			}
			if l.is("slice") {
				return rawApp("aindex", l.args[0], add(l.args[1], i))
			}
			return rawApp("aindex", l, i)
		}, base, i))
	case *ssa.Index:
		set(in, elem(f.val(st, in.X), f.val(st, in.Index)))
	case *ssa.Lookup:
		m := f.val(st, in.X)
		k := f.key(st, in.Index)
		if isString(in.X.Type()) {
			set(in, elem(m, k))
			return
		}
		mv := x.mapVal(st, m)
		if !isSpec(f.fn) {
			x.lookups = append(x.lookups, lookup{mv, k, st.pc})
		}
		zero := zeroOf(in.X.Type().Underlying().(*types.Map).Elem())
		v := mget(mv, k, zero)
		if in.CommaOk {
			set(in, rawApp("tuple", v, mhas(mv, k)))
		} else {
			set(in, v)
		}
	case *ssa.MapUpdate:
		m := f.val(st, in.Map)
		k := f.key(st, in.Key)
		v := f.val(st, in.Value)
		if isBool(in.Value.Type()) {
			v = asBool(v)
		}
		x.onMap(f, st, m, k, in.Pos(), func(c *Term) *Term { return mput(c, k, v) })
		x.mapStore(st, m, func(c *Term) *Term { return mput(c, k, v) })
	case *ssa.MakeMap:
		r := x.alloc(f.site(in))
		x.store(st, r, tMEmpty, "")
		set(in, r)
	case *ssa.MakeSlice:
		r := x.alloc(f.site(in))
		n := f.val(st, in.Len)
		if n.isC(0) {
			set(in, mkLit(nil))
			return
		}
		if isByteSlice(in.Type()) {
			x.store(st, r, zerosOf(n), "")
		} else {
			y := freshVar("i", nil)
			x.store(st, r, mkGen(n, y, zeroOf(in.Type().Underlying().(*types.Slice).Elem())), "")
		}
		set(in, liftN("mkslice", func(a []*Term) *Term { return rawApp("slice", a[0], num(0), a[1]) }, r, n))
	case *ssa.Slice:
		f.sliceOp(in, st, set)
	case *ssa.MakeInterface:
		v := f.val(st, in.X)
		if isBool(in.X.Type()) {
			v = asBool(v)
		}
		switch in.X.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice:
			x.itypes[v] = in.X.Type()
		}
		if x.typed && tagged(in.Type(), in.X.Type()) {
			v = liftN("iface:"+in.X.Type().String(), func(a []*Term) *Term { return rawApp("iface", str(in.X.Type().String()), a[0]) }, v)
		}
		set(in, v)
	case *ssa.ChangeInterface:
		set(in, f.val(st, in.X))
	case *ssa.ChangeType:
		set(in, f.val(st, in.X))
	case *ssa.Convert:
		f.convert(in, st, set)
	case *ssa.TypeAssert:
		v := f.val(st, in.X)
		if hasIface(v) {
			f.assertType(in, v, st, set)
			return
		}
		if isBool(in.AssertedType) {
			v = asBool(v)
		}
		if in.CommaOk {
			ok := liftN("istype:"+in.AssertedType.String(), func(a []*Term) *Term {
				if a[0] == tNil {
					return tFalse
				}
				return asBool(rawApp("istype", a[0], str(in.AssertedType.String())))
			}, v)
			set(in, rawApp("tuple", ite(ok, v, zeroOf(in.AssertedType)), ok))
		} else {
			// a value of another type panics, which drops the message
			if x.onAssert != nil {
				x.onAssert(st, v, x.p.pos(in.Pos()))
			}
			if v == tNil {
				st.pc = tFalse
				return
			}
			set(in, v)
		}
	case *ssa.Extract:
		set(in, proj(f.val(st, in.Tuple), in.Index))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		args := []*Term{str(registerFn(fn))}
		for _, b := range in.Bindings {
			args = append(args, f.val(st, b))
		}
		set(in, rawApp("closure", args...))
	case *ssa.Range:
		v := f.val(st, in.X)
		if isString(in.X.Type()) {
			set(in, rawApp("iter", v))
		} else {
			// every traversal of a map has its own order
			if !isSpec(f.fn) {
				x.lookups = append(x.lookups, lookup{x.mapVal(st, v), nil, st.pc})
			}
			set(in, rawApp("iter", x.mapVal(st, v), rawApp("ord", append([]*Term{str(f.site(in))}, x.lv...)...)))
		}
	case *ssa.Next:
		it := f.val(st, in.Iter)
		if it == tDead {
			set(in, rawApp("tuple", tFalse, tNil, tNil))
			return
		}
		i := num(0) // a body that always leaves is not a loop
		for _, l := range x.forest(f.fn).byHeader {
			if l.blocks[in.Block()] && !l.blocks[in.Iter.(*ssa.Range).Block()] {
				i = x.lv[len(x.lv)-1]
			}
		}
		set(in, liftN(fmt.Sprintf("next:%d", i.id), func(a []*Term) *Term {
			if !a[0].is("iter") {
				return rawApp("tuple", tFalse, tDead, tDead)
			}
			m := a[0].args[0]
			if in.IsString {
				return rawApp("tuple", not(le0(sub(llen(m), i))), i, elem(m, i))
			}
			k := mkey(m, i, a[0].args[1])
			return rawApp("tuple", not(le0(sub(mcard(m), i))), k, mget(m, k, nil))
		}, it))
		if tup := f.env[in]; tup != nil {
			f.env[in] = tup
		}
	case *ssa.Call:
		c := f.callInfo(st, &in.Call, f.site(in), in.Pos())
		c.typ = in.Type()
		r := x.call(f, st, c)
		set(in, r)
	case *ssa.Defer:
		c := f.callInfo(st, &in.Call, f.site(in), in.Pos())
		f.defers = append(f.defers, deferred{st.pc, &in.Call, c.fnv, c.args, f.site(in), in.Pos()})
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			if and(d.pc, st.pc) == tFalse {
				continue
			}
			c := &callInfo{cc: d.call, fnv: d.fn, args: d.args, site: d.site, pos: d.pos}
			if or(not(st.pc), d.pc) == tTrue {
				x.call(f, st, c)
				continue
			}
			s1 := st.clone()
			s1.pc = and(st.pc, d.pc)
			s2 := st.clone()
			s2.pc = and(st.pc, not(d.pc))
			x.call(f, s1, c)
			j := x.join([]edge{{st: s1}, {st: s2}})
			st.pc, st.mem, st.old = j.pc, j.mem, j.old
		}
	case *ssa.Go:
		// the new thread is analysed on its own
		if x.watch != nil {
			c := f.callInfo(st, &in.Call, f.site(in), in.Pos())
			c.isGo = true
			x.watch(x, f, st, c)
		}
	case *ssa.DebugRef:
	case *ssa.MakeChan:
		set(in, x.alloc(f.site(in)))
	case *ssa.Send:
	case *ssa.Select:
		set(in, x.opaqueVal(f.site(in)))
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, x.opaqueVal(f.site(in)))
			x.imprec[fmt.Sprintf("%T in %s", in, funcName(f.fn))] = true
		}
	}
}

func (x *Exec) opaqueVal(site string) *Term {
	return rawApp("opaque", append([]*Term{str(site)}, x.lv...)...)
}

// key: a map key
func (f *frame) key(st *State, v ssa.Value) *Term {
	k := f.val(st, v)
	if isBool(v.Type()) {
		return k
	}
	return k
}

// mapVal: the content of a map
func (x *Exec) mapVal(st *State, m *Term) *Term {
	return restrictPC(localLift(m, func(l, _ *Term) *Term {
		if l == tNil {
			return tMEmpty
		}
		return x.loadLeaf(st, l, "")
	}), st.pc)
}

func (x *Exec) mapStore(st *State, m *Term, f func(c *Term) *Term) {
	lc := leafConds(m)
	var ls []*Term
	for l := range lc {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		if l == tNil || l == tDead {
			continue
		}
		old := x.loadLeaf(st, l, "")
		x.storeLeaf(st, l, f(old), lc[l], "")
	}
}

func (f *frame) sliceOp(in *ssa.Slice, st *State, set func(ssa.Value, *Term)) {
	x := f.x
	v := f.val(st, in.X)
	lo := num(0)
	if in.Low != nil {
		lo = f.val(st, in.Low)
	}
	hi := (*Term)(nil)
	if in.High != nil {
		hi = f.val(st, in.High)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		// slicing an array
		n := num(pt.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if n.isC(0) {
			set(in, mkLit(nil))
			return
		}
		set(in, liftN("sliceptr", func(a []*Term) *Term { return rawApp("slice", a[0], a[1], sub(a[2], a[1])) }, v, lo, hi))
		return
	}
	hiSet := hi != nil
	if !hiSet {
		hi = x.sliceLen(st, v)
	}
	set(in, liftN("slicing", func(a []*Term) *Term {
		l, lo, hi := a[0], a[1], a[2]
		if l.is("slice") {
			return rawApp("slice", l.args[0], add(l.args[1], lo), sub(hi, lo))
		}
		if l == tNil {
			return tNil
		}
		if l.k == KStr && lo.k == KNum && hi.k == KNum {
			a, b := lo.n.Int64(), hi.n.Int64()
			if a >= 0 && b <= int64(len(l.op)) && a <= b {
				return str(l.op[a:b])
			}
		}
		return lsub(l, lo, sub(hi, lo))
	}, v, lo, hi))
}

func (f *frame) convert(in *ssa.Convert, st *State, set func(ssa.Value, *Term)) {
	x := f.x
	v := f.val(st, in.X)
	from, to := in.X.Type(), in.Type()
	switch {
	case isString(to) && isByteSlice(from):
		set(in, x.bytesVal(st, v))
	case isByteSlice(to) && isString(from):
		r := x.alloc(f.site(in))
		x.store(st, r, v, "")
		set(in, rawApp("slice", r, num(0), llen(v)))
	case isInt(to) && isInt(from):
		b := to.Underlying().(*types.Basic)
		if b.Kind() == types.Uint8 {
			set(in, liftN("tobyte", func(a []*Term) *Term {
				t := a[0]
				if t.k == KNum {
					return bigTerm(new(big.Int).And(t.n, big.NewInt(255)))
				}
				if t.is("byteof") || t.is("byteval") {
					return t
				}
				// the low four bytes are the same before and after cutting to 32 bits
				whole := func(t, k *Term) *Term {
					if t.is("u32") && k.k == KNum && k.n.Cmp(big.NewInt(24)) <= 0 {
						return t.args[0]
					}
					return t
				}
				if t.is("shr") {
					return rawApp("byteof", whole(t.args[0], t.args[1]), t.args[1])
				}
				return rawApp("byteof", whole(t, num(0)), num(0))
			}, v))
			return
		}
		fb := from.Underlying().(*types.Basic)
		if (b.Kind() == types.Uint32 || b.Kind() == types.Int32 || b.Kind() == types.Uint16 || b.Kind() == types.Int16 || b.Kind() == types.Int8) && fb.Kind() != b.Kind() && fb.Kind() != types.Uint8 {
			set(in, liftN("trunc:"+b.Name(), func(a []*Term) *Term {
				if a[0].k == KNum && a[0].n.BitLen() < 15 && a[0].n.Sign() >= 0 {
					return a[0]
				}
				if b.Kind() == types.Uint32 {
					return rawApp("u32", a[0])
				}
				return rawApp("trunc", a[0], str(b.Name()))
			}, v))
			return
		}
		set(in, v)
	case isInt(from) && isString(to):
		set(in, app("runestr", v))
	default:
		set(in, app("conv", v, str(to.String())))
	}
}

func (f *frame) binop(st *State, in *ssa.BinOp) *Term {
	a, b := f.val(st, in.X), f.val(st, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.ADD:
		if isString(t) {
			return bcat(a, b)
		}
		return liftN("wholesum", func(x []*Term) *Term { return bigEndian(x[0]) }, add(a, b))
	case token.SUB:
		return sub(a, b)
	case token.MUL:
		return mul(a, b)
	case token.EQL, token.NEQ:
		r := f.equal(st, a, b, t, in.Y.Type())
		if in.Op == token.NEQ {
			return not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(t) {
			return asBool(app("strcmp:"+in.Op.String(), a, b))
		}
		switch in.Op {
		case token.LSS:
			return le0(add(sub(a, b), num(1)))
		case token.LEQ:
			return le0(sub(a, b))
		case token.GTR:
			return le0(add(sub(b, a), num(1)))
		}
		return le0(sub(b, a))
	case token.SHR:
		return liftN("shr", func(x []*Term) *Term {
			if x[0].k == KNum && x[1].k == KNum {
				return bigTerm(new(big.Int).Rsh(x[0].n, uint(x[1].n.Int64())))
			}
			if x[1].isC(0) {
				return x[0]
			}
			if x[0].is("shr") && x[0].args[1].k == KNum && x[1].k == KNum && x[0].args[1].n.Sign() > 0 && x[1].n.Sign() > 0 {
				return rawApp("shr", x[0].args[0], add(x[0].args[1], x[1]))
			}
			return rawApp("shr", x[0], x[1])
		}, a, b)
	case token.SHL:
		return liftN("shl", func(x []*Term) *Term {
			if x[1].k == KNum && x[1].n.Int64() < 512 && !isByte(t) {
				return mul(x[0], bigTerm(new(big.Int).Lsh(big.NewInt(1), uint(x[1].n.Int64()))))
			}
			return rawApp("shl", x[0], x[1])
		}, a, b)
	case token.QUO, token.REM:
		return liftN("quo"+in.Op.String(), func(x []*Term) *Term {
			if x[0].k == KNum && x[1].k == KNum && x[1].n.Sign() != 0 && isInt(t) {
				if in.Op == token.QUO {
					return bigTerm(new(big.Int).Quo(x[0].n, x[1].n))
				}
				return bigTerm(new(big.Int).Rem(x[0].n, x[1].n))
			}
			return rawApp("arith:"+in.Op.String(), x[0], x[1])
		}, a, b)
	case token.AND, token.OR:
		if isBool(t) {
			if in.Op == token.AND {
				return and(asBool(a), asBool(b))
			}
			return or(asBool(a), asBool(b))
		}
	}
	if in.Op == token.OR || in.Op == token.XOR {
		return liftN("bitor", func(x []*Term) *Term {
			for k := 0; k < 2; k++ {
				hi, lo := x[k], x[1-k]
				// the low byte of a multiple of 256 is free
				if hi.isC(0) {
					return lo
				}
				if oneByte(lo) && multipleOf256(hi) {
					return bigEndian(add(hi, lo))
				}
				// bytes in different places do not overlap
				if p, ok := bytePlaces(hi); ok {
					if q, ok := bytePlaces(lo); ok && p&q == 0 {
						return bigEndian(add(hi, lo))
					}
				}
			}
			return rawApp("arith:"+in.Op.String(), x[0], x[1])
		}, a, b)
	}
	return app("arith:"+in.Op.String(), a, b)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

func oneByte(t *Term) bool {
	return t.is("byteof") || t.is("elem") && t.args[0].is("be32")
}

// bytePlaces: which bytes of a number are set from single bytes, if it is such
func bytePlaces(t *Term) (int, bool) {
	if oneByte(t) {
		return 1, true
	}
	if t.k != KPoly {
		return 0, false
	}
	places := 0
	for _, x := range t.ms {
		if len(x.vs) != 1 || !oneByte(x.vs[0]) || x.c.Sign() <= 0 {
			return 0, false
		}
		n := x.c.BitLen() - 1
		if n%8 != 0 || n > 24 || x.c.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(n))) != 0 || places>>(n/8)&1 == 1 {
			return 0, false
		}
		places |= 1 << (n / 8)
	}
	return places, true
}

func multipleOf256(t *Term) bool {
	m := big.NewInt(256)
	if t.k != KPoly {
		return t.k == KNum && new(big.Int).Mod(t.n, m).Sign() == 0
	}
	for _, x := range t.ms {
		if new(big.Int).Mod(x.c, m).Sign() != 0 {
			return false
		}
	}
	return true
}

// bigEndian: the sum of the four bytes of one number, each in its place, is
// that number
func bigEndian(t *Term) *Term {
	if t.k != KPoly || len(t.ms) != 4 {
		return t
	}
	var v *Term
	seen := 0
	for _, x := range t.ms {
		if len(x.vs) != 1 || !x.vs[0].is("elem") || !x.vs[0].args[0].is("be32") || x.vs[0].args[1].k != KNum {
			return t
		}
		e := x.vs[0]
		i := e.args[1].n.Int64()
		if v != nil && v != e.args[0].args[0] || i < 0 || i > 3 || x.c.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(24-8*i))) != 0 {
			return t
		}
		v = e.args[0].args[0]
		seen |= 1 << i
	}
	if seen != 15 {
		return t
	}
	return v
}

// equal: the == operator
func (f *frame) equal(st *State, a, b *Term, t, t2 types.Type) *Term {
	if isBool(t) {
		return iff(asBool(a), asBool(b))
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return eq(f.x.deep(st, a), f.x.deep(st, b))
	}
	if isNamed(t, absPkg, "Point") || isNamed(t, absPkg, "Secret") {
		// lists of group elements and scalars have no empty entries
		whole := func(v *Term) *Term {
			return localLift(v, func(l, _ *Term) *Term {
				if l.is("elem") {
					return cst("present")
				}
				return l
			})
		}
		if b == tNil {
			a = whole(a)
		} else if a == tNil {
			b = whole(b)
		}
	}
	return eq(a, b)
}

// ---------------------------------------------------------------------------
// calls

type callInfo struct {
	cc   *ssa.CallCommon
	fnv  *Term
	args []*Term // receiver first
	site string
	pos  token.Pos
	typ  types.Type
	isGo bool
	name string
}

func (f *frame) callInfo(st *State, cc *ssa.CallCommon, site string, pos token.Pos) *callInfo {
	c := &callInfo{cc: cc, site: site, pos: pos}
	if cc.IsInvoke() {
		c.args = append(c.args, f.val(st, cc.Value))
	} else {
		c.fnv = f.val(st, cc.Value)
	}
	for _, a := range cc.Args {
		v := f.val(st, a)
		if isBool(a.Type()) {
			v = asBool(v)
		}
		c.args = append(c.args, v)
	}
	return c
}

func resultType(cc *ssa.CallCommon) types.Type { return cc.Signature().Results() }

// tagged: a value of the second type that becomes the first one is one whose
// type matters to who gets it
func tagged(it, t types.Type) bool {
	i, ok := it.Underlying().(*types.Interface)
	if !ok || i.NumMethods() > 0 {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return false
	}
	return true
}

func hasIface(v *Term) bool {
	for _, l := range leaves(v) {
		if l.is("iface") {
			return true
		}
	}
	return false
}

// assertType: v has a known type in some cases
func (f *frame) assertType(in *ssa.TypeAssert, v *Term, st *State, set func(ssa.Value, *Term)) {
	want := in.AssertedType
	_, toIface := want.Underlying().(*types.Interface)
	is := asBool(localLift(v, func(l, _ *Term) *Term {
		switch {
		case l == tNil || l == tDead:
			return tFalse
		case l.is("iface"):
			return boolc(toIface || l.args[0].op == want.String())
		case in.CommaOk:
			return asBool(rawApp("istype", l, str(want.String())))
		}
		return tTrue
	}))
	val := localLift(v, func(l, _ *Term) *Term {
		if l.is("iface") && !toIface {
			if l.args[0].op == want.String() {
				return l.args[1]
			}
			return zeroOf(want)
		}
		return l
	})
	if isBool(want) {
		val = asBool(val)
	}
	if in.CommaOk {
		set(in, rawApp("tuple", ite(is, val, zeroOf(want)), is))
		return
	}
	st.pc = and(st.pc, is)
	if st.pc == tFalse {
		return
	}
	set(in, restrictPC(val, st.pc))
}

// untagged: as code outside the repository gets them
func untagged(args []*Term) []*Term {
	var r []*Term
	for k, a := range args {
		if hasIface(a) {
			if r == nil {
				r = append([]*Term{}, args...)
			}
			r[k] = localLift(a, func(l, _ *Term) *Term {
				if l.is("iface") {
					return l.args[1]
				}
				return l
			})
		}
	}
	if r == nil {
		return args
	}
	return r
}

func (x *Exec) call(f *frame, st *State, c *callInfo) *Term {
	if st.pc == tFalse {
		return tDead
	}
	if b, ok := c.cc.Value.(*ssa.Builtin); ok {
		return x.builtin(f, st, c, b.Name())
	}
	if c.cc.IsInvoke() {
		c.name = invokeName(c.cc)
		notNil(st, c.args[0])
		if st.pc == tFalse {
			return tDead
		}
		if x.watch != nil {
			x.watch(x, f, st, c)
		}
		if op, ok := x.opaque[c.name]; ok {
			return op(x, f, st, c)
		}
		if h, ok := intrinsics[c.name]; ok {
			c.args = untagged(c.args)
			return h(x, f, st, c)
		}
		// a single implementation in the repository
		var impl *ssa.Function
		n := 0
		for _, g := range x.p.callees(c.cc) {
			if g.Blocks != nil && x.p.ownPkg(g.Pkg) {
				impl = g
				n++
			}
		}
		if n == 1 && !isLibIface(c.cc) {
			return x.run(impl, c.args, nil, st, c.site, f)
		}
		return x.external(f, st, c)
	}
	return restrictPC(x.callVal(f, st, c, c.fnv), st.pc)
}

// notNil: using the nil reference panics
func notNil(st *State, r *Term) {
	for _, l := range leaves(r) {
		if l == tNil || l == tDead {
			st.pc = and(st.pc, not(leafCond(r, l)))
		}
	}
}

func isLibIface(cc *ssa.CallCommon) bool {
	return cc.Method.Pkg() == nil || !strings.HasPrefix(cc.Method.Pkg().Path(), modPath)
}

// callVal calls every function the value may be
func (x *Exec) callVal(f *frame, st *State, c *callInfo, fv *Term) *Term {
	if fv.k == KIte {
		cnd := mkIteRaw(fv.args[0], tTrue, tFalse)
		s1, s2 := st.clone(), st.clone()
		s1.pc = and(st.pc, cnd)
		s2.pc = and(st.pc, not(cnd))
		var v1, v2 = tDead, tDead
		if s1.pc != tFalse {
			v1 = x.callVal(f, s1, c, fv.args[1])
		}
		if s2.pc != tFalse {
			v2 = x.callVal(f, s2, c, fv.args[2])
		}
		p1, p2 := s1.pc, s2.pc
		var es []edge
		if p1 != tFalse {
			es = append(es, edge{st: s1})
		}
		if p2 != tFalse {
			es = append(es, edge{st: s2})
		}
		if len(es) == 0 {
			st.pc = tFalse
			return tDead
		}
		j := x.join(es)
		st.pc, st.mem, st.old = j.pc, j.mem, j.old
		return ite(p1, v1, v2)
	}
	var fn *ssa.Function
	var binds []*Term
	switch {
	case fv.is("func"):
		fn = fnByName[fv.args[0].op]
	case fv.is("closure"):
		fn = fnByName[fv.args[0].op]
		binds = fv.args[1:]
	}
	if fn == nil {
		if g := c.cc.StaticCallee(); g != nil {
			fn = g
		}
	}
	if fn == nil {
		if fv == tNil || fv == tDead {
			st.pc = tFalse
			return tDead
		}
		c.name = "dynamic"
		// a function value that was received from an uninterpreted function
		return x.externalNamed(f, st, c, "call:", append([]*Term{x.deep(st, fv)}, c.args...))
	}
	c.name = funcFull(fn)
	if fn.Synthetic == "package initializer" {
		return tNil
	}
	if x.watch != nil {
		x.watch(x, f, st, c)
	}
	if op, ok := x.opaque[c.name]; ok {
		return op(x, f, st, c)
	}
	if h, ok := intrinsics[c.name]; ok {
		c.args = untagged(c.args)
		return h(x, f, st, c)
	}
	if fn.Blocks != nil && (fn.Pkg != nil && x.p.ownPkg(fn.Pkg) || fn.Parent() != nil && x.p.ownPkg(fn.Parent().Pkg) || fn.Synthetic != "") {
		args := c.args
		if !c.cc.IsInvoke() && len(c.cc.Args) == len(fn.Params) && len(args) == len(fn.Params) {
			x.nextCC = c.cc
		}
		return x.run(fn, args, binds, st, c.site, f)
	}
	return x.external(f, st, c)
}

func funcFull(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if tf, ok := o.(*types.Func); ok {
			return tf.FullName()
		}
	}
	return fn.RelString(nil)
}

func invokeName(cc *ssa.CallCommon) string {
	t := cc.Value.Type()
	switch objKind(t) {
	case "point":
		return "Point." + cc.Method.Name()
	case "secret":
		return "Secret." + cc.Method.Name()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + cc.Method.Name()
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return "error." + cc.Method.Name()
	}
	return cc.Method.FullName()
}

// external: code outside the repository is a function of its arguments; what
// it may write through pointers becomes unknown
func (x *Exec) external(f *frame, st *State, c *callInfo) *Term {
	return x.externalNamed(f, st, c, "ext:"+c.name, c.args)
}

func (x *Exec) externalNamed(f *frame, st *State, c *callInfo, op string, args []*Term) *Term {
	args, c.args = untagged(args), untagged(c.args)
	var dv []*Term
	for _, a := range args {
		dv = append(dv, x.deep(st, a))
	}
	sig := c.cc.Signature()
	if nondetExt(c.name) {
		dv = append(append(dv, str("@"+c.site)), x.lv...)
	}
	val := app(op, dv...)
	if !pureExt(c.name) {
		for i, a := range c.args {
			if a.is("alloc") {
				if _, ok := st.mem[firstOf(fam(a))]; ok {
					x.store(st, a, app("out:"+c.name, append([]*Term{num(int64(i))}, dv...)...), "")
				}
			}
		}
	}
	if sig.Results().Len() > 1 {
		var vs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			v := proj(val, i)
			if isBool(sig.Results().At(i).Type()) {
				v = asBool(v)
			}
			vs = append(vs, v)
		}
		return rawApp("tuple", vs...)
	}
	if sig.Results().Len() == 1 && isBool(sig.Results().At(0).Type()) {
		return asBool(val)
	}
	return val
}

func firstOf(t *Term, _ []*Term) *Term { return t }

// nondetExt: each call may give another result
func nondetExt(name string) bool {
	for _, p := range []string{"(*os/exec.", "os.", "time.", "math/rand.", "(*net.", "net.Conn.", "(*bufio."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func pureExt(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "fmt.", "math.", "errors.", "reflect.", "net.", "time.", "sort.Search", "log."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *Exec) builtin(f *frame, st *State, c *callInfo, name string) *Term {
	switch name {
	case "len":
		t := c.cc.Args[0].Type().Underlying()
		if _, ok := t.(*types.Map); ok {
			return mcard(x.mapVal(st, c.args[0]))
		}
		if pt, ok := t.(*types.Pointer); ok {
			return num(pt.Elem().Underlying().(*types.Array).Len())
		}
		return x.sliceLen(st, c.args[0])
	case "cap":
		return app("cap", x.sliceLen(st, c.args[0]))
	case "append":
		if len(c.args) == 1 {
			return c.args[0]
		}
		if isByteSlice(c.cc.Args[0].Type()) {
			return bcat(x.bytesVal(st, c.args[0]), x.bytesVal(st, c.args[1]))
		}
		return lcat(x.listVal(st, c.args[0]), x.listVal(st, c.args[1]))
	case "copy":
		dst, src := c.args[0], c.args[1]
		n := x.sliceLen(st, src)
		if dst.is("slice") {
			arr := dst.args[0]
			old := x.load(st, arr, "")
			nd := dst.args[2]
			var v *Term
			sv := x.listVal(st, src)
			if dst.args[1] == num(0) && nd == n && llen(old) == n && !isByteSlice(c.cc.Args[0].Type()) {
				// all of it
				x.store(st, arr, sv, "")
				return n
			}
			hd := lsub(old, num(0), dst.args[1])
			cnt := ite(le0(sub(n, nd)), n, nd)
			end := add(dst.args[1], cnt)
			tl := lsub(old, end, sub(llen(old), end))
			mid := lsub(sv, num(0), cnt)
			if isByteSlice(c.cc.Args[0].Type()) {
				v = bcat(toBytesT(hd), toBytesT(mid), toBytesT(tl))
			} else {
				v = lcat(hd, mid, tl)
			}
			x.store(st, arr, v, "")
			return cnt
		}
		x.imprec["copy into an unknown slice"] = true
		return n
	case "delete":
		k := c.args[1]
		x.onMap(f, st, c.args[0], k, c.pos, func(m *Term) *Term { return mdel(m, k) })
		x.mapStore(st, c.args[0], func(m *Term) *Term { return mdel(m, k) })
		return tNil
	case "print", "println":
		return tNil
	case "recover":
		if x.recovers {
			return rawApp("sym", str("recovered"))
		}
		return tNil
	case "panic":
		st.pc = tFalse
		return tDead
	case "close":
		return tNil
	case "ssa:wrapnilchk":
		return c.args[0]
	}
	return x.opaqueVal(c.site)
}

func toBytesT(t *Term) *Term { return localLift(t, func(l, _ *Term) *Term { return toBytes(l) }) }
