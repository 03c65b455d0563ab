package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops. The body is evaluated with variables for everything it may change
// ("mu"), which gives the recurrence of every changed location; recurrences
// are replaced by closed forms over the iteration index; only loops with a small
// constant number of iterations are evaluated one iteration after the other.

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopForest struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loop
}

func (x *Exec) forest(fn *ssa.Function) *loopForest {
	if lf, ok := x.loopInfo[fn]; ok {
		return lf
	}
	lf := &loopForest{byHeader: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		lf.rpo = append(lf.rpo, post[i])
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if seen[b] && s.Dominates(b) {
				l := lf.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					lf.byHeader[s] = l
				}
				var up func(b *ssa.BasicBlock)
				up = func(b *ssa.BasicBlock) {
					if l.blocks[b] {
						return
					}
					l.blocks[b] = true
					for _, p := range b.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	x.loopInfo[fn] = lf
	return lf
}

type slot struct {
	phi   *ssa.Phi
	cell  *Term
	path  []string
	nf    int
	phi0  *Term
	tok   *Term
	mu    *Term
	sol   *Term
	next  *Term
	fresh bool
	isB   bool

	ref, assumed bool // written through before its closed form was known
}

type loopSolver struct {
	f     *frame
	l     *loop
	st0   *State
	slots []*slot
	level int // number of enclosing loops
	id    string
	seen  map[*Term]bool

	// the number of iterations made, that closed forms are in terms of: unlike
	// the index of an iteration it may be the number of all iterations
	wide *Term

	second bool  // the other exit is tested first
	care   *Term // when an iteration goes on
}

func countFormals(t *Term) int {
	n := 0
	for _, v := range t.fv {
		if v.k == KFormal {
			n++
		}
	}
	return n
}

func muFor(tok *Term, nf int) *Term {
	if nf == 0 {
		return tok
	}
	args := []*Term{tok}
	for i := 0; i < nf; i++ {
		args = append(args, formal(i))
	}
	return rawApp("mu", args...)
}

func (s *slot) classify(vals ...*Term) {
	kind := "nu"
	if s.phi != nil && isBool(s.phi.Type()) {
		kind = "bool"
	} else {
		for _, v := range vals {
			for _, l := range leaves(v) {
				switch {
				case l.k == KGrp && l.args[0] == tNil:
					kind = "grp"
				case kind == "nu" && (l == tTrue || l == tFalse):
					kind = "bool"
				case kind == "nu" && (isNumeric(l) || l.k == KGrp):
					kind = "num"
				}
			}
		}
		if s.phi != nil && kind == "nu" && isInt(s.phi.Type()) {
			kind = "num"
		}
	}
	switch kind {
	case "num":
		s.tok = freshVar("mu", nil)
		s.mu = muFor(s.tok, s.nf)
	case "bool":
		s.tok = freshVar("nu", nil)
		s.mu = mkIteRaw(muFor(s.tok, s.nf), tTrue, tFalse)
		s.isB = true
	case "grp":
		s.tok = freshVar("nu", nil)
		s.mu = grpAtomRaw(muFor(s.tok, s.nf))
	default:
		s.tok = freshVar("nu", nil)
		s.mu = muFor(s.tok, s.nf)
	}
}

func getPath(t *Term, path []string) *Term {
	for _, p := range path {
		if t == nil {
			return tUndef
		}
		t = mkField(t, p)
	}
	return t
}

func setPath(t *Term, path []string, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return setField(t, path[0], setPath(mkField(t, path[0]), path[1:], v))
}

// diffPaths lists the fields in which b differs from a
func diffPaths(a, b *Term) [][]string {
	if a == b {
		return nil
	}
	if b.k == KStruct {
		var names []string
		ok := false
		switch {
		case a.k == KStruct && a.args[0] == b.args[0]:
			names = append(append([]string{}, a.names...), b.names...)
			ok = true
		case b.args[0] == a:
			names = b.names
			ok = true
		}
		if ok {
			var r [][]string
			done := map[string]bool{}
			for _, n := range names {
				if done[n] {
					continue
				}
				done[n] = true
				for _, p := range diffPaths(mkField(a, n), mkField(b, n)) {
					r = append(r, append([]string{n}, p...))
				}
			}
			return r
		}
	}
	if a.k == KStruct && a.args[0] == b {
		var r [][]string
		for _, n := range a.names {
			for _, p := range diffPaths(mkField(a, n), mkField(b, n)) {
				r = append(r, append([]string{n}, p...))
			}
		}
		return r
	}
	return [][]string{nil}
}

func samePath(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func isPrefix(a, b []string) bool { return len(a) <= len(b) && samePath(a, b[:len(a)]) }

// cell0: what a location holds in state st
func (x *Exec) cellOf(st *State, key *Term, like *Term) *Term {
	if c, ok := st.mem[key]; ok {
		return c
	}
	switch {
	case key.is("alloc"):
		return tUndef
	case key.is("global"):
		return x.globalInit(st, key)
	}
	if kind, ok := x.kinds[key]; ok {
		return dflt(key, kind)
	}
	if like != nil {
		for _, l := range leaves(like) {
			if l.k == KGrp && l.args[0] == tNil {
				return grpAtom(key)
			}
			if l.is("secval") {
				return secVal(key)
			}
		}
	}
	return key
}

func (L *loopSolver) round(i *Term, extra func(st *State)) (st, bst *State, back, exits []edge) {
	f, x := L.f, L.f.x
	st = L.st0.clone()
	phis := map[*ssa.Phi]*Term{}
	for _, s := range L.slots {
		v := s.mu
		if s.sol != nil {
			v = subst(s.sol, map[*Term]*Term{L.wide: i})
		}
		if s.phi != nil {
			phis[s.phi] = v
			continue
		}
		base := x.cellOf(st, s.cell, v)
		st.mem[s.cell] = setPath(base, s.path, v)
	}
	if extra != nil {
		extra(st)
	}
	lv := x.lv
	x.lv = append(append([]*Term{}, lv...), i)
	nd := len(f.defers)
	h := st.clone()
	x.newStep(h)
	back, exits = f.region(L.l.blocks, L.l.header, []edge{{nil, L.l.header, 0, h}}, phis)
	x.lv = lv
	f.defers = f.defers[:nd]
	if len(back) > 0 {
		bst = x.join(back)
	}
	return
}

var loopIndex = map[*loopSolver]*Term{}

func (L *loopSolver) index() *Term { return loopIndex[L] }

// mention: unsolved locations a term depends on
func (L *loopSolver) unsolved(t *Term, except *slot) bool {
	for _, s := range L.slots {
		if s.sol == nil && s != except && contains(t, s.tok) {
			return true
		}
	}
	return false
}

func (f *frame) loop(l *loop, entry []edge) []edge {
	x := f.x
	L := &loopSolver{f: f, l: l, st0: x.join(entry), level: len(x.lv), seen: map[*Term]bool{}}
	L.id = fmt.Sprintf("%s/%s.%d", f.cs, f.fn.Name(), l.header.Index)
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s := &slot{phi: phi, phi0: restrictPC(f.phiVal(phi, entry), L.st0.pc)}
		s.classify(s.phi0)
		L.slots = append(L.slots, s)
	}
	if n, ok := L.constTrips(entry); ok && n <= 8 {
		if out, ok := L.unroll(entry, int(n)); ok {
			return out
		}
	}
	mon := x.mon
	x.mon = false
	defer func() { x.mon = mon }()
	// phase A: which locations change, with an unbounded index
	L.solveAll(freshVar("i", nil))
	n, normal := L.tripCount()
	if normal == nil && n == nil {
		// the body never runs twice
		x.mon = mon
		return L.once()
	}
	// phase B: with a bounded index
	for _, s := range L.slots {
		s.sol, s.ref, s.assumed = nil, false, false
	}
	i := freshVar("i", n)
	L.solveAll(i)
	x.mon = mon
	return L.finish(n, normal)
}

// once: no back edge is ever taken
func (L *loopSolver) once() []edge {
	f, x := L.f, L.f.x
	phis := map[*ssa.Phi]*Term{}
	for _, s := range L.slots {
		if s.phi != nil {
			phis[s.phi] = s.phi0
		}
	}
	lv := x.lv
	x.lv = append(append([]*Term{}, lv...), num(0))
	_, exits := f.region(L.l.blocks, L.l.header, []edge{{nil, L.l.header, 0, L.st0.clone()}}, phis)
	x.lv = lv
	return exits
}

// constTrips: the number of iterations of a counting loop with constant bounds
func (L *loopSolver) constTrips(entry []edge) (int64, bool) {
	h := L.l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	switch cmp.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
	default:
		return 0, false
	}
	if !L.l.blocks[h.Succs[0]] || L.l.blocks[h.Succs[1]] {
		return 0, false
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && L.l.blocks[in.Block()]
	}
	// the value of an expression over values known before the loop
	var before func(v ssa.Value) *Term
	before = func(v ssa.Value) *Term {
		if !inLoop(v) {
			return L.f.val(L.st0, v)
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB && b.Op != token.MUL) {
			return nil
		}
		p, q := before(b.X), before(b.Y)
		if p == nil || q == nil || p.k != KNum || q.k != KNum {
			return nil
		}
		switch b.Op {
		case token.ADD:
			return add(p, q)
		case token.SUB:
			return sub(p, q)
		}
		return mul(p, q)
	}
	// v = X + step, the step a constant
	plus := func(v ssa.Value) (ssa.Value, int64, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil, 0, false
		}
		n := before(b.Y)
		if n == nil || n.k != KNum || !n.n.IsInt64() || n.n.Int64() == 0 {
			return nil, 0, false
		}
		if b.Op == token.SUB {
			return b.X, -n.n.Int64(), true
		}
		return b.X, n.n.Int64(), true
	}
	off := int64(0)
	x := cmp.X
	if y, n, ok := plus(x); ok {
		x, off = y, n
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != h {
		return 0, false
	}
	step := int64(0)
	// the bound, or the list whose length it is (taken anew every time)
	bound, isLen := cmp.Y, false
	if c, ok := bound.(*ssa.Call); ok && inLoop(bound) {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if _, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok {
				bound, isLen = c.Call.Args[0], true
			}
		}
	}
	hi := before(bound)
	if hi == nil {
		return 0, false
	}
	for k, e := range phi.Edges {
		if !L.l.blocks[h.Preds[k]] {
			continue
		}
		b, n, ok := plus(e)
		if !ok || b != phi || (step != 0 && n != step) {
			return 0, false
		}
		step = n
	}
	down := cmp.Op == token.GTR || cmp.Op == token.GEQ
	if step == 0 || down != (step < 0) || (cmp.Op == token.NEQ && step != 1) {
		return 0, false
	}
	f := L.f
	lo := f.phiVal(phi, entry)
	if isLen {
		hi = f.x.sliceLen(L.st0, hi)
	}
	if lo.k != KNum || !lo.n.IsInt64() {
		return 0, false
	}
	if hi.k == KIte {
		// the same loop under different conditions: as often as the longest
		most := num(0)
		for _, v := range leaves(hi) {
			if v == tDead {
				continue
			}
			if v.k != KNum {
				return 0, false
			}
			if v.n.Cmp(most.n) > 0 {
				most = v
			}
		}
		if down {
			return 0, false
		}
		hi = most
	}
	if hi.k != KNum || !hi.n.IsInt64() {
		return 0, false
	}
	n := hi.n.Int64() - lo.n.Int64() - off
	if down {
		n, step = -n, -step
	}
	if cmp.Op == token.LEQ || cmp.Op == token.GEQ {
		n++
	}
	if n < 0 {
		n = 0
	}
	return (n + step - 1) / step, true
}

// unroll evaluates a loop that runs a small constant number of times, one
// iteration after the other.
func (L *loopSolver) unroll(entry []edge, n int) ([]edge, bool) {
	f, x := L.f, L.f.x
	used := f.usedOutside(L.l)
	lv := x.lv
	nd := len(f.defers)
	defer func() { x.lv = lv }()
	type left struct {
		pc   *Term
		vals map[ssa.Value]*Term
	}
	var lefts []left
	var out []edge
	cur := entry
	for it := 0; ; it++ {
		if it > n+1 {
			f.defers = f.defers[:nd]
			return nil, false
		}
		x.lv = append(append([]*Term{}, lv...), num(int64(it)))
		back, exits := f.region(L.l.blocks, L.l.header, cur, nil)
		if len(exits) > 0 {
			l := left{tFalse, map[ssa.Value]*Term{}}
			for _, e := range exits {
				l.pc = or(l.pc, e.st.pc)
			}
			for _, v := range used {
				if t, ok := f.env[v]; ok {
					l.vals[v] = t
				}
			}
			lefts = append(lefts, l)
			out = append(out, exits...)
		}
		if len(back) == 0 {
			break
		}
		cur = back
	}
	for _, v := range used {
		var r *Term
		for k := len(lefts) - 1; k >= 0; k-- {
			t, ok := lefts[k].vals[v]
			if !ok {
				continue
			}
			if r == nil || r == t {
				r = t
			} else {
				r = ite(lefts[k].pc, t, r)
			}
		}
		if r != nil {
			f.env[v] = r
		}
	}
	return out, true
}

func (L *loopSolver) solveAll(i *Term) {
	loopIndex[L], L.wide = i, i
	if len(i.args) > 0 && i.args[0] != tInf {
		L.wide = freshVar("i", add(i.args[0], num(1)))
	}
	x := L.f.x
	hidden := false
	for r := 0; r < 40; r++ {
		hdr, bst, back, _ := L.round(i, nil)
		if bst == nil {
			return
		}
		// new locations
		grown := false
		var keys []*Term
		for k := range bst.mem {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(a, b int) bool { return keys[a].id < keys[b].id })
		for _, k := range keys {
			if k.k == KConst {
				continue
			}
			if L.unsolved(k, nil) {
				continue
			}
			h := x.cellOf(hdr, k, bst.mem[k])
			b := bst.mem[k]
			if h == b {
				continue
			}
			for _, p := range diffPaths(h, b) {
				known := false
				for _, s := range L.slots {
					if s.cell == k && isPrefix(s.path, p) {
						known = true
					}
				}
				if known {
					continue
				}
				// coarser than what there was
				var keep []*slot
				for _, s := range L.slots {
					if s.cell == k && isPrefix(p, s.path) {
						continue
					}
					keep = append(keep, s)
				}
				L.slots = keep
				_, had := L.st0.mem[k]
				s := &slot{cell: k, path: p, nf: countFormals(k)}
				s.phi0 = getPath(x.cellOf(L.st0, k, b), p)
				s.fresh = k.is("alloc") && !had && s.nf > L.level
				s.classify(s.phi0, getPath(b, p))
				L.slots = append(L.slots, s)
				grown = true
			}
		}
		if grown {
			for _, s := range L.slots {
				if !s.assumed {
					s.sol = nil
				}
			}
			hidden = false
			continue
		}
		if L.hiddenWrites(bst) {
			hidden = true
		}
		progress := false
		for _, s := range L.slots {
			if s.phi != nil {
				s.next = restrictPC(L.f.phiVal(s.phi, back), bst.pc)
				if s.isB {
					s.next = asBool(s.next)
				}
			} else {
				s.next = restrictPC(getPath(bst.mem[s.cell], s.path), bst.pc)
			}
			if s.next == tDead {
				s.next = s.mu
			}
		}
		for again := true; again; {
			again = false
			for _, s := range L.slots {
				if s.sol != nil {
					continue
				}
				N := L.replaceSolved(s.next, i)
				if L.unsolved(N, s) {
					continue
				}
				L.care = subst(L.replaceSolved(bst.pc, i), map[*Term]*Term{i: L.wide})
				if sol := L.solve(s, subst(N, map[*Term]*Term{i: L.wide}), L.wide); sol != nil {
					s.sol = sol
					again = true
					progress = true
				}
			}
		}
		left := false
		for _, s := range L.slots {
			if s.sol == nil {
				left = true
			}
		}
		if !left {
			if hidden {
				hidden = false
				L.keepRefs()
				continue
			}
			if progress {
				continue
			}
			if !L.inductive(i, bst) {
				for _, s := range L.slots {
					if !s.assumed {
						s.sol = nil
					}
				}
				continue
			}
			return
		}
		if !progress {
			if os.Getenv("DBGLOOP") != "" {
				for _, s := range L.slots {
					if s.sol == nil {
						fmt.Println("FOLD", L.id, show(s.mu), "next:", show(s.next))
					}
				}
			}
			L.fold(i)
		}
	}
	x.imprec["loop not solved: "+L.id] = true
}

// hiddenWrites: locations that refer to objects the body writes to, while they
// have no closed form. What is found in such a round may miss these writes.
func (L *loopSolver) hiddenWrites(bst *State) bool {
	hidden := false
	for k := range bst.mem {
		if k.k == KConst {
			continue
		}
		for _, s := range L.slots {
			if s.sol == nil && contains(k, s.tok) {
				s.ref, hidden = true, true
			}
		}
	}
	return hidden
}

// keepRefs gives up every closed form but those of the references that were
// written through; these are now assumed, and checked in the end.
func (L *loopSolver) keepRefs() {
	for _, s := range L.slots {
		s.assumed = s.ref && s.sol != nil
		if !s.assumed {
			s.sol = nil
		}
	}
}

// inductive: the assumed closed forms hold for the next iteration
func (L *loopSolver) inductive(i *Term, bst *State) bool {
	ok := true
	for k, s := range L.slots {
		if !s.assumed || s.sol.is("opaque") || s.sol.is("fold") || s.sol.is("proj") && s.sol.args[0].is("fold") {
			continue
		}
		w := restrictPC(subst(s.sol, map[*Term]*Term{L.wide: add(i, num(1))}), bst.pc)
		if s.next == w || sameList(s.next, w, bst.pc) {
			continue
		}
		ok = false
		L.f.x.imprec["reference changed in the loop "+L.id] = true
		s.sol = rawApp("opaque", append([]*Term{str(L.id), str(fmt.Sprint("ref", k, s.path)), L.wide}, L.f.x.lv...)...)
	}
	return ok
}

// sameList: the lists have the same length and elements
func sameList(a, b, pc *Term) bool {
	n := llen(b)
	if llen(a) != n {
		return false
	}
	y := freshVar("i", n)
	return restrict(elem(a, y), pc) == restrict(elem(b, y), pc)
}

// replaceSolved puts the closed forms found so far into t
func (L *loopSolver) replaceSolved(t *Term, i *Term) *Term {
	for _, s := range L.slots {
		if s.sol != nil && contains(t, s.tok) {
			t = replaceMu(t, s, subst(s.sol, map[*Term]*Term{L.wide: i}))
		}
	}
	return t
}

func replaceMu(t *Term, s *slot, sol *Term) *Term {
	if s.nf == 0 {
		return subst(t, map[*Term]*Term{s.tok: sol})
	}
	return replaceFn(t, s.tok, func(a []*Term) *Term {
		m := map[*Term]*Term{}
		for k, v := range a {
			m[formal(k)] = v
		}
		return subst(sol, m)
	})
}

// replaceFn replaces mu(tok, a...) by fn(a)
func replaceFn(t, tok *Term, fn func(a []*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !contains(t, tok) {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch {
		case t.is("mu") && t.args[0] == tok:
			var a []*Term
			for _, v := range t.args[1:] {
				a = append(a, rec(v))
			}
			r = fn(a)
		case t.k == KLam:
			y := freshVar("s", nil)
			r = mkLam(y, rec(applyLam(t, y)))
		default:
			r = rebuild(t, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func lamOver(i, body *Term) *Term { return mkLam(i, body) }

// solve: the value at the start of iteration i, from the recurrence N
func (L *loopSolver) solve(s *slot, N, i *Term) *Term {
	if N == s.mu {
		return s.phi0
	}
	if s.nf > 0 {
		if r := L.solveFamily(s, N, i); r != nil {
			return r
		}
	}
	return L.solveScalar(s, N, i)
}

func (L *loopSolver) solveScalar(s *slot, N, i *Term) *Term {
	if !contains(N, s.tok) {
		if N == s.phi0 {
			return s.phi0
		}
		if s.phi0 == tUndef {
			return subst(N, map[*Term]*Term{i: sub(i, num(1))})
		}
		return ite(le0(i), s.phi0, subst(N, map[*Term]*Term{i: sub(i, num(1))}))
	}
	mu := s.mu
	if s.isB {
		at := mu.args[0]
		hi, lo := cofAtom(N, at, true), cofAtom(N, at, false)
		if contains(hi, s.tok) || contains(lo, s.tok) {
			return nil
		}
		switch {
		case lo == tFalse:
			return and(asBool(s.phi0), not(mkEx(i, i, not(hi))))
		case hi == tTrue:
			return or(asBool(s.phi0), mkEx(i, i, lo))
		case s.phi0 == tTrue && imp(lo, hi) == tTrue:
			// once lo may restore it; not a closed form
		}
		return nil
	}
	ls := leaves(N)
	// group products
	if mu.k == KGrp {
		all := true
		for _, l := range ls {
			if l.k != KGrp {
				all = false
			}
		}
		if all {
			d := gmul(N, gexp(mu, num(-1)))
			if !contains(d, s.tok) {
				return gmul(s.phi0, mkProd(i, i, d))
			}
		}
		return nil
	}
	numeric := s.tok.op == "mu"
	if numeric {
		all := true
		var m *Term
		for _, l := range ls {
			if l == mu {
				continue
			}
			if l.is("mod") {
				if m != nil && m != l.args[1] {
					all = false
				}
				m = l.args[1]
				continue
			}
			if l.k == KGrp && l.args[0] != tNil {
				m = l.args[0]
				continue
			}
			if !(l.k == KPoly || isNumeric(l)) {
				all = false
			}
		}
		if !all {
			return nil
		}
		if m == nil {
			d := sub(N, mu)
			if !contains(d, s.tok) {
				if !contains(d, i) {
					return add(s.phi0, mul(d, i))
				}
				return add(s.phi0, mkSum(i, i, d))
			}
			return nil
		}
		if contains(m, s.tok) {
			return nil
		}
		// products modulo m
		prod := true
		for _, l := range ls {
			if l != mu && l.k != KGrp {
				prod = false
			}
		}
		if prod {
			d := localLift(N, func(l, _ *Term) *Term {
				if l == mu {
					return mkGrp(m, nil)
				}
				return gmul(l, gexp(toGrp(mu, m), num(-1)))
			})
			if !contains(d, s.tok) {
				return gmul(toGrp(s.phi0, m), mkProd(i, i, d))
			}
			return nil
		}
		d := localLift(N, func(l, _ *Term) *Term {
			if l == mu {
				return num(0)
			}
			if l.is("mod") {
				return sub(l.args[0], mu)
			}
			return sub(l, mu)
		})
		if contains(d, s.tok) {
			return nil
		}
		var sm *Term
		if !contains(d, i) {
			sm = mul(d, i)
		} else {
			sm = mkSum(i, i, d)
		}
		r := mod(add(s.phi0, sm), m)
		red := true
		for _, l := range leaves(s.phi0) {
			if !reducedMod(l, m) {
				red = false
			}
		}
		if red {
			return r
		}
		return ite(le0(i), s.phi0, r)
	}
	return L.solveColl(s, N, i)
}

func cofAtom(t, at *Term, hi bool) *Term {
	c := mkIteRaw(at, tTrue, tFalse)
	if !hi {
		c = not(c)
	}
	return restrictExact(t, at, hi)
}

var cofMemo = map[memoKey]*Term{}

func restrictExact(t, at *Term, hi bool) *Term {
	if t.k != KIte {
		if t.k == KStruct {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = restrictExact(a, at, hi)
			}
			return rebuildArgs(t, args)
		}
		return t
	}
	if t.args[0] == at {
		if hi {
			return t.args[1]
		}
		return t.args[2]
	}
	if t.args[0].id > at.id {
		return t
	}
	h := 0
	if hi {
		h = 1
	}
	key := memoKey{"cof", t.id, at.id, h}
	if r, ok := cofMemo[key]; ok {
		return r
	}
	r := mkNode(t.args[0], restrictExact(t.args[1], at, hi), restrictExact(t.args[2], at, hi))
	cofMemo[key] = r
	return r
}

// distinctIdx: does the index take different values in different iterations?
func distinctIdx(k, i *Term) bool {
	if k.k == KIte {
		return false
	}
	switch {
	case k == i:
		return true
	case k.k == KPoly || k.k == KVar:
		pm := polyMap(k)
		m, ok := pm[vsKey([]*Term{i})]
		if !ok || m.c.Sign() == 0 {
			return false
		}
		delete(pm, vsKey([]*Term{i}))
		return !contains(fromPoly(pm), i)
	case k.is("mkey"):
		return k.args[1] == i && !contains(k.args[0], i) && !contains(k.args[2], i)
	case k.is("elem"), k.is("fld"), k.is("pstr"), k.is("marsh"):
		return false
	}
	return false
}

func (L *loopSolver) solveColl(s *slot, N, i *Term) *Term {
	mu := s.mu
	ls := leaves(N)
	kind := ""
	for _, l := range ls {
		if l == mu {
			continue
		}
		k := ""
		switch {
		case l.is("lcat") && l.args[0] == mu:
			k = "append"
		case l.k == KBytes && l.args[0] == mu:
			k = "bytes"
		case l.is("lupd") && l.args[0] == mu:
			k = "lupd"
		case l.is("mput") && l.args[0] == mu:
			k = "mput"
		case l.is("mdel") && l.args[0] == mu:
			k = "mdel"
		case l.is("mput"), l.is("lupd"):
			k = "multi"
		}
		if k == "" || kind != "" && kind != k {
			return nil
		}
		kind = k
	}
	if kind == "multi" {
		return L.solveSwaps(s, N, i)
	}
	part := func(f func(l *Term) *Term) *Term { return localLift(N, func(l, _ *Term) *Term { return f(l) }) }
	cond := part(func(l *Term) *Term { return boolc(l != mu) })
	lam := func(b *Term) *Term { return mkLam(i, b) }
	switch kind {
	case "append":
		rest := part(func(l *Term) *Term {
			if l == mu {
				return mkLit(nil)
			}
			return lcat(l.args[1:]...)
		})
		// the number of elements so far
		if contains(rest, s.tok) {
			one := true
			for _, l := range leaves(rest) {
				if !(l.is("lit") && len(l.args) == 1) {
					one = false
				}
			}
			if one {
				rest = replaceTerms(rest, map[*Term]*Term{rawApp("llen", mu): add(llen(s.phi0), i)})
			}
		}
		if contains(rest, s.tok) || contains(cond, s.tok) {
			return nil
		}
		one, any := true, (*Term)(nil)
		for _, l := range leaves(rest) {
			if l.is("lit") && len(l.args) == 0 {
				continue
			}
			if l.is("lit") && len(l.args) == 1 {
				any = l
				continue
			}
			one = false
		}
		if one && any != nil {
			val := part(func(l *Term) *Term {
				if l == mu {
					return tDead
				}
				r := lcat(l.args[1:]...)
				if r.is("lit") && len(r.args) == 1 {
					return r.args[0]
				}
				return tDead
			})
			val = restrict(val, L.care)
			if contains(val, s.tok) {
				val = replaceTerms(val, map[*Term]*Term{rawApp("llen", mu): add(llen(s.phi0), i)})
			}
			if cond == tTrue {
				return lcat(s.phi0, mkGen(i, i, val))
			}
			return lcat(s.phi0, mkFiltL(i, lam(cond), lam(val)))
		}
		return lcat(s.phi0, app("lflat", i, lam(rest)))
	case "bytes":
		rest := part(func(l *Term) *Term {
			if l == mu {
				return str("")
			}
			return bcat(l.args[1:]...)
		})
		if contains(rest, s.tok) {
			return nil
		}
		return bcat(s.phi0, mkBloop(i, i, rest))
	case "lupd":
		idx := part(func(l *Term) *Term {
			if l == mu {
				return tDead
			}
			return l.args[1]
		})
		val := part(func(l *Term) *Term {
			if l == mu {
				return tDead
			}
			return l.args[2]
		})
		if contains(val, s.tok) && idx.k != KIte && distinctIdx(idx, i) {
			val = replaceTerms(val, map[*Term]*Term{rawApp("elem", mu, idx): elem(s.phi0, idx)})
		}
		if contains(val, s.tok) || contains(idx, s.tok) || contains(cond, s.tok) {
			return nil
		}
		return lupdall(s.phi0, i, lam(cond), lam(idx), lam(val))
	case "mput":
		key := part(func(l *Term) *Term {
			if l == mu {
				return tDead
			}
			return l.args[1]
		})
		val := part(func(l *Term) *Term {
			if l == mu {
				return tDead
			}
			return l.args[2]
		})
		if contains(val, s.tok) && key.k != KIte && distinctIdx(key, i) {
			val = replaceTerms(val, map[*Term]*Term{rawApp("mget", mu, key): mget(s.phi0, key, nil)})
		}
		if contains(cond, s.tok) && key.k != KIte && distinctIdx(key, i) {
			cond = replaceTerms(cond, map[*Term]*Term{rawApp("mget", mu, key): mget(s.phi0, key, nil), rawApp("mhas", mu, key): mhas(s.phi0, key)})
		}
		if contains(val, s.tok) || contains(key, s.tok) || contains(cond, s.tok) {
			return nil
		}
		return mputallL(s.phi0, i, lam(cond), lam(key), lam(val))
	case "mdel":
		key := part(func(l *Term) *Term {
			if l == mu {
				return tDead
			}
			return l.args[1]
		})
		if contains(key, s.tok) || contains(cond, s.tok) {
			return nil
		}
		return mdelallL(s.phi0, i, lam(cond), lam(key))
	}
	return nil
}

// solveSwaps: every iteration exchanges two elements, or none. The result is
// some permutation of the initial list.
func (L *loopSolver) solveSwaps(s *slot, N, i *Term) *Term {
	mu := s.mu
	ok := true
	pos := func(k int) *Term {
		return localLift(N, func(l, _ *Term) *Term {
			if l == mu {
				return num(0)
			}
			if !l.is("lupd") || !l.args[0].is("lupd") || l.args[0].args[0] != mu {
				ok = false
				return tDead
			}
			a, b := l.args[1], l.args[0].args[1]
			if l.args[2] != rawApp("elem", mu, b) || l.args[0].args[2] != rawApp("elem", mu, a) {
				ok = false
			}
			return []*Term{a, b}[k]
		})
	}
	a, b := pos(0), pos(1)
	if !ok && N.is("lupd") && N.args[0].is("lupd") && N.args[0].args[0] == mu {
		// inside-out: the i-th value goes to position j <= i, and what was there to i
		j, v := N.args[1], N.args[2]
		if !contains(j, s.tok) && !contains(v, s.tok) && N.args[0].args[1] == i && N.args[0].args[2] == rawApp("elem", mu, j) &&
			j.is("arith:%") && sub(add(i, num(1)), j.args[1]) == num(0) {
			id := rawApp("inserts", i, mkLam(i, j))
			y := freshVar("i", i)
			return lcat(mkGen(i, y, subst(v, map[*Term]*Term{i: permAt("perm", id, y, i)})), lsub(s.phi0, i, sub(llen(s.phi0), i)))
		}
		return nil
	}
	if !ok || contains(a, s.tok) || contains(b, s.tok) {
		return nil
	}
	id := rawApp("swaps", i, mkLam(i, a), mkLam(i, b))
	n := llen(s.phi0)
	y := freshVar("i", n)
	return mkGen(n, y, elem(s.phi0, permAt("perm", id, y, n)))
}

// mkBloop: concatenation over i in [0,n) of a byte string
func mkBloop(n, v, body *Term) *Term { return mkBloopL(n, mkLam(v, body)) }

func mkBloopL(n, l *Term) *Term {
	return liftN("bloop", func(a []*Term) *Term {
		n, l := a[0], a[1]
		if n.isC(0) {
			return str("")
		}
		if l.k == KLam && n.k == KNum && n.n.IsInt64() && n.n.Int64() <= 8 && n.n.Sign() > 0 {
			var ps []*Term
			for i := int64(0); i < n.n.Int64(); i++ {
				ps = append(ps, applyLam(l, num(i)))
			}
			return bcat(ps...)
		}
		return rawApp("bloop", n, l)
	}, n, l)
}

func mkProd(n, v, body *Term) *Term { return mkProdL(n, mkLam(v, body)) }

// solveFamily: one object per index
func (L *loopSolver) solveFamily(s *slot, N, i *Term) *Term {
	if s.fresh {
		at := orient("ieq", formal(L.level), i)
		hi := restrictExact(N, at, true)
		if !hasFreshAtoms(hi, i) {
			hi = replaceFn(hi, s.tok, func(a []*Term) *Term {
				same := true
				for k, v := range a {
					if v != formal(k) && v != i {
						same = false
					}
				}
				if same {
					return tUndef
				}
				return muFor(s.tok, 0)
			})
			if !contains(hi, s.tok) {
				return subst(hi, map[*Term]*Term{i: formal(L.level)})
			}
			return nil
		}
	}
	// objects of other loops, visited one per iteration
	for _, at := range support(N) {
		if !at.is("ieq") || !contains(at, i) {
			continue
		}
		fm, ix := at.args[0], at.args[1]
		if fm.k != KFormal {
			fm, ix = ix, fm
		}
		if fm.k != KFormal || !distinctIdx(ix, i) || ix.k == KApp {
			continue
		}
		hi := restrictExact(N, at, true)
		lo := restrictExact(N, at, false)
		if lo != s.mu {
			continue
		}
		// the iteration that visits fm
		pm := polyMap(ix)
		c := pm[vsKey([]*Term{i})].c
		if !c.IsInt64() || c.Int64() != 1 && c.Int64() != -1 {
			continue
		}
		rest := sub(ix, mul(bigTerm(c), i))
		inv := mul(bigTerm(c), sub(fm, rest))
		hi = replaceFn(hi, s.tok, func(a []*Term) *Term {
			for k, v := range a {
				if v != formal(k) && !(formal(k) == fm && v == ix) {
					return muFor(s.tok, 0)
				}
			}
			return s.phi0
		})
		if contains(hi, s.tok) {
			return nil
		}
		v := subst(hi, map[*Term]*Term{i: inv})
		visited := and(le0(neg(inv)), le0(sub(add(inv, num(1)), i)))
		if c.Int64() == 1 && rest.isC(0) {
			visited = le0(sub(add(inv, num(1)), i))
		}
		return ite(visited, v, s.phi0)
	}
	// one object of an outer loop, changed in every iteration
	for _, at := range support(N) {
		if !at.is("ieq") || contains(at, i) {
			continue
		}
		fm, ix := at.args[0], at.args[1]
		if fm.k != KFormal {
			fm, ix = ix, fm
		}
		if fm.k != KFormal || ix.k == KFormal || restrictExact(N, at, false) != s.mu {
			continue
		}
		hi := replaceFn(restrictExact(N, at, true), s.tok, func(a []*Term) *Term {
			for k, v := range a {
				if v != formal(k) && !(formal(k) == fm && v == ix) {
					return muFor(s.tok, 0)
				}
			}
			return s.mu
		})
		if contains(replaceTerms(hi, map[*Term]*Term{s.mu: tNil}), s.tok) {
			continue
		}
		one := *s
		one.phi0 = restrictExact(s.phi0, at, true)
		if r := L.solveScalar(&one, hi, i); r != nil {
			return ite(mkIteRaw(at, tTrue, tFalse), r, s.phi0)
		}
	}
	return nil
}

func hasFreshAtoms(t, i *Term) bool {
	for _, at := range support(t) {
		if at.is("ieq") && contains(at, i) {
			return true
		}
	}
	return false
}

// onlyElements: the location holds a list, of which the body changes elements
// only
func onlyElements(N *Term, q *slot) bool {
	some := false
	for l, c := range leafConds(N) {
		if l == q.mu {
			continue
		}
		for l.is("lupd") || l.is("lupdall") {
			some = true
			l = l.args[0]
		}
		if !l.is("mu") || l.args[0] != q.tok {
			return false
		}
		for j, a := range l.args[1:] {
			if a != formal(j) && and(c, not(ieq(formal(j), a))) != tFalse {
				return false
			}
		}
	}
	return some
}

// smallest: the smallest set of remaining locations whose recurrences
// mention no others
func (L *loopSolver) smallest(rest []*slot, i *Term) []*slot {
	best := rest
	for _, s := range rest {
		in := map[*slot]bool{s: true}
		todo := []*slot{s}
		for len(todo) > 0 {
			N := L.replaceSolved(todo[0].next, i)
			todo = todo[1:]
			for _, q := range rest {
				if !in[q] && contains(N, q.tok) {
					in[q] = true
					todo = append(todo, q)
				}
			}
		}
		if len(in) < len(best) {
			best = nil
			for _, q := range rest {
				if in[q] {
					best = append(best, q)
				}
			}
		}
	}
	return best
}

// selfPut: a map that every iteration adds to depending on what it holds. The
// iterate is the map with all that the iterations before it added, in terms of the
// iterates; fields that every addition keeps are those of the initial map.
func (L *loopSolver) selfPut(s *slot, N, i, iterate *Term) *Term {
	mu := s.mu
	if s.nf > 0 || s.isB || mu.k == KGrp {
		return nil
	}
	some := false
	for _, l := range leaves(N) {
		if l == mu {
			continue
		}
		if !l.is("mput") || l.args[0] != mu {
			return nil
		}
		some = true
	}
	if !some {
		return nil
	}
	part := func(f func(l *Term) *Term) *Term { return localLift(N, func(l, _ *Term) *Term { return f(l) }) }
	at := func(k int) *Term {
		return part(func(l *Term) *Term {
			if l == mu {
				return tDead
			}
			return l.args[k]
		})
	}
	cond := part(func(l *Term) *Term { return boolc(l != mu) })
	key, val := at(1), at(2)
	if has := mhas(mu, key); key.k != KIte && has.k == KIte && and(cond, not(has)) == tFalse {
		// only entries it has are changed, so it keeps the keys of the initial map
		cond = and(restrict(cond, has), mhas(s.phi0, key))
	}
	if val.k == KStruct && key.k != KIte {
		was := rawApp("mget", mu, key)
		if val.args[0] == was {
			val = mkStruct(val.op, mget(s.phi0, key, mgetZero[was]), val.names, val.args[1:])
		}
		for k, n := range val.names {
			if val.args[k+1] == mkField(was, n) {
				val = setField(val, n, mkField(mget(s.phi0, key, mgetZero[was]), n))
			}
		}
	}
	m := map[*Term]*Term{s.tok: iterate}
	lam := func(b *Term) *Term { return mkLam(i, subst(b, m)) }
	return mputallL(s.phi0, i, lam(cond), lam(key), lam(val), mkLam(i, iterate))
}

// fold gives remaining locations the joint iterate of their recurrences
func (L *loopSolver) fold(i *Term) {
	var rest []*slot
	for _, s := range L.slots {
		if s.sol == nil {
			rest = append(rest, s)
		}
	}
	rest = L.smallest(rest, i)
	x := L.f.x
	for _, s := range rest {
		if s.nf > 0 {
			// no closed form for a family of objects
			x.imprec["objects changed in the loop "+L.id] = true
			for k, q := range rest {
				args := append([]*Term{str(L.id), str(fmt.Sprint(k, q.path)), L.wide}, x.lv...)
				for j := 0; j < q.nf; j++ {
					args = append(args, formal(j))
				}
				N := q.next
				q.sol = rawApp("opaque", args...)
				if q.nf > 0 && onlyElements(N, q) {
					// only elements change
					y := freshVar("i", llen(q.phi0))
					q.sol = mkGen(llen(q.phi0), y, elem(q.sol, y))
				}
				if q.isB {
					q.sol = asBool(q.sol)
				}
				if q.mu.k == KGrp {
					q.sol = grpAtom(q.sol)
				}
			}
			return
		}
	}
	sv := freshVar("nu", nil)
	m := map[*Term]*Term{}
	for k, s := range rest {
		m[s.tok] = rawApp("proj", sv, num(int64(k)))
	}
	var next, init []*Term
	for _, s := range rest {
		N := L.replaceSolved(s.next, i)
		next = append(next, subst(N, m))
		init = append(init, s.phi0)
	}
	step := mkLam(i, mkLam(sv, rawApp("tuple", next...)))
	fo := rawApp("fold", L.wide, rawApp("tuple", init...), step)
	for k, s := range rest {
		v := rawApp("proj", fo, num(int64(k)))
		if s.isB {
			s.sol = asBool(v)
		} else if s.mu.k == KGrp {
			s.sol = grpAtom(v)
		} else if w := L.selfPut(s, subst(L.replaceSolved(s.next, i), map[*Term]*Term{i: L.wide}), L.wide, rawApp("opaque", append([]*Term{str(L.id), str(fmt.Sprint("map", s.path)), L.wide}, x.lv...)...)); len(rest) == 1 && w != nil {
			s.sol = w
		} else {
			s.sol = v
		}
	}
	x.notes["fold in "+L.id] = true
}

// ---------------------------------------------------------------------------
// leaving the loop

// tripCount: the index at which the header's condition ends the loop
func (L *loopSolver) tripCount() (*Term, *edge) {
	i := L.index()
	_, bst, _, exits := L.round(i, nil)
	if bst == nil {
		return nil, nil
	}
	for k := range exits {
		e := exits[k]
		if e.from != L.l.header {
			continue
		}
		c := restrict(e.st.pc, L.st0.pc)
		if n := threshold(c, i); n != nil {
			return n, &exits[k]
		}
	}
	// "while ok && i < n": the bound is tested after another condition
	if len(exits) == 2 {
		for k := range exits {
			e, o := exits[k], exits[1-k]
			if e.from == L.l.header || o.from != L.l.header {
				continue
			}
			c := restrict(restrict(e.st.pc, L.st0.pc), not(restrict(o.st.pc, L.st0.pc)))
			if n := threshold(c, i); n != nil {
				L.second = true
				return n, &exits[k]
			}
		}
	}
	return tInf, nil
}

// threshold: c is "i >= n" with n independent of i
func threshold(c, i *Term) *Term {
	if c.k != KIte {
		return nil
	}
	for _, a := range support(c) {
		if contains(a, i) {
			continue
		}
		// the bound itself is a case distinction
		var r [2]*Term
		for k := range r {
			q := restrictExact(c, a, k == 0)
			if q == tTrue {
				r[k] = num(0)
			} else if r[k] = threshold(q, i); r[k] == nil {
				return nil
			}
		}
		return ite(mkIteRaw(a, tTrue, tFalse), r[0], r[1])
	}
	at := c.args[0]
	posi := c.args[1] == tTrue && c.args[2] == tFalse
	negi := c.args[1] == tFalse && c.args[2] == tTrue
	if !posi && !negi {
		return nil
	}
	switch {
	case at.is("le0"):
		p := at.args[0]
		if negi {
			p = sub(num(1), p)
		}
		// p <= 0 with p = n - i
		r := add(p, i)
		if !contains(r, i) && r.k != KIte {
			return nonneg(r)
		}
	case at.is("eq0") && posi:
		p := at.args[0]
		for _, r := range []*Term{add(p, i), sub(i, p)} {
			if !contains(r, i) {
				// never, if i starts above
				return ite(le0(neg(r)), r, tInf)
			}
		}
	}
	return nil
}

func nonneg(r *Term) *Term {
	if le0(neg(r)) == tTrue {
		return r
	}
	return ite(le0(r), num(0), r)
}

func (L *loopSolver) finish(n *Term, normal *edge) []edge {
	f := L.f
	i := L.index()
	f.x.onStep(f, L.st0, L.l.header.Instrs[0].Pos())
	_, bst, _, all := L.round(i, nil)
	if bst != nil {
		f.x.onStep(f, bst, L.l.header.Instrs[0].Pos())
	}
	if L.second && L.wide != i {
		// the other exit may be the last one, when the bound is reached
		i = L.wide
		mon := f.x.mon
		f.x.mon = false
		_, bst, _, all = L.round(i, nil)
		f.x.mon = mon
	}
	cont := tFalse
	if bst != nil {
		cont = restrict(bst.pc, L.st0.pc)
	}
	S := not(cont) // the iteration does not continue
	if L.second {
		// other than by the bound
		for _, e := range all {
			if e.from == normal.from && e.idx == normal.idx {
				S = and(S, not(restrict(e.st.pc, L.st0.pc)))
			}
		}
	}
	var out []edge
	m := n
	if L.second {
		m = add(n, num(1))
	}
	stop := mkEx(m, i, S)
	if n == tInf {
		stop = tTrue
	}
	// values used after the loop
	used := f.usedOutside(L.l)
	vals := map[ssa.Value]*Term{}
	exitPC := tFalse
	base := L.st0
	// early exits
	if and(base.pc, stop) != tFalse {
		w := mkFirst(m, i, S)
		if w.k == KIte {
			// the first stop depends on conditions fixed before the loop
			w = restrict(w, and(base.pc, stop))
		}
		Sw := subst(S, map[*Term]*Term{i: w})
		saved := L.st0
		L.st0 = base.clone()
		L.st0.pc = and(base.pc, and(stop, Sw))
		if L.st0.pc == tFalse {
			L.st0.pc = and(base.pc, stop)
			Sw = tTrue
		}
		care := L.st0.pc
		_, _, _, exits := L.round(w, nil)
		L.st0 = saved
		for _, e := range exits {
			if normal != nil && e.from == normal.from && e.idx == normal.idx {
				continue
			}
			g := restrict(e.st.pc, care)
			if g == tDead {
				continue
			}
			e.st.pc = and(and(base.pc, stop), g)
			if e.st.pc == tFalse {
				continue
			}
			f.x.onStep(f, e.st, L.l.header.Instrs[0].Pos())
			f.x.newStep(e.st)
			exitPC = or(exitPC, e.st.pc)
			out = append(out, e)
		}
		for _, v := range used {
			if t, ok := f.env[v]; ok {
				vals[v] = t
			}
		}
	}
	if normal != nil {
		saved := L.st0
		L.st0 = base.clone()
		L.st0.pc = and(base.pc, not(stop))
		if L.st0.pc != tFalse {
			_, _, _, exits := L.round(n, nil)
			for _, e := range exits {
				if e.from == normal.from && e.idx == normal.idx {
					e.st.pc = L.st0.pc
					f.x.onStep(f, e.st, L.l.header.Instrs[0].Pos())
					f.x.newStep(e.st)
					out = append(out, e)
				}
			}
			for _, v := range used {
				t, ok := f.env[v]
				if !ok {
					continue
				}
				if o, ok := vals[v]; ok && o != t && exitPC != tFalse {
					f.env[v] = ite(exitPC, o, t)
				}
			}
		} else {
			for v, t := range vals {
				f.env[v] = t
			}
		}
		L.st0 = saved
	}
	if len(out) == 1 {
		for _, v := range used {
			if t, ok := f.env[v]; ok && L.l.ownList(v) && !t.is("slice") {
				// built by appending, written to in place later: a place of
				// its own from now on
				r := rawApp("alloc", append([]*Term{str(f.site(v.(ssa.Instruction)))}, f.x.lv...)...)
				f.x.store(out[0].st, r, t, "")
				f.env[v] = rawApp("slice", r, num(0), llen(t))
			}
		}
	}
	return out
}

// ownList: the list v collected by the loop is reachable through v only, and
// later code writes to its elements
func (l *loop) ownList(v ssa.Value) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != l.header || isByteSlice(phi.Type()) {
		return false
	}
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for k, e := range phi.Edges {
		if !l.blocks[phi.Block().Preds[k]] {
			switch e := e.(type) {
			case *ssa.Const:
			case *ssa.MakeSlice:
				if c, ok := e.Len.(*ssa.Const); !ok || c.Int64() != 0 || len(*e.Referrers()) != 1 {
					return false
				}
			case *ssa.Slice: // make with constant capacity
				al, ok := e.X.(*ssa.Alloc)
				c, okh := e.High.(*ssa.Const)
				if !ok || !okh || c.Int64() != 0 || len(*al.Referrers()) != 1 || len(*e.Referrers()) != 1 {
					return false
				}
			default:
				return false
			}
			continue
		}
		c, ok := e.(*ssa.Call)
		if !ok || len(*c.Referrers()) != 1 {
			return false
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || c.Call.Args[0] != v {
			return false
		}
	}
	written := false
	for _, u := range *phi.Referrers() {
		if l.blocks[u.Block()] {
			switch u := u.(type) {
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" && u.Call.Args[0] == v && (len(u.Call.Args) < 2 || u.Call.Args[1] != v) || b.Name() == "len") {
					continue
				}
			case *ssa.DebugRef:
				continue
			}
			return false
		}
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, s := range *ia.Referrers() {
				if s, ok := s.(*ssa.Store); ok && s.Addr == ia {
					written = true
				}
			}
		}
	}
	return written
}

// usedOutside: values of the loop that later code uses
func (f *frame) usedOutside(l *loop) []ssa.Value {
	var r []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if !l.blocks[u.Block()] {
					r = append(r, v)
					break
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

var _ = types.Typ
