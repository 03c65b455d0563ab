package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: secrets never leave their owner.
//
// Every output - the contents of a message, what is printed, logged, written
// or handed to another program - is a term over the state, the message
// received and the random draws. Its clear part is what is left when the
// exponents of group elements, the keys and nonces of signatures and the
// witnesses of proofs are taken away; signatures and proofs are judged where
// they are made. A secret or a draw may be in the clear part only as part of
// a sum that contains a draw (or a secret of an honesty proof) with factor one
// or minus one that is in no other output: such a sum is distributed like the
// draw. What cannot be shown to be such a sum is a violation.
//
// Secret are the fields named below, and every field of the roles' state that
// is found to be given a draw or another secret.

var secretFields = map[string]bool{
	"Coordinator.PrivateKey": true, "AnonServer.PrivateKey": true, "AnonServer.Roundkey": true, "DissentClient.PrivateKey": true,
	"GnHonestyProof.Secret": true, "FujiOkamBase.P": true, "FujiOkamBase.Q": true,
	"FujiOkamBase.alpha1": true, "FujiOkamBase.alpha2": true, "FujiOkamBase.alpha3": true,
	"FujiOkamBase.alpha4": true, "FujiOkamBase.alpha5": true, "FujiOkamBase.alpha6": true,
}

// masks: fields whose elements may hide another secret once
var maskFields = map[string]bool{"GnHonestyProof.Secret": true}

// privateFields: may be shown to the role's own user, but not to others
var privateFields = map[string]bool{"DissentClient.Reputation": true, "DissentClient.R": true}

// publicFields: drawn or computed from secrets, and known to everyone
var publicFields = map[string]bool{
	"FujiOkamBase.N": true, "FujiOkamBase.H1": true, "FujiOkamBase.RandomRadius": true, "FujiOkamBase.RandomDiameter": true,
	"DissentClient.AllGnHonestyChallenge": true,
	"FujiOkamBase.G1":                     true, "FujiOkamBase.G2": true, "FujiOkamBase.G3": true, "FujiOkamBase.G4": true, "FujiOkamBase.G5": true, "FujiOkamBase.G6": true,
}

// disclosed: draws that the protocol makes known to the receiver
var disclosed = map[string]bool{
	"REQUEST_BRIDGES/rind": true, "INIT_PEDERSEN_R/r": true, "BCAST_PEDERSEN_RDIFF/rDiffs": true,
	"GN_HONESTY_CHALLENGE/honesty_chal": true,
}

func init() {
	checks["C19"] = checkDef{[]string{"common", "shmodel", "c19"}, runC19, "Every entry point of the roles (their Handle per message code, the functions their main loops call, their initialization and main loop) is evaluated, by value numbering over the SSA form of all code reached, on unknown contents in an unknown state; functions with outputs reached from none of them on unknown arguments; signing and proving on secret arguments. Obligations are the clear parts of all outputs. "}
}

// reveal: a scalar in the clear part of an output
type reveal struct {
	t     *Term
	pc    *Term
	vars  []*Term
	where string // output
	pos   string
	free  bool // draws may be known
	fn    string
	msg   bool // for another role
}

type secrecy struct {
	p       *Program
	r       *Report
	visited map[string]bool
	found   map[string]bool // fields found to be secret
	bad     map[string]string
	seen    map[string][2]string
	order   []string
}

func (k *secrecy) obligation(rule, what, pos, why string) {
	key := rule + "|" + what + "|" + pos
	if _, ok := k.seen[key]; !ok {
		k.seen[key] = [2]string{rule, what}
		k.order = append(k.order, key)
	}
	if why != "" && k.bad[key] == "" {
		k.bad[key] = why
	}
}

// isOutput: a call that lets its arguments out of the process
func isOutput(c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "print" || b.Name() == "println"
	}
	if c.IsInvoke() {
		n := c.Method.Name()
		if n != "Write" && n != "WriteString" && n != "WriteTo" {
			return false
		}
		p := c.Method.Pkg()
		return p != nil && (p.Path() == "net" || p.Path() == "io" || p.Path() == "os")
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if funcFull(f) == utilPkg+".SendEvent" {
		return true
	}
	o := f.Object()
	if o == nil || o.Pkg() == nil {
		return false
	}
	n := f.Name()
	switch o.Pkg().Path() {
	case "fmt":
		return strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Fprint")
	case "log", "log/syslog", "log/slog":
		return n != "New" && n != "Default"
	case "os":
		return strings.HasPrefix(n, "Write") || n == "Setenv" || n == "StartProcess" || n == "Create" || n == "OpenFile" || n == "MkdirAll" || n == "Mkdir" || n == "Rename"
	case "io/ioutil":
		return strings.HasPrefix(n, "Write")
	case "io":
		return n == "WriteString" || n == "Copy"
	case "bufio":
		return strings.HasPrefix(n, "Write") || n == "ReadFrom"
	case "net":
		return strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Dial")
	case "os/exec":
		return n == "Command" || n == "CommandContext"
	case "syscall":
		return true
	case "encoding/gob", "encoding/json":
		return false
	}
	return false
}

type entry19 struct {
	fn     *ssa.Function
	label  string
	state  types.Type // type of the role's state
	global *ssa.Global
	kind   *Term
	assume *Term
	raw    bool
	secret func(v *ssa.Parameter) bool // secret parameters, of which the result is an output
	skip   map[*ssa.Function]bool
	init   bool // makes the state
	lrs    bool // random answers are part of the signature
}

type run19 struct {
	*secrecy
	x     *Exec
	e     entry19
	types map[*Term]types.Type // of symbols
	sec   map[*Term]bool       // secret parameters
	out   []reveal
	told  map[*Term]bool // draws the receiver is to know
	state bool           // the state is looked at, not an output
	msg   bool           // the output is for another role
}

// typeOf a place in the state, as far as it is known
func (k *run19) typeOf(t *Term) types.Type {
	if r, ok := k.types[t]; ok {
		return r
	}
	under := func(t types.Type) types.Type {
		if t == nil {
			return nil
		}
		return stripPtr(t).Underlying()
	}
	switch {
	case t.is("fld") || t.is("afield"):
		if s, ok := under(k.typeOf(t.args[0])).(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == t.args[1].op {
					return s.Field(i).Type()
				}
			}
		}
	case t.is("elem") || t.is("aindex"):
		switch s := under(k.typeOf(t.args[0])).(type) {
		case *types.Slice:
			return s.Elem()
		case *types.Array:
			return s.Elem()
		}
	case t.is("mget"):
		if s, ok := under(k.typeOf(t.args[0])).(*types.Map); ok {
			return s.Elem()
		}
	case t.is("secval"), t.is("deref"):
		return k.typeOf(t.args[0])
	}
	return nil
}

func (k *run19) fieldName(t *Term) string {
	if !t.is("fld") && !t.is("afield") {
		return ""
	}
	o := k.typeOf(t.args[0])
	if o == nil {
		return ""
	}
	if n, ok := stripPtr(o).(*types.Named); ok {
		return n.Obj().Name() + "." + t.args[1].op
	}
	return ""
}

func (k *secrecy) isSecretField(n string) bool { return n != "" && (secretFields[n] || k.found[n]) }

// secretName: some secret field has the name
func (k *secrecy) secretName(n string) bool {
	for _, m := range []map[string]bool{secretFields, k.found} {
		for f := range m {
			if strings.HasSuffix(f, "."+n) {
				return true
			}
		}
	}
	return false
}

// secretPlace: t is, or is part of, what a secret field holds
func (k *run19) secretPlace(t *Term) (listed, ok bool) {
	for {
		if k.sec[t] {
			return true, true
		}
		if n := k.fieldName(t); k.isSecretField(n) || k.msg && privateFields[n] {
			return secretFields[n], true
		}
		if !t.is("fld") && !t.is("afield") && !t.is("elem") && !t.is("aindex") && !t.is("mget") && !t.is("secval") {
			return false, false
		}
		t = t.args[0]
	}
}

// holdsSecret: values of the type have fields that are secret
func (k *secrecy) holdsSecret(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return k.holdsSecret(u.Elem(), seen)
	case *types.Slice:
		return k.holdsSecret(u.Elem(), seen)
	case *types.Array:
		return k.holdsSecret(u.Elem(), seen)
	case *types.Map:
		return k.holdsSecret(u.Elem(), seen) || k.holdsSecret(u.Key(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if k.isSecretField(name+"."+u.Field(i).Name()) || k.holdsSecret(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// isPlace: a part of the state or of a parameter
func isPlace(t *Term) bool {
	return t.is("fld") || t.is("afield") || t.is("elem") || t.is("aindex") || t.is("mget") || t.is("sym") || t.is("root")
}

// generated: what another program printed, from which the factors are taken
func generated(t *Term) bool {
	return t.is("proj") && len(t.args) == 2 && strings.HasPrefix(t.args[0].op, "ext:(*os/exec.Cmd).") && t.args[1] == num(0)
}

// hidden: the arguments that an operation does not show
func hidden(t *Term, i int) bool {
	switch t.op {
	case "sig":
		return i > 0
	case "hproof":
		return true
	}
	return false
}

// clear visits the clear part of t: f is called for each scalar in it
func (k *run19) clear(t, pc *Term, vars []*Term, f func(t, pc *Term, vars []*Term)) {
	type key struct{ t, pc *Term }
	done := map[key]bool{}
	blinded := false
	var rec func(t, pc *Term, vars []*Term)
	rec = func(t, pc *Term, vars []*Term) {
		if t == nil || pc == tFalse || done[key{t, pc}] || blinded && (t.is("perm") || t.is("perminv")) {
			return
		}
		if !blinded {
			done[key{t, pc}] = true
		}
		switch t.k {
		case KConst, KNum, KStr, KVar, KBVar, KFormal:
			return
		case KApp:
			if t.is("llen") {
				return
			}
		case KGrp:
			// the order of the elements is hidden where they are blinded
			old := blinded
			for _, b := range t.fs {
				walk(b.e, func(e *Term) bool {
					if !blinded && isDraw(e) {
						blinded = true
					} else if !blinded && isPlace(e) {
						_, blinded = k.secretPlace(e)
					}
					return !blinded
				})
			}
			for _, b := range t.fs {
				rec(b.b, pc, vars)
			}
			blinded = old
			return
		case KPoly:
			f(t, pc, vars)
			return
		case KIte:
			c := ite(t.args[0], tTrue, tFalse)
			rec(t.args[0], pc, vars)
			rec(t.args[1], and(pc, c), vars)
			rec(t.args[2], and(pc, not(c)), vars)
			return
		case KLam:
			y := freshVar("d", nil)
			rec(applyLam(t, y), pc, append(vars[:len(vars):len(vars)], y))
			return
		}
		if isDraw(t) || generated(t) {
			f(t, pc, vars)
			return
		}
		if isPlace(t) {
			if _, s := k.secretPlace(t); s {
				f(t, pc, vars)
				return
			}
			ty := k.typeOf(t)
			if ty != nil {
				if !k.state && k.holdsSecret(ty, map[types.Type]bool{}) {
					f(t, pc, vars)
				}
				return
			}
		}
		if t.k == KApp && len(t.args) > 1 {
			var n *Term
			switch t.op {
			case "mputall", "mdelall", "lupdall":
				n = t.args[1]
			case "gen", "ex", "first", "sum", "prod", "gprod", "fold", "bloop":
				n = t.args[0]
			}
			if n != nil {
				for _, a := range t.args {
					if a.k == KLam {
						y := freshVar("d", n)
						rec(applyLam(a, y), pc, append(vars[:len(vars):len(vars)], y))
					} else {
						rec(a, pc, vars)
					}
				}
				return
			}
		}
		if t.k == KStruct && k.state {
			for i, a := range t.args {
				if i >= len(t.args)-len(t.names) && k.secretName(t.names[i-len(t.args)+len(t.names)]) {
					continue
				}
				rec(a, pc, vars)
			}
			return
		}
		for i, a := range children(t) {
			if !hidden(t, i) {
				rec(a, pc, vars)
			}
		}
	}
	rec(t, pc, vars)
}

// atoms: the secrets and draws in the clear part of a scalar
func (k *run19) atoms(t *Term) (secrets, draws []*Term) {
	seen := map[*Term]bool{}
	var visit func(t, pc *Term, vars []*Term)
	add := func(l *[]*Term, t *Term) {
		if !seen[t] {
			seen[t] = true
			*l = append(*l, t)
		}
	}
	visit = func(t, pc *Term, vars []*Term) {
		switch {
		case t.k == KPoly:
			for _, m := range t.ms {
				for _, v := range m.vs {
					k.clear(v, tTrue, nil, visit)
				}
			}
		case isDraw(t):
			add(&draws, t)
		default:
			add(&secrets, t)
		}
	}
	visit2 := visit
	k.clear(t, tTrue, nil, visit2)
	return
}

// maskOf: v hides what it is added to
func (k *run19) isMask(v *Term) bool {
	if v.is("secval") {
		v = v.args[0]
	}
	if isDraw(v) {
		return true
	}
	if v.is("elem") {
		return maskFields[k.fieldName(v.args[0])]
	}
	return false
}

// private: t depends on what others are not told
func (k *run19) private(t *Term) bool {
	r := false
	walk(t, func(s *Term) bool {
		r = r || isPlace(s) && privateFields[k.fieldName(s)]
		return !r
	})
	return r
}

// split writes t as a mask and the rest
func (k *run19) split(t *Term) (masks, rests []*Term) {
	if t.k != KPoly {
		if k.isMask(t) {
			return []*Term{t}, []*Term{num(0)}
		}
		return
	}
	for _, m := range t.ms {
		if len(m.vs) != 1 || !k.isMask(m.vs[0]) || !m.c.IsInt64() || m.c.Int64() != 1 && m.c.Int64() != -1 {
			continue
		}
		d := m.vs[0]
		masks = append(masks, d)
		rests = append(rests, sub(t, mul(bigTerm(m.c), d)))
	}
	return
}

func strip(d *Term) *Term {
	if d.is("secval") {
		return d.args[0]
	}
	return d
}

// uses: t has, in its clear part, something that may be the mask d under pc
func (k *run19) uses(t, d, pc *Term) bool {
	differ := func(i, j *Term) bool {
		if x := sub(i, j); x.k == KNum {
			return x.n.Sign() != 0
		}
		// the least and greatest difference
		x := sub(i, j)
		lo, hi := x, x
		for _, v := range x.fv {
			if len(v.args) == 0 || v.args[0] == nil {
				continue
			}
			last := sub(v.args[0], num(1))
			step := sub(replaceTerms(x, map[*Term]*Term{v: add(v, num(1))}), x)
			if step.k != KNum {
				return false
			}
			low, high := num(0), last
			if step.n.Sign() < 0 {
				low, high = high, low
			}
			lo = replaceTerms(lo, map[*Term]*Term{v: low})
			hi = replaceTerms(hi, map[*Term]*Term{v: high})
		}
		above, _ := prove(pc, not(le0(lo)))
		below, _ := prove(pc, not(le0(sub(num(0), hi))))
		if os.Getenv("DBG19") != "" && !above && !below {
			fmt.Println("SAME?", show(i), show(j), show(lo), show(hi))
		}
		return above || below
	}
	s, dr := k.atoms(t)
	for _, a := range append(s, dr...) {
		if isDraw(a) && isDraw(d) {
			if a == d {
				return true
			}
			if a.args[2] != d.args[2] {
				continue
			}
			other := false
			for i := 3; i < len(a.args) && i < len(d.args); i++ {
				other = other || differ(a.args[i], d.args[i])
			}
			if !other {
				return true
			}
		}
		if !isDraw(a) && !isDraw(d) {
			if a == d || a == d.args[0] {
				return true
			}
			if a.is("elem") && a.args[0] == d.args[0] && !differ(a.args[1], d.args[1]) {
				return true
			}
		}
	}
	return false
}

// judge decides which of the revealed scalars are hidden
func (k *run19) judge() {
	rest := map[int]bool{}
	plain := map[int]bool{}
	for i := range k.out {
		rest[i] = true
	}
	for {
		n := 0
		for i := range k.out {
			if !rest[i] {
				continue
			}
			o := k.out[i]
			k.msg = o.msg
			ms, rs := k.split(o.t)
			for j, d0 := range ms {
				d := strip(d0)
				ok := !k.uses(rs[j], d, o.pc)
				// another for each position
				for _, v := range o.vars {
					st := false
					if isDraw(d) {
						for _, a := range d.args[3:] {
							st = st || steps(a, v)
						}
					} else {
						st = steps(d.args[1], v)
					}
					if occurs(o.t, v) || !isDraw(d) {
						ok = ok && st
					}
				}
				for l := range k.out {
					if !ok {
						break
					}
					both := and(k.out[l].pc, o.pc)
					if l != i && rest[l] && k.out[l].t != o.t && both != tFalse && k.uses(k.out[l].t, d, both) {
						if os.Getenv("DBG19") != "" {
							fmt.Println("CONFLICT", show(d), "\n   ", show(o.t), "\n   ", show(k.out[l].t))
						}
						ok = false
					}
				}
				if ok {
					s, dr := k.atoms(rs[j])
					plain[i] = len(s)+len(dr) == 0 && isDraw(d) && !k.private(rs[j])
					delete(rest, i)
					n++
					break
				}
			}
		}
		if n == 0 {
			break
		}
	}
	for i, o := range k.out {
		why := ""
		k.msg = o.msg
		s, d := k.atoms(o.t)
		k.msg = false
		switch {
		case rest[i] && len(s) > 0:
			why = k.e.label + ": shows " + clip(show(s[0])) + " in " + clip(show(o.t))
		case k.told[o.t] || o.free || k.e.lrs:
		case rest[i] && len(d) > 0, plain[i] && !k.e.raw:
			why = k.e.label + ": shows the draw " + clip(show(d[0]))
		}
		if why != "" && possible(o.pc) {
			if os.Getenv("DBG19") != "" {
				fmt.Println("BAD", o.pos, why, "\n  t", show(o.t), "\n  pc", show(o.pc))
			}
		} else {
			why = ""
		}
		k.obligation("outputs show no secret", o.fn+": "+o.where, o.pos, why)
	}
}

// output: v leaves the process
func (k *run19) output(f *frame, st *State, where string, pos string, v *Term, free bool) {
	fn := k.e.label
	if f != nil {
		fn = funcName(f.fn)
	}
	k.obligation("outputs show no secret", fn+": "+where, pos, "")
	k.msg = strings.Contains(where, "/")
	defer func() { k.msg = false }()
	if os.Getenv("DBG19") == "2" {
		fmt.Println("OUT", fn, where, pos, show(v))
	}
	k.clear(restrict(v, st.pc), st.pc, nil, func(t, pc *Term, vars []*Term) {
		s, d := k.atoms(t)
		if len(s)+len(d) == 0 {
			return
		}
		if free && len(s) == 0 {
			k.told[t] = true
		}
		k.out = append(k.out, reveal{t, pc, vars, where, pos, free, fn, k.msg})
	})
}

func (s *secrecy) entry(e entry19) {
	const rule = "the analysis completes"
	defer func() {
		if err := recover(); err != nil {
			if os.Getenv("DBG19") == "3" {
				panic(err)
			}
			s.obligation(rule, e.label, s.p.pos(e.fn.Pos()), fmt.Sprint(err))
		}
	}()
	p := s.p
	orderOf = map[*Term]*Term{}
	resetAssumptions()
	x := newExec(p)
	k := &run19{secrecy: s, x: x, e: e, types: map[*Term]types.Type{}, sec: map[*Term]bool{}, told: map[*Term]bool{}}
	if e.raw {
		delete(x.opaque, utilPkg+".ElGamalSign")
		delete(x.opaque, utilPkg+".ElGamalVerify")
		delete(x.opaque, shufPkg+".Shuffle")
		delete(x.opaque, shufPkg+".Verifier")
	}
	// what others may change
	unknown := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		if e.global != nil {
			s := rawApp("sym", str("state"+c.site))
			k.types[s] = e.state
			x.store(st, x.globalRef(e.global), s, "")
		}
		return tNil
	}
	if e.skip != nil {
		x.opaque["(*sync.Mutex).Lock"] = unknown
	}
	for g := range e.skip {
		if g.Signature.Results().Len() == 0 {
			x.opaque[funcFull(g)] = unknown
		}
	}
	if !e.lrs {
		const sign = "(*zRep/primitive/lrs.LRSBase).Sign"
		x.opaque[sign] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return rawApp("lrssig", x.deep(st, c.args[1])) }
	}
	st := x.newState()
	st.pc = e.assume
	if e.kind != nil {
		params := rawApp("sym", str("contents"))
		from := rawApp("sym", str("from"))
		x.opaque[utilPkg+".DecodeEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			ev := x.alloc(c.site)
			x.store(st, ev, mkStruct("", tNoBase, []string{"EventType", "Params", "SrcAddr"}, []*Term{e.kind, params, rawApp("addrstr", from)}), "")
			return rawApp("tuple", ev, from)
		}
	}
	var args []*Term
	var obj *Term
	for _, v := range e.fn.Params {
		a := x.symParam(v.Name(), v.Type())
		if e.secret != nil && isStream(v.Type()) {
			a = tSysRnd
		}
		args = append(args, a)
		if a.is("sym") {
			k.types[a] = v.Type()
		}
		if e.secret != nil && e.secret(v) {
			k.sec[a] = true
		}
		if e.state != nil && types.Identical(v.Type(), e.state) && obj == nil {
			obj = a
		}
	}
	if e.state != nil && obj == nil && e.global != nil && !e.init {
		obj = rawApp("sym", str("state"))
		k.types[obj] = e.state
		x.store(st, x.globalRef(e.global), obj, "")
	}
	byCode := map[int64]string{}
	sc := p.pkgs["zRep/proto"].Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.Int {
			v, _ := constant.Int64Val(c.Val())
			byCode[v] = n
		}
	}
	x.opaque[utilPkg+".SendEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		pos := p.pos(c.pos)
		s.visited[pos] = true
		if !x.mon || st.pc == tFalse {
			return tNil
		}
		kt := x.load(st, rawApp("afield", c.args[2], str("EventType")), "")
		pm := x.deep(st, x.mapVal(st, x.load(st, rawApp("afield", c.args[2], str("Params")), "")))
		k.message(f, st, pos, pm, nameOf(kt, byCode))
		return tNil
	}
	outCall := func(f *frame, st *State, c *callInfo) {
		pos := p.pos(c.pos)
		s.visited[pos] = true
		if !x.mon || st.pc == tFalse || isSpec(f.fn) {
			return
		}
		for _, a := range c.args {
			k.output(f, st, "prints or writes", pos, x.deep(st, a), false)
		}
	}
	x.watch = func(x *Exec, f *frame, st *State, c *callInfo) {
		if isOutput(c.cc) && c.name != utilPkg+".SendEvent" {
			outCall(f, st, c)
		}
	}
	x.onPanicValue = func(f *frame, st *State, v *Term, pos token.Pos) {
		if x.mon && st.pc != tFalse && !isSpec(f.fn) {
			// the listeners print it
			k.output(f, st, "panics with", p.pos(pos), x.deep(st, v), false)
		}
	}
	if e.raw {
		const put = "github.com/dedis/crypto/proof.ProverContext.Put"
		if old := x.opaque[put]; old != nil {
			x.opaque[put] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
				if x.mon && st.pc != tFalse && !isSpec(f.fn) {
					k.output(f, st, "proves with", p.pos(c.pos), x.deep(st, c.args[1]), false)
				}
				return old(x, f, st, c)
			}
		}
	}
	x.mon = true
	var binds []*Term
	for _, v := range e.fn.FreeVars {
		b := x.symParam(v.Name(), v.Type())
		k.types[b] = v.Type()
		binds = append(binds, b)
	}
	if e.fn.Parent() != nil {
		x.recovers = true
	}
	res := x.run(e.fn, args, binds, st, "", nil)
	if e.secret != nil {
		k.output(nil, st, "result", p.pos(e.fn.Pos()), x.deep(st, res), false)
	}
	k.judge()
	if e.init {
		obj = restrict(x.load(st, x.globalRef(e.global), ""), st.pc)
	}
	if obj != nil && e.state != nil {
		k.fields(st, obj, e.state)
	}
	for f := range x.funcs {
		if !strings.Contains(f, ".spec") {
			s.r.funcs[f] = true
		}
	}
}

// message: the contents pm of a message leave the process
func (k *run19) message(f *frame, st *State, pos string, pm *Term, kind string) {
	for {
		switch {
		case pm.is("mput"):
			key := pm.args[1]
			n := "a field"
			if key.k == KStr {
				n = key.op
			} else {
				k.output(f, st, kind+"/key", pos, key, false)
			}
			k.output(f, st, kind+"/"+n, pos, pm.args[2], disclosed[kind+"/"+n])
			pm = pm.args[0]
		case pm.k == KIte:
			c := ite(pm.args[0], tTrue, tFalse)
			for i, pc := range []*Term{and(st.pc, c), and(st.pc, not(c))} {
				if pc != tFalse {
					s := st.clone()
					s.pc = pc
					k.message(f, s, pos, pm.args[i+1], kind)
				}
			}
			return
		default:
			k.output(f, st, kind, pos, pm, false)
			return
		}
	}
}

// fields: which fields of the state hold secrets now
func (k *run19) fields(st *State, obj *Term, t types.Type) {
	n, ok := stripPtr(t).(*types.Named)
	if !ok {
		return
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	k.state = true
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		name := n.Obj().Name() + "." + fd.Name()
		if k.isSecretField(name) {
			continue
		}
		v := restrict(k.x.deep(st, k.x.load(st, rawApp("afield", obj, str(fd.Name())), "")), st.pc)
		k.given(v, st.pc, fd.Type(), name)
	}
}

// given: the field name, of type t, holds v now
func (k *run19) given(v, pc *Term, t types.Type, name string) {
	if k.isSecretField(name) || publicFields[name] {
		return
	}
	if v.k == KIte {
		c := ite(v.args[0], tTrue, tFalse)
		k.given(v.args[1], and(pc, c), t, name)
		k.given(v.args[2], and(pc, not(c)), t, name)
		return
	}
	if n, ok := stripPtr(t).(*types.Named); ok && v.k == KStruct {
		if s, ok := n.Underlying().(*types.Struct); ok {
			for i, a := range v.args[len(v.args)-len(v.names):] {
				for j := 0; j < s.NumFields(); j++ {
					if f := s.Field(j); f.Name() == v.names[i] {
						k.given(a, pc, f.Type(), n.Obj().Name()+"."+f.Name())
					}
				}
			}
			return
		}
	}
	k.clear(v, pc, nil, func(t, pc *Term, vars []*Term) {
		s, d := k.atoms(t)
		if k.told[t] || len(s)+len(d) == 0 {
			return
		}
		if os.Getenv("DBG19") != "" {
			fmt.Println("FIELD", k.e.label, name, show(t))
		}
		k.found[name] = true
	})
}

func runC19(p *Program, r *Report) {
	k := &secrecy{p: p, r: r, visited: map[string]bool{}, found: map[string]bool{}, bad: map[string]string{}, seen: map[string][2]string{}}
	kc := &keyCheck{p: p, r: r}
	sc := p.pkgs["zRep/proto"].Pkg.Scope()
	var entries []entry19
	for ri := range keyRoles {
		role := &keyRoles[ri]
		h := p.fn(role.pkg, "Handle")
		launch := p.fn(role.pkg, "Launch")
		ini := p.fn(role.pkg, role.init)
		if h == nil || launch == nil || ini == nil {
			r.fail("the analysis completes", role.name, "-", "no Handle, Launch or %s", role.init)
			continue
		}
		state, global := kc.stateType(role), kc.stateGlobal(role)
		other := tTrue
		kv := rawApp("symint", str("kind"))
		var rk *roleKinds
		for i := range roles16 {
			if roles16[i].pkg == role.pkg {
				rk = &roles16[i]
			}
		}
		for _, n := range sc.Names() {
			c, ok := sc.Lookup(n).(*types.Const)
			if _, mine := rk.kinds[n]; !ok || !mine || c.Val().Kind() != constant.Int {
				continue
			}
			v, _ := constant.Int64Val(c.Val())
			other = and(other, not(eq(kv, num(v))))
			entries = append(entries, entry19{fn: h, label: role.name + ": " + n, state: state, kind: num(v), assume: tTrue})
		}
		entries = append(entries, entry19{fn: h, label: role.name + ": any other kind", state: state, kind: kv, assume: other})
		skip := map[*ssa.Function]bool{}
		var fns []*ssa.Function
		for _, b := range launch.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && g.Pkg == launch.Pkg && g.Blocks != nil && !skip[g] {
						skip[g] = true
						if g != ini {
							fns = append(fns, g)
						}
					}
				}
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
		for _, g := range fns {
			entries = append(entries, entry19{fn: g, label: role.name + ": " + g.Name(), state: state, global: global, assume: tTrue})
		}
		entries = append(entries, entry19{fn: ini, label: role.name + ": " + ini.Name(), state: state, global: global, assume: tTrue, init: true})
		entries = append(entries, entry19{fn: launch, label: role.name + ": main loop", state: state, global: global, assume: tTrue, skip: skip})
	}
	for {
		// fields found to be secret are so from the start
		n := len(k.found)
		for _, e := range entries {
			k.entry(e)
		}
		if len(k.found) == n {
			break
		}
		k.bad, k.seen, k.order = map[string]string{}, map[string][2]string{}, nil
	}
	// signing and proving
	if f := p.fn(utilPkg, "ElGamalSign"); f != nil {
		k.entry(entry19{fn: f, label: funcName(f), raw: true, assume: tTrue, secret: func(v *ssa.Parameter) bool { return isNamed(v.Type(), absPkg, "Secret") }})
	}
	if f := p.fn("zRep/primitive/lrs", "LRSBase.Sign"); f != nil {
		k.entry(entry19{fn: f, label: funcName(f), raw: true, lrs: true, assume: tTrue, secret: func(v *ssa.Parameter) bool { return isNamed(v.Type(), absPkg, "Secret") }})
	}
	if f := p.fn(shufPkg, "specPathProve"); f != nil {
		k.entry(entry19{fn: f, label: shufPkg + ": Prove", raw: true, assume: tTrue, secret: func(v *ssa.Parameter) bool { return v.Name() == "beta" || v.Name() == "pi" }})
	}
	n := 0
	for _, f := range p.allFuncs() {
		if isSpec(f) || f.Pkg != nil && f.Pkg.Pkg.Path() == utilPkg && f.Name() == "SendEvent" {
			continue
		}
		var sites []string
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && isOutput(c.Common()) {
					sites = append(sites, p.pos(in.Pos()))
				}
			}
		}
		n += len(sites)
		open := false
		for _, s := range sites {
			open = open || !k.visited[s]
		}
		if open {
			if f.Parent() != nil {
				continue
			}
			e := entry19{fn: f, label: funcName(f), assume: tTrue, skip: map[*ssa.Function]bool{}}
			for _, g := range p.allFuncs() {
				if g.Pkg == f.Pkg && g != f && g.Parent() == nil {
					e.skip[g] = true
				}
			}
			for i := range keyRoles {
				if f.Pkg != nil && f.Pkg.Pkg.Path() == keyRoles[i].pkg {
					e.state, e.global = kc.stateType(&keyRoles[i]), kc.stateGlobal(&keyRoles[i])
				}
			}
			k.entry(e)
			for _, g := range f.AnonFuncs {
				e.fn = g
				k.entry(e)
			}
		}
		for _, s := range sites {
			why := ""
			if !k.visited[s] {
				why = "not reached by the analysis"
			}
			k.obligation("every output evaluated", funcName(f), s, why)
		}
	}
	for _, key := range k.order {
		r.check(k.bad[key] == "", k.seen[key][0], k.seen[key][1], key[strings.LastIndex(key, "|")+1:], "%s", k.bad[key])
	}
	r.analysed["output call sites"] = n
	r.atLeast("outputs show no secret", 60)
}
