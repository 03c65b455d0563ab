package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The protocol level: handlers and life-cycle functions are analysed with
// signatures, proofs and shuffles as uninterpreted operations (their own
// properties are checked separately) and with sending recorded in a list.

const utilPkg = "zRep/util"

func (x *Exec) protocolMode() {
	if x.p.fn("zRep/util/shuffle", "specShuffle") != nil {
		x.shuffleModel()
	}
	x.opaque[utilPkg+".SendEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		if x.mon && st.pc != tFalse {
			for _, m := range x.monitors {
				if m.send {
					k := x.load(st, rawApp("afield", c.args[2], str("EventType")), "")
					pm := x.load(st, rawApp("afield", c.args[2], str("Params")), "")
					x.check(f, st, m, tTrue, c.pos, c.args[1], k, pm)
				}
			}
		}
		return x.run(x.p.fn(utilPkg, "specSend"), c.args, nil, st, c.site, f)
	}
	if x.p.fn(utilPkg, "specDeliver") != nil {
		x.typed = true
		x.opaque[utilPkg+".specDeliver"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			return rawApp("event", c.args[0], x.deep(st, x.mapVal(st, c.args[1])), c.args[2])
		}
		x.opaque[utilPkg+".DecodeEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			e := c.args[0]
			if !e.is("event") {
				return x.run(x.p.fn(utilPkg, "DecodeEvent"), c.args, nil, st, c.site, f)
			}
			r := x.alloc(c.site)
			m := rawApp("alloc", append([]*Term{str(c.site + "/params")}, x.lv...)...)
			x.store(st, m, e.args[1], "")
			x.store(st, r, mkStruct("", tNoBase, []string{"EventType", "Params", "SrcAddr"}, []*Term{e.args[0], m, rawApp("addrstr", e.args[2])}), "")
			return rawApp("tuple", r, e.args[2])
		}
	}
	x.opaque[utilPkg+".specForget"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		r := x.alloc(c.site)
		x.store(st, r, forgotten(x.deep(st, x.mapVal(st, c.args[0]))), "")
		return r
	}
	x.opaque[utilPkg+".specCopy"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		r := x.alloc(c.site)
		x.store(st, r, x.deep(st, x.mapVal(st, c.args[0])), "")
		return r
	}
	x.opaque[utilPkg+".specKeyed"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		for _, l := range leaves(x.mapVal(st, c.args[0])) {
			keyedMaps[l] = true
		}
		keyedGen++
		return tNil
	}
	for path := range x.p.pkgs {
		if x.p.fn(path, "specExponent") != nil {
			x.opaque[path+".specExponent"] = exponentOf
		}
	}
	x.opaque[utilPkg+".specReads"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		m, keys := x.mapVal(st, c.args[0]), x.listVal(st, c.args[1])
		r := tTrue
		for _, l := range x.lookups {
			if l.m != m {
				continue
			}
			ok := tFalse
			for _, k := range keys.args {
				if l.k != nil {
					ok = or(ok, eq(l.k, k))
				}
			}
			r = and(r, or(ok, not(l.pc)))
		}
		return r
	}
	x.opaque[utilPkg+".specMark"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		x.marks = append(x.marks, st.pc)
		return tNil
	}
	x.opaque[utilPkg+".specDistinct"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		l := x.deep(st, x.listVal(st, c.args[0]))
		y := freshVar("i", llen(l))
		distinctLams = append(distinctLams, mkLam(y, elem(l, y)))
		keyedGen++
		return tNil
	}
	base := func(x *Exec, st *State, r *Term) *Term {
		return localLift(r, func(l, _ *Term) *Term {
			if l == tNil {
				return grpAtom(tBase)
			}
			return x.pt(st, l)
		})
	}
	x.opaque[utilPkg+".ElGamalSign"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		src := x.drawFrom(f, st, c, c.args[1], tQ)
		return app("sig", x.bytesVal(st, c.args[2]), x.sec(st, c.args[3]), base(x, st, c.args[4]), src)
	}
	x.opaque[utilPkg+".ElGamalVerify"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		ok := sigOk(x.bytesVal(st, c.args[1]), x.pt(st, c.args[2]), x.bytesVal(st, c.args[3]), base(x, st, c.args[4]))
		return errIf(ok, "signature")
	}
}

// sigOk: the signature is one of the message by the key's owner
func sigOk(a ...*Term) *Term {
	return asBool(liftN("sigok", func(a []*Term) *Term {
		if s := a[2]; s.is("sig") && s.args[0] == a[0] && s.args[2] == a[3] && gexp(a[3], s.args[1]) == a[1] {
			return tTrue
		}
		return asBool(rawApp("sigok", a...))
	}, a...))
}

// shuffleModel: the roles are analysed with what C13 and C14 state about
// shuffles: specShuffle for the shuffle, and proofs that verify for exactly
// the tables they were made for.
func (x *Exec) shuffleModel() {
	const sh = "zRep/util/shuffle"
	const pr = "github.com/dedis/crypto/proof"
	pts := func(x *Exec, st *State, l *Term) *Term {
		v := x.listVal(st, l)
		y := freshVar("i", llen(v))
		return mkGen(llen(v), y, x.pt(st, elem(v, y)))
	}
	base := func(x *Exec, st *State, r *Term) *Term {
		return localLift(r, func(l, _ *Term) *Term {
			if l == tNil {
				return grpAtom(tBase)
			}
			return x.pt(st, l)
		})
	}
	x.opaque[sh+".specPerm"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return permAt("perm", c.args[0], c.args[1], c.args[2])
	}
	x.opaque[sh+".Shuffle"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		a := c.args
		v := []*Term{base(x, st, a[1]), base(x, st, a[2]), a[3], a[4], pts(x, st, a[3]), pts(x, st, a[4])}
		r := x.run(x.p.fn(sh, "specShuffle"), a, nil, st, c.site, f)
		if st.pc == tFalse {
			return tDead
		}
		xx, yy := proj(r, 0), proj(r, 1)
		v = append(v, pts(x, st, xx), pts(x, st, yy))
		return tup(xx, yy, rawApp("shprover", v...), proj(r, 2), proj(r, 3))
	}
	x.opaque[sh+".Verifier"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return rawApp("shverifier", append([]*Term{}, c.args[1:]...)...)
	}
	x.opaque[pr+".HashProve"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return tup(liftN("hproof", func(a []*Term) *Term {
			p := a[1]
			if !p.is("shprover") {
				return rawApp("hproof", a[0], p)
			}
			q := p.args
			// the tables must not have changed since they were shuffled
			if pts(x, st, q[2]) != q[4] || pts(x, st, q[3]) != q[5] {
				return rawApp("hproof", a[0], p)
			}
			return rawApp("hproof", a[0], q[0], q[1], q[4], q[5], q[6], q[7])
		}, c.args[1], c.args[3]), tNil)
	}
	x.opaque[pr+".HashVerify"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		ok := asBool(liftN("hverify", func(a []*Term) *Term {
			v := a[1]
			if !v.is("shverifier") {
				return asBool(rawApp("hashok", a...))
			}
			q := v.args
			return asBool(liftN("hashok", func(b []*Term) *Term {
				h := b[len(b)-1]
				if h.is("hproof") && len(h.args) == 7 && h.args[0] == b[0] {
					same := true
					for k := 1; k < 7; k++ {
						same = same && h.args[k] == b[k]
					}
					if same {
						return tTrue
					}
				}
				return asBool(rawApp("hashok", b...))
			}, a[0], base(x, st, q[0]), base(x, st, q[1]), pts(x, st, q[2]), pts(x, st, q[3]), pts(x, st, q[4]), pts(x, st, q[5]), a[2]))
		}, c.args[1], c.args[2], x.bytesVal(st, c.args[3])))
		return errIf(ok, "proof")
	}
}

// A monitor states which changes of one field of the role's state are
// allowed: a specification function over the old and new value (for maps, of
// one key). It is evaluated at every write, in the state before the write.
type monitor struct {
	field string
	isMap bool
	send  bool
	step  bool
	obj   *Term
	fn    *ssa.Function
	elem  types.Type
}

type monObl struct {
	name, pos string
	pc, goal  *Term
}

func (x *Exec) check(f *frame, st *State, m *monitor, cond *Term, pos token.Pos, args ...*Term) {
	s := st.clone()
	s.pc = and(s.pc, cond)
	if s.pc == tFalse {
		return
	}
	mon := x.mon
	x.mon = false
	r := x.run(m.fn, append([]*Term{m.obj}, args...), nil, s, fmt.Sprintf("%s/mon:%s", f.cs, m.fn.Name()), f)
	x.mon = mon
	// the specification does not panic where the code would not
	x.monObl = append(x.monObl, monObl{m.fn.Name() + " in " + funcName(f.fn), x.p.pos(pos), and(st.pc, cond), ite(s.pc, asBool(r), tFalse)})
}

func (x *Exec) onMap(f *frame, st *State, mp, k *Term, pos token.Pos, upd func(*Term) *Term) {
	if !x.mon || st.pc == tFalse {
		return
	}
	if x.onWrite != nil {
		if old := x.mapVal(st, mp); upd(old) != old {
			x.onWrite(f, st, mp, x.p.pos(pos))
		}
	}
	for _, m := range x.monitors {
		if !m.isMap || m.send || m.step {
			continue
		}
		cur := x.load(st, rawApp("afield", m.obj, str(m.field)), "")
		for _, l := range leaves(cur) {
			if l == tNil || l == tDead || l == tUndef {
				continue
			}
			c := and(leafCond(cur, l), leafCond(mp, l))
			if c == tFalse {
				continue
			}
			old := x.mapVal(st, l)
			nw := upd(old)
			z := zeroOf(m.elem)
			x.check(f, st, m, c, pos, k, mget(old, k, z), mhas(old, k), mget(nw, k, z), mhas(nw, k))
		}
	}
}

func (x *Exec) onStore(f *frame, st *State, addr, v *Term, pos token.Pos) {
	if x.mon && st.pc != tFalse && x.onWrite != nil && x.load(st, addr, "") != v {
		x.onWrite(f, st, addr, x.p.pos(pos))
	}
	if !x.mon || st.pc == tFalse || len(x.monitors) == 0 {
		return
	}
	for _, m := range x.monitors {
		if m.send || m.step {
			continue
		}
		a := rawApp("afield", m.obj, str(m.field))
		c := leafCond(addr, a)
		if c == tFalse {
			continue
		}
		old := x.load(st, a, "")
		if !m.isMap {
			x.check(f, st, m, c, pos, old, v)
			continue
		}
		k := rawApp("sym", str("monkey"))
		z := zeroOf(m.elem)
		ov, nv := x.mapVal(st, old), x.mapVal(st, v)
		x.check(f, st, m, c, pos, k, mget(ov, k, z), mhas(ov, k), mget(nv, k, z), mhas(nv, k))
	}
}

// A step monitor states which changes of one field (for maps, of any one key)
// are allowed between two steps: the start and the end of the entry point, and
// the start of every iteration of a loop. The values are compared with all
// they refer to.
func (x *Exec) newStep(st *State) {
	if !x.mon {
		return
	}
	for _, m := range x.monitors {
		if m.step {
			st.old = st.clone().mem
			return
		}
	}
}

func (x *Exec) onStep(f *frame, st *State, pos token.Pos) {
	if !x.mon || st.pc == tFalse {
		return
	}
	for _, m := range x.monitors {
		if !m.step {
			continue
		}
		before := &State{pc: st.pc, mem: st.old}
		before = before.clone()
		k := rawApp("sym", str("stepkey"))
		args := []*Term{}
		if m.isMap {
			args = append(args, k)
		}
		val := func(s *State) []*Term {
			v := x.load(s, rawApp("afield", m.obj, str(m.field)), "")
			if !m.isMap {
				return []*Term{x.snapshot(s, v, m.elem)}
			}
			mv := x.mapVal(s, v)
			return []*Term{x.snapshot(s, mget(mv, k, zeroOf(m.elem)), m.elem), mhas(mv, k)}
		}
		o, n := val(before), val(st)
		if o[0] == n[0] && (!m.isMap || o[1] == n[1]) {
			continue
		}
		x.check(f, st, m, tTrue, pos, append(append(args, o...), n...)...)
	}
}

// snapshot: a value with all it refers to, field by field
func (x *Exec) snapshot(st *State, v *Term, t types.Type) *Term {
	r := x.deep(st, v)
	if n, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < n.NumFields(); i++ {
			f := n.Field(i)
			r = setField(r, f.Name(), x.snapshot(st, mkField(v, f.Name()), f.Type()))
		}
	}
	return r
}

// addMonitors finds the specification functions "specOn<Field>..." of a
// package; they apply to the object the named parameter denotes.
func (x *Exec) addMonitors(pkg string, names []string, obj *Term) error {
	sp := x.p.pkgs[pkg]
	for _, n := range names {
		fn := sp.Func(n)
		if fn == nil {
			return fmt.Errorf("no specification %s", n)
		}
		step := strings.HasPrefix(n, "specStep")
		field := strings.TrimPrefix(strings.TrimPrefix(n, "specOn"), "specStep")
		if i := strings.IndexByte(field, '_'); i > 0 {
			field = field[:i]
		}
		pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
		if !ok {
			return fmt.Errorf("%s: not over a role", n)
		}
		if field == "Send" {
			x.monitors = append(x.monitors, &monitor{send: true, obj: obj, fn: fn})
			continue
		}
		stt := pt.Elem().Underlying().(*types.Struct)
		found := false
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() != field {
				continue
			}
			found = true
			m := &monitor{field: field, obj: obj, fn: fn, step: step, elem: stt.Field(i).Type()}
			if mt, ok := stt.Field(i).Type().Underlying().(*types.Map); ok {
				m.isMap, m.elem = true, mt.Elem()
			}
			x.monitors = append(x.monitors, m)
		}
		if !found {
			return fmt.Errorf("the field %s is gone", field)
		}
	}
	return nil
}

// monitored evaluates an entry point and requires that every change of the
// monitored fields it can make is allowed; what the entry itself states must
// hold too.
func (r *Report) monitored(p *Program, rule, pkg, entry string, mons []string, min int) {
	sp := p.pkgs[pkg]
	if sp == nil {
		r.fail(rule, pkg, "-", "the package is gone")
		return
	}
	fn := sp.Func(entry)
	if fn == nil {
		r.fail(rule, entry, "-", "no such specification")
		return
	}
	defer func() {
		if e := recover(); e != nil {
			r.fail(rule, entry, "-", "the analysis could not be completed: %v", e)
		}
	}()
	orderOf = map[*Term]*Term{}
	resetAssumptions()
	x := newExec(p)
	st := x.newState()
	var args []*Term
	var obj *Term
	for _, v := range fn.Params {
		a := x.symParam(v.Name(), v.Type())
		args = append(args, a)
		if _, ok := v.Type().Underlying().(*types.Pointer); ok && obj == nil {
			obj = a
		}
	}
	if err := x.addMonitors(pkg, mons, obj); err != nil {
		r.fail(rule, entry, "-", "%v", err)
		return
	}
	x.mon = true
	x.newStep(st)
	res := x.run(fn, args, nil, st, "", nil)
	x.onStep(&frame{x: x, fn: fn}, st, fn.Pos())
	for f := range x.funcs {
		if !strings.Contains(f, ".spec") {
			r.funcs[f] = true
		}
	}
	if st.pc == tFalse || res == tDead {
		r.fail(rule, entry, "-", "never returns")
		return
	}
	ok, why := prove(st.pc, res)
	if !ok {
		r.fail(rule, entry, "-", "does not hold %s", why)
	}
	n := 0
	for _, o := range x.monObl {
		if os.Getenv("MONDBG") != "" {
			fmt.Println("MON", o.name, o.pos, "\n  pc", show(o.pc), "\n  goal", show(restrict(o.goal, o.pc)))
		}
		ok, why := prove(o.pc, o.goal)
		r.check(ok, rule, o.name+" ("+entry+")", o.pos, "a change that is not allowed %s", why)
		n++
	}
	if n < min {
		r.fail(rule, entry, "-", "only %d changes of the monitored state were found, expected %d", n, min)
	}
	r.analysed["writes to monitored state"] += n
}

// forgotten: the map m with the same fields, in the same types and encodings,
// whose contents are unknown
func forgotten(m *Term) *Term {
	return localLift(m, func(l, _ *Term) *Term {
		if !l.is("mput") || l.args[1].k != KStr {
			return l
		}
		name := rawApp("sym", str("field:"+l.args[1].op))
		v := localLift(l.args[2], func(v, _ *Term) *Term { return forgetValue(v, name) })
		return rawApp("mput", forgotten(l.args[0]), l.args[1], v)
	})
}

func forgetValue(v, name *Term) *Term {
	switch {
	case v.is("iface"):
		return rawApp("iface", v.args[0], localLift(v.args[1], func(l, _ *Term) *Term { return forgetValue(l, name) }))
	case v.is("marsh"):
		return rawApp("marsh", grpAtom(name))
	case v.is("hproof"):
		return name
	case v.is("enc") && v.args[0].op == "pb:zRep/util.PointList" && v.args[1].k == KStruct:
		return rawApp("enc", v.args[0], mkStruct("", tNoBase, []string{"Points"}, []*Term{name}))
	}
	return v
}

// exponentOf: the power of the base that a point is, if that is its only factor
func exponentOf(x *Exec, f *frame, st *State, c *callInfo) *Term {
	return liftN("exponent", func(a []*Term) *Term {
		out, in := a[0], a[1]
		if out.k == KGrp && in.k == KGrp && len(in.fs) == 1 && in.fs[0].e.isC(1) {
			for _, f := range out.fs {
				if f.b == in.fs[0].b && gexp(in, f.e) == out {
					return secVal(f.e)
				}
			}
		}
		return rawApp("secval", rawApp("noexponent", out, in))
	}, x.pt(st, c.args[0]), x.pt(st, c.args[1]))
}
