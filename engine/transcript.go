package main

import (
	"fmt"
	"go/types"
)

// The transcript of an interactive proof: every item the verifier takes from
// its context (abstract.Read fills the object it is given, in declaration
// order) is an arbitrary value, numbered in the order in which it was taken.

type transcript struct {
	name  string
	order string
	ok    []*Term
	item  []*Term
}

const (
	shufPkg   = "zRep/util/shuffle"
	verifyCtx = "github.com/dedis/crypto/proof.VerifierContext."
	proveCtx  = "github.com/dedis/crypto/proof.ProverContext."
)

func (x *Exec) transcriptMode() {
	tr := &transcript{name: "item"}
	take := func(st *State, kind string, obj *Term, t types.Type) {
		x.fill(st, tr, kind, obj, t, func(nv *Term) {})
	}
	x.opaque[verifyCtx+"Get"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		take(st, "G", c.args[1], argType(f, c, 0))
		ok := asBool(rawApp("itemok", num(int64(len(tr.ok))), c.args[0]))
		tr.ok = append(tr.ok, ok)
		return errIf(ok, "transcript")
	}
	draw := func(st *State, tr *transcript, list *Term) {
		l := x.listVal(st, list)
		if !l.is("lit") {
			panic(unsupportedf("randomness for %s", show(l)))
		}
		for _, r := range l.args {
			t := x.itypes[r]
			if t == nil {
				panic(unsupportedf("randomness for %s", show(r)))
			}
			x.fill(st, tr, "R", r, t, func(nv *Term) {})
		}
	}
	// the prover's side: what it puts in, the challenges, its own secrets
	own := &transcript{name: "own"}
	if x.p.fn(shufPkg, "specHonest") != nil {
		fieldMode = true
		x.opaque[shufPkg+".specExponent"] = exponentOf
		x.opaque[proveCtx+"Put"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			x.given(st, tr, c.args[1], argType(f, c, 0))
			return tNil
		}
		x.opaque[proveCtx+"PubRand"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			draw(st, tr, c.args[1])
			return tNil
		}
		x.opaque[proveCtx+"PriRand"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			draw(st, own, c.args[1])
			return tNil
		}
	}
	x.opaque[verifyCtx+"PubRand"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		draw(st, tr, c.args[1])
		ok := asBool(rawApp("itemok", num(int64(len(tr.ok))), c.args[0]))
		tr.ok = append(tr.ok, ok)
		return errIf(ok, "transcript")
	}
	x.opaque[shufPkg+".specOrder"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return str(tr.order) }
	x.opaque[shufPkg+".specReadAll"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		r := tTrue
		for _, o := range tr.ok {
			r = and(r, o)
		}
		return r
	}
	item := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		n := c.args[0]
		if n.k != KNum || !n.n.IsInt64() || int(n.n.Int64()) >= len(tr.item) {
			return tUndef
		}
		return tr.item[n.n.Int64()]
	}
	for _, n := range []string{"specPoint", "specPoints", "specSecret", "specSecrets"} {
		x.opaque[shufPkg+"."+n] = item
	}
}

func unsupportedf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

// fill stores arbitrary items into everything the object consists of
func (x *Exec) fill(st *State, tr *transcript, kind string, v *Term, t types.Type, set func(*Term)) {
	if k := objKind(t); k == "point" || k == "secret" {
		x.fillObj(st, tr, kind, v, k, set)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		cur := x.load(st, v, "")
		x.fill(st, tr, kind, cur, u.Elem(), func(nv *Term) { x.store(st, v, nv, "") })
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			cur := v
			x.fill(st, tr, kind, mkField(cur, n), u.Field(i).Type(), func(nv *Term) {
				v = setField(v, n, nv)
				set(v)
			})
		}
	case *types.Slice:
		ek := objKind(u.Elem())
		l := x.listVal(st, v)
		if ek == "" || !v.is("slice") {
			panic(unsupportedf("reading into %s", show(v)))
		}
		s := rawApp("sym", str(fmt.Sprintf(tr.name+"%d", len(tr.item))))
		y := freshVar("i", llen(l))
		old := elem(l, y)
		nl := mkGen(llen(l), y, elem(s, y))
		if old == tNil {
			x.store(st, v.args[0], nl, "")
			if v.args[1] != num(0) || llen(x.load(st, v.args[0], "")) != v.args[2] {
				panic(unsupportedf("reading into part of a slice"))
			}
		} else {
			panic(unsupportedf("reading into elements that exist: %s", show(old)))
		}
		tr.order += kind
		tr.item = append(tr.item, nl)
	default:
		panic(unsupportedf("reading into a %s", t))
	}
}

// given records everything an object consists of
func (x *Exec) given(st *State, tr *transcript, v *Term, t types.Type) {
	switch objKind(t) {
	case "point":
		tr.order += "G"
		tr.item = append(tr.item, x.pt(st, v))
		return
	case "secret":
		tr.order += "G"
		tr.item = append(tr.item, x.sec(st, v))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x.given(st, tr, x.load(st, v, ""), u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.given(st, tr, mkField(v, u.Field(i).Name()), u.Field(i).Type())
		}
	case *types.Slice:
		tr.order += "G"
		tr.item = append(tr.item, x.deep(st, v))
	default:
		panic(unsupportedf("putting in a %s", t))
	}
}

func (x *Exec) fillObj(st *State, tr *transcript, kind string, v *Term, k string, set func(*Term)) {
	s := rawApp("sym", str(fmt.Sprintf(tr.name+"%d", len(tr.item))))
	tr.order += kind
	tr.item = append(tr.item, s)
	switch {
	case v == tNil:
		set(s)
	case v.is("alloc"):
		x.store(st, v, dflt(s, k), k)
	default:
		panic(unsupportedf("reading into %s", show(v)))
	}
}
