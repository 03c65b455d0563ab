package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// streamCheck: every stream that something is drawn from is the system's
// random source: random.Stream, or a cipher keyed with abstract.RandomKey. A
// cipher keyed otherwise, as a hash, is only ever picked from, and never in a
// place that may also get the random source.
func streamCheck(p *Program, r *Report, rule string) {
	s := &streamWalk{p: p, memo: map[ssa.Value]origins{}}
	for _, f := range p.allFuncs() {
		if !p.own(f) || isSpec(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/dedis/crypto/") {
						r.fail(rule, funcName(f)+" sets "+g.Name(), p.pos(in.Pos()), "a variable of the crypto library is replaced")
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				callee := calleeName(c)
				if s.passedOn(c) {
					continue
				}
				args := c.Args
				own := c.Signature().Recv() != nil && !c.IsInvoke()
				if own {
					// hashing into a cipher and reading it is not drawing
					args = args[1:]
				}
				for _, a := range args {
					if !isStream(a.Type()) {
						continue
					}
					o := s.origin(a)
					bad := ""
					for k := range o {
						if k != "" && k > bad {
							bad = k
						}
					}
					if callee == "Pick" && len(o) == 1 && bad == "hash" {
						continue
					}
					if bad == "hash" {
						bad = "a cipher with a known key"
					}
					r.funcs[funcName(f)] = true
					r.check(bad == "", rule, funcName(f)+": the stream given to "+callee, p.pos(in.Pos()), "the stream may be %s", bad)
				}
			}
		}
	}
}

// passedOn: the call only goes to this program's functions, whose own draws
// are looked at
func (s *streamWalk) passedOn(c *ssa.CallCommon) bool {
	fs := s.p.callees(c)
	for _, f := range fs {
		if f.Blocks == nil || !s.p.own(f) {
			return false
		}
	}
	return len(fs) > 0
}

func isSpec(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.HasPrefix(f.Name(), "spec") || strings.HasPrefix(f.Name(), "Spec")
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return "a function value"
}

func isStream(t types.Type) bool {
	if isNamed(t, "crypto/cipher", "Stream") {
		return true
	}
	return isNamed(t, "github.com/dedis/crypto/abstract", "Cipher")
}

// origins: "" is the system's source, "hash" a cipher with another key, and
// others say what else the stream may be.
type origins map[string]bool

func one(o string) origins { return origins{o: true} }

func (o origins) join(p origins) origins {
	for k := range p {
		o[k] = true
	}
	return o
}

type streamWalk struct {
	p    *Program
	memo map[ssa.Value]origins
}

func (s *streamWalk) origin(v ssa.Value) origins {
	if o, ok := s.memo[v]; ok {
		return o
	}
	s.memo[v] = origins{} // on a cycle, decided by the others
	o := s.find(v)
	s.memo[v] = o
	return o
}

func (s *streamWalk) any(vs []ssa.Value) origins {
	o := origins{}
	for _, v := range vs {
		o.join(s.origin(v))
	}
	return o
}

func (s *streamWalk) find(v ssa.Value) origins {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return s.origin(v.X)
	case *ssa.ChangeInterface:
		return s.origin(v.X)
	case *ssa.ChangeType:
		return s.origin(v.X)
	case *ssa.TypeAssert:
		return s.origin(v.X)
	case *ssa.Phi:
		return s.any(v.Edges)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return s.loaded(v.X)
		}
	case *ssa.Field:
		return s.fieldStores(v.X.Type(), v.Field)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return s.results(c, v.Index)
		}
	case *ssa.Call:
		return s.results(v, 0)
	case *ssa.Parameter:
		return s.param(v)
	case *ssa.FreeVar:
		return s.free(v)
	}
	return one("of unknown origin (" + v.Name() + " in " + funcName(v.Parent()) + ")")
}

func (s *streamWalk) loaded(a ssa.Value) origins {
	switch a := a.(type) {
	case *ssa.Global:
		if a.Pkg != nil && a.Pkg.Pkg.Path() == "github.com/dedis/crypto/random" && a.Name() == "Stream" {
			return one("")
		}
		return s.stores(func(x ssa.Value) bool { return x == a }, "never set")
	case *ssa.Alloc:
		return s.stores(func(x ssa.Value) bool { return x == a }, "never set")
	case *ssa.FreeVar:
		return s.free(a)
	case *ssa.FieldAddr:
		return s.fieldStores(a.X.Type(), a.Field)
	}
	return one("read through " + a.Name() + " in " + funcName(a.Parent()))
}

// stores: everything that is stored at the matching addresses, also by closures
func (s *streamWalk) stores(at func(ssa.Value) bool, none string) origins {
	n, o := 0, origins{}
	for _, f := range s.p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && at(st.Addr) {
					n++
					o.join(s.origin(st.Val))
				}
			}
		}
	}
	if n == 0 {
		return one(none)
	}
	return o
}

func (s *streamWalk) fieldStores(t types.Type, i int) origins {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return s.stores(func(x ssa.Value) bool {
		fa, ok := x.(*ssa.FieldAddr)
		if !ok || fa.Field != i {
			return false
		}
		u := fa.X.Type()
		if pt, ok := u.Underlying().(*types.Pointer); ok {
			u = pt.Elem()
		}
		return types.Identical(u, t)
	}, "a field that is never set")
}

func (s *streamWalk) results(c *ssa.Call, i int) origins {
	if c.Call.IsInvoke() && c.Call.Method.Name() == "Cipher" {
		if k, ok := c.Call.Args[0].(*ssa.UnOp); ok {
			if g, ok := k.X.(*ssa.Global); ok && g.Name() == "RandomKey" && strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/dedis/crypto/") {
				return one("")
			}
		}
		if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.IsNil() {
			return one("")
		}
		return one("hash")
	}
	fs := s.p.callees(&c.Call)
	if len(fs) == 0 {
		return one("the result of " + calleeName(&c.Call))
	}
	o := origins{}
	for _, f := range fs {
		if f.Blocks == nil || !s.p.own(f) {
			return one("the result of " + funcName(f))
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				o.join(s.origin(ret.Results[i]))
			}
		}
	}
	return o
}

// param: what every call of the function passes; a function that nothing
// calls draws nothing
func (s *streamWalk) param(v *ssa.Parameter) origins {
	f := v.Parent()
	k, o := -1, origins{}
	for i, q := range f.Params {
		if q == v {
			k = i
		}
	}
	for _, g := range s.p.allFuncs() {
		if isSpec(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				for _, t := range s.p.callees(c) {
					if t != f {
						continue
					}
					j := k
					if c.IsInvoke() {
						j--
					}
					if j < 0 || j >= len(c.Args) {
						return one("an argument of " + funcName(f))
					}
					o.join(s.origin(c.Args[j]))
				}
			}
		}
	}
	return o
}

func (s *streamWalk) free(v *ssa.FreeVar) origins {
	f := v.Parent()
	k, o := -1, origins{}
	for i, q := range f.FreeVars {
		if q == v {
			k = i
		}
	}
	for _, g := range s.p.allFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != f {
					continue
				}
				x := mc.Bindings[k]
				if _, ok := x.Type().Underlying().(*types.Pointer); ok {
					o.join(s.loaded(x))
				} else {
					o.join(s.origin(x))
				}
			}
		}
	}
	return o
}
