package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callees resolves a call to the repository functions it may enter. Calls of
// function values are resolved through the functions whose address is taken in
// the program with the same signature.
func (p *Program) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		var r []*ssa.Function
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, sp := range p.pkgs {
			for _, m := range sp.Members {
				t, ok := m.(*ssa.Type)
				if !ok || it == nil {
					continue
				}
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if types.IsInterface(tt) || !types.Implements(tt, it) {
						continue
					}
					if f := p.prog.LookupMethod(tt, c.Method.Pkg(), c.Method.Name()); f != nil {
						r = append(r, f)
					}
				}
			}
		}
		return r
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	sig, _ := c.Value.Type().Underlying().(*types.Signature)
	var r []*ssa.Function
	for _, f := range p.addressTaken() {
		if sig != nil && types.Identical(dropRecv(f.Signature), dropRecv(sig)) {
			r = append(r, f)
		}
	}
	return r
}

func dropRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

var takenCache map[*Program][]*ssa.Function

func (p *Program) addressTaken() []*ssa.Function {
	if r, ok := takenCache[p]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var call *ssa.CallCommon
				if c, ok := in.(ssa.CallInstruction); ok {
					call = c.Common()
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					fn, ok := (*op).(*ssa.Function)
					if mc, isMC := in.(*ssa.MakeClosure); isMC && *op == mc.Fn {
						ok, fn = true, mc.Fn.(*ssa.Function)
					} else if call != nil && *op == call.Value {
						continue
					}
					if ok && !seen[fn] {
						seen[fn] = true
						r = append(r, fn)
					}
				}
			}
		}
	}
	if takenCache == nil {
		takenCache = map[*Program][]*ssa.Function{}
	}
	takenCache[p] = r
	return r
}

var allCache map[*Program][]*ssa.Function

// allFuncs lists every function with a body, closures and methods included.
func (p *Program) allFuncs() []*ssa.Function {
	if r, ok := allCache[p]; ok {
		return r
	}
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || seen[f] {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, path := range sortedPkgs(p) {
		sp := p.pkgs[path]
		for _, name := range sortedMembers(sp) {
			switch m := sp.Members[name].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, tt := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						add(p.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	if allCache == nil {
		allCache = map[*Program][]*ssa.Function{}
	}
	allCache[p] = r
	return r
}

func isStd(f *ssa.Function, pkg string, names ...string) bool {
	if f == nil {
		return false
	}
	o := f.Object()
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != pkg {
		return false
	}
	if len(names) == 0 {
		return true
	}
	for _, n := range names {
		if o.Name() == n {
			return true
		}
	}
	return false
}

func funcName(f *ssa.Function) string {
	return f.RelString(nil)
}
