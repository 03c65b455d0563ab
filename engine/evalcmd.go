package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// evalCmd prints what the analysis finds for one function (development aid).
func evalCmd(a []string) {
	var specs []string
	if v := os.Getenv("SPEC"); v != "" {
		specs = strings.Split(v, ",")
	}
	p, err := load(specs...)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	var fn *ssa.Function
	if i := strings.IndexByte(a[1], '.'); i > 0 {
		fn = p.method(a[0], a[1][:i], a[1][i+1:])
	} else {
		fn = p.fn(a[0], a[1])
	}
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(1)
	}
	if os.Getenv("CLIP") != "" {
		clipAt = 20000
	}
	if os.Getenv("PROVE") != "" {
		for _, name := range a[1:] {
			proveRun(p, a[0], name)
		}
		return
	}
	if pf := os.Getenv("PROF"); pf != "" {
		w, _ := os.Create(pf)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	x := newExec(p)
	st := x.newState()
	var args []*Term
	for _, v := range fn.Params {
		args = append(args, x.symParam(v.Name(), v.Type()))
	}
	r := x.run(fn, args, nil, st, "", nil)
	fmt.Println("pc:", show(st.pc))
	if r.is("tuple") {
		for i, v := range r.args {
			fmt.Printf("result %d: %s\n", i, show(x.deep(st, v)))
		}
	} else {
		if os.Getenv("NODEEP") == "" {
			r = x.deep(st, r)
		}
		fmt.Println("result:", show(r))
	}
	fmt.Println("imprec:", keysOf(x.imprec), "notes:", keysOf(x.notes))
	fmt.Println("steps", x.steps, "terms", len(allTerms), time.Since(t0))
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}

// symParam: a symbolic argument
func (x *Exec) symParam(name string, t types.Type) *Term {
	s := rawApp("sym", str(name))
	if isInt(t) {
		return rawApp("symint", str(name))
	}
	if isBool(t) {
		return asBool(s)
	}
	if isNamed(t, absPkg, "Suite") {
		return cst("suite")
	}
	return s
}

func proveRun(p *Program, pkg, fn string) {
	r := newReport("X")
	if m := os.Getenv("MON"); m != "" {
		r.monitored(p, "x", pkg, fn, strings.Split(m, ","), 0)
		for _, o := range r.obl {
			fmt.Println("PROVE", fn, o.OK, o.Construct, o.Pos, clip(o.Detail))
		}
		return
	}
	r.harness(p, "x", pkg, map[string]string{fn: "x"})
	for _, o := range r.obl {
		fmt.Println("PROVE", fn, o.OK, clip(o.Detail))
	}
}
