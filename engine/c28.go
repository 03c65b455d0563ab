package main

import "golang.org/x/tools/go/ssa"

// fatalCheck: a client that finds the parameters dishonest panics, so nothing
// on the way from its threads to that check may recover.
func fatalCheck(p *Program, r *Report, rule string) {
	const client = "zRep/cmd/client"
	launch := p.fn(client, "Launch")
	check := p.method("zRep/primitive/fujiokam", "FujiOkamBase", "CheckAllGnHonesty")
	if launch == nil || check == nil {
		r.fail(rule, "client: Launch and CheckAllGnHonesty", "-", "not found")
		return
	}
	w := &exitWalk{p: p, r: r}
	n := 0
	roots := []*ssa.Function{launch}
	seen := map[*ssa.Function]bool{launch: true}
	done := map[*ssa.Function]bool{}
	var all []*ssa.Function
	for i := 0; i < len(roots); i++ {
		for _, f := range p.reach(roots[i]) {
			if done[f] {
				continue
			}
			done[f] = true
			all = append(all, f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						for _, t := range p.callees(&g.Call) {
							if t.Blocks != nil && !seen[t] {
								seen[t] = true
								roots = append(roots, t)
							}
						}
					}
				}
			}
		}
	}
	for _, f := range all {
		reaches := false
		for _, g := range p.reach(f) {
			reaches = reaches || g == check
		}
		if !reaches {
			continue
		}
		n++
		r.funcs[funcName(f)] = true
		bad := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.Defer)
				if !ok {
					continue
				}
				for _, g := range p.callees(&d.Call) {
					if g.Blocks != nil && w.soundRecover(g) {
						bad = true
						r.fail(rule, "client: "+funcName(f), p.pos(in.Pos()), "recovers from the panic of a failed honesty check")
					}
				}
			}
		}
		if !bad {
			r.pass(rule, "client: "+funcName(f), p.pos(f.Pos()))
		}
	}
	r.check(n >= 2, rule, "client: its threads reach the check", p.pos(launch.Pos()), "CheckAllGnHonesty is not reachable from Launch")
}
