package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// orderOf: groups (by modulus) whose exponents may be reduced by the given
// order; filled by specOrder hypotheses.
var orderOf = map[*Term]*Term{}

// firstsIn lists the search results ("first index that satisfies c") in t.
func firstsIn(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.is("first") && t.args[0] != tInf && ground(t) {
		*out = append(*out, t)
	}
	for _, c := range children(t) {
		firstsIn(c, seen, out)
	}
}

// rewriteRule replaces two occurrences of sq in a monomial by rest.
type rewriteRule struct {
	sq, rest *Term
}

func applyRule(t *Term, r rewriteRule, memo map[*Term]*Term) *Term {
	if v, ok := memo[t]; ok {
		return v
	}
	if !occurs(t, r.sq) || t == r.sq {
		memo[t] = t
		return t
	}
	var v *Term
	switch t.k {
	case KLam:
		v = t
	case KPoly:
		v = num(0)
		for _, m := range t.ms {
			q := bigTerm(m.c)
			n := 0
			for _, x := range m.vs {
				if x == r.sq {
					n++
				} else {
					q = mul(q, applyRule(x, r, memo))
				}
			}
			for ; n >= 2; n -= 2 {
				q = mul(q, r.rest)
			}
			if n == 1 {
				q = mul(q, r.sq)
			}
			v = add(v, q)
		}
	case KIte:
		// the condition's atom, then both branches
		a := t.args[0]
		na := applyRule(a, r, memo)
		v = ite(asBool(na), applyRule(t.args[1], r, memo), applyRule(t.args[2], r, memo))
	default:
		v = rebuild(t, func(c *Term) *Term { return applyRule(c, r, memo) })
	}
	memo[t] = v
	return v
}

// forced lists the atoms that care forces to be true.
func forced(care *Term) []*Term {
	var r []*Term
	for _, a := range support(care) {
		if and(care, not(ite(a, tTrue, tFalse))) == tFalse {
			r = append(r, a)
		}
	}
	return r
}

// prove reports whether goal holds under care. When it does not, it returns a
// description of a case that was not excluded.
func prove(care, goal *Term) (bool, string) {
	goal = asBool(goal)
	open := func() *Term { return and(care, not(goal)) }
	if open() == tFalse {
		return true, ""
	}
	for round := 0; round < 4; round++ {
		before := goal
		var fs []*Term
		seen := map[*Term]bool{}
		firstsIn(goal, seen, &fs)
		for _, f := range fs {
			l := f.args[1]
			care = and(care, imp(mkExL(f.args[0], l), asBool(applyLam(l, f))))
		}
		goal = restrict(goal, care)
		if open() == tFalse {
			return true, ""
		}
		for _, a := range forced(open()) {
			if !a.is("eq0") {
				continue
			}
			p := a.args[0]
			if p.k != KPoly {
				continue
			}
			for _, m := range p.ms {
				if len(m.vs) == 2 && m.vs[0] == m.vs[1] && m.vs[0].is("first") && m.c.IsInt64() && m.c.Int64() == 1 {
					sq := m.vs[0]
					rest := sub(mul(sq, sq), p)
					if occurs(rest, sq) {
						continue
					}
					goal = applyRule(goal, rewriteRule{sq, rest}, map[*Term]*Term{})
					if open() == tFalse {
						return true, ""
					}
					break
				}
			}
		}
		if goal == before {
			break
		}
	}
	b := open()
	fuel := 400
	var left *Term
	if refute(b, 10, &fuel, &left, nil) {
		return true, ""
	}
	if left != nil {
		b = left
	}
	return false, cube(b)
}

// ground: no bound variables
func ground(t *Term) bool {
	for _, v := range t.fv {
		if v.k != KVar {
			return false
		}
	}
	return true
}

// solveEq: an equation between terms as a substitution, if it has that form
func solveEq(a *Term) (from, to *Term) {
	if a.is("le0") && a.args[0].is("llen") {
		return a.args[0], num(0)
	}
	if a.is("eq") {
		for i := 0; i < 2; i++ {
			if v, w := a.args[i], a.args[1-i]; v.is("sym") && !occurs(w, v) && ground(w) {
				return v, w
			}
		}
		for i := 0; i < 2; i++ {
			if v, w := a.args[i], a.args[1-i]; v.is("mget") && ground(v) && ground(w) && !occurs(w, v) {
				return v, w
			}
		}
		for i := 0; i < 2; i++ {
			if v, w := a.args[i], a.args[1-i]; (v.is("fld") || v.is("elem")) && ground(v) && ground(w) && !occurs(w, v) {
				return v, w
			}
		}
		return nil, nil
	}
	if a.is("geq") {
		return solveGrp(a.args[0])
	}
	if !a.is("eq0") {
		return nil, nil
	}
	p := a.args[0]
	if p.is("llen") {
		return p, num(0)
	}
	if p.k != KPoly {
		if p.is("symint") {
			return p, num(0)
		}
		return nil, nil
	}
	best := -1
	for pass := 0; pass < 3 && best < 0; pass++ {
		for i, m := range p.ms {
			if len(m.vs) != 1 || !m.c.IsInt64() || m.c.Int64() != 1 && m.c.Int64() != -1 {
				continue
			}
			v := m.vs[0]
			if pass == 0 && !v.is("symint") || pass == 1 && !v.is("llen") || pass == 2 && v.k != KApp {
				continue
			}
			rest := sub(p, mul(bigTerm(m.c), v))
			if occurs(rest, v) || !ground(v) {
				continue
			}
			best = i
			break
		}
	}
	if best < 0 {
		return nil, nil
	}
	m := p.ms[best]
	rest := sub(p, mul(bigTerm(m.c), m.vs[0]))
	return m.vs[0], mul(num(-m.c.Int64()), rest)
}

// solveGrp: an equation between elements of the suite's group, solved for a
// received element if there is one, else for a stored one
func solveGrp(g *Term) (from, to *Term) {
	if g.k != KGrp || g.args[0] != tNil {
		return nil, nil
	}
	for pass := 0; pass < 2; pass++ {
		for i, f := range g.fs {
			if f.b.k != KApp || len(f.b.fv) > 0 || f.b.is("dec") != (pass == 0) || !f.e.isC(1) && !f.e.isC(-1) {
				continue
			}
			var rest []factor
			rest = append(append(rest, g.fs[:i]...), g.fs[i+1:]...)
			r := mkGrp(tNil, rest)
			if occurs(r, f.b) {
				continue
			}
			if f.e.isC(1) {
				r = gexp(r, num(-1))
			}
			return f.b, r
		}
	}
	return nil, nil
}

// indicesIn lists the list positions used in t that are not loop variables.
func indicesIn(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if (t.is("elem") || t.is("mkey")) && len(t.args[1].fv) == 0 && t.args[1].k != KNum {
		out[t.args[1]] = true
	}
	for _, c := range children(t) {
		indicesIn(c, seen, out)
	}
}

// knownBounds replaces inequalities of t that follow from one that b forces.
func knownBounds(b, t *Term, here map[*Term]bool) *Term {
	for _, a := range support(t) {
		if here[a] || !a.is("le0") {
			continue
		}
		for f := range here {
			if !f.is("le0") {
				continue
			}
			var q *Term
			if and(b, not(ite(f, tTrue, tFalse))) == tFalse {
				q = f.args[0]
			} else if and(b, ite(f, tTrue, tFalse)) == tFalse {
				q = sub(num(1), f.args[0])
			} else {
				continue
			}
			if le0(sub(a.args[0], q)) == tTrue {
				t = cofAtom(t, a, true)
				break
			}
			if le0(sub(sub(num(1), a.args[0]), q)) == tTrue {
				t = cofAtom(t, a, false)
				break
			}
		}
		if t.k != KIte {
			break
		}
	}
	return t
}

// shiftsIn lists the d with which a function of a position p reads some list
// at position p+d.
func shiftsIn(l *Term) []*Term {
	v := bvar(l.aux)
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.is("elem") || t.is("mkey")) && t.args[1].k == KPoly {
			if d := sub(t.args[1], v); len(d.fv) == 0 {
				out[d] = true
			}
		}
		for _, c := range children(t) {
			walk(c)
		}
	}
	walk(l.args[0])
	return sortedTerms(out)
}

// smallResidues replaces the residue of a machine integer modulo the group
// order by that integer where b forces it not to be negative.
func smallResidues(b *Term) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.is("mod") && t.args[1] == tQ && machineInts[t.args[0]] && len(t.fv) == 0 {
			c := le0(neg(t.args[0]))
			here := map[*Term]bool{}
			for _, v := range support(b) {
				here[v] = true
			}
			if knownBounds(b, c, here) == tTrue || and(b, not(c)) == tFalse {
				m[t] = t.args[0]
			}
		}
		for _, c := range children(t) {
			walk(c)
		}
	}
	walk(b)
	if len(m) == 0 {
		return b
	}
	return replaceTerms(b, m)
}

// rewriting: an equation found before
type rewriting struct{ from, to *Term }

// rewrite replaces from by to; equations found before apply to what comes out
func rewrite(b, from, to *Term, known []rewriting) (*Term, []rewriting) {
	m := map[*Term]*Term{from: to}
	b = replaceTerms(b, m)
	next := append([]rewriting{}, known...)
	for i, k := range next {
		f, t := replaceTerms(k.from, m), replaceTerms(k.to, m)
		if f != t && !occurs(t, f) {
			next[i] = rewriting{f, t}
			b = replaceTerms(b, map[*Term]*Term{f: t})
		}
	}
	return b, append(next, rewriting{from, to})
}

// refute reports whether no case described by b can occur: equations that
// hold in every remaining case are substituted, universally quantified facts
// are instantiated at the positions in question, and the rest is split by
// equations. (Used only where the decision diagrams do not already coincide.)
func refute(b *Term, depth int, fuel *int, left **Term, known []rewriting) bool {
	*fuel--
	if os.Getenv("REFDBG") != "" {
		fmt.Println("REFUTE depth", depth, "fuel", *fuel)
		for _, a := range support(b) {
			fmt.Println("   ", and(b, ite(a, tTrue, tFalse)) != tFalse, and(b, not(ite(a, tTrue, tFalse))) != tFalse, clip(show(a)))
		}
	}
	if *fuel < 0 {
		return false
	}
	for round := 0; ; round++ {
		b = absentKeys(b)
		if b == tFalse {
			return true
		}
		if b == tTrue || b.k != KIte || round > 12 {
			if *left == nil {
				*left = b
			}
			return false
		}
		changed := false
		for _, a := range support(b) {
			if and(b, not(ite(a, tTrue, tFalse))) != tFalse {
				continue
			}
			if from, to := solveEq(a); from != nil {
				nb, k := rewrite(cofAtom(b, a, true), from, to, known)
				if nb != b {
					b, known = nb, k
					changed = true
					break
				}
			}
		}
		if changed {
			continue
		}
		if nb := smallResidues(b); nb != b {
			b = nb
			continue
		}
		idx := map[*Term]bool{}
		indicesIn(b, map[*Term]bool{}, idx)
		perms := map[*Term]bool{}
		permsIn(b, map[*Term]bool{}, perms)
		for _, p := range sortedTerms(perms) {
			for _, k := range sortedTerms(idx) {
				idx[permAt("perminv", p.args[0], k, p.args[1])] = true
			}
		}
		before := b
		for _, a := range support(b) {
			if !a.is("ex") || len(idx) > 40 {
				continue
			}
			if and(b, not(ite(a, tTrue, tFalse))) == tFalse {
				continue
			}
			here := map[*Term]bool{}
			for _, v := range support(b) {
				here[v] = true
			}
			at := map[*Term]bool{}
			for k := range idx {
				at[k] = true
			}
			for _, d := range shiftsIn(a.args[1]) {
				for k := range idx {
					at[sub(k, d)] = true
				}
			}
			if len(at) > 40 {
				continue
			}
			for _, k := range sortedTerms(at) {
				in := and(le0(neg(k)), le0(add(sub(k, a.args[0]), num(1))))
				inst := and(knownBounds(b, in, here), asBool(applyLam(a.args[1], k)))
				for _, v := range support(inst) {
					if here[v] && inst.k == KIte {
						if and(b, not(ite(v, tTrue, tFalse))) == tFalse {
							inst = cofAtom(inst, v, true)
						} else if and(b, ite(v, tTrue, tFalse)) == tFalse {
							inst = cofAtom(inst, v, false)
						}
					}
				}
				relevant := true
				for _, v := range support(inst) {
					if !here[v] {
						relevant = false
					}
				}
				if relevant {
					b = and(b, imp(inst, ite(a, tTrue, tFalse)))
				}
			}
		}
		b = atPresentKeys(b)
		if b != before {
			continue
		}
		if b = linearPrune(b); b != before {
			continue
		}
		break
	}
	if *left == nil {
		*left = b
	}
	if depth == 0 {
		*left = b
		return false
	}
	for _, a := range support(b) {
		if and(b, ite(a, tTrue, tFalse)) == tFalse {
			continue
		}
		if from, to := solveEq(a); from != nil {
			hi, k := rewrite(cofAtom(b, a, true), from, to, known)
			return refute(hi, depth-1, fuel, left, k) && refute(and(b, not(ite(a, tTrue, tFalse))), depth-1, fuel, left, known)
		}
	}
	for _, a := range support(b) {
		if a.is("mhas") {
			v := rawApp("mget", a.args[0], a.args[1])
			if mgetZero[v] != nil && occurs(b, v) {
				neg := not(ite(a, tTrue, tFalse))
				return refute(and(b, neg), depth-1, fuel, left, known) && refute(cofAtom(b, a, true), depth-1, fuel, left, known)
			}
		}
	}
	*left = b
	return false
}

// atPresentKeys: what holds at every position of a traversal of a map holds at
// the position of each key that the map has
func atPresentKeys(b *Term) *Term {
	if b.k != KIte {
		return b
	}
	var has []*Term
	here := map[*Term]bool{}
	for _, a := range support(b) {
		here[a] = true
		if a.is("mhas") && len(a.fv) == 0 && and(b, not(ite(a, tTrue, tFalse))) == tFalse {
			has = append(has, a)
		}
	}
	if len(has) == 0 || len(has) > 10 {
		return b
	}
	for _, a := range support(b) {
		if !a.is("ex") || and(b, ite(a, tTrue, tFalse)) != tFalse {
			continue
		}
		for _, h := range has {
			m, k := h.args[0], h.args[1]
			p := rawApp("mpos", m, k)
			if le0(sub(mcard(m), a.args[0])) != tTrue {
				continue
			}
			inst := asBool(applyLam(a.args[1], p))
			subst := map[*Term]*Term{}
			keysAt(inst, m, p, map[*Term]bool{}, func(t *Term) { subst[t] = k })
			if len(subst) == 0 {
				continue
			}
			inst = asBool(replaceTerms(inst, subst))
			ok := !occurs(inst, p)
			for _, v := range support(inst) {
				ok = ok && here[v]
			}
			if ok {
				b = and(b, not(inst))
			}
		}
	}
	return b
}

// keysAt lists the keys that traversals of map m meet at position p.
func keysAt(t, m, p *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.is("mkey") && t.args[0] == m && t.args[1] == p {
		f(t)
	}
	for _, c := range children(t) {
		keysAt(c, m, p, seen, f)
	}
}

// absentKeys: reading a key that the map does not have gives the zero value
func absentKeys(b *Term) *Term {
	if b.k != KIte {
		return b
	}
	subst := map[*Term]*Term{}
	for _, a := range support(b) {
		if !a.is("mhas") || and(b, ite(a, tTrue, tFalse)) != tFalse {
			continue
		}
		v := rawApp("mget", a.args[0], a.args[1])
		if z, ok := mgetZero[v]; ok && occurs(b, v) {
			subst[v] = z
		}
	}
	if len(subst) == 0 {
		return b
	}
	return replaceTerms(b, subst)
}

// cube describes one way to make b true.
func cube(b *Term) string {
	var parts []string
	for b.k == KIte {
		a := b.args[0]
		if b.args[1] != tFalse {
			parts = append(parts, clip(show(a)))
			b = b.args[1]
		} else {
			parts = append(parts, "not "+clip(show(a)))
			b = b.args[2]
		}
	}
	if len(parts) == 0 {
		return "always"
	}
	return "when " + strings.Join(parts, "; ")
}

var clipAt = 700

func clip(s string) string {
	s = strings.ReplaceAll(s, `dec("gob:zRep/proto.Event", sym("buf"))`, "event")
	if len(s) > clipAt {
		return strings.ToValidUTF8(s[:clipAt], "") + "..."
	}
	return s
}

// harness evaluates the specification functions of a package on arbitrary
// arguments and requires that they hold identically and always return, except that
// those called specPartial... may end in a panic of the code under study.
func (r *Report) harness(p *Program, rule, pkg string, targets map[string]string) {
	sp := p.pkgs[pkg]
	if sp == nil {
		r.fail(rule, pkg, "-", "the package is gone")
		return
	}
	var names []string
	for n := range targets {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn := sp.Func(n)
		tpkg, target := pkg, targets[n]
		if i := strings.Index(target, ":"); i >= 0 {
			tpkg, target = target[:i], target[i+1:]
		}
		tf := p.named(tpkg, target)
		pos := "-"
		if tf != nil {
			pos = p.pos(tf.Pos())
		}
		if fn == nil {
			r.fail(rule, n, pos, "no such specification")
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if e == "debug" {
						panic(e)
					}
					r.fail(rule, target+" ("+n+")", pos, "the analysis could not be completed: %v", e)
				}
			}()
			orderOf = map[*Term]*Term{}
			resetAssumptions()
			x := newExec(p)
			if strings.HasPrefix(n, "specRaw") {
				// the operations that are opaque elsewhere
				delete(x.opaque, utilPkg+".ElGamalSign")
				delete(x.opaque, utilPkg+".ElGamalVerify")
				delete(x.opaque, shufPkg+".Shuffle")
			}
			st := x.newState()
			var args []*Term
			for _, v := range fn.Params {
				args = append(args, x.symParam(v.Name(), v.Type()))
			}
			if strings.HasPrefix(n, "specRange") {
				x.bounds, x.mon = &[]bound{}, true
			}
			res := x.run(fn, args, nil, st, "", nil)
			for f := range x.funcs {
				if !strings.Contains(f, ".spec") {
					r.funcs[f] = true
				}
			}
			if st.pc == tFalse || res == tDead {
				r.fail(rule, target+" ("+n+")", pos, "never returns")
				return
			}
			if fieldMode {
				res = stepFolds(res)
			}
			ok, why := prove(st.pc, res)
			if ok && !strings.HasPrefix(n, "specPartial") && !strings.HasPrefix(n, "specRawPartial") {
				// where it has begun to run the code, it returns
				care := tTrue
				if len(x.marks) > 0 {
					care = tFalse
					for _, m := range x.marks {
						care = or(care, m)
					}
				}
				ok, why = prove(care, st.pc)
				if !ok {
					why = "may not return: " + why
				}
			}
			if ok && x.bounds != nil {
				r.analysed["list positions used"] += len(*x.bounds)
				for _, b := range *x.bounds {
					care, goal := unbind(b.pc, b.in)
					if in, _ := prove(b.pc, b.in); in {
						continue
					}
					if in, w := prove(care, goal); !in {
						ok, why = false, fmt.Sprintf("position out of range at %s: %s", p.pos(b.pos), w)
						break
					}
				}
			}
			r.check(ok, rule, target+" ("+n+")", pos, "does not hold %s", why)
		}()
	}
	r.analysed["specifications"] += len(names)
}

// unbind states the bounds of loop positions as conditions of their own.
func unbind(care, goal *Term) (*Term, *Term) {
	done := map[*Term]bool{}
	for {
		var v *Term
		for _, t := range []*Term{care, goal} {
			walk(t, func(t *Term) bool {
				if t.k == KVar && len(t.args) > 0 && !done[t] {
					v = t
				}
				return v == nil
			})
		}
		if v == nil {
			for _, t := range []*Term{care, goal} {
				walk(t, func(t *Term) bool {
					if t.is("arith:%") && t.args[0].is("rnd") && !hasBound(t) {
						m := t.args[1]
						care = and(care, or(le0(m), le0(add(sub(t, m), num(1)))))
					}
					return true
				})
			}
			return care, goal
		}
		done[v] = true
		w := freshVar(v.op, nil)
		m := map[*Term]*Term{v: w}
		care = and(replaceTerms(care, m), and(le0(neg(w)), le0(add(sub(w, v.args[0]), num(1)))))
		goal = replaceTerms(goal, m)
	}
}

func hasBound(t *Term) bool {
	r := false
	walk(t, func(t *Term) bool {
		r = r || t.k == KBVar
		return !r
	})
	return r
}

// named finds Func or Type.Method.
func (p *Program) named(pkg, name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i > 0 {
		return p.method(pkg, name[:i], name[i+1:])
	}
	return p.fn(pkg, name)
}

var _ = fmt.Sprint

var primeMemo = map[string]bool{}

func isPrime(n *big.Int) bool {
	k := n.String()
	v, ok := primeMemo[k]
	if !ok {
		v = n.ProbablyPrime(20)
		primeMemo[k] = v
	}
	return v
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
