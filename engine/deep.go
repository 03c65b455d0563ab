package main

// deep replaces references by what they refer to in state st, so that the
// result does not depend on where objects were allocated.
func (x *Exec) deep(st *State, t *Term) *Term {
	return x.deepM(st, t, map[*Term]*Term{}, map[*Term]bool{})
}

// operations on the content of a map or scalar
var contentFirst = map[string]bool{"mput": true, "mputall": true, "mdel": true, "mdelall": true, "mhas": true, "mget": true, "mcard": true, "mkey": true, "secval": true, "fld": true}

// refForm: the content of an object in the position of a reference
func refForm(c *Term) *Term {
	return localLift(c, func(l, _ *Term) *Term {
		if l.k == KGrp && l.args[0] == tNil && len(l.fs) == 1 && l.fs[0].e.isC(1) && l.fs[0].b != tBase {
			return l.fs[0].b
		}
		if l.is("secval") {
			return l.args[0]
		}
		return l
	})
}

func (x *Exec) deepM(st *State, t *Term, memo map[*Term]*Term, busy map[*Term]bool) *Term {
	var rec func(t *Term) *Term
	var content func(t *Term) *Term
	parts := func(t *Term) *Term {
		var n *Term
		if t.k == KApp && len(t.args) > 1 {
			switch t.op {
			case "mputall", "mdelall":
				n = rec(t.args[1])
			case "gen", "ex", "first", "sum", "prod":
				n = rec(t.args[0])
			}
		}
		return rebuild(t, func(c *Term) *Term {
			if n != nil && c.k == KLam {
				// the position is one of the n
				y := freshVar("d", n)
				return mkLam(y, x.deepM(st, applyLam(c, y), map[*Term]*Term{}, busy))
			}
			if t.k == KApp && contentFirst[t.op] && c == t.args[0] {
				return content(c)
			}
			return rec(c)
		})
	}
	// content: a name here stands for what the object held at the start
	content = func(t *Term) *Term {
		if t.is("elem") || t.is("fld") || t.is("mget") || t.is("root") {
			if key, _ := fam(t); st.mem[key] != nil {
				return parts(t)
			}
		}
		if t.is("sym") {
			return t
		}
		return rec(t)
	}
	rec = func(t *Term) *Term {
		switch t.k {
		case KConst, KNum, KStr, KVar, KBVar, KFormal:
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if busy[t] {
			return t
		}
		busy[t] = true
		defer delete(busy, t)
		var r *Term
		switch {
		case t.is("alloc"):
			key, idx := fam(t)
			if c, ok := st.mem[key]; ok && len(idx) > 0 {
				// the objects of a loop may hold what earlier ones held, and so on
				in := rawApp("within", key)
				if busy[in] {
					if in = rawApp("within", in); busy[in] {
						// named by the object and what the family holds
						return rawApp("opaque", str("recurrence"), t, c)
					}
				}
				busy[in] = true
				r = rec(refForm(x.loadLeaf(st, t, "")))
				delete(busy, in)
			} else if ok {
				r = rec(refForm(x.loadLeaf(st, t, "")))
			} else {
				r = t
			}
		case t.is("slice"):
			r = lsub(rec(t.args[0]), rec(t.args[1]), rec(t.args[2]))
		case t.is("afield"):
			r = mkField(rec(t.args[0]), t.args[1].op)
		case t.is("aindex"):
			r = elem(rec(t.args[0]), rec(t.args[1]))
		case t.is("closure"):
			args := []*Term{t.args[0]}
			for _, a := range t.args[1:] {
				args = append(args, rec(a))
			}
			r = rawApp("closure", args...)
		case t.is("elem"), t.is("fld"), t.is("mget"), t.is("root"), t.is("sym"):
			key, _ := fam(t)
			if _, ok := st.mem[key]; ok && key != t {
				r = rec2(x, st, t, rec)
			} else if ok {
				c := refForm(x.loadLeaf(st, t, ""))
				if c == t {
					r = t
				} else {
					r = rec(c)
				}
			} else {
				r = parts(t)
			}
		case t.k == KGrp && t.args[0] == tNil:
			r = rebuild(t, func(c *Term) *Term {
				for _, f := range t.fs {
					if f.b == c {
						return content(c)
					}
				}
				return rec(c)
			})
		case t.k == KApp && contentFirst[t.op]:
			r = parts(t)
		case t.k == KLam:
			y := freshVar("d", nil)
			r = mkLam(y, x.deepM(st, applyLam(t, y), map[*Term]*Term{}, busy))
		default:
			r = parts(t)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rec2(x *Exec, st *State, t *Term, rec func(*Term) *Term) *Term {
	c := refForm(x.loadLeaf(st, t, ""))
	return localLift(c, func(l, _ *Term) *Term {
		if l == t {
			return rebuild(t, rec)
		}
		return rec(l)
	})
}
