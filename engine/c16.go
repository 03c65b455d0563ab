package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: every kind of message reaches the handler of its kind.
//
// For each role and each code its Handle is evaluated on a message of that
// code with unknown contents in an unknown state. What a handler does is what
// it changes in the role's state, what it sends, what it reads from the
// message and what of the state it shows. The footprints below state what the
// handler of a kind can do; nothing that is some kind's effect may happen
// under a kind that does not have it, and the contents are looked at in every
// state. Under a code that is no kind of the role nothing happens at all.
//
// The kinds each role can send, and to whom, are collected from the same runs
// and from the functions with which a role acts by itself; every one must be a
// kind of the role it is sent to.

type kindFoot struct {
	fields string // fields of the role's state it changes (after ?: need not change)
	sends  string // kinds it sends
	reads  string // fields of the message, at least one of which it reads whatever the state
	shows  string // fields of the role's state it prints
	when   string // the status (or, after +, the field given) in which that holds, if not in all
	never  bool   // no role sends it: it may also be unknown
}

type roleKinds struct {
	name, pkg string
	kinds     map[string]kindFoot
	entries   []string
	peers     map[string]string // field of the state -> roles its addresses belong to
	addr      map[string]string // kind -> role whose address the message carries
}

var roles16 = []roleKinds{
	{"coordinator", "zRep/cmd/coordinator", map[string]kindFoot{
		"SERVER_REGISTER":                {"ServerList", "SERVER_REGISTER_REPLY UPDATE_NEXT_HOP", "public_key", "", "", false},
		"UPDATE_PEDERSEN_H":              {"PedersenBase", "", "h", "", "", false},
		"CLIENT_REGISTER_CONTROLLERSIDE": {"Clients", "CLIENT_REGISTER_SERVERSIDE INIT_PEDERSEN_R", "public_key", "", "", false},
		"CLIENT_REGISTER_SERVERSIDE":     {"NewClientsBuffer GnHonestyProofs", "CLIENT_REGISTER_CONFIRMATION", "public_key pcomm", "", "", false},
		"GN_HONESTY_CHALLENGE":           {"GnHonestyProofs", "GN_HONESTY_ANSWER", "honesty_chal", "", "", false},
		"POST_BRIDGE":                    {"Bridges", "", "bridge_addr nym signature", "", "MESSAGE", false},
		"REQUEST_BRIDGES":                {"Bridges RequesterAddrs AssignmentSignaturesLog", "SIGN_ASSIGNMENTS", "ind nym signature", "", "MESSAGE", false},
		"GOT_SIGNS":                      {"?Bridges AssignmentSignaturesLog", "GOT_SIGNS", "success", "", "MESSAGE", false},
		"VOTE":                           {"VotedAssignments ReputationDiffMap", "", "nym signature assignment feedback", "", "MESSAGE", false},
		"ROUND_END":                      {"BeginningCommMap BeginningKeyMap PedersenBase Status", "ROUND_END", "keys vals", "", "", false},
		"ANNOUNCEMENT":                   {"LRSBase PedersenBase EndingCommMap EndingKeyMap ReputationDiffMap VotedAssignments AllClientsPublicKeys G Status", "ANNOUNCEMENT_FINALIZE", "keys vals g", "", "", false},
	}, []string{"specSendsBases", "specSendsAnnounce", "specSendsEnd", "specSendsVote"},
		map[string]string{"ServerList": "server", "Clients": "client", "RequesterAddrs": "client", "LocalAddr": "coordinator"},
		map[string]string{"CLIENT_REGISTER_SERVERSIDE": "client"}},
	{"server", "zRep/cmd/server", map[string]kindFoot{
		"SERVER_REGISTER_REPLY":      {"PreviousHop IsConnected FujiOkamBase", "UPDATE_PEDERSEN_H", "reply", "", "", false},
		"ANNOUNCEMENT":               {"KeyMap", "ANNOUNCEMENT", "keys vals GT HT", "", "", false},
		"ANNOUNCEMENT_FINALIZE":      {"PedersenBase EndingCommMap EndingKeyMap G", "", "g keys vals GT HT", "", "", false},
		"SIGN_ASSIGNMENTS":           {"", "GOT_SIGNS", "nym", "", "", false},
		"UPDATE_NEXT_HOP":            {"NextHop", "", "next_hop", "", "", false},
		"CLIENT_REGISTER_SERVERSIDE": {"KeyMap", "CLIENT_REGISTER_SERVERSIDE", "public_key pcomm", "", "", false},
		"ROUND_END":                  {"KeyMap Roundkey", "ROUND_END", "keys vals", "", "", false},
		"BCAST_PEDERSEN_H":           {"PedersenBase", "", "h", "", "", false},
	}, []string{"specSendsRegister"},
		map[string]string{"NextHop": "server coordinator", "PreviousHop": "server coordinator", "CoordinatorAddr": "coordinator"}, nil},
	{"client", "zRep/cmd/client", map[string]kindFoot{
		"CLIENT_REGISTER_CONFIRMATION": {"FujiOkamBase AllGnHonestyProofPublic AllGnHonestyChallenge Status", "GN_HONESTY_CHALLENGE", "n honesty_prf", "", "", false},
		"INIT_PEDERSEN_R":              {"R G OnetimePseudoNym", "", "r g", "", "", false},
		"GN_HONESTY_ANSWER":            {"", "", "honesty_ans", "", "", false},
		"ANNOUNCEMENT_FINALIZE":        {"Index PCommr Status G OnetimePseudoNym AllClientsPublicKeys PedersenBase", "", "g keys vals", "", "", false},
		"GOT_SIGNS":                    {"Assignments", "", "assignment signatures signature", "", "+ControllerPublicKey", false},
		"VOTE":                         {"", "", "", "Assignments", "", false},
		"ROUND_END":                    {"Reputation Status Assignments", "", "keys diffs", "", "", false},
		"BCAST_PEDERSEN_RDIFF":         {"", "", "keys rDiffs", "", "", false},
		"VOTE_REPLY":                   {"", "", "reply", "", "", true},
	}, []string{"specSendsRegister", "specSendsPost", "specSendsRequest", "specSendsVote"},
		map[string]string{"CoordinatorAddr": "coordinator"}, nil},
}

type effect16 struct {
	name, pos string
	pc        *Term
}

type send16 struct {
	role     *roleKinds
	under    string // kind being handled
	pos      string
	kind, to *Term
	pc       *Term
}

type run16 struct {
	effects []effect16
	sends   []send16
	reads   []effect16
	panics  []effect16
	end     *Term
}

func init() {
	checks["C16"] = checkDef{[]string{"common", "c16"}, runC16, "Each role's Handle is evaluated, by value numbering over the SSA form of all code reached, once for every message code and once for all other codes, on unknown contents in an unknown state; the effects found (state changes, messages sent, fields read, state shown) are compared with the kinds' footprints. Every message that can be sent is a kind of the role it is sent to; every call that sends, in code a role can reach, has been evaluated. The codes are compared as constants of the type-checked program. "}
}

func (role *roleKinds) evaluate(p *Program, rep *Report, entry *ssa.Function, label string, event func(x *Exec, st *State, site string) *Term, assume *Term, params *Term, visited map[string]bool) *run16 {
	orderOf = map[*Term]*Term{}
	resetAssumptions()
	x := newExec(p)
	st := x.newState()
	var args []*Term
	var obj *Term
	for _, v := range entry.Params {
		a := x.symParam(v.Name(), v.Type())
		args = append(args, a)
		if _, ok := v.Type().Underlying().(*types.Pointer); ok && obj == nil {
			obj = a
		}
	}
	out := &run16{}
	if event != nil {
		x.opaque[utilPkg+".DecodeEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return event(x, st, c.site) }
	}
	x.opaque[utilPkg+".SendEvent"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		visited[p.pos(c.pos)] = true
		if !x.mon || st.pc == tFalse {
			return tNil
		}
		k := x.load(st, rawApp("afield", c.args[2], str("EventType")), "")
		out.sends = append(out.sends, send16{role, label, p.pos(c.pos), k, c.args[1], st.pc})
		return tNil
	}
	show := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		if x.mon && st.pc != tFalse && !isSpec(f.fn) {
			for _, a := range c.args {
				for _, fd := range fieldsIn(x.deep(st, a), obj) {
					out.effects = append(out.effects, effect16{"shows " + fd, p.pos(c.pos), st.pc})
				}
			}
		}
		return tup(cst("n"), tNil)
	}
	for _, n := range []string{"fmt.Print", "fmt.Printf", "fmt.Println"} {
		x.opaque[n] = show
	}
	x.onWrite = func(f *frame, st *State, addr *Term, pos string) {
		localLift(addr, func(l, _ *Term) *Term {
			c := leafCond(addr, l)
			for _, fd := range rootField(l, obj) {
				out.effects = append(out.effects, effect16{"changes " + fd, pos, and(st.pc, c)})
			}
			return l
		})
	}
	x.onAssert = func(st *State, v *Term, pos string) {
		if params != nil && st.pc != tFalse && occurs(v, params) {
			out.panics = append(out.panics, effect16{"panics where the message is of another form", pos, st.pc})
		}
	}
	x.mon = true
	st.pc = assume
	x.run(entry, args, nil, st, "", nil)
	out.end = st.pc
	for f := range x.funcs {
		if !strings.Contains(f, ".spec") {
			rep.funcs[f] = true
		}
	}
	rep.analysed["evaluations of a role's entry points"]++
	rep.analysed["effects"] += len(out.effects)
	rep.analysed["messages sent"] += len(out.sends)
	if params != nil {
		for _, l := range x.lookups {
			if l.m != params {
				continue
			}
			n := "any field"
			if l.k != nil {
				n = "an unknown field"
				if l.k.k == KStr {
					n = l.k.op
				}
			}
			out.reads = append(out.reads, effect16{"reads " + n, "-", l.pc})
		}
	}
	return out
}

// rootField: the field of the role's state that the place a lies in
func rootField(a, obj *Term) []string {
	seen := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if (t.is("afield") || t.is("fld")) && t.args[0] == obj {
			seen[t.args[1].op] = true
			return
		}
		if t.k == KIte {
			return
		}
		if len(t.args) > 0 {
			walk(t.args[0])
		}
	}
	walk(a)
	return keysOf(seen)
}

// fieldsIn: the fields of the role's state that t depends on
func fieldsIn(t, obj *Term) []string {
	seen := map[string]bool{}
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || done[t] {
			return
		}
		done[t] = true
		if (t.is("afield") || t.is("fld")) && t.args[0] == obj {
			seen[t.args[1].op] = true
		}
		for _, a := range children(t) {
			walk(a)
		}
	}
	walk(t)
	return keysOf(seen)
}

func runC16(p *Program, r *Report) {
	const rule = "each kind reaches its handler"
	code := map[string]int64{}
	byCode := map[int64]string{}
	pr := p.pkgs["zRep/proto"]
	if pr == nil {
		r.fail(rule, "zRep/proto", "-", "the package is gone")
		return
	}
	sc := pr.Pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || c.Val().Kind() != constant.Int {
			continue
		}
		v, _ := constant.Int64Val(c.Val())
		if o, dup := byCode[v]; dup {
			r.fail("codes are distinct", n, p.pos(c.Pos()), "has the code %d of %s", v, o)
		} else {
			r.pass("codes are distinct", n, p.pos(c.Pos()))
			byCode[v] = n
		}
		code[n] = v
	}
	visited := map[string]bool{}
	var sends []send16
	for i := range roles16 {
		role := &roles16[i]
		sp := p.pkgs[role.pkg]
		if sp == nil || sp.Func("Handle") == nil {
			r.fail(rule, role.name, "-", "no Handle")
			continue
		}
		h := sp.Func("Handle")
		owner := map[string][]string{}
		for k, f := range role.kinds {
			for _, w := range strings.Fields(f.fields) {
				w = strings.TrimPrefix(w, "?")
				owner["changes "+w] = append(owner["changes "+w], k)
			}
		}
		params := rawApp("sym", str("contents"))
		from := rawApp("sym", str("from"))
		deliver := func(kind *Term) func(x *Exec, st *State, site string) *Term {
			return func(x *Exec, st *State, site string) *Term {
				e := x.alloc(site)
				x.store(st, e, mkStruct("", tNoBase, []string{"EventType", "Params", "SrcAddr"}, []*Term{kind, params, rawApp("addrstr", from)}), "")
				return rawApp("tuple", e, from)
			}
		}
		one := func(label string, kind, assume *Term) (out *run16) {
			defer func() {
				if e := recover(); e != nil {
					r.fail(rule, role.name+" "+label, "-", "the analysis could not be completed: %v", e)
					out = nil
				}
			}()
			return role.evaluate(p, r, h, label, deliver(kind), assume, params, visited)
		}
		other := tTrue
		kv := rawApp("symint", str("kind"))
		var names []string
		for k := range role.kinds {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, n := range names {
			foot := role.kinds[n]
			v, ok := code[n]
			if !ok {
				if !foot.never {
					r.fail(rule, n, "-", "no such kind")
				}
				continue
			}
			other = and(other, not(eq(kv, num(v))))
			out := one(n, num(v), tTrue)
			if out == nil {
				continue
			}
			if os.Getenv("DBG16") != "" {
				fmt.Println("==", role.name, n, "returns", show(out.end))
				for _, e := range out.effects {
					fmt.Println("  ", e.name, e.pos)
				}
				for _, e := range out.sends {
					fmt.Println("   sends", show(e.kind), "to", show(e.to))
				}
				for _, e := range out.reads {
					fmt.Println("  ", e.name, show(e.pc))
				}
			}
			sends = append(sends, out.sends...)
			if foot.never && len(out.effects)+len(out.sends)+len(out.reads) == 0 {
				r.pass(rule, role.name+": "+n, "-")
				continue
			}
			has := map[string]bool{}
			bad := false
			for _, e := range out.effects {
				if e.pc == tFalse {
					continue
				}
				has[e.name] = true
				ks := owner[e.name]
				mine := len(ks) == 0
				for _, k := range ks {
					mine = mine || k == n
				}
				if !mine {
					bad = true
					r.fail(rule, role.name+": "+n, e.pos, "%s, which only %s does", e.name, strings.Join(ks, ", "))
				}
			}
			for _, s := range out.sends {
				for _, l := range leaves(s.kind) {
					if and(s.pc, leafCond(s.kind, l)) == tFalse {
						continue
					}
					m := nameOf(l, byCode)
					if !word(foot.sends, m) {
						bad = true
						r.fail(rule, role.name+": "+n, s.pos, "sends %s", m)
					}
					has["sends "+m] = true
				}
			}
			miss := func(kind, ws string) {
				for _, w := range strings.Fields(ws) {
					if !strings.HasPrefix(w, "?") && !has[kind+w] {
						bad = true
						r.fail(rule, role.name+": "+n, p.pos(h.Pos()), "never %s%s", kind, w)
					}
				}
			}
			miss("changes ", foot.fields)
			miss("sends ", foot.sends)
			miss("shows ", foot.shows)
			if foot.reads != "" {
				any := tFalse
				for _, e := range out.reads {
					if word(foot.reads, strings.TrimPrefix(e.name, "reads ")) {
						any = or(any, e.pc)
					}
				}
				when := tTrue
				if strings.HasPrefix(foot.when, "+") {
					when = not(eq(mkField(rawApp("sym", str(h.Params[len(h.Params)-1].Name())), foot.when[1:]), tNil))
				} else if foot.when != "" {
					c, ok := sp.Pkg.Scope().Lookup(foot.when).(*types.Const)
					if !ok {
						r.fail(rule, role.name+": "+n, "-", "no status %s", foot.when)
						continue
					}
					v, _ := constant.Int64Val(c.Val())
					when = eq(mkField(rawApp("sym", str(h.Params[len(h.Params)-1].Name())), "Status"), num(v))
					if foot.when == "MESSAGE" {
						// the round's generator is given while it is open (C03)
						when = and(when, not(eq(mkField(rawApp("sym", str(h.Params[len(h.Params)-1].Name())), "G"), tNil)))
					}
				}
				if ok, why := prove(when, any); !ok {
					bad = true
					r.fail(rule, role.name+": "+n, p.pos(h.Pos()), "the message's fields (%s) are not always looked at %s", foot.reads, why)
				}
			}
			if !bad {
				r.pass(rule, role.name+": "+n, p.pos(h.Pos()))
			}
		}
		if out := one("other codes", kv, other); out != nil {
			what := role.name + ": any other code"
			bad := false
			for _, e := range append(out.effects, out.panics...) {
				if e.pc != tFalse {
					bad = true
					r.fail("unknown codes are ignored", what, e.pos, "%s", e.name)
				}
			}
			for _, s := range out.sends {
				if s.pc != tFalse {
					bad = true
					r.fail("unknown codes are ignored", what, s.pos, "sends a message")
				}
			}
			if ok, why := prove(other, out.end); !ok {
				bad = true
				r.fail("unknown codes are ignored", what, p.pos(h.Pos()), "does not return %s", why)
			}
			if !bad {
				r.pass("unknown codes are ignored", what, p.pos(h.Pos()))
			}
		}
		for _, e := range role.entries {
			fn := sp.Func(e)
			if fn == nil {
				r.fail(rule, e, "-", "no such specification")
				continue
			}
			func() {
				defer func() {
					if err := recover(); err != nil {
						r.fail(rule, e, "-", "the analysis could not be completed: %v", err)
					}
				}()
				sends = append(sends, role.evaluate(p, r, fn, "", nil, tTrue, nil, visited).sends...)
			}()
		}
	}
	r.routes(p, sends, byCode)
	r.allSends(p, visited)
	r.atLeast("codes are distinct", 20)
	r.atLeast(rule, 27)
	r.atLeast("unknown codes are ignored", 3)
	r.atLeast("sent to a role that handles it", 30)
}

func word(list, w string) bool {
	for _, x := range strings.Fields(list) {
		if x == w {
			return true
		}
	}
	return false
}

func nameOf(t *Term, byCode map[int64]string) string {
	for v, n := range byCode {
		if t.isC(v) {
			return n
		}
	}
	return "the code " + show(t)
}

// routes: every message sent is a kind of the role it is sent to
func (r *Report) routes(p *Program, sends []send16, byCode map[int64]string) {
	const rule = "sent to a role that handles it"
	role := map[string]*roleKinds{}
	for i := range roles16 {
		role[roles16[i].name] = &roles16[i]
	}
	// who sends what to whom, where the address itself says so
	toRoles := func(s send16, to *Term) ([]string, bool) {
		seen := map[string]bool{}
		unknown := false
		done := map[*Term]bool{}
		from := false
		var walk func(t *Term)
		walk = func(t *Term) {
			if done[t] {
				return
			}
			done[t] = true
			if t.is("sym") && len(t.args) == 1 {
				switch t.args[0].op {
				case "from":
					from = true
				case "contents":
					for _, n := range strings.Fields(s.role.addr[s.under]) {
						seen[n] = true
					}
				}
			}
			if t.is("afield") || t.is("fld") {
				if g, ok := s.role.peers[t.args[1].op]; ok && t.args[0].is("sym") {
					for _, n := range strings.Fields(g) {
						seen[n] = true
					}
					return
				}
			}
			for _, a := range children(t) {
				walk(a)
			}
		}
		walk(to)
		if from {
			seen["from"] = true
		}
		if len(seen) == 0 {
			unknown = true
		}
		return keysOf(seen), !unknown
	}
	type out struct {
		s    send16
		kind string
		to   []string
	}
	var all []out
	for _, s := range sends {
		for _, k := range leaves(s.kind) {
			for _, l := range leaves(s.to) {
				if l == tNil || l == tDead || l == tUndef || and(s.pc, and(leafCond(s.kind, k), leafCond(s.to, l))) == tFalse {
					continue
				}
				to, ok := toRoles(s, l)
				if !ok {
					r.fail(rule, s.role.name+" sends "+nameOf(k, byCode), s.pos, "it is not known whom to: %s", clip(show(l)))
					continue
				}
				all = append(all, out{s, nameOf(k, byCode), to})
			}
		}
	}
	// the sender of a message is a role that sends this kind here
	senders := map[string]map[string]bool{} // role/kind -> roles
	for ch := true; ch; {
		ch = false
		for _, o := range all {
			for _, t := range o.to {
				ts := []string{t}
				if t == "from" {
					ts = keysOf(senders[o.s.role.name+"/"+o.s.under])
				}
				for _, t := range ts {
					k := t + "/" + o.kind
					if senders[k] == nil {
						senders[k] = map[string]bool{}
					}
					if !senders[k][o.s.role.name] {
						senders[k][o.s.role.name] = true
						ch = true
					}
				}
			}
		}
	}
	for _, o := range all {
		what := o.s.role.name + " sends " + o.kind
		if o.s.under != "" {
			what += " on " + o.s.under
		}
		for _, t := range o.to {
			ts := []string{t}
			if t == "from" {
				ts = keysOf(senders[o.s.role.name+"/"+o.s.under])
				if len(ts) == 0 {
					r.fail(rule, what, o.s.pos, "no role sends %s to the %s", o.s.under, o.s.role.name)
				}
			}
			for _, t := range ts {
				_, ok := role[t].kinds[o.kind]
				r.check(ok, rule, what+" to a "+t, o.s.pos, "the %s does not handle %s", t, o.kind)
			}
		}
	}
	for i := range roles16 {
		for _, k := range sortedKinds(&roles16[i]) {
			if !roles16[i].kinds[k].never {
				r.check(len(senders[roles16[i].name+"/"+k]) > 0, "every kind is sent", roles16[i].name+": "+k, "-", "no role sends it")
			}
		}
	}
}

func sortedKinds(role *roleKinds) []string {
	var names []string
	for k := range role.kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	return names
}

// allSends: every call that sends, in code a role can reach, was evaluated
func (r *Report) allSends(p *Program, visited map[string]bool) {
	send := p.fn(utilPkg, "SendEvent")
	if send == nil {
		r.fail("every send evaluated", "util.SendEvent", "-", "not found")
		return
	}
	seen := map[*ssa.Function]bool{}
	var list []*ssa.Function
	for i := range roles16 {
		if f := p.fn(roles16[i].pkg, "Launch"); f != nil {
			list = append(list, f)
		} else {
			r.fail("every send evaluated", roles16[i].name+": Launch", "-", "not found")
		}
	}
	for i := 0; i < len(list); i++ {
		for _, f := range p.reach(list[i]) {
			if seen[f] {
				continue
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, g := range p.callees(c.Common()) {
						if g == send {
							r.check(visited[p.pos(in.Pos())], "every send evaluated", funcName(f), p.pos(in.Pos()), "this call was not reached by the analysis")
						}
						if _, isGo := in.(*ssa.Go); isGo && g.Blocks != nil {
							list = append(list, g)
						}
					}
				}
			}
		}
	}
	r.atLeast("every send evaluated", 15)
}
