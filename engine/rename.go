package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The specifications are written against the names of the pinned commit
// (spec/names.json). A declaration of the repository that was only given
// another name is given its old name back, through the overlay, before it is
// analysed: a consistent renaming to a name nothing else uses changes nothing
// the program does. When the renaming cannot be recognised or undone, the
// source is loaded as it is.

type nameDecl struct {
	Name string         `json:"name"`
	Kind string         `json:"kind"`           // func, type, var, const, field
	In   string         `json:"in,omitempty"`   // receiver type or struct
	Type string         `json:"type,omitempty"` // signature, type or constant value
	Bag  map[string]int `json:"bag,omitempty"`
}

type nameTable struct {
	Pkgs map[string][]nameDecl `json:"packages"`
	Lits map[string]litUse     `json:"literals"`
}

// litUse: the packages a map key is written in, one per occurrence, and the
// place of the first occurrence among all keys
type litUse struct {
	In    []string `json:"in"`
	First int      `json:"first"`
}

// declNames reads, without type checking, the declared names and the literals.
func declNames() (decls map[string]map[string]bool, lits map[string]litUse) {
	decls, lits = map[string]map[string]bool{}, map[string]litUse{}
	for _, pk := range productPkgs() {
		dir := filepath.Join(repoDir, strings.TrimPrefix(pk, modPath))
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		set := map[string]bool{}
		decls[pk] = set
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
			if err != nil {
				continue
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					set["func "+recvName(d)+"."+d.Name.Name] = true
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							set["type ."+s.Name.Name] = true
							if st, ok := s.Type.(*ast.StructType); ok {
								for _, fl := range st.Fields.List {
									for _, n := range fl.Names {
										set["field "+s.Name.Name+"."+n.Name] = true
									}
								}
							}
						case *ast.ValueSpec:
							for _, n := range s.Names {
								set[d.Tok.String()+" ."+n.Name] = true
							}
						}
					}
				}
			}
			literals(af, func(_ *ast.BasicLit, s string) {
				u, ok := lits[s]
				if !ok {
					u.First = len(lits)
				}
				u.In = append(u.In, pk)
				lits[s] = u
			})
		}
	}
	return
}

func recvName(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return ""
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

// literals visits the string literals that name an entry of a map.
func literals(n ast.Node, f func(*ast.BasicLit, string)) {
	key := func(e ast.Expr) {
		if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.STRING {
			if s, err := strconv.Unquote(l.Value); err == nil {
				f(l, s)
			}
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.IndexExpr:
			key(n.Index)
		case *ast.KeyValueExpr:
			key(n.Key)
		}
		return true
	})
}

// messageLiterals keeps those of maps with values of any type: the parameters
// of messages. Other names, such as those of the configuration file, mean
// something outside the program.
func messageLiterals(info *types.Info, n ast.Node, f func(*ast.BasicLit, string)) {
	ok := map[*ast.BasicLit]bool{}
	mark := func(e ast.Expr, t types.Type) {
		if l, is := e.(*ast.BasicLit); is && t != nil {
			if m, is := t.Underlying().(*types.Map); is {
				if i, is := m.Elem().Underlying().(*types.Interface); is && i.Empty() {
					ok[l] = true
				}
			}
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.IndexExpr:
			mark(n.Index, info.TypeOf(n.X))
		case *ast.CompositeLit:
			for _, e := range n.Elts {
				if kv, is := e.(*ast.KeyValueExpr); is {
					mark(kv.Key, info.TypeOf(n))
				}
			}
		}
		return true
	})
	literals(n, func(l *ast.BasicLit, s string) {
		if ok[l] {
			f(l, s)
		}
	})
}

func (d nameDecl) key() string { return d.Kind + " " + d.In + "." + d.Name }

// typedNames describes the declarations of the loaded packages; rn gives the
// old name of an object that was renamed.
func typedNames(ps []*packages.Package, rn func(types.Object) string) (map[string][]nameDecl, map[string]types.Object) {
	out, objs := map[string][]nameDecl{}, map[string]types.Object{}
	for _, p := range ps {
		add := func(d nameDecl, o types.Object) {
			out[p.PkgPath] = append(out[p.PkgPath], d)
			objs[p.PkgPath+" "+d.key()] = o
		}
		ts := func(t types.Type) string { return typeStr(t, rn) }
		bags := map[types.Object]map[string]int{}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					b := map[string]int{}
					ast.Inspect(fd.Body, func(n ast.Node) bool {
						switch n := n.(type) {
						case *ast.Ident:
							nm := n.Name
							if o := p.TypesInfo.Uses[n]; o != nil {
								nm = rn(o)
							}
							b[nm]++
						case *ast.BasicLit:
							b[n.Value]++
						}
						return true
					})
					bags[p.TypesInfo.Defs[fd.Name]] = b
				}
			}
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.Func:
				add(nameDecl{n, "func", "", ts(o.Type()), bags[o]}, o)
			case *types.Var:
				add(nameDecl{n, "var", "", ts(o.Type()), nil}, o)
			case *types.Const:
				add(nameDecl{n, "const", "", ts(o.Type()) + " " + o.Val().ExactString(), nil}, o)
			case *types.TypeName:
				if o.IsAlias() {
					continue
				}
				t := o.Type().(*types.Named)
				ty := ts(t.Underlying())
				st, isS := t.Underlying().(*types.Struct)
				if isS {
					ty = "struct"
				}
				bag := map[string]int{}
				if isS {
					for i := 0; i < st.NumFields(); i++ {
						bag[rn(st.Field(i))+" "+ts(st.Field(i).Type())]++
					}
				}
				add(nameDecl{n, "type", "", ty, bag}, o)
				if isS {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); !f.Embedded() {
							add(nameDecl{f.Name(), "field", n, ts(f.Type()), nil}, f)
						}
					}
				}
				for i := 0; i < t.NumMethods(); i++ {
					m := t.Method(i)
					s := m.Type().(*types.Signature)
					ty := ts(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()))
					add(nameDecl{m.Name(), "func", n, ty, bags[m]}, m)
				}
			}
		}
	}
	return out, objs
}

// typeStr writes a type with the old names and without parameter names.
func typeStr(t types.Type, rn func(types.Object) string) string {
	switch t := t.(type) {
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + rn(o)
	case *types.Pointer:
		return "*" + typeStr(t.Elem(), rn)
	case *types.Slice:
		return "[]" + typeStr(t.Elem(), rn)
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeStr(t.Elem(), rn))
	case *types.Map:
		return "map[" + typeStr(t.Key(), rn) + "]" + typeStr(t.Elem(), rn)
	case *types.Chan:
		return fmt.Sprintf("chan%d %s", t.Dir(), typeStr(t.Elem(), rn))
	case *types.Tuple:
		var a []string
		for i := 0; i < t.Len(); i++ {
			a = append(a, typeStr(t.At(i).Type(), rn))
		}
		return "(" + strings.Join(a, ",") + ")"
	case *types.Signature:
		v := ""
		if t.Variadic() {
			v = "..."
		}
		return "func" + typeStr(t.Params(), rn) + v + typeStr(t.Results(), rn)
	case *types.Struct:
		var a []string
		for i := 0; i < t.NumFields(); i++ {
			a = append(a, rn(t.Field(i))+" "+typeStr(t.Field(i).Type(), rn))
		}
		return "struct{" + strings.Join(a, ";") + "}"
	}
	return t.String()
}

// namesCmd prints the table of the current tree.
func namesCmd() {
	ps, done, err := plainLoad()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	defer done()
	t, _ := typedNames(ps, func(o types.Object) string { return o.Name() })
	_, lits := declNames()
	b, _ := json.MarshalIndent(nameTable{t, lits}, "", " ")
	fmt.Println(string(b))
}

func plainLoad() ([]*packages.Package, func(), error) {
	tmp, err := os.MkdirTemp("", "verifnames")
	if err != nil {
		return nil, nil, err
	}
	done := func() { os.RemoveAll(tmp) }
	cfg, err := loadConfig(tmp, nil)
	if err == nil {
		var ps []*packages.Package
		ps, err = packages.Load(cfg, productPkgs()...)
		for _, p := range ps {
			for _, e := range p.Errors {
				err = e
			}
		}
		if err == nil {
			return ps, done, nil
		}
	}
	done()
	return nil, nil, err
}

func similarity(a, b map[string]int) float64 {
	in, un := 0, 0
	for k, v := range a {
		w := b[k]
		in += min(v, w)
		un += max(v, w)
	}
	for k, w := range b {
		if a[k] == 0 {
			un += w
		}
	}
	if un == 0 {
		return 1
	}
	return float64(in) / float64(un)
}

// restoreNames gives renamed declarations and message names their old names
// back; it returns the changed files and a list of what was recognised.
func restoreNames() (map[string][]byte, []string) {
	b, err := os.ReadFile(filepath.Join(verifDir, "spec", "names.json"))
	if err != nil {
		return nil, nil
	}
	var base nameTable
	if json.Unmarshal(b, &base) != nil {
		return nil, nil
	}
	now, lits := declNames()
	missing := false
	for pk, ds := range base.Pkgs {
		if now[pk] == nil {
			continue
		}
		for _, d := range ds {
			if !now[pk][d.key()] {
				missing = true
			}
		}
	}
	litMap := renamedLiterals(base.Lits, lits)
	if !missing && len(litMap) == 0 {
		return nil, nil
	}
	ps, done, err := plainLoad()
	if err != nil {
		return nil, nil
	}
	defer done()
	old := map[types.Object]string{}
	rn := func(o types.Object) string {
		if n, ok := old[o]; ok {
			return n
		}
		return o.Name()
	}
	// types first, then their fields, then values and functions: each step
	// compares types written with the old names found so far. Functions are
	// compared again once their callees are known.
	for _, kinds := range []string{"type", "type", "field", "const var", "func", "func", "func"} {
		cur, objs := typedNames(ps, rn)
		for pk, ds := range base.Pkgs {
			if cur[pk] == nil {
				continue
			}
			matchNames(kinds, pk, ds, cur[pk], objs, old)
		}
	}
	for l := range litMap {
		n := 0
		for _, p := range ps {
			for _, f := range p.Syntax {
				messageLiterals(p.TypesInfo, f, func(_ *ast.BasicLit, s string) {
					if s == l {
						n++
					}
				})
			}
		}
		if n != len(lits[l].In) {
			delete(litMap, l)
		}
	}
	if len(old) == 0 && len(litMap) == 0 {
		return nil, nil
	}
	return undo(ps, old, litMap)
}

// renamedLiterals pairs the message names that are gone with the new ones
// that occur as often in the same packages, in the order they first occur.
func renamedLiterals(base, now map[string]litUse) map[string]string {
	type pair struct{ gone, fresh []string }
	groups := map[string]*pair{}
	at := func(occ []string) *pair {
		occ = append([]string{}, occ...)
		sort.Strings(occ)
		k := strings.Join(occ, " ")
		if groups[k] == nil {
			groups[k] = &pair{}
		}
		return groups[k]
	}
	for l, occ := range base {
		if len(now[l].In) == 0 {
			p := at(occ.In)
			p.gone = append(p.gone, l)
		}
	}
	for l, occ := range now {
		if len(base[l].In) == 0 {
			p := at(occ.In)
			p.fresh = append(p.fresh, l)
		}
	}
	r := map[string]string{}
	for _, p := range groups {
		if len(p.gone) != len(p.fresh) {
			continue
		}
		sort.Slice(p.gone, func(i, j int) bool { return base[p.gone[i]].First < base[p.gone[j]].First })
		sort.Slice(p.fresh, func(i, j int) bool { return now[p.fresh[i]].First < now[p.fresh[j]].First })
		for i := range p.gone {
			r[p.fresh[i]] = p.gone[i]
		}
	}
	return r
}

func matchNames(kinds, pk string, base, cur []nameDecl, objs map[string]types.Object, old map[types.Object]string) {
	oldName := func(o types.Object) string {
		if n, ok := old[o]; ok {
			return n
		}
		return o.Name()
	}
	typeObj := map[string]types.Object{}
	for _, d := range cur {
		if d.Kind == "type" {
			typeObj[d.Name] = objs[pk+" "+d.key()]
		}
	}
	// the old description of each current declaration
	type curDecl struct {
		nameDecl
		obj types.Object
	}
	have := map[string]bool{}
	var cs []curDecl
	known := map[string]bool{}
	for _, d := range base {
		known[d.key()] = true
	}
	for _, d := range cur {
		o := objs[pk+" "+d.key()]
		if d.In != "" && typeObj[d.In] != nil {
			d.In = oldName(typeObj[d.In])
		}
		d.Name = oldName(o)
		have[d.key()] = true
		cs = append(cs, curDecl{d, o})
	}
	groupOf := func(d nameDecl) string { return d.Kind + " " + d.In + " " + d.Type }
	gone := map[string][]nameDecl{}
	fresh := map[string][]curDecl{}
	for _, d := range base {
		if strings.Contains(kinds, d.Kind) && !have[d.key()] {
			gone[groupOf(d)] = append(gone[groupOf(d)], d)
		}
	}
	for _, c := range cs {
		if strings.Contains(kinds, c.Kind) && !known[c.key()] {
			fresh[groupOf(c.nameDecl)] = append(fresh[groupOf(c.nameDecl)], c)
		}
	}
	for g, gs := range gone {
		fs := fresh[g]
		if len(fs) == 0 {
			continue
		}
		switch gs[0].Kind {
		case "func", "type":
			// the pairs that look most alike first
			type cand struct {
				g, f int
				s    float64
			}
			var cands []cand
			for i, d := range gs {
				for j, c := range fs {
					if s := similarity(d.Bag, c.Bag); s >= 0.4 {
						cands = append(cands, cand{i, j, s})
					}
				}
			}
			sort.SliceStable(cands, func(i, j int) bool { return cands[i].s > cands[j].s })
			ug, uf := map[int]bool{}, map[int]bool{}
			for _, c := range cands {
				if !ug[c.g] && !uf[c.f] {
					ug[c.g], uf[c.f] = true, true
					old[fs[c.f].obj] = gs[c.g].Name
				}
			}
		default:
			// fields and values of one type keep their order
			if len(gs) == len(fs) {
				if gs[0].Kind != "field" {
					if len(gs) > 1 {
						continue
					}
				}
				for i := range gs {
					old[fs[i].obj] = gs[i].Name
				}
			}
		}
	}
}

type edit struct {
	at, n int
	new   string
}

// undo writes the old names back; nil when that would change what a name means.
func undo(ps []*packages.Package, old map[types.Object]string, lits map[string]string) (map[string][]byte, []string) {
	edits := map[string][]edit{}
	origin := func(o types.Object) types.Object {
		switch v := o.(type) {
		case *types.Var:
			return v.Origin()
		case *types.Func:
			return v.Origin()
		}
		return o
	}
	find := func(o types.Object) (string, bool) {
		o = origin(o)
		if n, ok := old[o]; ok {
			return n, true
		}
		if v, ok := o.(*types.Var); ok && v.Embedded() {
			t := v.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if nt, ok := t.(*types.Named); ok {
				if n, ok := old[nt.Obj()]; ok {
					return n, true
				}
			}
		}
		return "", false
	}
	// packages see each other through export data, so an object is known by
	// where it is declared
	type place struct{ pkg, kind, in, name string }
	byPlace := map[place]string{}
	placeOf := func(o types.Object) (place, bool) {
		if o.Pkg() == nil {
			return place{}, false
		}
		pl := place{pkg: o.Pkg().Path(), name: o.Name()}
		switch v := o.(type) {
		case *types.Var:
			if v.IsField() {
				return place{}, false
			}
			pl.kind = "var"
		case *types.Func:
			pl.kind = "func"
			if r := v.Type().(*types.Signature).Recv(); r != nil {
				t := r.Type()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				nt, ok := t.(*types.Named)
				if !ok {
					return place{}, false
				}
				pl.in = nt.Obj().Name()
			}
		case *types.Const:
			pl.kind = "const"
		case *types.TypeName:
			pl.kind = "type"
		default:
			return place{}, false
		}
		if pl.in == "" && o.Parent() != o.Pkg().Scope() {
			return place{}, false
		}
		return pl, true
	}
	fieldAt := map[place]string{}
	var said []string
	for o, n := range old {
		said = append(said, o.Pkg().Name()+"."+o.Name()+" is "+n)
		if pl, ok := placeOf(o); ok {
			byPlace[pl] = n
		}
	}
	for _, p := range ps {
		sc := p.Types.Scope()
		for _, tn := range sc.Names() {
			if o, ok := sc.Lookup(tn).(*types.TypeName); ok {
				if st, ok := o.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if n, ok := find(st.Field(i)); ok {
							fieldAt[place{p.PkgPath, "field", fmt.Sprint(p.Fset.Position(st.Field(i).Pos()).Filename, p.Fset.Position(st.Field(i).Pos()).Line), st.Field(i).Name()}] = n
						}
					}
				}
			}
		}
	}
	lookup := func(p *packages.Package, o types.Object) (string, bool) {
		if n, ok := find(o); ok {
			return n, true
		}
		o = origin(o)
		if v, ok := o.(*types.Var); ok && v.IsField() && o.Pkg() != nil {
			ps := p.Fset.Position(v.Pos())
			n, ok := fieldAt[place{o.Pkg().Path(), "field", fmt.Sprint(ps.Filename, ps.Line), v.Name()}]
			return n, ok
		}
		if pl, ok := placeOf(o); ok {
			n, ok := byPlace[pl]
			return n, ok
		}
		return "", false
	}
	for _, p := range ps {
		visit := func(id *ast.Ident, o types.Object) bool {
			if o == nil {
				return true
			}
			n, ok := lookup(p, o)
			if !ok {
				return true
			}
			// the old name must still be free where it is written
			if pl, ok := placeOf(o); ok && pl.in == "" && o.Pkg() == p.Types {
				if in := p.Types.Scope().Innermost(id.Pos()); in != nil {
					if _, x := in.LookupParent(n, id.Pos()); x != nil && x.Parent() != types.Universe {
						if _, also := lookup(p, x); !also {
							return false
						}
					}
				}
			}
			ps := p.Fset.Position(id.Pos())
			edits[ps.Filename] = append(edits[ps.Filename], edit{ps.Offset, len(id.Name), n})
			return true
		}
		for id, o := range p.TypesInfo.Defs {
			if !visit(id, o) {
				return nil, nil
			}
		}
		for id, o := range p.TypesInfo.Uses {
			if !visit(id, o) {
				return nil, nil
			}
		}
		if len(lits) > 0 {
			for _, f := range p.Syntax {
				messageLiterals(p.TypesInfo, f, func(l *ast.BasicLit, s string) {
					if n, ok := lits[s]; ok {
						ps := p.Fset.Position(l.Pos())
						edits[ps.Filename] = append(edits[ps.Filename], edit{ps.Offset, len(l.Value), strconv.Quote(n)})
					}
				})
			}
		}
	}
	for l, n := range lits {
		said = append(said, strconv.Quote(l)+" is "+strconv.Quote(n))
	}
	sort.Strings(said)
	out := map[string][]byte{}
	for f, es := range edits {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, nil
		}
		sort.Slice(es, func(i, j int) bool { return es[i].at > es[j].at })
		last := -1
		for _, e := range es {
			if e.at == last {
				continue
			}
			last = e.at
			src = append(src[:e.at:e.at], append([]byte(e.new), src[e.at+e.n:]...)...)
		}
		out[f] = src
	}
	return out, said
}
