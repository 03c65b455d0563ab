package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "zRep"

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Program is the type-checked SSA form of the repository (non-test files) and
// of the specification packages of one property.
type Program struct {
	prog *ssa.Program
	fset *token.FileSet
	pkgs map[string]*ssa.Package // import path -> package (repository and spec)
	tmp  string
	// declarations analysed under the name the specifications know them by
	renamed []string
}

// productPkgs lists the repository's packages that make up the program.
func productPkgs() []string {
	var r []string
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != repoDir && (strings.HasPrefix(b, ".") || b == "test" || b == "vendor" || b == "testdata") {
				return filepath.SkipDir
			}
			ents, _ := os.ReadDir(p)
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
					rel, _ := filepath.Rel(repoDir, p)
					r = append(r, modPath+"/"+filepath.ToSlash(rel))
					break
				}
			}
		}
		return nil
	})
	sort.Strings(r)
	return r
}

func load(specs ...string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "verifspec")
	if err != nil {
		return nil, err
	}
	p := &Program{tmp: tmp}
	defer os.RemoveAll(tmp)
	// A specification file names, in its first line, the package whose
	// declarations it is written against; it is compiled with that package
	// through an overlay, so nothing is written to the repository.
	overlay := map[string][]byte{}
	for _, s := range specs {
		ents, err := filepath.Glob(filepath.Join(verifDir, "spec", s, "*.go"))
		if err != nil || len(ents) == 0 {
			return nil, fmt.Errorf("no specification %s", s)
		}
		for _, e := range ents {
			b, err := os.ReadFile(e)
			if err != nil {
				return nil, err
			}
			first := strings.SplitN(string(b), "\n", 2)[0]
			rel := strings.TrimSpace(strings.TrimPrefix(first, "//overlay"))
			if !strings.HasPrefix(first, "//overlay") {
				return nil, fmt.Errorf("%s: no //overlay line", e)
			}
			overlay[filepath.Join(repoDir, rel, "zz_verif_"+s+"_"+filepath.Base(e))] = b
		}
	}
	renamed, said := restoreNames()
	try := func(back map[string][]byte) ([]*packages.Package, error) {
		ov := map[string][]byte{}
		for f, b := range overlay {
			ov[f] = b
		}
		for f, b := range back {
			ov[f] = b
		}
		cfg, err := loadConfig(tmp, ov)
		if err != nil {
			return nil, err
		}
		initial, err := packages.Load(cfg, productPkgs()...)
		if err != nil {
			return nil, err
		}
		var errs []string
		for _, ip := range initial {
			for _, e := range ip.Errors {
				errs = append(errs, e.Error())
			}
		}
		if len(errs) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
		}
		return initial, nil
	}
	initial, err := try(renamed)
	if err != nil && len(renamed) > 0 {
		if plain, perr := try(nil); perr == nil {
			initial, err, said = plain, nil, nil
		}
	}
	if err != nil {
		return nil, err
	}
	p.renamed = said
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	p.fset = prog.Fset
	p.pkgs = map[string]*ssa.Package{}
	for i, sp := range pkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		p.pkgs[initial[i].PkgPath] = sp
	}
	return p, nil
}

func loadConfig(tmp string, overlay map[string][]byte) (*packages.Config, error) {
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	m := strings.Replace(string(mod), "module "+modPath, "module spec", 1)
	m += "\nrequire " + modPath + " v0.0.0\nreplace " + modPath + " => " + repoDir + "\n"
	os.WriteFile(filepath.Join(tmp, "go.mod"), []byte(m), 0o644)
	os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644)

	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "GO111MODULE=on", "PWD="+tmp)
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir:     tmp,
		Env:     env,
		Tests:   false,
		Overlay: overlay,
	}
	// Only the repository and the specification need syntax; everything else comes from export data.
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	return cfg, nil
}

func goVersion() string {
	b, _ := exec.Command("go", "version").Output()
	return strings.TrimSpace(string(b))
}

// own: a function with a body in the repository
func (p *Program) own(f *ssa.Function) bool {
	return f != nil && f.Blocks != nil
}

func (p *Program) ownPkg(sp *ssa.Package) bool {
	return sp != nil && p.pkgs[sp.Pkg.Path()] == sp
}

func (p *Program) ownPkgs() []*ssa.Package {
	var r []*ssa.Package
	for _, sp := range p.pkgs {
		r = append(r, sp)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg.Path() < r[j].Pkg.Path() })
	return r
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method finds pkg.(*T).name or pkg.T.name
func (p *Program) method(pkg, typ, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := p.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
