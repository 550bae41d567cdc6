package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dappnode/mev-sp-oracle"

// Prog is the resolved program: every package of the module, type-checked from
// /repo's working tree with the real build's toolchain and flags, and its SSA.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	ByPth map[string]*ssa.Package
	Types map[string]*types.Package // every package, dependencies included
	Funcs []*ssa.Function           // all functions of the module with a body (closures included)
	byNam map[string]*ssa.Function
	mutG  map[*ssa.Global]bool
}

func loadEnv() []string {
	drop := map[string]bool{"GOROOT": true, "GOWORK": true, "GOFLAGS": true, "GOTOOLCHAIN": true, "GOPROXY": true, "CGO_ENABLED": true, "PATH": true, "GOPATH": true, "GOMODCACHE": true, "GOCACHE": true, "HOME": true}
	var env []string
	for _, kv := range os.Environ() {
		if i := strings.IndexByte(kv, '='); i > 0 && !drop[kv[:i]] {
			env = append(env, kv)
		}
	}
	return append(env,
		"PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"HOME=/root", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=1")
}

func Load(dir string) (*Prog, error) {
	fset := token.NewFileSet()
	env := loadEnv()
	// go/packages finds the go command on the process's PATH
	os.Setenv("PATH", "/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir: dir, Fset: fset, Env: env, Tests: false,
	}
	// NeedDeps with NeedSyntax would parse every dependency: ask for the deps' types from export data only.
	cfg.Mode &^= packages.NeedDeps
	all, err := packages.Load(cfg, append([]string{"./..."}, stdSyntax...)...)
	if err != nil {
		return nil, fmt.Errorf("loading %s: %w", dir, err)
	}
	var pkgs []*packages.Package
	for _, p := range all {
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			pkgs = append(pkgs, p)
		}
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-checking %s failed: %s", dir, strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, ssapkgs := ssautil.Packages(all, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Dir: dir, Fset: fset, Pkgs: pkgs, SSA: prog, ByPth: map[string]*ssa.Package{}, Types: map[string]*types.Package{}, byNam: map[string]*ssa.Function{}}
	for i, sp := range ssapkgs {
		if p := all[i].PkgPath; p == modPath || strings.HasPrefix(p, modPath+"/") {
			if sp == nil {
				return nil, fmt.Errorf("no SSA for %s", p)
			}
			P.ByPth[p] = sp
		}
	}
	var walk func(tp *types.Package)
	walk = func(tp *types.Package) {
		if P.Types[tp.Path()] != nil {
			return
		}
		P.Types[tp.Path()] = tp
		for _, i := range tp.Imports() {
			walk(i)
		}
	}
	for _, p := range pkgs {
		walk(p.Types)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		if !inModule(fn) {
			continue
		}
		P.Funcs = append(P.Funcs, fn)
		if fn.Synthetic == "" || strings.HasPrefix(fn.Synthetic, "package init") {
			P.byNam[fn.String()] = fn
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return P, nil
}

// stdSyntax are the generic helpers of the standard library whose bodies are
// interpreted like the module's own (their sorting functions are modelled).
var stdSyntax = []string{"slices", "maps", "cmp"}

func inStdSyntax(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p == "slices" || p == "maps" || p == "cmp"
}

func inModule(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// fnPkg gives the package path a function belongs to (closures: their parent's).
func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// short names: "oracle.(*Oracle).isSubscribed", "utils.Equals", "main.mainLoop"
func shortName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "main.")
	return s
}

// Fn resolves an anchor. pkg is the path below the module ("" for main).
func (p *Prog) Fn(pkg, recv, name string) *ssa.Function {
	path := modPath
	if pkg != "" && pkg != "main" {
		path = modPath + "/" + pkg
	}
	var key string
	if recv == "" {
		key = path + "." + name
	} else if strings.HasPrefix(recv, "*") {
		key = "(*" + path + "." + recv[1:] + ")." + name
	} else {
		key = "(" + path + "." + recv + ")." + name
	}
	return p.byNam[key]
}

func (p *Prog) Named(pkgPath, name string) *types.Named {
	tp := p.Types[pkgPath]
	if tp == nil {
		tp = p.Types[modPath+"/"+pkgPath]
	}
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// posOf gives the best source position of an instruction.
func (p *Prog) posOf(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	// fall back to a neighbour in the block, then the function
	for _, j := range i.Block().Instrs {
		if j.Pos().IsValid() {
			return p.pos(j.Pos())
		}
	}
	return p.pos(i.Parent().Pos())
}
