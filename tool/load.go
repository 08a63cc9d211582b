package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/continusec/verifiabledatastructures"

// World is the resolved program: every package of the repository, type-checked
// from the current source, in SSA form.
type World struct {
	Repo   string
	Prog   *ssa.Program
	Pkgs   []*packages.Package // repository packages
	SSA    map[string]*ssa.Package
	Funcs  []*ssa.Function // all source functions of the repository, incl. anonymous
	FuncOf map[string]*ssa.Function

	seq       int
	eff       *effectsOf
	shapes    map[*ssa.BasicBlock]*loopShape
	shapeFn   map[*ssa.Function]bool
	rec       map[*ssa.Function]int
	callers   map[*ssa.Function][]*ssa.Function
	initSeq   int
	roles     map[*ssa.Function]string
	initHeap  *Heap
	inInit    bool
	initUndec []string
	mutG      map[*ssa.Global]bool
	pureSums  map[*ssa.Function]*pureSum
	constTab  map[*ssa.Function]bool
}

// LoadError is a failure to obtain the resolved program.
type LoadError struct{ Msgs []string }

func (e *LoadError) Error() string { return strings.Join(e.Msgs, "\n") }

func load(repo, stub string, extraEnv []string) (*World, error) {
	tmp, err := os.MkdirTemp("", "vdsstatic")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	mod = append(mod, []byte("\nreplace github.com/continusec/objecthash => "+stub+"\n")...)
	if err := os.WriteFile(filepath.Join(tmp, "go.mod"), mod, 0o644); err != nil {
		return nil, err
	}
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	env := os.Environ()
	path := os.Getenv("PATH")
	if st, err := os.Stat("/opt/veriftools/go1.24.13/bin/go"); err == nil && !st.IsDir() {
		path = "/opt/veriftools/go1.24.13/bin:" + path
	}
	env = append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOSUMDB=off", "CGO_ENABLED=0", "GO111MODULE=on")
	env = append(env, extraEnv...)
	os.Setenv("PATH", path)
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Tests:      false,
	}
	roots, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(roots, nil, func(p *packages.Package) {
		inRepo := strings.HasPrefix(p.PkgPath, modPath)
		for _, e := range p.Errors {
			if inRepo {
				msgs = append(msgs, e.Error())
			}
		}
	})
	w := &World{Repo: repo, SSA: map[string]*ssa.Package{}, FuncOf: map[string]*ssa.Function{}}
	for _, p := range roots {
		if strings.HasPrefix(p.PkgPath, modPath) && len(p.GoFiles) > 0 {
			w.Pkgs = append(w.Pkgs, p)
		}
	}
	if len(msgs) > 0 {
		return nil, &LoadError{msgs}
	}
	if len(w.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", repo)
	}
	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics)
	w.Prog = prog
	for _, p := range w.Pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		sp.Build()
		w.SSA[p.PkgPath] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if w.InRepo(fn) && fn.Blocks != nil {
			w.Funcs = append(w.Funcs, fn)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].String() < w.Funcs[j].String() })
	for _, f := range w.Funcs {
		w.FuncOf[f.String()] = f
	}
	return w, nil
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg
		}
		if fn.Parent() != nil {
			fn = fn.Parent()
			continue
		}
		if o := fn.Origin(); o != nil && o != fn {
			fn = o
			continue
		}
		if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
			return fn.Prog.Package(obj.Pkg())
		}
		return nil
	}
	return nil
}

// InRepo reports whether fn is defined in the analysed repository.
func (w *World) InRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}
