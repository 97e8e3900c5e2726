package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loader struct {
	mu        sync.Mutex
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	order     []*ssa.Package // dependency order
	sizes     types.Sizes
	stepLimit int64
	methMu    sync.Mutex
	methC     map[string]*ssa.Function
}

const goavPath = "github.com/moggle-mog/goav"

// packages whose bodies may be executed
var encPkgs = map[string]bool{}

// packages whose initialisers are run
var initPkgs = map[string]bool{}

func init() {
	for _, p := range []string{"errors", "io", "bytes", "bufio", "strings", "strconv", "unicode", "unicode/utf8", "encoding/binary", "math", "math/bits", "sort", "slices", "maps", "cmp", "iter", "container/list", "io/ioutil", "encoding/hex", "container/ring"} {
		encPkgs[p] = true
		initPkgs[p] = true
	}
	for _, p := range []string{"fmt", "time", "internal/stringslite", "internal/bytealg", "internal/byteorder", "internal/itoa", "internal/strconv", "internal/utf8", "internal/unsafeheader", "internal/math", "internal/byteorder", "sync", "internal/bisect", "internal/godebug", "internal/saferio", "net/textproto"} {
		encPkgs[p] = true
	}
	initPkgs["internal/strconv"] = true
	initPkgs["time"] = true
}

func (L *Loader) allowed(path string) bool {
	return encPkgs[path] || strings.HasPrefix(path, goavPath) || strings.HasPrefix(path, "verif/harness")
}
func (L *Loader) inits(path string) bool {
	return initPkgs[path] || strings.HasPrefix(path, goavPath) || strings.HasPrefix(path, "verif/harness")
}

func Load(dir string, modfile string, patterns []string) (*Loader, error) {
	flags := []string{"-mod=mod"}
	if modfile != "" {
		flags = append(flags, "-modfile="+modfile)
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		BuildFlags: flags,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(msgs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	L := &Loader{prog: prog, pkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64"), stepLimit: 20_000_000, methC: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		L.pkgs[p.Pkg.Path()] = p
	}
	// dependency order
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		im := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(im, func(i, j int) bool { return im[i].Path() < im[j].Path() })
		for _, q := range im {
			visit(q)
		}
		if sp := prog.Package(p); sp != nil {
			L.order = append(L.order, sp)
		}
	}
	var ps []*ssa.Package
	for _, p := range L.pkgs {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, p := range ps {
		visit(p.Pkg)
	}
	return L, nil
}

func (L *Loader) fn(pkg, name string) *ssa.Function {
	p := L.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"no function " + pkg + "." + name})
	}
	return f
}

func (L *Loader) typ(pkg, name string) types.Type {
	p := L.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	return p.Type(name).Type()
}

// method finds an exported method by name, or nil.
func (L *Loader) method(t types.Type, name string) *ssa.Function {
	if t == reflTypeMarker {
		return nil
	}
	L.mu.Lock()
	defer L.mu.Unlock()
	sel := L.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return L.prog.MethodValue(sel)
}

// runInit executes the initialisers of the encoded packages.
func (e *Eng) runInit() {
	e.initing = true
	e.bodies = map[*ssa.Function]*cfn{}
	e.onceDone = map[*Value]bool{}
	for _, p := range e.L.order {
		if !e.L.inits(p.Pkg.Path()) {
			continue
		}
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		// the guard variable and calls to imported inits: imported inits are run by our own order
		for _, b := range f.Blocks {
			_ = b
		}
		e.runInitFn(p, f)
	}
	e.initing = false
}

func (e *Eng) runInitFn(p *ssa.Package, f *ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			switch t := r.(type) {
			case unsupported:
				panic(fmt.Sprintf("init of %s: unsupported: %s", p.Pkg.Path(), t.msg))
			case *targetPanic:
				panic(fmt.Sprintf("init of %s panics: %s at %s", p.Pkg.Path(), t.msg, t.at))
			}
			panic(r)
		}
	}()
	cf := e.compiled(f)
	e.callFn(nil, cf, nil, nil, nil)
}
