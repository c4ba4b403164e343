package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mlange-42/bbn"

// World is the type-checked program under analysis.
type World struct {
	root   string
	fset   *token.FileSet
	pkgs   []*packages.Package
	prog   *ssa.Program
	spkgs  map[string]*ssa.Package
	funcs  []*ssa.Function // all repo functions with bodies (including closures, instances)
	taken  []*ssa.Function // address-taken repo functions
	named  []*types.Named  // all repo named types
	nFiles int
	infoOf map[*types.Package]*packages.Package
	inRepo map[*ssa.Function]bool
}

func loadWorld(root string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: root, Env: env}
	patterns := []string{"./..."}
	if _, err := os.Stat(filepath.Join(root, "benchmark", "go.mod")); err == nil {
		patterns = append(patterns, "./benchmark/...")
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
	}
	if ren := renamings(pkgs); len(ren) > 0 {
		// known names; if that does not compile, the names as they are
		if ov, err := overlay(pkgs, ren); err == nil && len(ov) > 0 {
			cfg2 := *cfg
			cfg2.Fset, cfg2.Overlay = nil, ov
			if p2, err := packages.Load(&cfg2, patterns...); err == nil && len(p2) == len(pkgs) {
				bad := false
				for _, p := range p2 {
					bad = bad || len(p.Errors) > 0
				}
				if !bad {
					pkgs = p2
				}
			}
		}
	}
	w := &World{root: root, pkgs: pkgs, spkgs: map[string]*ssa.Package{}, infoOf: map[*types.Package]*packages.Package{}, inRepo: map[*ssa.Function]bool{}}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.fset = prog.Fset
	for i, p := range sp {
		if p == nil {
			continue
		}
		w.spkgs[p.Pkg.Path()] = p
		w.infoOf[p.Pkg] = pkgs[i]
		w.nFiles += len(pkgs[i].Syntax)
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if fn.Blocks == nil {
			continue
		}
		if w.repoFunc(fn) {
			w.funcs = append(w.funcs, fn)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool { return w.funcs[i].String() < w.funcs[j].String() })
	taken := map[*ssa.Function]bool{}
	for _, fn := range w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == callee {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && w.repoFunc(f) {
						taken[f] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if f, ok := mc.Fn.(*ssa.Function); ok {
						taken[f] = true
					}
				}
			}
		}
	}
	for f := range taken {
		w.taken = append(w.taken, f)
	}
	sort.Slice(w.taken, func(i, j int) bool { return w.taken[i].String() < w.taken[j].String() })
	for _, p := range w.spkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					w.named = append(w.named, nt)
				}
			}
		}
	}
	sort.Slice(w.named, func(i, j int) bool { return w.named[i].String() < w.named[j].String() })
	return w, nil
}

// repoFunc reports whether fn's body belongs to the repository.
func (w *World) repoFunc(fn *ssa.Function) bool {
	if r, ok := w.inRepo[fn]; ok {
		return r
	}
	r := w.repoFunc1(fn)
	w.inRepo[fn] = r
	return r
}

func (w *World) repoFunc1(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return w.spkgs[f.Pkg.Pkg.Path()] != nil
	}
	if o := f.Origin(); o != nil && o != f {
		return w.repoFunc1(o)
	}
	if ob := f.Object(); ob != nil && ob.Pkg() != nil {
		return w.spkgs[ob.Pkg().Path()] != nil
	}
	// synthetic wrapper
	return strings.Contains(f.String(), modPath)
}

func (w *World) pkg(rel string) *ssa.Package {
	if rel == "" {
		return w.spkgs[modPath]
	}
	return w.spkgs[modPath+"/"+rel]
}

// fn finds an exported package function; recv non-empty finds a method.
func (w *World) fn(rel, recv, name string) *ssa.Function {
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	if recv == "" {
		return p.Func(name)
	}
	tn := p.Pkg.Scope().Lookup(strings.TrimPrefix(recv, "*"))
	if tn == nil {
		return nil
	}
	t := tn.Type()
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := w.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				f := w.prog.MethodValue(s)
				// prefer the declared method over a synthetic wrapper
				if d := w.prog.FuncValue(s.Obj().(*types.Func)); d != nil {
					return d
				}
				return f
			}
		}
	}
	return nil
}

func (w *World) namedType(rel, name string) *types.Named {
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	tn := p.Pkg.Scope().Lookup(name)
	if tn == nil {
		return nil
	}
	n, _ := tn.Type().(*types.Named)
	return n
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	rel, err := filepath.Rel(w.root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}
