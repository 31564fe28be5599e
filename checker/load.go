package main

// Loading: the repository is type-checked and lowered to SSA from its current
// source on every run, together with the reference semantics in spec/ which are
// added as an overlay package (nothing is written to the repository).

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loaded struct {
	Prog   *ssa.Program
	Pkgs   []*packages.Package // packages of the repository, without the overlay
	SSA    map[string]*ssa.Package
	Mod    string
	Spec   *ssa.Package
	gmem   *Mem
	gbusy  bool
	muts   map[*ssa.Global]bool
	start  map[*Term]Value // initial values of the variables that change
	nFuncs int
	nInstr int
	Dir    string
	all    map[*ssa.Function]bool
}

const specDir = "zz_verif_spec"

func load(dir, specSrc string) (*Loaded, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env}
	pats := []string{"./..."}
	if specSrc != "" {
		files, err := filepath.Glob(filepath.Join(specSrc, "*.go"))
		if err != nil || len(files) == 0 {
			return nil, fmt.Errorf("no reference semantics in %s", specSrc)
		}
		cfg.Overlay = map[string][]byte{}
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			cfg.Overlay[filepath.Join(dir, specDir, filepath.Base(f))] = b
		}
		pats = append(pats, "./"+specDir)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	l := &Loaded{SSA: map[string]*ssa.Package{}, Dir: dir}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	l.Prog = prog
	seen := map[string]bool{}
	for _, p := range pkgs {
		if seen[p.PkgPath] {
			continue
		}
		seen[p.PkgPath] = true
		sp := prog.Package(p.Types)
		if strings.HasSuffix(p.PkgPath, "/"+specDir) {
			l.Spec = sp
			continue
		}
		if p.Module != nil {
			l.Mod = p.Module.Path
		}
		l.Pkgs = append(l.Pkgs, p)
		l.SSA[p.PkgPath] = sp
	}
	if len(l.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	sort.Slice(l.Pkgs, func(i, j int) bool { return l.Pkgs[i].PkgPath < l.Pkgs[j].PkgPath })
	for f := range l.repoFuncs() {
		l.nFuncs++
		for _, b := range f.Blocks {
			l.nInstr += len(b.Instrs)
		}
	}
	return l, nil
}

// repoFuncs is every function with a body in the repository, literals included.
func (l *Loaded) repoFuncs() map[*ssa.Function]bool {
	if l.all != nil {
		return l.all
	}
	l.all = map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(l.Prog) {
		if l.isRepo(f) && len(f.Blocks) > 0 {
			l.all[f] = true
		}
	}
	return l.all
}

func pkgOf(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if o := g.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func (l *Loaded) isRepo(f *ssa.Function) bool {
	p := pkgOf(f)
	return l.SSA[p] != nil
}

var inlineStd = map[string]bool{"encoding/binary": true}

func (l *Loaded) inlinable(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	p := pkgOf(f)
	if l.SSA[p] != nil || l.Spec != nil && p == l.Spec.Pkg.Path() {
		return true
	}
	if p == "encoding/binary" {
		// the fixed-order accessors only
		r := f.Signature.Recv()
		return r != nil && strings.HasSuffix(typeStr(r.Type()), "Endian")
	}
	return false
}

// pkg returns the repository package with the given path below the module.
func (l *Loaded) pkg(rel string) *ssa.Package {
	if p := l.SSA[l.Mod+"/"+rel]; p != nil {
		return p
	}
	return nil
}

// mutable reports whether a package variable is assigned outside initialisers.
func (l *Loaded) mutable(g *ssa.Global) bool {
	if l.muts == nil {
		l.muts = map[*ssa.Global]bool{}
		for f := range l.repoFuncs() {
			if f.Synthetic != "" && f.Name() == "init" {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if u, ok := ins.(*ssa.UnOp); ok {
						if _, ok := u.X.(*ssa.Global); ok {
							for _, r := range *u.Referrers() {
								if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == u {
									l.muts[u.X.(*ssa.Global)] = true
								}
							}
							continue
						}
					}
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							l.muts[g] = true
						}
					}
				}
			}
		}
	}
	return l.muts[g]
}

// globalMem evaluates the package initialisers of the repository.
func (l *Loaded) globalMem(in *Interp) *Mem {
	if l.gmem != nil {
		return l.gmem
	}
	if l.gbusy {
		return newMem()
	}
	l.gbusy = true
	sub := newInterp(l)
	sub.inInit = true
	failed := map[*ssa.Package]bool{}
	st := &State{g: nTrue, mem: newMem()}
	var ps []string
	for p := range l.SSA {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		init := l.SSA[p].Func("init")
		if init == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(budgetExceeded); ok {
						panic(r)
					}
					failed[l.SSA[p]] = true
				}
			}()
			s := &State{g: nTrue, mem: &Mem{m: st.mem.own().m}}
			if g := l.SSA[p].Var("init$guard"); g != nil {
				s.mem.set(globT(g), nFalse)
			}
			sub.Call(init, nil, nil, s, "init:"+p, nil)
			st.mem = s.mem
		}()
	}
	out := newMem()
	l.start = map[*Term]Value{}
	for k, v := range st.mem.all() {
		if g, ok := k.aux.(*ssa.Global); ok && k.k == KGlob {
			if l.mutable(g) {
				if l.stateful(g) && !failed[g.Pkg] {
					l.start[k] = v
				}
				continue
			}
		}
		out.set(k, v)
	}
	for _, p := range ps {
		if failed[l.SSA[p]] {
			continue
		}
		for _, m := range l.SSA[p].Members {
			g, ok := m.(*ssa.Global)
			if !ok || !l.mutable(g) || !l.stateful(g) {
				continue
			}
			if _, ok := l.start[globT(g)]; !ok {
				l.start[globT(g)] = zeroVal(deref(g.Type()))
			}
		}
	}
	if len(l.start) > 0 {
		for k, v := range st.mem.all() {
			if k.k == KAlloc {
				l.start[k] = v
			}
		}
	}
	l.gmem = out
	return out
}

// stateful reports whether a package variable holds state of the program, and
// not an option of the command line.
func (l *Loaded) stateful(g *ssa.Global) bool {
	return g.Pkg != nil && g.Pkg.Pkg.Name() != "main" && !strings.HasPrefix(g.Name(), "init$")
}

// startMem puts the initial values of variables that change into memory.
func (l *Loaded) startMem(m *Mem) {
	if l.gmem == nil {
		l.globalMem(nil)
	}
	for k, v := range l.start {
		if _, ok := m.look(k); !ok {
			m.set(k, v)
		}
	}
}

// declOf finds the syntax of a function.
func declOf(f *ssa.Function) ast.Node { return f.Syntax() }

func (l *Loaded) pos(p interface{ Pos() (x int) }) string { return "" }

func (l *Loaded) where(f *ssa.Function, ins ssa.Instruction) string {
	if ins != nil && ins.Pos().IsValid() {
		q := l.Prog.Fset.Position(ins.Pos())
		return fmt.Sprintf("%s:%d (%s)", relPath(l.Dir, q.Filename), q.Line, f.RelString(nil))
	}
	q := l.Prog.Fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d (%s)", relPath(l.Dir, q.Filename), q.Line, f.RelString(nil))
}

func relPath(dir, f string) string {
	if r, err := filepath.Rel(dir, f); err == nil {
		return r
	}
	return f
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}
