package main

// What the program can run: functions reachable by reference from the command.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type reachInfo struct {
	funcs map[*ssa.Function]bool     // repository functions
	ext   map[*ssa.Function][]extRef // references to functions outside
	via   map[*ssa.Function]*ssa.Function
	glob  map[*ssa.Global][]extRef // references to globals outside the repository
}

type extRef struct {
	from *ssa.Function
	ins  ssa.Instruction
	call bool // the reference is a direct call
}

// reach walks references (calls, function values, closures, methods of values
// that become interfaces).  stop functions are not entered.
func (l *Loaded) reach(roots []*ssa.Function, stop map[*ssa.Function]bool) *reachInfo {
	r := &reachInfo{map[*ssa.Function]bool{}, map[*ssa.Function][]extRef{}, map[*ssa.Function]*ssa.Function{}, map[*ssa.Global][]extRef{}}
	var work []*ssa.Function
	var add func(f, from *ssa.Function, ins ssa.Instruction, call bool)
	add = func(f, from *ssa.Function, ins ssa.Instruction, call bool) {
		if stop[f] {
			return
		}
		if !l.isRepo(f) || len(f.Blocks) == 0 {
			if f.Synthetic != "" && len(f.Blocks) > 0 && !r.funcs[f] && wrapsMethod(f) {
				// bound methods and interface wrappers: look through
				r.funcs[f] = true
				r.via[f] = from
				work = append(work, f)
				return
			}
			r.ext[f] = append(r.ext[f], extRef{from, ins, call})
			return
		}
		if !r.funcs[f] {
			r.funcs[f] = true
			r.via[f] = from
			work = append(work, f)
		}
	}
	for _, f := range roots {
		add(f, nil, nil, true)
	}
	methods := func(t types.Type, from *ssa.Function, ins ssa.Instruction) {
		ms := l.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if f := l.Prog.MethodValue(ms.At(i)); f != nil && (l.isRepo(f) || f.Synthetic != "") && len(f.Blocks) > 0 {
				if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && l.SSA[n.Obj().Pkg().Path()] != nil {
					add(f, from, ins, false)
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						add(x, f, ins, x == callee)
					case *ssa.Global:
						if x.Pkg != nil && l.SSA[x.Pkg.Pkg.Path()] == nil {
							r.glob[x] = append(r.glob[x], extRef{f, ins, false})
						}
					}
				}
				if mi, ok := ins.(*ssa.MakeInterface); ok {
					methods(mi.X.Type(), f, ins)
				}
			}
		}
	}
	return r
}

func wrapsMethod(f *ssa.Function) bool {
	return strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "instance")
}

// program roots: main and every package initialiser of the command's imports.
func (c *Check) roots() []*ssa.Function {
	p := c.mustPkg(pMain)
	m := p.Func("main")
	if m == nil {
		c.fail("anchor", pMain+".main", pMain, "function not found")
		panic(abort{})
	}
	out := []*ssa.Function{m}
	seen := map[*types.Package]bool{}
	var walk func(q *types.Package)
	walk = func(q *types.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		if sp := c.L.SSA[q.Path()]; sp != nil {
			if f := sp.Func("init"); f != nil {
				out = append(out, f)
			}
			for _, i := range q.Imports() {
				walk(i)
			}
		}
	}
	walk(p.Pkg)
	return out
}

func (r *reachInfo) path(f *ssa.Function) string {
	var s []string
	for i := 0; f != nil && i < 20; i++ {
		s = append([]string{f.RelString(nil)}, s...)
		f = r.via[f]
	}
	return strings.Join(s, " -> ")
}

func (r *reachInfo) sorted() []*ssa.Function {
	var out []*ssa.Function
	for f := range r.funcs {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	return out
}

func sortedFns(m map[*ssa.Function][]extRef) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	return out
}

func (c *Check) refWhere(e extRef) string {
	if e.ins == nil {
		return ""
	}
	p := e.ins.Pos()
	if !p.IsValid() {
		p = e.from.Pos()
	}
	if p == token.NoPos {
		return e.from.RelString(nil)
	}
	return c.posOf(p) + " (" + e.from.RelString(nil) + ")"
}
