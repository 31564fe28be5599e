package main

// Loops that never end.  While a loop is followed turn by turn, the state at the
// start of each turn is kept: what the exit tests of the loop can depend on.  When
// a turn starts under the same condition and in the same state as an earlier one,
// every later turn repeats, and the loop has no end.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

type turn struct {
	g    *Node
	phis []Value
	mem  *Mem
}

// endlessLoop is a loop found to have no end, under a condition.
type endlessLoop struct {
	g     *Node
	where string
	turns int
}

var exitPhisOf = map[*loopInfo]map[int]bool{}

// exitPhis are the header values the exit tests of the loop can depend on.  All
// that the loop stores, and all it hands to calls, counts as well, but not what is
// only appended to a list or logged.
func exitPhis(il *loopInfo) map[int]bool {
	seen := map[ssa.Value]bool{}
	var need func(v ssa.Value)
	inLoop := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && i.Block() != nil && il.blocks[i.Block()]
	}
	need = func(v ssa.Value) {
		if v == nil || seen[v] || !inLoop(v) {
			return
		}
		seen[v] = true
		for _, o := range v.(ssa.Instruction).Operands(nil) {
			if *o != nil {
				need(*o)
			}
		}
	}
	for b := range il.blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.If, *ssa.Return, *ssa.Panic, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer:
				for _, o := range ins.Operands(nil) {
					if *o != nil {
						need(*o)
					}
				}
			case *ssa.Store:
				if a := rootAlloc(x.Addr); a != nil && onlyLogged(a) {
					continue
				}
				need(x.Addr)
				need(x.Val)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() != "copy" && b.Name() != "delete" && b.Name() != "clear" {
					continue
				}
				if isLogCall(&x.Call) {
					continue
				}
				need(x)
			}
		}
	}
	out := map[int]bool{}
	i := 0
	for _, ins := range il.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out[i] = seen[p]
		i++
	}
	return out
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

func isLogCall(k *ssa.CallCommon) bool {
	f := k.StaticCallee()
	if f == nil || f.Signature.Results().Len() != 0 && !strings.HasPrefix(fnName(f), "fmt.Print") && !strings.HasPrefix(fnName(f), "fmt.Fprint") {
		return false
	}
	return strings.HasSuffix(pkgOf(f), "/logs") || pkgOf(f) == "fmt"
}

// onlyLogged is true of the arguments of a logging call.
func onlyLogged(a *ssa.Alloc) bool {
	used := false
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *x.Referrers() {
				if _, ok := q.(*ssa.Store); !ok {
					return false
				}
			}
		case *ssa.Slice:
			for _, q := range *x.Referrers() {
				k, ok := q.(*ssa.Call)
				if !ok || !isLogCall(&k.Call) {
					return false
				}
				used = true
			}
		default:
			return false
		}
	}
	return used
}

func (in *Interp) sameMem(a, b *Mem) bool {
	for k, v := range a.all() {
		w, ok := b.look(k)
		if !ok {
			return false
		}
		if v == w {
			continue
		}
		if x, ok := v.(*MapObj); ok {
			y, ok := w.(*MapObj)
			if !ok || !in.sameMap(x, y) {
				return false
			}
			continue
		}
		if x, ok := v.(*Arr); ok {
			y, ok := w.(*Arr)
			if !ok || !sameArr(x, y) {
				return false
			}
			continue
		}
		if !sameV(v, w) {
			return false
		}
	}
	return true
}

// sameArr compares arrays element by element where constant places were written.
func sameArr(x, y *Arr) bool {
	if sameV(x, y) {
		return true
	}
	at := map[*Node]bool{}
	bottom := func(a *Arr) *Arr {
		for a.k == aWrite && a.idx.leaf != nil {
			if _, ok := isConst(a.idx.leaf); !ok {
				break
			}
			at[a.idx] = true
			a = a.under
		}
		return a
	}
	if !sameV(bottom(x), bottom(y)) {
		return false
	}
	for i := range at {
		if !sameV(readArr(x, i), readArr(y, i)) {
			return false
		}
	}
	return true
}

func (in *Interp) sameMap(x, y *MapObj) bool {
	if sameV(x, y) {
		return true
	}
	xs, ok := in.mapKeys(x)
	ys, ok2 := in.mapKeys(y)
	if !ok || !ok2 || len(xs) != len(ys) {
		return false
	}
	for i := range xs {
		if xs[i] != ys[i] {
			return false
		}
		v, _ := mapGet(x, xs[i], nil)
		w, _ := mapGet(y, ys[i], nil)
		if !sameV(v, w) {
			return false
		}
	}
	return true
}

// repeats is the earlier turn that the turn equals, or -1.
func (in *Interp) repeats(il *loopInfo, turns []turn, t turn) int {
	need, ok := exitPhisOf[il]
	if !ok {
		need = exitPhis(il)
		exitPhisOf[il] = need
	}
	for i := len(turns) - 1; i >= 0; i-- {
		o := turns[i]
		same := o.g == t.g && len(o.phis) == len(t.phis)
		for k := range o.phis {
			same = same && (!need[k] || sameV(o.phis[k], t.phis[k]))
		}
		if same && in.sameMem(o.mem, t.mem) {
			return i
		}
	}
	return -1
}

// headerPos is an instruction that tells where the loop is.
func headerPos(il *loopInfo) ssa.Instruction {
	for _, ins := range il.header.Instrs {
		if _, phi := ins.(*ssa.Phi); !phi && ins.Pos().IsValid() {
			return ins
		}
	}
	for b := range il.blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.If); ok {
				return ins
			}
		}
	}
	return il.header.Instrs[0]
}
