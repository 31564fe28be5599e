package main

// Panics.  With Interp.panics set, an operation that the Go run-time would answer
// with a panic ends the path under the condition of the panic; the path goes on
// with the deferred calls of the functions it leaves, up to one that recovers.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func ultU(a, b *Node) *Node {
	return cmpN(func(x, y *Term) *Node { return ltInt(asInt(x), asInt(y), false) }, a, b)
}

func nilPtr(n *Node) *Node {
	return apply1(n, func(t *Term) *Node {
		for t.k == KFld || t.k == KElem {
			if len(t.args) == 0 {
				break
			}
			t = t.args[0]
		}
		return boolN(t.k == KNil)
	})
}

// panicIf splits off the paths on which pg holds.
func (fr *Frame) panicIf(st *State, pg *Node, why string, ins ssa.Instruction) {
	pg = restrictN(pg, st.g)
	if pg == nFalse || st.g == nFalse {
		return
	}
	full := pruneG(andN(st.g, pg))
	if full == nFalse {
		return
	}
	if fr.in.onBranch != nil && pg.leaf == nil {
		fr.in.onBranch(pg)
	}
	if len(fr.in.loopStk) > 0 {
		panic(undecided("a panic is possible in a loop that is not followed turn by turn: " + why))
	}
	e := edge{g: full, mem: st.mem.snapshot(), nd: len(fr.defers), why: why}
	if ins != nil {
		e.why += " at " + fr.in.L.where(fr.fn, ins)
	}
	fr.panics = append(fr.panics, e)
	st.g = pruneG(andN(st.g, notN(pg)))
}

// unwind runs the deferred calls of the panics of a frame; a recovered panic
// becomes a return, the others are handed to the caller.
func (fr *Frame) unwind() {
	in := fr.in
	ps := fr.panics
	fr.panics = nil
	for _, e := range ps {
		st := &State{g: e.g, mem: &Mem{m: e.mem.own().m}}
		v := leafN(intern(&Term{k: KIface, s: "runtime.Error", args: []*Term{mkStr(e.why)}, aux: types.Type(types.Typ[types.String])}))
		rec0, v0, defers0 := in.recovered, in.recoverV, fr.defers
		fr.panicking = true
		done := nFalse // the panic is over
		for i := e.nd - 1; i >= 0 && st.g != nFalse; i-- {
			d := fr.defers[i]
			if restrictN(d.g, st.g) == nFalse {
				continue
			}
			if restrictN(d.g, st.g) != nTrue {
				panic(undecided("a deferred call that is registered on some paths only"))
			}
			in.recovered, in.recoverV = nFalse, v
			if done != nFalse {
				in.recoverV = nNil
			}
			fr.callWith(d.call, d.in, st, d.args, d.fnV)
			if r := restrictN(in.recovered, st.g); r == nTrue {
				done = nTrue
			} else if r != nFalse {
				panic(undecided("recover is called on some paths only"))
			}
		}
		fr.panicking = false
		in.recovered, in.recoverV, fr.defers = rec0, v0, defers0
		if len(fr.panics) > 0 {
			panic(undecided("a deferred call panics"))
		}
		if st.g == nFalse {
			continue
		}
		if done == nTrue {
			if fr.fn.Recover == nil {
				var rs []Value
				for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
					rs = append(rs, zeroVal(fr.fn.Signature.Results().At(i).Type()))
				}
				st.mem.shared = true
				fr.rets = append(fr.rets, edge{g: st.g, mem: st.mem, rets: rs})
			} else {
				fr.block(fr.fn.Recover, st, nil)
			}
			continue
		}
		e.g, e.mem = st.g, st.mem
		if fr.parent != nil {
			e.nd = len(fr.parent.defers)
			if len(in.loopStk) > 0 {
				panic(undecided("a panic is possible in a loop that is not followed turn by turn: " + e.why))
			}
			fr.parent.panics = append(fr.parent.panics, e)
		} else {
			in.escaped = append(in.escaped, e)
		}
	}
}
