package main

// Building inputs of known shape and unknown content.

import (
	"fmt"
	"go/constant"
	"go/types"
)

// typ is a named type of a repository package.
func (c *Check) typ(rel, name string) types.Type {
	o := c.mustPkg(rel).Pkg.Scope().Lookup(name)
	if o == nil {
		panic(undecided("no type " + name))
	}
	return o.Type()
}

// con is a named integer constant of a repository package, or a default.
func (c *Check) con(rel, name string, def uint64) uint64 {
	if o, ok := c.mustPkg(rel).Pkg.Scope().Lookup(name).(*types.Const); ok {
		if v, ok := constant.Uint64Val(constant.ToInt(o.Val())); ok {
			return v
		}
	}
	return def
}

// obj is a structure value with the named fields set.
func obj(t types.Type, fields map[string]Value) *Agg {
	a := zeroVal(t).(*Agg)
	s := t.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if v, ok := fields[s.Field(i).Name()]; ok {
			a.F[i] = v
			n++
		}
	}
	if n != len(fields) {
		panic(undecided(fmt.Sprintf("%s has other fields than expected", t)))
	}
	return a
}

// ifaceOf wraps a value in an interface of the given dynamic type.
func ifaceOf(t types.Type, n *Node) *Node {
	return apply1(n, func(x *Term) *Node {
		return leafN(intern(&Term{k: KIface, s: typeStr(t), args: []*Term{x}, aux: t}))
	})
}

// heap stores a value in a fresh cell and returns its address.
func heap(m *Mem, name string, t types.Type, v Value) *Node {
	cell := newAlloc(name)
	noteCell(cell, t)
	storeAddr(m, cell, v)
	return leafN(cell)
}

type entry struct {
	key *Node
	val Value
}

// mkMap builds a map of known entries.
func mkMap(m *Mem, name string, t types.Type, es ...entry) *Node {
	mt := t.Underlying().(*types.Map)
	o := &MapObj{k: mEmpty, typ: mt}
	for _, e := range es {
		o = &MapObj{k: mPut, typ: mt, under: o, key: e.key, val: e.val}
	}
	cell := newAlloc(name)
	m.set(cell, o)
	return leafN(cell)
}

// setField stores into a field of the object at addr.
func setField(m *Mem, addr *Node, t types.Type, field string, v Value) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			storeAddr(m, fldAddr(addr.leaf, i, field), v)
			return
		}
	}
	panic(undecided("no field " + field))
}

func fieldType(t types.Type, field string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	panic(undecided("no field " + field))
}

// elems are the elements of a slice value of known length.
func elems(m *Mem, v Value, elem types.Type) []Value {
	n := asNode(v)
	if n.leaf == nil {
		panic(undecided("a list depends on the input in an unexpected way"))
	}
	k, ok := isConst(lenT(m, n.leaf))
	if !ok {
		panic(undecided("the length of a list is not constant"))
	}
	if k == 0 {
		return nil
	}
	a := arrOf(m, n.leaf.args[0], elem)
	var out []Value
	for i := uint64(0); i < k; i++ {
		out = append(out, readArr(a, leafN(addT(n.leaf.args[1], mkConst(i)))))
	}
	return out
}

// output is the text written to standard output, in order.
func (r *run) output() *Node {
	out := strN("")
	for _, e := range r.in.events {
		if e.Name == "write" && e.G != nFalse {
			panic(undecided("text is written to a place that is not known"))
		}
		if e.Name != "stdout" || e.G == nFalse {
			continue
		}
		if len(e.Loops) > 0 {
			panic(undecided("output in a loop that is not followed turn by turn"))
		}
		t := asNode(e.Args[0])
		if e.G != nTrue {
			t = iteN(e.G, t, strN(""))
		}
		out = catN(out, t)
	}
	return out
}

// put16 and friends write big-endian constants into a device.
func (x *device) put(m *Mem, at, width int, v uint64) {
	a := arrOf(m, x.base, byteT)
	for i := 0; i < width; i++ {
		a = &Arr{k: aWrite, elem: byteT, under: a, idx: constN(uint64(at + i)), val: constN(v >> (8 * uint(width-1-i)) & 0xff)}
	}
	m.set(x.base, a)
}

// putN writes an unknown field.
func (x *device) putN(m *Mem, at int, vs ...*Node) {
	a := arrOf(m, x.base, byteT)
	for i, v := range vs {
		a = &Arr{k: aWrite, elem: byteT, under: a, idx: constN(uint64(at + i)), val: v}
	}
	m.set(x.base, a)
}
