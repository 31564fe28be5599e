package main

// Abstract memory: a map from root address terms to structured contents.
// Arrays and maps are persistent chains of writes over an initial content, so a
// read resolves statically when the indices can be compared and otherwise stays
// a decision on the index equality.

import (
	"fmt"
	"go/types"
	"iter"
	"strings"
)

type Value interface{}

type Agg struct {
	F []Value
	T types.Type
}

type arrKind uint8

const (
	aBase arrKind = iota // unknown initial content at address src
	aZero
	aWrite
	aSeg
	aShift
	aMerge
	aVec // known elements in front of under
)

type Arr struct {
	k     arrKind
	elem  types.Type
	src   *Term
	under *Arr
	idx   *Node // write index, segment start, or shift
	n     *Node // segment length
	val   Value
	seg   *Arr
	off   *Node // offset into seg
	g     *Node
	other *Arr
	vec   []Value
}

type mapKind uint8

const (
	mBase mapKind = iota
	mEmpty
	mPut
	mDel
	mMerge
)

type MapObj struct {
	k     mapKind
	typ   types.Type // *types.Map, or nil for sync.Map
	src   *Term
	under *MapObj
	key   *Node
	val   Value
	g     *Node
	other *MapObj
}

type Mem struct {
	m      *trie
	shared bool
}

func newMem() *Mem { return &Mem{} }

// get is the content of a root, nil when there is none.
func (m *Mem) get(k *Term) Value {
	v, _ := m.look(k)
	return v
}

// look is the content of a root, and whether there is one.
func (m *Mem) look(k *Term) (Value, bool) { return m.m.look(k) }

// set replaces the content of a root.
func (m *Mem) set(k *Term, v Value) { m.m = m.m.set(k, v, trieTop) }

// all are the roots and their contents, in the order in which the roots came up.
func (m *Mem) all() iter.Seq2[*Term, Value] {
	return func(yield func(*Term, Value) bool) { m.m.walk(yield) }
}

func (m *Mem) snapshot() *Mem { m.shared = true; return m }
func (m *Mem) own() *Mem {
	if !m.shared {
		return m
	}
	return &Mem{m: m.m}
}

// ---- values --------------------------------------------------------------------

func typeWidth(t types.Type) (w int, signed, isInt bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func namedPath(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func isBuffer(t types.Type) bool {
	p := namedPath(t)
	return p == "bytes.Buffer" || p == "strings.Builder" || p == "bufio.Writer"
}
func isSyncMap(t types.Type) bool { return namedPath(t) == "sync.Map" }

// atomVal makes the value of type t denoted by the atom a.
func atomVal(a *Term, t types.Type) Value {
	if isBuffer(t) {
		return leafN(a)
	}
	if isSyncMap(t) {
		return &MapObj{k: mBase, src: a}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := typeWidth(t); ok {
			if signed && w < 64 {
				return leafN(intOf(mkOp("sx", 64, a)))
			}
			if atomWidth(a) != w {
				b := *a
				b.w = uint8(w)
				a = intern(&b)
			}
			return leafN(intOf(a))
		}
		if u.Info()&types.IsBoolean != 0 {
			return atomN(a)
		}
		return leafN(a)
	case *types.Struct:
		ag := &Agg{T: t}
		for i := 0; i < u.NumFields(); i++ {
			ag.F = append(ag.F, atomVal(mkOp(fmt.Sprintf("field:%d:%s", i, u.Field(i).Name()), 0, a), u.Field(i).Type()))
		}
		return ag
	case *types.Slice:
		return leafN(mkSlice(a, mkConst(0), lenAtom(a), nil))
	case *types.Array:
		return &Arr{k: aBase, elem: u.Elem(), src: a}
	case *types.Tuple:
		ag := &Agg{T: t}
		for i := 0; i < u.Len(); i++ {
			ag.F = append(ag.F, atomVal(mkOp(fmt.Sprintf("res:%d", i), 0, a), u.At(i).Type()))
		}
		return ag
	}
	return leafN(a)
}

func lenAtom(a *Term) *Term { return intOf(mkOp("len", 48, a)) }

// loadVal is the initial content of the address addr.
func loadVal(addr *Term, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isBuffer(t) {
			return leafN(intern(&Term{k: KLoad, args: []*Term{addr}}))
		}
		if isSyncMap(t) {
			return &MapObj{k: mBase, src: addr}
		}
		ag := &Agg{T: t}
		for i := 0; i < u.NumFields(); i++ {
			ag.F = append(ag.F, loadVal(fldAddr(addr, i, u.Field(i).Name()), u.Field(i).Type()))
		}
		return ag
	case *types.Array:
		return &Arr{k: aBase, elem: u.Elem(), src: addr}
	}
	w, signed, ok := typeWidth(t)
	if ok && signed && w < 64 {
		w = 0
	}
	return atomVal(intern(&Term{k: KLoad, args: []*Term{addr}, w: uint8(w)}), t)
}

func fldAddr(a *Term, i int, name string) *Term {
	return intern(&Term{k: KFld, u: uint64(i), s: name, args: []*Term{a}})
}
func elemAddr(a, idx *Term) *Term {
	return intern(&Term{k: KElem, args: []*Term{a, idx}})
}

func mkSlice(base, off, ln, caplow *Term) *Term {
	args := []*Term{base, off, ln}
	if caplow != nil && caplow != ln {
		args = append(args, caplow)
	}
	return intern(&Term{k: KSlice, args: args})
}

func sliceCap(t *Term) *Term {
	if len(t.args) == 4 {
		return t.args[3]
	}
	return t.args[2]
}

func zeroVal(t types.Type) Value {
	if isBuffer(t) {
		return strN("")
	}
	if isSyncMap(t) {
		return &MapObj{k: mEmpty}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := typeWidth(t); ok {
			return constN(0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return nFalse
		case u.Info()&types.IsString != 0:
			return strN("")
		case u.Info()&types.IsFloat != 0:
			return leafN(mkFlt("0"))
		}
		return nNil
	case *types.Struct:
		ag := &Agg{T: t}
		for i := 0; i < u.NumFields(); i++ {
			ag.F = append(ag.F, zeroVal(u.Field(i).Type()))
		}
		return ag
	case *types.Array:
		return &Arr{k: aZero, elem: u.Elem()}
	case *types.Tuple:
		ag := &Agg{T: t}
		for i := 0; i < u.Len(); i++ {
			ag.F = append(ag.F, zeroVal(u.At(i).Type()))
		}
		return ag
	}
	return nNil
}

// mergeV is the value "if g then a else b".
func mergeV(g *Node, a, b Value) Value {
	if a == b || g == nTrue {
		return a
	}
	if g == nFalse {
		return b
	}
	switch x := a.(type) {
	case *Node:
		if y, ok := b.(*Node); ok {
			return iteN(g, x, y)
		}
	case *Agg:
		if y, ok := b.(*Agg); ok && len(y.F) == len(x.F) {
			n := &Agg{T: x.T, F: make([]Value, len(x.F))}
			same := true
			for i := range x.F {
				n.F[i] = mergeV(g, x.F[i], y.F[i])
				same = same && n.F[i] == x.F[i]
			}
			if same {
				return x
			}
			return n
		}
	case *Arr:
		if y, ok := b.(*Arr); ok {
			return &Arr{k: aMerge, elem: x.elem, g: g, under: x, other: y}
		}
	case *MapObj:
		if y, ok := b.(*MapObj); ok {
			return &MapObj{k: mMerge, typ: x.typ, g: g, under: x, other: y}
		}
	case nil:
		return b
	}
	if b == nil {
		return a
	}
	panic(fmt.Sprintf("mergeV: %T / %T", a, b))
}

func restrictV(v Value, g *Node) Value {
	switch x := v.(type) {
	case *Node:
		return restrictN(x, g)
	case *Agg:
		n := &Agg{T: x.T, F: make([]Value, len(x.F))}
		same := true
		for i := range x.F {
			n.F[i] = restrictV(x.F[i], g)
			same = same && n.F[i] == x.F[i]
		}
		if same {
			return x
		}
		return n
	}
	return v
}

// eqV: equality of values as a condition (pointer-level for composite content).
func sameV(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameV(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || x.k != y.k {
			return false
		}
		switch x.k {
		case aBase:
			return x.src == y.src
		case aZero:
			return true
		case aWrite:
			return x.idx == y.idx && sameV(x.val, y.val) && sameV(x.under, y.under)
		case aSeg:
			return x.idx == y.idx && x.n == y.n && x.off == y.off && sameV(x.seg, y.seg) && sameV(x.under, y.under)
		case aShift:
			return x.idx == y.idx && sameV(x.under, y.under)
		case aMerge:
			return x.g == y.g && sameV(x.under, y.under) && sameV(x.other, y.other)
		case aVec:
			if len(x.vec) != len(y.vec) || !sameV(x.under, y.under) {
				return false
			}
			for i := range x.vec {
				if !sameV(x.vec[i], y.vec[i]) {
					return false
				}
			}
			return true
		}
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || x.k != y.k {
			return false
		}
		switch x.k {
		case mBase:
			return x.src == y.src
		case mEmpty:
			return true
		case mPut, mDel:
			return x.key == y.key && sameV(x.under, y.under) && (x.k == mDel || sameV(x.val, y.val))
		case mMerge:
			return x.g == y.g && sameV(x.under, y.under) && sameV(x.other, y.other)
		}
	}
	return false
}

func cmpN(f func(a, b *Term) *Node, a, b *Node) *Node { return apply2(a, b, f) }

func ultN(a, b *Node) *Node {
	return cmpN(func(x, y *Term) *Node { return ltInt(asInt(x), asInt(y), true) }, a, b)
}
func eqN(a, b *Node) *Node { return cmpN(eqT, a, b) }
func addN(a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node { return leafN(addT(asInt(x), asInt(y))) })
}
func subN(a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node { return leafN(subT(asInt(x), asInt(y))) })
}

func asInt(t *Term) *Term {
	if t.k == KInt {
		return t
	}
	return intOf(t)
}

// readArr reads the element idx.
func readArr(a *Arr, idx *Node) Value {
	tick()
	switch a.k {
	case aZero:
		return zeroVal(a.elem)
	case aBase:
		var r Value
		// idx may be a decision
		ls := leaves(idx)
		if len(ls) == 1 {
			return loadVal(elemAddr(a.src, asInt(ls[0])), a.elem)
		}
		for i, l := range ls {
			v := loadVal(elemAddr(a.src, asInt(l)), a.elem)
			if i == 0 {
				r = v
			} else {
				r = mergeV(leafIs(idx, l), v, r)
			}
		}
		return r
	case aWrite:
		c := eqN(idx, a.idx)
		if c == nTrue {
			return a.val
		}
		return mergeV(c, a.val, readArrIf(c, a.under, idx))
	case aSeg:
		in := andN(notN(ultN(idx, a.idx)), ultN(subN(idx, a.idx), a.n))
		if in == nTrue {
			return readArr(a.seg, addN(a.off, subN(idx, a.idx)))
		}
		if in == nFalse {
			return readArr(a.under, idx)
		}
		return mergeV(in, readArr(a.seg, addN(a.off, subN(idx, a.idx))), readArr(a.under, idx))
	case aShift:
		return readArr(a.under, addN(idx, a.idx))
	case aMerge:
		return mergeV(a.g, readArr(a.under, idx), readArr(a.other, idx))
	case aVec:
		if i, ok := isConstN(idx); ok {
			if i < uint64(len(a.vec)) {
				return a.vec[i]
			}
			return readArr(a.under, idx)
		}
		r := readArr(a.under, idx)
		for i := range a.vec {
			if c := eqN(idx, constN(uint64(i))); c != nFalse {
				r = mergeV(c, a.vec[i], r)
			}
		}
		return r
	}
	panic("readArr")
}

func readArrIf(c *Node, a *Arr, idx *Node) Value {
	return readArr(a, idx)
}

// leafIs is the condition under which n has the leaf l.
func leafIs(n *Node, l *Term) *Node {
	return apply1(n, func(t *Term) *Node { return boolN(t == l) })
}

func writeArr(a *Arr, idx *Node, v Value) *Arr {
	if a.k == aWrite && a.idx == idx {
		return &Arr{k: aWrite, elem: a.elem, under: a.under, idx: idx, val: v}
	}
	return &Arr{k: aWrite, elem: a.elem, under: a, idx: idx, val: v}
}

// ---- maps ------------------------------------------------------------------------

func mapGet(m *MapObj, key *Node, vt types.Type) (Value, *Node) {
	tick()
	switch m.k {
	case mEmpty:
		if vt == nil {
			return nNil, nFalse
		}
		return zeroVal(vt), nFalse
	case mBase:
		ls := leaves(key)
		var r Value
		ok := nFalse
		for i, l := range ls {
			a := mkOp("mapat", 0, m.src, l)
			o := atomN(mkOp("mapok", 1, m.src, l))
			var v Value
			if vt == nil {
				v = leafN(intern(&Term{k: KLoad, args: []*Term{a}}))
			} else {
				v = loadVal(a, vt)
			}
			if i == 0 {
				r, ok = v, o
			} else {
				c := leafIs(key, l)
				r, ok = mergeV(c, v, r), iteN(c, o, ok)
			}
		}
		return r, ok
	case mPut:
		c := eqN(key, m.key)
		if c == nTrue {
			return m.val, nTrue
		}
		v, ok := mapGet(m.under, key, vt)
		return mergeV(c, m.val, v), orN(c, ok)
	case mDel:
		c := eqN(key, m.key)
		v, ok := mapGet(m.under, key, vt)
		var z Value = nNil
		if vt != nil {
			z = zeroVal(vt)
		}
		return mergeV(c, z, v), andN(notN(c), ok)
	case mMerge:
		v1, o1 := mapGet(m.under, key, vt)
		v2, o2 := mapGet(m.other, key, vt)
		return mergeV(m.g, v1, v2), iteN(m.g, o1, o2)
	}
	panic("mapGet")
}

// ---- addresses ---------------------------------------------------------------------

type step struct {
	fld  int
	name string
	idx  *Term // element step when not nil
}

func decompose(a *Term) (root *Term, path []step) {
	switch a.k {
	case KFld:
		root, path = decompose(a.args[0])
		return root, append(path, step{fld: int(a.u), name: a.s})
	case KElem:
		root, path = decompose(a.args[0])
		return root, append(path, step{idx: a.args[1]})
	}
	return a, nil
}

// pathType gives the content type of a root from the type of the final cell is
// not derivable; roots therefore carry their content lazily: an unknown root is
// represented by a placeholder until a store forces structure.
type lazyRoot struct{}

// loadAddr reads the cell at addr of type t.
func loadAddr(m *Mem, addr *Term, t types.Type) Value {
	root, path := decompose(addr)
	v, ok := m.look(root)
	if !ok {
		return loadVal(addr, t)
	}
	return walk(v, root, path, t)
}

func walk(v Value, at *Term, path []step, t types.Type) Value {
	if len(path) == 0 {
		if p, ok := v.(*partial); ok {
			return p.materialize(at, t)
		}
		return v
	}
	s := path[0]
	switch x := v.(type) {
	case *Agg:
		return walk(x.F[s.fld], fldAddr(at, s.fld, s.name), path[1:], t)
	case *Arr:
		e := readArr(x, leafN(s.idx))
		return walk(e, elemAddr(at, s.idx), path[1:], t)
	case *partial:
		if s.idx != nil {
			panic("walk: index into partial struct")
		}
		nat := fldAddr(at, s.fld, s.name)
		if f, ok := x.f[s.fld]; ok {
			return walk(f, nat, path[1:], t)
		}
		return loadVal(joinPath(nat, path[1:]), t)
	}
	panic(undecided("walk: " + fmt.Sprintf("%T", v) + " " + at.String()))
}

func joinPath(a *Term, path []step) *Term {
	for _, s := range path {
		if s.idx != nil {
			a = elemAddr(a, s.idx)
		} else {
			a = fldAddr(a, s.fld, s.name)
		}
	}
	return a
}

// partial is an unknown struct some of whose fields were written.
type partial struct {
	f map[int]Value
	n map[int]string
}

func (p *partial) materialize(at *Term, t types.Type) Value {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(undecided("materialize non struct"))
	}
	ag := loadVal(at, t).(*Agg)
	n := &Agg{T: t, F: append([]Value(nil), ag.F...)}
	for i := 0; i < u.NumFields(); i++ {
		if f, ok := p.f[i]; ok {
			if q, ok := f.(*partial); ok {
				f = q.materialize(fldAddr(at, i, u.Field(i).Name()), u.Field(i).Type())
			}
			n.F[i] = f
		}
	}
	return n
}

// storeAddr writes v at addr; elemT gives element types on the way for arrays.
func storeAddr(m *Mem, addr *Term, v Value) {
	root, path := decompose(addr)
	old, ok := m.look(root)
	if !ok {
		old = nil
	}
	m.set(root, update(old, root, path, v))
}

func update(old Value, at *Term, path []step, v Value) Value {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if old == nil {
		if s.idx != nil {
			old = &Arr{k: aBase, src: at}
		} else {
			old = &partial{f: map[int]Value{}, n: map[int]string{}}
		}
	}
	switch x := old.(type) {
	case *Agg:
		n := &Agg{T: x.T, F: append([]Value(nil), x.F...)}
		n.F[s.fld] = update(x.F[s.fld], fldAddr(at, s.fld, s.name), path[1:], v)
		return n
	case *partial:
		n := &partial{f: map[int]Value{}, n: map[int]string{}}
		for k, f := range x.f {
			n.f[k] = f
			n.n[k] = x.n[k]
		}
		var sub Value
		if f, ok := x.f[s.fld]; ok {
			sub = f
		}
		n.n[s.fld] = s.name
		n.f[s.fld] = update(sub, fldAddr(at, s.fld, s.name), path[1:], v)
		return n
	case *Arr:
		idx := leafN(s.idx)
		if len(path) == 1 {
			return writeArr(x, idx, v)
		}
		if x.elem == nil {
			panic(undecided("store into element of unknown type: " + at.String()))
		}
		e := readArr(x, idx)
		return writeArr(x, idx, update(e, elemAddr(at, s.idx), path[1:], v))
	}
	panic(undecided(fmt.Sprintf("store into %T", old)))
}

type undecided string

func (u undecided) Error() string { return string(u) }

// arrOf returns the array content behind a slice base address.
func arrOf(m *Mem, base *Term, elem types.Type) *Arr {
	root, path := decompose(base)
	v, ok := m.look(root)
	if !ok {
		return &Arr{k: aBase, elem: elem, src: base}
	}
	x := v
	at := root
	for _, s := range path {
		switch y := x.(type) {
		case *Agg:
			x = y.F[s.fld]
			at = fldAddr(at, s.fld, s.name)
		case *partial:
			f, ok := y.f[s.fld]
			if !ok {
				return &Arr{k: aBase, elem: elem, src: base}
			}
			x = f
			at = fldAddr(at, s.fld, s.name)
		case *Arr:
			x = readArr(y, leafN(s.idx))
			at = elemAddr(at, s.idx)
		default:
			panic(undecided("arrOf"))
		}
	}
	a, ok := x.(*Arr)
	if !ok {
		panic(undecided(fmt.Sprintf("arrOf: content of %s is %T", base, x)))
	}
	if a.elem == nil {
		a = &Arr{k: a.k, elem: elem, src: a.src, under: a.under, idx: a.idx, n: a.n, val: a.val, seg: a.seg, off: a.off, g: a.g, other: a.other}
	}
	return a
}

func mergeMem(g *Node, a, b *Mem) *Mem {
	if a == b {
		return a
	}
	one := func(k *Term, v Value, inA bool) Value {
		switch {
		case k.k == KAlloc:
			return v // only allocated on one side
		case inA:
			return mergeLazy(g, v, nil, k)
		}
		return mergeLazy(g, nil, v, k)
	}
	return &Mem{m: mergeTrie(a.m, b.m, func(k *Term, v, w Value) Value { return mergeLazy(g, v, w, k) }, one)}
}

// mergeLazy merges root contents, where nil means "initial content".
func mergeLazy(g *Node, a, b Value, at *Term) Value {
	if a == b || b != nil && a != nil && sameV(a, b) {
		return a
	}
	pa, isA := a.(*partial)
	pb, isB := b.(*partial)
	if isA || isB {
		if (isA || a == nil) && (isB || b == nil) {
			n := &partial{f: map[int]Value{}, n: map[int]string{}}
			get := func(p *partial, i int) Value {
				if p == nil {
					return nil
				}
				if v, ok := p.f[i]; ok {
					return v
				}
				return nil
			}
			keys := map[int]string{}
			if pa != nil {
				for i, s := range pa.n {
					keys[i] = s
				}
			}
			if pb != nil {
				for i, s := range pb.n {
					keys[i] = s
				}
			}
			for i, s := range keys {
				n.n[i] = s
				n.f[i] = mergeLazy(g, get(pa, i), get(pb, i), fldAddr(at, i, s))
			}
			return n
		}
		if isA {
			a = pa.materialize(at, typeOfV(b))
		}
		if isB {
			b = pb.materialize(at, typeOfV(a))
		}
		return mergeV(g, a, b)
	}
	if a == nil {
		a = initialLike(b, at)
	}
	if b == nil {
		b = initialLike(a, at)
	}
	return mergeV(g, a, b)
}

func typeOfV(v Value) types.Type {
	if a, ok := v.(*Agg); ok {
		return a.T
	}
	panic(undecided("typeOfV"))
}

// cellType remembers the type with which a root cell was written.
var cellType = map[*Term]types.Type{}

func initialLike(v Value, at *Term) Value {
	switch x := v.(type) {
	case *Agg:
		return loadVal(at, x.T)
	case *Arr:
		return &Arr{k: aBase, elem: x.elem, src: at}
	case *MapObj:
		return &MapObj{k: mBase, typ: x.typ, src: at}
	}
	if t, ok := cellType[at]; ok {
		return loadVal(at, t)
	}
	panic(undecided("initialLike " + at.String()))
}

// ---- packing -----------------------------------------------------------------------

var packSeq int
var packArr = map[interface{}]*Term{}

// packV turns any value into a diagram over single terms.
func packV(v Value) *Node {
	switch x := v.(type) {
	case *Node:
		return x
	case *Agg:
		var ns []*Node
		for _, f := range x.F {
			ns = append(ns, boolLeaf(packV(f)))
		}
		ts := typeStr(x.T)
		return applyN(ns, func(ts2 []*Term) *Node {
			return leafN(intern(&Term{k: KStruct, s: ts, args: ts2}))
		})
	case *Arr:
		if x.k == aBase {
			return leafN(mkOp("arr", 0, x.src))
		}
		if t, ok := packArr[x]; ok {
			return leafN(t)
		}
		packSeq++
		t := mkOp(fmt.Sprintf("arr#%d", packSeq), 0)
		packArr[x] = t
		return leafN(t)
	}
	packSeq++
	return leafN(mkOp(fmt.Sprintf("pack#%d", packSeq), 0))
}

func boolLeaf(n *Node) *Node { return n }

func unpackT(t *Term, typ types.Type) Value {
	if t.k == KStruct {
		st, ok := typ.Underlying().(*types.Struct)
		if ok && st.NumFields() == len(t.args) {
			ag := &Agg{T: typ}
			for i, a := range t.args {
				ag.F = append(ag.F, unpackT(a, st.Field(i).Type()))
			}
			return ag
		}
	}
	switch typ.Underlying().(type) {
	case *types.Struct, *types.Array:
		return atomVal(t, typ)
	}
	return leafN(t)
}

func unpackN(n *Node, typ types.Type) Value {
	switch typ.Underlying().(type) {
	case *types.Struct, *types.Array:
	default:
		return n
	}
	var rec func(n *Node) Value
	rec = func(n *Node) Value {
		if n.leaf != nil {
			return unpackT(n.leaf, typ)
		}
		return mergeV(atomN(n.a), rec(n.hi), rec(n.lo))
	}
	return rec(n)
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortType(t types.Type) string {
	s := typeStr(t)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}
