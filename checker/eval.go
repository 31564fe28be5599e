package main

// Flow analysis over go/ssa.  A function is analysed block by block in reverse
// post-order; states that meet at a join are merged into decision values, loops
// are summarised by one generic iteration (see loops.go).  Calls inside the
// repository are analysed in the context of the call.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	g   *Node
	mem *Mem
}

type Event struct {
	Name  string
	Args  []Value
	Res   Value
	G     *Node
	Loops []*Loop
	Mem   *Mem
	Pos   token.Pos
	Fn    *ssa.Function
	Path  string
}

type PrimCall struct {
	In    *Interp
	Fn    *ssa.Function
	Args  []Value
	St    *State
	Fr    *Frame
	Instr ssa.Instruction
	Sig   *types.Signature
	Name  string
}

type Prim func(c *PrimCall) Value

type Interp struct {
	findEndless bool // look for loops that never end
	endless     []endlessLoop
	path0       string        // names what this run allocates, apart from earlier runs on the same memory
	onBranch    func(c *Node) // told every condition that depends on the input
	panics      bool          // follow panics to the function that recovers from them
	escaped     []edge        // panics nobody recovers from
	recovered   *Node         // under which condition recover() was called
	forceUnroll bool          // follow loops turn by turn also when a test is not decided
	unrollMax   int           // turns a loop is followed, when more than usual
	L           *Loaded
	prims       map[string]Prim // by full function name
	events      []*Event
	loops       []*Loop
	notes       []string // imprecision met on the way
	depth       int
	closures    map[*Term][]Value
	loopStk     []*Loop
	recoverV    *Node // value of recover()
	globals     map[*Term]bool
	onPanic     func(fr *Frame, st *State, why string)
	noLog       bool
	maxDepth    int
	onAccess    func(in *Interp, fr *Frame, st *State, base, idx, ln *Node, instr ssa.Instruction)
	steps       int
	trial       int
	fns         map[*ssa.Function]int // functions analysed, with block counts
	callSeq     int
	inInit      bool
	rangeKeys   map[*ssa.Range][]*Node
	writers     map[*Term]*Node // where buffered writers write to
	mapOrder    int             // the order in which maps are walked, see walkOrder
	onWalk      func(fn *ssa.Function, ins ssa.Instruction, n int)
	inLogs      bool // analyse the logging package itself
	loopHead    func(lp *Loop, fr *Frame, mem *Mem, phis []Value)
}

func newInterp(l *Loaded) *Interp {
	return &Interp{L: l, prims: map[string]Prim{}, closures: map[*Term][]Value{}, recoverV: nNil,
		maxDepth: 40, fns: map[*ssa.Function]int{}}
}

func (in *Interp) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, x := range in.notes {
		if x == s {
			return
		}
	}
	in.notes = append(in.notes, s)
}

type deferRec struct {
	g    *Node
	call *ssa.CallCommon
	args []Value
	fnV  Value
	in   ssa.Instruction
}

type Frame struct {
	in        *Interp
	fn        *ssa.Function
	env       map[ssa.Value]Value
	path      string
	binds     []Value
	defers    []deferRec
	rets      []edge
	info      *fnInfo
	iter      string
	parent    *Frame
	condAt    map[*ssa.BasicBlock]*Node
	panics    []edge
	retIdx    int
	noRet     *Node
	deferOK   bool
	panicking bool // running deferred calls because of a panic
}

type edge struct {
	from, to *ssa.BasicBlock
	g        *Node
	mem      *Mem
	phis     []Value
	live     map[ssa.Value]Value
	rets     []Value
	nd       int // deferred calls registered so far
	why      string
}

// Call analyses fn on args from state st; it returns the results and updates st.
func (in *Interp) Call(fn *ssa.Function, args, binds []Value, st *State, path string, parent *Frame) []Value {
	if in.depth > in.maxDepth {
		panic(undecided("call depth exceeded in " + fn.String()))
	}
	if len(fn.Blocks) == 0 {
		panic(undecided("no body for " + fn.String()))
	}
	for f := parent; f != nil; f = f.parent {
		if f.fn == fn {
			panic(undecided("recursive function " + fn.String()))
		}
	}
	in.depth++
	defer func() { in.depth-- }()
	in.fns[fn] = len(fn.Blocks)
	fr := &Frame{in: in, fn: fn, env: map[ssa.Value]Value{}, path: path, binds: binds, info: infoOf(fn), parent: parent,
		condAt: map[*ssa.BasicBlock]*Node{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		}
	}
	init := edge{to: fn.Blocks[0], g: st.g, mem: st.mem}
	exits, _ := fr.region(nil, []edge{init})
	_ = exits
	if in.panics {
		fr.unwind()
	}
	// merge returns
	var rets []edge
	for _, r := range fr.rets {
		if r.g != nFalse {
			rets = append(rets, r)
		}
	}
	if len(rets) == 0 {
		st.g = nFalse
		var out []Value
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			out = append(out, zeroVal(res.At(i).Type()))
		}
		return out
	}
	total := nFalse
	for _, r := range rets {
		total = orN(total, r.g)
	}
	last := rets[len(rets)-1]
	vals := append([]Value(nil), last.rets...)
	mem := last.mem
	for i := len(rets) - 2; i >= 0; i-- {
		g := restrictN(rets[i].g, total)
		for j := range vals {
			vals[j] = mergeV(g, rets[i].rets[j], vals[j])
		}
		mem = mergeMem(g, rets[i].mem, mem)
	}
	if len(rets) == 1 {
		mem = &Mem{m: mem.own().m}
	}
	st.g = total
	st.mem = mem
	return vals
}

// region runs the blocks of loop lp (nil: whole function) once from the given
// entry edges; it returns edges leaving the region and the back edges.
func (fr *Frame) region(lp *loopInfo, in0 []edge) (exits, back []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	for _, e := range in0 {
		pending[e.to] = append(pending[e.to], e)
	}
	inRegion := func(b *ssa.BasicBlock) bool { return lp == nil || lp.blocks[b] }
	dispatch := func(e edge) {
		if e.g == nFalse {
			return
		}
		switch {
		case lp != nil && e.to == lp.header:
			back = append(back, e)
		case inRegion(e.to):
			pending[e.to] = append(pending[e.to], e)
		default:
			exits = append(exits, e)
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.info.rpo {
		if !inRegion(b) || done[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if il := fr.info.loopOf[b]; il != nil && il.header == b && il != lp {
			for x := range il.blocks {
				done[x] = true
			}
			for _, e := range fr.execLoop(il, es) {
				dispatch(e)
			}
			continue
		}
		st, phis := fr.join(b, es)
		for _, e := range fr.block(b, st, phis) {
			dispatch(e)
		}
	}
	return exits, back
}

// join merges incoming edges.
func (fr *Frame) join(b *ssa.BasicBlock, es []edge) (*State, []Value) {
	if len(es) == 1 {
		e := es[0]
		for v, x := range e.live {
			fr.env[v] = x
		}
		return &State{g: e.g, mem: &Mem{m: e.mem.own().m, shared: e.mem.shared}}, e.phis
	}
	total := nFalse
	for _, e := range es {
		total = orN(total, e.g)
	}
	last := es[len(es)-1]
	mem := last.mem
	phis := append([]Value(nil), last.phis...)
	live := map[ssa.Value]Value{}
	for v, x := range last.live {
		live[v] = x
	}
	for i := len(es) - 2; i >= 0; i-- {
		g := restrictN(es[i].g, total)
		mem = mergeMem(g, es[i].mem, mem)
		for j := range phis {
			phis[j] = mergeV(g, es[i].phis[j], phis[j])
		}
		for v, x := range es[i].live {
			if y, ok := live[v]; ok {
				live[v] = mergeV(g, x, y)
			} else {
				live[v] = x
			}
		}
	}
	for v, x := range live {
		fr.env[v] = x
	}
	if mem == last.mem {
		mem.shared = true
		mem = mem.own()
	}
	return &State{g: total, mem: mem}, phis
}

func (fr *Frame) mkEdge(from, to *ssa.BasicBlock, g *Node, mem *Mem) edge {
	e := edge{from: from, to: to, g: g, mem: mem}
	if g == nFalse {
		return e
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, fr.get(phi.Edges[pi]))
	}
	return e
}

func (fr *Frame) get(v ssa.Value) Value {
	if x, ok := fr.env[v]; ok {
		return x
	}
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		return leafN(globT(c))
	case *ssa.Function:
		return leafN(intern(&Term{k: KFunc, s: c.String(), aux: c}))
	case *ssa.Builtin:
		return nNil
	}
	panic(undecided(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn)))
}

func globT(g *ssa.Global) *Term {
	t := intern(&Term{k: KGlob, s: g.String()})
	t.aux = g
	return t
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if w, signed, ok := typeWidth(t); ok {
		_ = w
		_ = signed
		if i, exact := constant.Int64Val(constant.ToInt(c.Value)); exact {
			return constN(uint64(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return constN(u)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolN(constant.BoolVal(c.Value))
	case constant.String:
		return strN(constant.StringVal(c.Value))
	case constant.Float, constant.Int:
		return leafN(mkFlt(c.Value.ExactString()))
	}
	return leafN(mkSym("const:"+c.Value.ExactString(), 0))
}

func asNode(v Value) *Node {
	switch x := v.(type) {
	case *Node:
		return x
	case nil:
		panic(undecided("missing value"))
	}
	return packV(v)
}

// block runs the instructions of one block.
func (fr *Frame) block(b *ssa.BasicBlock, st *State, phis []Value) []edge {
	in := fr.in
	in.steps++
	if covered != nil {
		covered[b] = true
	}
	pi := 0
	for _, ins := range b.Instrs {
		tick()
		switch x := ins.(type) {
		case *ssa.Phi:
			if pi >= len(phis) {
				panic(undecided("phi"))
			}
			fr.env[x] = restrictV(phis[pi], st.g)
			pi++
			continue
		case *ssa.If:
			c := restrictN(asNode(fr.get(x.Cond)), st.g)
			if c.leaf == nil {
				full := andN(st.g, c)
				if p := pruneG(full); p == nFalse {
					c = nFalse
				} else if q := pruneG(andN(st.g, notN(c))); q == nFalse {
					c = nTrue
				}
			}
			fr.condAt[b] = c
			if c.leaf == nil && in.onBranch != nil {
				in.onBranch(c)
			}
			st.mem.shared = true
			t := fr.mkEdge(b, b.Succs[0], pruneG(andN(st.g, c)), st.mem)
			f := fr.mkEdge(b, b.Succs[1], pruneG(andN(st.g, notN(c))), st.mem)
			return []edge{t, f}
		case *ssa.Jump:
			return []edge{fr.mkEdge(b, b.Succs[0], st.g, st.mem)}
		case *ssa.Return:
			var rs []Value
			for _, r := range x.Results {
				rs = append(rs, restrictV(fr.get(r), st.g))
			}
			st.mem.shared = true
			fr.rets = append(fr.rets, edge{from: b, g: st.g, mem: st.mem, rets: rs})
			return nil
		case *ssa.Panic:
			if in.panics {
				fr.panicIf(st, nTrue, "explicit panic", ins)
			}
			in.event(&Event{Name: "panic", Args: []Value{fr.get(x.X)}, G: st.g, Mem: st.mem.snapshot(), Pos: x.Pos(), Fn: fr.fn, Path: fr.path})
			return nil
		}
		fr.instr(ins, st)
		if st.g == nFalse {
			return nil
		}
	}
	return nil
}

func (in *Interp) event(e *Event) {
	e.Loops = append([]*Loop(nil), in.loopStk...)
	in.events = append(in.events, e)
}

func (fr *Frame) store(st *State, addr *Node, v Value, t types.Type) {
	if fr.in.panics {
		if fr.panicIf(st, nilPtr(addr), "nil pointer", nil); st.g == nFalse {
			return
		}
	}
	st.mem = st.mem.own()
	ls := leaves(addr)
	if len(ls) == 1 {
		noteCell(ls[0], t)
		storeAddr(st.mem, ls[0], v)
		return
	}
	for _, l := range ls {
		if nilPtr(leafN(l)) == nTrue {
			continue
		}
		noteCell(l, t)
		c := leafIs(addr, l)
		old := loadAddr(st.mem, l, t)
		storeAddr(st.mem, l, mergeV(c, v, old))
	}
}

func noteCell(a *Term, t types.Type) {
	if a.k != KFld && a.k != KElem {
		if _, ok := cellType[a]; !ok {
			cellType[a] = t
		}
	} else {
		cellType[a] = t
	}
}

func (fr *Frame) load(st *State, addr *Node, t types.Type) Value {
	if fr.in.panics {
		if fr.panicIf(st, nilPtr(addr), "nil pointer", nil); st.g == nFalse {
			return zeroVal(t)
		}
	}
	ls := leaves(addr)
	var r Value
	first := true
	for _, l := range ls {
		if l.k == KNil && len(ls) > 1 {
			continue
		}
		if g, ok := l.aux.(*ssa.Global); ok {
			fr.in.initGlobal(g, st)
		}
		v := loadAddr(st.mem, l, t)
		if first {
			r = v
			first = false
		} else {
			r = mergeV(leafIs(addr, l), v, r)
		}
	}
	if p, ok := r.(*partial); ok {
		r = p.materialize(ls[0], t)
	}
	return restrictV(r, st.g)
}

// initGlobal makes package-level variables with an initial value available.
func (in *Interp) initGlobal(g *ssa.Global, st *State) {
	t := globT(g)
	if _, ok := st.mem.look(t); ok {
		return
	}
	if in.globals == nil {
		in.globals = map[*Term]bool{}
	}
	gm := in.L.globalMem(in)
	if v, ok := gm.look(t); ok {
		st.mem = st.mem.own()
		st.mem.set(t, v)
		// bring along what the initial value refers to
		for k, w := range gm.all() {
			if k.k == KAlloc {
				if _, ok := st.mem.look(k); !ok {
					st.mem.set(k, w)
				}
			}
		}
	}
}

func (fr *Frame) allocName(ins ssa.Instruction) string {
	return fmt.Sprintf("%s.b%d.%s%s", fr.path, ins.Block().Index, ins.(ssa.Value).Name(), fr.iter)
}

func newAlloc(name string) *Term { return intern(&Term{k: KAlloc, s: "new:" + name}) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (fr *Frame) instr(ins ssa.Instruction, st *State) {
	in := fr.in
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := newAlloc(fr.allocName(x))
		st.mem = st.mem.own()
		t := deref(x.Type())
		st.mem.set(a, zeroVal(t))
		cellType[a] = t
		fr.env[x] = leafN(a)
	case *ssa.BinOp:
		fr.env[x] = in.binop(x.Op, fr.get(x.X), fr.get(x.Y), x.X.Type(), x.Y.Type(), x.Type())
	case *ssa.UnOp:
		fr.unop(x, st)
	case *ssa.Call:
		fr.env[x] = fr.call(&x.Call, x, st)
	case *ssa.ChangeType:
		v := fr.get(x.X)
		if a, ok := v.(*Agg); ok {
			v = &Agg{F: a.F, T: x.Type()}
		}
		fr.env[x] = v
	case *ssa.ChangeInterface:
		fr.env[x] = fr.get(x.X)
	case *ssa.Convert:
		fr.env[x] = fr.convert(x, st)
	case *ssa.MakeInterface:
		v := packV(fr.get(x.X))
		ts := typeStr(x.X.Type())
		typ := x.X.Type()
		fr.env[x] = apply1(v, func(t *Term) *Node {
			return leafN(intern(&Term{k: KIface, s: ts, args: []*Term{t}, aux: typ}))
		})
	case *ssa.TypeAssert:
		fr.env[x] = fr.typeAssert(x, st)
	case *ssa.Extract:
		v := fr.get(x.Tuple)
		ag, ok := v.(*Agg)
		if !ok {
			panic(undecided("extract from non tuple in " + fr.fn.String()))
		}
		fr.env[x] = ag.F[x.Index]
	case *ssa.Field:
		switch v := fr.get(x.X).(type) {
		case *Agg:
			fr.env[x] = v.F[x.Field]
		default:
			panic(undecided("field of non struct"))
		}
	case *ssa.FieldAddr:
		p := asNode(fr.get(x.X))
		stt := deref(x.X.Type()).Underlying().(*types.Struct)
		name := stt.Field(x.Field).Name()
		if i := strings.Index(name, "\x00"); i >= 0 {
			name = name[:i]
		}
		fr.env[x] = apply1(p, func(t *Term) *Node { return leafN(fldAddr(t, x.Field, name)) })
	case *ssa.IndexAddr:
		fr.env[x] = fr.indexAddr(x, st)
	case *ssa.Index:
		v := fr.get(x.X)
		idx := asNode(fr.get(x.Index))
		switch a := v.(type) {
		case *Arr:
			fr.env[x] = readArr(a, idx)
		case *Node:
			fr.env[x] = apply2(a, idx, func(s, i *Term) *Node { return leafN(strIdx(s, asInt(i))) })
		default:
			panic(undecided("index"))
		}
	case *ssa.Lookup:
		fr.env[x] = fr.lookup(x, st)
	case *ssa.MapUpdate:
		m := asNode(fr.get(x.Map))
		if in.panics {
			fr.panicIf(st, nilPtr(m), "assignment to entry in nil map", x)
			if st.g == nFalse {
				return
			}
		}
		key := packV(fr.get(x.Key))
		v := fr.get(x.Value)
		in.event(&Event{Name: "mapupdate", Args: []Value{m, key, v}, G: st.g, Mem: st.mem.snapshot(), Pos: x.Pos(), Fn: fr.fn, Path: fr.path})
		st.mem = st.mem.own()
		mt := x.Map.Type().Underlying().(*types.Map)
		for _, l := range leaves(m) {
			c := leafIs(m, l)
			old := mapObj(st.mem, l, mt)
			nw := &MapObj{k: mPut, typ: mt, under: old, key: key, val: v}
			if c != nTrue {
				st.mem.set(l, mergeV(c, nw, old))
			} else {
				st.mem.set(l, nw)
			}
		}
	case *ssa.MakeMap:
		a := newAlloc(fr.allocName(x))
		st.mem = st.mem.own()
		st.mem.set(a, &MapObj{k: mEmpty, typ: x.Type().Underlying().(*types.Map)})
		fr.env[x] = leafN(a)
	case *ssa.MakeSlice:
		a := newAlloc(fr.allocName(x))
		el := x.Type().Underlying().(*types.Slice).Elem()
		st.mem = st.mem.own()
		st.mem.set(a, &Arr{k: aZero, elem: el})
		fr.env[x] = apply1(asNode(fr.get(x.Len)), func(t *Term) *Node {
			return leafN(mkSlice(a, mkConst(0), asInt(t), nil))
		})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		t := intern(&Term{k: KFunc, s: fn.String() + "@" + fr.allocName(x), aux: fn})
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, fr.get(b))
		}
		in.closures[t] = bs
		fr.env[x] = leafN(t)
	case *ssa.Slice:
		fr.env[x] = fr.slice(x, st)
	case *ssa.Store:
		v := fr.get(x.Val)
		if n, ok := v.(*Node); ok {
			v = restrictN(n, st.g)
		}
		fr.store(st, asNode(fr.get(x.Addr)), v, x.Val.Type())
	case *ssa.Range:
		fr.env[x] = fr.get(x.X)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			if n := asNode(fr.env[x]); n.leaf != nil {
				if ks, ok := in.mapKeys(mapObj(st.mem, n.leaf, mt)); ok {
					if in.rangeKeys == nil {
						in.rangeKeys = map[*ssa.Range][]*Node{}
					}
					in.rangeKeys[x] = in.walkOrder(ks)
					if in.onWalk != nil && st.g != nFalse {
						in.onWalk(fr.fn, x, len(ks))
					}
				} else {
					delete(in.rangeKeys, x)
				}
			}
		}
	case *ssa.Next:
		fr.next(x, st)
	case *ssa.Defer:
		rec := deferRec{g: st.g, call: &x.Call, in: x}
		for _, a := range x.Call.Args {
			rec.args = append(rec.args, fr.get(a))
		}
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			rec.fnV = fr.get(x.Call.Value)
		} else if _, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			rec.fnV = fr.get(x.Call.Value)
		}
		in.event(&Event{Name: "defer", Args: append([]Value{rec.fnV}, rec.args...), G: st.g, Mem: st.mem.snapshot(), Pos: x.Pos(), Fn: fr.fn, Path: fr.path})
		fr.defers = append(fr.defers, rec)
	case *ssa.RunDefers:
		fr.runDefers(st)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(undecided("concurrency in " + fr.fn.String()))
	default:
		panic(undecided(fmt.Sprintf("instruction %T", ins)))
	}
}

func (fr *Frame) runDefers(st *State) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		g := andN(st.g, d.g)
		if g == nFalse {
			continue
		}
		if g == st.g || restrictN(d.g, st.g) == nTrue {
			fr.callWith(d.call, d.in, st, d.args, d.fnV)
			continue
		}
		st.mem.shared = true
		s2 := &State{g: g, mem: st.mem}
		fr.callWith(d.call, d.in, s2, d.args, d.fnV)
		st.mem = mergeMem(restrictN(d.g, st.g), s2.mem, st.mem)
	}
}

func mapObj(m *Mem, l *Term, mt *types.Map) *MapObj {
	root, path := decompose(l)
	if v, ok := m.look(root); ok && len(path) == 0 {
		if o, ok := v.(*MapObj); ok {
			return o
		}
	}
	if v, ok := m.look(l); ok {
		if o, ok := v.(*MapObj); ok {
			return o
		}
	}
	if l.k == KNil {
		return &MapObj{k: mEmpty, typ: mt}
	}
	return &MapObj{k: mBase, typ: mt, src: l}
}

func strIdx(s, i *Term) *Term {
	if c, ok := isConst(i); ok && s.k == KStr && c < uint64(len(s.s)) {
		return mkConst(uint64(s.s[c]))
	}
	return intOf(mkOp("stridx", 8, s, i))
}

func lenT(m *Mem, t *Term) *Term {
	switch t.k {
	case KNil:
		return mkConst(0)
	case KStr:
		return mkConst(uint64(len(t.s)))
	case KAlloc:
		if m != nil {
			if o, ok := m.get(t).(*MapObj); ok {
				if ks, ok := (&Interp{}).mapKeys(o); ok {
					return mkConst(uint64(len(ks)))
				}
			}
		}
	case KCat:
		acc := mkConst(0)
		for _, a := range t.args {
			acc = addT(acc, lenT(m, a))
		}
		return acc
	case KSlice:
		return t.args[2]
	case KOp:
		switch {
		case t.s == "hex" && len(t.args) == 1:
			return scaleT(lenT(m, t.args[0]), 2)
		case t.s == "bytes2str" && len(t.args) == 3:
			return t.args[2]
		case t.s == "substr":
			return subT(t.args[2], t.args[1])
		case t.s == "bytestr":
			return mkConst(1)
		}
	}
	return lenAtom(t)
}

func (fr *Frame) indexAddr(x *ssa.IndexAddr, st *State) Value {
	base := asNode(fr.get(x.X))
	idx := asNode(fr.get(x.Index))
	if fr.in.onAccess != nil {
		fr.in.onAccess(fr.in, fr, st, base, idx, nil, x)
	}
	if fr.in.panics {
		n := constN(0)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			n = constN(uint64(p.Elem().Underlying().(*types.Array).Len()))
			fr.panicIf(st, nilPtr(base), "nil array", x)
		} else {
			n = apply1(base, func(t *Term) *Node { return leafN(lenT(st.mem, t)) })
		}
		fr.panicIf(st, notN(ultU(idx, n)), "index out of range", x)
	}
	return apply2(base, idx, func(b, i *Term) *Node {
		i = asInt(i)
		switch b.k {
		case KSlice:
			return leafN(elemAddr(b.args[0], addT(b.args[1], i)))
		case KNil:
			return leafN(elemAddr(b, i))
		default:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				return leafN(elemAddr(b, i))
			}
			// opaque slice value
			return leafN(elemAddr(b, i))
		}
	})
}

func (fr *Frame) slice(x *ssa.Slice, st *State) Value {
	base := asNode(fr.get(x.X))
	var lo, hi *Node
	if x.Low != nil {
		lo = asNode(fr.get(x.Low))
	} else {
		lo = constN(0)
	}
	isStr := false
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	var arrLen *Term
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			arrLen = mkConst(uint64(a.Len()))
		}
	}
	if fr.in.onAccess != nil && !isStr {
		if x.High != nil {
			fr.in.onAccess(fr.in, fr, st, base, asNode(fr.get(x.High)), nil, x)
		} else {
			fr.in.onAccess(fr.in, fr, st, base, lo, nil, x)
		}
	}
	if x.High != nil {
		hi = asNode(fr.get(x.High))
	} else {
		hi = apply1(base, func(t *Term) *Node {
			if arrLen != nil {
				return leafN(arrLen)
			}
			return leafN(lenT(st.mem, t))
		})
	}
	if fr.in.panics {
		cp := apply1(base, func(t *Term) *Node {
			if arrLen != nil {
				return leafN(arrLen)
			}
			if t.k == KSlice {
				return leafN(sliceCap(t))
			}
			return leafN(lenT(st.mem, t))
		})
		fr.panicIf(st, orN(ultU(cp, hi), ultU(hi, lo)), "slice bounds out of range", x)
	}
	return applyN([]*Node{base, lo, hi}, func(ts []*Term) *Node {
		b, l, h := ts[0], asInt(ts[1]), asInt(ts[2])
		if isStr {
			return leafN(substrT(b, l, h))
		}
		n := subT(h, l)
		switch b.k {
		case KSlice:
			full := sliceCap(b)
			return leafN(mkSlice(b.args[0], addT(b.args[1], l), n, subT(full, l)))
		case KNil:
			return nNil
		}
		if arrLen != nil {
			return leafN(mkSlice(b, l, n, subT(arrLen, l)))
		}
		return leafN(mkSlice(b, l, n, nil))
	})
}

func substrT(s, lo, hi *Term) *Term {
	l, ok1 := isConst(lo)
	h, ok2 := isConst(hi)
	if s.k == KStr && ok1 && ok2 && l <= h && h <= uint64(len(s.s)) {
		return mkStr(s.s[l:h])
	}
	if ok1 && l == 0 && hi == lenT(nil, s) {
		return s
	}
	if lo == hi {
		return mkStr("")
	}
	return mkOp("substr", 0, s, lo, hi)
}

func (fr *Frame) lookup(x *ssa.Lookup, st *State) Value {
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return apply2(asNode(fr.get(x.X)), asNode(fr.get(x.Index)), func(s, i *Term) *Node { return leafN(strIdx(s, asInt(i))) })
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m := asNode(fr.get(x.X))
	key := packV(fr.get(x.Index))
	var v Value
	var ok *Node
	for i, l := range leaves(m) {
		v1, o1 := mapGet(mapObj(st.mem, l, mt), key, mt.Elem())
		if i == 0 {
			v, ok = v1, o1
		} else {
			c := leafIs(m, l)
			v, ok = mergeV(c, v1, v), iteN(c, o1, ok)
		}
	}
	if x.CommaOk {
		// missing keys give the zero value
		return &Agg{F: []Value{v, ok}}
	}
	return mergeV(ok, v, zeroVal(mt.Elem()))
}

func (fr *Frame) next(x *ssa.Next, st *State) {
	rng := x.Iter.(*ssa.Range)
	src := asNode(fr.get(rng.X))
	lp := fr.in.curLoop()
	k := mkSym("κ?", 48)
	if lp != nil {
		k = lp.kappa
	}
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		if i, ok := fr.iteration(); ok && src.leaf != nil && src.leaf.k == KStr {
			at := 0
			for idx, r := range src.leaf.s {
				if at == i {
					fr.env[x] = &Agg{F: []Value{nTrue, constN(uint64(idx)), constN(uint64(int64(r)))}, T: tt}
					return
				}
				at++
			}
			fr.env[x] = &Agg{F: []Value{nFalse, constN(0), constN(0)}, T: tt}
			return
		}
		// a generic character of the string
		s := src.leaf
		if s == nil {
			s = packLeaf(src)
		}
		ok := atomN(mkOp("hasrune", 1, s, k))
		idx := mkOp("runeidx", 48, s, k)
		r := mkOp("rune", 31, s, k)
		fr.env[x] = &Agg{F: []Value{ok, leafN(intOf(idx)), leafN(intOf(r))}, T: tt}
		return
	}
	mt := rng.X.Type().Underlying().(*types.Map)
	if ks, ok := fr.in.rangeKeys[rng]; ok && src.leaf != nil {
		if i, ok := fr.iteration(); ok {
			if i >= len(ks) {
				fr.env[x] = &Agg{F: []Value{nFalse, zeroVal(mt.Key()), zeroVal(mt.Elem())}, T: tt}
				return
			}
			v, has := mapGet(mapObj(st.mem, src.leaf, mt), ks[i], mt.Elem())
			if has != nTrue {
				panic(undecided("an entry is removed while the map is walked"))
			}
			fr.env[x] = &Agg{F: []Value{nTrue, unpackN(ks[i], mt.Key()), v}, T: tt}
			return
		}
	}
	s := src.leaf
	if s == nil {
		s = packLeaf(src)
	}
	ok := atomN(mkOp("hasentry", 1, s, k))
	var key Value = atomVal(mkOp("entrykey", 0, s, k), mt.Key())
	var val Value = zeroVal(mt.Elem())
	if !isInvalid(tt.At(2).Type()) {
		kn := packV(key)
		v, _ := mapGet(mapObj(st.mem, s, mt), kn, mt.Elem())
		val = v
		// the key is present
		if kn.leaf != nil {
			if o, isM := st.mem.get(s).(*MapObj); !isM || o.k == mBase {
				_ = o
			}
		}
	}
	fr.env[x] = &Agg{F: []Value{ok, key, val}, T: tt}
}

// iteration is the number of the current turn of the innermost loop, when the
// loop is followed turn by turn.
func (fr *Frame) iteration() (int, bool) {
	i := strings.LastIndexByte(fr.iter, '~')
	if i < 0 {
		return 0, false
	}
	n, err := strconv.Atoi(fr.iter[i+1:])
	return n, err == nil
}

// mapKeys are the keys of a map whose entries are all known.
func (in *Interp) mapKeys(o *MapObj) ([]*Node, bool) {
	switch o.k {
	case mEmpty:
		return nil, true
	case mPut:
		ks, ok := in.mapKeys(o.under)
		if !ok || o.key.leaf == nil {
			return nil, false
		}
		for _, k := range ks {
			e := eqN(k, o.key)
			if e == nTrue {
				return ks, true
			}
			if e != nFalse {
				return nil, false
			}
		}
		return append(ks[:len(ks):len(ks)], o.key), true
	case mDel:
		ks, ok := in.mapKeys(o.under)
		if !ok {
			return nil, false
		}
		var out []*Node
		for _, k := range ks {
			e := eqN(k, o.key)
			if e != nTrue && e != nFalse {
				return nil, false
			}
			if e == nFalse {
				out = append(out, k)
			}
		}
		return out, true
	}
	return nil, false
}

// walkOrder is the order in which a walk over a map meets its keys: 0 as they
// were put, 1 the opposite, 2 and more: other permutations.
func (in *Interp) walkOrder(ks []*Node) []*Node {
	if in.mapOrder == 0 || len(ks) < 2 {
		return ks
	}
	out := append([]*Node{}, ks...)
	if in.mapOrder%2 == 1 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	r := in.mapOrder / 2 % len(out)
	return append(out[r:len(out):len(out)], out[:r]...)
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func packLeaf(n *Node) *Term {
	if n.leaf != nil {
		return n.leaf
	}
	return mkOp(fmt.Sprintf("choice#%d", n.id), 0)
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert, st *State) Value {
	v := asNode(fr.get(x.X))
	ts := typeStr(x.AssertedType)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	okN := apply1(v, func(t *Term) *Node {
		if t.k == KNil {
			return nFalse
		}
		if toIface {
			if t.k == KIface {
				return nTrue
			}
			return atomN(mkOp("is:"+ts, 1, t))
		}
		if t.k == KIface {
			return boolN(t.s == ts)
		}
		return atomN(mkOp("is:"+ts, 1, t))
	})
	var rec func(n *Node) Value
	rec = func(n *Node) Value {
		if n.leaf == nil {
			return mergeV(atomN(n.a), rec(n.hi), rec(n.lo))
		}
		t := n.leaf
		if toIface {
			return leafN(t)
		}
		if t.k == KIface && t.s == ts {
			return unpackT(t.args[0], x.AssertedType)
		}
		if t.k == KIface || t.k == KNil {
			return zeroVal(x.AssertedType)
		}
		return atomVal(mkOp("as:"+ts, 0, t), x.AssertedType)
	}
	val := rec(v)
	if x.CommaOk {
		return &Agg{F: []Value{mergeV(okN, val, zeroVal(x.AssertedType)), okN}}
	}
	if fr.in.panics {
		fr.panicIf(st, notN(okN), "type assertion", x)
	}
	return val
}

func (fr *Frame) unop(x *ssa.UnOp, st *State) {
	switch x.Op {
	case token.MUL:
		v := fr.load(st, asNode(fr.get(x.X)), x.Type())
		if x.CommaOk {
			panic(undecided("unop commaok"))
		}
		fr.env[x] = v
	case token.NOT:
		fr.env[x] = notN(asNode(fr.get(x.X)))
	case token.SUB:
		w, signed, ok := typeWidth(x.Type())
		fr.env[x] = apply1(asNode(fr.get(x.X)), func(t *Term) *Node {
			if !ok {
				return leafN(mkOp("fneg", 0, t))
			}
			return leafN(wrap(negT(asInt(t)), w, signed))
		})
	case token.XOR:
		w, signed, _ := typeWidth(x.Type())
		fr.env[x] = apply1(asNode(fr.get(x.X)), func(t *Term) *Node {
			return leafN(wrap(notT(asInt(t)), w, signed))
		})
	default:
		panic(undecided("unop " + x.Op.String()))
	}
}

func (in *Interp) binop(op token.Token, xv, yv Value, xt, yt, rt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		var r *Node
		if xa, ok := xv.(*Agg); ok {
			if ya, ok := yv.(*Agg); ok && len(xa.F) == len(ya.F) {
				r = nTrue
				for i := range xa.F {
					r = andN(r, eqN(packV(xa.F[i]), packV(ya.F[i])))
				}
			}
		}
		if r == nil {
			a, b := asNode(xv), asNode(yv)
			if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
				r = iteN(a, b, notN(b))
			} else if ok && bt.Info()&types.IsFloat != 0 {
				r = apply2(a, b, func(s, t *Term) *Node {
					if s.k == KFlt && t.k == KFlt {
						return boolN(s.s == t.s)
					}
					return atomN(mkOp("feq", 1, s, t))
				})
			} else {
				r = eqN(a, b)
			}
		}
		if op == token.NEQ {
			r = notN(r)
		}
		return r
	}
	a, b := asNode(xv), asNode(yv)
	bt, isB := xt.Underlying().(*types.Basic)
	if isB && bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return apply2(a, b, func(s, t *Term) *Node { return leafN(catT(s, t)) })
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.LEQ {
				a, b = b, a
			}
			r := apply2(a, b, func(s, t *Term) *Node {
				if s.k == KStr && t.k == KStr {
					return boolN(s.s < t.s)
				}
				return atomN(mkOp("strlt", 1, s, t))
			})
			if op == token.LEQ || op == token.GEQ {
				r = notN(r)
			}
			return r
		}
	}
	if isB && bt.Info()&(types.IsFloat|types.IsComplex) != 0 {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return apply2(a, b, func(s, t *Term) *Node { return atomN(mkOp("f"+op.String(), 1, s, t)) })
		}
		return apply2(a, b, func(s, t *Term) *Node { return leafN(mkOp("f"+op.String(), 0, s, t)) })
	}
	if isB && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return andN(a, b)
		case token.OR, token.LOR:
			return orN(a, b)
		}
	}
	w, signed, ok := typeWidth(xt)
	if !ok {
		panic(undecided("binop " + op.String() + " on " + xt.String()))
	}
	switch op {
	case token.LSS:
		return apply2(a, b, func(s, t *Term) *Node { return ltInt(asInt(s), asInt(t), signed) })
	case token.GTR:
		return apply2(a, b, func(s, t *Term) *Node { return ltInt(asInt(t), asInt(s), signed) })
	case token.LEQ:
		return notN(apply2(a, b, func(s, t *Term) *Node { return ltInt(asInt(t), asInt(s), signed) }))
	case token.GEQ:
		return notN(apply2(a, b, func(s, t *Term) *Node { return ltInt(asInt(s), asInt(t), signed) }))
	}
	f := func(s, t *Term) *Term {
		switch op {
		case token.ADD:
			return addT(s, t)
		case token.SUB:
			return subT(s, t)
		case token.MUL:
			return mulT(s, t)
		case token.AND:
			return bitwise("and", s, t)
		case token.OR:
			return bitwise("or", s, t)
		case token.XOR:
			return bitwise("xor", s, t)
		case token.AND_NOT:
			return bitwise("andnot", s, t)
		case token.SHL:
			if _, ok := isConst(t); !ok {
				return intOf(mkOp("shl", 64, s, t))
			}
			return shlT(s, t)
		case token.SHR:
			return shrT(s, t, signed && !nonNeg(s))
		case token.QUO, token.REM:
			if signed && !(nonNeg(s) && nonNeg(t)) {
				if x, ok := isConst(s); ok {
					if y, ok := isConst(t); ok && y != 0 {
						if op == token.QUO {
							return mkConst(uint64(int64(x) / int64(y)))
						}
						return mkConst(uint64(int64(x) % int64(y)))
					}
				}
				return intOf(mkOp("s"+op.String(), 64, s, t))
			}
			if op == token.QUO {
				return divT(s, t)
			}
			return modT(s, t)
		}
		panic(undecided("binop " + op.String()))
	}
	return apply2(a, b, func(s, t *Term) *Node { return leafN(wrap(f(asInt(s), asInt(t)), w, signed)) })
}

func (fr *Frame) convert(x *ssa.Convert, st *State) Value {
	v := fr.get(x.X)
	from, to := x.X.Type(), x.Type()
	fw, fs, fi := typeWidth(from)
	tw, ts, ti := typeWidth(to)
	_ = fw
	n := asNode(v)
	switch {
	case fi && ti:
		return apply1(n, func(t *Term) *Node { return leafN(wrap(asInt(t), tw, ts)) })
	case isString(to) && isByteSlice(from):
		return fr.bytesToString(n, st)
	case isByteSlice(to) && isString(from):
		return fr.stringToBytes(n, st, fr.allocName(x))
	case isString(to) && fi:
		return apply1(n, func(t *Term) *Node {
			if c, ok := isConst(t); ok && c < 128 {
				return leafN(mkStr(string(rune(c))))
			}
			return leafN(mkOp("runestr", 0, t))
		})
	case isString(to) && isString(from):
		return n
	case fi && isFloat(to):
		s := "u"
		if fs {
			s = "s"
		}
		return apply1(n, func(t *Term) *Node {
			if c, ok := isConst(t); ok {
				return leafN(mkFlt(fmt.Sprint(int64(c))))
			}
			return leafN(mkOp("tofloat:"+s+shortType(to), 0, t))
		})
	case isFloat(from):
		return apply1(n, func(t *Term) *Node {
			o := mkOp("fconv:"+shortType(from)+":"+shortType(to), tw, t)
			if ti {
				return leafN(intOf(o))
			}
			return leafN(o)
		})
	}
	return apply1(n, func(t *Term) *Node {
		if t.k == KSlice || t.k == KNil {
			return leafN(t)
		}
		return leafN(mkOp("conv:"+typeStr(to), 0, t))
	})
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var byteT = types.Typ[types.Uint8]

// bytesToString converts slice contents to a string value.
func (fr *Frame) bytesToString(n *Node, st *State) *Node {
	return apply1(n, func(t *Term) *Node { return bytesStr(st.mem, t) })
}

func bytesStr(m *Mem, t *Term) *Node {
	switch t.k {
	case KNil:
		return strN("")
	case KSlice:
		arr := arrOf(m, t.args[0], byteT)
		off, ln := t.args[1], t.args[2]
		if n, ok := isConst(ln); ok {
			if n == 0 {
				return strN("")
			}
			if o, ok := isConst(off); ok && n <= 20000 {
				// constant content
				var sb strings.Builder
				all := true
				for i := uint64(0); i < n && all; i++ {
					e, ok := readArr(arr, constN(o+i)).(*Node)
					if !ok {
						all = false
						break
					}
					c, ok := isConstN(e)
					if !ok {
						all = false
						break
					}
					sb.WriteByte(byte(c))
				}
				if all {
					return strN(sb.String())
				}
				if vecOnly(arr) && n <= 20000 {
					// the text of known unknowns
					var ps []*Term
					for i := uint64(0); i < n; i++ {
						e := asNode(readArr(arr, constN(o+i)))
						if e.leaf == nil {
							ps = nil
							break
						}
						if c, ok := isConst(e.leaf); ok {
							ps = append(ps, mkStr(string([]byte{byte(c)})))
						} else {
							ps = append(ps, mkOp("bytestr", 0, e.leaf))
						}
					}
					if ps != nil {
						return leafN(catT(ps...))
					}
				}
			}
		}
		if arr.k == aBase {
			// the bytes of a string converted back
			s := arr.src
			if s.k == KOp && s.s == "bytesof" {
				return leafN(substrT(s.args[0], off, addT(off, ln)))
			}
			return leafN(mkOp("bytes2str", 0, s, off, ln))
		}
		return leafN(mkOp("bytes2str", 0, packV(arr).leaf, off, ln))
	}
	return leafN(mkOp("bytes2str", 0, t))
}

func (fr *Frame) stringToBytes(n *Node, st *State, name string) *Node {
	return apply1(n, func(t *Term) *Node {
		if t.k == KOp && t.s == "bytes2str" && len(t.args) == 3 {
			return leafN(mkSlice(t.args[0], t.args[1], t.args[2], nil))
		}
		b := mkOp("bytesof", 0, t)
		return leafN(mkSlice(b, mkConst(0), lenT(st.mem, t), nil))
	})
}

// ---- calls ------------------------------------------------------------------------

func (fr *Frame) call(c *ssa.CallCommon, ins ssa.Instruction, st *State) Value {
	var args []Value
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	var fnV Value
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(c, ins, args, st)
	}
	if c.IsInvoke() || c.StaticCallee() == nil {
		fnV = fr.get(c.Value)
	} else if _, ok := c.Value.(*ssa.MakeClosure); ok {
		fnV = fr.get(c.Value)
	}
	return fr.callWith(c, ins, st, args, fnV)
}

func tuple(sig *types.Signature, rs []Value) Value {
	switch sig.Results().Len() {
	case 0:
		return nNil
	case 1:
		return rs[0]
	}
	return &Agg{F: rs, T: sig.Results()}
}

func (fr *Frame) callPath(ins ssa.Instruction) string {
	idx := 0
	for i, x := range ins.Block().Instrs {
		if x == ins {
			idx = i
		}
	}
	return fmt.Sprintf("%s/%d.%d%s", fr.path, ins.Block().Index, idx, fr.iter)
}

func (fr *Frame) callWith(c *ssa.CallCommon, ins ssa.Instruction, st *State, args []Value, fnV Value) Value {
	in := fr.in
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		_ = b
		return fr.builtin(c, ins, args, st)
	}
	sig := c.Signature()
	if c.IsInvoke() {
		recv := asNode(fnV)
		// resolve when the dynamic type is known on every leaf
		ls := leaves(recv)
		if len(ls) == 1 && ls[0].k == KIface {
			if typ, ok := ls[0].aux.(types.Type); ok {
				if m := in.L.Prog.LookupMethod(typ, c.Method.Pkg(), c.Method.Name()); m != nil {
					rv := unpackT(ls[0].args[0], typ)
					return fr.callFn(m, append([]Value{rv}, args...), nil, ins, st, sig)
				}
			}
		}
		full := append([]Value{recv}, args...)
		iname := "invoke:" + typeStr(c.Value.Type()) + "." + c.Method.Name()
		if p, ok := in.prims[iname]; ok {
			return p(&PrimCall{In: in, Args: full, St: st, Fr: fr, Instr: ins, Sig: sig, Name: iname})
		}
		if p, ok := models[iname]; ok {
			return p(&PrimCall{In: in, Args: full, St: st, Fr: fr, Instr: ins, Sig: sig, Name: iname})
		}
		return fr.external(iname, sig, full, ins, st, nil)
	}
	if f := c.StaticCallee(); f != nil {
		var binds []Value
		if fnV != nil {
			if n, ok := fnV.(*Node); ok && n.leaf != nil {
				binds = in.closures[n.leaf]
			}
		}
		return fr.callFn(f, args, binds, ins, st, sig)
	}
	n := asNode(fnV)
	ls := leaves(n)
	if len(ls) == 1 && ls[0].k == KFunc {
		if f, ok := ls[0].aux.(*ssa.Function); ok {
			return fr.callFn(f, args, in.closures[ls[0]], ins, st, sig)
		}
	}
	return fr.external("dynamic", sig, append([]Value{n}, args...), ins, st, nil)
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

func (fr *Frame) callFn(f *ssa.Function, args, binds []Value, ins ssa.Instruction, st *State, sig *types.Signature) Value {
	in := fr.in
	name := fnName(f)
	if p, ok := in.prims[name]; ok {
		return p(&PrimCall{In: in, Fn: f, Args: args, St: st, Fr: fr, Instr: ins, Sig: f.Signature, Name: name})
	}
	if p, ok := models[name]; ok {
		return p(&PrimCall{In: in, Fn: f, Args: args, St: st, Fr: fr, Instr: ins, Sig: f.Signature, Name: name})
	}
	if in.inInit && f.Name() == "init" {
		return nNil
	}
	if !in.inLogs && in.L.isRepo(f) && strings.HasSuffix(pkgOf(f), "/logs") && f.Signature.Results().Len() == 0 {
		in.event(&Event{Name: "logs." + f.Name(), Args: args, G: st.g, Mem: st.mem.snapshot(), Pos: ins.Pos(), Fn: fr.fn, Path: fr.path})
		if strings.HasPrefix(f.Name(), "Fatal") {
			st.g = nFalse // ends the process at every log level
		}
		return nNil
	}
	if in.L.inlinable(f) {
		rs := in.Call(f, args, binds, st, fr.callPath(ins), fr)
		return tuple(f.Signature, rs)
	}
	return fr.external(name, f.Signature, args, ins, st, f)
}

// pureExternal lists packages whose functions are functions of their arguments.
var pureExternal = map[string]bool{"strings": true, "strconv": true, "math": true, "math/bits": true, "unicode": true,
	"unicode/utf8": true, "errors": true, "encoding/hex": true, "bytes": true, "time": true, "path/filepath": true, "path": true, "sort": false}

func (fr *Frame) external(name string, sig *types.Signature, args []Value, ins ssa.Instruction, st *State, f *ssa.Function) Value {
	in := fr.in
	pure := false
	if f != nil && f.Pkg != nil {
		pure = pureExternal[f.Pkg.Pkg.Path()]
		if r := f.Signature.Recv(); r != nil {
			if p, ok := r.Type().(*types.Pointer); ok {
				if isBuffer(p.Elem()) {
					panic(undecided(name + " is not modelled"))
				}
				// what a pointer leads to may change, unless it never does
				pure = pure && strings.HasPrefix(name, "(*strings.Replacer).")
			}
		}
	}
	if strings.HasPrefix(name, "invoke:") && (strings.HasSuffix(name, ".Error") || strings.HasSuffix(name, ".String")) {
		pure = true
	}
	var ns []*Node
	for _, a := range args {
		ns = append(ns, contentPack(st.mem, a))
	}
	mem0 := st.mem.snapshot()
	var res Value
	if pure {
		n := applyN(ns, func(ts []*Term) *Node { return leafN(mkOp("call:"+name, 0, ts...)) })
		res = in.resultOf(n, sig)
	} else {
		op := mkOp(fmt.Sprintf("call:%s@%s", name, fr.callPath(ins)), 0)
		if len(in.loopStk) > 0 {
			op = mkOp(op.s, 0, in.loopStk[len(in.loopStk)-1].kappa)
		}
		res = in.resultOf(leafN(op), sig)
		// memory reachable through arguments may change
		for i, a := range args {
			fr.havocArg(a, i, name, op, st)
		}
	}
	in.event(&Event{Name: name, Args: args, Res: res, G: st.g, Mem: mem0, Pos: ins.Pos(), Fn: fr.fn, Path: fr.path})
	for i, a := range ns {
		if a.leaf != nil && (a.leaf.k == KIface || isFile(sig, i)) && strings.Contains(a.leaf.String(), "os.Stdout") {
			in.event(&Event{Name: "write", Args: args, Res: res, G: st.g, Mem: mem0, Pos: ins.Pos(), Fn: fr.fn, Path: fr.path})
			break
		}
	}
	return res
}

// contentPack identifies a slice argument by its content.
func contentPack(m *Mem, a Value) *Node {
	n := packV(a)
	return apply1(n, func(t *Term) *Node {
		if t.k == KSlice {
			if arr := safeArr(m, t.args[0]); arr != nil && arr.k != aBase {
				return leafN(mkOp("slicecontent", 0, packV(arr).leaf, t.args[1], t.args[2]))
			}
		}
		return leafN(t)
	})
}

func safeArr(m *Mem, base *Term) *Arr {
	root, path := decompose(base)
	if v, ok := m.look(root); ok && len(path) == 0 {
		if a, ok := v.(*Arr); ok {
			return a
		}
	}
	return nil
}

func (in *Interp) resultOf(n *Node, sig *types.Signature) Value {
	mk := func(t types.Type, i int) Value {
		var rec func(n *Node) Value
		rec = func(n *Node) Value {
			if n.leaf == nil {
				return mergeV(atomN(n.a), rec(n.hi), rec(n.lo))
			}
			a := n.leaf
			if sig.Results().Len() > 1 {
				a = mkOp(fmt.Sprintf("res:%d", i), 0, a)
			}
			return atomVal(a, t)
		}
		return rec(n)
	}
	switch sig.Results().Len() {
	case 0:
		return nNil
	case 1:
		return mk(sig.Results().At(0).Type(), 0)
	}
	ag := &Agg{T: sig.Results()}
	for i := 0; i < sig.Results().Len(); i++ {
		ag.F = append(ag.F, mk(sig.Results().At(i).Type(), i))
	}
	return ag
}

func (fr *Frame) havocArg(a Value, i int, name string, op *Term, st *State) {
	n, ok := a.(*Node)
	if !ok {
		return
	}
	for _, t := range leaves(n) {
		fr.havocReach(t, i, op, st, 0)
	}
}

func (fr *Frame) havocReach(t *Term, i int, op *Term, st *State, depth int) {
	if depth > 3 {
		return
	}
	switch t.k {
	case KIface:
		fr.havocReach(t.args[0], i, op, st, depth+1)
	case KSlice:
		if arr := safeArr(st.mem, t.args[0]); arr != nil {
			st.mem = st.mem.own()
			st.mem.set(t.args[0], &Arr{k: aBase, elem: arr.elem, src: mkOp(fmt.Sprintf("out:%d", i), 0, op)})
		}
	case KAlloc:
		if v, ok := st.mem.look(t); ok {
			if _, isMap := v.(*MapObj); isMap {
				return
			}
			st.mem = st.mem.own()
			if ct, ok := cellType[t]; ok {
				st.mem.set(t, atomVal(mkOp(fmt.Sprintf("out:%d", i), 0, op), ct))
			}
		}
	}
}

// ---- builtins ----------------------------------------------------------------------

func (fr *Frame) builtin(c *ssa.CallCommon, ins ssa.Instruction, args []Value, st *State) Value {
	name := c.Value.(*ssa.Builtin).Name()
	switch name {
	case "len", "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m := asNode(args[0])
			return apply1(m, func(t *Term) *Node {
				if o, ok := st.mem.get(t).(*MapObj); ok && o.k == mEmpty {
					return constN(0)
				} else if ok {
					if ks, known := fr.in.mapKeys(o); known {
						return constN(uint64(len(ks)))
					}
					packSeq++
					return leafN(intOf(mkOp("maplen", 48, t, mkConst(uint64(packSeq)))))
				}
				return leafN(intOf(mkOp("maplen", 48, t)))
			})
		}
		if a, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
			return constN(uint64(a.Len()))
		}
		return apply1(asNode(args[0]), func(t *Term) *Node {
			if name == "cap" && t.k == KSlice {
				return leafN(sliceCap(t))
			}
			return leafN(lenT(st.mem, t))
		})
	case "append":
		return fr.appendB(c, ins, args, st)
	case "copy":
		return fr.copyB(c, ins, args, st)
	case "recover":
		if fr.in.panics {
			if fr.parent == nil || !fr.parent.panicking {
				return nNil
			}
			fr.in.recovered = orN(fr.in.recovered, st.g)
		}
		return fr.in.recoverV
	case "print", "println":
		fr.in.event(&Event{Name: "builtin." + name, Args: args, G: st.g, Mem: st.mem.snapshot(), Pos: ins.Pos(), Fn: fr.fn, Path: fr.path})
		return nNil
	case "ssa:wrapnilchk":
		return args[0]
	case "delete":
		m := asNode(args[0])
		key := packV(args[1])
		mt := c.Args[0].Type().Underlying().(*types.Map)
		st.mem = st.mem.own()
		for _, l := range leaves(m) {
			old := mapObj(st.mem, l, mt)
			nw := &MapObj{k: mDel, typ: mt, under: old, key: key}
			st.mem.set(l, mergeV(leafIs(m, l), nw, old))
		}
		return nNil
	case "min", "max":
		w, signed, ok := typeWidth(c.Args[0].Type())
		_ = w
		if ok {
			r := asNode(args[0])
			for _, a := range args[1:] {
				b := asNode(a)
				lt := apply2(b, r, func(s, t *Term) *Node { return ltInt(asInt(s), asInt(t), signed) })
				if name == "max" {
					lt = apply2(r, b, func(s, t *Term) *Node { return ltInt(asInt(s), asInt(t), signed) })
				}
				r = iteN(lt, b, r)
			}
			return r
		}
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			st.mem = st.mem.own()
			for _, l := range leaves(asNode(args[0])) {
				st.mem.set(l, &MapObj{k: mEmpty, typ: mt})
			}
			return nNil
		}
	}
	panic(undecided("builtin " + name))
}

func isStrTerm(t *Term) bool {
	return t.k == KStr || t.k == KCat
}

// sliceArr views a slice term as (array, offset, length).
func sliceArr(m *Mem, t *Term, elem types.Type) (*Arr, *Term, *Term) {
	switch t.k {
	case KNil:
		return &Arr{k: aZero, elem: elem}, mkConst(0), mkConst(0)
	case KSlice:
		return arrOf(m, t.args[0], elem), t.args[1], t.args[2]
	}
	return &Arr{k: aBase, elem: elem, src: t}, mkConst(0), lenT(m, t)
}

func (fr *Frame) appendB(c *ssa.CallCommon, ins ssa.Instruction, args []Value, st *State) Value {
	s := asNode(args[0])
	st0, ok := c.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		panic(undecided("append"))
	}
	elem := st0.Elem()
	if len(args) == 1 {
		return s
	}
	x := asNode(args[1])
	strArg := isString(c.Args[1].Type())
	if strArg {
		x = fr.stringToBytes(x, st, "")
	}
	name := fmt.Sprintf("%s.append%s", fr.callPath(ins), "")
	mem0 := st.mem.snapshot()
	type alt struct {
		s, x *Term
		r    *Term
		inpl *Node
	}
	var alts []alt
	seq := 0
	newRoots := map[*Term]Value{}
	res := apply2(s, x, func(a, b *Term) *Node {
		_, _, bn := sliceArr(mem0, b, elem)
		if n, ok := isConst(bn); ok && n == 0 {
			return leafN(a)
		}
		aa, ao, an := sliceArr(mem0, a, elem)
		ba, bo, _ := sliceArr(mem0, b, elem)
		seq++
		root := newAlloc(fmt.Sprintf("%s#%d", name, seq))
		under := aa
		if c, ok := isConst(ao); !ok || c != 0 {
			under = &Arr{k: aShift, elem: elem, under: aa, idx: leafN(ao)}
		}
		content := appendSeg(under, an, ba, bo, bn, elem)
		newRoots[root] = content
		cellType[root] = types.NewArray(elem, 0)
		r := mkSlice(root, mkConst(0), addT(an, bn), nil)
		// a prefix of a longer array is extended in place
		inpl := nFalse
		if a.k == KSlice && len(a.args) == 4 {
			inpl = notN(ltInt(sliceCap(a), addT(an, bn), true))
		}
		if inpl == nFalse {
			return leafN(r)
		}
		r2 := mkSlice(a.args[0], ao, addT(an, bn), sliceCap(a))
		alts = append(alts, alt{a, b, r2, inpl})
		return iteN(inpl, leafN(r2), leafN(r))
	})
	st.mem = st.mem.own()
	for k, v := range newRoots {
		st.mem.set(k, v)
	}
	for _, al := range alts {
		cond := andN(andN(leafIs(s, al.s), leafIs(x, al.x)), al.inpl)
		ba, bo, bn := sliceArr(mem0, al.x, elem)
		old := arrOf(mem0, al.s.args[0], elem)
		nw := appendSeg(old, addT(al.s.args[1], al.s.args[2]), ba, bo, bn, elem)
		root, path := decompose(al.s.args[0])
		if len(path) != 0 {
			panic(undecided("append in place to embedded array"))
		}
		st.mem.set(root, mergeV(restrictN(cond, st.g), nw, old))
		cellType[root] = types.NewArray(elem, 0)
	}
	return res
}

func appendSeg(under *Arr, at *Term, ba *Arr, bo, bn *Term, elem types.Type) *Arr {
	if n, ok := isConst(bn); ok && n <= 64 {
		r := under
		for i := uint64(0); i < n; i++ {
			r = &Arr{k: aWrite, elem: elem, under: r, idx: leafN(addT(at, mkConst(i))), val: readArr(ba, leafN(addT(bo, mkConst(i))))}
		}
		return r
	}
	return &Arr{k: aSeg, elem: elem, under: under, idx: leafN(at), n: leafN(bn), seg: ba, off: leafN(bo)}
}

func (fr *Frame) copyB(c *ssa.CallCommon, ins ssa.Instruction, args []Value, st *State) Value {
	d := asNode(args[0])
	s := asNode(args[1])
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isString(c.Args[1].Type()) {
		s = fr.stringToBytes(s, st, "")
	}
	mem0 := st.mem.snapshot()
	st.mem = st.mem.own()
	var n *Node
	for _, dl := range leaves(d) {
		for _, sl := range leaves(s) {
			cond := andN(leafIs(d, dl), leafIs(s, sl))
			if cond == nFalse || dl.k != KSlice {
				continue
			}
			sa, so, sn := sliceArr(mem0, sl, elem)
			_, do, dn := sliceArr(mem0, dl, elem)
			cnt := iteN(ltInt(sn, dn, true), leafN(sn), leafN(dn))
			if n == nil {
				n = cnt
			} else {
				n = iteN(cond, cnt, n)
			}
			old := arrOf(mem0, dl.args[0], elem)
			var nw *Arr
			if k, ok := isConstN(cnt); ok && k <= 64 {
				nw = appendSeg(old, do, sa, so, mkConst(k), elem)
			} else {
				nw = &Arr{k: aSeg, elem: elem, under: old, idx: leafN(do), n: cnt, seg: sa, off: leafN(so)}
			}
			root, path := decompose(dl.args[0])
			if len(path) != 0 {
				storeAddr(st.mem, dl.args[0], nw)
				continue
			}
			st.mem.set(root, mergeV(restrictN(cond, st.g), nw, old))
			cellType[root] = types.NewArray(elem, 0)
		}
	}
	if n == nil {
		n = constN(0)
	}
	return n
}

// sortedKeys is a deterministic iteration helper.
func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// vecOnly says that every element of an array is known one by one.
func vecOnly(a *Arr) bool {
	for a != nil {
		switch a.k {
		case aVec, aWrite, aShift:
			a = a.under
		case aZero:
			return true
		default:
			return false
		}
	}
	return false
}
