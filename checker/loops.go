package main

// Loop structure and loop summaries.  A loop is either run abstractly iteration
// by iteration while its header test is decided by constants, or summarised by
// one generic iteration: everything the body may change is given a symbol for
// its value at the start of iteration κ (found as a fixpoint of "what does the
// body change"), counters become closed forms in κ.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	liveO  []ssa.Value // values defined inside and used outside
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	loopOf map[*ssa.BasicBlock]*loopInfo
	loops  []*loopInfo
	irred  bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{loopOf: map[*ssa.BasicBlock]*loopInfo{}}
	fnInfos[fn] = fi
	// reverse post order ignoring back edges; retreating non-back edges mean irreducible
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	heads := map[*ssa.BasicBlock]*loopInfo{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := heads[s]
				if lp == nil {
					lp = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					heads[s] = lp
					fi.loops = append(fi.loops, lp)
				}
				// natural loop body
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if lp.blocks[x] {
						continue
					}
					lp.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
				continue
			}
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				fi.irred = true
			}
		}
		state[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	// innermost loop per block
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].blocks) > len(fi.loops[j].blocks) })
	for _, lp := range fi.loops {
		if p := fi.loopOf[lp.header]; p != nil {
			lp.parent = p
		}
		for b := range lp.blocks {
			fi.loopOf[b] = lp
		}
	}
	for _, lp := range fi.loops {
		for _, b := range fn.Blocks {
			if !lp.blocks[b] {
				continue
			}
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if r.Block() != nil && !lp.blocks[r.Block()] {
						lp.liveO = append(lp.liveO, v)
						break
					}
				}
			}
		}
	}
	return fi
}

type carried struct {
	name   string
	phi    int   // header phi index, or -1
	cell   *Term // root cell, for memory
	path   []int // field path inside the cell
	typ    types.Type
	init   Value
	head   Value
	next   Value
	step   *Term
	linear bool
	sym    *Term
}

type Loop struct {
	path    string
	fn      *ssa.Function
	li      *loopInfo
	parent  *Loop
	kappa   *Term
	carried []*carried
	g0      *Node
	contG   *Node // guard of the back edges, over head values
	headG   *Node // guard at the header
	exits   []edge
	backMem *Mem
	headMem *Mem
	evFrom  int
	evTo    int
	closed  bool // exit count known
	count   *Term
}

func (in *Interp) curLoop() *Loop {
	if len(in.loopStk) == 0 {
		return nil
	}
	return in.loopStk[len(in.loopStk)-1]
}

type notConcrete struct{}

func (fr *Frame) execLoop(il *loopInfo, es []edge) []edge {
	if fr.info.irred {
		panic(undecided("irreducible control flow in " + fr.fn.String()))
	}
	st0, phis0 := fr.join(il.header, es)
	if ex, ok := fr.unroll(il, st0, phis0); ok {
		return ex
	}
	return fr.summarise(il, st0, phis0)
}

func headEdge(il *loopInfo, g *Node, mem *Mem, phis []Value) edge {
	return edge{from: nil, to: il.header, g: g, mem: mem, phis: phis}
}

func (fr *Frame) captureLive(il *loopInfo, exits []edge) {
	for i := range exits {
		if exits[i].live == nil {
			exits[i].live = map[ssa.Value]Value{}
		} else {
			m := map[ssa.Value]Value{}
			for k, v := range exits[i].live {
				m[k] = v
			}
			exits[i].live = m
		}
		for _, v := range il.liveO {
			if _, ok := exits[i].live[v]; ok {
				continue
			}
			if x, ok := fr.env[v]; ok {
				exits[i].live[v] = x
			}
		}
	}
}

const unrollLimit = 300

// walks tells that a loop takes the next entry of a map or character of a
// string in each turn, which comes to an end.
func walks(il *loopInfo) bool {
	for _, ins := range il.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			r, ok := n.Iter.(*ssa.Range)
			return ok && !il.blocks[r.Block()]
		}
	}
	return false
}

// unroll follows the loop while every continuation is decided.
func (fr *Frame) unroll(il *loopInfo, st0 *State, phis0 []Value) (out []edge, ok bool) {
	in := fr.in
	ev, lps, nts := len(in.events), len(in.loops), len(in.notes)
	rets, pans := len(fr.rets), len(fr.panics)
	iter0 := fr.iter
	fail := func() ([]edge, bool) {
		in.events, in.loops, in.notes = in.events[:ev], in.loops[:lps], in.notes[:nts]
		fr.rets, fr.panics = fr.rets[:rets], fr.panics[:pans]
		fr.iter = iter0
		return nil, false
	}
	defer func() { fr.iter = iter0 }()
	st0.mem.shared = true
	cur := headEdge(il, st0.g, st0.mem, phis0)
	_, headerIf := il.header.Instrs[len(il.header.Instrs)-1].(*ssa.If)
	headerExits := false
	if headerIf {
		for _, s := range il.header.Succs {
			if !il.blocks[s] {
				headerExits = true
			}
		}
	}
	// decide cheaply whether the first header test is constant
	limit := unrollLimit
	if in.unrollMax > limit {
		limit = in.unrollMax
	}
	var turns []turn
	for i := 0; i < limit; i++ {
		fr.iter = fmt.Sprintf("%s~%d", iter0, i)
		if in.findEndless && in.forceUnroll && !walks(il) {
			t := turn{cur.g, cur.phis, cur.mem.snapshot()}
			if k := in.repeats(il, turns, t); k >= 0 {
				in.endless = append(in.endless, endlessLoop{g: cur.g, where: in.L.where(fr.fn, headerPos(il)), turns: i})
				return out, true
			}
			turns = append(turns, t)
		}
		if headerExits {
			c, known := fr.peekHeader(il, cur)
			if known && !c && !in.forceUnroll {
				return fail()
			}
		}
		exits, back := fr.region(il, []edge{cur})
		if headerExits {
			c := fr.condAt[il.header]
			if (c == nil || c.leaf == nil) && !in.forceUnroll {
				return fail()
			}
		}
		fr.captureLive(il, exits)
		out = append(out, exits...)
		if len(back) == 0 {
			return out, true
		}
		st, phis := fr.join(il.header, back)
		if in.forceUnroll {
			st.g = pruneG(st.g)
			if st.g == nFalse {
				return out, true
			}
			if len(out) > 4000 {
				return fail()
			}
		} else {
			if !headerExits && len(exits) > 0 && i > 0 {
				return fail()
			}
			if !headerExits && st.g != cur.g && len(exits) > 0 {
				return fail()
			}
		}
		st.mem.shared = true
		cur = headEdge(il, st.g, st.mem, phis)
	}
	return fail()
}

// peekHeader evaluates the header block alone when it has no side effects and
// reports whether its test is decided.
func (fr *Frame) peekHeader(il *loopInfo, e edge) (decided, known bool) {
	for _, ins := range il.header.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef, *ssa.BinOp, *ssa.Convert, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Extract, *ssa.ChangeType, *ssa.Field:
		case *ssa.Next:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false, false
			}
		default:
			return false, false
		}
	}
	if fr.in.onAccess != nil {
		return false, false
	}
	st := &State{g: e.g, mem: e.mem}
	fr.condAt[il.header] = nil
	fr.block(il.header, st, e.phis)
	c := fr.condAt[il.header]
	return c != nil && c.leaf != nil, true
}

func (fr *Frame) summarise(il *loopInfo, st0 *State, phis0 []Value) []edge {
	in := fr.in
	path := fmt.Sprintf("%s^%d%s", fr.path, il.header.Index, fr.iter)
	lp := &Loop{path: path, fn: fr.fn, li: il, parent: in.curLoop(), g0: st0.g}
	lp.kappa = mkSym("κ:"+path, 48)
	in.loopStk = append(in.loopStk, lp)
	defer func() { in.loopStk = in.loopStk[:len(in.loopStk)-1] }()
	iter0 := fr.iter
	fr.iter = iter0 + "~k"
	defer func() { fr.iter = iter0 }()

	ev, lps, rets := len(in.events), len(in.loops), len(fr.rets)
	st0.mem.shared = true
	items := map[string]*carried{}
	var order []string
	var phiTypes []types.Type
	var phiNames []string
	for _, ins := range il.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phiTypes = append(phiTypes, p.Type())
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		phiNames = append(phiNames, n)
	}
	for round := 0; ; round++ {
		if round > 14 {
			panic(undecided("loop summary does not settle in " + fr.fn.String()))
		}
		in.events, in.loops = in.events[:ev], in.loops[:lps]
		fr.rets = fr.rets[:rets]
		// header state
		phis := append([]Value(nil), phis0...)
		mem := newMem()
		for k, v := range st0.mem.all() {
			mem.set(k, v)
		}
		for _, k := range order {
			c := items[k]
			if c.phi >= 0 {
				phis[c.phi] = c.head
			} else {
				mem.set(c.cell, setPath(mem.get(c.cell), c.cell, c.path, c.head))
			}
		}
		mem.shared = true
		lp.headMem = mem
		if in.loopHead != nil {
			in.loopHead(lp, fr, mem, phis)
		}
		exits, back := fr.region(il, []edge{headEdge(il, st0.g, mem, phis)})
		fr.captureLive(il, exits)
		lp.headG = st0.g
		if len(back) == 0 {
			// at most one pass
			return exits
		}
		bst, bphis := fr.join(il.header, back)
		lp.contG = bst.g
		lp.exits = exits
		lp.backMem = bst.mem
		changed := false
		add := func(c *carried) {
			key := fmt.Sprintf("%d|%p|%v", c.phi, c.cell, c.path)
			if _, ok := items[key]; ok {
				return
			}
			// a coarser item replaces finer ones
			c.sym = mkSym(fmt.Sprintf("λ:%s:%s", path, c.name), 0)
			c.head = lambdaVal(c.sym, c.typ, c.init)
			items[key] = c
			order = append(order, key)
			changed = true
		}
		for i := range bphis {
			key := fmt.Sprintf("%d|%p|%v", i, (*Term)(nil), []int(nil))
			nx := restrictV(bphis[i], bst.g)
			if c, ok := items[key]; ok {
				c.next = nx
				continue
			}
			if !sameV(restrictV(phis[i], bst.g), nx) {
				add(&carried{name: "phi." + phiNames[i], phi: i, typ: phiTypes[i], init: phis0[i]})
			}
		}
		if diffMem(path, mem, bst.mem, st0.mem, bst.g, items, &order) {
			changed = true
		}
		if changed {
			continue
		}
		// closed forms for counters
		for _, key := range order {
			c := items[key]
			if c.linear || c.step == nil && c.sym == nil {
				continue
			}
			h, ok1 := c.head.(*Node)
			n, ok2 := c.next.(*Node)
			i, ok3 := c.init.(*Node)
			if !ok1 || !ok2 || !ok3 || h.leaf == nil || n.leaf == nil || i.leaf == nil || h.leaf.k != KInt || n.leaf.k != KInt {
				continue
			}
			d, isC := isConst(subT(n.leaf, h.leaf))
			if !isC {
				// 64 bit only: narrower counters wrap
				continue
			}
			if w, _, ok := typeWidth(c.typ); ok && w < 64 {
				continue
			}
			c.linear = true
			c.step = mkConst(d)
			c.head = leafN(addT(asInt(i.leaf), scaleT(intOf(lp.kappa), d)))
			changed = true
		}
		if changed {
			for _, key := range order {
				items[key].next = items[key].head
			}
			continue
		}
		break
	}
	for _, k := range order {
		lp.carried = append(lp.carried, items[k])
	}
	lp.evFrom, lp.evTo = ev, len(in.events)
	in.loops = append(in.loops, lp)
	return fr.closeExits(lp)
}

// closeExits restricts exit guards by the fact that the loop is left, and
// replaces κ by the iteration count on a header exit of a counted loop.
func (fr *Frame) closeExits(lp *Loop) []edge {
	il := lp.li
	exits := lp.exits
	total := nFalse
	for _, e := range exits {
		total = orN(total, e.g)
	}
	c := fr.condAt[il.header]
	n := loopBound(lp, c, il)
	var out []edge
	for _, e := range exits {
		if n != nil && e.from == il.header {
			lp.closed, lp.count = true, n
			sub := map[*Term]*Term{lp.kappa: n}
			if len(exits) == 1 {
				e.g = lp.g0
			} else {
				// reached only when no earlier exit was taken
				e.g = substN(restrictN(e.g, total), sub)
				if e.g == nTrue {
					e.g = lp.g0
				} else {
					e.g = andN(e.g, lp.g0)
				}
			}
			e.mem = substMem(e.mem, sub)
			for i := range e.phis {
				e.phis[i] = substV(e.phis[i], sub)
			}
			for v, x := range e.live {
				e.live[v] = substV(x, sub)
			}
		} else {
			e.g = andN(restrictN(e.g, total), lp.g0)
		}
		out = append(out, e)
	}
	return out
}

// loopBound recognises a header test κ < n, n not negative.
func loopBound(lp *Loop, c *Node, il *loopInfo) *Term {
	if c == nil || c.leaf != nil {
		return nil
	}
	// which successor stays inside
	stay := c
	if !il.blocks[il.header.Succs[0]] {
		stay = notN(c)
	}
	var n *Term
	// try: the test is a single comparison of κ with something free of κ
	if stay.leaf != nil || stay.hi.leaf == nil || stay.lo.leaf == nil {
		return nil
	}
	a := stay.a
	pos := stay.hi == nTrue
	if a.k != KOp || len(a.args) != 2 {
		return nil
	}
	var l *Term
	switch a.s {
	case "ltc": // e < c, e = kκ + rest
		l = subT(a.args[0], a.args[1]) // l < 0
		if !pos {
			// e >= c <=> -e + c - 1 < 0
			l = addT(negT(l), mkConst(^uint64(0)))
		}
		for _, m := range l.ms {
			if m.A == lp.kappa && m.C == 1 {
				n = negT(subT(l, intOf(lp.kappa)))
			}
		}
	case "eqc":
		l = subT(a.args[0], a.args[1])
		if pos {
			return nil
		}
		for _, m := range l.ms {
			if m.A == lp.kappa && m.C == 1 {
				n = negT(subT(l, intOf(lp.kappa)))
			} else if m.A == lp.kappa && int64(m.C) == -1 {
				n = addT(l, intOf(lp.kappa))
			}
		}
	}
	if n == nil {
		return nil
	}
	if mentions(n, lp.kappa) {
		return nil
	}
	for _, c := range lp.carried {
		if !c.linear && c.sym != nil && mentions(n, c.sym) {
			return nil
		}
	}
	lo, _ := exactRange(n)
	if lo.Sign() < 0 {
		return nil
	}
	return n
}

func mentions(t, s *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == s {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.ms {
			if rec(m.A) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func lambdaVal(sym *Term, t types.Type, init Value) Value {
	if t == nil {
		switch x := init.(type) {
		case *Node:
			ls := leaves(x)
			for _, l := range ls {
				if l.k == KInt {
					return leafN(intOf(mkOp("of", 64, sym)))
				}
				if l.k == KBool {
					return atomN(mkOp("of", 1, sym))
				}
			}
			return leafN(sym)
		case *Arr:
			return &Arr{k: aBase, elem: x.elem, src: sym}
		case *MapObj:
			return &MapObj{k: mBase, typ: x.typ, src: sym}
		case *Agg:
			return atomVal(sym, x.T)
		}
		return leafN(sym)
	}
	if x, ok := init.(*Arr); ok {
		return &Arr{k: aBase, elem: x.elem, src: sym}
	}
	if x, ok := init.(*MapObj); ok {
		return &MapObj{k: mBase, typ: x.typ, src: sym}
	}
	return atomVal(mkOp("of", 0, sym), t)
}

// diffCell reports the sub-cells in which h and n differ.
func diffCell(h, n Value, root, at *Term, path []int, t types.Type, g *Node, f func(at *Term, p []int, t types.Type, h, n Value)) {
	if h == n || h != nil && n != nil && sameV(h, n) {
		return
	}
	switch x := n.(type) {
	case *Agg:
		y, ok := h.(*Agg)
		if ok {
			st, _ := x.T.Underlying().(*types.Struct)
			for i := range x.F {
				var ft types.Type
				name := fmt.Sprint(i)
				if st != nil {
					ft = st.Field(i).Type()
					name = st.Field(i).Name()
				}
				diffCell(y.F[i], x.F[i], root, fldAddr(at, i, name), append(path[:len(path):len(path)], i), ft, g, f)
			}
			return
		}
	case *partial:
		y, ok := h.(*partial)
		if ok {
			var is []int
			for i := range x.f {
				is = append(is, i)
			}
			sort.Ints(is)
			for _, i := range is {
				fa := fldAddr(at, i, x.n[i])
				hv, ok := y.f[i]
				if !ok {
					hv = initialLikeT(x.f[i], fa)
				}
				diffCell(hv, x.f[i], root, fa, append(path[:len(path):len(path)], i), cellType[fa], g, f)
			}
			return
		}
	case *Node:
		if y, ok := h.(*Node); ok {
			if restrictN(y, g) == restrictN(x, g) {
				return
			}
		}
	}
	f(at, path, t, h, n)
}

func initialLikeT(v Value, at *Term) Value {
	if p, ok := v.(*partial); ok {
		_ = p
		return &partial{f: map[int]Value{}, n: map[int]string{}}
	}
	if t, ok := cellType[at]; ok {
		return loadVal(at, t)
	}
	return initialLike(v, at)
}

func setPath(v Value, at *Term, p []int, nv Value) Value {
	if len(p) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *Agg:
		n := &Agg{T: x.T, F: append([]Value(nil), x.F...)}
		n.F[p[0]] = setPath(x.F[p[0]], at, p[1:], nv)
		return n
	case *partial:
		n := &partial{f: map[int]Value{}, n: map[int]string{}}
		for k, f := range x.f {
			n.f[k], n.n[k] = f, x.n[k]
		}
		n.f[p[0]] = setPath(x.f[p[0]], at, p[1:], nv)
		return n
	case nil:
		n := &partial{f: map[int]Value{}, n: map[int]string{}}
		n.f[p[0]] = setPath(nil, at, p[1:], nv)
		return n
	}
	panic(undecided("setPath"))
}

func getPath(v Value, at *Term, p []int, t types.Type) Value {
	if len(p) == 0 {
		if v == nil && t != nil {
			return loadVal(at, t)
		}
		return v
	}
	switch x := v.(type) {
	case *Agg:
		return getPath(x.F[p[0]], at, p[1:], t)
	case *partial:
		nat := fldAddr(at, p[0], x.n[p[0]])
		if f, ok := x.f[p[0]]; ok {
			return getPath(f, nat, p[1:], t)
		}
		return getPath(nil, nat, p[1:], t)
	}
	if t != nil {
		return loadVal(at, t)
	}
	return nil
}

func substV(v Value, sub map[*Term]*Term) Value {
	switch x := v.(type) {
	case *Node:
		return substN(x, sub)
	case *Agg:
		n := &Agg{T: x.T, F: make([]Value, len(x.F))}
		for i := range x.F {
			n.F[i] = substV(x.F[i], sub)
		}
		return n
	case *Arr:
		n := *x
		if x.under != nil {
			n.under = substV(x.under, sub).(*Arr)
		}
		if x.other != nil {
			n.other = substV(x.other, sub).(*Arr)
		}
		if x.seg != nil {
			n.seg = substV(x.seg, sub).(*Arr)
		}
		for _, p := range []**Node{&n.idx, &n.n, &n.off, &n.g} {
			if *p != nil {
				*p = substN(*p, sub)
			}
		}
		if x.val != nil {
			n.val = substV(x.val, sub)
		}
		if x.src != nil {
			n.src = substT1(x.src, sub)
		}
		if sameV(&n, x) {
			return x
		}
		return &n
	case *MapObj:
		n := *x
		if x.under != nil {
			n.under = substV(x.under, sub).(*MapObj)
		}
		if x.other != nil {
			n.other = substV(x.other, sub).(*MapObj)
		}
		for _, p := range []**Node{&n.key, &n.g} {
			if *p != nil {
				*p = substN(*p, sub)
			}
		}
		if x.val != nil {
			n.val = substV(x.val, sub)
		}
		if x.src != nil {
			n.src = substT1(x.src, sub)
		}
		if sameV(&n, x) {
			return x
		}
		return &n
	case *partial:
		n := &partial{f: map[int]Value{}, n: x.n}
		for k, f := range x.f {
			n.f[k] = substV(f, sub)
		}
		return n
	}
	return v
}

func substT1(t *Term, sub map[*Term]*Term) *Term { return substT(t, sub) }

func substMem(m *Mem, sub map[*Term]*Term) *Mem {
	n := newMem()
	for k, v := range m.all() {
		n.set(k, substV(v, sub))
	}
	return n
}

// diffMem compares the memory before and after an iteration; cells that changed
// become items of the loop.
func diffMem(path string, mem, after, before *Mem, g *Node, items map[string]*carried, order *[]string) bool {
	changed := false
	var ks []*Term
	for k := range after.all() {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		nv := after.get(k)
		hv, ok := mem.look(k)
		if !ok {
			if k.k == KAlloc {
				continue // allocated by the iteration
			}
			if _, isP := nv.(*partial); isP {
				hv = &partial{f: map[int]Value{}, n: map[int]string{}}
			} else {
				hv = initialLike(nv, k)
			}
		} else if sameV(hv, nv) {
			continue
		}
		diffCell(hv, nv, k, k, nil, cellType[k], g, func(at *Term, p []int, t types.Type, h, n Value) {
			key := fmt.Sprintf("%d|%p|%v", -1, k, p)
			if c, ok := items[key]; ok {
				c.next = n
				return
			}
			iv := getPath(before.get(k), k, p, t)
			c := &carried{name: "mem." + at.String(), phi: -1, cell: k, path: append([]int(nil), p...), typ: t, init: iv}
			c.sym = mkSym(fmt.Sprintf("λ:%s:%s", path, c.name), 0)
			if iv == nil {
				iv = h
			}
			c.head = lambdaVal(c.sym, c.typ, iv)
			items[key] = c
			*order = append(*order, key)
			changed = true
		})
	}
	return changed
}
