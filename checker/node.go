package main

// Decision nodes: a value that depends on conditions is a shared, ordered
// decision diagram whose inner nodes test condition atoms (terms of boolean
// sort) and whose leaves are terms.  A boolean is a diagram with the leaves
// true and false.  Diagrams are hash-consed, so equal functions of the same
// atoms are the same pointer; correlations between atoms are handled by the
// theory in theory.go.

import (
	"fmt"
	"math/big"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type Node struct {
	id     int
	a      *Term
	hi, lo *Node
	leaf   *Term
}

type nodeKey struct {
	a      int
	hi, lo int
	leaf   int
}

var (
	nodes   = map[nodeKey]*Node{}
	nodeSeq int
	nTrue   = leafN(tTrue)
	nFalse  = leafN(tFalse)
	nNil    = leafN(tNil)
)

func internNode(k nodeKey, n *Node) *Node {
	if o, ok := nodes[k]; ok {
		return o
	}
	nodeSeq++
	n.id = nodeSeq
	nodes[k] = n
	return n
}

func leafN(t *Term) *Node {
	if t.node == nil {
		t.node = internNode(nodeKey{leaf: t.id}, &Node{leaf: t})
	}
	return t.node
}

func mkN(a *Term, hi, lo *Node) *Node {
	if hi == lo {
		return hi
	}
	return internNode(nodeKey{a: a.id, hi: hi.id, lo: lo.id}, &Node{a: a, hi: hi, lo: lo})
}

func atomN(a *Term) *Node { return mkN(a, nTrue, nFalse) }
func boolN(b bool) *Node {
	if b {
		return nTrue
	}
	return nFalse
}
func constN(c uint64) *Node { return leafN(mkConst(c)) }
func strN(s string) *Node   { return leafN(mkStr(s)) }

type k3 struct{ a, b, c int }

var iteMemo = map[k3]*Node{}

func topVar(ns ...*Node) *Term {
	var t *Term
	for _, n := range ns {
		if n.leaf == nil && (t == nil || n.a.id < t.id) {
			t = n.a
		}
	}
	return t
}

func cof(n *Node, a *Term, v bool) *Node {
	if n.leaf != nil || n.a != a {
		return n
	}
	if v {
		return n.hi
	}
	return n.lo
}

func iteN(c, x, y *Node) *Node {
	if c == nTrue {
		return x
	}
	if c == nFalse {
		return y
	}
	if x == y {
		return x
	}
	if x == nTrue && y == nFalse {
		return c
	}
	k := k3{c.id, x.id, y.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	tick()
	t := topVar(c, x, y)
	if t == nil {
		panic(fmt.Sprintf("iteN: condition is not boolean: %s", c.leaf))
	}
	r := mkN(t, iteN(cof(c, t, true), cof(x, t, true), cof(y, t, true)),
		iteN(cof(c, t, false), cof(x, t, false), cof(y, t, false)))
	iteMemo[k] = r
	return r
}

func andN(a, b *Node) *Node { return iteN(a, b, nFalse) }
func orN(a, b *Node) *Node  { return iteN(a, nTrue, b) }
func notN(a *Node) *Node    { return iteN(a, nFalse, nTrue) }

var restrictMemo = map[[2]int]*Node{}

// restrictN simplifies f assuming the boolean g.
func restrictN(f, g *Node) *Node {
	if g.leaf != nil || f.leaf != nil {
		return f
	}
	k := [2]int{f.id, g.id}
	if r, ok := restrictMemo[k]; ok {
		return r
	}
	var r *Node
	switch {
	case g.a.id < f.a.id:
		r = restrictN(f, orN(g.hi, g.lo))
	default:
		t := f.a
		g1, g0 := cof(g, t, true), cof(g, t, false)
		switch {
		case g0 == nFalse:
			r = restrictN(f.hi, g1)
		case g1 == nFalse:
			r = restrictN(f.lo, g0)
		default:
			r = mkN(t, restrictN(f.hi, g1), restrictN(f.lo, g0))
		}
	}
	restrictMemo[k] = r
	return r
}

// apply1 maps the leaves of n.
func apply1(n *Node, f func(*Term) *Node) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.leaf != nil {
			return f(n.leaf)
		}
		if r, ok := memo[n]; ok {
			return r
		}
		tick()
		r := iteN(atomN(n.a), rec(n.hi), rec(n.lo))
		memo[n] = r
		return r
	}
	return rec(n)
}

func apply2(x, y *Node, f func(a, b *Term) *Node) *Node {
	if x.leaf != nil && y.leaf != nil {
		return f(x.leaf, y.leaf)
	}
	memo := map[[2]int]*Node{}
	var rec func(x, y *Node) *Node
	rec = func(x, y *Node) *Node {
		if x.leaf != nil && y.leaf != nil {
			return f(x.leaf, y.leaf)
		}
		k := [2]int{x.id, y.id}
		if r, ok := memo[k]; ok {
			return r
		}
		tick()
		t := topVar(x, y)
		r := iteN(atomN(t), rec(cof(x, t, true), cof(y, t, true)), rec(cof(x, t, false), cof(y, t, false)))
		memo[k] = r
		return r
	}
	return rec(x, y)
}

// applyN folds any number of operands.
func applyN(ns []*Node, f func(ts []*Term) *Node) *Node {
	ts := make([]*Term, len(ns))
	var rec func(ns []*Node) *Node
	memo := map[string]*Node{}
	rec = func(ns []*Node) *Node {
		t := topVar(ns...)
		if t == nil {
			for i, n := range ns {
				ts[i] = n.leaf
			}
			return f(append([]*Term(nil), ts...))
		}
		var kb strings.Builder
		for _, n := range ns {
			fmt.Fprintf(&kb, "%d,", n.id)
		}
		k := kb.String()
		if r, ok := memo[k]; ok {
			return r
		}
		tick()
		h := make([]*Node, len(ns))
		l := make([]*Node, len(ns))
		for i, n := range ns {
			h[i], l[i] = cof(n, t, true), cof(n, t, false)
		}
		r := iteN(atomN(t), rec(h), rec(l))
		memo[k] = r
		return r
	}
	return rec(ns)
}

// Budget: a runaway analysis is reported as undecided instead of hanging.
var tickCount, tickLimit int64 = 0, 40_000_000

// deadline is when the whole check has to be over.
var deadline time.Time

type budgetExceeded struct{}

// memoryFull is set once the analysis holds more memory than it may.
var memoryFull atomic.Bool

// watchMemory sets memoryFull when the heap grows beyond the limit.
func watchMemory(limit uint64) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(300 * time.Millisecond)
		metrics.Read(s)
		if s[0].Value.Uint64() > limit {
			runtime.GC()
			metrics.Read(s)
			if s[0].Value.Uint64() > limit*3/4 {
				memoryFull.Store(true)
			}
		}
	}
}

// hurry gives what remains of a check that has found a violation less time.
func hurry() {
	if t := time.Now().Add(200 * time.Second); !deadline.IsZero() && t.Before(deadline) {
		deadline = t
	}
}

var (
	allTicks int64
	late     bool
)

// isLate reports whether the time of the whole check is over or its memory full.
func isLate() bool {
	if late {
		return true
	}
	if allTicks++; allTicks&1023 == 0 {
		late = !deadline.IsZero() && time.Now().After(deadline)
		return late || memoryFull.Load()
	}
	return false
}

func tick() {
	tickCount++
	if tickCount > tickLimit || isLate() {
		// the next obligations get less, so that one change that the analysis
		// cannot follow does not use up the time of all of them
		tickLimit = max(tickLimit/2, 6_000_000)
		panic(budgetExceeded{})
	}
}

// ---- comparison atoms --------------------------------------------------------

// exactRange returns the mathematical range of a linear term whose constant and
// coefficients are read as signed numbers, and whether this reading is exact,
// that is, no intermediate sum leaves the signed 64 bit range.
func exactRange(t *Term) (lo, hi *big.Int) {
	lo = big.NewInt(int64(t.u))
	hi = big.NewInt(int64(t.u))
	for _, m := range t.ms {
		mx := atomMax(m.A)
		p := new(big.Int).Mul(mx, big.NewInt(int64(m.C)))
		if int64(m.C) < 0 {
			lo.Add(lo, p)
		} else {
			hi.Add(hi, p)
		}
	}
	return lo, hi
}

func atomMax(a *Term) *big.Int {
	if a.k == KOp && a.s == "mod" {
		if n, ok := isConst(a.args[1]); ok {
			return new(big.Int).SetUint64(n - 1)
		}
	}
	w := atomWidth(a)
	if a.k == KOp && a.s == "len" {
		w = 48
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
}

var (
	bigMaxI = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	bigMinI = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))
	bigMaxU = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
	bigZero = big.NewInt(0)
)

func inI64(lo, hi *big.Int) bool { return lo.Cmp(bigMinI) >= 0 && hi.Cmp(bigMaxI) <= 0 }

// noConst splits a linear term into its variable part and constant.
func noConst(t *Term) *Term {
	if t.u == 0 {
		return t
	}
	return intern(&Term{k: KInt, ms: t.ms})
}

func negT(t *Term) *Term { return scaleT(t, ^uint64(0)) }

func gcdCoef(t *Term) uint64 {
	var g uint64
	for _, m := range t.ms {
		c := m.C
		if int64(c) < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	return g
}

func divCoef(t *Term, g uint64) *Term {
	mm := map[*Term]uint64{}
	for _, m := range t.ms {
		mm[m.A] = uint64(int64(m.C) / int64(g))
	}
	return mkLin(0, mm)
}

// assumedHuge is the set of length symbols taken to dominate every other
// quantity (the buffer under analysis is assumed to hold the whole record).
var assumedHuge = map[*Term]bool{}

func dominated(d *Term) (sign int, ok bool) {
	for _, m := range d.ms {
		if assumedHuge[m.A] {
			switch int64(m.C) {
			case 1:
				return 1, true
			case -1:
				return -1, true
			}
		}
	}
	return 0, false
}

func eqInt(a, b *Term) *Node {
	d := subT(a, b)
	if c, ok := isConst(d); ok {
		return boolN(c == 0)
	}
	if _, ok := dominated(d); ok {
		return nFalse
	}
	lo, hi := exactRange(d)
	exact := inI64(lo, hi)
	if exact && (lo.Sign() > 0 || hi.Sign() < 0) {
		return nFalse
	}
	e := noConst(d)
	c := -d.u
	if int64(e.ms[0].C) < 0 {
		e, c = negT(e), -c
	}
	if exact {
		if g := gcdCoef(e); g > 1 {
			if int64(c)%int64(g) != 0 {
				return nFalse
			}
			c = uint64(int64(c) / int64(g))
			e = divCoef(e, g)
		}
	}
	// disjoint bit slices: compare piecewise
	if v, ok := toBits(e); ok {
		pieces := true
		for _, m := range e.ms {
			if int64(m.C) <= 0 {
				pieces = false
			}
		}
		if pieces && len(e.ms) >= 1 && disjointPositions(e) {
			// c must be representable
			for i := 0; i < 64; i++ {
				if v[i].t == nil && !v[i].one && c>>uint(i)&1 == 1 {
					return nFalse
				}
			}
			r := nTrue
			for _, m := range e.ms {
				k := trailing(m.C)
				w := atomWidth(m.A)
				want := c >> uint(k)
				if w < 64 {
					want &= 1<<uint(w) - 1
				}
				r = andN(r, eqAtom(intOf(m.A), want))
			}
			return r
		}
	}
	return eqAtom(e, c)
}

func trailing(c uint64) int {
	n := 0
	for c&1 == 0 {
		c >>= 1
		n++
	}
	return n
}

func disjointPositions(e *Term) bool {
	var used uint64
	for _, m := range e.ms {
		if m.C&(m.C-1) != 0 {
			return false
		}
		k := trailing(m.C)
		w := atomWidth(m.A)
		if k+w > 64 {
			return false
		}
		var mask uint64 = ^uint64(0)
		if w < 64 {
			mask = 1<<uint(w) - 1
		}
		mask <<= uint(k)
		if used&mask != 0 {
			return false
		}
		used |= mask
	}
	return true
}

// eqAtom: e == c, e a linear term without constant.
func eqAtom(e *Term, c uint64) *Node {
	if len(e.ms) == 1 && e.ms[0].C == 1 {
		a := e.ms[0].A
		w := atomWidth(a)
		if w < 64 && c>>uint(w) != 0 {
			return nFalse
		}
		if w == 1 {
			n := atomN(mkOp("bit", 1, a))
			if c == 1 {
				return n
			}
			return notN(n)
		}
	}
	return atomN(mkOp("eqc", 1, e, mkConst(c)))
}

// ltInt: a < b.
func ltInt(a, b *Term, signed bool) *Node {
	if x, ok := isConst(a); ok {
		if y, ok := isConst(b); ok {
			if signed {
				return boolN(int64(x) < int64(y))
			}
			return boolN(x < y)
		}
	}
	d := subT(a, b)
	if sg, ok := dominated(d); ok {
		return boolN(sg < 0)
	}
	la, ha := exactRange(a)
	lb, hb := exactRange(b)
	ok := inI64(la, ha) && inI64(lb, hb)
	if !signed {
		ok = ok && la.Sign() >= 0 && lb.Sign() >= 0
	}
	if !ok && !signed {
		// an unsigned comparison of a 64 bit atom with a constant
		if c, isC := isConst(b); isC && len(a.ms) == 1 && a.ms[0].C == 1 && a.u == 0 {
			return ltAtom(a, c)
		}
		if c, isC := isConst(a); isC && len(b.ms) == 1 && b.ms[0].C == 1 && b.u == 0 {
			if c == ^uint64(0) {
				return nFalse
			}
			return notN(ltAtom(b, c+1))
		}
	}
	if ok {
		lo, hi := exactRange(d)
		if hi.Sign() < 0 {
			return nTrue
		}
		if lo.Sign() >= 0 {
			return nFalse
		}
		if inI64(lo, hi) {
			e := noConst(d)
			c := -int64(d.u) // e < c
			neg := false
			if int64(e.ms[0].C) < 0 {
				// e < c  <=>  -e > -c  <=>  !(-e < -c+1)
				e, c, neg = negT(e), -c+1, true
			}
			if g := gcdCoef(e); g > 1 {
				e = divCoef(e, g)
				// g*e' < c <=> e' < ceil(c/g)
				q := c / int64(g)
				if c%int64(g) != 0 && c > 0 {
					q++
				}
				c = q
			}
			n := ltAtom(e, uint64(c))
			if neg {
				return notN(n)
			}
			return n
		}
	}
	op := "ult"
	if signed {
		op = "slt"
		// sign test of a 64 bit value whose bits are known
		if c, isC := isConst(b); isC && c == 0 {
			if v, ok := toBits(a); ok {
				return bitNode(v[63])
			}
		}
		if c, isC := isConst(a); isC && c == ^uint64(0) { // -1 < x
			if v, ok := toBits(b); ok {
				return notN(bitNode(v[63]))
			}
		}
	}
	// not(b<a') forms: a<b is !(b<a+1) only without overflow; keep one orientation
	return atomN(mkOp(op, 1, a, b))
}

func bitNode(b bit) *Node {
	if b.t == nil {
		return boolN(b.one)
	}
	n := atomN(mkOp("bit", 1, mkBits(b.t, b.idx, 1)))
	if b.neg {
		return notN(n)
	}
	return n
}

// ltAtom: e < c where e is linear without constant; c read as signed unless e is
// a plain 64 bit atom.
func ltAtom(e *Term, c uint64) *Node {
	if len(e.ms) == 1 && e.ms[0].C == 1 {
		a := e.ms[0].A
		w := atomWidth(a)
		if c == 0 {
			return nFalse
		}
		if w < 64 && int64(c) < 0 {
			return nFalse
		}
		if w < 64 && c>>uint(w) != 0 {
			return nTrue
		}
		if c&(c-1) == 0 {
			k := trailing(c)
			base, lo := a, 0
			if a.k == KBits {
				base, lo = a.args[0], int(a.u)
			}
			return eqAtom(intOf(mkBits(base, lo+k, w-k)), 0)
		}
	}
	return atomN(mkOp("ltc", 1, e, mkConst(c)))
}

// eqT: equality of two terms of the same type.
func eqT(a, b *Term) *Node {
	if a == b {
		return nTrue
	}
	isInt := func(t *Term) bool { return t.k == KInt }
	if isInt(a) || isInt(b) {
		return eqInt(a, b)
	}
	if a.k == KBool || b.k == KBool {
		if a.k == b.k {
			return boolN(a == b)
		}
	}
	if a.k == KStr && b.k == KStr {
		return boolN(a.s == b.s)
	}
	if b.k == KNil {
		a, b = b, a
	}
	if a.k == KNil {
		switch b.k {
		case KAlloc, KGlob, KFld, KElem, KIface, KFunc, KSlice:
			return nFalse
		}
		if b.k == KOp && strings.HasPrefix(b.s, "new:") {
			return nFalse
		}
	}
	if (a.k == KAlloc || a.k == KGlob) && (b.k == KAlloc || b.k == KGlob) {
		return nFalse
	}
	if a.k == KIface && b.k == KIface {
		if a.s != b.s {
			return nFalse
		}
		return eqT(a.args[0], b.args[0])
	}
	if a.k == KFlt && b.k == KFlt {
		return boolN(a.s == b.s)
	}
	if a.k == KOp && b.k == KOp && a.s == "errmsg" && b.s == "errmsg" {
		return eqT(a.args[0], b.args[0])
	}
	if (a.k == KStr || a.k == KCat) && (b.k == KStr || b.k == KCat) {
		pa, pb := catParts(a), catParts(b)
		if a.k == KStr && a.s == "" {
			// concatenation empty: every part empty
			r := nTrue
			for _, p := range pb {
				if p.k == KStr {
					return nFalse
				}
				r = andN(r, eqT(p, mkStr("")))
			}
			return r
		}
		if b.k == KStr && b.s == "" {
			return eqT(b, a)
		}
		for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
		}
		na, nb := catT(pa...), catT(pb...)
		if na != a || nb != b {
			return eqT(na, nb)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return atomN(mkOp("eq", 1, a, b))
}

// ---- printing ------------------------------------------------------------------

func (n *Node) String() string {
	if n.leaf != nil {
		return n.leaf.String()
	}
	var out []string
	cnt := 0
	var rec func(n *Node, path []string)
	rec = func(n *Node, path []string) {
		if cnt > 12 {
			return
		}
		if n.leaf != nil {
			cnt++
			out = append(out, "["+strings.Join(path, " & ")+"] => "+n.leaf.String())
			return
		}
		rec(n.hi, append(path[:len(path):len(path)], atomStr(n.a)))
		rec(n.lo, append(path[:len(path):len(path)], "!"+atomStr(n.a)))
	}
	rec(n, nil)
	if cnt > 12 {
		out = append(out, "...")
	}
	return strings.Join(out, "\n      ")
}

func atomStr(a *Term) string {
	if a.k == KOp {
		switch a.s {
		case "eqc":
			return "(" + a.args[0].String() + " == " + a.args[1].String() + ")"
		case "ltc":
			return "(" + a.args[0].String() + " < " + a.args[1].String() + ")"
		case "bit":
			return a.args[0].String()
		case "eq":
			return "(" + a.args[0].String() + " == " + a.args[1].String() + ")"
		}
	}
	return a.String()
}

// guardStr prints a boolean diagram as the list of its true paths.
func guardStr(n *Node) string {
	if n == nTrue {
		return "always"
	}
	if n == nFalse {
		return "never"
	}
	var out []string
	var rec func(n *Node, path []string)
	rec = func(n *Node, path []string) {
		if len(out) > 8 || n == nFalse {
			return
		}
		if n == nTrue {
			out = append(out, strings.Join(path, " & "))
			return
		}
		rec(n.hi, append(path[:len(path):len(path)], atomStr(n.a)))
		rec(n.lo, append(path[:len(path):len(path)], "!"+atomStr(n.a)))
	}
	rec(n, nil)
	return strings.Join(out, " | ")
}

func leaves(n *Node) []*Term {
	seen := map[*Node]bool{}
	var out []*Term
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.leaf != nil {
			out = append(out, n.leaf)
			return
		}
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func atomsOf(n *Node) []*Term {
	seen := map[*Node]bool{}
	as := map[*Term]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] || n.leaf != nil {
			return
		}
		seen[n] = true
		as[n.a] = true
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	var out []*Term
	for a := range as {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func isConstN(n *Node) (uint64, bool) {
	if n.leaf == nil {
		return 0, false
	}
	return isConst(n.leaf)
}
