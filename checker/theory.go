package main

// Theory of condition atoms: which combinations of atom truth values are
// possible.  A byte-sized input is tracked as the exact set of its possible
// values; wider quantities as intervals with known bits; opaque equalities with
// distinct constants exclude each other.

import (
	"math/big"
	"math/bits"
)

type byteSet [4]uint64

func fullSet() byteSet {
	return byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
}
func (s byteSet) has(i int) bool { return s[i>>6]>>uint(i&63)&1 == 1 }
func (s *byteSet) del(i int)     { s[i>>6] &^= 1 << uint(i&63) }
func (s byteSet) empty() bool    { return s == byteSet{} }
func (s byteSet) single() (int, bool) {
	n := 0
	v := -1
	for k, x := range s {
		n += bits.OnesCount64(x)
		if x != 0 && v < 0 {
			v = k*64 + bits.TrailingZeros64(x)
		}
	}
	return v, n == 1
}

type ival struct{ lo, hi int64 }

type Ctx struct {
	parent *Ctx
	atom   *Term
	val    bool
	bset   map[*Term]byteSet
	iv     map[*Term]ival
	ne     map[*Term][]int64
	eqs    map[*Term]*Term // opaque term -> constant it equals
	wide   map[*Term][]lit // constraints on a wide base
}

type lit struct {
	a *Term
	v bool
}

var emptyCtx = &Ctx{}

func (c *Ctx) lookup(a *Term) (bool, bool) {
	for x := c; x != nil; x = x.parent {
		if x.atom == a {
			return x.val, true
		}
	}
	return false, false
}

// baseVars lists the input atoms a term is built from.
func baseVars(t *Term) []*Term {
	if r, ok := baseVarMemo[t]; ok {
		return r
	}
	set := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		switch t.k {
		case KInt:
			for _, m := range t.ms {
				rec(m.A)
			}
		case KBits:
			rec(t.args[0])
		case KOp:
			switch t.s {
			case "eqc", "ltc", "bit", "ult", "slt", "and", "or", "xor", "andnot", "div", "mod", "mul", "shr", "shl", "trunc", "strunc", "opq", "sar":
				for _, a := range t.args {
					rec(a)
				}
			default:
				set[t] = true
			}
		case KBool:
		default:
			set[t] = true
		}
	}
	rec(t)
	var out []*Term
	for a := range set {
		out = append(out, a)
	}
	baseVarMemo[t] = out
	return out
}

var baseVarMemo = map[*Term][]*Term{}

// evalWith computes a term for one value of its single base variable.
func evalWith(t, base *Term, v uint64) (uint64, bool) {
	if t == base {
		return v, true
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.k {
	case KInt:
		r := t.u
		for _, m := range t.ms {
			x, ok := evalWith(m.A, base, v)
			if !ok {
				return 0, false
			}
			r += m.C * x
		}
		return r, true
	case KBits:
		x, ok := evalWith(t.args[0], base, v)
		if !ok {
			return 0, false
		}
		x >>= t.u
		if t.w < 64 {
			x &= 1<<t.w - 1
		}
		return x, true
	case KBool:
		return t.u, true
	case KOp:
		var xs []uint64
		for _, a := range t.args {
			x, ok := evalWith(a, base, v)
			if !ok {
				return 0, false
			}
			xs = append(xs, x)
		}
		switch t.s {
		case "eqc":
			return b2u(xs[0] == xs[1]), true
		case "ltc":
			// e is exact in the signed range unless it is a plain 64 bit atom
			if atomWidth(base) < 64 {
				return b2u(int64(xs[0]) < int64(xs[1])), true
			}
			return b2u(xs[0] < xs[1]), true
		case "bit":
			return xs[0], true
		case "ult":
			return b2u(xs[0] < xs[1]), true
		case "slt":
			return b2u(int64(xs[0]) < int64(xs[1])), true
		case "and":
			return xs[0] & xs[1], true
		case "or":
			return xs[0] | xs[1], true
		case "xor":
			return xs[0] ^ xs[1], true
		case "andnot":
			return xs[0] &^ xs[1], true
		case "div":
			if xs[1] != 0 {
				return xs[0] / xs[1], true
			}
		case "mod":
			if xs[1] != 0 {
				return xs[0] % xs[1], true
			}
		case "mul":
			return xs[0] * xs[1], true
		case "shr":
			if xs[1] < 64 {
				return xs[0] >> xs[1], true
			}
			return 0, true
		case "shl":
			if xs[1] < 64 {
				return xs[0] << xs[1], true
			}
			return 0, true
		case "trunc":
			return xs[0] & (1<<xs[1] - 1), true
		case "opq":
			return xs[0], true
		case "sar":
			return uint64(int64(xs[0]) >> min(xs[1], 63)), true
		}
	}
	return 0, false
}

func isConstTerm(t *Term) bool {
	switch t.k {
	case KStr, KNil, KFlt, KBool:
		return true
	case KInt:
		return len(t.ms) == 0
	case KIface:
		return isConstTerm(t.args[0])
	}
	return false
}

// assume extends the context with a literal; ok is false if it contradicts.
func (c *Ctx) assume(a *Term, v bool) (*Ctx, bool) {
	if w, known := c.lookup(a); known {
		return c, w == v
	}
	n := &Ctx{parent: c, atom: a, val: v, bset: c.bset, iv: c.iv, ne: c.ne, eqs: c.eqs, wide: c.wide}
	if a.k != KOp {
		return n, true
	}
	// one base variable
	vars := baseVars(a)
	if len(vars) == 1 {
		b := vars[0]
		switch a.s {
		case "eqc", "ltc", "bit", "ult", "slt":
			if atomWidth(b) <= 8 {
				s, ok := n.bset[b]
				if !ok {
					s = fullSet()
					for i := 1 << uint(atomWidth(b)); i < 256; i++ {
						s.del(i)
					}
				}
				for i := 0; i < 1<<uint(atomWidth(b)); i++ {
					if !s.has(i) {
						continue
					}
					x, ok := evalWith(a, b, uint64(i))
					if !ok {
						break
					}
					if (x == 1) != v {
						s.del(i)
					}
				}
				m := make(map[*Term]byteSet, len(n.bset)+1)
				for k, x := range n.bset {
					m[k] = x
				}
				m[b] = s
				n.bset = m
				return n, !s.empty()
			}
			// wide base: intervals and known bits
			m := make(map[*Term][]lit, len(n.wide)+1)
			for k, x := range n.wide {
				m[k] = x
			}
			m[b] = append(append([]lit(nil), m[b]...), lit{a, v})
			n.wide = m
			if !wideFeasible(b, m[b]) {
				return n, false
			}
		}
	}
	switch a.s {
	case "eqc", "ltc":
		e := a.args[0]
		k, _ := isConst(a.args[1])
		kc := int64(k)
		if kc < 0 && atomWidth(e.ms[0].A) == 64 && len(e.ms) == 1 {
			return n, true // unsigned 64 bit constant; handled above
		}
		r, ok := n.iv[e]
		if !ok {
			lo, hi := exactRange(e)
			r = ival{-1 << 63, 1<<63 - 1}
			if lo.IsInt64() {
				r.lo = lo.Int64()
			}
			if hi.IsInt64() {
				r.hi = hi.Int64()
			}
		}
		ne := n.ne[e]
		if a.s == "eqc" {
			if v {
				if kc > r.lo {
					r.lo = kc
				}
				if kc < r.hi {
					r.hi = kc
				}
			} else {
				ne = append(append([]int64(nil), ne...), kc)
				m := make(map[*Term][]int64, len(n.ne)+1)
				for k, x := range n.ne {
					m[k] = x
				}
				m[e] = ne
				n.ne = m
			}
		} else {
			if v {
				if kc-1 < r.hi {
					r.hi = kc - 1
				}
			} else if kc > r.lo {
				r.lo = kc
			}
		}
		for again := true; again; {
			again = false
			for _, x := range ne {
				if x == r.lo && r.lo <= r.hi {
					r.lo++
					again = true
				}
				if x == r.hi && r.lo <= r.hi {
					r.hi--
					again = true
				}
			}
		}
		m := make(map[*Term]ival, len(n.iv)+1)
		for k, x := range n.iv {
			m[k] = x
		}
		m[e] = r
		n.iv = m
		return n, r.lo <= r.hi
	case "eq":
		x, y := a.args[0], a.args[1]
		if isConstTerm(x) {
			x, y = y, x
		}
		if isConstTerm(y) && v {
			if o, ok := n.eqs[x]; ok && o != y {
				return n, false
			}
			m := make(map[*Term]*Term, len(n.eqs)+1)
			for k, z := range n.eqs {
				m[k] = z
			}
			m[x] = y
			n.eqs = m
		}
	}
	return n, true
}

// wideFeasible decides simple combinations on one wide variable: interval bounds
// and fixed bits.  It only answers false when the literals contradict.
func wideFeasible(b *Term, ls []lit) bool {
	w := atomWidth(b)
	var mask, val uint64
	lo, hi := uint64(0), ^uint64(0)
	if w < 64 {
		hi = 1<<uint(w) - 1
	}
	fix := func(off, n int, v uint64) bool {
		m := ^uint64(0)
		if n < 64 {
			m = 1<<uint(n) - 1
		}
		m <<= uint(off)
		v <<= uint(off)
		if mask&m&(val^v) != 0 {
			return false
		}
		mask |= m
		val |= v & m
		return true
	}
	slice := func(e *Term) (off, n int, ok bool) {
		if e.k == KInt {
			if len(e.ms) != 1 || e.ms[0].C != 1 || e.u != 0 {
				return
			}
			e = e.ms[0].A
		}
		if e == b {
			return 0, w, true
		}
		if e.k == KBits && e.args[0] == b {
			return int(e.u), int(e.w), true
		}
		return
	}
	for _, l := range ls {
		switch l.a.s {
		case "bit":
			if o, n, ok := slice(l.a.args[0]); ok && n == 1 {
				v := uint64(0)
				if l.v {
					v = 1
				}
				if !fix(o, 1, v) {
					return false
				}
			}
		case "eqc":
			if o, n, ok := slice(l.a.args[0]); ok && l.v {
				c, _ := isConst(l.a.args[1])
				if !fix(o, n, c) {
					return false
				}
			}
		case "ltc":
			if o, n, ok := slice(l.a.args[0]); ok && o == 0 && n == w {
				c, _ := isConst(l.a.args[1])
				if l.v {
					if c == 0 {
						return false
					}
					if c-1 < hi {
						hi = c - 1
					}
				} else if c > lo {
					lo = c
				}
			}
		}
	}
	if lo > hi {
		return false
	}
	// smallest and largest values compatible with the fixed bits
	full := ^uint64(0)
	if w < 64 {
		full = 1<<uint(w) - 1
	}
	minv := val
	maxv := val | (full &^ mask)
	if minv > hi || maxv < lo {
		return false
	}
	if mask == full {
		for _, l := range ls {
			if x, ok := evalWith(l.a, b, val); ok && (x == 1) != l.v {
				return false
			}
		}
	}
	if lo == hi {
		for _, l := range ls {
			if x, ok := evalWith(l.a, b, lo); ok && (x == 1) != l.v {
				return false
			}
		}
	}
	return true
}

// pruneN removes the branches of n that are infeasible in ctx.
func pruneN(n *Node, ctx *Ctx) *Node {
	if n.leaf != nil {
		return n
	}
	budget := 20000
	var rec func(n *Node, c *Ctx) *Node
	rec = func(n *Node, c *Ctx) *Node {
		if n.leaf != nil {
			return n
		}
		budget--
		if budget < 0 {
			return n
		}
		c1, ok1 := c.assume(n.a, true)
		c0, ok0 := c.assume(n.a, false)
		if !ok1 {
			return rec(n.lo, c)
		}
		if !ok0 {
			return rec(n.hi, c)
		}
		h, l := rec(n.hi, c1), rec(n.lo, c0)
		return mkN(n.a, h, l)
	}
	return rec(n, ctx)
}

var pruneMemo = map[*Node]*Node{}

// pruneG removes infeasible paths from a guard: they become false.
func pruneG(n *Node) *Node {
	if n.leaf != nil {
		return n
	}
	if r, ok := pruneMemo[n]; ok {
		return r
	}
	budget := 20000
	var rec func(n *Node, c *Ctx) *Node
	rec = func(n *Node, c *Ctx) *Node {
		if n.leaf != nil {
			return n
		}
		budget--
		if budget < 0 {
			return n
		}
		if isLate() {
			panic(budgetExceeded{})
		}
		h, l := nFalse, nFalse
		c1, ok1 := c.assume(n.a, true)
		if ok1 && n.hi != nFalse {
			h = rec(n.hi, c1)
		}
		c0, ok0 := c.assume(n.a, false)
		if ok0 && n.lo != nFalse {
			l = rec(n.lo, c0)
		}
		if !ok1 {
			return l
		}
		if !ok0 {
			return h
		}
		return mkN(n.a, h, l)
	}
	r := rec(n, emptyCtx)
	pruneMemo[n] = r
	return r
}

// satisfiable reports whether some feasible path of g reaches true.
func satisfiable(g *Node) bool { return findPath(g, emptyCtx) != nil }

// findPath returns a context for a feasible true path.
func findPath(g *Node, c *Ctx) *Ctx {
	if g == nFalse {
		return nil
	}
	if g.leaf != nil {
		if g == nTrue && !c.contradictory() {
			return c
		}
		return nil
	}
	tick()
	if c1, ok := c.assume(g.a, true); ok {
		if r := findPath(g.hi, c1); r != nil {
			return r
		}
	}
	if c0, ok := c.assume(g.a, false); ok {
		return findPath(g.lo, c0)
	}
	return nil
}

// substCtx rewrites a term with what a path fixes: byte inputs with one possible
// value, known bits and known equalities.
func substCtx(t *Term, c *Ctx) *Term {
	sub := map[*Term]*Term{}
	for x := c; x != nil; x = x.parent {
		if x.atom == nil {
			continue
		}
		a := x.atom
		if a.k == KOp && a.s == "bit" {
			v := uint64(0)
			if x.val {
				v = 1
			}
			sub[a.args[0]] = mkConst(v)
		}
		if a.k == KOp && a.s == "eqc" && x.val {
			if e := a.args[0]; len(e.ms) == 1 && e.ms[0].C == 1 {
				sub[e.ms[0].A] = a.args[1]
			}
		}
		if a.k == KOp && a.s == "eq" && x.val {
			p, q := a.args[0], a.args[1]
			if isConstTerm(q) {
				sub[p] = q
			} else if isConstTerm(p) {
				sub[q] = p
			}
		}
	}
	for b, s := range c.bset {
		if v, ok := s.single(); ok {
			sub[b] = mkConst(uint64(v))
		}
	}
	if len(sub) == 0 {
		return t
	}
	return substT(t, sub)
}

// substT replaces atoms in a term and renormalises.
func substT(t *Term, sub map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	// the atoms of which single bits are known
	split := map[*Term]bool{}
	for k := range sub {
		if k.k == KBits && k.w == 1 {
			split[k.args[0]] = true
		}
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := sub[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		tick()
		r := t
		switch t.k {
		case KInt:
			hit := false
			acc := mkConst(t.u)
			for _, m := range t.ms {
				a := m.A
				// known bits inside a plain atom or slice
				x := rec(a)
				if x == a && (split[a] || a.k == KBits && split[a.args[0]]) {
					x = splitBits(a, sub)
				}
				if x != a {
					hit = true
				}
				if x.k != KInt {
					x = intOf(x)
				}
				acc = addScaled(acc, x, m.C)
			}
			if hit {
				r = acc
			}
		case KBits:
			b := rec(t.args[0])
			if b != t.args[0] {
				if b.k != KInt {
					b = intOf(b)
				}
				r = bitwise("and", shrT(b, mkConst(t.u), false), mkConst(maskW(int(t.w))))
			}
		case KOp, KCat, KLoad, KFld, KElem, KSlice, KStruct, KIface, KFunc:
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if ch {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

// splitBits replaces known bits of an integer atom.
func splitBits(a *Term, sub map[*Term]*Term) *Term {
	base, lo, w := a, 0, atomWidth(a)
	if a.k == KBits {
		base, lo = a.args[0], int(a.u)
	}
	acc := mkConst(0)
	hit := false
	for i := 0; i < w; i++ {
		b := mkBits(base, lo+i, 1)
		if v, ok := sub[b]; ok && b != a {
			acc = addScaled(acc, v, 1<<uint(i))
			hit = true
		} else {
			if b.k != KInt {
				b = intOf(b)
			}
			acc = addScaled(acc, b, 1<<uint(i))
		}
	}
	if !hit {
		return a
	}
	return acc
}

// rebuild reconstructs an operation after its arguments changed.
func rebuild(t *Term, args []*Term) *Term {
	if t.k == KCat {
		return catT(args...)
	}
	if t.k == KOp {
		asInt := func(i int) *Term {
			if args[i].k != KInt {
				return intOf(args[i])
			}
			return args[i]
		}
		switch t.s {
		case "and", "or", "xor", "andnot":
			return bitwise(t.s, asInt(0), asInt(1))
		case "div":
			return divT(asInt(0), asInt(1))
		case "mod":
			return modT(asInt(0), asInt(1))
		case "mul":
			return mulT(asInt(0), asInt(1))
		case "shr":
			return shrT(asInt(0), asInt(1), false)
		case "sar":
			return shrT(asInt(0), asInt(1), true)
		case "opq":
			return asInt(0)
		case "shl":
			return shlT(asInt(0), asInt(1))
		case "trunc":
			c, _ := isConst(asInt(1))
			return wrap(asInt(0), int(c), false)
		case "strunc":
			c, _ := isConst(asInt(1))
			return wrap(asInt(0), int(c), true)
		}
	}
	n := *t
	n.args = args
	return intern(&n)
}

// substAtomNode rebuilds a condition atom after substitution.
func substAtomNode(a *Term, sub map[*Term]*Term) *Node {
	if a.k != KOp {
		n := substT(a, sub)
		return atomN(n)
	}
	switch a.s {
	case "eqc":
		return eqInt(substT(a.args[0], sub), a.args[1])
	case "ltc":
		e := substT(a.args[0], sub)
		if e == a.args[0] {
			return atomN(a)
		}
		signed := !(len(a.args[0].ms) == 1 && atomWidth(a.args[0].ms[0].A) == 64)
		return ltInt(e, a.args[1], signed)
	case "bit":
		x := substT(a.args[0], sub)
		if x == a.args[0] {
			return atomN(a)
		}
		if x.k != KInt {
			x = intOf(x)
		}
		return eqInt(x, mkConst(1))
	case "ult", "slt":
		return ltInt(substT(a.args[0], sub), substT(a.args[1], sub), a.s == "slt")
	case "eq":
		return eqT(substT(a.args[0], sub), substT(a.args[1], sub))
	}
	n := substT(a, sub)
	if n.k == KBool {
		return boolN(n.u == 1)
	}
	return atomN(n)
}

// substN substitutes in a whole diagram.
func substN(n *Node, sub map[*Term]*Term) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if r, ok := memo[n]; ok {
			return r
		}
		var r *Node
		if n.leaf != nil {
			r = leafN(substT(n.leaf, sub))
		} else {
			r = iteN(substAtomNode(n.a, sub), rec(n.hi), rec(n.lo))
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

// equalN decides whether two diagrams agree on every feasible path; if not, it
// returns a description of a path on which they differ.
// sawContra tells that the last leaf was reached under contradictory conditions.
var sawContra bool

func equalN(a, b *Node, ctx *Ctx) (bool, string) {
	if a == b {
		return true, ""
	}
	tick()
	t := topVar(a, b)
	if t == nil {
		if a.leaf == b.leaf {
			return true, ""
		}
		x, y := substCtx(a.leaf, ctx), substCtx(b.leaf, ctx)
		if x == y {
			return true, ""
		}
		if ctx.contradictory() {
			sawContra = true
			return true, ""
		}
		if r, why, done := splitLeaves(x, y, ctx); done {
			return r, why
		}
		return false, ctx.String() + "\n      got  " + x.String() + "\n      want " + y.String()
	}
	// an atom may be decided by what the path fixes
	if c1, ok := ctx.assume(t, true); ok {
		sawContra = false
		if r, why := equalN(cof(a, t, true), cof(b, t, true), c1); !r {
			return false, why
		}
		// a contradiction found below may hold for this whole part
		if sawContra {
			if sawContra = ctx.contradictory(); sawContra {
				return true, ""
			}
		}
	}
	if c0, ok := ctx.assume(t, false); ok {
		return equalN(cof(a, t, false), cof(b, t, false), c0)
	}
	return true, ""
}

func (c *Ctx) String() string {
	s := ""
	for x := c; x != nil && x.atom != nil; x = x.parent {
		l := atomStr(x.atom)
		if !x.val {
			l = "!" + l
		}
		if s == "" {
			s = l
		} else {
			s = l + " & " + s
		}
	}
	if s == "" {
		return "always"
	}
	return "when " + s
}

// splitLeaves decides two leaves by cases on a single bit both sides depend on
// differently.
func splitLeaves(x, y *Term, ctx *Ctx) (bool, string, bool) {
	bits := map[*Term]bool{}
	seen := map[*Term]bool{}
	var collect func(t *Term)
	collect = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.k == KBits && t.w == 1 {
			bits[t] = true
			return
		}
		for _, a := range t.args {
			collect(a)
		}
		for _, m := range t.ms {
			collect(m.A)
		}
	}
	collect(x)
	bx := bits
	bits, seen = map[*Term]bool{}, map[*Term]bool{}
	collect(y)
	// bits of one side only matter
	var pick *Term
	for _, m := range []map[*Term]bool{bx, bits} {
		for b := range m {
			if bx[b] && bits[b] {
				continue
			}
			if pick == nil || b.String() < pick.String() {
				pick = b
			}
		}
	}
	if pick == nil {
		return false, "", false
	}
	at := mkOp("bit", 1, pick)
	if _, known := ctx.lookup(at); known {
		return false, "", false
	}
	tick()
	for v := uint64(0); v < 2; v++ {
		sub := map[*Term]*Term{pick: mkConst(v)}
		c1, ok := ctx.assume(at, v == 1)
		if !ok || !consistentWith(ctx, sub) {
			continue
		}
		if r, why := equalN(leafN(substT(x, sub)), leafN(substT(y, sub)), c1); !r {
			return false, why, true
		}
	}
	return true, "", true
}

// consistentWith reports whether no literal of the path contradicts sub.
func consistentWith(c *Ctx, sub map[*Term]*Term) bool {
	for x := c; x != nil && x.atom != nil; x = x.parent {
		n := substAtomNode(x.atom, sub)
		if n == boolN(!x.val) {
			return false
		}
	}
	return true
}

// contradictory evaluates the linear literals of a path with what the path says
// about single bytes; it answers true only when one cannot hold.
func (c *Ctx) contradictory() bool {
	for x := c; x != nil && x.atom != nil; x = x.parent {
		a := x.atom
		if a.k != KOp || a.s != "eqc" && a.s != "ltc" {
			continue
		}
		e := a.args[0]
		if e.k != KInt || len(e.ms) < 2 {
			continue
		}
		k, _ := isConst(a.args[1])
		lo, hi := c.rangeOf(e)
		kc := new(big.Int).SetInt64(int64(k))
		switch {
		case a.s == "eqc" && x.val && (kc.Cmp(lo) < 0 || kc.Cmp(hi) > 0):
			return true
		case a.s == "eqc" && !x.val && lo.Cmp(hi) == 0 && lo.Cmp(kc) == 0:
			return true
		case a.s == "ltc" && x.val && lo.Cmp(kc) >= 0:
			return true
		case a.s == "ltc" && !x.val && hi.Cmp(kc) < 0:
			return true
		}
	}
	return false
}

// rangeOf bounds a linear form, using the values the path leaves for each byte.
func (c *Ctx) rangeOf(e *Term) (lo, hi *big.Int) {
	lo, hi = big.NewInt(int64(e.u)), big.NewInt(int64(e.u))
	groups := map[*Term][]Mono{}
	var order []*Term
	for _, m := range e.ms {
		vs := baseVars(m.A)
		var b *Term
		if len(vs) == 1 && atomWidth(vs[0]) <= 8 {
			if _, ok := c.bset[vs[0]]; ok {
				b = vs[0]
			}
		}
		if b == nil {
			p := new(big.Int).Mul(atomMax(m.A), big.NewInt(int64(m.C)))
			if int64(m.C) < 0 {
				lo.Add(lo, p)
			} else {
				hi.Add(hi, p)
			}
			continue
		}
		if groups[b] == nil {
			order = append(order, b)
		}
		groups[b] = append(groups[b], m)
	}
	for _, b := range order {
		s := c.bset[b]
		var mn, mx *big.Int
		for i := 0; i < 256; i++ {
			if !s.has(i) {
				continue
			}
			v := new(big.Int)
			for _, m := range groups[b] {
				x, ok := evalWith(m.A, b, uint64(i))
				if !ok {
					x = 0
				}
				v.Add(v, new(big.Int).Mul(new(big.Int).SetUint64(x), big.NewInt(int64(m.C))))
			}
			if mn == nil || v.Cmp(mn) < 0 {
				mn = v
			}
			if mx == nil || v.Cmp(mx) > 0 {
				mx = v
			}
		}
		if mn != nil {
			lo.Add(lo, mn)
			hi.Add(hi, mx)
		}
	}
	return lo, hi
}
