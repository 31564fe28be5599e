package main

// Telling "not proved equal" from "shown different".  The two diagrams are
// evaluated under valuations of their atoms (drawn along the paths on which the
// proof failed); a valuation under which they differ is a witness.  Operations
// the domain does not interpret are evaluated as free functions of their
// arguments.  Values that stand for a summarised loop or for an unmodelled call
// give no witness.

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
	"time"
)

type rho struct {
	rnd     *rand.Rand
	ints    map[*Term]uint64
	vals    map[*Term]string
	pool    map[*Term][]string
	memo    map[*Term]cval
	unclean bool
	ctx     *Ctx
	consts  []uint64
	shared  map[*Term]bool // opaque terms that both sides use
}

type cval struct {
	isInt bool
	n     uint64
	s     string
}

func (v cval) String() string {
	if v.isInt {
		return fmt.Sprintf("#%d", v.n)
	}
	return v.s
}

func isIntTerm(t *Term) bool {
	return t.k == KInt || t.k == KBits
}

var arithOps = map[string]bool{"eqc": true, "ltc": true, "bit": true, "ult": true, "slt": true, "and": true, "or": true, "xor": true,
	"andnot": true, "div": true, "mod": true, "mul": true, "shr": true, "shl": true, "trunc": true, "opq": true, "sar": true, "strunc": true}

func (r *rho) draw(t *Term) uint64 {
	if v, ok := r.ints[t]; ok {
		return v
	}
	w := atomWidth(t)
	var v uint64
	if s, ok := r.ctx.bset[t]; ok && w <= 8 {
		var c []int
		for i := 0; i < 256; i++ {
			if s.has(i) {
				c = append(c, i)
			}
		}
		if len(c) > 0 {
			v = uint64(c[r.rnd.Intn(len(c))])
			r.ints[t] = v
			return v
		}
	}
	if iv, ok := r.ctx.iv[intOf(t)]; ok && iv.lo <= iv.hi {
		switch r.rnd.Intn(4) {
		case 0:
			v = uint64(iv.lo)
		case 1:
			v = uint64(iv.hi)
		default:
			d := uint64(iv.hi) - uint64(iv.lo)
			if d == ^uint64(0) {
				v = r.rnd.Uint64()
			} else {
				lim := d + 1
				if lim > 64 && r.rnd.Intn(2) == 0 {
					lim = 64
				}
				v = uint64(iv.lo) + r.rnd.Uint64()%lim
			}
		}
		v &= maskW(w)
		r.ints[t] = v
		return v
	}
	switch {
	case assumedHuge[t]:
		v = 1 << 40
	case t.k == KOp && t.s == "len":
		v = uint64(r.rnd.Intn(24))
	default:
		switch r.rnd.Intn(5) {
		case 0:
			v = uint64(r.rnd.Intn(8))
		case 1:
			v = r.rnd.Uint64()
		case 2:
			if len(r.consts) > 0 {
				v = r.consts[r.rnd.Intn(len(r.consts))] + uint64(r.rnd.Intn(3)) - 1
			}
		case 3:
			v = ^uint64(0) >> uint(r.rnd.Intn(64))
		default:
			v = r.rnd.Uint64() >> uint(r.rnd.Intn(64))
		}
	}
	v &= maskW(w)
	r.ints[t] = v
	return v
}

func opaqueOp(s string) bool {
	return strings.HasPrefix(s, "call:") || strings.HasPrefix(s, "arr#") || s == "mapat" || s == "mapok" || s == "entrykey" || s == "hasentry"
}

func (r *rho) eval(t *Term) cval {
	if v, ok := r.memo[t]; ok {
		return v
	}
	v := r.eval1(t)
	r.memo[t] = v
	return v
}

func (r *rho) int(t *Term) uint64 {
	v := r.eval(t)
	if v.isInt {
		return v.n
	}
	h := fnv.New64a()
	h.Write([]byte(v.s))
	return h.Sum64() & maskW(atomWidth(t))
}

func (r *rho) eval1(t *Term) cval {
	switch t.k {
	case KInt:
		s := t.u
		for _, m := range t.ms {
			s += m.C * r.int(m.A)
		}
		return cval{isInt: true, n: s}
	case KBits:
		x := r.int(t.args[0]) >> t.u
		return cval{isInt: true, n: x & maskW(int(t.w))}
	case KBool:
		return cval{isInt: true, n: t.u}
	case KStr:
		return cval{s: "\"" + t.s}
	case KNil, KFlt, KFunc, KAlloc, KGlob:
		return cval{s: t.String()}
	case KCat:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, a := range t.args {
			v := r.eval(a)
			if v.isInt {
				sb.WriteString(v.String())
			} else {
				sb.WriteString(strings.TrimPrefix(v.s, "\""))
			}
		}
		return cval{s: sb.String()}
	case KSym:
		if strings.HasPrefix(t.s, "κ") || strings.HasPrefix(t.s, "λ") {
			r.unclean = true
		}
		return r.leaf(t)
	case KLoad:
		return r.leaf(t)
	case KOp:
		if arithOps[t.s] {
			xs := make([]uint64, len(t.args))
			for i, a := range t.args {
				xs[i] = r.int(a)
			}
			b := func(x bool) cval {
				if x {
					return cval{isInt: true, n: 1}
				}
				return cval{isInt: true}
			}
			n := func(x uint64) cval { return cval{isInt: true, n: x} }
			switch t.s {
			case "eqc":
				return b(xs[0] == xs[1])
			case "ltc":
				if e := t.args[0]; e.k == KInt && len(e.ms) == 1 && atomWidth(e.ms[0].A) == 64 && e.u == 0 && e.ms[0].C == 1 {
					return b(xs[0] < xs[1])
				}
				return b(int64(xs[0]) < int64(xs[1]))
			case "bit", "opq":
				return n(xs[0])
			case "ult":
				return b(xs[0] < xs[1])
			case "slt":
				return b(int64(xs[0]) < int64(xs[1]))
			case "and":
				return n(xs[0] & xs[1])
			case "or":
				return n(xs[0] | xs[1])
			case "xor":
				return n(xs[0] ^ xs[1])
			case "andnot":
				return n(xs[0] &^ xs[1])
			case "div":
				if xs[1] != 0 {
					return n(xs[0] / xs[1])
				}
				return n(0)
			case "mod":
				if xs[1] != 0 {
					return n(xs[0] % xs[1])
				}
				return n(0)
			case "mul":
				return n(xs[0] * xs[1])
			case "shr":
				if xs[1] < 64 {
					return n(xs[0] >> xs[1])
				}
				return n(0)
			case "shl":
				if xs[1] < 64 {
					return n(xs[0] << xs[1])
				}
				return n(0)
			case "trunc":
				return n(xs[0] & maskW(int(xs[1])))
			case "sar":
				return n(uint64(int64(xs[0]) >> min(xs[1], 63)))
			case "strunc":
				sz := xs[1]
				return n(uint64(int64(xs[0]<<(64-sz)) >> (64 - sz)))
			}
		}
		if t.s == "eq" {
			x, y := r.eval(t.args[0]), r.eval(t.args[1])
			if x.String() == y.String() {
				return cval{isInt: true, n: 1}
			}
			return cval{isInt: true}
		}
		if v, ok := r.timeCall(t); ok {
			return v
		}
		if opaqueOp(t.s) && !r.shared[t] {
			r.unclean = true
		}
		if t.s == "len" {
			if v := r.eval(t.args[0]); !v.isInt && strings.HasPrefix(v.s, "\"") && t.args[0].k == KCat {
				r.unclean = true
			}
			return cval{isInt: true, n: r.draw(t)}
		}
		if t.s == "decu" && len(t.args) == 1 {
			return cval{s: fmt.Sprintf("\"%d", r.int(t.args[0]))}
		}
		return r.free(t)
	}
	return r.free(t)
}

// sampleZone is the time zone in which witnesses are evaluated.
var sampleZone = time.FixedZone("SAMPLE", 5*3600+30*60)

// timeOf is the point in time that a term denotes, with its zone.
func (r *rho) timeOf(t *Term) (time.Time, bool) {
	if t.k == KStruct && len(t.args) == 3 {
		var x *Term
		for _, a := range t.args {
			if a.k == KInt && a.u == 0 && len(a.ms) == 1 && a.ms[0].C == 1 {
				a = a.ms[0].A
			}
			if a.k != KOp || !strings.HasPrefix(a.s, "field:") || len(a.args) != 1 || (x != nil && a.args[0] != x) {
				return time.Time{}, false
			}
			x = a.args[0]
		}
		return r.timeOf(x)
	}
	if t.k != KOp {
		return time.Time{}, false
	}
	name := strings.TrimPrefix(t.s, "call:")
	switch {
	case name == "time.Unix" && len(t.args) == 2:
		return time.Unix(int64(r.int(t.args[0])), int64(r.int(t.args[1]))).In(sampleZone), true
	case name == "(time.Time).UTC" && len(t.args) == 1:
		x, ok := r.timeOf(t.args[0])
		return x.UTC(), ok
	case name == "(time.Time).Local" && len(t.args) == 1:
		x, ok := r.timeOf(t.args[0])
		return x.In(sampleZone), ok
	case name == "(time.Time).Add" && len(t.args) == 2:
		x, ok := r.timeOf(t.args[0])
		return x.Add(time.Duration(r.int(t.args[1]))), ok
	}
	return time.Time{}, false
}

// timeCall evaluates the methods of a point in time.
func (r *rho) timeCall(t *Term) (cval, bool) {
	name := strings.TrimPrefix(t.s, "call:(time.Time).")
	if name == t.s || len(t.args) == 0 {
		return cval{}, false
	}
	x, ok := r.timeOf(t.args[0])
	if !ok {
		return cval{}, false
	}
	num := func(n int) (cval, bool) { return cval{isInt: true, n: uint64(n)}, true }
	switch name {
	case "Format":
		if len(t.args) == 2 && t.args[1].k == KStr {
			return cval{s: "\"" + x.Format(t.args[1].s)}, true
		}
	case "Year":
		return num(x.Year())
	case "Month":
		return num(int(x.Month()))
	case "Day":
		return num(x.Day())
	case "Hour":
		return num(x.Hour())
	case "Minute":
		return num(x.Minute())
	case "Second":
		return num(x.Second())
	case "Unix":
		return cval{isInt: true, n: uint64(x.Unix())}, true
	}
	return cval{}, false
}

// leaf is an input atom.
func (r *rho) leaf(t *Term) cval {
	if t.w > 0 {
		return cval{isInt: true, n: r.draw(t)}
	}
	if v, ok := r.vals[t]; ok {
		return cval{s: v}
	}
	if c, ok := r.ctx.eqs[t]; ok {
		return r.eval(c)
	}
	if p := r.pool[t]; len(p) > 0 && r.rnd.Intn(2) == 0 {
		v := p[r.rnd.Intn(len(p))]
		r.vals[t] = v
		return cval{s: v}
	}
	if r.usedAsInt(t) {
		return cval{isInt: true, n: r.draw(t)}
	}
	v := fmt.Sprintf("\"‹%d›", t.id)
	r.vals[t] = v
	return cval{s: v}
}

func (r *rho) usedAsInt(t *Term) bool { return intAtoms[t] }

var intAtoms = map[*Term]bool{}

// free evaluates an uninterpreted operation.
func (r *rho) free(t *Term) cval {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:%s(", t.k, t.s)
	for _, a := range t.args {
		sb.WriteString(r.eval(a).String())
		sb.WriteByte(',')
	}
	sb.WriteByte(')')
	h := fnv.New64a()
	h.Write([]byte(sb.String()))
	if t.w > 0 {
		if intAtoms[t] {
			if iv, ok := r.ctx.iv[intOf(t)]; ok && iv.lo <= iv.hi {
				_ = iv
				return cval{isInt: true, n: r.draw(t)}
			}
		}
		if s, ok := r.ctx.bset[t]; ok && atomWidth(t) <= 8 {
			_ = s
			return cval{isInt: true, n: r.draw(t)}
		}
		return cval{isInt: true, n: (h.Sum64() + uint64(r.rnd.Intn(1))) & maskW(atomWidth(t))}
	}
	if c, ok := r.ctx.eqs[t]; ok {
		return r.eval(c)
	}
	if t.k == KOp {
		return cval{s: fmt.Sprintf("\"‹%x›", h.Sum64())}
	}
	return cval{s: sb.String()}
}

func (r *rho) cond(a *Term) bool {
	v := r.eval(a)
	if v.isInt {
		return v.n&1 == 1
	}
	// an uninterpreted condition: a free choice, following the path
	if w, ok := r.ctx.lookup(a); ok {
		return w
	}
	h := fnv.New32a()
	h.Write([]byte(v.s))
	return h.Sum32()&1 == 1
}

func (r *rho) node(n *Node) cval {
	for n.leaf == nil {
		if r.cond(n.a) {
			n = n.hi
		} else {
			n = n.lo
		}
	}
	return r.eval(n.leaf)
}

// diffPaths collects paths on which equalN fails.
func diffPaths(a, b *Node, ctx *Ctx, out *[]*Ctx, budget *int) {
	*budget--
	tick()
	if a == b || len(*out) >= 24 || *budget < 0 {
		return
	}
	t := topVar(a, b)
	if t == nil {
		if sawContra = ctx.contradictory(); sawContra {
			return
		}
		x, y := substCtx(a.leaf, ctx), substCtx(b.leaf, ctx)
		if x != y {
			*out = append(*out, ctx)
		}
		return
	}
	if c1, ok := ctx.assume(t, true); ok {
		sawContra = false
		diffPaths(cof(a, t, true), cof(b, t, true), c1, out, budget)
		if sawContra {
			if sawContra = ctx.contradictory(); sawContra {
				return
			}
		}
	}
	if c0, ok := ctx.assume(t, false); ok {
		diffPaths(cof(a, t, false), cof(b, t, false), c0, out, budget)
	}
}

// opaqueIn collects the opaque terms of a diagram.
func opaqueIn(n *Node) map[*Term]bool {
	out, seen, sn := map[*Term]bool{}, map[*Term]bool{}, map[*Node]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.k == KOp && opaqueOp(t.s) {
			out[t] = true
		}
		for _, m := range t.ms {
			rec(m.A)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	var rn func(n *Node)
	rn = func(n *Node) {
		if sn[n] {
			return
		}
		sn[n] = true
		if n.leaf != nil {
			rec(n.leaf)
			return
		}
		rec(n.a)
		rn(n.hi)
		rn(n.lo)
	}
	rn(n)
	return out
}

func collectInts(n *Node) (consts []uint64) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.k == KInt {
			if len(t.ms) == 0 {
				consts = append(consts, t.u)
			}
			for _, m := range t.ms {
				a := m.A
				if a.k == KBits {
					a = a.args[0]
				}
				intAtoms[a] = true
				rec(a)
			}
		}
		if t.k == KBits {
			intAtoms[t.args[0]] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	sn := map[*Node]bool{}
	var rn func(n *Node)
	rn = func(n *Node) {
		if sn[n] {
			return
		}
		sn[n] = true
		if n.leaf != nil {
			rec(n.leaf)
			return
		}
		rec(n.a)
		rn(n.hi)
		rn(n.lo)
	}
	rn(n)
	return
}

// refuted looks for a valuation on which the diagrams differ.
func refuted(a, b *Node) (string, bool) {
	var ctxs []*Ctx
	budget := 200000
	diffPaths(a, b, emptyCtx, &ctxs, &budget)
	consts := append(collectInts(a), collectInts(b)...)
	shared, ob := opaqueIn(a), opaqueIn(b)
	for t := range shared {
		if !ob[t] {
			delete(shared, t)
		}
	}
	for seed := 0; seed < 60; seed++ {
		for i := 0; i <= len(ctxs); i++ {
			c := emptyCtx
			if i < len(ctxs) {
				c = ctxs[i]
			} else if seed > 20 {
				continue
			}
			r := &rho{rnd: rand.New(rand.NewSource(int64(seed*1000 + i))), ints: map[*Term]uint64{}, vals: map[*Term]string{},
				memo: map[*Term]cval{}, ctx: c, consts: consts, shared: shared}
			x, y := r.node(a), r.node(b)
			if x.String() != y.String() && !r.unclean {
				return fmt.Sprintf("%s\n      got  %s\n      want %s", c.String(), clip(x.String()), clip(y.String())), true
			}
		}
	}
	return "", false
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + " … " + s[len(s)-200:]
	}
	return s
}
