package main

// Canonical value terms.
//
// Every abstract value is a hash-consed term in normal form, so two
// computations that are equal by the algebra below are the same pointer:
//   - integers are linear sums  c + sum(coef * atom)  modulo 2^64, where an atom
//     may be a bit slice of an input value (so shifts, masks, or-ing of disjoint
//     parts and additions of the same bytes all meet in one form);
//   - strings are flattened concatenations;
//   - everything else is an uninterpreted constructor.

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"
)

type Kind uint8

const (
	KInt Kind = iota // linear integer
	KBool
	KStr // constant string
	KFlt // constant float (text)
	KNil
	KCat   // string concatenation
	KSym   // opaque symbol
	KLoad  // initial content of an address
	KBits  // bit slice of an integer atom: args[0], lo=u, width=w
	KOp    // uninterpreted operation
	KAlloc // address of an allocation
	KGlob  // address of a global
	KFld   // address of a field
	KElem  // address of an element: args[0]=array base, args[1]=index
	KSlice // base, off, len
	KStruct
	KIface // dynamic type str, args[0]
	KFunc  // function value
)

type Mono struct {
	A *Term
	C uint64
}

type Term struct {
	id   int
	k    Kind
	s    string
	u    uint64
	args []*Term
	ms   []Mono
	w    uint8 // width in bits of an unsigned integer atom (64: unknown)
	typ  types.Type
	aux  interface{}
	node *Node // the leaf of this term
}

var (
	terms   = map[string]*Term{}
	termSeq int
)

var internBuf []byte

func intern(t *Term) *Term {
	b := internBuf[:0]
	b = append(b, byte(t.k), byte(t.w))
	b = binary.AppendUvarint(b, t.u)
	b = binary.AppendUvarint(b, uint64(len(t.s)))
	b = append(b, t.s...)
	b = binary.AppendUvarint(b, uint64(len(t.args)))
	for _, a := range t.args {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	for _, m := range t.ms {
		b = binary.AppendUvarint(b, uint64(m.A.id))
		b = binary.AppendUvarint(b, uint64(m.C))
	}
	if t.typ != nil && (t.k == KStruct || t.k == KIface) {
		b = append(b, '|')
		b = append(b, t.typ.String()...)
	}
	internBuf = b
	if o, ok := terms[string(b)]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	t.node = nil
	terms[string(b)] = t
	return t
}

var (
	tTrue  = intern(&Term{k: KBool, u: 1})
	tFalse = intern(&Term{k: KBool, u: 0})
	tNil   = intern(&Term{k: KNil})
)

func mkStr(s string) *Term { return intern(&Term{k: KStr, s: s}) }
func mkFlt(s string) *Term { return intern(&Term{k: KFlt, s: s}) }
func mkSym(name string, w int) *Term {
	return intern(&Term{k: KSym, s: name, w: uint8(w)})
}
func mkOp(name string, w int, args ...*Term) *Term {
	return intern(&Term{k: KOp, s: name, w: uint8(w), args: args})
}
func mkBoolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var smallInts [1 << 15]*Term

func mkConst(c uint64) *Term {
	if c < uint64(len(smallInts)) {
		if t := smallInts[c]; t != nil {
			return t
		}
		t := intern(&Term{k: KInt, u: c})
		smallInts[c] = t
		return t
	}
	return intern(&Term{k: KInt, u: c})
}

func isConst(t *Term) (uint64, bool) {
	if t.k == KInt && len(t.ms) == 0 {
		return t.u, true
	}
	return 0, false
}

// width of an integer atom
func atomWidth(t *Term) int {
	if t.w == 0 || t.w > 64 {
		return 64
	}
	return int(t.w)
}

// mkLin normalises a linear sum.
func mkLin(c uint64, coefs map[*Term]uint64) *Term {
	// c*Div(X,n) with c a non-zero multiple of n  ->  (c/n)*(X - Mod(X,n))
	for changed := true; changed; {
		changed = false
		var ks []*Term
		for a := range coefs {
			ks = append(ks, a)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, a := range ks {
			cf := coefs[a]
			if cf == 0 {
				delete(coefs, a)
				continue
			}
			if a.k == KOp && a.s == "div" {
				n, _ := isConst(a.args[1])
				var q uint64
				var ok bool
				if n > 1 {
					if cf%n == 0 {
						q, ok = cf/n, true
					} else if (-cf)%n == 0 {
						q, ok = -((-cf) / n), true
					}
				}
				if ok {
					delete(coefs, a)
					x := a.args[0]
					c += q * x.u
					for _, m := range x.ms {
						coefs[m.A] += q * m.C
					}
					md := mkMod(x, n)
					c -= q * md.u
					for _, m := range md.ms {
						coefs[m.A] -= q * m.C
					}
					changed = true
					break
				}
			}
		}
	}
	// merge bit slices of the same base
	type vec struct {
		base *Term
		co   [64]uint64
	}
	groups := map[*Term]bool{}
	for a := range coefs {
		if a.k == KBits {
			groups[a.args[0]] = true
		}
	}
	out := map[*Term]uint64{}
	vecs := map[*Term]*vec{}
	for a, cf := range coefs {
		if cf == 0 {
			continue
		}
		base, lo, w := a, 0, atomWidth(a)
		if a.k == KBits {
			base, lo = a.args[0], int(a.u)
		}
		if groups[base] {
			v := vecs[base]
			if v == nil {
				v = &vec{base: base}
				vecs[base] = v
			}
			for i := 0; i < w; i++ {
				v.co[lo+i] += cf << uint(i)
			}
			continue
		}
		out[a] += cf
	}
	for _, v := range vecs {
		bw := atomWidth(v.base)
		for i := 0; i < bw; {
			if v.co[i] == 0 {
				i++
				continue
			}
			j := i
			for j+1 < bw && v.co[j+1] == v.co[j]<<1 && v.co[j+1] != 0 {
				j++
			}
			out[mkBits(v.base, i, j-i+1)] += v.co[i]
			i = j + 1
		}
	}
	for a, cf := range out {
		if cf != 0 && a.k == KOp && a.s == "opq" {
			// all bits together are the expression itself
			delete(out, a)
			x := a.args[0]
			c += cf * x.u
			for _, m := range x.ms {
				out[m.A] += cf * m.C
			}
			return mkLin(c, out)
		}
	}
	var ms []Mono
	for a, cf := range out {
		if cf != 0 {
			ms = append(ms, Mono{a, cf})
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].A.id < ms[j].A.id })
	return intern(&Term{k: KInt, u: c, ms: ms})
}

func mkBits(base *Term, lo, w int) *Term {
	if lo == 0 && w == atomWidth(base) {
		return base
	}
	return intern(&Term{k: KBits, u: uint64(lo), w: uint8(w), args: []*Term{base}})
}

// intOf makes an integer atom a linear term.
func intOf(a *Term) *Term {
	if a.k == KInt {
		return a
	}
	return mkLin(0, map[*Term]uint64{a: 1})
}

func linMap(t *Term) map[*Term]uint64 {
	m := map[*Term]uint64{}
	for _, x := range t.ms {
		m[x.A] = x.C
	}
	return m
}

func addT(a, b *Term) *Term { return addScaled(a, b, 1) }
func subT(a, b *Term) *Term { return addScaled(a, b, ^uint64(0)) }
func addScaled(a, b *Term, k uint64) *Term {
	if a.k != KInt {
		a = intOf(a)
	}
	if b.k != KInt {
		b = intOf(b)
	}
	m := linMap(a)
	for _, x := range b.ms {
		m[x.A] += k * x.C
	}
	return mkLin(a.u+k*b.u, m)
}
func scaleT(a *Term, k uint64) *Term {
	return addScaled(mkConst(0), a, k)
}

func mulT(a, b *Term) *Term {
	if c, ok := isConst(a); ok {
		return scaleT(b, c)
	}
	if c, ok := isConst(b); ok {
		return scaleT(a, c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intOf(mkOp("mul", 64, a, b))
}

// ---- bit level -------------------------------------------------------------

// a literal bit: 0, 1, or (possibly negated) bit idx of a base atom
type bit struct {
	t   *Term
	idx int
	neg bool
	one bool // constant one when t==nil
}

func (b bit) isConst() bool { return b.t == nil }
func (b bit) not() bit {
	if b.t == nil {
		return bit{one: !b.one}
	}
	b.neg = !b.neg
	return b
}
func (b bit) sameVar(c bit) bool { return b.t == c.t && b.idx == c.idx }

// bitFn builds the function of the single variable v with value f0 at 0, f1 at 1.
func bitFn(v bit, f0, f1 bool) bit {
	switch {
	case f0 == f1:
		return bit{one: f0}
	case f1:
		v.neg = false
		return v
	default:
		v.neg = true
		return v
	}
}
func (b bit) at(x bool) bool {
	if b.t == nil {
		return b.one
	}
	return x != b.neg
}

type bitvec [64]bit

func combine(f func(xs ...bool) bool, bs ...bit) (bit, bool) {
	var v bit
	for _, b := range bs {
		if b.isConst() {
			continue
		}
		if v.t == nil {
			v = b
		} else if !v.sameVar(b) {
			return bit{}, false
		}
	}
	ev := func(x bool) bool {
		xs := make([]bool, len(bs))
		for i, b := range bs {
			xs[i] = b.at(x)
		}
		return f(xs...)
	}
	if v.t == nil {
		return bit{one: ev(false)}, true
	}
	return bitFn(v, ev(false), ev(true)), true
}

func addBits(a, b bitvec) (bitvec, bool) {
	var out bitvec
	carry := bit{}
	for i := 0; i < 64; i++ {
		s, ok := combine(func(x ...bool) bool { return x[0] != x[1] != x[2] }, a[i], b[i], carry)
		if !ok {
			return out, false
		}
		c, ok := combine(func(x ...bool) bool {
			n := 0
			for _, v := range x {
				if v {
					n++
				}
			}
			return n >= 2
		}, a[i], b[i], carry)
		if !ok {
			return out, false
		}
		out[i], carry = s, c
	}
	return out, true
}

func constBits(c uint64) bitvec {
	var v bitvec
	for i := range v {
		v[i].one = c>>uint(i)&1 == 1
	}
	return v
}

var bitsCache = map[*Term]*bitvec{}

func toBits(t *Term) (bitvec, bool) {
	if v, ok := bitsCache[t]; ok {
		if v == nil {
			return bitvec{}, false
		}
		return *v, true
	}
	v, ok := toBits1(t)
	if ok {
		bitsCache[t] = &v
	} else {
		bitsCache[t] = nil
	}
	return v, ok
}

func toBits1(t *Term) (bitvec, bool) {
	if t.k != KInt {
		t = intOf(t)
	}
	c := t.u
	var parts []bitvec
	for _, m := range t.ms {
		w := atomWidth(m.A)
		base, lo := m.A, 0
		if base.k == KBits {
			base, lo = m.A.args[0], int(m.A.u)
		}
		cf, neg := m.C, false
		if bits.OnesCount64(cf) != 1 {
			cf = -cf
			neg = true
			if bits.OnesCount64(cf) != 1 {
				return bitvec{}, false
			}
		}
		k := bits.TrailingZeros64(cf)
		var v bitvec
		for i := 0; i < w && k+i < 64; i++ {
			v[k+i] = bit{t: base, idx: lo + i, neg: neg}
		}
		if neg {
			var mask uint64 = ^uint64(0)
			if w < 64 {
				mask = 1<<uint(w) - 1
			}
			c -= cf * mask
		}
		parts = append(parts, v)
	}
	acc := constBits(0)
	ok := true
	for _, p := range parts {
		acc, ok = addBits(acc, p)
		if !ok {
			return bitvec{}, false
		}
	}
	if c != 0 {
		acc, ok = addBits(acc, constBits(c))
	}
	return acc, ok
}

func fromBits(v bitvec) *Term {
	m := map[*Term]uint64{}
	var c uint64
	for i, b := range v {
		p := uint64(1) << uint(i)
		if b.t == nil {
			if b.one {
				c += p
			}
			continue
		}
		a := mkBits(b.t, b.idx, 1)
		if b.neg {
			c += p
			m[a] -= p
		} else {
			m[a] += p
		}
	}
	return mkLin(c, m)
}

func bitwise(op string, a, b *Term) *Term {
	if op == "and" {
		// a mask that covers the whole value range is the identity
		for i := 0; i < 2; i++ {
			if c, ok := isConst(b); ok {
				if _, hi, ok := urange(a); ok && c&(c+1) == 0 && hi <= c {
					return a
				}
			}
			a, b = b, a
		}
	}
	x, ok1 := toBits(a)
	y, ok2 := toBits(b)
	if ok1 && ok2 {
		var out bitvec
		good := true
		for i := range x {
			r, ok := combine(func(v ...bool) bool {
				switch op {
				case "and":
					return v[0] && v[1]
				case "or":
					return v[0] || v[1]
				case "xor":
					return v[0] != v[1]
				case "andnot":
					return v[0] && !v[1]
				}
				panic(op)
			}, x[i], y[i])
			if !ok {
				// absorbing constants
				switch {
				case op == "and" && (x[i] == bit{} || y[i] == bit{}):
					r, ok = bit{}, true
				}
			}
			if !ok {
				good = false
				break
			}
			out[i] = r
		}
		if good {
			return fromBits(out)
		}
	}
	if op == "and" {
		for i := 0; i < 2; i++ {
			if c, ok := isConst(b); ok {
				return maskT(a, c)
			}
			a, b = b, a
		}
	}
	if op == "or" {
		// disjoint in range (one is a multiple of 2^k, the other is below 2^k)
		for i := 0; i < 2; i++ {
			if _, hi, ok := urange(b); ok {
				k := bits.Len64(hi)
				if multipleOf(a, k) {
					return addT(a, b)
				}
			}
			a, b = b, a
		}
	}
	if op == "andnot" {
		if c, ok := isConst(b); ok {
			return bitwise("and", a, mkConst(^c))
		}
		w := 64
		if _, hi, ok := urange(a); ok {
			w = bits.Len64(hi)
		}
		return intOf(mkOp("andnot", max(w, 1), a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	w := 64
	_, ha, oka := urange(a)
	_, hb, okb := urange(b)
	if oka && okb {
		if op == "and" {
			w = bits.Len64(min(ha, hb))
		} else {
			w = bits.Len64(max(ha, hb))
		}
	} else if op == "and" && oka {
		w = bits.Len64(ha)
	} else if op == "and" && okb {
		w = bits.Len64(hb)
	}
	if w == 0 {
		return mkConst(0)
	}
	return intOf(mkOp(op, w, a, b))
}

func multipleOf(t *Term, k int) bool {
	if k >= 64 {
		return false
	}
	m := uint64(1)<<uint(k) - 1
	if t.u&m != 0 {
		return false
	}
	for _, x := range t.ms {
		if x.C&m != 0 {
			return false
		}
	}
	return true
}

func notT(a *Term) *Term { return subT(mkConst(^uint64(0)), a) }

func shlT(a, b *Term) *Term {
	if c, ok := isConst(b); ok {
		if c >= 64 {
			return mkConst(0)
		}
		return scaleT(a, 1<<c)
	}
	return intOf(mkOp("shl", 64, a, b))
}

func shrT(a, b *Term, signed bool) *Term {
	if c, ok := isConst(b); ok {
		if v, ok := isConst(a); ok {
			if signed {
				if c > 63 {
					c = 63
				}
				return mkConst(uint64(int64(v) >> c))
			}
			if c >= 64 {
				return mkConst(0)
			}
			return mkConst(v >> c)
		}
		if c == 0 {
			return a
		}
		if v, ok := toBits(a); ok {
			var out bitvec
			for i := 0; i < 64; i++ {
				if uint64(i)+c < 64 {
					out[i] = v[uint64(i)+c]
				} else if signed {
					out[i] = v[63]
				}
			}
			return fromBits(out)
		}
		if c >= 64 {
			return mkConst(0)
		}
		if !signed || nonNeg(a) {
			return sliceT(a, int(c), 64-int(c))
		}
		return intOf(mkOp("sar", 64, a, b))
	}
	if signed {
		return intOf(mkOp("sar", 64, a, b))
	}
	return intOf(mkOp("shr", 64, a, b))
}

func mkMod(a *Term, n uint64) *Term {
	if c, ok := isConst(a); ok {
		return mkConst(c % n)
	}
	if _, hi, ok := urange(a); ok && hi < n {
		return a
	}
	if n&(n-1) == 0 {
		if r := bitwise("and", a, mkConst(n-1)); r != nil {
			return r
		}
	}
	return intOf(mkOp("mod", bits.Len64(n-1), a, mkConst(n)))
}

func divT(a, b *Term) *Term {
	n, ok := isConst(b)
	if !ok || n == 0 {
		return intOf(mkOp("div", 64, a, b))
	}
	if n == 1 {
		return a
	}
	if c, ok := isConst(a); ok {
		return mkConst(c / n)
	}
	if n&(n-1) == 0 {
		return shrT(a, mkConst(uint64(bits.TrailingZeros64(n))), false)
	}
	if len(a.ms) == 1 && a.u == 0 && a.ms[0].C == 1 {
		if d := a.ms[0].A; d.k == KOp && d.s == "div" {
			if n0, ok := isConst(d.args[1]); ok {
				if h, l := bits.Mul64(n0, n); h == 0 {
					return divT(d.args[0], mkConst(l))
				}
			}
		}
	}
	_, hi, okr := urange(a)
	w := 64
	if okr {
		if hi < n {
			return mkConst(0)
		}
		w = bits.Len64(hi / n)
	}
	return intOf(mkOp("div", w, a, b))
}

func modT(a, b *Term) *Term {
	n, ok := isConst(b)
	if !ok || n == 0 {
		return intOf(mkOp("mod", 64, a, b))
	}
	return mkMod(a, n)
}

// urange gives an unsigned interval for a linear term (no wrap-around).
func urange(t *Term) (lo, hi uint64, ok bool) {
	if t.k != KInt {
		t = intOf(t)
	}
	if len(t.ms) == 0 {
		return t.u, t.u, true
	}
	lo, hi = t.u, t.u
	for _, m := range t.ms {
		w := atomWidth(m.A)
		if int64(m.C) < 0 {
			// maybe representable through bits
			return urangeBits(t)
		}
		var mx uint64 = ^uint64(0)
		if w < 64 {
			mx = 1<<uint(w) - 1
		}
		if m.A.k == KOp && m.A.s == "mod" {
			if n, ok := isConst(m.A.args[1]); ok {
				mx = n - 1
			}
		}
		h, l := bits.Mul64(mx, m.C)
		if h != 0 {
			return 0, 0, false
		}
		s, cr := bits.Add64(hi, l, 0)
		if cr != 0 {
			return 0, 0, false
		}
		hi = s
	}
	return lo, hi, true
}

func urangeBits(t *Term) (lo, hi uint64, ok bool) {
	v, ok := toBits(t)
	if !ok {
		return 0, 0, false
	}
	for i, b := range v {
		if b.t != nil {
			hi |= 1 << uint(i)
		} else if b.one {
			hi |= 1 << uint(i)
			lo |= 1 << uint(i)
		}
	}
	return lo, hi, true
}

func nonNeg(t *Term) bool {
	_, hi, ok := urange(t)
	return ok && hi < 1<<63
}

// wrap brings a value into the range of a sized integer type.
func wrap(t *Term, size int, signed bool) *Term {
	if size >= 64 {
		return t
	}
	m := uint64(1)<<uint(size) - 1
	if c, ok := isConst(t); ok {
		c &= m
		if signed && c>>uint(size-1)&1 == 1 {
			c |= ^m
		}
		return mkConst(c)
	}
	if _, hi, ok := urange(t); ok {
		if !signed && hi <= m || signed && hi <= m>>1 {
			return t
		}
	}
	if v, ok := toBits(t); ok {
		for i := size; i < 64; i++ {
			if signed {
				v[i] = v[size-1]
			} else {
				v[i] = bit{}
			}
		}
		return fromBits(v)
	}
	name := "trunc"
	if signed {
		return intOf(mkOp("strunc", 64, t, mkConst(uint64(size))))
	}
	_ = name
	return sliceT(t, 0, size)
}

// opq is an integer expression as a 64 bit word whose bits can be taken apart.
func opq(t *Term) *Term {
	if len(t.ms) == 1 && t.u == 0 && t.ms[0].C == 1 {
		return t.ms[0].A
	}
	w := 64
	if _, hi, ok := urange(t); ok {
		w = max(bits.Len64(hi), 1)
	}
	return mkOp("opq", w, t)
}

// sliceT is the value of bits lo..lo+w-1 of an integer term.
func sliceT(t *Term, lo, w int) *Term {
	if v, ok := toBits(t); ok {
		var out bitvec
		for i := 0; i < w && lo+i < 64; i++ {
			out[i] = v[lo+i]
		}
		return fromBits(out)
	}
	o := opq(t)
	ow := atomWidth(o)
	base, bl := o, 0
	if o.k == KBits {
		base, bl = o.args[0], int(o.u)
	}
	if lo >= ow {
		return mkConst(0)
	}
	if lo+w > ow {
		w = ow - lo
	}
	return mkLin(0, map[*Term]uint64{mkBits(base, bl+lo, w): 1})
}

// maskT keeps the bits of a constant mask, run by run.
func maskT(t *Term, c uint64) *Term {
	acc := mkConst(0)
	for lo := 0; lo < 64; {
		if c>>uint(lo)&1 == 0 {
			lo++
			continue
		}
		hi := lo
		for hi < 64 && c>>uint(hi)&1 == 1 {
			hi++
		}
		acc = addScaled(acc, sliceT(t, lo, hi-lo), 1<<uint(lo))
		lo = hi
	}
	return acc
}

// ---- strings -----------------------------------------------------------------

func catT(parts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.k == KCat {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.k == KStr {
			if t.s == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].k == KStr {
				out[n-1] = mkStr(out[n-1].s + t.s)
				return
			}
		}
		out = append(out, t)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{k: KCat, args: out})
}

func catParts(t *Term) []*Term {
	if t.k == KCat {
		return t.args
	}
	if t.k == KStr && t.s == "" {
		return nil
	}
	return []*Term{t}
}

// ---- printing ----------------------------------------------------------------

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.k {
	case KInt:
		var ps []string
		for _, m := range t.ms {
			c := int64(m.C)
			switch {
			case c == 1:
				ps = append(ps, m.A.str(d+1))
			case c == -1:
				ps = append(ps, "-"+m.A.str(d+1))
			default:
				ps = append(ps, fmt.Sprintf("%d*%s", c, m.A.str(d+1)))
			}
		}
		if t.u != 0 || len(ps) == 0 {
			if int64(t.u) < 0 {
				ps = append(ps, fmt.Sprintf("%d", int64(t.u)))
			} else {
				ps = append(ps, fmt.Sprintf("%d", t.u))
			}
		}
		return strings.ReplaceAll(strings.Join(ps, "+"), "+-", "-")
	case KBool:
		if t.u == 1 {
			return "true"
		}
		return "false"
	case KStr:
		return fmt.Sprintf("%q", t.s)
	case KFlt:
		return t.s
	case KNil:
		return "nil"
	case KSym:
		return t.s
	case KLoad:
		return "*" + t.args[0].str(d+1)
	case KBits:
		if t.w == 1 {
			return fmt.Sprintf("%s.bit%d", t.args[0].str(d+1), t.u)
		}
		return fmt.Sprintf("%s.bits[%d..%d]", t.args[0].str(d+1), t.u, t.u+uint64(t.w)-1)
	case KAlloc, KGlob:
		return t.s
	case KFld:
		return fmt.Sprintf("%s.%s", t.args[0].str(d+1), t.s)
	case KElem:
		return fmt.Sprintf("%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case KSlice:
		return fmt.Sprintf("slice(%s,%s,len %s)", t.args[0].str(d+1), t.args[1].str(d+1), t.args[2].str(d+1))
	}
	name := t.s
	switch t.k {
	case KCat:
		name = "cat"
	case KStruct:
		name = "struct"
	case KIface:
		name = "iface<" + t.s + ">"
	case KFunc:
		name = "func " + t.s
	}
	var ps []string
	for _, a := range t.args {
		ps = append(ps, a.str(d+1))
	}
	return name + "(" + strings.Join(ps, ", ") + ")"
}
