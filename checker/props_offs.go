package main

// The field offsets of a row whose header bytes are all unknown (C26, C27).

import (
	"fmt"
	"go/types"
)

// offsRun analyses a function that fills the offset array of a row and returns
// the entries of the array.
func (c *Check) offsRun(fname, sig string, cols []tcol, d []*Node, origin int, byTable bool) (ent []*Node, where string, ok bool) {
	f := c.fn(pIB, fname)
	if sigString(f) != sig {
		panic(undecided(fname + " takes other parameters than expected: " + sigString(f)))
	}
	c.curFn = f
	e := c.newTenv(tdef{12, "shop", "orders", cols})
	base := newAlloc("row page")
	e.m.set(base, vecOf(d))
	sl := func(at int) *Node {
		return leafN(mkSlice(base, mkConst(uint64(at)), mkConst(uint64(len(d)-at)), nil))
	}
	u64 := types.Typ[types.Uint64]
	n := len(cols) + 3
	zero := make([]Value, n)
	for i := range zero {
		zero[i] = constN(0)
	}
	ptr := heap(e.m, "offsets", types.NewSlice(u64), mkArr(e.m, "offset array", u64, zero...))
	args := []Value{e.recv, sl(0), constN(uint64(origin)), sl(origin), ptr}
	if byTable {
		args = append(args, e.objs[0])
	} else {
		args = append(args, constN(uint64(len(cols))))
	}
	r := c.exec(f, args, e.m, func(in *Interp) {
		in.panics = true
		in.forceUnroll = true
		in.unrollMax = 400
	})
	where = c.L.where(f, nil)
	for _, x := range r.in.escaped {
		if x.g == nTrue {
			panic(undecided("panics: " + x.why))
		}
		panic(undecided("a panic is possible: " + x.why))
	}
	out := loadAddr(r.st.mem, ptr.leaf, types.NewSlice(u64))
	for _, v := range elems(r.st.mem, out, u64) {
		ent = append(ent, asNode(v))
	}
	return ent, where, true
}

func bitOf(b *Node, k uint) *Node {
	return apply1(b, func(t *Term) *Node {
		return eqN(leafN(sliceT(t, int(k), 1)), constN(1))
	})
}

// compactOffs are the offsets of a COMPACT row as its header describes them.
func compactOffs(cols []tcol, d []*Node, origin int) []*Node {
	nNull := 0
	for _, k := range cols {
		if k.null {
			nNull++
		}
	}
	nulls := origin - 6
	lens := constN(uint64(nulls - (nNull+7)/8)) // position of the next length byte
	at := func(pos *Node) *Node { return apply1(pos, func(t *Term) *Node { return d[t.u] }) }
	sub := func(x *Node, n uint64) *Node { return apply1(x, func(t *Term) *Node { return constN(t.u - n) }) }
	offs := constN(0)
	var out []*Node
	k := 0
	for _, col := range cols {
		isNull := nFalse
		if col.null {
			isNull = bitOf(d[nulls-k/8], uint(k%8))
			k++
		}
		ln, next, ext := constN(col.fixed()), lens, nFalse
		if col.fixed() == 0 {
			b := at(lens)
			ln, next = b, sub(lens, 1)
			if col.long() {
				two := bitOf(b, 7)
				ext = andN(two, bitOf(b, 6))
				b2 := at(next)
				low := apply1(b, func(t *Term) *Node { return leafN(sliceT(t, 0, 6)) })
				l2 := addN(scaleN(low, 256), b2)
				ln = iteN(two, l2, ln)
				next = iteN(two, sub(next, 1), next)
			}
		}
		ln = iteN(isNull, constN(0), ln)
		lens = iteN(isNull, lens, next)
		ext = andN(ext, notN(isNull))
		offs = addN(offs, ln)
		flag := iteN(isNull, constN(1<<31), iteN(ext, constN(1<<30), constN(0)))
		out = append(out, addN(offs, flag))
	}
	return out
}

// redundantOffs are the offsets of a REDUNDANT row.
func redundantOffs(n int, d []*Node, origin int) []*Node {
	short := bitOf(d[origin-3], 0)
	var out []*Node
	for i := 0; i < n; i++ {
		b := d[origin-7-i]
		one := addN(apply1(b, func(t *Term) *Node { return leafN(sliceT(t, 0, 7)) }), iteN(bitOf(b, 7), constN(1<<31), constN(0)))
		h, l := d[origin-8-2*i], d[origin-7-2*i]
		two := addN(scaleN(apply1(h, func(t *Term) *Node { return leafN(sliceT(t, 0, 6)) }), 256), l)
		two = addN(two, iteN(bitOf(h, 7), constN(1<<31), constN(0)))
		two = addN(two, iteN(bitOf(h, 6), constN(1<<30), constN(0)))
		out = append(out, iteN(short, one, two))
	}
	return out
}

func scaleN(n *Node, f uint64) *Node {
	return apply1(n, func(t *Term) *Node { return leafN(scaleT(intOf(t), f)) })
}

const (
	sigOffsNew = "([]byte,uint64,[]byte,*[]uint64,Tables)(bool)"
	sigOffsOld = "([]byte,uint64,[]byte,*[]uint64,uint64)()"
)

func (c *Check) rowOffsets(compact bool) {
	c.rule("flags", "for unknown header bytes the end and the flags of each field are those the header describes")
	c.rule("field", "a field begins where the field before it ends and has the length up to its own end, or is NULL")
	short := func(n string, null bool) tcol { return tcol{n, dtVarmysql, mtVarchar, 100, null, false, false} }
	long := func(n string, null bool) tcol { return tcol{n, dtVarmysql, mtVarchar, 256, null, false, false} }
	blob := func(n string, null bool) tcol { return tcol{n, dtBlob, tBlobT, 12, null, false, true} }
	vbin := func(n string, null bool) tcol { return tcol{n, dtBinary, mtVarchar, 300, null, false, true} }
	lat := func(n string, null bool) tcol { return tcol{n, dtVarchar, mtVarchar, 255, null, false, false} }
	num := func(n string, null bool) tcol { return tcol{n, dtInt, mtLong, 4, null, true, false} }
	tim := func(n string, null bool) tcol { return tcol{n, dtFixbinary, mtTimestamp, 5, null, false, false} }
	kinds := []func(string, bool) tcol{short, long, num, blob, vbin, lat, tim}
	var tables [][]tcol
	for i := range kinds {
		for j := range kinds {
			for m := 0; m < 8; m++ {
				t := []tcol{kinds[i]("a", m&1 == 1), kinds[j]("b", m&2 == 2), kinds[(i+j)%len(kinds)]("c", m&4 == 4)}
				tables = append(tables, t)
			}
		}
	}
	for _, n := range []int{7, 8, 9, 15, 16, 17, 24, 30} {
		var all, mix []tcol
		for i := 0; i < n; i++ {
			all = append(all, num(fmt.Sprintf("c%d", i), true))
			mix = append(mix, num(fmt.Sprintf("c%d", i), true), num(fmt.Sprintf("d%d", i), false))
		}
		tables = append(tables, all, mix)
	}
	fname, sig := "ibRecInitOffsetsNew", sigOffsNew
	if !compact {
		fname, sig = "ibRecInitOffsetsOld", sigOffsOld
		tables = nil
		for n := 1; n <= 40; n++ {
			var t []tcol
			for i := 0; i < n; i++ {
				t = append(t, num(fmt.Sprintf("c%d", i), true))
			}
			tables = append(tables, t)
		}
	}
	for _, t := range tables {
		t := t
		name := ""
		for _, k := range t {
			s := "fixed"
			if k.fixed() == 0 {
				s = fmt.Sprintf("type %d up to %d", k.mtype, k.flen)
			}
			if k.null {
				s += " nullable"
			}
			if len(t) > 3 {
				name = fmt.Sprintf("%d columns", len(t))
				break
			}
			if name != "" {
				name += ", "
			}
			name += s
		}
		if len(t) > 3 && compact {
			name += fmt.Sprintf(", second nullable %t", t[1].null)
		}
		c.try("flags", name, func() {
			tickCount = 0
			d := fb("row", 160)
			origin := 130
			got, where, _ := c.offsRun(fname, sig, t, d, origin, compact)
			var want []*Node
			if compact {
				want = compactOffs(t, d, origin)
			} else {
				want = redundantOffs(len(t), d, origin)
			}
			if len(got) < len(t)+3 {
				panic(undecided("the offsets are kept in another way"))
			}
			c.eq("flags", name+": number of fields", where, got[1], constN(uint64(len(t))), nil)
			for i := range t {
				c.eq("flags", fmt.Sprintf("%s: field %d", name, i), where, got[3+i], want[i], nil)
			}
		})
	}
	c.try("field", "RecGetNthFieldOffs", func() {
		f := c.fn(pUtils, "RecGetNthFieldOffs")
		if sigString(f) != "([]uint64,int,*uint64)(uint64)" {
			panic(undecided("RecGetNthFieldOffs takes other parameters than expected: " + sigString(f)))
		}
		u64 := types.Typ[types.Uint64]
		for n := 0; n < 4; n++ {
			m := newMem()
			// ends below 2^30 with the two flags
			var vs []Value
			var end, null []*Node
			for i := 0; i < 8; i++ {
				s := sym(fmt.Sprintf("offset %d", i), types.Typ[types.Uint16])
				nl := eqN(asNode(sym(fmt.Sprintf("null %d", i), tBool)), nTrue)
				ex := eqN(asNode(sym(fmt.Sprintf("extern %d", i), tBool)), nTrue)
				end, null = append(end, asNode(s)), append(null, nl)
				vs = append(vs, addN(asNode(s), addN(iteN(nl, constN(1<<31), constN(0)), iteN(ex, constN(1<<30), constN(0)))))
			}
			ln := heap(m, "length", u64, constN(7))
			r := c.exec(f, []Value{mkArr(m, "offsets", u64, vs...), constN(uint64(n)), ln}, m, nil)
			where := c.L.where(f, nil)
			from := constN(0)
			if n > 0 {
				from = end[2+n]
			}
			c.eq("field", fmt.Sprintf("start of field %d", n), where, asNode(r.res[0]), from, nil)
			got := asNode(loadAddr(r.st.mem, ln.leaf, u64))
			want := iteN(null[3+n], constN(0xFFFFFFFF), addN(end[3+n], scaleN(from, ^uint64(0))))
			c.eq("field", fmt.Sprintf("length of field %d", n), where, got, want, nil)
		}
	})
}
