package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	pUtils  = "recovery/utils"
	pIB     = "recovery/ibdata"
	pRedo   = "recovery/redo"
	pLogs   = "recovery/logs"
	pMain   = "cmd/db-recovery"
	techVal = "abstract interpretation of the SSA form (value numbering over decision diagrams), compared with reference semantics"
)

func init() {
	prop("C09", techVal,
		"Every fixed-width reader is analysed for all byte contents at once; its result term is compared with the big-endian reference and every slice access on the way is bounded by the width.",
		checkC09)
	prop("C10", techVal,
		"GetIntValue, GetUintValue and ParseData are analysed for each width and signedness with unknown bytes; the printed form of the result is compared with the two's-complement / unsigned reference.",
		checkC10)
	prop("C11", techVal,
		"The compressed-integer readers and size functions are analysed for unknown bytes, values and positions and compared with the InnoDB encoding rules on every path of their decision diagrams.",
		checkC11, "the encoded integer lies completely inside the data")
}

// bounded counts the accesses to a base and requires index < k.
func accessRule(c *Check, rule, construct string, base *Term, k uint64, n *int) func(*Interp) {
	return func(in *Interp) {
		in.onAccess = func(in *Interp, fr *Frame, st *State, b, idx, ln *Node, ins ssa.Instruction) {
			for _, t := range leaves(b) {
				at := idx
				if t.k == KSlice {
					at = addN(idx, leafN(t.args[1]))
					t = t.args[0]
				}
				if _, ok := ins.(*ssa.IndexAddr); !ok || t != base {
					continue
				}
				*n++
				bad := andN(st.g, notN(ultN(at, constN(k))))
				bad = pruneG(bad)
				c.obOut(rule, construct, c.L.where(fr.fn, ins), bad, "reads byte "+at.String()+" outside the field "+guardStr(bad))
			}
		}
	}
}

func sliceBase(v Value) *Term {
	n := asNode(v)
	if n.leaf != nil && n.leaf.k == KSlice {
		return n.leaf.args[0]
	}
	panic(undecided("not a slice value"))
}

func checkC09(c *Check) {
	c.rule("value", "result term equals the big-endian reference of the first k bytes for every content")
	c.rule("extent", "every element access of the argument has an index below k")
	for _, k := range []int{1, 2, 3, 4, 7, 8} {
		name := fmt.Sprintf("MatchReadFrom%d", k)
		c.try("value", name, func() {
			f := c.fn(pUtils, name)
			b := sym("b", tBytes)
			n := 0
			got := c.exec(f, []Value{b}, nil, accessRule(c, "extent", name, sliceBase(b), uint64(k), &n))
			want := c.exec(c.spec(fmt.Sprintf("BE%d", k)), []Value{b}, nil, nil)
			c.equiv("value", name, got, want)
			c.atLeast("extent", "accesses in "+name, n, 1)
		})
	}
}

func rendered(r *run, i int) *Node {
	return view(r.st.mem, r.res[i], r.fn.Signature.Results().At(i).Type())
}

// renderInt is the decimal text of an integer result.
func renderInt(n *Node, signed bool) *Node {
	t := types.Type(types.Typ[types.Uint64])
	if signed {
		t = types.Typ[types.Int64]
	}
	return apply1(n, func(x *Term) *Node {
		return fmtVal(newMem(), "%v", intern(&Term{k: KIface, s: typeStr(t), args: []*Term{x}, aux: t}))
	})
}

// parseData runs utils.ParseData for one column type.
func (c *Check) parseData(dt, mt, fixLen uint64, data Value, flen *Node, unsigned, binary bool) (*run, *Node) {
	return c.parseDataIn(newMem(), dt, mt, fixLen, data, flen, unsigned, binary)
}

func (c *Check) parseDataIn(m *Mem, dt, mt, fixLen uint64, data Value, flen *Node, unsigned, binary bool) (*run, *Node) {
	f := c.fn(pUtils, "ParseData")
	cell := newAlloc("isbinary")
	noteCell(cell, tBool)
	storeAddr(m, cell, boolN(binary))
	args := make([]Value, len(f.Params))
	// by position: DataType, MySQLType, data, FieldLen, FixLength, IsUnsigned, *IsBinary
	if len(args) != 7 {
		panic(undecided("ParseData takes other parameters than expected"))
	}
	args[0], args[1], args[2], args[3], args[4] = constN(dt), constN(mt), data, flen, constN(fixLen)
	args[5], args[6] = boolN(unsigned), leafN(cell)
	r := c.exec(f, args, m, func(in *Interp) {
		if n, ok := isConstN(flen); ok {
			in.unrollMax = int(n) + 40
		}
	})
	out := asNode(loadAddr(r.st.mem, cell, tBool))
	return r, out
}

// mysql type codes
const (
	mtTiny, mtShort, mtLong, mtLonglong, mtInt24                      = 1, 2, 3, 8, 9
	mtTimestamp, mtDate, mtTime, mtDatetime, mtYear, mtVarchar, mtBit = 7, 10, 11, 12, 13, 15, 16
	mtString                                                          = 254
	dtVarchar, dtChar, dtFixbinary, dtBinary, dtBlob, dtInt           = 1, 2, 3, 4, 5, 6
	dtFloat, dtDouble, dtDecimal, dtVarmysql, dtMysql                 = 9, 10, 11, 12, 13
)

func checkC10(c *Check) {
	c.rule("reader", "the printed value of the column reader equals the reference for every byte content")
	c.rule("column", "ParseData routes the column to its exact value")
	c.rule("content", "the same for given contents, the limits of the types among them")
	c.rule("extent", "no byte behind the column is read")
	widthType := map[int]uint64{1: mtTiny, 2: mtShort, 3: mtInt24, 4: mtLong, 8: mtLonglong}
	for k := 1; k <= 8; k++ {
		k := k
		mt, isInt := widthType[k]
		c.try("reader", fmt.Sprintf("GetUintValue width %d", k), func() {
			f := c.fn(pUtils, "GetUintValue")
			b := sym("b", tBytes)
			n := 0
			name := fmt.Sprintf("GetUintValue width %d", k)
			got := c.exec(f, []Value{constN(uint64(k)), b}, nil, accessRule(c, "extent", name, sliceBase(b), uint64(k), &n))
			want := c.exec(c.spec("UintCol"), []Value{constN(uint64(k)), b}, nil, nil)
			c.equiv("reader", name, got, want)
		})
		ref := func(sp string) func(m *Mem, b Value, n *Node) *Node {
			return func(m *Mem, b Value, n *Node) *Node { return c.wantStrIn(m, sp, n, b) }
		}
		c.sample("content", fmt.Sprintf("BIT column of %d bytes", k), dtFixbinary, mtBit, uint64(k), true, false, samples(uint64(k)), ref("UintCol"), false)
		if isInt {
			c.sample("content", fmt.Sprintf("integer column of %d bytes", k), dtInt, mt, uint64(k), false, false, samples(uint64(k)), ref("IntCol"), false)
			c.sample("content", fmt.Sprintf("unsigned integer column of %d bytes", k), dtInt, mt, uint64(k), true, false, samples(uint64(k)), ref("UintCol"), false)
		}
		c.try("column", fmt.Sprintf("BIT column of %d bytes", k), func() {
			name := fmt.Sprintf("BIT column of %d bytes", k)
			b := sym("b", tBytes)
			got, _ := c.parseData(dtFixbinary, mtBit, uint64(k), b, constN(uint64(k)), true, false)
			want := c.exec(c.spec("UintCol"), []Value{constN(uint64(k)), b}, nil, nil)
			c.eq("column", name, c.L.where(got.fn, nil), rendered(got, 0), renderInt(asNode(want.res[0]), false), nil)
			c.eq("column", name+": no error", c.L.where(got.fn, nil), rendered(got, 1), nTrue, nil)
		})
		if !isInt {
			continue
		}
		c.try("reader", fmt.Sprintf("GetIntValue width %d", k), func() {
			f := c.fn(pUtils, "GetIntValue")
			b := sym("b", tBytes)
			n := 0
			name := fmt.Sprintf("GetIntValue width %d", k)
			got := c.exec(f, []Value{constN(uint64(k)), b}, nil, accessRule(c, "extent", name, sliceBase(b), uint64(k), &n))
			want := c.exec(c.spec("IntCol"), []Value{constN(uint64(k)), b}, nil, nil)
			c.eq("reader", name, c.L.where(f, nil), rendered(got, 0), renderInt(asNode(want.res[0]), true), nil)
		})
		for _, uns := range []bool{false, true} {
			uns := uns
			name := fmt.Sprintf("integer column of %d bytes, unsigned=%v", k, uns)
			c.try("column", name, func() {
				b := sym("b", tBytes)
				got, _ := c.parseData(dtInt, mt, uint64(k), b, constN(uint64(k)), uns, false)
				sp := "IntCol"
				if uns {
					sp = "UintCol"
				}
				want := c.exec(c.spec(sp), []Value{constN(uint64(k)), b}, nil, nil)
				c.eq("column", name, c.L.where(got.fn, nil), rendered(got, 0), renderInt(asNode(want.res[0]), !uns), nil)
				c.eq("column", name+": no error", c.L.where(got.fn, nil), rendered(got, 1), nTrue, nil)
			})
		}
	}
}

func checkC11(c *Check) {
	c.rule("decode", "value and consumed length equal the InnoDB encoding on every path")
	c.rule("size", "the computed length equals the length InnoDB writes")
	data := func() Value { return sym("d", tBytes) }
	pos := func() *Node { return asNode(sym("pos", tU64)) }
	c.try("decode", "MatchParseCompressed", func() {
		f := c.fn(pUtils, "MatchParseCompressed")
		got := c.exec(f, []Value{data(), pos()}, nil, hugeLen("d"))
		want := c.exec(c.spec("Comp"), []Value{data(), pos()}, nil, nil)
		w := c.L.where(f, nil)
		c.eq("decode", "MatchParseCompressed: value", w, asNode(got.res[0]), asNode(want.res[0]), nil)
		c.eq("decode", "MatchParseCompressed: length", w, asNode(got.res[1]), asNode(want.res[1]), nil)
		c.eq("decode", "MatchParseCompressed: no error", w, rendered(got, 2), nTrue, nil)
	})
	c.try("size", "MatchGetCompressedSize", func() {
		f := c.fn(pUtils, "MatchGetCompressedSize")
		n := sym("n", tU64)
		got := c.exec(f, []Value{n}, nil, nil)
		want := c.exec(c.spec("CompSize"), []Value{n}, nil, nil)
		w := c.L.where(f, nil)
		c.eq("size", "MatchGetCompressedSize", w, asNode(got.res[0]), asNode(want.res[0]), nil)
		c.eq("size", "MatchGetCompressedSize: no error", w, rendered(got, 1), nTrue, nil)
	})
	c.try("decode", "MatchUllReadComPressed", func() {
		f := c.fn(pUtils, "MatchUllReadComPressed")
		m := newMem()
		cell := newAlloc("pos")
		noteCell(cell, tU64)
		storeAddr(m, cell, pos())
		got := c.exec(f, []Value{data(), leafN(cell)}, m, hugeLen("d"))
		want := c.exec(c.spec("UllComp"), []Value{data(), pos()}, nil, nil)
		w := c.L.where(f, nil)
		c.eq("decode", "MatchUllReadComPressed: value", w, asNode(got.res[0]), asNode(want.res[0]), nil)
		c.eq("decode", "MatchUllReadComPressed: position", w, asNode(loadAddr(got.st.mem, cell, tU64)), asNode(want.res[1]), nil)
	})
	c.try("decode", "MatchUllReadMuchCompressed", func() {
		f := c.fn(pUtils, "MatchUllReadMuchCompressed")
		got := c.exec(f, []Value{data()}, nil, hugeLen("d"))
		want := c.exec(c.spec("UllMuch"), []Value{data()}, nil, nil)
		w := c.L.where(f, nil)
		c.eq("decode", "MatchUllReadMuchCompressed: value", w, asNode(got.res[0]), asNode(want.res[0]), nil)
		c.eq("decode", "MatchUllReadMuchCompressed: no error", w, rendered(got, 1), nTrue, nil)
	})
	c.try("size", "MachUllGetMuchCompressedSize", func() {
		f := c.fn(pUtils, "MachUllGetMuchCompressedSize")
		n := sym("n", tU64)
		got := c.exec(f, []Value{n}, nil, nil)
		want := c.exec(c.spec("UllMuchSize"), []Value{n}, nil, nil)
		c.equiv("size", "MachUllGetMuchCompressedSize", got, want)
	})
}

// hugeLen makes the length of the named slice argument larger than any offset
// the function computes: the record lies completely inside the data.
func hugeLen(name string) func(*Interp) {
	a := mkSym(name, 0)
	assumedHuge[mkOp("len", 48, a)] = true
	return nil
}

// obOut: the guard of a bad event must be unsatisfiable.
func (c *Check) obOut(rule, construct, where string, bad *Node, detail string) {
	c.decide2(rule, construct, where, bad, detail)
}

// decide2 discharges "bad never happens".
func (c *Check) decide2(rule, construct, where string, bad *Node, detail string) {
	ok, _ := equalN(bad, nFalse, emptyCtx)
	if ok {
		c.ob(rule, construct, where, true, "")
		return
	}
	if w, shown := refuted(bad, nFalse); shown {
		c.ob(rule, construct, where, false, detail+"\n      for example "+w)
		return
	}
	c.open(rule, construct, where, "not excluded, no witness: "+detail)
}
