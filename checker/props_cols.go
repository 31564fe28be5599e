package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	prop("C12", techVal,
		"ParseData and the temporal readers are analysed with unknown bytes for every temporal column type; the text term is compared with the field layout of the format.",
		checkC12, "DATETIME values of the old format have a year of at most 9999, of the packed format a non-zero year/month group above 12 (year 1 or later)")
	prop("C13", techVal,
		"ParseData is analysed for every combination of InnoDB type, MySQL type, unsigned and binary flag of the column types the tool supports, with unknown bytes and an unknown length; value and binary mark are compared with the reference decoding of that type.",
		checkC13, "NEWDECIMAL, DECIMAL and GEOMETRY columns are not covered (the tool does not decode them)")
}

func (c *Check) wantStr(spec string, args ...Value) *Node {
	return c.wantStrIn(nil, spec, args...)
}

func (c *Check) wantStrIn(m *Mem, spec string, args ...Value) *Node {
	r := c.exec(c.spec(spec), args, m, nil)
	t := types.TypeString(r.fn.Signature.Results().At(0).Type(), nil)
	n := asNode(r.res[0])
	switch t {
	case "string":
		return n
	}
	return apply1(n, func(x *Term) *Node {
		tt := r.fn.Signature.Results().At(0).Type()
		return fmtVal(r.st.mem, "%v", intern(&Term{k: KIface, s: typeStr(tt), args: []*Term{x}, aux: tt}))
	})
}

// constBytes are given bytes in memory.
func constBytes(m *Mem, b []byte) *Node {
	vals := make([]Value, len(b))
	for i, x := range b {
		vals[i] = constN(uint64(x))
	}
	return mkArr(m, "column bytes", types.Typ[types.Uint8], vals...)
}

// samples are column contents that a column of n bytes is evaluated with.
func samples(n uint64) [][]byte {
	var out [][]byte
	add := func(f func(i int) byte) {
		b := make([]byte, n)
		for i := range b {
			b[i] = f(i)
		}
		out = append(out, b)
	}
	for _, x := range []byte{0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x55} {
		add(func(int) byte { return x })
		add(func(i int) byte { return [2]byte{0x80, x}[min(i, 1)] })
		add(func(i int) byte { return [2]byte{0x7f, x}[min(i, 1)] })
		add(func(i int) byte { return [2]byte{x, 0}[min(i, 1)] })
		add(func(i int) byte {
			if i == int(n)-1 {
				return x
			}
			return 0x80 & byte(0xff*(1-min(i, 1)))
		})
	}
	seed := uint32(n)*2654435761 + 12345
	for k := 0; k < 24; k++ {
		add(func(int) byte {
			seed = seed*1664525 + 1013904223
			return byte(seed >> 24)
		})
	}
	return out
}

// sample evaluates a column with given contents.  Bytes of a neighbour follow.
func (c *Check) sample(rule, name string, dt, mt, fix uint64, uns, bin bool, contents [][]byte, want func(m *Mem, b Value, n *Node) *Node, mark bool) {
	c.try(rule, name+": given contents", func() {
		bad, where := "", ""
		for _, s := range contents {
			tickCount = 0
			m := newMem()
			data := constBytes(m, append(append([]byte{}, s...), '7', ' ', 0xA5, 0))
			got, mk := c.parseDataIn(m, dt, mt, fix, data, constN(uint64(len(s))), uns, bin)
			where = c.L.where(got.fn, nil)
			for _, p := range [][2]*Node{{rendered(got, 0), want(m, data, constN(uint64(len(s))))}, {rendered(got, 1), nTrue}, {mk, boolN(mark)}} {
				if ok, _ := equalN(p[0], p[1], emptyCtx); ok {
					continue
				}
				if _, shown := refuted(p[0], p[1]); !shown {
					panic(undecided(fmt.Sprintf("content %.40q is not determined: %.200s", s, p[0])))
				}
				if bad == "" {
					bad = fmt.Sprintf("the content %.60q gives %.200s, expected %.200s", s, p[0], p[1])
				}
			}
		}
		c.facts["given contents"] += len(contents)
		c.ob(rule, name+": given contents", where, bad == "", bad)
	})
}

// c12samples are contents within the range of the format.
func c12samples(name string, n uint64) [][]byte {
	var out [][]byte
	put := func(v uint64) {
		b := make([]byte, 8)
		for i := range b {
			b[i] = byte(v >> (56 - 8*i))
		}
		out = append(out, b)
	}
	if name == "DATETIME in the old format" {
		for _, v := range []uint64{0, 20000101000000, 19700101000000, 10101000000, 99991231235959, 20240229120000, 20191130095959, 1231235959, 15820000000000} {
			put(v)
			put(v | 1<<63)
		}
		return out
	}
	for _, b := range samples(n) {
		if name == "DATETIME packed with 3 bytes of fraction" {
			if ym := (uint64(b[0])<<16 | uint64(b[1])<<8 | uint64(b[2])) >> 6 & 0x1ffff; ym < 13 {
				continue
			}
		}
		out = append(out, b)
	}
	return out
}

func checkC12(c *Check) {
	c.rule("field", "the text equals the fields of the stored value for every byte content")
	c.rule("extent", "the column's own bytes decide its value")
	b := func() Value { return sym("b", tBytes) }
	c.rule("content", "the same for given contents")
	col := func(name string, dt, mt, n uint64, want func() *Node, g func() *Node) {
		c.sample("content", name, dt, mt, n, false, false, c12samples(name, n), func(m *Mem, b Value, _ *Node) *Node {
			for _, k := range []string{"DATETIME packed", "DATETIME in", "DATE", "TIMESTAMP", "TIME", "YEAR"} {
				if !strings.HasPrefix(name, k) {
					continue
				}
				if k == "YEAR" {
					v := asNode(c.exec(c.spec("BE1"), []Value{b}, m, nil).res[0])
					return iteN(eqN(v, constN(0)), strN("0000"), renderInt(addN(v, constN(1900)), false))
				}
				return c.wantStrIn(m, map[string]string{"DATETIME packed": "DateTimePacked", "DATETIME in": "DateTimeOld", "DATE": "Date", "TIMESTAMP": "Timestamp", "TIME": "Time"}[k], b)
			}
			panic(undecided("no reference for " + name))
		}, false)
		c.try("field", name, func() {
			got, bin := c.parseData(dt, mt, n, b(), constN(n), false, false)
			w := c.L.where(got.fn, nil)
			var gd *Node
			if g != nil {
				gd = g()
			}
			c.eq("field", name, w, rendered(got, 0), want(), gd)
			c.eq("field", name+": no error", w, rendered(got, 1), nTrue, gd)
			c.eq("field", name+": not marked binary", w, bin, nFalse, gd)
		})
	}
	col("DATE", dtInt, mtDate, 3, func() *Node { return c.wantStr("Date", b()) }, nil)
	col("TIMESTAMP", dtFixbinary, mtTimestamp, 4, func() *Node { return c.wantStr("Timestamp", b()) }, nil)
	for fsp := uint64(0); fsp <= 3; fsp++ {
		col(fmt.Sprintf("TIME with %d bytes of fraction", fsp), dtFixbinary, mtTime, 3+fsp, func() *Node { return c.wantStr("Time", b()) }, nil)
		if fsp > 0 {
			col(fmt.Sprintf("TIMESTAMP with %d bytes of fraction", fsp), dtFixbinary, mtTimestamp, 4+fsp, func() *Node { return c.wantStr("Timestamp", b()) }, nil)
		}
	}
	for fsp := uint64(0); fsp <= 2; fsp++ {
		col(fmt.Sprintf("DATETIME packed with %d bytes of fraction", fsp), dtFixbinary, mtDatetime, 5+fsp, func() *Node { return c.wantStr("DateTimePacked", b()) }, nil)
	}
	// 8 bytes: packed with 3 bytes of fraction, or the old format.  Storable old
	// values are below 99991231235960, so the packed year and month group is 0.
	ym := func() *Node {
		be := asNode(c.exec(c.spec("BE8"), []Value{b()}, nil, nil).res[0])
		return apply1(be, func(t *Term) *Node { return leafN(bitwise("and", shrT(t, mkConst(46), false), mkConst(0x1ffff))) })
	}
	col("DATETIME packed with 3 bytes of fraction", dtFixbinary, mtDatetime, 8,
		func() *Node { return c.wantStr("DateTimePacked", b()) },
		func() *Node { return notN(ultN(ym(), constN(13))) })
	col("DATETIME in the old format", dtFixbinary, mtDatetime, 8,
		func() *Node { return c.wantStr("DateTimeOld", b()) },
		func() *Node { return eqN(ym(), constN(0)) })
	c.try("field", "largest DATETIME of the old format", func() {
		// 9999-12-31 23:59:59 stays below the packed values of year 1
		c.ob("field", "old and packed DATETIME values are told apart", "", uint64(99991231235959)>>46 < 13, "")
	})
	col("YEAR", dtInt, mtYear, 1, func() *Node {
		v := asNode(c.exec(c.spec("BE1"), []Value{b()}, nil, nil).res[0])
		return iteN(eqN(v, constN(0)), strN("0000"), renderInt(addN(v, constN(1900)), false))
	}, nil)
}

// textSamples are contents of text columns.
var textSamples = func() [][]byte {
	out := [][]byte{{}}
	for _, s := range []string{"a", "ab c", " ", "  ", "\t", "\n", "\r\n", "\x00", "\x00\x00", "\u00a0", "\u3000", "\u0085", "\v", "\f", "'", "\"", "\\", "\\n",
		"é", "中文", "😀", "\xff", "\x80\x81", "\xc3", "0", "00", "-1", "1e3", "NULL", "null", "<nil>", "%d", "%", "0x41", "DB_ROW_ID", "true", "0000-00-00",
		"a,b", "(", ")", ";", "--", "/*", "`", "A", "ÄÖ", "ﬁ", "\ufeff", "\x7f", "\x1a"} {
		for _, t := range []string{s, " " + s, s + " ", "  " + s + "  ", s + s, s + "x", "x" + s, "x" + s + "y", s + "\t", s + "\x00", s + "\n "} {
			out = append(out, []byte(t))
		}
	}
	for _, n := range []int{16, 64, 127, 128, 255, 256, 300} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*37 + 11)
		}
		out = append(out, b)
	}
	return out
}()

func checkC13(c *Check) {
	c.rule("type", "value and binary mark equal the reference decoding for every content and length")
	c.rule("content", "the same for given contents: blanks and control characters at either end, quotes, bytes above 127, invalid characters, words, the empty text")
	flen := func() *Node { return asNode(sym("flen", tU64)) }
	b := func() Value { return sym("b", tBytes) }
	text := func() *Node { return c.wantStr("Text", b(), flen()) }
	hexv := func() *Node { return c.wantStr("HexText", b(), flen()) }
	n := 0
	col := func(name string, dt uint64, mts []uint64, fix uint64, fl func() *Node, bins []bool, want func() *Node, mark func(bool) bool) {
		type of struct {
			sp   string
			args int
		}
		o := map[string]of{"FLOAT": {"Float", 1}, "DOUBLE": {"Double", 1}, "BLOB": {"HexText", 2}, "BINARY": {"HexText", 2}, "VARBINARY": {"HexText", 2}, "CHAR": {"CharText", 2}, "dictionary id": {"UintCol", 0}}[name]
		if o.sp == "" {
			o = of{"Text", 2}
		}
		contents := textSamples
		if o.args != 2 {
			contents = samples(fix)
		}
		ref := func(m *Mem, b Value, n *Node) *Node {
			switch o.args {
			case 0:
				return c.wantStrIn(m, o.sp, n, b)
			case 1:
				return c.wantStrIn(m, o.sp, b)
			}
			return c.wantStrIn(m, o.sp, b, n)
		}
		for _, mt := range mts {
			c.sample("content", fmt.Sprintf("%s (type %d/%d)", name, dt, mt), dt, mt, fix, false, bins[0], contents, ref, mark(bins[0]))
			for _, uns := range []bool{false, true} {
				for _, bin := range bins {
					name := fmt.Sprintf("%s (type %d/%d unsigned=%v binary=%v)", name, dt, mt, uns, bin)
					n++
					c.try("type", name, func() {
						got, m := c.parseData(dt, mt, fix, b(), fl(), uns, bin)
						w := c.L.where(got.fn, nil)
						c.eq("type", name+": value", w, rendered(got, 0), want(), nil)
						c.eq("type", name+": no error", w, rendered(got, 1), nTrue, nil)
						c.eq("type", name+": binary mark", w, m, boolN(mark(bin)), nil)
					})
				}
			}
		}
	}
	f := []bool{false}
	ft := []bool{false, true}
	keep := func(b bool) bool { return b }
	yes := func(bool) bool { return true }
	col("VARCHAR latin1", dtVarchar, []uint64{15, 253}, 0, flen, f, text, keep)
	col("CHAR latin1", dtChar, []uint64{254}, 0, flen, f, text, keep)
	col("VARCHAR", dtVarmysql, []uint64{15, 253}, 0, flen, f, text, keep)
	col("CHAR", dtMysql, []uint64{254}, 0, flen, f, func() *Node { return c.wantStr("CharText", b(), flen()) }, keep)
	col("TEXT", dtBlob, []uint64{249, 250, 251, 252}, 0, flen, f, text, keep)
	col("BLOB", dtBlob, []uint64{249, 250, 251, 252}, 0, flen, []bool{true}, hexv, keep)
	col("BINARY", dtFixbinary, []uint64{254}, 7, flen, ft, hexv, yes)
	col("VARBINARY", dtBinary, []uint64{15}, 0, flen, ft, hexv, yes)
	eight := func(k uint64) func() *Node { return func() *Node { return constN(k) } }
	col("FLOAT", dtFloat, []uint64{4}, 4, eight(4), f, func() *Node { return c.wantStr("Float", b()) }, keep)
	col("DOUBLE", dtDouble, []uint64{5}, 8, eight(8), f, func() *Node { return c.wantStr("Double", b()) }, keep)
	// data dictionary columns, which have no MySQL type
	col("dictionary name", dtBinary, []uint64{0}, 0, flen, f, text, keep)
	col("dictionary id", dtBinary, []uint64{0}, 8, eight(8), f, func() *Node { return c.wantStr("UintCol", constN(8), b()) }, keep)
	for k, mt := range map[uint64]uint64{1: mtTiny, 2: mtShort, 3: mtInt24, 4: mtLong, 8: mtLonglong} {
		k := k
		for _, uns := range []bool{false, true} {
			name := fmt.Sprintf("integer of %d bytes, unsigned=%v", k, uns)
			uns := uns
			n++
			c.try("type", name, func() {
				got, m := c.parseData(dtInt, mt, k, b(), constN(k), uns, false)
				sp := "IntCol"
				if uns {
					sp = "UintCol"
				}
				w := c.L.where(got.fn, nil)
				c.eq("type", name+": value", w, rendered(got, 0), c.wantStr(sp, constN(k), b()), nil)
				c.eq("type", name+": binary mark", w, m, nFalse, nil)
			})
		}
	}
	c.facts["column type combinations"] = n
	// the declared length decides the width: parseRecords hands GetFixedLength on
	c.try("type", "GetFixedLength", func() {
		fn := c.fn(pUtils, "GetFixedLength")
		w := c.L.where(fn, nil)
		l := sym("len", tU64)
		for dt := uint64(0); dt <= 13; dt++ {
			r := c.exec(fn, []Value{constN(dt), l}, nil, nil)
			want := asNode(l)
			switch dt {
			case dtVarchar, dtBlob, dtVarmysql, dtMysql:
				want = constN(0)
			}
			c.eq("type", fmt.Sprintf("fixed length of InnoDB type %d", dt), w, asNode(r.res[0]), want, nil)
		}
	})
}
