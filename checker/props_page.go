package main

// Rows of the pages of a table file: C24 to C28.

import "fmt"

func init() {
	prop("C26", techVal,
		"The reading of a table file is analysed on pages whose headers, links, NULL bitmaps and lengths are constants, systematically varied, while the bytes of the values and all bytes that need not be looked at are unknown; the statements are compared with those of the fields as the row header describes them, and the field offsets with their flags.",
		checkC26, "tables of up to 1017 nullable columns (every pattern of up to 30); values of up to 8000 bytes")
	prop("C24", techVal,
		"The reading of a table file is analysed on pages with unknown or systematically varied type, level, transaction id, free list, garbage and record count, and on sequences of pages; the statements written are compared with the rows of the pages that qualify.",
		checkC24, "pages of up to four rows, files of up to four pages of twelve kinds")
	prop("C25", techVal,
		"The reading of a table file is analysed on pages whose records lie at many different places and are linked in many orders, in both row formats, for the live list and the free list, and for every way a list may end; the statements are compared with the rows in list order.",
		checkC25, "lists of every length up to 128 and of full pages (811 COMPACT, 620 REDUNDANT records); the links themselves are constants")
	prop("C28", techVal,
		"The reading of a table file is analysed on sequences of rows in which each field is NULL, present, or cut off by the end of the page; each statement is compared with the values of its own row.",
		checkC28, "sequences of three rows")
	prop("C27", techVal,
		"As for the COMPACT format, with pages in REDUNDANT format and one-byte and two-byte field ends.",
		checkC27, "tables of up to 1017 columns (every pattern of up to 30); values of up to 8000 bytes")
}

func idCol() tcol { return tcol{name: "id", mtype: dtInt, mysql: mtLong, flen: 4, unsig: true} }

func vcol(name string, n uint64, null bool) tcol {
	return tcol{name: name, mtype: dtVarmysql, mysql: mtVarchar, flen: n, null: null}
}

// pageShape is a table with rows of given field lengths; -1 is NULL.
type pageShape struct {
	name string
	cols []tcol // without the hidden columns; the first is the key
	rows [][]fval
}

func withSys(cols []tcol) []tcol {
	return append(append(append([]tcol{}, cols[0]), sysCols()...), cols[1:]...)
}

func withSysV(row string, vals []fval) []fval {
	return append(append(append([]fval{}, vals[0]), sysVals(row)...), vals[1:]...)
}

func (c *Check) shape(rule string, s pageShape, compact bool) {
	cols := withSys(s.cols)
	sp := &pageSpec{no: 3, compact: compact, index: 77}
	want := strN("")
	if c.skip(rule, s.name) {
		return
	}
	for i, r := range s.rows {
		vals := withSysV(fmt.Sprintf("row %d", i), r)
		sp.live = append(sp.live, tRow{vals: vals})
		want = catN(want, c.rowText("shop", "orders", cols, vals))
	}
	c.pageRows(rule, s.name, []tdef{{12, "shop", "orders", cols}}, false, want, sp)
}

// rowWant is what is written for a row: fields that are not fully in the page are NULL.
func (c *Check) rowWant(cols []tcol, vals []fval) *Node {
	return c.rowText("shop", "orders", cols, vals)
}

// tableKinds are column kinds with the lengths of their values.
func tableKinds() (out []struct {
	col  tcol
	lens []int
}) {
	for _, k := range undoKinds() {
		t := tcol{k.name, k.col.ft, k.col.mt, k.col.flen, true, k.col.unsig, k.col.binary}
		out = append(out, struct {
			col  tcol
			lens []int
		}{t, k.lens})
	}
	out = append(out, struct {
		col  tcol
		lens []int
	}{tcol{"long TEXT", dtBlob, tBlobT, 10, true, false, false}, []int{0, 127, 128, 129, 255, 256, 383, 1000, 8000}},
		struct {
			col  tcol
			lens []int
		}{tcol{"long BLOB", dtBlob, tBlobT, 12, true, false, true}, []int{127, 128, 300}},
		struct {
			col  tcol
			lens []int
		}{tcol{"long VARBINARY", dtBinary, mtVarchar, 500, true, false, true}, []int{0, 127, 128, 300, 500}},
		struct {
			col  tcol
			lens []int
		}{tcol{"long CHAR", dtMysql, mtString, 600, true, false, false}, []int{0, 30, 127, 128, 255, 600}},
		struct {
			col  tcol
			lens []int
		}{tcol{"long latin1 VARCHAR", dtVarchar, mtVarchar, 700, true, false, false}, []int{0, 127, 128, 255, 256, 700}})
	return out
}

func (c *Check) formats(rule string, compact bool, each func(name string, k tcol, n int)) {
	for _, k := range tableKinds() {
		for _, n := range k.lens {
			each(fmt.Sprintf("%s of %d bytes", k.col.name, n), k.col, n)
		}
	}
}

// nullPatterns are sets of columns that are NULL, of n.
func nullPatterns(n int) (out [][]bool) {
	if n <= 4 {
		for m := 0; m < 1<<uint(n); m++ {
			p := make([]bool, n)
			for i := range p {
				p[i] = m>>uint(i)&1 == 1
			}
			out = append(out, p)
		}
		return
	}
	mk := func(f func(i int) bool) {
		p := make([]bool, n)
		for i := range p {
			p[i] = f(i)
		}
		out = append(out, p)
	}
	mk(func(i int) bool { return false })
	mk(func(i int) bool { return true })
	mk(func(i int) bool { return i%2 == 0 })
	mk(func(i int) bool { return i%2 == 1 })
	mk(func(i int) bool { return i < 8 })
	mk(func(i int) bool { return i >= 8 })
	mk(func(i int) bool { return i*i%7 < 3 })
	for j := 0; j < n; j++ {
		j := j
		mk(func(i int) bool { return i == j })
		mk(func(i int) bool { return i != j })
	}
	return
}

func patText(p []bool) string {
	s := ""
	for _, b := range p {
		if b {
			s += "N"
		} else {
			s += "-"
		}
	}
	return s
}

// nullCase reads rows of tables with n columns that may be NULL.
func (c *Check) nullCase(n int, pats [][]bool, compact bool) {
	for _, p := range pats {
		cols := []tcol{idCol()}
		vals := []fval{fv("id", 4)}
		for i, nl := range p {
			if i%3 == 1 {
				// a column that can not be NULL has no bit
				cols = append(cols, vcol(fmt.Sprintf("n%d", i), 20, false))
				vals = append(vals, fv(fmt.Sprintf("n%d", i), 1))
			}
			k := vcol(fmt.Sprintf("c%d", i), 20, true)
			v := fv(k.name, i%4)
			if i%5 == 2 {
				k = tcol{name: k.name, mtype: dtInt, mysql: mtShort, flen: 2, null: true, unsig: true}
				v = fv(k.name, 2)
			}
			if nl {
				v = nullV
			}
			cols = append(cols, k)
			vals = append(vals, v)
		}
		c.shape("null", pageShape{fmt.Sprintf("%d nullable columns, NULL %s", n, patText(p)), cols, [][]fval{vals}}, compact)
	}
}

// mixedCases reads rows of a table with a column of every type.
func (c *Check) mixedCases(compact bool, id func() fval) {
	var cols []tcol
	cols = append(cols, idCol())
	var r1, r2, r3 []fval
	r1, r2, r3 = append(r1, id()), append(r2, fv("id2", 4)), append(r3, fv("id3", 4))
	for i, k := range tableKinds() {
		col := k.col
		col.null = i%3 != 0
		cols = append(cols, col)
		n := k.lens[len(k.lens)-1]
		if n > 300 {
			n = 130
		}
		r1 = append(r1, fv("r1"+col.name, n))
		v2, v3 := fv("r2"+col.name, k.lens[0]), fv("r3"+col.name, n)
		if col.null {
			if i%2 == 0 {
				v2 = nullV
			} else {
				v3 = nullV
			}
		}
		r2, r3 = append(r2, v2), append(r3, v3)
	}
	c.shape("mixed", pageShape{"every type", cols, [][]fval{r1}}, compact)
	c.shape("mixed", pageShape{"every type, some NULL", cols, [][]fval{r2}}, compact)
	c.shape("mixed", pageShape{"three rows of every type", cols, [][]fval{r1, r2, r3}}, compact)
}

func (c *Check) rowFormat(compact bool) {
	c.rule("length", "a field has the length the row header says")
	c.rule("kind", "fields of each type, NULL or not, are found between others")
	c.rule("null", "a field is NULL exactly when the row header says so")
	c.rule("mixed", "rows of tables of several types are taken apart field by field")
	c.rule("extern", "the flag of an off-page field is no part of its length")
	id := func() fval { return fv("id", 4) }
	for _, n := range []int{0, 1, 2, 100, 126, 127, 128, 129, 200, 255, 256, 257, 383, 511, 512, 1000, 4095, 5000, 8000, 8191, 8192, 10000, 14000} {
		for _, m := range []uint64{1, 50, 100, 127, 128, 129, 255, 256, 257, 300, 3000, 65535} {
			if uint64(n) > m || compact && n > 255 && m <= 255 {
				continue
			}
			if n > 4000 && m != 65535 {
				continue
			}
			for _, null := range []bool{false, true} {
				cols := []tcol{idCol(), vcol("a", m, null), vcol("b", 20, true)}
				c.shape("length", pageShape{fmt.Sprintf("VARCHAR(%d), nullable %t, of %d bytes", m, null, n), cols, [][]fval{{id(), fv("a", n), fv("b", 3)}}}, compact)
				if n < 128 && m > 255 && compact {
					v := fv("a", n)
					v.two = true
					c.shape("length", pageShape{fmt.Sprintf("VARCHAR(%d), nullable %t, of %d bytes with a two-byte length", m, null, n), cols, [][]fval{{id(), v, fv("b", 3)}}}, compact)
				}
			}
		}
	}
	c.formats("kind", compact, func(name string, k tcol, n int) {
		cols := []tcol{idCol(), vcol("a", 20, true), k, vcol("b", 20, true)}
		notNull := k
		notNull.null = false
		c.shape("kind", pageShape{name, cols, [][]fval{{id(), fv("a", 2), fv("k", n), fv("b", 3)}, {id(), nullV, fv("l", n), nullV}}}, compact)
		c.shape("kind", pageShape{name + ", NOT NULL", []tcol{idCol(), notNull, vcol("b", 20, true)}, [][]fval{{id(), fv("k", n), fv("b", 3)}}}, compact)
		c.shape("kind", pageShape{name + ", NULL", cols, [][]fval{{id(), fv("a", 2), nullV, fv("b", 3)}, {id(), nullV, nullV, nullV}, {id(), nullV, fv("k", n), fv("b", 1)}}}, compact)
		key := notNull
		if key.name != "long TEXT" && key.name != "long BLOB" {
			c.shape("kind", pageShape{name + " as key", []tcol{key, vcol("b", 20, true), idCol()}, [][]fval{{fv("k", n), fv("b", 3), id()}, {fv("k2", n), nullV, id()}}}, compact)
		}
		if !compact && k.fixed() != 0 {
			v := nullV
			v.b = fb("unused", n)
			c.shape("kind", pageShape{name + ", NULL with its space kept", cols, [][]fval{{id(), fv("a", 2), v, fv("b", 3)}}}, compact)
		}
	})
	for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 18} {
		if c.Tier != "thorough" && n > 10 && n != 16 && n != 17 {
			continue
		}
		c.nullCase(n, nullPatterns(n), compact)
	}
	// wide tables
	for _, n := range []int{24, 33, 40, 64, 65, 100, 121, 128, 129, 130, 256, 257, 260, 512, 1017} {
		var ps [][]bool
		mk := func(f func(i int) bool) {
			p := make([]bool, n)
			for i := range p {
				p[i] = f(i)
			}
			ps = append(ps, p)
		}
		mk(func(i int) bool { return i%3 == 0 })
		if n <= 260 || c.Tier == "thorough" {
			mk(func(i int) bool { return true })
			mk(func(i int) bool { return i == n-1 })
			mk(func(i int) bool { return i != n/2 })
			mk(func(i int) bool { return i*i%7 < 3 })
		}
		c.nullCase(n, ps, compact)
	}
	// a row of every type
	c.mixedCases(compact, id)

	for _, n := range []int{20, 40, 127, 128, 300, 788} {
		v := fv("k", n)
		v.extern = true
		for _, bin := range []bool{false, true} {
			k := tcol{"k", dtBlob, tBlobT, 10, true, false, bin}
			c.shape("extern", pageShape{fmt.Sprintf("BLOB of %d bytes in the page, binary %t", n, bin), []tcol{idCol(), k, vcol("b", 20, true)}, [][]fval{{id(), v, fv("b", 3)}, {id(), fv("k2", 5), nullV}}}, compact)
		}
		c.shape("extern", pageShape{fmt.Sprintf("VARCHAR(9000) of %d bytes in the page", n), []tcol{idCol(), vcol("k", 9000, true), vcol("b", 20, true)}, [][]fval{{id(), v, fv("b", 3)}}}, compact)
	}
}

func checkC26(c *Check) {
	c.rowOffsets(true)
	c.rowFormat(true)
}

func checkC27(c *Check) {
	c.rowOffsets(false)
	c.rowFormat(false)
}

// ---- C28 ---------------------------------------------------------------------------

func checkC28(c *Check) {
	c.rule("own", "each row has its own values whatever the rows before and behind it hold")
	c.rule("cut", "a field that is not fully in the page is NULL, and the other rows keep their values")
	kinds := []tcol{vcol("v", 300, true), {"n", dtInt, mtLong, 4, true, true, false}, {"x", dtBlob, tBlobT, 12, true, false, true}, {"f", dtFixbinary, mtString, 3, true, false, true},
		{"t", dtFixbinary, mtTimestamp, 4, true, false, false}, {"b", dtFixbinary, mtBit, 2, true, true, false}, {"c", dtMysql, mtString, 30, true, false, false}}
	width := map[string]int{"v": 3, "n": 4, "x": 2, "f": 3, "t": 4, "b": 2, "c": 5}
	val := func(k tcol, row int) fval { return fv(fmt.Sprintf("%s of row %d", k.name, row), width[k.name]) }
	run := func(rule, name string, cols []tcol, rows []tRow, compact, deleted bool, wants []*Node) {
		if c.skip(rule, name) {
			return
		}
		sp := &pageSpec{no: 3, compact: compact, index: 77}
		if deleted {
			sp.deleted = rows
			sp.live = []tRow{{vals: withSysV("live row", append([]fval{fv("live id", 4)}, make([]fval, len(cols)-3)...))}}
			for i := range sp.live[0].vals {
				if i > 2 {
					sp.live[0].vals[i] = nullV
				}
			}
		} else {
			sp.live = rows
		}
		want := strN("")
		for _, w := range wants {
			want = catN(want, w)
		}
		c.pageRows(rule, name, []tdef{{12, "shop", "orders", cols}}, deleted, want, sp)
	}
	for _, compact := range []bool{true, false} {
		for _, deleted := range []bool{false, true} {
			f := map[bool]string{true: "COMPACT", false: "REDUNDANT"}[compact]
			if deleted {
				f += ", deleted"
			}
			for _, k := range kinds {
				cols := withSys([]tcol{idCol(), k, vcol("z", 10, true)})
				for p := 0; p < 8; p++ {
					var rows []tRow
					var wants []*Node
					for i := 0; i < 3; i++ {
						a, z := val(k, i), fv(fmt.Sprintf("z of row %d", i), 2)
						if p>>uint(i)&1 == 1 {
							a = nullV
						} else if i == 1 {
							z = nullV
						}
						vals := withSysV(fmt.Sprintf("row %d", i), []fval{fv(fmt.Sprintf("id of row %d", i), 4), a, z})
						rows = append(rows, tRow{vals: vals})
						wants = append(wants, c.rowWant(cols, vals))
					}
					run("own", fmt.Sprintf("%s: three rows with %s, NULL %s", f, k.name, patText([]bool{p&1 == 1, p&2 == 2, p&4 == 4})), cols, rows, compact, deleted, wants)
				}
			}
			// a row at the end of the page
			base := append([]tcol{idCol()}, kinds...)
			for _, first := range []int{0, 3, 6, 5} {
				cs := append([]tcol{idCol()}, kinds[first:]...)
				keyLen := 4
				if first == 0 {
					cs = base
				}
				if first == 5 {
					// a key that is cut itself
					cs[0] = vcol("key", 100, false)
					keyLen = 12
				}
				cols := withSys(cs)
				full := func(row int) []fval {
					vs := []fval{fv(fmt.Sprintf("id of row %d", row), keyLen)}
					for _, k := range cs[1:] {
						vs = append(vs, val(k, row))
					}
					return withSysV(fmt.Sprintf("row %d", row), vs)
				}
				total := 0
				for _, v := range full(1) {
					total += len(v.b)
				}
				for left := 7; left <= total+1; left++ {
					if c.Tier != "thorough" && first != 0 && left > 25 {
						break
					}
					var rows []tRow
					var wants []*Node
					for i := 0; i < 3; i++ {
						vals := full(i)
						shown := append([]fval{}, vals...)
						r := tRow{vals: vals}
						if i == 1 {
							r.at = pageSize - left
							at := 0
							for j, v := range vals {
								at += len(v.b)
								if at > left {
									shown[j] = nullV
								}
							}
						}
						rows = append(rows, r)
						wants = append(wants, c.rowWant(cols, shown))
					}
					run("cut", fmt.Sprintf("%s: %d columns, %d of %d bytes of the second row in the page", f, len(cs), left, total), cols, rows, compact, deleted, wants)
				}
			}
		}
	}
}

// ---- C25 ---------------------------------------------------------------------------

func checkC25(c *Check) {
	c.rule("order", "the records are visited in list order, wherever they are in the page")
	c.rule("end", "the list ends at the supremum, at 0 and outside the page")
	c.rule("lists", "the live list and the free list are followed each for itself")
	cols := withSys([]tcol{idCol()})
	row := func(i int) ([]fval, *Node) {
		v := withSysV(fmt.Sprintf("row %d", i), []fval{fv(fmt.Sprintf("id %d", i), 4)})
		return v, c.rowWant(cols, v)
	}
	// the one record of a list at each place
	for _, compact := range []bool{true, false} {
		for _, deleted := range []bool{false, true} {
			for _, at := range []int{150, 255, 256, 1000, 4095, 4096, 8191, 8192, 8193, 8448, 12000, 12288, 16000, 16300} {
				name := map[bool]string{true: "COMPACT", false: "REDUNDANT"}[compact] + map[bool]string{true: ", deleted", false: ""}[deleted] + fmt.Sprintf(": the only record at %d", at)
				v, want := row(at)
				sp := &pageSpec{no: 3, compact: compact, index: 77}
				if deleted {
					sp.deleted = []tRow{{vals: v, at: at}}
				} else {
					sp.live = []tRow{{vals: v, at: at}}
				}
				c.pageRows("order", name, []tdef{{12, "shop", "orders", cols}}, deleted, want, sp)
			}
		}
	}
	// a page full of small records
	for _, compact := range []bool{true, false} {
		for _, deleted := range []bool{false, true} {
			name := map[bool]string{true: "COMPACT", false: "REDUNDANT"}[compact] + map[bool]string{true: ", deleted", false: ""}[deleted] + ": a page full of records of two bytes"
			if c.skip("order", name) {
				continue
			}
			small := withSys([]tcol{{name: "id", mtype: dtInt, mysql: mtShort, flen: 2, unsig: true}})
			sp := &pageSpec{no: 3, compact: compact, index: 77}
			want := strN("")
			n, step := 811, 20
			if !compact {
				n, step = 620, 26
			}
			var rows []tRow
			for i := 0; i < n; i++ {
				v := withSysV("", []fval{{b: be(uint64(i*7), 2)}})
				v[1].b, v[2].b = be(uint64(1000+i), 6), be(uint64(i), 7)
				rows = append(rows, tRow{vals: v, at: 140 + (i*211%n)*step})
				want = catN(want, c.rowWant(small, v))
			}
			if deleted {
				sp.deleted = rows
			} else {
				sp.live = rows
			}
			c.pageRows("order", name, []tdef{{12, "shop", "orders", small}}, deleted, want, sp)
		}
	}
	// pages of one file whose records lie at the same places
	for _, compact := range []bool{true, false} {
		for _, deleted := range []bool{false, true} {
			name := map[bool]string{true: "COMPACT", false: "REDUNDANT"}[compact] + map[bool]string{true: ", deleted", false: ""}[deleted] + ": three pages with records at the same places"
			if c.skip("order", name) {
				continue
			}
			var sps []*pageSpec
			want := strN("")
			for no := 3; no < 6; no++ {
				sp := &pageSpec{no: uint64(no), compact: compact, index: 77}
				var rows []tRow
				for i, a := range []int{200, 400, 300} {
					v, w := row(10*no + i)
					rows = append(rows, tRow{vals: v, at: a})
					want = catN(want, w)
				}
				if deleted {
					sp.deleted = rows
				} else {
					sp.live = rows
				}
				sps = append(sps, sp)
			}
			c.pageRows("order", name, []tdef{{12, "shop", "orders", cols}}, deleted, want, sps...)
		}
	}
	try := func(rule, name string, compact, deleted bool, at []int, end int, other []int) {
		name = map[bool]string{true: "COMPACT", false: "REDUNDANT"}[compact] + map[bool]string{true: ", deleted", false: ""}[deleted] + ": " + name
		if c.skip(rule, name) {
			return
		}
		sp := &pageSpec{no: 3, compact: compact, index: 77}
		want := strN("")
		var rows, rest []tRow
		for i, a := range at {
			v, w := row(i)
			rows = append(rows, tRow{vals: v, at: a})
			want = catN(want, w)
		}
		for i, a := range other {
			v, _ := row(i + 100)
			rest = append(rest, tRow{vals: v, at: a})
		}
		if deleted {
			sp.deleted, sp.live, sp.delEnd = rows, rest, end
		} else {
			sp.live, sp.deleted, sp.liveEnd = rows, rest, end
		}
		c.pageRows(rule, name, []tdef{{12, "shop", "orders", cols}}, deleted, want, sp)
	}
	// places that are 32 bytes apart, in an order that mixes short and long ways
	scramble := func(n, from, step, seed int) []int {
		out := make([]int, n)
		for i := range out {
			out[i] = from + (i*seed%n)*step
		}
		return out
	}
	for _, compact := range []bool{true, false} {
		for _, deleted := range []bool{false, true} {
			for n := 0; n <= 5; n++ {
				if n == 0 && deleted {
					continue
				}
				up, down := make([]int, n), make([]int, n)
				for i := range up {
					up[i], down[i] = 200+40*i, 2000-50*i
				}
				try("order", fmt.Sprintf("%d records upwards", n), compact, deleted, up, 0, nil)
				try("order", fmt.Sprintf("%d records downwards", n), compact, deleted, down, 0, nil)
				try("lists", fmt.Sprintf("%d records beside three others", n), compact, deleted, up, 0, []int{5000, 4000, 6000})
			}
			for _, s := range []struct{ n, from, step, seed int }{{101, 200, 32, 37}, {64, 150, 255, 27}, {37, 300, 256, 17}, {13, 130 + 20, 1250, 5}, {31, 500, 512, 12}, {7, 127, 2300, 3}, {128, 128, 127, 51}} {
				try("order", fmt.Sprintf("%d records, %d apart, in mixed order", s.n, s.step), compact, deleted, scramble(s.n, s.from, s.step, s.seed), 0, nil)
			}
			for _, far := range []int{16377 - 40, 16377, 16370} {
				try("order", fmt.Sprintf("a record at %d between others", far), compact, deleted, []int{200, far - 60, 300}, 0, nil)
			}
			for _, end := range []int{0, -1, 16384, 16400, 20000, 32767 + 200, 16383} {
				for n := 1; n <= 3; n++ {
					at := []int{200, 3000, 1000}[:n]
					try("end", fmt.Sprintf("%d records, the last leads to %d", n, end), compact, deleted, at, end, nil)
				}
			}
			if compact {
				try("end", "the last record leads to before the page", compact, deleted, []int{200, 3000, 1000}, -900, nil)
			}
			if !deleted {
				try("end", "the infimum leads nowhere", compact, deleted, nil, -1, nil)
				try("end", "the infimum leads out of the page", compact, deleted, nil, 16384+50, nil)
			}
		}
	}
}

// ---- C24 ---------------------------------------------------------------------------

func checkC24(c *Check) {
	c.rule("live", "the live rows of a page are read exactly when it is a leaf page of a clustered index")
	c.rule("deleted", "deleted rows are read exactly when the page is such a page with a free list and garbage")
	c.rule("pages", "each page of the file is judged for itself")
	cols := withSys([]tcol{idCol()})
	mk := func(no uint64, compact bool, live, del int) (*pageSpec, *Node, *Node) {
		s := &pageSpec{no: no, compact: compact, index: 77}
		wl, wd := strN(""), strN("")
		for i := 0; i < live+del; i++ {
			v := withSysV(fmt.Sprintf("page %d row %d", no, i), []fval{fv(fmt.Sprintf("page %d id %d", no, i), 4)})
			if i < live {
				s.live = append(s.live, tRow{vals: v})
				wl = catN(wl, c.rowWant(cols, v))
			} else {
				s.deleted = append(s.deleted, tRow{vals: v})
				wd = catN(wd, c.rowWant(cols, v))
			}
		}
		return s, wl, wd
	}
	tabs := []tdef{{12, "shop", "orders", cols}}
	field := func(name string, n int) []*Node { return fb(name, n) }
	all := func(ns []*Node, v uint64) *Node {
		g := nTrue
		for i, n := range ns {
			g = andN(g, eqN(n, constN(v>>(8*uint(len(ns)-1-i))&255)))
		}
		return g
	}
	for _, compact := range []bool{true, false} {
		f := map[bool]string{true: "COMPACT", false: "REDUNDANT"}[compact]
		for _, rec := range []bool{false, true} {
			rule, mode := "live", f+", live rows: "
			if rec {
				rule, mode = "deleted", f+", deleted rows: "
			}
			for _, d := range []int{0, 1, 2} {
				for _, l := range []int{0, 1, 2} {
					name := fmt.Sprintf("%spage of unknown type, level and transaction with %d live and %d deleted rows", mode, l, d)
					s, wl, wd := mk(3, compact, l, d)
					want := wl
					if rec {
						want = wd
					}
					ty, lv, tx := field("type", 2), field("level", 2), field("max trx", 8)
					s.edit = func(p *pageBuf) {
						p.putN(24, ty...)
						p.putN(64, lv...)
						p.putN(56, tx...)
					}
					g := andN(all(ty, 17855), andN(all(lv, 0), all(tx, 0)))
					c.pageRows(rule, name, tabs, rec, iteN(g, want, strN("")), s)
				}
			}
			// what must not matter, and the garbage count
			for _, l := range []int{0, 1, 2} {
				for _, d := range []int{0, 1, 2} {
					s, wl, wd := mk(3, compact, l, d)
					nr, gb, other := field("records", 2), field("garbage", 2), field("other", 40)
					s.edit = func(p *pageBuf) {
						p.putN(38+16, nr...)
						p.putN(38+8, gb...)
						p.putN(0, other[:4]...)
						p.putN(8, other[4:20]...)
						p.putN(26, other[20:32]...)
						p.putN(38+10, other[32:38]...)
					}
					want := wl
					if rec {
						want = iteN(all(gb, 0), strN(""), wd)
					}
					c.pageRows(rule, fmt.Sprintf("%spage with %d live and %d deleted rows, unknown record count and garbage", mode, l, d), tabs, rec, want, s)
				}
			}
			// the free list
			for _, free := range []uint64{0, 16384, 16385, 16400, 20000, 32768, 0x8001, 0xff00, 65535} {
				for _, g := range []uint64{0, 1, 50, 256, 65535} {
					s, wl, _ := mk(3, compact, 2, 1)
					s.edit = func(p *pageBuf) {
						p.put(38+6, 2, free)
						p.put(38+8, 2, g)
					}
					want := wl
					if rec {
						want = strN("")
					}
					c.pageRows(rule, fmt.Sprintf("%sfree list at %d, garbage %d", mode, free, g), tabs, rec, want, s)
				}
			}
			if rec {
				for _, at := range []int{200, 1000, 4096, 8191, 8192, 8200, 12000, 16000, 16300} {
					s, wl, wd := mk(3, compact, 1, 1)
					s.deleted[0].at = at
					_ = wl
					c.pageRows(rule, fmt.Sprintf("%sfree list from %d", mode, at), tabs, rec, wd, s)
				}
			}
			for _, g := range []uint64{1, 2, 255, 256, 0x8000, 65535, 0} {
				for _, nr := range []uint64{0, 1, 3, 256, 0x7fff} {
					s, wl, wd := mk(3, compact, 1, 2)
					s.edit = func(p *pageBuf) {
						p.put(38+8, 2, g)
						p.put(38+16, 2, nr)
					}
					want := wl
					if rec {
						want = wd
						if g == 0 {
							want = strN("")
						}
					}
					c.pageRows(rule, fmt.Sprintf("%sgarbage %d, %d records", mode, g, nr), tabs, rec, want, s)
				}
			}
			for _, t := range []uint64{0, 1, 2, 3, 8, 17854, 17856, 0xBF45, 0x4500, 0x00BF, 0x45FF, 0xC5BF} {
				s, _, _ := mk(3, compact, 1, 1)
				s.edit = func(p *pageBuf) { p.put(24, 2, t) }
				c.pageRows(rule, fmt.Sprintf("%spage of type %d", mode, t), tabs, rec, strN(""), s)
			}
			for _, t := range []uint64{1, 2, 3, 255, 256, 0x0100, 0x8000, 65535} {
				s, _, _ := mk(3, compact, 1, 1)
				s.edit = func(p *pageBuf) { p.put(64, 2, t) }
				c.pageRows(rule, fmt.Sprintf("%spage at level %d", mode, t), tabs, rec, strN(""), s)
			}
			for b := 0; b < 8; b++ {
				for _, v := range []uint64{1, 0x80, 0xff} {
					s, _, _ := mk(3, compact, 1, 1)
					s.edit = func(p *pageBuf) { p.put(56, 8, v<<uint(8*b)) }
					c.pageRows(rule, fmt.Sprintf("%stransaction id %#x", mode, v<<uint(8*b)), tabs, rec, strN(""), s)
				}
			}
			// several pages
			kinds := []struct {
				name string
				f    func(s *pageSpec)
			}{
				{"leaf", nil},
				{"other type", func(s *pageSpec) { s.typ = 2 }},
				{"level 1", func(s *pageSpec) { s.edit = func(p *pageBuf) { p.put(64, 2, 1) } }},
				{"secondary", func(s *pageSpec) { s.edit = func(p *pageBuf) { p.put(56, 8, 77) } }},
				{"empty", func(s *pageSpec) { s.live, s.deleted = nil, nil }},
				{"no garbage", func(s *pageSpec) { s.edit = func(p *pageBuf) { p.put(46, 2, 0) } }},
				{"bad free list", func(s *pageSpec) { s.edit = func(p *pageBuf) { p.put(44, 2, 30000) } }},
				{"free list behind the records", func(s *pageSpec) { s.edit = func(p *pageBuf) { p.put(44, 2, 16380) } }},
				{"all zero", func(s *pageSpec) { s.edit = (*pageBuf).zero }},
				{"other index", func(s *pageSpec) { s.index = 90 }},
				{"lower index", func(s *pageSpec) { s.index = 3 }},
			}
			for i := range kinds {
				for j := range kinds {
					var ps []*pageSpec
					want := strN("")
					for k, x := range []int{0, i, j, 0} {
						s, wl, wd := mk(uint64(k+3), compact, 2, 1)
						if f := kinds[x].f; f != nil {
							f(s)
						}
						w := wl
						switch n := kinds[x].name; {
						case n == "all zero" || n == "other type" || n == "level 1" || n == "secondary" || n == "empty":
							w = strN("")
						case rec && (n == "no garbage" || n == "bad free list" || n == "free list behind the records"):
							w = strN("")
						case rec:
							w = wd
						}
						want = catN(want, w)
						ps = append(ps, s)
					}
					c.pageRows("pages", fmt.Sprintf("%sleaf, %s, %s, leaf", mode, kinds[i].name, kinds[j].name), tabs, rec, want, ps...)
				}
			}
		}
	}
}
