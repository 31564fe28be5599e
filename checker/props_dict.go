package main

// The data dictionary: C29 to C32, C34, and the headers, C23.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	prop("C23", techVal,
		"The header readers are analysed on a page of unknown content; each named header field is compared with the big-endian bytes at its InnoDB offset.",
		checkC23)
	prop("C29", techVal,
		"The reading of a system tablespace is analysed with dictionary rows whose type, attribute and length values are unknown; each attribute of the resulting columns is compared with the bits InnoDB stores it in.",
		checkC29, "dictionaries of up to five tables")
	prop("C30", techVal,
		"The reading of a system tablespace is analysed with dictionaries of many shapes and unknown values; the tables, indexes and key fields that come out are compared with the rows they were built from, for both directions in which maps may be walked.",
		checkC30, "dictionaries of up to six tables", "maps are walked forwards or backwards")
	prop("C31", techVal,
		"The reading of a system tablespace and of a table file is analysed for every number, order and place of the key columns; the order of the columns and the statements printed are compared with the physical order of the row.",
		checkC31, "tables of up to 8 columns with keys of up to 4 in every arrangement, given tables of up to 140 columns and keys of up to 16", "maps are walked forwards or backwards")
	prop("C32", techVal,
		"The reading of a table file is analysed for an unknown database and table name against dictionaries of several tables; error and output are compared with what the dictionary holds for exactly these names.",
		checkC32, "dictionaries of up to five tables")
	prop("C34", techVal,
		"The reading of a system tablespace is analysed with the dictionary tables spread over several pages, root pages at varied places, and missing pages; tables and error are compared with the rows of all pages.",
		checkC34, "up to five pages per dictionary table; pages behind their root page")
}

type dictCol struct {
	name                string
	mtype, prtype, flen []*Node
}

type dictIdx struct {
	id     uint64
	name   string
	typ    uint64
	fields []string
	sym    bool // number and type of fields unknown
}

type dictTab struct {
	id       uint64
	db, name string
	raw      string // name as stored, default db/name
	space    []*Node
	cols     []dictCol
	idx      []dictIdx
}

func (t dictTab) stored() string {
	if t.raw != "" {
		return t.raw
	}
	return t.db + "/" + t.name
}

func strBytes(s string) fval {
	var out []*Node
	for i := 0; i < len(s); i++ {
		out = append(out, constN(uint64(s[i])))
	}
	return fval{b: out}
}

func num4(v uint64) []*Node { return be(v, 4) }

// dictRows are the rows of the four dictionary tables.
func dictRows(tabs []dictTab) (rows [4][][]fval) {
	v := func(b []*Node) fval { return fval{b: b} }
	n := 0
	sys := func() []fval {
		n++
		return sysVals(fmt.Sprintf("dictionary row %d", n))
	}
	join := func(key []fval, rest ...fval) []fval {
		return append(append(append([]fval{}, key...), sys()...), rest...)
	}
	for _, t := range tabs {
		sp := t.space
		if sp == nil {
			sp = num4(t.id + 5)
		}
		rows[0] = append(rows[0], join([]fval{strBytes(t.stored())}, v(be(t.id, 8)), v(num4(uint64(len(t.cols))|1<<31)), v(fb("type of "+t.name, 4)), v(fb("mix of "+t.name, 8)), v(fb("mix len of "+t.name, 4)), nullV, v(sp)))
		for i, k := range t.cols {
			rows[1] = append(rows[1], join([]fval{v(be(t.id, 8)), v(num4(uint64(i)))}, strBytes(k.name), v(k.mtype), v(k.prtype), v(k.flen), v(fb("prec "+t.name+k.name, 4))))
		}
		for _, x := range t.idx {
			nf, ty := num4(uint64(len(x.fields))), num4(x.typ)
			if x.sym {
				nf, ty = fb("fields of "+x.name, 4), fb("type of "+x.name, 4)
			}
			rows[2] = append(rows[2], join([]fval{v(be(t.id, 8)), v(be(x.id, 8))}, strBytes(x.name), v(nf), v(ty), v(sp), v(fb("page of "+x.name, 4))))
			for i, f := range x.fields {
				rows[3] = append(rows[3], join([]fval{v(be(x.id, 8)), v(num4(uint64(i)))}, strBytes(f)))
			}
		}
	}
	return
}

// dictSpec says how a system tablespace is laid out.
type dictSpec struct {
	tabs  []dictTab
	roots [4]uint64 // page numbers of the roots, default 8 to 11
	ids   [4]uint64 // index ids found in the pages, default 1 to 4
	split [4][]int  // rows per page of each dictionary table; nil: all in the root page
	more  []uint64  // numbers of the further pages, in order; default 20...
	order []int     // order in which further pages of the four tables come; default table by table
	drop  uint64    // page that is missing
	noHdr bool
	long  bool   // two-byte field ends
	loop  [4]int // row the last row of the page leads back to, from 1
}

func (s *dictSpec) pages() []*pageBuf {
	roots, ids := s.roots, s.ids
	if roots == [4]uint64{} {
		roots = [4]uint64{8, 9, 10, 11}
	}
	if ids == [4]uint64{} {
		ids = [4]uint64{1, 2, 3, 4}
	}
	rows := dictRows(s.tabs)
	mk := func(no uint64, t int, part [][]fval) *pageBuf {
		sp := &pageSpec{no: no, index: ids[t]}
		for _, r := range part {
			sp.live = append(sp.live, tRow{vals: r, long: s.long})
		}
		if k := s.loop[t]; k > 0 && k <= len(part) {
			sp.build(nil)
			sp.liveEnd = sp.origins[k-1]
			sp.origins = nil
		}
		return sp.build(nil)
	}
	var first [4]*pageBuf
	var further [4][][][]fval
	for t := range rows {
		part, rest := rows[t], [][][]fval(nil)
		if s.split[t] != nil {
			at := 0
			for i, n := range s.split[t] {
				end := at + n
				if i == len(s.split[t])-1 || end > len(rows[t]) {
					end = len(rows[t])
				}
				if i == 0 {
					part = rows[t][:end]
				} else {
					rest = append(rest, rows[t][at:end])
				}
				at = end
			}
		}
		first[t] = mk(roots[t], t, part)
		further[t] = rest
	}
	max := uint64(11)
	for _, r := range roots {
		if r > max {
			max = r
		}
	}
	byNo := map[uint64]*pageBuf{}
	for t := range first {
		byNo[roots[t]] = first[t]
	}
	var out []*pageBuf
	for no := uint64(0); no <= max; no++ {
		if s.drop != 0 && no == s.drop || s.noHdr && no == 7 {
			continue
		}
		switch p := byNo[no]; {
		case p != nil:
			out = append(out, p)
		case no == 7:
			h := newPageBuf(7, 6, 0)
			h.putN(66, fb("dictionary header index", 8)...)
			for t, at := range []int{70, 78, 82, 86} {
				h.put(at, 4, roots[t])
			}
			h.put(66, 4, 0xdddddddd)
			out = append(out, h)
		default:
			out = append(out, newPageBuf(no, 0, 0))
		}
	}
	next := uint64(20)
	if max >= 20 {
		next = max + 1
	}
	k := 0
	add := func(t int) {
		if len(further[t]) == 0 {
			return
		}
		no := next
		if k < len(s.more) {
			no = s.more[k]
		}
		k++
		next++
		out = append(out, mk(no, t, further[t][0]))
		further[t] = further[t][1:]
	}
	for _, t := range s.order {
		if t == -2 {
			z := newPageBuf(0, 0, 0)
			z.zero()
			out = append(out, z)
			continue
		}
		if t < 0 {
			out = append(out, newPageBuf(next, 17855, 99))
			next++
			continue
		}
		add(t)
	}
	for t := range further {
		for len(further[t]) > 0 {
			add(t)
		}
	}
	return out
}

// dictRun reads a system tablespace.
type dictRun struct {
	*tenv
	r      *run
	sys    *device
	tab    *device
	order  int
	onWalk func(fn *ssa.Function, ins ssa.Instruction, n int)
}

func (c *Check) readDict(sysPages, tabPages []*pageBuf, back bool) *dictRun {
	return c.readDictOpt(sysPages, tabPages, back, false)
}

func (c *Check) readDictOpt(sysPages, tabPages []*pageBuf, back, endless bool) *dictRun {
	order := 0
	if back {
		order = 1
	}
	return c.readDictOrd(sysPages, tabPages, order, endless, nil)
}

func (c *Check) readDictOrd(sysPages, tabPages []*pageBuf, order int, endless bool, onWalk func(fn *ssa.Function, ins ssa.Instruction, n int)) *dictRun {
	tickCount = 0
	e := &dictRun{tenv: &tenv{c: c, pt: c.typ(pIB, "Parse")}, order: order, onWalk: onWalk}
	nf := c.fn(pIB, "NewParse")
	c.curFn = nf
	mk := c.exec(nf, nil, nil, nil)
	e.m = mk.st.mem
	e.recv = asNode(mk.res[0])
	sb := bytesOf(sysPages...)
	e.sys = &device{name: "ibdata1", total: len(sb), errAt: -1, base: newAlloc("content of ibdata1")}
	tb := bytesOf(tabPages...)
	e.tab = &device{name: "orders.ibd", total: len(tb), errAt: -1, base: newAlloc("content of orders.ibd")}
	e.d = newDevices(c, e.m, e.sys, e.tab)
	e.m.set(e.sys.base, vecOf(sb))
	e.m.set(e.tab.base, vecOf(tb))
	f := c.fn(pIB, "ParseDictPage")
	if sigString(f) != "(string)(error)" {
		panic(undecided("ParseDictPage takes other parameters than expected"))
	}
	c.curFn = f
	e.r = c.exec(f, []Value{e.recv, strN(e.sys.name)}, e.m, func(in *Interp) {
		e.d.install(in)
		in.path0 = "dict"
		in.panics = true
		in.forceUnroll = true
		in.unrollMax = 4000
		in.mapOrder, in.onWalk = order, onWalk
		in.findEndless = endless
	})
	return e
}

// clean reports panics; false if the run is no use.
func (e *dictRun) clean(rule, construct string, r *run) bool {
	where := e.c.L.where(r.fn, nil)
	for _, x := range r.in.escaped {
		if x.g == nTrue {
			e.c.fail(rule, construct, where, "panics: "+x.why)
		} else {
			e.c.open(rule, construct, where, "a panic is possible: "+x.why+" when "+x.g.String())
		}
		return false
	}
	if r.st.g != nTrue {
		if ok, _ := equalN(r.st.g, nTrue, emptyCtx); !ok {
			e.c.open(rule, construct, where, "does not return on every path")
			return false
		}
	}
	return true
}

// rows reads the table file with the dictionary just read.
func (e *dictRun) rows(db, tab *Node, isRecovery bool) *run {
	c := e.c
	f := c.fn(pIB, "ParseDataPage")
	if sigString(f) != "(string,string,string,bool)(error)" {
		panic(undecided("ParseDataPage takes other parameters than expected"))
	}
	c.curFn = f
	return c.exec(f, []Value{e.recv, strN(e.tab.name), db, tab, boolN(isRecovery)}, e.r.st.mem, func(in *Interp) {
		e.d.install(in)
		in.path0 = "rows"
		c.escapePrim(in)
		in.panics = true
		in.forceUnroll = true
		in.unrollMax = 4000
		in.mapOrder, in.onWalk = e.order, e.onWalk
	})
}

// tables is the dictionary that was read.
func (e *dictRun) tables() (*MapObj, types.Type) {
	mt := fieldType(e.pt, "TableMap")
	s := e.pt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "TableMap" {
			v := asNode(loadAddr(e.r.st.mem, fldAddr(e.recv.leaf, i, "TableMap"), mt))
			if v.leaf == nil {
				panic(undecided("the dictionary depends on the input in an unexpected way"))
			}
			return mapObj(e.r.st.mem, v.leaf, mt.Underlying().(*types.Map)), mt.Underlying().(*types.Map).Elem()
		}
	}
	panic(undecided("no field TableMap"))
}

func u32N(b []*Node) *Node {
	n := constN(0)
	for _, x := range b {
		n = addN(scaleN(n, 256), x)
	}
	return n
}

// physical is the order of the columns in the row.
func (t dictTab) physical() (names []string, key []string) {
	for _, x := range t.idx {
		if x.name == "PRIMARY" {
			key = x.fields
		}
	}
	if key == nil {
		for _, x := range t.idx {
			if x.name == "GEN_CLUST_INDEX" {
				names = append(names, "DB_ROW_ID")
			}
		}
	}
	names = append(names, key...)
	if len(t.idx) > 0 {
		names = append(names, "DB_TRX_ID", "DB_ROLL_PTR")
	}
	for _, k := range t.cols {
		isKey := false
		for _, f := range key {
			isKey = isKey || f == k.name
		}
		if !isKey {
			names = append(names, k.name)
		}
	}
	return
}

// compareDict compares the dictionary read with the tables it was built from.
func (e *dictRun) compareDict(what map[string]string, construct string, tabs []dictTab) {
	c := e.c
	where := c.L.where(e.r.fn, nil)
	mo, tt := e.tables()
	rule := func(k string) string { return what[k] }
	ks, known := e.r.in.mapKeys(mo)
	if known && rule("tables") != "" {
		c.sites++
		c.ob(rule("tables"), construct+": number of tables", where, len(ks) == len(tabs), fmt.Sprintf("%d tables come out of a dictionary of %d", len(ks), len(tabs)))
	}
	eq := func(r, what string, got, want *Node) {
		if r != "" {
			c.eq(r, construct+": "+what, where, got, want, nil)
		}
	}
	for _, t := range tabs {
		v, has := mapGet(mo, constN(t.id), tt)
		if has != nTrue {
			c.fail(firstOf(rule("tables"), rule("columns"), rule("order"), rule("indexes")), construct+": table "+t.stored(), where, "the table is missing")
			continue
		}
		f := func(n string) *Node { return asNode(aggField(v, tt, n)) }
		name := "table " + t.stored()
		if r := rule("tables"); r != "" {
			eq(r, name+": database", f("DBName"), strN(t.db))
			eq(r, name+": name", f("TableName"), strN(t.name))
			sp := num4(t.id + 5)
			if t.space != nil {
				sp = t.space
			}
			eq(r, name+": space", f("SpaceId"), u32N(sp))
		}
		byName := map[string]dictCol{}
		for _, k := range t.cols {
			byName[k.name] = k
		}
		if ro, rc := rule("order"), rule("columns"); ro != "" || rc != "" {
			ct := fieldType(tt, "Columns").Underlying().(*types.Slice).Elem()
			got := elems(e.r.st.mem, aggField(v, tt, "Columns"), ct)
			want, _ := t.physical()
			if len(got) != len(want) {
				c.fail(firstOf(ro, rc), construct+": "+name+": columns", where, fmt.Sprintf("%d columns instead of %d", len(got), len(want)))
				continue
			}
			nn := constN(0)
			for i, g := range got {
				g := g
				gf := func(n string) *Node { return asNode(aggField(g, ct, n)) }
				cn := fmt.Sprintf("%s: column %d (%s)", name, i, want[i])
				eq(firstOf(ro, rc), cn+": name", gf("FieldName"), strN(want[i]))
				k, user := byName[want[i]]
				if !user {
					n := uint64(6)
					if want[i] == "DB_ROLL_PTR" {
						n = 7
					}
					eq(firstOf(ro, rc), cn+": length", gf("FieldLen"), constN(n))
					eq(firstOf(ro, rc), cn+": nullable", gf("IsNUll"), nFalse)
					continue
				}
				if rc == "" {
					continue
				}
				pr := u32N(k.prtype)
				null := notN(bitOf(k.prtype[2], 0))
				nn = addN(nn, iteN(null, constN(1), constN(0)))
				blob := eqN(u32N(k.mtype), constN(dtBlob))
				_ = pr
				eq(rc, cn+": type", gf("FieldType"), u32N(k.mtype))
				eq(rc, cn+": MySQL type", gf("MySQLType"), k.prtype[3])
				eq(rc, cn+": length", gf("FieldLen"), u32N(k.flen))
				eq(rc, cn+": nullable", gf("IsNUll"), null)
				eq(rc, cn+": unsigned", gf("IsUnsigned"), bitOf(k.prtype[2], 1))
				eq(rc, cn+": binary", gf("IsBinary"), andN(blob, bitOf(k.prtype[2], 2)))
				eq(rc, cn+": table", gf("TableID"), constN(t.id))
				for p, o := range t.cols {
					if o.name == want[i] {
						eq(rc, cn+": position", gf("FieldPos"), constN(uint64(p)))
					}
				}
			}
			if rc != "" {
				eq(rc, name+": number of nullable columns", f("NullCount"), nn)
			}
		}
		if r := rule("indexes"); r != "" {
			it := fieldType(tt, "Indexes").Underlying().(*types.Map)
			im := f("Indexes")
			if im.leaf == nil {
				panic(undecided("the indexes of a table depend on the input"))
			}
			io := mapObj(e.r.st.mem, im.leaf, it)
			if iks, ok := e.r.in.mapKeys(io); ok {
				c.sites++
				c.ob(r, construct+": "+name+": number of indexes", where, len(iks) == len(t.idx), fmt.Sprintf("%d indexes instead of %d", len(iks), len(t.idx)))
			}
			for _, x := range t.idx {
				iv, has := mapGet(io, constN(x.id), it.Elem())
				in := fmt.Sprintf("%s: index %s", name, x.name)
				if has != nTrue {
					c.fail(r, construct+": "+in, where, "the index is missing")
					continue
				}
				xf := func(n string) *Node { return asNode(aggField(iv, it.Elem(), n)) }
				nf, ty := constN(uint64(len(x.fields))), constN(x.typ)
				if x.sym {
					nf, ty = u32N(fb("fields of "+x.name, 4)), u32N(fb("type of "+x.name, 4))
				}
				eq(r, in+": id", xf("Id"), constN(x.id))
				eq(r, in+": name", xf("Name"), strN(x.name))
				eq(r, in+": fields", xf("FieldNum"), nf)
				eq(r, in+": type", xf("IndexType"), ty)
				pt := fieldType(it.Elem(), "Fields").Underlying().(*types.Slice).Elem()
				ft := deref(pt)
				fs := elems(e.r.st.mem, aggField(iv, it.Elem(), "Fields"), pt)
				if len(fs) != len(x.fields) {
					c.fail(r, construct+": "+in+": key fields", where, fmt.Sprintf("%d key fields instead of %d", len(fs), len(x.fields)))
					continue
				}
				for i, p := range fs {
					a := asNode(p)
					if a.leaf == nil {
						panic(undecided("a key field depends on the input"))
					}
					fv := loadAddr(e.r.st.mem, a.leaf, ft)
					eq(r, fmt.Sprintf("%s: key field %d", in, i), asNode(aggField(fv, ft, "ColumnName")), strN(x.fields[i]))
					eq(r, fmt.Sprintf("%s: key field %d: position", in, i), asNode(aggField(fv, ft, "ColumnPos")), constN(uint64(i)))
				}
			}
		}
	}
}

func firstOf(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return "rule"
}

// ncol is a column of known type.
func ncol(name string, mtype, prtype, flen uint64) dictCol {
	return dictCol{name, num4(mtype), num4(prtype), num4(flen)}
}

func intCol(name string) dictCol { return ncol(name, dtInt, mtLong|256|512, 4) }
func txtCol(name string) dictCol { return ncol(name, dtVarmysql, mtVarchar, 100) }

// symCol is a column of unknown type.
func symCol(name string) dictCol {
	return dictCol{name, fb("mtype of "+name, 4), fb("prtype of "+name, 4), fb("length of "+name, 4)}
}

func pk(id uint64, fields ...string) dictIdx {
	return dictIdx{id: id, name: "PRIMARY", typ: 3, fields: fields}
}

func (c *Check) dictCase(rules map[string]string, construct string, s dictSpec) {
	for _, back := range []bool{false, true} {
		name := construct
		if back {
			name += ", maps walked backwards"
		}
		c.try(firstOf(rules["tables"], rules["columns"], rules["order"], rules["indexes"]), name, func() {
			e := c.readDict(s.pages(), nil, back)
			r := firstOf(rules["tables"], rules["columns"], rules["order"], rules["indexes"])
			if !e.clean(r, name, e.r) {
				return
			}
			c.sites++
			c.decide2(r, name+": no error", c.L.where(e.r.fn, nil), notN(nilness(asNode(e.r.res[0]))), "a complete dictionary is refused")
			e.compareDict(rules, name, s.tabs)
		})
	}
}

// ---- C29 ---------------------------------------------------------------------------

func checkC29(c *Check) {
	c.rule("columns", "each attribute of a column has the value of its bits in the dictionary row")
	rules := map[string]string{"columns": "columns"}
	for _, n := range []int{1, 2, 3, 5} {
		t := dictTab{id: 21, db: "shop", name: "orders", cols: []dictCol{intCol("id")}, idx: []dictIdx{pk(31, "id")}}
		for i := 0; i < n; i++ {
			t.cols = append(t.cols, symCol(fmt.Sprintf("c%d", i)))
		}
		c.dictCase(rules, fmt.Sprintf("table with %d columns of unknown type", n), dictSpec{tabs: []dictTab{t}})
		u := t
		u.id, u.name, u.idx = 22, "parts", []dictIdx{{id: 41, name: "GEN_CLUST_INDEX", typ: 1}}
		u.cols = nil
		for i := 0; i < n; i++ {
			u.cols = append(u.cols, symCol(fmt.Sprintf("d%d", i)))
		}
		c.dictCase(rules, fmt.Sprintf("two tables with %d columns of unknown type", n), dictSpec{tabs: []dictTab{t, u}})
		k := dictTab{id: 1 << 40, db: "shop", name: "keys", cols: []dictCol{symCol("a"), symCol("b"), symCol("c")}, idx: []dictIdx{pk(77, "c", "a")}}
		c.dictCase(rules, fmt.Sprintf("three tables, columns of unknown type (%d)", n), dictSpec{tabs: []dictTab{u, k, t}})
	}
	// wide tables: more columns than a byte counts
	wide := []int{262}
	if c.Tier == "thorough" {
		wide = []int{262, 514}
	}
	for _, n := range wide {
		t := dictTab{id: 21, db: "shop", name: "wide", cols: []dictCol{intCol("id")}, idx: []dictIdx{pk(31, "id")}}
		for i := 1; i < n; i++ {
			t.cols = append(t.cols, ncol(fmt.Sprintf("c%d", i), dtVarmysql, mtVarchar|uint64(i%128/127*256), 100))
		}
		var split []int
		for at := 0; at < n; at += 150 {
			split = append(split, 150)
		}
		c.dictCase(rules, fmt.Sprintf("table with %d columns", n), dictSpec{tabs: []dictTab{t}, split: [4][]int{nil, split, nil, nil}})
	}
	// each attribute word with one bit set, and with one bit clear
	for b := uint(0); b < 32; b++ {
		for _, v := range []uint64{1 << b, 0xffffffff &^ (1 << b)} {
			for _, mt := range []uint64{dtBlob, dtInt, dtVarmysql, dtFixbinary} {
				t := dictTab{id: 21, db: "shop", name: "orders", cols: []dictCol{intCol("id"), ncol("a", mt, v, 10), txtCol("z")}, idx: []dictIdx{pk(31, "id")}}
				if c.Tier != "thorough" && b > 15 && mt != dtBlob {
					continue
				}
				c.dictCase(rules, fmt.Sprintf("column of type %d with attributes %#x", mt, v), dictSpec{tabs: []dictTab{t}})
			}
		}
	}
}

// ---- C30 ---------------------------------------------------------------------------

func someTables() []dictTab {
	return []dictTab{
		{id: 21, db: "shop", name: "orders", space: fb("space of orders", 4), cols: []dictCol{intCol("id"), txtCol("note"), symCol("x")}, idx: []dictIdx{pk(31, "id"), {id: 32, name: "by_note", fields: []string{"note", "x"}, sym: true}}},
		{id: 22, db: "shop", name: "items", space: fb("space of items", 4), cols: []dictCol{intCol("a"), intCol("b"), txtCol("c"), txtCol("d")}, idx: []dictIdx{{id: 30, name: "u", fields: []string{"d"}, sym: true}, pk(33, "b", "a"), {id: 34, name: "v", fields: []string{"c", "d", "a"}, sym: true}}},
		{id: 0x15_00000016, db: "shop", name: "log", space: fb("space of log", 4), cols: []dictCol{txtCol("text")}, idx: []dictIdx{{id: 0x1f_0000001f, name: "GEN_CLUST_INDEX", typ: 1}}},
		{id: 0x16_00000015, db: "shop2", name: "orders", cols: []dictCol{intCol("id")}, idx: []dictIdx{pk(0x20_0000001f, "id")}},
		{id: 11, raw: "SYS_FOREIGN", name: "SYS_FOREIGN", cols: []dictCol{txtCol("ID"), txtCol("FOR_NAME")}, idx: []dictIdx{{id: 12, name: "ID_IND", typ: 3, fields: []string{"ID"}}}},
		{id: 1 << 63, db: "größe", name: "tür @1", cols: []dictCol{intCol("id")}, idx: []dictIdx{pk(1<<63+1, "id")}},
	}
}

func checkC30(c *Check) {
	c.rule("tables", "each table has the names, id and space of its dictionary row")
	c.rule("indexes", "each index has the id, name, type, number of fields and key fields of its dictionary rows")
	rules := map[string]string{"tables": "tables", "indexes": "indexes"}
	all := someTables()
	noSys := append([]dictTab{}, all...)
	for i := range all {
		if all[i].idx[0].name == "ID_IND" {
			continue
		}
		c.dictCase(rules, "one table, "+all[i].stored(), dictSpec{tabs: []dictTab{all[i]}})
		for j := range all {
			if j != i {
				c.dictCase(rules, "tables "+all[i].stored()+" and "+all[j].stored(), dictSpec{tabs: []dictTab{all[i], all[j]}})
			}
		}
	}
	c.dictCase(rules, "six tables", dictSpec{tabs: all})
	c.dictCase(rules, "six tables, two-byte field ends", dictSpec{tabs: all, long: true})
	for i, j := 0, len(noSys)-1; i < j; i, j = i+1, j-1 {
		noSys[i], noSys[j] = noSys[j], noSys[i]
	}
	c.dictCase(rules, "six tables the other way round", dictSpec{tabs: noSys})
	for _, n := range []string{"a/b", "shop/a.b", "shop/#sql-1f_2", "shop/t#P#p0", "sh op/or ders", "SHOP/Orders", "x/y1234567890123456789012345678901234567890123456789012345678901", "@0024/@0025", "s/é", "SYSDB/orders", "SYS_X/SYS_TABLES", "sys/sys_config", "mysql/innodb_index_stats", "information_schema/t", "test/test", "tmp/#sql123", "a/FTS_0000000000000a_CONFIG", "a/b#p#q", "1/2", "-/_", "a/SYS_COLUMNS"} {
		db, name := n, ""
		for i := range n {
			if n[i] == '/' {
				db, name = n[:i], n[i+1:]
			}
		}
		c.dictCase(rules, "table stored as "+n, dictSpec{tabs: []dictTab{{id: 21, db: db, name: name, cols: []dictCol{intCol("id")}, idx: []dictIdx{pk(31, "id")}}}})
	}
	// ids that differ in one byte
	for b := uint(0); b < 64; b += 8 {
		x := uint64(0x2122232425262728)
		t := dictTab{id: x, db: "shop", name: "one", cols: []dictCol{intCol("id"), txtCol("a")}, idx: []dictIdx{pk(x+7, "id")}}
		u := dictTab{id: x ^ 0x11<<b, db: "shop", name: "two", cols: []dictCol{intCol("k"), txtCol("b"), txtCol("c")}, idx: []dictIdx{pk((x+7)^0x11<<b, "k")}}
		c.dictCase(rules, fmt.Sprintf("two tables with ids that differ in byte %d", b/8), dictSpec{tabs: []dictTab{t, u}})
	}
	// many key fields
	for _, n := range []int{1, 2, 4, 9, 16} {
		t := dictTab{id: 21, db: "shop", name: "wide"}
		var f []string
		for i := 0; i < n; i++ {
			t.cols = append(t.cols, intCol(fmt.Sprintf("c%d", i)))
			f = append([]string{fmt.Sprintf("c%d", i)}, f...)
		}
		t.idx = []dictIdx{pk(31, f...), {id: 32, name: "other", fields: f[:(n+1)/2], sym: true}}
		c.dictCase(rules, fmt.Sprintf("key of %d columns", n), dictSpec{tabs: []dictTab{t}})
	}
}

// ---- C31 ---------------------------------------------------------------------------

func perms(n, k int) (out [][]int) {
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == k {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			used := false
			for _, x := range cur {
				used = used || x == i
			}
			if !used {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
	return
}

func checkC31(c *Check) {
	c.rule("order", "the columns of a table are in physical order")
	c.rule("rows", "a row in physical order is printed in that order")
	for n := 1; n <= 4; n++ {
		for k := 0; k <= n; k++ {
			for _, p := range perms(n, k) {
				if c.Tier != "thorough" && n == 4 && k == 3 && p[0]%2 == 1 {
					continue
				}
				c.orderCase(n, p, false)
			}
		}
	}
	for _, s := range []struct {
		n int
		p []int
	}{{8, []int{7}}, {8, []int{3, 5}}, {8, []int{6, 0, 4}}, {8, []int{7, 6, 5, 4}}, {6, []int{0, 1, 2}}, {6, []int{5, 4, 3, 2}}, {8, nil},
		{17, []int{16, 3, 14, 1, 12, 5, 10, 7, 8, 9, 6, 11, 4, 13, 2, 15}}, {16, []int{15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0}}, {70, []int{69, 33, 0, 64}}, {140, []int{128, 2}}} {
		c.orderCase(s.n, s.p, true)
	}
	for _, tabs := range [][]int{{0, 1}, {1, 0}, {0, 1, 2}, {2, 1, 0}, {0, 1, 2, 3, 5}} {
		var ts []dictTab
		for _, i := range tabs {
			ts = append(ts, someTables()[i])
		}
		c.dictCase(map[string]string{"order": "order"}, fmt.Sprintf("tables %v", tabs), dictSpec{tabs: ts})
	}
}

// orderCase is a table of n columns whose key columns are p.
func (c *Check) orderCase(n int, p []int, more bool) {
	t := dictTab{id: 21, db: "shop", name: "orders"}
	widths := []uint64{4, 8, 2, 4, 1, 8, 3, 2}
	my := []uint64{mtLong, 8, 2, mtLong, 1, 8, 9, 2}
	cols := map[string]tcol{"DB_ROW_ID": rowIDCol(), "DB_TRX_ID": sysCols()[0], "DB_ROLL_PTR": sysCols()[1]}
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("c%d", i)
		k := tcol{name: nm, mtype: dtInt, mysql: my[i%8], flen: widths[i%8], unsig: true}
		pr := my[i%8] | 512
		if i%3 == 1 {
			k = tcol{name: nm, mtype: dtVarmysql, mysql: mtVarchar, flen: 100}
			pr = mtVarchar
		}
		key := false
		for _, x := range p {
			key = key || x == i
		}
		if i%2 == 1 && !key {
			k.null = true
		} else {
			pr |= 256
		}
		cols[nm] = k
		t.cols = append(t.cols, ncol(nm, k.mtype, pr, k.flen))
	}
	if p == nil || len(p) == 0 {
		t.idx = []dictIdx{{id: 31, name: "GEN_CLUST_INDEX", typ: 1}}
	} else {
		var f []string
		for _, x := range p {
			f = append(f, fmt.Sprintf("c%d", x))
		}
		t.idx = []dictIdx{pk(31, f...)}
	}
	t.idx = append(t.idx, dictIdx{id: 32, name: "second", fields: []string{fmt.Sprintf("c%d", n-1)}})
	if n != 4 {
		t.idx = append(t.idx, dictIdx{id: 33, name: "PRIMARY_2", fields: []string{"c0", fmt.Sprintf("c%d", n-1)}}, dictIdx{id: 34, name: "NO_GEN_CLUST_INDEX", fields: []string{"c0"}})
	}
	name := fmt.Sprintf("%d columns, key %v", n, p)
	c.dictCase(map[string]string{"order": "order"}, name, dictSpec{tabs: []dictTab{t}})
	order, _ := t.physical()
	var cs []tcol
	for _, o := range order {
		cs = append(cs, cols[o])
	}
	if len(cs) < 3 {
		return
	}
	for _, compact := range []bool{true, false} {
		what := name + map[bool]string{true: ", COMPACT", false: ", REDUNDANT"}[compact]
		c.try("rows", what, func() {
			sp := &pageSpec{no: 3, compact: compact, index: 31}
			want := strN("")
			for row := 0; row < 2; row++ {
				var vals []fval
				for i, k := range cs {
					v := fv(fmt.Sprintf("row %d %s", row, k.name), int(k.flen))
					if k.mtype == dtVarmysql {
						v = fv(fmt.Sprintf("row %d %s", row, k.name), 2+i%3)
					}
					if k.null && row == 1 {
						v = nullV
					}
					vals = append(vals, v)
				}
				sp.live = append(sp.live, tRow{vals: vals})
				want = catN(want, c.rowText("shop", "orders", cs, vals))
			}
			ds := dictSpec{tabs: []dictTab{someTables()[1], t}}
			e := c.readDict(ds.pages(), []*pageBuf{sp.build(cs)}, false)
			if !e.clean("rows", what, e.r) {
				return
			}
			r := e.rows(strN("shop"), strN("orders"), false)
			if !e.clean("rows", what, r) {
				return
			}
			c.eq("rows", what, c.L.where(r.fn, nil), r.output(), want, nil)
			c.decide2("rows", what+": no error", c.L.where(r.fn, nil), notN(nilness(asNode(r.res[0]))), "the table is refused")
		})
	}
}

// ---- C32 ---------------------------------------------------------------------------

func checkC32(c *Check) {
	c.rule("unknown", "for a name the dictionary does not hold the reading fails and prints nothing")
	c.rule("known", "a table of the dictionary is read with its own columns")
	tab := func(id uint64, db, name string, n int) dictTab {
		t := dictTab{id: id, db: db, name: name}
		for i := 0; i < n; i++ {
			t.cols = append(t.cols, ncol(fmt.Sprintf("c%d_%d", id, i), dtVarmysql, mtVarchar|256, 100))
		}
		t.idx = []dictIdx{pk(id+100, t.cols[0].name)}
		return t
	}
	sets := [][]dictTab{
		nil,
		{tab(21, "shop", "orders", 2)},
		{tab(21, "shop", "orders", 2), tab(22, "shop", "items", 3)},
		{tab(21, "shop", "orders", 3), tab(22, "shop2", "orders", 1), tab(23, "shop", "orders2", 2)},
		{tab(21, "orders", "shop", 3), tab(22, "shop", "orders", 1), tab(23, "shop", "order", 2), tab(24, "sho", "orders", 4), tab(25, "Shop", "Orders", 5)},
		{tab(21, "a", "b", 1), tab(22, "b", "a", 2), tab(23, "a", "a", 3), tab(24, "b", "b", 4)},
	}
	c.otherFiles(sets[1])
	for si, set := range sets {
		for _, back := range []bool{false, true} {
			for _, rec := range []bool{false, true} {
				name := fmt.Sprintf("dictionary %d of %d tables, maps backwards %t, deleted rows %t", si, len(set), back, rec)
				c.try("known", name, func() {
					// a row of five one-byte columns, as the table with n columns reads it
					cs := withSys([]tcol{vcol("c0", 100, false), vcol("c1", 100, false), vcol("c2", 100, false), vcol("c3", 100, false), vcol("c4", 100, false)})
					var vals []fval
					for i, k := range cs {
						n := 1
						if k.mtype == 0 {
							n = int(k.flen)
						}
						vals = append(vals, fv(fmt.Sprintf("value %d", i), n))
					}
					sp := &pageSpec{no: 3, index: 131}
					if rec {
						sp.deleted = []tRow{{vals: vals}}
					} else {
						sp.live = []tRow{{vals: vals}}
					}
					ds := dictSpec{tabs: set}
					e := c.readDict(ds.pages(), []*pageBuf{sp.build(cs)}, back)
					if !e.clean("known", name, e.r) {
						return
					}
					for _, t := range set {
						what := fmt.Sprintf("%s: table %s", name, t.stored())
						r := e.rows(strN(t.db), strN(t.name), rec)
						if !e.clean("known", what, r) {
							continue
						}
						n := len(t.cols)
						c.eq("known", what, c.L.where(r.fn, nil), r.output(), c.rowText(t.db, t.name, cs[:n+2], vals[:n+2]), nil)
						c.decide2("known", what+": no error", c.L.where(r.fn, nil), notN(nilness(asNode(r.res[0]))), "a table of the dictionary is refused")
					}
					for _, u := range [][2]string{{"shop", "order_"}, {"shop", ""}, {"", "orders"}, {"", ""}, {"Shop", "orders"}, {"shop", "Orders"}, {"SHOP", "ORDERS"}, {"sho", "orders2"}, {"shop", "orders3"},
						{"shop", "shop"}, {"orders", "orders"}, {"shop/orders", ""}, {"", "shop/orders"}, {"shop ", "orders"}, {"shop", "orders "}, {"shop2", "items"}, {"s", "o"}, {"c", "a"}, {"a", "c"}, {"shop", "ord%"}, {"%", "%"}, {"*", "*"}} {
						known := false
						for _, t := range set {
							known = known || t.db == u[0] && t.name == u[1]
						}
						if known {
							continue
						}
						what := fmt.Sprintf("%s: database %q, table %q", name, u[0], u[1])
						r := e.rows(strN(u[0]), strN(u[1]), rec)
						if !e.clean("unknown", what, r) {
							continue
						}
						c.eq("unknown", what+": output", c.L.where(r.fn, nil), r.output(), strN(""), nil)
						c.decide2("unknown", what, c.L.where(r.fn, nil), nilness(asNode(r.res[0])), "a table that is not in the dictionary is no error")
					}
					// names nothing is known of
					db, tb := asNode(sym("database", tString)), asNode(sym("table", tString))
					r := e.rows(db, tb, rec)
					what := name + ": any name"
					if !e.clean("unknown", what, r) {
						return
					}
					is := nFalse
					want := strN("")
					for _, t := range set {
						g := andN(eqN(db, strN(t.db)), eqN(tb, strN(t.name)))
						is = orN(is, g)
						n := len(t.cols)
						want = iteN(g, c.rowText(t.db, t.name, cs[:n+2], vals[:n+2]), want)
					}
					c.eq("unknown", what+": error", c.L.where(r.fn, nil), nilness(asNode(r.res[0])), is, nil)
					// what is printed without one of the names being known
					c.eq("unknown", what+": output", c.L.where(r.fn, nil), iteN(is, strN("rows"), r.output()), iteN(is, strN("rows"), strN("")), nil)
				})
			}
		}
	}
}

// otherFiles reads unknown tables from files without rows.
func (c *Check) otherFiles(set []dictTab) {
	blank := func(no, typ uint64) *pageBuf { return newPageBuf(no, typ, 0) }
	zero := newPageBuf(0, 0, 0)
	for i := range zero.b {
		zero.b[i] = constN(0)
	}
	for _, f := range []struct {
		name  string
		pages []*pageBuf
	}{
		{"a file of no page", nil},
		{"a file of one zero page", []*pageBuf{zero}},
		{"a file without index pages", []*pageBuf{blank(0, 8), blank(1, 5), blank(2, 3)}},
		{"a file of an index page without rows", []*pageBuf{(&pageSpec{no: 3, index: 131}).build(nil)}},
	} {
		for _, rec := range []bool{false, true} {
			name := fmt.Sprintf("%s, deleted rows %t", f.name, rec)
			c.try("unknown", name, func() {
				ds := dictSpec{tabs: set}
				e := c.readDict(ds.pages(), f.pages, false)
				if !e.clean("unknown", name, e.r) {
					return
				}
				for _, u := range [][2]string{{"shop", "orders"}, {"shop", "none"}, {"none", "orders"}, {"", ""}} {
					r := e.rows(strN(u[0]), strN(u[1]), rec)
					what := fmt.Sprintf("%s: database %q, table %q", name, u[0], u[1])
					if !e.clean("unknown", what, r) {
						continue
					}
					where := c.L.where(r.fn, nil)
					c.eq("unknown", what+": output", where, r.output(), strN(""), nil)
					if u[1] == "orders" && u[0] == "shop" {
						c.decide2("known", what+": no error", where, notN(nilness(asNode(r.res[0]))), "a table of the dictionary is refused")
					} else {
						c.decide2("unknown", what, where, nilness(asNode(r.res[0])), "a table that is not in the dictionary is no error")
					}
				}
			})
		}
	}
}

// ---- C34 ---------------------------------------------------------------------------

func checkC34(c *Check) {
	c.rule("pages", "the rows of all pages of a dictionary table are used")
	c.rule("roots", "the root pages are those the dictionary header names")
	c.rule("missing", "a missing dictionary table is an error")
	all := map[string]string{"tables": "pages", "columns": "pages", "order": "pages", "indexes": "pages"}
	ts := someTables()
	tabs := []dictTab{ts[0], ts[1], ts[2], ts[3], ts[5]}
	for t := 0; t < 4; t++ {
		for _, sp := range [][]int{{1, 9}, {2, 1, 9}, {0, 9}, {1, 1, 1, 9}, {0, 0, 9}, {9, 9}, {2, 0, 9}, {1, 1, 1, 1, 9}} {
			s := dictSpec{tabs: tabs}
			s.split[t] = sp
			c.dictCase(all, fmt.Sprintf("dictionary table %d over %d pages %v", t, len(sp), sp), s)
		}
	}
	for _, o := range [][]int{{0, 1, 2, 3, 0, 1, 2, 3}, {3, 2, 1, 0, 3, 2, 1, 0}, {-1, 0, -1, 2, 2, -1, 1, 3, 3, 1, 0, -1}, {3, 3, 0, 0, 2, 2, 1, 1}, {-2, 0, -2, 1, 2, -2, -1, 3, 3, 2, -2, -2, 1, 0, -2}} {
		s := dictSpec{tabs: tabs, split: [4][]int{{1, 2, 9}, {3, 4, 9}, {2, 2, 9}, {1, 3, 9}}, order: o}
		c.dictCase(all, fmt.Sprintf("all dictionary tables over three pages, order %v", o), s)
		s.more = []uint64{500, 40, 300, 0x10000, 30, 31, 29, 1 << 31}
		c.dictCase(all, fmt.Sprintf("all dictionary tables over three pages, order %v, other page numbers", o), s)
	}
	roots := map[string]string{"tables": "roots", "columns": "roots", "order": "roots", "indexes": "roots"}
	for _, r := range [][4]uint64{{8, 9, 10, 11}, {11, 10, 9, 8}, {9, 8, 11, 10}, {10, 14, 12, 13}, {3, 9, 1, 12}, {20, 30, 25, 40}} {
		c.dictCase(roots, fmt.Sprintf("root pages %v", r), dictSpec{tabs: tabs, roots: r})
	}
	c.dictMissing("missing")
}

// dictMissing decides that a system tablespace without one of the dictionary
// tables is refused.
func (c *Check) dictMissing(rule string) {
	ts := someTables()
	tabs := []dictTab{ts[0], ts[1], ts[2]}
	names := []string{"SYS_TABLES", "SYS_COLUMNS", "SYS_INDEXES", "SYS_FIELDS"}
	must := func(name string, s dictSpec) {
		c.try(rule, name, func() {
			e := c.readDict(s.pages(), nil, false)
			if !e.clean(rule, name, e.r) {
				return
			}
			c.sites++
			c.decide2(rule, name, c.L.where(e.r.fn, nil), nilness(asNode(e.r.res[0])), "a dictionary without "+name+" is accepted")
		})
	}
	for t := range names {
		must("no root page of "+names[t], dictSpec{tabs: tabs, drop: uint64(8 + t)})
		ids := [4]uint64{1, 2, 3, 4}
		ids[t] = 77
		must("the root page of "+names[t]+" has another index id", dictSpec{tabs: tabs, ids: ids})
		s := dictSpec{tabs: tabs, drop: uint64(8 + t)}
		s.split[t] = []int{1, 9}
		must("only a further page of "+names[t], s)
	}
	must("no dictionary header page", dictSpec{tabs: tabs, noHdr: true})
	c.try(rule, "an empty file", func() {
		e := c.readDict(nil, nil, false)
		if e.clean(rule, "an empty file", e.r) {
			c.sites++
			c.decide2(rule, "an empty file", c.L.where(e.r.fn, nil), nilness(asNode(e.r.res[0])), "an empty system file is accepted")
		}
	})
}

// ---- C23 ---------------------------------------------------------------------------

type hdrField struct {
	name   string
	at, ln int
}

func checkC23(c *Check) {
	c.rule("file", "the file header fields are at their InnoDB offsets")
	c.rule("page", "the page header fields are at their InnoDB offsets")
	c.rule("dictionary", "the dictionary header fields are at their InnoDB offsets")
	fil := []hdrField{{"FIL_PAGE_SPACE", 0, 4}, {"FIL_PAGE_OFFSET", 4, 4}, {"FIL_PAGE_PREV", 8, 4}, {"FIL_PAGE_NEXT", 12, 4}, {"FIL_PAGE_LSN", 16, 8}, {"FIL_PAGE_TYPE", 24, 2}, {"FIL_PAGE_FILE_FLUSH_LSN", 26, 8}, {"FIL_PAGE_ARCH_LOG_NO", 34, 4}}
	ph := []hdrField{{"PAGE_N_DIR_SLOTS", 38, 2}, {"PAGE_HEAP_TOP", 40, 2}, {"PAGE_N_HEAP", 42, 2}, {"PAGE_FREE", 44, 2}, {"PAGE_GARBAGE", 46, 2}, {"PAGE_LAST_INSERT", 48, 2}, {"PAGE_DIRECTION", 50, 2}, {"PAGE_N_DIRECTION", 52, 2}, {"PAGE_N_RECS", 54, 2}, {"PAGE_MAX_TRX_ID", 56, 8}, {"PAGE_LEVEL", 64, 2}, {"PAGE_INDEX_ID", 66, 8}}
	dict := []hdrField{{"DICT_HDR_ROW_ID", 38, 8}, {"DICT_HDR_TABLE_ID", 46, 8}, {"DICT_HDR_INDEX_ID", 54, 8}, {"DICT_HDR_MAX_SPACE_ID", 62, 4}, {"DICT_HDR_MIX_ID_LOW", 66, 4}, {"DICT_HDR_TABLES", 70, 4}, {"DICT_HDR_TABLE_IDS", 74, 4}, {"DICT_HDR_COLUMNS", 78, 4}, {"DICT_HDR_INDEXES", 82, 4}, {"DICT_HDR_FIELDS", 86, 4}}
	pt := c.typ(pIB, "Page")
	for _, n := range []int{1, 3} {
		for which := 0; which < n; which++ {
			what := fmt.Sprintf("page %d of %d", which+1, n)
			c.try("file", what, func() {
				x := &device{name: "f", total: n * pageSize, errAt: -1}
				m := newMem()
				d := newDevices(c, m, x)
				if n > 1 {
					for i := 0; i < n; i++ {
						x.number(m, i, uint64(i+3))
					}
				}
				f := c.fn(pIB, "parseFile")
				args := symArgs(f)
				args[len(args)-1] = strN(x.name)
				r := c.exec(f, args, m, d.install)
				c.curFn = f
				pages, elem := pagesOf(r, r.res[0], f.Signature.Results().At(0).Type())
				if len(pages) != n {
					panic(undecided("the pages of the file do not come out"))
				}
				bytes := x.bytes(m, which*pageSize, 128)
				cmp := func(rule, part string, mem *Mem, where string, page Value, fs []hdrField) {
					h := aggField(page, pt, part)
					ht := fieldType(pt, part)
					for _, k := range fs {
						var bs []*Node
						for _, b := range bytes[k.at : k.at+k.ln] {
							bs = append(bs, asNode(b))
						}
						c.eq(rule, what+": "+k.name, where, asNode(aggField(h, ht, k.name)), u32N(bs), nil)
					}
				}
				if !types.Identical(elem, pt) {
					panic(undecided("pages have another type"))
				}
				cmp("file", "fh", r.st.mem, c.L.where(f, nil), pages[which], fil)
				cmp("file", "ph", r.st.mem, c.L.where(f, nil), pages[which], ph[len(ph)-1:])
				// the page header
				g := c.fn(pIB, "parsePageHeader")
				if sigString(g) != "(*Page)(*Page)" {
					panic(undecided("parsePageHeader takes other parameters than expected"))
				}
				pm := newMem()
				for k, v := range r.st.mem.all() {
					pm.set(k, v)
				}
				cell := heap(pm, "page", pt, pages[which])
				ga := symArgs(g)
				ga[len(ga)-1] = cell
				c.curFn = g
				r2 := c.exec(g, ga, pm, nil)
				cmp("page", "ph", r2.st.mem, c.L.where(g, nil), loadAddr(r2.st.mem, cell.leaf, pt), ph)
				cmp("page", "fh", r2.st.mem, c.L.where(g, nil), loadAddr(r2.st.mem, cell.leaf, pt), fil)
				// the dictionary header
				h := c.fn(pIB, "parseSysPageHeader")
				if sigString(h) != "(Page)(Page,error)" {
					panic(undecided("parseSysPageHeader takes other parameters than expected"))
				}
				ha := symArgs(h)
				ha[len(ha)-1] = pages[which]
				c.curFn = h
				r3 := c.exec(h, ha, r.st.mem, nil)
				cmp("dictionary", "sp", r3.st.mem, c.L.where(h, nil), r3.res[0], dict)
				c.decide2("dictionary", what+": no error", c.L.where(h, nil), notN(nilness(asNode(r3.res[1]))), "a page is refused")
			})
		}
	}
}
