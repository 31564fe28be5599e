package main

// Undo records: C17 (filter), C20 (containment), C33 (contents).

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	prop("C17", techVal,
		"The record loop is analysed on a stream with undo records of several tables while the database and table name the user chose are unknown texts; the text written to standard output is compared, as a decision diagram, with the statements of the tables that match both. Every value of the type byte of an undo record is analysed as well.",
		checkC17, "the dictionary holds four tables whose names differ in one or both parts")
	prop("C20", techVal,
		"The record loop is analysed on streams in which an undo record of another table is damaged: every byte replaced, every length cut, padded, doubled, and with all of its content unknown. In each case the undo record behind it must be found, that is, the output must end with its statement exactly once.",
		checkC20, "damage of one byte at a time, every cut, and contents of up to three completely unknown bytes")
	prop("C33", techVal,
		"The record loop is analysed on undo records built from InnoDB's layout for every column kind, every number encoding, several keys and up to three changed columns, with unknown value bytes; the text written is compared, as a term, with the UPDATE statement made from the columns' own bytes.",
		checkC33, "up to three changed columns and three key columns of every supported kind; given lists of up to 130 columns and keys of up to 16")
}

// undoRec is an undo record of an update.
type undoRec struct {
	typ    []*Node // type_cmpl
	no     []*Node
	table  uint64
	info   []*Node
	trx    []*Node
	roll   []*Node
	keys   [][]*Node // with their lengths
	count  []*Node   // nil: number of cols
	cols   [][]*Node // position, length, data
	tail   []*Node
	noHead bool
}

func (u undoRec) parts() [][]*Node {
	def := func(b, d []*Node) []*Node {
		if b == nil {
			return d
		}
		return b
	}
	ps := [][]*Node{def(u.typ, cb(12)), def(u.no, cb(1)), much(u.table), def(u.info, cb(0)), def(u.trx, cb(0, 0, 0, 0, 9)), def(u.roll, cb(0, 0, 0, 0, 8))}
	ps = append(ps, u.keys...)
	ps = append(ps, def(u.count, comp(uint64(len(u.cols)))))
	ps = append(ps, u.cols...)
	return append(ps, u.tail)
}

func (u undoRec) body() []*Node { return bcat(u.parts()...) }

func undoRedo(body []*Node) []*Node {
	return bcat(cb(0x14, 0x05, 0x06), be(uint64(len(body)), 2), body)
}

func lenData(d []*Node) []*Node { return bcat(comp(uint64(len(d))), d) }

func col(pos uint64, d []*Node) []*Node { return bcat(comp(pos), lenData(d)) }

func nullCol(pos uint64) []*Node { return bcat(comp(pos), comp(0xffffffff)) }

func txt(s string) []*Node {
	var out []*Node
	for i := 0; i < len(s); i++ {
		out = append(out, constN(uint64(s[i])))
	}
	return out
}

// stream decides what is written for a stream.
func (c *Check) stream(rule, construct string, e *redoEnv, bytes []*Node, want *Node) {
	if c.skip(rule, construct) {
		return
	}
	c.try(rule, construct, func() {
		tickCount = 0
		r := e.parse(bytes)
		where := c.L.where(r.fn, nil)
		out := r.output()
		for _, x := range r.in.escaped {
			c.sites++
			if x.g == nTrue {
				c.fail(rule, construct, where, "panics: "+x.why)
			} else {
				c.open(rule, construct, where, "a panic is possible: "+x.why)
			}
			return
		}
		c.eq(rule, construct, where, out, want, nil)
	})
}

func stmt(db, tab, set, where string) *Node {
	return strN("update `" + db + "`.`" + tab + "` set " + set + " where " + where + ";\n")
}

// simpleTable has a number as key and two texts.
func simpleTable(id, space uint64, db, name string) redoTable {
	return redoTable{id: id, space: space, db: db, name: name, index: "PRIMARY", key: []string{"id"}, cols: []redoCol{
		{"id", dtInt, mtLong, 4, true, false},
		{"DB_TRX_ID", 0, 0, 6, false, false},
		{"DB_ROLL_PTR", 0, 0, 7, false, false},
		{"a", dtVarchar, mtVarchar, 100, false, false},
		{"b", dtVarchar, mtVarchar, 100, false, false},
	}}
}

func (e *redoEnv) filter(db, tab *Node) {
	e.db, e.tab = "", ""
	e.dbN, e.tabN = db, tab
}

func checkC17(c *Check) {
	c.rule("filter", "the statement of a table is written exactly when both filters are empty or equal to the names of the table")
	c.rule("type", "only an undo record of an updated row makes a statement")
	ts := []redoTable{simpleTable(12, 0x14, "shop", "orders"), simpleTable(13, 0x15, "shop", "items"), simpleTable(14, 0x16, "bank", "orders"), simpleTable(15, 0x17, "bank", "items"), simpleTable(16, 0x18, "shop", "orders#p#p0"), simpleTable(17, 0x19, "shopping", "order")}
	upd := func(t redoTable, s string) ([]*Node, *Node) {
		u := undoRec{table: t.id, keys: [][]*Node{lenData(be(7, 4))}, cols: [][]*Node{col(3, txt(s))}}
		return undoRedo(u.body()), stmt(t.db, t.name, "`a`='"+s+"'", "`id`='7'")
	}
	empty := func(n *Node) *Node { return eqN(n, strN("")) }
	match := func(db, tab *Node, t redoTable) *Node {
		return andN(orN(empty(db), eqN(db, strN(t.db))), orN(empty(tab), eqN(tab, strN(t.name))))
	}
	names := map[string]*Node{"unknown": nil, "empty": strN(""), "shop": strN("shop"), "orders": strN("orders"), "Shop": strN("Shop"), "sho": strN("sho"), "shops": strN("shops"), "items": strN("items"), "bank": strN("bank"),
		"ord": strN("ord"), "ORDERS": strN("ORDERS"), "orders2": strN("orders2"), "shop.orders": strN("shop.orders"), "blank": strN(" "), "rders": strN("rders"), "percent": strN("%"),
		"partition": strN("orders#p#p0"), "copy": strN("orders_copy"), "part name": strN("orders#"), "quoted": strN("`orders`")}
	keys := map[string]int{}
	for k := range names {
		keys[k] = 0
	}
	for _, d := range sortedKeys(keys) {
		for _, t := range sortedKeys(keys) {
			db, tab := names[d], names[t]
			if db == nil {
				db = asNode(sym("chosen database", tString))
			}
			if tab == nil {
				tab = asNode(sym("chosen table", tString))
			}
			for i, x := range ts {
				b, st := upd(x, "v")
				e := c.newRedoEnv(ts...)
				e.filter(db, tab)
				c.stream("filter", fmt.Sprintf("database %s, table %s, update of %s.%s", d, t, x.db, x.name), e, b, iteN(match(db, tab, x), st, strN("")))
				if d == "unknown" && t == "unknown" || i == 0 {
					y := ts[(i+1)%len(ts)]
					b2, st2 := upd(y, "w")
					e := c.newRedoEnv(ts...)
					e.filter(db, tab)
					c.stream("filter", fmt.Sprintf("database %s, table %s, updates of %s.%s and %s.%s", d, t, x.db, x.name, y.db, y.name), e, bcat(b, b2),
						catN(iteN(match(db, tab, x), st, strN("")), iteN(match(db, tab, y), st2, strN(""))))
				}
			}
		}
	}
	// type bytes: 11 inserted row, 12 updated row, 13 updated deleted row, 14 delete mark
	for v := uint64(0); v < 256; v++ {
		u := undoRec{typ: cb(v), table: 12, keys: [][]*Node{lenData(be(7, 4))}, cols: [][]*Node{col(3, txt("v"))}}
		body := u.body()
		want := strN("")
		switch v & 15 {
		case 12:
			want = stmt("shop", "orders", "`a`='v'", "`id`='7'")
		case 11:
			body = bcat(cb(v), cb(1), much(12), lenData(be(7, 4)))
		case 13, 14:
		default:
			continue
		}
		c.stream("type", fmt.Sprintf("type byte %#02x", v), c.newRedoEnv(ts...), undoRedo(body), want)
	}
}

// tailProbe: the output ends with the statement of the record behind the damage,
// and holds it once.
func (c *Check) tailProbe(rule, construct string, lead []*Node, before int) {
	if c.skip(rule, construct) {
		return
	}
	c.try(rule, construct, func() {
		tickCount = 0
		p, want := probeRec()
		other := simpleTable(200, 0x15, "shop", "items")
		e := c.newRedoEnv(c.ordersTable(), other)
		r := e.parse(bcat(lead, p))
		where := c.L.where(r.fn, nil)
		c.sites++
		for _, x := range r.in.escaped {
			if x.g == nTrue {
				c.fail(rule, construct, where, "panics: "+x.why+": "+showBytes(lead))
			} else {
				c.open(rule, construct, where, "a panic is possible: "+x.why)
			}
			return
		}
		out := r.output()
		bad, unknown := "", ""
		for _, t := range leaves(out) {
			var s string
			switch {
			case t.k == KStr:
				s = t.s
			case t.k == KCat && t.args[len(t.args)-1].k == KStr:
				s = "…" + t.args[len(t.args)-1].s
				for _, a := range t.args[:len(t.args)-1] {
					if a.k == KStr && strings.Contains(a.s, want) {
						s = want + s
					}
				}
			default:
				unknown = t.String()
				continue
			}
			if !strings.HasSuffix(s, want) {
				bad = fmt.Sprintf("the statement of the next record is not written, only %q", s)
			} else if n := strings.Count(s, "\n") - 1; n > before {
				bad = fmt.Sprintf("%d statements for %d damaged records: %q", n, before, s)
			}
		}
		switch {
		case bad != "" && out.leaf != nil:
			c.fail(rule, construct, where, bad+": "+showBytes(lead))
		case bad != "" || unknown != "":
			c.open(rule, construct, where, bad+unknown)
		default:
			c.ob(rule, construct, where, true, "")
		}
	})
}

func checkC20(c *Check) {
	c.rule("byte", "with any byte of an undo record replaced the next record is found")
	c.rule("cut", "with an undo record cut at any length the next record is found")
	c.rule("pad", "bytes behind the last field of an undo record are skipped")
	c.rule("table", "behind an undo record of an unknown table, or a table without key, the next record is found")
	c.rule("unknown", "behind an undo record of any content the next record is found")
	c.rule("end", "an undo record whose length runs over the end of the data ends the data")
	u := func(pos ...uint64) undoRec {
		x := undoRec{table: 200, keys: [][]*Node{lenData(be(7, 4))}}
		for i, p := range pos {
			x.cols = append(x.cols, col(p, txt(strings.Repeat("ab", i+1))))
		}
		return x
	}
	long := undoRec{table: 200, keys: [][]*Node{lenData(be(9, 4))}, cols: [][]*Node{col(3, fb("long", 150)), nullCol(4)}}
	recs := map[string]undoRec{"one column": u(3), "two columns": u(3, 4), "no column": u(), "NULL": {table: 200, keys: [][]*Node{lenData(be(7, 4))}, cols: [][]*Node{nullCol(3)}}, "insert": {typ: cb(11), table: 200}}
	if c.Tier == "thorough" {
		recs["long value"] = long
	}
	names := map[string]int{}
	for k := range recs {
		names[k] = 0
	}
	for _, k := range sortedKeys(names) {
		rec := recs[k]
		body := rec.body()
		if k == "insert" {
			body = bcat(cb(11, 1), much(200), lenData(be(7, 4)))
		}
		c.tailProbe("pad", k+": whole", undoRedo(body), 1)
		for _, n := range []int{1, 2, 3, 10, 250, 300} {
			c.tailProbe("pad", fmt.Sprintf("%s: %d bytes behind it", k, n), undoRedo(bcat(body, fb("pad", n))), 1)
		}
		for n := 0; n < len(body); n++ {
			c.tailProbe("cut", fmt.Sprintf("%s: %d of %d bytes", k, n, len(body)), undoRedo(body[:n]), 1)
		}
		for i := range body {
			v, ok := isConstN(body[i])
			if !ok {
				continue
			}
			vals := []uint64{0, 1, 2, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xff, v ^ 1, (v + 1) & 255, (v - 1) & 255}
			if c.Tier == "thorough" {
				vals = nil
				for b := uint64(0); b < 256; b++ {
					vals = append(vals, b)
				}
			}
			for _, b := range vals {
				if b == v {
					continue
				}
				d := append([]*Node(nil), body...)
				d[i] = constN(b)
				c.tailProbe("byte", fmt.Sprintf("%s: byte %d is %#02x", k, i, b), undoRedo(d), 1)
			}
		}
	}
	body := u(3, 4).body()
	for i := 1; i < len(body); i += 3 {
		d := append([]*Node(nil), body...)
		d[i] = constN(0xff)
		c.tailProbe("byte", fmt.Sprintf("two records with byte %d damaged", i), bcat(undoRedo(d), undoRedo(d)), 2)
		c.tailProbe("cut", fmt.Sprintf("a record cut at %d and a whole one", i), bcat(undoRedo(body[:i]), undoRedo(body)), 2)
	}
	for _, id := range []uint64{0, 1, 99, 127, 128, 16383, 16384, 2097151, 2097152, 0xfffffff, 0x10000000, 0xffffffff, 0x100000000, 0xc00000000c, 0xffffffffffffffff} {
		x := u(3)
		x.table = id
		c.tailProbe("table", fmt.Sprintf("table id %d", id), undoRedo(x.body()), 0)
	}
	for n := 1; n <= 2; n++ {
		c.tailProbe("unknown", fmt.Sprintf("%d unknown bytes", n), undoRedo(fb("undo", n)), 1)
	}
	for _, b := range []uint64{11, 12, 13, 14, 0, 0x8c} {
		for n := 1; n <= 3; n++ {
			c.tailProbe("unknown", fmt.Sprintf("type byte %#x and %d unknown bytes", b, n), undoRedo(bcat(cb(b), fb("undo", n))), 1)
		}
		c.tailProbe("unknown", fmt.Sprintf("type byte %#x, table 200 and 2 unknown bytes", b), undoRedo(bcat(cb(b, 1), much(200), fb("undo", 2))), 1)
	}
	// a length that runs over the end of the data
	p, want := probeRec()
	for _, n := range []uint64{1, 2, 100, 65000} {
		for _, k := range []string{"insert", "one column"} {
			b := recs[k].body()
			if k == "insert" {
				b = bcat(cb(11, 1), much(200), lenData(be(7, 4)))
			}
			e := c.newRedoEnv(c.ordersTable(), simpleTable(200, 0x15, "shop", "items"))
			e.filter(strN("shop"), strN("orders"))
			c.stream("end", fmt.Sprintf("%s, %d bytes too long", k, n), e, bcat(p, cb(0x14, 5, 6), be(uint64(len(b))+n, 2), b), strN(want))
		}
	}
}

// ---- contents ----------------------------------------------------------------------

type undoKind struct {
	name string
	col  redoCol
	lens []int // lengths of values
	fix  bool  // of fixed length
}

func undoKinds() []undoKind {
	return []undoKind{
		{"TINYINT", redoCol{"", dtInt, mtTiny, 1, false, false}, []int{1}, true},
		{"TINYINT UNSIGNED", redoCol{"", dtInt, mtTiny, 1, true, false}, []int{1}, true},
		{"SMALLINT", redoCol{"", dtInt, mtShort, 2, false, false}, []int{2}, true},
		{"MEDIUMINT", redoCol{"", dtInt, mtInt24, 3, false, false}, []int{3}, true},
		{"INT", redoCol{"", dtInt, mtLong, 4, false, false}, []int{4}, true},
		{"INT UNSIGNED", redoCol{"", dtInt, mtLong, 4, true, false}, []int{4}, true},
		{"BIGINT", redoCol{"", dtInt, mtLonglong, 8, false, false}, []int{8}, true},
		{"BIGINT UNSIGNED", redoCol{"", dtInt, mtLonglong, 8, true, false}, []int{8}, true},
		{"VARCHAR latin1", redoCol{"", dtVarchar, mtVarchar, 100, false, false}, []int{0, 1, 3, 100}, false},
		{"VARCHAR", redoCol{"", dtVarmysql, mtVarchar, 300, false, false}, []int{0, 2, 127, 128, 255, 256, 300}, false},
		{"CHAR", redoCol{"", dtMysql, mtString, 30, false, false}, []int{5}, false},
		{"VARBINARY", redoCol{"", dtBinary, mtVarchar, 20, false, true}, []int{0, 1, 4, 20}, false},
		{"BINARY", redoCol{"", dtFixbinary, mtString, 3, false, true}, []int{3}, true},
		{"BLOB", redoCol{"", dtBlob, 252, 10, false, true}, []int{0, 1, 6}, false},
		{"TEXT", redoCol{"", dtBlob, 252, 10, false, false}, []int{0, 1, 6}, false},
		{"DATE", redoCol{"", dtInt, mtDate, 3, false, false}, []int{3}, true},
		{"YEAR", redoCol{"", dtInt, mtYear, 1, true, false}, []int{1}, true},
		{"DATETIME", redoCol{"", dtFixbinary, mtDatetime, 5, false, false}, []int{5}, true},
		{"TIMESTAMP", redoCol{"", dtFixbinary, mtTimestamp, 4, false, false}, []int{4}, true},
		{"TIME", redoCol{"", dtFixbinary, mtTime, 3, false, false}, []int{3}, true},
		{"BIT(12)", redoCol{"", dtFixbinary, mtBit, 2, true, false}, []int{2}, true},
		{"FLOAT", redoCol{"", dtFloat, 4, 4, false, false}, []int{4}, true},
		{"DOUBLE", redoCol{"", dtDouble, 5, 8, false, false}, []int{8}, true},
	}
}

// colText is the literal of a column whose value has the given bytes.
func (c *Check) colText(k redoCol, data []*Node) *Node {
	f := c.fn(pUtils, "ParseData")
	if len(f.Params) != 7 {
		panic(undecided("ParseData takes other parameters than expected"))
	}
	fix := k.flen
	switch k.ft {
	case dtVarchar, dtVarmysql, dtMysql, dtBlob:
		fix = 0
	}
	m := newMem()
	cell := newAlloc("isbinary")
	noteCell(cell, tBool)
	storeAddr(m, cell, boolN(k.binary))
	base := newAlloc("value")
	m.set(base, vecOf(data))
	n := mkConst(uint64(len(data)))
	args := []Value{constN(k.ft), constN(k.mt), leafN(mkSlice(base, mkConst(0), n, n)), constN(uint64(len(data))), constN(fix), boolN(k.unsig), leafN(cell)}
	r := c.exec(f, args, m, nil)
	bin := asNode(loadAddr(r.st.mem, cell, tBool))
	return litN(r.st.mem, asNode(r.res[0]), k.mt, bin == nTrue)
}

// undoCase is an update of one row.
type undoCase struct {
	rec  undoRec
	keys []*Node // names with literals
	sets []*Node
}

func named(n string, lit *Node) *Node { return catN(strN("`"+n+"`="), lit) }

func (u undoCase) text(db, tab string) *Node {
	if len(u.sets) == 0 || len(u.keys) == 0 {
		return strN("")
	}
	join := func(l []*Node, sep string) *Node {
		out := l[0]
		for _, x := range l[1:] {
			out = catN(catN(out, strN(sep)), x)
		}
		return out
	}
	t := catN(strN("update `"+db+"`.`"+tab+"` set "), join(u.sets, ", "))
	return catN(catN(t, strN(" where ")), catN(join(u.keys, " and "), strN(";\n")))
}

// kindTable has the given columns behind its key.
func kindTable(id uint64, key []redoCol, cols []redoCol) redoTable {
	t := redoTable{id: id, space: 0x15, db: "shop", name: "items", index: "PRIMARY"}
	for _, k := range key {
		t.cols = append(t.cols, k)
		t.key = append(t.key, k.name)
	}
	t.cols = append(t.cols, redoCol{"DB_TRX_ID", 0, 0, 6, false, false}, redoCol{"DB_ROLL_PTR", 0, 0, 7, false, false})
	t.cols = append(t.cols, cols...)
	return t
}

func checkC33(c *Check) {
	c.rule("value", "a changed column is written with exactly its own bytes decoded as its type")
	c.rule("key", "the key columns are written in key order with their own bytes")
	c.rule("list", "every changed column of the record is written, in order, NULL for the length 0xFFFFFFFF")
	c.rule("header", "numbers of every encoding in the head of the record are skipped by their length")
	c.rule("rows", "records behind each other do not share values")
	c.rule("short", "a value that does not fit in the record makes no statement")
	c.rule("unknown", "an unknown table or column position makes no statement")
	idCol := redoCol{"id", dtInt, mtLong, 4, true, false}
	p, probe := probeRec()
	run := func(rule, name string, t redoTable, want *Node, recs ...undoRec) {
		var b []*Node
		for _, r := range recs {
			b = append(b, undoRedo(r.body())...)
		}
		c.stream(rule, name, c.newRedoEnv(c.ordersTable(), t), bcat(b, p), catN(want, strN(probe)))
	}
	nm := func(k redoCol, n string) redoCol { k.name = n; return k }
	mkCol := func(t redoTable, pos uint64, name string, n int) ([]*Node, *Node) {
		d := fb(name, n)
		k := t.cols[pos]
		return col(pos, d), named(k.name, c.colText(k, d))
	}
	key7 := func() ([]*Node, *Node) { return lenData(be(7, 4)), named("id", strN("'7'")) }
	kinds := undoKinds()
	for _, k := range kinds {
		for _, n := range k.lens {
			t := kindTable(200, []redoCol{idCol}, []redoCol{nm(k.col, "a")})
			c.try("value", k.name, func() {
				kb, kt := key7()
				cbs, ct := mkCol(t, 3, "data", n)
				u := undoCase{rec: undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{cbs}}, keys: []*Node{kt}, sets: []*Node{ct}}
				run("value", fmt.Sprintf("%s of %d bytes", k.name, n), t, u.text("shop", "items"), u.rec)
				// behind it nothing but the end of the record
				tl := u.rec
				tl.tail = fb("tail", 6)
				run("value", fmt.Sprintf("%s of %d bytes, more data behind it", k.name, n), t, u.text("shop", "items"), tl)
				// in front of another column
				t2 := kindTable(200, []redoCol{idCol}, []redoCol{nm(k.col, "a"), nm(kinds[8].col, "b"), nm(k.col, "c")})
				x, xt := mkCol(t2, 3, "x", n)
				y, yt := mkCol(t2, 4, "y", 2)
				z, zt := mkCol(t2, 5, "z", n)
				w := undoCase{rec: undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{x, y, z}}, keys: []*Node{kt}, sets: []*Node{xt, yt, zt}}
				run("list", fmt.Sprintf("%s of %d bytes, VARCHAR, %s", k.name, n, k.name), t2, w.text("shop", "items"), w.rec)
				w = undoCase{rec: undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{nullCol(3), y, z}}, keys: []*Node{kt}, sets: []*Node{named("a", strN("NULL")), yt, zt}}
				run("list", fmt.Sprintf("%s NULL, VARCHAR, %s of %d bytes", k.name, k.name, n), t2, w.text("shop", "items"), w.rec)
			})
			if n == 0 || n > 200 || k.name == "FLOAT" || k.name == "DOUBLE" {
				continue
			}
			tk := kindTable(200, []redoCol{nm(k.col, "k")}, []redoCol{nm(kinds[8].col, "b")})
			c.try("key", k.name, func() {
				d := fb("key", n)
				cbs, ct := mkCol(tk, 3, "data", 2)
				u := undoCase{rec: undoRec{table: 200, keys: [][]*Node{lenData(d)}, cols: [][]*Node{cbs}}, keys: []*Node{named("k", c.colText(tk.cols[0], d))}, sets: []*Node{ct}}
				run("key", fmt.Sprintf("%s of %d bytes", k.name, n), tk, u.text("shop", "items"), u.rec)
			})
		}
	}
	// keys of several columns
	intK, varK, bigK, binK := kinds[4].col, kinds[8].col, kinds[7].col, kinds[11].col
	for _, ks := range [][]redoCol{{intK, varK}, {varK, intK}, {varK, varK, bigK}, {binK, intK, varK}, {bigK, bigK},
		{intK, varK, intK, varK}, {intK, intK, varK, intK, intK}, {varK, intK, intK, bigK, varK, binK, intK, varK}, {intK, varK, intK, varK, intK, varK, intK, varK, bigK, varK, intK, binK, intK, intK, intK, varK}} {
		t := kindTable(200, nil, []redoCol{nm(varK, "b")})
		var keyCols []redoCol
		name := ""
		for i, k := range ks {
			keyCols = append(keyCols, nm(k, fmt.Sprintf("k%d", i)))
			name += fmt.Sprintf(" %d/%d", k.ft, k.mt)
		}
		t = kindTable(200, keyCols, []redoCol{nm(varK, "b")})
		c.try("key", "key of columns"+name, func() {
			var u undoCase
			u.rec.table = 200
			for i, k := range keyCols {
				n := int(k.flen)
				if k.ft == dtVarchar || k.ft == dtBinary {
					n = i + 2
				}
				d := fb(fmt.Sprintf("key%d", i), n)
				u.rec.keys = append(u.rec.keys, lenData(d))
				u.keys = append(u.keys, named(k.name, c.colText(k, d)))
			}
			b, x := mkCol(t, uint64(len(ks)+2), "data", 3)
			u.rec.cols, u.sets = [][]*Node{b}, []*Node{x}
			run("key", "key of columns"+name, t, u.text("shop", "items"), u.rec)
			// the key is not that of a secondary index, in whatever order the indexes come
			for _, first := range []bool{false, true} {
				t.indexes, t.indexFirst = []string{"second", "PRIMARY_2"}, first
				run("key", fmt.Sprintf("key of columns%s with secondary indexes, primary key first: %v", name, first), t, u.text("shop", "items"), u.rec)
			}
			// key order is not column order
			if len(ks) == 2 {
				t2 := t
				t2.key = []string{"k1", "k0"}
				v := u
				v.rec.keys = [][]*Node{u.rec.keys[1], u.rec.keys[0]}
				v.keys = []*Node{u.keys[1], u.keys[0]}
				run("key", "key of columns"+name+" in the other order", t2, v.text("shop", "items"), v.rec)
			}
			// other records of the same table
			w := u
			w.rec.keys, w.keys = nil, nil
			for i, k := range keyCols {
				n := int(k.flen)
				if k.ft == dtVarchar || k.ft == dtBinary {
					n = 5 - i
				}
				d := fb(fmt.Sprintf("other%d", i), n)
				w.rec.keys = append(w.rec.keys, lenData(d))
				w.keys = append(w.keys, named(k.name, c.colText(k, d)))
			}
			w.rec.cols, w.sets = [][]*Node{nullCol(uint64(len(ks) + 2))}, []*Node{named("b", strN("NULL"))}
			run("rows", "key of columns"+name, t, catN(catN(u.text("shop", "items"), w.text("shop", "items")), u.text("shop", "items")), u.rec, w.rec, u.rec)
		})
	}
	simple := simpleTable(200, 0x15, "shop", "items")
	base := func() (undoRec, *Node) {
		kb, kt := key7()
		x, xt := mkCol(simple, 3, "data", 3)
		u := undoCase{rec: undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{x}}, keys: []*Node{kt}, sets: []*Node{xt}}
		return u.rec, u.text("shop", "items")
	}
	// heads
	c.try("header", "encodings", func() {
		kinds := compKinds("n")
		for _, k := range sortedBytes(kinds) {
			r, want := base()
			r.no = kinds[k]
			run("header", "undo number "+k, simple, want, r)
			r, want = base()
			r.trx = bcat(kinds[k], fb("low", 4))
			run("header", "transaction id "+k, simple, want, r)
			r, want = base()
			r.roll = bcat(kinds[k], fb("low", 4))
			run("header", "roll pointer "+k, simple, want, r)
			// a number of more than 32 bits: both halves are compressed
			if k != "0x00" {
				r, want = base()
				r.no = bcat(cb(0xff), kinds[k], cb(0x85, 0x05))
				run("header", "undo number with high half "+k, simple, want, r)
			}
		}
		r, want := base()
		r.info = fb("info", 1)
		run("header", "info bits", simple, want, r)
		for v := uint64(12); v < 256; v += 16 {
			r, want := base()
			r.typ = cb(v)
			run("header", fmt.Sprintf("type byte %#x", v), simple, want, r)
		}
		for _, id := range []uint64{1, 13, 127, 128, 200, 16383, 16384, 20000, 2097151, 2097152, 3000000, 0x0fffffff, 0x10000000, 0x20000000, 0xffffffff, 0x100000000, 0x100000005, 0x7f00000080, 0x8000004000, 0x1234567890abcdef} {
			r, want := base()
			r.table = id
			run("header", fmt.Sprintf("table id %d", id), simpleTable(id, 0x15, "shop", "items"), want, r)
		}
	})
	// lists
	c.try("list", "lists", func() {
		r, _ := base()
		r.cols = nil
		run("list", "no changed column", simple, strN(""), r)
		for _, w := range []string{"vv", "vn", "nv", "nn"} {
			r, _ := base()
			_, kt := key7()
			u := undoCase{keys: []*Node{kt}}
			r.cols = nil
			for i, x := range w {
				pos := uint64(3 + i)
				if x == 'n' {
					r.cols = append(r.cols, nullCol(pos))
					u.sets = append(u.sets, named(simple.cols[pos].name, strN("NULL")))
				} else {
					b, t := mkCol(simple, pos, fmt.Sprintf("v%d", i), 2+i)
					r.cols = append(r.cols, b)
					u.sets = append(u.sets, t)
				}
			}
			run("list", "columns a and b: "+w, simple, u.text("shop", "items"), r)
			r.cols[0], r.cols[1] = r.cols[1], r.cols[0]
			u.sets[0], u.sets[1] = u.sets[1], u.sets[0]
			run("list", "columns b and a: "+w, simple, u.text("shop", "items"), r)
		}
		// a key column among the changed ones
		rk, _ := base()
		_, kt := key7()
		x, xt := mkCol(simple, 0, "newkey", 4)
		rk.cols = [][]*Node{x}
		run("list", "the key column changes", simple, undoCase{keys: []*Node{kt}, sets: []*Node{xt}}.text("shop", "items"), rk)
		// columns far behind
		var many []redoCol
		for i := 0; i < 300; i++ {
			many = append(many, nm(varK, fmt.Sprintf("c%d", i)))
		}
		wide := kindTable(200, []redoCol{idCol}, many)
		for _, pos := range []uint64{3, 126, 127, 128, 129, 200, 255, 256, 302} {
			r, _ := base()
			x, xt := mkCol(wide, pos, "far", 3)
			r.cols = [][]*Node{x}
			run("list", fmt.Sprintf("the column at position %d", pos), wide, undoCase{keys: []*Node{kt}, sets: []*Node{xt}}.text("shop", "items"), r)
		}
		r, _ = base()
		var sets []*Node
		r.cols = nil
		n := 130
		for i := 0; i < n; i++ {
			r.cols = append(r.cols, col(uint64(i+3), txt("v")))
			sets = append(sets, strN(fmt.Sprintf("`c%d`='v'", i)))
		}
		run("list", fmt.Sprintf("%d changed columns", n), wide, undoCase{keys: []*Node{kt}, sets: sets}.text("shop", "items"), r)
	})
	// records behind each other
	c.try("rows", "rows", func() {
		mk := func(key uint64, cols ...interface{}) (undoRec, *Node) {
			r := undoRec{table: 200, keys: [][]*Node{lenData(be(key, 4))}}
			u := undoCase{keys: []*Node{named("id", strN(fmt.Sprintf("'%d'", key)))}}
			for i, x := range cols {
				pos := uint64(3 + i)
				switch s := x.(type) {
				case string:
					r.cols = append(r.cols, col(pos, txt(s)))
					u.sets = append(u.sets, named(simple.cols[pos].name, strN("'"+s+"'")))
				case nil:
					r.cols = append(r.cols, nullCol(pos))
					u.sets = append(u.sets, named(simple.cols[pos].name, strN("NULL")))
				}
			}
			return r, u.text("shop", "items")
		}
		sets := [][]interface{}{{"x"}, {nil}, {"yy", "z"}, {nil, "w"}, {"q", nil}, {}}
		for i, a := range sets {
			for j, b := range sets {
				r, w := mk(1, a...)
				s, v := mk(700000, b...)
				run("rows", fmt.Sprintf("updates %d and %d", i, j), simple, catN(w, v), r, s)
				t, x := mk(3, "last")
				run("rows", fmt.Sprintf("updates %d, %d and a third", i, j), simple, catN(catN(w, v), x), r, s, t)
			}
		}
		// a failed record in between leaves nothing behind
		for i, a := range sets {
			r, w := mk(1, a...)
			bad, _ := mk(2, "lost", "lost too")
			b := bad.body()
			for n := 6; n < len(b); n += 2 {
				c.stream("rows", fmt.Sprintf("update %d behind a record cut at %d", i, n), c.newRedoEnv(c.ordersTable(), simple), bcat(undoRedo(b[:n]), undoRedo(r.body()), p), catN(w, strN(probe)))
			}
		}
		// tables with ids and columns that look alike take turns
		type alike struct {
			id, space uint64
			db, name  string
		}
		others := []alike{{201, 0x15, "bank", "items"}, {201, 0x16, "bank", "items"}, {201, 0x15, "items", "shop"}, {201, 0x16, "shop", "orders2"}, {3, 0x16, "shop", "item"}}
		for _, id := range []uint64{200 + 1<<8, 200 + 1<<16, 200 + 1<<28, 200 + 1<<32, 200 + 1<<40, 200 + 1<<63} {
			others = append(others, alike{id, 0x15, "store", "goods"})
		}
		for _, o := range others {
			other := fmt.Sprintf("%d (%s.%s)", o.id, o.db, o.name)
			t2 := redoTable{id: o.id, space: o.space, db: o.db, name: o.name, index: "PRIMARY", key: []string{"no"}, cols: []redoCol{
				nm(idCol, "no"), simple.cols[1], simple.cols[2], nm(varK, "c"), nm(intK, "d")}}
			x, xt := mkCol(t2, 3, "c", 2)
			y, yt := mkCol(t2, 4, "d", 4)
			kb, _ := key7()
			r2 := undoRec{table: o.id, keys: [][]*Node{kb}, cols: [][]*Node{x, y}}
			w2 := undoCase{keys: []*Node{named("no", strN("'7'"))}, sets: []*Node{xt, yt}}.text(o.db, o.name)
			r1, w1 := base()
			e := func() *redoEnv { return c.newRedoEnv(c.ordersTable(), simple, t2) }
			stream := func(rs ...undoRec) []*Node {
				var b []*Node
				for _, r := range rs {
					b = append(b, undoRedo(r.body())...)
				}
				return bcat(b, p)
			}
			c.stream("rows", fmt.Sprintf("updates of the tables 200, %s, 200", other), e(), stream(r1, r2, r1), catN(catN(catN(w1, w2), w1), strN(probe)))
			c.stream("rows", fmt.Sprintf("updates of the tables %s, 200, %s", other, other), e(), stream(r2, r1, r2), catN(catN(catN(w2, w1), w2), strN(probe)))
		}
		// binary flags do not stick to a column
		bt := kindTable(200, []redoCol{idCol}, []redoCol{nm(kinds[12].col, "a"), nm(kinds[8].col, "b")})
		x, xt := mkCol(bt, 3, "bin", 3)
		y, yt := mkCol(bt, 4, "txt", 2)
		kb, kt := key7()
		one := undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{x}}
		two := undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{y}}
		t1 := undoCase{keys: []*Node{kt}, sets: []*Node{xt}}.text("shop", "items")
		t2 := undoCase{keys: []*Node{kt}, sets: []*Node{yt}}.text("shop", "items")
		run("rows", "binary and text", bt, catN(catN(t1, t2), t1), one, two, one)
	})
	// damage
	c.try("short", "short", func() {
		for _, k := range []undoKind{kinds[4], kinds[8], kinds[11], kinds[13], kinds[15], kinds[17], kinds[20]} {
			t := kindTable(200, []redoCol{idCol}, []redoCol{nm(k.col, "a"), nm(varK, "b")})
			n := k.lens[len(k.lens)-1]
			if n > 10 {
				n = 4
			}
			kb, _ := key7()
			d := txt(strings.Repeat("\x12", n))
			last := undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{col(4, txt("zz")), col(3, d)}}
			for _, r := range []undoRec{last, {table: 200, keys: [][]*Node{kb}, cols: [][]*Node{col(3, d), col(4, txt("zz"))}}} {
				b := r.body()
				for cut := 1; cut < len(b)-1; cut++ {
					c.stream("short", fmt.Sprintf("%s: record cut by %d bytes", k.name, cut), c.newRedoEnv(c.ordersTable(), t), bcat(undoRedo(b[:len(b)-cut]), p), strN(probe))
				}
			}
		}
		// the number for NULL runs over the end
		kb, _ := key7()
		for _, r := range []undoRec{{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{nullCol(3)}}, {table: 200, keys: [][]*Node{kb}, cols: [][]*Node{col(3, txt("a")), nullCol(4)}}} {
			b := r.body()
			for cut := 1; cut <= 6; cut++ {
				c.stream("short", fmt.Sprintf("NULL cut by %d bytes, %d columns", cut, len(r.cols)), c.newRedoEnv(c.ordersTable(), simple), bcat(undoRedo(b[:len(b)-cut]), cb(0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff), p), strN(probe))
			}
		}
		// the key runs over the end
		for cut := 1; cut < 8; cut++ {
			b := undoRec{table: 200, keys: [][]*Node{kb}, count: cb(0)}.body()
			c.stream("short", fmt.Sprintf("key cut by %d bytes", cut), c.newRedoEnv(c.ordersTable(), simple), bcat(undoRedo(b[:len(b)-cut]), cb(0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff), p), strN(probe))
		}
		for _, over := range []uint64{1, 2, 100, 70000, 0xfffffffb} {
			kb, _ := key7()
			r := undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{bcat(cb(3), comp(3+over), txt("abc"))}}
			run("short", fmt.Sprintf("announced length %d bytes too long", over), simple, strN(""), r)
		}
	})
	c.try("unknown", "unknown", func() {
		for _, id := range []uint64{0, 1, 201, 199, 0xc8c8, 0x20000000, 0x1000000c8} {
			r, _ := base()
			r.table = id
			run("unknown", fmt.Sprintf("table id %d", id), simple, strN(""), r)
		}
		for _, pos := range []uint64{5, 6, 100, 127, 128, 256 + 3, 65536 + 3, 0xffffffff} {
			kb, _ := key7()
			r := undoRec{table: 200, keys: [][]*Node{kb}, cols: [][]*Node{col(pos, txt("abc"))}}
			run("unknown", fmt.Sprintf("column position %d", pos), simple, strN(""), r)
			r.cols = [][]*Node{col(3, txt("ok")), col(pos, txt("abc"))}
			run("unknown", fmt.Sprintf("column position %d behind a known one", pos), simple, strN(""), r)
			r.cols = [][]*Node{col(pos, txt("abc")), col(3, txt("ok"))}
			run("unknown", fmt.Sprintf("column position %d in front of a known one", pos), simple, strN(""), r)
		}
	})
}

var _ = types.Typ
